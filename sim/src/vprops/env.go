// Package vprops holds the scenarios that decide the properties.
package vprops

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"net/http"
	"simple"
	"strings"
	"testing"
	"testing/synctest"
	"thrift"
	"time"
	"vnet"
	"vsim"
	"vwork"
)

// Env is what a scenario works with.
type Env struct {
	Coarse   bool // large values, coarse deliveries
	S        *vsim.Sim
	N        *vnet.Net
	Prop     string
	Thorough bool
	Conn     map[*vsim.Task]*vnet.TCPConn // last connection a task dialed
	desc     []string
	post     []func()
	Stalls   bool // slow-task stalls are on
	// Timing is true when simulated time passes only in the network.
	Timing bool
	// NonTrivial is set by the scenario when the run exercised the property.
	NonTrivial bool
}

// Variant is one scenario of a property.
type Variant struct {
	Name   string
	Weight int
	Run    func(e *Env)
}

var Props = map[string][]Variant{}

func reg(prop, name string, weight int, f func(e *Env)) {
	Props[prop] = append(Props[prop], Variant{name, weight, f})
}

// Desc describes the scenario for samples and replay files.
func (e *Env) Desc(f string, a ...interface{}) {
	if len(e.desc) < 60 {
		e.desc = append(e.desc, vsim.Sprintf(f, a...))
	}
	if e.S.Trace {
		e.S.Logf("SCENARIO "+f, a...)
	}
}

// Post registers a check made after the run, outside any task.
func (e *Env) Post(f func()) { e.post = append(e.post, f) }

// Swarm draws the scheduling knobs of the run.
func (e *Env) Swarm(stalls bool) {
	s := e.S
	switch s.Draw(5) {
	case 1:
		s.PreemptMax, s.PreemptPct = 300, 30
	case 2:
		s.PreemptMax, s.PreemptPct = 40, 60
	case 3:
		s.PreemptMax, s.PreemptPct = 4, 30
	case 4:
		s.PreemptMax, s.PreemptPct = 12, 100
	}
	if e.Coarse && s.PreemptMax > 0 {
		// A large value takes millions of steps: switch every few thousand.
		s.PreemptMax *= 500
	}
	e.Timing = true
	if stalls && s.Draw(4) == 3 {
		s.StallPct = 1 + s.Draw(30)
		s.StallMax = int64(time.Millisecond) * int64(1+s.Draw(200))
		e.Timing = false
	}
}

var latencies = []int64{0, 0, int64(50 * time.Microsecond), int64(time.Millisecond), int64(20 * time.Millisecond)}

// Dir draws a healthy direction.
func (e *Env) Dir() (d vnet.Dir) {
	s := e.S
	d.Latency = latencies[s.Draw(len(latencies))]
	switch s.Draw(6) {
	case 1:
		d.Seg = 1
	case 2:
		d.Seg = -3
	case 3:
		d.Seg = -16
	case 4:
		d.Seg = -200
	case 5:
		d.Seg = 1 + s.Draw(9)
	}
	if d.Seg != 0 && s.Draw(3) == 2 {
		d.Gap = int64(time.Microsecond) * int64(1+s.Draw(2000))
	}
	switch s.Draw(8) {
	case 5:
		d.Cap = 1 + s.Draw(8)
	case 6:
		d.Cap = 64
	case 7:
		d.Cap = 1000
	}
	switch s.Draw(8) {
	case 6:
		d.MaxRead = 1
	case 7:
		d.MaxRead = 1 + s.Draw(7)
	}
	if e.Coarse {
		if d.Seg != 0 {
			d.Seg = []int{-60000, 1460, 16384, 65536}[s.Draw(4)]
		}
		if d.Cap > 0 {
			d.Cap = 1000 * (1 + s.Draw(100))
		}
		if d.MaxRead > 0 {
			d.MaxRead = 1000 * (1 + s.Draw(70))
		}
	}
	return
}

func (e *Env) Plan() *vnet.Plan {
	return &vnet.Plan{C2S: e.Dir(), S2C: e.Dir()}
}

func dirStr(d vnet.Dir) string {
	f := ""
	if d.Fault.Kind != vnet.FNone {
		f = fmt.Sprintf(" fault=%s@%d/%d", vnet.FaultName(d.Fault.Kind), d.Fault.Off, d.Fault.Dur)
	}
	return fmt.Sprintf("{seg=%d lat=%v gap=%v win=%d maxread=%d%s}", d.Seg, time.Duration(d.Latency), time.Duration(d.Gap), d.Cap, d.MaxRead, f)
}

func planStr(p *vnet.Plan) string { return "up=" + dirStr(p.C2S) + " down=" + dirStr(p.S2C) }

// large makes a variant in which values, writes and frames are large and
// the deliveries coarse.
func large(f func(*Env)) func(*Env) {
	return func(e *Env) {
		e.Coarse = true
		e.S.Cfg.MaxSteps = 400e6
		e.S.Cfg.MaxDispatch = 20e6
		f(e)
	}
}

// Gen makes a value generator.
func (e *Env) Gen(proto int) *vwork.Gen {
	g := &vwork.Gen{S: e.S, JSON: vwork.IsJSON(proto), Depth: 1 + e.S.Draw(4)}
	if e.S.Draw(6) == 5 {
		g.Big = 100
	}
	if e.Coarse {
		g.Big, g.Huge = 300, true
	}
	return g
}

// All runs the functions as tasks and waits for them.
func (e *Env) All(name string, fs ...func()) {
	left := len(fs)
	for i, f := range fs {
		f := f
		e.S.Go(fmt.Sprintf("%s%d", name, i), func() {
			f()
			left--
		})
	}
	vsim.WaitFor("all "+name, func() bool { return left == 0 })
}

// Result is the outcome of one run.
type Result struct {
	Viol       *vsim.Violation
	Hash       uint64
	Steps      int64
	Dispatches int64
	Switches   int64
	Preempts   int64
	SimTime    int64
	Faults     map[string]int
	Probes     map[string]int
	Desc       []string
	Trace      []string
	Choices    []uint32
	Draws      int
	Variant    string
	NonTrivial bool
	Tasks      int
}

var quiet = log.New(io.Discard, "", 0)

// RunOne executes one simulated run of a property.
func RunOne(t *testing.T, prop string, ch *vsim.Choices, trace, thorough bool) (res *Result) {
	vs := Props[prop]
	if len(vs) == 0 {
		t.Fatalf("no scenario for property %s", prop)
	}
	var s *vsim.Sim
	e := &Env{Prop: prop, Thorough: thorough, Conn: map[*vsim.Task]*vnet.TCPConn{}}
	res = &Result{}
	oldT, oldC := http.DefaultTransport, http.DefaultClient
	defer func() { http.DefaultTransport, http.DefaultClient = oldT, oldC }()
	leaked := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if leaked == 0 {
					panic(r)
				}
				// goroutines blocked natively for ever: reported below
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			s = &vsim.Sim{C: ch, Trace: trace}
			e.S = s
			mainDone := false
			thrift.VsimReset__()
			simple.VsimReset__()
			thrift.LOGGER = quiet
			s.Run(func() {
				e.N = vnet.N()
				e.N.OnConnect = func(c *vnet.TCPConn) { e.Conn[vsim.Cur()] = c }
				tot := 0
				for _, v := range vs {
					tot += v.Weight
				}
				d := s.Draw(tot)
				for _, v := range vs {
					if d -= v.Weight; d < 0 {
						res.Variant = v.Name
						v.Run(e)
						break
					}
				}
				mainDone = true
			})
			if !s.Failed() && !mainDone {
				why := "nothing can happen any more"
				if s.TimedOut {
					why = "the simulated time budget is used up"
				}
				s.Fail("stuck", "%s, but these tasks have not finished: %s", why, strings.Join(trim(s.Stuck, 8), " "))
			}
			if !s.Failed() {
				for _, f := range e.post {
					if !s.Failed() {
						f()
					}
				}
			}
			res.SimTime = s.Now()
			leaked = s.Finish()
			if leaked > 0 && !s.Failed() {
				// a task parked in a native primitive for ever
				s.Probe("native-leak")
			}
		})
	}()
	res.Viol = s.Violation()
	res.Hash = s.Hash()
	res.Steps, res.Dispatches, res.Switches, res.Preempts = s.Steps, s.Dispatches, s.Switches, s.Preempts
	res.Faults, res.Probes = s.Faults, s.Probes
	res.Desc, res.Trace = e.desc, s.TraceLog
	res.Choices, res.Draws = ch.Used(), ch.Count()
	res.NonTrivial = e.NonTrivial
	res.Tasks = s.NumTasks()
	return
}

func trim(a []string, n int) []string {
	if len(a) > n {
		return append(append([]string(nil), a[:n]...), "...")
	}
	return a
}

func eq(a, b []byte) bool { return bytes.Equal(a, b) }

func firstDiff(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}
