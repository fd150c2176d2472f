package vsim

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing/synctest"
	"time"
)

const (
	stReady = iota
	stRunning
	stBlocked
	stNative
	stDone
	stIdle
)

// Waiter is what a blocked task waits for.
type Waiter interface {
	Ready(now int64) bool
	// NextAt is the next simulated time at which Ready may become true by the
	// passing of time alone, or -1.
	NextAt(now int64) int64
}

// FuncWaiter waits for a condition that only other tasks can change.
type FuncWaiter func() bool

func (f FuncWaiter) Ready(int64) bool   { return f() }
func (f FuncWaiter) NextAt(int64) int64 { return -1 }

type Task struct {
	S      *Sim
	ID     int
	Name   string
	Group  string
	Lib    bool // started by library code
	wake   chan struct{}
	state  int
	q      int64 // statements left before preemption
	w      Waiter
	until  int64 // slow-task stall: not schedulable before
	killed bool
	what   string
	fin    bool // goroutine has ended
	done   chan struct{}
	Panic  interface{}
	synced int64     // last synchronisation operation
	accs   []*access // map accesses since then
}

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type Config struct {
	MaxSteps    int64 // statement budget
	MaxDispatch int64
	MaxTime     int64 // simulated ns
	AllocLimit  int64 // largest single make() request tolerated; 0 = 256 Mi
}

// Sim is one run.
type Sim struct {
	C     *Choices
	Cfg   Config
	tasks []*Task
	live  []*Task
	start time.Time

	// swarm knobs, drawn at the start of the run
	PreemptMax int // 0 = never preempt
	PreemptPct int // chance in percent that a dispatch is preemptive
	StallPct   int // permille of dispatches that stall the task
	StallMax   int64

	Steps      int64
	Dispatches int64
	Switches   int64
	Preempts   int64
	Stalls     int64
	lastTask   *Task
	hash       uint64
	viol       *Violation
	stopped    bool
	killing    bool
	Faults     map[string]int
	Probes     map[string]int
	AllocMax   int64
	AllocSum   int64
	AllocBase  int64 // cumulative allocation tolerated (0 = unlimited)
	Trace      bool
	TraceLog   []string
	Stuck      []string // foreground tasks blocked at quiescence
	TimedOut   bool
	Values     map[interface{}]interface{} // per-run state of other packages
	Received   int64                       // bytes delivered to readers (scenario specific)
	Races      bool                        // look for unsynchronised map accesses
	race       raceState
}

var cur *Task // the one task that is running
var S *Sim    // the current run

// Cur returns the running task (nil outside a run).
func Cur() *Task { return cur }

func (s *Sim) Now() int64 { return int64(time.Since(s.start)) }

func (s *Sim) Draw(n int) int { return s.C.Draw(n) }

// Flip is true with probability permille/1000; the zero choice is false.
func (s *Sim) Flip(permille int) bool {
	if permille <= 0 {
		return false
	}
	return s.C.Draw(1000) >= 1000-permille
}

// Range draws from [lo,hi], lo being simplest.
func (s *Sim) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.C.Draw(hi-lo+1)
}

// Size draws a number in [0,max], small ones more often.
func (s *Sim) Size(max int) int {
	if max <= 0 {
		return 0
	}
	switch s.Draw(4) {
	case 0, 1:
		m := 4
		if m > max {
			m = max
		}
		return s.Draw(m + 1)
	case 2:
		m := 64
		if m > max {
			m = max
		}
		return s.Draw(m + 1)
	}
	return s.Draw(max + 1)
}

func (s *Sim) Mark(x uint64) {
	h := s.hash ^ x
	h *= 0x100000001b3
	h ^= h >> 29
	s.hash = h
}

func (s *Sim) MarkStr(x string) {
	for i := 0; i < len(x); i++ {
		s.hash = (s.hash ^ uint64(x[i])) * 0x100000001b3
	}
}

func (s *Sim) Hash() uint64 { return s.hash }

// Ev records an event: always into the hash, into the log when tracing.
func (s *Sim) Ev(kind string, a, b int64) {
	s.MarkStr(kind)
	s.Mark(uint64(a)*31 + uint64(b))
	if s.Trace {
		s.Logf("%s %d %d", kind, a, b)
	}
}

func (s *Sim) Logf(f string, a ...interface{}) {
	if !s.Trace {
		return
	}
	n := "-"
	if cur != nil {
		n = fmt.Sprintf("%d:%s", cur.ID, cur.Name)
	}
	s.TraceLog = append(s.TraceLog, fmt.Sprintf("t=%-12v step=%-7d [%s] %s", time.Duration(s.Now()), s.Steps, n, Sprintf(f, a...)))
}

// Sprintf formats without running library code (Error, String) as part of
// the simulation.
func Sprintf(f string, a ...interface{}) string {
	t := cur
	cur = nil
	defer func() { cur = t }()
	return fmt.Sprintf(f, a...)
}

func (s *Sim) Fault(kind string) {
	s.Faults[kind]++
	s.MarkStr("F")
	s.MarkStr(kind)
	if s.Trace {
		s.Logf("FAULT %s", kind)
	}
}

func (s *Sim) Probe(kind string) { s.Probes[kind]++ }

// Fail records the first violation and ends the run.
func (s *Sim) Fail(class, f string, a ...interface{}) {
	if s.killing {
		return
	}
	if s.viol == nil {
		s.viol = &Violation{Class: class, Msg: Sprintf(f, a...)}
		if s.Trace {
			s.Logf("VIOLATION %s: %s", class, s.viol.Msg)
		}
	}
	s.stopped = true
}

// Failf fails and ends the calling task.
func (s *Sim) Abort(class, f string, a ...interface{}) {
	s.Fail(class, f, a...)
	Exit()
}

func Exit() {
	if cur != nil {
		cur.killed = true
		runtime.Goexit()
	}
}

func (s *Sim) Violation() *Violation { return s.viol }
func (s *Sim) Failed() bool          { return s.viol != nil }

// ---- tasks ----

func (s *Sim) newTask(name string) *Task {
	t := &Task{S: s, ID: len(s.tasks), Name: name, wake: make(chan struct{}), done: make(chan struct{})}
	if cur != nil {
		t.Group = cur.Group
		t.Lib = cur.Lib
		cur.sync()
		t.synced = s.race.clk + 1
		s.race.clk++
	}
	s.tasks = append(s.tasks, t)
	s.live = append(s.live, t)
	return t
}

func (t *Task) body(f func()) {
	<-t.wake
	defer func() {
		if r := recover(); r != nil {
			if !t.killed && !t.S.killing {
				t.Panic = r
				t.S.Fail("panic", "panic in task %q: %v | %s", t.Name, r, panicSite())
			}
		}
		t.sync()
		t.state = stDone
		t.fin = true
		close(t.done)
	}()
	if t.killed {
		return
	}
	f()
}

// panicSite names the library frame closest to the panic.
func panicSite() string {
	st := strings.Split(string(debug.Stack()), "\n")
	seen := false
	for _, l := range st {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(l, "runtime.") && !strings.HasPrefix(l, "bytes.") && !strings.HasPrefix(l, "bufio.") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return "in " + l
		}
	}
	return ""
}

// Go starts a task of the harness.
func (s *Sim) Go(name string, f func()) *Task {
	t := s.newTask(name)
	t.state = stReady
	go t.body(f)
	s.point()
	return t
}

// GoGroup starts a harness task in a group (a "node" that can crash).
func (s *Sim) GoGroup(group, name string, f func()) *Task {
	t := s.newTask(name)
	t.Group = group
	t.state = stReady
	go t.body(f)
	s.point()
	return t
}

// LibGo wraps the callee of a go statement in the library under test so that
// the new goroutine becomes a task.  `go f(x)` becomes `go vsim.LibGo(f)(x)`.
func LibGo[F any](f F) F {
	if cur == nil {
		return f
	}
	s := cur.S
	t := s.newTask("lib-go")
	t.Lib = true
	t.state = stReady
	v := reflect.ValueOf(f)
	w := reflect.MakeFunc(v.Type(), func(args []reflect.Value) (res []reflect.Value) {
		ft := v.Type()
		for i := 0; i < ft.NumOut(); i++ {
			res = append(res, reflect.Zero(ft.Out(i)))
		}
		t.body(func() {
			if ft.IsVariadic() {
				v.CallSlice(args)
			} else {
				v.Call(args)
			}
		})
		return
	})
	return w.Interface().(F)
}

func (t *Task) Done() bool   { return t.fin }
func (t *Task) Killed() bool { return t.killed }

// Y is the preemption point inserted before every statement of the library.
func Y() {
	t := cur
	if t == nil {
		return
	}
	t.S.Steps++
	t.q--
	if t.q <= 0 {
		t.slow()
	}
}

func (t *Task) slow() {
	s := t.S
	if t.killed || s.killing {
		t.q = 1 << 60
		return
	}
	if s.Steps > s.Cfg.MaxSteps {
		s.Fail("no-progress", "statement budget of %d exhausted in task %q (endless loop or runaway work)", s.Cfg.MaxSteps, t.Name)
		Exit()
	}
	if s.stopped {
		Exit()
	}
	s.Preempts++
	t.park(stReady)
}

// Steps are counted against the budget in chunks: a task never runs longer
// than this many statements without coming back to the scheduler.
const maxQuantum = 200000

func (t *Task) park(st int) {
	t.state = st
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
}

// point is a scheduling point of the harness and of the simulated primitives.
func (s *Sim) point() {
	t := cur
	if t == nil {
		return
	}
	if t.killed || s.killing {
		return
	}
	if s.stopped {
		Exit()
	}
	t.q--
	if t.q <= 0 {
		t.slow()
	}
}

// Point is a scheduling point.
func Point() {
	if cur != nil {
		cur.S.point()
	}
}

// Wait blocks the running task until w is ready.
func Wait(what string, w Waiter) {
	t := cur
	if t == nil {
		panic("vsim: Wait outside a task: " + what)
	}
	s := t.S
	if t.killed || s.killing {
		runtime.Goexit()
	}
	if s.stopped {
		Exit()
	}
	t.w = w
	t.what = what
	t.sync()
	t.park(stBlocked)
	t.sync()
	t.w = nil
}

// WaitFor blocks until f returns true.
func WaitFor(what string, f func() bool) {
	for !f() {
		Wait(what, FuncWaiter(f))
	}
	SyncOp()
}

// WaitIdle blocks until nothing else can happen, now or by the passing of time.
func WaitIdle() {
	t := cur
	if t == nil || t.killed || t.S.killing {
		return
	}
	if t.S.stopped {
		Exit()
	}
	t.what = "idle"
	t.sync()
	t.park(stIdle)
	t.sync()
}

type timeWaiter int64

func (w timeWaiter) Ready(now int64) bool   { return now >= int64(w) }
func (w timeWaiter) NextAt(now int64) int64 { return int64(w) }

type timeOrWaiter struct {
	at int64
	f  func() bool
}

func (w timeOrWaiter) Ready(now int64) bool   { return now >= w.at || w.f() }
func (w timeOrWaiter) NextAt(now int64) int64 { return w.at }

// WaitUntil blocks until f or until the simulated time at.
func WaitUntil(what string, at int64, f func() bool) {
	for S.Now() < at && !f() {
		Wait(what, timeOrWaiter{at, f})
	}
}

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	t := cur
	if t == nil {
		time.Sleep(d)
		return
	}
	if t.killed || t.S.killing {
		return
	}
	if d <= 0 {
		t.S.point()
		return
	}
	Wait("sleep", timeWaiter(t.S.Now()+int64(d)))
}

// ---- native channel operations of the library ----

type Token struct{ t *Task }

func Before() Token {
	t := cur
	if t != nil && !t.killed && !t.S.killing {
		t.state = stNative
		t.sync()
	}
	return Token{t}
}

func After(k Token) {
	t := k.t
	if t == nil || t.killed || t.S.killing {
		return
	}
	t.park(stReady)
	t.sync()
}

func Recv[T any](c <-chan T) T {
	k := Before()
	v := <-c
	After(k)
	return v
}

func Recv2[T any](c <-chan T) (T, bool) {
	k := Before()
	v, ok := <-c
	After(k)
	return v, ok
}

func Sender[T any](c chan<- T) func(T) {
	return func(v T) {
		k := Before()
		c <- v
		After(k)
	}
}

// ---- map iteration ----

// MapRange iterates over a map in an order drawn from the seed.
func MapRange[M ~map[K]V, K comparable, V any](m M) func(func(K, V) bool) {
	return func(yield func(K, V) bool) {
		var z K
		t := cur
		k := reflect.TypeOf(&z).Elem().Kind()
		if t == nil || t.killed || t.S.killing || len(m) < 2 || k == reflect.Pointer || k == reflect.Interface || k == reflect.Chan {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		type ent struct {
			k K
			v V
			s string
		}
		var es []ent
		for k, v := range m {
			es = append(es, ent{k, v, fmt.Sprint(k)})
		}
		sort.Slice(es, func(i, j int) bool { return es[i].s < es[j].s })
		for i := len(es) - 1; i > 0; i-- {
			j := i - t.S.Draw(min(i+1, 8))
			es[i], es[j] = es[j], es[i]
		}
		for _, e := range es {
			v, ok := m[e.k]
			if !ok {
				if e.k == e.k {
					continue // deleted meanwhile
				}
				v = e.v
			}
			if !yield(e.k, v) {
				return
			}
		}
	}
}

// ---- allocation guard ----

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Alloc checks a run-time make() size of the library.
func Alloc[I integer](n I) I {
	t := cur
	if t == nil || t.killed || t.S.killing {
		return n
	}
	s := t.S
	v := int64(n)
	if v > s.AllocMax {
		s.AllocMax = v
	}
	if v > 0 {
		s.AllocSum += v
		if s.AllocBase > 0 && s.AllocSum > s.AllocBase+1024*s.Received {
			s.Fail("alloc", "library asked for %d elements of memory in total after %d received bytes", s.AllocSum, s.Received)
			Exit()
		}
	}
	if v > s.Cfg.AllocLimit {
		s.Fail("alloc", "library asked for an allocation of %d elements after %d received bytes", v, s.Received)
		Exit()
	}
	return n
}

// ---- crash ----

// Kill ends every task of a group where it stands.
func (s *Sim) Kill(group string) {
	self := cur
	for _, t := range append([]*Task(nil), s.live...) {
		if t.Group != group || t.fin || t == self {
			continue
		}
		if t.state == stNative {
			continue
		}
		t.killed = true
		cur = t
		t.state = stRunning
		t.q = 1 << 60
		t.wake <- struct{}{}
		// The killed goroutine runs its deferred calls (which cannot block) and
		// ends; wait for it.
		<-t.done
		cur = self
	}
	if self != nil {
		self.state = stRunning
	}
}

// ---- scheduler ----

// Run executes main as the first task and schedules until everything is done,
// nothing can happen any more, or the run failed.  It must be called inside a
// synctest bubble.
func (s *Sim) Run(main func()) {
	S = s
	Races = false
	s.start = time.Now()
	if s.Cfg.MaxSteps == 0 {
		s.Cfg.MaxSteps = 20000000
	}
	if s.Cfg.MaxDispatch == 0 {
		s.Cfg.MaxDispatch = 3000000
	}
	if s.Cfg.MaxTime == 0 {
		s.Cfg.MaxTime = int64(24 * time.Hour)
	}
	if s.Cfg.AllocLimit == 0 {
		s.Cfg.AllocLimit = 256 << 20
	}
	s.Faults = map[string]int{}
	s.Probes = map[string]int{}
	s.Values = map[interface{}]interface{}{}
	s.hash = 0xcbf29ce484222325
	mt := s.newTask("main")
	mt.state = stReady
	go mt.body(main)
	ready := make([]*Task, 0, 16)
	for !s.stopped {
		now := s.Now()
		ready = ready[:0]
		next := int64(-1)
		native := false
		k := 0
		for _, t := range s.live {
			if t.fin {
				continue
			}
			s.live[k] = t
			k++
			if t.until > now {
				if next < 0 || t.until < next {
					next = t.until
				}
				continue
			}
			switch t.state {
			case stReady:
				ready = append(ready, t)
			case stBlocked:
				if t.w.Ready(now) {
					ready = append(ready, t)
				} else if n := t.w.NextAt(now); n >= 0 && (next < 0 || n < next) {
					if n <= now {
						n = now + 1
					}
					if next < 0 || n < next {
						next = n
					}
				}
			case stNative:
				native = true
			}
		}
		s.live = s.live[:k]
		if k == 0 {
			break
		}
		if len(ready) == 0 && next < 0 {
			for _, t := range s.live {
				if t.state == stIdle {
					ready = append(ready, t)
				}
			}
		}
		if mt.fin && len(ready) == 0 && next < 0 {
			break
		}
		if len(ready) == 0 {
			if next < 0 {
				if !native {
					break
				}
				next = now + int64(time.Second)
			}
			if now >= s.Cfg.MaxTime {
				s.TimedOut = true
				break
			}
			cur = nil
			time.Sleep(time.Duration(next - now))
			synctest.Wait()
			continue
		}
		var t *Task
		if len(ready) == 1 {
			t = ready[0]
		} else {
			// Choice 0 continues the task that ran last if it can run,
			// otherwise the oldest one.
			base := 0
			for i, r := range ready {
				if r == s.lastTask {
					base = i
				}
			}
			t = ready[(base+s.Draw(len(ready)))%len(ready)]
		}
		s.dispatch(t)
		if s.Dispatches > s.Cfg.MaxDispatch {
			s.Fail("no-progress", "dispatch budget of %d exhausted", s.Cfg.MaxDispatch)
		}
	}
	for _, t := range s.live {
		if !t.fin {
			s.Stuck = append(s.Stuck, fmt.Sprintf("%d:%s(%s)", t.ID, t.Name, t.what))
		}
	}
}

func (s *Sim) dispatch(t *Task) {
	s.Dispatches++
	if t != s.lastTask {
		s.Switches++
		s.Mark(uint64(t.ID) + 7777)
	}
	if s.StallPct > 0 && s.Flip(s.StallPct) {
		d := int64(1+s.Draw(1000)) * s.StallMax / 1000
		t.until = s.Now() + d
		s.Stalls++
		s.Fault("slow-task")
		return
	}
	s.lastTask = t
	t.q = maxQuantum
	if s.PreemptMax > 0 && s.Flip(s.PreemptPct*10) {
		t.q = int64(1 + s.Draw(s.PreemptMax))
		s.Mark(uint64(t.q))
	}
	t.state = stRunning
	cur = t
	t.wake <- struct{}{}
	synctest.Wait()
	cur = nil
}

// Finish kills what is left.  Tasks blocked in native operations cannot be
// killed; their number is returned.
func (s *Sim) Finish() int {
	s.killing = true
	left := 0
	for _, t := range s.live {
		if t.fin {
			continue
		}
		if t.state == stNative {
			left++
			continue
		}
		t.killed = true
		cur = t
		t.q = 1 << 60
		t.wake <- struct{}{}
		synctest.Wait()
		if !t.fin {
			left++
		}
	}
	cur = nil
	S = nil
	return left
}

// LiveTasks returns the tasks that have not ended, filtered.
func (s *Sim) LiveTasks(f func(*Task) bool) (out []*Task) {
	for _, t := range s.live {
		if !t.fin && f(t) {
			out = append(out, t)
		}
	}
	return
}

func (s *Sim) NumTasks() int     { return len(s.tasks) }
func (t *Task) What() string     { return t.what }
func (t *Task) Blocked() bool    { return t.state == stBlocked }
func (s *Sim) Tasks() []*Task    { return s.tasks }
func (s *Sim) Stopping() bool    { return s.stopped || s.killing }
func (t *Task) SetName(n string) { t.Name = n }
