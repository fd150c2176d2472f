package vprops

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"
	"vsim"
)

// Replay is the replay file: a scenario of one property and the choices that
// lead to the violation.
type Replay struct {
	Property string         `json:"property"`
	Class    string         `json:"class"`
	Msg      string         `json:"message"`
	Seed     uint64         `json:"seed"`
	Master   uint64         `json:"master_seed"`
	Index    uint64         `json:"run"`
	Tier     string         `json:"tier"`
	Variant  string         `json:"variant"`
	Original int            `json:"choices_before_minimisation,omitempty"`
	Choices  []uint32       `json:"choices"`
	Scenario []string       `json:"scenario,omitempty"`
	Hash     string         `json:"hash,omitempty"`
	Faults   map[string]int `json:"faults_fired,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
}

// Report is what a worker writes.
type Report struct {
	Property   string                   `json:"property"`
	Runs       int                      `json:"runs"`
	NonTrivial int                      `json:"nontrivial"`
	Steps      int64                    `json:"steps"`
	Dispatches int64                    `json:"dispatches"`
	Switches   int64                    `json:"switches"`
	Preempts   int64                    `json:"preempts"`
	Draws      int64                    `json:"draws"`
	SimTime    int64                    `json:"sim_ns"`
	Wall       float64                  `json:"wall_s"`
	Faults     map[string]int           `json:"faults"`
	FaultRuns  map[string]int           `json:"fault_runs"`
	Probes     map[string]int           `json:"probes"`
	Variants   map[string]int           `json:"variants"`
	Samples    []map[string]interface{} `json:"samples"`
	Violations []*Replay                `json:"violations"`
	Last       uint64                   `json:"last"`
	Complete   bool                     `json:"complete"`
	Digest     string                   `json:"digest"`
	HashFile   string                   `json:"hash_file"`
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func num(k string, d uint64) uint64 {
	v := os.Getenv(k)
	if v == "" {
		return d
	}
	n, err := strconv.ParseUint(v, 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

func save(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, b, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(tmp, path); err != nil {
		panic(err)
	}
}

func TestSim(t *testing.T) {
	mode := env("VMODE", "")
	if mode == "" {
		t.Skip("VMODE not set")
	}
	log.SetOutput(io.Discard)
	switch mode {
	case "run":
		workerRun(t)
	case "replay":
		workerReplay(t)
	case "shrink":
		workerShrink(t)
	case "list":
		var ps []string
		for p := range Props {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			for _, v := range Props[p] {
				fmt.Println(p, v.Name, v.Weight)
			}
		}
	default:
		t.Fatal("unknown mode " + mode)
	}
}

func workerRun(t *testing.T) {
	prop := env("VPROP", "")
	master := num("VSEED", 1)
	from, to, step := num("VFROM", 0), num("VTO", 100), num("VSTEP", 1)
	out := env("VOUT", "")
	thorough := env("VTIER", "quick") == "thorough"
	maxViol := int(num("VMAXVIOL", 8))
	deadline := time.Now().Add(time.Duration(num("VWALL", 3600)) * time.Second)
	start := time.Now()
	r := &Report{Property: prop, Faults: map[string]int{}, FaultRuns: map[string]int{}, Probes: map[string]int{}, Variants: map[string]int{}}
	progress := out + ".at"
	pf, err := os.Create(progress)
	if err != nil {
		t.Fatal(err)
	}
	defer pf.Close()
	var hashes []uint64
	dig := uint64(1)
	seen := map[string]int{}
	var at [8]byte
	i := from
	for ; i < to; i += step {
		if time.Now().After(deadline) {
			break
		}
		binary.LittleEndian.PutUint64(at[:], i)
		pf.WriteAt(at[:], 0)
		seed := vsim.Mix(master, prop, i)
		res := RunOne(t, prop, vsim.NewChoices(seed), false, thorough)
		r.Runs++
		r.Last = i
		r.Steps += res.Steps
		r.Dispatches += res.Dispatches
		r.Switches += res.Switches
		r.Preempts += res.Preempts
		r.Draws += int64(res.Draws)
		r.SimTime += res.SimTime
		r.Variants[res.Variant]++
		for k, n := range res.Faults {
			r.Faults[k] += n
			r.FaultRuns[k]++
		}
		for k, n := range res.Probes {
			r.Probes[k] += n
		}
		if res.NonTrivial {
			r.NonTrivial++
			hashes = append(hashes, res.Hash)
		}
		dig = vsim.Mix(dig, "d", res.Hash^i)
		if res.Viol != nil {
			dig = vsim.Mix(dig, res.Viol.Class, i)
		}
		if (i-from)/step < 2 || len(r.Samples) < 2 {
			r.Samples = append(r.Samples, map[string]interface{}{"run": i, "seed": fmt.Sprint(seed), "variant": res.Variant, "scenario": trim(res.Desc, 12),
				"steps": res.Steps, "switches": res.Switches, "faults": res.Faults, "sim_ms": float64(res.SimTime) / 1e6, "draws": res.Draws})
		}
		if v := res.Viol; v != nil {
			key := res.Variant + "/" + v.Class
			if seen[key] < 2 {
				r.Violations = append(r.Violations, &Replay{Property: prop, Class: v.Class, Msg: v.Msg, Seed: seed, Master: master, Index: i,
					Tier: env("VTIER", "quick"), Variant: res.Variant, Choices: res.Choices, Scenario: res.Desc, Faults: res.Faults})
			}
			seen[key]++
			maxViol--
			if maxViol <= 0 {
				break
			}
		}
	}
	r.Complete = i >= to
	r.Wall = time.Since(start).Seconds()
	r.Digest = fmt.Sprintf("%016x", dig)
	b := make([]byte, 8*len(hashes))
	for j, h := range hashes {
		binary.LittleEndian.PutUint64(b[8*j:], h)
	}
	r.HashFile = out + ".hashes"
	os.WriteFile(r.HashFile, b, 0644)
	save(out, r)
}

func load(t *testing.T) *Replay {
	b, err := os.ReadFile(env("VIN", ""))
	if err != nil {
		t.Fatal(err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		t.Fatal(err)
	}
	return &r
}

func workerReplay(t *testing.T) {
	r := load(t)
	ch := vsim.ReplayChoices(r.Choices)
	if env("VGEN", "") != "" {
		ch = vsim.NewChoices(r.Seed) // the original run, traced
	}
	res := RunOne(t, r.Property, ch, env("VTRACE", "1") == "1", r.Tier == "thorough")
	o := *r
	o.Trace = res.Trace
	o.Scenario = res.Desc
	o.Variant = res.Variant
	o.Faults = res.Faults
	o.Hash = fmt.Sprintf("%016x", res.Hash)
	o.Class, o.Msg = "", ""
	if res.Viol != nil {
		o.Class, o.Msg = res.Viol.Class, res.Viol.Msg
	}
	save(env("VOUT", ""), &o)
}

func workerShrink(t *testing.T) {
	r := load(t)
	budget := time.Duration(num("VWALL", 20)) * time.Second
	dl := time.Now().Add(budget)
	thorough := r.Tier == "thorough"
	best := append([]uint32(nil), r.Choices...)
	var last *Result
	try := func(c []uint32) bool {
		if time.Now().After(dl) {
			return false
		}
		res := RunOne(t, r.Property, vsim.ReplayChoices(c), false, thorough)
		if res.Viol == nil || res.Viol.Class != r.Class {
			return false
		}
		u := res.Choices
		if less(u, best) {
			best = u
			last = res
			return true
		}
		return false
	}
	r.Original = len(best)
	for pass := 0; pass < 8 && time.Now().Before(dl); pass++ {
		before := append([]uint32(nil), best...)
		// truncate
		for k := len(best) / 2; k > 0; k /= 2 {
			for len(best) > k && try(best[:len(best)-k]) {
			}
		}
		// delete spans
		for k := len(best) / 2; k > 0; k /= 2 {
			for i := len(best) - k; i >= 0; {
				if i+k <= len(best) && try(append(append([]uint32(nil), best[:i]...), best[i+k:]...)) {
					i -= k
					if i > len(best)-k {
						i = len(best) - k
					}
					continue
				}
				i -= k
			}
			if time.Now().After(dl) {
				break
			}
		}
		// zero spans
		for k := len(best) / 2; k > 0; k /= 2 {
			for i := 0; i+k <= len(best); i += k {
				any := false
				for _, v := range best[i : i+k] {
					any = any || v != 0
				}
				if !any {
					continue
				}
				c := append([]uint32(nil), best...)
				for j := i; j < i+k; j++ {
					c[j] = 0
				}
				try(c)
			}
			if time.Now().After(dl) {
				break
			}
		}
		// minimise values
		for i := 0; i < len(best) && time.Now().Before(dl); i++ {
			for i < len(best) && best[i] > 0 {
				c := append([]uint32(nil), best...)
				c[i] = best[i] / 2
				if try(c) {
					continue
				}
				if i >= len(best) {
					break
				}
				c = append([]uint32(nil), best...)
				c[i] = best[i] - 1
				if c[i] == best[i]/2 || !try(c) {
					break
				}
			}
		}
		if !less(best, before) {
			break
		}
	}
	_ = last
	r.Choices = best
	res := RunOne(t, r.Property, vsim.ReplayChoices(best), true, thorough)
	r.Scenario, r.Trace, r.Variant, r.Faults = res.Desc, res.Trace, res.Variant, res.Faults
	r.Hash = fmt.Sprintf("%016x", res.Hash)
	if res.Viol != nil {
		r.Class, r.Msg = res.Viol.Class, res.Viol.Msg
	} else {
		r.Class = ""
	}
	save(env("VOUT", ""), r)
}

// less orders choice sequences: shorter first, then smaller.
func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
