package vsim

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
)

// Map accesses: two tasks that use one map, one of them writing it, without
// any synchronisation in between make the real program die ("concurrent map
// writes") or return garbage.  The happens-before relation kept here is
// generous: the first synchronisation operation of any kind a task performs
// after an access publishes that access to everybody who synchronises later.

type access struct {
	t     *Task
	write bool
	rel   int64 // when the task first synchronised afterwards (0: not yet)
}

type mapRec struct {
	keep interface{}
	w    *access
	r    []*access
}

type raceState struct {
	clk  int64
	maps map[uintptr]*mapRec
	vars map[uintptr]*mapRec
}

// SyncOp notes that the running task synchronises with others.
func SyncOp() {
	if t := cur; t != nil {
		t.sync()
	}
}

func (t *Task) sync() {
	s := t.S
	s.race.clk++
	t.synced = s.race.clk
	for _, a := range t.accs {
		a.rel = s.race.clk
	}
	t.accs = t.accs[:0]
}

// Races tells the library's code to report accesses to shared variables.
var Races bool

// LookForRaces switches the search for unsynchronised accesses on for this
// run.
func (s *Sim) LookForRaces() {
	s.Races = true
	Races = true
}

// FieldAcc notes an access to a field or package variable of the library.
func FieldAcc(f func() interface{}, write bool) {
	t := cur
	if t == nil || t.killed || t.S.killing || t.S.stopped || !t.S.Races {
		return
	}
	p := addrOf(f)
	if p == nil {
		return
	}
	s := t.S
	if s.race.vars == nil {
		s.race.vars = map[uintptr]*mapRec{}
	}
	v := reflect.ValueOf(p)
	s.race.note(t, s.race.vars, v.Pointer(), p, write, func() string {
		return fmt.Sprintf("task %q and another task use a variable of type %v (%s) at the same time without synchronisation, and at least one of them writes it", t.Name, v.Type().Elem(), where())
	})
}

// where names the function of the library that made the access.
func where() string {
	pc := make([]uintptr, 30)
	fr := runtime.CallersFrames(pc[:runtime.Callers(3, pc)])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "vsim.") {
			return f.Function
		}
		if !more {
			return "?"
		}
	}
}

func addrOf(f func() interface{}) (p interface{}) {
	defer func() { recover() }()
	return f()
}

// MapAcc notes an access to a map of the library.
func MapAcc(f func() interface{}, write bool) {
	t := cur
	if t == nil || t.killed || t.S.killing || t.S.stopped || !t.S.Races {
		return
	}
	v := mapOf(f)
	if !v.IsValid() || v.Kind() != reflect.Map || v.IsNil() {
		return
	}
	s := t.S
	if s.race.maps == nil {
		s.race.maps = map[uintptr]*mapRec{}
	}
	s.race.note(t, s.race.maps, v.Pointer(), v.Interface(), write, func() string {
		return fmt.Sprintf("task %q uses a %v that another task uses at the same time, and at least one of them writes it: the Go runtime ends the process", t.Name, v.Type())
	})
}

func (x *raceState) note(t *Task, recs map[uintptr]*mapRec, p uintptr, keep interface{}, write bool, msg func() string) {
	m := recs[p]
	if m == nil {
		m = &mapRec{keep: keep}
		recs[p] = m
	}
	bad := func(a *access) bool {
		return a != nil && a.t != t && (a.rel == 0 || t.synced <= a.rel)
	}
	hit := bad(m.w)
	if write {
		for _, a := range m.r {
			hit = hit || bad(a)
		}
	}
	if hit {
		t.S.Fail("data-race", "%s", msg())
		Exit()
	}
	if !write {
		for i, o := range m.r {
			if o.t == t {
				if o.rel == 0 {
					return
				}
				a := &access{t: t}
				t.accs = append(t.accs, a)
				m.r[i] = a
				return
			}
		}
	}
	if write && m.w != nil && m.w.t == t && m.w.rel == 0 && len(m.r) == 0 {
		return
	}
	a := &access{t: t, write: write}
	t.accs = append(t.accs, a)
	if write {
		m.w = a
		m.r = m.r[:0]
		return
	}
	m.r = append(m.r, a)
}

func mapOf(f func() interface{}) (v reflect.Value) {
	defer func() { recover() }()
	return reflect.ValueOf(f())
}

// Timer wraps the function of time.AfterFunc: when it fires it becomes a task.
func Timer(f func()) func() {
	s := S
	if cur == nil || s == nil {
		return f
	}
	group, lib := cur.Group, cur.Lib
	return func() {
		timerMu.Lock()
		defer timerMu.Unlock()
		if S != s || s.killing || s.stopped {
			return
		}
		t := &Task{S: s, ID: len(s.tasks), Name: "timer", wake: make(chan struct{}), done: make(chan struct{}), Group: group, Lib: lib, state: stReady}
		s.tasks = append(s.tasks, t)
		s.live = append(s.live, t)
		go t.body(f)
	}
}

var timerMu sync.Mutex

// Gosched lets another task run.
func Gosched() {
	t := cur
	if t == nil || t.killed || t.S.killing {
		return
	}
	if t.S.stopped {
		Exit()
	}
	t.S.lastTask = nil
	t.q = 0
	t.slow()
}
