package vprops

import (
	"thrift"
	"time"
	"vsim"
)

func init() {
	reg("C21", "iterate", 60, c21Iterate)
	reg("C21", "equal", 20, c21Equal)
}

// rec is a struct with attributes, as generated code has them.
type rec struct {
	thrift.TStruct
	vals map[int]interface{}
}

func (r *rec) AttributeFromFieldId(id int) interface{} { return r.vals[id] }
func (r *rec) AttributeFromFieldName(n string) interface{} {
	return r.vals[r.FieldIdFromFieldName(n)]
}
func (r *rec) CompareTo(o interface{}) (int, bool) {
	return thrift.TType(thrift.STRUCT).Compare(r, o)
}
func (r *rec) Equals(o interface{}) bool {
	c, ok := r.CompareTo(o)
	return ok && c == 0
}

func newRec(name string, n int, val func(i int) int32) *rec {
	r := &rec{vals: map[int]interface{}{}}
	var fs []thrift.TField
	for i := 1; i <= n; i++ {
		fs = append(fs, thrift.NewTField(vsim.Sprintf("f%d", i), thrift.I32, i))
		r.vals[i] = val(i)
	}
	r.TStruct = thrift.NewTStruct(name, fs)
	return r
}

var keyTypes = []thrift.TType{thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.BINARY, thrift.STRUCT, thrift.LIST, thrift.SET, thrift.MAP, thrift.UTF8, thrift.UTF16}

var valueTypes = []thrift.TType{thrift.I32, thrift.I32, thrift.STRING, thrift.BINARY, thrift.STRUCT, thrift.LIST, thrift.SET, thrift.MAP}

// size draws how many elements of a type a container gets.
func size(s *vsim.Sim, t thrift.TType, usual int) int {
	top := map[thrift.TType]int{thrift.BOOL: 2, thrift.BYTE: 250, thrift.STRUCT: 150, thrift.LIST: 150, thrift.SET: 150, thrift.BINARY: 150, thrift.MAP: 11}[t]
	n := s.Size(usual)
	if s.Draw(60) == 59 {
		n = s.Size(3000)
	}
	if top > 0 {
		n = min(n, top)
	}
	return n
}

// mapKey returns the i-th of a family of different keys of a type.
func mapKey(t thrift.TType, i int) interface{} {
	switch t {
	case thrift.BOOL:
		return i%2 == 1
	case thrift.BYTE:
		return byte(i * 37)
	case thrift.I16:
		return int16(i*1237 - 300)
	case thrift.I32:
		return int32(i*7919 - 10000)
	case thrift.I64:
		return int64(i)*1234567891011 - 7
	case thrift.DOUBLE:
		return float64(i)*0.5 - 1
	case thrift.STRING, thrift.UTF8, thrift.UTF16:
		if i >= 15 {
			return vsim.Sprintf("key %d", i)
		}
		return []string{"", "a", "aa", "\x00", "b", "\xff", "ä", "A", "0", "-1", "true", "1.5", " ", "aaa", "zz"}[i%15]
	case thrift.BINARY:
		if i >= 15 {
			return []byte{byte(i), byte(i >> 8), 9}
		}
		return [][]byte{{}, {0}, {0, 0}, {255}, {1}, {0, 1}, {255, 0}, {97}, {97, 98}, {1, 0}, {0, 0, 0}, {128}, {127}, {2}, {3}}[i%15]
	case thrift.STRUCT:
		return newRec("Key", 2, func(f int) int32 { return int32(i * f) })
	case thrift.LIST:
		l := thrift.NewTList(thrift.I32, 0)
		for k := 0; k <= i%3 && i > 0; k++ {
			l.Push(int32(i + k))
		}
		return l
	case thrift.SET:
		l := thrift.NewTSet(thrift.I32, 0)
		if i > 0 {
			l.Add(int32(i))
		}
		return l
	case thrift.MAP:
		if i == 0 {
			return thrift.NewTMap(thrift.I16, thrift.I32, 0)
		}
		return someMap(thrift.I16, i%4, 1+i%3, nil, 100, thrift.I32)
	}
	return nil
}

// name identifies a key in reports and in the model.
func keyName(k interface{}) string {
	switch x := k.(type) {
	case []byte:
		return "b" + string(x)
	case *rec:
		return vsim.Sprintf("struct %v", x.vals[1])
	case thrift.TList:
		s := "list"
		for i := 0; i < x.Len(); i++ {
			s += vsim.Sprintf(" %v", x.At(i))
		}
		return s
	case thrift.TSet:
		return vsim.Sprintf("set %v", x.Values())
	case thrift.TMap:
		s := "map"
		for i := 0; i < 8; i++ {
			if v, ok := x.Get(mapKey(thrift.I16, i)); ok {
				s += vsim.Sprintf(" %d:%v", i, v)
			}
		}
		return s
	}
	return vsim.Sprintf("%T %v", k, k)
}

// someMap holds keys from..from+n-1, entered in the given order; every mod-th
// has the same value.
func someMap(kt thrift.TType, from, n int, order []int, mod int, vt thrift.TType) thrift.TMap {
	m := thrift.NewTMap(kt, vt, n+3) // the size is only a hint
	if n%5 == 3 && kt != thrift.UTF8 && kt != thrift.UTF16 {
		m = thrift.NewTMapDefault() // the types are those of the first element
	}
	for i := 0; i < n; i++ {
		k := i
		if order != nil {
			k = order[i]
		}
		if vt == thrift.I32 {
			m.Set(mapKey(kt, from+k), int32((from+k)%mod*11+1))
		} else {
			m.Set(mapKey(kt, from+k), mapKey(vt, (from+k)%mod))
		}
	}
	return m
}

func perm(s *vsim.Sim, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - s.Draw(i+1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

type container struct {
	name  string
	n     int
	iters []iterator
	fill  func()        // sets n and iters from the model
	alter func() string // changes the container and the model
}

// iterator is one way of going through a container: it calls got for every
// element, in order, until it ends or got returns false.
type iterator struct {
	name    string
	ordered bool
	want    []string
	atOnce  bool // cannot be abandoned
	run     func(got func(string) bool)
}

// each receives from a channel until it is closed or f refuses.
func each[T any](s *vsim.Sim, c <-chan T, f func(T) bool) {
	for {
		v, ok := vsim.Recv2(c)
		if !ok || !f(v) {
			return
		}
	}
}

func newContainer(s *vsim.Sim, left *[]func()) *container {
	c := &container{}
	n := s.Size(12)
	drain := func(f func()) { *left = append(*left, f) }
	switch s.Draw(4) {
	case 0:
		et := keyTypes[s.Draw(len(keyTypes))]
		n = max(n, size(s, thrift.I32, 12))
		c.name = vsim.Sprintf("list of %d, elements %s", n, et)
		l := thrift.NewTList(et, s.Draw(2)*n)
		if s.Draw(4) == 3 && et != thrift.UTF8 && et != thrift.UTF16 {
			l = thrift.NewTListDefault()
		}
		var vs []int
		for i := 0; i < n; i++ {
			l.Push(mapKey(et, i%5))
			vs = append(vs, i%5)
		}
		c.fill = func() {
			var want []string
			for _, v := range vs {
				want = append(want, keyName(mapKey(et, v)))
			}
			c.n = len(want)
			c.iters = []iterator{{"Iter", true, want, false, func(got func(string) bool) {
				ch := l.Iter()
				drain(func() { each(s, ch, func(interface{}) bool { return true }) })
				each(s, ch, func(v interface{}) bool { return got(keyName(v)) })
			}}}
		}
		c.alter = func() string {
			k := len(vs)
			if op := s.Draw(4); k > 0 && op > 0 {
				i := s.Draw(k)
				switch op {
				case 1:
					l.Pop()
					vs = vs[:k-1]
					return "Pop"
				case 2:
					l.Set(i, mapKey(et, k%7+3))
					vs[i] = k%7 + 3
					return "Set"
				case 3:
					l.Delete(i)
					vs = append(append([]int(nil), vs[:i]...), vs[i+1:]...)
					return "Delete"
				}
			}
			l.Push(mapKey(et, k%9))
			vs = append(vs, k%9)
			return "Push"
		}
	case 1:
		c.name = vsim.Sprintf("struct of %d fields", n)
		r := newRec("S", n, func(i int) int32 { return int32(i) })
		c.fill = func() {
			var want []string
			for i := 1; i <= n; i++ {
				want = append(want, vsim.Sprintf("field %d", i))
			}
			c.n = n
			c.iters = []iterator{{"Iter", false, want, false, func(got func(string) bool) {
				ch := r.TStructFields().Iter()
				drain(func() { each(s, ch, func(thrift.TField) bool { return true }) })
				each(s, ch, func(v thrift.TField) bool { return got(vsim.Sprintf("field %d", v.Id())) })
			}}}
		}
		c.alter = func() string { return "nothing" }
	default:
		kt := keyTypes[s.Draw(len(keyTypes))]
		n = size(s, kt, 12)
		top := map[thrift.TType]int{thrift.BOOL: 2, thrift.MAP: 11, thrift.BYTE: 256}[kt]
		if top == 0 {
			top = 5000
		}
		c.name = vsim.Sprintf("map of %d, keys %s", n, kt)
		mod := []int{100, 1, 2, 3}[s.Draw(4)]
		vt := valueTypes[s.Draw(len(valueTypes))]
		mod = min(mod, 9)
		m := someMap(kt, 0, n, perm(s, n), mod, vt)
		val := func(i int) interface{} {
			if vt == thrift.I32 {
				return int32(i*11 + 1)
			}
			return mapKey(vt, i)
		}
		var vs []interface{}
		for i := 0; i < n; i++ {
			vs = append(vs, val(i%mod))
		}
		c.name += vsim.Sprintf(", values %s", vt)
		str := keyName
		c.fill = func() {
			var want, pairs, vals []string
			for i, x := range vs {
				k, v := keyName(mapKey(kt, i)), str(x)
				want, vals, pairs = append(want, k), append(vals, v), append(pairs, k+" -> "+v)
			}
			c.n = len(want)
			c.iters = []iterator{
				{"Iter", false, pairs, false, func(got func(string) bool) {
					ch := m.Iter()
					drain(func() { each(s, ch, func(thrift.TMapElem) bool { return true }) })
					each(s, ch, func(v thrift.TMapElem) bool { return got(keyName(v.Key()) + " -> " + str(v.Value())) })
				}},
				{"KeyIter", false, want, false, func(got func(string) bool) {
					ch := m.KeyIter()
					drain(func() { each(s, ch, func(interface{}) bool { return true }) })
					each(s, ch, func(v interface{}) bool { return got(keyName(v)) })
				}},
				{"ValueIter", false, vals, false, func(got func(string) bool) {
					ch := m.ValueIter()
					drain(func() { each(s, ch, func(interface{}) bool { return true }) })
					each(s, ch, func(v interface{}) bool { return got(str(v)) })
				}},
				{"Keys", false, want, true, func(got func(string) bool) {
					ks := m.Keys()
					for _, k := range ks {
						got(keyName(k))
					}
					for i := range ks { // the slice is the caller's
						ks[i] = nil
					}
				}},
				{"Values", false, vals, true, func(got func(string) bool) {
					xs := m.Values()
					for _, v := range xs {
						got(str(v))
					}
					for i := range xs {
						xs[i] = nil
					}
				}},
			}
		}
		c.alter = func() string {
			k := len(vs)
			if k > 0 && (k >= top || s.Draw(2) == 1) {
				i := s.Draw(k)
				m.Set(mapKey(kt, i), val(10))
				vs[i] = val(10)
				return "Set again"
			}
			m.Set(mapKey(kt, k), val(k%11))
			vs = append(vs, val(k%11))
			return "Set"
		}
	}
	c.fill()
	return c
}

func libTasks(s *vsim.Sim) int {
	return len(s.LiveTasks(func(t *vsim.Task) bool { return t.Lib }))
}

// c21Iterate: tasks iterate over containers at the same time; some give up.
func c21Iterate(e *Env) {
	s := e.S
	e.Swarm(true)
	var left []func()
	var cs []*container
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		c := newContainer(s, &left)
		cs = append(cs, c)
		e.Desc("%s", c.name)
	}
	s.LookForRaces()
	tasks := 0
	for phase, n := 0, s.Range(1, 2); phase < n; phase++ {
		tasks += iterations(e, cs)
		for _, f := range left { // read what was given up to the end
			f()
		}
		left = nil
		vsim.WaitIdle()
		if k := libTasks(s); k > 0 {
			s.Abort("task-leak", "all iterations have been read to the end, but %d tasks of theirs are left", k)
		}
		for _, c := range cs {
			if s.Draw(2) == 1 {
				e.Desc("%s: %s", c.name, c.alter())
				c.name += " (changed)"
				c.fill()
			}
		}
	}
	e.NonTrivial = tasks > 1
}

// iterations lets a few tasks iterate at the same time.
func iterations(e *Env, cs []*container) int {
	s := e.S
	live, total := 0, s.Range(1, 6)
	for i := 0; i < total; i++ {
		c := cs[s.Draw(len(cs))]
		it := c.iters[s.Draw(len(c.iters))]
		stop, pause := -1, s.Draw(3) == 2
		if !it.atOnce && c.n > 0 && s.Draw(5) == 4 {
			stop = s.Draw(c.n)
		}
		what := vsim.Sprintf("%s of a %s", it.name, c.name)
		e.Desc("%s, stop after %d", what, stop)
		live++
		s.Go("iterate", func() {
			defer func() { live-- }()
			missing := map[string]int{}
			for _, w := range it.want {
				missing[w]++
			}
			n := 0
			it.run(func(x string) bool {
				if pause && s.Draw(3) == 0 {
					vsim.Sleep(time.Duration(1 + int64(s.Draw(1000))*ms))
				}
				if n >= len(it.want) {
					s.Abort("iterate-extra", "%s delivers more than the %d elements there are", what, len(it.want))
				}
				if it.ordered && x != it.want[n] {
					s.Abort("iterate-order", "%s delivers %q as element %d, which is %q", what, x, n, it.want[n])
				}
				if missing[x]--; missing[x] < 0 {
					s.Abort("iterate-wrong", "%s delivers an element that is not in it, or one more often than it is in it", what)
				}
				n++
				return n-1 != stop
			})
			if stop >= 0 {
				s.Fault("iteration-abandoned")
				return
			}
			if n != len(it.want) {
				s.Abort("iterate-missing", "%s delivers %d of %d elements", what, n, len(it.want))
			}
		})
	}
	vsim.WaitFor("iterations", func() bool { return live == 0 })
	return total
}

// c21Equal: comparing goes through the elements. It leaves nothing behind, and
// its result does not depend on the order that a map happens to be gone through.
func c21Equal(e *Env) {
	s := e.S
	e.Swarm(true)
	s.LookForRaces()
	live, total := 0, s.Range(1, 5)
	for i := 0; i < total; i++ {
		var f func()
		kind := s.Draw(4)
		switch kind {
		case 0:
			n := 1 + s.Draw(8)
			diff := s.Draw(n + 1) // 0: equal
			a := newRec("S", n, func(i int) int32 { return int32(i) })
			b := newRec("S", n, func(i int) int32 {
				if i == diff {
					return 1000
				}
				return int32(i)
			})
			e.Desc("compare structs of %d fields that differ in field %d", n, diff)
			f = func() {
				if got := a.Equals(b); got != (diff == 0) {
					s.Abort("wrong-equality", "structs of %d fields that differ in field %d (0: none) compare equal: %v", n, diff, got)
				}
			}
		case 1:
			et := keyTypes[s.Draw(len(keyTypes))]
			n := 1 + size(s, et, 6)
			in := s.Draw(n + 4)
			if et == thrift.BOOL {
				n, in = 1, s.Draw(2)
			}
			in = min(in, 11)
			l, m := thrift.NewTList(et, 0), someMap(et, 0, n, perm(s, n), 100, thrift.I32)
			for i := 0; i < n; i++ {
				l.Push(mapKey(et, i))
			}
			x := mapKey(et, in)
			e.Desc("look for %d in a list and a map of %d, elements %s", in, n, et)
			f = func() {
				if got := l.Contains(x); got != (in < n) {
					s.Abort("wrong-equality", "a list of the elements 0..%d, %s, contains element %d: %v", n-1, et, in, got)
				}
				if got := m.Contains(x); got != (in < n) {
					s.Abort("wrong-equality", "a map of the keys 0..%d, %s, contains key %d: %v", n-1, et, in, got)
				}
				if got, _ := m.Get(x); in < n && got != int32(in%100*11+1) {
					s.Abort("wrong-equality", "a map of the keys 0..%d, %s, has %v for key %d", n-1, et, got, in)
				}
			}
		case 2:
			kt := keyTypes[s.Draw(len(keyTypes))]
			vt := valueTypes[s.Draw(len(valueTypes))]
			n := size(s, kt, 7)
			mod := []int{5, 1, 2, 3}[s.Draw(4)]
			a, b := someMap(kt, 0, n, perm(s, n), mod, vt), someMap(kt, 0, n, perm(s, n), mod, vt)
			diff := n > 0 && s.Draw(2) == 1
			if diff {
				var v interface{} = int32(5000)
				if vt != thrift.I32 {
					v = mapKey(vt, 11)
				}
				b.Set(mapKey(kt, s.Draw(n)), v)
			}
			e.Desc("compare maps of %d, keys %s, values %s, different=%v", n, kt, vt, diff)
			f = func() {
				if got := a.Equals(b); got == diff {
					s.Abort("wrong-equality", "two maps of %d, keys %s, with the same keys, values %s different=%v, compare equal: %v", n, kt, vt, diff, got)
				}
				x, xo := a.CompareTo(b)
				y, yo := b.CompareTo(a)
				if !xo || !yo || (x == 0) == diff {
					s.Abort("wrong-equality", "two maps of %d, keys %s, with the same keys, values %s different=%v: comparing gives %d %v one way, %d %v the other", n, kt, vt, diff, x, xo, y, yo)
				}
			}
		case 3:
			et := keyTypes[s.Draw(len(keyTypes))]
			n := size(s, et, 7)
			if n > 150 {
				n = 150 // adding takes time in proportion to the size
			}
			mk := func(lack int) thrift.TSet {
				x := thrift.NewTSet(et, n+s.Draw(3))
				for _, i := range perm(s, n) {
					if i != lack {
						x.Add(mapKey(et, i))
					}
				}
				return x
			}
			lack := -1
			if n > 0 && s.Draw(2) == 1 {
				lack = s.Draw(n)
			}
			a, b := mk(-1), mk(lack)
			e.Desc("compare sets of %d, elements %s, one lacks element %d", n, et, lack)
			f = func() {
				if x, y := a.Equals(b), b.Equals(a); x != (lack < 0) || y != x {
					s.Abort("wrong-equality", "two sets of %d, elements %s, of which one lacks element %d (-1: none), compare equal: %v and %v", n, et, lack, x, y)
				}
				for i := 0; i < n; i++ {
					if !a.Contains(mapKey(et, i)) || b.Contains(mapKey(et, i)) != (i != lack) {
						s.Abort("wrong-equality", "of two sets of %d, elements %s, of which one lacks element %d (-1: none), element %d is in the full one: %v, in the other: %v", n, et, lack, i, a.Contains(mapKey(et, i)), b.Contains(mapKey(et, i)))
					}
				}
			}
		}
		live++
		s.Go("compare", func() {
			defer func() { live-- }()
			f()
		})
	}
	vsim.WaitFor("comparisons", func() bool { return live == 0 })
	vsim.WaitIdle()
	if k := libTasks(s); k > 0 {
		s.Abort("task-leak", "after %d comparisons %d tasks are left", total, k)
	}
	e.NonTrivial = true
}
