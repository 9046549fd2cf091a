package p

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/bantling/micro/constraint"
	"github.com/bantling/micro/event"
	"github.com/bantling/micro/funcs"

	"verif/h"
)

// trace is the event value: every receiver appends its own name.
type trace struct {
	names string
	depth int
	onAdd func(names string) // called by each receiver, if set
}

func (t trace) add(name string) trace {
	if t.names += name + ","; t.onAdd != nil {
		t.onAdd(t.names)
	}
	return t
}

// boom is the value with which a receiver or handler panics
type boom int

type ptrRcvr struct {
	name string
	hook func()
}

func (p *ptrRcvr) Process(t trace) trace {
	if p.hook != nil {
		p.hook()
	}
	return t.add(p.name)
}

// valRcvr is a comparable value receiver; different values may print the same.
type valRcvr struct{ A, B string }

func (v valRcvr) Process(t trace) trace { return t.add(fmt.Sprintf("%q|%q", v.A, v.B)) }

type intRcvr int

func (v intRcvr) Process(t trace) trace { return t.add(fmt.Sprintf("int%d", int(v))) }

type int2Rcvr int

func (v int2Rcvr) Process(t trace) trace { return t.add(fmt.Sprintf("int2_%d", int(v))) }

// sliceRcvr is a value receiver that cannot be compared with ==, used by pointer only.
type outer struct {
	in inner
	x  int
}
type inner struct{ id int }

func (o *outer) Process(t trace) trace { return t.add(fmt.Sprintf("outer%d", o.x)) }
func (o *inner) Process(t trace) trace { return t.add(fmt.Sprintf("inner%d", o.id)) }

// twin is a receiver of which the instances differ only in their address.
type twin struct{ pad [2]int }

var twins = []*twin{{}, {}, {}}

func (tw *twin) Process(t trace) trace {
	for i, x := range twins {
		if x == tw {
			return t.add(fmt.Sprintf("twin%d", i))
		}
	}
	return t.add("twin?")
}

func fnA(t trace) trace { return t.add("fnA") }
func fnB(t trace) trace { return t.add("fnB") }
func fnC(t trace) trace { return t.add("fnC") }

type namedRcvr struct {
	name string
	r    event.Receiver[trace]
}

// rcvrPool has receivers of all kinds, with distinct names.
func rcvrPool(R *rand.Rand) []namedRcvr {
	var pool []namedRcvr
	add := func(r event.Receiver[trace]) {
		n := strings.TrimSuffix(r.Process(trace{}).names, ",")
		pool = append(pool, namedRcvr{n, r})
	}
	for i := 0; i < 3; i++ {
		add(&ptrRcvr{name: fmt.Sprintf("ptr%d", i)})
	}
	// pairs that print alike
	for _, tw := range twins {
		add(tw)
	}
	add(valRcvr{"x y", ""})
	add(valRcvr{"x", "y "})
	add(valRcvr{"x", "y"})
	add(intRcvr(1))
	add(intRcvr(2))
	add(int2Rcvr(1))
	o := &outer{in: inner{7}, x: 7}
	add(o)
	add(&o.in)
	add(event.ReceiverFunc[trace](fnA))
	add(event.ReceiverFunc[trace](fnB))
	add(event.ReceiverFunc[trace](fnC))
	add(event.ReceiverFunc[trace](func(t trace) trace { return t.add("lit1") }))
	add(event.ReceiverFunc[trace](func(t trace) trace { return t.add("lit2") }))
	R.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	return pool[:2+R.Intn(len(pool)-1)]
}

// bigHistory has many ids with many receivers.
func bigHistory(c *h.Ctx) {
	var ids []int
	for i := 1 + c.R.Intn(200); i > 0; i-- {
		ids = append(ids, c.R.Intn(1000)-500)
	}
	if c.R.Intn(2) == 0 {
		ids = ids[:1]
	}
	historySteps(c, "many ints", ids, 100+c.R.Intn(500), 1+c.R.Intn(40))
}

// regModel is the specification: ids in order, each with receivers in registration order.
type regModel[I constraint.Ordered] map[I][]string

func (m regModel[I]) ids() []I {
	var ids []I
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func (m regModel[I]) count() (n int) {
	for _, l := range m {
		n += len(l)
	}
	return
}

func (m regModel[I]) send(init string) string {
	s := init
	for _, id := range m.ids() {
		for _, n := range m[id] {
			s += n + ","
		}
	}
	return s
}

func (m regModel[I]) remove(id I, name string, all bool) {
	if _, have := m[id]; !have {
		return
	}
	var res []string
	done := false
	for _, n := range m[id] {
		if n == name && (all || !done) {
			done = true
			continue
		}
		res = append(res, n)
	}
	m[id] = res
}

func registryHistory[I constraint.Ordered](c *h.Ctx, typ string, ids []I) {
	R := c.R
	ids = append([]I(nil), ids...)
	R.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	ids = ids[:1+R.Intn(len(ids))]
	historySteps(c, typ, ids, 1+R.Intn(40), 1)
}

// historySteps sends after every few steps.
func historySteps[I constraint.Ordered](c *h.Ctx, typ string, ids []I, steps, every int) {
	var (
		R    = c.R
		reg  event.Registry[I, trace]
		m    = regModel[I]{}
		pool = rcvrPool(R)
		log  []string
		rare = R.Intn(2) == 0
	)
	for s := 0; s < steps; s++ {
		id, rc := ids[R.Intn(len(ids))], pool[R.Intn(len(pool))]
		k := R.Intn(10)
		if rare && k >= 5 && R.Intn(8) > 0 {
			k = 0
		}
		switch {
		case k < 5:
			log = append(log, fmt.Sprintf("Register(%v, %s)", id, rc.name))
			reg.Register(id, rc.r)
			m[id] = append(m[id], rc.name)
			c.Ev("register")
		case k < 6:
			log = append(log, fmt.Sprintf("RemoveId(%v)", id))
			reg.RemoveId(id)
			delete(m, id)
			c.Ev("remove id")
		default:
			// mostly remove something that is there
			if l := m[id]; len(l) > 0 && R.Intn(3) > 0 {
				want := l[R.Intn(len(l))]
				for _, p := range pool {
					if p.name == want {
						rc = p
					}
				}
			}
			switch R.Intn(3) {
			case 0:
				log = append(log, fmt.Sprintf("Remove(%v, %s)", id, rc.name))
				reg.Remove(id, rc.r)
				m.remove(id, rc.name, false)
			case 1:
				log = append(log, fmt.Sprintf("Remove(%v, %s, false)", id, rc.name))
				reg.Remove(id, rc.r, false)
				m.remove(id, rc.name, false)
			default:
				log = append(log, fmt.Sprintf("Remove(%v, %s, ALL)", id, rc.name))
				reg.Remove(id, rc.r, funcs.ALL)
				m.remove(id, rc.name, true)
			}
			c.Ev("remove receiver")
		}
		if s%every != 0 && s != steps-1 {
			continue
		}
		init := fmt.Sprintf("<%d>", s)
		if n := m.count(); n > 0 && R.Intn(4) == 0 {
			// a receiver panics: the sender sees it, later receivers do not run, and nothing else changes
			at := R.Intn(n)
			seen, pv := []string(nil), any(nil)
			func() {
				defer func() { pv = recover() }()
				reg.Send(trace{names: init, depth: s, onAdd: func(names string) {
					if seen = append(seen, names); len(seen) == at+1 {
						panic(boom(s))
					}
				}})
			}()
			c.Ev("sends in which a receiver panics")
			last := ""
			if len(seen) > 0 {
				last = seen[len(seen)-1]
			}
			all := m.send(init)
			c.Check(pv == any(boom(s)) && len(seen) == at+1 && strings.HasPrefix(all, last), "send-panic-"+typ, "ids %s: after %s\n receiver call %d of %s panics; Send gave %v after %d calls, having run %s", typ, strings.Join(log, "; "), at, all, pv, len(seen), last)
		}
		got, want := reg.Send(trace{names: init, depth: s}), m.send(init)
		c.Ev("send")
		if !c.Check(got.names == want, "send-"+typ, "ids %s: after %s\n Send ran %s\n expected %s", typ, strings.Join(log, "; "), got.names, want) {
			return
		}
		c.Check(got.depth == s, "send-value", "Send changed the event")
		c.Obs(typ, want[len(init):])
	}
	c.Sample("%s: %s => %s", typ, strings.Join(log, "; "), m.send(""))
}

// reentrant: receivers change the registry, or send, while a Send is running.
func registryReentrant(c *h.Ctx) {
	var (
		R       = c.R
		reg     event.Registry[int, trace]
		m       = regModel[int]{}
		touched = map[string]bool{}
		armed   bool
		log     []string
		rcvrs   []*ptrRcvr
		nested  []string
	)
	nIds, n := 1+R.Intn(6), 2+R.Intn(10)
	act := func(self int) {
		// a random change, made from within a receiver
		id := R.Intn(nIds)
		switch R.Intn(6) {
		case 5:
			// a nested send in which a receiver panics
			if m.count() > 0 {
				was := armed
				armed = false
				log = append(log, fmt.Sprintf("r%d: Send that panics", self))
				v, did := h.Panics(func() {
					reg.Send(trace{onAdd: func(string) { panic(boom(self)) }})
				})
				armed = was
				if !did || v != any(boom(self)) {
					nested = append(nested, fmt.Sprintf("a panic in a nested Send gave %v", v))
				}
			}
		case 0:
			name := fmt.Sprintf("new%d", len(rcvrs)+R.Intn(1000))
			touched[name] = true
			log = append(log, fmt.Sprintf("r%d: Register(%d, %s)", self, id, name))
			reg.Register(id, &ptrRcvr{name: name})
			m[id] = append(m[id], name)
		case 1:
			newId := []int{-1 - R.Intn(3), nIds + R.Intn(3)}[R.Intn(2)]
			name := fmt.Sprintf("newid%d", R.Intn(1000))
			touched[name] = true
			log = append(log, fmt.Sprintf("r%d: Register(%d, %s)", self, newId, name))
			reg.Register(newId, &ptrRcvr{name: name})
			m[newId] = append(m[newId], name)
		case 2:
			log = append(log, fmt.Sprintf("r%d: RemoveId(%d)", self, id))
			for _, nm := range m[id] {
				touched[nm] = true
			}
			reg.RemoveId(id)
			delete(m, id)
		case 3:
			t := rcvrs[R.Intn(len(rcvrs))]
			all := R.Intn(2) == 0
			log = append(log, fmt.Sprintf("r%d: Remove(%d, %s, %v)", self, id, t.name, all))
			touched[t.name] = true
			reg.Remove(id, t, all)
			m.remove(id, t.name, all)
		case 4:
			// a receiver may also be a sender
			was := armed
			armed = false
			log = append(log, fmt.Sprintf("r%d: Send", self))
			got, want := reg.Send(trace{}).names, m.send("")
			armed = was
			if got != want {
				nested = append(nested, fmt.Sprintf("nested Send ran %s, expected %s", got, want))
			}
		}
	}
	for i := 0; i < n; i++ {
		i := i
		p := &ptrRcvr{name: fmt.Sprintf("r%d", i)}
		changes := R.Intn(3) == 0
		p.hook = func() {
			if armed && changes {
				act(i)
			}
		}
		rcvrs = append(rcvrs, p)
		for k := 1 + R.Intn(2); k > 0; k-- {
			id := R.Intn(nIds)
			reg.Register(id, p)
			m[id] = append(m[id], p.name)
		}
	}
	setup := m.send("")
	armed = true
	got := reg.Send(trace{}).names
	armed = false
	c.Ev("sends with changes under way")
	c.EvN("changes made by receivers", len(log))
	keep := func(s string) string {
		var res []string
		for _, nm := range strings.Split(s, ",") {
			if nm != "" && !touched[nm] {
				res = append(res, nm)
			}
		}
		return strings.Join(res, ",")
	}
	c.Check(keep(got) == keep(setup), "reentrant-untouched", "registered %s; during Send: %s\n receivers not added or removed ran as %s, expected %s", setup, strings.Join(log, "; "), keep(got), keep(setup))
	for _, e := range nested {
		c.Fail("reentrant-nested", "registered %s; during Send: %s: %s", setup, strings.Join(log, "; "), e)
	}
	after := reg.Send(trace{}).names
	c.Check(after == m.send(""), "reentrant-after", "registered %s; during Send: %s\n afterwards Send ran %s, expected %s", setup, strings.Join(log, "; "), after, m.send(""))
	c.Obs(len(log), strings.Join(log, ";"))
	c.Sample("%s | %s | %s", setup, strings.Join(log, "; "), got)
}

// concurrent sends of a registry that is not being changed must not interfere.
func registryConcurrent(c *h.Ctx) {
	var (
		reg event.Registry[string, trace]
		m   = regModel[string]{}
		R   = c.R
	)
	pool := rcvrPool(R)
	for i := 0; i < 1+R.Intn(20); i++ {
		id, rc := fmt.Sprintf("id%d", R.Intn(5)), pool[R.Intn(len(pool))]
		reg.Register(id, rc.r)
		m[id] = append(m[id], rc.name)
	}
	var (
		wg    sync.WaitGroup
		mu    sync.Mutex
		fails []string
		start = make(chan struct{})
	)
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < 20; i++ {
				init := fmt.Sprintf("<%d.%d>", g, i)
				if got, want := reg.Send(trace{names: init}).names, m.send(init); got != want {
					mu.Lock()
					fails = append(fails, fmt.Sprintf("%s, expected %s", got, want))
					mu.Unlock()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	c.EvN("concurrent sends", 160)
	if len(fails) > 0 {
		c.Fail("concurrent-send", "concurrent Send ran %s", fails[0])
	}
	c.Obs(m.send(""))
}

// typed sends values of some type, of which none is special, not even nil ones, zero values and errors.
func typed[T any](c *h.Ctx, typ string, vals []T) {
	var (
		R    = c.R
		reg  event.Registry[int, T]
		n    = R.Intn(8)
		byId = map[int][]int{}
		ret  = make([]T, n)
		ran  []string
		show = func(v T) string { return fmt.Sprintf("%T %v", any(v), any(v)) }
	)
	for i := 0; i < n; i++ {
		i := i
		id := R.Intn(4)
		ret[i] = vals[R.Intn(len(vals))]
		byId[id] = append(byId[id], i)
		reg.Register(id, event.ReceiverFunc[T](func(v T) T {
			ran = append(ran, fmt.Sprintf("%d(%s)", i, show(v)))
			return ret[i]
		}))
	}
	val := vals[R.Intn(len(vals))]
	cur := val
	var want []string
	for id := 0; id < 4; id++ {
		for _, i := range byId[id] {
			want = append(want, fmt.Sprintf("%d(%s)", i, show(cur)))
			cur = ret[i]
		}
	}
	var got T
	if c.NoPanic("typed-panic", fmt.Sprintf("Send of a %s", typ), func() { got = reg.Send(val) }) {
		c.Check(show(got) == show(cur) && eqs(ran, want), "typed-send", "Send of %s %s ran %v and returned %s, expected %v and %s", typ, show(val), ran, show(got), want, show(cur))
	}
	c.Ev("sends of " + typ)
	c.Obs(typ, want)
}

func adder(tag string) event.Receiver[trace] {
	return event.ReceiverFunc[trace](func(t trace) trace { return t.add(tag) })
}

func init() {
	h.Register("C16", "distinct receiver sequences observed by a Send (and distinct change scripts applied by receivers during a Send)", func(r *h.Run) {
		n := 15000
		if r.Thorough() {
			n = 60000
		}
		ints := []int{-9223372036854775808, -3, -1, 0, 1, 2, 3, 5, 8, 9223372036854775807}
		strs := []string{"", "a", "aa", "b", "Z", "é", "\x00", "10", "9"}
		floats := []float64{-1e300, -1, -0.5, 0, 5e-324, 0.5, 1, 1e300}
		bytes := []uint8{0, 1, 2, 127, 128, 200, 255}
		r.Group("history", n, func(c *h.Ctx) {
			switch c.Idx % 4 {
			case 0:
				registryHistory(c, "int", ints)
			case 1:
				registryHistory(c, "string", strs)
			case 2:
				registryHistory(c, "float64", floats)
			default:
				registryHistory(c, "uint8", bytes)
			}
		})
		r.Group("many", n/40, bigHistory)
		r.Group("large", 6+n/2000, largeRegistry)
		sizes(r, 3, 700, 1500, largeRegistry)
		r.Group("reentrant", n, registryReentrant)
		r.Group("concurrent", n/20, registryConcurrent)
		r.Group("typed", n/5, func(c *h.Ctx) {
			var p *int
			switch c.Idx % 7 {
			case 0:
				typed(c, "any", []any{nil, 0, 1, "", "a", errInjected, false, true, p, new(int), []int(nil), struct{}{}})
			case 1:
				typed(c, "error", []error{nil, errInjected, fmt.Errorf(""), (*nilErr)(nil)})
			case 2:
				typed(c, "pointer", []*int{nil, new(int), new(int)})
			case 3:
				typed(c, "slice", [][]int{nil, {}, {1}, {1, 2}})
			case 4:
				typed(c, "int", []int{0, 1, -1, 7})
			case 5:
				typed(c, "None", []event.None{{}})
			default:
				typed(c, "struct with an error", []struct {
					N   int
					Err error
				}{{0, nil}, {1, nil}, {1, errInjected}, {0, errInjected}})
			}
		})
		r.Group("closures", 1, func(c *h.Ctx) {
			// receivers made by the same function literal, capturing different values
			var reg event.Registry[int, trace]
			a, b := adder("a"), adder("b")
			reg.Register(0, a)
			reg.Register(0, b)
			reg.Remove(0, b)
			got := reg.Send(trace{}).names
			c.Check(got == "a,", "closure-same-literal", "receivers a and b are two closures of one function literal; after Remove(0, b), Send ran %s instead of a,", got)
		})
	})
}
