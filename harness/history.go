//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"strings"

	"SIMMODULE/simrt"
)

// heavyOps are the operations with internal buffers and long computations; they
// get a larger share of the drawn calls.
func heavyOp(n string) bool {
	for _, s := range []string{"Bootstrap", "BlindRotate", "KeySwitch", "ExternalProd", "HybridProd", "GadgetProd", "CMux", "Pack", "Tensor", "Relinearize", "CircuitBootstrap", "GenLUT", "Decrypt", "Decompose", "ShortFFT"} {
		if strings.Contains(n, s) {
			return true
		}
	}
	switch strings.TrimSuffix(strings.TrimSuffix(n, "To"), "Parallel") {
	case "AND", "OR", "XOR", "NAND", "NOR", "XNOR", "Mul", "Permute", "MulPoly", "MulAddPoly", "MulSubPoly":
		return true
	}
	return false
}

// drawOp picks an operation: own operations and expensive ones preferred.
func drawOp(c *Ctx, ops []opDesc) opDesc {
	mode := c.Int(4)
	var l []opDesc
	for _, o := range ops {
		switch mode {
		case 0, 1:
			if o.path == "" && heavyOp(o.name) {
				l = append(l, o)
			}
		case 2:
			if o.path == "" {
				l = append(l, o)
			}
		default:
			l = append(l, o)
		}
	}
	if len(l) == 0 {
		l = ops
	}
	return l[c.Int(len(l))]
}

// held is a result handed to a caller, which must never change afterwards.
type held struct {
	v      reflect.Value
	d      uint64
	op     string
	reused bool
}

func holdAll(hs []*held, o *outcome, op string) []*held {
	for _, r := range o.rets {
		if r.Kind() == reflect.Struct || r.Kind() == reflect.Slice {
			hs = append(hs, &held{v: r, d: digest(r), op: op})
		}
	}
	if o.dest.IsValid() {
		hs = append(hs, &held{v: o.dest, d: digest(o.dest), op: op})
	}
	return hs
}

func checkHeld(c *Ctx, hs []*held, when string) {
	for _, h := range hs {
		if !h.reused && digest(h.v) != h.d {
			c.Failf("result-changed:"+h.op, "a result returned earlier by %s changed later (%s)", h.op, when)
		}
	}
}

// destruct says that the operation documents the destruction of argument i.
func destruct(op string, i int) bool {
	return strings.HasSuffix(op, "ToUnsafe") && i == 1
}

// safeCopy calls SafeCopy on an actor.
func safeCopy(a *actor) *actor {
	m := a.obj.MethodByName("SafeCopy")
	if !m.IsValid() {
		return a
	}
	return &actor{key: a.key, obj: m.Call(nil)[0], w: a.w}
}

// actorSpec selects what a scenario drives.
type actorSpec struct {
	kind  string
	names []string
}

type histSide struct {
	w    *world
	live *actor
	ops  []opDesc
}

// runHistory drives long-lived objects through a random history, comparing every
// operation with the same operation on a fresh object.
func runHistory(c *Ctx, specs []actorSpec) {
	c.Sim(SimOpts{Name: "history", Est: 200000, AllowLeak: false}, func() {
		var sides []*histSide
		n := 1 + c.Int(2)
		for i := 0; i < n; i++ {
			sp := specs[c.Int(len(specs))]
			w := newWorld(c, sp.kind)
			name := sp.names[c.Int(len(sp.names))]
			a := w.actor(name)
			sides = append(sides, &histSide{w: w, live: a, ops: a.ops()})
			c.Desc("actor %d: %s over %v (N=%d k=%d n=%d LUT=%dN)", i, name, w.T, w.N, w.k, w.n, w.ext)
		}
		before := make([]uint64, n)
		for i, s := range sides {
			before[i] = s.w.keyDigest()
		}
		var results []*held
		steps := 3 + c.Int(12)
		prev := "start"
		for st := 0; st < steps; st++ {
			s := sides[c.Int(n)]
			if c.Bool(1, 10) {
				old := s.live
				s.live = safeCopy(old)
				c.Count("history steps on a copy")
				if s.w.join != nil && c.Int(2) == 1 {
					s.w.join(c, old, true)
				}
			}
			if s.w.join != nil && c.Bool(1, 5) {
				s.w.join(c, s.live, false)
			}
			op := drawOp(c, s.ops)
			cl, ok := s.live.prepareCall(c, op)
			if !ok {
				continue
			}
			tag := s.live.key + "." + op.String()
			c.Cover(s.live.key, prev, op.String())
			r := histStep(c, s, cl, tag, &results)
			c.Count("operations compared with a fresh object")
			c.Desc("%s %s", tag, r)
			prev = op.String()
			if c.Bool(1, 4) {
				checkHeld(c, results, "after "+tag)
			}
		}
		checkHeld(c, results, "at the end")
		for i, s := range sides {
			if s.w.keyDigest() != before[i] {
				c.Failf("key-changed:"+s.live.key, "operations on %s modified a key", s.live.key)
			}
		}
		c.nontrivial = steps >= 2
	})
}

func histStep(c *Ctx, s *histSide, cl *call, tag string, results *[]*held) string {
	note := ""
	argD := make([]uint64, len(cl.args))
	for i, a := range cl.args {
		argD[i] = digest(a)
	}
	var got, ref outcome
	alias := -1
	var reuse *held
	if cl.destIdx >= 0 {
		tmpl := cl.args[cl.destIdx]
		var init reflect.Value
		mode := c.Int(4)
		switch {
		case cl.mode == destInOut:
			mode = 1
			init = tmpl
		case mode == 2:
			for j := range cl.args {
				if j != cl.destIdx && aliasTable[aliasKey(s.live.key, cl.op, j)] && aliasable(tmpl, cl.args[j]) {
					if alias < 0 || c.Int(2) == 1 {
						alias = j
					}
				}
			}
			if alias < 0 {
				mode = 1
			}
		case mode == 3:
			for _, h := range *results {
				if !h.reused && h.v.Type() == tmpl.Type() && aliasable(tmpl, h.v) {
					reuse = h
				}
			}
			if reuse == nil {
				mode = 1
			}
		}
		switch {
		case alias >= 0:
			note = fmt.Sprintf("destination=argument %d", alias)
			c.Fault("destination aliased with an input")
			x := clone(cl.args[alias])
			init = clone(x)
			al := *cl
			al.args = append([]reflect.Value(nil), cl.args...)
			got = s.live.execAlias(&al, x, alias)
		case reuse != nil:
			note = "destination=earlier result of " + reuse.op
			c.Fault("destination holding an earlier result")
			reuse.reused = true
			init = clone(reuse.v)
			got = s.live.exec(cl, reuse.v, false)
		case mode == 0:
			note = "destination=new"
			init = zeroed(tmpl)
			got = s.live.exec(cl, clone(init), false)
		default:
			note = "destination=old contents"
			if cl.mode != destInOut {
				c.Fault("destination with unrelated old contents")
			}
			init = clone(tmpl)
			got = s.live.exec(cl, clone(init), false)
		}
		if cl.mode == destWrite {
			init = zeroed(tmpl)
		}
		ref = s.w.actor(s.live.key).exec(cl, clone(init), false)
	} else {
		got = s.live.exec(cl, reflect.Value{}, false)
		ref = s.w.actor(s.live.key).exec(cl, reflect.Value{}, false)
	}
	if got.panicked != ref.panicked {
		c.Failf("panic-differs:"+tag, "%s (%s): long-used object: %q, fresh object: %q", tag, note, got.panicked, ref.panicked)
	}
	if got.panicked != "" {
		c.Count("operations that panicked on both")
		return note + " panicked"
	}
	for i := range cl.args {
		if i == cl.destIdx || i == alias || destruct(cl.op.name, i) {
			continue
		}
		if digest(got.args[i]) != argD[i] || digest(cl.args[i]) != argD[i] {
			c.Failf("input-modified:"+tag, "%s (%s) modified its argument %d", tag, note, i)
		}
	}
	if got.hash != ref.hash {
		w := ""
		if got.dest.IsValid() && digest(got.dest) != digest(ref.dest) {
			w = "destination" + where(got.dest, ref.dest)
		} else {
			for i := range got.rets {
				if digest(got.rets[i]) != digest(ref.rets[i]) {
					w = "result" + where(got.rets[i], ref.rets[i])
				}
			}
		}
		c.Failf("mismatch:"+tag, "%s (%s): result differs from the same operation on a fresh object at %s", tag, note, w)
	}
	c.Note(ref.hash)
	*results = holdAll(*results, &got, tag)
	if cl.destIdx < 0 && len(ref.rets) == 1 && c.Bool(1, 3) {
		compareForms(c, s, cl, &ref, tag)
	}
	return note
}

// compareForms executes the writing form of a returning operation.
func compareForms(c *Ctx, s *histSide, cl *call, ref *outcome, tag string) {
	op2 := opDesc{cl.op.path, cl.op.name + "To"}
	m2, ok := s.live.method(op2)
	if !ok {
		return
	}
	known := false
	for _, o := range s.ops {
		known = known || o == op2
	}
	r := ref.rets[0]
	di, mode := destOf(s.live.recvKey(op2), op2.name, m2.Type())
	if !known || m2.Type().NumIn() != len(cl.args)+1 || m2.Type().In(di) != r.Type() || mode != destWrite {
		return
	}
	cl2 := &call{op: op2, destIdx: di, mode: mode}
	j := 0
	for i := 0; i < len(cl.args)+1; i++ {
		if i == di {
			cl2.args = append(cl2.args, zeroed(r))
			continue
		}
		if m2.Type().In(i) != cl.args[j].Type() {
			return
		}
		cl2.args = append(cl2.args, cl.args[j])
		j++
	}
	o2 := s.live.exec(cl2, zeroed(r), false)
	c.Count("returning and writing forms compared")
	if o2.panicked != "" {
		c.Failf("forms-differ:"+tag, "%s returns a result but %s panics: %s", tag, op2, o2.panicked)
	}
	if ok, w := approx(r, o2.dest); !ok {
		c.Failf("forms-differ:"+tag, "%s and %s give different results: %s", tag, op2, w)
	}
}

// runConcurrent drives safe copies of one object from several simulated threads
// and compares every result with the thread running alone.
func runConcurrent(c *Ctx, specs []actorSpec) {
	sp := specs[c.Int(len(specs))]
	type prog struct {
		calls []*call
		dest  []int // 0 new, 1 old contents
		ref   []outcome
		got   []outcome
		how   int
	}
	var w *world
	var base *actor
	var name string
	nT := 2 + c.Int(3)
	progs := make([]*prog, nT)
	c.Seq("setup", func() {
		w = newWorld(c, sp.kind)
		name = sp.names[c.Int(len(sp.names))]
		base = w.actor(name)
		ops := base.ops()
		c.Desc("%d threads on copies of %s over %v (N=%d k=%d n=%d)", nT, name, w.T, w.N, w.k, w.n)
		if c.Int(2) == 1 { // a base with a past
			for i := 0; i < 2; i++ {
				if cl, ok := base.prepareCall(c, drawOp(c, ops)); ok {
					base.exec(cl, reflect.Value{}, false)
				}
			}
		}
		same := c.Bool(1, 3)
		for t := range progs {
			p := &prog{}
			progs[t] = p
			if same && t > 0 { // all threads run the same operations on different data
				for _, cl := range progs[0].calls {
					if c2, ok := base.prepareCall(c, cl.op); ok {
						p.calls = append(p.calls, c2)
						p.dest = append(p.dest, c.Int(2))
					}
				}
				continue
			}
			for i := 0; i < 1+c.Int(3); i++ {
				if cl, ok := base.prepareCall(c, drawOp(c, ops)); ok {
					p.calls = append(p.calls, cl)
					p.dest = append(p.dest, c.Int(2))
				}
			}
		}
	})
	destFor := func(cl *call, mode int) reflect.Value {
		switch {
		case cl.destIdx < 0:
			return reflect.Value{}
		case cl.mode == destWrite && mode == 0:
			return zeroed(cl.args[cl.destIdx])
		}
		return clone(cl.args[cl.destIdx])
	}
	var est int64
	for _, p := range progs {
		p := p
		r := c.Seq("reference", func() {
			a := w.actor(name)
			for i, cl := range p.calls {
				p.ref = append(p.ref, a.exec(cl, destFor(cl, p.dest[i]), unsafeShare(cl)))
			}
		})
		est += r.Steps
	}
	keys := w.keyDigest()
	pool := w.poolDigests()
	// how each thread gets its copy
	inThread := false
	for t, p := range progs {
		p.how = c.Int(4)
		if p.how == 3 && (t != 0 || inThread) {
			p.how = 0
		}
		inThread = inThread || p.how == 1
	}
	if progs[0].how == 3 && inThread {
		progs[0].how = 0
	}
	c.Sim(SimOpts{Name: "concurrent", Est: est}, func() {
		objs := make([]*actor, nT)
		for t, p := range progs {
			switch p.how {
			case 0:
				objs[t] = safeCopy(base)
			case 2:
				objs[t] = safeCopy(safeCopy(base))
			case 3:
				objs[t] = base
			}
		}
		var fs []func()
		for t, p := range progs {
			t, p := t, p
			fs = append(fs, func() {
				a := objs[t]
				if a == nil {
					a = safeCopy(base)
				}
				for i, cl := range p.calls {
					p.got = append(p.got, a.exec(cl, destFor(cl, p.dest[i]), unsafeShare(cl)))
				}
			})
		}
		threads(fs...)
	})
	for t, p := range progs {
		for i, cl := range p.calls {
			tag := name + "." + cl.op.String()
			g, r := &p.got[i], &p.ref[i]
			c.Count("operations compared with running alone")
			c.Cover(name, cl.op.String(), nT)
			if g.panicked != r.panicked {
				c.Failf("panic-differs:"+tag, "thread %d: %s among other threads: %q, alone: %q", t, tag, g.panicked, r.panicked)
			}
			if g.panicked != "" {
				continue
			}
			if g.hash != r.hash {
				at := ""
				if g.dest.IsValid() {
					at = "destination" + where(g.dest, r.dest)
				}
				c.Failf("mismatch:"+tag, "thread %d: %s gives a different result when other threads use their own copies (%s)", t, tag, at)
			}
			if g.result() != g.hash {
				c.Failf("result-changed:"+tag, "thread %d: the result of %s changed after it was returned", t, tag)
			}
			c.Note(r.hash)
		}
		c.Desc("thread %d: %d calls, copy mode %d, first %v", t, len(p.calls), p.how, firstOp(p.calls))
	}
	if w.keyDigest() != keys {
		c.Failf("key-changed:"+name, "concurrent use of copies of %s modified a shared key", name)
	}
	for k, d := range w.poolDigests() {
		if o, ok := pool[k]; ok && o != d {
			c.Failf("input-modified:"+name, "concurrent use of copies of %s modified a shared input (%s)", name, k)
		}
	}
	c.nontrivial = true
}

func firstOp(cs []*call) string {
	if len(cs) == 0 {
		return "-"
	}
	return cs[0].op.String()
}

// unsafeShare: templates are shared between threads unless the operation
// documents that it destroys an input.
func unsafeShare(cl *call) bool { return !strings.HasSuffix(cl.op.name, "ToUnsafe") }

var _ = simrt.Yield

func init() {
	single := []actorSpec{{"tfhe", []string{"tfhe.Evaluator", "tfhe.BinaryEvaluator"}}}
	register("H01", true, func(c *Ctx) { runHistory(c, single) })
	register("C01", true, func(c *Ctx) { runConcurrent(c, single) })
	register("C05", true, func(c *Ctx) {
		runConcurrent(c, []actorSpec{
			{"tfhe", []string{"poly.Evaluator", "tfhe.Decomposer", "tfhe.GLWETransformer"}},
			{"tfhe", []string{"poly.Evaluator"}},
			{"mk", []string{"mktfhe.GLWETransformer"}},
		})
	})
}
