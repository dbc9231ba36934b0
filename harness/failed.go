//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"strings"

	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
)

// H05: operations abandoned half-way. A step either runs an operation normally and
// judges it, or provokes a failure the caller recovers from: a table function that
// panics at its k-th call, arguments the operation cannot accept, or an entropy
// source that fails while a copy or key is made.

// abandoned is what the harness's table functions panic with.
type abandoned struct{ call int }

// countingFunc wraps a table function so that its at-th call panics.
func countingFunc(f reflect.Value, n *int, at int) reflect.Value {
	return reflect.MakeFunc(f.Type(), func(in []reflect.Value) []reflect.Value {
		*n++
		if *n == at {
			panic(abandoned{at})
		}
		simrt.Yield()
		return f.Call(in)
	})
}

// wrapFuncs replaces every table function among the arguments. ok is false if there is none.
func wrapFuncs(args []reflect.Value, n *int, at int) (out []reflect.Value, ok bool) {
	for _, a := range args {
		switch {
		case a.Kind() == reflect.Func:
			a, ok = countingFunc(a, n, at), true
		case a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Func:
			s := reflect.MakeSlice(a.Type(), a.Len(), a.Len())
			for i := 0; i < a.Len(); i++ {
				s.Index(i).Set(countingFunc(a.Index(i), n, at))
			}
			a, ok = s, true
		}
		out = append(out, a)
	}
	return out, ok
}

// spoil returns a version of an argument that an operation cannot work with. Slices
// are only shortened in place, so that memory behind them stays allocated.
func spoil(c *Ctx, name string, v reflect.Value) (reflect.Value, string, bool) {
	switch v.Kind() {
	case reflect.Func:
		return reflect.Zero(v.Type()), "nil function", true
	case reflect.Int:
		if strings.Contains(name, "Permute") {
			x := []int{2, 0, -4, 77}[c.Int(4)]
			return reflect.ValueOf(x), fmt.Sprint("index ", x), true
		}
		x := -1
		if !strings.Contains(name, "Bits") {
			x = []int{-1, 1 << 20}[c.Int(2)]
		}
		return reflect.ValueOf(x), fmt.Sprint("index ", x), true
	case reflect.Uint32, reflect.Uint64:
		if strings.Contains(name, "Custom") {
			return reflect.Zero(v.Type()), "modulus 0", true
		}
		return v, "", false
	case reflect.Slice:
		if v.Len() == 0 {
			return v, "", false
		}
		if v.Type().Elem().Kind() == reflect.Func && c.Int(2) == 1 { // too many
			s := reflect.MakeSlice(v.Type(), 0, 40)
			for s.Len() < 33 {
				s = reflect.AppendSlice(s, v)
			}
			return s, "too many functions", true
		}
		n := []int{v.Len() - 1, 0, v.Len() / 2}[c.Int(3)]
		return v.Slice(0, n), fmt.Sprintf("%d of %d entries", n, v.Len()), true
	case reflect.Struct:
		// shorten one of the slices inside, outermost most likely
		var paths []reflect.Value
		var rec func(x reflect.Value, depth int)
		rec = func(x reflect.Value, depth int) {
			switch x.Kind() {
			case reflect.Struct:
				if n := typeName(x.Type()); strings.HasSuffix(n, "Parameters") {
					return
				}
				for i := 0; i < x.NumField(); i++ {
					rec(writable(x.Field(i)), depth)
				}
			case reflect.Slice:
				if x.Len() > 0 {
					paths = append(paths, x)
					if depth < 4 {
						rec(x.Index(c.Int(x.Len())), depth+1)
					}
				}
			}
		}
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		rec(p.Elem(), 0)
		if len(paths) == 0 {
			return v, "", false
		}
		x := paths[c.Int(len(paths))]
		old := x.Len()
		n := []int{old - 1, old / 2, 0}[c.Int(3)]
		x.Set(x.Slice(0, n))
		return p.Elem(), fmt.Sprintf("a part with %d of %d entries", n, old), true
	}
	return v, "", false
}

// failStep makes one operation of the object fail half-way. It returns the abandoned
// destination, which the caller may use again, if it is intact.
func failStep(c *Ctx, s *histSide, results *[]*held) {
	ops := s.ops
	if c.Int(2) == 1 { // table functions
		var l []opDesc
		for _, o := range ops {
			if m, ok := s.live.method(o); ok {
				for i := 0; i < m.Type().NumIn(); i++ {
					t := m.Type().In(i)
					if t.Kind() == reflect.Func || t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Func {
						l = append(l, o)
						break
					}
				}
			}
		}
		if len(l) > 0 {
			ops = l
		}
	}
	op := drawOp(c, ops)
	cl, ok := s.live.prepareCall(c, op)
	if !ok {
		return
	}
	tag := s.live.key + "." + op.String()
	args := make([]reflect.Value, len(cl.args))
	for i, a := range cl.args {
		if a.Kind() == reflect.Func || plainKind(a.Kind()) {
			args[i] = a
		} else {
			args[i] = clone(a)
		}
	}
	what, spoilt := "", -1
	n := 0
	if w, fn := wrapFuncs(args, &n, 0); fn && c.Int(4) > 0 {
		// count its calls on a fresh object
		probe := *cl
		probe.args = w
		o := s.w.actor(s.live.key).exec(&probe, reflect.Value{}, false)
		if o.panicked != "" || n == 0 {
			return
		}
		at := 1 + c.Int(n)
		k := 0
		args, _ = wrapFuncs(args, &k, at)
		what = fmt.Sprintf("its table function panics at call %d of %d", at, n)
		c.Fault("table function panicking")
	} else {
		if strings.Contains(op.name, "Parallel") || strings.Contains(op.name, "ecompose") || len(args) == 0 {
			return // a failure inside a worker cannot be recovered from
		}
		i := c.Int(len(args))
		v, how, ok := spoil(c, op.name, args[i])
		if !ok {
			return
		}
		args[i], spoilt = v, i
		what = fmt.Sprintf("argument %d: %s", i, how)
	}
	digs := make([]uint64, len(args))
	for i := range args {
		digs[i] = digest(args[i])
	}
	bad := *cl
	bad.args = args
	o := s.live.exec(&bad, reflect.Value{}, true)
	c.Desc("%s abandoned: %s -> %.60s", tag, what, o.panicked)
	if spoilt >= 0 {
		if o.panicked == "" {
			c.Count("unusual arguments accepted")
			return
		}
		c.Fault("arguments rejected")
	} else if o.panicked == "" {
		c.Count("panics swallowed by the operation")
	}
	c.Cover(s.live.key, op.String(), what)
	for i := range args {
		if i != cl.destIdx && !destruct(op.name, i) && digest(args[i]) != digs[i] {
			c.Failf("input-modified:"+tag, "%s, abandoned half-way (%s), left its argument %d modified", tag, what, i)
		}
	}
	if cl.destIdx >= 0 && cl.destIdx != spoilt && args[cl.destIdx].Kind() == reflect.Struct {
		*results = append(*results, &held{v: args[cl.destIdx], d: digest(args[cl.destIdx]), op: tag + " (abandoned)"})
	}
}

// runFailing drives objects and their copies through histories with failures.
func runFailing(c *Ctx, specs []actorSpec) {
	var w *world
	var base *actor
	var before uint64
	nT := 1
	if c.Int(3) == 2 {
		nT = 2 + c.Int(2)
	}
	c.Seq("setup", func() {
		sp := specs[c.Int(len(specs))]
		w = newWorld(c, sp.kind)
		base = w.actor(sp.names[c.Int(len(sp.names))])
		before = w.keyDigest()
	})
	c.Desc("%s over %v (N=%d k=%d n=%d LUT=%dN), %d threads", base.key, w.T, w.N, w.k, w.n, w.ext, nT)
	ops := base.ops()
	hows := drawCopies(c, nT)
	c.Sim(SimOpts{Name: "failures", Est: 150000}, func() {
		concurrently(hows, base, safeCopy, func(t int, o *actor) {
			s := &histSide{w: w, live: o, ops: ops}
			var results []*held
			failed := false
			for st := 3 + c.Int(8); st > 0; st-- {
				switch c.Int(5) {
				case 0, 1:
					failStep(c, s, &results)
					failed = true
					if c.Int(4) == 3 {
						s.live = safeCopy(s.live)
						c.Count("copies taken after a failure")
					}
				default:
					op := drawOp(c, s.ops)
					cl, ok := s.live.prepareCall(c, op)
					if !ok {
						continue
					}
					tag := s.live.key + "." + op.String()
					r := histStep(c, s, cl, tag, &results)
					c.Desc("thread %d: %s %s", t, tag, r)
					if failed {
						c.Count("operations compared with a fresh object after a failure")
					} else {
						c.Count("operations compared with a fresh object")
					}
				}
			}
			checkHeld(c, results, "at the end")
		})
	})
	if w.keyDigest() != before {
		c.Failf("key-changed:"+base.key, "operations on %s, some of which failed, modified a key", base.key)
	}
	c.nontrivial = true
}

// ---- randomised objects

// plainWorld describes the shapes of a parameter set, to build arguments.
func plainWorld[T tfhe.TorusInt](c *Ctx, par tfhe.Parameters[T], parties int) *world {
	w := &world{seed: c.DataSeed(), pool: map[string][]reflect.Value{}, make: makeFor[T], kind: "plain"}
	w.n, w.big, w.def = par.LWEDimension(), par.GLWEDimension(), par.DefaultLWEDimension()
	w.k, w.N, w.ext, w.p = par.GLWERank(), par.PolyRank(), par.LUTExtendFactor(), int(par.MessageModulus())
	w.mkP, w.mkDef, w.mkN = parties, parties*w.def, w.N
	w.lutCnt = 2
	w.parties = []int{0}
	w.galois = []int{3, 5}
	for _, g := range gadgets[T]() {
		w.gads = append(w.gads, reflect.ValueOf(g))
		w.levels = append(w.levels, g.Level())
	}
	return w
}

// badCall prepares a call of a randomised object that fails half-way.
func badCall(c *Ctx, w *world, obj reflect.Value) (string, func(), bool) {
	t := obj.Type()
	var ms []int
	for i := 0; i < t.NumMethod(); i++ {
		n := t.Method(i).Name
		if t.Method(i).Type.NumIn() < 2 || strings.Contains(n, "Parallel") || strings.Contains(n, "Buffer") || strings.HasPrefix(n, "Add") || strings.Contains(n, "ecompose") || strings.HasPrefix(n, "Set") {
			continue
		}
		ms = append(ms, i)
	}
	if len(ms) == 0 {
		return "", nil, false
	}
	mi := ms[c.Int(len(ms))]
	name := typeKey(t.Elem()) + "." + t.Method(mi).Name
	m := obj.Method(mi)
	cc := &callCtx{gi: c.Int(len(w.gads))}
	tIdx := 0
	var args []reflect.Value
	for i := 0; i < m.Type().NumIn(); i++ {
		v, ok := w.arg(c, cc, typeKey(t.Elem()), opDesc{name: t.Method(mi).Name}, m.Type(), i, false, &tIdx)
		if !ok {
			return "", nil, false
		}
		if v.Kind() != reflect.Func && !plainKind(v.Kind()) {
			v = clone(v)
		}
		args = append(args, v)
	}
	n := 0
	if wr, fn := wrapFuncs(args, &n, 1+c.Int(w.p)); fn && c.Int(3) > 0 {
		return name + " (its table function panics)", func() { m.Call(wr) }, true
	}
	i := c.Int(len(args))
	v, how, ok := spoil(c, t.Method(mi).Name, args[i])
	if !ok {
		return "", nil, false
	}
	args[i] = v
	return fmt.Sprintf("%s (argument %d: %s)", name, i, how), func() { m.Call(args) }, true
}

// runFailingRandomised drives encryptors and key generators through failures.
func runFailingRandomised[T tfhe.TorusInt](c *Ctx) {
	sc := newScene(c, newReuse[T](c, 0))
	nT := 1
	if c.Int(3) == 2 {
		nT = 2
	}
	ts := make([]*track, nT)
	for i := range ts {
		ts[i] = newTrack(c, fmt.Sprintf("thread %d", i))
	}
	var base any
	c.Seq("setup", func() {
		base = sc.make()
		if c.Int(2) == 1 {
			_, ex := sc.draw(base, false)
			ex(ts[0], base)
		}
	})
	in := sc.inputs()
	hows := drawCopies(c, nT)
	armed := false
	c.Desc("%s, %d threads", sc.name, nT)
	res := c.Sim(SimOpts{Name: "failures", Est: 80000, NumCPU: 1 + c.Int(4), AllowPanic: true}, func() {
		concurrently(hows, base, sc.copy, func(i int, o any) {
			objs := []any{o}
			failed := false
			for st := 3 + c.Int(6); st > 0; st-- {
				k := c.Int(len(objs))
				switch f := c.Int(6); {
				case f == 0 && nT == 1: // entropy
					plan := simrt.EntropyPlan{FailAt: 1 + c.Int(3), FailFor: 1, Partial: c.Int(2) == 1}
					before := simrt.EntropyFailures()
					armed = true
					var n any
					simrt.ArmEntropy(plan)
					p := catch(func() { n = sc.copy(objs[k]) })
					simrt.DisarmEntropy()
					armed = false
					if simrt.EntropyFailures() > before {
						failed = true
						c.Fault("entropy source failing while a copy is made")
						if p == nil {
							c.Count("entropy failures swallowed")
						}
					} else if p == nil {
						objs = append(objs, n)
					}
				case f <= 2: // rejected arguments
					parts := sc.parts(objs[k])
					name, call, ok := badCall(c, sc.world, parts[c.Int(len(parts))])
					if !ok {
						continue
					}
					c.Desc("trying %s", name)
					if p := catch(call); p != nil {
						failed = true
						c.Fault("arguments rejected")
						if _, own := p.(abandoned); own {
							c.Fault("table function panicking")
						}
						c.Cover(sc.name, name)
						c.Desc("%s -> %.60s", name, fmt.Sprint(p))
					} else {
						c.Count("unusual arguments accepted")
					}
					if sc.inputs() != in {
						c.Failf("input-modified:"+sc.name, "a failed %s modified a key or another shared input", name)
					}
				case f == 3 && len(objs) < 3:
					objs = append(objs, sc.copy(objs[k]))
				default:
					name, ex := sc.draw(objs[k], st < 3)
					ex(ts[i], objs[k])
					c.Desc("thread %d: %s", i, name)
					if failed {
						c.Count("randomised operations judged after a failure")
					}
				}
			}
		})
	})
	if res.Panicked {
		if armed { // the failure ended the process: nothing is left to be judged
			simrt.DisarmEntropy()
			c.Count("failures that ended the process")
			return
		}
		c.Failf("panic:failures:"+topFrame(res.PanicStack), "an operation panicked after an earlier one had failed: %s\n  at %s", res.PanicValue, res.PanicStack)
	}
	c.Seq("judge", func() {
		for _, t := range ts {
			_, ex := sc.draw(base, false)
			ex(t, base)
		}
		judgeAll(ts...)
		sc.stats()
	})
	if sc.inputs() != in {
		c.Failf("input-modified:"+sc.name, "operations some of which failed modified a key or another shared input")
	}
	c.nontrivial = true
}

func init() {
	specs := []actorSpec{
		{"tfhe", []string{"tfhe.Evaluator", "tfhe.BinaryEvaluator"}},
		{"mk", []string{"mktfhe.Evaluator", "mktfhe.BinaryEvaluator", "mktfhe.Decryptor"}},
		{"bfv", []string{"xtfhe.BFVEvaluator"}}, {"manylut", []string{"xtfhe.ManyLUTEvaluator"}},
		{"circuit", []string{"xtfhe.CircuitBootstrapper"}}, {"fhew", []string{"xtfhe.FHEWEvaluator"}},
		{"tfhe", []string{"tfhe.Evaluator", "poly.Evaluator", "tfhe.Encryptor", "tfhe.GLWETransformer"}},
	}
	register("H05", false, func(c *Ctx) {
		if c.Int(3) < 2 {
			runFailing(c, specs)
			return
		}
		either(c, runFailingRandomised[uint32], runFailingRandomised[uint64])
	})
}
