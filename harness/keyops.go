//go:build go1.22

package main

import (
	"fmt"
	"reflect"

	"SIMMODULE/mktfhe"
	"SIMMODULE/tfhe"
	"SIMMODULE/xtfhe"
)

// drawCPUs draws a machine size.
func drawCPUs(c *Ctx) int { return []int{4, 2, 1, 3, 8, 16, 5, 61}[c.Int(8)] }

// keygen is one parallel key generation and its judgement.
type keygen struct {
	name string
	gen  func() (check func())
}

// runKeygens runs key generations in their own threads, concurrently with each
// other, and judges every component afterwards.
func runKeygens(c *Ctx, gens []keygen, after func()) {
	checks := make([]func(), len(gens))
	cpus := drawCPUs(c)
	c.Desc("machine with %d CPUs", cpus)
	c.Sim(SimOpts{Name: "parallel key generation", Est: 30000, NumCPU: cpus}, func() {
		if len(gens) == 1 {
			checks[0] = gens[0].gen()
			return
		}
		var fs []func()
		for i := range gens {
			i := i
			fs = append(fs, func() { checks[i] = gens[i].gen() })
		}
		threads(fs...)
	})
	c.Seq("judge", func() {
		for i, f := range checks {
			c.Cover(gens[i].name, cpus, len(gens))
			c.Count("keys judged component by component")
			f()
		}
		after()
	})
	c.nontrivial = true
}

// held1 judges a returned key, which must not have changed since it was returned.
func held1[K any](c *Ctx, name string, k K, check func(K)) func() {
	d := digestOf(k)
	return func() {
		if digestOf(k) != d {
			c.Failf("result-changed:"+name, "a key returned by %s changed later", name)
		}
		check(k)
	}
}

func k01Single[T tfhe.TorusInt](c *Ctx) {
	par := genParams[T](c, paramOpts{maxN: 64, maxDim: 12 + 12*c.Int(2)}).Compile()
	e := newEncEnv(c, par)
	var o *encObjs[T]
	jobs := encJobs[T]()
	light := func(name string, n int) {
		t := newTrack(c, name)
		for ; n > 0; n-- {
			drawEncJob(c, e, jobs, o, false).exec(t, o)
		}
		judgeAll(t)
	}
	c.Seq("setup", func() {
		o = e.objs()
		light("before", c.Int(3))
	})
	in := e.inputs()
	n := 1 + c.Int(3)
	var gens []keygen
	for i := 0; i < n; i++ {
		g := o
		if i > 0 {
			g = o.copy()
		}
		kind := c.Int(4)
		var f func() func()
		name := ""
		switch kind {
		case 0:
			name = "GenEvalKeyParallel"
			f = func() func() {
				return held1(c, name, g.enc.GenEvalKeyParallel(), func(k tfhe.EvaluationKey[T]) { e.j.evalKey(name, k) })
			}
		case 1:
			name = "GenBlindRotateKeyParallel"
			f = func() func() {
				return held1(c, name, g.enc.GenBlindRotateKeyParallel(), func(k tfhe.BlindRotateKey[T]) { e.j.blindRotate(name, k) })
			}
		case 2:
			name = "GenDefaultKeySwitchKeyParallel"
			f = func() func() {
				return held1(c, name, g.enc.GenDefaultKeySwitchKeyParallel(), func(k tfhe.LWEKeySwitchKey[T]) { e.j.defaultKSK(name, k) })
			}
		case 3:
			name = "binary GenEvalKeyParallel"
			f = func() func() {
				return held1(c, name, g.benc.GenEvalKeyParallel(), func(k tfhe.EvaluationKey[T]) { e.j.evalKey(name, k) })
			}
		}
		gens = append(gens, keygen{name, f})
		c.Desc("%s: n=%d k=%d N=%d, %d generators", name, par.LWEDimension(), par.GLWERank(), par.PolyRank(), n)
	}
	runKeygens(c, gens, func() {
		light("after", 1+c.Int(4))
		e.j.stats()
	})
	if e.inputs() != in {
		c.Failf("input-modified:keygen", "parallel key generation modified the secret key it was given")
	}
}

func k01Multi[T tfhe.TorusInt](c *Ctx) {
	par := genMKParams[T](c, paramOpts{maxN: 32}, 3).Compile()
	e := newMKEnv(c, par)
	var o *mkObjs[T]
	jobs := mkJobs[T]()
	light := func(name string, n int) {
		t := newTrack(c, name)
		for ; n > 0; n-- {
			drawMKJob(c, e, jobs, o, false).exec(t, o)
		}
		judgeAll(t)
	}
	c.Seq("setup", func() {
		o = e.objs()
		light("before", c.Int(3))
	})
	in := e.inputs()
	n := 1 + c.Int(3)
	var gens []keygen
	for i := 0; i < n; i++ {
		p := i % len(e.parties)
		enc, benc := o.encs[p], o.bencs[p]
		if i >= len(e.parties) {
			enc, benc = enc.SafeCopy(), benc.SafeCopy()
		}
		name := []string{"mk GenEvalKeyParallel", "mk binary GenEvalKeyParallel", "mk GenDefaultKeySwitchKeyParallel"}[c.Int(3)]
		gens = append(gens, keygen{name, func() func() {
			switch name {
			case "mk GenEvalKeyParallel":
				return held1(c, name, enc.GenEvalKeyParallel(), func(k mktfhe.EvaluationKey[T]) { e.evalKey(name, p, k) })
			case "mk binary GenEvalKeyParallel":
				return held1(c, name, benc.GenEvalKeyParallel(), func(k mktfhe.EvaluationKey[T]) { e.evalKey(name, p, k) })
			}
			return held1(c, name, enc.GenDefaultKeySwitchKeyParallel(), func(k tfhe.LWEKeySwitchKey[T]) { e.js[p].defaultKSK(name, k) })
		}})
		c.Desc("%s for party %d of %d", name, e.parties[p], par.PartyCount())
	}
	runKeygens(c, gens, func() {
		light("after", 1+c.Int(4))
		for _, j := range e.js {
			j.stats()
		}
	})
	if e.inputs() != in {
		c.Failf("input-modified:keygen", "parallel key generation modified the secret key it was given")
	}
}

func k02[T tfhe.TorusInt](c *Ctx) {
	kind := []int{extFHEW, extFHEW, extBFV, extCircuit}[c.Int(4)]
	e := newExtEnv[T](c, kind)
	jobs := extJobs[T]()
	var o *extObjs[T]
	light := func(name string, n int) {
		t := newTrack(c, name)
		for ; n > 0; n-- {
			drawExtJob(c, e, jobs).exec(t, o)
		}
		judgeAll(t)
	}
	c.Seq("setup", func() {
		o = e.objs()
		light("before", c.Int(2))
	})
	in := e.inputs()
	n := 1 + c.Int(3)
	var gens []keygen
	for i := 0; i < n; i++ {
		g := o
		if i > 0 {
			g = o.copy()
		}
		var name string
		var f func() func()
		if kind == extFHEW {
			how := c.Int(4)
			name = []string{"FHEW GenEvalKeyParallel", "FHEW GenBlindRotateKeyParallel", "FHEW GenGaloisKey", "FHEW GenDefaultKeySwitchKeyParallel"}[how]
			f = func() func() {
				switch how {
				case 0:
					return held1(c, name, g.fhew.GenEvalKeyParallel(), func(k xtfhe.FHEWEvaluationKey[T]) { e.fhewEvk(name, k) })
				case 1:
					return held1(c, name, g.fhew.GenBlindRotateKeyParallel(), func(k tfhe.BlindRotateKey[T]) { e.fhewBRK(name, k) })
				case 2:
					return held1(c, name, g.fhew.GenGaloisKey(), func(k []tfhe.GLWEKeySwitchKey[T]) { e.fhewGalois(name, k) })
				}
				return held1(c, name, g.fhew.GenDefaultKeySwitchKeyParallel(), func(k tfhe.LWEKeySwitchKey[T]) { e.se.j.defaultKSK(name, k) })
			}
		} else {
			j := drawExtJob(c, e, jobs)
			t := newTrack(c, fmt.Sprintf("generator %d", i))
			name = j.name
			f = func() func() {
				j.exec(t, g)
				return func() { judgeAll(t) }
			}
		}
		gens = append(gens, keygen{name, f})
		c.Desc("%s: n=%d k=%d N=%d, %d generators", name, e.par.LWEDimension(), e.par.GLWERank(), e.par.PolyRank(), n)
	}
	runKeygens(c, gens, func() {
		light("after", 1+c.Int(2))
		e.se.j.stats()
	})
	if e.inputs() != in {
		c.Failf("input-modified:keygen", "key generation modified the secret key it was given")
	}
}

// ---------------------------------------------------------------------------
// parallel multi-key bootstrapping

// mkPar is one parallel operation and its sequential counterpart.
type mkPar struct {
	op     string
	seq    string
	writes bool
	ins    []int // indices of inputs
	lut    int
	alias  int // destination is this input, or -1
	dirty  uint64
}

// c06 compares parallel with sequential bootstrapping.
func c06[T tfhe.TorusInt](c *Ctx) {
	par := genMKParams[T](c, paramOpts{maxN: 32}, 5).Compile()
	P := par.PartyCount()
	r := c.Rng()
	evks := make([]mktfhe.EvaluationKey[T], P)
	for i := range evks {
		evks[i] = mktfhe.NewEvaluationKey(par)
		fillAny(&evks[i], r.Uint64())
	}
	var first, late []int
	for i := 0; i < P; i++ {
		switch c.Int(4) {
		case 0, 1:
			first = append(first, i)
		case 2:
			late = append(late, i)
		}
	}
	if len(first)+len(late) == 0 {
		first = []int{c.Int(P)}
	}
	all := append(append([]int(nil), first...), late...)
	keysOf := func(l []int) map[int]mktfhe.EvaluationKey[T] {
		m := map[int]mktfhe.EvaluationKey[T]{}
		for _, i := range l {
			m[i] = evks[i]
		}
		return m
	}
	// binary evaluators contain an ordinary one
	mk := func() *mktfhe.BinaryEvaluator[T] {
		b := mktfhe.NewBinaryEvaluator(par, keysOf(first))
		for _, i := range late {
			b.Evaluator.AddEvaluationKey(i, evks[i])
		}
		return b
	}
	var cts []mktfhe.LWECiphertext[T]
	var small []mktfhe.LWECiphertext[T]
	for i := 0; i < 3; i++ {
		x, y := mktfhe.NewLWECiphertext(par), mktfhe.NewLWECiphertextCustom[T](par.LWEDimension())
		fillAny(&x, r.Uint64())
		fillAny(&y, r.Uint64())
		cts, small = append(cts, x), append(small, y)
	}
	var luts []tfhe.LookUpTable[T]
	tab := []int{r.Intn(4), r.Intn(4), r.Intn(4), r.Intn(4)}
	fn := func(x int) int { return tab[x&3] % int(par.MessageModulus()) }
	for i := 0; i < 2; i++ {
		l := tfhe.NewLUT(par.SubParams())
		fillAny(&l, r.Uint64())
		luts = append(luts, l)
	}
	in := digestOf([]any{evks, cts, small, luts})
	gates := []string{"AND", "NAND", "OR", "NOR", "XOR", "XNOR"}
	draw := func() mkPar {
		p := mkPar{lut: c.Int(2), alias: -1, writes: c.Int(2) == 1, dirty: c.DataSeed()}
		switch c.Int(4) {
		case 0:
			p.op, p.seq, p.ins = "BootstrapLUTParallel", "BootstrapLUT", []int{c.Int(3)}
		case 1:
			p.op, p.seq, p.ins = "BootstrapFuncParallel", "BootstrapFunc", []int{c.Int(3)}
		case 2:
			p.op, p.seq, p.ins = "BlindRotateParallel", "BlindRotate", []int{c.Int(3)}
		case 3:
			g := gates[c.Int(len(gates))]
			p.op, p.seq, p.ins = g+"Parallel", g, []int{c.Int(3), c.Int(3)}
		}
		if p.writes && p.seq != "BlindRotate" && c.Int(3) == 2 {
			p.alias = c.Int(len(p.ins))
		}
		return p
	}
	run := func(b *mktfhe.BinaryEvaluator[T], p mkPar, parallel bool) uint64 {
		name := p.seq
		if parallel {
			name = p.op
		}
		recv := reflect.ValueOf(b)
		var args []reflect.Value
		gate := len(p.ins) == 2
		blind := p.seq == "BlindRotate"
		if !gate {
			recv = reflect.ValueOf(b.Evaluator)
		}
		var dest reflect.Value
		if blind {
			d := mktfhe.NewGLWECiphertext(par)
			fillAny(&d, p.dirty)
			dest = reflect.ValueOf(d)
		} else {
			d := mktfhe.NewLWECiphertext(par)
			fillAny(&d, p.dirty)
			dest = reflect.ValueOf(d)
		}
		var shared mktfhe.LWECiphertext[T] // input and destination at once
		if p.alias >= 0 {
			shared = cloneOf(cts[p.ins[p.alias]])
			dest = reflect.ValueOf(shared)
		}
		for _, i := range p.ins {
			x := cts[i]
			if blind && par.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
				x = small[i]
			}
			if p.alias >= 0 && i == p.ins[p.alias] {
				x = shared
			}
			args = append(args, reflect.ValueOf(x))
		}
		switch p.seq {
		case "BootstrapLUT", "BlindRotate":
			args = append(args, reflect.ValueOf(luts[p.lut]))
		case "BootstrapFunc":
			args = append(args, reflect.ValueOf(fn))
		}
		if !p.writes {
			return digest(recv.MethodByName(name).Call(args)[0])
		}
		recv.MethodByName(name + "To").Call(append([]reflect.Value{dest}, args...))
		return digest(dest)
	}
	nT := 1 + c.Int(3)
	progs := make([][]mkPar, nT)
	want := make([][]uint64, nT)
	got := make([][]uint64, nT)
	var base *mktfhe.BinaryEvaluator[T]
	c.Seq("reference", func() {
		for i := range progs {
			for k := 1 + c.Int(3); k > 0; k-- {
				p := draw()
				progs[i] = append(progs[i], p)
				want[i] = append(want[i], run(mk(), p, false))
				c.Desc("thread %d: %s writes=%v alias=%d", i, p.op, p.writes, p.alias)
			}
		}
		base = mk()
	})
	cpus := drawCPUs(c)
	c.Desc("%d parties, early %v, late %v, %d CPUs", P, first, late, cpus)
	hows := drawCopies(c, nT)
	c.Sim(SimOpts{Name: "parallel bootstrapping", Est: 40000, NumCPU: cpus}, func() {
		concurrently(hows, base, (*mktfhe.BinaryEvaluator[T]).SafeCopy, func(i int, b *mktfhe.BinaryEvaluator[T]) {
			for _, p := range progs[i] {
				c.Cover(p.op, p.writes, p.alias, len(all), nT)
				c.Count("parallel bootstrappings compared with sequential")
				if p.alias >= 0 {
					c.Fault("destination aliased with an input")
				} else if p.writes {
					c.Fault("destination with unrelated old contents")
				}
				got[i] = append(got[i], run(b, p, true))
			}
		})
	})
	for i := range progs {
		for k, p := range progs[i] {
			if got[i][k] != want[i][k] {
				c.Failf("mismatch:"+p.op, "thread %d step %d: %s (writes=%v, alias=%d) differs from %s, parties %v", i, k, p.op, p.writes, p.alias, p.seq, all)
			}
			c.Note(got[i][k])
		}
	}
	c.Seq("afterwards", func() {
		for k := 1 + c.Int(2); k > 0; k-- {
			p := draw()
			w := run(mk(), p, false)
			if run(base, p, false) != w || run(base, p, true) != w {
				c.Failf("mismatch-after:"+p.seq, "after parallel bootstrapping, %s on the same evaluator gives another result", p.seq)
			}
		}
	})
	if digestOf([]any{evks, cts, small, luts}) != in {
		c.Failf("input-modified:parallel bootstrapping", "parallel bootstrapping modified an input, table or key")
	}
	c.nontrivial = true
}

func init() {
	register("K01", false, func(c *Ctx) {
		switch c.Int(5) {
		case 0, 1:
			k01Single[uint64](c)
		case 2:
			k01Single[uint32](c)
		case 3:
			k01Multi[uint64](c)
		case 4:
			k01Multi[uint32](c)
		}
	})
	register("K02", false, func(c *Ctx) { either(c, k02[uint32], k02[uint64]) })
	register("C06", true, func(c *Ctx) { either(c, c06[uint32], c06[uint64]) })
}
