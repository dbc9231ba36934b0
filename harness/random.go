//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"

	"SIMMODULE/math/csprng"
	"SIMMODULE/math/num"
	"SIMMODULE/math/poly"
	"SIMMODULE/mktfhe"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
	"SIMMODULE/xtfhe"
)

// R01, R02, R03: where randomness comes from.

func init() {
	register("R01", false, func(c *Ctx) { either(c, r01[uint32], r01[uint64]) })
	register("R02", false, func(c *Ctx) { either(c, r02[uint32], r02[uint64]) })
	register("R03", false, func(c *Ctx) {
		switch c.Int(4) {
		case 3:
			either(c, r03Reference[uint32], r03Reference[uint64])
		default:
			r03Streams(c)
		}
	})
}

// scene is one kind of randomised object with its operations and oracle.
type scene struct {
	name string
	// make builds separately created objects; they hold the same keys.
	make func() any
	copy func(any) any
	draw func(o any, heavy bool) (string, func(*track, any))
	// inputs digests what operations must not change.
	inputs func() uint64
	// stats checks the noise of everything judged.
	stats func()
	// parts are the objects inside, world their shapes.
	parts func(any) []reflect.Value
	world *world
}

// pointers lists the library objects a struct of objects holds.
func pointers(o any) (l []reflect.Value) {
	v := reflect.ValueOf(o).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := readable(v.Field(i))
		switch {
		case f.Kind() == reflect.Pointer && !f.IsNil():
			l = append(l, f)
		case f.Kind() == reflect.Slice:
			for k := 0; k < f.Len(); k++ {
				l = append(l, f.Index(k))
			}
		}
	}
	return l
}

func asScene[O any](name string, w *world, mk func() O, cp func(O) O, draw func(O, bool) job[O], inputs func() uint64, stats func()) *scene {
	return &scene{name: name, world: w, parts: pointers, make: func() any { return mk() }, copy: func(o any) any { return cp(o.(O)) },
		draw: func(o any, heavy bool) (string, func(*track, any)) {
			j := draw(o.(O), heavy)
			return j.name, func(t *track, o any) { j.exec(t, o.(O)) }
		}, inputs: inputs, stats: stats}
}

// newScene draws a scene whose oracle records into seen.
func newScene[T tfhe.TorusInt](c *Ctx, seen *reuse[T]) *scene {
	switch k := c.Int(2 + numExt); k {
	case 0:
		e := newEncEnv(c, genParams[T](c, paramOpts{maxN: 64, maxRank: 2}).Compile())
		seen.join(e.par.GLWEDimension())
		e.j.seen = seen
		jobs := encJobs[T]()
		return asScene("encryptor", plainWorld(c, e.par, 1), e.objs, (*encObjs[T]).copy, func(o *encObjs[T], h bool) job[*encObjs[T]] {
			return drawEncJob(c, e, jobs, o, h)
		}, e.inputs, e.j.stats)
	case 1:
		e := newMKEnv(c, genMKParams[T](c, paramOpts{maxN: 32}, 3).Compile())
		seen.join(e.sub.GLWEDimension())
		for _, j := range e.js {
			j.seen = seen
		}
		e.se.j.seen = seen
		jobs := mkJobs[T]()
		return asScene("multi-key", plainWorld(c, e.sub, e.par.PartyCount()), e.objs, (*mkObjs[T]).copy, func(o *mkObjs[T], h bool) job[*mkObjs[T]] {
			return drawMKJob(c, e, jobs, o, h)
		}, e.inputs, func() {
			for _, j := range e.js {
				j.stats()
			}
		})
	default:
		e := newExtEnv[T](c, k-2)
		seen.join(e.par.GLWEDimension())
		e.se.j.seen = seen
		jobs := extJobs[T]()
		return asScene(extNames[k-2], plainWorld(c, e.par, 1), e.objs, (*extObjs[T]).copy, func(o *extObjs[T], h bool) job[*extObjs[T]] {
			return drawExtJob(c, e, jobs)
		}, e.inputs, e.se.j.stats)
	}
}

// join makes the record cover masks of the given dimension as well.
func (r *reuse[T]) join(dim int) {
	if dim < r.dim || r.dim == 0 {
		r.dim = dim
	}
}

func r01[T tfhe.TorusInt](c *Ctx) {
	seen := newReuse[T](c, 0)
	var scs []*scene
	for n := 1 + c.Int(2); n > 0; n-- {
		scs = append(scs, newScene(c, seen))
	}
	boots := 1 + c.Int(2)
	keyPar := genParams[T](c, paramOpts{maxN: 128}).Compile()
	seedBytes := make([]byte, 1+c.Int(16))
	c.Rng().Fill(seedBytes)
	crs := map[string]bool{}
	for b := 0; b < boots; b++ {
		// A new process: everything is as before except what the system's
		// entropy source delivers.
		simrt.SeedEntropy(simrt.Mix(c.Seed, 0xb007, uint64(b)))
		if b > 0 {
			c.Fault("process restarted with other entropy")
		}
		type actor struct {
			t    *track
			sc   *scene
			how  int
			base any
			prog []func(*track, any)
		}
		var as []*actor
		var bases [][]any
		c.Seq("objects", func() {
			for _, s := range scs {
				var l []any
				for n := 1 + c.Int(2); n > 0; n-- {
					l = append(l, s.make())
				}
				bases = append(bases, l)
			}
		})
		nA := 1 + c.Int(4)
		for i := 0; i < nA; i++ {
			s := c.Int(len(scs))
			a := &actor{sc: scs[s], how: c.Int(3), base: bases[s][c.Int(len(bases[s]))]}
			a.t = newTrack(c, fmt.Sprintf("boot %d %s thread %d", b, a.sc.name, i))
			for k := 1 + c.Int(4); k > 0; k-- {
				name, ex := a.sc.draw(a.base, i == 0 && k == 1)
				a.prog = append(a.prog, ex)
				c.Cover(name, a.sc.name, a.how, b, nA)
				c.Desc("%s: %s", a.t.name, name)
			}
			as = append(as, a)
		}
		ins := make([]uint64, len(scs))
		for i, s := range scs {
			ins[i] = s.inputs()
		}
		fresh := freshKeys[T]{c: c, par: keyPar, seed: seedBytes}
		withFresh := c.Int(2) == 1
		c.Sim(SimOpts{Name: "randomised operations", Est: 60000, NumCPU: 1 + c.Int(4)}, func() {
			var fs []func()
			for _, a := range as {
				a := a
				// Each thread works on a copy, whoever else uses the original.
				o := a.base
				if a.how < 2 {
					o = a.sc.copy(a.base)
				}
				if a.how == 1 {
					o = a.sc.copy(o)
				}
				if a.how == 2 {
					o = a.sc.copy(a.base)
					a.base = o
				}
				fs = append(fs, func() {
					for _, ex := range a.prog {
						ex(a.t, o)
					}
				})
			}
			if withFresh {
				fs = append(fs, func() { fresh.run() }, func() { fresh.run() })
			}
			threads(fs...)
		})
		c.Seq("judge", func() {
			for _, a := range as {
				judgeAll(a.t)
			}
			for i, s := range scs {
				s.stats()
				if s.inputs() != ins[i] {
					c.Failf("input-modified:"+s.name, "randomised operations modified a message, ciphertext or key")
				}
			}
			fresh.judge(seen, crs)
			// the objects the copies were made from
			for i, s := range scs {
				for k, o := range bases[i] {
					t := newTrack(c, fmt.Sprintf("boot %d original %d", b, k))
					_, ex := s.draw(o, false)
					ex(t, o)
					judgeAll(t)
				}
			}
		})
		c.Count("boots")
	}
	c.counts["masks, noise patterns and secrets compared"] += seen.n
	c.nontrivial = true
}

// freshKeys creates keys and samplers from nothing.
type freshKeys[T tfhe.TorusInt] struct {
	c       *Ctx
	par     tfhe.Parameters[T]
	seed    []byte
	secrets [][]T
	names   []string
	streams [][]T
	crs     []uint64
}

func (f *freshKeys[T]) run() {
	sec := func(name string, sk tfhe.SecretKey[T]) {
		f.secrets = append(f.secrets, cloneOf(sk.LWELargeKey.Value))
		f.names = append(f.names, name)
	}
	sec("NewEncryptor", tfhe.NewEncryptor(f.par).SecretKey)
	sec("NewBinaryEncryptor", tfhe.NewBinaryEncryptor(f.par).Encryptor.SecretKey)
	if f.par.GLWERank() == 1 && f.par.LUTSize() == f.par.PolyRank() {
		mp := mktfhe.ParametersLiteral[T]{PartyCount: 3, SubParams: f.par.Literal(), AccumulatorParams: gad[T](8, 2), RelinKeyParams: gad[T](8, 2)}.Compile()
		for i := 0; i < 2; i++ { // same index, same reference
			e := mktfhe.NewEncryptor(mp, 1, f.seed)
			sec("mktfhe.NewEncryptor", e.SecretKey)
			f.crs = append(f.crs, digestOf(e.CRS))
		}
		b := mktfhe.NewBinaryEncryptor(mp, 0, f.seed)
		sec("mktfhe.NewBinaryEncryptor", b.Encryptor.SecretKey)
		f.crs = append(f.crs, digestOf(b.Encryptor.CRS))
	}
	u := make([]T, 12)
	csprng.NewUniformSampler[T]().SampleVecTo(u)
	f.streams = append(f.streams, u)
	u = make([]T, 12)
	csprng.NewUniformSampler[T]().SampleVecTo(u)
	f.streams = append(f.streams, u)
	for _, w := range [][]uint64{binaryWords(csprng.NewBinarySampler[uint64]()), binaryWords(csprng.NewBinarySampler[uint64]()),
		gaussWords(csprng.NewGaussianSampler[uint64]()), gaussWords(csprng.NewGaussianSampler[uint64]()),
		cdtWords(), cdtWords()} {
		v := make([]T, len(w))
		for i := range w {
			v[i] = T(w[i])
		}
		f.streams = append(f.streams, v)
	}
}

func binaryWords(s *csprng.BinarySampler[uint64]) []uint64 {
	v := make([]uint64, 256)
	s.SampleVecTo(v)
	o := make([]uint64, 8)
	for i, b := range v {
		o[i/32] = o[i/32]<<1 | b
	}
	return o
}

func gaussWords(s *csprng.GaussianSampler[uint64]) []uint64 {
	v := make([]uint64, 8)
	s.SampleVecTo(v, math.Exp2(38))
	for i := range v {
		v[i] >>= 6
	}
	return v
}

func cdtWords() []uint64 {
	s := xtfhe.NewCDTSampler[uint64](0, 300)
	v := make([]uint64, 8)
	for i := 0; i < 48; i++ {
		v[i/6] = v[i/6]*251 + s.Sample()
	}
	return v
}

func (f *freshKeys[T]) judge(seen *reuse[T], crs map[string]bool) {
	for i, s := range f.secrets {
		if len(s) >= 64 {
			seen.secretBits(f.names[i], s)
			f.c.Count("fresh secrets compared")
		}
	}
	for _, s := range f.streams {
		seen.mask("a sampler made without a seed", s, false)
		f.c.Count("fresh sampler streams compared")
	}
	for _, d := range f.crs {
		crs[fmt.Sprint(d)] = true
	}
	if len(crs) > 1 {
		f.c.Failf("reference-differs", "encryptors created from the same seed derive different common references")
	}
}

// ---------------------------------------------------------------------------
// R02: entropy failures

// entOp is an operation that may need entropy.
type entOp struct {
	name string
	// must says that the operation cannot do without entropy.
	must bool
	f    func() any
}

func entOps[T tfhe.TorusInt](c *Ctx) []entOp {
	// made on first use
	var enc *encEnv[T]
	var eo *encObjs[T]
	getEnc := func() (*encEnv[T], *encObjs[T]) {
		if enc == nil {
			enc = newEncEnv(c, genParams[T](c, paramOpts{maxN: 32, maxRank: 2, order: 1}).Compile())
			eo = enc.objs()
		}
		return enc, eo
	}
	var mk *mkEnv[T]
	var mo *mkObjs[T]
	getMK := func() (*mkEnv[T], *mkObjs[T]) {
		if mk == nil {
			mk = newMKEnv(c, genMKParams[T](c, paramOpts{maxN: 32, order: 1}, 3).Compile())
			mo = mk.objs()
		}
		return mk, mo
	}
	ext := map[int]*extEnv[T]{}
	exo := map[int]*extObjs[T]{}
	getExt := func(k int) (*extEnv[T], *extObjs[T]) {
		if ext[k] == nil {
			ext[k] = newExtEnv[T](c, k)
			exo[k] = ext[k].objs()
		}
		return ext[k], exo[k]
	}
	var l []entOp
	must := func(name string, prep func() func() any) {
		l = append(l, entOp{name: name, must: true, f: func() any { return prep() }})
	}
	may := func(name string, prep func() func() any) {
		l = append(l, entOp{name: name, f: func() any { return prep() }})
	}
	must("csprng.NewUniformSampler", func() func() any { return func() any { return csprng.NewUniformSampler[T]() } })
	must("csprng.NewUniformSampler[byte]", func() func() any { return func() any { return csprng.NewUniformSampler[uint8]() } })
	must("csprng.NewBinarySampler", func() func() any { return func() any { return csprng.NewBinarySampler[T]() } })
	must("csprng.NewGaussianSampler", func() func() any { return func() any { return csprng.NewGaussianSampler[T]() } })
	must("xtfhe.NewCDTSampler", func() func() any { return func() any { return xtfhe.NewCDTSampler[T](0.25, 5) } })
	must("tfhe.NewEncryptor", func() func() any { e, _ := getEnc(); return func() any { return tfhe.NewEncryptor(e.par) } })
	must("tfhe.NewEncryptorWithKey", func() func() any {
		e, _ := getEnc()
		return func() any { return tfhe.NewEncryptorWithKey(e.par, e.sk) }
	})
	must("tfhe.NewBinaryEncryptor", func() func() any { e, _ := getEnc(); return func() any { return tfhe.NewBinaryEncryptor(e.par) } })
	must("tfhe.NewBinaryEncryptorWithKey", func() func() any {
		e, _ := getEnc()
		return func() any { return tfhe.NewBinaryEncryptorWithKey(e.par, e.sk) }
	})
	must("tfhe.NewPublicEncryptor", func() func() any { e, _ := getEnc(); return func() any { return tfhe.NewPublicEncryptor(e.par, e.pk) } })
	must("tfhe.NewBinaryPublicEncryptor", func() func() any {
		e, _ := getEnc()
		return func() any { return tfhe.NewBinaryPublicEncryptor(e.par, e.pk) }
	})
	may("tfhe.Encryptor.SafeCopy", func() func() any { _, o := getEnc(); return func() any { return o.enc.SafeCopy() } })
	may("tfhe.BinaryEncryptor.SafeCopy", func() func() any { _, o := getEnc(); return func() any { return o.benc.SafeCopy() } })
	may("tfhe.PublicEncryptor.SafeCopy", func() func() any { _, o := getEnc(); return func() any { return o.pub.SafeCopy() } })
	may("tfhe.BinaryPublicEncryptor.SafeCopy", func() func() any { _, o := getEnc(); return func() any { return o.bpub.SafeCopy() } })
	may("tfhe.Encryptor.GenEvalKeyParallel", func() func() any { _, o := getEnc(); return func() any { return o.enc.GenEvalKeyParallel() } })
	may("tfhe.Encryptor.GenDefaultKeySwitchKeyParallel", func() func() any {
		_, o := getEnc()
		return func() any { return o.enc.GenDefaultKeySwitchKeyParallel() }
	})
	may("tfhe.Encryptor.GenPublicKey", func() func() any { _, o := getEnc(); return func() any { return o.enc.GenPublicKey() } })
	may("tfhe.Encryptor.EncryptLWE", func() func() any { _, o := getEnc(); return func() any { return o.enc.EncryptLWE(1) } })
	must("mktfhe.NewEncryptor", func() func() any { e, _ := getMK(); return func() any { return mktfhe.NewEncryptor(e.par, 0, e.seed) } })
	must("mktfhe.NewEncryptorWithKey", func() func() any {
		e, _ := getMK()
		return func() any { return mktfhe.NewEncryptorWithKey(e.par, 0, e.seed, e.sks[0]) }
	})
	must("mktfhe.NewBinaryEncryptor", func() func() any {
		e, _ := getMK()
		return func() any { return mktfhe.NewBinaryEncryptor(e.par, 0, e.seed) }
	})
	must("mktfhe.NewBinaryEncryptorWithKey", func() func() any {
		e, _ := getMK()
		return func() any { return mktfhe.NewBinaryEncryptorWithKey(e.par, 0, e.seed, e.sks[0]) }
	})
	must("mktfhe.NewPublicEncryptor", func() func() any {
		e, _ := getMK()
		return func() any { return mktfhe.NewPublicEncryptor(e.par, e.parties[0], e.pks[0]) }
	})
	must("mktfhe.NewBinaryPublicEncryptor", func() func() any {
		e, _ := getMK()
		return func() any { return mktfhe.NewBinaryPublicEncryptor(e.par, e.parties[0], e.pks[0]) }
	})
	may("mktfhe.Encryptor.SafeCopy", func() func() any { _, o := getMK(); return func() any { return o.encs[0].SafeCopy() } })
	may("mktfhe.BinaryEncryptor.SafeCopy", func() func() any { _, o := getMK(); return func() any { return o.bencs[0].SafeCopy() } })
	may("mktfhe.PublicEncryptor.SafeCopy", func() func() any { _, o := getMK(); return func() any { return o.pubs[0].SafeCopy() } })
	may("mktfhe.BinaryPublicEncryptor.SafeCopy", func() func() any { _, o := getMK(); return func() any { return o.bpubs[0].SafeCopy() } })
	may("mktfhe.Encryptor.GenEvalKeyParallel", func() func() any { _, o := getMK(); return func() any { return o.encs[0].GenEvalKeyParallel() } })
	must("xtfhe.NewBFVKeyGenerator", func() func() any {
		e, _ := getExt(extBFV)
		return func() any { return xtfhe.NewBFVKeyGenerator(e.par, e.se.sk) }
	})
	may("xtfhe.BFVKeyGenerator.SafeCopy", func() func() any { _, o := getExt(extBFV); return func() any { return o.bfv.SafeCopy() } })
	must("xtfhe.NewCircuitBootstrapKeyGenerator", func() func() any {
		e, _ := getExt(extCircuit)
		return func() any { return xtfhe.NewCircuitBootstrapKeyGenerator(e.cpar, e.se.sk) }
	})
	may("xtfhe.CircuitBootstrapKeyGenerator.SafeCopy", func() func() any { _, o := getExt(extCircuit); return func() any { return o.cb.SafeCopy() } })
	must("xtfhe.NewFHEWEncryptor", func() func() any {
		e, _ := getExt(extFHEW)
		return func() any { return xtfhe.NewFHEWEncryptor(e.fpar) }
	})
	must("xtfhe.NewFHEWEncryptorWithKey", func() func() any {
		e, _ := getExt(extFHEW)
		return func() any { return xtfhe.NewFHEWEncryptorWithKey(e.fpar, e.fk) }
	})
	may("xtfhe.FHEWEncryptor.SafeCopy", func() func() any { _, o := getExt(extFHEW); return func() any { return o.fhew.SafeCopy() } })
	may("xtfhe.FHEWEncryptor.GenEvalKeyParallel", func() func() any { _, o := getExt(extFHEW); return func() any { return o.fhew.GenEvalKeyParallel() } })
	must("xtfhe.NewSanitizer", func() func() any {
		e, _ := getExt(extSanitize)
		return func() any { return xtfhe.NewSanitizer(e.span, e.pk, e.evk) }
	})
	may("xtfhe.Sanitizer.SafeCopy", func() func() any { _, o := getExt(extSanitize); return func() any { return o.san.SafeCopy() } })
	return l
}

func r02[T tfhe.TorusInt](c *Ctx) {
	seen := newReuse[T](c, 0)
	sc := newScene(c, seen)
	var base any
	before := newTrack(c, "before the failure")
	job := func(t *track, o any) {
		_, ex := sc.draw(o, false)
		ex(t, o)
	}
	c.Seq("setup", func() {
		base = sc.make()
		for n := c.Int(3); n > 0; n-- {
			job(before, base)
		}
	})
	ops := entOps[T](c)
	op := ops[c.Int(len(ops))]
	var act func() any
	reads, full := 0, 0
	c.Seq("count entropy requests", func() {
		act = op.f().(func() any)
		simrt.ArmEntropy(simrt.EntropyPlan{})
		b0, _ := simrt.EntropyDelivered()
		act()
		b1, _ := simrt.EntropyDelivered()
		reads, full = simrt.DisarmEntropy(), b1-b0
	})
	c.Seq("entropy in pieces", func() {
		simrt.ArmEntropy(simrt.EntropyPlan{Pieces: true})
		b0, p0 := simrt.EntropyDelivered()
		p := catch(func() { act() })
		b1, p1 := simrt.EntropyDelivered()
		simrt.DisarmEntropy()
		if p1 > p0 {
			c.Fault("entropy source answering in pieces")
		}
		act() // in case the first call did something only once
		if b2, _ := simrt.EntropyDelivered(); b2-b1 < full {
			full = b2 - b1
		}
		if p == nil && b1-b0 < full {
			c.Failf("entropy-short:"+op.name, "%s takes %d bytes of entropy, but is content with %d when the source answers in pieces", op.name, full, b1-b0)
		}
	})
	c.Desc("%s (%d entropy requests), bystander: %s", op.name, reads, sc.name)
	c.Note(uint64(reads))
	if reads == 0 && op.must {
		c.Failf("no-entropy:"+op.name, "%s asks the system for no entropy", op.name)
	}
	c.nontrivial = reads > 0
	ats := []int{1, reads, 0, 0}
	for i := 2; i < len(ats); i++ {
		if reads > 0 {
			ats[i] = 1 + c.Int(reads)
		}
	}
	for _, at := range ats {
		if reads == 0 {
			break
		}
		plan := simrt.EntropyPlan{FailAt: at, FailFor: []int{-1, 1, 2}[c.Int(3)], Partial: c.Int(2) == 1}
		fault := "entropy source failing for good"
		switch {
		case plan.FailFor > 0 && plan.Partial:
			fault = "entropy source failing for a moment after a partial answer"
		case plan.FailFor > 0:
			fault = "entropy source failing for a moment"
		case plan.Partial:
			fault = "entropy source failing for good after a partial answer"
		}
		c.Cover(op.name, at, plan.FailFor, plan.Partial, sc.name)
		bystander := c.Int(2) == 1
		tb := newTrack(c, "bystander")
		// Operations of the bystander that themselves need entropy could meet
		// the failure, so it only runs ones that do not.
		var ex func(*track, any)
		if bystander {
			for try := 0; try < 8 && ex == nil; try++ {
				_, e := sc.draw(base, false)
				n := 0
				probe := newTrack(c, "probe")
				c.Seq("probe", func() {
					simrt.ArmEntropy(simrt.EntropyPlan{})
					e(probe, base)
					n = simrt.DisarmEntropy()
					judgeAll(probe)
				})
				if n == 0 {
					ex = e
				}
			}
		}
		returned := false
		res := c.Sim(SimOpts{Name: op.name, Est: 20000, NumCPU: 1 + c.Int(8), AllowPanic: true, AllowLeak: true}, func() {
			fails := simrt.EntropyFailures()
			simrt.ArmEntropy(plan)
			fail := func() {
				p := catch(func() { act() })
				if p == nil && simrt.EntropyFailures() > fails {
					returned = true
				}
			}
			if ex != nil {
				threads(fail, func() { ex(tb, base) })
			} else {
				fail()
			}
		})
		simrt.DisarmEntropy()
		c.Fault(fault)
		if returned {
			c.Failf("entropy-ignored:"+op.name, "%s returned normally although entropy request %d of %d failed (%s)", op.name, at, reads, fault)
		}
		if res.Panicked {
			c.Count("failures that ended the process")
			// The process is gone; what it returned before is not.
		} else {
			c.Count("failures the caller recovered from")
			c.Seq("judge bystander", func() { judgeAll(tb) })
		}
		// The source works again.
		c.Seq("recover", func() {
			after := newTrack(c, "after the failure")
			if !res.Panicked {
				job(after, base)
				c.Count("operations of older objects judged after a failure")
			}
			n := sc.make()
			job(after, n)
			job(after, sc.copy(n))
			c.Count("operations of new objects judged after a failure")
			judgeAll(after)
			f := freshKeys[T]{c: c, par: newParamsFor[T](), seed: []byte{1}}
			f.run()
			f.judge(seen, map[string]bool{})
			act()
		})
	}
	c.Seq("judge", func() {
		judgeAll(before)
		sc.stats()
	})
}

func newParamsFor[T tfhe.TorusInt]() tfhe.Parameters[T] {
	return tfhe.ParametersLiteral[T]{
		LWEDimension: 4, GLWERank: 1, PolyRank: 64, LUTSize: 64,
		LWEStdDev: sigma[T](), GLWEStdDev: sigma[T](), BlockSize: 1, MessageModulus: 2,
		BlindRotateParams: gad[T](6, 2), KeySwitchParams: gad[T](3, 4), BootstrapOrder: tfhe.OrderKeySwitchBlindRotate,
	}.Compile()
}

// ---------------------------------------------------------------------------
// R03: seeded streams

// feed is a seeded sampler seen as a source of values.
type feed interface {
	// take consumes n values; how selects one of the equivalent calls.
	take(n, how int, r *simrt.Rng) []uint64
	ways() int
}

type uniFeed[X num.Integer] struct {
	s *csprng.UniformSampler[X]
}

func words[X num.Integer](v []X) []uint64 {
	o := make([]uint64, len(v))
	for i := range v {
		o[i] = uint64(v[i])
	}
	return o
}

// polySizes splits n into polynomial degrees and a rest.
func polySizes(n int) (ps []int, rest int) {
	for n >= poly.MinRank {
		p := poly.MinRank
		for p*2 <= n && p < 256 {
			p *= 2
		}
		ps = append(ps, p)
		n -= p
	}
	return ps, n
}

func dirty[X num.Integer](n int, r *simrt.Rng) []X {
	v := make([]X, n)
	for i := range v {
		v[i] = X(r.Uint64() >> 1)
	}
	return v
}

func (f uniFeed[X]) ways() int { return 4 }
func (f uniFeed[X]) take(n, how int, r *simrt.Rng) []uint64 {
	v := dirty[X](n, r)
	switch how {
	case 0:
		for i := range v {
			v[i] = f.s.Sample()
		}
	case 1:
		f.s.SampleVecTo(v)
	case 2:
		for i := 0; i < n; {
			m := r.Intn(n-i) + 1
			f.s.SampleVecTo(v[i : i+m])
			i += m
			if r.Intn(3) == 0 {
				f.s.SampleVecTo(nil)
			}
		}
	case 3:
		ps, rest := polySizes(n)
		at := 0
		for _, p := range ps {
			f.s.SamplePolyTo(poly.Poly[X]{Coeffs: v[at : at+p]})
			at += p
		}
		for ; rest > 0; rest-- {
			v[at] = f.s.Sample()
			at++
		}
	}
	return words(v)
}

type gaussFeed[X num.Integer] struct {
	s  *csprng.GaussianSampler[X]
	sd float64
}

func (f gaussFeed[X]) ways() int { return 5 }
func (f gaussFeed[X]) take(n, how int, r *simrt.Rng) []uint64 {
	v := dirty[X](n, r)
	switch how {
	case 0:
		for i := range v {
			v[i] = f.s.Sample(f.sd)
		}
	case 1:
		f.s.SampleVecTo(v, f.sd)
	case 2:
		for i := 0; i < n; {
			m := r.Intn(n-i) + 1
			f.s.SampleVecTo(v[i:i+m], f.sd)
			i += m
		}
	default:
		ps, rest := polySizes(n)
		at := 0
		for _, p := range ps {
			w := append([]X(nil), v[at:at+p]...)
			q := poly.Poly[X]{Coeffs: v[at : at+p]}
			switch {
			case how == 3:
				f.s.SamplePolyAddTo(q, f.sd)
				for i := range w {
					v[at+i] -= w[i]
				}
			case r.Intn(2) == 0:
				f.s.SamplePolySubTo(q, f.sd)
				for i := range w {
					v[at+i] = w[i] - v[at+i]
				}
			default:
				f.s.SamplePolyTo(q, f.sd)
			}
			at += p
		}
		for ; rest > 0; rest-- {
			v[at] = f.s.Sample(f.sd)
			at++
		}
	}
	return words(v)
}

// binFeed consumes a binary sampler in vectors of fixed length, which is the
// granularity at which its stream is defined.
type binFeed[X num.Integer] struct {
	s   *csprng.BinarySampler[X]
	len int
}

func (f binFeed[X]) ways() int { return 2 }
func (f binFeed[X]) take(n, how int, r *simrt.Rng) []uint64 {
	var o []uint64
	for len(o) < n {
		v := dirty[X](f.len, r)
		if how == 1 {
			f.s.SamplePolyTo(poly.Poly[X]{Coeffs: v})
		} else {
			f.s.SampleVecTo(v)
		}
		o = append(o, words(v)...)
	}
	return o
}

// bitFeed takes single bits, blockFeed block-binary vectors.
type bitFeed[X num.Integer] struct{ s *csprng.BinarySampler[X] }

func (f bitFeed[X]) ways() int { return 1 }
func (f bitFeed[X]) take(n, how int, r *simrt.Rng) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = uint64(f.s.Sample())
	}
	return o
}

type blockFeed[X num.Integer] struct {
	s     *csprng.BinarySampler[X]
	block int
}

func (f blockFeed[X]) ways() int { return 3 }
func (f blockFeed[X]) take(n, how int, r *simrt.Rng) []uint64 {
	n = (n + f.block - 1) / f.block * f.block
	v := dirty[X](n, r)
	switch how {
	case 0:
		f.s.SampleBlockVecTo(v, f.block)
	case 1:
		for i := 0; i < n; i += f.block {
			f.s.SampleBlockVecTo(v[i:i+f.block], f.block)
		}
	case 2:
		f.s.SampleBlockPolyTo(poly.Poly[X]{Coeffs: v}, f.block)
	}
	return words(v)
}

// boundedFeed draws below a bound.
type boundedFeed[X num.Integer] struct {
	s *csprng.UniformSampler[X]
	n X
}

func (f boundedFeed[X]) ways() int { return 1 }
func (f boundedFeed[X]) take(n, how int, r *simrt.Rng) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = uint64(f.s.SampleN(f.n))
	}
	return o
}

type feedKind struct {
	name string
	// bits is the entropy per value, to decide when streams must differ.
	bits float64
	mk   func(seed []byte) feed
}

func feedKindsFor[X num.Integer](name string, bits float64) []feedKind {
	return []feedKind{
		{"uniform " + name, bits, func(s []byte) feed { return uniFeed[X]{csprng.NewUniformSamplerWithSeed[X](s)} }},
		{"uniform below 100 " + name, 6, func(s []byte) feed { return boundedFeed[X]{csprng.NewUniformSamplerWithSeed[X](s), 100} }},
		{"gaussian " + name, 4, func(s []byte) feed { return gaussFeed[X]{csprng.NewGaussianSamplerWithSeed[X](s, 20), 20} }},
		{"binary vectors " + name, 1, func(s []byte) feed { return binFeed[X]{csprng.NewBinarySamplerWithSeed[X](s), 48} }},
		{"binary polynomials " + name, 1, func(s []byte) feed { return binFeed[X]{csprng.NewBinarySamplerWithSeed[X](s), 128} }},
		{"bits " + name, 1, func(s []byte) feed { return bitFeed[X]{csprng.NewBinarySamplerWithSeed[X](s)} }},
		{"block binary " + name, 0.5, func(s []byte) feed { return blockFeed[X]{csprng.NewBinarySamplerWithSeed[X](s), 3} }},
	}
}

func feedKinds() []feedKind {
	var l []feedKind
	l = append(l, feedKindsFor[uint32]("uint32", 32)...)
	l = append(l, feedKindsFor[uint64]("uint64", 64)...)
	l = append(l, feedKindsFor[int64]("int64", 64)...)
	l = append(l, feedKindsFor[uint8]("uint8", 8)...)
	l = append(l, feedKindsFor[int32]("int32", 32)...)
	l = append(l, feedKindsFor[uint16]("uint16", 16)...)
	l = append(l, feedKindsFor[int]("int", 64)...)
	return l
}

// drawSeeds draws distinct seeds that are close to each other.
func drawSeeds(c *Ctx, n int) [][]byte {
	base := make([]byte, []int{32, 1, 0, 16, 33, 48, 64, 200}[c.Int(8)])
	c.Rng().Fill(base)
	seeds := [][]byte{base}
	known := map[string]bool{string(base): true}
	r := c.Rng()
	for len(seeds) < n {
		s := append([]byte(nil), base...)
		switch k := c.Int(4); {
		case k == 0 && len(s) > 0:
			i := r.Intn(len(s))
			s[i] ^= 1 << r.Intn(8)
		case k == 1:
			s = append(s, 0)
		case k == 2 && len(s) > 1:
			s = s[:len(s)-1]
		default:
			s = append(s, byte(r.Uint64()))
		}
		if known[string(s)] {
			base = s
			continue
		}
		known[string(s)] = true
		seeds = append(seeds, s)
	}
	return seeds
}

func r03Streams(c *Ctx) {
	kinds := feedKinds()
	seeds := drawSeeds(c, 1+c.Int(3))
	nk := 1 + c.Int(2)
	type chain struct {
		k    feedKind
		seed int
		name string
		prog [][2]int // count, way
		r    *simrt.Rng
		got  []uint64
		end  bool
	}
	var cs []*chain
	var names []string
	for i := 0; i < nk; i++ {
		k := kinds[c.Int(len(kinds))]
		names = append(names, k.name)
		for s := range seeds {
			for cp := 0; cp < 2; cp++ {
				ch := &chain{k: k, seed: s, name: fmt.Sprintf("%s seed %d sampler %d", k.name, s, cp), r: c.Rng()}
				ways := k.mk([]byte{1}).ways()
				for n := 1 + c.Int(5); n > 0; n-- {
					ch.prog = append(ch.prog, [2]int{[]int{40, 1, 300, 7, 1024, 2050, 64}[c.Int(7)], c.Int(ways)})
				}
				cs = append(cs, ch)
			}
		}
	}
	c.Desc("%v, %d seeds of about %d bytes, %d samplers", names, len(seeds), len(seeds[0]), len(cs))
	tamper := c.Int(2) == 1
	noise := c.Int(2) == 1
	concurrent := c.Int(2) == 1
	work := func(ch *chain) {
		s := append([]byte(nil), seeds[ch.seed]...)
		f := ch.k.mk(s)
		if tamper { // the seed belongs to the caller
			for i := range s {
				s[i] ^= 0xff
			}
		}
		for _, p := range ch.prog {
			ch.got = append(ch.got, f.take(p[0], p[1], ch.r)...)
			simrt.Yield()
		}
		ch.end = true
	}
	other := func() {
		csprng.NewUniformSampler[uint64]().Sample()
		csprng.NewGaussianSampler[uint32]().Sample(4)
		v := make([]uint32, 100)
		csprng.NewBinarySampler[uint32]().SampleVecTo(v)
	}
	if tamper {
		c.Fault("caller overwrites the seed after use")
	}
	if noise {
		c.Fault("other randomness drawn in between")
	}
	if concurrent {
		c.Fault("samplers consumed by concurrent threads")
		c.Sim(SimOpts{Name: "seeded samplers", Est: 20000}, func() {
			var fs []func()
			for _, ch := range cs {
				ch := ch
				fs = append(fs, func() { work(ch) })
			}
			if noise {
				fs = append(fs, other, other)
			}
			threads(fs...)
		})
	} else {
		c.Seq("seeded samplers", func() {
			for _, ch := range cs {
				if noise {
					other()
				}
				work(ch)
			}
		})
	}
	for i, a := range cs {
		for _, b := range cs[:i] {
			if a.k.name != b.k.name {
				continue
			}
			n := min(len(a.got), len(b.got))
			at := -1
			for k := 0; k < n && at < 0; k++ {
				if a.got[k] != b.got[k] {
					at = k
				}
			}
			if a.seed == b.seed {
				c.Count("pairs of equal seeds compared")
				if at >= 0 {
					c.Failf("not-reproducible:"+a.k.name, "two samplers (%s) with the same seed differ at value %d", a.k.name, at)
				}
			} else if float64(n)*a.k.bits > 100 {
				c.Count("pairs of different seeds compared")
				if at < 0 {
					c.Failf("seed-ignored:"+a.k.name, "two samplers (%s) with different seeds agree on %d values", a.k.name, n)
				}
			}
		}
		c.Cover(a.k.name, len(seeds[a.seed]), tamper, noise, concurrent, len(a.prog))
		c.Note(digestOf(a.got))
	}
	// The same generator must not repeat itself.
	for _, a := range cs {
		if a.k.bits < 32 {
			continue
		}
		w := 2
		if a.k.bits > 32 {
			w = 1
		}
		m := map[[2]uint64]int{}
		for k := 0; k+w <= len(a.got); k++ {
			h := [2]uint64{a.got[k]}
			if w == 2 {
				h[1] = a.got[k+1]
			}
			if o, ok := m[h]; ok {
				c.Failf("stream-repeats:"+a.k.name, "a seeded stream (%s) repeats value %d at %d", a.k.name, o, k)
			}
			m[h] = k
		}
	}
	c.nontrivial = true
}

// r03Reference has parties derive the common reference from a shared seed in
// any order, in different processes and concurrently.
func r03Reference[T tfhe.TorusInt](c *Ctx) {
	par := genMKParams[T](c, paramOpts{maxN: 32}, 4).Compile()
	e := newMKEnv(c, par)
	seeds := drawSeeds(c, 2)
	e.seed = seeds[0]
	type member struct {
		party int
		seed  int
		boot  int
		enc   *mktfhe.Encryptor[T]
		check func()
	}
	var ms []*member
	boots := 1 + c.Int(2)
	keys := c.Int(3)
	for b := 0; b < boots; b++ {
		simrt.SeedEntropy(simrt.Mix(c.Seed, 0xb007, uint64(b)))
		if b > 0 {
			c.Fault("process restarted with other entropy")
		}
		c.Sim(SimOpts{Name: "parties join", Est: 20000, NumCPU: 1 + c.Int(4)}, func() {
			var fs []func()
			n := 2 + c.Int(3)
			for i := 0; i < n; i++ {
				m := &member{party: c.Int(len(e.parties)), seed: []int{0, 0, 0, 1}[c.Int(4)], boot: b}
				ms = append(ms, m)
				binary := c.Int(2) == 1
				how := c.Int(3)
				withKey := c.Int(3)
				fs = append(fs, func() {
					s := append([]byte(nil), seeds[m.seed]...)
					p := e.parties[m.party]
					sk := e.sks[m.party]
					switch {
					case binary:
						m.enc = mktfhe.NewBinaryEncryptorWithKey(par, p, s, sk).Encryptor
					default:
						m.enc = mktfhe.NewEncryptorWithKey(par, p, s, sk)
					}
					for k := range s {
						s[k] = 0
					}
					switch how {
					case 1:
						m.enc = m.enc.SafeCopy()
					case 2:
						m.enc = m.enc.SafeCopy().SafeCopy()
					}
					if m.seed == 0 && keys > 0 {
						switch withKey {
						case 0:
							k := m.enc.GenCRSPublicKey()
							m.check = func() { e.crsKey("GenCRSPublicKey", m.party, k) }
						case 1:
							k := m.enc.GenEvalKeyParallel()
							m.check = func() { e.evalKey("GenEvalKeyParallel", m.party, k) }
						}
					}
				})
			}
			threads(fs...)
		})
	}
	c.Seq("judge", func() {
		for i, m := range ms {
			d := digestOf(m.enc.CRS)
			if m.seed == 0 && e.crs == nil {
				e.crs = cloneOf(m.enc.CRS)
			}
			for _, o := range ms[:i] {
				same := digestOf(o.enc.CRS) == d
				if m.seed == o.seed && !same {
					c.Failf("reference-differs", "parties %d (process %d) and %d (process %d) share a seed and derive different common references", o.party, o.boot, m.party, m.boot)
				}
				if m.seed != o.seed {
					for k := range m.enc.CRS {
						if digestOf(m.enc.CRS[k]) == digestOf(o.enc.CRS[k]) {
							c.Failf("reference-ignores-seed", "different seeds give the same polynomial %d of the common reference", k)
						}
					}
				}
				c.Count("references compared")
			}
			all := map[uint64]bool{}
			for k := range m.enc.CRS {
				all[digestOf(m.enc.CRS[k])] = true
			}
			if len(all) != len(m.enc.CRS) {
				c.Failf("reference-repeats", "the common reference contains the same polynomial twice")
			}
		}
		for _, m := range ms {
			if m.check != nil {
				m.check()
				c.Count("keys of independently joined parties judged against the shared reference")
			}
			c.Cover("join", m.party, m.seed, m.boot, len(ms), par.PartyCount())
		}
	})
	c.Desc("%d joins of %d parties in %d processes, seed of %d bytes", len(ms), len(e.parties), boots, len(seeds[0]))
	c.nontrivial = true
}
