package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"

	"SIMMODULE/simrt"
)

// R04: the distributions of secrets, masks, noise and samples.

func init() {
	register("R04", false, func(c *Ctx) {
		switch c.Int(8) {
		case 0, 1, 2:
			either(c, r04Scene[uint32], r04Scene[uint64])
		case 3:
			either(c, r04Keys[uint32], r04Keys[uint64])
		case 4, 5:
			either(c, r04Public[uint32], r04Public[uint64])
		default:
			r04Samplers(c)
		}
	})
}

// entropyWeather draws how the system's source behaves: in one piece, in
// several, or failing for a moment while an object is made.
func entropyWeather(c *Ctx) simrt.EntropyPlan {
	switch c.Int(4) {
	case 1:
		c.Fault("entropy delivered in pieces")
		return simrt.EntropyPlan{Pieces: true}
	case 2:
		return simrt.EntropyPlan{FailAt: 1 + c.Int(4), FailFor: 1, Partial: c.Int(2) == 1}
	}
	return simrt.EntropyPlan{}
}

// underWeather makes something under a plan, again if the source failed.
func underWeather[X any](c *Ctx, plan simrt.EntropyPlan, mk func() X) (x X) {
	simrt.ArmEntropy(plan)
	before := simrt.EntropyFailures()
	p := catch(func() { x = mk() })
	failed := simrt.EntropyFailures() > before
	simrt.DisarmEntropy()
	if p != nil {
		if !failed {
			panic(p)
		}
		c.Fault("entropy source fails")
		x = mk()
	}
	return x
}

// r04Scene repeats randomised operations on shared keys by several threads and
// judges the noise and masks of each kind of operation together.
func r04Scene[T tfhe.TorusInt](c *Ctx) {
	seen := newReuse[T](c, 0)
	sc := newScene(c, seen)
	plan := entropyWeather(c)
	var base any
	c.Seq("objects", func() { base = underWeather(c, plan, sc.make) })
	type actor struct {
		t    *track
		o    any
		reps []int
		prog []func(*track, any)
	}
	var as []*actor
	nA := 1 + c.Int(3)
	focus := 1 + c.Int(3)
	var names []string
	var exs []func(*track, any)
	for i := 0; i < focus; i++ {
		name, ex := sc.draw(base, i == 0)
		names, exs = append(names, name), append(exs, ex)
	}
	for i := 0; i < nA; i++ {
		a := &actor{t: newTrack(c, fmt.Sprintf("%s thread %d", sc.name, i))}
		for k := 1 + c.Int(focus); k > 0; k-- {
			w := c.Int(focus)
			rep := []int{8, 40, 1, 120}[c.Int(4)]
			if heavyJob(names[w]) && rep > 1 {
				rep = 2
			}
			a.prog, a.reps = append(a.prog, exs[w]), append(a.reps, rep)
			c.Cover(names[w], sc.name, rep, nA)
			c.Desc("%s: %s x %d", a.t.name, names[w], rep)
		}
		as = append(as, a)
	}
	in := sc.inputs()
	c.Sim(SimOpts{Name: "randomised operations", Est: 400000, NumCPU: 1 + c.Int(4)}, func() {
		var fs []func()
		for i, a := range as {
			a := a
			a.o = base
			if i > 0 {
				a.o = underWeather(c, plan, func() any { return sc.copy(base) })
			}
			fs = append(fs, func() {
				for k, ex := range a.prog {
					for n := a.reps[k]; n > 0; n-- {
						ex(a.t, a.o)
					}
				}
			})
		}
		threads(fs...)
	})
	c.Seq("judge", func() {
		for _, a := range as {
			judgeAll(a.t)
		}
		sc.stats()
	})
	if sc.inputs() != in {
		c.Failf("input-modified:"+sc.name, "randomised operations modified a message, ciphertext or key")
	}
	c.nontrivial = true
}

// heavyJob says that one execution already gives thousands of samples.
func heavyJob(name string) bool {
	for _, s := range []string{"Key", "GGSW", "GSW", "Uni", "Sanit"} {
		for i := 0; i+len(s) <= len(name); i++ {
			if name[i:i+len(s)] == s {
				return true
			}
		}
	}
	return false
}

// r04Keys makes many secrets in every way there is.
func r04Keys[T tfhe.TorusInt](c *Ctx) {
	par := genParams[T](c, paramOpts{maxN: 128, maxDim: 60}).Compile()
	plan := entropyWeather(c)
	seen := newReuse[T](c, par.GLWEDimension())
	tal := newTally(c)
	crs := map[string]bool{}
	seed := []byte{byte(c.Int(256))}
	nT, reps := 1+c.Int(3), 2+c.Int(12)
	var fs []*freshKeys[T]
	var maker *tfhe.Encryptor[T]
	var gen []tfhe.SecretKey[T]
	c.Sim(SimOpts{Name: "secrets", Est: 100000, NumCPU: 1 + c.Int(4)}, func() {
		maker = underWeather(c, plan, func() *tfhe.Encryptor[T] { return tfhe.NewEncryptor(par) })
		copies := make([]*tfhe.Encryptor[T], nT)
		gens := make([][]tfhe.SecretKey[T], nT)
		var ths []func()
		for i := 0; i < nT; i++ {
			i := i
			f := &freshKeys[T]{c: c, par: par, seed: seed}
			fs = append(fs, f)
			copies[i] = maker
			if i > 0 {
				copies[i] = maker.SafeCopy()
			}
			ths = append(ths, func() {
				for k := 0; k < reps; k++ {
					f.run()
					for n := 0; n < 4; n++ {
						gens[i] = append(gens[i], copies[i].GenSecretKey())
					}
				}
			})
		}
		threads(ths...)
		for _, g := range gens {
			gen = append(gen, g...)
		}
	})
	c.Seq("judge", func() {
		for _, f := range fs {
			f.judge(seen, crs)
			for i, s := range f.secrets {
				secretKey(tal, f.names[i], par, s)
			}
		}
		for _, k := range gen {
			secretKey(tal, "GenSecretKey", par, k.LWELargeKey.Value)
			for i, x := range k.LWEKey.Value {
				if x != k.LWELargeKey.Value[i] {
					c.Failf("wrong-key", "GenSecretKey: the small key is not a prefix of the large key")
				}
			}
			if len(k.LWELargeKey.Value) >= 64 {
				seen.secretBits("GenSecretKey", k.LWELargeKey.Value)
			}
		}
		tal.check()
	})
	c.Cover("secrets", par.BlockSize(), par.GLWERank(), nT, par.GLWERank() == 1)
	c.Desc("secrets of dimension %d, blocks of %d, %d threads", par.GLWEDimension(), par.BlockSize(), nT)
	c.nontrivial = true
}

// r04Public encrypts under public keys chosen such that the randomness of
// the encryption is visible: without any mask all noise is seen, and a single
// nonzero coefficient shows the masking polynomial.
func r04Public[T tfhe.TorusInt](c *Ctx) {
	tal := newTally(c)
	plan := entropyWeather(c)
	shift := sizeT[T]() - 2
	nT := 1 + c.Int(3)
	which := c.Int(4)
	reps := 20 + c.Int(60)
	if which == 3 && sizeT[T]() == 64 {
		r04Sanitize[uint64](c)
		return
	}
	reveal := c.Int(2) == 1
	type enc struct {
		glwe func() []poly.Poly[T]
		lwe  func() []T
		copy func() enc
	}
	var mk func() enc
	var par tfhe.Parameters[T]
	key := func(par tfhe.Parameters[T]) tfhe.PublicKey[T] {
		pk := tfhe.NewPublicKey(par)
		if reveal {
			for i := range pk.GLWEKey.Value {
				pk.GLWEKey.Value[i].Value[1+i].Coeffs[0] = T(1) << shift
				pk.LWEKey.Value[i].Value[1+i].Coeffs[0] = T(1) << shift
			}
		}
		return pk
	}
	name := "PublicEncryptor"
	if which == 1 {
		name = "mktfhe.PublicEncryptor"
		mp := genMKParams[T](c, paramOpts{maxN: 32, order: 1}, 3).Compile()
		par = mp.SubParams()
		idx := c.Int(mp.PartyCount())
		pk := key(par)
		fft := c.Int(2) == 1
		var wrap func(e *mktfhe.PublicEncryptor[T]) enc
		wrap = func(e *mktfhe.PublicEncryptor[T]) enc {
			tr := poly.NewEvaluator[T](par.PolyRank())
			return enc{
				glwe: func() []poly.Poly[T] {
					pt := tfhe.GLWEPlaintext[T]{Value: poly.NewPoly[T](par.PolyRank())}
					if fft {
						f := e.EncryptFFTGLWEPlaintext(pt)
						o := []poly.Poly[T]{poly.NewPoly[T](par.PolyRank()), poly.NewPoly[T](par.PolyRank())}
						tr.InvFFTTo(o[0], f.Value[0])
						tr.InvFFTTo(o[1], f.Value[1+idx])
						return o
					}
					v := e.EncryptGLWEPlaintext(pt).Value
					return []poly.Poly[T]{v[0], v[1+idx]}
				},
				lwe: func() []T {
					v := e.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{}).Value
					d := par.DefaultLWEDimension()
					return append([]T{v[0]}, v[1+idx*d:1+(idx+1)*d]...)
				},
				copy: func() enc { return wrap(e.SafeCopy()) },
			}
		}
		mk = func() enc { return wrap(mktfhe.NewPublicEncryptor(mp, idx, pk)) }
	} else {
		par = genParams[T](c, paramOpts{maxN: 64, maxRank: 3, order: 1}).Compile()
		pk := key(par)
		fft := c.Int(3) == 2
		var wrap func(e *tfhe.PublicEncryptor[T]) enc
		wrap = func(e *tfhe.PublicEncryptor[T]) enc {
			tr := poly.NewEvaluator[T](par.PolyRank())
			return enc{
				glwe: func() []poly.Poly[T] {
					pt := tfhe.GLWEPlaintext[T]{Value: poly.NewPoly[T](par.PolyRank())}
					if fft {
						f := e.EncryptFFTGLWEPlaintext(pt)
						var o []poly.Poly[T]
						for i := range f.Value {
							o = append(o, poly.NewPoly[T](par.PolyRank()))
							tr.InvFFTTo(o[i], f.Value[i])
						}
						return o
					}
					return e.EncryptGLWEPlaintext(pt).Value
				},
				lwe:  func() []T { return e.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{}).Value },
				copy: func() enc { return wrap(e.SafeCopy()) },
			}
		}
		if which == 2 {
			name = "BinaryPublicEncryptor"
			mk = func() enc { return wrap(tfhe.NewBinaryPublicEncryptor(par, pk).Encryptor) }
		} else {
			mk = func() enc { return wrap(tfhe.NewPublicEncryptor(par, pk)) }
		}
	}
	outs := make([][][]T, nT)
	lwes := make([][][]T, nT)
	lweToo := c.Int(2) == 1
	c.Sim(SimOpts{Name: "public encryption", Est: 300000, NumCPU: 1 + c.Int(3)}, func() {
		base := underWeather(c, plan, mk)
		var fs []func()
		for i := 0; i < nT; i++ {
			i := i
			o := base
			if i > 0 {
				o = underWeather(c, plan, base.copy)
			}
			fs = append(fs, func() {
				for k := 0; k < reps; k++ {
					if lweToo {
						lwes[i] = append(lwes[i], o.lwe())
					} else {
						for _, p := range o.glwe() {
							outs[i] = append(outs[i], p.Coeffs)
						}
					}
				}
			})
		}
		threads(fs...)
	})
	c.Seq("judge", func() {
		v := par.GLWEStdDevQ()*par.GLWEStdDevQ() + 1.0/12
		vhi := v
		if sizeT[T]() == 64 {
			vhi += math.Exp2(2*12 + 4) // a transform of values near 2^63
		}
		one := func(what string, x T, masked bool) {
			if masked && reveal {
				m := (x + 1<<(shift-1)) >> shift
				tal.bit(what+" masking polynomial", uint64(m)&3)
				x -= m << shift
			}
			tal.gauss(what+" noise", signed(x), v, vhi)
		}
		for i := range outs {
			parts := 1 + par.GLWERank()
			for k, p := range outs[i] {
				what := fmt.Sprintf("%s component %d", name, k%parts)
				for t, x := range p {
					if k%parts > 0 && reveal && (x+1<<(shift-1))>>shift == 3 {
						// the negacyclic product with a constant has no sign
						c.Failf("wrong-distribution:"+what, "%s: coefficient %d is %d", what, t, x)
					}
					one(what, x, k%parts > 0)
				}
			}
			for _, ct := range lwes[i] {
				for k, x := range ct {
					what := name + " LWE body"
					if k > 0 {
						what = name + " LWE mask"
					}
					one(what, x, k > 0)
				}
			}
		}
		tal.check()
	})
	c.Cover(name, reveal, lweToo, par.GLWERank(), nT)
	c.Desc("%s: rank %d degree %d, %d threads, %d encryptions each, masks visible %v", name, par.GLWERank(), par.PolyRank(), nT, reps, reveal)
	c.nontrivial = true
}

// r04Sanitize shows the randomness of re-randomisation and of the linear
// evaluation in the same way, with a public key and a table chosen for it.
func r04Sanitize[T tfhe.TorusInt](c *Ctx) {
	span := sanitizeOf[T](c).Compile()
	par := span.BaseParams()
	N := par.PolyRank()
	tal := newTally(c)
	plan := entropyWeather(c)
	reveal := c.Int(2) == 1
	shift := 48
	pk := tfhe.NewPublicKey(par)
	if reveal {
		pk.GLWEKey.Value[0].Value[1].Coeffs[0] = T(1) << shift
	}
	evk := tfhe.EvaluationKey[T]{BlindRotateKey: tfhe.NewBlindRotateKey(par), KeySwitchKey: tfhe.NewKeySwitchKeyForBootstrap(par)}
	nT, reps := 1+c.Int(2), 4+c.Int(12)
	mode := c.Int(3)
	lut := tfhe.NewLUT(par)
	at := c.Int(N)
	lut.Value[0].Coeffs[at] = T(1) << (sizeT[T]() - 7)
	type res struct{ glwe, lwe, san [][]T }
	rs := make([]res, nT)
	c.Sim(SimOpts{Name: "sanitisation", Est: 300000, NumCPU: 1 + c.Int(3)}, func() {
		base := underWeather(c, plan, func() *xtfhe.Sanitizer[T] { return xtfhe.NewSanitizer(span, pk, evk) })
		var fs []func()
		for i := 0; i < nT; i++ {
			i, o := i, base
			if i > 0 {
				o = underWeather(c, plan, base.SafeCopy)
			}
			fs = append(fs, func() {
				for k := 0; k < reps; k++ {
					switch mode {
					case 0:
						in, out := tfhe.NewGLWECiphertext(par), tfhe.NewGLWECiphertext(par)
						o.ReRandGLWETo(out, in)
						rs[i].glwe = append(rs[i].glwe, out.Value[0].Coeffs, out.Value[1].Coeffs)
					case 1:
						in, out := tfhe.NewLWECiphertextCustom[T](par.GLWEDimension()), tfhe.NewLWECiphertextCustom[T](par.GLWEDimension())
						o.ReRandLWETo(out, in)
						rs[i].lwe = append(rs[i].lwe, out.Value)
					case 2:
						in, out := tfhe.NewLWECiphertextCustom[T](par.GLWEDimension()), tfhe.NewLWECiphertext(par)
						o.SanitizeLUTTo(out, in, lut)
						rs[i].san = append(rs[i].san, out.Value)
					}
				}
			})
		}
		threads(fs...)
	})
	c.Seq("judge", func() {
		sig := discreteGauss(0, span.RandSigmaQ())
		tau := span.RandTauQ()
		body := roundedGauss(tau)
		mask := func(what string, x T) {
			if reveal {
				m := (x + 1<<(shift-1)) >> shift << shift
				tal.binned(what+" masking polynomial", int64(signed(m)/math.Exp2(float64(shift))), sig)
				x -= m
			}
			tal.binned(what+" mask noise", int64(signed(x)), sig)
		}
		for _, r := range rs {
			for k, p := range r.glwe {
				for _, x := range p {
					if k%2 == 0 {
						tal.binned("ReRandGLWE body", int64(signed(x)), body)
					} else {
						mask("ReRandGLWE", x)
					}
				}
			}
			for _, ct := range r.lwe {
				tal.binned("ReRandLWE body", int64(signed(ct[0])), body)
				for _, x := range ct[1:] {
					mask("ReRandLWE", x)
				}
			}
			// The table is a monomial and the keys are zero, so the result is one
			// coefficient of the polynomial 1 + 2p g of the linear evaluation,
			// up to its sign, plus noise in the body.
			p := int64(par.MessageModulus())
			M := 64 / p
			prob := make([]float64, M)
			lin := span.LinEvalSigmaQ()
			var sum float64
			for v := int64(-60); v <= 60; v++ {
				w := math.Exp(-float64(v*v) / (2 * lin * lin))
				prob[((v%M)+M)%M] += w
				sum += w
			}
			for i := range prob {
				prob[i] /= sum
			}
			for _, ct := range r.san {
				for _, x := range ct[1:] {
					if x != 0 {
						c.Failf("wrong-distribution:SanitizeLUT", "SanitizeLUT under zero keys has a mask")
					}
				}
				m := int64(math.Floor(signed(ct[0])/math.Exp2(57) + 0.5))
				rest := ct[0] - T(m)<<57
				tal.gauss("SanitizeLUT body noise", signed(rest), span.LinEvalTauQ()*span.LinEvalTauQ(), span.LinEvalTauQ()*span.LinEvalTauQ())
				if m%(2*p) == 0 { // not the constant coefficient
					tal.cat("SanitizeLUT linear evaluation", int(((m/(2*p))%M+M)%M), prob)
				}
			}
		}
		tal.check()
	})
	c.Cover("Sanitizer", mode, reveal, nT)
	c.Desc("Sanitizer: degree %d, mode %d, %d threads, %d each", N, mode, nT, reps)
	c.nontrivial = true
}

// r04Samplers takes many values from samplers in all ways, in threads, after
// other uses, and compares them with the distribution.
func r04Samplers(c *Ctx) {
	tal := newTally(c)
	plan := entropyWeather(c)
	nT := 1 + c.Int(3)
	var runs []func(*simrt.Rng, simrt.EntropyPlan) func()
	for i := 0; i < nT; i++ {
		runs = append(runs, sampler(c, tal))
	}
	rngs := make([]*simrt.Rng, nT)
	for i := range rngs {
		rngs[i] = c.Rng()
	}
	after := make([]func(), nT)
	c.Sim(SimOpts{Name: "samplers", Est: 400000, NumCPU: 1 + c.Int(3)}, func() {
		var fs []func()
		for i := range runs {
			i := i
			fs = append(fs, func() { after[i] = runs[i](rngs[i], plan) })
			plan = simrt.EntropyPlan{}
		}
		threads(fs...)
	})
	c.Seq("judge", func() {
		for _, f := range after {
			f()
		}
		tal.check()
	})
	c.nontrivial = true
}

func sampler(c *Ctx, tal *tally) func(*simrt.Rng, simrt.EntropyPlan) func() {
	switch c.Int(7) {
	case 0:
		return samplerOf[uint32](c, tal, "uint32", 32, false)
	case 1:
		return samplerOf[uint64](c, tal, "uint64", 64, false)
	case 2:
		return samplerOf[int64](c, tal, "int64", 64, true)
	case 3:
		return samplerOf[uint8](c, tal, "uint8", 8, false)
	case 4:
		return samplerOf[uint16](c, tal, "uint16", 16, false)
	case 5:
		return samplerOf[int32](c, tal, "int32", 32, true)
	}
	return samplerOf[int](c, tal, "int", 64, true)
}

// samplerOf draws one sampler, a way of using it and the judgement.
func samplerOf[X num.Integer](c *Ctx, tal *tally, tname string, bits int, sgn bool) func(*simrt.Rng, simrt.EntropyPlan) func() {
	n := []int{2000, 9000, 500, 30000}[c.Int(4)]
	var seed []byte
	if c.Int(2) == 1 {
		seed = make([]byte, 1+c.Int(40))
		c.Rng().Fill(seed)
	}
	var mk func() feed
	var judge func(v []uint64)
	// back sign-extends what the unsigned or small type cut off
	back := func(w uint64) int64 { return int64(w<<(64-bits)) >> (64 - bits) }
	name := ""
	newUni := func() *csprng.UniformSampler[X] {
		if seed != nil {
			return csprng.NewUniformSamplerWithSeed[X](seed)
		}
		return csprng.NewUniformSampler[X]()
	}
	newBin := func() *csprng.BinarySampler[X] {
		if seed != nil {
			return csprng.NewBinarySamplerWithSeed[X](seed)
		}
		return csprng.NewBinarySampler[X]()
	}
	switch kind := c.Int(7); kind {
	case 0:
		name = "uniform " + tname
		mk = func() feed { return uniFeed[X]{newUni()} }
		judge = func(v []uint64) {
			for _, x := range v {
				tal.uniform(name, x, 0, bits)
			}
		}
	case 1:
		usable := bits
		if sgn {
			usable--
		}
		// bounds: small, powers of two and their neighbours, near the largest
		var b uint64
		switch c.Int(4) {
		case 0:
			b = uint64(1 + c.Int(20))
		case 1:
			b = 1<<(1+c.Int(usable-1)) - uint64(c.Int(2))
		case 2:
			b = 1<<(usable-1) + uint64(c.Int(2)) + c.DataSeed()%(1<<(usable-2))
		default:
			b = 3 + c.DataSeed()%(1<<(usable-1))
		}
		if b == 0 {
			b = 1
		}
		name = fmt.Sprintf("%s below %d", tname, b)
		mk = func() feed { return boundedFeed[X]{newUni(), X(b)} }
		cells := uint64(16)
		if b < cells {
			cells = b
		}
		// cell k is [k*b/cells, (k+1)*b/cells)
		prob := make([]float64, cells)
		edge := func(k uint64) uint64 {
			if k == cells {
				return b
			}
			return b/cells*k + (b%cells*k+cells-1)/cells
		}
		for k := range prob {
			prob[k] = float64(edge(uint64(k+1))-edge(uint64(k))) / float64(b)
		}
		judge = func(v []uint64) {
			for _, x := range v {
				if x >= b {
					c.Failf("wrong-distribution:"+name, "%s: got %d", name, x)
				}
				k := uint64(0)
				for x >= edge(k+1) {
					k++
				}
				tal.cat(name, int(k), prob)
			}
		}
	case 2, 3:
		sds := []float64{3.2, 20, 0.8, 12.5}
		if bits > 8 {
			sds = append(sds, 500, 4000)
		}
		if bits > 16 {
			sds = append(sds, 1<<20, 1<<25)
		}
		sd := sds[c.Int(len(sds))]
		name = fmt.Sprintf("gaussian %s of deviation %g", tname, sd)
		mk = func() feed {
			if seed != nil {
				return gaussFeed[X]{csprng.NewGaussianSamplerWithSeed[X](seed, sd), sd}
			}
			return gaussFeed[X]{csprng.NewGaussianSampler[X](), sd}
		}
		dist := roundedGauss(sd)
		if c.Int(8) == 7 && bits > 8 {
			n = 300000
		}
		// what the sampler treats apart: values far from the centre
		far := int64(math.Ceil(3.45 * sd))
		tail := []float64{1 - 2*normCDF((0.5-float64(far))/sd), 2 * normCDF((0.5-float64(far))/sd)}
		judge = func(v []uint64) {
			for _, x := range v {
				e := back(x)
				tal.binned(name, e, dist)
				k := 0
				if e >= far || e <= -far {
					k = 1
				}
				tal.cat(name+", beyond 3.45 deviations", k, tail)
			}
		}
	case 4:
		l := []int{48, 128, 64, 7, 65, 256}[c.Int(6)]
		name = fmt.Sprintf("binary %s in vectors of %d", tname, l)
		mk = func() feed { return binFeed[X]{newBin(), l} }
		if l == 7 || l == 48 || l == 65 {
			mk = func() feed { return onlyVec{binFeed[X]{newBin(), l}} }
		}
		judge = func(v []uint64) {
			for i, x := range v {
				tal.bit(name, x)
				if i > 0 && v[i-1] == 1 {
					tal.bit(name+" after a one", x)
				}
				tal.bit(fmt.Sprintf("%s at position %d", name, i%l), x)
			}
		}
	case 5:
		b := []int{3, 2, 5, 8, 1, 4, 7}[c.Int(7)]
		name = fmt.Sprintf("block binary %s", tname)
		n = n / b * b
		if n > 9000 {
			n = 9000 / b * b
		}
		mk = func() feed { return blockFeed[X]{newBin(), b} }
		judge = func(v []uint64) { blocks(tal, name, v, b) }
	case 6:
		cs := []float64{0, -0.25, -0.0625, 0.5, 2.75, -3.3}
		sds := []float64{1.5, 3, 12, 25, 100}
		if bits == 8 {
			sds = sds[:3]
		}
		center, sd := cs[c.Int(len(cs))], sds[c.Int(len(sds))]
		name = fmt.Sprintf("discrete gaussian %s of deviation %g around %g", tname, sd, center)
		mk = func() feed { return cdtFeed[X]{xtfhe.NewCDTSampler[X](center, sd)} }
		dist := discreteGauss(center, sd)
		judge = func(v []uint64) {
			for _, x := range v {
				tal.binned(name, back(x), dist)
			}
		}
	}
	c.Desc("%s: %d values, seeded %v", name, n, seed != nil)
	c.Cover(name, n, seed != nil)
	return func(r *simrt.Rng, plan simrt.EntropyPlan) func() {
		f := underWeather(c, plan, mk)
		var v []uint64
		for len(v) < n {
			m := 1 + r.Intn(n)
			if m > n-len(v) {
				m = n - len(v)
			}
			v = append(v, f.take(m, r.Intn(f.ways()), r)...)
		}
		return func() { judge(v) }
	}
}

// onlyVec leaves out polynomials, whose degree is a power of two.
type onlyVec struct{ f feed }

func (o onlyVec) ways() int                              { return 1 }
func (o onlyVec) take(n, how int, r *simrt.Rng) []uint64 { return o.f.take(n, 0, r) }

type cdtFeed[X num.Integer] struct{ s *xtfhe.CDTSampler[X] }

func (f cdtFeed[X]) ways() int { return 5 }
func (f cdtFeed[X]) take(n, how int, r *simrt.Rng) []uint64 {
	v := dirty[X](n, r)
	switch how {
	case 0:
		for i := range v {
			v[i] = f.s.Sample()
		}
	case 1:
		f.s.SampleVecTo(v)
	default:
		ps, rest := polySizes(n)
		at := 0
		for _, p := range ps {
			w := append([]X(nil), v[at:at+p]...)
			q := poly.Poly[X]{Coeffs: v[at : at+p]}
			switch how {
			case 2:
				f.s.SamplePolyTo(q)
			case 3:
				f.s.SamplePolyAddTo(q)
				for i := range w {
					v[at+i] -= w[i]
				}
			case 4:
				f.s.SamplePolySubTo(q)
				for i := range w {
					v[at+i] = w[i] - v[at+i]
				}
			}
			at += p
		}
		for ; rest > 0; rest-- {
			v[at] = f.s.Sample()
			at++
		}
	}
	return words(v)
}
