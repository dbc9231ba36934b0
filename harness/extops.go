//go:build go1.22

package main

import (
	"fmt"
	"math"

	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
	"SIMMODULE/xtfhe"
)

// extension schemes whose objects produce randomised results
const (
	extBFV = iota
	extCircuit
	extFHEW
	extSanitize
	numExt
)

var extNames = [numExt]string{"bfv", "circuit", "fhew", "sanitize"}

// extObjs are the objects extension-scheme jobs work on.
type extObjs[T tfhe.TorusInt] struct {
	bfv  *xtfhe.BFVKeyGenerator[T]
	cb   *xtfhe.CircuitBootstrapKeyGenerator[T]
	fhew *xtfhe.FHEWEncryptor[T]
	san  *xtfhe.Sanitizer[T]
}

func (o *extObjs[T]) copy() *extObjs[T] {
	n := &extObjs[T]{}
	if o.bfv != nil {
		n.bfv = o.bfv.SafeCopy()
	}
	if o.cb != nil {
		n.cb = o.cb.SafeCopy()
	}
	if o.fhew != nil {
		n.fhew = o.fhew.SafeCopy()
	}
	if o.san != nil {
		n.san = o.san.SafeCopy()
	}
	return n
}

// enc is the encryptor inside.
func (o *extObjs[T]) enc() *encObjs[T] {
	switch {
	case o.fhew != nil:
		return &encObjs[T]{enc: o.fhew.Encryptor}
	case o.cb != nil:
		return &encObjs[T]{enc: o.cb.Encryptor}
	case o.bfv != nil:
		return &encObjs[T]{enc: o.bfv.Encryptor}
	}
	return nil
}

// extEnv is a setting of one extension scheme with its oracle.
type extEnv[T tfhe.TorusInt] struct {
	c    *Ctx
	kind int
	se   *encEnv[T]
	par  tfhe.Parameters[T]
	cpar xtfhe.CircuitBootstrapParameters[T]
	fpar xtfhe.FHEWParameters[T]
	span xtfhe.SanitizationParameters[T]
	evk  tfhe.EvaluationKey[T]
	pk   tfhe.PublicKey[T]
	fk   tfhe.SecretKey[T]
	gads []tfhe.GadgetParameters[T]
	luts []tfhe.LookUpTable[T]
	tabs [][]int
	cts  []tfhe.LWECiphertext[T]
	gcts []tfhe.GLWECiphertext[T]
	msgs []int
}

// makeFHEWSecret samples a small secret.
func makeFHEWSecret[T tfhe.TorusInt](par tfhe.Parameters[T], seed uint64) tfhe.SecretKey[T] {
	r := simrt.NewRng(seed)
	sk := tfhe.NewSecretKey(par)
	v := sk.LWELargeKey.Value
	for i := range v {
		v[i] = T(r.Intn(5)) - 2
	}
	for i := range sk.GLWEKey.Value {
		copy(sk.GLWEKey.Value[i].Coeffs, v[i*par.PolyRank():(i+1)*par.PolyRank()])
	}
	tfhe.NewGLWETransformer[T](par.PolyRank()).FwdFFTGLWESecretKeyTo(sk.FFTGLWEKey, sk.GLWEKey)
	return sk
}

// sanitizeOf draws sanitisation parameters on which sanitisation decodes.
func sanitizeOf[T tfhe.TorusInt](c *Ctx) xtfhe.SanitizationParametersLiteral[T] {
	o := paramOpts{maxN: 64, rank1: true, noExt: true, order: 1, powerP: true, correct: true}
	if sizeT[T]() == 32 {
		o.maxP = 2
	}
	base := genParams[T](c, o)
	q := qOf[T]()
	return xtfhe.SanitizationParametersLiteral[T]{
		BaseParams: base,
		RandSigma:  []float64{4, 30, 1.5}[c.Int(3)] / q, RandTau: []float64{50, 1000}[c.Int(2)] / q,
		LinEvalSigma: []float64{1.2, 2}[c.Int(2)] / q, LinEvalTau: math.Exp2(-11),
	}
}

func newExtEnv[T tfhe.TorusInt](c *Ctx, kind int) *extEnv[T] {
	e := &extEnv[T]{c: c, kind: kind}
	switch kind {
	case extBFV:
		e.par = genParams[T](c, paramOpts{maxN: 32}).Compile()
	case extCircuit:
		e.cpar = circuitOf(c, genParams[T](c, paramOpts{maxN: 32, noExt: true, powerP: true})).Compile()
		e.par = e.cpar.BaseParams()
	case extFHEW:
		e.fpar = fhewOf(c, genParams[T](c, paramOpts{maxN: 32, noExt: true, block1: true})).Compile()
		e.par = e.fpar.BaseParams()
	case extSanitize:
		e.span = sanitizeOf[T](c).Compile()
		e.par = e.span.BaseParams()
	}
	e.se = newEncEnv(c, e.par)
	if kind == extFHEW {
		e.fk = makeFHEWSecret(e.par, c.DataSeed())
		e.se.sk = e.fk
		e.se.j = newJudge(c, e.par, e.fk)
	}
	e.gads = gadgets[T]()
	return e
}

// prepare generates what evaluators need, with library encryptors.
func (e *extEnv[T]) prepare() {
	if e.kind != extSanitize || len(e.cts) > 0 {
		return
	}
	r := e.c.Rng()
	enc := tfhe.NewEncryptorWithKey(e.par, e.se.sk)
	e.evk, e.pk = enc.GenEvalKey(), enc.GenPublicKey()
	ev := tfhe.NewEvaluator(e.par, e.evk)
	p := int(e.par.MessageModulus())
	for i := 0; i < 2; i++ {
		tab := make([]int, p)
		for k := range tab {
			tab[k] = r.Intn(p)
		}
		e.tabs = append(e.tabs, tab)
		e.luts = append(e.luts, ev.GenLUT(func(x int) int { return tab[x] }))
	}
	for i := 0; i < 3; i++ {
		m := r.Intn(p)
		e.msgs = append(e.msgs, m)
		e.cts = append(e.cts, enc.EncryptLWE(m))
		e.gcts = append(e.gcts, enc.EncryptGLWE(e.se.msgs[0]))
		e.se.j.seen.mask("the input", e.cts[i].Value[1:], false)
	}
}

func (e *extEnv[T]) inputs() uint64 {
	return digestOf([]any{e.se.inputs(), e.evk, e.pk, e.fk, e.luts, e.cts, e.gcts})
}

func (e *extEnv[T]) objs() *extObjs[T] {
	e.prepare()
	switch e.kind {
	case extBFV:
		return &extObjs[T]{bfv: xtfhe.NewBFVKeyGenerator(e.par, e.se.sk)}
	case extCircuit:
		cb := xtfhe.NewCircuitBootstrapKeyGenerator(e.cpar, e.se.sk)
		return &extObjs[T]{cb: cb, bfv: cb.BFVKeyGenerator}
	case extFHEW:
		return &extObjs[T]{fhew: xtfhe.NewFHEWEncryptorWithKey(e.fpar, e.fk)}
	}
	return &extObjs[T]{san: xtfhe.NewSanitizer(e.span, e.pk, e.evk)}
}

// ---- oracles for the keys of extension schemes

func (e *extEnv[T]) sk() [][]T {
	var l [][]T
	for _, p := range e.se.j.sk.GLWEKey.Value {
		l = append(l, p.Coeffs)
	}
	return l
}

func (e *extEnv[T]) relin(what string, k tfhe.GLWEKeySwitchKey[T], g tfhe.GadgetParameters[T]) {
	s := e.sk()
	var src [][]T
	for i := range s {
		for j := i; j < len(s); j++ {
			o := make([]T, len(s[i]))
			negMulAdd(o, s[i], s[j])
			src = append(src, o)
		}
	}
	e.se.j.glweKSK(what, k, src, g)
}

func (e *extEnv[T]) auto(what string, k tfhe.GLWEKeySwitchKey[T], d int, g tfhe.GadgetParameters[T]) {
	var src [][]T
	for _, s := range e.sk() {
		src = append(src, autoPoly(s, d))
	}
	e.se.j.glweKSK(fmt.Sprintf("%s[%d]", what, d), k, src, g)
}

func (e *extEnv[T]) galois(what string, m map[int]tfhe.GLWEKeySwitchKey[T], ds []int, g tfhe.GadgetParameters[T]) {
	n := map[int]bool{}
	for _, d := range ds {
		n[d] = true
	}
	if len(m) != len(n) {
		e.c.Failf("wrong-key:"+what, "%s: %d keys instead of %d", what, len(m), len(n))
	}
	done := map[int]bool{}
	for _, d := range ds {
		if done[d] {
			continue
		}
		done[d] = true
		k, ok := m[d]
		if !ok {
			e.c.Failf("wrong-key:"+what, "%s: no key for %d", what, d)
		}
		e.auto(what, k, d, g)
	}
}

func (e *extEnv[T]) packIdx() []int {
	var ds []int
	for n := e.par.PolyRank(); n > 1; n /= 2 {
		ds = append(ds, n+1)
	}
	return ds
}

// fhewBRK checks the blind rotation key: X^s_i for every i.
func (e *extEnv[T]) fhewBRK(what string, k tfhe.BlindRotateKey[T]) {
	j, N := e.se.j, e.par.PolyRank()
	if len(k.Value) != e.par.LWEDimension() || k.GadgetParams != e.par.BlindRotateParams() {
		e.c.Failf("wrong-key:"+what, "%s: wrong size", what)
	}
	for i := range k.Value {
		d := ((int(signed(j.sk.LWEKey.Value[i])) % (2 * N)) + 2*N) % (2 * N)
		p := make([]T, N)
		if d < N {
			p[d] = 1
		} else {
			p[d-N]--
		}
		j.fggsw(what+"[i]", k.Value[i], p)
	}
}

func (e *extEnv[T]) fhewGalois(what string, k []tfhe.GLWEKeySwitchKey[T]) {
	if len(k) != e.fpar.WindowSize()+1 {
		e.c.Failf("wrong-key:"+what, "%s: %d keys", what, len(k))
	}
	d := 1
	for i := range k {
		if i == 0 {
			e.auto(what, k[0], -5, e.par.BlindRotateParams())
			continue
		}
		d = d * 5 % (2 * e.par.PolyRank())
		e.auto(what, k[i], d, e.par.BlindRotateParams())
	}
}

func (e *extEnv[T]) fhewEvk(what string, k xtfhe.FHEWEvaluationKey[T]) {
	e.fhewBRK(what+".BlindRotateKey", k.BlindRotateKey)
	e.se.j.defaultKSK(what+".KeySwitchKey", k.KeySwitchKey)
	e.fhewGalois(what+".GaloisKey", k.GaloisKey)
}

func (e *extEnv[T]) circuitKey(what string, k xtfhe.CircuitBootstrapKey[T]) {
	if len(k.SchemeSwitchKey) != e.par.GLWERank() {
		e.c.Failf("wrong-key:"+what, "%s: wrong size", what)
	}
	for i := range k.SchemeSwitchKey {
		if k.SchemeSwitchKey[i].GadgetParams != e.cpar.SchemeSwitchParams() {
			e.c.Failf("wrong-key:"+what, "%s: wrong gadget", what)
		}
		e.se.j.fggsw(what+".SchemeSwitchKey", k.SchemeSwitchKey[i], e.sk()[i])
	}
	e.galois(what+".TraceKeys", k.TraceKeys, e.packIdx(), e.cpar.TraceKeySwitchParams())
}

// rerand checks a rerandomised ciphertext.
func (e *extEnv[T]) rerandBound() float64 {
	j := e.se.j
	s := math.Sqrt(float64(e.par.PolyRank()))
	rs := e.span.RandSigmaQ() + 1
	return 12*(s*j.glweSigma()*rs+s*rs+e.span.RandTauQ()) + 8
}

type extJob[T tfhe.TorusInt] struct {
	name string
	kind []int
	prep func(e *extEnv[T], c *Ctx) func(t *track, o *extObjs[T])
}

func extJobs[T tfhe.TorusInt]() []extJob[T] {
	type E = *extEnv[T]
	type O = *extObjs[T]
	type ksk = tfhe.GLWEKeySwitchKey[T]
	type gmap = map[int]ksk
	var l []extJob[T]
	add := func(name string, prep func(e E, c *Ctx) func(t *track, o O), kinds ...int) {
		l = append(l, extJob[T]{name, kinds, prep})
	}
	drawIdx := func(e E, c *Ctx) []int {
		var ds []int
		for i := c.Int(3); i >= 0; i-- {
			ds = append(ds, 2*c.Int(2*e.par.PolyRank())+1-2*e.par.PolyRank())
		}
		return ds
	}
	add("GenRelinKey", func(e E, c *Ctx) func(*track, O) {
		g := e.gads[c.Int(len(e.gads))]
		return func(t *track, o O) {
			run(t, "GenRelinKey", "rlk", destReturn, form[ksk]{ret: func() ksk { return o.bfv.GenRelinKey(g) }},
				func(k ksk) { e.relin("GenRelinKey", k, g) })
		}
	}, extBFV, extCircuit)
	add("BFV GenEvalKey", func(e E, c *Ctx) func(*track, O) {
		g, ds := e.gads[c.Int(len(e.gads))], drawIdx(e, c)
		type X = xtfhe.BFVEvaluationKey[T]
		return func(t *track, o O) {
			run(t, "BFV GenEvalKey", "bfvevk", destReturn, form[X]{ret: func() X { return o.bfv.GenEvalKey(ds, g) }},
				func(k X) { e.relin("BFV RelinKey", k.RelinKey, g); e.galois("BFV GaloisKeys", k.GaloisKeys, ds, g) })
		}
	}, extBFV, extCircuit)
	add("GenGaloisKeys", func(e E, c *Ctx) func(*track, O) {
		g, ds, old, pack := e.gads[c.Int(len(e.gads))], drawIdx(e, c), c.Int(3), c.Int(2) == 1
		if pack {
			ds = e.packIdx()
		}
		return func(t *track, o O) {
			f := form[gmap]{ret: func() gmap { return o.bfv.GenGaloisKeys(ds, g) }}
			if pack {
				f.ret = func() gmap { return o.bfv.GenGaloisKeysForPack(g) }
			}
			d := destReturn
			if old > 0 {
				d = destNew
				f.mk = func() gmap {
					m := gmap{}
					if old == 2 { // an unrelated key under the same index
						k := tfhe.NewGLWEKeySwitchKeyCustom(e.par.GLWERank(), e.par.GLWERank(), e.par.PolyRank(), g)
						fillAny(&k, 77)
						m[ds[0]] = k
						t.c.Fault("destination with unrelated old contents")
					}
					return m
				}
				f.to = func(m gmap) { o.bfv.GenGaloisKeysTo(m, ds, g) }
				if pack {
					f.to = func(m gmap) { o.bfv.GenGaloisKeysForPackTo(m, g) }
				}
			}
			run(t, "GenGaloisKeys", "gal", d, f, func(m gmap) { e.galois("GenGaloisKeys", m, ds, g) })
		}
	}, extBFV, extCircuit)
	add("GenCircuitBootstrapKey", func(e E, c *Ctx) func(*track, O) {
		type X = xtfhe.CircuitBootstrapKey[T]
		return func(t *track, o O) {
			run(t, "GenCircuitBootstrapKey", "cbk", destReturn, form[X]{ret: o.cb.GenCircuitBootstrapKey},
				func(k X) { e.circuitKey("GenCircuitBootstrapKey", k) })
		}
	}, extCircuit)
	add("inner encryptor", func(e E, c *Ctx) func(*track, O) {
		jobs := encJobs[T]()
		f := jobs[c.Int(10)].prep(e.se, c)
		return func(t *track, o O) { f(t, o.enc()) }
	}, extBFV, extCircuit, extFHEW)
	add("FHEW GenEvalKey", func(e E, c *Ctx) func(*track, O) {
		par := c.Int(2) == 1
		type X = xtfhe.FHEWEvaluationKey[T]
		return func(t *track, o O) {
			f := form[X]{ret: o.fhew.GenEvalKey}
			if par {
				f.ret = o.fhew.GenEvalKeyParallel
			}
			run(t, "FHEW GenEvalKey", "fevk", destReturn, f, func(k X) { e.fhewEvk("FHEW GenEvalKey", k) })
		}
	}, extFHEW)
	add("FHEW GenBlindRotateKey", func(e E, c *Ctx) func(*track, O) {
		par := c.Int(2) == 1
		type X = tfhe.BlindRotateKey[T]
		return func(t *track, o O) {
			f := form[X]{ret: o.fhew.GenBlindRotateKey}
			if par {
				f.ret = o.fhew.GenBlindRotateKeyParallel
			}
			run(t, "FHEW GenBlindRotateKey", "fbrk", destReturn, f, func(k X) { e.fhewBRK("FHEW GenBlindRotateKey", k) })
		}
	}, extFHEW)
	add("FHEW GenGaloisKey", func(e E, c *Ctx) func(*track, O) {
		type X = []ksk
		return func(t *track, o O) {
			run(t, "FHEW GenGaloisKey", "fgal", destReturn, form[X]{ret: o.fhew.GenGaloisKey}, func(k X) { e.fhewGalois("FHEW GenGaloisKey", k) })
		}
	}, extFHEW)
	add("FHEW GenSecretKey", func(e E, c *Ctx) func(*track, O) {
		type X = tfhe.SecretKey[T]
		return func(t *track, o O) {
			run(t, "FHEW GenSecretKey", "fsk", destReturn, form[X]{ret: o.fhew.GenSecretKey}, func(k X) {
				v := k.LWELargeKey.Value
				for i, x := range v {
					bad := math.Abs(signed(x)) > 12*e.fpar.SecretKeyStdDevQ()+1
					bad = bad || i < len(k.LWEKey.Value) && k.LWEKey.Value[i] != x
					bad = bad || k.GLWEKey.Value[i/e.par.PolyRank()].Coeffs[i%e.par.PolyRank()] != x
					if bad {
						c.Failf("wrong-key:FHEW GenSecretKey", "the generated secret is inconsistent or too large at %d", i)
					}
				}
				f := tfhe.NewFFTGLWESecretKey(e.par)
				tfhe.NewGLWETransformer[T](e.par.PolyRank()).FwdFFTGLWESecretKeyTo(f, k.GLWEKey)
				if digestOf(f) != digestOf(k.FFTGLWEKey) {
					c.Failf("wrong-key:FHEW GenSecretKey", "the transformed secret does not match the secret")
				}
				e.se.j.seen.secretBits("FHEW GenSecretKey", v)
				dist := roundedGauss(e.fpar.SecretKeyStdDevQ())
				for _, x := range v {
					e.se.j.tal.binned("FHEW GenSecretKey", int64(signed(x)), dist)
				}
			})
		}
	}, extFHEW)
	add("ReRandGLWE", func(e E, c *Ctx) func(*track, O) {
		i, d := c.Int(3), drawDest(c)
		type X = tfhe.GLWECiphertext[T]
		return func(t *track, o O) {
			f := form[X]{nil, func(x X) { o.san.ReRandGLWETo(x, e.gcts[i]) }, func() X { return tfhe.NewGLWECiphertext(e.par) }}
			if d == destReturn { // in place
				t.c.Fault("destination aliased with an input")
				f.mk = func() X { return cloneOf(e.gcts[i]) }
				f.to = func(x X) { o.san.ReRandGLWETo(x, x) }
				d = destNew
			}
			run(t, "ReRandGLWE", "sanglwe", d, f, func(x X) {
				e.se.j.near("ReRandGLWE", phaseGLWE(x.Value, e.se.j.sk.GLWEKey.Value), phaseGLWE(e.gcts[i].Value, e.se.j.sk.GLWEKey.Value), e.rerandBound())
				e.se.j.seen.mask("ReRandGLWE", x.Value[1].Coeffs, false)
			})
		}
	}, extSanitize)
	add("ReRandLWE", func(e E, c *Ctx) func(*track, O) {
		i, d := c.Int(3), drawDest(c)
		type X = tfhe.LWECiphertext[T]
		return func(t *track, o O) {
			f := form[X]{nil, func(x X) { o.san.ReRandLWETo(x, e.cts[i]) }, func() X { return tfhe.NewLWECiphertext(e.par) }}
			if d == destReturn {
				t.c.Fault("destination aliased with an input")
				f.mk = func() X { return cloneOf(e.cts[i]) }
				f.to = func(x X) { o.san.ReRandLWETo(x, x) }
				d = destNew
			}
			run(t, "ReRandLWE", "sanlwe", d, f, func(x X) {
				k := e.se.j.defKey()
				e.se.j.near("ReRandLWE", []T{phaseLWE(x.Value, k)}, []T{phaseLWE(e.cts[i].Value, k)}, e.rerandBound())
				e.se.j.seen.mask("ReRandLWE", x.Value[1:], false)
			})
		}
	}, extSanitize)
	sanitized := func(name string, useLUT bool) {
		add(name, func(e E, c *Ctx) func(*track, O) {
			i, d, k := c.Int(3), drawDest(c), c.Int(2)
			type X = tfhe.LWECiphertext[T]
			return func(t *track, o O) {
				fn := func(x int) int { return e.tabs[k][x] }
				f := form[X]{func() X { return o.san.SanitizeFunc(e.cts[i], fn) }, func(x X) { o.san.SanitizeFuncTo(x, e.cts[i], fn) }, func() X { return tfhe.NewLWECiphertext(e.par) }}
				if useLUT {
					f.ret, f.to = func() X { return o.san.SanitizeLUT(e.cts[i], e.luts[k]) }, func(x X) { o.san.SanitizeLUTTo(x, e.cts[i], e.luts[k]) }
				}
				run(t, name, "sanlwe", d, f, func(x X) {
					want := e.se.encode(e.tabs[k][e.msgs[i]])
					if e.par.LWEDimension() <= 16 { // the error model holds
						e.se.j.near(name, []T{phaseLWE(x.Value, e.se.j.defKey())}, []T{want}, float64(e.par.Scale())/2)
					}
					zero := true // of a zero table, or when nothing is rotated
					for _, v := range x.Value[1:] {
						zero = zero && v == 0
					}
					if !zero {
						e.se.j.seen.mask(name, x.Value[1:], false)
					}
				})
			}
		}, extSanitize)
	}
	sanitized("SanitizeFunc", false)
	sanitized("SanitizeLUT", true)
	add("sanitizer as evaluator", func(e E, c *Ctx) func(*track, O) {
		i, k, how := c.Int(3), c.Int(2), c.Int(3)
		return func(t *track, o O) {
			fn := func(x int) int { return e.tabs[k][x] }
			var x tfhe.LWECiphertext[T]
			switch how {
			case 0:
				x = o.san.BootstrapFunc(e.cts[i], fn)
			case 1:
				x = o.san.BootstrapLUT(e.cts[i], e.luts[k])
			case 2:
				x = tfhe.NewLWECiphertext(e.par)
				o.san.BootstrapLUTTo(x, e.cts[i], e.luts[k])
			}
			d := digestOf(x)
			t.checks = append(t.checks, func() {
				if digestOf(x) != d {
					c.Failf("result-changed:sanitizer", "a bootstrapped result changed after it was returned")
				}
				c.Note(d)
				e.se.j.near("sanitizer bootstrap", []T{phaseLWE(x.Value, e.se.j.defKey())}, []T{e.se.encode(e.tabs[k][e.msgs[i]])}, float64(e.par.Scale())/2)
			})
		}
	}, extSanitize)
	return l
}

// extJobsFor keeps the jobs of the scheme in use.
func extJobsFor[T tfhe.TorusInt](e *extEnv[T], jobs []extJob[T]) []extJob[T] {
	var l []extJob[T]
	for _, j := range jobs {
		for _, k := range j.kind {
			if k == e.kind {
				l = append(l, j)
			}
		}
	}
	return l
}

func drawExtJob[T tfhe.TorusInt](c *Ctx, e *extEnv[T], jobs []extJob[T]) job[*extObjs[T]] {
	l := extJobsFor(e, jobs)
	g := l[c.Int(len(l))]
	return job[*extObjs[T]]{g.name, g.prep(e, c)}
}

func extHistory[T tfhe.TorusInt](c *Ctx) {
	e := newExtEnv[T](c, c.Int(numExt))
	jobs := extJobs[T]()
	var t *track
	var in uint64
	c.Sim(SimOpts{Name: "history", Est: 100000, NumCPU: 1 + c.Int(4)}, func() {
		objs := []*extObjs[T]{e.objs()}
		if c.Int(3) == 2 {
			objs = append(objs, objs[0].copy())
		}
		in = e.inputs()
		t = newTrack(c, "history")
		prev := ""
		for n := 2 + c.Int(8); n > 0; n-- {
			o := objs[c.Int(len(objs))]
			j := drawExtJob(c, e, jobs)
			c.Cover(prev, j.name)
			c.Desc("%s: %s", extNames[e.kind], j.name)
			prev = j.name
			j.exec(t, o)
		}
	})
	c.Seq("judge", func() {
		judgeAll(t)
		e.se.j.stats()
	})
	if e.inputs() != in {
		c.Failf("input-modified:"+extNames[e.kind], "an operation modified a message, ciphertext or key it was given")
	}
	c.nontrivial = true
}

func extConcurrent[T tfhe.TorusInt](c *Ctx) {
	e := newExtEnv[T](c, c.Int(numExt))
	jobs := extJobs[T]()
	nT := 2 + c.Int(3)
	ts := make([]*track, nT)
	progs := make([][]job[*extObjs[T]], nT)
	var base *extObjs[T]
	c.Seq("setup", func() {
		base = e.objs()
		t := newTrack(c, "setup")
		for i := c.Int(2); i > 0; i-- {
			drawExtJob(c, e, jobs).exec(t, base)
		}
		judgeAll(t)
	})
	same := c.Bool(1, 3)
	focus := c.Bool(1, 3) // every thread does the same one or two operations
	var pool []extJob[T]
	if focus {
		l := extJobsFor(e, jobs)
		for n := 1 + c.Int(2); len(pool) < n; {
			pool = append(pool, l[c.Int(len(l))])
		}
	}
	for i := range progs {
		ts[i] = newTrack(c, fmt.Sprintf("thread %d", i))
		for k := 1 + c.Int(3); k > 0; k-- {
			if focus {
				progs[i] = append(progs[i], drawExtJob(c, e, pool))
				continue
			}
			progs[i] = append(progs[i], drawExtJob(c, e, jobs))
		}
		if same && i > 0 {
			progs[i] = progs[0]
		}
		c.Desc("%s thread %d: %d jobs, first %s", extNames[e.kind], i, len(progs[i]), progs[i][0].name)
	}
	in := e.inputs()
	hows := drawCopies(c, nT)
	c.Sim(SimOpts{Name: "concurrent", Est: 50000, NumCPU: 1 + c.Int(4)}, func() {
		concurrently(hows, base, (*extObjs[T]).copy, func(i int, o *extObjs[T]) {
			for _, j := range progs[i] {
				c.Cover(j.name, nT)
				j.exec(ts[i], o)
			}
		})
	})
	c.Seq("judge", func() {
		judgeAll(ts...)
		e.se.j.stats()
		after := newTrack(c, "afterwards")
		drawExtJob(c, e, jobs).exec(after, base)
		judgeAll(after)
	})
	if e.inputs() != in {
		c.Failf("input-modified:"+extNames[e.kind], "concurrent use of copies modified a message, ciphertext or key")
	}
	c.nontrivial = true
}

func init() {
	specs := []actorSpec{
		{"bfv", []string{"xtfhe.BFVEvaluator"}}, {"manylut", []string{"xtfhe.ManyLUTEvaluator"}},
		{"circuit", []string{"xtfhe.CircuitBootstrapper"}}, {"fhew", []string{"xtfhe.FHEWEvaluator"}},
	}
	register("H04", false, func(c *Ctx) {
		if c.Int(2) == 1 {
			runHistory(c, specs)
			return
		}
		either(c, extHistory[uint32], extHistory[uint64])
	})
	register("C04", false, func(c *Ctx) {
		if c.Int(2) == 1 {
			runConcurrent(c, specs)
			return
		}
		either(c, extConcurrent[uint32], extConcurrent[uint64])
	})
}
