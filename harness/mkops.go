//go:build go1.22

package main

import (
	"fmt"

	"SIMMODULE/math/poly"
	"SIMMODULE/mktfhe"
	"SIMMODULE/tfhe"
)

// mkObjs are the objects multi-key jobs work on, one encryptor per party.
type mkObjs[T tfhe.TorusInt] struct {
	encs  []*mktfhe.Encryptor[T]
	bencs []*mktfhe.BinaryEncryptor[T]
	pubs  []*mktfhe.PublicEncryptor[T]
	bpubs []*mktfhe.BinaryPublicEncryptor[T]
	dec   *mktfhe.Decryptor[T]
	bdec  *mktfhe.BinaryDecryptor[T]
}

func (o *mkObjs[T]) copy() *mkObjs[T] {
	n := &mkObjs[T]{dec: o.dec.SafeCopy(), bdec: o.bdec.SafeCopy()}
	for i := range o.encs {
		n.encs = append(n.encs, o.encs[i].SafeCopy())
		n.bencs = append(n.bencs, o.bencs[i].SafeCopy())
	}
	for i := range o.pubs {
		n.pubs = append(n.pubs, o.pubs[i].SafeCopy())
		n.bpubs = append(n.bpubs, o.bpubs[i].SafeCopy())
	}
	return n
}

// mkEnv is a multi-key setting with one oracle per party.
type mkEnv[T tfhe.TorusInt] struct {
	c       *Ctx
	par     mktfhe.Parameters[T]
	sub     tfhe.Parameters[T]
	parties []int // indices, in the order encryptors were made
	seed    []byte
	sks     []tfhe.SecretKey[T]
	js      []*judge[T]
	crs     []poly.Poly[T]
	se      *encEnv[T] // messages and encodings
	pks     []tfhe.PublicKey[T]
	uniG    []tfhe.GadgetParameters[T]
}

func newMKEnv[T tfhe.TorusInt](c *Ctx, par mktfhe.Parameters[T]) *mkEnv[T] {
	e := &mkEnv[T]{c: c, par: par, sub: par.SubParams()}
	r := c.Rng()
	e.seed = make([]byte, 1+r.Intn(40))
	for i := range e.seed {
		e.seed[i] = byte(r.Uint64())
	}
	perm := make([]int, par.PartyCount())
	for i := range perm {
		k := r.Intn(i + 1)
		perm[i], perm[k] = perm[k], i
	}
	n := 1 + c.Int(par.PartyCount())
	e.parties = perm[:n]
	for range e.parties {
		sk := makeSecret(e.sub, c.DataSeed())
		j := newJudge(c, e.sub, sk)
		if len(e.js) > 0 {
			j.seen = e.js[0].seen
		}
		e.sks, e.js = append(e.sks, sk), append(e.js, j)
	}
	e.se = newEncEnv(c, e.sub)
	e.uniG = []tfhe.GadgetParameters[T]{par.RelinKeyParameters(), gad[T](6, 1).Compile(), gad[T](8, 2).Compile()}
	return e
}

func (e *mkEnv[T]) inputs() uint64 {
	return digestOf([]any{e.sks, e.pks, e.seed, e.se.inputs()})
}

func (e *mkEnv[T]) skMap() map[int]tfhe.SecretKey[T] {
	m := map[int]tfhe.SecretKey[T]{}
	for i, p := range e.parties {
		m[p] = e.sks[i]
	}
	return m
}

func (e *mkEnv[T]) objs() *mkObjs[T] {
	o := &mkObjs[T]{}
	for i, p := range e.parties {
		o.encs = append(o.encs, mktfhe.NewEncryptorWithKey(e.par, p, e.seed, e.sks[i]))
		o.bencs = append(o.bencs, mktfhe.NewBinaryEncryptorWithKey(e.par, p, e.seed, e.sks[i]))
		if e.crs == nil {
			e.crs = cloneOf(o.encs[0].CRS)
		}
		if digestOf(o.encs[i].CRS) != digestOf(e.crs) || digestOf(o.bencs[i].Encryptor.CRS) != digestOf(e.crs) {
			e.c.Failf("reference-differs", "two parties with the same seed derive different common references")
		}
	}
	if e.sub.IsPublicKeyEncryptable() {
		for i, p := range e.parties {
			if len(e.pks) <= i {
				e.pks = append(e.pks, o.encs[i].GenPublicKey())
			}
			o.pubs = append(o.pubs, mktfhe.NewPublicEncryptor(e.par, p, e.pks[i]))
			o.bpubs = append(o.bpubs, mktfhe.NewBinaryPublicEncryptor(e.par, p, e.pks[i]))
		}
	}
	if e.c.Int(2) == 1 { // keys added one by one
		o.dec = mktfhe.NewDecryptor(e.par, map[int]tfhe.SecretKey[T]{})
		o.bdec = mktfhe.NewBinaryDecryptor(e.par, map[int]tfhe.SecretKey[T]{})
		for i, p := range e.parties {
			o.dec.AddSecretKey(p, e.sks[i])
			o.bdec.Decryptor.AddSecretKey(p, e.sks[i])
		}
	} else {
		o.dec = mktfhe.NewDecryptor(e.par, e.skMap())
		o.bdec = mktfhe.NewBinaryDecryptor(e.par, e.skMap())
	}
	return o
}

// lwe judges a ciphertext made by party number i alone.
func (e *mkEnv[T]) lwe(what string, i int, ct mktfhe.LWECiphertext[T], want T, kind noise) {
	d := e.sub.DefaultLWEDimension()
	if len(ct.Value) != 1+d*e.par.PartyCount() {
		e.c.Failf("wrong-ciphertext:"+what, "%s: length %d", what, len(ct.Value))
	}
	sub := tfhe.LWECiphertext[T]{Value: []T{ct.Value[0]}}
	for p := 0; p < e.par.PartyCount(); p++ {
		seg := ct.Value[1+p*d : 1+(p+1)*d]
		if p == e.parties[i] {
			sub.Value = append(sub.Value, seg...)
			continue
		}
		for _, x := range seg {
			if x != 0 {
				e.c.Failf("wrong-ciphertext:"+what, "%s: party %d has a component for party %d", what, e.parties[i], p)
			}
		}
	}
	e.js[i].lwe(what, sub, want, kind)
}

func (e *mkEnv[T]) glwe(what string, i int, ct []poly.Poly[T], want []T, kind noise, slack float64) {
	if len(ct) != 1+e.par.PartyCount() {
		e.c.Failf("wrong-ciphertext:"+what, "%s: length %d", what, len(ct))
	}
	for p := 0; p < e.par.PartyCount(); p++ {
		if p == e.parties[i] {
			continue
		}
		for _, x := range ct[1+p].Coeffs {
			if s := signed(x); s > slack || s < -slack {
				e.c.Failf("wrong-ciphertext:"+what, "%s: party %d has a component for party %d", what, e.parties[i], p)
			}
		}
	}
	e.js[i].polys(what, []poly.Poly[T]{ct[0], ct[1+e.parties[i]]}, want, kind, slack)
}

func (e *mkEnv[T]) fglwe(what string, i int, ct mktfhe.FFTGLWECiphertext[T], want []T, kind noise) {
	out := mktfhe.NewGLWECiphertextCustom[T](len(ct.Value)-1, e.par.PolyRank())
	for k := range ct.Value {
		poly.NewEvaluator[T](e.par.PolyRank()).InvFFTTo(out.Value[k], cloneOf(ct.Value[k]))
	}
	e.glwe(what, i, out.Value, want, kind, e.js[i].fftSlack())
}

// uni judges a uni-encryption given as plain rows: rows[0][l] = (p*g_l + crs*r + e, crs),
// rows[1] = gadget encryption of r.
func (e *mkEnv[T]) uni(what string, i int, rows [2][][]poly.Poly[T], g tfhe.GadgetParameters[T], p []T, slack float64) {
	j, N := e.js[i], e.par.PolyRank()
	if len(rows[0]) != g.Level() || len(rows[1]) != g.Level() {
		e.c.Failf("wrong-ciphertext:"+what, "%s: level", what)
	}
	ph := phaseGLWE(rows[1][0], j.sk.GLWEKey.Value)
	r := make([]T, N)
	b0 := baseQ(g, 0)
	for k := range r {
		r[k] = (ph[k] + b0/2) / b0
		if r[k] > 1 {
			e.c.Failf("wrong-ciphertext:"+what, "%s: the masking polynomial is not binary", what)
		}
	}
	j.seen.secretBits(what, r)
	for _, x := range r {
		j.tal.bit(what+", masking polynomial", uint64(x))
	}
	j.seen.secretWords(what, r)
	for l := range rows[1] {
		j.polys(what+".Value[1]", rows[1][l], scaleVec(r, baseQ(g, l)), noiseFresh, slack)
	}
	for l := range rows[0] {
		for k, x := range rows[0][l][1].Coeffs {
			if s := signed(x - e.crs[l].Coeffs[k]); s > slack || s < -slack {
				e.c.Failf("wrong-ciphertext:"+what, "%s: does not use the common reference", what)
			}
		}
		want := scaleVec(p, baseQ(g, l))
		negMulAdd(want, e.crs[l].Coeffs, r)
		errs := make([]T, N)
		for k, x := range rows[0][l][0].Coeffs {
			j.err(what+".Value[0]", x, want[k], j.glweSigma(), noiseFresh, slack)
			errs[k] = x - want[k]
		}
		j.seen.noise(what, errs)
	}
}

func (e *mkEnv[T]) uniPlain(what string, i int, ct mktfhe.UniEncryption[T], p []T) {
	var rows [2][][]poly.Poly[T]
	for h := 0; h < 2; h++ {
		for _, x := range ct.Value[h].Value {
			rows[h] = append(rows[h], x.Value)
		}
	}
	e.uni(what, i, rows, ct.GadgetParams, p, 0)
}

func (e *mkEnv[T]) uniFFT(what string, i int, ct mktfhe.FFTUniEncryption[T], p []T) {
	var rows [2][][]poly.Poly[T]
	for h := 0; h < 2; h++ {
		for _, x := range ct.Value[h].Value {
			rows[h] = append(rows[h], e.js[i].inv(x).Value)
		}
	}
	e.uni(what, i, rows, ct.GadgetParams, p, e.js[i].fftSlack())
}

// crsKey judges the public key derived from the common reference.
func (e *mkEnv[T]) crsKey(what string, i int, k tfhe.FFTGLevCiphertext[T]) {
	j, g := e.js[i], e.par.RelinKeyParameters()
	if k.GadgetParams != g || len(k.Value) != g.Level() {
		e.c.Failf("wrong-key:"+what, "%s: wrong size", what)
	}
	for l := range k.Value {
		v := j.inv(k.Value[l]).Value
		ph := phaseGLWE(v, j.sk.GLWEKey.Value)
		for t := range ph {
			j.err(what, ph[t], 0, j.glweSigma(), noiseKey, j.fftSlack())
			if s := signed(v[1].Coeffs[t] - e.crs[l].Coeffs[t]); s > j.fftSlack() || s < -j.fftSlack() {
				e.c.Failf("wrong-key:"+what, "%s: does not use the common reference", what)
			}
		}
		j.seen.noise(what, ph)
	}
}

func (e *mkEnv[T]) evalKey(what string, i int, k mktfhe.EvaluationKey[T]) {
	e.js[i].evalKey(what, k.EvaluationKey)
	e.crsKey(what+".CRSPublicKey", i, k.CRSPublicKey)
	e.uniFFT(what+".RelinKey", i, k.RelinKey, e.js[i].sk.GLWEKey.Value[0].Coeffs)
}

// jointPhase is the decryption of a joint ciphertext by the oracle.
func (e *mkEnv[T]) jointPhase(ct []poly.Poly[T]) []T {
	out := append([]T(nil), ct[0].Coeffs...)
	for i, p := range e.parties {
		negMulAdd(out, ct[1+p].Coeffs, e.js[i].sk.GLWEKey.Value[0].Coeffs)
	}
	return out
}

func (e *mkEnv[T]) jointLWE(ct []T) T {
	x, d := ct[0], e.sub.DefaultLWEDimension()
	for i, p := range e.parties {
		for k, s := range e.js[i].defKey() {
			x += ct[1+p*d+k] * s
		}
	}
	return x
}

type mkJob[T tfhe.TorusInt] struct {
	name       string
	heavy, pub bool
	prep       func(e *mkEnv[T], c *Ctx, i int) func(t *track, o *mkObjs[T])
}

func mkJobs[T tfhe.TorusInt]() []mkJob[T] {
	type E = *mkEnv[T]
	type O = *mkObjs[T]
	type P = func(e E, c *Ctx, i int) func(t *track, o O)
	var l []mkJob[T]
	add := func(name string, p P) { l = append(l, mkJob[T]{name: name, prep: p}) }
	heavy := func(name string, p P) { l = append(l, mkJob[T]{name: name, heavy: true, prep: p}) }
	pub := func(name string, p P) { l = append(l, mkJob[T]{name: name, pub: true, prep: p}) }
	type lwe = mktfhe.LWECiphertext[T]
	type glwe = mktfhe.GLWECiphertext[T]
	type fglwe = mktfhe.FFTGLWECiphertext[T]
	nl := func(e E) func() lwe { return func() lwe { return mktfhe.NewLWECiphertext(e.par) } }
	ng := func(e E) func() glwe { return func() glwe { return mktfhe.NewGLWECiphertext(e.par) } }
	nf := func(e E) func() fglwe { return func() fglwe { return mktfhe.NewFFTGLWECiphertext(e.par) } }

	add("EncryptLWE", func(e E, c *Ctx, i int) func(*track, O) {
		m, d, form1 := c.Int(2*int(e.sub.MessageModulus())), drawDest(c), c.Int(3)
		pt := tfhe.LWEPlaintext[T]{Value: T(c.Rng().Uint64())}
		return func(t *track, o O) {
			enc := o.encs[i]
			f := form[lwe]{func() lwe { return enc.EncryptLWE(m) }, func(x lwe) { enc.EncryptLWETo(x, m) }, nl(e)}
			want := e.se.encode(m)
			switch form1 {
			case 1:
				want = pt.Value
				f.ret, f.to = func() lwe { return enc.EncryptLWEPlaintext(pt) }, func(x lwe) { enc.EncryptLWEPlaintextTo(x, pt) }
			case 2:
				want = pt.Value
				f.ret, f.to = nil, func(x lwe) { x.Value[0] = pt.Value; enc.EncryptLWEBody(x) }
			}
			ct := run(t, "EncryptLWE", "lwe", d, f, func(x lwe) { e.lwe("EncryptLWE", i, x, want, noiseFresh) })
			if form1 == 0 {
				e.se.expectInts("DecryptLWE", []int{o.dec.DecryptLWE(ct)}, []T{T(m)})
			} else if got, w := o.dec.DecryptLWEPlaintext(ct).Value, e.jointLWE(ct.Value); got != w {
				c.Failf("wrong-decryption:DecryptLWEPlaintext", "DecryptLWEPlaintext returns %d instead of %d", got, w)
			}
		}
	})
	add("EncryptGLWE", func(e E, c *Ctx, i int) func(*track, O) {
		m, pt, d, form1 := e.se.msgs[c.Int(len(e.se.msgs))], e.se.pts[c.Int(2)], drawDest(c), c.Int(3)
		return func(t *track, o O) {
			enc := o.encs[i]
			f := form[glwe]{func() glwe { return enc.EncryptGLWE(m) }, func(x glwe) { enc.EncryptGLWETo(x, m) }, ng(e)}
			want := e.se.encodePoly(m)
			switch form1 {
			case 1:
				want = pt.Value.Coeffs
				f.ret, f.to = func() glwe { return enc.EncryptGLWEPlaintext(pt) }, func(x glwe) { enc.EncryptGLWEPlaintextTo(x, pt) }
			case 2:
				want = pt.Value.Coeffs
				f.ret, f.to = nil, func(x glwe) { copy(x.Value[0].Coeffs, pt.Value.Coeffs); enc.EncryptGLWEBody(x) }
			}
			ct := run(t, "EncryptGLWE", "glwe", d, f, func(x glwe) { e.glwe("EncryptGLWE", i, x.Value, want, noiseFresh, 0) })
			if form1 == 0 {
				e.se.expectInts("DecryptGLWE", o.dec.DecryptGLWE(ct), e.se.modPoly(m))
			} else {
				e.js[i].near("DecryptGLWEPhase", o.dec.DecryptGLWEPhase(ct).Value.Coeffs, e.jointPhase(ct.Value), 8)
			}
		}
	})
	add("EncryptFFTGLWE", func(e E, c *Ctx, i int) func(*track, O) {
		m, pt, d, plain := e.se.msgs[c.Int(len(e.se.msgs))], e.se.pts[c.Int(2)], drawDest(c), c.Int(2) == 1
		return func(t *track, o O) {
			enc := o.encs[i]
			f := form[fglwe]{func() fglwe { return enc.EncryptFFTGLWE(m) }, func(x fglwe) { enc.EncryptFFTGLWETo(x, m) }, nf(e)}
			want := e.se.encodePoly(m)
			if plain {
				want = pt.Value.Coeffs
				f.ret, f.to = func() fglwe { return enc.EncryptFFTGLWEPlaintext(pt) }, func(x fglwe) { enc.EncryptFFTGLWEPlaintextTo(x, pt) }
			}
			ct := run(t, "EncryptFFTGLWE", "fftglwe", d, f, func(x fglwe) { e.fglwe("EncryptFFTGLWE", i, x, want, noiseKey) })
			if !plain {
				e.se.expectInts("DecryptFFTGLWE", o.dec.DecryptFFTGLWE(ct), e.se.modPoly(m))
			}
		}
	})
	add("UniEncrypt", func(e E, c *Ctx, i int) func(*track, O) {
		m, p, g, d, pol := e.se.msgs[c.Int(len(e.se.msgs))], e.se.full[c.Int(2)], e.uniG[c.Int(len(e.uniG))], drawDest(c), c.Int(2) == 1
		type X = mktfhe.UniEncryption[T]
		return func(t *track, o O) {
			enc := o.encs[i]
			want := e.se.modPoly(m)
			f := form[X]{func() X { return enc.UniEncrypt(m, g) }, func(x X) { enc.UniEncryptTo(x, m, g) }, func() X { return mktfhe.NewUniEncryption(e.par, g) }}
			if pol {
				want = p.Coeffs
				f.ret, f.to = func() X { return enc.UniEncryptPoly(p, g) }, func(x X) { enc.UniEncryptPolyTo(x, p) }
			}
			ct := run(t, "UniEncrypt", fmt.Sprint("uni", g), d, f, func(x X) { e.uniPlain("UniEncrypt", i, x, want) })
			if !pol {
				e.se.expectInts("UniDecrypt", enc.UniDecrypt(ct), want)
			}
		}
	})
	add("FFTUniEncrypt", func(e E, c *Ctx, i int) func(*track, O) {
		m, p, g, d, pol := e.se.msgs[c.Int(len(e.se.msgs))], e.se.full[c.Int(2)], e.uniG[c.Int(len(e.uniG))], drawDest(c), c.Int(2) == 1
		type X = mktfhe.FFTUniEncryption[T]
		return func(t *track, o O) {
			enc := o.encs[i]
			want := e.se.modPoly(m)
			f := form[X]{func() X { return enc.FFTUniEncrypt(m, g) }, func(x X) { enc.FFTUniEncryptTo(x, m, g) }, func() X { return mktfhe.NewFFTUniEncryption(e.par, g) }}
			if pol {
				want = p.Coeffs
				f.ret, f.to = func() X { return enc.FFTUniEncryptPoly(p, g) }, func(x X) { enc.FFTUniEncryptPolyTo(x, p) }
			}
			ct := run(t, "FFTUniEncrypt", fmt.Sprint("fftuni", g), d, f, func(x X) { e.uniFFT("FFTUniEncrypt", i, x, want) })
			if !pol {
				e.se.expectInts("FFTUniDecrypt", enc.FFTUniDecrypt(ct), want)
			}
		}
	})
	add("EncryptLWEBool", func(e E, c *Ctx, i int) func(*track, O) {
		b, d, bits, n, m := c.Int(2) == 1, drawDest(c), c.Int(3) == 2, 1+c.Int(4), c.Int(32)
		return func(t *track, o O) {
			enc := o.bencs[i]
			if bits {
				ct := run(t, "EncryptLWEBits", fmt.Sprint("bits", n), destReturn, form[[]lwe]{ret: func() []lwe { return enc.EncryptLWEBits(m, n) }},
					func(x []lwe) {
						for k := range x {
							e.lwe("EncryptLWEBits", i, x[k], boolQ[T](m>>k&1 == 1), noiseFresh)
						}
					})
				if got := o.bdec.DecryptLWEBits(ct); got != m&(1<<n-1) {
					c.Failf("wrong-decryption:DecryptLWEBits", "DecryptLWEBits returns %d instead of %d", got, m&(1<<n-1))
				}
				return
			}
			f := form[lwe]{func() lwe { return enc.EncryptLWEBool(b) }, func(x lwe) { enc.EncryptLWEBoolTo(x, b) }, nl(e)}
			ct := run(t, "EncryptLWEBool", "lwe", d, f, func(x lwe) { e.lwe("EncryptLWEBool", i, x, boolQ[T](b), noiseFresh) })
			if o.bdec.DecryptLWEBool(ct) != b {
				c.Failf("wrong-decryption:DecryptLWEBool", "DecryptLWEBool returns %v", !b)
			}
		}
	})
	add("decrypt joint", func(e E, c *Ctx, i int) func(*track, O) {
		g, s := mktfhe.NewGLWECiphertext(e.par), mktfhe.NewLWECiphertext(e.par)
		fillAny(&g, c.DataSeed())
		fillAny(&s, c.DataSeed())
		return func(t *track, o O) {
			if got, w := o.dec.DecryptLWEPlaintext(s).Value, e.jointLWE(s.Value); got != w {
				c.Failf("wrong-decryption:joint", "DecryptLWEPlaintext of a joint ciphertext returns %d instead of %d", got, w)
			}
			pt := tfhe.NewGLWEPlaintext(e.sub)
			fillAny(&pt, 9)
			o.dec.DecryptGLWEPhaseTo(pt, g)
			e.js[0].near("joint", pt.Value.Coeffs, e.jointPhase(g.Value), 8*float64(1+e.par.PartyCount()))
		}
	})
	// ---- keys
	heavy("GenEvalKey", func(e E, c *Ctx, i int) func(*track, O) {
		par, bin := c.Int(2) == 1, c.Int(2) == 1
		return func(t *track, o O) {
			f := form[mktfhe.EvaluationKey[T]]{ret: o.encs[i].GenEvalKey}
			switch {
			case par && bin:
				f.ret = o.bencs[i].GenEvalKeyParallel
			case par:
				f.ret = o.encs[i].GenEvalKeyParallel
			case bin:
				f.ret = o.bencs[i].GenEvalKey
			}
			run(t, "GenEvalKey", "evk", destReturn, f, func(k mktfhe.EvaluationKey[T]) { e.evalKey("GenEvalKey", i, k) })
		}
	})
	heavy("GenDefaultKeySwitchKey", func(e E, c *Ctx, i int) func(*track, O) {
		par := c.Int(2) == 1
		return func(t *track, o O) {
			f := form[tfhe.LWEKeySwitchKey[T]]{ret: o.encs[i].GenDefaultKeySwitchKey}
			if par {
				f.ret = o.encs[i].GenDefaultKeySwitchKeyParallel
			}
			run(t, "GenDefaultKeySwitchKey", "ksk", destReturn, f, func(k tfhe.LWEKeySwitchKey[T]) { e.js[i].defaultKSK("GenDefaultKeySwitchKey", k) })
		}
	})
	add("GenRelinKey", func(e E, c *Ctx, i int) func(*track, O) {
		return func(t *track, o O) {
			f := form[mktfhe.FFTUniEncryption[T]]{ret: o.encs[i].GenRelinKey}
			run(t, "GenRelinKey", "relin", destReturn, f, func(k mktfhe.FFTUniEncryption[T]) {
				e.uniFFT("GenRelinKey", i, k, e.js[i].sk.GLWEKey.Value[0].Coeffs)
			})
		}
	})
	add("GenCRSPublicKey", func(e E, c *Ctx, i int) func(*track, O) {
		return func(t *track, o O) {
			f := form[tfhe.FFTGLevCiphertext[T]]{ret: o.encs[i].GenCRSPublicKey}
			run(t, "GenCRSPublicKey", "crs", destReturn, f, func(k tfhe.FFTGLevCiphertext[T]) { e.crsKey("GenCRSPublicKey", i, k) })
		}
	})
	pub("GenPublicKey", func(e E, c *Ctx, i int) func(*track, O) {
		bin := c.Int(2) == 1
		return func(t *track, o O) {
			f := form[tfhe.PublicKey[T]]{ret: o.encs[i].GenPublicKey}
			if bin {
				f.ret = o.bencs[i].GenPublicKey
			}
			run(t, "GenPublicKey", "pk", destReturn, f, func(k tfhe.PublicKey[T]) { e.js[i].public("GenPublicKey", k) })
		}
	})
	pub("public EncryptLWE", func(e E, c *Ctx, i int) func(*track, O) {
		m, d, form1 := c.Int(2*int(e.sub.MessageModulus())), drawDest(c), c.Int(3)
		pt := tfhe.LWEPlaintext[T]{Value: T(c.Rng().Uint64())}
		return func(t *track, o O) {
			enc := o.pubs[i]
			f := form[lwe]{func() lwe { return enc.EncryptLWE(m) }, func(x lwe) { enc.EncryptLWETo(x, m) }, nl(e)}
			want := e.se.encode(m)
			switch form1 {
			case 1:
				want = pt.Value
				f.ret, f.to = func() lwe { return enc.EncryptLWEPlaintext(pt) }, func(x lwe) { enc.EncryptLWEPlaintextTo(x, pt) }
			case 2:
				want = pt.Value
				f.ret, f.to = nil, func(x lwe) { x.Value[0] = pt.Value; enc.EncryptLWEBody(x) }
			}
			run(t, "public EncryptLWE", "lwe", d, f, func(x lwe) { e.lwe("public EncryptLWE", i, x, want, noisePublic) })
		}
	})
	pub("public EncryptGLWE", func(e E, c *Ctx, i int) func(*track, O) {
		m, pt, d, form1 := e.se.msgs[c.Int(len(e.se.msgs))], e.se.pts[c.Int(2)], drawDest(c), c.Int(3)
		return func(t *track, o O) {
			enc := o.pubs[i]
			f := form[glwe]{func() glwe { return enc.EncryptGLWE(m) }, func(x glwe) { enc.EncryptGLWETo(x, m) }, ng(e)}
			want := e.se.encodePoly(m)
			switch form1 {
			case 1:
				want = pt.Value.Coeffs
				f.ret, f.to = func() glwe { return enc.EncryptGLWEPlaintext(pt) }, func(x glwe) { enc.EncryptGLWEPlaintextTo(x, pt) }
			case 2:
				want = pt.Value.Coeffs
				f.ret, f.to = nil, func(x glwe) { copy(x.Value[0].Coeffs, pt.Value.Coeffs); enc.EncryptGLWEBody(x) }
			}
			run(t, "public EncryptGLWE", "glwe", d, f, func(x glwe) { e.glwe("public EncryptGLWE", i, x.Value, want, noisePublic, 0) })
		}
	})
	pub("public EncryptFFTGLWE", func(e E, c *Ctx, i int) func(*track, O) {
		m, pt, d, plain := e.se.msgs[c.Int(len(e.se.msgs))], e.se.pts[c.Int(2)], drawDest(c), c.Int(2) == 1
		return func(t *track, o O) {
			enc := o.pubs[i]
			f := form[fglwe]{func() fglwe { return enc.EncryptFFTGLWE(m) }, func(x fglwe) { enc.EncryptFFTGLWETo(x, m) }, nf(e)}
			want := e.se.encodePoly(m)
			if plain {
				want = pt.Value.Coeffs
				f.ret, f.to = func() fglwe { return enc.EncryptFFTGLWEPlaintext(pt) }, func(x fglwe) { enc.EncryptFFTGLWEPlaintextTo(x, pt) }
			}
			run(t, "public EncryptFFTGLWE", "fftglwe", d, f, func(x fglwe) { e.fglwe("public EncryptFFTGLWE", i, x, want, noisePublic) })
		}
	})
	pub("public EncryptLWEBool", func(e E, c *Ctx, i int) func(*track, O) {
		b, d, how, n, m := c.Int(2) == 1, drawDest(c), c.Int(3), 1+c.Int(4), c.Int(32)
		return func(t *track, o O) {
			enc := o.bpubs[i]
			if how == 1 {
				enc = o.bencs[i].PublicEncryptor()
			}
			if how == 2 {
				run(t, "public EncryptLWEBits", fmt.Sprint("bits", n), destReturn, form[[]lwe]{ret: func() []lwe { return enc.EncryptLWEBits(m, n) }},
					func(x []lwe) {
						for k := range x {
							e.lwe("public EncryptLWEBits", i, x[k], boolQ[T](m>>k&1 == 1), noisePublic)
						}
					})
				return
			}
			f := form[lwe]{func() lwe { return enc.EncryptLWEBool(b) }, func(x lwe) { enc.EncryptLWEBoolTo(x, b) }, nl(e)}
			run(t, "public EncryptLWEBool", "lwe", d, f, func(x lwe) { e.lwe("public EncryptLWEBool", i, x, boolQ[T](b), noisePublic) })
		}
	})
	return l
}

func drawMKJob[T tfhe.TorusInt](c *Ctx, e *mkEnv[T], jobs []mkJob[T], o *mkObjs[T], heavyOK bool) job[*mkObjs[T]] {
	g := jobs[c.Int(len(jobs))]
	if g.pub && o.pubs == nil || g.heavy && !(heavyOK && c.Bool(1, 2)) {
		g = jobs[c.Int(7)]
	}
	return job[*mkObjs[T]]{g.name, g.prep(e, c, c.Int(len(e.parties)))}
}

func mkHistory[T tfhe.TorusInt](c *Ctx) {
	par := genMKParams[T](c, paramOpts{maxN: 32}, 4).Compile()
	e := newMKEnv(c, par)
	jobs := mkJobs[T]()
	var t *track
	var in uint64
	c.Sim(SimOpts{Name: "history", Est: 100000, NumCPU: 1 + c.Int(4)}, func() {
		objs := []*mkObjs[T]{e.objs()}
		if c.Int(3) == 2 {
			objs = append(objs, objs[0].copy())
		}
		in = e.inputs()
		t = newTrack(c, "history")
		prev := ""
		for n := 3 + c.Int(14); n > 0; n-- {
			o := objs[c.Int(len(objs))]
			j := drawMKJob(c, e, jobs, o, n < 4)
			c.Cover(prev, j.name)
			c.Desc("%s", j.name)
			prev = j.name
			j.exec(t, o)
		}
	})
	c.Seq("judge", func() {
		judgeAll(t)
		for _, j := range e.js {
			j.stats()
		}
	})
	if e.inputs() != in {
		c.Failf("input-modified:encryptor", "an encryption modified a message, plaintext or key it was given")
	}
	c.nontrivial = true
}

func mkConcurrent[T tfhe.TorusInt](c *Ctx) {
	par := genMKParams[T](c, paramOpts{maxN: 32}, 3).Compile()
	e := newMKEnv(c, par)
	jobs := mkJobs[T]()
	nT := 2 + c.Int(3)
	ts := make([]*track, nT)
	progs := make([][]job[*mkObjs[T]], nT)
	var base *mkObjs[T]
	c.Seq("setup", func() {
		base = e.objs()
		t := newTrack(c, "setup")
		for i := c.Int(3); i > 0; i-- {
			drawMKJob(c, e, jobs, base, false).exec(t, base)
		}
		judgeAll(t)
	})
	same := c.Bool(1, 3)
	var pool []mkJob[T] // a focused run
	if c.Bool(1, 3) {
		for n := 1 + c.Int(2); len(pool) < n; {
			if g := jobs[c.Int(len(jobs))]; !g.pub || base.pubs != nil {
				pool = append(pool, g)
			}
		}
	}
	for i := range progs {
		ts[i] = newTrack(c, fmt.Sprintf("thread %d", i))
		for k := 1 + c.Int(4); k > 0; k-- {
			if pool != nil {
				g := pool[c.Int(len(pool))]
				progs[i] = append(progs[i], job[*mkObjs[T]]{g.name, g.prep(e, c, c.Int(len(e.parties)))})
				continue
			}
			progs[i] = append(progs[i], drawMKJob(c, e, jobs, base, k == 1 && i == 0))
		}
		if same && i > 0 {
			progs[i] = progs[0]
		}
		c.Desc("thread %d: %d jobs, first %s", i, len(progs[i]), progs[i][0].name)
	}
	in := e.inputs()
	hows := drawCopies(c, nT)
	c.Sim(SimOpts{Name: "concurrent", Est: 50000, NumCPU: 1 + c.Int(4)}, func() {
		concurrently(hows, base, (*mkObjs[T]).copy, func(i int, o *mkObjs[T]) {
			for _, j := range progs[i] {
				c.Cover(j.name, nT)
				j.exec(ts[i], o)
			}
		})
	})
	c.Seq("judge", func() {
		judgeAll(ts...)
		for _, j := range e.js {
			j.stats()
		}
		after := newTrack(c, "afterwards")
		drawMKJob(c, e, jobs, base, false).exec(after, base)
		judgeAll(after)
	})
	if e.inputs() != in {
		c.Failf("input-modified:encryptor", "concurrent use of copies modified a message, plaintext or key")
	}
	c.nontrivial = true
}

func init() {
	mks := []actorSpec{{"mk", []string{"mktfhe.Evaluator", "mktfhe.BinaryEvaluator", "mktfhe.Decryptor", "mktfhe.BinaryDecryptor"}}}
	register("H03", false, func(c *Ctx) {
		if c.Int(2) == 1 {
			runHistory(c, mks)
			return
		}
		either(c, mkHistory[uint32], mkHistory[uint64])
	})
	register("C03", false, func(c *Ctx) {
		if c.Int(2) == 1 {
			runConcurrent(c, mks)
			return
		}
		either(c, mkConcurrent[uint32], mkConcurrent[uint64])
	})
}
