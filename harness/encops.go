//go:build go1.22

package main

import (
	"fmt"

	"SIMMODULE/math/poly"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
)

// Randomised operations are driven as jobs. A job is prepared from recorded
// choices, executed on some object (possibly inside a simulated thread), and its
// result is judged by the oracle after all jobs are done, so that a result damaged
// after it was returned is also seen.

// track records the results of one thread.
type track struct {
	c      *Ctx
	r      *simrt.Rng
	name   string
	last   map[string]any
	checks []func()
	modes  map[string]int
}

func newTrack(c *Ctx, name string) *track {
	return &track{c: c, r: c.Rng(), name: name, last: map[string]any{}}
}

type product[C any] struct {
	v    C
	d    uint64
	dead bool
}

// form is an operation in its returning and writing forms.
type form[C any] struct {
	ret func() C
	to  func(C)
	mk  func() C
}

// destination choices
const (
	destReturn = iota
	destNew
	destDirty
	destReused
)

func drawDest(c *Ctx) int { return c.Int(4) }

// run executes the operation and schedules its check.
func run[C any](t *track, name, kind string, dest int, f form[C], check func(C)) C {
	var v C
	if f.ret == nil && dest == destReturn {
		dest = destNew
	}
	if f.to == nil {
		dest = destReturn
	}
	if dest == destReused {
		p, ok := t.last[kind].(*product[C])
		if !ok || p.dead {
			dest = destDirty
		} else {
			p.dead = true
			v = p.v
			t.c.Fault("destination holding an earlier result")
		}
	}
	switch dest {
	case destReturn:
		v = f.ret()
	case destNew:
		v = f.mk()
		f.to(v)
	case destDirty:
		v = f.mk()
		fillAny(&v, t.r.Uint64())
		t.c.Fault("destination with unrelated old contents")
		f.to(v)
	case destReused:
		f.to(v)
	}
	pr := &product[C]{v: v, d: digestOf(v)}
	t.last[kind] = pr
	t.c.Count("randomised operations judged")
	t.checks = append(t.checks, func() {
		if pr.dead {
			return
		}
		if digestOf(pr.v) != pr.d {
			t.c.Failf("result-changed:"+name, "%s: a result of %s changed after it was returned", t.name, name)
		}
		t.c.Note(pr.d)
		check(pr.v)
	})
	return v
}

// judgeAll checks everything the threads produced.
func judgeAll(ts ...*track) {
	for _, t := range ts {
		for _, f := range t.checks {
			f()
		}
	}
}

// encObjs are the objects single-key jobs work on.
type encObjs[T tfhe.TorusInt] struct {
	enc  *tfhe.Encryptor[T]
	benc *tfhe.BinaryEncryptor[T]
	pub  *tfhe.PublicEncryptor[T]
	bpub *tfhe.BinaryPublicEncryptor[T]
}

func (o *encObjs[T]) copy() *encObjs[T] {
	n := &encObjs[T]{enc: o.enc.SafeCopy(), benc: o.benc.SafeCopy()}
	if o.pub != nil {
		n.pub, n.bpub = o.pub.SafeCopy(), o.bpub.SafeCopy()
	}
	return n
}

// encEnv is a single-key setting with its oracle.
type encEnv[T tfhe.TorusInt] struct {
	c     *Ctx
	par   tfhe.Parameters[T]
	sk    tfhe.SecretKey[T] // given to the library
	j     *judge[T]
	pk    tfhe.PublicKey[T]
	gads  []tfhe.GadgetParameters[T]
	msgs  [][]int
	pts   []tfhe.GLWEPlaintext[T]
	small []poly.Poly[T]
	full  []poly.Poly[T]
	skIn  []tfhe.LWESecretKey[T]
	skInG []tfhe.GLWESecretKey[T]
}

func gadgets[T tfhe.TorusInt]() []tfhe.GadgetParameters[T] {
	return []tfhe.GadgetParameters[T]{gad[T](4, 2).Compile(), gad[T](6, 1).Compile(), gad[T](8, 3).Compile(), gad[T](3, 4).Compile()}
}

// newEncEnv builds the setting; library randomness is used for the public key only.
func newEncEnv[T tfhe.TorusInt](c *Ctx, par tfhe.Parameters[T]) *encEnv[T] {
	e := &encEnv[T]{c: c, par: par, gads: gadgets[T]()}
	e.sk = makeSecret(par, c.DataSeed())
	e.j = newJudge(c, par, e.sk)
	r := c.Rng()
	N, p := par.PolyRank(), int(par.MessageModulus())
	for _, l := range []int{N, N / 2, 0, N + 3, 1} {
		m := make([]int, l)
		for i := range m {
			m[i] = r.Intn(p)
			if r.Intn(16) == 0 {
				m[i] += p * r.Intn(5)
			}
		}
		e.msgs = append(e.msgs, m)
	}
	for i := 0; i < 2; i++ {
		pt := tfhe.GLWEPlaintext[T]{Value: poly.NewPoly[T](N)}
		fillAny(&pt, r.Uint64())
		e.pts = append(e.pts, pt)
		s, f := poly.NewPoly[T](N), poly.NewPoly[T](N)
		fillAny(&f, r.Uint64())
		for k := range s.Coeffs {
			s.Coeffs[k] = T(r.Intn(32)) - 16
		}
		e.small, e.full = append(e.small, s), append(e.full, f)
	}
	for _, d := range []int{3, par.DefaultLWEDimension(), N + 1} {
		k := tfhe.NewLWESecretKeyCustom[T](d)
		for i := range k.Value {
			k.Value[i] = T(r.Intn(2))
		}
		e.skIn = append(e.skIn, k)
	}
	for _, d := range []int{1, par.GLWERank() + 1} {
		k := tfhe.NewGLWESecretKeyCustom[T](d, N)
		for i := range k.Value {
			for t := range k.Value[i].Coeffs {
				k.Value[i].Coeffs[t] = T(r.Intn(2))
			}
		}
		e.skInG = append(e.skInG, k)
	}
	return e
}

// inputs digests everything shared that operations read.
func (e *encEnv[T]) inputs() uint64 {
	return digestOf([]any{e.sk, e.pk, e.msgs, e.pts, e.small, e.full, e.skIn, e.skInG})
}

func (e *encEnv[T]) objs() *encObjs[T] {
	o := &encObjs[T]{enc: tfhe.NewEncryptorWithKey(e.par, e.sk), benc: tfhe.NewBinaryEncryptorWithKey(e.par, e.sk)}
	if e.par.IsPublicKeyEncryptable() {
		if len(e.pk.GLWEKey.Value) == 0 {
			e.pk = o.enc.GenPublicKey()
		}
		o.pub = tfhe.NewPublicEncryptor(e.par, e.pk)
		o.bpub = tfhe.NewBinaryPublicEncryptor(e.par, e.pk)
	}
	return o
}

// encode is the expected scaled message.
func (e *encEnv[T]) encode(m int) T { return T(m) % e.par.MessageModulus() * e.par.Scale() }

func (e *encEnv[T]) encodePoly(ms []int) []T {
	o := make([]T, e.par.PolyRank())
	for i := range o {
		if i < len(ms) {
			o[i] = e.encode(ms[i])
		}
	}
	return o
}

func (e *encEnv[T]) modPoly(ms []int) []T {
	o := make([]T, e.par.PolyRank())
	for i := range o {
		if i < len(ms) {
			o[i] = T(ms[i]) % e.par.MessageModulus()
		}
	}
	return o
}

func boolQ[T tfhe.TorusInt](b bool) T {
	if b {
		return T(1) << (sizeT[T]() - 3)
	}
	return T(7) << (sizeT[T]() - 3)
}

// intsEqual compares decrypted messages with the expected ones modulo p.
func (e *encEnv[T]) expectInts(name string, got []int, want []T) {
	p := e.par.MessageModulus()
	for i := range got {
		if i < len(want) && T(got[i]) != want[i]%p {
			e.c.Failf("wrong-decryption:"+name, "%s: message %d is %d, expected %d", name, i, got[i], want[i]%p)
		}
	}
}

// job is a prepared randomised operation.
type job[O any] struct {
	name string
	exec func(t *track, o O)
}

// genJob names a job constructor.
type genJob[T tfhe.TorusInt] struct {
	name  string
	heavy bool
	pub   bool
	prep  func(e *encEnv[T], c *Ctx) func(t *track, o *encObjs[T])
}

func encJobs[T tfhe.TorusInt]() []genJob[T] {
	type E = *encEnv[T]
	type O = *encObjs[T]
	var l []genJob[T]
	add := func(name string, prep func(e E, c *Ctx) func(t *track, o O)) {
		l = append(l, genJob[T]{name: name, prep: prep})
	}
	heavy := func(name string, prep func(e E, c *Ctx) func(t *track, o O)) {
		l = append(l, genJob[T]{name: name, heavy: true, prep: prep})
	}
	pub := func(name string, prep func(e E, c *Ctx) func(t *track, o O)) {
		l = append(l, genJob[T]{name: name, pub: true, prep: prep})
	}
	newLWE := func(e E) func() tfhe.LWECiphertext[T] {
		return func() tfhe.LWECiphertext[T] { return tfhe.NewLWECiphertext(e.par) }
	}
	newGLWE := func(e E) func() tfhe.GLWECiphertext[T] {
		return func() tfhe.GLWECiphertext[T] { return tfhe.NewGLWECiphertext(e.par) }
	}
	newF := func(e E) func() tfhe.FFTGLWECiphertext[T] {
		return func() tfhe.FFTGLWECiphertext[T] { return tfhe.NewFFTGLWECiphertext(e.par) }
	}
	torus := func(c *Ctx) T { return T(c.Rng().Uint64()) }

	// ---- secret-key encryption
	add("EncryptLWE", func(e E, c *Ctx) func(*track, O) {
		m, d, dec := c.Int(3*int(e.par.MessageModulus())), drawDest(c), c.Int(2)
		return func(t *track, o O) {
			ct := run(t, "EncryptLWE", "lwe", d, form[tfhe.LWECiphertext[T]]{
				func() tfhe.LWECiphertext[T] { return o.enc.EncryptLWE(m) },
				func(x tfhe.LWECiphertext[T]) { o.enc.EncryptLWETo(x, m) }, newLWE(e)},
				func(x tfhe.LWECiphertext[T]) { e.j.lwe("EncryptLWE", x, e.encode(m), noiseFresh) })
			if dec == 1 {
				e.expectInts("DecryptLWE", []int{o.enc.DecryptLWE(ct)}, []T{T(m)})
			}
		}
	})
	add("EncryptLWEPlaintext", func(e E, c *Ctx) func(*track, O) {
		pt, d := tfhe.LWEPlaintext[T]{Value: torus(c)}, drawDest(c)
		return func(t *track, o O) {
			ct := run(t, "EncryptLWEPlaintext", "lwe", d, form[tfhe.LWECiphertext[T]]{
				func() tfhe.LWECiphertext[T] { return o.enc.EncryptLWEPlaintext(pt) },
				func(x tfhe.LWECiphertext[T]) { o.enc.EncryptLWEPlaintextTo(x, pt) }, newLWE(e)},
				func(x tfhe.LWECiphertext[T]) { e.j.lwe("EncryptLWEPlaintext", x, pt.Value, noiseFresh) })
			ph := o.enc.DecryptLWEPhase(ct)
			if want := phaseLWE(ct.Value, e.j.defKey()); ph.Value != want {
				c.Failf("wrong-decryption:DecryptLWEPhase", "DecryptLWEPhase returns %d instead of %d", ph.Value, want)
			}
		}
	})
	add("EncryptLWEBody", func(e E, c *Ctx) func(*track, O) {
		v := torus(c)
		return func(t *track, o O) {
			run(t, "EncryptLWEBody", "lwe", drawDestBody(t), form[tfhe.LWECiphertext[T]]{nil,
				func(x tfhe.LWECiphertext[T]) { x.Value[0] = v; o.enc.EncryptLWEBody(x) }, newLWE(e)},
				func(x tfhe.LWECiphertext[T]) { e.j.lwe("EncryptLWEBody", x, v, noiseFresh) })
		}
	})
	add("EncryptLev", func(e E, c *Ctx) func(*track, O) {
		m, g, d, sc := c.Int(2*int(e.par.MessageModulus())), e.gads[c.Int(len(e.gads))], drawDest(c), c.Int(2)
		v := torus(c)
		f := form[tfhe.LevCiphertext[T]]{mk: func() tfhe.LevCiphertext[T] { return tfhe.NewLevCiphertext(e.par, g) }}
		return func(t *track, o O) {
			f := f
			want := T(m) % e.par.MessageModulus()
			if sc == 1 {
				want = v
				f.ret = func() tfhe.LevCiphertext[T] { return o.enc.EncryptLevScalar(v, g) }
				f.to = func(x tfhe.LevCiphertext[T]) { o.enc.EncryptLevScalarTo(x, v) }
			} else {
				f.ret = func() tfhe.LevCiphertext[T] { return o.enc.EncryptLev(m, g) }
				f.to = func(x tfhe.LevCiphertext[T]) { o.enc.EncryptLevTo(x, m) }
			}
			ct := run(t, "EncryptLev", fmt.Sprint("lev", g), d, f, func(x tfhe.LevCiphertext[T]) { e.j.lev("EncryptLev", x, want) })
			if g.LogBase() >= 4 {
				if got := o.enc.DecryptLevScalar(ct); got != want%g.Base() {
					c.Failf("wrong-decryption:DecryptLevScalar", "DecryptLevScalar returns %d instead of %d", got, want%g.Base())
				}
				if sc == 0 {
					e.expectInts("DecryptLev", []int{o.enc.DecryptLev(ct)}, []T{want})
				}
			}
		}
	})
	add("EncryptGSW", func(e E, c *Ctx) func(*track, O) {
		m, g, d, sc := c.Int(2*int(e.par.MessageModulus())), e.gads[c.Int(2)], drawDest(c), c.Int(2)
		v := torus(c)
		f := form[tfhe.GSWCiphertext[T]]{mk: func() tfhe.GSWCiphertext[T] { return tfhe.NewGSWCiphertext(e.par, g) }}
		return func(t *track, o O) {
			f := f
			want := T(m) % e.par.MessageModulus()
			if sc == 1 {
				want = v
				f.ret = func() tfhe.GSWCiphertext[T] { return o.enc.EncryptGSWScalar(v, g) }
				f.to = func(x tfhe.GSWCiphertext[T]) { o.enc.EncryptGSWScalarTo(x, v) }
			} else {
				f.ret = func() tfhe.GSWCiphertext[T] { return o.enc.EncryptGSW(m, g) }
				f.to = func(x tfhe.GSWCiphertext[T]) { o.enc.EncryptGSWTo(x, m) }
			}
			ct := run(t, "EncryptGSW", fmt.Sprint("gsw", g), d, f, func(x tfhe.GSWCiphertext[T]) { e.j.gsw("EncryptGSW", x, want) })
			if sc == 0 {
				e.expectInts("DecryptGSW", []int{o.enc.DecryptGSW(ct)}, []T{want})
			}
		}
	})
	add("EncryptGLWE", func(e E, c *Ctx) func(*track, O) {
		m, d, dec := e.msgs[c.Int(len(e.msgs))], drawDest(c), c.Int(3)
		return func(t *track, o O) {
			ct := run(t, "EncryptGLWE", "glwe", d, form[tfhe.GLWECiphertext[T]]{
				func() tfhe.GLWECiphertext[T] { return o.enc.EncryptGLWE(m) },
				func(x tfhe.GLWECiphertext[T]) { o.enc.EncryptGLWETo(x, m) }, newGLWE(e)},
				func(x tfhe.GLWECiphertext[T]) { e.j.glwe("EncryptGLWE", x, e.encodePoly(m), noiseFresh) })
			e.decryptGLWE(o, ct, e.modPoly(m), dec)
		}
	})
	add("EncryptGLWEPlaintext", func(e E, c *Ctx) func(*track, O) {
		pt, d := e.pts[c.Int(len(e.pts))], drawDest(c)
		return func(t *track, o O) {
			ct := run(t, "EncryptGLWEPlaintext", "glwe", d, form[tfhe.GLWECiphertext[T]]{
				func() tfhe.GLWECiphertext[T] { return o.enc.EncryptGLWEPlaintext(pt) },
				func(x tfhe.GLWECiphertext[T]) { o.enc.EncryptGLWEPlaintextTo(x, pt) }, newGLWE(e)},
				func(x tfhe.GLWECiphertext[T]) {
					e.j.glwe("EncryptGLWEPlaintext", x, pt.Value.Coeffs, noiseFresh)
				})
			ph := o.enc.DecryptGLWEPhase(ct)
			e.j.near("DecryptGLWEPhase", ph.Value.Coeffs, phaseGLWE(ct.Value, e.j.sk.GLWEKey.Value), 4)
		}
	})
	add("EncryptGLWEBody", func(e E, c *Ctx) func(*track, O) {
		pt := e.pts[c.Int(len(e.pts))]
		return func(t *track, o O) {
			run(t, "EncryptGLWEBody", "glwe", drawDestBody(t), form[tfhe.GLWECiphertext[T]]{nil,
				func(x tfhe.GLWECiphertext[T]) { copy(x.Value[0].Coeffs, pt.Value.Coeffs); o.enc.EncryptGLWEBody(x) }, newGLWE(e)},
				func(x tfhe.GLWECiphertext[T]) { e.j.glwe("EncryptGLWEBody", x, pt.Value.Coeffs, noiseFresh) })
		}
	})
	add("EncryptFFTGLWE", func(e E, c *Ctx) func(*track, O) {
		m, d, dec := e.msgs[c.Int(len(e.msgs))], drawDest(c), c.Int(3)
		return func(t *track, o O) {
			ct := run(t, "EncryptFFTGLWE", "fftglwe", d, form[tfhe.FFTGLWECiphertext[T]]{
				func() tfhe.FFTGLWECiphertext[T] { return o.enc.EncryptFFTGLWE(m) },
				func(x tfhe.FFTGLWECiphertext[T]) { o.enc.EncryptFFTGLWETo(x, m) }, newF(e)},
				func(x tfhe.FFTGLWECiphertext[T]) { e.j.fglwe("EncryptFFTGLWE", x, e.encodePoly(m), noiseKey) })
			switch dec {
			case 1:
				e.expectInts("DecryptFFTGLWE", o.enc.DecryptFFTGLWE(ct), e.modPoly(m))
			case 2:
				out := make([]int, e.par.PolyRank())
				fillAny(&out, 3)
				o.enc.DecryptFFTGLWETo(out, ct)
				e.expectInts("DecryptFFTGLWETo", out, e.modPoly(m))
			}
		}
	})
	add("EncryptFFTGLWEPlaintext", func(e E, c *Ctx) func(*track, O) {
		pt, d := e.pts[c.Int(len(e.pts))], drawDest(c)
		return func(t *track, o O) {
			run(t, "EncryptFFTGLWEPlaintext", "fftglwe", d, form[tfhe.FFTGLWECiphertext[T]]{
				func() tfhe.FFTGLWECiphertext[T] { return o.enc.EncryptFFTGLWEPlaintext(pt) },
				func(x tfhe.FFTGLWECiphertext[T]) { o.enc.EncryptFFTGLWEPlaintextTo(x, pt) }, newF(e)},
				func(x tfhe.FFTGLWECiphertext[T]) {
					e.j.fglwe("EncryptFFTGLWEPlaintext", x, pt.Value.Coeffs, noiseKey)
				})
		}
	})
	add("EncryptGLev", func(e E, c *Ctx) func(*track, O) {
		m, p, g, d, pol := e.msgs[c.Int(len(e.msgs))], e.full[c.Int(2)], e.gads[c.Int(len(e.gads))], drawDest(c), c.Int(2)
		return func(t *track, o O) {
			f := form[tfhe.GLevCiphertext[T]]{
				func() tfhe.GLevCiphertext[T] { return o.enc.EncryptGLev(m, g) },
				func(x tfhe.GLevCiphertext[T]) { o.enc.EncryptGLevTo(x, m) },
				func() tfhe.GLevCiphertext[T] { return tfhe.NewGLevCiphertext(e.par, g) }}
			want := e.modPoly(m)
			if pol == 1 {
				want = p.Coeffs
				f.ret = func() tfhe.GLevCiphertext[T] { return o.enc.EncryptGLevPoly(p, g) }
				f.to = func(x tfhe.GLevCiphertext[T]) { o.enc.EncryptGLevPolyTo(x, p) }
			}
			ct := run(t, "EncryptGLev", fmt.Sprint("glev", g), d, f, func(x tfhe.GLevCiphertext[T]) { e.j.glev("EncryptGLev", x, want) })
			if pol == 0 && g.LogBase() >= 4 {
				e.expectInts("DecryptGLev", o.enc.DecryptGLev(ct), want)
			}
		}
	})
	add("EncryptFFTGLev", func(e E, c *Ctx) func(*track, O) {
		m, p, g, d, pol := e.msgs[c.Int(len(e.msgs))], e.full[c.Int(2)], e.gads[c.Int(len(e.gads))], drawDest(c), c.Int(2)
		return func(t *track, o O) {
			f := form[tfhe.FFTGLevCiphertext[T]]{
				func() tfhe.FFTGLevCiphertext[T] { return o.enc.EncryptFFTGLev(m, g) },
				func(x tfhe.FFTGLevCiphertext[T]) { o.enc.EncryptFFTGLevTo(x, m) },
				func() tfhe.FFTGLevCiphertext[T] { return tfhe.NewFFTGLevCiphertext(e.par, g) }}
			want := e.modPoly(m)
			if pol == 1 {
				want = p.Coeffs
				f.ret = func() tfhe.FFTGLevCiphertext[T] { return o.enc.EncryptFFTGLevPoly(p, g) }
				f.to = func(x tfhe.FFTGLevCiphertext[T]) { o.enc.EncryptFFTGLevPolyTo(x, p) }
			}
			ct := run(t, "EncryptFFTGLev", fmt.Sprint("fftglev", g), d, f, func(x tfhe.FFTGLevCiphertext[T]) { e.j.fglev("EncryptFFTGLev", x, want) })
			if pol == 0 && g.LogBase() >= 4 {
				e.expectInts("DecryptFFTGLev", o.enc.DecryptFFTGLev(ct), want)
			}
		}
	})
	add("EncryptGGSW", func(e E, c *Ctx) func(*track, O) {
		m, p, g, d, pol := e.msgs[c.Int(len(e.msgs))], e.small[c.Int(2)], e.gads[c.Int(len(e.gads))], drawDest(c), c.Int(2)
		return func(t *track, o O) {
			f := form[tfhe.GGSWCiphertext[T]]{
				func() tfhe.GGSWCiphertext[T] { return o.enc.EncryptGGSW(m, g) },
				func(x tfhe.GGSWCiphertext[T]) { o.enc.EncryptGGSWTo(x, m) },
				func() tfhe.GGSWCiphertext[T] { return tfhe.NewGGSWCiphertext(e.par, g) }}
			want := e.modPoly(m)
			if pol == 1 {
				want = p.Coeffs
				f.ret = func() tfhe.GGSWCiphertext[T] { return o.enc.EncryptGGSWPoly(p, g) }
				f.to = func(x tfhe.GGSWCiphertext[T]) { o.enc.EncryptGGSWPolyTo(x, p) }
			}
			ct := run(t, "EncryptGGSW", fmt.Sprint("ggsw", g), d, f, func(x tfhe.GGSWCiphertext[T]) { e.j.ggsw("EncryptGGSW", x, want) })
			if pol == 0 && g.LogBase() >= 4 {
				e.expectInts("DecryptGGSW", o.enc.DecryptGGSW(ct), want)
			}
		}
	})
	add("EncryptFFTGGSW", func(e E, c *Ctx) func(*track, O) {
		m, p, g, d, pol := e.msgs[c.Int(len(e.msgs))], e.small[c.Int(2)], e.gads[c.Int(len(e.gads))], drawDest(c), c.Int(2)
		return func(t *track, o O) {
			f := form[tfhe.FFTGGSWCiphertext[T]]{
				func() tfhe.FFTGGSWCiphertext[T] { return o.enc.EncryptFFTGGSW(m, g) },
				func(x tfhe.FFTGGSWCiphertext[T]) { o.enc.EncryptFFTGGSWTo(x, m) },
				func() tfhe.FFTGGSWCiphertext[T] { return tfhe.NewFFTGGSWCiphertext(e.par, g) }}
			want := e.modPoly(m)
			if pol == 1 {
				want = p.Coeffs
				f.ret = func() tfhe.FFTGGSWCiphertext[T] { return o.enc.EncryptFFTGGSWPoly(p, g) }
				f.to = func(x tfhe.FFTGGSWCiphertext[T]) { o.enc.EncryptFFTGGSWPolyTo(x, p) }
			}
			ct := run(t, "EncryptFFTGGSW", fmt.Sprint("fftggsw", g), d, f, func(x tfhe.FFTGGSWCiphertext[T]) { e.j.fggsw("EncryptFFTGGSW", x, want) })
			if pol == 0 && g.LogBase() >= 4 {
				e.expectInts("DecryptFFTGGSW", o.enc.DecryptFFTGGSW(ct), want)
			}
		}
	})
	// ---- binary encryption
	add("EncryptLWEBool", func(e E, c *Ctx) func(*track, O) {
		b, d := c.Int(2) == 1, drawDest(c)
		return func(t *track, o O) {
			ct := run(t, "EncryptLWEBool", "lwe", d, form[tfhe.LWECiphertext[T]]{
				func() tfhe.LWECiphertext[T] { return o.benc.EncryptLWEBool(b) },
				func(x tfhe.LWECiphertext[T]) { o.benc.EncryptLWEBoolTo(x, b) }, newLWE(e)},
				func(x tfhe.LWECiphertext[T]) { e.j.lwe("EncryptLWEBool", x, boolQ[T](b), noiseFresh) })
			if o.benc.DecryptLWEBool(ct) != b {
				c.Failf("wrong-decryption:DecryptLWEBool", "DecryptLWEBool returns %v", !b)
			}
		}
	})
	add("EncryptLWEBits", func(e E, c *Ctx) func(*track, O) {
		n, d := 1+c.Int(6), drawDest(c)
		m := c.Int(1 << 7)
		return func(t *track, o O) {
			ct := run(t, "EncryptLWEBits", fmt.Sprint("bits", n), d, form[[]tfhe.LWECiphertext[T]]{
				func() []tfhe.LWECiphertext[T] { return o.benc.EncryptLWEBits(m, n) },
				func(x []tfhe.LWECiphertext[T]) { o.benc.EncryptLWEBitsTo(x, m) },
				func() []tfhe.LWECiphertext[T] {
					x := make([]tfhe.LWECiphertext[T], n)
					for i := range x {
						x[i] = tfhe.NewLWECiphertext(e.par)
					}
					return x
				}},
				func(x []tfhe.LWECiphertext[T]) {
					for i := range x {
						e.j.lwe("EncryptLWEBits", x[i], boolQ[T](m>>i&1 == 1), noiseFresh)
					}
				})
			if got := o.benc.DecryptLWEBits(ct); got != m&(1<<n-1) {
				c.Failf("wrong-decryption:DecryptLWEBits", "DecryptLWEBits returns %d instead of %d", got, m&(1<<n-1))
			}
		}
	})
	// ---- keys
	heavy("GenSecretKey", func(e E, c *Ctx) func(*track, O) {
		return func(t *track, o O) {
			run(t, "GenSecretKey", "sk", destReturn, form[tfhe.SecretKey[T]]{ret: o.enc.GenSecretKey}, func(k tfhe.SecretKey[T]) {
				e.j.secret("GenSecretKey", k)
			})
		}
	})
	heavy("GenBlindRotateKey", func(e E, c *Ctx) func(*track, O) {
		par := c.Int(2) == 1
		return func(t *track, o O) {
			f := form[tfhe.BlindRotateKey[T]]{ret: o.enc.GenBlindRotateKey}
			if par {
				f.ret = o.enc.GenBlindRotateKeyParallel
			}
			run(t, "GenBlindRotateKey", "brk", destReturn, f, func(k tfhe.BlindRotateKey[T]) { e.j.blindRotate("GenBlindRotateKey", k) })
		}
	})
	heavy("GenDefaultKeySwitchKey", func(e E, c *Ctx) func(*track, O) {
		par := c.Int(2) == 1
		return func(t *track, o O) {
			f := form[tfhe.LWEKeySwitchKey[T]]{ret: o.enc.GenDefaultKeySwitchKey}
			if par {
				f.ret = o.enc.GenDefaultKeySwitchKeyParallel
			}
			run(t, "GenDefaultKeySwitchKey", "ksk", destReturn, f, func(k tfhe.LWEKeySwitchKey[T]) { e.j.defaultKSK("GenDefaultKeySwitchKey", k) })
		}
	})
	heavy("GenEvalKey", func(e E, c *Ctx) func(*track, O) {
		par, bin := c.Int(2) == 1, c.Int(2) == 1
		return func(t *track, o O) {
			f := form[tfhe.EvaluationKey[T]]{ret: o.enc.GenEvalKey}
			switch {
			case par && bin:
				f.ret = o.benc.GenEvalKeyParallel
			case par:
				f.ret = o.enc.GenEvalKeyParallel
			case bin:
				f.ret = o.benc.GenEvalKey
			}
			run(t, "GenEvalKey", "evk", destReturn, f, func(k tfhe.EvaluationKey[T]) { e.j.evalKey("GenEvalKey", k) })
		}
	})
	add("GenLWEKeySwitchKey", func(e E, c *Ctx) func(*track, O) {
		sk, g := e.skIn[c.Int(len(e.skIn))], e.gads[c.Int(len(e.gads))]
		return func(t *track, o O) {
			f := form[tfhe.LWEKeySwitchKey[T]]{ret: func() tfhe.LWEKeySwitchKey[T] { return o.enc.GenLWEKeySwitchKey(sk, g) }}
			run(t, "GenLWEKeySwitchKey", "lksk", destReturn, f, func(k tfhe.LWEKeySwitchKey[T]) {
				e.j.lweKSK("GenLWEKeySwitchKey", k, sk.Value, e.j.defKey(), g, e.j.defSigma())
			})
		}
	})
	add("GenGLWEKeySwitchKey", func(e E, c *Ctx) func(*track, O) {
		sk, g := e.skInG[c.Int(len(e.skInG))], e.gads[c.Int(len(e.gads))]
		return func(t *track, o O) {
			f := form[tfhe.GLWEKeySwitchKey[T]]{ret: func() tfhe.GLWEKeySwitchKey[T] { return o.enc.GenGLWEKeySwitchKey(sk, g) }}
			run(t, "GenGLWEKeySwitchKey", "gksk", destReturn, f, func(k tfhe.GLWEKeySwitchKey[T]) {
				var src [][]T
				for _, p := range sk.Value {
					src = append(src, p.Coeffs)
				}
				e.j.glweKSK("GenGLWEKeySwitchKey", k, src, g)
			})
		}
	})
	// ---- public key
	pub("GenPublicKey", func(e E, c *Ctx) func(*track, O) {
		bin := c.Int(2) == 1
		return func(t *track, o O) {
			f := form[tfhe.PublicKey[T]]{ret: o.enc.GenPublicKey}
			if bin {
				f.ret = o.benc.GenPublicKey
			}
			run(t, "GenPublicKey", "pk", destReturn, f, func(k tfhe.PublicKey[T]) { e.j.public("GenPublicKey", k) })
		}
	})
	pub("PublicEncryptor", func(e E, c *Ctx) func(*track, O) {
		b, m := c.Int(2) == 1, e.msgs[c.Int(len(e.msgs))]
		return func(t *track, o O) {
			bp := o.benc.PublicEncryptor()
			run(t, "PublicEncryptor", "lwe", destReturn, form[tfhe.LWECiphertext[T]]{ret: func() tfhe.LWECiphertext[T] { return bp.EncryptLWEBool(b) }},
				func(x tfhe.LWECiphertext[T]) { e.j.lwe("PublicEncryptor", x, boolQ[T](b), noisePublic) })
			_ = m
		}
	})
	pub("public EncryptLWE", func(e E, c *Ctx) func(*track, O) {
		m, d := c.Int(2*int(e.par.MessageModulus())), drawDest(c)
		return func(t *track, o O) {
			ct := run(t, "public EncryptLWE", "lwe", d, form[tfhe.LWECiphertext[T]]{
				func() tfhe.LWECiphertext[T] { return o.pub.EncryptLWE(m) },
				func(x tfhe.LWECiphertext[T]) { o.pub.EncryptLWETo(x, m) }, newLWE(e)},
				func(x tfhe.LWECiphertext[T]) { e.j.lwe("public EncryptLWE", x, e.encode(m), noisePublic) })
			e.expectInts("DecryptLWE", []int{o.enc.DecryptLWE(ct)}, []T{T(m)})
		}
	})
	pub("public EncryptLWEPlaintext", func(e E, c *Ctx) func(*track, O) {
		pt, d, body := tfhe.LWEPlaintext[T]{Value: torus(c)}, drawDest(c), c.Int(2) == 1
		return func(t *track, o O) {
			f := form[tfhe.LWECiphertext[T]]{
				func() tfhe.LWECiphertext[T] { return o.pub.EncryptLWEPlaintext(pt) },
				func(x tfhe.LWECiphertext[T]) { o.pub.EncryptLWEPlaintextTo(x, pt) }, newLWE(e)}
			if body {
				f.ret = nil
				f.to = func(x tfhe.LWECiphertext[T]) { x.Value[0] = pt.Value; o.pub.EncryptLWEBody(x) }
			}
			run(t, "public EncryptLWEPlaintext", "lwe", d, f,
				func(x tfhe.LWECiphertext[T]) { e.j.lwe("public EncryptLWEPlaintext", x, pt.Value, noisePublic) })
		}
	})
	pub("public EncryptGLWE", func(e E, c *Ctx) func(*track, O) {
		m, d, dec := e.msgs[c.Int(len(e.msgs))], drawDest(c), c.Int(3)
		return func(t *track, o O) {
			ct := run(t, "public EncryptGLWE", "glwe", d, form[tfhe.GLWECiphertext[T]]{
				func() tfhe.GLWECiphertext[T] { return o.pub.EncryptGLWE(m) },
				func(x tfhe.GLWECiphertext[T]) { o.pub.EncryptGLWETo(x, m) }, newGLWE(e)},
				func(x tfhe.GLWECiphertext[T]) {
					e.j.glwe("public EncryptGLWE", x, e.encodePoly(m), noisePublic)
				})
			e.decryptGLWE(o, ct, e.modPoly(m), dec)
		}
	})
	pub("public EncryptGLWEPlaintext", func(e E, c *Ctx) func(*track, O) {
		pt, d, body := e.pts[c.Int(len(e.pts))], drawDest(c), c.Int(2) == 1
		return func(t *track, o O) {
			f := form[tfhe.GLWECiphertext[T]]{
				func() tfhe.GLWECiphertext[T] { return o.pub.EncryptGLWEPlaintext(pt) },
				func(x tfhe.GLWECiphertext[T]) { o.pub.EncryptGLWEPlaintextTo(x, pt) }, newGLWE(e)}
			if body {
				f.ret = nil
				f.to = func(x tfhe.GLWECiphertext[T]) {
					copy(x.Value[0].Coeffs, pt.Value.Coeffs)
					o.pub.EncryptGLWEBody(x)
				}
			}
			run(t, "public EncryptGLWEPlaintext", "glwe", d, f, func(x tfhe.GLWECiphertext[T]) {
				e.j.glwe("public EncryptGLWEPlaintext", x, pt.Value.Coeffs, noisePublic)
			})
		}
	})
	pub("public EncryptFFTGLWE", func(e E, c *Ctx) func(*track, O) {
		m, pt, d, plain := e.msgs[c.Int(len(e.msgs))], e.pts[c.Int(len(e.pts))], drawDest(c), c.Int(2) == 1
		return func(t *track, o O) {
			want := e.encodePoly(m)
			f := form[tfhe.FFTGLWECiphertext[T]]{
				func() tfhe.FFTGLWECiphertext[T] { return o.pub.EncryptFFTGLWE(m) },
				func(x tfhe.FFTGLWECiphertext[T]) { o.pub.EncryptFFTGLWETo(x, m) }, newF(e)}
			if plain {
				want = pt.Value.Coeffs
				f.ret = func() tfhe.FFTGLWECiphertext[T] { return o.pub.EncryptFFTGLWEPlaintext(pt) }
				f.to = func(x tfhe.FFTGLWECiphertext[T]) { o.pub.EncryptFFTGLWEPlaintextTo(x, pt) }
			}
			run(t, "public EncryptFFTGLWE", "fftglwe", d, f, func(x tfhe.FFTGLWECiphertext[T]) {
				e.j.fglwe("public EncryptFFTGLWE", x, want, noisePublic)
			})
		}
	})
	pub("public EncryptLWEBool", func(e E, c *Ctx) func(*track, O) {
		b, d, n := c.Int(2) == 1, drawDest(c), 1+c.Int(4)
		bits, m := c.Int(3) == 2, c.Int(16)
		return func(t *track, o O) {
			if bits {
				run(t, "public EncryptLWEBits", fmt.Sprint("bits", n), destReturn, form[[]tfhe.LWECiphertext[T]]{
					ret: func() []tfhe.LWECiphertext[T] { return o.bpub.EncryptLWEBits(m, n) }},
					func(x []tfhe.LWECiphertext[T]) {
						for i := range x {
							e.j.lwe("public EncryptLWEBits", x[i], boolQ[T](m>>i&1 == 1), noisePublic)
						}
					})
				return
			}
			run(t, "public EncryptLWEBool", "lwe", d, form[tfhe.LWECiphertext[T]]{
				func() tfhe.LWECiphertext[T] { return o.bpub.EncryptLWEBool(b) },
				func(x tfhe.LWECiphertext[T]) { o.bpub.EncryptLWEBoolTo(x, b) }, newLWE(e)},
				func(x tfhe.LWECiphertext[T]) { e.j.lwe("public EncryptLWEBool", x, boolQ[T](b), noisePublic) })
		}
	})
	return l
}

func drawDestBody(t *track) int { return 1 + t.r.Intn(3) }

func (e *encEnv[T]) decryptGLWE(o *encObjs[T], ct tfhe.GLWECiphertext[T], want []T, dec int) {
	switch dec {
	case 1:
		e.expectInts("DecryptGLWE", o.enc.DecryptGLWE(ct), want)
	case 2:
		out := make([]int, e.par.PolyRank())
		fillAny(&out, 5)
		o.enc.DecryptGLWETo(out, ct)
		e.expectInts("DecryptGLWETo", out, want)
	}
}

// near checks torus vectors up to rounding.
func (j *judge[T]) near(what string, got, want []T, slack float64) {
	for i := range want {
		if e := signed(got[i] - want[i]); e > slack || e < -slack {
			j.c.Failf("wrong-decryption:"+what, "%s: coefficient %d is off by %g", what, i, e)
		}
	}
}

// evalKey checks an evaluation key.
func (j *judge[T]) evalKey(what string, k tfhe.EvaluationKey[T]) {
	j.blindRotate(what+".BlindRotateKey", k.BlindRotateKey)
	j.defaultKSK(what+".KeySwitchKey", k.KeySwitchKey)
}

// drawEncJob prepares a random job.
func drawEncJob[T tfhe.TorusInt](c *Ctx, e *encEnv[T], jobs []genJob[T], o *encObjs[T], heavyOK bool) job[*encObjs[T]] {
	for {
		g := jobs[c.Int(len(jobs))]
		if g.pub && o.pub == nil || g.heavy && (!heavyOK || !c.Bool(1, 2)) {
			g = jobs[c.Int(10)]
		}
		return job[*encObjs[T]]{g.name, g.prep(e, c)}
	}
}

// encHistory drives long-used encryptors.
func encHistory[T tfhe.TorusInt](c *Ctx) {
	par := genParams[T](c, paramOpts{maxN: 32}).Compile()
	e := newEncEnv(c, par)
	jobs := encJobs[T]()
	var t *track
	var in uint64
	c.Sim(SimOpts{Name: "history", Est: 100000, NumCPU: 1 + c.Int(4)}, func() {
		objs := []*encObjs[T]{e.objs()}
		if c.Int(3) == 2 {
			objs = append(objs, objs[0].copy())
		}
		in = e.inputs()
		t = newTrack(c, "history")
		n := 3 + c.Int(14)
		prev := ""
		for i := 0; i < n; i++ {
			o := objs[c.Int(len(objs))]
			j := drawEncJob(c, e, jobs, o, i < 6)
			c.Cover(prev, j.name)
			c.Desc("%s", j.name)
			prev = j.name
			j.exec(t, o)
		}
	})
	c.Seq("judge", func() {
		judgeAll(t)
		e.j.stats()
	})
	if e.inputs() != in {
		c.Failf("input-modified:encryptor", "an encryption modified a message, plaintext or key it was given")
	}
	c.nontrivial = true
}

// encConcurrent drives copies of encryptors from several threads.
func encConcurrent[T tfhe.TorusInt](c *Ctx) {
	po := paramOpts{maxN: 32, maxRank: 2}
	focus := c.Bool(1, 3)
	if focus && c.Bool(1, 3) {
		po = paramOpts{maxN: 128, maxRank: 3}
	}
	par := genParams[T](c, po).Compile()
	e := newEncEnv(c, par)
	jobs := encJobs[T]()
	nT := 2 + c.Int(3)
	ts := make([]*track, nT)
	progs := make([][]job[*encObjs[T]], nT)
	var base *encObjs[T]
	c.Seq("setup", func() {
		base = e.objs()
		t := newTrack(c, "setup")
		for i := c.Int(3); i > 0; i-- {
			drawEncJob(c, e, jobs, base, false).exec(t, base)
		}
		judgeAll(t)
	})
	same := c.Bool(1, 3)
	// In a focused run every thread does the same one or two kinds of operation.
	var pool []genJob[T]
	if focus {
		for n := 1 + c.Int(2); len(pool) < n; {
			if g := jobs[c.Int(len(jobs))]; !g.pub || base.pub != nil {
				pool = append(pool, g)
			}
		}
	}
	for i := range progs {
		ts[i] = newTrack(c, fmt.Sprintf("thread %d", i))
		for k := 1 + c.Int(4); k > 0; k-- {
			if pool != nil {
				g := pool[c.Int(len(pool))]
				progs[i] = append(progs[i], job[*encObjs[T]]{g.name, g.prep(e, c)})
				continue
			}
			progs[i] = append(progs[i], drawEncJob(c, e, jobs, base, k == 1 && i == 0))
		}
		if same && i > 0 {
			progs[i] = progs[0]
		}
		c.Desc("thread %d: %d jobs, first %s", i, len(progs[i]), progs[i][0].name)
	}
	in := e.inputs()
	hows := drawCopies(c, nT)
	c.Sim(SimOpts{Name: "concurrent", Est: 50000, NumCPU: 1 + c.Int(4)}, func() {
		concurrently(hows, base, (*encObjs[T]).copy, func(i int, o *encObjs[T]) {
			for _, j := range progs[i] {
				c.Cover(j.name, nT)
				j.exec(ts[i], o)
			}
		})
	})
	c.Seq("judge", func() {
		judgeAll(ts...)
		e.j.stats()
		after := newTrack(c, "afterwards")
		drawEncJob(c, e, jobs, base, false).exec(after, base)
		judgeAll(after)
	})
	if e.inputs() != in {
		c.Failf("input-modified:encryptor", "concurrent use of copies modified a message, plaintext or key")
	}
	c.nontrivial = true
}

// drawCopies decides how each thread gets its object: 0 copied before, 1 copied
// in the thread, 2 a copy of a copy, 3 the original.
func drawCopies(c *Ctx, n int) []int {
	h := make([]int, n)
	inThread := false
	for i := range h {
		h[i] = c.Int(4)
		if h[i] == 3 && i != 0 {
			h[i] = 0
		}
		inThread = inThread || h[i] == 1
	}
	if h[0] == 3 && inThread {
		h[0] = 0
	}
	return h
}

// concurrently runs f in one simulated thread per entry on its copy of base.
func concurrently[O any](hows []int, base O, copyOf func(O) O, f func(i int, o O)) {
	objs := make([]O, len(hows))
	for i, h := range hows {
		switch h {
		case 0:
			objs[i] = copyOf(base)
		case 2:
			objs[i] = copyOf(copyOf(base))
		case 3:
			objs[i] = base
		}
	}
	var fs []func()
	for i := range hows {
		i := i
		fs = append(fs, func() {
			o := objs[i]
			if hows[i] == 1 {
				o = copyOf(base)
			}
			f(i, o)
		})
	}
	threads(fs...)
}

func either(c *Ctx, a, b func(*Ctx)) {
	if c.Int(2) == 1 {
		a(c)
	} else {
		b(c)
	}
}

func init() {
	encs := []actorSpec{{"tfhe", []string{"tfhe.Encryptor", "tfhe.BinaryEncryptor"}}}
	register("H02", false, func(c *Ctx) {
		if c.Int(4) == 3 {
			runHistory(c, encs)
			return
		}
		either(c, encHistory[uint32], encHistory[uint64])
	})
	register("C02", false, func(c *Ctx) {
		if c.Int(4) == 3 {
			runConcurrent(c, encs)
			return
		}
		either(c, encConcurrent[uint32], encConcurrent[uint64])
	})
}
