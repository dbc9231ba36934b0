//go:build go1.22

package main

import (
	"fmt"
	"math"

	"SIMMODULE/math/poly"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
	"SIMMODULE/xtfhe"
)

// Sessions of the extension schemes (E06): the store and the judgement of
// session.go, the operations of the embedded single-key evaluator, and those
// of one scheme on top of it.

type xworker[T tfhe.TorusInt] struct {
	*tworker[T]
	bfv  *xtfhe.BFVEvaluator[T]
	cir  *xtfhe.CircuitBootstrapper[T]
	fhew *xtfhe.FHEWEvaluator[T]
	many *xtfhe.ManyLUTEvaluator[T]
	san  *xtfhe.Sanitizer[T]
}

type xsession[T tfhe.TorusInt] struct {
	tsession[T]
	f     *conf3[T]
	bevk  xtfhe.BFVEvaluationKey[T]
	cevk  xtfhe.CircuitBootstrapKey[T]
	fevk  xtfhe.FHEWEvaluationKey[T]
	pk    tfhe.PublicKey[T]
	auts  []int
	swN   map[int]float64 // error of the key switching after X -> X^d
	relN  float64         // error of relinearisation
	cirN  float64         // error of a circuit bootstrapping
	tkey  []poly.Poly[T]  // secret of a tensor product
	tamp  float64         // 1-norm of it
	randN float64         // error of rerandomisation
	linN  float64         // largest 1-norm of the polynomial a sanitisation multiplies with
}

func asW[T tfhe.TorusInt](v any) tfhe.FFTGGSWCiphertext[T] { return v.(tfhe.FFTGGSWCiphertext[T]) }

// kskErr bounds the error of a product with a key switching key for the given secret.
func (s *xsession[T]) kskErr(ksk tfhe.GLWEKeySwitchKey[T], from []poly.Poly[T]) float64 {
	if len(ksk.Value) != len(from) {
		s.c.Failf("wrong-key", "a key switching key has %d parts, expected %d", len(ksk.Value), len(from))
	}
	o := &gadgetObj[T]{g: ksk.GadgetParams}
	w := 0.0
	for i := range from {
		w += absSum(from[i].Coeffs)
		var es [][]T
		for l := range ksk.Value[i].Value {
			es = append(es, addVec(s.kinds["F"].phase(ksk.Value[i].Value[l]), scaleVec(from[i].Coeffs, baseQ(o.g, l)), -1))
		}
		o.rows = append(o.rows, rowNoise(o.g, es))
	}
	return o.prodBound(len(from), w) + s.prodFFT(o.g, len(from))
}

// prodFFT bounds the transform errors of a gadget product.
func (s *xsession[T]) prodFFT(g tfhe.GadgetParameters[T], rows int) float64 {
	return float64(rows*g.Level()+1) * s.fftErr(qOf[T]()*float64(g.Base())*math.Sqrt(float64(s.N)))
}

func (s *xsession[T]) setup(r *simrt.Rng) {
	f, par := s.f, s.par
	switch f.kind {
	case dBFV:
		s.noBoot, s.noKS = true, true
	case dFHEW:
		s.noBoot = true
		s.genEvk = func(*tfhe.Encryptor[T]) tfhe.EvaluationKey[T] {
			e := xtfhe.NewFHEWEncryptorWithKey(f.fpar, s.sk)
			s.fevk = e.GenEvalKey()
			return tfhe.EvaluationKey[T]{BlindRotateKey: s.fevk.BlindRotateKey, KeySwitchKey: s.fevk.KeySwitchKey}
		}
	}
	if f.kind == dFHEW {
		s.sk = xtfhe.NewFHEWEncryptor(f.fpar).GenSecretKey()
	}
	s.tsession.setup(r)
	s.swN = map[int]float64{}
	enc := tfhe.NewEncryptorWithKey(par, s.sk)
	galois := func(d int, k tfhe.GLWEKeySwitchKey[T]) {
		s.auts = append(s.auts, d)
		s.swN[d] = s.kskErr(k, s.permuted(d))
	}
	switch f.kind {
	case dBFV:
		kg := xtfhe.NewBFVKeyGenerator(par, s.sk)
		idx := []int{3, s.N - 1, 2*s.N - 1, 5}
		s.bevk = kg.GenEvalKey(idx[:1+r.Intn(4)], f.gad)
		kg.GenGaloisKeysForPackTo(s.bevk.GaloisKeys, f.gad)
		for d := 1; d < 2*s.N; d++ {
			if k, ok := s.bevk.GaloisKeys[d]; ok {
				galois(d, k)
			}
		}
		var sq []poly.Poly[T]
		k := s.sk.GLWEKey.Value
		s.tkey = append(s.tkey, k...)
		for i := range k {
			for j := i; j < len(k); j++ {
				sq = append(sq, poly.Poly[T]{Coeffs: negMul(k[i].Coeffs, k[j].Coeffs)})
			}
		}
		s.tkey = append(s.tkey, sq...)
		s.tamp = 1
		for _, p := range s.tkey {
			s.tamp += absSum(p.Coeffs)
		}
		s.relN = s.kskErr(s.bevk.RelinKey, sq)
		dim := len(s.tkey)
		s.kinds["T"] = &skind[T]{
			name: "T",
			zero: func() any { return tfhe.NewGLWECiphertextCustom[T](dim, s.N) },
			phase: func(v any) []T {
				if ct := asG[T](v); len(ct.Value) == dim+1 {
					return phaseGLWE(ct.Value, s.tkey)
				}
				return nil
			},
			cut: func(v any) any {
				ct := asG[T](v)
				l := &ct.Value[len(ct.Value)-1]
				l.Coeffs = l.Coeffs[:s.N/2]
				return ct
			},
			box: boxOf[tfhe.GLWECiphertext[T]],
		}
		t := tfhe.NewGLWECiphertextCustom[T](dim, s.N)
		for i := range t.Value {
			for j := range t.Value[i].Coeffs {
				t.Value[i].Coeffs[j] = T(r.Uint64())
			}
		}
		s.put("T", t)
	case dCircuit:
		kg := xtfhe.NewCircuitBootstrapKeyGenerator(f.cpar, s.sk)
		s.cevk = kg.GenCircuitBootstrapKey()
		trace := 0.0
		for _, d := range f.packIdx() {
			k, ok := s.cevk.TraceKeys[d]
			if !ok {
				s.c.Failf("wrong-key", "the circuit bootstrapping key has no trace key for X^%d", d)
			}
			galois(d, k)
			trace = math.Max(trace, s.swN[d])
		}
		n := float64(s.N)
		row := s.brN + n*(1+s.weight) + n*trace + 2*n
		s.cirN = row
		g := f.cpar.SchemeSwitchParams()
		for i, ct := range s.cevk.SchemeSwitchKey {
			msg := s.sk.GLWEKey.Value[i].Coeffs
			o := &gadgetObj[T]{g: g}
			for j := range ct.Value {
				mm := msg
				if j > 0 {
					mm = negMul(msg, s.sk.GLWEKey.Value[j-1].Coeffs)
				}
				var es [][]T
				for l := range ct.Value[j].Value {
					es = append(es, addVec(s.kinds["F"].phase(ct.Value[j].Value[l]), scaleVec(mm, baseQ(g, l)), -1))
				}
				o.rows = append(o.rows, rowNoise(g, es))
			}
			e := row*absSum(msg) + o.prodBound(len(ct.Value), absSum(msg)*(1+s.weight)) + s.prodFFT(g, len(ct.Value))
			s.cirN = math.Max(s.cirN, e)
		}
		s.cirN += s.fftErr(qOf[T]())
		out := f.cpar.OutputParams()
		s.kinds["W"] = &skind[T]{
			name: "W",
			zero: func() any { return tfhe.NewFFTGGSWCiphertext(par, out) },
			phase: func(v any) []T {
				var o []T
				for _, row := range asW[T](v).Value {
					for _, x := range row.Value {
						o = append(o, s.kinds["F"].phase(x)...)
					}
				}
				return o
			},
			mag: func(v any) float64 {
				m := 0.0
				for _, row := range asW[T](v).Value {
					for _, x := range row.Value {
						m = math.Max(m, fftMag(x.Value))
					}
				}
				return m
			},
			cut: func(v any) any { ct := asW[T](v); ct.Value = ct.Value[:len(ct.Value)-1]; return ct },
			box: boxOf[tfhe.FFTGGSWCiphertext[T]],
		}
		for i := 0; i < 2; i++ {
			s.put("W", enc.EncryptFFTGGSWPoly(poly.Poly[T]{Coeffs: constPoly(s.N, T(i))}, out))
		}
	case dFHEW:
		g := par.BlindRotateParams()
		for i, ct := range s.fevk.BlindRotateKey.Value {
			o := &gadgetObj[T]{g: g}
			for row := range ct.Value {
				mm := constPoly(s.N, T(1))
				if row > 0 {
					mm = s.sk.GLWEKey.Value[row-1].Coeffs
				}
				mm = monoMul(mm, int(signed(s.sk.LWEKey.Value[i])))
				var es [][]T
				for l := range ct.Value[row].Value {
					es = append(es, addVec(s.kinds["F"].phase(ct.Value[row].Value[l]), scaleVec(mm, baseQ(g, l)), -1))
				}
				o.rows = append(o.rows, rowNoise(g, es))
			}
			s.brN += o.prodBound(len(ct.Value), 1+s.weight) + s.prodFFT(g, len(ct.Value))
		}
		if len(s.fevk.GaloisKey) != f.fpar.WindowSize()+1 {
			s.c.Failf("wrong-key", "the evaluation key has %d Galois keys for a window of %d", len(s.fevk.GaloisKey), f.fpar.WindowSize())
		}
		sw := s.kskErr(s.fevk.GaloisKey[0], s.permuted(2*s.N-5))
		d := 1
		for i := 1; i < len(s.fevk.GaloisKey); i++ {
			d = d * 5 % (2 * s.N)
			sw = math.Max(sw, s.kskErr(s.fevk.GaloisKey[i], s.permuted(d)))
		}
		s.brN += sw * float64(s.N+4)
	case dSanitize:
		s.pk = enc.GenPublicKey()
		row := s.pk.GLWEKey.Value[0].Value
		e := addVec(row[0].Coeffs, negMul(row[1].Coeffs, s.sk.GLWEKey.Value[0].Coeffs), 1)
		s.randN = 14*f.span.RandSigmaQ()*(absSum(e)+s.weight) + 14*f.span.RandTauQ() + 4 + s.fftErr(qOf[T]()*14*f.span.RandSigmaQ()*float64(s.N))
		s.linN = 1 + 2*float64(par.MessageModulus())*float64(s.N)*(14*f.span.LinEvalSigmaQ()+1)
	}
	for _, k := range []string{"B", "S"} { // some inputs with unusual masks from the start
		for i := 0; i < 2; i++ {
			ct := dup(s.pick(r, k).v).(tfhe.LWECiphertext[T])
			rareMask(r, &ct.Value[0], ct.Value[1:], s.keyOf(k), par.LUTSize())
			s.put(k, ct)
		}
	}
}

// monoMul is the product with X^d.
func monoMul[T tfhe.TorusInt](p []T, d int) []T {
	n := len(p)
	d = ((d % (2 * n)) + 2*n) % (2 * n)
	o := make([]T, n)
	for i, x := range p {
		j := (i + d) % (2 * n)
		if j >= n {
			o[j-n] = -x
		} else {
			o[j] = x
		}
	}
	return o
}

// worker builds the objects of one worker from the keys.
func (s *xsession[T]) worker() *xworker[T] {
	w := &xworker[T]{tworker: &tworker[T]{enc: tfhe.NewEncryptorWithKey(s.par, s.sk), tr: tfhe.NewGLWETransformer[T](s.N)}}
	switch s.f.kind {
	case dBFV:
		w.bfv = xtfhe.NewBFVEvaluator(s.par, s.bevk)
	case dCircuit:
		w.cir = xtfhe.NewCircuitBootstrapper(s.f.cpar, s.evk, s.cevk)
	case dFHEW:
		w.fhew = xtfhe.NewFHEWEvaluator(s.f.fpar, s.fevk)
	case dMany:
		w.many = xtfhe.NewManyLUTEvaluator(s.f.mpar, s.evk)
	case dSanitize:
		w.san = xtfhe.NewSanitizer(s.f.span, s.pk, s.evk)
	}
	w.link()
	return w
}

// link finds the embedded evaluators.
func (w *xworker[T]) link() {
	switch {
	case w.bfv != nil:
		w.ev = w.bfv.Evaluator
	case w.cir != nil:
		w.many, w.bfv = w.cir.ManyLUTEvaluator, w.cir.BFVEvaluator
		w.ev = w.many.Evaluator
	case w.fhew != nil:
		w.ev = w.fhew.Evaluator
	case w.many != nil:
		w.ev = w.many.Evaluator
	case w.san != nil:
		w.ev = w.san.Evaluator
	}
}

func (w *xworker[T]) copy() *xworker[T] {
	o := &xworker[T]{tworker: &tworker[T]{enc: w.enc.SafeCopy(), tr: w.tr.SafeCopy()}}
	switch {
	case w.cir != nil:
		o.cir = w.cir.SafeCopy()
	case w.bfv != nil:
		o.bfv = w.bfv.SafeCopy()
	case w.fhew != nil:
		o.fhew = w.fhew.SafeCopy()
	case w.many != nil:
		o.many = w.many.SafeCopy()
	case w.san != nil:
		o.san = w.san.SafeCopy()
	}
	o.link()
	return o
}

// scaled is the integer message and the error of a phase.
func (s *xsession[T]) scaled(ph []T) (m, e []T) {
	d := s.par.Scale()
	m, e = make([]T, len(ph)), make([]T, len(ph))
	for i, x := range ph {
		v := math.Round(signed(x) / float64(d))
		m[i] = T(int64(v))
		e[i] = x - m[i]*d
	}
	return m, e
}

func maxAbs[T tfhe.TorusInt](p []T) float64 {
	m := 0.0
	for _, x := range p {
		m = math.Max(m, math.Abs(signed(x)))
	}
	return m
}

// product is the plaintext of a BFV product and a bound of its error.
func (s *xsession[T]) product(a, b []T) ([]T, float64) {
	m0, e0 := s.scaled(a)
	m1, e1 := s.scaled(b)
	d := float64(s.par.Scale())
	p2 := qOf[T]() / d
	n := float64(s.N)
	wrap := (1+s.weight)/2 + 2
	bound := absSum(m0)*maxAbs(e1) + absSum(m1)*maxAbs(e0) + absSum(e0)*maxAbs(e1)/d + p2*wrap*(absSum(e0)+absSum(e1)) +
		s.tamp*(1+qOf[T]()*p2*n*math.Exp2(-49))
	return scaleVec(negMul(m0, m1), s.par.Scale()), bound
}

func (s *xsession[T]) ops() []func(w *xworker[T], r *simrt.Rng) *sop[T] {
	type W = *xworker[T]
	type R = *simrt.Rng
	type S = sop[T]
	type L_ = tfhe.LWECiphertext[T]
	var out []func(w W, r R) *S
	add := func(f func(w W, r R) *S) { out = append(out, f) }
	base := s.tsession.ops()
	add(func(w W, r R) *S { return base[r.Intn(len(base))](w.tworker, r) })
	add(func(w W, r R) *S { return base[r.Intn(len(base))](w.tworker, r) })
	f, par := s.f, s.par
	N := s.N
	L := par.LUTSize()
	// input is the ciphertext a bootstrapping rotates by
	input := func(w W, v any) L_ {
		ct := asL[T](v)
		if s.def == "B" {
			simrt.Quiet(func() { ct = w.ev.DefaultKeySwitch(ct) })
		}
		return ct
	}
	switch f.kind {
	case dBFV:
		const own = "xtfhe.BFVEvaluator"
		mul := func(name, kind string, extra float64, alloc func(w W, a, b tfhe.GLWECiphertext[T]) any, to func(w W, d, a, b tfhe.GLWECiphertext[T])) {
			add(func(w W, r R) *S {
				var b float64
				return &S{name: name, owner: own, out: kind, in: []string{"G", "G"}, pos: []int{1, 2},
					want:  func(ph [][]T) (v []T) { v, b = s.product(ph[0], ph[1]); return v },
					bound: func([]float64) float64 { return b + extra },
					skip:  func() bool { return b+extra > float64(par.Scale())/4 },
					alloc: func(in []any) any { return alloc(w, asG[T](in[0]), asG[T](in[1])) },
					to:    func(d any, in []any) { to(w, asG[T](d), asG[T](in[0]), asG[T](in[1])) }}
			})
		}
		mul("TensorTo", "T", 0, func(w W, a, b tfhe.GLWECiphertext[T]) any { return w.bfv.Tensor(a, b) },
			func(w W, d, a, b tfhe.GLWECiphertext[T]) { w.bfv.TensorTo(d, a, b) })
		mul("MulTo", "G", s.relN, func(w W, a, b tfhe.GLWECiphertext[T]) any { return w.bfv.Mul(a, b) },
			func(w W, d, a, b tfhe.GLWECiphertext[T]) { w.bfv.MulTo(d, a, b) })
		add(func(w W, r R) *S {
			return &S{name: "RelinearizeTo", owner: own, out: "G", in: []string{"T"}, pos: []int{1},
				want:  func(ph [][]T) []T { return ph[0] },
				bound: func([]float64) float64 { return s.relN },
				alloc: func(in []any) any { return w.bfv.Relinearize(asG[T](in[0])) },
				to:    func(d any, in []any) { w.bfv.RelinearizeTo(asG[T](d), asG[T](in[0])) }}
		})
		add(func(w W, r R) *S {
			d := s.auts[r.Intn(len(s.auts))]
			return &S{name: "PermuteTo", owner: own, out: "G", in: []string{"G"}, pos: []int{1},
				want:  func(ph [][]T) []T { return autoPoly(ph[0], d) },
				bound: func([]float64) float64 { return s.swN[d] },
				alloc: func(in []any) any { return w.bfv.Permute(asG[T](in[0]), d) },
				to:    func(v any, in []any) { w.bfv.PermuteTo(asG[T](v), asG[T](in[0]), d) }}
		})
		worst := 0.0
		for _, d := range f.packIdx() {
			worst = math.Max(worst, s.swN[d])
		}
		add(func(w W, r R) *S {
			return &S{name: "PackTo", owner: own, out: "G", in: []string{"B"}, pos: []int{1},
				want:  func(ph [][]T) []T { return constPoly(N, ph[0][0]) },
				bound: func([]float64) float64 { return float64(par.LogPolyRank()) * (worst + 2 + s.weight) },
				alloc: func(in []any) any { return w.bfv.Pack(asL[T](in[0])) },
				to:    func(v any, in []any) { w.bfv.PackTo(asG[T](v), asL[T](in[0])) }}
		})
		// fresh operands keep multiplications meaningful
		add(func(w W, r R) *S {
			p := int(par.MessageModulus())
			msg := make([]int, N)
			for i, x := range smallInts(r, N) {
				msg[i] = ((x % p) + p) % p
			}
			want := make([]T, N)
			for i := range msg {
				want[i] = T(msg[i]) * par.Scale()
			}
			return &S{name: "EncryptGLWETo", owner: "tfhe.Encryptor", out: "G",
				want:  func([][]T) []T { return want },
				bound: func([]float64) float64 { return 14*par.GLWEStdDevQ() + 1 + s.fftErr(qOf[T]()) },
				alloc: func([]any) any { return w.enc.EncryptGLWE(msg) },
				to:    func(v any, in []any) { w.enc.EncryptGLWETo(asG[T](v), msg) }}
		})
	case dCircuit:
		const own = "xtfhe.CircuitBootstrapper"
		out := f.cpar.OutputParams()
		p := int(par.MessageModulus())
		n := 2 * L / f.mpar.LUTCount()
		add(func(w W, r R) *S {
			return &S{name: "CircuitBootstrapTo", owner: own, out: "W", in: []string{s.def}, pos: []int{1},
				bound: func([]float64) float64 { return s.cirN },
				accept: func(in []any, ph [][]T) [][]T {
					id := make([]T, p)
					for i := range id {
						id[i] = T(i)
					}
					m := newLUTModel(n/2, id)
					var a [][]T
					for _, t := range s.positions(input(w, in[0]), ph[0][0], n/2, m.tied) {
						v := m.at(t)
						var o []T
						for row := 0; row <= s.k; row++ {
							for l := 0; l < out.Level(); l++ {
								if row == 0 {
									o = append(o, constPoly(N, v*baseQ(out, l))...)
								} else {
									o = append(o, scaleVec(s.sk.GLWEKey.Value[row-1].Coeffs, v*baseQ(out, l))...)
								}
							}
						}
						a = append(a, o)
					}
					return a
				},
				alloc: func(in []any) any { return w.cir.CircuitBootstrap(asL[T](in[0])) },
				to:    func(v any, in []any) { w.cir.CircuitBootstrapTo(asW[T](v), asL[T](in[0])) }}
		})
		// products with what circuit bootstrapping produced
		gsw := func(ph []T) (m T, o *gadgetObj[T]) {
			m = T(int64(math.Round(signed(ph[0]) / float64(baseQ(out, 0)))))
			o = &gadgetObj[T]{g: out}
			for row := 0; row <= s.k; row++ {
				mm := constPoly(N, m)
				if row > 0 {
					mm = scaleVec(s.sk.GLWEKey.Value[row-1].Coeffs, m)
				}
				var es [][]T
				for l := 0; l < out.Level(); l++ {
					at := (row*out.Level() + l) * N
					es = append(es, addVec(ph[at:at+N], scaleVec(mm, baseQ(out, l)), -1))
				}
				o.rows = append(o.rows, rowNoise(out, es))
			}
			return m, o
		}
		add(func(w W, r R) *S {
			var b float64
			return &S{name: "ExternalProdGLWETo", owner: own, out: "G", in: []string{"W", "G"}, pos: []int{1, 2},
				want: func(ph [][]T) []T {
					m, o := gsw(ph[0])
					b = o.prodBound(len(o.rows), math.Abs(signed(m))*(1+s.weight)) + s.prodFFT(out, len(o.rows))
					return scaleVec(ph[1], m)
				},
				skip:  func() bool { return b > qOf[T]()/16 },
				bound: func([]float64) float64 { return b },
				alloc: func(in []any) any { return w.ev.ExternalProdGLWE(asW[T](in[0]), asG[T](in[1])) },
				to:    func(v any, in []any) { w.ev.ExternalProdGLWETo(asG[T](v), asW[T](in[0]), asG[T](in[1])) }}
		})
		add(func(w W, r R) *S {
			var b float64
			return &S{name: "CMuxTo", owner: own, out: "G", in: []string{"W", "G", "G"}, pos: []int{1, 2, 3},
				want: func(ph [][]T) []T {
					m, o := gsw(ph[0])
					b = o.prodBound(len(o.rows), math.Abs(signed(m))*(1+s.weight)) + s.prodFFT(out, len(o.rows))
					return addVec(ph[1], scaleVec(addVec(ph[2], ph[1], -1), m), 1)
				},
				skip:  func() bool { return b > qOf[T]()/16 },
				bound: func([]float64) float64 { return b },
				alloc: func(in []any) any { return w.ev.CMux(asW[T](in[0]), asG[T](in[1]), asG[T](in[2])) },
				to:    func(v any, in []any) { w.ev.CMuxTo(asG[T](v), asW[T](in[0]), asG[T](in[1]), asG[T](in[2])) }}
		})
	case dFHEW:
		const own = "xtfhe.FHEWEvaluator"
		// odd is the position an automorphism-based rotation reads
		odd := func(ct L_) (t int, amb bool) {
			x, tie := modSwitch(-ct.Value[0], L)
			t, amb = x|1, tie
			for i, b := range s.sk.LWEKey.Value {
				x, tie := modSwitch(-ct.Value[i+1], L)
				amb = amb || tie && b != 0
				t += (x | 1) * int(signed(b))
			}
			return -t, amb
		}
		add(func(w W, r R) *S {
			_, lut, m := s.drawLUT(w.tworker, r)
			ct := asL[T](s.pick(r, "S").v)
			t, amb := odd(ct)
			if amb || m.tied {
				return nil
			}
			want := make([]T, N)
			for j := range want {
				want[j] = m.at(t + j)
			}
			return &S{name: "BlindRotateTo", owner: own, out: "G",
				bound: func([]float64) float64 { return s.brN },
				want:  func([][]T) []T { return want },
				alloc: func([]any) any { return w.fhew.BlindRotate(ct, lut) },
				to:    func(v any, in []any) { w.fhew.BlindRotateTo(asG[T](v), ct, lut) }}
		})
		boot := func(name string, run func(w W, r R) (lutModel[T], func(ct L_) L_, func(d, ct L_))) {
			add(func(w W, r R) *S {
				m, al, to := run(w, r)
				return &S{name: name, owner: own, out: s.def, in: []string{s.def}, pos: []int{1},
					bound: func([]float64) float64 { return s.brN + s.ksN },
					alloc: func(in []any) any { return al(asL[T](in[0])) },
					to:    func(v any, in []any) { to(asL[T](v), asL[T](in[0])) },
					accept: func(in []any, ph [][]T) [][]T {
						x := signed(ph[0][0]) / qOf[T]() * float64(2*L)
						d := 1.5*(1+absSum(s.sk.LWEKey.Value)) + s.ksN/qOf[T]()*float64(2*L) + 0.01
						if m.tied {
							d++
						}
						exact, amb := odd(input(w, in[0]))
						var a [][]T
						for t := int(math.Ceil(x - d)); t <= int(math.Floor(x+d)); t++ {
							if amb || m.tied || (t-exact)%(2*L) == 0 {
								a = append(a, []T{m.at(t)})
							}
						}
						return a
					}}
			})
		}
		boot("BootstrapLUTTo", func(w W, r R) (lutModel[T], func(ct L_) L_, func(d, ct L_)) {
			_, lut, m := s.drawLUT(w.tworker, r)
			return m, func(ct L_) L_ { return w.fhew.BootstrapLUT(ct, lut) }, func(d, ct L_) { w.fhew.BootstrapLUTTo(d, ct, lut) }
		})
		boot("BootstrapFuncTo", func(w W, r R) (lutModel[T], func(ct L_) L_, func(d, ct L_)) {
			g, y := s.drawFunc(r)
			return newLUTModel(L, y), func(ct L_) L_ { return w.fhew.BootstrapFunc(ct, g) }, func(d, ct L_) { w.fhew.BootstrapFuncTo(d, ct, g) }
		})
	case dSanitize:
		const own = "xtfhe.Sanitizer"
		add(func(w W, r R) *S {
			return &S{name: "ReRandLWETo", owner: own, out: "B", in: []string{"B"}, pos: []int{1},
				want:  func(ph [][]T) []T { return ph[0] },
				bound: func([]float64) float64 { return s.randN },
				to:    func(v any, in []any) { w.san.ReRandLWETo(asL[T](v), asL[T](in[0])) }}
		})
		add(func(w W, r R) *S {
			return &S{name: "ReRandGLWETo", owner: own, out: "G", in: []string{"G"}, pos: []int{1},
				want:  func(ph [][]T) []T { return ph[0] },
				bound: func([]float64) float64 { return s.randN },
				to:    func(v any, in []any) { w.san.ReRandGLWETo(asG[T](v), asG[T](in[0])) }}
		})
		boot := func(name string, run func(w W, r R) (lutModel[T], func(ct L_) L_, func(d, ct L_))) {
			add(func(w W, r R) *S {
				m, al, to := run(w, r)
				for _, y := range m.f { // the tables sanitisation is made for
					if y%par.Scale() != 0 {
						return nil
					}
				}
				bound := s.linN*(s.brN+s.fftErr(qOf[T]())) + 14*f.span.LinEvalTauQ() + 4
				return &S{name: name, owner: own, out: s.def, in: []string{s.def}, pos: []int{1},
					skip:  func() bool { return bound > qOf[T]()/8 },
					bound: func([]float64) float64 { return bound },
					alloc: func(in []any) any { return al(asL[T](in[0])) },
					to:    func(v any, in []any) { to(asL[T](v), asL[T](in[0])) },
					accept: func(in []any, ph [][]T) [][]T {
						x := signed(ph[0][0]) / qOf[T]() * float64(2*L)
						// the bodies before and after key switching are rounded separately
						d := (2+absSum(s.sk.LWEKey.Value))/2 + (s.ksN+s.randN)/qOf[T]()*float64(2*L) + 0.01
						if m.tied {
							d++
						}
						var a [][]T
						for t := int(math.Ceil(x - d)); t <= int(math.Floor(x+d)); t++ {
							a = append(a, []T{m.at(t)})
						}
						return a
					}}
			})
		}
		boot("SanitizeLUTTo", func(w W, r R) (lutModel[T], func(ct L_) L_, func(d, ct L_)) {
			_, lut, m := s.drawLUT(w.tworker, r)
			return m, func(ct L_) L_ { return w.san.SanitizeLUT(ct, lut) }, func(d, ct L_) { w.san.SanitizeLUTTo(d, ct, lut) }
		})
		boot("SanitizeFuncTo", func(w W, r R) (lutModel[T], func(ct L_) L_, func(d, ct L_)) {
			g, y := s.drawFunc(r)
			return newLUTModel(L, y), func(ct L_) L_ { return w.san.SanitizeFunc(ct, g) }, func(d, ct L_) { w.san.SanitizeFuncTo(d, ct, g) }
		})
	}
	if f.kind == dMany || f.kind == dCircuit {
		s.manyOps(add, input)
	}
	return out
}

// positions lists the table positions (of L) a ciphertext may rotate to.
func (s *xsession[T]) positions(ct tfhe.LWECiphertext[T], ph T, L int, tied bool) []int {
	exact, amb := modSwitch(ct.Value[0], L)
	for i, b := range s.sk.LWEKey.Value {
		a, tie := modSwitch(ct.Value[i+1], L)
		amb = amb || tie && b != 0
		exact += a * int(b)
	}
	x := signed(ph) / qOf[T]() * float64(2*L)
	d := (1+absSum(s.sk.LWEKey.Value))/2 + s.ksN/qOf[T]()*float64(2*L) + 0.01
	if tied {
		d++
	}
	var a []int
	for t := int(math.Ceil(x - d)); t <= int(math.Floor(x+d)); t++ {
		if amb || tied || (t-exact)%(2*L) == 0 {
			a = append(a, t)
		}
	}
	return a
}

// drawFunc is a function on messages and the table it stands for.
func (s *xsession[T]) drawFunc(r *simrt.Rng) (func(int) int, []T) {
	p := int(s.par.MessageModulus())
	ints, y := make([]int, p), make([]T, p)
	for i := range y {
		ints[i] = r.Intn(p)
		y[i] = T(ints[i]) * s.par.Scale()
	}
	return func(x int) int { return ints[x] }, y
}

func (s *xsession[T]) manyOps(add func(func(w *xworker[T], r *simrt.Rng) *sop[T]), input func(w *xworker[T], v any) tfhe.LWECiphertext[T]) {
	type W = *xworker[T]
	type R = *simrt.Rng
	type S = sop[T]
	type L_ = tfhe.LWECiphertext[T]
	const own = "xtfhe.ManyLUTEvaluator"
	f, par := s.f, s.par
	N, nf := s.N, f.mpar.LUTCount()
	L := par.LUTSize() / nf // positions of each table
	// draw generates tables in one of the ways the library offers; unused ones are zero
	draw := func(w W, r R) (lut tfhe.LookUpTable[T], ms []lutModel[T]) {
		p := int(par.MessageModulus())
		custom := r.Intn(2) == 0
		if custom {
			p = 1 + r.Intn(max(1, min(8, L/4)))
		}
		full := r.Intn(2) == 0
		scale := par.Scale()
		if custom && r.Intn(2) == 0 {
			scale = T(r.Uint64()) >> r.Intn(8)
		}
		used := nf
		if r.Intn(3) == 0 {
			used = 1 + r.Intn(nf)
		}
		fi, ff := make([]func(int) int, used), make([]func(int) T, used)
		for j := 0; j < nf; j++ {
			y, ints := make([]T, p), make([]int, p)
			if j < used {
				for i := range y {
					if full {
						y[i] = T(r.Uint64())
					} else {
						ints[i] = r.Intn(2 * p)
						y[i] = T(ints[i]%p) * scale
					}
				}
				fi[j] = func(x int) int { return ints[x] }
				ff[j] = func(x int) T { return y[x] }
			}
			ms = append(ms, newLUTModel(L, y))
		}
		lut = tfhe.NewLUT(par)
		to := r.Intn(2) == 0
		if to {
			fillAny(&lut, r.Uint64())
		}
		name := ""
		switch {
		case !custom && !full && to:
			name = "GenLUTTo"
			w.many.GenLUTTo(lut, fi)
		case !custom && !full:
			name = "GenLUT"
			lut = w.many.GenLUT(fi)
		case !custom && to:
			name = "GenLUTFullTo"
			w.many.GenLUTFullTo(lut, ff)
		case !custom:
			name = "GenLUTFull"
			lut = w.many.GenLUTFull(ff)
		case !full && to:
			name = "GenLUTCustomTo"
			w.many.GenLUTCustomTo(lut, fi, T(p), scale)
		case !full:
			name = "GenLUTCustom"
			lut = w.many.GenLUTCustom(fi, T(p), scale)
		case to:
			name = "GenLUTCustomFullTo"
			w.many.GenLUTCustomFullTo(lut, ff, T(p))
		default:
			name = "GenLUTCustomFull"
			lut = w.many.GenLUTCustomFull(ff, T(p))
		}
		s.c.Cover("many", name, used == nf)
		return lut, ms
	}
	add(func(w W, r R) *S {
		lut, ms := draw(w, r)
		ct := asL[T](s.pick(r, "S").v)
		t, amb := modSwitch(ct.Value[0], L)
		for i, b := range s.sk.LWEKey.Value {
			a, tie := modSwitch(ct.Value[i+1], L)
			amb = amb || tie && b != 0
			t += a * int(b)
		}
		if amb || ms[0].tied {
			return nil
		}
		want := make([]T, N)
		for j := range want {
			want[j] = ms[j%nf].at(t + j/nf)
		}
		return &S{name: "BlindRotateTo", owner: own, out: "G",
			bound: func([]float64) float64 { return s.brN },
			want:  func([][]T) []T { return want },
			alloc: func([]any) any { return w.many.BlindRotate(ct, lut) },
			to:    func(v any, in []any) { w.many.BlindRotateTo(asG[T](v), ct, lut) }}
	})
	boot := func(name string, run func(w W, r R) ([]lutModel[T], func(ct L_) []L_, func(d []L_, ct L_))) {
		add(func(w W, r R) *S {
			ms, al, to := run(w, r)
			at := r.Intn(nf) // the output that is kept
			var rest []L_    // all outputs
			kind := s.kinds[s.def]
			return &S{name: name, owner: own, out: s.def, in: []string{s.def}, pos: []int{-1},
				bound: func([]float64) float64 { return s.brN + s.ksN },
				phase: func(v any) []T {
					var o []T
					for i := 0; i < nf; i++ {
						o = append(o, kind.phase(rest[i])...)
					}
					return o
				},
				alloc: func(in []any) any { rest = al(asL[T](in[0])); return rest[at] },
				to: func(v any, in []any) {
					rest = make([]L_, nf+r.Intn(2))
					for i := range rest {
						rest[i] = kind.zero().(L_)
					}
					rest[at] = asL[T](v)
					to(rest, asL[T](in[0]))
				},
				accept: func(in []any, ph [][]T) [][]T {
					var a [][]T
					for _, t := range s.positions(input(w, in[0]), ph[0][0], L, ms[0].tied) {
						var o []T
						for _, m := range ms {
							o = append(o, m.at(t))
						}
						a = append(a, o)
					}
					return a
				}}
		})
	}
	boot("BootstrapLUTTo", func(w W, r R) ([]lutModel[T], func(ct L_) []L_, func(d []L_, ct L_)) {
		lut, ms := draw(w, r)
		return ms, func(ct L_) []L_ { return w.many.BootstrapLUT(ct, lut) }, func(d []L_, ct L_) { w.many.BootstrapLUTTo(d, ct, lut) }
	})
	boot("BootstrapFuncTo", func(w W, r R) ([]lutModel[T], func(ct L_) []L_, func(d []L_, ct L_)) {
		used := 1 + r.Intn(nf)
		g := make([]func(int) int, used)
		var ms []lutModel[T]
		for j := 0; j < nf; j++ {
			y := make([]T, par.MessageModulus())
			if j < used {
				g[j], y = s.drawFunc(r)
			}
			ms = append(ms, newLUTModel(L, y))
		}
		return ms, func(ct L_) []L_ { return w.many.BootstrapFunc(ct, g) }, func(d []L_, ct L_) { w.many.BootstrapFuncTo(d, ct, g) }
	})
}

func e06[T tfhe.TorusInt](c *Ctx) {
	f := drawConf3[T](c)
	s := &xsession[T]{f: f}
	s.par, s.c = f.par, c
	s.sk = makeSecret(s.par, c.DataSeed())
	setup := c.Rng()
	var tmpl *xworker[T]
	c.Seq("setup", func() {
		s.setup(setup)
		tmpl = s.worker()
	})
	keys := func() uint64 {
		return digestOf(s.evk) ^ digestOf(s.bevk)*3 ^ digestOf(s.cevk)*5 ^ digestOf(s.fevk)*7 ^ digestOf(s.pk)*9
	}
	in := keys()
	nW := 1 + c.Int(4)
	nops := 4 + c.Int(24)
	ops := s.ops()
	focus := -1
	if c.Int(3) == 2 {
		focus = 2 + c.Int(len(ops)-2)
	}
	faulty := c.Int(3) > 0
	rngs := make([]*simrt.Rng, nW)
	for i := range rngs {
		rngs[i] = c.Rng()
	}
	c.Desc("%s: n=%d k=%d N=%d p=%d block=%d order=%v; %d workers, %d operations each", depNames[f.kind], s.par.LWEDimension(), s.k, s.N, s.par.MessageModulus(), s.par.BlockSize(), s.par.BootstrapOrder(), nW, nops)
	c.Count("sessions: " + depNames[f.kind])
	hows := drawCopies(c, nW)
	c.Sim(SimOpts{Name: "session", Est: int64(nW * nops * 8000), NumCPU: drawCPUs(c)}, func() {
		concurrently(hows, tmpl, (*xworker[T]).copy, func(i int, w *xworker[T]) {
			r := rngs[i]
			who := fmt.Sprintf("worker %d", i)
			draw := func() *sop[T] {
				for {
					k := r.Intn(len(ops))
					if focus >= 0 && r.Intn(2) == 0 {
						k = focus
					}
					if o := ops[k](w, r); o != nil {
						return o
					}
				}
			}
			for n := 0; n < nops; n++ {
				switch x := r.Intn(24); {
				case x == 0:
					s.move(who, r)
				case x == 1:
					s.decrypt(who, w.tworker, r)
				case x == 3 && faulty:
					s.abandon(r, draw())
				case x == 4 && r.Intn(3) == 0:
					if r.Intn(2) == 0 {
						w = w.copy()
					} else {
						w = s.worker()
					}
					c.Fault("worker restarted")
				case x == 5 || x == 6 && faulty:
					s.fresh(r)
				default:
					s.do(who, r, draw())
				}
			}
		})
	})
	c.Seq("afterwards", func() {
		s.settle()
		for n := 0; n < 3; n++ {
			if o := ops[setup.Intn(len(ops))](tmpl, setup); o != nil {
				s.do("afterwards", setup, o)
			}
		}
	})
	if keys() != in {
		c.Failf("operand-changed:keys", "the evaluation keys changed")
	}
	c.nontrivial = true
}

func init() {
	register("E06", false, func(c *Ctx) { either(c, e06[uint32], e06[uint64]) })
}
