//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"

	"SIMMODULE/math/poly"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
)

// tworker is one worker of a single-key session.
type tworker[T tfhe.TorusInt] struct {
	ev  *tfhe.Evaluator[T]
	enc *tfhe.Encryptor[T]
	tr  *tfhe.GLWETransformer[T]
}

type tsession[T tfhe.TorusInt] struct {
	session[T]
	par     tfhe.Parameters[T]
	sk      tfhe.SecretKey[T]
	N, k    int
	def     string // kind of the default LWE key
	evk     tfhe.EvaluationKey[T]
	inv     *tfhe.GLWETransformer[T]
	lev     []*gadgetObj[T]
	gsw     []*gadgetObj[T]
	glev    []*gadgetObj[T]
	fglev   []*gadgetObj[T]
	fggsw   []*gadgetObj[T]
	lksk    []*gadgetObj[T] // from foreign LWE keys
	lkskKey [][]T
	gksk    []*gadgetObj[T]
	gkskKey [][]poly.Poly[T]
	weight  float64 // 1-norm of the GLWE secret
	brN     float64 // error of a blind rotation
	ksN     float64 // error of the default key switching
	genEvk  func(enc *tfhe.Encryptor[T]) tfhe.EvaluationKey[T]
	noBoot  bool // the embedded evaluator has no bootstrapping key of its kind
	noKS    bool // nor a key switching key
}

func (s *tsession[T]) keyOf(kind string) []T {
	if kind == "B" {
		return s.sk.LWELargeKey.Value
	}
	return s.sk.LWEKey.Value
}

func asL[T tfhe.TorusInt](v any) tfhe.LWECiphertext[T]     { return v.(tfhe.LWECiphertext[T]) }
func asG[T tfhe.TorusInt](v any) tfhe.GLWECiphertext[T]    { return v.(tfhe.GLWECiphertext[T]) }
func asF[T tfhe.TorusInt](v any) tfhe.FFTGLWECiphertext[T] { return v.(tfhe.FFTGLWECiphertext[T]) }

// fftMag is the size of the coefficients of a transformed ciphertext.
func fftMag(ps []poly.FFTPoly) float64 {
	m := 0.0
	for _, p := range ps {
		t := 0.0
		for _, x := range p.Coeffs {
			t += x * x
		}
		m = math.Max(m, math.Sqrt(t/float64(len(p.Coeffs)))/math.Sqrt(float64(len(p.Coeffs))))
	}
	return 4 * m
}

func boxOf[X any, P interface {
	*X
	storable
}](v any) (storable, func() any) {
	p := new(X)
	*p = v.(X)
	return P(p), func() any { return *p }
}

func (s *tsession[T]) init(c *Ctx) {
	s.c, s.maxPool = c, 24
	s.kinds = map[string]*skind[T]{}
	lwe := func(name string, dim int) {
		s.kinds[name] = &skind[T]{
			name: name,
			zero: func() any { return tfhe.NewLWECiphertextCustom[T](dim) },
			phase: func(v any) []T {
				ct := asL[T](v)
				if len(ct.Value) != dim+1 {
					return nil
				}
				return []T{phaseLWE(ct.Value, s.keyOf(name))}
			},
			cut: func(v any) any { ct := asL[T](v); ct.Value = ct.Value[:len(ct.Value)/2]; return ct },
			box: boxOf[tfhe.LWECiphertext[T]],
		}
	}
	lwe("B", s.par.GLWEDimension())
	lwe("S", s.par.LWEDimension())
	s.kinds["G"] = &skind[T]{
		name: "G",
		zero: func() any { return tfhe.NewGLWECiphertextCustom[T](s.k, s.N) },
		phase: func(v any) []T {
			if ct := asG[T](v); len(ct.Value) == s.k+1 {
				return phaseGLWE(ct.Value, s.sk.GLWEKey.Value)
			}
			return nil
		},
		cut: func(v any) any {
			ct := asG[T](v)
			l := &ct.Value[len(ct.Value)-1]
			l.Coeffs = l.Coeffs[:s.N/2]
			return ct
		},
		box: boxOf[tfhe.GLWECiphertext[T]],
	}
	s.kinds["F"] = &skind[T]{
		name: "F",
		zero: func() any { return tfhe.NewFFTGLWECiphertextCustom[T](s.k, s.N) },
		phase: func(v any) []T {
			ct := asF[T](v)
			if len(ct.Value) != s.k+1 {
				return nil
			}
			return phaseGLWE(s.back(ct).Value, s.sk.GLWEKey.Value)
		},
		mag: func(v any) float64 { return fftMag(asF[T](v).Value) },
		cut: func(v any) any {
			ct := asF[T](v)
			l := &ct.Value[len(ct.Value)-1]
			l.Coeffs = l.Coeffs[:s.N/2]
			return ct
		},
		box: boxOf[tfhe.FFTGLWECiphertext[T]],
	}
}

// setup generates keys, gadget ciphertexts and first ciphertexts with the library.
func (s *tsession[T]) setup(r *simrt.Rng) {
	par := s.par
	s.N, s.k = par.PolyRank(), par.GLWERank()
	s.inv = tfhe.NewGLWETransformer[T](s.N)
	s.def = "S"
	if par.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		s.def = "B"
	}
	for _, p := range s.sk.GLWEKey.Value {
		s.weight += absSum(p.Coeffs)
	}
	s.amp = 1 + s.weight
	s.init(s.c)
	enc := tfhe.NewEncryptorWithKey(par, s.sk)
	if s.genEvk != nil {
		s.evk = s.genEvk(enc)
	} else {
		s.evk = enc.GenEvalKey()
	}
	gads := []tfhe.GadgetParameters[T]{par.BlindRotateParams(), par.KeySwitchParams(), gad[T](3, 5).Compile()}
	if sizeT[T]() == 64 {
		gads = append(gads, gad[T](11, 3).Compile())
	}
	G := s.kinds["G"].phase
	F := s.kinds["F"].phase
	small := func() []T {
		v := smallInts(r, s.N)
		o := make([]T, s.N)
		for i := range v {
			o[i] = T(v[i])
		}
		return o
	}
	toPoly := func(v []T) poly.Poly[T] { return poly.Poly[T]{Coeffs: append([]T(nil), v...)} }
	for _, g := range gads {
		// LWE gadget ciphertexts
		m := T(r.Intn(9) - 4)
		key := s.keyOf(s.def)
		levErr := func(ct tfhe.LevCiphertext[T], m T) float64 {
			var es [][]T
			for l := range ct.Value {
				es = append(es, []T{phaseLWE(ct.Value[l].Value, key) - m*baseQ(g, l)})
			}
			return rowNoise(g, es)
		}
		lev := enc.EncryptLevScalar(m, g)
		s.lev = append(s.lev, &gadgetObj[T]{g: g, v: lev, msg: []T{m}, rows: []float64{levErr(lev, m)}, key: math.Abs(signed(m))})
		gsw := enc.EncryptGSWScalar(m, g)
		go1 := &gadgetObj[T]{g: g, v: gsw, msg: []T{m}, key: math.Abs(signed(m)) * (1 + absSum(key))}
		for i := range gsw.Value {
			mm := m
			if i > 0 {
				mm *= key[i-1]
			}
			go1.rows = append(go1.rows, levErr(gsw.Value[i], mm))
		}
		s.gsw = append(s.gsw, go1)
		// GLWE gadget ciphertexts
		p := small()
		glevErr := func(get func(l int) []T, msg []T) float64 {
			var es [][]T
			for l := 0; l < g.Level(); l++ {
				es = append(es, addVec(get(l), scaleVec(msg, baseQ(g, l)), -1))
			}
			return rowNoise(g, es)
		}
		glev := enc.EncryptGLevPoly(toPoly(p), g)
		s.glev = append(s.glev, &gadgetObj[T]{g: g, v: glev, msg: p, key: absSum(p),
			rows: []float64{glevErr(func(l int) []T { return G(glev.Value[l]) }, p)}})
		p = small()
		fglev := enc.EncryptFFTGLevPoly(toPoly(p), g)
		s.fglev = append(s.fglev, &gadgetObj[T]{g: g, v: fglev, msg: p, key: absSum(p),
			rows: []float64{glevErr(func(l int) []T { return F(fglev.Value[l]) }, p)}})
		p = small()
		if r.Intn(2) == 0 {
			p = constPoly(s.N, T(r.Intn(2)))
		}
		fggsw := enc.EncryptFFTGGSWPoly(toPoly(p), g)
		go2 := &gadgetObj[T]{g: g, v: fggsw, msg: p, key: absSum(p) * (1 + s.weight)}
		for i := range fggsw.Value {
			mm := p
			if i > 0 {
				mm = negMul(p, s.sk.GLWEKey.Value[i-1].Coeffs)
			}
			row := fggsw.Value[i]
			go2.rows = append(go2.rows, glevErr(func(l int) []T { return F(row.Value[l]) }, mm))
		}
		s.fggsw = append(s.fggsw, go2)
		// key switching keys from foreign keys
		fk := make([]T, 1+r.Intn(12))
		for i := range fk {
			fk[i] = T(r.Intn(2))
		}
		ksk := enc.GenLWEKeySwitchKey(tfhe.LWESecretKey[T]{Value: append([]T(nil), fk...)}, g)
		go3 := &gadgetObj[T]{g: g, v: ksk, key: absSum(fk)}
		for i := range ksk.Value {
			go3.rows = append(go3.rows, levErr(ksk.Value[i], fk[i]))
		}
		s.lksk, s.lkskKey = append(s.lksk, go3), append(s.lkskKey, fk)
		fg := make([]poly.Poly[T], 1+r.Intn(3))
		go4 := &gadgetObj[T]{g: g}
		for i := range fg {
			fg[i] = poly.NewPoly[T](s.N)
			for j := range fg[i].Coeffs {
				fg[i].Coeffs[j] = T(r.Intn(2))
			}
			go4.key += absSum(fg[i].Coeffs)
		}
		gk := enc.GenGLWEKeySwitchKey(tfhe.GLWESecretKey[T]{Value: cloneOf(fg)}, g)
		go4.v = gk
		for i := range gk.Value {
			row := gk.Value[i]
			go4.rows = append(go4.rows, glevErr(func(l int) []T { return F(row.Value[l]) }, fg[i].Coeffs))
		}
		s.gksk, s.gkskKey = append(s.gksk, go4), append(s.gkskKey, fg)
	}
	for _, l := range [][]*gadgetObj[T]{s.lev, s.gsw, s.glev, s.fglev, s.fggsw, s.lksk, s.gksk} {
		for _, o := range l {
			o.sum = digestOf(o.v)
		}
	}
	// errors of bootstrapping
	g := par.BlindRotateParams()
	for i, ct := range s.evk.BlindRotateKey.Value {
		if s.noBoot {
			break
		}
		var rows []float64
		for row := range ct.Value {
			mm := constPoly(s.N, s.sk.LWEKey.Value[i])
			if row > 0 {
				mm = scaleVec(s.sk.GLWEKey.Value[row-1].Coeffs, s.sk.LWEKey.Value[i])
			}
			var es [][]T
			for l := 0; l < g.Level(); l++ {
				es = append(es, addVec(F(ct.Value[row].Value[l]), scaleVec(mm, baseQ(g, l)), -1))
			}
			rows = append(rows, rowNoise(g, es))
		}
		o := &gadgetObj[T]{g: g, rows: rows}
		// (X^a - 1) doubles the error, rounding is multiplied by the key bit
		s.brN += 2*o.prodBound(len(rows), math.Abs(signed(s.sk.LWEKey.Value[i]))*(1+s.weight)) + 2*s.fftErr(qOf[T]()*float64(g.Base())*math.Sqrt(float64(s.N)))
	}
	if par.LWEDimension() < par.GLWEDimension() {
		g := par.KeySwitchParams()
		o := &gadgetObj[T]{g: g}
		w := 0.0
		for i, ct := range s.evk.KeySwitchKey.Value {
			b := s.sk.LWELargeKey.Value[par.LWEDimension()+i]
			w += math.Abs(signed(b))
			var es [][]T
			for l := range ct.Value {
				es = append(es, []T{phaseLWE(ct.Value[l].Value, s.sk.LWEKey.Value) - b*baseQ(g, l)})
			}
			o.rows = append(o.rows, rowNoise(g, es))
		}
		s.ksN = o.prodBound(len(o.rows), w)
	}
	// first ciphertexts
	p := int(par.MessageModulus())
	for i := 0; i < 3; i++ {
		for _, k := range []string{"B", "S"} {
			if k == s.def {
				s.put(k, enc.EncryptLWE(r.Intn(p)))
				continue
			}
			ct := tfhe.NewLWECiphertextCustom[T](len(s.keyOf(k)))
			ct.Value[0] = T(r.Intn(p)) * par.Scale()
			for j, b := range s.keyOf(k) {
				ct.Value[j+1] = T(r.Uint64())
				ct.Value[0] -= ct.Value[j+1] * b
			}
			s.put(k, ct)
		}
		msg := make([]int, s.N)
		for j := range msg {
			msg[j] = r.Intn(p)
		}
		s.put("G", enc.EncryptGLWE(msg))
		s.put("F", enc.EncryptFFTGLWE(msg))
	}
}

// smallInts draws a polynomial with small coefficients.
func smallInts(r *simrt.Rng, n int) []int {
	v := make([]int, n)
	switch r.Intn(5) {
	case 0:
		v[0] = 1 + r.Intn(3)
	case 1:
		v[r.Intn(n)] = -1
	case 2:
		for i := 0; i < 3; i++ {
			v[r.Intn(n)] += r.Intn(7) - 3
		}
	case 3:
		for i := range v {
			v[i] = r.Intn(2)
		}
	default:
		for i := range v {
			v[i] = r.Intn(9) - 4
		}
	}
	return v
}

func polyFrom[T tfhe.TorusInt](v []int) poly.Poly[T] { return polyOf[T](v) }

func vecT[T tfhe.TorusInt](v []int) []T {
	o := make([]T, len(v))
	for i := range v {
		o[i] = T(v[i])
	}
	return o
}

func norm1(v []int) float64 { return l1(v) }

// ops returns constructors of operations for one worker. Each call of a
// constructor draws the plaintext operands.
func (s *tsession[T]) ops() []func(w *tworker[T], r *simrt.Rng) *sop[T] {
	type W = *tworker[T]
	type R = *simrt.Rng
	type S = sop[T]
	const own = "tfhe.Evaluator"
	Q := qOf[T]()
	exact := func([]float64) float64 { return 0 }
	var out []func(w W, r R) *S
	add := func(f func(w W, r R) *S) { out = append(out, f) }
	polyT := func(v any) poly.Poly[T] { return v.(poly.Poly[T]) }
	_ = polyT

	// --- LWE ---
	lweKind := func(r R, allocable bool) (string, bool) {
		if r.Intn(2) == 0 {
			return s.def, true
		}
		if r.Intn(2) == 0 {
			return "B", s.def == "B"
		}
		return "S", s.def == "S"
	}
	lwe2 := func(name string, sign int, al func(w W) func(a, b tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T], to func(w W) func(d, a, b tfhe.LWECiphertext[T])) {
		add(func(w W, r R) *S {
			k, d := lweKind(r, true)
			o := &S{name: name, owner: own, out: k, in: []string{k, k}, pos: []int{1, 2}, bound: exact,
				to:   func(d any, in []any) { to(w)(asL[T](d), asL[T](in[0]), asL[T](in[1])) },
				want: func(ph [][]T) []T { return addVec(ph[0], ph[1], sign) }}
			if d {
				o.alloc = func(in []any) any { return al(w)(asL[T](in[0]), asL[T](in[1])) }
			}
			return o
		})
	}
	lwe2("AddLWETo", 1, func(w W) func(a, b tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { return w.ev.AddLWE }, func(w W) func(d, a, b tfhe.LWECiphertext[T]) { return w.ev.AddLWETo })
	lwe2("SubLWETo", -1, func(w W) func(a, b tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { return w.ev.SubLWE }, func(w W) func(d, a, b tfhe.LWECiphertext[T]) { return w.ev.SubLWETo })
	lwe1 := func(name string, al func(w W, a tfhe.LWECiphertext[T], x T) tfhe.LWECiphertext[T], to func(w W, d, a tfhe.LWECiphertext[T], x T), acc int, want func(p, x T) T) {
		add(func(w W, r R) *S {
			k, d := lweKind(r, true)
			x := T(r.Uint64())
			if r.Intn(2) == 0 {
				x = T(r.Intn(9) - 4)
			}
			o := &S{name: name, owner: own, out: k, in: []string{k}, pos: []int{1}, bound: exact, acc: acc,
				to:   func(d any, in []any) { to(w, asL[T](d), asL[T](in[0]), x) },
				want: func(ph [][]T) []T { return []T{want(ph[0][0], x)} }}
			if d && al != nil {
				o.alloc = func(in []any) any { return al(w, asL[T](in[0]), x) }
			}
			return o
		})
	}
	type L = tfhe.LWECiphertext[T]
	lwe1("NegLWETo", func(w W, a L, x T) L { return w.ev.NegLWE(a) }, func(w W, d, a L, x T) { w.ev.NegLWETo(d, a) }, 0, func(p, x T) T { return -p })
	lwe1("ScalarMulLWETo", func(w W, a L, x T) L { return w.ev.ScalarMulLWE(a, x) }, func(w W, d, a L, x T) { w.ev.ScalarMulLWETo(d, a, x) }, 0, func(p, x T) T { return p * x })
	lwe1("ScalarMulAddLWETo", nil, func(w W, d, a L, x T) { w.ev.ScalarMulAddLWETo(d, a, x) }, 1, func(p, x T) T { return p * x })
	lwe1("ScalarMulSubLWETo", nil, func(w W, d, a L, x T) { w.ev.ScalarMulSubLWETo(d, a, x) }, -1, func(p, x T) T { return p * x })
	lwe1("AddPlainLWETo", func(w W, a L, x T) L { return w.ev.AddPlainLWE(a, tfhe.LWEPlaintext[T]{Value: x}) }, func(w W, d, a L, x T) { w.ev.AddPlainLWETo(d, a, tfhe.LWEPlaintext[T]{Value: x}) }, 0, func(p, x T) T { return p + x })
	lwe1("SubPlainLWETo", func(w W, a L, x T) L { return w.ev.SubPlainLWE(a, tfhe.LWEPlaintext[T]{Value: x}) }, func(w W, d, a L, x T) { w.ev.SubPlainLWETo(d, a, tfhe.LWEPlaintext[T]{Value: x}) }, 0, func(p, x T) T { return p - x })
	for acc := -1; acc <= 1; acc++ {
		acc := acc
		add(func(w W, r R) *S { // gadget product
			g := s.lev[r.Intn(len(s.lev))]
			lev := g.v.(tfhe.LevCiphertext[T])
			x := T(r.Uint64())
			if r.Intn(4) == 0 {
				x = T(r.Intn(3)-1) << r.Intn(sizeT[T]())
			}
			o := &S{name: []string{"GadgetProdSubLWETo", "GadgetProdLWETo", "GadgetProdAddLWETo"}[acc+1], owner: own, out: s.def, acc: acc,
				bound: func([]float64) float64 { return g.prodBound(1, g.key) },
				want:  func([][]T) []T { return []T{x * g.msg[0]} }}
			switch acc {
			case 0:
				o.to = func(d any, in []any) { w.ev.GadgetProdLWETo(asL[T](d), lev, x) }
				o.alloc = func(in []any) any { return w.ev.GadgetProdLWE(lev, x) }
			case 1:
				o.to = func(d any, in []any) { w.ev.GadgetProdAddLWETo(asL[T](d), lev, x) }
			case -1:
				o.to = func(d any, in []any) { w.ev.GadgetProdSubLWETo(asL[T](d), lev, x) }
			}
			return o
		})
		add(func(w W, r R) *S { // external product
			g := s.gsw[r.Intn(len(s.gsw))]
			gsw := g.v.(tfhe.GSWCiphertext[T])
			o := &S{name: []string{"ExternalProdSubLWETo", "ExternalProdLWETo", "ExternalProdAddLWETo"}[acc+1], owner: own, out: s.def, acc: acc, in: []string{s.def}, pos: []int{2},
				bound: func([]float64) float64 { return g.prodBound(len(g.rows), g.key) },
				want:  func(ph [][]T) []T { return []T{ph[0][0] * g.msg[0]} }}
			switch acc {
			case 0:
				o.to = func(d any, in []any) { w.ev.ExternalProdLWETo(asL[T](d), gsw, asL[T](in[0])) }
				o.alloc = func(in []any) any { return w.ev.ExternalProdLWE(gsw, asL[T](in[0])) }
			case 1:
				o.to = func(d any, in []any) { w.ev.ExternalProdAddLWETo(asL[T](d), gsw, asL[T](in[0])) }
			case -1:
				o.to = func(d any, in []any) { w.ev.ExternalProdSubLWETo(asL[T](d), gsw, asL[T](in[0])) }
			}
			return o
		})
	}
	add(func(w W, r R) *S { // key switching from a foreign key
		at := r.Intn(len(s.lksk))
		g, fk := s.lksk[at], s.lkskKey[at]
		ksk := g.v.(tfhe.LWEKeySwitchKey[T])
		ct := tfhe.NewLWECiphertextCustom[T](len(fk))
		for i := range ct.Value {
			ct.Value[i] = T(r.Uint64())
		}
		want := phaseLWE(ct.Value, fk)
		return &S{name: "KeySwitchLWETo", owner: own, out: s.def,
			bound: func([]float64) float64 { return g.prodBound(len(g.rows), g.key) },
			want:  func([][]T) []T { return []T{want} },
			to:    func(d any, in []any) { w.ev.KeySwitchLWETo(asL[T](d), ct, ksk) },
			alloc: func(in []any) any { return w.ev.KeySwitchLWE(ct, ksk) }}
	})
	if s.par.LWEDimension() < s.par.GLWEDimension() && !s.noKS {
		add(func(w W, r R) *S {
			o := &S{name: "DefaultKeySwitchTo", owner: own, out: "S", in: []string{"B"}, pos: []int{1},
				bound: func([]float64) float64 { return s.ksN },
				want:  func(ph [][]T) []T { return ph[0] },
				to:    func(d any, in []any) { w.ev.DefaultKeySwitchTo(asL[T](d), asL[T](in[0])) },
				alloc: func(in []any) any { return w.ev.DefaultKeySwitch(asL[T](in[0])) }}
			return o
		})
	}

	// --- GLWE and transformed GLWE, linear ---
	type G = tfhe.GLWECiphertext[T]
	type F = tfhe.FFTGLWECiphertext[T]
	g2 := func(name string, sign int, al func(w W, a, b G) G, to func(w W, d, a, b G)) {
		add(func(w W, r R) *S {
			return &S{name: name, owner: own, out: "G", in: []string{"G", "G"}, pos: []int{1, 2}, bound: exact,
				alloc: func(in []any) any { return al(w, asG[T](in[0]), asG[T](in[1])) },
				to:    func(d any, in []any) { to(w, asG[T](d), asG[T](in[0]), asG[T](in[1])) },
				want:  func(ph [][]T) []T { return addVec(ph[0], ph[1], sign) }}
		})
	}
	g2("AddGLWETo", 1, func(w W, a, b G) G { return w.ev.AddGLWE(a, b) }, func(w W, d, a, b G) { w.ev.AddGLWETo(d, a, b) })
	g2("SubGLWETo", -1, func(w W, a, b G) G { return w.ev.SubGLWE(a, b) }, func(w W, d, a, b G) { w.ev.SubGLWETo(d, a, b) })
	f2 := func(name string, sign int, al func(w W, a, b F) F, to func(w W, d, a, b F)) {
		add(func(w W, r R) *S {
			return &S{name: name, owner: own, out: "F", in: []string{"F", "F"}, pos: []int{1, 2},
				bound: func(m []float64) float64 { return s.fftErr(m[0] + m[1]) },
				alloc: func(in []any) any { return al(w, asF[T](in[0]), asF[T](in[1])) },
				to:    func(d any, in []any) { to(w, asF[T](d), asF[T](in[0]), asF[T](in[1])) },
				want:  func(ph [][]T) []T { return addVec(ph[0], ph[1], sign) }}
		})
	}
	f2("AddFFTGLWETo", 1, func(w W, a, b F) F { return w.ev.AddFFTGLWE(a, b) }, func(w W, d, a, b F) { w.ev.AddFFTGLWETo(d, a, b) })
	f2("SubFFTGLWETo", -1, func(w W, a, b F) F { return w.ev.SubFFTGLWE(a, b) }, func(w W, d, a, b F) { w.ev.SubFFTGLWETo(d, a, b) })

	// g1 is an operation of one GLWE ciphertext and a plaintext operand X.
	g1 := func(name string, acc int, mk func(w W, r R) (al func(a G) G, to func(d, a G), want func(p []T) []T, bound float64, self bool)) {
		add(func(w W, r R) *S {
			al, to, want, bound, self := mk(w, r)
			o := &S{name: name, owner: own, out: "G", in: []string{"G"}, pos: []int{1}, acc: acc, self: self,
				bound: func([]float64) float64 { return bound },
				to:    func(d any, in []any) { to(asG[T](d), asG[T](in[0])) },
				want:  func(ph [][]T) []T { return want(ph[0]) }}
			if al != nil {
				o.alloc = func(in []any) any { return al(asG[T](in[0])) }
			}
			return o
		})
	}
	f1 := func(name string, acc int, mk func(w W, r R) (al func(a F) F, to func(d, a F), want func(p []T) []T, grow float64, self bool)) {
		add(func(w W, r R) *S {
			al, to, want, grow, self := mk(w, r)
			o := &S{name: name, owner: own, out: "F", in: []string{"F"}, pos: []int{1}, acc: acc, self: self,
				bound: func(m []float64) float64 { return s.fftErr(m[0]*grow+m[1]) + s.amp*(1+grow) },
				to:    func(d any, in []any) { to(asF[T](d), asF[T](in[0])) },
				want:  func(ph [][]T) []T { return want(ph[0]) }}
			if al != nil {
				o.alloc = func(in []any) any { return al(asF[T](in[0])) }
			}
			return o
		})
	}
	neg := func(p []T) []T { return scaleVec(p, ^T(0)) }
	g1("NegGLWETo", 0, func(w W, r R) (func(G) G, func(d, a G), func([]T) []T, float64, bool) {
		return w.ev.NegGLWE, w.ev.NegGLWETo, neg, 0, false
	})
	f1("NegFFTGLWETo", 0, func(w W, r R) (func(F) F, func(d, a F), func([]T) []T, float64, bool) {
		return w.ev.NegFFTGLWE, w.ev.NegFFTGLWETo, neg, 1, false
	})
	pt := func(r R) tfhe.GLWEPlaintext[T] {
		p := tfhe.NewGLWEPlaintextCustom[T](s.N)
		for i := range p.Value.Coeffs {
			p.Value.Coeffs[i] = T(r.Uint64())
		}
		return p
	}
	g1("AddPlainGLWETo", 0, func(w W, r R) (func(G) G, func(d, a G), func([]T) []T, float64, bool) {
		x := pt(r)
		return func(a G) G { return w.ev.AddPlainGLWE(a, x) }, func(d, a G) { w.ev.AddPlainGLWETo(d, a, x) }, func(p []T) []T { return addVec(p, x.Value.Coeffs, 1) }, 0, false
	})
	g1("SubPlainGLWETo", 0, func(w W, r R) (func(G) G, func(d, a G), func([]T) []T, float64, bool) {
		x := pt(r)
		return func(a G) G { return w.ev.SubPlainGLWE(a, x) }, func(d, a G) { w.ev.SubPlainGLWETo(d, a, x) }, func(p []T) []T { return addVec(p, x.Value.Coeffs, -1) }, 0, false
	})
	fl := func(r R) (float64, T) {
		x := r.Intn(9) - 4
		return float64(x), T(x)
	}
	for acc := -1; acc <= 1; acc++ {
		acc := acc
		n3 := func(a, b, c string) string { return []string{a, b, c}[acc+1] }
		// scalar
		g1(n3("ScalarMulSubGLWETo", "ScalarMulGLWETo", "ScalarMulAddGLWETo"), acc, func(w W, r R) (al func(G) G, to func(d, a G), want func([]T) []T, bound float64, self bool) {
			x := T(r.Uint64())
			want = func(p []T) []T { return scaleVec(p, x) }
			switch acc {
			case 0:
				al = func(a G) G { return w.ev.ScalarMulGLWE(a, x) }
				to = func(d, a G) { w.ev.ScalarMulGLWETo(d, a, x) }
			case 1:
				to = func(d, a G) { w.ev.ScalarMulAddGLWETo(d, a, x) }
			default:
				to = func(d, a G) { w.ev.ScalarMulSubGLWETo(d, a, x) }
			}
			return
		})
		f1(n3("FloatMulSubFFTGLWETo", "FloatMulFFTGLWETo", "FloatMulAddFFTGLWETo"), acc, func(w W, r R) (al func(F) F, to func(d, a F), want func([]T) []T, grow float64, self bool) {
			x, xt := fl(r)
			grow = math.Abs(x)
			want = func(p []T) []T { return scaleVec(p, xt) }
			switch acc {
			case 0:
				al = func(a F) F { return w.ev.FloatMulFFTGLWE(a, x) }
				to = func(d, a F) { w.ev.FloatMulFFTGLWETo(d, a, x) }
			case 1:
				to = func(d, a F) { w.ev.FloatMulAddFFTGLWETo(d, a, x) }
			default:
				to = func(d, a F) { w.ev.FloatMulSubFFTGLWETo(d, a, x) }
			}
			return
		})
		f1(n3("CmplxMulSubFFTGLWETo", "CmplxMulFFTGLWETo", "CmplxMulAddFFTGLWETo"), acc, func(w W, r R) (al func(F) F, to func(d, a F), want func([]T) []T, grow float64, self bool) {
			x, xt := fl(r)
			y, yt := fl(r)
			grow = math.Abs(x) + math.Abs(y)
			want = func(p []T) []T { // i is X^(N/2)
				q := make([]T, s.N)
				q[0], q[s.N/2] = xt, yt
				return negMul(p, q)
			}
			z := complex(x, y)
			switch acc {
			case 0:
				al = func(a F) F { return w.ev.CmplxMulFFTGLWE(a, z) }
				to = func(d, a F) { w.ev.CmplxMulFFTGLWETo(d, a, z) }
			case 1:
				to = func(d, a F) { w.ev.CmplxMulAddFFTGLWETo(d, a, z) }
			default:
				to = func(d, a F) { w.ev.CmplxMulSubFFTGLWETo(d, a, z) }
			}
			return
		})
		// polynomials
		g1(n3("PolyMulSubGLWETo", "PolyMulGLWETo", "PolyMulAddGLWETo"), acc, func(w W, r R) (al func(G) G, to func(d, a G), want func([]T) []T, bound float64, self bool) {
			v := vecT[T](smallInts(r, s.N))
			if r.Intn(2) == 0 {
				for i := range v {
					v[i] = T(r.Uint64())
				}
			}
			x := poly.Poly[T]{Coeffs: v}
			want = func(p []T) []T { return negMul(p, v) }
			bound = 2 * s.amp
			switch acc {
			case 0:
				al = func(a G) G { return w.ev.PolyMulGLWE(a, x) }
				to = func(d, a G) { w.ev.PolyMulGLWETo(d, a, x) }
			case 1:
				to = func(d, a G) { w.ev.PolyMulAddGLWETo(d, a, x) }
			default:
				to = func(d, a G) { w.ev.PolyMulSubGLWETo(d, a, x) }
			}
			return
		})
		f1(n3("PolyMulSubFFTGLWETo", "PolyMulFFTGLWETo", "PolyMulAddFFTGLWETo"), acc, func(w W, r R) (al func(F) F, to func(d, a F), want func([]T) []T, grow float64, self bool) {
			v := smallInts(r, s.N)
			x := polyOf[T](v)
			grow = norm1(v)
			want = func(p []T) []T { return negMul(p, x.Coeffs) }
			switch acc {
			case 0:
				al = func(a F) F { return w.ev.PolyMulFFTGLWE(a, x) }
				to = func(d, a F) { w.ev.PolyMulFFTGLWETo(d, a, x) }
			case 1:
				to = func(d, a F) { w.ev.PolyMulAddFFTGLWETo(d, a, x) }
			default:
				to = func(d, a F) { w.ev.PolyMulSubFFTGLWETo(d, a, x) }
			}
			return
		})
		g1(n3("FFTPolyMulSubGLWETo", "FFTPolyMulGLWETo", "FFTPolyMulAddGLWETo"), acc, func(w W, r R) (al func(G) G, to func(d, a G), want func([]T) []T, bound float64, self bool) {
			v := smallInts(r, s.N)
			x := polyOf[T](v)
			fx := w.ev.PolyEvaluator.FwdFFT(x)
			bound = s.fftErr(Q * norm1(v))
			want = func(p []T) []T { return negMul(p, x.Coeffs) }
			switch acc {
			case 0:
				al = func(a G) G { return w.ev.FFTPolyMulGLWE(a, fx) }
				to = func(d, a G) { w.ev.FFTPolyMulGLWETo(d, a, fx) }
			case 1:
				to = func(d, a G) { w.ev.FFTPolyMulAddGLWETo(d, a, fx) }
			default:
				to = func(d, a G) { w.ev.FFTPolyMulSubGLWETo(d, a, fx) }
			}
			return
		})
		f1(n3("FFTPolyMulSubFFTGLWETo", "FFTPolyMulFFTGLWETo", "FFTPolyMulAddFFTGLWETo"), acc, func(w W, r R) (al func(F) F, to func(d, a F), want func([]T) []T, grow float64, self bool) {
			v := smallInts(r, s.N)
			x := polyOf[T](v)
			fx := w.ev.PolyEvaluator.FwdFFT(x)
			grow = norm1(v)
			want = func(p []T) []T { return negMul(p, x.Coeffs) }
			switch acc {
			case 0:
				al = func(a F) F { return w.ev.FFTPolyMulFFTGLWE(a, fx) }
				to = func(d, a F) { w.ev.FFTPolyMulFFTGLWETo(d, a, fx) }
			case 1:
				to = func(d, a F) { w.ev.FFTPolyMulAddFFTGLWETo(d, a, fx) }
			default:
				to = func(d, a F) { w.ev.FFTPolyMulSubFFTGLWETo(d, a, fx) }
			}
			return
		})
		// monomials and automorphisms
		g1(n3("MonomialMulSubGLWETo", "MonomialMulGLWETo", "MonomialMulAddGLWETo"), acc, func(w W, r R) (al func(G) G, to func(d, a G), want func([]T) []T, bound float64, self bool) {
			d := r.Intn(8*s.N) - 4*s.N
			want = func(p []T) []T { return negMul(p, vecT[T](monoInt(s.N, d))) }
			switch acc {
			case 0:
				al = func(a G) G { return w.ev.MonomialMulGLWE(a, d) }
				to = func(o, a G) { w.ev.MonomialMulGLWETo(o, a, d) }
			case 1:
				to = func(o, a G) { w.ev.MonomialMulAddGLWETo(o, a, d) }
			default:
				to = func(o, a G) { w.ev.MonomialMulSubGLWETo(o, a, d) }
			}
			return
		})
		add(func(w W, r R) *S { // automorphism: judged under the permuted key
			d := 2*r.Intn(4*s.N) + 1 - 4*s.N
			sk := s.permuted(d)
			ph := func(v any) []T { return phaseGLWE(asG[T](v).Value, sk) }
			o := &S{name: n3("PermuteSubGLWETo", "PermuteGLWETo", "PermuteAddGLWETo"), owner: own, out: "G", in: []string{"G"}, pos: []int{1}, acc: acc, bound: exact, phase: ph,
				want: func(p [][]T) []T { return autoPoly(p[0], d) }}
			switch acc {
			case 0:
				o.alloc = func(in []any) any { return w.ev.PermuteGLWE(asG[T](in[0]), d) }
				o.to = func(v any, in []any) { w.ev.PermuteGLWETo(asG[T](v), asG[T](in[0]), d) }
			case 1:
				o.to = func(v any, in []any) { w.ev.PermuteAddGLWETo(asG[T](v), asG[T](in[0]), d) }
			default:
				o.to = func(v any, in []any) { w.ev.PermuteSubGLWETo(asG[T](v), asG[T](in[0]), d) }
			}
			return o
		})
		add(func(w W, r R) *S {
			d := 2*r.Intn(4*s.N) + 1 - 4*s.N
			sk := s.permuted(d)
			ph := func(v any) []T { return phaseGLWE(s.back(asF[T](v)).Value, sk) }
			o := &S{name: n3("PermuteSubFFTGLWETo", "PermuteFFTGLWETo", "PermuteAddFFTGLWETo"), owner: own, out: "F", in: []string{"F"}, pos: []int{1}, acc: acc, phase: ph,
				bound: func(m []float64) float64 { return s.fftErr(m[0] + m[1]) },
				want:  func(p [][]T) []T { return autoPoly(p[0], d) }}
			switch acc {
			case 0:
				o.alloc = func(in []any) any { return w.ev.PermuteFFTGLWE(asF[T](in[0]), d) }
				o.to = func(v any, in []any) { w.ev.PermuteFFTGLWETo(asF[T](v), asF[T](in[0]), d) }
			case 1:
				o.to = func(v any, in []any) { w.ev.PermuteAddFFTGLWETo(asF[T](v), asF[T](in[0]), d) }
			default:
				o.to = func(v any, in []any) { w.ev.PermuteSubFFTGLWETo(asF[T](v), asF[T](in[0]), d) }
			}
			return o
		})
		// gadget products
		randPoly := func(r R) poly.Poly[T] {
			p := poly.NewPoly[T](s.N)
			if r.Intn(5) == 0 {
				return polyOf[T](smallInts(r, s.N))
			}
			for i := range p.Coeffs {
				p.Coeffs[i] = T(r.Uint64())
			}
			return p
		}
		prodErr := func(g *gadgetObj[T], rows int) float64 {
			return s.fftErr(Q * float64(g.g.Base()) * math.Sqrt(float64(s.N)) * float64(g.g.Level()*rows))
		}
		add(func(w W, r R) *S {
			g := s.fglev[r.Intn(len(s.fglev))]
			x := g.v.(tfhe.FFTGLevCiphertext[T])
			p := randPoly(r)
			o := &S{name: n3("GadgetProdSubGLWETo", "GadgetProdGLWETo", "GadgetProdAddGLWETo"), owner: own, out: "G", acc: acc,
				bound: func([]float64) float64 { return g.prodBound(1, g.key) + prodErr(g, 1) },
				want:  func([][]T) []T { return negMul(p.Coeffs, g.msg) }}
			switch acc {
			case 0:
				o.alloc = func([]any) any { return w.ev.GadgetProdGLWE(x, p) }
				o.to = func(v any, in []any) { w.ev.GadgetProdGLWETo(asG[T](v), x, p) }
			case 1:
				o.to = func(v any, in []any) { w.ev.GadgetProdAddGLWETo(asG[T](v), x, p) }
			default:
				o.to = func(v any, in []any) { w.ev.GadgetProdSubGLWETo(asG[T](v), x, p) }
			}
			return o
		})
		add(func(w W, r R) *S {
			g := s.fglev[r.Intn(len(s.fglev))]
			x := g.v.(tfhe.FFTGLevCiphertext[T])
			p := randPoly(r)
			pd := w.ev.Decomposer.FourierDecomposePoly(p, g.g)
			o := &S{name: n3("GadgetProdSubFFTGLWETo", "GadgetProdFFTGLWETo", "GadgetProdAddFFTGLWETo"), owner: own, out: "F", acc: acc,
				bound: func(m []float64) float64 { return g.prodBound(1, g.key) + prodErr(g, 1) + s.fftErr(m[len(m)-1]) },
				want:  func([][]T) []T { return negMul(p.Coeffs, g.msg) }}
			switch acc {
			case 0:
				o.to = func(v any, in []any) { w.ev.GadgetProdFFTGLWETo(asF[T](v), x, pd) }
			case 1:
				o.to = func(v any, in []any) { w.ev.GadgetProdAddFFTGLWETo(asF[T](v), x, pd) }
			default:
				o.to = func(v any, in []any) { w.ev.GadgetProdSubFFTGLWETo(asF[T](v), x, pd) }
			}
			return o
		})
		add(func(w W, r R) *S {
			g := s.fggsw[r.Intn(len(s.fggsw))]
			x := g.v.(tfhe.FFTGGSWCiphertext[T])
			o := &S{name: n3("ExternalProdSubGLWETo", "ExternalProdGLWETo", "ExternalProdAddGLWETo"), owner: own, out: "G", in: []string{"G"}, pos: []int{2}, acc: acc,
				bound: func([]float64) float64 { return g.prodBound(len(g.rows), g.key) + prodErr(g, s.k+1) },
				want:  func(p [][]T) []T { return negMul(p[0], g.msg) }}
			switch acc {
			case 0:
				o.alloc = func(in []any) any { return w.ev.ExternalProdGLWE(x, asG[T](in[0])) }
				o.to = func(v any, in []any) { w.ev.ExternalProdGLWETo(asG[T](v), x, asG[T](in[0])) }
			case 1:
				o.to = func(v any, in []any) { w.ev.ExternalProdAddGLWETo(asG[T](v), x, asG[T](in[0])) }
			default:
				o.to = func(v any, in []any) { w.ev.ExternalProdSubGLWETo(asG[T](v), x, asG[T](in[0])) }
			}
			return o
		})
		add(func(w W, r R) *S {
			g := s.fggsw[r.Intn(len(s.fggsw))]
			x := g.v.(tfhe.FFTGGSWCiphertext[T])
			dec := func(ct G) [][]poly.FFTPoly {
				var d [][]poly.FFTPoly
				for i := range ct.Value {
					d = append(d, w.ev.Decomposer.FourierDecomposePoly(ct.Value[i], g.g))
				}
				return d
			}
			o := &S{name: n3("ExternalProdSubFFTGLWETo", "ExternalProdFFTGLWETo", "ExternalProdAddFFTGLWETo"), owner: own, out: "F", in: []string{"G"}, pos: []int{2}, acc: acc,
				bound: func(m []float64) float64 {
					return g.prodBound(len(g.rows), g.key) + prodErr(g, s.k+1) + s.fftErr(m[len(m)-1])
				},
				want: func(p [][]T) []T { return negMul(p[0], g.msg) }}
			switch acc {
			case 0:
				o.to = func(v any, in []any) { w.ev.ExternalProdFFTGLWETo(asF[T](v), x, dec(asG[T](in[0]))) }
			case 1:
				o.to = func(v any, in []any) { w.ev.ExternalProdAddFFTGLWETo(asF[T](v), x, dec(asG[T](in[0]))) }
			default:
				o.to = func(v any, in []any) { w.ev.ExternalProdSubFFTGLWETo(asF[T](v), x, dec(asG[T](in[0]))) }
			}
			return o
		})
		if acc == 0 {
			add(func(w W, r R) *S {
				g := s.fggsw[r.Intn(len(s.fggsw))]
				x := g.v.(tfhe.FFTGGSWCiphertext[T])
				return &S{name: "CMuxTo", owner: own, out: "G", in: []string{"G", "G"}, pos: []int{2, 3},
					bound: func([]float64) float64 { return g.prodBound(len(g.rows), g.key) + prodErr(g, s.k+1) },
					want:  func(p [][]T) []T { return addVec(p[0], negMul(addVec(p[1], p[0], -1), g.msg), 1) },
					alloc: func(in []any) any { return w.ev.CMux(x, asG[T](in[0]), asG[T](in[1])) },
					to:    func(v any, in []any) { w.ev.CMuxTo(asG[T](v), x, asG[T](in[0]), asG[T](in[1])) }}
			})
			add(func(w W, r R) *S {
				at := r.Intn(len(s.gksk))
				g, fk := s.gksk[at], s.gkskKey[at]
				x := g.v.(tfhe.GLWEKeySwitchKey[T])
				ct := tfhe.NewGLWECiphertextCustom[T](len(fk), s.N)
				for i := range ct.Value {
					for j := range ct.Value[i].Coeffs {
						ct.Value[i].Coeffs[j] = T(r.Uint64())
					}
				}
				want := phaseGLWE(ct.Value, fk)
				return &S{name: "KeySwitchGLWETo", owner: own, out: "G",
					bound: func([]float64) float64 { return g.prodBound(len(g.rows), g.key) + prodErr(g, len(fk)) },
					want:  func([][]T) []T { return want },
					alloc: func(in []any) any { return w.ev.KeySwitchGLWE(ct, x) },
					to:    func(v any, in []any) { w.ev.KeySwitchGLWETo(asG[T](v), ct, x) }}
			})
		}
	}
	g1("MonomialMulGLWEInPlace", 0, func(w W, r R) (al func(G) G, to func(d, a G), want func([]T) []T, bound float64, self bool) {
		d := r.Intn(8*s.N) - 4*s.N
		return nil, func(o, a G) { w.ev.MonomialMulGLWEInPlace(o, d) }, func(p []T) []T { return negMul(p, vecT[T](monoInt(s.N, d))) }, 0, true
	})
	add(func(w W, r R) *S {
		d := 2*r.Intn(4*s.N) + 1 - 4*s.N
		sk := s.permuted(d)
		return &S{name: "PermuteGLWEInPlace", owner: own, out: "G", in: []string{"G"}, pos: []int{0}, self: true, bound: exact,
			phase: func(v any) []T { return phaseGLWE(asG[T](v).Value, sk) },
			want:  func(p [][]T) []T { return autoPoly(p[0], d) },
			to:    func(v any, in []any) { w.ev.PermuteGLWEInPlace(asG[T](v), d) }}
	})
	add(func(w W, r R) *S {
		d := 2*r.Intn(4*s.N) + 1 - 4*s.N
		sk := s.permuted(d)
		return &S{name: "PermuteFFTGLWEInPlace", owner: own, out: "F", in: []string{"F"}, pos: []int{0}, self: true,
			bound: func(m []float64) float64 { return s.fftErr(m[0]) },
			phase: func(v any) []T { return phaseGLWE(s.back(asF[T](v)).Value, sk) },
			want:  func(p [][]T) []T { return autoPoly(p[0], d) },
			to:    func(v any, in []any) { w.ev.PermuteFFTGLWEInPlace(asF[T](v), d) }}
	})
	// --- conversions ---
	tr := func(w W, r R) *tfhe.GLWETransformer[T] {
		switch r.Intn(3) {
		case 0:
			return w.ev.GLWETransformer
		case 1:
			return w.enc.GLWETransformer
		}
		return w.tr
	}
	add(func(w W, r R) *S {
		t := tr(w, r)
		return &S{name: "FwdFFTGLWECiphertextTo", owner: "tfhe.GLWETransformer", out: "F", in: []string{"G"}, pos: []int{1},
			bound: func([]float64) float64 { return s.fftErr(Q) },
			want:  func(p [][]T) []T { return p[0] },
			alloc: func(in []any) any { return t.FwdFFTGLWECiphertext(asG[T](in[0])) },
			to:    func(v any, in []any) { t.FwdFFTGLWECiphertextTo(asF[T](v), asG[T](in[0])) }}
	})
	add(func(w W, r R) *S {
		t := tr(w, r)
		return &S{name: "InvFFTGLWECiphertextTo", owner: "tfhe.GLWETransformer", out: "G", in: []string{"F"}, pos: []int{1},
			bound: func(m []float64) float64 { return s.fftErr(m[0]) },
			want:  func(p [][]T) []T { return p[0] },
			alloc: func(in []any) any { return t.InvFFTGLWECiphertext(asF[T](in[0])) },
			to:    func(v any, in []any) { t.InvFFTGLWECiphertextTo(asG[T](v), asF[T](in[0])) }}
	})
	add(func(w W, r R) *S {
		i := r.Intn(s.N)
		return &S{name: "AsLWECiphertextTo", owner: "tfhe.GLWECiphertext", out: "B", in: []string{"G"}, pos: []int{1}, bound: exact,
			want:  func(p [][]T) []T { return p[0][i : i+1] },
			alloc: func(in []any) any { return asG[T](in[0]).AsLWECiphertext(i) },
			to:    func(v any, in []any) { asG[T](in[0]).AsLWECiphertextTo(i, asL[T](v)) }}
	})
	if !s.noBoot {
		s.bootOps(add)
	}
	return out
}

var _ = fmt.Sprint
var _ = reflect.TypeOf

// permuted is the GLWE secret with X replaced by X^d.
func (s *tsession[T]) permuted(d int) []poly.Poly[T] {
	var o []poly.Poly[T]
	for _, p := range s.sk.GLWEKey.Value {
		o = append(o, poly.Poly[T]{Coeffs: autoPoly(p.Coeffs, d)})
	}
	return o
}

// back is the inverse transform.
func (s *tsession[T]) back(ct tfhe.FFTGLWECiphertext[T]) tfhe.GLWECiphertext[T] {
	out := tfhe.NewGLWECiphertextCustom[T](len(ct.Value)-1, s.N)
	simrt.Quiet(func() { s.inv.InvFFTGLWECiphertextTo(out, cloneOf(ct)) })
	return out
}

// lutModel is the table a bootstrapping evaluates: entry t belongs to phases
// around t/2L.
type lutModel[T tfhe.TorusInt] struct {
	f    []T
	tied bool // entries next to an edge may be rounded either way
}

func newLUTModel[T tfhe.TorusInt](L int, y []T) lutModel[T] {
	p := len(y)
	round := func(a, b int) int { return (2*a + b) / (2 * b) }
	raw := make([]T, L)
	for x := range y {
		for i := round(x*L, p); i < round((x+1)*L, p); i++ {
			raw[i] = y[x]
		}
	}
	m := lutModel[T]{f: make([]T, L), tied: L%(2*p) != 0}
	off := round(L, 2*p)
	for i := range m.f {
		if j := i + off; j < L {
			m.f[i] = raw[j]
		} else {
			m.f[i] = -raw[j-L]
		}
	}
	return m
}

// at is the entry for rotation t.
func (m lutModel[T]) at(t int) T {
	L := len(m.f)
	t = ((t % (2 * L)) + 2*L) % (2 * L)
	if t < L {
		return m.f[t]
	}
	return -m.f[t-L]
}

// modSwitch rounds to multiples of 1/2L; tie reports an ambiguous rounding.
func modSwitch[T tfhe.TorusInt](x T, L int) (v int, tie bool) {
	lg := 0
	for 1<<lg < 2*L {
		lg++
	}
	sh := sizeT[T]() - lg
	low := x & (T(1)<<sh - 1)
	v = int(x >> sh)
	if low >= T(1)<<(sh-1) {
		v++
	}
	// the library rounds in floating point
	d := math.Abs(float64(low) - math.Exp2(float64(sh-1)))
	return v % (2 * L), d <= math.Exp2(float64(sizeT[T]()-50))
}

// drawLUT generates a table in one of the ways the library offers.
func (s *tsession[T]) drawLUT(w *tworker[T], r *simrt.Rng) (string, tfhe.LookUpTable[T], lutModel[T]) {
	par, L := s.par, s.par.LUTSize()
	p := int(par.MessageModulus())
	custom := r.Intn(2) == 0
	if custom {
		p = 1 + r.Intn(min(8, L/4))
	}
	full := r.Intn(2) == 0
	scale := par.Scale()
	if custom && r.Intn(2) == 0 {
		scale = T(r.Uint64()) >> r.Intn(8)
	}
	y := make([]T, p)
	ints := make([]int, p)
	for i := range y {
		if full {
			y[i] = T(r.Uint64())
		} else {
			ints[i] = r.Intn(2 * p)
			y[i] = T(ints[i]%p) * scale
		}
	}
	fi := func(x int) int { return ints[x] }
	ff := func(x int) T { return y[x] }
	m := newLUTModel(L, y)
	lut := tfhe.NewLUT(par)
	to := r.Intn(2) == 0
	if to {
		fillAny(&lut, r.Uint64())
	}
	name := ""
	switch {
	case !custom && !full && to:
		name = "GenLUTTo"
		w.ev.GenLUTTo(lut, fi)
	case !custom && !full:
		name = "GenLUT"
		lut = w.ev.GenLUT(func(x int) int { return ints[x] })
	case !custom && to:
		name = "GenLUTFullTo"
		w.ev.GenLUTFullTo(lut, ff)
	case !custom:
		name = "GenLUTFull"
		lut = w.ev.GenLUTFull(ff)
	case !full && to:
		name = "GenLUTCustomTo"
		w.ev.GenLUTCustomTo(lut, fi, T(p), scale)
	case !full:
		name = "GenLUTCustom"
		lut = w.ev.GenLUTCustom(fi, T(p), scale)
	case to:
		name = "GenLUTCustomFullTo"
		w.ev.GenLUTCustomFullTo(lut, ff, T(p))
	default:
		name = "GenLUTCustomFull"
		lut = w.ev.GenLUTCustomFull(ff, T(p))
	}
	s.c.Cover("lut", name)
	return name, lut, m
}

func (s *tsession[T]) bootOps(add func(func(w *tworker[T], r *simrt.Rng) *sop[T])) {
	type W = *tworker[T]
	type R = *simrt.Rng
	type S = sop[T]
	const own = "tfhe.Evaluator"
	par := s.par
	L, ext := par.LUTSize(), par.LUTSize()/par.PolyRank()
	drawLUT := s.drawLUT
	// switched is the position a ciphertext rotates to
	switched := func(ct tfhe.LWECiphertext[T]) (t int, amb bool) {
		t, amb = modSwitch(ct.Value[0], L)
		for i, b := range s.sk.LWEKey.Value {
			a, tie := modSwitch(ct.Value[i+1], L)
			amb = amb || tie && b != 0
			t += a * int(b)
		}
		return t, amb
	}
	add(func(w W, r R) *S {
		name, lut, m := drawLUT(w, r)
		if m.tied {
			return nil
		}
		in := s.pick(r, "S")
		ct := asL[T](in.v)
		t, amb := switched(ct)
		if amb {
			return nil
		}
		want := make([]T, s.N)
		for j := range want {
			want[j] = m.at(t + j*ext)
		}
		return &S{name: "BlindRotateTo", owner: own, out: "G",
			bound: func([]float64) float64 { return s.brN },
			want:  func([][]T) []T { return want },
			alloc: func([]any) any { s.c.Cover("rotate", name); return w.ev.BlindRotate(ct, lut) },
			to:    func(v any, in []any) { w.ev.BlindRotateTo(asG[T](v), ct, lut) }}
	})
	def := s.def
	boot := func(name string, run func(w W, r R) (m lutModel[T], al func(ct tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T], to func(d, ct tfhe.LWECiphertext[T]))) {
		add(func(w W, r R) *S {
			m, al, to := run(w, r)
			if m.f == nil {
				return nil
			}
			o := &S{name: name, owner: own, out: s.def, in: []string{s.def}, pos: []int{1},
				bound: func([]float64) float64 { return s.brN + s.ksN },
				alloc: func(in []any) any { return al(asL[T](in[0])) },
				to:    func(v any, in []any) { to(asL[T](v), asL[T](in[0])) }}
			o.accept = func(in []any, ph [][]T) [][]T {
				// the phase, after key and modulus switching, in units of 1/2L
				x := float64(ph[0][0]) / qOf[T]() * float64(2*L)
				d := (1+absSum(s.sk.LWEKey.Value))/2 + s.ksN/qOf[T]()*float64(2*L) + 0.01
				if m.tied {
					d++
				}
				ct := asL[T](in[0])
				if def == "B" {
					simrt.Quiet(func() { ct = w.ev.DefaultKeySwitch(ct) })
				}
				var a [][]T
				exact, amb := switched(ct)
				for t := int(math.Ceil(x - d)); t <= int(math.Floor(x+d)); t++ {
					// with the rounding of the mask known, a single position is left
					if amb || m.tied || (t-exact)%(2*L) == 0 {
						a = append(a, []T{m.at(t)})
					}
				}
				return a
			}
			return o
		})
	}
	type L_ = tfhe.LWECiphertext[T]
	boot("BootstrapLUTTo", func(w W, r R) (lutModel[T], func(L_) L_, func(d, ct L_)) {
		_, lut, m := drawLUT(w, r)
		return m, func(ct L_) L_ { return w.ev.BootstrapLUT(ct, lut) }, func(d, ct L_) { w.ev.BootstrapLUTTo(d, ct, lut) }
	})
	boot("BootstrapFuncTo", func(w W, r R) (lutModel[T], func(L_) L_, func(d, ct L_)) {
		p := int(par.MessageModulus())
		ints, y := make([]int, p), make([]T, p)
		for i := range y {
			ints[i] = r.Intn(p)
			y[i] = T(ints[i]) * par.Scale()
		}
		f := func(x int) int { return ints[x] }
		return newLUTModel(L, y), func(ct L_) L_ { return w.ev.BootstrapFunc(ct, f) }, func(d, ct L_) { w.ev.BootstrapFuncTo(d, ct, f) }
	})
}

// fresh puts an input with an unusual mask into the store.
func (s *tsession[T]) fresh(r *simrt.Rng) {
	k := []string{"B", "S"}[r.Intn(2)]
	ct := dup(s.pick(r, k).v).(tfhe.LWECiphertext[T])
	rareMask(r, &ct.Value[0], ct.Value[1:], s.keyOf(k), s.par.LUTSize())
	s.put(k, ct)
	s.c.Count("inputs with unusual masks")
}

// decrypt judges decryption and decoding of an arbitrary stored ciphertext,
// and encoding of arbitrary messages.
func (s *tsession[T]) decrypt(who string, w *tworker[T], r *simrt.Rng) {
	par := s.par
	p := par.MessageModulus()
	// decode is the rounding of a phase; ok is false for ties
	decode := func(x, p, scale T) (int, bool) {
		q, rem := x/scale, x%scale
		if rem > scale-rem {
			q++
		}
		d := signed(rem) - signed(scale-rem)
		return int(q % p), math.Abs(d) > 4
	}
	fail := func(name string, got, want any) {
		s.c.Failf("wrong-decryption:"+name, "%s: %s returns %v, expected %v", who, name, got, want)
	}
	near := func(name string, got, want []T, bound float64) { s.check(who+": "+name, name, got, want, bound) }
	ints := func(name string, got []int, ph []T, p, scale T, slack float64) {
		for i := range ph {
			m, ok := decode(ph[i], p, scale)
			lo, _ := decode(ph[i]-T(slack), p, scale)
			hi, _ := decode(ph[i]+T(slack), p, scale)
			if ok && lo == hi && got[i] != m {
				fail(name, got[i], m)
			}
		}
	}
	s.c.Count("decryptions judged")
	custom := func() (T, T) {
		cp := T(2 + r.Intn(15))
		return cp, T(1) << (sizeT[T]() - 6 - r.Intn(4))
	}
	switch r.Intn(8) {
	case 0:
		o := s.pick(r, s.def)
		ct := asL[T](o.v)
		ph := s.kinds[s.def].phase(o.v)
		near("DecryptLWEPhase", []T{w.enc.DecryptLWEPhase(ct).Value}, ph, 0)
		ints("DecryptLWE", []int{w.enc.DecryptLWE(ct)}, ph, p, par.Scale(), 0)
	case 1:
		o := s.pick(r, "G")
		ct := asG[T](o.v)
		ph := s.kinds["G"].phase(o.v)
		b := s.fftErr(qOf[T]())
		near("DecryptGLWEPhase", w.enc.DecryptGLWEPhase(ct).Value.Coeffs, ph, b)
		pt := tfhe.NewGLWEPlaintext(par)
		fillAny(&pt, r.Uint64())
		w.enc.DecryptGLWEPhaseTo(pt, ct)
		near("DecryptGLWEPhaseTo", pt.Value.Coeffs, ph, b)
		ints("DecryptGLWE", w.enc.DecryptGLWE(ct), ph, p, par.Scale(), b)
		m := make([]int, s.N)
		w.enc.DecryptGLWETo(m, ct)
		ints("DecryptGLWETo", m, ph, p, par.Scale(), b)
	case 2:
		o := s.pick(r, "F")
		ct := asF[T](o.v)
		ph := s.kinds["F"].phase(o.v)
		b := s.fftErr(s.kinds["F"].mag(o.v) + qOf[T]())
		near("DecryptFFTGLWEPhase", w.enc.DecryptFFTGLWEPhase(ct).Value.Coeffs, ph, b)
		pt := tfhe.NewGLWEPlaintext(par)
		fillAny(&pt, r.Uint64())
		w.enc.DecryptFFTGLWEPhaseTo(pt, ct)
		near("DecryptFFTGLWEPhaseTo", pt.Value.Coeffs, ph, b)
		ints("DecryptFFTGLWE", w.enc.DecryptFFTGLWE(ct), ph, p, par.Scale(), b)
		m := make([]int, s.N)
		w.enc.DecryptFFTGLWETo(m, ct)
		ints("DecryptFFTGLWETo", m, ph, p, par.Scale(), b)
		if digestOf(o.v) != o.sum {
			s.c.Failf("operand-changed:DecryptFFTGLWE", "%s: decryption changed a transformed ciphertext", who)
		}
	case 3: // custom decoding
		x := T(r.Uint64())
		cp, cs := custom()
		pt := tfhe.LWEPlaintext[T]{Value: x}
		ints("DecodeLWECustom", []int{w.ev.DecodeLWECustom(pt, cp, cs)}, []T{x}, cp, cs, 0)
		ints("DecodeLWECustom(0)", []int{w.enc.DecodeLWECustom(pt, 0, cs)}, []T{x}, T(qOf[T]()/2/float64(cs))*2, cs, 0)
		g := tfhe.NewGLWEPlaintext(par)
		fillAny(&g, r.Uint64())
		ints("DecodeGLWECustom", w.ev.DecodeGLWECustom(g, cp, cs), g.Value.Coeffs, cp, cs, 0)
		m := make([]int, s.N)
		w.enc.DecodeGLWECustomTo(m, g, cp, cs)
		ints("DecodeGLWECustomTo", m, g.Value.Coeffs, cp, cs, 0)
		ints("DecodeGLWE", w.ev.DecodeGLWE(g), g.Value.Coeffs, p, par.Scale(), 0)
		w.ev.DecodeGLWETo(m, g)
		ints("DecodeGLWETo", m, g.Value.Coeffs, p, par.Scale(), 0)
		ints("DecodeLWE", []int{w.ev.DecodeLWE(pt)}, []T{x}, p, par.Scale(), 0)
	case 4: // encoding, including short messages into used plaintexts
		cp, cs := custom()
		msg := make([]int, 1+r.Intn(s.N))
		enc := func(p, sc T) []T {
			o := make([]T, s.N)
			for i := range msg {
				o[i] = T(msg[i]) % p * sc
			}
			return o
		}
		for i := range msg {
			msg[i] = r.Intn(3 * int(cp))
		}
		near("EncodeLWECustom", []T{w.ev.EncodeLWECustom(msg[0], cp, cs).Value}, enc(cp, cs)[:1], 0)
		near("EncodeLWE", []T{w.ev.EncodeLWE(msg[0]).Value}, enc(p, par.Scale())[:1], 0)
		near("EncodeGLWE", w.ev.EncodeGLWE(msg).Value.Coeffs, enc(p, par.Scale()), 0)
		near("EncodeGLWECustom", w.ev.EncodeGLWECustom(msg, cp, cs).Value.Coeffs, enc(cp, cs), 0)
		g := tfhe.NewGLWEPlaintext(par)
		fillAny(&g, r.Uint64())
		w.enc.EncodeGLWETo(g, msg)
		near("EncodeGLWETo", g.Value.Coeffs, enc(p, par.Scale()), 0)
		w.ev.EncodeGLWECustomTo(g, msg, cp, cs)
		near("EncodeGLWECustomTo", g.Value.Coeffs, enc(cp, cs), 0)
	case 5: // gadget ciphertexts
		g := s.lev[r.Intn(len(s.lev))]
		if x := w.enc.DecryptLevScalar(g.v.(tfhe.LevCiphertext[T])); x != g.msg[0]&(g.g.Base()-1) && x != g.msg[0] {
			fail("DecryptLevScalar", x, g.msg[0])
		}
		g = s.gsw[r.Intn(len(s.gsw))]
		if x := w.enc.DecryptGSWScalar(g.v.(tfhe.GSWCiphertext[T])); x != g.msg[0]&(g.g.Base()-1) && x != g.msg[0] {
			fail("DecryptGSWScalar", x, g.msg[0])
		}
		mod := func(got, want []T, b T) []T {
			o := append([]T(nil), got...)
			for i := range o {
				if (o[i]-want[i])&(b-1) == 0 {
					o[i] = want[i]
				}
			}
			return o
		}
		g = s.glev[r.Intn(len(s.glev))]
		near("DecryptGLevPoly", mod(w.enc.DecryptGLevPoly(g.v.(tfhe.GLevCiphertext[T])).Coeffs, g.msg, g.g.Base()), g.msg, 0)
		g = s.fglev[r.Intn(len(s.fglev))]
		near("DecryptFFTGLevPoly", mod(w.enc.DecryptFFTGLevPoly(g.v.(tfhe.FFTGLevCiphertext[T])).Coeffs, g.msg, g.g.Base()), g.msg, 0)
		g = s.fggsw[r.Intn(len(s.fggsw))]
		near("DecryptFFTGGSWPoly", mod(w.enc.DecryptFFTGGSWPoly(g.v.(tfhe.FFTGGSWCiphertext[T])).Coeffs, g.msg, g.g.Base()), g.msg, 0)
	default: // a new ciphertext for the store
		m := r.Intn(int(p))
		bound := 12 * par.GLWEStdDev() * qOf[T]()
		if s.def == "S" {
			bound = 12 * par.LWEStdDev() * qOf[T]()
		}
		ct := w.enc.EncryptLWE(m)
		near("EncryptLWE", s.kinds[s.def].phase(ct), []T{T(m) * par.Scale()}, bound+2)
		s.put(s.def, ct)
		x := polyOf[T](smallInts(r, s.N))
		gc := w.enc.EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]{Value: x})
		near("EncryptGLWEPlaintext", s.kinds["G"].phase(gc), x.Coeffs, 12*par.GLWEStdDev()*qOf[T]()+2)
		s.put("G", gc)
	}
}

// e04 runs one single-key session.
func e04[T tfhe.TorusInt](c *Ctx) {
	lit := genParams[T](c, paramOpts{maxN: []int{32, 16, 64}[c.Int(3)], maxP: 8, maxDim: 12})
	s := &tsession[T]{par: lit.Compile()}
	s.c = c
	s.sk = makeSecret(s.par, c.DataSeed())
	setup := c.Rng()
	var tmpl *tworker[T]
	c.Seq("setup", func() {
		s.setup(setup)
		tmpl = &tworker[T]{ev: tfhe.NewEvaluator(s.par, s.evk), enc: tfhe.NewEncryptorWithKey(s.par, s.sk), tr: tfhe.NewGLWETransformer[T](s.N)}
	})
	in := digestOf(s.evk)
	nW := 1 + c.Int(4)
	nops := 4 + c.Int(40)
	ops := s.ops()
	focus := -1 // some sessions repeat few operations
	if c.Int(3) == 2 {
		focus = c.Int(len(ops))
	}
	faulty := c.Int(3) > 0
	rngs := make([]*simrt.Rng, nW)
	for i := range rngs {
		rngs[i] = c.Rng()
	}
	c.Desc("params n=%d k=%d N=%d lut=%d p=%d block=%d order=%v; %d workers, %d operations each", lit.LWEDimension, lit.GLWERank, lit.PolyRank, lit.LUTSize, lit.MessageModulus, lit.BlockSize, lit.BootstrapOrder, nW, nops)
	hows := drawCopies(c, nW)
	cp := func(w *tworker[T]) *tworker[T] {
		return &tworker[T]{ev: w.ev.SafeCopy(), enc: w.enc.SafeCopy(), tr: w.tr.SafeCopy()}
	}
	c.Sim(SimOpts{Name: "session", Est: int64(nW * nops * 4000), NumCPU: drawCPUs(c)}, func() {
		concurrently(hows, tmpl, cp, func(i int, w *tworker[T]) {
			r := rngs[i]
			who := fmt.Sprintf("worker %d", i)
			draw := func() *sop[T] {
				for {
					k := r.Intn(len(ops))
					if focus >= 0 && r.Intn(2) == 0 {
						k = focus
					}
					if o := ops[k](w, r); o != nil {
						return o
					}
				}
			}
			for n := 0; n < nops; n++ {
				switch x := r.Intn(24); {
				case x == 0:
					s.move(who, r)
				case x <= 2:
					s.decrypt(who, w, r)
				case x == 5 || x == 6 && faulty:
					s.fresh(r)
				case x == 3 && faulty:
					s.abandon(r, draw())
				case x == 4 && faulty && i == 0 || x == 4 && r.Intn(4) == 0:
					// the worker restarts from a copy or from the stored keys
					switch r.Intn(3) {
					case 0:
						w = cp(w)
					case 1:
						w = &tworker[T]{ev: tfhe.NewEvaluator(s.par, s.evk), enc: tfhe.NewEncryptorWithKey(s.par, s.sk), tr: tfhe.NewGLWETransformer[T](s.N)}
					default:
						old := w
						w = cp(w)
						w.tr = old.tr
					}
					c.Fault("worker restarted")
				default:
					s.do(who, r, draw())
				}
			}
		})
	})
	c.Seq("afterwards", func() {
		s.settle()
		r := setup
		for n := 0; n < 3; n++ {
			if o := ops[r.Intn(len(ops))](tmpl, r); o != nil {
				s.do("afterwards", r, o)
			}
		}
	})
	for _, l := range [][]*gadgetObj[T]{s.lev, s.gsw, s.glev, s.fglev, s.fggsw, s.lksk, s.gksk} {
		for _, o := range l {
			if digestOf(o.v) != o.sum {
				c.Failf("operand-changed:gadget", "a gadget ciphertext changed")
			}
		}
	}
	if digestOf(s.evk) != in {
		c.Failf("operand-changed:keys", "the evaluation key changed")
	}
	c.nontrivial = true
}

func init() {
	register("E04", false, func(c *Ctx) { either(c, e04[uint32], e04[uint64]) })
}
