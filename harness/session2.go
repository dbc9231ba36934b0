//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"

	"SIMMODULE/math/poly"
	"SIMMODULE/mktfhe"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
)

// A multi-key session: the ciphertexts in the store belong to a set of
// parties present, every phase is taken under the keys of all parties, with
// unrelated keys standing in for the absent ones.

type mworker[T tfhe.TorusInt] struct {
	ev   *mktfhe.Evaluator[T]
	encs []*mktfhe.Encryptor[T]
	dec  *mktfhe.Decryptor[T]
	tr   *mktfhe.GLWETransformer[T]
}

// uniObj is a ciphertext multiplied by a hybrid product.
type uniObj[T tfhe.TorusInt] struct {
	party int // index
	i     int // position in the list of parties
	g     tfhe.GadgetParameters[T]
	v     mktfhe.FFTUniEncryption[T]
	plain *mktfhe.UniEncryption[T]
	msg   []T
	noise float64 // of a product
	sum   uint64
}

type msession[T tfhe.TorusInt] struct {
	session[T]
	par     mktfhe.Parameters[T]
	sub     tfhe.Parameters[T]
	N, P    int
	def     string
	parties []int
	sks     []tfhe.SecretKey[T] // by index, absent parties included
	here    []bool
	seed    []byte
	evk     map[int]mktfhe.EvaluationKey[T]
	inv     *tfhe.GLWETransformer[T]
	uni     []*uniObj[T]
	relin   map[int]*uniObj[T]
	glev    []*gadgetObj[T]
	glevAt  []int
	weight  float64 // 1-norm of the joint GLWE secret
	ksN     float64
	pkN     []float64 // noise of the common reference keys, by index
	crs     [][]T
}

func asML[T tfhe.TorusInt](v any) mktfhe.LWECiphertext[T]     { return v.(mktfhe.LWECiphertext[T]) }
func asMG[T tfhe.TorusInt](v any) mktfhe.GLWECiphertext[T]    { return v.(mktfhe.GLWECiphertext[T]) }
func asMF[T tfhe.TorusInt](v any) mktfhe.FFTGLWECiphertext[T] { return v.(mktfhe.FFTGLWECiphertext[T]) }

// joint is the joint secret under an automorphism.
func (s *msession[T]) joint(d int) []poly.Poly[T] {
	var o []poly.Poly[T]
	for _, sk := range s.sks {
		p := sk.GLWEKey.Value[0].Coeffs
		if d != 1 {
			p = autoPoly(p, d)
		}
		o = append(o, poly.Poly[T]{Coeffs: p})
	}
	return o
}

func (s *msession[T]) lweKey(kind string) []T {
	var o []T
	for _, sk := range s.sks {
		if kind == "B" {
			o = append(o, sk.LWELargeKey.Value...)
		} else {
			o = append(o, sk.LWEKey.Value...)
		}
	}
	return o
}

// back is the inverse transform.
func (s *msession[T]) back(v []poly.FFTPoly) []poly.Poly[T] {
	out := tfhe.NewGLWECiphertextCustom[T](len(v)-1, s.N)
	simrt.Quiet(func() {
		s.inv.InvFFTGLWECiphertextTo(out, tfhe.FFTGLWECiphertext[T]{Value: cloneOf(v)})
	})
	return out.Value
}

func (s *msession[T]) backPoly(v poly.FFTPoly) []T { return s.back([]poly.FFTPoly{v})[0].Coeffs }

func (s *msession[T]) init() {
	s.maxPool = 24
	s.kinds = map[string]*skind[T]{}
	one := s.joint(1)
	lwe := func(name string) {
		key := s.lweKey(name)
		s.kinds[name] = &skind[T]{
			name: name,
			zero: func() any { return mktfhe.NewLWECiphertextCustom[T](len(key)) },
			phase: func(v any) []T {
				ct := asML[T](v)
				if len(ct.Value) != len(key)+1 {
					return nil
				}
				return []T{phaseLWE(ct.Value, key)}
			},
			cut: func(v any) any { ct := asML[T](v); ct.Value = ct.Value[:len(ct.Value)/2]; return ct },
			box: boxOf[mktfhe.LWECiphertext[T]],
		}
	}
	lwe("B")
	lwe("S")
	s.kinds["G"] = &skind[T]{
		name: "G",
		zero: func() any { return mktfhe.NewGLWECiphertextCustom[T](s.P, s.N) },
		phase: func(v any) []T {
			if ct := asMG[T](v); len(ct.Value) == s.P+1 {
				return phaseGLWE(ct.Value, one)
			}
			return nil
		},
		cut: func(v any) any {
			ct := asMG[T](v)
			l := &ct.Value[len(ct.Value)-1]
			l.Coeffs = l.Coeffs[:s.N/2]
			return ct
		},
		box: boxOf[mktfhe.GLWECiphertext[T]],
	}
	s.kinds["F"] = &skind[T]{
		name: "F",
		zero: func() any { return mktfhe.NewFFTGLWECiphertextCustom[T](s.P, s.N) },
		phase: func(v any) []T {
			ct := asMF[T](v)
			if len(ct.Value) != s.P+1 {
				return nil
			}
			return phaseGLWE(s.back(ct.Value), one)
		},
		mag: func(v any) float64 { return fftMag(asMF[T](v).Value) },
		cut: func(v any) any {
			ct := asMF[T](v)
			l := &ct.Value[len(ct.Value)-1]
			l.Coeffs = l.Coeffs[:s.N/2]
			return ct
		},
		box: boxOf[mktfhe.FFTGLWECiphertext[T]],
	}
}

func (s *msession[T]) newWorker(r *simrt.Rng) *mworker[T] {
	w := &mworker[T]{tr: mktfhe.NewGLWETransformer[T](s.N)}
	first := map[int]mktfhe.EvaluationKey[T]{}
	firstSK := map[int]tfhe.SecretKey[T]{}
	late := r.Intn(3)
	for _, p := range s.parties {
		w.encs = append(w.encs, mktfhe.NewEncryptorWithKey(s.par, p, s.seed, s.sks[p]))
		if late == 0 || late == 1 && r.Intn(2) == 0 {
			first[p], firstSK[p] = s.evk[p], s.sks[p]
		}
	}
	stale := map[int]bool{} // keys that will be replaced
	for _, p := range s.parties {
		if q := s.parties[r.Intn(len(s.parties))]; p != q && r.Intn(4) == 0 {
			stale[p] = true
			if _, ok := first[p]; ok {
				first[p], firstSK[p] = s.evk[q], s.sks[q]
			}
		}
	}
	w.ev, w.dec = mktfhe.NewEvaluator(s.par, first), mktfhe.NewDecryptor(s.par, firstSK)
	for _, p := range s.parties {
		if _, ok := first[p]; ok && !stale[p] {
			continue
		} else if !ok && stale[p] {
			s.register(w, p, s.parties[r.Intn(len(s.parties))])
		}
		if r.Intn(3) == 0 {
			w.ev, w.dec = w.ev.SafeCopy(), w.dec.SafeCopy()
		}
		s.register(w, p, p)
	}
	return w
}

// register gives the worker the keys of party q as those of party p.
func (s *msession[T]) register(w *mworker[T], p, q int) {
	w.ev.AddEvaluationKey(p, s.evk[q])
	w.dec.AddSecretKey(p, s.sks[q])
}

func (w *mworker[T]) copy() *mworker[T] {
	n := &mworker[T]{ev: w.ev.SafeCopy(), dec: w.dec.SafeCopy(), tr: w.tr.SafeCopy()}
	for _, e := range w.encs {
		n.encs = append(n.encs, e.SafeCopy())
	}
	return n
}

// uniNoise derives the error of hybrid products with a ciphertext from its
// actual rows. rows[0] are the bodies of the first half.
func (s *msession[T]) uniNoise(who string, party int, g tfhe.GadgetParameters[T], v mktfhe.FFTUniEncryption[T], msg []T) float64 {
	key := s.sks[party].GLWEKey.Value[0].Coeffs
	aux := make([]T, s.N)
	var e2 [][]T
	for l := 0; l < g.Level(); l++ {
		row := s.back(v.Value[1].Value[l].Value)
		ph := addVec(row[0].Coeffs, negMul(row[1].Coeffs, key), 1)
		if l == 0 {
			for i := range ph {
				aux[i] = (ph[i] + baseQ(g, 0)/2) / baseQ(g, 0)
				if aux[i] > 1 {
					s.c.Failf("harness-uni:"+who, "%s: the auxiliary key is not binary", who)
				}
			}
		}
		e2 = append(e2, addVec(ph, scaleVec(aux, baseQ(g, l)), -1))
	}
	var e1 [][]T
	for l := 0; l < g.Level(); l++ {
		body := s.backPoly(v.Value[0].Value[l].Value[0])
		x := addVec(body, scaleVec(msg, baseQ(g, l)), -1)
		e1 = append(e1, addVec(x, negMul(s.crs[l], aux), -1))
	}
	rd := math.Exp2(float64(sizeT[T]()-g.LogBase()*g.Level())) / 2
	if rd < 1 {
		rd = 0
	}
	t := (1+s.weight)*rowNoise(g, e1) + rowNoise(g, e2) + rd*(absSum(msg)*(1+s.weight)+absSum(aux))
	pk := 0.0
	for _, p := range s.parties {
		var es [][]T
		for l := 0; l < g.Level(); l++ {
			row := s.back(s.evk[p].CRSPublicKey.Value[l].Value)
			es = append(es, addVec(row[0].Coeffs, negMul(row[1].Coeffs, s.sks[p].GLWEKey.Value[0].Coeffs), 1))
		}
		pk += rowNoise(g, es)
	}
	return t + absSum(aux)*pk + s.prodFFT(g, 3*len(s.parties)+2)
}

func (s *msession[T]) prodFFT(g tfhe.GadgetParameters[T], rows int) float64 {
	return s.fftErr(qOf[T]() * float64(g.Base()) * math.Sqrt(float64(s.N)) * float64(g.Level()*rows))
}

func (s *msession[T]) setup(r *simrt.Rng) {
	c := s.c
	s.sub = s.par.SubParams()
	s.N, s.P = s.sub.PolyRank(), s.par.PartyCount()
	s.inv = tfhe.NewGLWETransformer[T](s.N)
	s.def = "S"
	if s.par.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		s.def = "B"
	}
	for i := 0; i < s.P; i++ {
		sk := makeSecret(s.sub, r.Uint64())
		s.sks = append(s.sks, sk)
		s.weight += absSum(sk.GLWEKey.Value[0].Coeffs)
	}
	s.amp = 1 + s.weight
	s.init()
	s.evk = map[int]mktfhe.EvaluationKey[T]{}
	encs := map[int]*mktfhe.Encryptor[T]{}
	for _, p := range s.parties {
		encs[p] = mktfhe.NewEncryptorWithKey(s.par, p, s.seed, s.sks[p])
		if len(s.crs) == 0 {
			for _, a := range encs[p].CRS {
				s.crs = append(s.crs, append([]T(nil), a.Coeffs...))
			}
		}
		if r.Intn(2) == 0 {
			s.evk[p] = encs[p].GenEvalKey()
		} else {
			s.evk[p] = encs[p].GenEvalKeyParallel()
		}
	}
	s.relin = map[int]*uniObj[T]{}
	rg := s.par.RelinKeyParameters()
	for i, p := range s.parties {
		u := &uniObj[T]{party: p, i: i, g: rg, v: s.evk[p].RelinKey, msg: s.sks[p].GLWEKey.Value[0].Coeffs}
		u.noise = s.uniNoise("relinearisation key", p, rg, u.v, u.msg)
		s.relin[p] = u
	}
	gads := []tfhe.GadgetParameters[T]{rg, gad[T](6, rg.Level()).Compile(), gad[T](8, 2).Compile()}
	if rg.Level()*6 > sizeT[T]() {
		gads = gads[:1]
	}
	for i, p := range s.parties {
		g := gads[r.Intn(len(gads))]
		v := vecT[T](smallInts(r, s.N))
		u := &uniObj[T]{party: p, i: i, g: g, msg: v}
		if r.Intn(2) == 0 {
			u.v = encs[p].FFTUniEncryptPoly(poly.Poly[T]{Coeffs: append([]T(nil), v...)}, g)
		} else {
			pl := encs[p].UniEncryptPoly(poly.Poly[T]{Coeffs: append([]T(nil), v...)}, g)
			u.plain = &pl
			u.v = encs[p].FwdFFTUniEncryption(pl)
		}
		u.noise = s.uniNoise("uni-encryption", p, g, u.v, v)
		u.sum = digestOf(u.v)
		s.uni = append(s.uni, u)
		g = []tfhe.GadgetParameters[T]{s.par.AccumulatorParameters(), gad[T](4, 4).Compile()}[r.Intn(2)]
		v = vecT[T](smallInts(r, s.N))
		sub := encs[p].SubEncryptor
		fg := sub.EncryptFFTGLevPoly(poly.Poly[T]{Coeffs: append([]T(nil), v...)}, g)
		s.glev = append(s.glev, s.accObj(p, g, fg, v))
		s.glevAt = append(s.glevAt, p)
	}
	// default key switching
	if s.sub.LWEDimension() < s.sub.GLWEDimension() {
		g := s.par.KeySwitchParams()
		for _, p := range s.parties {
			o := &gadgetObj[T]{g: g}
			w := 0.0
			for i, ct := range s.evk[p].KeySwitchKey.Value {
				b := s.sks[p].LWELargeKey.Value[s.sub.LWEDimension()+i]
				w += math.Abs(signed(b))
				var es [][]T
				for l := range ct.Value {
					es = append(es, []T{phaseLWE(ct.Value[l].Value, s.sks[p].LWEKey.Value) - b*baseQ(g, l)})
				}
				o.rows = append(o.rows, rowNoise(g, es))
			}
			s.ksN += o.prodBound(len(o.rows), w)
		}
	}
	p := int(s.sub.MessageModulus())
	for i := 0; i < 3; i++ {
		e := encs[s.parties[r.Intn(len(s.parties))]]
		for _, k := range []string{"B", "S"} {
			ct := mktfhe.NewLWECiphertextCustom[T](len(s.lweKey(k)))
			if k == s.def && r.Intn(2) == 0 {
				s.put(k, e.EncryptLWE(r.Intn(p)))
				continue
			}
			s.random(r, &ct, k)
			s.put(k, ct)
		}
		msg := make([]int, s.N)
		for j := range msg {
			msg[j] = r.Intn(p)
		}
		s.put("G", e.EncryptGLWE(msg))
		s.put("F", e.EncryptFFTGLWE(msg))
	}
	// a ciphertext under all keys
	g := s.kinds["G"].zero().(mktfhe.GLWECiphertext[T])
	for i := range g.Value {
		if i > 0 && !s.here[i-1] {
			continue
		}
		for j := range g.Value[i].Coeffs {
			g.Value[i].Coeffs[j] = T(r.Uint64())
		}
	}
	s.put("G", g)
	c.Count("sessions")
}

// random draws a ciphertext under the keys of the parties present.
func (s *msession[T]) random(r *simrt.Rng, ct *mktfhe.LWECiphertext[T], k string) {
	d := (len(ct.Value) - 1) / s.P
	ct.Value[0] = T(r.Uint64())
	for p, ok := range s.here {
		if !ok {
			continue
		}
		for j := 0; j < d; j++ {
			ct.Value[1+p*d+j] = T(r.Uint64())
		}
	}
}

// fresh puts an input with an unusual mask into the store.
func (s *msession[T]) fresh(r *simrt.Rng) {
	k := []string{"B", "S"}[r.Intn(2)]
	ct := dup(s.pick(r, k).v).(mktfhe.LWECiphertext[T])
	key := s.lweKey(k)
	d := (len(ct.Value) - 1) / s.P
	for p, ok := range s.here {
		if ok && r.Intn(4) > 0 {
			rareMask(r, &ct.Value[0], ct.Value[1+p*d:1+(p+1)*d], key[p*d:(p+1)*d], s.par.SubParams().LUTSize())
		}
	}
	s.put(k, ct)
	s.c.Count("inputs with unusual masks")
}

// accObj describes a single-key gadget ciphertext used in an external product.
func (s *msession[T]) accObj(p int, g tfhe.GadgetParameters[T], fg tfhe.FFTGLevCiphertext[T], msg []T) *gadgetObj[T] {
	o := &gadgetObj[T]{g: g, v: fg, msg: msg, sum: digestOf(fg)}
	var es [][]T
	for l := 0; l < g.Level(); l++ {
		row := s.back(fg.Value[l].Value)
		ph := addVec(row[0].Coeffs, negMul(row[1].Coeffs, s.sks[p].GLWEKey.Value[0].Coeffs), 1)
		es = append(es, addVec(ph, scaleVec(msg, baseQ(g, l)), -1))
	}
	o.rows = []float64{rowNoise(g, es)}
	return o
}

// extNoise bounds the error of an external product.
func (s *msession[T]) extNoise(p int, o *gadgetObj[T]) float64 {
	rd := math.Exp2(float64(sizeT[T]()-o.g.LogBase()*o.g.Level())) / 2
	if rd < 1 {
		rd = 0
	}
	return (1+s.weight)*(o.rows[0]+rd*absSum(o.msg)+2) + s.relin[p].noise + s.prodFFT(o.g, len(s.parties)+1)
}

// mcall calls a method by name.
func mcall(recv any, name string, args ...any) []reflect.Value {
	m := reflect.ValueOf(recv).MethodByName(name)
	var a []reflect.Value
	for _, x := range args {
		a = append(a, reflect.ValueOf(x))
	}
	return m.Call(a)
}

func hasMethod(recv any, name string) bool { return reflect.ValueOf(recv).MethodByName(name).IsValid() }

// linear describes a family of linear operations: the plaintext operand, and
// what it does to a phase.
type linear[T tfhe.TorusInt] struct {
	arg  any
	f    func(p []T) []T
	grow float64 // growth of transformed coefficients
	err  float64 // error of the result if not transformed
	auto int     // automorphism of the result's key
}

func (s *msession[T]) ops() []func(w *mworker[T], r *simrt.Rng) *sop[T] {
	type W = *mworker[T]
	type R = *simrt.Rng
	type S = sop[T]
	const own = "mktfhe.Evaluator"
	Q := qOf[T]()
	exact := func([]float64) float64 { return 0 }
	var out []func(w W, r R) *S
	add := func(f func(w W, r R) *S) { out = append(out, f) }

	kindOf := func(fam string, r R) (string, bool) {
		switch fam {
		case "GLWE":
			return "G", true
		case "FFTGLWE":
			return "F", true
		}
		k := "BS"[r.Intn(2):][:1]
		return k, k == s.def
	}
	// sums
	for _, fam := range []string{"LWE", "GLWE", "FFTGLWE"} {
		for _, sign := range []int{1, -1} {
			fam, sign := fam, sign
			base := "Add" + fam
			if sign < 0 {
				base = "Sub" + fam
			}
			add(func(w W, r R) *S {
				k, al := kindOf(fam, r)
				o := &S{name: base + "To", owner: own, out: k, in: []string{k, k}, pos: []int{1, 2}, bound: exact,
					to:   func(d any, in []any) { mcall(w.ev, base+"To", d, in[0], in[1]) },
					want: func(ph [][]T) []T { return addVec(ph[0], ph[1], sign) }}
				if al && hasMethod(w.ev, base) {
					o.alloc = func(in []any) any { return mcall(w.ev, base, in[0], in[1])[0].Interface() }
				}
				if fam == "FFTGLWE" {
					o.bound = func(m []float64) float64 { return s.fftErr(m[0] + m[1]) }
				}
				return o
			})
		}
	}
	// one ciphertext, one plaintext operand
	lin := func(fam, op, opFam string, accs []int, mk func(w W, r R, n int) linear[T]) {
		for _, acc := range accs {
			acc := acc
			base := op + map[int]string{0: "", 1: "Add", -1: "Sub"}[acc] + fam
			add(func(w W, r R) *S {
				k, al := kindOf(fam, r)
				n := s.N
				if fam == "LWE" {
					n = 1
				}
				l := mk(w, r, n)
				args := func(x ...any) []any {
					if l.arg != nil {
						x = append(x, l.arg)
					}
					return x
				}
				o := &S{name: base + "To", owner: own, out: k, in: []string{k}, pos: []int{1}, acc: acc,
					bound: func(m []float64) float64 {
						if k == "F" {
							return s.fftErr(m[0]*l.grow+m[1]) + s.amp*(1+l.grow)
						}
						return l.err
					},
					to:   func(d any, in []any) { mcall(w.ev, base+"To", args(d, in[0])...) },
					want: func(ph [][]T) []T { return l.f(ph[0]) }}
				if acc == 0 && al && hasMethod(w.ev, base) {
					o.alloc = func(in []any) any { return mcall(w.ev, base, args(in[0])...)[0].Interface() }
				}
				if acc == 0 && r.Intn(4) == 0 && hasMethod(w.ev, base+"InPlace") {
					o.name, o.self, o.alloc, o.pos = base+"InPlace", true, nil, []int{0}
					o.to = func(d any, in []any) { mcall(w.ev, base+"InPlace", args(d)...) }
				}
				if l.auto != 0 {
					sk := s.joint(l.auto)
					o.phase = func(v any) []T {
						if k == "F" {
							return phaseGLWE(s.back(asMF[T](v).Value), sk)
						}
						return phaseGLWE(asMG[T](v).Value, sk)
					}
				}
				return o
			})
		}
	}
	neg := func(w W, r R, n int) linear[T] {
		return linear[T]{f: func(p []T) []T { return scaleVec(p, ^T(0)) }, grow: 1}
	}
	scalar := func(w W, r R, n int) linear[T] {
		x := T(r.Uint64())
		if r.Intn(2) == 0 {
			x = T(r.Intn(9) - 4)
		}
		return linear[T]{arg: x, f: func(p []T) []T { return scaleVec(p, x) }}
	}
	plain := func(sign int) func(w W, r R, n int) linear[T] {
		return func(w W, r R, n int) linear[T] {
			v := make([]T, n)
			for i := range v {
				v[i] = T(r.Uint64())
			}
			l := linear[T]{f: func(p []T) []T { return addVec(p, v, sign) }}
			if n == 1 {
				l.arg = tfhe.LWEPlaintext[T]{Value: v[0]}
			} else {
				l.arg = tfhe.GLWEPlaintext[T]{Value: poly.Poly[T]{Coeffs: append([]T(nil), v...)}}
			}
			return l
		}
	}
	all := []int{0, 1, -1}
	zero := all[:1]
	for _, fam := range []string{"LWE", "GLWE"} {
		lin(fam, "Neg", "", zero, neg)
		lin(fam, "ScalarMul", "", all, scalar)
		lin(fam, "AddPlain", "", zero, plain(1))
		lin(fam, "SubPlain", "", zero, plain(-1))
	}
	lin("FFTGLWE", "Neg", "", zero, neg)
	lin("FFTGLWE", "FloatMul", "", all, func(w W, r R, n int) linear[T] {
		x := r.Intn(9) - 4
		return linear[T]{arg: float64(x), grow: math.Abs(float64(x)), f: func(p []T) []T { return scaleVec(p, T(x)) }}
	})
	lin("FFTGLWE", "CmplxMul", "", all, func(w W, r R, n int) linear[T] {
		x, y := r.Intn(9)-4, r.Intn(9)-4
		return linear[T]{arg: complex(float64(x), float64(y)), grow: math.Abs(float64(x)) + math.Abs(float64(y)), f: func(p []T) []T {
			q := make([]T, s.N)
			q[0], q[s.N/2] = T(x), T(y)
			return negMul(p, q)
		}}
	})
	polyMul := func(fft, big bool) func(w W, r R, n int) linear[T] {
		return func(w W, r R, n int) linear[T] {
			v := smallInts(r, n)
			x := polyOf[T](v)
			l := linear[T]{arg: x, grow: norm1(v), err: 2 * s.amp}
			if big && r.Intn(2) == 0 {
				for i := range x.Coeffs {
					x.Coeffs[i] = T(r.Uint64())
				}
			}
			l.f = func(p []T) []T { return negMul(p, x.Coeffs) }
			if fft {
				l.arg = w.ev.PolyEvaluator.FwdFFT(x)
				l.err = s.fftErr(Q * norm1(v))
			}
			return l
		}
	}
	lin("GLWE", "PolyMul", "", all, polyMul(false, true))
	lin("GLWE", "FFTPolyMul", "", all, polyMul(true, false))
	lin("FFTGLWE", "PolyMul", "", all, polyMul(false, false))
	lin("FFTGLWE", "FFTPolyMul", "", all, polyMul(true, false))
	lin("GLWE", "MonomialMul", "", all, func(w W, r R, n int) linear[T] {
		d := r.Intn(8*s.N) - 4*s.N
		return linear[T]{arg: d, f: func(p []T) []T { return negMul(p, vecT[T](monoInt(s.N, d))) }}
	})
	for _, fam := range []string{"GLWE", "FFTGLWE"} {
		lin(fam, "Permute", "", all, func(w W, r R, n int) linear[T] {
			d := 2*r.Intn(4*s.N) + 1 - 4*s.N
			return linear[T]{arg: d, grow: 1, auto: d, f: func(p []T) []T { return autoPoly(p, d) }}
		})
	}

	// products
	for _, acc := range all {
		acc := acc
		suffix := map[int]string{0: "", 1: "Add", -1: "Sub"}[acc]
		add(func(w W, r R) *S {
			u := s.uni[r.Intn(len(s.uni))]
			if r.Intn(4) == 0 {
				u = s.relin[s.parties[r.Intn(len(s.parties))]]
			}
			base := "HybridProd" + suffix + "GLWE"
			o := &S{name: base + "To", owner: own, out: "G", in: []string{"G"}, pos: []int{2}, acc: acc,
				bound: func([]float64) float64 { return u.noise },
				want:  func(ph [][]T) []T { return negMul(ph[0], u.msg) },
				to:    func(d any, in []any) { mcall(w.ev, base+"To", u.party, u.v, in[0], d) }}
			if acc == 0 {
				o.alloc = func(in []any) any { return w.ev.HybridProdGLWE(u.party, u.v, asMG[T](in[0])) }
			}
			return o
		})
		add(func(w W, r R) *S {
			i := r.Intn(len(s.glev))
			g, p := s.glev[i], s.glevAt[i]
			fg := g.v.(tfhe.FFTGLevCiphertext[T])
			base := "ExternalProd" + suffix + "GLWE"
			o := &S{name: base + "To", owner: own, out: "G", in: []string{"G"}, pos: []int{2}, acc: acc,
				bound: func([]float64) float64 { return s.extNoise(p, g) },
				want:  func(ph [][]T) []T { return negMul(ph[0], g.msg) },
				to:    func(d any, in []any) { mcall(w.ev, base+"To", p, fg, in[0], d) }}
			if acc == 0 {
				o.alloc = func(in []any) any { return w.ev.ExternalProdGLWE(p, fg, asMG[T](in[0])) }
			}
			return o
		})
	}
	// conversions
	tr := func(w W, r R) *mktfhe.GLWETransformer[T] {
		switch r.Intn(3) {
		case 0:
			return w.tr
		case 1:
			return w.ev.GLWETransformer
		}
		return w.encs[r.Intn(len(w.encs))].GLWETransformer
	}
	add(func(w W, r R) *S {
		t := tr(w, r)
		return &S{name: "FwdFFTGLWECiphertextTo", owner: "mktfhe.GLWETransformer", out: "F", in: []string{"G"}, pos: []int{1},
			bound: func([]float64) float64 { return s.fftErr(Q) },
			alloc: func(in []any) any { return t.FwdFFTGLWECiphertext(asMG[T](in[0])) },
			to:    func(v any, in []any) { t.FwdFFTGLWECiphertextTo(asMF[T](v), asMG[T](in[0])) },
			want:  func(ph [][]T) []T { return ph[0] }}
	})
	add(func(w W, r R) *S {
		t := tr(w, r)
		return &S{name: "InvGLWECiphertextTo", owner: "mktfhe.GLWETransformer", out: "G", in: []string{"F"}, pos: []int{1},
			bound: func(m []float64) float64 { return s.fftErr(m[0]) },
			alloc: func(in []any) any { return t.InvGLWECiphertext(asMF[T](in[0])) },
			to:    func(v any, in []any) { t.InvGLWECiphertextTo(asMG[T](v), asMF[T](in[0])) },
			want:  func(ph [][]T) []T { return ph[0] }}
	})
	add(func(w W, r R) *S {
		idx := r.Intn(s.N)
		return &S{name: "AsLWECiphertextTo", owner: "mktfhe.GLWECiphertext", out: "B", in: []string{"G"}, pos: []int{1}, bound: exact,
			alloc: func(in []any) any { return asMG[T](in[0]).AsLWECiphertext(idx) },
			to:    func(v any, in []any) { asMG[T](in[0]).AsLWECiphertextTo(asML[T](v), idx) },
			want:  func(ph [][]T) []T { return ph[0][idx : idx+1] }}
	})
	// single-key ciphertexts enter
	add(func(w W, r R) *S {
		p := s.parties[r.Intn(len(s.parties))]
		d := s.sub.LWEDimension()
		k, key := "S", s.sks[p].LWEKey.Value
		if r.Intn(2) == 0 {
			k, key, d = "B", s.sks[p].LWELargeKey.Value, s.sub.GLWEDimension()
		}
		ct := tfhe.NewLWECiphertextCustom[T](d)
		for i := range ct.Value {
			ct.Value[i] = T(r.Uint64())
		}
		return &S{name: "CopyFromSubKey", owner: "mktfhe.LWECiphertext", out: k, bound: exact,
			to:   func(v any, in []any) { x := asML[T](v); x.CopyFromSubKey(ct, p) },
			want: func([][]T) []T { return []T{phaseLWE(ct.Value, key)} }}
	})
	add(func(w W, r R) *S {
		p := s.parties[r.Intn(len(s.parties))]
		ct := tfhe.NewGLWECiphertextCustom[T](1, s.N)
		for i := range ct.Value {
			for j := range ct.Value[i].Coeffs {
				ct.Value[i].Coeffs[j] = T(r.Uint64())
			}
		}
		ph := phaseGLWE(ct.Value, s.sks[p].GLWEKey.Value)
		if r.Intn(2) == 0 {
			return &S{name: "CopyFromSubKey(G)", owner: "mktfhe.GLWECiphertext", out: "G", bound: exact,
				to:   func(v any, in []any) { x := asMG[T](v); x.CopyFromSubKey(ct, p) },
				want: func([][]T) []T { return ph }}
		}
		fc := w.ev.SubEvaluators[p].FwdFFTGLWECiphertext(ct)
		return &S{name: "CopyFromSubKey(F)", owner: "mktfhe.FFTGLWECiphertext", out: "F",
			bound: func([]float64) float64 { return s.fftErr(Q) },
			to:    func(v any, in []any) { x := asMF[T](v); x.CopyFromSubKey(fc, p) },
			want:  func([][]T) []T { return ph }}
	})
	if s.sub.LWEDimension() < s.sub.GLWEDimension() {
		add(func(w W, r R) *S {
			return &S{name: "DefaultKeySwitchTo", owner: own, out: "S", in: []string{"B"}, pos: []int{1},
				bound: func([]float64) float64 { return s.ksN },
				want:  func(ph [][]T) []T { return ph[0] },
				to:    func(d any, in []any) { w.ev.DefaultKeySwitchTo(asML[T](d), asML[T](in[0])) },
				alloc: func(in []any) any { return w.ev.DefaultKeySwitch(asML[T](in[0])) }}
		})
	}
	s.bootOps(add)
	return out
}

// bootOps are blind rotations and bootstrappings. The accumulators of the
// single parties are recomputed by the judge, so that their actual error is
// known.
func (s *msession[T]) bootOps(add func(func(w *mworker[T], r *simrt.Rng) *sop[T])) {
	type W = *mworker[T]
	type R = *simrt.Rng
	type S = sop[T]
	const own = "mktfhe.Evaluator"
	L := s.sub.LUTSize()
	key := s.lweKey("S")
	n := s.sub.LWEDimension()
	acc := s.par.AccumulatorParameters()
	switched := func(ct []T) (t int, amb bool) {
		t, amb = modSwitch(ct[0], L)
		for i, b := range key {
			if !s.here[i/n] {
				continue
			}
			a, tie := modSwitch(ct[i+1], L)
			amb = amb || tie && b != 0
			t += a * int(b)
		}
		return t, amb
	}
	// rotN is the error of the blind rotation of a ciphertext.
	rotN := func(w W, ct []T) float64 {
		t := 0.0
		simrt.Quiet(func() {
			for _, p := range s.parties {
				in := tfhe.NewLWECiphertextCustom[T](n)
				copy(in.Value[1:], ct[1+p*n:1+(p+1)*n])
				rot := 0
				for i, b := range s.sks[p].LWEKey.Value {
					a, _ := modSwitch(in.Value[i+1], L)
					rot -= a * int(b)
				}
				ev := tfhe.NewEvaluator(s.sub, s.evk[p].EvaluationKey)
				fg := tfhe.NewFFTGLevCiphertext(s.sub, acc)
				for l := 0; l < acc.Level(); l++ {
					lut := tfhe.NewLUT(s.sub)
					lut.Value[0].Coeffs[0] = baseQ(acc, l)
					ev.FwdFFTGLWECiphertextTo(fg.Value[l], ev.BlindRotate(in, lut))
				}
				t += s.extNoise(p, s.accObj(p, acc, fg, vecT[T](monoInt(s.N, rot))))
			}
		})
		if t > qOf[T]()/8 {
			s.c.Count("blind rotations with too much noise to judge")
		} else {
			s.c.Count("blind rotations judged")
		}
		return t
	}
	drawLUT := func(w W, r R) (tfhe.LookUpTable[T], lutModel[T]) {
		p := int(s.sub.MessageModulus())
		y := make([]T, p)
		for i := range y {
			y[i] = T(r.Uint64())
		}
		lut := tfhe.NewLUT(s.sub)
		if r.Intn(2) == 0 {
			fillAny(&lut, r.Uint64())
		}
		w.ev.SubEvaluators[s.parties[0]].GenLUTFullTo(lut, func(x int) T { return y[x] })
		return lut, newLUTModel(L, y)
	}
	add(func(w W, r R) *S {
		lut, m := drawLUT(w, r)
		if m.tied {
			return nil
		}
		ct := asML[T](s.pick(r, "S").v)
		t, amb := switched(ct.Value)
		if amb {
			return nil
		}
		want := make([]T, s.N)
		for j := range want {
			want[j] = m.at(t + j)
		}
		b := rotN(w, ct.Value)
		o := &S{name: "BlindRotateTo", owner: own, out: "G",
			bound: func([]float64) float64 { return b },
			want:  func([][]T) []T { return want },
			alloc: func([]any) any { return w.ev.BlindRotate(ct, lut) },
			to:    func(v any, in []any) { w.ev.BlindRotateTo(asMG[T](v), ct, lut) }}
		if r.Intn(2) == 0 {
			o.name = "BlindRotateParallelTo"
			o.alloc = func([]any) any { return w.ev.BlindRotateParallel(ct, lut) }
			o.to = func(v any, in []any) { w.ev.BlindRotateParallelTo(asMG[T](v), ct, lut) }
		}
		return o
	})
	for _, name := range []string{"BootstrapLUT", "BootstrapLUTParallel", "BootstrapFunc", "BootstrapFuncParallel"} {
		name := name
		add(func(w W, r R) *S {
			var table any
			var m lutModel[T]
			if name[9] == 'L' {
				var l tfhe.LookUpTable[T]
				l, m = drawLUT(w, r)
				table = l
			} else {
				p := int(s.sub.MessageModulus())
				ints, y := make([]int, p), make([]T, p)
				for i := range y {
					ints[i] = r.Intn(p)
					y[i] = T(ints[i]) * s.sub.Scale()
				}
				table = func(x int) int { return ints[x] }
				m = newLUTModel(L, y)
			}
			var b float64
			o := &S{name: name + "To", owner: own, out: s.def, in: []string{s.def}, pos: []int{1},
				bound: func([]float64) float64 { return b },
				alloc: func(in []any) any { return mcall(w.ev, name, in[0], table)[0].Interface() },
				to:    func(v any, in []any) { mcall(w.ev, name+"To", v, in[0], table) }}
			o.accept = func(in []any, ph [][]T) [][]T {
				ct := asML[T](in[0])
				d := (1 + absSum(key)) / 2
				if s.def == "B" {
					simrt.Quiet(func() { ct = w.ev.DefaultKeySwitch(ct) })
					d += s.ksN / qOf[T]() * float64(2*L)
				}
				b = rotN(w, ct.Value) + s.ksN
				x := float64(ph[0][0]) / qOf[T]() * float64(2*L)
				d += 0.01
				if m.tied {
					d++
				}
				exactT, amb := switched(ct.Value)
				var a [][]T
				for t := int(math.Ceil(x - d)); t <= int(math.Floor(x+d)); t++ {
					if amb || m.tied || (t-exactT)%(2*L) == 0 {
						a = append(a, []T{m.at(t)})
					}
				}
				return a
			}
			return o
		})
	}
}

// decrypt judges decryption of stored ciphertexts, uni-encryption and
// encryption.
func (s *msession[T]) decrypt(who string, w *mworker[T], r *simrt.Rng) {
	near := func(name string, got, want []T, bound float64) { s.check(who+": "+name, name, got, want, bound) }
	p, scale := s.sub.MessageModulus(), s.sub.Scale()
	round := func(x T) int {
		q, rem := x/scale, x%scale
		if rem > scale-rem {
			q++
		}
		return int(q % p)
	}
	ints := func(name string, got []int, ph []T, slack float64) {
		for i := range ph {
			lo, hi := round(ph[i]-T(slack)-1), round(ph[i]+T(slack)+1)
			if lo == hi && got[i] != lo {
				s.c.Failf("wrong-result:"+name, "%s: %s gives %d instead of %d", who, name, got[i], lo)
			}
		}
	}
	s.c.Count("decryptions judged")
	pt := tfhe.NewGLWEPlaintext(s.sub)
	fillAny(&pt, r.Uint64())
	m := make([]int, s.N)
	switch r.Intn(6) {
	case 0:
		o := s.pick(r, s.def)
		ph := s.kinds[s.def].phase(o.v)
		near("DecryptLWEPlaintext", []T{w.dec.DecryptLWEPlaintext(asML[T](o.v)).Value}, ph, 0)
		ints("DecryptLWE", []int{w.dec.DecryptLWE(asML[T](o.v))}, ph, 0)
	case 1:
		o := s.pick(r, "G")
		ph := s.kinds["G"].phase(o.v)
		b := s.fftErr(qOf[T]())
		ct := asMG[T](o.v)
		near("DecryptGLWEPhase", w.dec.DecryptGLWEPhase(ct).Value.Coeffs, ph, b)
		w.dec.DecryptGLWEPhaseTo(pt, ct)
		near("DecryptGLWEPhaseTo", pt.Value.Coeffs, ph, b)
		ints("DecryptGLWE", w.dec.DecryptGLWE(ct), ph, b)
		w.dec.DecryptGLWETo(m, ct)
		ints("DecryptGLWETo", m, ph, b)
	case 2:
		o := s.pick(r, "F")
		ph := s.kinds["F"].phase(o.v)
		b := s.fftErr(s.kinds["F"].mag(o.v) + qOf[T]())
		ct := asMF[T](o.v)
		near("DecryptFFTGLWEPhase", w.dec.DecryptFFTGLWEPhase(ct).Value.Coeffs, ph, b)
		w.dec.DecryptFFTGLWEPhaseTo(pt, ct)
		near("DecryptFFTGLWEPhaseTo", pt.Value.Coeffs, ph, b)
		ints("DecryptFFTGLWE", w.dec.DecryptFFTGLWE(ct), ph, b)
		w.dec.DecryptFFTGLWETo(m, ct)
		ints("DecryptFFTGLWETo", m, ph, b)
		if digestOf(o.v) != o.sum {
			s.c.Failf("operand-changed:DecryptFFTGLWE", "%s: decryption changed a transformed ciphertext", who)
		}
	case 3: // uni-encryption and back, by its owner
		u := s.uni[r.Intn(len(s.uni))]
		e := w.encs[u.i]
		mod := func(got []T) []T {
			o := append([]T(nil), got...)
			for i := range o {
				if (o[i]-u.msg[i])&(u.g.Base()-1) == 0 && o[i] < u.g.Base() {
					o[i] = u.msg[i]
				}
			}
			return o
		}
		near("FFTUniDecryptPoly", mod(e.FFTUniDecryptPoly(u.v).Coeffs), u.msg, 0)
		e.FFTUniDecryptPolyTo(pt.Value, u.v)
		near("FFTUniDecryptPolyTo", mod(pt.Value.Coeffs), u.msg, 0)
		back := w.tr.InvFFTUniEncryption(u.v)
		near("UniDecryptPoly", mod(e.UniDecryptPoly(back).Coeffs), u.msg, 0)
		dst := mktfhe.NewUniEncryption(s.par, u.g)
		w.tr.InvFFTUniEncryptionTo(dst, u.v)
		e.UniDecryptPolyTo(pt.Value, dst)
		near("UniDecryptPolyTo", mod(pt.Value.Coeffs), u.msg, 0)
		fdst := mktfhe.NewFFTUniEncryption(s.par, u.g)
		w.tr.FwdFFTUniEncryptionTo(fdst, dst)
		near("FwdFFTUniEncryptionTo", mod(e.FFTUniDecryptPoly(fdst).Coeffs), u.msg, 0)
		if digestOf(u.v) != u.sum {
			s.c.Failf("operand-changed:FFTUniDecrypt", "%s: decryption changed a uni-encryption", who)
		}
	case 4: // messages
		u := s.uni[r.Intn(len(s.uni))]
		e := w.encs[u.i]
		msg := make([]int, 1+r.Intn(s.N))
		for i := range msg {
			msg[i] = r.Intn(int(p))
		}
		full := make([]int, s.N)
		copy(full, msg)
		same := func(name string, got []int) {
			for i := range got {
				if got[i] != full[i] {
					s.c.Failf("wrong-result:"+name, "%s: %s gives %d instead of %d at %d", who, name, got[i], full[i], i)
				}
			}
		}
		g := s.par.RelinKeyParameters()
		a := e.UniEncrypt(msg, g)
		same("UniDecrypt", e.UniDecrypt(a))
		e.UniDecryptTo(m, a)
		same("UniDecryptTo", m)
		fillAny(&a.Value, r.Uint64())
		for i := range a.Value {
			for j := range a.Value[i].Value {
				_ = j
			}
		}
		e.UniEncryptTo(a, msg, g)
		same("UniEncryptTo", e.UniDecrypt(a))
		f := e.FFTUniEncrypt(msg, g)
		same("FFTUniDecrypt", e.FFTUniDecrypt(f))
		e.FFTUniEncryptTo(f, msg, g)
		e.FFTUniDecryptTo(m, f)
		same("FFTUniDecryptTo", m)
	default:
		i := r.Intn(len(w.encs))
		e := w.encs[i]
		x := T(r.Uint64())
		bound := 14*s.sub.GLWEStdDev()*qOf[T]() + 2
		lb := bound
		if s.def == "S" {
			lb = 14*s.sub.LWEStdDev()*qOf[T]() + 2
		}
		ct := e.EncryptLWEPlaintext(tfhe.LWEPlaintext[T]{Value: x})
		near("EncryptLWEPlaintext", s.kinds[s.def].phase(ct), []T{x}, lb)
		s.put(s.def, ct)
		v := poly.NewPoly[T](s.N)
		for j := range v.Coeffs {
			v.Coeffs[j] = T(r.Uint64())
		}
		want := append([]T(nil), v.Coeffs...)
		if r.Intn(2) == 0 {
			g := e.EncryptGLWEPlaintext(tfhe.GLWEPlaintext[T]{Value: v})
			near("EncryptGLWEPlaintext", s.kinds["G"].phase(g), want, bound)
			s.put("G", g)
		} else {
			g := e.EncryptFFTGLWEPlaintext(tfhe.GLWEPlaintext[T]{Value: v})
			near("EncryptFFTGLWEPlaintext", s.kinds["F"].phase(g), want, bound+s.fftErr(qOf[T]()))
			s.put("F", g)
		}
	}
}

// e05 runs one multi-key session.
func e05[T tfhe.TorusInt](c *Ctx) {
	lit := genMKParams[T](c, paramOpts{maxN: []int{32, 16, 64}[c.Int(3)], maxDim: 8}, 3+c.Int(2))
	if c.Int(3) > 0 { // so little noise that blind rotations can be judged
		lit.SubParams.GLWEStdDev = math.Exp2(-52)
		lit.SubParams.LWEStdDev = math.Exp2(-40)
	}
	par := lit.Compile()
	s := &msession[T]{par: par}
	s.c = c
	setup := c.Rng()
	s.seed = make([]byte, 1+setup.Intn(20))
	for i := range s.seed {
		s.seed[i] = byte(setup.Uint64())
	}
	s.here = make([]bool, par.PartyCount())
	perm := make([]int, par.PartyCount())
	for i := range perm {
		k := setup.Intn(i + 1)
		perm[i], perm[k] = perm[k], i
	}
	s.parties = perm[:1+c.Int(par.PartyCount())]
	for _, p := range s.parties {
		s.here[p] = true
	}
	var tmpl *mworker[T]
	c.Seq("setup", func() {
		s.setup(setup)
		tmpl = s.newWorker(setup)
	})
	in := digestOf(s.evk)
	nW := 1 + c.Int(3)
	nops := 4 + c.Int(30)
	ops := s.ops()
	focus := -1
	if c.Int(3) == 2 {
		focus = c.Int(len(ops))
	}
	faulty := c.Int(3) > 0
	rngs := make([]*simrt.Rng, nW)
	for i := range rngs {
		rngs[i] = c.Rng()
	}
	sl := lit.SubParams
	c.Desc("parties %v of %d, n=%d N=%d p=%d block=%d order=%v; %d workers, %d operations each", s.parties, par.PartyCount(), sl.LWEDimension, sl.PolyRank, sl.MessageModulus, sl.BlockSize, sl.BootstrapOrder, nW, nops)
	hows := drawCopies(c, nW)
	cp := func(w *mworker[T]) *mworker[T] { return w.copy() }
	c.Sim(SimOpts{Name: "session", Est: int64(nW * nops * 8000), NumCPU: drawCPUs(c)}, func() {
		concurrently(hows, tmpl, cp, func(i int, w *mworker[T]) {
			r := rngs[i]
			who := fmt.Sprintf("worker %d", i)
			draw := func() *sop[T] {
				for {
					k := r.Intn(len(ops))
					if focus >= 0 && r.Intn(2) == 0 {
						k = focus
					}
					if o := ops[k](w, r); o != nil {
						return o
					}
				}
			}
			for n := 0; n < nops; n++ {
				switch x := r.Intn(24); {
				case x == 0:
					s.move(who, r)
				case x <= 2:
					s.decrypt(who, w, r)
				case x == 5 || x == 6 && faulty:
					s.fresh(r)
				case x == 3 && faulty:
					s.abandon(r, draw())
				case x == 4 && r.Intn(3) == 0:
					if r.Intn(2) == 0 {
						w = w.copy()
					} else {
						w = s.newWorker(r)
					}
					c.Fault("worker restarted")
				case x == 5 && r.Intn(3) == 0:
					p := s.parties[r.Intn(len(s.parties))]
					s.register(w, p, s.parties[r.Intn(len(s.parties))])
					s.register(w, p, p)
					c.Fault("party changed its key")
				default:
					s.do(who, r, draw())
				}
			}
		})
	})
	c.Seq("afterwards", func() {
		s.settle()
		for n := 0; n < 3; n++ {
			if o := ops[setup.Intn(len(ops))](tmpl, setup); o != nil {
				s.do("afterwards", setup, o)
			}
		}
	})
	for _, u := range s.uni {
		if digestOf(u.v) != u.sum {
			c.Failf("operand-changed:uni-encryption", "a uni-encryption changed")
		}
	}
	for _, o := range s.glev {
		if digestOf(o.v) != o.sum {
			c.Failf("operand-changed:gadget", "a gadget ciphertext changed")
		}
	}
	if digestOf(s.evk) != in {
		c.Failf("operand-changed:keys", "an evaluation key changed")
	}
	c.nontrivial = true
}

func init() {
	register("E05", false, func(c *Ctx) { either(c, e05[uint32], e05[uint64]) })
}
