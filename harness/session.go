//go:build go1.22

package main

import (
	"fmt"
	"math"
	"reflect"

	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
)

// A session is a long-running computation: several workers, each with its own
// copy of an evaluator, take ciphertexts from a common store, apply one
// operation and put the result back. Every operation is judged on its own by
// phases: the phase of the result must be the plaintext function of the
// phases of the operands, up to an error bound derived from the operands, the
// gadget and the actual noise of the gadget ciphertexts. Depth and history
// therefore do not loosen the judgement.

// skind is a kind of ciphertext in the store.
type skind[T tfhe.TorusInt] struct {
	name  string
	zero  func() any // fresh object
	phase func(v any) []T
	mag   func(v any) float64 // size of transformed coefficients, nil if not transformed
	cut   func(v any) any     // a malformed version
	box   func(v any) (storable, func() any)
}

type sobj[T tfhe.TorusInt] struct {
	k   string
	v   any
	sum uint64 // digest when stored
}

// sop is one operation.
type sop[T tfhe.TorusInt] struct {
	name  string // the method
	owner string // for the aliasing rules
	out   string
	in    []string
	pos   []int // argument positions of the operands
	dst   int   // argument position of the destination
	acc   int   // +1, -1: added to or subtracted from the destination
	self  bool  // the operand is the destination
	alloc func(in []any) any
	to    func(dst any, in []any)
	want  func(ph [][]T) []T
	phase func(v any) []T // phase of the result, if not under the usual key
	post  func(v any)     // further checks of the result
	// bound returns the allowed error
	// accept lists the acceptable results when there are several
	accept func(in []any, ph [][]T) [][]T
	bound  func(mags []float64) float64
	skip   func() bool // nothing can be said about these operands
}

type session[T tfhe.TorusInt] struct {
	c       *Ctx
	kinds   map[string]*skind[T]
	pool    []*sobj[T]
	maxPool int
	tol     float64 // slack of one rounding in the phase
	amp     float64 // amplification of coefficient errors in the phase
	busy    int
}

const magLimit = 64 // transformed ciphertexts larger than this many Q are not used further

func (s *session[T]) put(k string, v any) *sobj[T] {
	o := &sobj[T]{k: k, v: v, sum: digestOf(v)}
	if len(s.pool) < s.maxPool {
		s.pool = append(s.pool, o)
		return o
	}
	// keep every kind alive
	n := map[string]int{}
	for _, x := range s.pool {
		n[x.k]++
	}
	for i := 0; ; i++ {
		at := int((o.sum>>8 + uint64(i)*7) % uint64(len(s.pool)))
		if x := s.pool[at]; n[x.k] > 2 || x.k == k {
			s.pool[at] = o
			return o
		}
		if i > 4*len(s.pool) {
			return o
		}
	}
}

func (s *session[T]) pick(r *simrt.Rng, k string) *sobj[T] {
	var c []*sobj[T]
	for _, o := range s.pool {
		if o.k == k {
			c = append(c, o)
		}
	}
	if len(c) == 0 {
		s.c.Failf("harness", "no object of kind %s", k)
	}
	return c[r.Intn(len(c))]
}

// fftErr bounds the phase error of transforms of coefficients of size mag.
func (s *session[T]) fftErr(mag float64) float64 {
	return s.amp * (mag*math.Exp2(-49) + 3)
}

func (s *session[T]) check(what, class string, got, want []T, bound float64) {
	if len(got) != len(want) {
		s.c.Failf("wrong-result:"+class, "%s: result of size %d, expected %d", what, len(got), len(want))
	}
	worst, at := -1.0, 0
	for i := range got {
		if d := math.Abs(signed(got[i] - want[i])); d > worst {
			worst, at = d, i
		}
	}
	if worst > bound {
		s.c.Failf("wrong-result:"+class, "%s: coefficient %d of the phase is off by %.4g (allowed %.4g, Q is %.4g)", what, at, worst, bound, qOf[T]())
	}
	s.c.Count("results judged")
}

// do applies one operation.
func (s *session[T]) do(who string, r *simrt.Rng, o *sop[T]) {
	c := s.c
	kind := s.kinds[o.out]
	objs := make([]*sobj[T], len(o.in))
	in := make([]any, len(o.in))
	for i, k := range o.in {
		objs[i] = s.pick(r, k)
		if i > 0 && o.in[i-1] == k && r.Intn(6) == 0 {
			objs[i] = objs[i-1] // the same operand twice
		}
		in[i] = objs[i].v
	}
	form := "new"
	var dst any
	alias := -1
	if o.alloc == nil || r.Intn(3) > 0 {
		form = "to"
		switch {
		case o.self:
			form = "in place"
			dst = dup(in[0])
			in[0] = dst
			alias = 0
		case o.acc != 0:
			dst = dup(s.pick(r, o.out).v)
		default:
			dst = kind.zero()
			if r.Intn(3) > 0 {
				v := reflect.New(reflect.TypeOf(dst)).Elem()
				v.Set(reflect.ValueOf(dst))
				fillLike(v, r)
				dst = v.Interface()
			}
		}
		if !o.self && r.Intn(3) == 0 {
			for i := range o.in {
				if o.in[i] == o.out && aliasTable[fmt.Sprintf("%s/%s/%d", o.owner, o.name, o.pos[i])] && (alias < 0 || r.Intn(2) == 0) {
					alias = i
				}
			}
			if alias >= 0 {
				// dst = operand. Other uses of the same object stay separate.
				form = "in place"
				dst = dup(objs[alias].v)
				in[alias] = dst
			}
		}
	}
	ph := make([][]T, len(in))
	mags := make([]float64, len(in)+1)
	for i := range in {
		ki := s.kinds[o.in[i]]
		ph[i] = ki.phase(in[i])
		if ki.mag != nil {
			mags[i] = ki.mag(in[i])
			if mags[i] > magLimit*qOf[T]() {
				c.Count("operands too large")
				return
			}
		}
	}
	phase := kind.phase
	if o.phase != nil {
		phase = o.phase
	}
	var base []T
	if o.acc != 0 {
		base = phase(dst)
		if kind.mag != nil {
			mags[len(in)] = kind.mag(dst)
			if mags[len(in)] > magLimit*qOf[T]() {
				return
			}
		}
	}
	var want []T
	var accept [][]T
	if o.accept != nil {
		accept = o.accept(in, ph)
		if len(accept) == 0 {
			c.Failf("switched:"+o.name, "%s: %s: the key-switched operand is outside the error of key switching", who, o.name)
		}
	} else {
		want = o.want(ph)
	}
	bound := o.bound(mags)
	if o.skip != nil && o.skip() {
		c.Count("operands too noisy")
		return
	}
	switch o.acc {
	case 1:
		w := append([]T(nil), base...)
		for i := range w {
			w[i] += want[i]
		}
		want = w
	case -1:
		w := append([]T(nil), base...)
		for i := range w {
			w[i] -= want[i]
		}
		want = w
	}
	name := o.name
	what := fmt.Sprintf("%s: %s (%s)", who, name, form)
	if c.Tier == "v" {
		c.Desc("%s", what)
	}
	c.NoteStr(name)
	var out any
	if form == "new" {
		out = o.alloc(in)
	} else {
		o.to(dst, in)
		out = dst
	}
	got := phase(out)
	for _, a := range accept {
		if want == nil || dist(got, a) < dist(got, want) {
			want = a
		}
	}
	s.check(what, name, got, want, bound)
	c.Cover(name, form, alias)
	c.Count("operations: " + form)
	for i, x := range objs {
		if i != alias && digestOf(x.v) != x.sum {
			c.Failf("operand-changed:"+name, "%s changed its operand %d", what, i)
		}
	}
	if kind.mag == nil || kind.mag(out) < magLimit*qOf[T]() {
		s.put(o.out, out)
	}
}

// fillLike overwrites an object with unrelated values.
func fillLike(v reflect.Value, r *simrt.Rng) { fill(v, r) }

// abandon starts an operation on malformed operands, which ends in a panic,
// and leaves everything it used behind.
func (s *session[T]) abandon(r *simrt.Rng, o *sop[T]) {
	in := make([]any, len(o.in))
	for i, k := range o.in {
		in[i] = dup(s.pick(r, k).v)
	}
	dst := s.kinds[o.out].zero()
	cutAt := r.Intn(len(in) + 1)
	if o.self && cutAt == len(in) {
		cutAt = 0
	}
	if cutAt == len(in) {
		dst = s.kinds[o.out].cut(dst)
	} else {
		in[cutAt] = s.kinds[o.in[cutAt]].cut(in[cutAt])
	}
	if o.self {
		dst = in[0]
	}
	p := catch(func() { o.to(dst, in) })
	if p != nil {
		s.c.Fault("operation abandoned half-way")
	} else {
		s.c.Count("malformed operands accepted")
	}
}

// move sends an object through a store and replaces it.
func (s *session[T]) move(who string, r *simrt.Rng) {
	i := r.Intn(len(s.pool))
	x := s.pool[i]
	k := s.kinds[x.k]
	src, _ := k.box(x.v)
	w := &simWriter{limit: -1}
	if r.Intn(3) == 0 { // a failing disk first
		f := &simWriter{limit: r.Intn(src.ByteSize()), ferr: errDisk, late: r.Intn(2) == 0}
		if _, err := src.WriteTo(f); err == nil {
			s.c.Failf("lost-write:"+x.k, "%s: writing to a full disk reports success", who)
		}
		s.c.Fault("failed write")
	}
	if _, err := src.WriteTo(w); err != nil {
		s.c.Failf("write:"+x.k, "%s: writing to memory fails: %v", who, err)
	}
	dst, get := k.box(k.zero())
	if r.Intn(3) == 0 {
		f := &simReader{data: w.got, ch: &chunker{mode: r.Intn(6), r: r}, limit: r.Intn(len(w.got)), ferr: errDisk}
		if _, err := dst.ReadFrom(f); err == nil {
			s.c.Failf("lost-read:"+x.k, "%s: reading a truncated object reports success", who)
		}
		s.c.Fault("failed read")
	}
	rd := &simReader{data: w.got, ch: &chunker{mode: r.Intn(6), r: r}, limit: -1, joined: r.Intn(2) == 0}
	if _, err := dst.ReadFrom(rd); err != nil {
		s.c.Failf("read:"+x.k, "%s: reading back fails: %v", who, err)
	}
	s.c.Fault("object sent through a stream in pieces")
	y := get()
	if d := digestOf(y); d != x.sum {
		s.c.Failf("moved:"+x.k, "%s: a ciphertext changed on the way through a store", who)
	}
	for j := range s.pool {
		if s.pool[j] == x {
			s.pool[j] = &sobj[T]{k: x.k, v: y, sum: x.sum}
		}
	}
}

// settle checks that nothing in the store changed since it was put there.
func (s *session[T]) settle() {
	for _, o := range s.pool {
		if digestOf(o.v) != o.sum {
			s.c.Failf("store-changed:"+o.k, "a stored ciphertext of kind %s changed without being the destination of an operation", o.k)
		}
	}
}

// negMul is the negacyclic product.
func negMul[T tfhe.TorusInt](a, b []T) []T {
	out := make([]T, len(a))
	negMulAdd(out, a, b)
	return out
}

func addVec[T tfhe.TorusInt](a, b []T, sign int) []T {
	o := make([]T, len(a))
	for i := range a {
		if sign > 0 {
			o[i] = a[i] + b[i]
		} else {
			o[i] = a[i] - b[i]
		}
	}
	return o
}

func absSum[T tfhe.TorusInt](p []T) float64 {
	t := 0.0
	for _, x := range p {
		t += math.Abs(signed(x))
	}
	return t
}

// gadgetObj is a gadget ciphertext with its known message and actual noise.
type gadgetObj[T tfhe.TorusInt] struct {
	g    tfhe.GadgetParameters[T]
	v    any
	msg  []T
	rows []float64 // per row: bound of the noise contribution to a product
	key  float64   // 1-norm of what the rounding errors are multiplied by
	sum  uint64
}

// prodBound bounds the error of a product with row first..last.
func (g *gadgetObj[T]) prodBound(rows int, roundNorm float64) float64 {
	t := 0.0
	for i := 0; i < rows; i++ {
		t += g.rows[i]
	}
	lb := 0
	for b := g.g.Base(); b > 1; b >>= 1 {
		lb++
	}
	r := math.Exp2(float64(sizeT[T]()-lb*g.g.Level())) / 2
	if r < 1 {
		r = 0
	}
	return t + r*roundNorm + 2
}

// rowNoise bounds Σ_l digit_l·e_l for digits of at most half the base.
func rowNoise[T tfhe.TorusInt](g tfhe.GadgetParameters[T], errs [][]T) float64 {
	t := 0.0
	d := float64(g.Base())/2 + 1
	for _, e := range errs {
		l1, l2 := 0.0, 0.0
		for _, x := range e {
			v := signed(x)
			l1 += math.Abs(v)
			l2 += v * v
		}
		t += d * math.Min(l1, 14*math.Sqrt(l2))
	}
	return t
}

// dist is the largest difference.
func dist[T tfhe.TorusInt](a, b []T) float64 {
	d := 0.0
	for i := range a {
		d = math.Max(d, math.Abs(signed(a[i]-b[i])))
	}
	return d
}

// dup is a deep copy of a boxed value.
func dup(v any) any { return clone(reflect.ValueOf(v)).Interface() }
