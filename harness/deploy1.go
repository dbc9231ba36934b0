//go:build go1.22

package main

import (
	"fmt"
	"sort"

	"SIMMODULE/math/poly"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
)

// E01: a client, servers and a data provider of a single-key deployment.

func init() {
	register("E01", true, func(c *Ctx) { either(c, e01[uint32], e01[uint64]) })
}

// register kinds
const (
	kLWE = iota
	kGLWE
	kGGSW
	kBIT // an LWE ciphertext of a truth value
	kUNI
	kGLEV
)

// val is what the model knows about a register.
type val struct {
	kind int
	v    []int   // message or coefficients
	w    float64 // noise, in units of the variance of one bootstrapping
	set  int     // parties whose keys protect it
	boot bool    // computed with evaluation keys
}

// model is the plaintext arithmetic of a parameter set.
type model struct {
	p, N int
	pow2 bool
}

func newModel[T tfhe.TorusInt](par tfhe.Parameters[T]) *model {
	p := int(par.MessageModulus())
	return &model{p: p, N: par.PolyRank(), pow2: p&(p-1) == 0}
}

// norm reduces exact results; ok is false where the encoding gives no guarantee.
func (m *model) norm(v []int) (out []int, ok bool) {
	out = make([]int, len(v))
	for i, x := range v {
		if m.pow2 {
			out[i] = ((x % (2 * m.p)) + 2*m.p) % (2 * m.p)
		} else if x < 0 || x >= m.p {
			return nil, false
		} else {
			out[i] = x
		}
	}
	return out, true
}

// table applies a look-up table.
func (m *model) table(t []int, v int) int {
	if v < m.p {
		return t[v]
	}
	return -t[v-m.p]
}

func polyMulInt(a, b []int) []int {
	n := len(a)
	out := make([]int, n)
	for i, x := range a {
		if x == 0 {
			continue
		}
		for j, y := range b {
			if k := i + j; k < n {
				out[k] += x * y
			} else {
				out[k-n] -= x * y
			}
		}
	}
	return out
}

func monoInt(n, d int) []int {
	out := make([]int, n)
	d = ((d % (2 * n)) + 2*n) % (2 * n)
	if d < n {
		out[d] = 1
	} else {
		out[d-n] = -1
	}
	return out
}

func polyOf[T tfhe.TorusInt](v []int) poly.Poly[T] {
	p := poly.NewPoly[T](len(v))
	for i, x := range v {
		p.Coeffs[i] = T(x)
	}
	return p
}

func l1(v []int) float64 {
	s := 0
	for _, x := range v {
		if x < 0 {
			x = -x
		}
		s += x
	}
	return float64(s)
}

// smallPolyInts draws a sparse plaintext polynomial.
func smallPolyInts(c *Ctx, n int) []int {
	v := make([]int, n)
	switch c.Int(4) {
	case 0:
		v[0] = 1
	case 1:
		return monoInt(n, c.Int(2*n))
	case 2:
		v[c.Int(n)]++
		v[c.Int(n)]--
	case 3:
		v[0] = 0
	}
	return v
}

const maxW = 6

// gen1 draws a program for a single-key deployment.
type gen1 struct {
	c    *Ctx
	m    *model
	vals map[int]val
	pr   *program
	ids  []int
	srvs []int
	next int
	brks bool // bootstrapping ends with a key switch
	mk   bool

	prodW  float64 // further noise of an external product
	limit  float64 // noise budget, maxW unless set
	noKeys bool    // only operations without keys
}

func (g *gen1) input(kind int, ms []int, v []int, how string, by int) int {
	id := g.next
	g.next++
	g.pr.inputs = append(g.pr.inputs, &dinput{id: id, kind: kind, by: by, how: how, ms: ms})
	g.vals[id] = val{kind: kind, v: v, w: 0.01}
	g.ids = append(g.ids, id)
	return id
}

// pick draws a register of a kind whose noise allows more, favouring late ones.
func (g *gen1) pick(kind int, w float64) (int, bool) {
	var l []int
	for _, id := range g.ids {
		if x := g.vals[id]; x.kind == kind && x.w <= w {
			l = append(l, id)
		}
	}
	if len(l) == 0 {
		return 0, false
	}
	if len(l) > 3 && g.c.Int(2) == 1 {
		l = l[len(l)-3:]
	}
	return l[g.c.Int(len(l))], true
}

func (g *gen1) add(o *dop, r val) {
	v, ok := r.v, true
	if r.kind != kBIT && r.kind != kGGSW {
		v, ok = g.m.norm(r.v)
	}
	limit := g.limit
	if limit == 0 {
		limit = maxW
	}
	if !ok || r.w > limit || g.noKeys && len(o.keys) > 0 {
		return
	}
	r.v = v
	for _, i := range o.in {
		r.set |= g.vals[i].set
		r.boot = r.boot || g.vals[i].boot
	}
	if len(o.keys) > 0 {
		r.boot = true
	}
	if g.mk && len(o.keys) > 0 { // everyone concerned must have registered
		o.keys = nil
		for i := 0; i < 16; i++ {
			if r.set>>i&1 == 1 {
				o.keys = append(o.keys, evkName(i))
			}
		}
	}
	o.id = g.next
	g.next++
	o.srv = g.srvs[g.c.Int(len(g.srvs))]
	o.form = g.c.Int(3)
	g.vals[o.id] = r
	g.ids = append(g.ids, o.id)
	g.pr.ops = append(g.pr.ops, o)
	g.pr.home[o.id] = o.srv
}

var gateNames = []string{"AND", "NAND", "OR", "NOR", "XOR", "XNOR"}

func gate(name string, a, b int) int {
	x, y := a == 1, b == 1
	r := false
	switch name {
	case "AND":
		r = x && y
	case "NAND":
		r = !(x && y)
	case "OR":
		r = x || y
	case "NOR":
		r = !(x || y)
	case "XOR":
		r = x != y
	case "XNOR":
		r = x == y
	}
	if r {
		return 1
	}
	return 0
}

// tables draws a look-up table.
func drawTable(c *Ctx, p int) []int {
	t := make([]int, p)
	switch c.Int(3) {
	case 0:
		for i := range t {
			t[i] = i
		}
	case 1:
		x := c.Int(p)
		for i := range t {
			t[i] = x
		}
	default:
		for i := range t {
			t[i] = c.Int(p)
		}
	}
	return t
}

// lweStep draws an operation on integers; it reports false when there is none.
func (g *gen1) lweStep(foreign bool) bool {
	c, m := g.c, g.m
	a, ok := g.pick(kLWE, maxW)
	if !ok {
		return false
	}
	x := g.vals[a]
	switch c.Int(9) {
	case 0, 1, 2:
		t := drawTable(c, m.p)
		name := []string{"BootstrapFunc", "BootstrapLUT"}[c.Int(2)]
		if g.mk && c.Int(2) == 1 {
			name += "Parallel"
		}
		g.add(&dop{name: name, in: []int{a}, table: t, keys: []string{"evk"}}, val{kind: kLWE, v: []int{m.table(t, x.v[0])}, w: 1})
	case 3:
		b, _ := g.pick(kLWE, maxW)
		y := g.vals[b]
		w := x.w + y.w
		if a == b {
			w = 4 * x.w
		}
		g.add(&dop{name: "AddLWE", in: []int{a, b}}, val{kind: kLWE, v: []int{x.v[0] + y.v[0]}, w: w})
	case 4:
		b, _ := g.pick(kLWE, maxW)
		y := g.vals[b]
		g.add(&dop{name: "SubLWE", in: []int{a, b}}, val{kind: kLWE, v: []int{x.v[0] - y.v[0]}, w: x.w + y.w})
	case 5:
		g.add(&dop{name: "NegLWE", in: []int{a}}, val{kind: kLWE, v: []int{-x.v[0]}, w: x.w})
	case 6:
		k := c.Range(-2, 3)
		g.add(&dop{name: "ScalarMulLWE", in: []int{a}, ints: []int{k}}, val{kind: kLWE, v: []int{k * x.v[0]}, w: float64(k*k) * x.w})
	case 7:
		k := c.Int(m.p)
		g.add(&dop{name: "AddPlainLWE", in: []int{a}, ints: []int{k}}, val{kind: kLWE, v: []int{x.v[0] + k}, w: x.w})
	case 8:
		k := c.Int(m.p)
		g.add(&dop{name: "SubPlainLWE", in: []int{a}, ints: []int{k}}, val{kind: kLWE, v: []int{x.v[0] - k}, w: x.w})
	}
	return true
}

func (g *gen1) bitStep(par bool) bool {
	c := g.c
	a, ok := g.pick(kBIT, 1)
	if !ok {
		return false
	}
	if c.Int(7) == 6 {
		g.add(&dop{name: "NOT", in: []int{a}}, val{kind: kBIT, v: []int{1 - g.vals[a].v[0]}, w: g.vals[a].w})
		return true
	}
	b, _ := g.pick(kBIT, 1)
	n := gateNames[c.Int(len(gateNames))]
	r := val{kind: kBIT, v: []int{gate(n, g.vals[a].v[0], g.vals[b].v[0])}, w: 1}
	if par && c.Int(2) == 1 {
		n += "Parallel"
	}
	g.add(&dop{name: n, in: []int{a, b}, keys: []string{"evk"}}, r)
	return true
}

func addInts(a, b []int, s int) []int {
	out := make([]int, len(a))
	for i := range a {
		out[i] = a[i] + s*b[i]
	}
	return out
}

func scaleInts(a []int, k int) []int {
	out := make([]int, len(a))
	for i := range a {
		out[i] = k * a[i]
	}
	return out
}

func (g *gen1) glweStep() bool {
	c, m := g.c, g.m
	limit := g.limit
	if limit == 0 {
		limit = maxW
	}
	a, ok := g.pick(kGLWE, limit)
	if !ok {
		return false
	}
	x := g.vals[a]
	switch c.Int(12) {
	case 0:
		i := c.Int(m.N)
		g.add(&dop{name: "Extract", in: []int{a}, ints: []int{i}, keys: []string{"evk"}}, val{kind: kLWE, v: []int{x.v[i]}, w: x.w + 0.5})
	case 1, 2:
		if g.mk {
			g.mkProd(kUNI, "HybridProdGLWE", a)
			return true
		}
		s, ok := g.pick(kGGSW, maxW)
		if !ok {
			return true
		}
		q := g.vals[s].v
		g.add(&dop{name: "ExternalProdGLWE", in: []int{s, a}}, val{kind: kGLWE, v: polyMulInt(q, x.v), w: l1(q)*l1(q)*x.w + 0.5 + g.prodW})
	case 3, 4:
		if g.mk {
			g.mkProd(kGLEV, "ExternalProdGLWE", a)
			return true
		}
		s, ok := g.pick(kGGSW, maxW)
		if !ok {
			return true
		}
		q := g.vals[s].v
		b, _ := g.pick(kGLWE, limit)
		y := g.vals[b]
		d := addInts(y.v, x.v, -1)
		r := addInts(x.v, polyMulInt(q, d), 1)
		k := l1(q)
		g.add(&dop{name: "CMux", in: []int{s, a, b}}, val{kind: kGLWE, v: r, w: (1+k)*(1+k)*x.w + k*k*y.w + 0.5 + g.prodW})
	case 5:
		b, _ := g.pick(kGLWE, limit)
		y := g.vals[b]
		w := x.w + y.w
		if a == b {
			w = 4 * x.w
		}
		g.add(&dop{name: "AddGLWE", in: []int{a, b}}, val{kind: kGLWE, v: addInts(x.v, y.v, 1), w: w})
	case 6:
		b, _ := g.pick(kGLWE, limit)
		y := g.vals[b]
		g.add(&dop{name: "SubGLWE", in: []int{a, b}}, val{kind: kGLWE, v: addInts(x.v, y.v, -1), w: x.w + y.w})
	case 7:
		g.add(&dop{name: "NegGLWE", in: []int{a}}, val{kind: kGLWE, v: scaleInts(x.v, -1), w: x.w})
	case 8:
		k := c.Range(-2, 3)
		g.add(&dop{name: "ScalarMulGLWE", in: []int{a}, ints: []int{k}}, val{kind: kGLWE, v: scaleInts(x.v, k), w: float64(k*k) * x.w})
	case 9:
		d := c.Range(-2*m.N, 2*m.N)
		g.add(&dop{name: "MonomialMulGLWE", in: []int{a}, ints: []int{d}}, val{kind: kGLWE, v: polyMulInt(monoInt(m.N, d), x.v), w: x.w})
	case 10:
		q := smallPolyInts(c, m.N)
		g.add(&dop{name: "PolyMulGLWE", in: []int{a}, ints: q}, val{kind: kGLWE, v: polyMulInt(q, x.v), w: l1(q)*l1(q)*x.w + 0.01})
	case 11:
		k := c.Int(m.p)
		q := make([]int, m.N)
		for i := range q {
			q[i] = (k + i) % m.p
		}
		n, s := "AddPlainGLWE", 1
		if c.Int(2) == 1 {
			n, s = "SubPlainGLWE", -1
		}
		g.add(&dop{name: n, in: []int{a}, ints: q}, val{kind: kGLWE, v: addInts(x.v, q, s), w: x.w})
	}
	return true
}

// mkProd multiplies a ciphertext by the encrypted polynomial of one party.
func (g *gen1) mkProd(kind int, name string, a int) {
	s, ok := g.pick(kind, maxW)
	if !ok {
		return
	}
	x, q := g.vals[a], g.vals[s].v
	idx := 0
	for g.vals[s].set>>idx&1 == 0 {
		idx++
	}
	g.add(&dop{name: name, in: []int{s, a}, ints: []int{idx}, keys: []string{"evk"}}, val{kind: kGLWE, v: polyMulInt(q, x.v), w: l1(q)*l1(q)*x.w + 0.5 + g.prodW})
}

// ---------------------------------------------------------------------------
// the server application

type back1[T tfhe.TorusInt] struct {
	par *tfhe.Parameters[T]
	ev  *tfhe.BinaryEvaluator[T]
	ksk *tfhe.LWEKeySwitchKey[T]
}

func (b *back1[T]) object(kind int) storable {
	switch kind {
	case kGLWE:
		return &tfhe.GLWECiphertext[T]{}
	case kGGSW:
		return &tfhe.FFTGGSWCiphertext[T]{}
	}
	return &tfhe.LWECiphertext[T]{}
}

func (b *back1[T]) keyObject(name string) storable {
	switch name {
	case "params":
		return &tfhe.Parameters[T]{}
	case "evk":
		return &tfhe.EvaluationKey[T]{}
	case "ksk":
		return &tfhe.LWEKeySwitchKey[T]{}
	}
	panic("harness: key " + name)
}

func (b *back1[T]) install(name string, o storable) bool {
	if name == "params" {
		if b.par == nil {
			b.par = o.(*tfhe.Parameters[T])
			b.ev = tfhe.NewBinaryEvaluator(*b.par, tfhe.EvaluationKey[T]{})
		}
		return true
	}
	if b.par == nil {
		return false
	}
	switch name {
	case "evk":
		b.ev = tfhe.NewBinaryEvaluator(*b.par, *o.(*tfhe.EvaluationKey[T]))
	case "ksk":
		b.ksk = o.(*tfhe.LWEKeySwitchKey[T])
	}
	return true
}

func (b *back1[T]) executor() executor {
	e := b.ev.SafeCopy()
	return &exec1[T]{par: *b.par, ev: e, ksk: b.ksk,
		lwe: tfhe.NewLWECiphertext(*b.par), glwe: tfhe.NewGLWECiphertext(*b.par), lut: tfhe.NewLUT(*b.par)}
}

type exec1[T tfhe.TorusInt] struct {
	par  tfhe.Parameters[T]
	ev   *tfhe.BinaryEvaluator[T]
	ksk  *tfhe.LWEKeySwitchKey[T]
	lwe  tfhe.LWECiphertext[T]
	glwe tfhe.GLWECiphertext[T]
	lut  tfhe.LookUpTable[T]
}

func tableOf(t []int) func(int) int { return func(x int) int { return t[x] } }

func scalarOf[T tfhe.TorusInt](k int) T { return T(k) }

func (x *exec1[T]) run(o *dop, in []storable) (int, []storable) {
	var l [3]tfhe.LWECiphertext[T]
	var g [3]tfhe.GLWECiphertext[T]
	for i, s := range in {
		switch v := s.(type) {
		case *tfhe.LWECiphertext[T]:
			l[i] = *v
		case *tfhe.GLWECiphertext[T]:
			g[i] = *v
		}
	}
	ev := x.ev.Evaluator
	lwe := func(plain func() tfhe.LWECiphertext[T], to func(tfhe.LWECiphertext[T])) (int, []storable) {
		if o.form == 0 {
			return kLWE, []storable{ptr(plain())}
		}
		d := x.lwe
		if o.form == 2 {
			d = tfhe.NewLWECiphertext(x.par)
		}
		to(d)
		return kLWE, []storable{ptr(d.Copy())}
	}
	glwe := func(plain func() tfhe.GLWECiphertext[T], to func(tfhe.GLWECiphertext[T])) (int, []storable) {
		if o.form == 0 {
			return kGLWE, []storable{ptr(plain())}
		}
		d := x.glwe
		if o.form == 2 {
			d = tfhe.NewGLWECiphertext(x.par)
		}
		to(d)
		return kGLWE, []storable{ptr(d.Copy())}
	}
	type L = tfhe.LWECiphertext[T]
	type G = tfhe.GLWECiphertext[T]
	switch o.name {
	case "BootstrapFunc":
		f := tableOf(o.table)
		return lwe(func() L { return ev.BootstrapFunc(l[0], f) }, func(d L) { ev.BootstrapFuncTo(d, l[0], f) })
	case "BootstrapLUT":
		f := tableOf(o.table)
		lut := x.lut
		if o.form == 0 {
			lut = ev.GenLUT(f)
		} else {
			ev.GenLUTTo(lut, f)
		}
		return lwe(func() L { return ev.BootstrapLUT(l[0], lut) }, func(d L) { ev.BootstrapLUTTo(d, l[0], lut) })
	case "AddLWE":
		return lwe(func() L { return ev.AddLWE(l[0], l[1]) }, func(d L) { ev.AddLWETo(d, l[0], l[1]) })
	case "SubLWE":
		return lwe(func() L { return ev.SubLWE(l[0], l[1]) }, func(d L) { ev.SubLWETo(d, l[0], l[1]) })
	case "NegLWE":
		return lwe(func() L { return ev.NegLWE(l[0]) }, func(d L) { ev.NegLWETo(d, l[0]) })
	case "ScalarMulLWE":
		k := scalarOf[T](o.ints[0])
		return lwe(func() L { return ev.ScalarMulLWE(l[0], k) }, func(d L) { ev.ScalarMulLWETo(d, l[0], k) })
	case "AddPlainLWE":
		pt := ev.EncodeLWE(o.ints[0])
		return lwe(func() L { return ev.AddPlainLWE(l[0], pt) }, func(d L) { ev.AddPlainLWETo(d, l[0], pt) })
	case "SubPlainLWE":
		pt := ev.EncodeLWE(o.ints[0])
		return lwe(func() L { return ev.SubPlainLWE(l[0], pt) }, func(d L) { ev.SubPlainLWETo(d, l[0], pt) })
	case "KeySwitchLWE":
		return lwe(func() L { return ev.KeySwitchLWE(l[0], *x.ksk) }, func(d L) { ev.KeySwitchLWETo(d, l[0], *x.ksk) })
	case "Extract":
		if x.par.BootstrapOrder() == tfhe.OrderBlindRotateKeySwitch {
			big := g[0].AsLWECiphertext(o.ints[0])
			return lwe(func() L { return ev.DefaultKeySwitch(big) }, func(d L) { ev.DefaultKeySwitchTo(d, big) })
		}
		return lwe(func() L { return g[0].AsLWECiphertext(o.ints[0]) }, func(d L) { g[0].AsLWECiphertextTo(o.ints[0], d) })
	case "ExternalProdGLWE":
		s := *in[0].(*tfhe.FFTGGSWCiphertext[T])
		return glwe(func() G { return ev.ExternalProdGLWE(s, g[1]) }, func(d G) { ev.ExternalProdGLWETo(d, s, g[1]) })
	case "CMux":
		s := *in[0].(*tfhe.FFTGGSWCiphertext[T])
		return glwe(func() G { return ev.CMux(s, g[1], g[2]) }, func(d G) { ev.CMuxTo(d, s, g[1], g[2]) })
	case "AddGLWE":
		return glwe(func() G { return ev.AddGLWE(g[0], g[1]) }, func(d G) { ev.AddGLWETo(d, g[0], g[1]) })
	case "SubGLWE":
		return glwe(func() G { return ev.SubGLWE(g[0], g[1]) }, func(d G) { ev.SubGLWETo(d, g[0], g[1]) })
	case "NegGLWE":
		return glwe(func() G { return ev.NegGLWE(g[0]) }, func(d G) { ev.NegGLWETo(d, g[0]) })
	case "ScalarMulGLWE":
		k := scalarOf[T](o.ints[0])
		return glwe(func() G { return ev.ScalarMulGLWE(g[0], k) }, func(d G) { ev.ScalarMulGLWETo(d, g[0], k) })
	case "MonomialMulGLWE":
		return glwe(func() G { return ev.MonomialMulGLWE(g[0], o.ints[0]) }, func(d G) { ev.MonomialMulGLWETo(d, g[0], o.ints[0]) })
	case "PolyMulGLWE":
		q := polyOf[T](o.ints)
		return glwe(func() G { return ev.PolyMulGLWE(g[0], q) }, func(d G) { ev.PolyMulGLWETo(d, g[0], q) })
	case "AddPlainGLWE":
		pt := ev.EncodeGLWE(o.ints)
		return glwe(func() G { return ev.AddPlainGLWE(g[0], pt) }, func(d G) { ev.AddPlainGLWETo(d, g[0], pt) })
	case "SubPlainGLWE":
		pt := ev.EncodeGLWE(o.ints)
		return glwe(func() G { return ev.SubPlainGLWE(g[0], pt) }, func(d G) { ev.SubPlainGLWETo(d, g[0], pt) })
	case "NOT":
		k, out := lwe(func() L { return x.ev.NOT(l[0]) }, func(d L) { x.ev.NOTTo(d, l[0]) })
		return k, out
	}
	plain := map[string]func(a, b L) L{"AND": x.ev.AND, "NAND": x.ev.NAND, "OR": x.ev.OR, "NOR": x.ev.NOR, "XOR": x.ev.XOR, "XNOR": x.ev.XNOR}[o.name]
	to := map[string]func(d, a, b L){"AND": x.ev.ANDTo, "NAND": x.ev.NANDTo, "OR": x.ev.ORTo, "NOR": x.ev.NORTo, "XOR": x.ev.XORTo, "XNOR": x.ev.XNORTo}[o.name]
	if plain == nil {
		panic("harness: operation " + o.name)
	}
	return lwe(func() L { return plain(l[0], l[1]) }, func(d L) { to(d, l[0], l[1]) })
}

// paramsFirst orders key files so that parameters come first.
func paramsFirst(names []string) {
	sort.SliceStable(names, func(i, j int) bool { return names[i] == "params" && names[j] != "params" })
}

// lazy computes a value once, on first use by any thread.
type lazy[V any] struct {
	v    V
	done bool
	busy bool
	wq   simrt.WaitQ
}

func (l *lazy[V]) get(f func() V) V {
	for !l.done {
		if l.busy {
			l.wq.Wait("a value computed by another thread")
			continue
		}
		l.busy = true
		l.v = f()
		l.done = true
		l.wq.WakeAll()
	}
	return l.v
}

// ---------------------------------------------------------------------------

func e01[T tfhe.TorusInt](c *Ctx) {
	lit := genParams[T](c, paramOpts{maxN: []int{32, 64, 128}[c.Int(3)], maxP: 4, correct: true, maxDim: 12})
	par := lit.Compile()
	cl := newCluster(c)
	m := newModel(par)
	g := &gen1{c: c, m: m, vals: map[int]val{}, pr: &program{home: map[int]int{}}, next: 1, brks: par.BootstrapOrder() == tfhe.OrderBlindRotateKeySwitch}
	pub := par.IsPublicKeyEncryptable()
	nsrv := 1 + c.Int(3)

	// nodes: servers, client, provider
	for i := 0; i < nsrv; i++ {
		cl.add("server", serverMain(1+c.Int(3), func() backend { return &back1[T]{} }, paramsFirst))
		g.srvs = append(g.srvs, i+1)
	}
	client := nsrv + 1
	provider := 0
	if pub && c.Int(3) > 0 {
		provider = nsrv + 2
	}
	who := func() int {
		if provider != 0 && c.Int(2) == 1 {
			return provider
		}
		return client
	}
	ints := func(n, mod int) []int {
		v := make([]int, n)
		for i := range v {
			v[i] = c.Int(mod)
		}
		return v
	}
	poly := func() []int {
		v := make([]int, m.N)
		r := c.Rng()
		for i := range v {
			v[i] = r.Intn(m.p)
		}
		return v
	}
	mix := c.Int(4) // what the program is about
	if mix != 2 {
		for i := 0; i < 1+c.Int(3); i++ {
			ms := ints(1, m.p)
			g.input(kLWE, ms, ms, "lwe", who())
		}
	}
	if mix == 1 || mix == 3 {
		for i := 0; i < 1+c.Int(2); i++ {
			ms := poly()
			g.input(kGLWE, ms, ms, "glwe", who())
		}
		for i := 0; i < 1+c.Int(2); i++ {
			q := smallPolyInts(c, m.N)
			g.input(kGGSW, q, q, "ggsw", client)
		}
	}
	if mix >= 2 {
		for i := 0; i < 1+c.Int(3); i++ {
			b := ints(1, 2)
			g.input(kBIT, b, b, "bit", who())
		}
	}
	foreign := mix == 0 && c.Int(3) == 2
	if foreign {
		ms := ints(1, m.p)
		id := g.next
		g.next++
		g.pr.inputs = append(g.pr.inputs, &dinput{id: id, kind: kLWE, by: client, how: "foreign", ms: ms})
		g.add(&dop{name: "KeySwitchLWE", in: []int{id}, keys: []string{"ksk"}}, val{kind: kLWE, v: ms, w: 0.6})
	}
	nops := 2 + c.Int(9)
	for i := 0; i < 4*nops && len(g.pr.ops) < nops; i++ {
		ok := false
		switch {
		case mix == 1 && c.Int(3) > 0 || mix == 3 && c.Int(3) == 2:
			ok = g.glweStep()
		case mix == 2 || mix == 3 && c.Int(2) == 1:
			ok = g.bitStep(false)
		}
		if !ok && mix != 2 {
			g.lweStep(foreign)
		}
	}
	c.Desc("params n=%d k=%d N=%d lut=%d p=%d block=%d order=%v; %d servers provider=%v", lit.LWEDimension, lit.GLWERank, lit.PolyRank, lit.LUTSize, lit.MessageModulus, lit.BlockSize, lit.BootstrapOrder, nsrv, provider != 0)
	for _, in := range g.pr.inputs {
		c.Desc("input r%d %s %v by node %d", in.id, in.how, shortInts(in.ms), in.by)
	}
	for _, o := range g.pr.ops {
		c.Desc("%s", shortOp(o))
		c.Cover(o.name, o.form, lit.BlockSize > 1, lit.LUTSize > lit.PolyRank, lit.GLWERank, lit.BootstrapOrder)
	}

	drivers := 1 + c.Int(3)
	parallelGen := c.Int(2) == 1
	rekey := c.Int(3) == 2
	cl.add("client", func(p *proc) { client1(p, par, lit, g, drivers, nsrv, provider, parallelGen, rekey) })
	if provider != 0 {
		cl.add("provider", func(p *proc) { provider1(p, par) })
	}
	heavy := 0
	for _, o := range g.pr.ops {
		if len(o.keys) > 0 {
			heavy++
		}
	}
	est := int64(100000 + heavy*lit.LWEDimension*lit.PolyRank*(lit.LUTSize/lit.PolyRank)*60)
	cl.run(SimOpts{Est: est, NumCPU: drawCPUs(c)})
	c.nontrivial = len(g.pr.ops) > 1
}

func shortInts(v []int) string {
	if len(v) > 6 {
		return fmt.Sprintf("%v...", v[:6])
	}
	return fmt.Sprint(v)
}

func shortOp(o *dop) string {
	return fmt.Sprintf("r%d = %s regs%v ints%s table%v on server %d form %d", o.id, o.name, o.in, shortInts(o.ints), o.table, o.srv, o.form)
}

// provider1 encrypts inputs with the public key.
func provider1[T tfhe.TorusInt](p *proc, par tfhe.Parameters[T]) {
	var enc *tfhe.BinaryPublicEncryptor[T]
	pk := tfhe.PublicKey[T]{}
	if p.n.disk.load("pk", &pk) {
		enc = tfhe.NewBinaryPublicEncryptor(par, pk)
	}
	busy := map[[2]int]bool{}
	p.serve(func(m packet) {
		switch m.op {
		case "pk":
			k := tfhe.PublicKey[T]{}
			st := "retry"
			if p.receive(m.payload, &k) && p.n.disk.save("pk", &k) {
				enc = tfhe.NewBinaryPublicEncryptor(par, k)
				st = "ok"
			}
			p.answer(m, packet{status: st})
		case "give":
			if enc == nil {
				p.answer(m, packet{status: "no key"})
				return
			}
			in := m.arg.(*dinput)
			k := [2]int{in.id, m.peer}
			if busy[k] {
				return
			}
			busy[k] = true
			e := enc.SafeCopy()
			simrt.Go(func() {
				var o storable
				switch in.how {
				case "lwe":
					o = ptr(e.Encryptor.EncryptLWE(in.ms[0]))
				case "glwe":
					o = ptr(e.Encryptor.EncryptGLWE(in.ms))
				case "bit":
					o = ptr(e.EncryptLWEBool(in.ms[0] == 1))
				}
				p.put(in.id, in.kind, m.peer, o)
				delete(busy, k)
				p.cl.c.Count("inputs encrypted with the public key")
				p.answer(m, packet{status: "ok"})
			})
		}
	})
}

func client1[T tfhe.TorusInt](p *proc, par tfhe.Parameters[T], lit tfhe.ParametersLiteral[T], g *gen1, drivers, nsrv, provider int, parallelGen, rekey bool) {
	c := p.cl.c
	simrt.Go(func() { p.serve(func(packet) {}) })
	// keys: generated once, durable before anything depends on them
	sk := tfhe.SecretKey[T]{}
	if p.n.disk.load("sk", &sk) {
		c.Count("secret keys reloaded after a restart")
	} else {
		sk = tfhe.NewEncryptor(par).GenSecretKey()
		for !p.n.disk.save("sk", &sk) {
			p.sleep(100 * micro)
		}
	}
	var other tfhe.SecretKey[T]
	if !p.n.disk.load("other", &other) {
		other = tfhe.NewEncryptor(par).GenSecretKey()
		for !p.n.disk.save("other", &other) {
			p.sleep(100 * micro)
		}
	}
	enc := tfhe.NewBinaryEncryptorWithKey(par, sk)
	newEvk := func() *tfhe.EvaluationKey[T] {
		e := enc.SafeCopy()
		if parallelGen {
			return ptr(e.GenEvalKeyParallel())
		}
		return ptr(e.GenEvalKey())
	}
	var evk lazy[*tfhe.EvaluationKey[T]]
	var ksk lazy[*tfhe.LWEKeySwitchKey[T]]
	sendParams := func(srv int) { p.sendKey("params", srv, ptr(par)) }
	for s := 1; s <= nsrv; s++ {
		sendParams(s)
	}
	key := func(name string, srv int) {
		switch name {
		case "evk":
			p.sendKey(name, srv, evk.get(newEvk))
		case "ksk":
			p.sendKey(name, srv, ksk.get(func() *tfhe.LWEKeySwitchKey[T] {
				from := tfhe.NewEncryptorWithKey(par, other).DefaultLWESecretKey()
				return ptr(enc.SafeCopy().Encryptor.GenLWEKeySwitchKey(from, par.KeySwitchParams()))
			}))
		}
	}
	supply := func(in *dinput, srv int) {
		if in.by != p.n.id {
			for !p.cl.stop {
				r := p.rpc(in.by, packet{op: "give", arg: in, peer: srv})
				if r.status == "ok" {
					return
				}
				if r.status == "no key" {
					pk := enc.SafeCopy().GenPublicKey()
					for !p.cl.stop && p.rpc(in.by, packet{op: "pk", payload: p.encode(&pk)}).status != "ok" {
					}
				}
			}
			return
		}
		e := enc.SafeCopy()
		var o storable
		switch in.how {
		case "lwe":
			o = ptr(e.Encryptor.EncryptLWE(in.ms[0]))
		case "glwe":
			o = ptr(e.Encryptor.EncryptGLWE(in.ms))
		case "bit":
			o = ptr(e.EncryptLWEBool(in.ms[0] == 1))
		case "ggsw":
			o = ptr(e.Encryptor.EncryptFFTGGSWPoly(polyOf[T](in.ms), par.BlindRotateParams()))
		case "foreign":
			o = ptr(tfhe.NewEncryptorWithKey(par, other).EncryptLWE(in.ms[0]))
		}
		if ct, ok := o.(*tfhe.LWECiphertext[T]); ok && p.cl.rng.Intn(3) == 0 {
			key := e.Encryptor.DefaultLWESecretKey().Value
			if in.how == "foreign" {
				key = tfhe.NewEncryptorWithKey(par, other).DefaultLWESecretKey().Value
			}
			rareMask(p.cl.rng, &ct.Value[0], ct.Value[1:], key, par.LUTSize())
			c.Count("ciphertexts with a rare mask")
		}
		p.put(in.id, in.kind, srv, o)
	}
	if rekey {
		simrt.Go(func() {
			p.sleep(int64(p.cl.rng.Intn(10000)) * micro)
			if !p.cl.stop && !p.cl.done {
				c.Count("keys registered again")
				p.sendKey("evk", 1+p.cl.rng.Intn(nsrv), newEvk())
			}
		})
	}
	p.drive(g.pr, drivers, supply, key)
	// every result, opened with the key as stored
	stored := tfhe.SecretKey[T]{}
	p.n.disk.load("sk", &stored)
	dec := tfhe.NewBinaryEncryptorWithKey(par, stored)
	for _, o := range g.pr.ops {
		v := g.vals[o.id]
		what := fmt.Sprintf("r%d (%s)", o.id, shortOp(o))
		switch v.kind {
		case kLWE:
			ct := tfhe.LWECiphertext[T]{}
			if !p.fetch(o.id, o.srv, &ct) {
				c.Failf("result-lost", "%s is acknowledged but gone", what)
			}
			checkLWE(c, par, g.m, "wrong-result:"+o.name, what, dec.Encryptor.DecryptLWEPhase(ct).Value, dec.Encryptor.DecryptLWE(ct), v.v[0])
		case kBIT:
			ct := tfhe.LWECiphertext[T]{}
			if !p.fetch(o.id, o.srv, &ct) {
				c.Failf("result-lost", "%s is acknowledged but gone", what)
			}
			if got := dec.DecryptLWEBool(ct); got != (v.v[0] == 1) {
				c.Failf("wrong-result:"+o.name, "%s decrypts to %v", what, got)
			}
		case kGLWE:
			ct := tfhe.GLWECiphertext[T]{}
			if !p.fetch(o.id, o.srv, &ct) {
				c.Failf("result-lost", "%s is acknowledged but gone", what)
			}
			checkGLWE(c, par, g.m, "wrong-result:"+o.name, what, dec.Encryptor.DecryptGLWEPhase(ct).Value.Coeffs, dec.Encryptor.DecryptGLWE(ct), v.v)
		}
		c.Count("results compared")
	}
	p.cl.finish()
}

// checkLWE compares a decryption with the model.
func checkLWE[T tfhe.TorusInt](c *Ctx, par tfhe.Parameters[T], m *model, class, what string, phase T, got, want int) {
	d := signed(phase - T(want)*par.Scale())
	if d < 0 {
		d = -d
	}
	if m.pow2 && d > 0.6*float64(par.Scale())/2 {
		c.Count("results using more than 60 % of the noise margin")
	}
	if m.pow2 && d > float64(par.Scale())/2 || got != want%m.p {
		c.Failf(class, "%s decrypts to %d (error %.3g of half a step), expected %d", what, got, d/(float64(par.Scale())/2), want)
	}
}

func checkGLWE[T tfhe.TorusInt](c *Ctx, par tfhe.Parameters[T], m *model, class, what string, phase []T, got, want []int) {
	if len(got) != len(want) {
		c.Failf(class, "%s decrypts to %d coefficients", what, len(got))
	}
	for i := range want {
		checkLWE(c, par, m, class, fmt.Sprintf("%s coefficient %d", what, i), phase[i], got[i], want[i])
	}
}
