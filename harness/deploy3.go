//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
	"SIMMODULE/xtfhe"
)

// E03: deployments that run the extension schemes.

func init() {
	register("E03", true, func(c *Ctx) { either(c, e03[uint32], e03[uint64]) })
}

const (
	dBFV = iota
	dCircuit
	dFHEW
	dMany
	dSanitize
	numDep
)

var depNames = []string{"levelled arithmetic", "circuit bootstrapping", "automorphism bootstrapping", "several tables", "sanitisation"}

// conf is the static configuration every node of a deployment knows.
type conf3[T tfhe.TorusInt] struct {
	kind int
	par  tfhe.Parameters[T]
	cpar xtfhe.CircuitBootstrapParameters[T]
	fpar xtfhe.FHEWParameters[T]
	mpar xtfhe.ManyLUTParameters[T]
	span xtfhe.SanitizationParameters[T]
	gad  tfhe.GadgetParameters[T]
}

func drawConf3[T tfhe.TorusInt](c *Ctx) *conf3[T] {
	f := &conf3[T]{kind: c.Int(numDep)}
	small := sizeT[T]() == 32
	quietNoise := func(l *tfhe.ParametersLiteral[T]) {
		if small {
			l.LWEStdDev, l.GLWEStdDev = math.Exp2(-31), math.Exp2(-31)
			l.BlindRotateParams = gad[T](4, 7)
		} else {
			l.LWEStdDev, l.GLWEStdDev = math.Exp2(-50), math.Exp2(-50)
			l.BlindRotateParams = gad[T](8, 5)
		}
	}
	fine := func() tfhe.GadgetParametersLiteral[T] {
		if small {
			return gad[T]([]int{4, 3}[c.Int(2)], 7)
		}
		return gad[T]([]int{10, 8}[c.Int(2)], 5)
	}
	maxN := []int{32, 64, 128}[c.Int(3)]
	switch f.kind {
	case dBFV:
		l := genParams[T](c, paramOpts{maxN: maxN / 2, powerP: true, maxP: 4})
		quietNoise(&l)
		f.par = l.Compile()
		g := gad[T](4, 7)
		if !small {
			g = gad[T]([]int{10, 8}[c.Int(2)], 5)
		}
		f.gad = g.Compile()
	case dCircuit, dMany:
		n := []int{2, 4, 1}[c.Int(3)]
		limN := 128
		if f.kind == dCircuit && small { // products with 32 bit circuit bootstrapping results need room
			limN = 64
		}
		l := genParams[T](c, paramOpts{maxN: limN, noExt: true, powerP: true, maxP: 4, correct: true, maxDim: 8, lutSlack: n, maxRank: 2})
		if f.kind == dCircuit {
			quietNoise(&l)
		}
		ml := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: l, LUTCount: n}
		f.mpar = ml.Compile()
		if f.kind == dCircuit {
			out := gad[T](4, 3+c.Int(2))
			if !small {
				out = gad[T](6, 3+c.Int(2))
			}
			f.cpar = xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: ml, SchemeSwitchParams: fine(), TraceKeySwitchParams: fine(), OutputParams: out}.Compile()
		}
		f.par = f.mpar.BaseParams()
	case dFHEW:
		l := genParams[T](c, paramOpts{maxN: 64, noExt: true, block1: true, powerP: true, maxP: 4, correct: true, maxDim: 8, maxRank: 2})
		l.PolyRank, l.LUTSize = 128, 128
		if l.MessageModulus > 2 && l.LWEDimension > 4 {
			l.LWEDimension = 2 + l.LWEDimension%3
		}
		f.fpar = fhewOf(c, l).Compile()
		f.par = f.fpar.BaseParams()
	case dSanitize:
		f.span = sanitizeOf[T](c).Compile()
		f.par = f.span.BaseParams()
	}
	return f
}

// packIdx are the automorphisms packing and traces use.
func (f *conf3[T]) packIdx() []int {
	var l []int
	for n := f.par.PolyRank(); n > 1; n /= 2 {
		l = append(l, n+1)
	}
	return l
}

// keysFor lists the keys of an extension operation.
func (f *conf3[T]) keysFor(what string) []string {
	var l []string
	switch what {
	case "circuit":
		l = []string{"evk"}
		for i := 0; i < f.par.GLWERank(); i++ {
			l = append(l, fmt.Sprintf("ss%d", i))
		}
		for _, d := range f.packIdx() {
			l = append(l, fmt.Sprintf("tr%d", d))
		}
	case "pack":
		for _, d := range f.packIdx() {
			l = append(l, fmt.Sprintf("gal%d", d))
		}
	case "fhew":
		l = []string{"brk", "ksk"}
		for i := 0; i <= f.fpar.WindowSize(); i++ {
			l = append(l, fmt.Sprintf("fg%d", i))
		}
	case "sanitize":
		l = []string{"evk", "pk"}
	}
	return l
}

func idxOf(name, prefix string) int {
	i := 0
	fmt.Sscanf(strings.TrimPrefix(name, prefix), "%d", &i)
	return i
}

// ---------------------------------------------------------------------------
// the server application

type back3[T tfhe.TorusInt] struct {
	f    *conf3[T]
	evk  tfhe.EvaluationKey[T]
	pk   tfhe.PublicKey[T]
	bfv  xtfhe.BFVEvaluationKey[T]
	cbk  xtfhe.CircuitBootstrapKey[T]
	fhew xtfhe.FHEWEvaluationKey[T]
	// base evaluators, rebuilt when a key arrives
	be  *exec3[T]
	gen int
}

func newBack3[T tfhe.TorusInt](f *conf3[T]) *back3[T] {
	b := &back3[T]{f: f}
	b.bfv.GaloisKeys = map[int]tfhe.GLWEKeySwitchKey[T]{}
	b.cbk.TraceKeys = map[int]tfhe.GLWEKeySwitchKey[T]{}
	if f.kind == dCircuit {
		b.cbk.SchemeSwitchKey = make([]tfhe.FFTGGSWCiphertext[T], f.par.GLWERank())
	}
	if f.kind == dFHEW {
		b.fhew.GaloisKey = make([]tfhe.GLWEKeySwitchKey[T], f.fpar.WindowSize()+1)
	}
	return b
}

func (b *back3[T]) object(kind int) storable {
	switch kind {
	case kGLWE:
		return &tfhe.GLWECiphertext[T]{}
	case kGGSW:
		return &tfhe.FFTGGSWCiphertext[T]{}
	}
	return &tfhe.LWECiphertext[T]{}
}

func (b *back3[T]) keyObject(name string) storable {
	switch {
	case name == "evk":
		return &tfhe.EvaluationKey[T]{}
	case name == "pk":
		return &tfhe.PublicKey[T]{}
	case name == "brk":
		return &tfhe.BlindRotateKey[T]{}
	case name == "ksk":
		return &tfhe.LWEKeySwitchKey[T]{}
	case strings.HasPrefix(name, "ss"):
		return &tfhe.FFTGGSWCiphertext[T]{}
	}
	return &tfhe.GLWEKeySwitchKey[T]{}
}

func (b *back3[T]) install(name string, o storable) bool {
	addTo := func(m map[int]tfhe.GLWEKeySwitchKey[T], d int) map[int]tfhe.GLWEKeySwitchKey[T] {
		n := map[int]tfhe.GLWEKeySwitchKey[T]{} // older evaluators keep theirs
		for _, k := range sortedInts(m) {
			n[k] = m[k]
		}
		n[d] = *o.(*tfhe.GLWEKeySwitchKey[T])
		return n
	}
	switch {
	case name == "evk":
		b.evk = *o.(*tfhe.EvaluationKey[T])
	case name == "pk":
		b.pk = *o.(*tfhe.PublicKey[T])
	case name == "brk":
		b.fhew.BlindRotateKey = *o.(*tfhe.BlindRotateKey[T])
	case name == "ksk":
		b.fhew.KeySwitchKey = *o.(*tfhe.LWEKeySwitchKey[T])
	case name == "relin":
		b.bfv.RelinKey = *o.(*tfhe.GLWEKeySwitchKey[T])
	case strings.HasPrefix(name, "ss"):
		l := append([]tfhe.FFTGGSWCiphertext[T](nil), b.cbk.SchemeSwitchKey...)
		l[idxOf(name, "ss")] = *o.(*tfhe.FFTGGSWCiphertext[T])
		b.cbk.SchemeSwitchKey = l
	case strings.HasPrefix(name, "fg"):
		l := append([]tfhe.GLWEKeySwitchKey[T](nil), b.fhew.GaloisKey...)
		l[idxOf(name, "fg")] = *o.(*tfhe.GLWEKeySwitchKey[T])
		b.fhew.GaloisKey = l
	case strings.HasPrefix(name, "gal"):
		b.bfv.GaloisKeys = addTo(b.bfv.GaloisKeys, idxOf(name, "gal"))
	case strings.HasPrefix(name, "tr"):
		b.cbk.TraceKeys = addTo(b.cbk.TraceKeys, idxOf(name, "tr"))
	}
	b.be = nil
	b.gen++
	return true
}

func sortedInts[V any](m map[int]V) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

func (b *back3[T]) executor() executor {
	base := b.be
	for base == nil {
		gen := b.gen
		e := &exec3[T]{f: b.f}
		switch b.f.kind {
		case dBFV:
			e.bfv = xtfhe.NewBFVEvaluator(b.f.par, b.bfv)
		case dCircuit:
			e.cb = xtfhe.NewCircuitBootstrapper(b.f.cpar, b.evk, b.cbk)
		case dFHEW:
			e.fhew = xtfhe.NewFHEWEvaluator(b.f.fpar, b.fhew)
		case dMany:
			e.many = xtfhe.NewManyLUTEvaluator(b.f.mpar, b.evk)
		case dSanitize:
			e.san = xtfhe.NewSanitizer(b.f.span, b.pk, b.evk)
		}
		if gen == b.gen { // no key arrived meanwhile
			b.be, base = e, e
		}
	}
	e := &exec3[T]{f: b.f}
	x := &exec1[T]{par: b.f.par, lwe: tfhe.NewLWECiphertext(b.f.par), glwe: tfhe.NewGLWECiphertext(b.f.par), lut: tfhe.NewLUT(b.f.par)}
	e.exec1 = x
	var ev *tfhe.Evaluator[T]
	switch b.f.kind {
	case dBFV:
		e.bfv = base.bfv.SafeCopy()
		ev = e.bfv.Evaluator
	case dCircuit:
		e.cb = base.cb.SafeCopy()
		e.many, e.bfv = e.cb.ManyLUTEvaluator, e.cb.BFVEvaluator
		ev = e.many.Evaluator
		x.par = b.f.par
	case dFHEW:
		e.fhew = base.fhew.SafeCopy()
		ev = e.fhew.Evaluator
	case dMany:
		e.many = base.many.SafeCopy()
		ev = e.many.Evaluator
	case dSanitize:
		e.san = base.san.SafeCopy()
		ev = e.san.Evaluator
	}
	x.ev = &tfhe.BinaryEvaluator[T]{Evaluator: ev}
	if b.f.kind == dCircuit {
		e.ggsw = tfhe.NewFFTGGSWCiphertext(b.f.par, b.f.cpar.OutputParams())
	}
	return e
}

type exec3[T tfhe.TorusInt] struct {
	*exec1[T]
	f    *conf3[T]
	bfv  *xtfhe.BFVEvaluator[T]
	cb   *xtfhe.CircuitBootstrapper[T]
	fhew *xtfhe.FHEWEvaluator[T]
	many *xtfhe.ManyLUTEvaluator[T]
	san  *xtfhe.Sanitizer[T]
	ggsw tfhe.FFTGGSWCiphertext[T]
}

// tables splits the table of an operation into functions.
func tablesOf(t []int, p int) []func(int) int {
	var fs []func(int) int
	for i := 0; i+p <= len(t); i += p {
		fs = append(fs, tableOf(t[i:i+p]))
	}
	return fs
}

func (x *exec3[T]) run(o *dop, in []storable) (int, []storable) {
	type L = tfhe.LWECiphertext[T]
	type G = tfhe.GLWECiphertext[T]
	par := x.f.par
	var l L
	var g [2]G
	n := 0
	for _, s := range in {
		switch v := s.(type) {
		case *L:
			l = *v
		case *G:
			g[n] = *v
			n++
		}
	}
	glwe := func(plain func() G, to func(G)) (int, []storable) {
		if o.form == 0 {
			return kGLWE, []storable{ptr(plain())}
		}
		d := x.glwe
		if o.form == 2 {
			d = tfhe.NewGLWECiphertext(par)
		}
		to(d)
		return kGLWE, []storable{ptr(d.Copy())}
	}
	lwe := func(plain func() L, to func(L)) (int, []storable) {
		if o.form == 0 {
			return kLWE, []storable{ptr(plain())}
		}
		d := x.lwe
		if o.form == 2 {
			d = tfhe.NewLWECiphertext(par)
		}
		to(d)
		return kLWE, []storable{ptr(d.Copy())}
	}
	lut := func() tfhe.LookUpTable[T] {
		ev := x.ev.Evaluator
		if o.form == 0 {
			return ev.GenLUT(tableOf(o.table))
		}
		ev.GenLUTTo(x.lut, tableOf(o.table))
		return x.lut
	}
	switch o.name {
	case "Mul":
		return glwe(func() G { return x.bfv.Mul(g[0], g[1]) }, func(d G) { x.bfv.MulTo(d, g[0], g[1]) })
	case "Tensor+Relinearize":
		r := par.GLWERank()
		return glwe(func() G { return x.bfv.Relinearize(x.bfv.Tensor(g[0], g[1])) }, func(d G) {
			t := tfhe.NewGLWECiphertextCustom[T](r*(r+3)/2, par.PolyRank())
			x.bfv.TensorTo(t, g[0], g[1])
			x.bfv.RelinearizeTo(d, t)
		})
	case "Permute":
		return glwe(func() G { return x.bfv.Permute(g[0], o.ints[0]) }, func(d G) { x.bfv.PermuteTo(d, g[0], o.ints[0]) })
	case "Pack":
		big := l
		if n == 1 {
			big = g[0].AsLWECiphertext(o.ints[0])
		}
		return glwe(func() G { return x.bfv.Pack(big) }, func(d G) { x.bfv.PackTo(d, big) })
	case "CircuitBootstrap":
		if o.form == 0 {
			return kGGSW, []storable{ptr(x.cb.CircuitBootstrap(l))}
		}
		d := x.ggsw
		if o.form == 2 {
			d = tfhe.NewFFTGGSWCiphertext(par, x.f.cpar.OutputParams())
		}
		x.cb.CircuitBootstrapTo(d, l)
		return kGGSW, []storable{ptr(d.Copy())}
	case "FHEW BootstrapFunc":
		f := tableOf(o.table)
		return lwe(func() L { return x.fhew.BootstrapFunc(l, f) }, func(d L) { x.fhew.BootstrapFuncTo(d, l, f) })
	case "FHEW BootstrapLUT":
		t := lut()
		return lwe(func() L { return x.fhew.BootstrapLUT(l, t) }, func(d L) { x.fhew.BootstrapLUTTo(d, l, t) })
	case "many BootstrapFunc", "many BootstrapLUT":
		fs := tablesOf(o.table, int(par.MessageModulus()))
		k := x.f.mpar.LUTCount()
		var res []L
		if o.form != 0 {
			for i := 0; i < k; i++ {
				res = append(res, tfhe.NewLWECiphertext(par))
			}
		}
		switch {
		case o.name == "many BootstrapFunc" && o.form == 0:
			res = x.many.BootstrapFunc(l, fs)
		case o.name == "many BootstrapFunc":
			x.many.BootstrapFuncTo(res, l, fs)
		case o.form == 0:
			res = x.many.BootstrapLUT(l, x.many.GenLUT(fs))
		default:
			x.many.GenLUTTo(x.lut, fs)
			x.many.BootstrapLUTTo(res, l, x.lut)
		}
		var out []storable
		for i := range fs {
			out = append(out, ptr(res[i].Copy()))
		}
		return kLWE, out
	case "SanitizeFunc":
		f := tableOf(o.table)
		return lwe(func() L { return x.san.SanitizeFunc(l, f) }, func(d L) { x.san.SanitizeFuncTo(d, l, f) })
	case "SanitizeLUT":
		t := lut()
		return lwe(func() L { return x.san.SanitizeLUT(l, t) }, func(d L) { x.san.SanitizeLUTTo(d, l, t) })
	case "ReRandLWE":
		f := func(d L) { x.san.ReRandLWETo(d, l) }
		return lwe(func() L { d := tfhe.NewLWECiphertext(par); f(d); return d }, f)
	case "ReRandGLWE":
		f := func(d G) { x.san.ReRandGLWETo(d, g[0]) }
		return glwe(func() G { d := tfhe.NewGLWECiphertext(par); f(d); return d }, f)
	}
	return x.exec1.run(o, in)
}

// ---------------------------------------------------------------------------
// programs

func autoInts(v []int, d int) []int {
	n := len(v)
	out := make([]int, n)
	for i, x := range v {
		k := ((i*d)%(2*n) + 2*n) % (2 * n)
		if k < n {
			out[k] += x
		} else {
			out[k-n] -= x
		}
	}
	return out
}

// bfvStep draws an operation on encrypted polynomials.
func (g *gen1) bfvStep(pack []string, rank int, lwe bool) {
	c, m := g.c, g.m
	a, _ := g.pick(kGLWE, g.limit)
	b, _ := g.pick(kGLWE, g.limit)
	x, y := g.vals[a], g.vals[b]
	switch c.Int(8) {
	case 0, 1, 2:
		if c.Int(4) == 3 {
			b, y = a, x
		}
		grow := 8 * float64(m.p*m.p*m.N) * (float64(rank*m.N)/24 + 2)
		name := "Mul"
		if c.Int(3) == 2 {
			name = "Tensor+Relinearize"
		}
		g.add(&dop{name: name, in: []int{a, b}, keys: []string{"relin"}}, val{kind: kGLWE, v: polyMulInt(x.v, y.v), w: grow*(x.w+y.w) + 1})
	case 3, 4:
		d := 2*c.Range(-m.N, m.N-1) + 1
		if c.Int(2) == 1 {
			d = []int{-1, m.N + 1, 3, 5}[c.Int(4)]
		}
		g.add(&dop{name: "Permute", in: []int{a}, ints: []int{d}, keys: []string{fmt.Sprintf("gal%d", d)}}, val{kind: kGLWE, v: autoInts(x.v, d), w: x.w + 1})
	case 5:
		r := make([]int, m.N)
		if s, ok := g.pick(kLWE, g.limit); ok && lwe && c.Int(2) == 1 {
			r[0] = g.vals[s].v[0]
			g.add(&dop{name: "Pack", in: []int{s}, keys: pack}, val{kind: kGLWE, v: r, w: g.vals[s].w + float64(m.N*m.N)})
			return
		}
		i := c.Int(m.N)
		r[0] = x.v[i]
		g.add(&dop{name: "Pack", in: []int{a}, ints: []int{i}, keys: pack}, val{kind: kGLWE, v: r, w: x.w + float64(m.N*m.N)})
	default:
		g.linearGLWE()
	}
}

// linearGLWE draws an operation that needs no key.
func (g *gen1) linearGLWE() {
	g.noKeys = true
	g.glweStep()
	g.noKeys = false
}

// extStep draws a bootstrapping of an extension.
func extStep[T tfhe.TorusInt](g *gen1, f *conf3[T]) {
	c, m := g.c, g.m
	a, ok := g.pick(kLWE, maxW)
	if !ok {
		return
	}
	v := g.vals[a].v[0]
	switch f.kind {
	case dCircuit:
		if c.Int(3) == 2 {
			g.manyStep(a, f.mpar.LUTCount())
			return
		}
		r := make([]int, m.N)
		id := make([]int, m.p)
		for i := range id {
			id[i] = i
		}
		r[0] = m.table(id, v)
		g.add(&dop{name: "CircuitBootstrap", in: []int{a}, keys: f.keysFor("circuit")}, val{kind: kGGSW, v: r, w: 1})
	case dFHEW:
		t := drawTable(c, m.p)
		g.add(&dop{name: []string{"FHEW BootstrapFunc", "FHEW BootstrapLUT"}[c.Int(2)], in: []int{a}, table: t, keys: f.keysFor("fhew")}, val{kind: kLWE, v: []int{m.table(t, v)}, w: 1})
	case dMany:
		g.manyStep(a, f.mpar.LUTCount())
	case dSanitize:
		switch c.Int(5) {
		case 0:
			g.add(&dop{name: "ReRandLWE", in: []int{a}, keys: f.keysFor("sanitize")}, val{kind: kLWE, v: []int{v}, w: g.vals[a].w + 0.5})
		case 1:
			b, ok := g.pick(kGLWE, maxW)
			if !ok {
				return
			}
			g.add(&dop{name: "ReRandGLWE", in: []int{b}, keys: f.keysFor("sanitize")}, val{kind: kGLWE, v: g.vals[b].v, w: g.vals[b].w + 0.5})
		default:
			t := drawTable(c, m.p)
			g.add(&dop{name: []string{"SanitizeFunc", "SanitizeLUT"}[c.Int(2)], in: []int{a}, table: t, keys: f.keysFor("sanitize")}, val{kind: kLWE, v: []int{m.table(t, v)}, w: 3})
		}
	}
}

func (g *gen1) manyStep(a, max int) {
	c, m := g.c, g.m
	n := 1 + c.Int(max)
	var t []int
	for i := 0; i < n; i++ {
		t = append(t, drawTable(c, m.p)...)
	}
	o := &dop{name: []string{"many BootstrapFunc", "many BootstrapLUT"}[c.Int(2)], in: []int{a}, table: t, keys: []string{"evk"}}
	v := g.vals[a].v[0]
	first := g.next
	g.add(o, val{kind: kLWE, v: []int{m.table(t[:m.p], v)}, w: 1})
	if g.next == first {
		return
	}
	for i := 1; i < n; i++ {
		id := g.next
		g.next++
		r, _ := m.norm([]int{m.table(t[i*m.p:(i+1)*m.p], v)})
		o.outs = append(o.outs, id)
		g.vals[id] = val{kind: kLWE, v: r, w: 1}
		g.ids = append(g.ids, id)
		g.pr.home[id] = o.srv
	}
}

func e03[T tfhe.TorusInt](c *Ctx) {
	f := drawConf3[T](c)
	par := f.par
	cl := newCluster(c)
	m := newModel(par)
	g := &gen1{c: c, m: m, vals: map[int]val{}, pr: &program{home: map[int]int{}}, next: 1, brks: par.BootstrapOrder() == tfhe.OrderBlindRotateKeySwitch}
	nsrv := 1 + c.Int(2)
	for i := 0; i < nsrv; i++ {
		cl.add("server", serverMain(1+c.Int(3), func() backend { return newBack3(f) }, nil))
		g.srvs = append(g.srvs, i+1)
	}
	client := nsrv + 1
	lweIn := func() {
		ms := []int{c.Int(m.p)}
		g.input(kLWE, ms, ms, "lwe", client)
	}
	glweIn := func() {
		ms := make([]int, m.N)
		r := c.Rng()
		for i := range ms {
			ms[i] = r.Intn(m.p)
		}
		g.input(kGLWE, ms, ms, "glwe", client)
	}
	for i := 0; i < 1+c.Int(3); i++ {
		if f.kind == dBFV {
			glweIn()
			if !g.brks && c.Int(2) == 1 {
				lweIn()
			}
		} else {
			lweIn()
			if f.kind != dFHEW && c.Int(2) == 1 {
				glweIn()
			}
		}
	}
	if f.kind == dBFV {
		g.limit = math.Exp2(32)
		if sizeT[T]() == 64 {
			g.limit = math.Exp2(50)
		}
	}
	if f.kind == dCircuit && sizeT[T]() == 32 {
		g.prodW = 2
	}
	nops := 1 + c.Int(7)
	for i := 0; i < 4*nops && len(g.pr.ops) < nops; i++ {
		if f.kind == dBFV {
			g.bfvStep(f.keysFor("pack"), par.GLWERank(), !g.brks)
			continue
		}
		switch c.Int(5) {
		case 0:
			g.noKeys = f.kind == dFHEW // no blind rotation key of the ordinary kind
			g.lweStep(false)
			g.noKeys = false
		case 1, 2:
			if f.kind == dFHEW {
				extStep(g, f)
			} else {
				g.glweStep()
			}
		default:
			extStep(g, f)
		}
	}
	c.Desc("%s: n=%d k=%d N=%d p=%d block=%d order=%v; %d servers", depNames[f.kind], par.LWEDimension(), par.GLWERank(), par.PolyRank(), par.MessageModulus(), par.BlockSize(), par.BootstrapOrder(), nsrv)
	for _, in := range g.pr.inputs {
		c.Desc("input r%d %s %v", in.id, in.how, shortInts(in.ms))
	}
	heavy := 0
	for _, o := range g.pr.ops {
		c.Desc("%s outs%v", shortOp(o), o.outs)
		c.Cover(f.kind, o.name, o.form, par.BlockSize() > 1, par.GLWERank(), par.BootstrapOrder(), par.PolyRank())
		heavy += len(o.keys)
	}
	drivers := 1 + c.Int(3)
	parallelGen := c.Int(2) == 1
	rekey := c.Int(3)
	cl.add("client", func(p *proc) { client3(p, f, g, drivers, nsrv, parallelGen, rekey) })
	est := int64(200000 + heavy*par.LWEDimension()*par.PolyRank()*200)
	cl.run(SimOpts{Est: est, NumCPU: drawCPUs(c)})
	c.nontrivial = len(g.pr.ops) > 0
}

func client3[T tfhe.TorusInt](p *proc, f *conf3[T], g *gen1, drivers, nsrv int, parallelGen bool, rekey int) {
	c, par := p.cl.c, f.par
	simrt.Go(func() { p.serve(func(packet) {}) })
	sk := tfhe.SecretKey[T]{}
	if p.n.disk.load("sk", &sk) {
		c.Count("secret keys reloaded after a restart")
	} else {
		if f.kind == dFHEW {
			sk = xtfhe.NewFHEWEncryptor(f.fpar).SecretKey
		} else {
			sk = tfhe.NewEncryptor(par).GenSecretKey()
		}
		for !p.n.disk.save("sk", &sk) {
			p.sleep(100 * micro)
		}
	}
	enc := tfhe.NewEncryptorWithKey(par, sk)
	var fenc *xtfhe.FHEWEncryptor[T]
	var bgen *xtfhe.BFVKeyGenerator[T]
	var cgen *xtfhe.CircuitBootstrapKeyGenerator[T]
	switch f.kind {
	case dFHEW:
		fenc = xtfhe.NewFHEWEncryptorWithKey(f.fpar, sk)
	case dBFV:
		bgen = xtfhe.NewBFVKeyGenerator(par, sk)
	case dCircuit:
		cgen = xtfhe.NewCircuitBootstrapKeyGenerator(f.cpar, sk)
	}
	newEvk := func() *tfhe.EvaluationKey[T] {
		if parallelGen {
			return ptr(enc.SafeCopy().GenEvalKeyParallel())
		}
		return ptr(enc.SafeCopy().GenEvalKey())
	}
	newFevk := func() *xtfhe.FHEWEvaluationKey[T] {
		if parallelGen {
			return ptr(fenc.SafeCopy().GenEvalKeyParallel())
		}
		return ptr(fenc.SafeCopy().GenEvalKey())
	}
	newCbk := func() *xtfhe.CircuitBootstrapKey[T] { return ptr(cgen.SafeCopy().GenCircuitBootstrapKey()) }
	type genKeys struct {
		evk  lazy[*tfhe.EvaluationKey[T]]
		fevk lazy[*xtfhe.FHEWEvaluationKey[T]]
		cbk  lazy[*xtfhe.CircuitBootstrapKey[T]]
		pack lazy[map[int]tfhe.GLWEKeySwitchKey[T]]
		pk   lazy[*tfhe.PublicKey[T]]
	}
	ks := &genKeys{}
	key := func(name string, srv int) {
		k := ks
		var o storable
		switch {
		case name == "evk":
			o = k.evk.get(newEvk)
		case name == "pk":
			o = k.pk.get(func() *tfhe.PublicKey[T] { return ptr(enc.SafeCopy().GenPublicKey()) })
		case name == "brk":
			o = ptr(k.fevk.get(newFevk).BlindRotateKey)
		case name == "ksk":
			o = ptr(k.fevk.get(newFevk).KeySwitchKey)
		case name == "relin":
			o = ptr(bgen.SafeCopy().GenRelinKey(f.gad))
		case strings.HasPrefix(name, "ss"):
			o = ptr(k.cbk.get(newCbk).SchemeSwitchKey[idxOf(name, "ss")])
		case strings.HasPrefix(name, "tr"):
			o = ptr(k.cbk.get(newCbk).TraceKeys[idxOf(name, "tr")])
		case strings.HasPrefix(name, "fg"):
			o = ptr(k.fevk.get(newFevk).GaloisKey[idxOf(name, "fg")])
		case strings.HasPrefix(name, "gal"):
			d := idxOf(name, "gal")
			all := k.pack.get(func() map[int]tfhe.GLWEKeySwitchKey[T] { return bgen.SafeCopy().GenGaloisKeysForPack(f.gad) })
			q, ok := all[d]
			if !ok {
				q = bgen.SafeCopy().GenEvalKey([]int{d}, f.gad).GaloisKeys[d]
			}
			o = &q
		}
		p.sendKey(name, srv, o)
	}
	supply := func(in *dinput, srv int) {
		e := enc.SafeCopy()
		var o storable
		if in.kind == kLWE {
			o = ptr(e.EncryptLWE(in.ms[0]))
		} else {
			o = ptr(e.EncryptGLWE(in.ms))
		}
		p.put(in.id, in.kind, srv, o)
	}
	var names []string
	for _, o := range g.pr.ops {
		names = append(names, o.keys...)
	}
	for i := 0; i < rekey && len(names) > 0; i++ {
		simrt.Go(func() {
			p.sleep(int64(p.cl.rng.Intn(20000)) * micro)
			if !p.cl.stop && !p.cl.done {
				c.Count("keys registered again")
				ks = &genKeys{}
				key(names[p.cl.rng.Intn(len(names))], 1+p.cl.rng.Intn(nsrv))
			}
		})
	}
	p.drive(g.pr, drivers, supply, key)

	stored := tfhe.SecretKey[T]{}
	p.n.disk.load("sk", &stored)
	dec := tfhe.NewEncryptorWithKey(par, stored)
	masks := map[uint64]string{}
	for _, o := range g.pr.ops {
		for _, id := range append([]int{o.id}, o.outs...) {
			v := g.vals[id]
			what := fmt.Sprintf("r%d (%s)", id, shortOp(o))
			switch v.kind {
			case kLWE:
				ct := tfhe.LWECiphertext[T]{}
				if !p.fetch(id, o.srv, &ct) {
					c.Failf("result-lost", "%s is acknowledged but gone", what)
				}
				checkLWE(c, par, g.m, "wrong-result:"+o.name, what, dec.DecryptLWEPhase(ct).Value, dec.DecryptLWE(ct), v.v[0])
				f.freshMask(p, g, o, masks, what, ct.Value[1:])
			case kGLWE:
				ct := tfhe.GLWECiphertext[T]{}
				if !p.fetch(id, o.srv, &ct) {
					c.Failf("result-lost", "%s is acknowledged but gone", what)
				}
				checkGLWE(c, par, g.m, "wrong-result:"+o.name, what, dec.DecryptGLWEPhase(ct).Value.Coeffs, dec.DecryptGLWE(ct), v.v)
				f.freshMask(p, g, o, masks, what, ct.Value[1].Coeffs)
			}
			c.Count("results compared")
		}
	}
	p.cl.finish()
}

// freshMask checks that a sanitised result does not carry a mask seen before.
func (f *conf3[T]) freshMask(p *proc, g *gen1, o *dop, masks map[uint64]string, what string, mask []T) {
	if f.kind != dSanitize {
		return
	}
	zero := true
	for _, x := range mask {
		zero = zero && x == 0
	}
	if zero { // a table without any ciphertext in it
		return
	}
	d := digestOf(mask)
	if strings.HasPrefix(o.name, "Sanitize") || strings.HasPrefix(o.name, "ReRand") {
		if old, ok := masks[d]; ok {
			p.cl.c.Failf("mask-reused:"+o.name, "%s has the mask of %s", what, old)
		}
		in := o.in[0]
		var m []T
		if g.vals[in].kind == kGLWE {
			ct := tfhe.GLWECiphertext[T]{}
			if !p.fetch(in, o.srv, &ct) {
				return
			}
			m = ct.Value[1].Coeffs
		} else {
			ct := tfhe.LWECiphertext[T]{}
			if !p.fetch(in, o.srv, &ct) {
				return
			}
			m = ct.Value[1:]
		}
		if digestOf(m) == d {
			p.cl.c.Failf("mask-reused:"+o.name, "%s has the mask of its input r%d", what, in)
		}
		p.cl.c.Count("sanitised masks compared")
	}
	masks[d] = what
}
