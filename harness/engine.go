//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"SIMMODULE/math/poly"
	"SIMMODULE/mktfhe"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
	"SIMMODULE/xtfhe"
)

// The engine drives deterministic objects (evaluators, decryptors, transformers,
// decomposers) through any sequence of their operations. Keys and inputs are
// synthetic: equality of results with a reference execution is what is judged.

// opDesc names an operation of an actor: a field path and a method.
type opDesc struct {
	path, name string
}

func (o opDesc) String() string {
	if o.path == "" {
		return o.name
	}
	return o.path + "." + o.name
}

// gadgetCtx couples gadget parameters with decomposition lengths within a call.
type callCtx struct {
	gi    int // gadget index
	mm    int // message modulus for Custom encodings
	party int
}

// world is one parameter set with everything needed to build objects of it.
type world struct {
	kind    string // tfhe, mk, bfv, circuit, fhew, manylut
	seed    uint64
	T       reflect.Type
	n, big  int // LWEDimension, GLWEDimension
	def     int // DefaultLWEDimension
	k, N    int
	ext     int
	p       int
	levels  []int // gadget levels by index
	gads    []reflect.Value
	parties []int
	mkP     int
	mkDef   int
	mkN     int
	galois  []int
	lutCnt  int
	pool    map[string][]reflect.Value
	make    func(w *world, key string, s shape) (reflect.Value, bool)
	keys    []reflect.Value // values that must never change
	newObj  map[string]func() reflect.Value
	actors  []string
	join    func(c *Ctx, a *actor, other bool) // registers a key with a live object, or with one that is no longer used (multi-key)
}

type shape struct {
	dim, rank, gi, n int
}

// poolSize is how many values exist of each type and shape.
const poolSize = 3

// get returns pool value idx of a type and shape.
func (w *world) get(t reflect.Type, key string, s shape, idx int) reflect.Value {
	pk := fmt.Sprint(key, s)
	l := w.pool[pk]
	if l == nil {
		l = make([]reflect.Value, poolSize)
		w.pool[pk] = l
	}
	if !l[idx].IsValid() {
		v, ok := w.make(w, key, s)
		if !ok {
			panic("harness: cannot build " + key)
		}
		fill(v, simrt.NewRng(simrt.MixString(simrt.Mix(w.seed, uint64(idx)), pk)))
		if key == "poly.Poly" && idx < 2 {
			smallPoly(v, idx)
		}
		l[idx] = v
	}
	return l[idx]
}

func smallPoly(v reflect.Value, idx int) {
	cs := v.Field(0)
	for i := 0; i < cs.Len(); i++ {
		x := cs.Index(i).Uint() >> 5
		if idx == 0 {
			cs.Index(i).SetUint(x & 1)
		} else {
			y := int64(x%9) - 4
			if cs.Index(i).Type().Bits() == 32 {
				cs.Index(i).SetUint(uint64(uint32(y)))
			} else {
				cs.Index(i).SetUint(uint64(y))
			}
		}
	}
}

// makeFor builds zero objects for torus type T.
func makeFor[T tfhe.TorusInt](w *world, key string, s shape) (reflect.Value, bool) {
	g := func() tfhe.GadgetParameters[T] { return w.gads[s.gi].Interface().(tfhe.GadgetParameters[T]) }
	ad := func(x any) (reflect.Value, bool) {
		p := reflect.New(reflect.TypeOf(x))
		p.Elem().Set(reflect.ValueOf(x))
		return p.Elem(), true
	}
	switch key {
	case "tfhe.LWESecretKey":
		return ad(tfhe.NewLWESecretKeyCustom[T](s.dim))
	case "tfhe.LWEPlaintext":
		return ad(tfhe.NewLWEPlaintext[T]())
	case "tfhe.LWECiphertext":
		return ad(tfhe.NewLWECiphertextCustom[T](s.dim))
	case "tfhe.LevCiphertext":
		return ad(tfhe.NewLevCiphertextCustom[T](s.dim, g()))
	case "tfhe.GSWCiphertext":
		return ad(tfhe.NewGSWCiphertextCustom[T](s.dim, g()))
	case "tfhe.GLWESecretKey":
		return ad(tfhe.NewGLWESecretKeyCustom[T](s.rank, w.N))
	case "tfhe.FFTGLWESecretKey":
		return ad(tfhe.NewFFTGLWESecretKeyCustom[T](s.rank, w.N))
	case "tfhe.GLWEPlaintext":
		return ad(tfhe.NewGLWEPlaintextCustom[T](w.N))
	case "tfhe.GLWECiphertext":
		return ad(tfhe.NewGLWECiphertextCustom[T](s.rank, w.N))
	case "tfhe.FFTGLWECiphertext":
		return ad(tfhe.NewFFTGLWECiphertextCustom[T](s.rank, w.N))
	case "tfhe.GLevCiphertext":
		return ad(tfhe.NewGLevCiphertextCustom[T](s.rank, w.N, g()))
	case "tfhe.FFTGLevCiphertext":
		return ad(tfhe.NewFFTGLevCiphertextCustom[T](s.rank, w.N, g()))
	case "tfhe.GGSWCiphertext":
		return ad(tfhe.NewGGSWCiphertextCustom[T](s.rank, w.N, g()))
	case "tfhe.FFTGGSWCiphertext":
		return ad(tfhe.NewFFTGGSWCiphertextCustom[T](s.rank, w.N, g()))
	case "tfhe.LookUpTable":
		return ad(tfhe.NewLUTCustom[T](w.ext, w.N))
	case "tfhe.LWEKeySwitchKey":
		return ad(tfhe.NewLWEKeySwitchKeyCustom[T](s.dim, w.def, g()))
	case "tfhe.GLWEKeySwitchKey":
		return ad(tfhe.NewGLWEKeySwitchKeyCustom[T](s.rank, w.k, w.N, g()))
	case "poly.Poly":
		return ad(poly.NewPoly[T](w.N))
	case "poly.FFTPoly":
		return ad(poly.NewFFTPoly(w.N))
	case "mktfhe.LWECiphertext":
		return ad(mktfhe.NewLWECiphertextCustom[T](s.dim))
	case "mktfhe.GLWECiphertext":
		return ad(mktfhe.NewGLWECiphertextCustom[T](s.rank, w.N))
	case "mktfhe.FFTGLWECiphertext":
		return ad(mktfhe.NewFFTGLWECiphertextCustom[T](s.rank, w.N))
	case "mktfhe.UniEncryption":
		return ad(mktfhe.NewUniEncryptionCustom[T](w.N, g()))
	case "mktfhe.FFTUniEncryption":
		return ad(mktfhe.NewFFTUniEncryptionCustom[T](w.N, g()))
	}
	return reflect.Value{}, false
}

// funcs of the pool
func tableFunc(p, a int) func(int) int {
	return func(x int) int { return ((a>>2)*x*x + (a&3)*x + a) % p }
}

func fullFunc[T tfhe.TorusInt](seed uint64) func(int) T {
	return func(x int) T { return T(simrt.Mix(seed, uint64(x)) >> (64 - sizeT[T]())) }
}

// dest modes
const (
	destNone = iota
	destWrite
	destAcc
	destInOut
)

type argSpec struct {
	t    reflect.Type
	tmpl reflect.Value
	dest int
	want string
}

// signature classifies the parameters of an operation: which one is written.
func destOf(actorKey string, op string, mt reflect.Type) (idx, mode int) {
	n := mt.NumIn()
	last := func() int { return n - 1 }
	mode = destWrite
	for _, s := range []string{"MulAdd", "MulSub", "ProdAdd", "ProdSub", "PermuteAdd", "PermuteSub", "FFTAddTo", "FFTSubTo"} {
		if strings.Contains(op, s) {
			mode = destAcc
		}
	}
	switch {
	case strings.HasSuffix(op, "InPlace"):
		return 0, destInOut
	case strings.HasSuffix(op, "To") || strings.HasSuffix(op, "ToUnsafe"):
		if n == 0 {
			return -1, destNone
		}
		switch {
		case strings.HasPrefix(actorKey, "mktfhe.") && (strings.HasPrefix(op, "ExternalProd") || strings.HasPrefix(op, "HybridProd")):
			return last(), mode
		case op == "DecryptFFTGGSWTo" || op == "DecryptFFTGGSWPolyTo":
			return last(), mode
		}
		return 0, mode
	}
	return -1, destNone
}

// prepare draws the arguments of one call. ok is false when the operation has a
// parameter the engine cannot build.
func (w *world) prepare(c *Ctx, actorKey string, op opDesc, mt reflect.Type) (args []reflect.Value, destIdx, mode int, ok bool) {
	name := op.name
	destIdx, mode = destOf(actorKey, name, mt)
	gi := c.Int(len(w.gads))
	cc := &callCtx{gi: gi}
	tIdx := 0
	for i := 0; i < mt.NumIn(); i++ {
		v, good := w.arg(c, cc, actorKey, op, mt, i, i == destIdx, &tIdx)
		if !good {
			return nil, 0, 0, false
		}
		args = append(args, v)
	}
	return args, destIdx, mode, true
}

func (w *world) arg(c *Ctx, cc *callCtx, actorKey string, op opDesc, mt reflect.Type, i int, isDest bool, tIdx *int) (reflect.Value, bool) {
	t := mt.In(i)
	name := op.name
	base := strings.TrimSuffix(name, "To")
	key := typeKey(t)
	pick := func(s shape) (reflect.Value, bool) {
		if isDest {
			return w.get(t, key, s, poolSize-1), true
		}
		return w.get(t, key, s, c.Int(poolSize)), true
	}
	switch key {
	case "tfhe.LWEPlaintext", "tfhe.GLWEPlaintext", "poly.Poly", "poly.FFTPoly", "tfhe.LookUpTable":
		return pick(shape{})
	case "tfhe.LWESecretKey":
		return pick(shape{dim: w.big})
	case "tfhe.LWECiphertext":
		d := w.def
		switch {
		case strings.HasPrefix(base, "BlindRotate"):
			d = w.n
		case base == "DefaultKeySwitch":
			d = w.big
			if isDest {
				d = w.n
			}
		case base == "KeySwitchLWE" && !isDest:
			d = w.ksIn(cc)
		case base == "Pack":
			d = w.big
		}
		return pick(shape{dim: d})
	case "tfhe.LevCiphertext", "tfhe.GSWCiphertext":
		return pick(shape{dim: w.def, gi: cc.gi})
	case "tfhe.GLWESecretKey", "tfhe.FFTGLWESecretKey":
		return pick(shape{rank: w.k})
	case "tfhe.GLWECiphertext":
		r := w.k
		switch {
		case base == "Tensor" && isDest, base == "Relinearize" && !isDest:
			r = w.k * (w.k + 3) / 2
		case base == "KeySwitchGLWE" && !isDest:
			r = 1 + cc.gi%2
		}
		return pick(shape{rank: r})
	case "tfhe.FFTGLWECiphertext":
		return pick(shape{rank: w.k})
	case "tfhe.GLevCiphertext", "tfhe.FFTGLevCiphertext", "tfhe.GGSWCiphertext":
		return pick(shape{rank: w.k, gi: cc.gi})
	case "tfhe.FFTGGSWCiphertext":
		g := cc.gi
		if strings.HasPrefix(base, "CircuitBootstrap") {
			g = len(w.gads) - 1
		}
		return pick(shape{rank: w.k, gi: g})
	case "tfhe.LWEKeySwitchKey":
		return pick(shape{dim: w.ksIn(cc), gi: cc.gi})
	case "tfhe.GLWEKeySwitchKey":
		return pick(shape{rank: 1 + cc.gi%2, gi: cc.gi})
	case "tfhe.GadgetParameters":
		return w.gads[cc.gi], true
	case "mktfhe.LWECiphertext":
		d := w.mkDef
		switch {
		case strings.HasPrefix(base, "BlindRotate"):
			d = w.mkP * w.n
		case base == "DefaultKeySwitch":
			d = w.mkP * w.N
			if isDest {
				d = w.mkP * w.n
			}
		}
		return pick(shape{dim: d})
	case "mktfhe.GLWECiphertext", "mktfhe.FFTGLWECiphertext":
		return pick(shape{rank: w.mkP})
	case "mktfhe.UniEncryption", "mktfhe.FFTUniEncryption":
		cc.gi %= 3
		return pick(shape{gi: cc.gi})
	}
	mk := func(x any) (reflect.Value, bool) { return reflect.ValueOf(x), true }
	switch t.Kind() {
	case reflect.Int:
		switch {
		case strings.HasPrefix(actorKey, "mktfhe.") && (strings.Contains(name, "ExternalProd") || strings.Contains(name, "HybridProd")):
			return mk(w.parties[c.Int(len(w.parties))])
		case w.kind == "bfv" && op.path == "" && base == "Permute", w.kind == "circuit" && base == "Permute" && (op.path == "" || op.path == "BFVEvaluator"):
			if len(w.galois) == 0 {
				return reflect.Value{}, false
			}
			return mk(w.galois[c.Int(len(w.galois))])
		case strings.Contains(name, "Permute"):
			return mk(2*c.Int(w.N) + 1)
		case strings.Contains(name, "Monomial"):
			return mk(c.Int(4*w.N) - 2*w.N)
		case strings.HasPrefix(name, "Encode"):
			return mk(c.Int(2*w.p+1) - 1)
		}
		return mk(c.Int(w.N))
	case reflect.Bool:
		return mk(c.Int(2) == 1)
	case reflect.Float64:
		return mk([]float64{0.5, -1.25, 3, 0}[c.Int(4)])
	case reflect.Complex128:
		return mk([]complex128{complex(0.5, -1), complex(-2, 0.25), 1, 0}[c.Int(4)])
	case reflect.Uint32, reflect.Uint64:
		*tIdx++
		x := uint64(0)
		if strings.Contains(name, "Custom") {
			if *tIdx == 1 {
				cc.mm = []int{2, 4, 8}[c.Int(3)]
				if w.lutCnt > 0 && cc.mm == 8 {
					cc.mm = 2
				}
				x = uint64(cc.mm)
			} else {
				x = uint64(1) << (t.Bits() - 1) / uint64(cc.mm)
				if c.Int(2) == 1 {
					x /= 2
				}
			}
		} else {
			x = []uint64{2, 1, 7, ^uint64(0), simrt.Mix(w.seed, 99), 0}[c.Int(6)]
		}
		v := reflect.New(t).Elem()
		v.SetUint(x << (64 - t.Bits()) >> (64 - t.Bits()))
		return v, true
	case reflect.Func:
		a := c.Int(16)
		if t.Out(0).Kind() == reflect.Int {
			return mk(tableFunc(2*w.p, a))
		}
		if t.Out(0).Kind() == reflect.Uint32 {
			return mk(fullFunc[uint32](uint64(a)))
		}
		return mk(fullFunc[uint64](uint64(a)))
	case reflect.Slice:
		return w.sliceArg(c, cc, op, t, isDest)
	}
	return reflect.Value{}, false
}

func (w *world) ksIn(cc *callCtx) int { return []int{5, w.big, w.n + 1}[cc.gi%3] }

// sliceArg builds slice parameters: messages, decompositions, table lists.
func (w *world) sliceArg(c *Ctx, cc *callCtx, op opDesc, t reflect.Type, isDest bool) (reflect.Value, bool) {
	e := t.Elem()
	lv := w.levels[cc.gi]
	build := func(n int, f func(i int) reflect.Value) (reflect.Value, bool) {
		s := reflect.MakeSlice(t, n, n)
		for i := 0; i < n; i++ {
			s.Index(i).Set(f(i))
		}
		return s, true
	}
	switch {
	case e.Kind() == reflect.Int: // messages
		n := w.N
		if !isDest {
			n = []int{w.N, 1, w.N / 2}[c.Int(3)]
		}
		r := simrt.NewRng(simrt.Mix(w.seed, uint64(c.Int(3)), 5))
		return build(n, func(int) reflect.Value { return reflect.ValueOf(r.Intn(w.p)) })
	case e.Kind() == reflect.Uint32 || e.Kind() == reflect.Uint64: // scalar decomposition
		r := simrt.NewRng(simrt.Mix(w.seed, uint64(c.Int(3)), 6))
		return build(lv, func(int) reflect.Value {
			v := reflect.New(e).Elem()
			v.SetUint(r.Uint64() >> (64 - e.Bits()))
			return v
		})
	case e.Kind() == reflect.Func:
		n := w.lutCnt
		if n == 0 {
			return reflect.Value{}, false
		}
		n = 1 + c.Int(n)
		a := c.Int(8)
		return build(n, func(i int) reflect.Value {
			switch e.Out(0).Kind() {
			case reflect.Int:
				return reflect.ValueOf(tableFunc(2*w.p, a+i))
			case reflect.Uint32:
				return reflect.ValueOf(fullFunc[uint32](uint64(a + i)))
			}
			return reflect.ValueOf(fullFunc[uint64](uint64(a + i)))
		})
	case typeKey(e) == "poly.Poly", typeKey(e) == "poly.FFTPoly":
		a := c.Int(poolSize)
		return build(lv, func(i int) reflect.Value {
			return clone(w.get(e, typeKey(e), shape{}, (a+i)%poolSize))
		})
	case e.Kind() == reflect.Slice && typeKey(e.Elem()) == "poly.FFTPoly":
		a := c.Int(poolSize)
		return build(w.k+1, func(i int) reflect.Value {
			s := reflect.MakeSlice(e, lv, lv)
			for j := 0; j < lv; j++ {
				s.Index(j).Set(clone(w.get(e.Elem(), "poly.FFTPoly", shape{}, (a+i+j)%poolSize)))
			}
			return s
		})
	case typeKey(e) == "tfhe.LWECiphertext", typeKey(e) == "mktfhe.LWECiphertext":
		n, d := 1+c.Int(4), w.def
		if typeKey(e) == "mktfhe.LWECiphertext" {
			d = w.mkDef
		} else if w.lutCnt > 0 {
			n = w.lutCnt
		}
		a := c.Int(poolSize)
		return build(n, func(i int) reflect.Value { return clone(w.get(e, typeKey(e), shape{dim: d}, (a+i)%poolSize)) })
	}
	return reflect.Value{}, false
}

// zeroed returns a same-shaped value with every number zero.
func zeroed(v reflect.Value) reflect.Value {
	o := clone(v)
	zero(o)
	return o
}

func zero(v reflect.Value) {
	v = writable(v)
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			zero(v.Index(i))
		}
	case reflect.Struct:
		if n := typeName(v.Type()); strings.HasSuffix(n, "Parameters") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			zero(v.Field(i))
		}
	default:
		if plainKind(v.Kind()) {
			v.SetZero()
		}
	}
}

// actor is an object whose operations are exercised.
type actor struct {
	key string // typeKey
	obj reflect.Value
	w   *world
}

// target resolves the receiver of an operation.
func (a *actor) target(op opDesc) reflect.Value {
	v := a.obj
	if op.path != "" {
		for _, p := range strings.Split(op.path, ".") {
			v = v.Elem().FieldByName(p)
		}
	}
	return v
}

func (a *actor) method(op opDesc) (reflect.Value, bool) {
	t := a.obj
	if op.path != "" {
		for _, p := range strings.Split(op.path, ".") {
			if t.Kind() != reflect.Pointer || t.IsNil() || t.Elem().Kind() != reflect.Struct {
				return reflect.Value{}, false
			}
			t = t.Elem().FieldByName(p)
			if !t.IsValid() || !t.CanInterface() {
				return reflect.Value{}, false
			}
		}
	}
	m := t.MethodByName(op.name)
	return m, m.IsValid()
}

// call is one prepared operation.
type call struct {
	op      opDesc
	args    []reflect.Value // templates
	destIdx int
	mode    int
}

func (cl *call) describe() string { return cl.op.String() }

// outcome of an executed call.
type outcome struct {
	panicked string
	hash     uint64
	rets     []reflect.Value
	dest     reflect.Value
	args     []reflect.Value // as passed
}

// exec runs a call. dest, when valid, is passed in the destination position.
// With share, the remaining templates are passed as they are.
func (a *actor) exec(cl *call, dest reflect.Value, share bool) outcome {
	m, ok := a.method(cl.op)
	if !ok {
		return outcome{panicked: "missing"}
	}
	var o outcome
	for i, t := range cl.args {
		switch {
		case i == cl.destIdx && dest.IsValid():
			o.args = append(o.args, dest)
		case share || t.Kind() == reflect.Func || plainKind(t.Kind()):
			o.args = append(o.args, t)
		default:
			o.args = append(o.args, clone(t))
		}
	}
	if cl.destIdx >= 0 {
		o.dest = o.args[cl.destIdx]
	}
	if p := catch(func() { o.rets = m.Call(o.args) }); p != nil {
		o.panicked = fmt.Sprint("panic: ", p)
		o.hash = simrt.MixString(1, "panic")
		return o
	}
	o.hash = o.result()
	return o
}

// result digests what the call produced.
func (o *outcome) result() uint64 {
	h := uint64(17)
	for _, r := range o.rets {
		h = digestInto(h, r, 0)
	}
	if o.dest.IsValid() {
		h = digestInto(h, o.dest, 0)
	}
	return h
}

// ops lists the operations of an actor known to the harness and present in the code.
func (a *actor) ops() []opDesc {
	var l []opDesc
	for _, s := range opTable[a.key] {
		op := opDesc{name: s}
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			op.path, op.name = s[:i], s[i+1:]
		}
		if _, ok := a.method(op); ok {
			l = append(l, op)
		}
	}
	return l
}

// prepareCall draws a call on the actor.
func (a *actor) prepareCall(c *Ctx, op opDesc) (*call, bool) {
	m, ok := a.method(op)
	if !ok {
		return nil, false
	}
	args, di, mode, ok := a.w.prepare(c, a.recvKey(op), op, m.Type())
	if !ok {
		return nil, false
	}
	return &call{op: op, args: args, destIdx: di, mode: mode}, true
}

func (a *actor) recvKey(op opDesc) string {
	v := a.target(op)
	return typeKey(v.Type().Elem())
}

// discover lists every operation the code offers, for the operation table.
func (a *actor) discover() []opDesc {
	var l []opDesc
	seen := map[string]bool{}
	var rec func(path string, v reflect.Value, depth int)
	rec = func(path string, v reflect.Value, depth int) {
		for i := 0; i < v.NumMethod(); i++ {
			n := v.Type().Method(i).Name
			if strings.HasSuffix(n, "Buffer") || n == "SafeCopy" || strings.HasPrefix(n, "Gen") && !strings.HasPrefix(n, "GenLUT") || strings.Contains(n, "Encrypt") && !strings.Contains(n, "Decrypt") || n == "AddEvaluationKey" || n == "AddSecretKey" || n == "PublicEncryptor" {
				continue
			}
			k := typeKey(v.Type().Elem()) + "." + n
			if seen[k] {
				continue
			}
			seen[k] = true
			l = append(l, opDesc{path, n})
		}
		if depth >= 2 {
			return
		}
		t := v.Type().Elem()
		if t.Kind() != reflect.Struct {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" || f.Type.Kind() != reflect.Pointer || v.Elem().Field(i).IsNil() {
				continue
			}
			switch typeName(f.Type.Elem()) {
			case "Evaluator", "Decomposer", "GLWETransformer", "Encoder", "BFVEvaluator", "ManyLUTEvaluator", "BinaryEncoder":
				p := f.Name
				if path != "" {
					p = path + "." + f.Name
				}
				rec(p, v.Elem().Field(i), depth+1)
			}
		}
	}
	rec("", a.obj, 0)
	return l
}

func newWorldFor[T tfhe.TorusInt](c *Ctx, kind string) *world {
	w := &world{kind: kind, seed: c.DataSeed(), pool: map[string][]reflect.Value{}, make: makeFor[T], newObj: map[string]func() reflect.Value{}, ext: 1}
	var z T
	w.T = reflect.TypeOf(z)
	setBase := func(p tfhe.Parameters[T]) {
		w.n, w.big, w.def = p.LWEDimension(), p.GLWEDimension(), p.DefaultLWEDimension()
		w.k, w.N, w.ext, w.p = p.GLWERank(), p.PolyRank(), p.LUTExtendFactor(), int(p.MessageModulus())
	}
	addGad := func(g tfhe.GadgetParameters[T]) {
		w.gads = append(w.gads, reflect.ValueOf(g))
		w.levels = append(w.levels, g.Level())
	}
	add := func(name string, f func() reflect.Value) {
		w.newObj[name] = f
		w.actors = append(w.actors, name)
	}
	synth := func(p any) {
		v := reflect.ValueOf(p).Elem()
		fill(v, simrt.NewRng(simrt.Mix(w.seed, uint64(len(w.keys)), 0x6e7)))
		w.keys = append(w.keys, v)
	}
	galoisKeys := func(ds []int, p tfhe.Parameters[T], g tfhe.GadgetParameters[T]) map[int]tfhe.GLWEKeySwitchKey[T] {
		m := map[int]tfhe.GLWEKeySwitchKey[T]{}
		for _, d := range ds {
			m[d] = tfhe.NewGLWEKeySwitchKeyCustom[T](p.GLWERank(), p.GLWERank(), p.PolyRank(), g)
		}
		return m
	}
	packDs := func(N int) (l []int) {
		for d := 2; d <= N; d *= 2 {
			l = append(l, d+1)
		}
		return
	}
	addGad(gad[T](4, 2).Compile())
	addGad(gad[T](6, 1).Compile())
	addGad(gad[T](7, 3).Compile())
	switch kind {
	case "tfhe":
		par := genParams[T](c, paramOpts{}).Compile()
		setBase(par)
		evk := tfhe.NewEvaluationKey(par)
		synth(&evk)
		sk := tfhe.NewSecretKey(par)
		synthSecret(w, &sk)
		addGad(par.BlindRotateParams())
		add("tfhe.Evaluator", func() reflect.Value { return reflect.ValueOf(tfhe.NewEvaluator(par, evk)) })
		add("tfhe.BinaryEvaluator", func() reflect.Value { return reflect.ValueOf(tfhe.NewBinaryEvaluator(par, evk)) })
		add("tfhe.Encryptor", func() reflect.Value { return reflect.ValueOf(tfhe.NewEncryptorWithKey(par, sk)) })
		add("tfhe.BinaryEncryptor", func() reflect.Value { return reflect.ValueOf(tfhe.NewBinaryEncryptorWithKey(par, sk)) })
		add("poly.Evaluator", func() reflect.Value { return reflect.ValueOf(poly.NewEvaluator[T](w.N)) })
		add("tfhe.Decomposer", func() reflect.Value { return reflect.ValueOf(tfhe.NewDecomposer[T](w.N)) })
		add("tfhe.GLWETransformer", func() reflect.Value { return reflect.ValueOf(tfhe.NewGLWETransformer[T](w.N)) })
	case "mk":
		par := genMKParams[T](c, paramOpts{maxN: 32}, 4).Compile()
		setBase(par.SubParams())
		w.mkP, w.mkDef, w.mkN = par.PartyCount(), par.DefaultLWEDimension(), par.PolyRank()
		for i := 0; i < w.mkP; i++ {
			if i == 0 || c.Int(4) > 0 {
				w.parties = append(w.parties, i)
			}
		}
		evk := map[int]mktfhe.EvaluationKey[T]{}
		sks := map[int]tfhe.SecretKey[T]{}
		again := c.Int(w.mkP) // this party has two sets of keys
		evk2, sk2 := mktfhe.NewEvaluationKey(par), tfhe.NewSecretKey(par.SubParams())
		synth(&evk2)
		synthSecret(w, &sk2)
		for i := 0; i < w.mkP; i++ {
			k := mktfhe.NewEvaluationKey(par)
			synth(&k)
			evk[i] = k
			s := tfhe.NewSecretKey(par.SubParams())
			synthSecret(w, &s)
			sks[i] = s
		}
		addGad(par.AccumulatorParameters())
		// the keys registered now, by party
		some, all := map[int]mktfhe.EvaluationKey[T]{}, map[int]mktfhe.EvaluationKey[T]{}
		known, knownB := map[int]tfhe.SecretKey[T]{}, map[int]tfhe.SecretKey[T]{}
		sparse := c.Int(3) == 0
		for i := 0; i < w.mkP; i++ {
			here := false
			for _, p := range w.parties {
				here = here || p == i
			}
			if here {
				some[i] = evk[i]
			}
			if here || !sparse {
				all[i], known[i], knownB[i] = evk[i], sks[i], sks[i]
			}
		}
		w.join = func(c *Ctx, a *actor, other bool) {
			i := c.Int(w.mkP)
			ek, sk := evk[i], sks[i]
			if i == again && c.Int(2) == 1 {
				ek, sk = evk2, sk2
			}
			switch o := a.obj.Interface().(type) {
			case *mktfhe.Evaluator[T]:
				o.AddEvaluationKey(i, ek)
				if !other {
					some[i] = ek
				}
			case *mktfhe.BinaryEvaluator[T]:
				o.Evaluator.AddEvaluationKey(i, ek)
				if !other {
					all[i] = ek
				}
			case *mktfhe.Decryptor[T]:
				o.AddSecretKey(i, sk)
				if !other {
					known[i] = sk
				}
			case *mktfhe.BinaryDecryptor[T]:
				o.Decryptor.AddSecretKey(i, sk)
				if !other {
					knownB[i] = sk
				}
			default:
				return
			}
			c.Fault("party joined or changed its key")
			c.Desc("%s: key of party %d registered (with another copy: %v)", a.key, i, other)
		}
		add("mktfhe.Evaluator", func() reflect.Value { return reflect.ValueOf(mktfhe.NewEvaluator(par, some)) })
		add("mktfhe.BinaryEvaluator", func() reflect.Value { return reflect.ValueOf(mktfhe.NewBinaryEvaluator(par, all)) })
		add("mktfhe.Decryptor", func() reflect.Value { return reflect.ValueOf(mktfhe.NewDecryptor(par, known)) })
		add("mktfhe.BinaryDecryptor", func() reflect.Value { return reflect.ValueOf(mktfhe.NewBinaryDecryptor(par, knownB)) })
		add("mktfhe.GLWETransformer", func() reflect.Value { return reflect.ValueOf(mktfhe.NewGLWETransformer[T](w.N)) })
	case "bfv":
		par := genParams[T](c, paramOpts{maxN: 32, noExt: true}).Compile()
		setBase(par)
		g := gad[T](7, 3).Compile()
		addGad(g)
		w.galois = append(packDs(w.N), 5, -1+2*w.N)
		evk := xtfhe.BFVEvaluationKey[T]{
			RelinKey:   tfhe.NewGLWEKeySwitchKeyCustom[T](w.k*(w.k+1)/2, w.k, w.N, g),
			GaloisKeys: galoisKeys(w.galois, par, g),
		}
		synth(&evk)
		add("xtfhe.BFVEvaluator", func() reflect.Value { return reflect.ValueOf(xtfhe.NewBFVEvaluator(par, evk)) })
	case "manylut":
		par := manyLUTOf(c, genParams[T](c, paramOpts{noExt: true, powerP: true})).Compile()
		setBase(par.BaseParams())
		w.lutCnt = par.LUTCount()
		evk := tfhe.NewEvaluationKey(par.BaseParams())
		synth(&evk)
		add("xtfhe.ManyLUTEvaluator", func() reflect.Value { return reflect.ValueOf(xtfhe.NewManyLUTEvaluator(par, evk)) })
	case "circuit":
		par := circuitOf(c, genParams[T](c, paramOpts{maxN: 32, noExt: true, powerP: true})).Compile()
		setBase(par.BaseParams())
		w.lutCnt = par.ManyLUTParams().LUTCount()
		evk := tfhe.NewEvaluationKey(par.BaseParams())
		synth(&evk)
		w.galois = packDs(w.N)
		cbk := xtfhe.CircuitBootstrapKey[T]{TraceKeys: galoisKeys(w.galois, par.BaseParams(), par.TraceKeySwitchParams())}
		for i := 0; i < w.k; i++ {
			cbk.SchemeSwitchKey = append(cbk.SchemeSwitchKey, tfhe.NewFFTGGSWCiphertext(par.BaseParams(), par.SchemeSwitchParams()))
		}
		synth(&cbk)
		addGad(par.OutputParams())
		add("xtfhe.CircuitBootstrapper", func() reflect.Value { return reflect.ValueOf(xtfhe.NewCircuitBootstrapper(par, evk, cbk)) })
	case "fhew":
		par := fhewOf(c, genParams[T](c, paramOpts{noExt: true, block1: true})).Compile()
		setBase(par.BaseParams())
		ek := tfhe.NewEvaluationKey(par.BaseParams())
		evk := xtfhe.FHEWEvaluationKey[T]{BlindRotateKey: ek.BlindRotateKey, KeySwitchKey: ek.KeySwitchKey}
		for i := 0; i <= par.WindowSize(); i++ {
			evk.GaloisKey = append(evk.GaloisKey, tfhe.NewGLWEKeySwitchKeyCustom[T](w.k, w.k, w.N, par.BaseParams().BlindRotateParams()))
		}
		synth(&evk)
		add("xtfhe.FHEWEvaluator", func() reflect.Value { return reflect.ValueOf(xtfhe.NewFHEWEvaluator(par, evk)) })
	default:
		panic("harness: world kind " + kind)
	}
	return w
}

func newWorld(c *Ctx, kind string) *world {
	if c.Int(2) == 1 {
		return newWorldFor[uint32](c, kind)
	}
	return newWorldFor[uint64](c, kind)
}

// synthSecret fills a secret key with bits and a consistent transform.
func synthSecret[T tfhe.TorusInt](w *world, sk *tfhe.SecretKey[T]) {
	r := simrt.NewRng(simrt.Mix(w.seed, uint64(len(w.keys)), 0x5ec))
	for i := range sk.LWELargeKey.Value {
		sk.LWELargeKey.Value[i] = T(r.Intn(2))
	}
	tr := tfhe.NewGLWETransformer[T](w.N)
	for i := range sk.GLWEKey.Value {
		copy(sk.GLWEKey.Value[i].Coeffs, sk.LWELargeKey.Value[i*w.N:(i+1)*w.N])
	}
	tr.FwdFFTGLWESecretKeyTo(sk.FFTGLWEKey, sk.GLWEKey)
	w.keys = append(w.keys, reflect.ValueOf(sk).Elem())
}

// actor builds a new object.
func (w *world) actor(name string) *actor {
	return &actor{key: name, obj: w.newObj[name](), w: w}
}

// keyDigest covers keys and every pool value built so far.
func (w *world) keyDigest() uint64 {
	h := uint64(1)
	for _, k := range w.keys {
		h = digestInto(h, k, 0)
	}
	return h
}

func (w *world) poolDigests() map[string]uint64 {
	m := map[string]uint64{}
	for k, l := range w.pool {
		for i, v := range l {
			if v.IsValid() {
				m[fmt.Sprint(k, "#", i)] = digest(v)
			}
		}
	}
	return m
}

var worldKinds = []string{"tfhe", "mk", "bfv", "manylut", "circuit", "fhew"}

// dumpMethods prints, for the operation table, every operation the engine can
// drive without the operation failing on every sample.
func dumpMethods() {
	out := map[string][]string{}
	bad := map[string]string{}
	for _, kind := range worldKinds {
		good := map[string]map[string]bool{}
		total := map[string]map[string]bool{}
		for seed := uint64(1); seed <= 12; seed++ {
			c := newCtx("dump", seed)
			simrt.Run(simrt.Config{Seed: seed}, func() {
				w := newWorld(c, kind)
				for _, name := range w.actors {
					if good[name] == nil {
						good[name], total[name] = map[string]bool{}, map[string]bool{}
					}
					a := w.actor(name)
					for _, op := range a.discover() {
						total[name][op.String()] = true
						cl, ok := a.prepareCall(c, op)
						if !ok {
							bad[name+"."+op.String()] = "unbuildable"
							continue
						}
						o := a.exec(cl, reflect.Value{}, false)
						if o.panicked == "" {
							good[name][op.String()] = true
						} else {
							bad[name+"."+op.String()] = o.panicked
						}
					}
				}
			})
		}
		for n, m := range good {
			for o := range m {
				out[n] = append(out[n], o)
			}
			sort.Strings(out[n])
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"good": out, "bad": bad}, "", " ")
	os.Stdout.Write(b)
}
