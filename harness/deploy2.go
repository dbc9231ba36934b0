//go:build go1.22

package main

import (
	"fmt"
	"sort"

	"SIMMODULE/mktfhe"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
)

// E02: parties, servers and a coordinator of a multi-key deployment.

func init() {
	register("E02", true, func(c *Ctx) { either(c, e02[uint32], e02[uint64]) })
}

func evkName(i int) string { return fmt.Sprintf("evk%d", i) }

func partyOf(name string) int {
	i := 0
	fmt.Sscanf(name, "evk%d", &i)
	return i
}

// ---------------------------------------------------------------------------
// the server application

type back2[T tfhe.TorusInt] struct {
	par *mktfhe.Parameters[T]
	ev  *mktfhe.BinaryEvaluator[T]

	last *mktfhe.EvaluationKey[T] // key installed last
	n    int                      // keys installed
}

func (b *back2[T]) object(kind int) storable {
	switch kind {
	case kGLWE:
		return &mktfhe.GLWECiphertext[T]{}
	case kUNI:
		return &mktfhe.FFTUniEncryption[T]{}
	case kGLEV:
		return &tfhe.FFTGLevCiphertext[T]{}
	}
	return &mktfhe.LWECiphertext[T]{}
}

func (b *back2[T]) keyObject(name string) storable {
	if name == "params" {
		return &mktfhe.Parameters[T]{}
	}
	return &mktfhe.EvaluationKey[T]{}
}

func (b *back2[T]) install(name string, o storable) bool {
	if name == "params" {
		if b.par == nil {
			b.par = o.(*mktfhe.Parameters[T])
			b.ev = mktfhe.NewBinaryEvaluator(*b.par, map[int]mktfhe.EvaluationKey[T]{})
		}
		return true
	}
	if b.par == nil {
		return false
	}
	k := *o.(*mktfhe.EvaluationKey[T])
	if b.last != nil && b.n%2 == 1 { // a key that is replaced at once
		b.ev.Evaluator.AddEvaluationKey(partyOf(name), *b.last)
	}
	b.last = &k
	b.n++
	b.ev.Evaluator.AddEvaluationKey(partyOf(name), k)
	return true
}

func (b *back2[T]) executor() executor {
	return &exec2[T]{par: *b.par, ev: b.ev.SafeCopy(), sub: tfhe.NewEvaluator(b.par.SubParams(), tfhe.EvaluationKey[T]{}),
		lwe: mktfhe.NewLWECiphertext(*b.par), glwe: mktfhe.NewGLWECiphertext(*b.par), lut: tfhe.NewLUT(b.par.SubParams())}
}

type exec2[T tfhe.TorusInt] struct {
	par  mktfhe.Parameters[T]
	ev   *mktfhe.BinaryEvaluator[T]
	sub  *tfhe.Evaluator[T]
	lwe  mktfhe.LWECiphertext[T]
	glwe mktfhe.GLWECiphertext[T]
	lut  tfhe.LookUpTable[T]
}

func (x *exec2[T]) run(o *dop, in []storable) (int, []storable) {
	type L = mktfhe.LWECiphertext[T]
	type G = mktfhe.GLWECiphertext[T]
	var l [3]L
	var g [3]G
	for i, s := range in {
		switch v := s.(type) {
		case *L:
			l[i] = *v
		case *G:
			g[i] = *v
		}
	}
	ev := x.ev.Evaluator
	lwe := func(plain func() L, to func(L)) (int, []storable) {
		if o.form == 0 {
			return kLWE, []storable{ptr(plain())}
		}
		d := x.lwe
		if o.form == 2 {
			d = mktfhe.NewLWECiphertext(x.par)
		}
		to(d)
		return kLWE, []storable{ptr(d.Copy())}
	}
	glwe := func(plain func() G, to func(G)) (int, []storable) {
		if o.form == 0 {
			return kGLWE, []storable{ptr(plain())}
		}
		d := x.glwe
		if o.form == 2 {
			d = mktfhe.NewGLWECiphertext(x.par)
		}
		to(d)
		return kGLWE, []storable{ptr(d.Copy())}
	}
	lut := func() tfhe.LookUpTable[T] {
		if o.form == 0 {
			return x.sub.GenLUT(tableOf(o.table))
		}
		x.sub.GenLUTTo(x.lut, tableOf(o.table))
		return x.lut
	}
	f := tableOf(o.table)
	switch o.name {
	case "BootstrapFunc":
		return lwe(func() L { return ev.BootstrapFunc(l[0], f) }, func(d L) { ev.BootstrapFuncTo(d, l[0], f) })
	case "BootstrapFuncParallel":
		return lwe(func() L { return ev.BootstrapFuncParallel(l[0], f) }, func(d L) { ev.BootstrapFuncParallelTo(d, l[0], f) })
	case "BootstrapLUT":
		t := lut()
		return lwe(func() L { return ev.BootstrapLUT(l[0], t) }, func(d L) { ev.BootstrapLUTTo(d, l[0], t) })
	case "BootstrapLUTParallel":
		t := lut()
		return lwe(func() L { return ev.BootstrapLUTParallel(l[0], t) }, func(d L) { ev.BootstrapLUTParallelTo(d, l[0], t) })
	case "AddLWE":
		return lwe(func() L { return ev.AddLWE(l[0], l[1]) }, func(d L) { ev.AddLWETo(d, l[0], l[1]) })
	case "SubLWE":
		return lwe(func() L { return ev.SubLWE(l[0], l[1]) }, func(d L) { ev.SubLWETo(d, l[0], l[1]) })
	case "NegLWE":
		return lwe(func() L { return ev.NegLWE(l[0]) }, func(d L) { ev.NegLWETo(d, l[0]) })
	case "ScalarMulLWE":
		k := scalarOf[T](o.ints[0])
		return lwe(func() L { return ev.ScalarMulLWE(l[0], k) }, func(d L) { ev.ScalarMulLWETo(d, l[0], k) })
	case "AddPlainLWE":
		pt := ev.EncodeLWE(o.ints[0])
		return lwe(func() L { return ev.AddPlainLWE(l[0], pt) }, func(d L) { ev.AddPlainLWETo(d, l[0], pt) })
	case "SubPlainLWE":
		pt := ev.EncodeLWE(o.ints[0])
		return lwe(func() L { return ev.SubPlainLWE(l[0], pt) }, func(d L) { ev.SubPlainLWETo(d, l[0], pt) })
	case "Extract":
		if x.par.BootstrapOrder() == tfhe.OrderBlindRotateKeySwitch {
			big := g[0].AsLWECiphertext(o.ints[0])
			return lwe(func() L { return ev.DefaultKeySwitch(big) }, func(d L) { ev.DefaultKeySwitchTo(d, big) })
		}
		return lwe(func() L { return g[0].AsLWECiphertext(o.ints[0]) }, func(d L) { g[0].AsLWECiphertextTo(d, o.ints[0]) })
	case "HybridProdGLWE":
		u, i := *in[0].(*mktfhe.FFTUniEncryption[T]), o.ints[0]
		return glwe(func() G { return ev.HybridProdGLWE(i, u, g[1]) }, func(d G) { ev.HybridProdGLWETo(i, u, g[1], d) })
	case "ExternalProdGLWE":
		u, i := *in[0].(*tfhe.FFTGLevCiphertext[T]), o.ints[0]
		return glwe(func() G { return ev.ExternalProdGLWE(i, u, g[1]) }, func(d G) { ev.ExternalProdGLWETo(i, u, g[1], d) })
	case "AddGLWE":
		return glwe(func() G { return ev.AddGLWE(g[0], g[1]) }, func(d G) { ev.AddGLWETo(d, g[0], g[1]) })
	case "SubGLWE":
		return glwe(func() G { return ev.SubGLWE(g[0], g[1]) }, func(d G) { ev.SubGLWETo(d, g[0], g[1]) })
	case "NegGLWE":
		return glwe(func() G { return ev.NegGLWE(g[0]) }, func(d G) { ev.NegGLWETo(d, g[0]) })
	case "ScalarMulGLWE":
		k := scalarOf[T](o.ints[0])
		return glwe(func() G { return ev.ScalarMulGLWE(g[0], k) }, func(d G) { ev.ScalarMulGLWETo(d, g[0], k) })
	case "MonomialMulGLWE":
		return glwe(func() G { return ev.MonomialMulGLWE(g[0], o.ints[0]) }, func(d G) { ev.MonomialMulGLWETo(d, g[0], o.ints[0]) })
	case "PolyMulGLWE":
		q := polyOf[T](o.ints)
		return glwe(func() G { return ev.PolyMulGLWE(g[0], q) }, func(d G) { ev.PolyMulGLWETo(d, g[0], q) })
	case "AddPlainGLWE":
		pt := ev.EncodeGLWE(o.ints)
		return glwe(func() G { return ev.AddPlainGLWE(g[0], pt) }, func(d G) { ev.AddPlainGLWETo(d, g[0], pt) })
	case "SubPlainGLWE":
		pt := ev.EncodeGLWE(o.ints)
		return glwe(func() G { return ev.SubPlainGLWE(g[0], pt) }, func(d G) { ev.SubPlainGLWETo(d, g[0], pt) })
	case "NOT":
		return lwe(func() L { return x.ev.NOT(l[0]) }, func(d L) { x.ev.NOTTo(d, l[0]) })
	}
	b := x.ev
	plain := map[string]func(a, b L) L{"AND": b.AND, "NAND": b.NAND, "OR": b.OR, "NOR": b.NOR, "XOR": b.XOR, "XNOR": b.XNOR,
		"ANDParallel": b.ANDParallel, "NANDParallel": b.NANDParallel, "ORParallel": b.ORParallel, "NORParallel": b.NORParallel, "XORParallel": b.XORParallel, "XNORParallel": b.XNORParallel}[o.name]
	to := map[string]func(d, a, b L){"AND": b.ANDTo, "NAND": b.NANDTo, "OR": b.ORTo, "NOR": b.NORTo, "XOR": b.XORTo, "XNOR": b.XNORTo,
		"ANDParallel": b.ANDParallelTo, "NANDParallel": b.NANDParallelTo, "ORParallel": b.ORParallelTo, "NORParallel": b.NORParallelTo, "XORParallel": b.XORParallelTo, "XNORParallel": b.XNORParallelTo}[o.name]
	if plain == nil {
		panic("harness: operation " + o.name)
	}
	return lwe(func() L { return plain(l[0], l[1]) }, func(d L) { to(d, l[0], l[1]) })
}

// ---------------------------------------------------------------------------

// party is who a party node is.
type party struct {
	idx      int
	node     int
	parallel bool
}

func e02[T tfhe.TorusInt](c *Ctx) {
	lit := genMKParams[T](c, paramOpts{maxN: 64, maxP: 4, correct: true, maxDim: 8}, 4)
	if sizeT[T]() == 32 {
		// joint products amplify the noise; these leave room for it
		lit.SubParams.LWEStdDev, lit.SubParams.GLWEStdDev = lit.SubParams.LWEStdDev/2, lit.SubParams.GLWEStdDev/2
		lit.SubParams.BlindRotateParams = gad[T](4, 7)
		lit.AccumulatorParams, lit.RelinKeyParams = gad[T](4, 7), gad[T](4, 7)
	}
	par := lit.Compile()
	sub := par.SubParams()
	cl := newCluster(c)
	m := newModel(sub)
	g := &gen1{c: c, m: m, vals: map[int]val{}, pr: &program{home: map[int]int{}}, next: 1, brks: par.BootstrapOrder() == tfhe.OrderBlindRotateKeySwitch, mk: true}
	seed := make([]byte, 1+c.Int(40))
	r := c.Rng()
	for i := range seed {
		seed[i] = byte(r.Uint64())
	}
	nsrv := 1 + c.Int(2)
	for i := 0; i < nsrv; i++ {
		cl.add("server", serverMain(1+c.Int(2), func() backend { return &back2[T]{} }, paramsFirst))
		g.srvs = append(g.srvs, i+1)
	}
	// who takes part
	var parts []party
	for i := 0; i < par.PartyCount(); i++ {
		if c.Int(3) > 0 {
			parts = append(parts, party{idx: i})
		}
	}
	if len(parts) == 0 {
		parts = append(parts, party{idx: c.Int(par.PartyCount())})
	}
	if len(parts) > 3 {
		x := c.Int(len(parts))
		parts = append(parts[:x:x], parts[x+1:]...)
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := c.Int(i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	for i := range parts {
		parts[i].node = nsrv + 1 + i
		parts[i].parallel = c.Int(2) == 1
		p := parts[i]
		cl.add("party", func(q *proc) { partyMain(q, par, lit, p, seed) })
	}
	pub := sub.IsPublicKeyEncryptable()
	in := func(kind int, ms, v []int, hows ...string) {
		p := parts[c.Int(len(parts))]
		id := g.input(kind, ms, v, hows[c.Int(len(hows))], p.node)
		x := g.vals[id]
		x.set = 1 << p.idx
		g.vals[id] = x
	}
	mix := c.Int(4)
	one := func(mod int) []int { return []int{c.Int(mod)} }
	nin := 1 + c.Int(3)
	for i := 0; i < nin; i++ {
		ways := []string{"own", "sub"}
		if pub {
			ways = append(ways, "public")
		}
		switch mix {
		case 0, 3:
			ms := one(m.p)
			in(kLWE, ms, ms, ways...)
		case 2:
			ms := one(2)
			if pub {
				in(kBIT, ms, ms, "own", "public")
			} else {
				in(kBIT, ms, ms, "own")
			}
		}
		if mix == 1 || mix == 3 {
			ms := make([]int, m.N)
			rr := c.Rng()
			for i := range ms {
				ms[i] = rr.Intn(m.p)
			}
			in(kGLWE, ms, ms, ways...)
			q := smallPolyInts(c, m.N)
			in([]int{kUNI, kGLEV}[c.Int(2)], q, q, "own")
		}
	}
	nops := 1 + c.Int(5)
	for i := 0; i < 4*nops && len(g.pr.ops) < nops; i++ {
		switch {
		case mix == 1 || mix == 3 && c.Int(2) == 1:
			g.glweStep()
			if c.Int(4) == 3 {
				g.lweStep(false)
			}
		case mix == 2:
			g.bitStep(true)
		default:
			g.lweStep(false)
		}
	}
	l := lit.SubParams
	c.Desc("params parties=%d n=%d N=%d lut=%d p=%d block=%d order=%v; %d servers", lit.PartyCount, l.LWEDimension, l.PolyRank, l.LUTSize, l.MessageModulus, l.BlockSize, l.BootstrapOrder, nsrv)
	for _, p := range parts {
		c.Desc("party %d is node %d", p.idx, p.node)
	}
	for _, in := range g.pr.inputs {
		c.Desc("input r%d kind %d %s %v by node %d", in.id, in.kind, in.how, shortInts(in.ms), in.by)
	}
	for _, o := range g.pr.ops {
		c.Desc("%s", shortOp(o))
		c.Cover(o.name, o.form, l.BlockSize > 1, len(parts), lit.PartyCount, l.BootstrapOrder)
	}
	drivers := 1 + c.Int(3)
	extra := c.Int(4) // unneeded or repeated registrations
	cl.add("coordinator", func(p *proc) { coordinator(p, par, g, parts, drivers, nsrv, extra) })
	heavy := 0
	for _, o := range g.pr.ops {
		heavy += len(o.keys)
	}
	est := int64(200000 + heavy*l.LWEDimension*l.PolyRank*lit.AccumulatorParams.Level*60)
	cl.run(SimOpts{Est: est, NumCPU: drawCPUs(c)})
	c.nontrivial = len(g.pr.ops) > 0
}

// partyMain holds one secret key, encrypts inputs and registers keys.
func partyMain[T tfhe.TorusInt](p *proc, par mktfhe.Parameters[T], lit mktfhe.ParametersLiteral[T], who party, seed []byte) {
	c := p.cl.c
	seed = append([]byte(nil), seed...)
	sk := tfhe.SecretKey[T]{}
	var enc *mktfhe.BinaryEncryptor[T]
	if p.n.disk.load("sk", &sk) {
		c.Count("secret keys reloaded after a restart")
		enc = mktfhe.NewBinaryEncryptorWithKey(par, who.idx, seed, sk)
	} else {
		enc = mktfhe.NewBinaryEncryptor(par, who.idx, seed)
		sk = enc.Encryptor.SecretKey
		for !p.n.disk.save("sk", &sk) {
			p.sleep(100 * micro)
		}
	}
	var evk lazy[*mktfhe.EvaluationKey[T]]
	var pub lazy[*mktfhe.BinaryPublicEncryptor[T]]
	newEvk := func() *mktfhe.EvaluationKey[T] {
		e := enc.SafeCopy()
		if who.parallel {
			return ptr(e.GenEvalKeyParallel())
		}
		return ptr(e.GenEvalKey())
	}
	busy := map[string]bool{}
	later := func(m packet, key string, f func()) {
		if busy[key] {
			return
		}
		busy[key] = true
		simrt.Go(func() {
			f()
			delete(busy, key)
			p.answer(m, packet{status: "ok"})
		})
	}
	p.serve(func(m packet) {
		switch m.op {
		case "register":
			later(m, fmt.Sprintf("evk@%d", m.peer), func() {
				if m.id == 1 { // a fresh one
					p.sendKey(evkName(who.idx), m.peer, newEvk())
					return
				}
				p.sendKey(evkName(who.idx), m.peer, evk.get(newEvk))
			})
		case "secret":
			p.answer(m, packet{status: "ok", payload: p.encode(&sk)})
		case "give":
			in := m.arg.(*dinput)
			later(m, fmt.Sprintf("r%d@%d", in.id, m.peer), func() {
				e := enc.SafeCopy()
				var pe *mktfhe.BinaryPublicEncryptor[T]
				if in.how == "public" {
					pe = pub.get(func() *mktfhe.BinaryPublicEncryptor[T] {
						pk := enc.SafeCopy().GenPublicKey()
						data := p.encode(&pk)
						got := tfhe.PublicKey[T]{}
						if _, err := got.ReadFrom(&simReader{data: data, ch: p.cl.chunker(), limit: -1}); err != nil {
							c.Failf("public-key", "a public key cannot be read back: %v", err)
						}
						return mktfhe.NewBinaryPublicEncryptor(par, who.idx, got)
					}).SafeCopy()
				}
				var o storable
				switch in.kind {
				case kLWE:
					switch in.how {
					case "own":
						o = ptr(e.Encryptor.EncryptLWE(in.ms[0]))
					case "sub":
						ct := mktfhe.NewLWECiphertext(par)
						ct.CopyFromSubKey(e.Encryptor.SubEncryptor.EncryptLWE(in.ms[0]), who.idx)
						o = &ct
					case "public":
						o = ptr(pe.Encryptor.EncryptLWE(in.ms[0]))
					}
				case kGLWE:
					switch in.how {
					case "own":
						o = ptr(e.Encryptor.EncryptGLWE(in.ms))
					case "sub":
						ct := mktfhe.NewGLWECiphertext(par)
						ct.CopyFromSubKey(e.Encryptor.SubEncryptor.EncryptGLWE(in.ms), who.idx)
						o = &ct
					case "public":
						o = ptr(pe.Encryptor.EncryptGLWE(in.ms))
					}
				case kBIT:
					if in.how == "public" {
						o = ptr(pe.EncryptLWEBool(in.ms[0] == 1))
					} else {
						o = ptr(e.EncryptLWEBool(in.ms[0] == 1))
					}
				case kUNI:
					o = ptr(e.Encryptor.FFTUniEncryptPoly(polyOf[T](in.ms), par.RelinKeyParameters()))
				case kGLEV:
					o = ptr(e.Encryptor.SubEncryptor.EncryptFFTGLevPoly(polyOf[T](in.ms), par.AccumulatorParameters()))
				}
				if ct, ok := o.(*mktfhe.LWECiphertext[T]); ok && p.cl.rng.Intn(3) == 0 {
					dim := par.SubParams().DefaultLWEDimension()
					rareMask(p.cl.rng, &ct.Value[0], ct.Value[1+who.idx*dim:1+(who.idx+1)*dim], e.Encryptor.SubEncryptor.DefaultLWESecretKey().Value, par.SubParams().LUTSize())
					c.Count("ciphertexts with a rare mask")
				}
				p.put(in.id, in.kind, m.peer, o)
				c.Count("inputs encrypted by a party: " + in.how)
			})
		}
	})
}

// coordinator has the program computed and, in the end, opens the results.
func coordinator[T tfhe.TorusInt](p *proc, par mktfhe.Parameters[T], g *gen1, parts []party, drivers, nsrv, extra int) {
	c := p.cl.c
	simrt.Go(func() { p.serve(func(packet) {}) })
	for s := 1; s <= nsrv; s++ {
		p.sendKey("params", s, ptr(par))
	}
	node := map[int]int{}
	for _, q := range parts {
		node[q.idx] = q.node
	}
	ask := func(to int, m packet) {
		for !p.cl.stop && p.rpc(to, m).status != "ok" {
		}
	}
	key := func(name string, srv int) { ask(node[partyOf(name)], packet{op: "register", peer: srv}) }
	supply := func(in *dinput, srv int) { ask(in.by, packet{op: "give", arg: in, peer: srv}) }
	for i := 0; i < extra; i++ {
		simrt.Go(func() {
			p.sleep(int64(p.cl.rng.Intn(20000)) * micro)
			if !p.cl.stop && !p.cl.done {
				c.Count("extra registrations")
				ask(parts[p.cl.rng.Intn(len(parts))].node, packet{op: "register", peer: 1 + p.cl.rng.Intn(nsrv), id: p.cl.rng.Intn(2)})
			}
		})
	}
	p.drive(g.pr, drivers, supply, key)

	// decryption keys arrive one by one; a result is opened once the last
	// party it may depend on is there
	dec := mktfhe.NewBinaryDecryptor(par, map[int]tfhe.SecretKey[T]{})
	order := append([]party(nil), parts...)
	for i := len(order) - 1; i > 0; i-- {
		j := p.cl.rng.Intn(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	have, all := 0, 0
	for _, q := range order {
		all |= 1 << q.idx
	}
	opened := map[int]bool{}
	ids := append([]int(nil), g.ids...)
	sort.Ints(ids)
	homes := map[int]*dop{}
	for _, o := range g.pr.ops {
		homes[o.id] = o
	}
	for _, q := range order {
		for !p.cl.stop {
			sk := tfhe.SecretKey[T]{}
			r := p.rpc(q.node, packet{op: "secret"})
			if r.status == "ok" && p.receive(r.payload, &sk) {
				dec.Decryptor.AddSecretKey(q.idx, sk)
				break
			}
		}
		have |= 1 << q.idx
		d := dec
		if p.cl.rng.Intn(2) == 0 {
			d = dec.SafeCopy()
		}
		for _, id := range ids {
			o, v := homes[id], g.vals[id]
			need := v.set
			if v.boot {
				need = all
			}
			if o == nil || opened[id] || need&^have != 0 {
				continue
			}
			opened[id] = true
			what := fmt.Sprintf("r%d (%s)", o.id, shortOp(o))
			switch v.kind {
			case kLWE, kBIT:
				ct := mktfhe.LWECiphertext[T]{}
				if !p.fetch(o.id, o.srv, &ct) {
					c.Failf("result-lost", "%s is acknowledged but gone", what)
				}
				if v.kind == kBIT {
					if got := d.DecryptLWEBool(ct); got != (v.v[0] == 1) {
						c.Failf("wrong-result:"+o.name, "%s decrypts to %v", what, got)
					}
				} else {
					checkLWE(c, par.SubParams(), g.m, "wrong-result:"+o.name, what, d.Decryptor.DecryptLWEPlaintext(ct).Value, d.Decryptor.DecryptLWE(ct), v.v[0])
				}
			case kGLWE:
				ct := mktfhe.GLWECiphertext[T]{}
				if !p.fetch(o.id, o.srv, &ct) {
					c.Failf("result-lost", "%s is acknowledged but gone", what)
				}
				checkGLWE(c, par.SubParams(), g.m, "wrong-result:"+o.name, what, d.Decryptor.DecryptGLWEPhase(ct).Value.Coeffs, d.Decryptor.DecryptGLWE(ct), v.v)
			}
			c.Count("results compared")
		}
	}
	p.cl.finish()
}
