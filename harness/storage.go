//go:build go1.22

package main

import (
	"bytes"
	"encoding"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"

	"SIMMODULE/mktfhe"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
)

// S01, S02, S03: stored objects over a simulated stream that splits, stalls,
// truncates and fails.

func init() {
	register("S01", true, func(c *Ctx) { either(c, s01[uint32], s01[uint64]) })
	register("S02", true, func(c *Ctx) { either(c, s02[uint32], s02[uint64]) })
	register("S03", true, func(c *Ctx) { either(c, s03[uint32], s03[uint64]) })
}

// storable is what every stored object offers through its pointer.
type storable interface {
	io.WriterTo
	io.ReaderFrom
	ByteSize() int
}

// shapes draws the dimensions of stored objects.
type shapes[T tfhe.TorusInt] struct{ c *Ctx }

func (s shapes[T]) dim() int  { return []int{3, 1, 2, 7, 16, 33}[s.c.Int(6)] }
func (s shapes[T]) rank() int { return []int{1, 2, 1, 3}[s.c.Int(4)] }
func (s shapes[T]) poly() int { return []int{16, 32, 16, 64}[s.c.Int(4)] }
func (s shapes[T]) gadget() tfhe.GadgetParameters[T] {
	lv := []int{2, 1, 3, 4}[s.c.Int(4)]
	lb := 1 + s.c.Int(sizeT[T]()/lv-1)
	return gad[T](lb, lv).Compile()
}

// secretDims draws consistent dimensions of a secret key.
func (s shapes[T]) secretDims() (n, k, N int) {
	k, N = s.rank(), s.poly()
	n = []int{5, 1, N, k * N}[s.c.Int(4)]
	return
}

type storeKind[T tfhe.TorusInt] struct {
	name string
	mk   func(s shapes[T]) storable
}

func ptr[X any](x X) *X { return &x }

func storeKinds[T tfhe.TorusInt]() []storeKind[T] {
	type S = shapes[T]
	ks := []storeKind[T]{
		{"LWESecretKey", func(s S) storable { return ptr(tfhe.NewLWESecretKeyCustom[T](s.dim())) }},
		{"LWEPublicKey", func(s S) storable { return ptr(tfhe.NewLWEPublicKeyCustom[T](s.rank(), s.poly())) }},
		{"LWEPlaintext", func(s S) storable { return ptr(tfhe.LWEPlaintext[T]{}) }},
		{"LWECiphertext", func(s S) storable { return ptr(tfhe.NewLWECiphertextCustom[T](s.dim())) }},
		{"LevCiphertext", func(s S) storable { return ptr(tfhe.NewLevCiphertextCustom(s.dim(), s.gadget())) }},
		{"GSWCiphertext", func(s S) storable { return ptr(tfhe.NewGSWCiphertextCustom(s.dim(), s.gadget())) }},
		{"GLWESecretKey", func(s S) storable { return ptr(tfhe.NewGLWESecretKeyCustom[T](s.rank(), s.poly())) }},
		{"GLWEPublicKey", func(s S) storable { return ptr(tfhe.NewGLWEPublicKeyCustom[T](s.rank(), s.poly())) }},
		{"GLWEPlaintext", func(s S) storable { return ptr(tfhe.NewGLWEPlaintextCustom[T](s.poly())) }},
		{"GLWECiphertext", func(s S) storable { return ptr(tfhe.NewGLWECiphertextCustom[T](s.rank(), s.poly())) }},
		{"GLevCiphertext", func(s S) storable { return ptr(tfhe.NewGLevCiphertextCustom(s.rank(), s.poly(), s.gadget())) }},
		{"GGSWCiphertext", func(s S) storable { return ptr(tfhe.NewGGSWCiphertextCustom(s.rank(), s.poly(), s.gadget())) }},
		{"FFTGLWESecretKey", func(s S) storable { return ptr(tfhe.NewFFTGLWESecretKeyCustom[T](s.rank(), s.poly())) }},
		{"FFTGLWECiphertext", func(s S) storable { return ptr(tfhe.NewFFTGLWECiphertextCustom[T](s.rank(), s.poly())) }},
		{"FFTGLevCiphertext", func(s S) storable { return ptr(tfhe.NewFFTGLevCiphertextCustom(s.rank(), s.poly(), s.gadget())) }},
		{"FFTGGSWCiphertext", func(s S) storable { return ptr(tfhe.NewFFTGGSWCiphertextCustom(s.rank(), s.poly(), s.gadget())) }},
		{"SecretKey", func(s S) storable {
			n, k, N := s.secretDims()
			return ptr(tfhe.NewSecretKeyCustom[T](n, k, N))
		}},
		{"PublicKey", func(s S) storable { return ptr(tfhe.NewPublicKeyCustom[T](s.rank(), s.poly())) }},
		{"EvaluationKey", func(s S) storable {
			n, k, N := s.secretDims()
			for k*N == n { // a key switching key needs something to switch from
				n--
			}
			return ptr(tfhe.NewEvaluationKeyCustom(min(n, 9), k, N, s.gadget(), s.gadget()))
		}},
		{"EvaluationKeyNoKSK", func(s S) storable {
			k, N := s.rank(), s.poly()
			return ptr(tfhe.EvaluationKey[T]{
				BlindRotateKey: tfhe.NewBlindRotateKeyCustom(min(s.dim(), 7), k, N, s.gadget()),
				KeySwitchKey:   tfhe.LWEKeySwitchKey[T]{GadgetParams: s.gadget()},
			})
		}},
		{"BlindRotateKey", func(s S) storable {
			return ptr(tfhe.NewBlindRotateKeyCustom(min(s.dim(), 7), s.rank(), s.poly(), s.gadget()))
		}},
		{"LWEKeySwitchKey", func(s S) storable { return ptr(tfhe.NewLWEKeySwitchKeyCustom(s.dim(), s.dim(), s.gadget())) }},
		{"GLWEKeySwitchKey", func(s S) storable {
			return ptr(tfhe.NewGLWEKeySwitchKeyCustom(s.rank(), s.rank(), s.poly(), s.gadget()))
		}},
		{"GadgetParameters", func(s S) storable { return ptr(s.gadget()) }},
		{"Parameters", func(s S) storable { return drawParams[T](s.c) }},
		{"mk.LWECiphertext", func(s S) storable { return ptr(mktfhe.NewLWECiphertextCustom[T](s.dim())) }},
		{"mk.GLWECiphertext", func(s S) storable { return ptr(mktfhe.NewGLWECiphertextCustom[T](s.rank(), s.poly())) }},
		{"mk.FFTGLWECiphertext", func(s S) storable { return ptr(mktfhe.NewFFTGLWECiphertextCustom[T](s.rank(), s.poly())) }},
		{"mk.UniEncryption", func(s S) storable { return ptr(mktfhe.NewUniEncryptionCustom(s.poly(), s.gadget())) }},
		{"mk.FFTUniEncryption", func(s S) storable { return ptr(mktfhe.NewFFTUniEncryptionCustom(s.poly(), s.gadget())) }},
		{"mk.EvaluationKey", func(s S) storable {
			return ptr(mktfhe.NewEvaluationKeyCustom(1+s.c.Int(9), s.poly(), s.gadget(), s.gadget(), s.gadget()))
		}},
		{"mk.EvaluationKeyNoKSK", func(s S) storable {
			e := mktfhe.NewEvaluationKeyCustom(1+s.c.Int(9), s.poly(), s.gadget(), s.gadget(), s.gadget())
			e.KeySwitchKey = tfhe.LWEKeySwitchKey[T]{GadgetParams: e.KeySwitchKey.GadgetParams}
			return &e
		}},
		{"mk.Parameters", func(s S) storable {
			if sizeT[T]() == 64 && s.c.Int(3) == 2 {
				l := []mktfhe.ParametersLiteral[uint64]{mktfhe.ParamsBinaryParty2, mktfhe.ParamsBinaryParty4, mktfhe.ParamsBinaryParty8,
					mktfhe.ParamsBinaryParty16, mktfhe.ParamsBinaryParty32}
				return ptr(any(l[s.c.Int(len(l))].Compile()).(mktfhe.Parameters[T]))
			}
			return ptr(genMKParams[T](s.c, paramOpts{}, 4).Compile())
		}},
	}
	return ks
}

func drawParams[T tfhe.TorusInt](c *Ctx) storable {
	if c.Int(2) == 0 {
		return ptr(genParams[T](c, paramOpts{maxN: 128}).Compile())
	}
	if sizeT[T]() == 32 {
		l := []tfhe.ParametersLiteral[uint32]{tfhe.ParamsBinary, tfhe.ParamsBinaryCompact, tfhe.ParamsBinaryOriginal}
		return ptr(any(l[c.Int(len(l))].Compile()).(tfhe.Parameters[T]))
	}
	l := []tfhe.ParametersLiteral[uint64]{tfhe.ParamsUint2, tfhe.ParamsUint3, tfhe.ParamsUint4, tfhe.ParamsUint5, tfhe.ParamsUint6,
		tfhe.ParamsUint7, tfhe.ParamsUint8}
	return ptr(any(l[c.Int(len(l))].Compile()).(tfhe.Parameters[T]))
}

// drawStored draws a filled object.
func drawStored[T tfhe.TorusInt](c *Ctx, k storeKind[T]) storable {
	o := k.mk(shapes[T]{c})
	fillAny(o, c.DataSeed())
	if c.Int(3) == 2 { // extreme values
		r := c.Rng()
		extremes(reflect.ValueOf(o).Elem(), r, 1+c.Int(6))
		c.Count("objects with extreme values")
	}
	return o
}

// extremes overwrites a share of the slots with boundary values.
func extremes(v reflect.Value, r *simrt.Rng, share int) {
	v = writable(v)
	switch v.Kind() {
	case reflect.Uint32, reflect.Uint64:
		if r.Intn(share) == 0 {
			v.SetUint([]uint64{0, math.MaxUint64, 1, 1 << 63, 1 << 31, 255, 256, 0x80}[r.Intn(8)] & (math.MaxUint64 >> (64 - v.Type().Bits())))
		}
	case reflect.Float64:
		if r.Intn(share) == 0 {
			v.SetFloat([]float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1, -math.Pi}[r.Intn(8)])
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			extremes(v.Index(i), r, share)
		}
	case reflect.Struct:
		if n := typeName(v.Type()); n == "Parameters" || n == "GadgetParameters" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			extremes(v.Field(i), r, share)
		}
	}
}

func freshLike(o storable) storable {
	return reflect.New(reflect.TypeOf(o).Elem()).Interface().(storable)
}

func sameObject(c *Ctx, class, what string, got, want storable) {
	a, b := reflect.ValueOf(got).Elem(), reflect.ValueOf(want).Elem()
	if digest(a) != digest(b) {
		c.Failf(class, "%s: the object read differs from the one written at %s", what, where(a, b))
	}
}

// encoded is the fault-free encoding, checked for consistency.
func encoded(c *Ctx, name string, o storable) []byte {
	d := digestOf(o)
	var b bytes.Buffer
	n, err := o.WriteTo(&b)
	if err != nil {
		c.Failf("write:"+name, "%s.WriteTo to memory failed: %v", name, err)
	}
	if n != int64(b.Len()) || int64(o.ByteSize()) != n {
		c.Failf("count:"+name, "%s.WriteTo wrote %d bytes, reported %d, announced %d", name, b.Len(), n, o.ByteSize())
	}
	if m, ok := o.(encoding.BinaryMarshaler); ok {
		x, err := m.MarshalBinary()
		if err != nil {
			c.Failf("marshal:"+name, "%s.MarshalBinary failed: %v", name, err)
		}
		if !bytes.Equal(x, b.Bytes()) {
			c.Failf("marshal:"+name, "%s.MarshalBinary gives %d bytes that differ from the %d streamed ones at byte %d", name, len(x), b.Len(), firstDiff(x, b.Bytes()))
		}
		for i := range x { // the caller owns the bytes
			x[i] ^= 0xa5
		}
	}
	if digestOf(o) != d {
		c.Failf("modified:"+name, "writing %s changed it, or it shares memory with its marshalled form", name)
	}
	return b.Bytes()
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

var (
	errDisk  = errors.New("simulated disk error")
	errSpace = errors.New("simulated: no space left on device")
)

// chunker decides how a stream splits transfers; it is a function of its seed.
type chunker struct {
	mode int
	r    *simrt.Rng
}

const chunkModes = 6

func drawChunker(c *Ctx) *chunker {
	m := c.Int(chunkModes)
	if m > 0 {
		c.Fault(chunkNames[m])
	}
	return &chunker{mode: m, r: c.Rng()}
}

var chunkNames = [chunkModes]string{"", "one byte at a time", "random partial transfers", "transfers split at odd offsets", "empty transfers between partial ones", "transfers of page size"}

func (k *chunker) next(want int) int {
	n := want
	switch k.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + k.r.Intn(want)
	case 3:
		n = 3 + 4*k.r.Intn(20)
	case 4:
		if k.r.Intn(2) == 0 {
			return 0
		}
		n = 1 + k.r.Intn(want)
	case 5:
		n = 4096
	}
	return min(n, want)
}

// simReader is the reading end of a simulated disk or connection.
type simReader struct {
	data   []byte
	pos    int
	ch     *chunker
	limit  int   // fault position, -1 for none
	ferr   error // what happens there
	once   bool  // the fault is transient
	joined bool  // errors and end of data arrive together with the last bytes
	after  int   // reads after the error was reported
	told   bool
	scrib  uint64
}

func (s *simReader) Read(p []byte) (int, error) {
	simrt.Yield()
	if len(p) == 0 {
		return 0, nil
	}
	end := len(s.data)
	var err error = io.EOF
	if s.limit >= 0 && s.limit < end && !(s.once && s.told) {
		end, err = s.limit, s.ferr
	}
	if s.told {
		s.after++
	}
	if s.pos >= end {
		s.told = true
		return 0, err
	}
	n := s.ch.next(min(len(p), end-s.pos))
	copy(p, s.data[s.pos:s.pos+n])
	if s.scrib != 0 { // a reader may use the rest of p as scratch space
		for i := n; i < len(p) && i < n+64; i++ {
			p[i] = byte(s.scrib >> (8 * (i % 8)))
		}
	}
	s.pos += n
	if s.joined && s.pos >= end && n > 0 {
		s.told = true
		return n, err
	}
	return n, nil
}

// simWriter is the writing end. It accepts bytes up to its limit.
type simWriter struct {
	got   []byte
	limit int // -1 for none
	ferr  error
	once  bool
	late  bool // reports the failure together with the last accepted bytes
	told  bool
	calls int
	ends  []int
	after int
}

func (s *simWriter) Write(p []byte) (int, error) {
	simrt.Yield()
	s.calls++
	if s.told {
		s.after++
	}
	n := len(p)
	var err error
	if s.limit >= 0 && !(s.once && s.told) {
		if len(s.got)+n > s.limit || s.late && len(s.got)+n == s.limit {
			n = s.limit - len(s.got)
			err = s.ferr
			s.told = true
		}
	}
	s.got = append(s.got, p[:n]...)
	s.ends = append(s.ends, len(s.got))
	return n, err
}

// pipe is a bounded in-memory connection between simulated threads.
type pipe struct {
	buf    []byte
	cap    int
	closed bool
	wq     simrt.WaitQ
	ch     *chunker
}

func (p *pipe) Write(b []byte) (int, error) {
	t := 0
	for len(b) > 0 {
		for len(p.buf) >= p.cap {
			p.wq.Wait("pipe full")
		}
		n := min(len(b), p.cap-len(p.buf))
		p.buf = append(p.buf, b[:n]...)
		b = b[n:]
		t += n
		p.wq.WakeAll()
		simrt.Yield()
	}
	return t, nil
}

func (p *pipe) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	for len(p.buf) == 0 {
		if p.closed {
			return 0, io.EOF
		}
		p.wq.Wait("pipe empty")
	}
	n := p.ch.next(min(len(b), len(p.buf)))
	copy(b, p.buf[:n])
	p.buf = p.buf[n:]
	p.wq.WakeAll()
	simrt.Yield()
	return n, nil
}

func (p *pipe) close() { p.closed = true; p.wq.WakeAll() }

// receiver draws the object to read into.
func receiver[T tfhe.TorusInt](c *Ctx, k storeKind[T], o storable) storable {
	switch c.Int(3) {
	case 1:
		r := drawStored(c, k)
		c.Fault("receiver holding another object")
		return r
	case 2:
		p := reflect.New(reflect.TypeOf(o).Elem())
		cloneInto(p.Elem(), reflect.ValueOf(o).Elem())
		fillAny(p.Interface(), c.DataSeed())
		c.Fault("receiver of the same shape with other contents")
		return p.Interface().(storable)
	}
	return freshLike(o)
}

type stored[T tfhe.TorusInt] struct {
	k   storeKind[T]
	o   storable
	enc []byte
}

func drawStoredList[T tfhe.TorusInt](c *Ctx, n int) []stored[T] {
	ks := storeKinds[T]()
	var l []stored[T]
	for i := 0; i < n; i++ {
		k := ks[c.Int(len(ks))]
		l = append(l, stored[T]{k: k, o: drawStored(c, k)})
	}
	return l
}

func s01[T tfhe.TorusInt](c *Ctx) {
	objs := drawStoredList[T](c, 1+c.Int(4))
	var names []string
	c.Seq("encode", func() {
		for i := range objs {
			objs[i].enc = encoded(c, objs[i].k.name, objs[i].o)
			// An equal object has the same bytes.
			cl := reflect.New(reflect.TypeOf(objs[i].o).Elem())
			cloneInto(cl.Elem(), reflect.ValueOf(objs[i].o).Elem())
			if e := encoded(c, objs[i].k.name, cl.Interface().(storable)); !bytes.Equal(e, objs[i].enc) {
				c.Failf("unstable:"+objs[i].k.name, "two equal %s have different encodings (byte %d)", objs[i].k.name, firstDiff(e, objs[i].enc))
			}
			names = append(names, fmt.Sprintf("%s(%d bytes)", objs[i].k.name, len(objs[i].enc)))
			c.Note(uint64(len(objs[i].enc)))
			c.Note(digestOf(objs[i].enc))
		}
	})
	c.Desc("%d-bit objects %v", sizeT[T](), names)
	c.nontrivial = true
	if c.Int(3) < 2 {
		s01Seq(c, objs)
	} else {
		s01Pipes(c, objs)
	}
}

func s01Seq[T tfhe.TorusInt](c *Ctx, objs []stored[T]) {
	var all []byte
	for _, s := range objs {
		all = append(all, s.enc...)
	}
	trail := c.Int(3) * 5
	if trail > 0 {
		t := make([]byte, trail)
		c.Rng().Fill(t)
		all = append(all, t...)
		c.Fault("unrelated data after the object")
	}
	ch := drawChunker(c)
	joined := c.Int(2) == 1
	rd := &simReader{data: all, limit: -1, ch: ch, joined: joined, scrib: c.DataSeed() * uint64(c.Int(2))}
	var rcv []storable
	for _, s := range objs {
		rcv = append(rcv, receiver(c, s.k, s.o))
	}
	how := c.Int(2)
	c.Seq("read back", func() {
		for i, s := range objs {
			at := rd.pos
			n, err := rcv[i].ReadFrom(rd)
			if err != nil {
				c.Failf("read:"+s.k.name, "%s.ReadFrom failed on complete data (%s): %v", s.k.name, chunkNames[ch.mode], err)
			}
			if used := rd.pos - at; used != len(s.enc) || n != int64(used) {
				c.Failf("count:"+s.k.name, "%s.ReadFrom consumed %d bytes and reported %d; the object has %d", s.k.name, used, n, len(s.enc))
			}
			sameObject(c, "differs:"+s.k.name, s.k.name+".ReadFrom", rcv[i], s.o)
			if !bytes.Equal(encoded(c, s.k.name, rcv[i]), s.enc) {
				c.Failf("rewrite:"+s.k.name, "%s read back and written again gives other bytes", s.k.name)
			}
			c.Count("objects read back")
			c.Cover(s.k.name, "seq", ch.mode, joined, trail > 0, len(s.enc))
			if u, ok := rcv[i].(encoding.BinaryUnmarshaler); ok && how == 1 {
				d := append([]byte(nil), s.enc...)
				if err := u.UnmarshalBinary(d); err != nil {
					c.Failf("unmarshal:"+s.k.name, "%s.UnmarshalBinary failed: %v", s.k.name, err)
				}
				if !bytes.Equal(d, s.enc) {
					c.Failf("unmarshal:"+s.k.name, "%s.UnmarshalBinary changed its input", s.k.name)
				}
				for j := range d {
					d[j] ^= 0x5a
				}
				sameObject(c, "differs:"+s.k.name, s.k.name+".UnmarshalBinary", rcv[i], s.o)
			}
		}
		// Everything read stays as it is whatever was read after it.
		for i, s := range objs {
			sameObject(c, "differs:"+s.k.name, s.k.name+" after reading later objects", rcv[i], s.o)
			c.Note(digestOf(rcv[i]))
		}
	})
}

// s01Pipes streams the objects between threads; the same object is sent and
// marshalled by several threads at once.
func s01Pipes[T tfhe.TorusInt](c *Ctx, objs []stored[T]) {
	conns := 1 + c.Int(3)
	type conn struct {
		p    *pipe
		idx  []int
		rcv  []storable
		base int
	}
	var cs []*conn
	for i := 0; i < conns; i++ {
		n := &conn{p: &pipe{cap: []int{16, 1, 7, 4096}[c.Int(4)], ch: drawChunker(c)}}
		for j := 0; j <= c.Int(3); j++ {
			k := c.Int(len(objs))
			n.idx = append(n.idx, k)
			n.rcv = append(n.rcv, receiver(c, objs[k].k, objs[k].o))
		}
		cs = append(cs, n)
	}
	marsh := c.Int(2) == 1
	var bytesTotal int64
	for _, n := range cs {
		for _, k := range n.idx {
			bytesTotal += int64(len(objs[k].enc))
		}
	}
	c.Sim(SimOpts{Name: "concurrent streams", Est: bytesTotal * 4}, func() {
		var fs []func()
		for _, n := range cs {
			n := n
			fs = append(fs, func() {
				for _, k := range n.idx {
					s := objs[k]
					m, err := s.o.WriteTo(n.p)
					if err != nil || m != int64(len(s.enc)) {
						c.Failf("write:"+s.k.name, "%s.WriteTo to a connection: %d of %d bytes, error %v", s.k.name, m, len(s.enc), err)
					}
				}
				n.p.close()
			}, func() {
				for i, k := range n.idx {
					s := objs[k]
					m, err := n.rcv[i].ReadFrom(n.p)
					if err != nil || m != int64(len(s.enc)) {
						c.Failf("read:"+s.k.name, "%s.ReadFrom from a connection: %d of %d bytes, error %v", s.k.name, m, len(s.enc), err)
					}
					sameObject(c, "differs:"+s.k.name, s.k.name+" sent over a connection", n.rcv[i], s.o)
					c.Count("objects sent between threads")
					c.Cover(s.k.name, "pipe", len(cs), n.p.cap, n.p.ch.mode)
				}
				if k, err := n.p.Read(make([]byte, 1)); k != 0 || err != io.EOF {
					c.Failf("count:trailing", "bytes are left in the connection after the last object")
				}
			})
		}
		if marsh {
			fs = append(fs, func() {
				for _, s := range objs {
					if !bytes.Equal(encoded(c, s.k.name, s.o), s.enc) {
						c.Failf("unstable:"+s.k.name, "%s marshalled while it is being sent differs", s.k.name)
					}
				}
			})
		}
		threads(fs...)
	})
	for _, n := range cs {
		for i, k := range n.idx {
			sameObject(c, "differs:"+objs[k].k.name, objs[k].k.name+" after all transfers", n.rcv[i], objs[k].o)
			c.Note(digestOf(n.rcv[i]))
		}
	}
	for _, s := range objs {
		if !bytes.Equal(encoded(c, s.k.name, s.o), s.enc) {
			c.Failf("modified:"+s.k.name, "%s changed while being sent", s.k.name)
		}
	}
}

// faultPoints lists the offsets at which a transfer of n bytes is made to fail:
// all of them for small objects, else boundaries of the single transfers and
// random positions.
func faultPoints(c *Ctx, n int, ends []int) []int {
	if n <= 300 {
		l := make([]int, n)
		for i := range l {
			l[i] = i
		}
		return l
	}
	set := map[int]bool{}
	var l []int
	add := func(x int) {
		if x >= 0 && x < n && !set[x] {
			set[x] = true
			l = append(l, x)
		}
	}
	r := c.Rng()
	add(0)
	add(n - 1)
	for i := 0; i < 24; i++ {
		add(r.Intn(n))
	}
	for i := 0; i < 8; i++ {
		add(r.Intn(min(n, 64)))
		add(n - 1 - r.Intn(min(n, 16)))
	}
	for i := 0; i < 12 && len(ends) > 0; i++ {
		e := ends[r.Intn(len(ends))]
		add(e)
		add(e - 1)
	}
	return l
}

func s02[T tfhe.TorusInt](c *Ctx) {
	ks := storeKinds[T]()
	k := ks[c.Int(len(ks))]
	o := drawStored(c, k)
	mode := c.Int(4)
	c.nontrivial = true
	c.Desc("%d-bit %s, %s", sizeT[T](), k.name, writeFaults[mode])
	c.Seq("write with faults", func() {
		enc := encoded(c, k.name, o)
		d := digestOf(o)
		healthy := &simWriter{limit: -1}
		o.WriteTo(healthy)
		pts := faultPoints(c, len(enc), healthy.ends)
		if mode == 3 { // failing together with the last byte is possible too
			pts = append(pts, len(enc))
		}
		for _, at := range pts {
			w := &simWriter{limit: at, ferr: errSpace}
			switch mode {
			case 1:
				w.ferr, w.once = errDisk, true
			case 2:
				w.ferr = io.ErrShortWrite
			case 3:
				w.ferr, w.late = errDisk, true
				if at == 0 {
					continue
				}
			}
			n, err := o.WriteTo(w)
			if !w.told {
				c.Failf("harness", "the write fault at byte %d of %d did not fire", at, len(enc))
			}
			c.Fault(writeFaults[mode])
			if err == nil {
				c.Failf("unreported:"+k.name, "%s.WriteTo reported success although the destination failed after %d of %d bytes (%s)", k.name, at, len(enc), writeFaults[mode])
			}
			if n != int64(len(w.got)) {
				c.Failf("miscounted:"+k.name, "%s.WriteTo reported %d bytes, the destination accepted %d (%s after %d of %d)", k.name, n, len(w.got), writeFaults[mode], at, len(enc))
			}
			if !bytes.HasPrefix(enc, w.got) {
				c.Failf("garbled:"+k.name, "%s.WriteTo wrote bytes that are not a prefix of the encoding before failing at %d (first difference at %d)", k.name, at, firstDiff(w.got, enc))
			}
			if w.after > 0 && mode != 1 {
				c.Count("writes attempted after a reported failure")
			}
			c.Note(uint64(n))
			c.Cover(k.name, mode, at, len(enc))
		}
		if digestOf(o) != d {
			c.Failf("modified:"+k.name, "a failed write changed %s", k.name)
		}
		w := &simWriter{limit: -1}
		n, err := o.WriteTo(w)
		if err != nil || n != int64(len(enc)) || !bytes.Equal(w.got, enc) {
			c.Failf("retry:"+k.name, "%s written again after failures: %d of %d bytes, error %v", k.name, n, len(enc), err)
		}
		c.Count("objects stored after failed attempts")
	})
}

var writeFaults = []string{"destination full", "transient write error", "short write", "write error after the last byte was accepted"}

func s03[T tfhe.TorusInt](c *Ctx) {
	ks := storeKinds[T]()
	k := ks[c.Int(len(ks))]
	o := drawStored(c, k)
	mode := c.Int(4)
	joined := c.Int(2) == 1
	ch := drawChunker(c)
	rcv := receiver(c, k, o)
	c.nontrivial = true
	c.Desc("%d-bit %s, %s, %s", sizeT[T](), k.name, readFaults[mode], chunkNames[ch.mode])
	scrib := c.DataSeed() * uint64(c.Int(2))
	c.Seq("read with faults", func() {
		enc := encoded(c, k.name, o)
		healthy := &simWriter{limit: -1}
		o.WriteTo(healthy)
		for i, at := range faultPoints(c, len(enc), healthy.ends) {
			r := &simReader{data: enc[:at:at], limit: -1, ch: ch, joined: joined, scrib: scrib}
			switch mode {
			case 1:
				r = &simReader{data: enc, limit: at, ferr: errDisk, ch: ch, joined: joined, scrib: scrib}
			case 2:
				r = &simReader{data: enc, limit: at, ferr: errDisk, once: true, ch: ch, scrib: scrib}
			}
			c.Fault(readFaults[mode])
			if u, ok := rcv.(encoding.BinaryUnmarshaler); ok && mode == 3 {
				if err := u.UnmarshalBinary(enc[:at:at]); err == nil {
					c.Failf("accepted:"+k.name, "%s.UnmarshalBinary accepted %d of %d bytes", k.name, at, len(enc))
				}
			} else {
				n, err := rcv.ReadFrom(r)
				if err == nil {
					c.Failf("accepted:"+k.name, "%s.ReadFrom reported success although the source ended after %d of %d bytes (%s)", k.name, at, len(enc), readFaults[mode])
				}
				if n != int64(r.pos) {
					c.Failf("miscounted:"+k.name, "%s.ReadFrom reported %d bytes but consumed %d (%s at %d of %d)", k.name, n, r.pos, readFaults[mode], at, len(enc))
				}
				c.Note(uint64(n))
			}
			c.Cover(k.name, mode, joined, ch.mode, at, len(enc))
			if i%5 == 4 || i == 0 {
				rereads(c, k.name, rcv, o, enc, ch)
			}
		}
		rereads(c, k.name, rcv, o, enc, ch)
	})
}

var readFaults = []string{"truncated source", "source failing for good", "source failing once", "truncated buffer"}

func rereads(c *Ctx, name string, rcv, o storable, enc []byte, ch *chunker) {
	r := &simReader{data: enc, limit: -1, ch: ch}
	n, err := rcv.ReadFrom(r)
	if err != nil || n != int64(len(enc)) || r.pos != len(enc) {
		c.Failf("retry:"+name, "%s.ReadFrom after a failed attempt: %d (consumed %d) of %d bytes, error %v", name, n, r.pos, len(enc), err)
	}
	sameObject(c, "differs:"+name, name+".ReadFrom after a failed attempt", rcv, o)
	c.Count("objects read after failed attempts")
}
