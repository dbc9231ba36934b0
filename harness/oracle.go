//go:build go1.22

package main

import (
	"fmt"
	"math"

	"SIMMODULE/math/poly"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
)

// The oracle decrypts by textbook arithmetic, with a secret the harness made, and
// judges every ciphertext by its phase. It uses no library code except, for
// transformed ciphertexts, the inverse transform of a new transformer.

// signed is x as a centred number.
func signed[T tfhe.TorusInt](x T) float64 {
	if sizeT[T]() == 32 {
		return float64(int32(x))
	}
	return float64(int64(x))
}

// negMulAdd adds the negacyclic product of a and s (small entries) to out.
func negMulAdd[T tfhe.TorusInt](out, a, s []T) {
	n := len(out)
	for j, sj := range s {
		if sj == 0 {
			continue
		}
		for i := 0; i < n-j; i++ {
			out[i+j] += a[i] * sj
		}
		for i := n - j; i < n; i++ {
			out[i+j-n] -= a[i] * sj
		}
	}
}

func phaseLWE[T tfhe.TorusInt](ct, sk []T) T {
	p := ct[0]
	for i, s := range sk {
		p += ct[i+1] * s
	}
	return p
}

func phaseGLWE[T tfhe.TorusInt](ct []poly.Poly[T], sk []poly.Poly[T]) []T {
	out := append([]T(nil), ct[0].Coeffs...)
	for i := range sk {
		negMulAdd(out, ct[i+1].Coeffs, sk[i].Coeffs)
	}
	return out
}

// makeSecret samples a secret respecting the block structure.
func makeSecret[T tfhe.TorusInt](par tfhe.Parameters[T], seed uint64) tfhe.SecretKey[T] {
	r := simrt.NewRng(seed)
	sk := tfhe.NewSecretKey(par)
	v := sk.LWELargeKey.Value
	n, b := par.LWEDimension(), par.BlockSize()
	if b == 1 {
		for i := 0; i < n; i++ {
			v[i] = T(r.Intn(2))
		}
	} else {
		for i := 0; i < n; i += b {
			if x := r.Intn(b + 1); x < b {
				v[i+x] = 1
			}
		}
	}
	for i := n; i < len(v); i++ {
		v[i] = T(r.Intn(2))
	}
	for i := range sk.GLWEKey.Value {
		copy(sk.GLWEKey.Value[i].Coeffs, v[i*par.PolyRank():(i+1)*par.PolyRank()])
	}
	tfhe.NewGLWETransformer[T](par.PolyRank()).FwdFFTGLWESecretKeyTo(sk.FFTGLWEKey, sk.GLWEKey)
	return sk
}

// judge checks ciphertexts against one secret.
type judge[T tfhe.TorusInt] struct {
	c    *Ctx
	par  tfhe.Parameters[T]
	sk   tfhe.SecretKey[T]
	tal  *tally
	num  int
	seen *reuse[T]
}

func newJudge[T tfhe.TorusInt](c *Ctx, par tfhe.Parameters[T], sk tfhe.SecretKey[T]) *judge[T] {
	return &judge[T]{c: c, par: par, sk: clone2(sk), seen: newReuse[T](c, par.GLWEDimension()), tal: newTally(c)}
}

// mask records a mask.
func (j *judge[T]) mask(what string, m []T, public bool) {
	j.seen.mask(what, m, public)
	if !public {
		mask(j.tal, what, m)
	}
}

// clone2 copies a secret key without library code.
func clone2[T tfhe.TorusInt](sk tfhe.SecretKey[T]) tfhe.SecretKey[T] { return cloneOf(sk) }

func (j *judge[T]) defKey() []T {
	if j.par.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		return j.sk.LWELargeKey.Value
	}
	return j.sk.LWEKey.Value
}

func (j *judge[T]) defSigma() float64 {
	if j.par.BootstrapOrder() == tfhe.OrderKeySwitchBlindRotate {
		return j.par.GLWEStdDev() * qOf[T]()
	}
	return j.par.LWEStdDev() * qOf[T]()
}

func (j *judge[T]) glweSigma() float64 { return j.par.GLWEStdDev() * qOf[T]() }

func qOf[T tfhe.TorusInt]() float64 { return math.Exp2(float64(sizeT[T]())) }

// fftSlack bounds the rounding of transformed ciphertexts.
func (j *judge[T]) fftSlack() float64 {
	return float64(j.par.PolyRank()*(j.par.GLWERank()+1)) * math.Max(4, qOf[T]()/math.Exp2(50))
}

// noise kinds
type noise int

const (
	noiseFresh  noise = iota // one Gaussian
	noisePublic              // public-key encryption
	noiseKey                 // one Gaussian, transformed
)

// pub multiplies fresh noise for public-key encryption.
func (j *judge[T]) pub() float64 { return math.Sqrt(float64(j.par.GLWEDimension()) + 2) }

func (j *judge[T]) err(what string, got, want T, sigma float64, kind noise, slack float64) {
	e := signed(got - want)
	bound := 10 * sigma
	if kind == noisePublic {
		bound = 12 * sigma * j.pub()
	}
	bound += slack + 2
	if math.Abs(e) > bound || e != e {
		j.c.Failf("wrong-ciphertext:"+what, "%s: the phase is off by %.4g, noise bound %.4g (expected phase %d, got %d)", what, e, bound, want, got)
	}
	if kind != noisePublic {
		v := sigma*sigma + 1.0/12
		j.tal.gauss(what, e, v, v+slack*slack/64)
		j.num++
	}
}

// stats checks that fresh noise, masks and secrets are distributed as stated.
func (j *judge[T]) stats() { j.tal.check() }

func (j *judge[T]) lwe(what string, ct tfhe.LWECiphertext[T], want T, kind noise) {
	key := j.defKey()
	if len(ct.Value) != len(key)+1 {
		j.c.Failf("wrong-ciphertext:"+what, "%s: dimension %d", what, len(ct.Value)-1)
	}
	j.err(what, phaseLWE(ct.Value, key), want, j.defSigma(), kind, 0)
	j.mask(what, ct.Value[1:], kind == noisePublic)
}

// lweUnder checks an encryption under an explicit key.
func (j *judge[T]) lweUnder(what string, ct, key []T, want T, sigma float64) {
	if len(ct) != len(key)+1 {
		j.c.Failf("wrong-ciphertext:"+what, "%s: dimension %d", what, len(ct)-1)
	}
	j.err(what, phaseLWE(ct, key), want, sigma, noiseFresh, 0)
	j.mask(what, ct[1:], false)
}

func (j *judge[T]) polys(what string, ct []poly.Poly[T], want []T, kind noise, slack float64) {
	if len(ct) != j.par.GLWERank()+1 {
		j.c.Failf("wrong-ciphertext:"+what, "%s: rank %d", what, len(ct)-1)
	}
	ph := phaseGLWE(ct, j.sk.GLWEKey.Value)
	errs := make([]T, len(ph))
	for i := range ph {
		j.err(what, ph[i], want[i], j.glweSigma(), kind, slack)
		errs[i] = ph[i] - want[i]
	}
	for i := 1; i < len(ct); i++ {
		j.mask(what, ct[i].Coeffs, kind == noisePublic)
	}
	j.seen.noise(what, errs)
}

func (j *judge[T]) glwe(what string, ct tfhe.GLWECiphertext[T], want []T, kind noise) {
	j.polys(what, ct.Value, want, kind, 0)
}

// inv brings a transformed ciphertext back.
func (j *judge[T]) inv(ct tfhe.FFTGLWECiphertext[T]) tfhe.GLWECiphertext[T] {
	var out tfhe.GLWECiphertext[T]
	out = tfhe.NewGLWECiphertextCustom[T](len(ct.Value)-1, j.par.PolyRank())
	tfhe.NewGLWETransformer[T](j.par.PolyRank()).InvFFTGLWECiphertextTo(out, cloneOf(ct))
	return out
}

func (j *judge[T]) fglwe(what string, ct tfhe.FFTGLWECiphertext[T], want []T, kind noise) {
	j.polys(what, j.inv(ct).Value, want, kind, j.fftSlack())
}

func baseQ[T tfhe.TorusInt](g tfhe.GadgetParameters[T], i int) T {
	lb := 0
	for b := g.Base(); b > 1; b >>= 1 {
		lb++
	}
	return T(1) << (sizeT[T]() - (i+1)*lb)
}

func scaleVec[T tfhe.TorusInt](v []T, s T) []T {
	o := make([]T, len(v))
	for i := range v {
		o[i] = v[i] * s
	}
	return o
}

func (j *judge[T]) lev(what string, ct tfhe.LevCiphertext[T], scalar T) {
	for i := range ct.Value {
		j.lwe(fmt.Sprintf("%s[level]", what), ct.Value[i], scalar*baseQ(ct.GadgetParams, i), noiseFresh)
	}
}

func (j *judge[T]) gsw(what string, ct tfhe.GSWCiphertext[T], scalar T) {
	key := j.defKey()
	for i := range ct.Value {
		if i == 0 {
			j.lev(what, ct.Value[0], scalar)
		} else {
			j.lev(what, ct.Value[i], scalar*key[i-1])
		}
	}
}

func (j *judge[T]) glev(what string, ct tfhe.GLevCiphertext[T], p []T) {
	for i := range ct.Value {
		j.glwe(what+"[level]", ct.Value[i], scaleVec(p, baseQ(ct.GadgetParams, i)), noiseFresh)
	}
}

func (j *judge[T]) fglev(what string, ct tfhe.FFTGLevCiphertext[T], p []T) {
	for i := range ct.Value {
		j.fglwe(what+"[level]", ct.Value[i], scaleVec(p, baseQ(ct.GadgetParams, i)), noiseKey)
	}
}

// timesKey returns p times the i-th secret polynomial (p when i == 0).
func (j *judge[T]) timesKey(p []T, i int) []T {
	if i == 0 {
		return p
	}
	o := make([]T, len(p))
	negMulAdd(o, p, j.sk.GLWEKey.Value[i-1].Coeffs)
	return o
}

func (j *judge[T]) ggsw(what string, ct tfhe.GGSWCiphertext[T], p []T) {
	for i := range ct.Value {
		j.glev(what, ct.Value[i], j.timesKey(p, i))
	}
}

func (j *judge[T]) fggsw(what string, ct tfhe.FFTGGSWCiphertext[T], p []T) {
	for i := range ct.Value {
		j.fglev(what, ct.Value[i], j.timesKey(p, i))
	}
}

// secret checks the shape and content of a secret key.
func (j *judge[T]) secret(what string, sk tfhe.SecretKey[T]) {
	v := sk.LWELargeKey.Value
	n, b := j.par.LWEDimension(), j.par.BlockSize()
	bad := len(v) != j.par.GLWEDimension() || len(sk.LWEKey.Value) != n
	for i, x := range v {
		bad = bad || x > 1
		if i < n && i < len(sk.LWEKey.Value) && sk.LWEKey.Value[i] != x {
			bad = true
		}
	}
	for i := 0; !bad && b > 1 && i < n; i += b {
		w := 0
		for k := i; k < i+b; k++ {
			w += int(v[k])
		}
		bad = bad || w > 1
	}
	for i, p := range sk.GLWEKey.Value {
		for k, x := range p.Coeffs {
			bad = bad || v[i*j.par.PolyRank()+k] != x
		}
	}
	if bad {
		j.c.Failf("wrong-key:"+what, "%s: not a valid secret key", what)
	}
	f := tfhe.NewFFTGLWESecretKey(j.par)
	tfhe.NewGLWETransformer[T](j.par.PolyRank()).FwdFFTGLWESecretKeyTo(f, sk.GLWEKey)
	if digestOf(f) != digestOf(sk.FFTGLWEKey) {
		j.c.Failf("wrong-key:"+what, "%s: the transformed secret does not match the secret", what)
	}
	j.seen.secretBits(what, v)
	secretKey(j.tal, what, j.par, v)
	if j.par.BlockSize() > 1 {
		v = v[j.par.LWEDimension():]
	}
	j.seen.secretWords(what, v)
}

// public checks a public key.
func (j *judge[T]) public(what string, pk tfhe.PublicKey[T]) {
	k, N := j.par.GLWERank(), j.par.PolyRank()
	zero := make([]T, N)
	for i := 0; i < k; i++ {
		j.polys(what+".GLWEKey", pk.GLWEKey.Value[i].Value, zero, noiseFresh, 0)
	}
	rev := make([]poly.Poly[T], k)
	for i := range rev {
		rev[i] = poly.NewPoly[T](N)
		for t := 0; t < N; t++ {
			rev[i].Coeffs[t] = j.sk.GLWEKey.Value[i].Coeffs[N-1-t]
		}
	}
	for i := 0; i < k; i++ {
		ph := phaseGLWE(pk.LWEKey.Value[i].Value, rev)
		for t := range ph {
			j.err(what+".LWEKey", ph[t], 0, j.glweSigma(), noiseFresh, 0)
		}
		for t := 1; t <= k; t++ {
			j.mask(what+".LWEKey", pk.LWEKey.Value[i].Value[t].Coeffs, false)
		}
		j.seen.noise(what+".LWEKey", ph)
	}
}

func constPoly[T tfhe.TorusInt](n int, x T) []T {
	o := make([]T, n)
	o[0] = x
	return o
}

// blindRotate checks every component of a blind rotation key.
func (j *judge[T]) blindRotate(what string, brk tfhe.BlindRotateKey[T]) {
	if len(brk.Value) != j.par.LWEDimension() || brk.GadgetParams != j.par.BlindRotateParams() {
		j.c.Failf("wrong-key:"+what, "%s: wrong size", what)
	}
	for i := range brk.Value {
		j.fggsw(fmt.Sprintf("%s[i]", what), brk.Value[i], constPoly(j.par.PolyRank(), j.sk.LWEKey.Value[i]))
	}
}

// lweKSK checks a key switching key into the LWE key dst.
func (j *judge[T]) lweKSK(what string, ksk tfhe.LWEKeySwitchKey[T], src, dst []T, g tfhe.GadgetParameters[T], sigma float64) {
	if len(ksk.Value) != len(src) || ksk.GadgetParams != g {
		j.c.Failf("wrong-key:"+what, "%s: wrong size", what)
	}
	for i := range ksk.Value {
		if len(ksk.Value[i].Value) != g.Level() {
			j.c.Failf("wrong-key:"+what, "%s: wrong level", what)
		}
		for l := range ksk.Value[i].Value {
			j.lweUnder(what+"[i][level]", ksk.Value[i].Value[l].Value, dst, src[i]*baseQ(g, l), sigma)
		}
	}
}

// glweKSK checks a GLWE key switching key from the polynomials src.
func (j *judge[T]) glweKSK(what string, ksk tfhe.GLWEKeySwitchKey[T], src [][]T, g tfhe.GadgetParameters[T]) {
	if len(ksk.Value) != len(src) || ksk.GadgetParams != g {
		j.c.Failf("wrong-key:"+what, "%s: wrong size", what)
	}
	for i := range ksk.Value {
		if len(ksk.Value[i].Value) != g.Level() {
			j.c.Failf("wrong-key:"+what, "%s: wrong level", what)
		}
		j.fglev(what+"[i]", ksk.Value[i], src[i])
	}
}

// defaultKSK checks the key switching key used for bootstrapping.
func (j *judge[T]) defaultKSK(what string, ksk tfhe.LWEKeySwitchKey[T]) {
	n := j.par.LWEDimension()
	j.lweKSK(what, ksk, j.sk.LWELargeKey.Value[n:], j.sk.LWEKey.Value, j.par.KeySwitchParams(), j.par.LWEStdDev()*qOf[T]())
}

// autoPoly returns p(X^d).
func autoPoly[T tfhe.TorusInt](p []T, d int) []T {
	n := len(p)
	o := make([]T, n)
	for i := range p {
		e := ((i*d)%(2*n) + 2*n) % (2 * n)
		if e < n {
			o[e] += p[i]
		} else {
			o[e-n] -= p[i]
		}
	}
	return o
}

// ---------------------------------------------------------------------------
// reuse of randomness

// reuse remembers windows of masks, noise and secrets seen in a run.
type reuse[T tfhe.TorusInt] struct {
	c     *Ctx
	masks map[[2]uint64]string
	rough map[[2]uint64]string
	errs  map[[2]uint64]string
	secs  map[[2]uint64]string
	words map[[2]uint64]string
	dim   int
	n     int
}

func newReuse[T tfhe.TorusInt](c *Ctx, dim int) *reuse[T] {
	return &reuse[T]{c: c, dim: dim, masks: map[[2]uint64]string{}, rough: map[[2]uint64]string{}, errs: map[[2]uint64]string{}, secs: map[[2]uint64]string{}, words: map[[2]uint64]string{}}
}

const reuseCap = 60000

func (r *reuse[T]) put(m map[[2]uint64]string, k [2]uint64, what, kind string) {
	if old, ok := m[k]; ok {
		r.c.Failf("randomness-reused:"+kind, "%s of %s was used before by %s", kind, what, old)
	}
	m[k] = what
	r.n++
}

// mask records an exact mask, and for sums of public keys its high part.
func (r *reuse[T]) mask(what string, m []T, public bool) {
	w := 2
	if sizeT[T]() == 32 {
		w = 3
	}
	if !public {
		if len(r.masks) > reuseCap {
			return
		}
		for i := 0; i+w <= len(m); i++ {
			r.put(r.masks, window(m[i:i+w], 0, sizeT[T]()), what, "the mask")
		}
		return
	}
	if len(r.rough) > reuseCap || len(m) < 8 || r.dim < 64 { // few random bits: chance collisions
		return
	}
	for i := 0; i+8 <= len(m); i++ {
		r.put(r.rough, window(m[i:i+8], sizeT[T]()-14, 14), what, "the mask")
	}
}

// noise records a pattern of noise.
func (r *reuse[T]) noise(what string, e []T) {
	if len(r.errs) > reuseCap {
		return
	}
	shift := 0 // skip bits that transformed ciphertexts round away
	if sizeT[T]() == 64 {
		shift = 14
	}
	for i := 0; i+14 <= len(e); i++ {
		r.put(r.errs, window(e[i:i+14], shift, 9), what, "the noise")
	}
}

// secretBits records a secret of enough entropy.
func (r *reuse[T]) secretBits(what string, s []T) {
	if len(s) < 64 {
		return
	}
	h := [2]uint64{simrt.Mix(1), simrt.Mix(2)}
	for _, x := range s {
		h[0] = simrt.Mix(h[0], uint64(x))
		h[1] = simrt.Mix(h[1], uint64(x), 7)
	}
	r.put(r.secs, h, what, "the secret")
}

// secretWords records uniform secret bits in pieces of 64.
func (r *reuse[T]) secretWords(what string, s []T) {
	for ; len(s) >= 64; s = s[64:] {
		var w uint64
		for _, x := range s[:64] {
			w = w<<1 | uint64(x)&1
		}
		r.put(r.words, [2]uint64{w, simrt.Mix(w)}, what, "a piece of the secret")
	}
}

// window packs the bits [shift, shift+bits) of each entry.
func window[T tfhe.TorusInt](v []T, shift, bits int) [2]uint64 {
	h := [2]uint64{0x1234567, 0x89abcdef}
	for _, x := range v {
		y := uint64(x>>shift) & (1<<bits - 1)
		h[0] = simrt.Mix(h[0], y)
		h[1] = simrt.Mix(h[1], y, 3)
	}
	return h
}
