//go:build go1.22

package main

import (
	"math"

	"SIMMODULE/mktfhe"
	"SIMMODULE/simrt"
	"SIMMODULE/tfhe"
	"SIMMODULE/xtfhe"
)

// sizeT is the bit length of T.
func sizeT[T tfhe.TorusInt]() int {
	var z T
	if uint64(^z) == math.MaxUint32 {
		return 32
	}
	return 64
}

func sigma[T tfhe.TorusInt]() float64 {
	if sizeT[T]() == 32 {
		return math.Exp2(-25)
	}
	return math.Exp2(-40)
}

// gad is a gadget literal.
func gad[T tfhe.TorusInt](logBase, level int) tfhe.GadgetParametersLiteral[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: T(1) << logBase, Level: level}
}

// paramOpts restrict generated parameters.
type paramOpts struct {
	maxN     int
	maxRank  int
	rank1    bool
	noExt    bool // LUTSize equal to PolyRank
	block1   bool
	minP     int // smallest message modulus
	maxP     int
	order    int // 0 any, 1 KeySwitchBlindRotate, 2 BlindRotateKeySwitch
	powerP   bool
	correct  bool // bootstrapping must decode correctly
	lutSlack int  // extra factor by which the table must exceed the error
	maxDim   int
}

// genParams draws a parameter set. Small and simple for choice 0.
func genParams[T tfhe.TorusInt](c *Ctx, o paramOpts) tfhe.ParametersLiteral[T] {
	ns := []int{32, 16, 64, 128}
	if o.maxN == 0 {
		o.maxN = 64
	}
	var nsOK []int
	for _, n := range ns {
		if n <= o.maxN {
			nsOK = append(nsOK, n)
		}
	}
	N := nsOK[c.Int(len(nsOK))]
	k := 1
	if !o.rank1 {
		if o.maxRank == 0 {
			o.maxRank = 3
		}
		k = 1 + []int{0, 1, 0, 2}[c.Int(4)]%o.maxRank
	}
	ext := 1
	if !o.noExt {
		ext = []int{1, 2, 1, 4}[c.Int(4)]
		if ext*N > 128 {
			ext = 1
		}
	}
	ps := []int{2, 4, 3, 8}
	p := 2
	if o.maxP == 0 {
		o.maxP = 4
	}
	var psOK []int
	for _, x := range ps {
		if x <= o.maxP && x >= o.minP && (!o.powerP || x != 3) {
			psOK = append(psOK, x)
		}
	}
	p = psOK[c.Int(len(psOK))]
	slack := o.lutSlack
	if slack == 0 {
		slack = 1
	}
	if o.correct {
		for ext*N/(2*p*slack) < 4 { // needs (blocks+1)/2 <= 0.8*LUT/(2p), blocks >= 2
			if N < o.maxN {
				N *= 2
			} else if p > 2 && p/2 >= o.minP {
				p /= 2
			} else {
				break
			}
		}
	}
	bs := 1
	if !o.block1 {
		bs = []int{2, 1, 3, 4}[c.Int(4)]
	}
	maxBlocks := 8
	if o.correct {
		maxBlocks = int(0.7*float64(ext*N)/float64(p*slack)) - 1
	}
	if o.maxDim == 0 {
		o.maxDim = 16
	}
	if maxBlocks*bs > o.maxDim {
		maxBlocks = o.maxDim / bs
	}
	for maxBlocks*bs > k*N {
		maxBlocks--
	}
	if maxBlocks < 2 {
		bs, maxBlocks = 1, 2
	}
	blocks := 2 + c.Int(maxBlocks-1)
	order := tfhe.OrderKeySwitchBlindRotate
	switch o.order {
	case 0:
		if c.Int(2) == 1 {
			order = tfhe.OrderBlindRotateKeySwitch
		}
	case 2:
		order = tfhe.OrderBlindRotateKeySwitch
	}
	br := [][2]int{{7, 3}, {8, 3}, {6, 4}}[c.Int(3)]
	ks := [][2]int{{4, 4}, {5, 3}, {3, 6}}[c.Int(3)]
	if sizeT[T]() == 64 {
		br = [][2]int{{10, 3}, {8, 4}, {15, 2}}[c.Int(3)]
	}
	s := sigma[T]()
	ls, gs := s, s
	switch c.Int(4) {
	case 2:
		ls = s / 8
	case 3:
		gs = s / 8
	}
	return tfhe.ParametersLiteral[T]{
		LWEDimension: blocks * bs, GLWERank: k, PolyRank: N, LUTSize: N * ext,
		LWEStdDev: ls, GLWEStdDev: gs, BlockSize: bs, MessageModulus: T(p),
		BlindRotateParams: gad[T](br[0], br[1]), KeySwitchParams: gad[T](ks[0], ks[1]),
		BootstrapOrder: order,
	}
}

// genMKParams draws a multi-key parameter set.
func genMKParams[T tfhe.TorusInt](c *Ctx, o paramOpts, maxParties int) mktfhe.ParametersLiteral[T] {
	o.rank1, o.noExt = true, true
	parties := 2 + c.Int(maxParties-1)
	o.lutSlack = parties
	if o.maxN < 64*parties/2 {
		o.maxN = 64
	}
	if parties > 2 && o.correct {
		o.maxN = 128
	}
	if o.maxP == 0 {
		o.maxP = 2
	}
	sub := genParams[T](c, o)
	acc, rel := gad[T](8, 3), gad[T](8, 3)
	if sizeT[T]() == 64 {
		acc, rel = gad[T](10, 4), gad[T](10, 4)
	}
	if c.Int(2) == 1 {
		acc.Level++
		if acc.Level*8 > 32 && sizeT[T]() == 32 {
			acc.Level--
		}
	}
	return mktfhe.ParametersLiteral[T]{PartyCount: parties, SubParams: sub, AccumulatorParams: acc, RelinKeyParams: rel}
}

func manyLUTOf[T tfhe.TorusInt](c *Ctx, base tfhe.ParametersLiteral[T]) xtfhe.ManyLUTParametersLiteral[T] {
	base.LUTSize = base.PolyRank
	return xtfhe.ManyLUTParametersLiteral[T]{BaseParams: base, LUTCount: []int{2, 4, 1}[c.Int(3)]}
}

func circuitOf[T tfhe.TorusInt](c *Ctx, base tfhe.ParametersLiteral[T]) xtfhe.CircuitBootstrapParametersLiteral[T] {
	m := manyLUTOf(c, base)
	ss, tr, out := gad[T](8, 3), gad[T](6, 4), gad[T](4, 2)
	if sizeT[T]() == 64 {
		ss, tr, out = gad[T](10, 4), gad[T](10, 4), gad[T](6, 2)
	}
	if c.Int(2) == 1 {
		out.Level = 3
	}
	return xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: m, SchemeSwitchParams: ss, TraceKeySwitchParams: tr, OutputParams: out}
}

func fhewOf[T tfhe.TorusInt](c *Ctx, base tfhe.ParametersLiteral[T]) xtfhe.FHEWParametersLiteral[T] {
	base.BlockSize, base.LUTSize = 1, base.PolyRank
	sd := math.Exp2(-float64(sizeT[T]()))
	return xtfhe.FHEWParametersLiteral[T]{BaseParams: base, SecretKeyStdDev: sd, WindowSize: 1 + c.Int(4)}
}

// rareMask turns an encryption into another one of the same message with the
// same noise, whose mask has values that a random mask rarely has: zeros,
// extremes, and what modulus switching rounds to nothing.
func rareMask[T tfhe.TorusInt](r *simrt.Rng, body *T, mask, key []T, lutSize int) {
	step := ^T(0)/T(2*lutSize) + 1 // 1/2L
	few := make([]T, 1+r.Intn(3))
	for i := range few {
		few[i] = []T{0, 0, 0, 2, ^T(0), step / 2, step/2 - 1, -(step / 2), step * T(r.Intn(2*lutSize)), step * T(lutSize)}[r.Intn(10)]
	}
	keep := r.Intn(4)
	for i := range mask {
		if r.Intn(4) >= keep {
			v := few[r.Intn(len(few))]
			*body -= (v - mask[i]) * key[i]
			mask[i] = v
		}
	}
}
