package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/tfhe"
)

// tally collects what should be random and compares it with the stated
// distribution. Every decision is a Chernoff bound on the chance of an
// innocent deviation, so it is valid for any number of samples.
type tally struct {
	c    *Ctx
	mom  map[string]*moments
	cats map[string]*cats
	bits map[string]*bitCount
	n    int
}

// tooRare is minus the logarithm of the chance at which a deviation counts.
const tooRare = 42

type moments struct {
	n           int
	lo, hi, sum float64
}

type cats struct {
	n     int
	count []int
	prob  []float64
}

type bitCount struct {
	n    int
	lo   int
	ones [64]int
}

func newTally(c *Ctx) *tally {
	return &tally{c: c, mom: map[string]*moments{}, cats: map[string]*cats{}, bits: map[string]*bitCount{}}
}

// gauss records a value that should be centred Gaussian of variance vlo, or up
// to vhi with the rounding of the transform.
func (t *tally) gauss(what string, e, vlo, vhi float64) {
	m := t.mom[what]
	if m == nil {
		m = &moments{}
		t.mom[what] = m
	}
	m.n++
	m.lo += (e*e + 1.0/12) / vlo // never zero: values are integers
	m.hi += e * e / vhi
	m.sum += e / math.Sqrt(vhi)
	t.n++
}

// cat records that a draw from prob gave category k.
func (t *tally) cat(what string, k int, prob []float64) {
	m := t.cats[what]
	if m == nil {
		m = &cats{count: make([]int, len(prob)), prob: prob}
		t.cats[what] = m
	}
	m.n++
	m.count[k]++
	t.n++
}

var evenOdds = []float64{0.5, 0.5}

// bit records values that should be uniform bits.
func (t *tally) bit(what string, v uint64) {
	if v > 1 {
		t.c.Failf("wrong-distribution:"+what, "%s: %d is not a bit", what, v)
	}
	t.cat(what, int(v), evenOdds)
}

// uniform records a word whose bits [lo, hi) should be uniform.
func (t *tally) uniform(what string, v uint64, lo, hi int) {
	m := t.bits[what]
	if m == nil {
		m = &bitCount{lo: lo}
		t.bits[what] = m
	}
	m.n++
	for b := lo; b < hi; b++ {
		m.ones[b] += int(v >> b & 1)
	}
	for b := hi; b < 64; b++ {
		m.ones[b] = -1
	}
	for b := 0; b < lo; b++ {
		m.ones[b] = -1
	}
	t.n++
}

// mask records the coefficients of a mask; the lowest bits may be rounded away.
func mask[T tfhe.TorusInt](t *tally, what string, m []T) {
	lo := 2
	if sizeT[T]() == 64 {
		lo = 24
	}
	for _, x := range m {
		t.uniform(what, uint64(x), lo, sizeT[T]())
	}
}

// kl bounds the chance of k of n for probability p from above by exp(-n kl).
func kl(q, p float64) float64 {
	f := func(a, b float64) float64 {
		if a == 0 {
			return 0
		}
		if b <= 0 {
			return math.Inf(1)
		}
		return a * math.Log(a/b)
	}
	return f(q, p) + f(1-q, 1-p)
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// check judges everything recorded.
func (t *tally) check() {
	for _, what := range sortedKeys(t.mom) {
		m := t.mom[what]
		n := float64(m.n)
		rare := func(r float64) float64 { return n / 2 * (r - 1 - math.Log(r)) }
		if r := m.hi / n; r > 1 && rare(r) > tooRare {
			t.c.Failf("wrong-noise", "%s: the standard deviation is %.3g times the stated one over %d samples", what, math.Sqrt(r), m.n)
		}
		if r := m.lo / n; r < 1 && rare(r) > tooRare {
			t.c.Failf("wrong-noise", "%s: the standard deviation is %.3g times the stated one over %d samples", what, math.Sqrt(r), m.n)
		}
		if z := m.sum / math.Sqrt(n); z*z/2 > tooRare {
			t.c.Failf("wrong-noise", "%s: the mean is %.3g standard deviations off over %d samples", what, m.sum/n, m.n)
		}
		if m.n >= 100 {
			t.c.Count("noise distributions judged")
		}
	}
	for _, what := range sortedKeys(t.cats) {
		m := t.cats[what]
		n := float64(m.n)
		for k, c := range m.count {
			if q := float64(c) / n; n*kl(q, m.prob[k]) > tooRare {
				t.c.Failf("wrong-distribution", "%s: outcome %d of %d came %d times in %d, expected %.1f", what, k, len(m.count), c, m.n, n*m.prob[k])
			}
		}
		if m.n >= 100 {
			t.c.Count("discrete distributions judged")
		}
	}
	for _, what := range sortedKeys(t.bits) {
		m := t.bits[what]
		n := float64(m.n)
		for b, c := range m.ones {
			if c < 0 {
				continue
			}
			if q := float64(c) / n; n*kl(q, 0.5) > tooRare {
				t.c.Failf("wrong-distribution", "%s: bit %d is set %d times in %d", what, b, c, m.n)
			}
		}
		if m.n >= 100 {
			t.c.Count("mask distributions judged")
		}
	}
	*t = *newTally(t.c)
}

func normCDF(x float64) float64 { return math.Erfc(-x/math.Sqrt2) / 2 }

// binned is a distribution over integers cut into bins; bin i is
// [edge[i-1], edge[i]).
type binned struct {
	edge []int64
	prob []float64
}

func (b *binned) of(v int64) int {
	return sort.Search(len(b.edge), func(i int) bool { return v < b.edge[i] })
}

// gaussBins cuts a Gaussian at quantiles; cdf(v) is the chance of a value below v.
func gaussBins(center, sd float64, cdf func(v int64) float64) *binned {
	b := &binned{}
	last := 0.0
	add := func(z float64) {
		v := int64(math.Round(center + z*sd))
		if len(b.edge) > 0 && v <= b.edge[len(b.edge)-1] {
			return
		}
		p := cdf(v)
		b.edge = append(b.edge, v)
		b.prob = append(b.prob, p-last)
		last = p
	}
	for _, z := range []float64{-5, -4, -3.7, -3.45, -3, -2.5, -2, -1.7, -1.4, -1.2, -1, -.8, -.6, -.4, -.2, 0, .2, .4, .6, .8, 1, 1.2, 1.4, 1.7, 2, 2.5, 3, 3.45, 3.7, 4, 5} {
		add(z)
	}
	b.prob = append(b.prob, 1-last)
	return b
}

// roundedGauss is the rounded Gaussian around zero.
func roundedGauss(sd float64) *binned {
	return gaussBins(0, sd, func(v int64) float64 { return normCDF((float64(v) - 0.5) / sd) })
}

// discreteGauss is the discrete Gaussian.
func discreteGauss(center, sd float64) *binned {
	lo, hi := int64(math.Floor(center-14*sd)), int64(math.Ceil(center+14*sd))
	var sum float64
	cum := make([]float64, hi-lo+2)
	for v := lo; v <= hi; v++ {
		cum[v-lo] = sum
		d := float64(v) - center
		sum += math.Exp(-d * d / (2 * sd * sd))
	}
	cum[hi-lo+1] = sum
	return gaussBins(center, sd, func(v int64) float64 {
		if v < lo {
			return 0
		}
		if v > hi+1 {
			v = hi + 1
		}
		return cum[v-lo] / sum
	})
}

func (t *tally) binned(what string, v int64, b *binned) { t.cat(what, b.of(v), b.prob) }

// blocks records the pattern of block binary values.
func blocks[T num.Integer](t *tally, what string, v []T, b int) {
	prob := make([]float64, b+1)
	for i := range prob {
		prob[i] = 1 / float64(b+1)
	}
	for i := 0; i+b <= len(v); i += b {
		at := b
		for k := 0; k < b; k++ {
			if v[i+k] > 1 || v[i+k] == 1 && at != b {
				t.c.Failf("wrong-distribution:"+what, "%s: not block binary", what)
			}
			if v[i+k] == 1 {
				at = k
			}
		}
		t.cat(fmt.Sprintf("%s, blocks of %d", what, b), at, prob)
	}
}

// secretKey records a secret key.
func secretKey[T tfhe.TorusInt](t *tally, what string, par tfhe.Parameters[T], v []T) {
	n := 0
	if b := par.BlockSize(); b > 1 {
		n = par.LWEDimension()
		blocks(t, what, v[:n], b)
	}
	for _, x := range v[n:] {
		t.bit(what, uint64(x))
	}
}
