//go:build go1.22

package simrt

import (
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"sort"
	"time"
)

// ---------------------------------------------------------------------------
// entropy: the simulated crypto/rand

// EntropyPlan says which entropy requests fail.
type EntropyPlan struct {
	// FailAt is the ordinal (1-based, counted from arming) of the first failing
	// request, FailFor how many fail in a row (-1: all later ones).
	FailAt, FailFor int
	// Partial makes failing requests deliver some bytes before the error.
	Partial bool
	// Pieces makes the reader answer with a few bytes at a time and no error,
	// as readers may.
	Pieces bool
}

// ErrEntropy is what the simulated entropy source returns when it fails.
var ErrEntropy = errors.New("simulated entropy failure")

type entropyState struct {
	rng      *Rng
	plan     EntropyPlan
	armed    bool
	sinceArm int
	// Reads and Failures count requests.
	reads, failures int
	// delivered counts bytes, pieces the short answers.
	delivered, pieces int
	repeat            [][]byte
	repeatPos         int
	record            bool
	log               [][]byte
}

var ent = &entropyState{rng: NewRng(1)}

// SeedEntropy restarts the entropy source.
func SeedEntropy(seed uint64) { ent = &entropyState{rng: NewRng(Mix(seed, 0xe27))} }

// ArmEntropy installs a failure plan.
func ArmEntropy(p EntropyPlan) { ent.plan, ent.armed, ent.sinceArm = p, true, 0 }

// DisarmEntropy removes the failure plan and returns how many requests were made since arming.
func DisarmEntropy() int { ent.armed = false; return ent.sinceArm }

// RecordEntropy keeps what the source delivers from now on.
func RecordEntropy() { ent.record, ent.log = true, nil }

// TakeEntropy returns what was delivered since RecordEntropy.
func TakeEntropy() [][]byte { l := ent.log; ent.record, ent.log = false, nil; return l }

// RepeatEntropy makes the source deliver the given answers first.
func RepeatEntropy(log [][]byte) { ent.repeat, ent.repeatPos = log, 0 }

// EntropyReads counts requests since SeedEntropy.
func EntropyReads() int { return ent.reads }

// EntropyFailures counts failed requests since SeedEntropy.
func EntropyFailures() int { return ent.failures }

// RandRead is crypto/rand.Read.
func RandRead(b []byte) (int, error) {
	Yield()
	e := ent
	e.reads++
	if e.armed {
		e.sinceArm++
		p := e.plan
		if p.FailAt > 0 && e.sinceArm >= p.FailAt && (p.FailFor < 0 || e.sinceArm < p.FailAt+p.FailFor) {
			e.failures++
			n := 0
			if p.Partial && len(b) > 1 {
				n = len(b) / 2
				e.rng.Fill(b[:n])
			}
			return n, ErrEntropy
		}
	}
	if e.repeatPos < len(e.repeat) && len(e.repeat[e.repeatPos]) == len(b) {
		copy(b, e.repeat[e.repeatPos])
		e.repeatPos++
	} else {
		e.rng.Fill(b)
	}
	e.delivered += len(b)
	if e.record {
		e.log = append(e.log, append([]byte(nil), b...))
	}
	return len(b), nil
}

type randReader struct{}

func (randReader) Read(b []byte) (int, error) {
	if e := ent; e.armed && e.plan.Pieces && len(b) > 1 {
		e.pieces++
		b = b[:1+e.rng.Intn((len(b)+1)/2)]
	}
	return RandRead(b)
}

// EntropyDelivered counts the bytes delivered since SeedEntropy, and the
// answers shorter than asked for.
func EntropyDelivered() (bytes, pieces int) { return ent.delivered, ent.pieces }

// RandReader is crypto/rand.Reader.
var RandReader io.Reader = randReader{}

// MathRand stands for the global math/rand source.
func MathRand() *mrand.Rand {
	return mrand.New(mrand.NewSource(int64(ent.rng.Uint64() >> 1)))
}

// MathRandV2 stands for the global math/rand/v2 source.
func MathRandV2() *mrand2.Rand {
	return mrand2.New(mrand2.NewPCG(ent.rng.Uint64(), ent.rng.Uint64()))
}

// ---------------------------------------------------------------------------
// clock

var epoch = time.Unix(1700000000, 0).UTC()

// NowNanos is the simulated time.
func NowNanos() int64 {
	s := active
	if s == nil {
		return 0
	}
	return s.clock() + (s.granted-1-countdown)*NanosPerStep
}

// Now is time.Now.
func Now() time.Time { return epoch.Add(time.Duration(NowNanos())) }

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	s := active
	if s == nil {
		return
	}
	if d <= 0 {
		Gosched()
		return
	}
	me := s.cur
	me.state = gSleeping
	me.until = NowNanos() + int64(d)
	s.away(me)
}

// After is time.After.
func After(d time.Duration) *Chan[time.Time] {
	c := MakeChan[time.Time](1)
	Go(func() { Sleep(d); c.Send(Now()) })
	return c
}

// ---------------------------------------------------------------------------
// map iteration order

// MapKeys returns the keys of m in an order decided by the scheduler.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []int:
		sort.Ints(ks)
	case []string:
		sort.Strings(ks)
	default:
		str := make([]string, len(keys))
		idx := make([]int, len(keys))
		for i, k := range keys {
			str[i] = fmt.Sprint(k)
			idx[i] = i
		}
		sort.Slice(idx, func(a, b int) bool { return str[idx[a]] < str[idx[b]] })
		out := make([]K, len(keys))
		for i, j := range idx {
			out[i] = keys[j]
		}
		keys = out
	}
	for i := len(keys) - 1; i > 0; i-- {
		j := Draw(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	return keys
}

// MapHas reports whether k is (still) in m.
func MapHas[M ~map[K]V, K comparable, V any](m M, k K) bool { _, ok := m[k]; return ok }
