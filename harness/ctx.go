//go:build go1.22

package main

import (
	"fmt"
	"math/bits"
	"strings"

	"SIMMODULE/simrt"
)

// violation is a property violation found in a run.
type violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// stopRun is the panic value that ends a run once its outcome is decided.
type stopRun struct{}

// Ctx is one simulated run of a property scenario. Everything the run does is a
// function of Seed, the choice tape and the recorded schedules.
type Ctx struct {
	Prop string
	Seed uint64
	Tier string

	rng     *simrt.Rng
	replay  bool
	tape    []uint32
	pos     int
	choices []uint32
	seedCtr uint64

	scheds    [][]simrt.Switch // given (replay)
	useScheds bool
	traces    [][]simrt.Switch // recorded
	simNo     int

	viol *violation

	hash       uint64
	scheduleH  uint64
	faults     map[string]int
	counts     map[string]int
	covers     map[uint64]struct{}
	nontrivial bool
	desc       []string
	steps      int64
	switches   int64
	spawned    int
	simtime    int64
	strategies map[string]int
	inRun      bool
}

func newCtx(prop string, seed uint64) *Ctx {
	return &Ctx{
		Prop: prop, Seed: seed, Tier: "quick",
		rng:    simrt.NewRng(simrt.Mix(seed, 0xc401ce)),
		faults: map[string]int{}, counts: map[string]int{}, covers: map[uint64]struct{}{}, strategies: map[string]int{},
	}
}

// Int returns a recorded choice in [0, n). Choice 0 is the simplest.
func (c *Ctx) Int(n int) int {
	if n <= 1 {
		return 0
	}
	var v int
	if c.replay {
		if c.pos < len(c.tape) {
			v = int(c.tape[c.pos]) % n
		}
		c.pos++
	} else {
		v = c.rng.Intn(n)
	}
	c.choices = append(c.choices, uint32(v))
	return v
}

// Range returns a recorded choice in [lo, hi].
func (c *Ctx) Range(lo, hi int) int { return lo + c.Int(hi-lo+1) }

// Bool is true with probability num/den.
func (c *Ctx) Bool(num, den int) bool { return c.Int(den) >= den-num }

// DataSeed returns a seed for generated data, a function of the run seed and
// the order of calls only.
func (c *Ctx) DataSeed() uint64 {
	c.seedCtr++
	return simrt.Mix(c.Seed, 0xda7a, c.seedCtr)
}

// Rng returns a data generator.
func (c *Ctx) Rng() *simrt.Rng { return simrt.NewRng(c.DataSeed()) }

// Note folds a value into the outcome hash.
func (c *Ctx) Note(v uint64) { c.hash = simrt.Mix(c.hash, v) }

// NoteStr folds a string into the outcome hash.
func (c *Ctx) NoteStr(s string) { c.hash = simrt.MixString(c.hash, s) }

// Fault counts an injected fault that took effect.
func (c *Ctx) Fault(kind string) {
	c.faults[kind]++
	c.NoteStr(kind)
}

// Count counts an event for the coverage report.
func (c *Ctx) Count(kind string) { c.counts[kind]++ }

// Cover records a visited abstract state.
func (c *Ctx) Cover(parts ...any) {
	if len(c.covers) < 5000 {
		c.covers[simrt.MixString(0, fmt.Sprint(parts...))] = struct{}{}
	}
}

// Desc adds a human readable line about the run.
func (c *Ctx) Desc(format string, a ...any) {
	d := fmt.Sprintf(format, a...)
	c.NoteStr(d)
	if len(c.desc) < 40 {
		c.desc = append(c.desc, d)
	}
}

// Failf reports a violation and ends the run.
func (c *Ctx) Failf(class, format string, a ...any) {
	if c.viol == nil {
		c.viol = &violation{Class: class, Msg: fmt.Sprintf(format, a...)}
	}
	panic(stopRun{})
}

// catch runs f and returns what it panicked with, letting run-ending panics pass.
func catch(f func()) (p any) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); ok {
				panic(r)
			}
			p = r
		}
	}()
	f()
	return nil
}

// SimOpts describe one simulated execution.
type SimOpts struct {
	Name string
	// Est is the expected number of steps.
	Est int64
	// Seq forces the non-preempting scheduler (for reference runs and setup).
	Seq bool
	// NumCPU is the machine size shown to the code under test.
	NumCPU int
	// AllowLeak accepts goroutines left blocked at the end.
	AllowLeak bool
	// AllowPanic hands library panics to the caller instead of failing.
	AllowPanic bool
}

// Sim runs root under the simulator with a scheduler chosen by the run.
func (c *Ctx) Sim(o SimOpts, root func()) simrt.Result {
	cfg := simrt.Config{Seed: simrt.Mix(c.Seed, 0x51a, uint64(c.simNo)), NumCPU: o.NumCPU, Record: true, EstSteps: o.Est}
	if cfg.EstSteps < 64 {
		cfg.EstSteps = 64
	}
	cfg.MaxSteps = 30*cfg.EstSteps + 400_000_000
	if !o.Seq {
		st := c.Int(simrt.NumStrategies)
		cfg.Strategy = simrt.Strategy(st)
		if st != 0 {
			lg := bits.Len64(uint64(cfg.EstSteps))
			if lg > 14 {
				lg = 14
			}
			cfg.Interval = int64(1) << c.Int(lg+1)
			cfg.Depth = 1 + c.Int(10)
		}
	}
	k := c.simNo
	c.simNo++
	if c.useScheds && k < len(c.scheds) && !o.Seq {
		cfg.Strategy = simrt.StratReplay
		cfg.Replay = c.scheds[k]
	}
	res := simrt.Run(cfg, root)
	for len(c.traces) < k {
		c.traces = append(c.traces, nil)
	}
	if o.Seq {
		c.traces = append(c.traces, nil)
	} else {
		c.traces = append(c.traces, res.Trace)
		c.scheduleH = simrt.Mix(c.scheduleH, res.SchedHash)
		c.switches += res.Switches
		c.spawned += res.Spawned
		c.strategies[simrt.StrategyNames[cfg.Strategy]]++
	}
	c.steps += res.Steps
	c.simtime += res.SimTime
	if c.viol != nil {
		panic(stopRun{})
	}
	name := o.Name
	if name == "" {
		name = "run"
	}
	c.judgeRaces(name)
	if res.Panicked && !o.AllowPanic {
		c.Failf("panic:"+name+":"+topFrame(res.PanicStack), "%s panicked: %s\n  at %s", name, res.PanicValue, res.PanicStack)
	}
	if res.Deadlock {
		c.Failf("deadlock:"+name, "%s cannot make progress: %s", name, strings.Join(res.Blocked, "; "))
	}
	if res.StepLimit {
		c.Failf("no-progress:"+name, "%s did not finish within %d steps", name, cfg.MaxSteps)
	}
	if res.Leaked > 0 && !o.AllowLeak {
		c.Failf("leak:"+name, "%s returned but left %d goroutines blocked forever: %s", name, res.Leaked, strings.Join(res.Blocked, "; "))
	}
	return res
}

// Seq runs f without preemption (setup, reference executions).
func (c *Ctx) Seq(name string, f func()) simrt.Result {
	return c.Sim(SimOpts{Name: name, Seq: true}, f)
}

// topFrame extracts a stable location name from a trimmed stack.
func topFrame(st string) string {
	for _, f := range strings.Split(st, " < ") {
		if strings.Contains(f, "/simrt/") || strings.Contains(f, "/simharness/") {
			continue
		}
		if i := strings.LastIndex(f, "/"); i >= 0 {
			f = f[i+1:]
		}
		if i := strings.Index(f, ":"); i >= 0 {
			f = f[:i]
		}
		return f
	}
	return "harness"
}

// threads runs the functions as simulated threads and waits for all of them.
func threads(fs ...func()) {
	var wq simrt.WaitQ
	left := len(fs)
	for _, f := range fs {
		f := f
		simrt.Go(func() {
			f()
			simrt.Release(&left)
			left--
			if left == 0 {
				wq.WakeAll()
			}
		})
	}
	for left > 0 {
		wq.Wait("join threads")
	}
	simrt.Acquire(&left)
}

// runScenario executes one run to completion and returns its context.
func runScenario(p *property, c *Ctx) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); ok && c.viol != nil {
				return
			}
			panic(r)
		}
	}()
	simrt.SeedEntropy(simrt.Mix(c.Seed, 0xe))
	p.run(c)
}
