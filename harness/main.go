//go:build go1.22

package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"

	"SIMMODULE/simrt"
)

// property is one decided property.
type property struct {
	id string
	// run is the scenario.
	run func(*Ctx)
	// pure means the outcome hash of a run is a function of its seed alone, with
	// no dependence on library randomness, so that any difference between two
	// executions is a finding and not an artefact.
	pure bool
}

var properties = map[string]*property{}

func register(id string, pure bool, run func(*Ctx)) {
	properties[id] = &property{id: id, run: run, pure: pure}
}

// runOut is what one run did.
type runOut struct {
	Run      int              `json:"run"`
	Seed     uint64           `json:"seed"`
	Hash     uint64           `json:"hash"`
	Sched    uint64           `json:"sched"`
	Viol     *violation       `json:"violation,omitempty"`
	Choices  []uint32         `json:"choices,omitempty"`
	Traces   [][]simrt.Switch `json:"traces,omitempty"`
	Desc     []string         `json:"desc,omitempty"`
	Prelude  []uint64         `json:"prelude,omitempty"`
	Switches int64            `json:"switches"`
	Steps    int64            `json:"steps"`
}

// summary is what a worker reports.
type summary struct {
	Prop        string         `json:"prop"`
	Pure        bool           `json:"pure"`
	Runs        int            `json:"runs"`
	FaultRuns   int            `json:"fault_runs"`
	Known       map[string]int `json:"known"`
	Nontrivial  int            `json:"nontrivial"`
	Faults      map[string]int `json:"faults"`
	Counts      map[string]int `json:"counts"`
	Strategies  map[string]int `json:"strategies"`
	Steps       int64          `json:"steps"`
	Switches    int64          `json:"switches"`
	Spawned     int            `json:"spawned"`
	SimNanos    int64          `json:"sim_nanos"`
	Scheds      []uint64       `json:"scheds"`
	Covers      []uint64       `json:"covers"`
	Outcomes    []uint64       `json:"outcomes"`
	Rechecked   int            `json:"rechecked"`
	RecheckDiff int            `json:"recheck_diff"`
	SchedDiff   int            `json:"sched_diff"`
	Logged      []runOut       `json:"logged"`
	Samples     [][]string     `json:"samples"`
	Violations  []runOut       `json:"violations"`
	WallS       float64        `json:"wall_s"`
}

func runSeed(base uint64, prop string, run int) uint64 {
	return simrt.Mix(simrt.MixString(base, prop), uint64(run), 0x5eed)
}

func outOf(c *Ctx, run int) runOut {
	return runOut{Run: run, Seed: c.Seed, Hash: c.hash, Sched: c.scheduleH, Viol: c.viol, Steps: c.steps, Switches: c.switches}
}

func fullOut(c *Ctx, run int) runOut {
	o := outOf(c, run)
	o.Choices, o.Traces, o.Desc = c.choices, c.traces, c.desc
	return o
}

func main() {
	var (
		prop    = flag.String("prop", "", "property")
		seed    = flag.Uint64("seed", 1, "base seed")
		stripe  = flag.Int("stripe", 0, "first run index")
		of      = flag.Int("of", 1, "run index stride")
		secs    = flag.Float64("secs", 10, "time budget")
		maxRuns = flag.Int("maxruns", 1<<30, "run budget")
		tier    = flag.String("tier", "quick", "tier")
		cont    = flag.Bool("continue", false, "keep going after a violation")
		one     = flag.Uint64("one", 0, "execute the run with this run seed")
		replay  = flag.String("replay", "", "execute a replay request file (- for stdin stream)")
		dump    = flag.Bool("dump-methods", false, "print the methods of the actors")
		genA    = flag.Bool("gen-alias", false, "print the aliasing table")
		knownF  = flag.String("known", "", "file with known violation classes")
		list    = flag.Bool("list", false, "list properties")
		verbose = flag.Bool("v", false, "print run descriptions")
	)
	flag.Parse()
	defer watchRaces()()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(2 << 30)
	runtime.GOMAXPROCS(2)
	enc := json.NewEncoder(os.Stdout)
	switch {
	case *list:
		var l []string
		for k := range properties {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(l)
		return
	case *dump:
		dumpMethods()
		return
	case *genA:
		genAlias()
		return
	}
	if *replay != "" {
		serveReplays(*replay, enc)
		return
	}
	p := properties[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *one != 0 {
		c := newCtx(p.id, *one)
		c.Tier = *tier
		runScenario(p, c)
		o := fullOut(c, 0)
		if !*verbose {
			o.Traces = nil
		}
		enc.Encode(o)
		return
	}
	known := map[string]bool{}
	if *knownF != "" {
		var l []string
		b, err := os.ReadFile(*knownF)
		if err == nil {
			err = json.Unmarshal(b, &l)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, k := range l {
			known[k] = true
		}
	}
	s := &summary{Prop: p.id, Pure: p.pure, Known: map[string]int{}, Faults: map[string]int{}, Counts: map[string]int{}, Strategies: map[string]int{}}
	scheds, covers, outs := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	start := time.Now()
	var prelude []uint64
	for r := *stripe; s.Runs < *maxRuns && time.Since(start).Seconds() < *secs; r += *of {
		c := newCtx(p.id, runSeed(*seed, p.id, r))
		c.Tier = *tier
		fmt.Fprintln(os.Stderr, "@run", r, c.Seed)
		runScenario(p, c)
		s.Runs++
		if c.nontrivial {
			s.Nontrivial++
			if len(s.Samples) < 3 {
				s.Samples = append(s.Samples, c.desc)
			}
		}
		for k, v := range c.faults {
			s.Faults[k] += v
		}
		for k, v := range c.counts {
			s.Counts[k] += v
		}
		for k, v := range c.strategies {
			s.Strategies[k] += v
		}
		s.Steps += c.steps
		s.Switches += c.switches
		s.Spawned += c.spawned
		s.SimNanos += c.simtime
		if len(scheds) < 200000 && c.switches > 0 {
			scheds[c.scheduleH] = struct{}{}
		}
		if len(outs) < 200000 {
			outs[c.hash] = struct{}{}
		}
		if len(covers) < 200000 {
			for k := range c.covers {
				covers[k] = struct{}{}
			}
		}
		if len(c.faults) > 0 {
			s.FaultRuns++
		}
		if c.viol != nil && known[c.viol.Class] {
			s.Known[c.viol.Class]++
		} else if c.viol != nil {
			o := fullOut(c, r)
			o.Prelude = append([]uint64(nil), prelude...)
			s.Violations = append(s.Violations, o)
			if !*cont || len(s.Violations) > 20 {
				break
			}
		} else if s.Runs <= 2 || (s.Runs%25 == 0 && len(s.Logged) < 12) {
			s.Logged = append(s.Logged, outOf(c, r))
			d := newCtx(p.id, c.Seed)
			d.Tier = *tier
			runScenario(p, d)
			s.Rechecked++
			if d.hash != c.hash || d.viol != nil {
				s.RecheckDiff++
				if p.pure && d.viol == nil {
					o := fullOut(d, r)
					o.Viol = &violation{"nondeterministic", "the same run gave a different outcome the second time in the same process: results depend on what else ran before"}
					o.Prelude = append(append([]uint64(nil), prelude...), c.Seed)
					s.Violations = append(s.Violations, o)
					if !*cont {
						break
					}
				}
			}
			if d.scheduleH != c.scheduleH {
				s.SchedDiff++
			}
		}
		if len(prelude) < 100000 {
			prelude = append(prelude, c.Seed)
		}
		if *verbose {
			fmt.Fprintf(os.Stderr, "run %d: steps %d switches %d faults %v viol %v\n", r, c.steps, c.switches, c.faults, c.viol)
			for _, l := range c.desc {
				fmt.Fprintln(os.Stderr, "   ", l)
			}
		}
	}
	for k := range scheds {
		s.Scheds = append(s.Scheds, k)
	}
	for k := range covers {
		s.Covers = append(s.Covers, k)
	}
	for k := range outs {
		s.Outcomes = append(s.Outcomes, k)
	}
	s.WallS = time.Since(start).Seconds()
	enc.Encode(s)
}

// replayReq asks for one execution.
type replayReq struct {
	Prop    string           `json:"prop"`
	Seed    uint64           `json:"seed"`
	Tier    string           `json:"tier"`
	Choices []uint32         `json:"choices"`
	Free    bool             `json:"free"` // draw choices from the seed
	Sched   [][]simrt.Switch `json:"sched"`
	UseSch  bool             `json:"use_sched"`
	Prelude []uint64         `json:"prelude"`
	Trace   bool             `json:"trace"`
}

// serveReplays executes requests, one JSON object per line, answering in kind.
func serveReplays(path string, enc *json.Encoder) {
	f := os.Stdin
	if path != "-" {
		var err error
		if f, err = os.Open(path); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	dec := json.NewDecoder(f)
	for {
		var q replayReq
		if err := dec.Decode(&q); err != nil {
			return
		}
		p := properties[q.Prop]
		if p == nil {
			os.Exit(2)
		}
		for _, s := range q.Prelude {
			c := newCtx(p.id, s)
			c.Tier = q.Tier
			runScenario(p, c)
		}
		c := newCtx(p.id, q.Seed)
		c.Tier = q.Tier
		c.replay, c.tape = !q.Free, q.Choices
		c.scheds, c.useScheds = q.Sched, q.UseSch
		runScenario(p, c)
		o := fullOut(c, 0)
		if !q.Trace {
			o.Traces = nil
		}
		enc.Encode(o)
	}
}
