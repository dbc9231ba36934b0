package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// sw is one recorded scheduling decision.
type sw struct {
	At     int64 `json:"at"`
	To     int   `json:"to"`
	Forced bool  `json:"forced,omitempty"`
}

type violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// runOut is what a worker reports about one run.
type runOut struct {
	Run     int        `json:"run"`
	Seed    uint64     `json:"seed"`
	Hash    uint64     `json:"hash"`
	Sched   uint64     `json:"sched"`
	Viol    *violation `json:"violation,omitempty"`
	Choices []uint32   `json:"choices,omitempty"`
	Traces  [][]sw     `json:"traces,omitempty"`
	Desc    []string   `json:"desc,omitempty"`
	Prelude []uint64   `json:"prelude,omitempty"`
	Steps   int64      `json:"steps"`
}

type summary struct {
	Prop        string         `json:"prop"`
	Pure        bool           `json:"pure"`
	Runs        int            `json:"runs"`
	Nontrivial  int            `json:"nontrivial"`
	Faults      map[string]int `json:"faults"`
	FaultRuns   int            `json:"fault_runs"`
	Counts      map[string]int `json:"counts"`
	Strategies  map[string]int `json:"strategies"`
	Known       map[string]int `json:"known"`
	Steps       int64          `json:"steps"`
	Switches    int64          `json:"switches"`
	Spawned     int            `json:"spawned"`
	SimNanos    int64          `json:"sim_nanos"`
	Scheds      []uint64       `json:"scheds"`
	Covers      []uint64       `json:"covers"`
	Outcomes    []uint64       `json:"outcomes"`
	Rechecked   int            `json:"rechecked"`
	RecheckDiff int            `json:"recheck_diff"`
	SchedDiff   int            `json:"sched_diff"`
	Logged      []runOut       `json:"logged"`
	Samples     [][]string     `json:"samples"`
	Violations  []runOut       `json:"violations"`
	WallS       float64        `json:"wall_s"`
}

// replayReq asks a worker for one execution.
type replayReq struct {
	Prop    string   `json:"prop"`
	Seed    uint64   `json:"seed"`
	Tier    string   `json:"tier"`
	Choices []uint32 `json:"choices"`
	Free    bool     `json:"free"`
	Sched   [][]sw   `json:"sched"`
	UseSch  bool     `json:"use_sched"`
	Prelude []uint64 `json:"prelude"`
	Trace   bool     `json:"trace"`
}

// replayFile is the stored form of a violation.
type replayFile struct {
	Property string    `json:"property"`
	Class    string    `json:"class"`
	Message  string    `json:"message"`
	Variant  string    `json:"variant"`
	VerifSd  int       `json:"verif_seed"`
	Run      int       `json:"run"`
	What     []string  `json:"what_the_run_does"`
	Minimise string    `json:"minimisation"`
	Request  replayReq `json:"request"`
	Alone    uint64    `json:"alone_hash,omitempty"`
	After    uint64    `json:"after_prelude_hash,omitempty"`
}

const workers = 8

type env struct {
	repo, verif, scratch string
	builds               []built
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check: error: "+format+"\n", a...)
	panic(exitCode(3))
}

type exitCode int

func prepare(repo, verif string) *env {
	base := os.Getenv("TMPDIR")
	if base == "" {
		base = "/tmp"
	}
	d, err := os.MkdirTemp(base, "tfhe-sim-")
	if err != nil {
		fatal("%v", err)
	}
	return &env{repo: repo, verif: verif, scratch: d}
}

// raceProps are the properties whose checks also run the build watched by the
// race detector (see harness/races.go).
var raceProps = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "K01": true, "K02": true}

func (e *env) build(race bool) {
	b, err := buildAll(e.repo, e.verif, e.scratch, race)
	if err != nil {
		fatal("cannot build the simulated system: %v", err)
	}
	e.builds = b
	for i := range b { // sources are no longer needed
		if m, _ := filepath.Glob(filepath.Join(filepath.Dir(b[i].bin), "src*")); m != nil {
			for _, d := range m {
				os.RemoveAll(d)
			}
		}
	}
}

func raceNote(prop string) string {
	if raceProps[prop] {
		return ", portable variant watched by the race detector of the Go toolchain"
	}
	return ""
}

func (e *env) bin(variant string) string {
	for _, b := range e.builds {
		if b.name == variant {
			return b.bin
		}
	}
	fatal("no variant %q", variant)
	return ""
}

// workerCmd prepares a worker process without any state of ours in its environment.
func workerCmd(bin string, args ...string) *exec.Cmd {
	c := exec.Command(bin, args...)
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GOTRACEBACK=all", "GOGC=200", "TMPDIR=" + filepath.Dir(bin)}
	return c
}

// server is a worker that executes replay requests.
type server struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
	err bytes.Buffer
}

func startServer(bin string) *server {
	s := &server{cmd: workerCmd(bin, "-replay", "-")}
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		fatal("%v", err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("%v", err)
	}
	s.cmd.Stderr = &s.err
	if err := s.cmd.Start(); err != nil {
		fatal("%v", err)
	}
	s.out = json.NewDecoder(bufio.NewReaderSize(o, 1<<20))
	return s
}

func (s *server) ask(q replayReq, limit time.Duration) (runOut, error) {
	var o runOut
	b, _ := json.Marshal(q)
	if _, err := s.in.Write(append(b, '\n')); err != nil {
		return o, err
	}
	t := time.AfterFunc(limit, func() { s.cmd.Process.Kill() })
	err := s.out.Decode(&o)
	t.Stop()
	return o, err
}

func (s *server) stop() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// fresh executes one request in a new process.
func fresh(bin string, q replayReq) (runOut, error) {
	s := startServer(bin)
	defer s.stop()
	return s.ask(q, 300*time.Second)
}

type batch struct {
	variant string
	stripe  int
	sum     summary
	err     error
	stderr  string
}

// explore runs the seeded search on all workers.
func (e *env) explore(prop, tier string, seed uint64, secs float64, maxRuns int, known []string) []*batch {
	kf := filepath.Join(e.scratch, "known.json")
	kb, _ := json.Marshal(known)
	os.WriteFile(kf, kb, 0o644)
	var bs []*batch
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		v := e.builds[0]
		switch {
		case len(e.builds) == 2 && i%3 == 2:
			v = e.builds[1]
		case len(e.builds) == 3 && i%3 != 0: // 0, 3, 6: assembly; 1, 4, 7: portable; 2, 5: race
			v = e.builds[i%3]
		}
		b := &batch{variant: v.name, stripe: i}
		bs = append(bs, b)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := workerCmd(v.bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-stripe", fmt.Sprint(b.stripe), "-of", fmt.Sprint(workers),
				"-secs", fmt.Sprint(secs), "-maxruns", fmt.Sprint(maxRuns), "-tier", tier, "-known", kf)
			var so, se bytes.Buffer
			c.Stdout, c.Stderr = &so, &se
			if b.err = c.Start(); b.err != nil {
				return
			}
			t := time.AfterFunc(time.Duration(secs*float64(time.Second))+240*time.Second, func() { c.Process.Kill() })
			b.err = c.Wait()
			t.Stop()
			b.stderr = se.String()
			if b.err == nil {
				b.err = json.Unmarshal(so.Bytes(), &b.sum)
			}
		}()
	}
	wg.Wait()
	return bs
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

type knownEntry struct {
	prop, class, what string
	fixed             bool
}

// readKnown reads the known-findings file: "KNOWN-FINDING: property=<id> class=<class> <what>"
// and "fixed: property=<id> <commit> <what>" lines. Fixed entries suppress nothing.
func readKnown(path string) (l []knownEntry) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, s := range strings.Split(string(b), "\n") {
		s = strings.TrimSpace(s)
		if !strings.HasPrefix(s, "KNOWN-FINDING:") {
			continue
		}
		f := strings.Fields(strings.TrimPrefix(s, "KNOWN-FINDING:"))
		if len(f) < 2 {
			continue
		}
		l = append(l, knownEntry{prop: strings.TrimPrefix(f[0], "property="), class: strings.TrimPrefix(f[1], "class="), what: strings.Join(f[2:], " ")})
	}
	return l
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "", "")
	seedF := fs.Int("seed", -1, "")
	secs := fs.Float64("secs", 0, "")
	maxRuns := fs.Int("maxruns", 1<<30, "")
	replay := fs.String("replay", "", "")
	fs.Parse(args)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := *seedF
	if seed < 0 {
		seed = 1
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if v, err := strconv.Atoi(s); err == nil {
				seed = v
			}
		}
	}
	if *secs == 0 {
		*secs = 50
		if *tier == "thorough" {
			*secs = 540
		}
	}
	code := 3
	func() {
		e := prepare(*repo, *verif)
		defer func() {
			os.RemoveAll(e.scratch)
			if r := recover(); r != nil {
				if c, ok := r.(exitCode); ok {
					code = int(c)
					return
				}
				panic(r)
			}
		}()
		start := time.Now()
		e.build(*replay != "" || raceProps[*prop])
		if *replay != "" {
			code = e.replayCmd(*replay)
			return
		}
		code = e.check(*prop, *tier, seed, *secs, *maxRuns, start)
	}()
	os.Exit(code)
}

func (e *env) check(prop, tier string, seed int, secs float64, maxRuns int, start time.Time) int {
	buildS := time.Since(start).Seconds()
	fmt.Printf("property %s tier %s VERIF_SEED %d (build %.1fs: %s)\n", prop, tier, seed, buildS, e.buildNote())
	var known []knownEntry
	var classes []string
	for _, k := range readKnown(filepath.Join(e.verif, "known-findings.txt")) {
		if k.prop == prop {
			known = append(known, k)
			classes = append(classes, k.class)
		}
	}
	bs := e.explore(prop, tier, uint64(seed), secs, maxRuns, classes)
	var t summary
	t.Faults, t.Counts, t.Strategies, t.Known = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	scheds, covers, outs := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	var viols []*batch
	perVariant := map[string]int{}
	for _, b := range bs {
		if b.err != nil {
			if code := e.crashed(prop, tier, seed, b); code != 0 {
				return code
			}
			fatal("worker %d (%s) failed: %v\n%s", b.stripe, b.variant, b.err, tail(b.stderr, 3000))
		}
		s := &b.sum
		t.Pure = s.Pure
		t.Runs += s.Runs
		perVariant[b.variant] += s.Runs
		t.Nontrivial += s.Nontrivial
		t.FaultRuns += s.FaultRuns
		t.Steps += s.Steps
		t.Switches += s.Switches
		t.SimNanos += s.SimNanos
		t.Spawned += s.Spawned
		t.Rechecked += s.Rechecked
		t.RecheckDiff += s.RecheckDiff
		t.SchedDiff += s.SchedDiff
		addTo(t.Faults, s.Faults)
		addTo(t.Counts, s.Counts)
		addTo(t.Strategies, s.Strategies)
		addTo(t.Known, s.Known)
		for _, x := range s.Scheds {
			scheds[x] = true
		}
		for _, x := range s.Covers {
			covers[x] = true
		}
		for _, x := range s.Outcomes {
			outs[x] = true
		}
		if len(t.Samples) < 4 {
			t.Samples = append(t.Samples, s.Samples...)
		}
		if len(s.Violations) > 0 {
			viols = append(viols, b)
		}
	}
	exploreS := time.Since(start).Seconds() - buildS
	// determinism across processes
	freshN, freshDiff := 0, 0
	var diverged *batch
	var divergedRun runOut
	if len(viols) == 0 {
		var mu sync.Mutex
		var wg sync.WaitGroup
		for _, b := range bs {
			b := b
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, l := range b.sum.Logged {
					if i >= 3 && tier == "quick" {
						break
					}
					o, err := fresh(e.bin(b.variant), replayReq{Prop: prop, Seed: l.Seed, Tier: tier, Free: true})
					mu.Lock()
					freshN++
					if err != nil || o.Hash != l.Hash || o.Sched != l.Sched {
						freshDiff++
						if err == nil && o.Hash != l.Hash && diverged == nil {
							diverged, divergedRun = b, l
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
	}
	nviol := 0
	for _, b := range viols {
		nviol += len(b.sum.Violations)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"violations": nviol,
		"wall_s":     time.Since(start).Seconds(),
		"coverage": map[string]any{
			"evaluations":         t.Runs,
			"distinct_nontrivial": min(t.Nontrivial, len(outs)),
			"rule":                ruleOf(prop),
			"samples":             t.Samples,
			"simulated_runs":      t.Runs,
			"runs_per_hour":       int(float64(t.Runs) / exploreS * 3600),
			"runs_per_variant":    perVariant,
			"simulated_seconds":   float64(t.SimNanos) / 1e9,
			"scheduler_steps":     t.Steps,
			"context_switches":    t.Switches,
			"goroutines_spawned":  t.Spawned,
			"distinct_schedules":  len(scheds),
			"distinct_states":     len(covers),
			"states_measure":      stateMeasure(prop),
			"distinct_outcomes":   len(outs),
			"runs_with_faults":    t.FaultRuns,
			"fault_free_runs":     t.Runs - t.FaultRuns,
			"faults_fired":        t.Faults,
			"events":              t.Counts,
			"strategies":          t.Strategies,
			"determinism": map[string]any{
				"reruns_in_process": t.Rechecked, "different_outcome": t.RecheckDiff, "different_schedule": t.SchedDiff,
				"reruns_in_fresh_process": freshN, "fresh_process_differences": freshDiff,
			},
			"build":               e.buildNote(),
			"instrumentation":     e.counts(),
			"real_components":     "all of math/{num,vec,poly,csprng}, tfhe, mktfhe, xtfhe compiled from /repo's working tree; assembly variant, portable variant" + raceNote(prop),
			"stubbed_components":  stubsOf(prop),
			"known_findings_seen": t.Known,
		},
		"assumptions": []string{
			"interleavings are explored at instrumented points (statements with shared effects, sync, channel and goroutine operations) under sequential consistency; weak-memory effects are not simulated",
			"assembly routines execute atomically; the portable variant, which interleaves inside them, is explored as well",
			"parameters are small (degree <= 128) with noise small enough that a correct result never fails by chance beyond 2^-40 per comparison",
		},
	}
	writeEv := func() {
		ev["wall_s"] = time.Since(start).Seconds()
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(e.verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)\n", prop, k.what, k.class, t.Known[k.class])
	}
	fmt.Printf("%d runs (%d non-trivial, %d with faults), %d schedules, %d states, %d context switches; reruns %d, differing %d; fresh-process reruns %d, differing %d\n",
		t.Runs, t.Nontrivial, t.FaultRuns, len(scheds), len(covers), t.Switches, t.Rechecked, t.RecheckDiff, freshN, freshDiff)
	if len(viols) == 0 && diverged != nil && t.Pure {
		return e.reportDiverged(prop, tier, seed, diverged, divergedRun, ev, writeEv)
	}
	if len(viols) == 0 {
		if t.Runs == 0 || t.Nontrivial == 0 {
			fatal("no non-trivial run was executed")
		}
		writeEv()
		return 0
	}
	// report the violation with the lowest run index
	sort.Slice(viols, func(i, j int) bool { return viols[i].sum.Violations[0].Run < viols[j].sum.Violations[0].Run })
	var lastErr string
	for _, b := range viols {
		v := b.sum.Violations[0]
		if v.Viol.Class == "nondeterministic" {
			if code := e.reportDiverged(prop, tier, seed, b, runOut{Seed: v.Seed, Run: v.Run, Prelude: v.Prelude}, ev, writeEv); code == 1 {
				return 1
			}
			continue
		}
		rf, err := e.minimise(prop, tier, seed, b.variant, v)
		if err != nil {
			lastErr = fmt.Sprintf("run %d (seed %d, %s) reported %s: %s\n  but %v", v.Run, v.Seed, b.variant, v.Viol.Class, v.Viol.Msg, err)
			continue
		}
		writeEv()
		e.report(rf)
		return 1
	}
	fatal("a violation was seen but could not be reproduced: %s", lastErr)
	return 3
}

func addTo(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (e *env) report(rf *replayFile) {
	dir := filepath.Join(e.verif, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", rf.Property, rf.VerifSd, rf.Run))
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("violation: %s\n  %s\n  variant %s, run %d, run seed %d; %s\n", rf.Class, rf.Message, rf.Variant, rf.Run, rf.Request.Seed, rf.Minimise)
	for _, l := range rf.What {
		fmt.Println("  |", l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
}

// reportDiverged handles runs whose outcome depends on what the process did before.
func (e *env) reportDiverged(prop, tier string, seed int, b *batch, l runOut, ev map[string]any, writeEv func()) int {
	bin := e.bin(b.variant)
	prel := l.Prelude
	if prel == nil {
		// the runs the worker had executed before
		for r := b.stripe; r < l.Run; r += workers {
			prel = append(prel, deriveSeed(uint64(seed), prop, r))
		}
	}
	q := replayReq{Prop: prop, Seed: l.Seed, Tier: tier, Free: true}
	alone, err1 := fresh(bin, q)
	alone2, err2 := fresh(bin, q)
	q.Prelude = prel
	after, err3 := fresh(bin, q)
	after2, err4 := fresh(bin, q)
	if err1 != nil || err2 != nil || err3 != nil || err4 != nil || alone.Hash != alone2.Hash || after.Hash != after2.Hash || alone.Hash == after.Hash {
		fatal("outcomes differ between processes but not reproducibly (run seed %d)", l.Seed)
	}
	end := time.Now().Add(60 * time.Second)
	for n := len(q.Prelude) / 2; n >= 1 && time.Now().Before(end); {
		done := true
		for i := 0; i+n <= len(q.Prelude) && time.Now().Before(end); {
			r := q
			r.Prelude = append(append([]uint64(nil), q.Prelude[:i]...), q.Prelude[i+n:]...)
			if o, err := fresh(bin, r); err == nil && o.Hash != alone.Hash {
				q, done = r, false
				after = o
			} else {
				i += n
			}
		}
		if done || n == 1 {
			n /= 2
		}
	}
	rf := &replayFile{Property: prop, Class: "history-dependent", Variant: b.variant, VerifSd: seed, Run: l.Run, Request: q, Alone: alone.Hash, After: after.Hash, What: alone.Desc,
		Message:  fmt.Sprintf("the same operations on the same inputs with the same randomness give different results after %d unrelated earlier runs in the same process", len(q.Prelude)),
		Minimise: fmt.Sprintf("%d earlier runs needed", len(q.Prelude))}
	ev["violations"] = 1
	writeEv()
	e.report(rf)
	return 1
}

// crashed handles a worker that died: a crash of the code under test that
// happens again in a fresh process is a violation.
func (e *env) crashed(prop, tier string, seed int, b *batch) int {
	cur := ""
	for _, l := range strings.Split(b.stderr, "\n") {
		if strings.HasPrefix(l, "@run ") {
			cur = strings.TrimPrefix(l, "@run ")
		}
	}
	crash := ""
	for _, k := range []string{"stack overflow", "unexpected fault address", "SIGSEGV", "concurrent map", "found bad pointer", "found pointer to free object"} {
		if strings.Contains(b.stderr, k) {
			crash = k
		}
	}
	if crash == "" || cur == "" {
		return 0
	}
	var run int
	var rs uint64
	fmt.Sscan(cur, &run, &rs)
	q := replayReq{Prop: prop, Seed: rs, Tier: tier, Free: true}
	for i := 0; i < 2; i++ {
		s := startServer(e.bin(b.variant))
		_, err := s.ask(q, 120*time.Second)
		s.cmd.Wait()
		if err == nil || !strings.Contains(s.err.String(), crash) {
			return 0
		}
	}
	e.report(&replayFile{Property: prop, Class: "crash:" + crash, Variant: b.variant, VerifSd: seed, Run: run, Request: q,
		Message: "the process dies: " + crash, Minimise: "not minimised"})
	return 1
}

// minimise confirms a violation in a fresh process and shrinks it.
func (e *env) minimise(prop, tier string, seed int, variant string, v runOut) (*replayFile, error) {
	bin := e.bin(variant)
	class := v.Viol.Class
	q := replayReq{Prop: prop, Seed: v.Seed, Tier: tier, Choices: v.Choices, Trace: true}
	same := func(o runOut, err error) bool { return err == nil && o.Viol != nil && o.Viol.Class == class }
	best, err := fresh(bin, q)
	needFresh := false
	if !same(best, err) {
		// try with the runs before it
		q.Prelude = v.Prelude
		best, err = fresh(bin, q)
		if !same(best, err) {
			if err == nil && best.Viol != nil {
				return nil, fmt.Errorf("in a fresh process it is %s", best.Viol.Class)
			}
			return nil, fmt.Errorf("it does not happen in a fresh process")
		}
		needFresh = true
	}
	var srv *server
	end := time.Now().Add(75 * time.Second)
	tries := 0
	try := func(r replayReq) (runOut, bool) {
		tries++
		if needFresh {
			o, err := fresh(bin, r)
			return o, same(o, err)
		}
		if srv == nil {
			srv = startServer(bin)
		}
		o, err := srv.ask(r, 60*time.Second)
		if err != nil {
			srv.stop()
			srv = nil
		}
		return o, same(o, err)
	}
	if needFresh {
		for n := (len(q.Prelude) + 1) / 2; n >= 1 && time.Now().Before(end); n /= 2 {
			for i := 0; i+n <= len(q.Prelude) && time.Now().Before(end); {
				r := q
				r.Prelude = append(append([]uint64(nil), q.Prelude[:i]...), q.Prelude[i+n:]...)
				if o, ok := try(r); ok {
					q, best = r, o
				} else {
					i += n
				}
			}
		}
	}
	// choices
	q.Choices = trimZeros(best.Choices)
	n0, sw0 := len(v.Choices), countSw(best.Traces)
	for pass := 0; pass < 4 && time.Now().Before(end); pass++ {
		changed := false
		for n := len(q.Choices); n >= 1 && time.Now().Before(end); n /= 2 {
			for i := 0; i < len(q.Choices) && time.Now().Before(end); i += n {
				for mode := 0; mode < 3; mode++ {
					j := min(i+n, len(q.Choices))
					if i >= j {
						break
					}
					c := append([]uint32(nil), q.Choices...)
					switch mode {
					case 0: // remove
						c = append(c[:i], c[j:]...)
					case 1: // zero
						all := true
						for k := i; k < j; k++ {
							all = all && c[k] == 0
							c[k] = 0
						}
						if all {
							continue
						}
					case 2: // reduce a single value
						if n != 1 || c[i] < 2 {
							continue
						}
						c[i] /= 2
					}
					r := q
					r.Choices = trimZeros(c)
					if o, ok := try(r); ok && len(trimZeros(o.Choices)) <= len(q.Choices) {
						q.Choices, best = trimZeros(o.Choices), o
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	// schedule
	q2 := q
	q2.UseSch, q2.Sched = true, best.Traces
	if o, ok := try(q2); ok {
		q, best = q2, o
		for s := range q.Sched {
			for n := (len(q.Sched[s]) + 1) / 2; n >= 1 && time.Now().Before(end); n /= 2 {
				for i := 0; i < len(q.Sched[s]) && time.Now().Before(end); {
					j := min(i+n, len(q.Sched[s]))
					r := q
					r.Sched = append([][]sw(nil), q.Sched...)
					r.Sched[s] = append(append([]sw(nil), q.Sched[s][:i]...), q.Sched[s][j:]...)
					if o, ok := try(r); ok {
						q, best = r, o
					} else {
						i = j
					}
				}
			}
		}
	}
	if srv != nil {
		srv.stop()
	}
	// the stored file must reproduce in a fresh process
	o, err := fresh(bin, q)
	if !same(o, err) {
		q = replayReq{Prop: prop, Seed: v.Seed, Tier: tier, Choices: v.Choices, Prelude: q.Prelude}
		if !needFresh {
			q.Prelude = nil
		}
		o, err = fresh(bin, q)
		if !same(o, err) {
			return nil, fmt.Errorf("it is not stable under replay")
		}
	}
	q.Trace = false
	return &replayFile{Property: prop, Class: class, Message: o.Viol.Msg, Variant: variant, VerifSd: seed, Run: v.Run, What: o.Desc, Request: q,
		Minimise: fmt.Sprintf("minimised from %d to %d choices and from %d to %d scheduling decisions in %d trial runs", n0, len(q.Choices), sw0, countSw(q.Sched), tries)}, nil
}

func countSw(t [][]sw) (n int) {
	for _, x := range t {
		n += len(x)
	}
	return
}

func trimZeros(c []uint32) []uint32 {
	c = append([]uint32(nil), c...)
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

func (e *env) replayCmd(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal("%v", err)
	}
	bin := e.bin(rf.Variant)
	if strings.HasPrefix(rf.Class, "crash:") {
		s := startServer(bin)
		_, err := s.ask(rf.Request, 120*time.Second)
		s.cmd.Wait()
		if err != nil && strings.Contains(s.err.String(), strings.TrimPrefix(rf.Class, "crash:")) {
			fmt.Printf("reproduced: %s\nVIOLATION property=%s replay=%s\n", rf.Class, rf.Property, path)
			return 1
		}
		fmt.Println("not reproduced: the run completes")
		return 0
	}
	o, err := fresh(bin, rf.Request)
	if err != nil {
		fatal("replay failed: %v", err)
	}
	if rf.Class == "history-dependent" {
		q := rf.Request
		q.Prelude = nil
		a, err := fresh(bin, q)
		if err != nil {
			fatal("replay failed: %v", err)
		}
		if a.Hash != o.Hash {
			fmt.Printf("reproduced: outcome %x alone, %x after %d other runs\nVIOLATION property=%s replay=%s\n", a.Hash, o.Hash, len(rf.Request.Prelude), rf.Property, path)
			return 1
		}
		fmt.Println("not reproduced: both outcomes are equal")
		return 0
	}
	for _, l := range o.Desc {
		fmt.Println("  |", l)
	}
	if o.Viol == nil {
		fmt.Println("not reproduced: the run is clean")
		return 0
	}
	if o.Viol.Class != rf.Class {
		fmt.Printf("a different violation: %s (expected %s)\n", o.Viol.Class, rf.Class)
	}
	fmt.Printf("reproduced: %s\n  %s\nVIOLATION property=%s replay=%s\n", o.Viol.Class, o.Viol.Msg, rf.Property, path)
	return 1
}

func (e *env) buildNote() string {
	var l []string
	for _, b := range e.builds {
		s := fmt.Sprintf("%s level %d", b.name, b.level)
		if b.note != "" {
			s += " (" + tail(b.note, 200) + ")"
		}
		l = append(l, s)
	}
	return strings.Join(l, ", ")
}

func (e *env) counts() map[string]any {
	m := map[string]any{}
	for _, b := range e.builds {
		m[b.name] = b.counts
	}
	return m
}

// deriveSeed mirrors the worker's derivation of run seeds.
func deriveSeed(base uint64, prop string, run int) uint64 {
	mix1 := func(z uint64) uint64 {
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		return z ^ (z >> 31)
	}
	h := base
	for i := 0; i < len(prop); i++ {
		h = mix1(h ^ uint64(prop[i])*0x100000001b3)
	}
	m := uint64(0x9e3779b97f4a7c15)
	for _, v := range []uint64{h, uint64(run), 0x5eed} {
		m ^= v + 0x9e3779b97f4a7c15 + (m << 6) + (m >> 2)
		m = mix1(m)
	}
	return m
}
