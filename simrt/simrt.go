//go:build go1.22

// Package simrt is the deterministic runtime underneath an instrumented copy of
// tfhe-go. Exactly one simulated goroutine runs at any moment; every place where
// a real execution could be interleaved is a call to Yield, a channel or a sync
// operation, and a seeded scheduler decides who runs next. The package also owns
// the other sources of nondeterminism the code has: entropy, the number of CPUs,
// map iteration order and the clock.
package simrt

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// seeded PRNG (splitmix64)

// Rng is a small deterministic generator.
type Rng struct{ s uint64 }

// NewRng returns a generator for the seed.
func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

// Mix folds values into one seed.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x9e3779b97f4a7c15)
	for _, v := range vs {
		h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		h = mix1(h)
	}
	return h
}

// MixString folds a string into a seed.
func MixString(seed uint64, s string) uint64 {
	h := seed
	for i := 0; i < len(s); i++ {
		h = mix1(h ^ uint64(s[i])*0x100000001b3)
	}
	return h
}

func mix1(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Uint64 returns the next value.
func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix1(r.s)
}

// Intn returns a value in [0, n).
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Fill fills b.
func (r *Rng) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := r.Uint64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// ---------------------------------------------------------------------------
// scheduler

// Strategy names how a run picks who runs next.
type Strategy int

const (
	// StratSequential never preempts.
	StratSequential Strategy = iota
	// StratRandom preempts at random intervals and picks uniformly.
	StratRandom
	// StratPCT uses random priorities with a few priority change points.
	StratPCT
	// StratRoundRobin gives everyone the same quantum.
	StratRoundRobin
	// StratStall is StratRandom with one goroutine stalled for long stretches.
	StratStall
	// StratFew makes only a handful of preemptions, at random places.
	StratFew
	// StratHot preempts only inside a few functions drawn at random, shortly
	// after they are entered, so that several goroutines meet inside them.
	StratHot
	// StratReplay follows a recorded schedule.
	StratReplay
	// NumStrategies counts the seeded strategies (without replay).
	NumStrategies = int(StratReplay)
)

// StrategyNames names the strategies for evidence.
var StrategyNames = []string{"sequential", "random", "pct", "round-robin", "stall", "few-preemptions", "hot-functions", "replay"}

// Switch is one recorded scheduling decision.
type Switch struct {
	// At is the yield count at which the decision was made, or the ordinal of
	// the blocking decision when Forced.
	At     int64 `json:"at"`
	To     int   `json:"to"`
	Forced bool  `json:"forced,omitempty"`
}

// Config configures one simulated run.
type Config struct {
	Seed     uint64
	Strategy Strategy
	// Interval is the mean number of yields between preemptions.
	Interval int64
	// EstSteps is the expected length of the run, used to place change points.
	EstSteps int64
	// Depth is the number of change points or preemptions.
	Depth int
	// MaxSteps bounds the run; exceeding it counts as a lack of progress.
	MaxSteps int64
	// NumCPU is what the code under test sees as the machine size.
	NumCPU int
	// Replay is the schedule to follow with StratReplay.
	Replay []Switch
	// Record keeps the schedule in Result.Trace.
	Record bool
}

// Result is what a run did.
type Result struct {
	Panicked    bool
	PanicValue  string
	PanicStack  string
	PanicInRoot bool
	Deadlock    bool
	StepLimit   bool
	Blocked     []string
	// Leaked counts goroutines still blocked after the root returned and every
	// runnable goroutine ran to completion.
	Leaked    int
	Steps     int64
	Switches  int64
	Spawned   int
	MaxLive   int
	ChanOps   int64
	Trace     []Switch
	LogHash   uint64
	SchedHash uint64
	SimTime   int64 // simulated nanoseconds
	// Kills counts crashed goroutines.
	Kills int
}

type gstate int

const (
	gRunnable gstate = iota
	gBlocked
	gSleeping
	gDone
)

type g struct {
	id      int
	wake    chan struct{}
	hand    int // where the thread that wakes this one tells the race detector
	state   gstate
	reason  string
	prio    int
	until   int64
	killed  bool
	exiting bool
	gone    chan struct{}
	node    int
	inq     bool // a sleeper that also waits in a queue
	locks   int  // locks held
}

type sched struct {
	cfg      Config
	rng      *Rng
	gs       []*g
	cur      *g
	live     int
	step     int64 // yields consumed before the current countdown
	granted  int64 // size of the current countdown
	forcedN  int64
	res      Result
	done     chan struct{}
	ended    int // what finished threads did, for the race detector
	finished bool
	now      int64
	changeAt []int64
	nextPrio int
	replayP  int
	replayF  map[int64]int
	replayS  []Switch
	stallID  int
	stallTil int64
	last     *g
	drawN    int
	nextID   int
	sweepAt  int
	hotSpan  int
	hotLeft  int
}

// NanosPerStep is the simulated time one step takes.
const NanosPerStep = 50

var (
	countdown int64 = math.MaxInt64
	active    *sched
	cleaning  bool
)

// Yield is a preemption point.
func Yield() {
	countdown--
	if countdown < 0 {
		yieldSlow()
	}
}

// hotFuncs marks the functions StratHot preempts in, by number.
var (
	hotOn    bool
	hotFuncs [1 << 12]bool
)

// Enter is the preemption point at the beginning of a function.
func Enter(id uint) {
	if hotOn && hotFuncs[id%uint(len(hotFuncs))] {
		hotEnter()
	}
	Yield()
}

//go:noinline
func hotEnter() {
	s := active
	if s == nil || s.hotLeft <= 0 || s.rng.Uint64()&1 == 0 {
		return
	}
	s.hotLeft--
	n := 1 + int64(s.rng.Uint64()%uint64(s.hotSpan))
	if countdown < n {
		return
	}
	s.step += s.granted - 1 - countdown
	s.granted = n
	countdown = n - 1
}

// pickHot draws the functions of a StratHot run.
func (s *sched) pickHot() {
	m := []uint64{4, 16, 64, 256}[s.rng.Intn(4)]
	for i := range hotFuncs {
		hotFuncs[i] = s.rng.Uint64()%m == 0
	}
	s.hotSpan = []int{2, 6, 16, 64}[s.rng.Intn(4)]
	s.hotLeft = 10_000
	hotOn = true
}

// Active reports whether a simulation is running.
func Active() bool { return active != nil }

//go:noinline
func yieldSlow() {
	s := active
	if s == nil {
		countdown = math.MaxInt64
		return
	}
	s.step += s.granted
	s.granted = 0
	if s.cfg.MaxSteps > 0 && s.step > s.cfg.MaxSteps {
		s.res.StepLimit = true
		s.res.Blocked = append(s.res.Blocked, "running: "+trimStack(debug.Stack()))
		s.finish()
		s.cur.leave()
	}
	s.preempt()
	s.grant()
}

// sync flushes the countdown so that step counts are exact.
func (s *sched) flush() {
	used := s.granted - countdown
	if used < 0 {
		used = 0
	}
	s.step += used
	s.granted = 0
	countdown = 0
}

// grant decides how many yields the current goroutine runs before the next
// preemption opportunity.
func (s *sched) grant() {
	var n int64
	switch s.cfg.Strategy {
	case StratSequential:
		n = 1 << 20
	case StratRandom, StratStall:
		m := s.cfg.Interval
		if m < 1 {
			m = 1
		}
		// geometric-ish: uniform in [1, 2m)
		n = 1 + int64(s.rng.Uint64()%uint64(2*m))
	case StratRoundRobin:
		n = s.cfg.Interval
	case StratHot:
		n = 1 << 20
	case StratPCT, StratFew:
		n = 1 << 20
		for _, c := range s.changeAt {
			if c > s.step && c-s.step < n {
				n = c - s.step
			}
		}
	case StratReplay:
		n = 1 << 20
		for s.replayP < len(s.replayS) && s.replayS[s.replayP].At <= s.step {
			s.replayP++
		}
		if s.replayP < len(s.replayS) {
			if d := s.replayS[s.replayP].At - s.step; d < n {
				n = d
			}
		}
	}
	if n < 1 {
		n = 1
	}
	if s.cfg.MaxSteps > 0 && s.step+n > s.cfg.MaxSteps+1 {
		n = s.cfg.MaxSteps + 1 - s.step
		if n < 1 {
			n = 1
		}
	}
	s.granted = n
	countdown = n - 1
	if countdown < 0 {
		countdown = 0
	}
	// countdown reaches -1 after n calls to Yield.
}

// clock is the simulated time: idle time plus the time steps take.
func (s *sched) clock() int64 { return s.now + s.step*NanosPerStep }

func (s *sched) runnable() []*g {
	var out []*g
	for _, x := range s.gs {
		if x.state == gSleeping && x.until <= s.clock() {
			x.state = gRunnable
		}
		if x.state == gRunnable {
			out = append(out, x)
		}
	}
	return out
}

// preempt is called at a voluntary preemption point of the current goroutine.
func (s *sched) preempt() {
	rs := s.runnable()
	if len(rs) <= 1 {
		return
	}
	me := s.cur
	next := me
	switch s.cfg.Strategy {
	case StratSequential:
	case StratRandom, StratHot:
		next = rs[s.rng.Intn(len(rs))]
	case StratStall:
		next = s.pickStall(rs)
	case StratRoundRobin:
		for i, x := range rs {
			if x == me {
				next = rs[(i+1)%len(rs)]
			}
		}
	case StratPCT:
		for _, c := range s.changeAt {
			if c == s.step {
				s.nextPrio--
				me.prio = s.nextPrio
			}
		}
		next = maxPrio(rs)
	case StratFew:
		hit := false
		for _, c := range s.changeAt {
			if c == s.step {
				hit = true
			}
		}
		if hit {
			next = rs[s.rng.Intn(len(rs))]
		}
	case StratReplay:
		for s.replayP < len(s.replayS) && s.replayS[s.replayP].At < s.step {
			s.replayP++
		}
		if s.replayP < len(s.replayS) && s.replayS[s.replayP].At == s.step {
			for _, x := range rs {
				if x.id == s.replayS[s.replayP].To {
					next = x
				}
			}
			s.replayP++
		}
	}
	if next != me {
		s.note(next, false, s.step)
		s.switchTo(me, next)
	}
}

func maxPrio(rs []*g) *g {
	b := rs[0]
	for _, x := range rs[1:] {
		if x.prio > b.prio {
			b = x
		}
	}
	return b
}

func (s *sched) pickStall(rs []*g) *g {
	if s.step >= s.stallTil {
		s.stallID = rs[s.rng.Intn(len(rs))].id
		s.stallTil = s.step + 1 + int64(s.rng.Uint64()%uint64(s.cfg.Interval*64+1))
	}
	var ok []*g
	for _, x := range rs {
		if x.id != s.stallID {
			ok = append(ok, x)
		}
	}
	if len(ok) == 0 {
		ok = rs
	}
	return ok[s.rng.Intn(len(ok))]
}

func (s *sched) note(next *g, forced bool, at int64) {
	s.res.Switches++
	s.res.SchedHash = mix1(s.res.SchedHash ^ uint64(at)*0x9e3779b97f4a7c15 ^ uint64(next.id)<<1)
	if s.cfg.Record {
		s.res.Trace = append(s.res.Trace, Switch{At: at, To: next.id, Forced: forced})
	}
}

// switchTo hands control from me to next and returns when me runs again.
func (s *sched) switchTo(me, next *g) {
	s.cur = next
	raceOff()
	next.wake <- struct{}{}
	<-me.wake
	raceBack()
	if me.killed {
		me.leave()
	}
}

// leave ends the calling goroutine, running its deferred functions outside the
// simulation.
func (x *g) leave() {
	x.exiting = true
	runtime.Goexit()
}

// dispatch picks the next goroutine when the current one cannot continue. It
// returns nil when nothing can run.
func (s *sched) dispatch() *g {
	for {
		rs := s.runnable()
		if len(rs) == 0 {
			// advance the clock to the earliest sleeper
			var first *g
			for _, x := range s.gs {
				if x.state == gSleeping && (first == nil || x.until < first.until) {
					first = x
				}
			}
			if first == nil {
				return nil
			}
			if d := first.until - s.clock(); d > 0 {
				s.now += d
			}
			continue
		}
		s.forcedN++
		next := rs[0]
		switch s.cfg.Strategy {
		case StratSequential:
		case StratRandom, StratRoundRobin, StratFew, StratHot:
			next = rs[s.rng.Intn(len(rs))]
		case StratStall:
			next = s.pickStall(rs)
		case StratPCT:
			next = maxPrio(rs)
		case StratReplay:
			if id, ok := s.replayF[s.forcedN]; ok {
				for _, x := range rs {
					if x.id == id {
						next = x
					}
				}
			}
		}
		if len(rs) > 1 {
			s.note(next, true, s.forcedN)
		}
		return next
	}
}

// block suspends the current goroutine until ready makes it runnable.
func (s *sched) block(reason string) {
	me := s.cur
	me.state = gBlocked
	me.reason = reason
	s.away(me)
}

// away moves on from a goroutine that cannot run now.
func (s *sched) away(me *g) {
	s.flush()
	next := s.dispatch()
	if next == nil {
		s.stuck()
		me.leave()
	}
	if next != me {
		s.switchTo(me, next)
	}
	Acquire(&me.hand)
	s.flush()
	s.grant()
}

func (s *sched) ready(x *g) {
	if x.waits() {
		Release(&x.hand)
		x.state = gRunnable
		x.reason = ""
		x.inq = false
	}
}

// waits reports whether the goroutine can be woken through a queue.
func (x *g) waits() bool { return x.state == gBlocked || x.state == gSleeping && x.inq }

// stuck is called when nothing is runnable.
func (s *sched) stuck() {
	for _, x := range s.gs {
		if x.state == gBlocked {
			s.res.Blocked = append(s.res.Blocked, fmt.Sprintf("g%d: %s", x.id, x.reason))
		}
	}
	if s.gs[0].state != gDone {
		s.res.Deadlock = true
	} else {
		s.res.Leaked = len(s.res.Blocked)
	}
	s.finish()
}

func (s *sched) finish() {
	if !s.finished {
		s.finished = true
		s.last = s.cur
		active = nil
		countdown = math.MaxInt64
		close(s.done)
	}
}

// exit ends the current goroutine.
func (s *sched) exit(me *g) {
	me.state = gDone
	s.live--
	s.flush()
	next := s.dispatch()
	if next == nil {
		s.stuck()
		return
	}
	s.cur = next
	raceOff()
	next.wake <- struct{}{}
	raceBack()
}

func (s *sched) spawn(f func()) *g {
	if len(s.gs) >= s.sweepAt && s.cur != nil {
		// forget finished goroutines, except the root
		keep := s.gs[:1]
		for _, x := range s.gs[1:] {
			if x.state == gDone {
				raceOff()
				select {
				case <-x.gone:
					raceBack()
					continue
				default:
				}
				raceBack()
			}
			keep = append(keep, x)
		}
		s.gs = keep
		s.sweepAt = 2*len(keep) + 32
	}
	x := &g{id: s.nextID, wake: make(chan struct{}), gone: make(chan struct{}), prio: 1000 + s.rng.Intn(1<<20)}
	s.nextID++
	if s.cur != nil {
		x.node = s.cur.node
	}
	s.gs = append(s.gs, x)
	s.live++
	if s.live > s.res.MaxLive {
		s.res.MaxLive = s.live
	}
	s.res.Spawned++
	go func() {
		defer func() {
			Release(&s.ended)
			raceOff()
			close(x.gone)
			raceBack()
		}()
		raceOff()
		<-x.wake
		raceBack()
		if x.killed {
			return
		}
		s.grant()
		ok := false
		defer func() {
			if ok || x.exiting || x.killed {
				return
			}
			r := recover()
			if s.finished {
				return
			}
			s.res.Panicked = true
			s.res.PanicInRoot = x.id == 0
			s.res.PanicValue = fmt.Sprint(r)
			s.res.PanicStack = trimStack(debug.Stack())
			s.flush()
			s.finish()
		}()
		f()
		ok = true
		s.exit(x)
	}()
	return x
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "tfhe-go") && strings.Contains(l, ".go:") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	if len(out) == 0 { // not in the library
		for _, l := range lines {
			if strings.Contains(l, ".go:") && !strings.Contains(l, "/src/runtime/") && !strings.Contains(l, "/simrt/") && len(out) < 8 {
				out = append(out, strings.TrimSpace(l))
			}
		}
	}
	return strings.Join(out, " < ")
}

// Run executes root under the simulator and returns what happened.
func Run(cfg Config, root func()) Result {
	if active != nil {
		panic("simrt: nested Run")
	}
	if cfg.Interval < 1 {
		cfg.Interval = 1
	}
	if cfg.NumCPU < 1 {
		cfg.NumCPU = 4
	}
	s := &sched{cfg: cfg, rng: NewRng(Mix(cfg.Seed, 0x5c4ed)), done: make(chan struct{}), stallID: -1, nextPrio: 900}
	if cfg.Strategy == StratPCT || cfg.Strategy == StratFew {
		est := cfg.EstSteps
		if est < 16 {
			est = 16
		}
		for i := 0; i < cfg.Depth; i++ {
			s.changeAt = append(s.changeAt, 1+int64(s.rng.Uint64()%uint64(est)))
		}
	}
	if cfg.Strategy == StratReplay {
		s.replayF = map[int64]int{}
		for _, w := range cfg.Replay {
			if w.Forced {
				s.replayF[w.At] = w.To
			} else {
				s.replayS = append(s.replayS, w)
			}
		}
		sort.SliceStable(s.replayS, func(i, j int) bool { return s.replayS[i].At < s.replayS[j].At })
	}
	if cfg.Strategy == StratHot {
		s.pickHot()
	}
	active = s
	r := s.spawn(root)
	s.cur = r
	raceOff()
	r.wake <- struct{}{}
	<-s.done
	raceBack()
	// Unwind whatever is left, so that abandoned runs hold no memory. Deferred
	// functions run outside the simulation.
	cleaning = true
	<-s.last.gone
	for _, x := range s.gs {
		if x == s.last || x.state == gDone {
			<-x.gone
			continue
		}
		x.killed = true
		x.wake <- struct{}{}
		<-x.gone
	}
	Acquire(&s.ended)
	cleaning = false
	hotOn = false
	s.res.Steps = s.step
	s.res.SimTime = s.now + s.step*NanosPerStep
	active = nil
	countdown = math.MaxInt64
	return s.res
}

// Log folds an event into the run's log hash.
func Log(v uint64) {
	if s := active; s != nil {
		s.res.LogHash = mix1(s.res.LogHash*31 ^ v)
	}
}

// Go starts a simulated goroutine.
func Go(f func()) {
	s := active
	if s == nil {
		panic("simrt: goroutine started outside a simulation")
	}
	s.spawn(f)
	Yield()
}

// Gosched is a preemption point at which another goroutine should run.
func Gosched() {
	s := active
	if s == nil {
		return
	}
	s.flush()
	rs := s.runnable()
	if len(rs) > 1 {
		me := s.cur
		var others []*g
		for _, x := range rs {
			if x != me {
				others = append(others, x)
			}
		}
		s.forcedN++
		next := others[0]
		if s.cfg.Strategy == StratReplay {
			if id, ok := s.replayF[s.forcedN]; ok {
				for _, x := range others {
					if x.id == id {
						next = x
					}
				}
			}
		} else if s.cfg.Strategy != StratSequential {
			next = others[s.rng.Intn(len(others))]
		}
		s.note(next, true, s.forcedN)
		s.switchTo(me, next)
		s.flush()
	}
	s.grant()
}

// Self returns the id of the running simulated goroutine.
func Self() int {
	if s := active; s != nil {
		return s.cur.id
	}
	return -1
}

// NumCPU is the simulated machine size.
func NumCPU() int {
	if s := active; s != nil {
		return s.cfg.NumCPU
	}
	return 4
}

// GOMAXPROCS mirrors runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int { return NumCPU() }

// NumGoroutine mirrors runtime.NumGoroutine.
func NumGoroutine() int {
	if s := active; s != nil {
		return s.live
	}
	return runtime.NumGoroutine()
}

// ---------------------------------------------------------------------------
// nodes and crashes

// GoNode starts a goroutine that, with everything it starts, belongs to a node.
func GoNode(node int, f func()) {
	s := active
	if s == nil {
		panic("simrt: GoNode outside a simulation")
	}
	x := s.spawn(f)
	x.node = node
	Yield()
}

// KillNode crashes a node: its goroutines stop where they are. The caller must
// not belong to the node. It returns how many goroutines were stopped. All nodes
// share one process here, so a node is not stopped while it holds a lock, which
// may guard state it would not share with the others in reality.
func KillNode(node int) int {
	s := active
	if s == nil {
		return 0
	}
	if s.cur.node == node {
		panic("simrt: a node cannot kill itself")
	}
	for _, x := range s.gs {
		if x.node == node && x.state != gDone && x.locks > 0 {
			return 0
		}
	}
	s.flush()
	n := 0
	for i := 0; i < len(s.gs); i++ {
		x := s.gs[i]
		if x.node != node || x.state == gDone {
			continue
		}
		n++
		s.kill(x)
	}
	s.grant()
	return n
}

func (s *sched) kill(x *g) {
	x.killed = true
	x.state = gDone
	s.live--
	s.res.Kills++
	active, cleaning = nil, true
	save := countdown
	countdown = math.MaxInt64
	x.wake <- struct{}{}
	<-x.gone
	active, cleaning = s, false
	countdown = save
}

// ---------------------------------------------------------------------------
// wait queues

// WaitQ is a queue of blocked goroutines, the primitive under channels and sync.
type WaitQ struct{ q []*g }

// Wait blocks the caller until it is woken.
func (w *WaitQ) Wait(reason string) {
	s := active
	if s == nil {
		if cleaning {
			runtime.Goexit()
		}
		panic("simrt: blocked forever outside a simulation: " + reason)
	}
	w.q = append(w.q, s.cur)
	s.block(reason)
}

// WakeOne wakes one waiter (chosen by the scheduler) and reports whether there was one.
func (w *WaitQ) WakeOne() bool {
	s := active
	w.compact()
	if s == nil || len(w.q) == 0 {
		return false
	}
	x := w.q[0]
	w.q = append(w.q[:0:0], w.q[1:]...)
	s.ready(x)
	return true
}

// WakeAll wakes every waiter.
func (w *WaitQ) WakeAll() {
	s := active
	if s == nil {
		return
	}
	for _, x := range w.q {
		s.ready(x)
	}
	w.q = nil
}

// WaitFor blocks the caller until it is woken or d has passed; it reports
// whether it was woken.
func (w *WaitQ) WaitFor(d int64, reason string) bool {
	s := active
	if s == nil {
		w.Wait(reason)
	}
	me := s.cur
	w.q = append(w.q, me)
	me.state = gSleeping
	me.reason = reason
	me.inq = true
	me.until = NowNanos() + d
	s.away(me)
	woken := !me.inq
	me.inq = false
	me.reason = ""
	for i, x := range w.q {
		if x == me {
			w.q = append(w.q[:i:i], w.q[i+1:]...)
			break
		}
	}
	return woken
}

// Locked tells the simulator that the caller acquired (1) or released (-1) a lock.
func Locked(n int) {
	if s := active; s != nil {
		s.cur.locks += n
	}
}

// Len is the number of waiters.
func (w *WaitQ) Len() int { w.compact(); return len(w.q) }

func (w *WaitQ) compact() {
	out := w.q[:0]
	for _, x := range w.q {
		if x.waits() {
			out = append(out, x)
		}
	}
	w.q = out
}

// Draw returns a scheduler-decided number in [0, n); it is replayed with the run.
func Draw(n int) int {
	s := active
	if s == nil || n <= 1 {
		return 0
	}
	s.drawN++
	return int(Mix(s.cfg.Seed, 0xd4a3, uint64(s.drawN)) % uint64(n))
}

// Quiet runs f, which belongs to the harness, without preemption and without
// counting its steps. f must not block or start threads.
func Quiet(f func()) {
	s := active
	active = nil
	defer func() { active = s }()
	f()
}
