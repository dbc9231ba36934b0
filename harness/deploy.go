//go:build go1.22

package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"time"

	"SIMMODULE/simrt"
)

// A simulated deployment: nodes with disks, joined by a network that loses,
// duplicates, delays, reorders and truncates messages, and that crash and
// restart with nothing but their disks.

const (
	micro = int64(1000)
	milli = 1000 * micro
)

// cluster is one deployment.
type cluster struct {
	c     *Ctx
	rng   *simrt.Rng // decides faults while the run proceeds
	nodes []*node
	quiet int64 // no faults from this time on
	stop  bool
	done  bool
	end   simrt.WaitQ

	loss, dup, cut, slow, reorder int // per mille
	disk, reset                   int
	crashes, parts                int
	blocked                       map[[2]int]int64
	chunks                        int
	sent                          int
	crashed                       map[int]int
}

// newCluster draws the fault environment.
func newCluster(c *Ctx) *cluster {
	cl := &cluster{c: c, rng: c.Rng(), blocked: map[[2]int]int64{}, crashed: map[int]int{}}
	lvl := func(xs ...int) int { return xs[c.Int(len(xs))] }
	cl.loss = lvl(0, 50, 200, 400)
	cl.dup = lvl(0, 50, 300)
	cl.cut = lvl(0, 30, 150)
	cl.reorder = lvl(0, 200, 600)
	cl.slow = lvl(0, 50, 300)
	cl.disk = lvl(0, 20, 100)
	cl.reset = lvl(0, 20, 100)
	cl.crashes = lvl(0, 1, 2, 4, 7)
	cl.parts = lvl(0, 1, 3)
	cl.chunks = c.Int(chunkModes)
	cl.quiet = int64(lvl(20, 60, 200)) * milli
	return cl
}

// hit draws whether a fault happens now.
func (cl *cluster) hit(perMille int, kind string) bool {
	if perMille == 0 || simrt.NowNanos() >= cl.quiet || cl.rng.Intn(1000) >= perMille {
		return false
	}
	cl.c.Fault(kind)
	return true
}

func (cl *cluster) chunker() *chunker {
	return &chunker{mode: cl.chunks, r: simrt.NewRng(cl.rng.Uint64())}
}

// packet is a message. Its frame is reliable; its payload may be cut short.
type packet struct {
	from, to int
	call     uint64
	reply    bool
	op       string
	id       int
	peer     int
	arg      any // immutable request description
	status   string
	need     []string
	kind     string
	payload  []byte
}

// post sends a packet.
func (cl *cluster) post(p packet) {
	cl.sent++
	copies := 1
	if cl.hit(cl.dup, "message duplicated") {
		copies++
	}
	for i := 0; i < copies; i++ {
		if cl.hit(cl.loss, "message lost") {
			continue
		}
		q := p
		if len(q.payload) > 0 && cl.hit(cl.cut, "transfer cut short") {
			q.payload = q.payload[:cl.rng.Intn(len(q.payload))]
		}
		d := 20*micro + int64(cl.rng.Intn(50))*micro
		if cl.hit(cl.reorder, "message delayed and reordered") {
			d += int64(cl.rng.Intn(5000)) * micro
		}
		simrt.GoNode(0, func() {
			simrt.Sleep(time.Duration(d))
			cl.deliver(q)
		})
	}
}

func (cl *cluster) deliver(p packet) {
	if cl.stop {
		return
	}
	if until := cl.blocked[[2]int{p.from, p.to}]; simrt.NowNanos() < until {
		cl.c.Fault("message dropped by a partition")
		return
	}
	n := cl.nodes[p.to]
	if n.cur == nil {
		cl.c.Fault("message to a crashed node")
		return
	}
	n.cur.inbox = append(n.cur.inbox, p)
	n.cur.wq.WakeAll()
}

// node is a machine: what survives a crash.
type node struct {
	cl   *cluster
	id   int
	name string
	disk *simDisk
	cur  *proc
	main func(*proc)
	inc  int
}

func (cl *cluster) add(name string, main func(*proc)) *node {
	if len(cl.nodes) == 0 {
		cl.nodes = append(cl.nodes, nil) // node 0 is the environment
	}
	n := &node{cl: cl, id: len(cl.nodes), name: name, main: main}
	n.disk = &simDisk{cl: cl, files: map[string][]byte{}}
	cl.nodes = append(cl.nodes, n)
	return n
}

func (n *node) boot() {
	n.inc++
	p := &proc{n: n, cl: n.cl, calls: map[uint64]*pending{}}
	n.cur = p
	simrt.GoNode(n.id, func() { n.main(p) })
}

// proc is one incarnation of a node: what a crash destroys.
type proc struct {
	n     *node
	cl    *cluster
	inbox []packet
	wq    simrt.WaitQ
	calls map[uint64]*pending
	seq   uint64
}

type pending struct {
	wq  simrt.WaitQ
	got *packet
}

func (p *proc) sleep(d int64) { simrt.Sleep(time.Duration(d)) }

// serve handles messages until the deployment ends.
func (p *proc) serve(handle func(packet)) {
	for !p.cl.stop {
		if len(p.inbox) == 0 {
			p.wq.Wait("idle")
			continue
		}
		m := p.inbox[0]
		p.inbox = p.inbox[1:]
		if m.reply {
			if w := p.calls[m.call]; w != nil && w.got == nil {
				w.got = &m
				w.wq.WakeAll()
			}
			continue
		}
		handle(m)
	}
}

// rpc sends a request until it is answered.
func (p *proc) rpc(to int, m packet) packet {
	m.from, m.to = p.n.id, to
	wait := 3 * milli
	for {
		p.seq++
		m.call = uint64(p.n.inc)<<32 | p.seq
		w := &pending{}
		p.calls[m.call] = w
		p.cl.post(m)
		deadline := simrt.NowNanos() + wait
		for w.got == nil && !p.cl.stop {
			left := deadline - simrt.NowNanos()
			if left <= 0 {
				break
			}
			w.wq.WaitFor(left, "reply")
		}
		delete(p.calls, m.call)
		if w.got != nil {
			return *w.got
		}
		if p.cl.stop {
			return packet{status: "stopped"}
		}
		p.cl.c.Count("requests retried")
		if wait < 400*milli {
			wait *= 2
		}
	}
}

func (p *proc) answer(m packet, r packet) {
	r.from, r.to, r.call, r.reply = p.n.id, m.from, m.call, true
	p.cl.post(r)
}

// receive decodes a payload into o through an unreliable stream.
func (p *proc) receive(data []byte, o storable) bool {
	r := &simReader{data: data, ch: p.cl.chunker(), limit: -1, scrib: p.cl.rng.Uint64()}
	if p.cl.hit(p.cl.reset, "connection reset while receiving") && len(data) > 0 {
		r.limit, r.ferr = p.cl.rng.Intn(len(data)), errDisk
	}
	r.joined = p.cl.rng.Intn(2) == 0
	_, err := o.ReadFrom(r)
	if err != nil {
		p.cl.c.Count("transfers rejected by the receiver")
		return false
	}
	return true
}

// encode turns an object into a payload.
func (p *proc) encode(o storable) []byte {
	w := &simWriter{limit: -1}
	if _, err := o.WriteTo(w); err != nil {
		p.cl.c.Failf("write", "%s: writing %T to memory fails: %v", p.n.name, o, err)
	}
	return w.got
}

// simDisk is the durable storage of a node.
type simDisk struct {
	cl     *cluster
	files  map[string][]byte
	log    []byte
	synced int
	busy   bool
	wq     simrt.WaitQ
}

// save writes a file through a temporary one.
func (d *simDisk) save(name string, o storable) bool {
	w := &simWriter{limit: -1}
	d.fault(w, o.ByteSize())
	_, err := o.WriteTo(w)
	simrt.Sleep(time.Duration(10 * micro))
	if err != nil {
		return false
	}
	d.files[name] = w.got // the rename
	return true
}

// fault draws what happens to a write of about size bytes.
func (d *simDisk) fault(w *simWriter, size int) {
	if size < 1 {
		size = 1
	}
	if d.cl.hit(d.cl.disk, "disk write error") {
		w.limit, w.ferr = len(w.got)+d.cl.rng.Intn(size), errDisk
	} else if d.cl.hit(d.cl.disk, "disk full") {
		w.limit, w.ferr, w.late = len(w.got)+d.cl.rng.Intn(size), errSpace, true
	}
}

// load reads a file, retrying transient errors.
func (d *simDisk) load(name string, o storable) bool {
	data, ok := d.files[name]
	if !ok {
		return false
	}
	var err error
	for try := 0; try < 50; try++ {
		r := &simReader{data: data, ch: d.cl.chunker(), limit: -1}
		if d.cl.hit(d.cl.disk, "disk read error") && len(data) > 0 {
			r.limit, r.ferr = d.cl.rng.Intn(len(data)), errDisk
		}
		if _, err = o.ReadFrom(r); err == nil {
			return true
		}
		if r.limit < 0 {
			break
		}
	}
	d.cl.c.Failf("stored-object-unreadable", "%s, stored completely as %T, cannot be read back: %v", name, o, err)
	return false
}

// logWriter appends to the journal as the bytes arrive.
type logWriter struct {
	d *simDisk
	w *simWriter
}

func (l *logWriter) Write(b []byte) (int, error) {
	before := len(l.w.got)
	n, err := l.w.Write(b)
	l.d.log = append(l.d.log, l.w.got[before:]...)
	return n, err
}

// appendRec makes an object durable in the journal.
func (d *simDisk) appendRec(id, kind int, o storable) bool {
	for d.busy { // one writer at a time
		d.wq.Wait("the journal")
	}
	d.busy = true
	ok := d.record(id, kind, o)
	d.busy = false
	d.wq.WakeAll()
	return ok
}

func (d *simDisk) record(id, kind int, o storable) bool {
	start := len(d.log)
	w := &simWriter{limit: -1}
	d.fault(w, o.ByteSize())
	l := &logWriter{d: d, w: w}
	var h [8]byte
	binary.LittleEndian.PutUint32(h[:], uint32(id))
	binary.LittleEndian.PutUint32(h[4:], uint32(kind))
	_, err := l.Write(h[:])
	if err == nil {
		_, err = o.WriteTo(l)
	}
	if err != nil {
		d.log = d.log[:start]
		return false
	}
	simrt.Sleep(time.Duration(10 * micro))
	d.synced = len(d.log)
	return true
}

// recover reads the journal up to the first damaged record.
func (d *simDisk) recoverLog(mk func(kind int) storable, put func(id, kind int, o storable)) {
	r := &simReader{data: d.log, ch: d.cl.chunker(), limit: -1}
	good := 0
	for {
		var h [8]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			break
		}
		kind := int(binary.LittleEndian.Uint32(h[4:]))
		o := mk(kind)
		if _, err := o.ReadFrom(r); err != nil {
			break
		}
		good = r.pos
		put(int(binary.LittleEndian.Uint32(h[:])), kind, o)
	}
	if good < d.synced {
		d.cl.c.Failf("journal-lost", "the journal holds %d durable bytes but only %d can be read back", d.synced, good)
	}
	if good < len(d.log) {
		d.cl.c.Fault("torn journal tail discarded")
	}
	d.log = d.log[:good]
	d.synced = good
}

// crash loses what was not synced.
func (d *simDisk) crash() {
	d.busy, d.wq = false, simrt.WaitQ{}
	if extra := len(d.log) - d.synced; extra > 0 {
		d.log = d.log[:d.synced+d.cl.rng.Intn(extra+1)]
	}
}

// chaos crashes nodes and partitions the network until the faults stop.
func (cl *cluster) chaos(span int64) {
	type ev struct {
		at   int64
		what int
	}
	var evs []ev
	for i := 0; i < cl.crashes; i++ {
		evs = append(evs, ev{int64(cl.rng.Uint64() % uint64(span)), 0})
	}
	for i := 0; i < cl.parts; i++ {
		evs = append(evs, ev{int64(cl.rng.Uint64() % uint64(span)), 1})
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	for _, e := range evs {
		if d := e.at - simrt.NowNanos(); d > 0 {
			simrt.Sleep(time.Duration(d))
		}
		if cl.stop || cl.done || simrt.NowNanos() >= cl.quiet {
			return
		}
		if e.what == 1 {
			a, b := 1+cl.rng.Intn(len(cl.nodes)-1), 1+cl.rng.Intn(len(cl.nodes)-1)
			until := simrt.NowNanos() + int64(cl.rng.Intn(20000))*micro
			cl.blocked[[2]int{a, b}] = until
			if cl.rng.Intn(2) == 0 {
				cl.blocked[[2]int{b, a}] = until
			}
			cl.c.Fault("network partition")
			continue
		}
		n := cl.nodes[1+cl.rng.Intn(len(cl.nodes)-1)]
		if n.cur == nil {
			continue
		}
		ok := false
		for try := 0; try < 20; try++ {
			if simrt.KillNode(n.id) > 0 {
				ok = true
				break
			}
			simrt.Sleep(time.Duration(100 * micro))
			if cl.stop || n.cur == nil {
				break
			}
		}
		if !ok {
			continue
		}
		cl.c.Fault("crash of a " + n.name)
		n.cur = nil
		n.disk.crash()
		down := int64(cl.rng.Intn(5000)) * micro
		simrt.GoNode(0, func() {
			simrt.Sleep(time.Duration(down))
			if !cl.stop {
				n.boot()
			}
		})
	}
}

// run starts every node and waits for the end.
func (cl *cluster) run(o SimOpts) {
	c := cl.c
	c.Desc("loss %d dup %d cut %d reorder %d slow %d disk %d reset %d per mille, %d crashes, %d partitions, quiet after %d ms", cl.loss, cl.dup, cl.cut, cl.reorder, cl.slow, cl.disk, cl.reset, cl.crashes, cl.parts, cl.quiet/milli)
	span := 1 + int64(c.Int(8))
	o.Name = "deployment"
	c.Sim(o, func() {
		for _, n := range cl.nodes[1:] {
			n.boot()
		}
		// crashes fall into the part of the run that does the work
		simrt.Go(func() { cl.chaos(cl.quiet * span / 8) })
		limit := cl.quiet + 120*1000*milli
		for !cl.done {
			if simrt.NowNanos() > limit {
				c.Failf("no-progress:deployment", "requests still unanswered %d simulated ms after the faults stopped", (simrt.NowNanos()-cl.quiet)/milli)
			}
			cl.end.WaitFor(limit+milli-simrt.NowNanos(), "the deployment to finish")
		}
		cl.stop = true
		for _, n := range cl.nodes[1:] {
			if n.cur != nil {
				n.cur.wq.WakeAll()
				for _, k := range sortedCalls(n.cur.calls) {
					n.cur.calls[k].wq.WakeAll()
				}
			}
		}
	})
	c.Count("deployments completed")
	c.counts["messages"] += cl.sent
}

func sortedCalls(m map[uint64]*pending) []uint64 {
	var ks []uint64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func (cl *cluster) finish() {
	cl.done = true
	cl.end.WakeAll()
}

// ---------------------------------------------------------------------------
// servers

// dop is an operation of a program. Descriptions are immutable.
type dop struct {
	id    int
	name  string
	in    []int
	ints  []int
	table []int
	keys  []string // keys the operation needs
	outs  []int    // registers of further results
	srv   int
	form  int
}

func (o *dop) String() string {
	return fmt.Sprintf("r%d=%s%v%v%v@%d", o.id, o.name, o.in, o.ints, o.table, o.srv)
}

// backend is the application state of a server.
type backend interface {
	// object is an empty receiver.
	object(kind int) storable
	keyObject(name string) storable
	// install makes a key available; it reports false when something else is
	// needed first.
	install(name string, o storable) bool
	executor() executor
}

// executor is the private evaluator of a worker.
type executor interface {
	run(o *dop, in []storable) (kind int, out []storable)
}

type cell struct {
	kind int
	o    storable
}

// server runs operations on ciphertexts.
type server struct {
	p       *proc
	be      backend
	have    map[string]bool
	regs    map[int]cell
	queue   []packet
	busy    map[int]bool
	wq      simrt.WaitQ
	gen     int
	workers int
}

func serverMain(workers int, mk func() backend, keyOrder func([]string)) func(*proc) {
	return func(p *proc) {
		s := &server{p: p, be: mk(), have: map[string]bool{}, regs: map[int]cell{}, busy: map[int]bool{}, workers: workers}
		var names []string
		for k := range p.n.disk.files {
			names = append(names, k)
		}
		sort.Strings(names)
		for i := len(names) - 1; i > 0; i-- {
			j := p.cl.rng.Intn(i + 1)
			names[i], names[j] = names[j], names[i]
		}
		if keyOrder != nil {
			keyOrder(names)
		}
		for _, k := range names {
			o := s.be.keyObject(k)
			if p.n.disk.load(k, o) && s.be.install(k, o) {
				s.have[k] = true
				s.gen++
				p.cl.c.Count("keys reloaded after a restart")
			}
		}
		p.n.disk.recoverLog(s.be.object, func(id, kind int, o storable) { s.regs[id] = cell{kind, o} })
		if p.n.inc > 1 {
			p.cl.c.Count("server restarts")
		}
		for i := 0; i < workers; i++ {
			simrt.Go(s.work)
		}
		p.serve(s.handle)
		s.wq.WakeAll()
	}
}

func (s *server) handle(m packet) {
	p := s.p
	switch m.op {
	case "key":
		o := s.be.keyObject(m.kind)
		if o == nil {
			p.answer(m, packet{status: "not ready"})
			return
		}
		st := "retry"
		if p.receive(m.payload, o) && p.n.disk.save(m.kind, o) {
			if s.be.install(m.kind, o) {
				s.gen++
				s.have[m.kind] = true
				st = "ok"
			} else {
				st = "not ready"
			}
		}
		p.answer(m, packet{status: st})
	case "put":
		o := s.be.object(m.peer)
		st := "retry"
		if p.receive(m.payload, o) && p.n.disk.appendRec(m.id, m.peer, o) {
			s.regs[m.id] = cell{m.peer, o}
			st = "ok"
		}
		p.answer(m, packet{status: st})
	case "get":
		r, ok := s.regs[m.id]
		if !ok {
			p.answer(m, packet{status: "missing"})
			return
		}
		p.answer(m, packet{status: "ok", id: m.id, peer: r.kind, payload: p.encode(r.o)})
	case "op":
		o := m.arg.(*dop)
		if s.busy[o.id] {
			return // the sender asks again
		}
		if _, ok := s.regs[o.id]; ok {
			p.answer(m, packet{status: "ok"})
			return
		}
		var need []string
		for _, k := range o.keys {
			if !s.have[k] {
				need = append(need, k)
			}
		}
		var miss []int
		for _, i := range o.in {
			if _, ok := s.regs[i]; !ok {
				miss = append(miss, i)
			}
		}
		if len(need)+len(miss) > 0 {
			p.answer(m, packet{status: "missing", need: need, arg: miss})
			return
		}
		s.busy[o.id] = true
		s.queue = append(s.queue, m)
		s.wq.WakeAll()
	}
}

func (s *server) work() {
	p := s.p
	var ex executor
	gen := -1
	for !p.cl.stop {
		if len(s.queue) == 0 {
			s.wq.Wait("worker idle")
			continue
		}
		m := s.queue[0]
		s.queue = s.queue[1:]
		o := m.arg.(*dop)
		if gen != s.gen {
			gen = s.gen
			ex = s.be.executor()
		}
		if p.cl.hit(p.cl.slow, "slow node") {
			p.sleep(int64(p.cl.rng.Intn(8000)) * micro)
		}
		var in []storable
		for _, i := range o.in {
			in = append(in, s.regs[i].o)
		}
		kind, outs := ex.run(o, in)
		p.cl.c.Count("operation " + o.name)
		st := "ok"
		ids := append([]int{o.id}, o.outs...)
		for i := len(outs) - 1; i >= 0; i-- { // the marker register last
			if !p.n.disk.appendRec(ids[i], kind, outs[i]) {
				st = "retry"
				break
			}
			s.regs[ids[i]] = cell{kind, outs[i]}
		}
		delete(s.busy, o.id)
		p.answer(m, packet{status: st})
	}
}

// ---------------------------------------------------------------------------
// programs

// program is what the clients want computed.
type program struct {
	ops    []*dop
	inputs []*dinput
	home   map[int]int // register to the node that computes it
}

// dinput is an input ciphertext: who encrypts it and how.
type dinput struct {
	id   int
	kind int
	by   int // node
	how  string
	ms   []int
	srv  int
}

// drive runs the program to its end from a client.
func (p *proc) drive(pr *program, threadsN int, supply func(in *dinput, srv int), key func(name string, srv int)) {
	byID := map[int]*dinput{}
	for _, in := range pr.inputs {
		byID[in.id] = in
	}
	done := map[int]bool{}
	next := map[int]bool{}
	var wq simrt.WaitQ
	pick := func() *dop {
		for _, o := range pr.ops {
			if next[o.id] {
				continue
			}
			ok := true
			for _, i := range o.in {
				if byID[i] == nil && !done[i] {
					ok = false
				}
			}
			if ok {
				return o
			}
		}
		return nil
	}
	left := len(pr.ops)
	one := func() {
		for left > 0 && !p.cl.stop {
			o := pick()
			if o == nil {
				wq.Wait("operands")
				continue
			}
			next[o.id] = true
			for !p.cl.stop {
				r := p.rpc(o.srv, packet{op: "op", arg: o})
				if r.status == "ok" {
					break
				}
				if r.status == "missing" {
					for _, k := range r.need {
						key(k, o.srv)
					}
					for _, i := range r.arg.([]int) {
						if in := byID[i]; in != nil {
							supply(in, o.srv)
						} else {
							p.move(i, pr.home[i], o.srv)
						}
					}
				}
			}
			done[o.id] = true
			for _, i := range o.outs {
				done[i] = true
			}
			left--
			wq.WakeAll()
		}
	}
	var fs []func()
	for i := 0; i < threadsN; i++ {
		fs = append(fs, one)
	}
	threads(fs...)
}

// move carries a register from one server to another, unopened.
func (p *proc) move(id, from, to int) {
	for !p.cl.stop {
		r := p.rpc(from, packet{op: "get", id: id})
		if r.status != "ok" {
			continue
		}
		if s := p.rpc(to, packet{op: "put", id: id, peer: r.peer, payload: r.payload}); s.status == "ok" {
			p.cl.c.Count("ciphertexts moved between servers")
			return
		}
	}
}

// put sends a ciphertext to a server.
func (p *proc) put(id, kind, srv int, o storable) {
	data := p.encode(o)
	for !p.cl.stop {
		if r := p.rpc(srv, packet{op: "put", id: id, peer: kind, payload: data}); r.status == "ok" {
			return
		}
	}
}

// sendKey registers a key with a server.
func (p *proc) sendKey(name string, srv int, o storable) {
	data := p.encode(o)
	for !p.cl.stop {
		if r := p.rpc(srv, packet{op: "key", kind: name, payload: data}); r.status == "ok" {
			return
		}
		p.sleep(100 * micro)
	}
}

// fetch obtains a register.
func (p *proc) fetch(id, srv int, o storable) bool {
	for !p.cl.stop {
		r := p.rpc(srv, packet{op: "get", id: id})
		if r.status == "ok" && p.receive(r.payload, o) {
			return true
		}
		if r.status == "missing" {
			return false
		}
	}
	return false
}
