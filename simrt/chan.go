//go:build go1.22

package simrt

import "fmt"

type sudog[T any] struct {
	val  T
	ok   bool
	done bool
	q    WaitQ
}

// Chan is a simulated channel.
type Chan[T any] struct {
	cap    int
	buf    []T
	closed bool
	recvq  []*sudog[T]
	sendq  []*sudog[T]
	poll   WaitQ // goroutines in Select
}

// MakeChan is make(chan T, n).
func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		c.cap = n[0]
	}
	if c.cap < 0 {
		panic("makechan: size out of range")
	}
	return c
}

var never WaitQ

func opSwitch() {
	if s := active; s != nil {
		s.res.ChanOps++
	}
	Yield()
}

// order tells the race detector that an operation on the channel follows those
// before it. That orders more than Go promises, so it hides some races and
// never invents one.
func (c *Chan[T]) order() {
	Acquire(&c.cap)
	Release(&c.cap)
}

// Send is c <- v.
func (c *Chan[T]) Send(v T) {
	opSwitch()
	if c == nil {
		never.Wait("send on nil channel")
		return
	}
	if c.trySend(v) {
		return
	}
	c.order()
	w := &sudog[T]{val: v}
	c.sendq = append(c.sendq, w)
	c.poll.WakeAll()
	for !w.done {
		w.q.Wait(fmt.Sprintf("channel send (%T)", v))
	}
	c.order()
	if !w.ok {
		panic("send on closed channel")
	}
}

func (c *Chan[T]) trySend(v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	c.order()
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		w.val, w.ok, w.done = v, true, true
		w.q.WakeAll()
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		c.poll.WakeAll()
		return true
	}
	return false
}

// Recv is <-c.
func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	opSwitch()
	if c == nil {
		never.Wait("receive from nil channel")
	}
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	c.order()
	w := &sudog[T]{}
	c.recvq = append(c.recvq, w)
	c.poll.WakeAll()
	for !w.done {
		w.q.Wait(fmt.Sprintf("channel receive (%T)", w.val))
	}
	c.order()
	return w.val, w.ok
}

func (c *Chan[T]) tryRecv() (v T, ok, done bool) {
	c.order()
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = append(c.buf[:0:0], c.buf[1:]...)
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, w.val)
			w.ok, w.done = true, true
			w.q.WakeAll()
		} else {
			c.poll.WakeAll()
		}
		return v, true, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		w.ok, w.done = true, true
		w.q.WakeAll()
		return w.val, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

// Close is close(c).
func (c *Chan[T]) Close() {
	opSwitch()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.order()
	c.closed = true
	for _, w := range c.recvq {
		w.done = true
		w.q.WakeAll()
	}
	c.recvq = nil
	for _, w := range c.sendq {
		w.done = true
		w.q.WakeAll()
	}
	c.sendq = nil
	c.poll.WakeAll()
}

// Len is len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// Case is one communication of a select statement.
type Case interface {
	ready() bool
	fire()
	queue() *WaitQ
}

// RecvC is a receive case.
type RecvC[T any] struct {
	c   *Chan[T]
	Val T
	Ok  bool
}

// RecvCase makes a receive case.
func RecvCase[T any](c *Chan[T]) *RecvC[T] { return &RecvC[T]{c: c} }

func (r *RecvC[T]) ready() bool {
	return r.c != nil && (len(r.c.buf) > 0 || len(r.c.sendq) > 0 || r.c.closed)
}
func (r *RecvC[T]) fire() { r.Val, r.Ok, _ = r.c.tryRecv() }
func (r *RecvC[T]) queue() *WaitQ {
	if r.c == nil {
		return nil
	}
	return &r.c.poll
}

// SendC is a send case.
type SendC[T any] struct {
	c *Chan[T]
	v T
}

// SendCase makes a send case.
func SendCase[T any](c *Chan[T], v T) *SendC[T] { return &SendC[T]{c: c, v: v} }

func (r *SendC[T]) ready() bool {
	return r.c != nil && (r.c.closed || len(r.c.recvq) > 0 || len(r.c.buf) < r.c.cap)
}
func (r *SendC[T]) fire() { r.c.trySend(r.v) }
func (r *SendC[T]) queue() *WaitQ {
	if r.c == nil {
		return nil
	}
	return &r.c.poll
}

// Select runs one ready case and returns its index, or -1 for the default.
func Select(hasDefault bool, cases ...Case) int {
	opSwitch()
	for {
		var rs []int
		for i, c := range cases {
			if c.ready() {
				rs = append(rs, i)
			}
		}
		if len(rs) > 0 {
			i := rs[Draw(len(rs))]
			cases[i].fire()
			return i
		}
		if hasDefault {
			return -1
		}
		s := active
		if s == nil {
			never.Wait("select")
		}
		for _, c := range cases {
			if q := c.queue(); q != nil {
				q.q = append(q.q, s.cur)
			}
		}
		s.block("select")
		for _, c := range cases {
			if q := c.queue(); q != nil {
				out := q.q[:0]
				for _, x := range q.q {
					if x != s.cur {
						out = append(out, x)
					}
				}
				q.q = out
			}
		}
	}
}

// ChanSend is c <- v. The functions, unlike the methods, also take named channel types.
func ChanSend[T any](c *Chan[T], v T) { c.Send(v) }

// ChanRecv is <-c.
func ChanRecv[T any](c *Chan[T]) T { return c.Recv() }

// ChanRecv2 is v, ok := <-c.
func ChanRecv2[T any](c *Chan[T]) (T, bool) { return c.Recv2() }

// ChanClose is close(c).
func ChanClose[T any](c *Chan[T]) { c.Close() }

// ChanLen is len(c).
func ChanLen[T any](c *Chan[T]) int { return c.Len() }

// ChanCap is cap(c).
func ChanCap[T any](c *Chan[T]) int { return c.Cap() }
