package vsched

import (
	"reflect"
	"unsafe"
)

type mchan struct {
	p      unsafe.Pointer
	cap    int
	buf    []any
	slots  []*edge
	sx, rx int // next slot to send to and to receive from
	closed bool
	cl     edge
	sendq  []*chanOp
	recvq  []*chanOp
}

// chanOp is a waiting operation; those of a select share sel.
type chanOp struct {
	t     *thread
	c     *mchan
	v     any
	ok    bool
	idx   int
	sel   *chosen
	first *edge // from the waiting side to the other
	back  *edge // from the other side to the waiting one
}

type chosen struct {
	op *chanOp
}

func (r *run) mchan(p unsafe.Pointer, capacity int) *mchan {
	if p == nil {
		return nil
	}
	for _, c := range r.chans {
		if c.p == p {
			return c
		}
	}
	c := &mchan{p: p, cap: capacity}
	for i := 0; i < capacity; i++ {
		c.slots = append(c.slots, new(edge))
	}
	r.chans = append(r.chans, c)
	return c
}

func (c *mchan) slotSend() *edge {
	e := c.slots[c.sx%c.cap]
	c.sx++
	return e
}

func (c *mchan) slotRecv() *edge {
	e := c.slots[c.rx%c.cap]
	c.rx++
	return e
}

func both(e *edge) {
	acquire(e)
	release(e)
}

// pop takes the first waiting operation that is still wanted.
func pop(q *[]*chanOp) *chanOp {
	for len(*q) > 0 {
		o := (*q)[0]
		*q = (*q)[1:]
		if o.sel.op == nil {
			return o
		}
	}
	return nil
}

func peek(q []*chanOp) bool {
	for _, o := range q {
		if o.sel.op == nil {
			return true
		}
	}
	return false
}

func (o *chanOp) finish() {
	o.sel.op = o
	o.t.state = ready
}

func (c *mchan) canSend() bool { return c != nil && (c.closed || peek(c.recvq) || len(c.buf) < c.cap) }
func (c *mchan) canRecv() bool {
	return c != nil && (c.closed || len(c.buf) > 0 || peek(c.sendq))
}

func (r *run) doSend(c *mchan, v any) {
	if c.closed {
		panic("send on closed channel")
	}
	if o := pop(&c.recvq); o != nil {
		o.v, o.ok = v, true
		if c.cap == 0 {
			acquire(o.first)
			release(o.back)
		} else {
			e := c.slotSend()
			c.rx++
			both(e)
			o.back = e
		}
		o.finish()
		return
	}
	both(c.slotSend())
	c.buf = append(c.buf, v)
}

func (r *run) doRecv(c *mchan) (any, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		e := c.slotRecv()
		both(e)
		if o := pop(&c.sendq); o != nil {
			c.buf = append(c.buf, o.v)
			o.back = c.slotSend()
			// the slot of the waiting sender: its value was published when it started to wait
			acquire(o.first)
			release(o.back)
			o.finish()
		}
		return v, true
	}
	if o := pop(&c.sendq); o != nil {
		acquire(o.first)
		release(o.back)
		o.finish()
		return o.v, true
	}
	acquire(&c.cl)
	return nil, false
}

func (r *run) enqueue(c *mchan, send bool, v any, idx int, sel *chosen) *chanOp {
	o := &chanOp{t: r.me(), c: c, v: v, idx: idx, sel: sel, first: new(edge), back: new(edge)}
	release(o.first)
	if send {
		c.sendq = append(c.sendq, o)
	} else {
		o.v = nil
		c.recvq = append(c.recvq, o)
	}
	return o
}

func (r *run) send(c *mchan, v any) {
	r.point()
	if c == nil {
		r.block(nil, "send on a nil channel")
	}
	if c.canSend() {
		r.doSend(c, v)
		return
	}
	sel := &chosen{}
	o := r.enqueue(c, true, v, 0, sel)
	r.block(unsafe.Pointer(o), "channel send")
	if !o.ok && c.closed && o.idx < 0 {
		panic("send on closed channel")
	}
	acquire(o.back)
}

func (r *run) recv(c *mchan) (any, bool) {
	r.point()
	if c == nil {
		r.block(nil, "receive from a nil channel")
	}
	if c.canRecv() {
		return r.doRecv(c)
	}
	sel := &chosen{}
	o := r.enqueue(c, false, nil, 0, sel)
	r.block(unsafe.Pointer(o), "channel receive")
	if !o.ok {
		acquire(&c.cl)
		return nil, false
	}
	acquire(o.back)
	return o.v, true
}

func (r *run) close(c *mchan) {
	r.point()
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	release(&c.cl)
	for {
		o := pop(&c.recvq)
		if o == nil {
			break
		}
		o.ok = false
		o.finish()
	}
	for {
		o := pop(&c.sendq)
		if o == nil {
			break
		}
		o.idx = -1 - o.idx
		o.finish()
	}
}

func ptr[T any](c chan T) unsafe.Pointer    { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func ptrS[T any](c chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func ptrR[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

func sendAny(p unsafe.Pointer, n int, v any) { active.send(active.mchan(p, n), v) }
func recvAny(p unsafe.Pointer, n int) (any, bool) {
	return active.recv(active.mchan(p, n))
}
func closeAny(p unsafe.Pointer, n int) { active.close(active.mchan(p, n)) }
func lenAny(p unsafe.Pointer, n int) int {
	if p == nil {
		return 0
	}
	return len(active.mchan(p, n).buf)
}

// Send replaces ch <- v.
func Send[T any](ch chan<- T) func(v T) {
	return func(v T) {
		if active == nil {
			ch <- v
			return
		}
		sendAny(ptrS(ch), cap(ch), v)
	}
}

func as[T any](v any) (t T) {
	if v != nil {
		t = v.(T)
	}
	return
}

// Recv replaces <-ch.
func Recv[T any](ch <-chan T) T {
	if active == nil {
		return <-ch
	}
	v, _ := recvAny(ptrR(ch), cap(ch))
	return as[T](v)
}

// Recv2 replaces v, ok = <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if active == nil {
		v, ok := <-ch
		return v, ok
	}
	v, ok := recvAny(ptrR(ch), cap(ch))
	return as[T](v), ok
}

// Close replaces close.
func Close[T any](ch chan<- T) {
	if active == nil {
		close(ch)
		return
	}
	closeAny(ptrS(ch), cap(ch))
}

// LenR replaces len.
func LenR[T any](ch <-chan T) int {
	if active == nil {
		return len(ch)
	}
	return lenAny(ptrR(ch), cap(ch))
}

// LenS replaces len.
func LenS[T any](ch chan<- T) int {
	if active == nil {
		return len(ch)
	}
	return lenAny(ptrS(ch), cap(ch))
}

// Iter replaces range over a channel.
type Iter[T any] struct{ ch <-chan T }

// Range replaces range over a channel.
func Range[T any](ch <-chan T) (Iter[T], T) {
	var z T
	return Iter[T]{ch}, z
}

// Range0 is Range without a variable.
func Range0[T any](ch <-chan T) Iter[T] { return Iter[T]{ch} }

// Next receives.
func (i Iter[T]) Next(p *T) bool {
	v, ok := Recv2(i.ch)
	if ok && p != nil {
		*p = v
	}
	return ok
}

// Case is a case of a select statement.
type Case interface {
	get() (send bool, p unsafe.Pointer, n int, v any)
	real() reflect.SelectCase
}

// SCase is a sending case.
type SCase struct {
	p unsafe.Pointer
	n int
	v any
	c reflect.SelectCase
}

func (s *SCase) real() reflect.SelectCase { return s.c }

func (s *SCase) get() (bool, unsafe.Pointer, int, any) { return true, s.p, s.n, s.v }

// SendCase builds a sending case.
func SendCase[T any](ch chan<- T) func(v T) *SCase {
	return func(v T) *SCase {
		return &SCase{p: ptrS(ch), n: cap(ch), v: v, c: reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch), Send: reflect.ValueOf(&v).Elem()}}
	}
}

// RCase is a receiving case.
type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

func (s *RCase[T]) get() (bool, unsafe.Pointer, int, any) { return false, ptrR(s.ch), cap(s.ch), nil }
func (s *RCase[T]) real() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(s.ch)}
}
func (s *RCase[T]) put(v any, ok bool) { s.V, s.OK = as[T](v), ok }

type putter interface{ put(v any, ok bool) }

// RecvCase builds a receiving case.
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

// Select replaces a select statement.
func Select(def bool, cs ...Case) int {
	r := active
	if r == nil {
		var rc []reflect.SelectCase
		for _, c := range cs {
			rc = append(rc, c.real())
		}
		if def {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i < len(cs) {
			if p, is := cs[i].(putter); is {
				if ok {
					p.put(v.Interface(), true)
				} else {
					p.put(nil, false)
				}
			}
		}
		return i
	}
	r.point()
	var can []int
	var ch []*mchan
	for i, c := range cs {
		s, p, n, _ := c.get()
		m := r.mchan(p, n)
		ch = append(ch, m)
		if s && m.canSend() || !s && m.canRecv() {
			can = append(can, i)
		}
	}
	if len(can) > 0 {
		i := can[r.choose(len(can))]
		s, _, _, v := cs[i].get()
		if s {
			r.doSend(ch[i], v)
		} else {
			cs[i].(putter).put(r.doRecv(ch[i]))
		}
		return i
	}
	if def {
		return len(cs)
	}
	sel := &chosen{}
	for i, c := range cs {
		if ch[i] != nil {
			s, _, _, v := c.get()
			r.enqueue(ch[i], s, v, i, sel)
		}
	}
	r.block(unsafe.Pointer(sel), "select")
	o := sel.op
	i := o.idx
	if i < 0 {
		panic("send on closed channel")
	}
	if p, ok := cs[i].(putter); ok {
		if o.ok {
			acquire(o.back)
		} else {
			acquire(&o.c.cl)
		}
		p.put(o.v, o.ok)
	} else {
		acquire(o.back)
	}
	return i
}
