// Package vsched executes threads of the rewritten library under a controlled scheduler: one thread runs at a time, and
// at every scheduling point the explorer chooses who goes on.
//
// This package is compiled without race instrumentation (see check.sh), its threads hand the processor over by spinning
// on plain variables, and the order that channels and locks of the program really establish is told to the race
// detector explicitly.  So the race detector reports every pair of conflicting accesses that the program leaves
// unordered, although the scheduler has ordered them.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"time"
	"unsafe"
)

type edge struct{ v [2]uint64 }

const (
	ready = iota
	blocked
	done
)

type thread struct {
	id      int
	state   int
	waitObj unsafe.Pointer
	why     string
	key     uint64 // randomness
	ctr     uint64
	spawned uint64
	yielded bool
	fin     edge
}

// Config bounds the exploration.
type Config struct {
	Level   int // 0: synchronisation only, 1: and function entries, 2: and functions of the math packages
	Preempt int // how often a thread that could go on is interrupted
	Delay   int // how often a thread other than the first may be chosen when one must be chosen; -1: always
	CPUs    int // value of runtime.NumCPU
	Max     int // scheduling points
}

// Result of a run.
type Result struct {
	Points, Switches, Preemptions, Threads int
	Deadlock                               string // main threads blocked for ever
	Leak                                   string // other threads blocked for ever
	Panic                                  string
	Endless                                bool
}

type run struct {
	c       Config
	threads []*thread
	mains   int
	turn    int // -1: controller
	cur     int
	pre     int
	delay   int
	res     Result
	chans   []*mchan
	draw    int // number of alternatives asked of the controller by the thread whose turn it was, 0 if it wants a switch
	drawn   int
	quiet   bool
}

var active *run

// Active tells whether a run is in progress.
func Active() bool { return active != nil }

func mix(v uint64) uint64 {
	v ^= v >> 33
	v *= 0xff51afd7ed558ccd
	v ^= v >> 33
	v *= 0xc4ceb9fe1a85ec53
	v ^= v >> 33
	return v
}

// Run executes the functions as threads.  returned, if not nil, is called by the controller when all of them have
// returned, before the threads they started go on.
func Run(c Config, seed uint64, choose func(n int, what string) int, returned func(), fns ...func()) Result {
	if active != nil {
		panic("harness error: nested run")
	}
	if c.Max == 0 {
		c.Max = 1 << 20
	}
	if runtime.GOMAXPROCS(0) != 1 {
		runtime.GOMAXPROCS(1)
	}
	r := &run{c: c, turn: -1, cur: -1, mains: len(fns)}
	active = r
	for i, f := range fns {
		t := &thread{id: i, key: mix(seed + uint64(i)*0x9e3779b97f4a7c15)}
		r.threads = append(r.threads, t)
		go r.body(t, f)
	}
	var bad any
	pick := func(n int, what string) int {
		if r.quiet {
			return 0
		}
		v := 0
		func() {
			defer func() {
				if bad = recover(); bad != nil {
					r.quiet = true
				}
			}()
			v = choose(n, what)
		}()
		return v
	}
	told := false
	for {
		live := 0
		for _, t := range r.threads[:r.mains] {
			if t.state != done {
				live++
			}
		}
		if live == 0 && !told {
			told = true
			for _, t := range r.threads[:r.mains] {
				acquire(&t.fin)
			}
			if returned != nil && !r.quiet {
				func() {
					defer func() {
						if e := recover(); e != nil {
							bad, r.quiet = e, true
						}
					}()
					returned()
				}()
			}
		}
		t := r.next(pick)
		if t == nil {
			break
		}
		if r.res.Points > r.c.Max {
			r.res.Endless = true
			break
		}
		for {
			r.cur, r.draw = t.id, 0
			r.turn = t.id
			for r.turn != -1 {
				runtime.Gosched()
			}
			if r.draw == 0 {
				break
			}
			r.drawn = pick(r.draw, "case")
		}
	}
	for _, t := range r.threads {
		if t.state != blocked {
			continue
		}
		s := fmt.Sprintf("thread %d: %s", t.id, t.why)
		if t.id < r.mains {
			r.res.Deadlock += s + "; "
		} else {
			r.res.Leak += s + "; "
		}
	}
	for _, t := range r.threads {
		if t.state == done {
			acquire(&t.fin)
		}
	}
	r.res.Threads = len(r.threads)
	active = nil
	if bad != nil {
		panic(bad)
	}
	return r.res
}

func (r *run) body(t *thread, f func()) {
	for r.turn != t.id {
		runtime.Gosched()
	}
	defer func() {
		if e := recover(); e != nil && r.res.Panic == "" {
			r.res.Panic = fmt.Sprintf("thread %d panics: %v\n%s", t.id, e, debug.Stack())
		}
		t.state = done
		release(&t.fin)
		r.turn = -1
	}()
	f()
}

// others counts the threads that could run besides the current one.
func (r *run) others() int {
	n := 0
	for _, t := range r.threads {
		if t.state == ready && t.id != r.cur {
			n++
		}
	}
	return n
}

// next decides who goes on.
func (r *run) next(pick func(int, string) int) *thread {
	var opts []*thread
	var c *thread
	if r.cur >= 0 {
		c = r.threads[r.cur]
	}
	free := true
	if c != nil && c.state == ready && !c.yielded {
		opts = append(opts, c)
		free = false
	}
	for _, t := range r.threads {
		if t.state == ready && t != c {
			opts = append(opts, t)
		}
	}
	if len(opts) == 0 && c != nil && c.state == ready {
		opts = append(opts, c)
	}
	if c != nil {
		c.yielded = false
	}
	if len(opts) == 0 {
		return nil
	}
	n := len(opts)
	if !free && r.pre >= r.c.Preempt || free && r.c.Delay >= 0 && r.delay >= r.c.Delay {
		n = 1
	}
	k := 0
	if n > 1 {
		k = pick(n, "thread")
	}
	if k > 0 {
		if !free {
			r.pre++
			r.res.Preemptions++
		} else {
			r.delay++
		}
	}
	if opts[k] != c {
		r.res.Switches++
	}
	return opts[k]
}

// wait hands over to the controller and waits for the next turn.
func (r *run) wait(t *thread) {
	r.turn = -1
	for r.turn != t.id {
		runtime.Gosched()
	}
}

func (r *run) me() *thread { return r.threads[r.cur] }

// point is a scheduling point.
func (r *run) point() {
	r.res.Points++
	if r.res.Points > r.c.Max || r.pre < r.c.Preempt && r.others() > 0 {
		r.wait(r.me())
	}
}

// choose asks the explorer.
func (r *run) choose(n int) int {
	if n < 2 {
		return 0
	}
	t := r.me()
	r.draw = n
	r.wait(t)
	return r.drawn
}

// block waits until another thread makes this one ready.
func (r *run) block(obj unsafe.Pointer, why string) {
	t := r.me()
	t.state, t.waitObj, t.why = blocked, obj, why
	r.wait(t)
}

func (r *run) wake(obj unsafe.Pointer) {
	for _, t := range r.threads {
		if t.state == blocked && t.waitObj == obj {
			t.state, t.waitObj = ready, nil
		}
	}
}

// P1 is put at the entry of the functions of the library.
func P1() {
	if r := active; r != nil && r.c.Level >= 1 {
		r.point()
	}
}

// P2 is put at the entry of the functions of the math packages.
func P2() {
	if r := active; r != nil && r.c.Level >= 2 {
		r.point()
	}
}

// Yield lets the others go on.
func Yield() {
	r := active
	if r == nil {
		runtime.Gosched()
		return
	}
	r.res.Points++
	r.me().yielded = true
	r.wait(r.me())
}

// Go starts a thread.
func Go(f func()) {
	r := active
	if r == nil {
		go f()
		return
	}
	p := r.me()
	p.spawned++
	t := &thread{id: len(r.threads), key: mix(p.key ^ mix(p.spawned))}
	r.threads = append(r.threads, t)
	go r.body(t, f)
	r.point()
}

// NumCPU replaces runtime.NumCPU.
func NumCPU() int {
	if r := active; r != nil && r.c.CPUs > 0 {
		return r.c.CPUs
	}
	return runtime.NumCPU()
}

// Random fills p from the stream of the current thread.
func Random(p []byte) bool {
	r := active
	if r == nil {
		return false
	}
	t := r.me()
	var w uint64
	for i := range p {
		if i%8 == 0 {
			t.ctr++
			w = mix(t.key + t.ctr*0x9e3779b97f4a7c15)
		}
		p[i] = byte(w >> (8 * (i % 8)))
	}
	wrote(p)
	return true
}

// Obj is a synchronisation object with waiting threads and an order.
type Obj struct{ e edge }

// Point is a scheduling point.
func (o *Obj) Point() { active.point() }

// Wait blocks until Wake.
func (o *Obj) Wait(why string) { active.block(unsafe.Pointer(o), why) }

// Wake makes all waiting threads ready.
func (o *Obj) Wake() { active.wake(unsafe.Pointer(o)) }

// Acquire and Release tell the race detector about the order.
func (o *Obj) Acquire() { acquire(&o.e) }

// Release is the other side of Acquire.
func (o *Obj) Release() { release(&o.e) }

// Sleep replaces time.Sleep.
func Sleep(d time.Duration) {
	if active == nil {
		time.Sleep(d)
		return
	}
	Yield()
}
