package main

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
	"verifmc/vsched"
)

// C14: safe copies.  Threads work on an object and its copies; under the race detector any conflicting accesses are
// reported whatever the order they happened in, and under the controlled scheduler the operation of one thread runs at
// every function boundary inside the operation of the other.

// copyHosts is the objects with a SafeCopy method.
func copyHosts[T TI]() []*host {
	return core.Memo("copyhosts:"+tname[T](), func() []*host {
		var r []*host
		for _, h := range allHosts[T]() {
			if _, ok := reflect.TypeOf(h.fresh()).MethodByName("SafeCopy"); ok {
				r = append(r, h)
			}
		}
		return r
	})
}

func safeCopy(o any) any { return reflect.ValueOf(o).MethodByName("SafeCopy").Call(nil)[0].Interface() }

// c14ops is the operations that work on fresh objects; parts: and those of the exported parts of the objects.
func c14ops[T TI](h *host, parts bool) []*hostOp {
	return core.Memo(fmt.Sprint("c14ops:", tname[T](), h.name, parts), func() []*hostOp {
		var r []*hostOp
		all := append([]*hostOp{}, h.ops...)
		if parts {
			all = append(all, h.parts()...)
		}
		for _, op := range all {
			if refOf(h, op, tname[T]()).ok && !op.copies && !op.changes {
				r = append(r, op)
			}
		}
		return r
	})
}

// c14changes is the operations that register another key.
func c14changes[T TI](h *host) []*hostOp {
	return core.Memo("c14changes:"+tname[T]()+h.name, func() (r []*hostOp) {
		for _, op := range h.parts() {
			if op.changes {
				r = append(r, op)
			}
		}
		return r
	})
}

// c14objs returns the two objects of the threads.
func c14objs(h *host, kind int) (any, any) {
	core.Reseed("c14:" + h.name)
	o := h.fresh()
	c := safeCopy(o)
	switch kind {
	case 0:
		return o, c
	case 1:
		return safeCopy(o), c
	case 2:
		return c, safeCopy(c)
	}
	return safeCopy(c), o
}

type opThread struct {
	o    any
	ops  []*hostOp
	args [][]reflect.Value // nil: built by the thread
	hash []uint64
}

func (t *opThread) run() {
	t.hash = nil
	for i, op := range t.ops {
		var a []reflect.Value
		if t.args != nil {
			a = t.args[i]
		} else {
			a = op.args()
		}
		r := vals(op.run(t.o, a))
		if op.method == "DecomposeScalarBuffer" || op.method == "PublicEncryptor" ||
			strings.Contains(op.name, "SubDecryptors") && (op.random || strings.Contains(op.name, "Sampler")) { // seeds in the order of a map
			r = nil
		}
		t.hash = append(t.hash, snap(r...))
	}
}

// alone executes thread i of the objects without the other one.
func alone[T TI](x *X, h *host, kind, i int, ops []*hostOp, key string) []uint64 {
	return core.Memo(fmt.Sprint("c14alone", tname[T](), h.name, kind, i, key), func() []uint64 {
		a, b := c14objs(h, kind)
		t := &opThread{o: []any{a, b}[i], ops: ops}
		fs := []func(){func() {}, func() {}}
		fs[i] = t.run
		core.ThreadRand = vsched.Random
		vsched.Run(vsched.Config{}, 0x9e3779b97f4a7c15+core.BaseSeed, func(n int, w string) int { return 0 }, nil, fs...)
		return t.hash
	})
}

// c14races: both threads execute every operation; shared: on the same inputs.
func c14races[T TI](x *X) {
	hs := copyHosts[T]()
	h := hs[x.Choose(len(hs), "object")]
	kind := x.Choose(4, "copies")
	shared := x.Bool("shared inputs")
	ops := c14ops[T](h, !shared && kind < 2)
	a, b := c14objs(h, kind)
	t, u := &opThread{o: a, ops: ops}, &opThread{o: b, ops: ops}
	if shared {
		// same inputs, different outputs
		var both []*hostOp
		for _, op := range ops {
			if !op.unsafe {
				both = append(both, op)
			}
		}
		t.ops, u.ops = both, both
		for _, op := range both {
			p := op.args()
			q := append([]reflect.Value{}, p...)
			if op.out >= 0 {
				q[op.out] = op.args()[op.out]
			}
			t.args, u.args = append(t.args, p), append(u.args, q)
		}
	}
	key := fmt.Sprint(shared)
	uk := key
	if ch := c14changes[T](h); len(ch) > 0 && !shared && kind < 2 {
		if k := x.Choose(len(ch)+1, "registration"); k > 0 { // the first thread changes a key first
			t.ops = append([]*hostOp{ch[k-1]}, ops...)
			key = ch[k-1].String()
		}
	}
	ra, rb := alone[T](x, h, kind, 0, t.ops, key), alone[T](x, h, kind, 1, u.ops, uk)
	schedRun(x, vsched.Config{Delay: -1}, h.name, nil, t.run, u.run)
	for i, op := range t.ops {
		x.Assert(t.hash[i] == ra[i], "%s (copies %d): %s of the first thread gives another result than alone", h.name, kind, op)
	}
	for i, op := range u.ops {
		x.Assert(u.hash[i] == rb[i], "%s (copies %d): %s of the second thread gives another result than alone", h.name, kind, op)
	}
	x.Step(2 * len(ops))
	x.State(tname[T](), h.name, kind, x.Trace())
}

// c14inter: the operation of one thread is interrupted at any function boundary by those of the other.
func c14inter[T TI](x *X, pre int) {
	hs := copyHosts[T]()
	h := hs[x.Choose(len(hs), "object")]
	ops := c14ops[T](h, false)
	i := x.Choose(len(ops), "operation")
	op := ops[i]
	if strings.HasPrefix(op.method, "GenEvalKey") || strings.HasPrefix(op.method, "GenBlind") || strings.HasPrefix(op.method, "GenCircuit") {
		return
	}
	if op.variant > 0 && !x.Thorough() {
		return
	}
	kind := x.Choose(x.Pick(1, 3), "copies")
	a, b := c14objs(h, kind)
	two := []*hostOp{op}
	if op.variant == 0 && i+1 < len(ops) && ops[i+1].name == op.name {
		two = []*hostOp{ops[i+1]} // the same operation on other operands
	}
	t, u := &opThread{o: a, ops: []*hostOp{op}}, &opThread{o: b, ops: two}
	ra, rb := alone[T](x, h, kind, 0, t.ops, op.String()), alone[T](x, h, kind, 1, u.ops, op.String())
	schedRun(x, vsched.Config{Level: 1, Preempt: pre, Delay: -1}, h.name, nil, t.run, u.run)
	x.Assert(t.hash[0] == ra[0], "%s: %s gives another result than alone when another thread uses a safe copy", h.name, op)
	x.Assert(u.hash[0] == rb[0], "%s: %s on the safe copy gives another result than alone", h.name, op)
	x.Step(2)
	x.State(tname[T](), h.name, op.String(), x.Trace())
}

// c14same: a safe copy has the same keys and gives the same results.
func c14same[T TI](x *X) {
	hs := copyHosts[T]()
	h := hs[x.Choose(len(hs), "object")]
	ops := c14ops[T](h, false)
	op := ops[x.Choose(len(ops), "operation")]
	kind := x.Choose(4, "copies")
	a, b := c14objs(h, kind)
	if x.Bool("after use") {
		for _, q := range []any{a, b} {
			func() {
				defer func() { recover() }()
				ops[0].run(q, ops[0].args())
				op.run(q, op.args())
			}()
		}
		a = safeCopy(b)
	}
	x.Assert(snap(exported(a)...) == snap(exported(h.fresh())...), "%s: the safe copy has other parameters or keys", h.name)
	x.Step(1)
	if op.random || op.buffer {
		return
	}
	for _, q := range []any{a, b} {
		x.Assert(snap(vals(op.run(q, op.args()))...) == refOf(h, op, tname[T]()).hash, "%s: %s of a safe copy gives another result", h.name, op)
	}
	x.State(tname[T](), h.name, op.String(), kind)
}

// exported collects the keys and parameters held by an object: exported fields that are no samplers or evaluators.
func exported(o any) []any {
	var r []any
	var rec func(v reflect.Value, depth int)
	rec = func(v reflect.Value, depth int) {
		for v.Kind() == reflect.Pointer || v.Kind() == reflect.Interface {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			if v.Kind() != reflect.Func && v.CanInterface() {
				r = append(r, v.Interface())
			}
			return
		}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if !t.Field(i).IsExported() || strings.Contains(t.Field(i).Name, "Sampler") {
				continue
			}
			f := v.Field(i)
			n := t.Field(i).Type.String()
			if t.Field(i).Anonymous || f.Kind() == reflect.Pointer {
				if depth < 4 {
					rec(f, depth+1)
				}
			} else if f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Pointer {
				for j := 0; j < f.Len() && depth < 4; j++ {
					rec(f.Index(j), depth+1)
				}
			} else if f.CanInterface() && f.Kind() != reflect.Func && !strings.Contains(n, "ampler") {
				r = append(r, f.Interface())
			}
		}
	}
	rec(reflect.ValueOf(o), 0)
	return r
}

func init() {
	reg := func(name, bound string, back []string, thorough bool, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C14", Name: name, Backends: back, ThoroughOnly: thorough, Bound: bound, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	h := "both widths x every object with SafeCopy in the three packages (found by reflection, several parameter shapes)"
	reg("races", h+" x 4 ways of sharing (original and copy, two copies, copy of a copy) x shared or own inputs: both threads run every operation, both orders, under the race detector, results equal those alone", []string{"race"}, false, c14races[uint32], c14races[uint64])
	reg("interleave", "both widths in the thorough tier, "+h+" x every operation: interrupted at every function boundary of the library by the same operation on the copy, results equal those alone", []string{"sched"}, false, func(x *X) {
		if x.Thorough() {
			c14inter[uint32](x, 1)
		}
	}, func(x *X) { c14inter[uint64](x, 1) })
	reg("interleave2", h+" x every operation: two switches at every pair of function boundaries", []string{"sched"}, true, func(x *X) {}, func(x *X) { c14inter[uint64](x, 2) })
	reg("same", h+" x every operation x 4 ways x after use or not: same keys, same results", nil, false, c14same[uint32], c14same[uint64])
}
