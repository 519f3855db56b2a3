package main

import (
	"fmt"
	"reflect"
	"strings"

	"verifmc/core"
)

// C13: independence of call history; inputs untouched.

type opRef struct {
	ok   bool
	hash uint64
	err  string
}

// refOf is the result of the operation on a fresh object with a fresh output.
func refOf(h *host, op *hostOp, key string) opRef {
	return core.Memo("c13ref:"+key+h.name+op.String(), func() (r opRef) {
		defer func() {
			if e := recover(); e != nil {
				r.err = fmt.Sprint(e)
			}
		}()
		return opRef{ok: true, hash: snap(vals(op.run(h.fresh(), op.args()))...)}
	})
}

// apply runs one operation on o, checks its inputs and returns its results.
func apply(x *X, h *host, op *hostOp, o any, hist string, dirt uint64) []reflect.Value {
	args := op.args()
	if dirt != 0 && op.mode == opAssign {
		v := reflect.New(args[op.out].Type())
		v.Elem().Set(args[op.out])
		dirty(v.Interface(), dirt)
	}
	in := op.inputs(args)
	before := snap(in...)
	res := op.run(o, args)
	if !op.unsafe && snap(in...) != before {
		for i, a := range op.inputs(op.args()) {
			if snap(a) != snap(in[i]) {
				x.Fail("%s: %s changed its input (value %d of its inputs)%s", h.name, op, i, hist)
			}
		}
		x.Fail("%s: %s changed its inputs%s", h.name, op, hist)
	}
	x.Step(1)
	return res
}

func c13single[T TI](x *X) {
	hs := allHosts[T]()
	h := hs[x.Choose(len(hs), "object")]
	op := h.ops[x.Choose(len(h.ops), "operation")]
	ref := refOf(h, op, tname[T]())
	if !ref.ok {
		// keys which the object does not have (checked through the other objects)
		pk := strings.Contains(h.name, "_k1_N16_L16_b1_o1") || strings.HasPrefix(h.name, "mk.")
		ok := (op.name == "GenPublicKey" || op.name == "PublicEncryptor") && (pk || strings.Contains(h.name, "mk_"))
		if strings.HasPrefix(h.name, "CircuitBootstrapper") {
			for _, n := range []string{"Mul", "Pack", "Permute", "Relinearize", "Tensor"} {
				ok = ok || strings.HasPrefix(op.name, n)
			}
		}
		x.Observe(h.name + "." + op.String() + " panics: " + ref.err)
		x.Assert(ok, "%s: %s panics: %s", h.name, op, ref.err)
		return
	}
	if op.copies {
		return
	}
	o := h.fresh()
	k0 := snap(h.keys(o))
	var first uint64
	for i, d := range []uint64{0, 0x1234567, 0xfffffffffffffff1} {
		res := apply(x, h, op, o, fmt.Sprintf(" (call %d)", i+1), d)
		if op.random || op.buffer {
			continue
		}
		g := snap(vals(res)...)
		if i == 0 {
			first = g
		}
		x.Assert(g == ref.hash && g == first, "%s: %s: call %d (other output contents) gives another result than on a fresh object", h.name, op, i+1)
	}
	x.Assert(snap(h.keys(o)) == k0, "%s: %s changed the keys", h.name, op)
	// the allocating form equals the assigning form
	if op.mode == opAssign && !op.random {
		base := strings.TrimSuffix(strings.TrimSuffix(op.name, "Unsafe"), "To")
		for _, q := range h.ops {
			if q.name != base || q.variant != op.variant {
				continue
			}
			args := op.args()
			var in []reflect.Value
			for i, a := range args {
				if i != op.out {
					in = append(in, a)
				}
			}
			mt := reflect.ValueOf(o).MethodByName(base).Type()
			if mt.NumIn() != len(in) {
				continue
			}
			r := reflect.ValueOf(h.fresh()).MethodByName(base).Call(in)
			x.Assert(snap(vals(r)...) == ref.hash, "%s: %s with a reused output differs from the allocating form", h.name, op)
		}
	}
	x.State(tname[T](), h.name, op.String(), ref.hash)
}

// pure: operations whose implementation cannot keep anything (used only to thin the triples).
func isLinear(n string) bool {
	for _, p := range []string{"Add", "Sub", "Neg", "Scalar", "Float", "Cmplx", "Encode", "Decode"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func c13seq[T TI](x *X, depth int, thin bool) {
	hs := allHosts[T]()
	h := hs[x.Choose(len(hs), "object")]
	ops := core.Memo(fmt.Sprint("c13ops", tname[T](), h.name, thin), func() []*hostOp {
		var r []*hostOp
		for _, op := range h.ops {
			if refOf(h, op, tname[T]()).ok && !(thin && isLinear(op.name)) && !strings.HasPrefix(op.name, "GenEvalKey") {
				r = append(r, op)
			}
		}
		return r
	})
	if len(ops) == 0 {
		return
	}
	seq := make([]*hostOp, depth)
	for i := range seq {
		seq[i] = ops[x.Choose(len(ops), "operation")]
	}
	last := seq[depth-1]
	if last.random || last.buffer || last.copies {
		return
	}
	o := h.fresh()
	hist := " after"
	type held struct {
		v []any
		h uint64
		n string
	}
	var hold []held
	for i, op := range seq {
		res := apply(x, h, op, o, hist, uint64(0x5555*(i+1)))
		if !op.random && !op.buffer && !op.copies {
			if g, w := snap(vals(res)...), refOf(h, op, tname[T]()).hash; g != w {
				x.Fail("%s: %s%s gives another result than on a fresh object", h.name, op, hist)
			}
		}
		if !op.buffer && !op.copies {
			for _, p := range hold {
				if snap(p.v...) != p.h {
					x.Fail("%s: %s changed a value returned by %s", h.name, op, p.n)
				}
			}
			v := vals(res)
			hold = append(hold, held{v, snap(v...), op.String()})
		}
		hist += " " + op.String()
	}
	x.State(h.name, hist)
}

func init() {
	both := func(name, bound string, sh int, thorough bool, backs []string, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C13", Name: name, Shards: sh, ThoroughOnly: thorough, Backends: backs, Bound: bound, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	both("single", "both widths x every method (found by reflection) of every evaluator, encoder, decomposer, transformer, encryptor and decryptor object, 2 argument sets: three calls on one object with different old output contents, compared bit for bit with a fresh object and with the allocating form; inputs and keys unchanged", 2, false, nil, c13single[uint32], c13single[uint64])
	both("pairs", "every ordered pair of operations (2 argument sets each) on every object, 64-bit: the second result equals that on a fresh object, inputs and the first result unchanged", 8, false, []string{"avx2"}, func(*X) {}, func(x *X) { c13seq[uint64](x, 2, false) })
	both("pairs32", "the same with 32-bit values on every backend", 8, true, nil, func(x *X) { c13seq[uint32](x, 2, false) }, func(x *X) {})
	both("triples", "every ordered triple of operations that use internal buffers", 8, true, []string{"avx2"}, func(x *X) { c13seq[uint32](x, 3, true) }, func(x *X) { c13seq[uint64](x, 3, true) })
}
