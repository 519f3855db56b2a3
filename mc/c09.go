package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C09: boolean gates.  Model state: the bits held by a register file of ciphertexts.

var gateNames = []string{"NOT", "AND", "NAND", "OR", "NOR", "XOR", "XNOR"}

func gateRef(g int, a, b bool) bool {
	switch g {
	case 0:
		return !a
	case 1:
		return a && b
	case 2:
		return !(a && b)
	case 3:
		return a || b
	case 4:
		return !(a || b)
	case 5:
		return a != b
	}
	return a == b
}

func gateTo[T TI](e *tfhe.BinaryEvaluator[T], g int, o, a, b tfhe.LWECiphertext[T]) {
	switch g {
	case 0:
		e.NOTTo(o, a)
	case 1:
		e.ANDTo(o, a, b)
	case 2:
		e.NANDTo(o, a, b)
	case 3:
		e.ORTo(o, a, b)
	case 4:
		e.NORTo(o, a, b)
	case 5:
		e.XORTo(o, a, b)
	case 6:
		e.XNORTo(o, a, b)
	}
}

func gateNew[T TI](e *tfhe.BinaryEvaluator[T], g int, a, b tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] {
	return []func() tfhe.LWECiphertext[T]{
		func() tfhe.LWECiphertext[T] { return e.NOT(a) },
		func() tfhe.LWECiphertext[T] { return e.AND(a, b) },
		func() tfhe.LWECiphertext[T] { return e.NAND(a, b) },
		func() tfhe.LWECiphertext[T] { return e.OR(a, b) },
		func() tfhe.LWECiphertext[T] { return e.NOR(a, b) },
		func() tfhe.LWECiphertext[T] { return e.XOR(a, b) },
		func() tfhe.LWECiphertext[T] { return e.XNOR(a, b) },
	}[g]()
}

func bitPhase[T TI](b bool) T {
	v := T(1) << (bitsOf[T]() - 3)
	if b {
		return v
	}
	return -v
}

func c09shapes() []shape {
	return []shape{
		{4, 1, 64, 64, 1, ksbr, 2}, {4, 1, 64, 64, 2, brks, 2}, {4, 2, 32, 64, 2, ksbr, 2}, {4, 1, 32, 64, 1, brks, 2},
		{6, 1, 32, 128, 3, ksbr, 2}, {64, 1, 64, 256, 32, brks, 2}, {1, 1, 64, 64, 1, brks, 2}, {4, 1, 32, 128, 4, ksbr, 2}, {32, 1, 64, 64, 8, brks, 2},
	}
}

// c09gate: one gate, every operand pair, overlap, entry point, key, and worst permitted input errors.
func c09gate[T TI](x *X) {
	sh := c09shapes()
	s := sh[x.Choose(len(sh), "shape")]
	g := x.Choose(7, "gate")
	a, b := x.Bool("a"), x.Bool("b")
	al := x.Choose(6, "overlap") // 0 new object 1 separate 2 out=a 3 out=b 4 a=b 5 all
	da, db := x.Choose(3, "error a"), x.Choose(3, "error b")
	cp := x.Choose(3, "evaluator")
	var e *tenv[T]
	if s.n <= 4 {
		ks := keysOf(s)
		e = keyedEnv[T](s, ks[x.Choose(x.Pick(1, len(ks)), "key")+(len(ks)-1)*(1-x.Pick(0, 1))])
	} else {
		e = env[T](s)
	}
	ev := tfhe.NewBinaryEvaluator(e.P, e.EVK)
	enc := tfhe.NewBinaryEncryptorWithKey(e.P, e.SK)
	if cp >= 1 {
		ev = ev.SafeCopy()
	}
	if cp == 2 { // earlier use
		ev.XOR(enc.EncryptLWEBool(true), enc.EncryptLWEBool(false))
	}
	// each input may be off by almost 1/16 minus the rounding of the rotation
	h := T(s.n/2 + 2)
	if s.block > 1 {
		h = T(s.n/s.block/2 + 3)
	}
	slot := T(1) << (bitsOf[T]() - bitLen(uint64(2*s.lut)) + 1)
	dev := T(1)<<(bitsOf[T]()-4) - h*slot
	if uint64(h*slot) >= uint64(1)<<(bitsOf[T]()-4) {
		dev = 0
	}
	dev -= dev / 16
	mk := func(v bool, d int) tfhe.LWECiphertext[T] {
		pt := tfhe.LWEPlaintext[T]{Value: bitPhase[T](v) + []T{0, dev, -dev}[d]}
		return enc.Encryptor.EncryptLWEPlaintext(pt)
	}
	ca, cb := mk(a, da), mk(b, db)
	if al >= 4 {
		cb, b = ca, a
	}
	pa := lwePhase(ca.Value, e.defKey())
	ha, hb := snap(ca), snap(cb)
	var o tfhe.LWECiphertext[T]
	switch al {
	case 0:
		o = gateNew(ev, g, ca, cb)
	case 2, 5:
		o = ca
		gateTo(ev, g, o, ca, cb)
	case 3:
		o = cb
		if g == 0 {
			o = tfhe.NewLWECiphertext(e.P)
		}
		gateTo(ev, g, o, ca, cb)
	default:
		o = tfhe.NewLWECiphertext(e.P)
		dirty(&o, 3)
		gateTo(ev, g, o, ca, cb)
	}
	want := gateRef(g, a, b)
	x.Assert(enc.DecryptLWEBool(o) == want, "shape %v: %s(%v,%v) decrypts to %v", s, gateNames[g], a, b, !want)
	ph := lwePhase(o.Value, e.defKey())
	if g == 0 {
		x.Assert(ph == -pa, "NOT is not the negation of the phase")
	} else {
		d := cdist(ph, bitPhase[T](want))
		x.Assert(d <= bootTol(e.P), "shape %v: %s(%v,%v): output phase off by 2^%d, tolerance 2^%d", s, gateNames[g], a, b, bitLen(d), bitLen(bootTol(e.P)))
	}
	x.Assert(al == 2 || al == 5 || snap(ca) == ha, "%s modified its first operand", gateNames[g])
	x.Assert(al == 3 || al >= 4 || snap(cb) == hb, "%s modified its second operand", gateNames[g])
	x.Step(1)
	x.State(tname[T](), s.String(), g, a, b, al, da, db, cp)
	x.Observe(fmt.Sprintf("%s=%v", gateNames[g], want))
}

// c09prog: all straight-line programs over a register file.
func c09prog[T TI](x *X, s shape, regs, depth int) {
	e := env[T](s)
	type ins struct{ g, d, a, b int }
	prog := make([]ins, depth)
	init := x.Choose(1<<regs, "registers")
	for i := range prog {
		g := x.Choose(7, "gate")
		d, a := x.Choose(regs, "out"), x.Choose(regs, "a")
		b := a
		if g > 0 {
			b = x.Choose(regs, "b")
		}
		prog[i] = ins{g, d, a, b}
	}
	ev := tfhe.NewBinaryEvaluator(e.P, e.EVK)
	enc := tfhe.NewBinaryEncryptorWithKey(e.P, e.SK)
	r := make([]tfhe.LWECiphertext[T], regs)
	m := make([]bool, regs)
	for i := range r {
		m[i] = init>>i&1 == 1
		r[i] = enc.EncryptLWEBool(m[i])
	}
	for _, p := range prog {
		gateTo(ev, p.g, r[p.d], r[p.a], r[p.b])
		m[p.d] = gateRef(p.g, m[p.a], m[p.b])
		for i := range r {
			x.Assert(enc.DecryptLWEBool(r[i]) == m[i], "shape %v after %v: register %d is %v, want %v", s, prog, i, !m[i], m[i])
		}
		x.Step(1)
		st := 0
		for i := range m {
			if m[i] {
				st |= 1 << i
			}
		}
		x.State(tname[T](), s.String(), "prog", st, fmt.Sprint(p))
	}
}

// c09bits: bit vectors.
func c09bits[T TI](x *X) {
	s := c09shapes()[0]
	e := env[T](s)
	bits := x.Choose(11, "bits")
	m := x.Choose(1<<x.Pick(8, 11), "message") - 1<<x.Pick(7, 10)
	big := x.Choose(3, "scale")
	m *= []int{1, 1 << 20, 1<<40 + 7}[big]
	if big > 0 {
		bits += 40
	}
	kind := x.Choose(2, "encryptor")
	enc := tfhe.NewBinaryEncryptorWithKey(e.P, e.SK)
	var cts []tfhe.LWECiphertext[T]
	if kind == 0 {
		cts = enc.EncryptLWEBits(m, bits)
	} else {
		cts = make([]tfhe.LWECiphertext[T], bits)
		for i := range cts {
			cts[i] = tfhe.NewLWECiphertext(e.P)
			dirty(&cts[i], uint64(i))
		}
		enc.EncryptLWEBitsTo(cts, m)
	}
	x.Assert(len(cts) == bits, "%d ciphertexts for %d bits", len(cts), bits)
	for i, c := range cts {
		x.Assert(enc.DecryptLWEBool(c) == (m>>i&1 == 1), "bit %d of %d is wrong", i, m)
	}
	want := m & (1<<bits - 1)
	got := enc.DecryptLWEBits(cts)
	x.Assert(got == want, "%d in %d bits decrypts to %d, want %d", m, bits, got, want)
	for _, b := range []bool{false, true} {
		x.Assert(enc.DecodeLWEBool(enc.EncodeLWEBool(b)) == b, "encode/decode of %v", b)
		x.Assert(enc.EncodeLWEBool(b).Value == bitPhase[T](b), "encoding of %v", b)
	}
	// decoding is the sign
	for i := 0; i < 16; i++ {
		v := T(i) << (bitsOf[T]() - 4)
		if i == 0 || i == 8 {
			continue
		}
		x.Assert(enc.DecodeLWEBool(tfhe.LWEPlaintext[T]{Value: v}) == (i < 8), "decoding of phase %d/16", i)
	}
	x.Step(bits)
	x.State(tname[T](), bits, m, kind)
}

func init() {
	all := []string{"avx2", "cpuoff", "purego"}
	core.Register(core.Harness{Prop: "C09", Name: "gates", Backends: all, Shards: 4,
		Bound: "9 shapes x 7 gates x operand pairs x 6 overlaps x input phase errors {0,+max,-max}^2 x fresh/copied/used evaluator (thorough: every LWE key of dimension 4)",
		Run: func(x *X) {
			if x.Bool("64") {
				c09gate[uint64](x)
			} else {
				c09gate[uint32](x)
			}
		}})
	core.Register(core.Harness{Prop: "C09", Name: "programs", Backends: []string{"avx2"}, Shards: 8,
		Bound: "every straight-line program of 2 gates over 3 registers, every initial register file (any overlap of operands and output)",
		Run: func(x *X) {
			if x.Bool("64") {
				c09prog[uint64](x, c09shapes()[1], 3, 2)
			} else {
				c09prog[uint32](x, c09shapes()[2], 3, 2)
			}
		}})
	core.Register(core.Harness{Prop: "C09", Name: "programs3", Backends: []string{"avx2"}, Shards: 8,
		Bound: "every straight-line program of 3 gates over 2 registers",
		Run:   func(x *X) { c09prog[uint32](x, c09shapes()[3], 2, 3) }})
	core.Register(core.Harness{Prop: "C09", Name: "programs-deep", Backends: []string{"avx2"}, Shards: 16, ThoroughOnly: true,
		Bound: "every straight-line program of 4 gates over 2 registers and of 3 gates over 3 registers (as far as time allows)",
		Run: func(x *X) {
			if x.Bool("regs3") {
				c09prog[uint32](x, c09shapes()[0], 3, 3)
			} else {
				c09prog[uint64](x, c09shapes()[0], 2, 4)
			}
		}})
	core.Register(core.Harness{Prop: "C09", Name: "bits", Backends: []string{"avx2", "purego"}, Shards: 2,
		Bound: "bit counts 0..10 and 40..50 x messages -128..127 (thorough -1024..1023), also scaled, truncated to the bit count",
		Run: func(x *X) {
			if x.Bool("64") {
				c09bits[uint64](x)
			} else {
				c09bits[uint32](x)
			}
		}})
}
