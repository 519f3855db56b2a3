package main

import (
	"math/big"

	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// bigT converts a torus value.
func bigT[T TI](v T) *big.Int { return new(big.Int).SetUint64(uint64(v)) }

func toT[T TI](b *big.Int) T {
	q := new(big.Int).Lsh(big.NewInt(1), uint(bitsOf[T]()))
	return T(new(big.Int).Mod(b, q).Uint64())
}

// refEncode is message mod p (no reduction if p is zero) times scale on the torus.
func refEncode[T TI](m int, p, scale T) T {
	b := big.NewInt(int64(m))
	if p != 0 {
		b.Mod(b, bigT(p))
	}
	return toT[T](b.Mul(b, bigT(scale)))
}

// refDecode rounds to the nearest multiple of the scale and reduces; ok is false at a tie or where rounding crosses the modulus.
func refDecode[T TI](v, p, scale T) (int, bool) {
	q := new(big.Int).Lsh(big.NewInt(1), uint(bitsOf[T]()))
	roundDiv := func(a, b *big.Int) (*big.Int, bool) {
		t := new(big.Int).Add(new(big.Int).Lsh(a, 1), b)
		d, r := new(big.Int).DivMod(t, new(big.Int).Lsh(b, 1), new(big.Int))
		return d, r.Sign() != 0
	}
	d, ok := roundDiv(bigT(v), bigT(scale))
	m := bigT(p)
	if p == 0 {
		var ok2 bool
		m, ok2 = roundDiv(q, bigT(scale))
		ok = ok && (ok2 || true)
	}
	d.Mod(d, m)
	if !d.IsInt64() {
		return 0, false
	}
	return int(d.Int64()), ok
}

type encCase[T TI] struct {
	p, scale T
	custom   bool
}

func c02cases[T TI](thorough bool) []encCase[T] {
	w := bitsOf[T]()
	var r []encCase[T]
	ps := []T{1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 256}
	if thorough {
		ps = append(ps, 6, 9, 11, 12, 13, 32, 64, 127, 1000, 1024, 65535)
	}
	for _, p := range ps {
		r = append(r, encCase[T]{p: p, scale: refScale[T](p)})
	}
	one := T(1)
	for _, c := range []encCase[T]{
		{p: 4, scale: one << (w - 2)}, {p: 2, scale: one << (w - 2)}, {p: 16, scale: one << (w - 8)}, {p: 8, scale: one << 3},
		{p: 1 << 10, scale: 1}, {p: 1 << 5, scale: one << (w - 5)}, {p: 3, scale: 1000}, {p: 7, scale: 3},
		{p: 0, scale: one << (w - 3)}, {p: 0, scale: one << (w - 6)}, {p: 0, scale: one << (w / 2)}, {p: 0, scale: 3}, {p: 0, scale: 1}, {p: 0, scale: one<<(w-3) + 5},
		{p: 1 << 20, scale: one << (w - 21)},
	} {
		c.custom = true
		r = append(r, c)
	}
	return r
}

// refScale is the documented default scale, round(2^(w-1) / p).
func refScale[T TI](p T) T {
	h := new(big.Int).Lsh(big.NewInt(1), uint(bitsOf[T]()-1))
	h.Lsh(h, 1).Add(h, bigT(p)).Div(h, new(big.Int).Lsh(bigT(p), 1))
	return T(h.Uint64())
}

func c02enc[T TI](p T, N int) (*tfhe.Encoder[T], tfhe.Parameters[T]) {
	l := lit[T](shape{n: 8, k: 1, N: N, lut: N, block: 1, order: ksbr, msg: 4})
	l.MessageModulus = p
	P := l.Compile()
	return tfhe.NewEncoder(P), P
}

func c02lwe[T TI](x *X) {
	c := core.OneOf(x, "modulus/scale", c02cases[T](x.Thorough()))
	pp := c.p
	if c.custom {
		pp = 4
	}
	e, P := c02enc(pp, 16)
	x.Assert(c.custom || P.Scale() == c.scale, "scale of modulus %d is %d, want %d", pp, P.Scale(), c.scale)
	var msgs []int
	if c.p != 0 && c.p <= 32 {
		for m := -2 * int(c.p); m <= 3*int(c.p); m++ {
			msgs = append(msgs, m)
		}
	} else {
		for _, b := range []int{0, 1, 2, 100, int(c.p) / 2, int(c.p) - 1, int(c.p), int(c.p) + 1, 2 * int(c.p)} {
			msgs = append(msgs, b, -b)
		}
	}
	msgs = append(msgs, 1<<31-1, 1<<31, 1<<32+3, 1<<62+5, -(1<<62)+1, 1<<63-1, -1<<63, -1<<33-1)
	half := c.scale / 2
	for _, m := range msgs {
		var pt tfhe.LWEPlaintext[T]
		if c.custom {
			pt = e.EncodeLWECustom(m, c.p, c.scale)
		} else {
			pt = e.EncodeLWE(m)
			x.Assert(pt == e.EncodeLWECustom(m, c.p, c.scale), "EncodeLWE(%d) differs from EncodeLWECustom", m)
		}
		want := refEncode(m, c.p, c.scale)
		x.Assert(pt.Value == want, "encoding %d with modulus %d scale %d gives %d, want %d", m, c.p, c.scale, pt.Value, want)
		errs := []T{0, 1, ^T(0), 2, ^T(1), half / 2, -(half / 2), half - 1, -(half - 1), half, -half, half + 1, -half - 1, c.scale / 3, -(c.scale / 3)}
		for _, er := range errs {
			v := pt.Value + er
			wm, ok := refDecode(v, c.p, c.scale)
			if !ok {
				continue
			}
			var got int
			if c.custom {
				got = e.DecodeLWECustom(tfhe.LWEPlaintext[T]{Value: v}, c.p, c.scale)
			} else {
				got = e.DecodeLWE(tfhe.LWEPlaintext[T]{Value: v})
			}
			x.Assert(got == wm, "decoding %d (message %d, error %d) with modulus %d scale %d gives %d, want %d", v, m, er, c.p, c.scale, got, wm)
			// the round trip
			if !c.custom && cdist(v, pt.Value) < uint64(half)-min(uint64(half), 2*uint64(c.p)) {
				mm := new(big.Int).Mod(big.NewInt(int64(m)), bigT(c.p)).Int64()
				x.Assert(int64(got) == mm, "round trip of %d with modulus %d error %d gives %d", m, c.p, er, got)
			}
			x.Step(1)
			x.State(uint64(c.p), uint64(c.scale), uint64(v))
		}
	}
	be := tfhe.NewBinaryEncoder(P)
	for _, b := range []bool{false, true} {
		v := be.EncodeLWEBool(b).Value
		w := T(7) << (bitsOf[T]() - 3)
		if b {
			w = T(1) << (bitsOf[T]() - 3)
		}
		x.Assert(v == w, "bool encoding")
		eighth := T(1) << (bitsOf[T]() - 3)
		for _, er := range []T{0, 1, ^T(0), eighth - 1, -(eighth - 1), -(eighth / 2), eighth / 2} {
			x.Assert(be.DecodeLWEBool(tfhe.LWEPlaintext[T]{Value: v + er}) == b, "bool %v with error %d", b, er)
		}
	}
	x.Observe("ok")
}

func c02glwe[T TI](x *X) {
	N := core.OneOf(x, "N", []int{16, 32})
	c := core.OneOf(x, "modulus/scale", c02cases[T](x.Thorough()))
	n := x.Choose(N+4, "length")
	hist := x.Choose(3, "output")
	pp := c.p
	if c.custom {
		pp = 4
	}
	e, P := c02enc(pp, N)
	msgs := make([]int, n)
	for i := range msgs {
		msgs[i] = (i*7+3)%(4*int(pp)+3) - int(pp)
	}
	in := append([]int{}, msgs...)
	pt := tfhe.NewGLWEPlaintext(P)
	if hist > 0 {
		dirty(pt, uint64(hist))
	}
	switch {
	case c.custom && hist == 0:
		pt = e.EncodeGLWECustom(msgs, c.p, c.scale)
	case c.custom:
		e.EncodeGLWECustomTo(pt, msgs, c.p, c.scale)
	case hist == 0:
		pt = e.EncodeGLWE(msgs)
	default:
		e.EncodeGLWETo(pt, msgs)
	}
	x.Assert(eqInts(in, msgs), "messages modified")
	for i, v := range pt.Value.Coeffs {
		var w T
		if i < n {
			w = e.EncodeLWECustom(msgs[i], c.p, c.scale).Value
		}
		x.Assert(v == w, "coefficient %d of %d messages encodes to %d, want %d", i, n, v, w)
	}
	q := pt.Value.Copy()
	for i := range q.Coeffs {
		q.Coeffs[i] += T(i%3) - 1
	}
	h := snap(q)
	qpt := tfhe.GLWEPlaintext[T]{Value: q}
	out := make([]int, n)
	dirty(out, 99)
	old := append([]int{}, out...)
	var all []int
	if c.custom {
		all = e.DecodeGLWECustom(qpt, c.p, c.scale)
		e.DecodeGLWECustomTo(out, qpt, c.p, c.scale)
	} else {
		all = e.DecodeGLWE(qpt)
		e.DecodeGLWETo(out, qpt)
	}
	x.Assert(snap(q) == h, "plaintext modified by decoding")
	x.Assert(len(all) == N, "DecodeGLWE returns %d messages", len(all))
	for i := 0; i < N; i++ {
		w := e.DecodeLWECustom(tfhe.LWEPlaintext[T]{Value: q.Coeffs[i]}, c.p, c.scale)
		x.Assert(all[i] == w, "coefficient %d decodes to %d, scalar decoding gives %d", i, all[i], w)
		if i < n {
			x.Assert(out[i] == w, "coefficient %d decodes into a slice to %d, want %d", i, out[i], w)
		}
	}
	for i := N; i < n; i++ {
		x.Assert(out[i] == old[i], "decoding wrote beyond the polynomial rank")
	}
	x.Step(2)
	x.State(N, uint64(c.p), uint64(c.scale), n, hist)
}

func init() {
	core.Register(core.Harness{Prop: "C02", Name: "lwe-u64", Shards: 2, Bound: "11 (thorough 22) moduli with default scale and 15 custom modulus/scale pairs x all messages of small moduli (negative and surplus included) and boundary messages x 15 boundary errors", Run: c02lwe[uint64]})
	core.Register(core.Harness{Prop: "C02", Name: "lwe-u32", Shards: 2, Bound: "as lwe-u64", Run: c02lwe[uint32]})
	core.Register(core.Harness{Prop: "C02", Name: "glwe-u64", Shards: 4, Bound: "degrees 16, 32 x modulus/scale x every message count 0..N+3 x output history", Run: c02glwe[uint64]})
	core.Register(core.Harness{Prop: "C02", Name: "glwe-u32", Shards: 4, Bound: "as glwe-u64", Run: c02glwe[uint32]})
}
