package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/vec"
	"verifmc/core"
)

// C06: every vector kernel is its scalar loop, for every length, type, alignment and overlap.

// gvec is a vector inside a guarded array.
type gvec[T comparable] struct {
	back []T
	off  int
	v    []T
}

func mkv[T num.Number](n, off int, val func(i int) T) gvec[T] {
	g := gvec[T]{back: make([]T, n+off+24), off: off}
	for i := range g.back {
		g.back[i] = guardFill[T](i)
	}
	g.v = g.back[off : off+n : off+n]
	for i := range g.v {
		g.v[i] = val(i)
	}
	return g
}

func (g gvec[T]) guard(x *X, fill func(i int) T) {
	for i, v := range g.back {
		if (i < g.off || i >= g.off+len(g.v)) && v != fill(i) {
			x.Fail("index %d outside the vector was written", i-g.off)
		}
	}
}

func guardFill[T num.Number](i int) T {
	v := T(3)
	for j := i % 17; j > 0; j-- {
		v += T(1)
	}
	return v
}

// c06val gives element values: extremes and a carry-rich pattern.
func c06val[T num.Number](k, salt int) func(i int) T {
	var z T
	bitPat := func(i int) uint64 {
		switch k {
		case 0:
			return mix64(uint64(i*31 + salt*7 + 1))
		case 1:
			return []uint64{0, 1, math.MaxUint64, 1 << 63, 1<<63 - 1, 0x80000000, 0x7fffffff, 0xffffffff, 0x100000000}[(i+salt)%9]
		}
		return uint64(i*(salt+1) + 1)
	}
	return func(i int) T {
		u := bitPat(i)
		switch p := any(&z).(type) {
		case *float32:
			*p = float32(int32(u>>54)-1<<9) / 8
		case *float64:
			*p = float64(int32(u>>40)-1<<23) / 8
		case *complex64:
			*p = complex(float32(int32(u>>54)-1<<9), float32(int32(u<<14>>54)-1<<9))
		case *complex128:
			*p = complex(float64(int32(u>>44)-1<<19), float64(int32(u<<20>>44)-1<<19))
		default:
			reflect.ValueOf(&z).Elem().Set(reflect.ValueOf(u).Convert(reflect.TypeOf(z)))
		}
		return z
	}
}

func mix64(v uint64) uint64 {
	v *= 0x9e3779b97f4a7c15
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	v ^= v >> 32
	return v
}

// longLengths surround powers of two.
var longLengths = func() (r []int) {
	for k := 7; k <= 13; k++ {
		r = append(r, 1<<k-1, 1<<k, 1<<k+1, 1<<k+1<<(k-1))
	}
	return
}()

// c06ops checks the arithmetic kernels for one type.
func c06ops[T num.Number](x *X, long bool) {
	op := x.Choose(10, "op")
	var n, off, pat int
	if long {
		n = core.OneOf(x, "length", longLengths)
		off = x.Choose(2, "alignment")
	} else {
		n = x.Choose(x.Pick(100, 300), "length")
		off = x.Choose(x.Pick(5, 9), "alignment")
		pat = x.Choose(2, "values")
	}
	alias := x.Choose(5, "overlap") // 0 none 1 out=v0 2 out=v1 3 v0=v1 4 all
	nilv := false
	if n == 0 && off == 0 {
		nilv = x.Bool("nil")
	}
	a, b, o := mkv(n, off, c06val[T](pat, 1)), mkv(n, off+1, c06val[T](1-pat, 2)), mkv(n, 2*off, c06val[T](0, 3))
	c := c06val[T](pat, 5)(n)
	if nilv {
		a.v, b.v, o.v = nil, nil, nil
	}
	switch alias {
	case 1:
		o = a
	case 2:
		o = b
	case 3:
		b = a
	case 4:
		b, o = a, a
	}
	va, vb, vo := append([]T{}, a.v...), append([]T{}, b.v...), append([]T{}, o.v...)
	want := make([]T, n)
	var alloc []T
	hasAlloc := true
	for i := range want {
		switch op {
		case 0:
			want[i] = va[i] + vb[i]
		case 1:
			want[i] = va[i] - vb[i]
		case 2:
			want[i] = -va[i]
		case 3:
			want[i] = c * va[i]
		case 4:
			want[i] = vo[i] + c*va[i]
		case 5:
			want[i] = vo[i] - c*va[i]
		case 6:
			want[i] = va[i] * vb[i]
		case 7:
			want[i] = vo[i] + va[i]*vb[i]
		case 8:
			want[i] = vo[i] - va[i]*vb[i]
		}
	}
	switch op {
	case 0:
		alloc = vec.Add(a.v, b.v)
		vec.AddTo(o.v, a.v, b.v)
	case 1:
		alloc = vec.Sub(a.v, b.v)
		vec.SubTo(o.v, a.v, b.v)
	case 2:
		alloc = vec.Neg(a.v)
		vec.NegTo(o.v, a.v)
	case 3:
		alloc = vec.ScalarMul(a.v, c)
		vec.ScalarMulTo(o.v, a.v, c)
	case 4:
		hasAlloc = false
		vec.ScalarMulAddTo(o.v, a.v, c)
	case 5:
		hasAlloc = false
		vec.ScalarMulSubTo(o.v, a.v, c)
	case 6:
		alloc = vec.Mul(a.v, b.v)
		vec.MulTo(o.v, a.v, b.v)
	case 7:
		hasAlloc = false
		vec.MulAddTo(o.v, a.v, b.v)
	case 8:
		hasAlloc = false
		vec.MulSubTo(o.v, a.v, b.v)
	case 9: // dot: reads only
		var w T
		for i := range va {
			w += va[i] * vb[i]
		}
		x.Assert(vec.Dot(a.v, b.v) == w, "Dot = %v, want %v", vec.Dot(a.v, b.v), w)
		want = vo
		hasAlloc = false
	}
	for i := range want {
		x.Assert(o.v[i] == want[i], "op %d: element %d of %d is %v, want %v", op, i, n, o.v[i], want[i])
		if hasAlloc {
			x.Assert(alloc[i] == want[i], "op %d allocating: element %d of %d is %v, want %v", op, i, n, alloc[i], want[i])
		}
	}
	if hasAlloc {
		x.Assert(len(alloc) == n, "op %d: allocated %d elements, want %d", op, len(alloc), n)
	}
	if !nilv {
		a.guard(x, guardFill[T])
		b.guard(x, guardFill[T])
		o.guard(x, guardFill[T])
	}
	if alias == 0 {
		for i := range va {
			x.Assert(a.v[i] == va[i] && b.v[i] == vb[i], "op %d: input element %d was modified", op, i)
		}
	}
	x.Step(1)
	x.State(tn[T](), op, n, alias, off, pat)
	x.Observe(fmt.Sprintf("%d", op))
}

func tn[T any]() string { var z T; return reflect.TypeOf(z).String() }

// c06len: mismatched lengths panic for every kernel and leave everything alone.
func c06len[T num.Number](x *X) {
	op := x.Choose(12, "op")
	n := []int{x.Choose(10, "n0"), x.Choose(10, "n1"), x.Choose(10, "n2")}
	mk := func(k int) []T { return mkv(n[k], 0, c06val[T](0, k)).v }
	o, a, b := mk(0), mk(1), mk(2)
	three := op < 2 || op == 4 || op == 5 || op == 6
	bad := n[0] != n[1] || (three && n[0] != n[2])
	h := snap(o)
	p := x.Panics(func() {
		switch op {
		case 0:
			vec.AddTo(o, a, b)
		case 1:
			vec.SubTo(o, a, b)
		case 2:
			vec.NegTo(o, a)
		case 3:
			vec.ScalarMulTo(o, a, T(3))
		case 4:
			vec.MulTo(o, a, b)
		case 5:
			vec.MulAddTo(o, a, b)
		case 6:
			vec.MulSubTo(o, a, b)
		case 7:
			vec.ScalarMulAddTo(o, a, T(3))
		case 8:
			vec.ScalarMulSubTo(o, a, T(3))
		case 9:
			vec.Dot(o, a)
		case 10:
			vec.RotateTo(o, a, 0)
		case 11:
			vec.ReverseTo(o, a)
		}
	})
	x.Assert(p == bad, "op %d with lengths %v: panic=%v, want %v", op, n, p, bad)
	if bad {
		x.Assert(snap(o) == h, "op %d with lengths %v wrote its output before panicking", op, n)
	}
	x.Step(1)
	x.State(tn[T](), op, fmt.Sprint(n))
}

// c06perm: the permutations.
func c06perm[T num.Number](x *X, long bool) {
	op := x.Choose(9, "op")
	var n, l int
	if long {
		n = core.OneOf(x, "length", longLengths)
		if op < 3 {
			l = core.OneOf(x, "amount", []int{0, 1, -1, n / 2, n/3 + 1, n - 1, n, n + 1, -n, -n / 2, 3*n + 2, -5*n - 7, 64, 1000})
		}
	} else {
		n = x.Choose(x.Pick(18, 40), "length")
		if op < 3 {
			l = x.Choose(8*n+7, "amount") - 4*n - 3
		}
	}
	a, o := mkv(n, 3, c06val[T](2, 1)), mkv(n, 5, c06val[T](0, 3))
	va := append([]T{}, a.v...)
	want := make([]T, n)
	inplace := false
	var got []T
	switch op {
	case 0, 1, 2:
		for i := range va {
			want[mod(i+l, n)] = va[i]
		}
	case 3, 4, 5:
		for i := range va {
			want[n-1-i] = va[i]
		}
	}
	switch op {
	case 0:
		got = vec.Rotate(a.v, l)
	case 1:
		vec.RotateTo(o.v, a.v, l)
		got = o.v
	case 2:
		vec.RotateInPlace(a.v, l)
		got, inplace = a.v, true
	case 3:
		got = vec.Reverse(a.v)
	case 4:
		vec.ReverseTo(o.v, a.v)
		got = o.v
	case 5:
		vec.ReverseInPlace(a.v)
		got, inplace = a.v, true
	case 6:
		got = vec.Copy(a.v)
		copy(want, va)
		if n > 0 {
			got[0] = c06val[T](0, 9)(1)
			x.Assert(a.v[0] == va[0], "the copy shares memory with its source")
			got[0] = va[0]
		}
		x.Assert(vec.Copy([]T(nil)) == nil, "copy of nil is not nil")
		x.Assert(got != nil, "copy of a non-nil vector is nil")
	case 7:
		v := c06val[T](0, 4)(n)
		vec.Fill(a.v, v)
		for i := range want {
			want[i] = v
		}
		got, inplace = a.v, true
	case 8: // Equals: all single differences
		got, want = a.v, va
		b := append([]T{}, va...)
		x.Assert(vec.Equals(a.v, b), "Equals says equal vectors differ")
		for i := range b {
			b[i] += T(1)
			x.Assert(!vec.Equals(a.v, b), "Equals misses a difference at %d", i)
			b[i] = va[i]
		}
		x.Assert(!vec.Equals(a.v, append(b, T(0))), "Equals ignores the length")
		if n > 0 {
			x.Assert(!vec.Equals(a.v, b[:n-1]), "Equals ignores the length")
		}
	}
	x.Assert(len(got) == n, "op %d: %d elements, want %d", op, len(got), n)
	for i := range want {
		x.Assert(got[i] == want[i], "op %d amount %d: element %d of %d is %v, want %v", op, l, i, n, got[i], want[i])
	}
	if !inplace {
		for i := range va {
			x.Assert(a.v[i] == va[i], "op %d: the input was modified", op)
		}
	}
	a.guard(x, guardFill[T])
	o.guard(x, guardFill[T])
	x.Step(1)
	x.State(tn[T](), op, n, l)
}

func c06shuffle(x *X) {
	op := x.Choose(5, "op")
	k := x.Choose(x.Pick(10, 13), "logsize")
	n := 1 << k
	switch op {
	case 0: // bit reversal, power of two
		a := mkv(n, 2, func(i int) int64 { return int64(i*7 + 1) })
		vec.BitReverseInPlace(a.v)
		for i := range a.v {
			r := 0
			for j := 0; j < k; j++ {
				r |= (i >> j & 1) << (k - 1 - j)
			}
			x.Assert(a.v[i] == int64(r*7+1), "bit reversal of size %d: element %d is %d, want %d", n, i, a.v[i], r*7+1)
		}
		a.guard(x, guardFill[int64])
		vec.BitReverseInPlace(a.v)
		for i := range a.v {
			x.Assert(a.v[i] == int64(i*7+1), "bit reversal of size %d is not an involution", n)
		}
		e := []int{}
		vec.BitReverseInPlace(e)
	case 1, 2: // conversions at every length
		m := x.Choose(40, "length")
		c := make([]complex128, m)
		for i := range c {
			c[i] = complex(float64(i+1), -float64(100*i+7))
		}
		g := mkv(2*m, 4, func(i int) float64 { return 0.5 })
		var f []float64
		p := x.Panics(func() {
			if op == 1 {
				vec.CmplxToFloat4To(g.v, c)
				f = g.v
			} else {
				f = vec.CmplxToFloat4(c)
			}
		})
		x.Assert(p == (m%4 != 0), "CmplxToFloat4 of length %d: panic=%v", m, p)
		if !p {
			x.Assert(len(f) == 2*m, "length %d", len(f))
			for i := range c {
				j := i/4*8 + i%4
				x.Assert(f[j] == real(c[i]) && f[j+4] == imag(c[i]), "CmplxToFloat4: element %d", i)
			}
		}
		g.guard(x, guardFill[float64])
		if m%4 == 0 {
			for d := -1; d <= 1; d += 2 {
				if 2*m+d >= 0 {
					x.Assert(x.Panics(func() { vec.CmplxToFloat4To(make([]float64, 2*m+d), c) }), "wrong output length accepted")
				}
			}
		}
	case 3, 4:
		m := x.Choose(40, "length")
		f := make([]float64, m)
		for i := range f {
			f[i] = float64(3*i + 1)
		}
		g := mkv(m/2, 4, func(i int) complex128 { return 0.5 })
		var c []complex128
		p := x.Panics(func() {
			if op == 3 {
				vec.Float4ToCmplxTo(g.v, f)
				c = g.v
			} else {
				c = vec.Float4ToCmplx(f)
			}
		})
		x.Assert(p == (m%8 != 0), "Float4ToCmplx of length %d: panic=%v", m, p)
		if !p {
			for i := range c {
				j := i/4*8 + i%4
				x.Assert(c[i] == complex(f[j], f[j+4]), "Float4ToCmplx: element %d", i)
			}
		}
		g.guard(x, guardFill[complex128])
	}
	x.Step(1)
	x.State(op, k)
}

func c06cast[A, B num.Real](x *X) {
	n := x.Choose(20, "length")
	k := x.Choose(2, "values")
	a, o := mkv(n, 3, c06val[A](k, 1)), mkv(n, 5, c06val[B](0, 2))
	var za A
	var zb B
	_, fa := any(za).(float64)
	if _, f := any(za).(float32); f {
		fa = true
	}
	_, fb := any(zb).(float64)
	if _, f := any(zb).(float32); f {
		fb = true
	}
	if fa && !fb { // conversion of a float outside the range of the integer is implementation-defined: keep inside
		for i := range a.v {
			a.v[i] = A(i%100) + A(1)/2
		}
	}
	va := append([]A{}, a.v...)
	r := vec.Cast[B](a.v)
	vec.CastTo(o.v, a.v)
	for i := range va {
		x.Assert(r[i] == B(va[i]) && o.v[i] == B(va[i]), "cast of %v: got %v and %v, want %v", va[i], r[i], o.v[i], B(va[i]))
		x.Assert(a.v[i] == va[i], "cast modified its input")
	}
	o.guard(x, guardFill[B])
	x.Assert(x.Panics(func() { vec.CastTo(o.v, append(a.v, 1)) }), "cast to a shorter vector did not panic")
	x.Step(1)
	x.State(tn[A](), tn[B](), n, k)
}

func castFrom[A num.Real](x *X) {
	[]func(*X){c06cast[A, int], c06cast[A, int8], c06cast[A, int16], c06cast[A, int32], c06cast[A, int64], c06cast[A, uint], c06cast[A, uint8],
		c06cast[A, uint16], c06cast[A, uint32], c06cast[A, uint64], c06cast[A, uintptr], c06cast[A, float32], c06cast[A, float64]}[x.Choose(13, "to")](x)
}

func init() {
	all := []string{"avx2", "cpuoff", "purego"}
	type tf struct {
		n        string
		ops, prm func(*X, bool)
		len      func(*X)
	}
	ts := []tf{}
	add := func(n string, o func(*X, bool), l func(*X), p func(*X, bool)) { ts = append(ts, tf{n, o, p, l}) }
	add("u32", c06ops[uint32], c06len[uint32], c06perm[uint32])
	add("u64", c06ops[uint64], c06len[uint64], c06perm[uint64])
	add("i32", c06ops[int32], c06len[int32], c06perm[int32])
	add("i64", c06ops[int64], c06len[int64], c06perm[int64])
	add("u8", c06ops[uint8], c06len[uint8], c06perm[uint8])
	add("i8", c06ops[int8], c06len[int8], c06perm[int8])
	add("u16", c06ops[uint16], c06len[uint16], c06perm[uint16])
	add("i16", c06ops[int16], c06len[int16], c06perm[int16])
	add("int", c06ops[int], c06len[int], c06perm[int])
	add("uint", c06ops[uint], c06len[uint], c06perm[uint])
	add("uptr", c06ops[uintptr], c06len[uintptr], c06perm[uintptr])
	add("f64", c06ops[float64], c06len[float64], c06perm[float64])
	add("f32", c06ops[float32], c06len[float32], c06perm[float32])
	add("c64", c06ops[complex64], c06len[complex64], c06perm[complex64])
	add("c128", c06ops[complex128], c06len[complex128], c06perm[complex128])
	core.Register(core.Harness{Prop: "C06", Name: "kernels", Backends: all, Shards: 6,
		Bound: "every kernel x 15 element types x every length 0..99 (thorough 0..299) x every overlap x alignment offsets x 2 value patterns; guarded arrays",
		Run:   func(x *X) { core.OneOf(x, "type", ts).ops(x, false) }})
	core.Register(core.Harness{Prop: "C06", Name: "lengths", Backends: all, Shards: 2,
		Bound: "every kernel x 15 types x every triple of lengths 0..9: panics exactly when they differ",
		Run:   func(x *X) { core.OneOf(x, "type", ts).len(x) }})
	core.Register(core.Harness{Prop: "C06", Name: "permutations", Backends: []string{"avx2", "purego"}, Shards: 4,
		Bound: "rotations (every amount in -4n-3..4n+3), reversals, copy, fill, equality x 15 types x every length 0..17 (thorough 39)",
		Run:   func(x *X) { core.OneOf(x, "type", ts).prm(x, false) }})
	core.Register(core.Harness{Prop: "C06", Name: "long", Backends: all, Shards: 6,
		Bound: "every kernel and permutation x 15 types x 28 lengths of 127..12288 around powers of two x every overlap x 2 alignments x 14 amounts",
		Run: func(x *X) {
			t := core.OneOf(x, "type", ts)
			if x.Bool("permutation") {
				t.prm(x, true)
			} else {
				t.ops(x, true)
			}
		}})
	core.Register(core.Harness{Prop: "C06", Name: "shuffle", Backends: []string{"avx2", "purego"}, Shards: 1,
		Bound: "bit reversal for sizes 1..512 (thorough 4096); float4 conversions at every length 0..39", Run: c06shuffle})
	core.Register(core.Harness{Prop: "C06", Name: "cast", Backends: []string{"avx2", "purego"}, Shards: 1,
		Bound: "every pair of 13 real types x lengths 0..19 x 2 patterns",
		Run: func(x *X) {
			[]func(*X){castFrom[int], castFrom[int8], castFrom[int16], castFrom[int32], castFrom[int64], castFrom[uint], castFrom[uint8],
				castFrom[uint16], castFrom[uint32], castFrom[uint64], castFrom[uintptr], castFrom[float32], castFrom[float64]}[x.Choose(13, "from")](x)
		}})
}
