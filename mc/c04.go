package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"verifmc/core"
)

// --- reference arithmetic of Z_{2^w}[X]/(X^N+1): computed modulo 2^64 and truncated ---

func toU[T num.Integer](a []T) []uint64 {
	r := make([]uint64, len(a))
	for i, v := range a {
		r[i] = uint64(int64(v))
	}
	return r
}

func fromU[T num.Integer](a []uint64) []T {
	r := make([]T, len(a))
	for i, v := range a {
		r[i] = T(v)
	}
	return r
}

func ref1[T num.Integer](f func([]uint64) []uint64, a []T) []T { return fromU[T](f(toU(a))) }
func ref2[T num.Integer](f func(a, b []uint64) []uint64, a, b []T) []T {
	return fromU[T](f(toU(a), toU(b)))
}

// gpoly is a polynomial in the middle of a guarded array.
type gpoly[T num.Integer] struct {
	back []T
	off  int
	poly.Poly[T]
}

func mkg[T num.Integer](N, off int, fill []T) gpoly[T] {
	g := gpoly[T]{back: make([]T, N+32), off: off}
	for i := range g.back {
		g.back[i] = T(0x5b - i)
	}
	g.Poly = poly.Poly[T]{Coeffs: g.back[off : off+N : off+N]}
	if fill != nil {
		copy(g.Coeffs, fill)
	}
	return g
}

func (g gpoly[T]) guard(x *X) {
	N := len(g.Coeffs)
	for i := range g.back {
		if (i < g.off || i >= g.off+N) && g.back[i] != T(0x5b-i) {
			x.Fail("memory outside the polynomial was written (index %d)", i-g.off)
		}
	}
}

// patterns of full-size operands
func polyPat[T num.Integer](N, k int) []T {
	r := make([]T, N)
	maxv := T(num.MaxT[T]() & math.MaxUint64)
	minv := T(num.MinT[T]())
	for i := range r {
		switch k {
		case 0: // zero
		case 1:
			r[i] = maxv
		case 2:
			r[i] = minv
			if !num.IsSigned[T]() {
				r[i] = maxv/2 + 1
			}
		case 3:
			if i%2 == 0 {
				r[i] = maxv
			} else {
				r[i] = minv + 1
			}
		case 4:
			r[i] = T(uint64(i+1) * 0x9e3779b97f4a7c15 >> 3)
		case 5:
			r[i] = T(i) - T(N/2)
		case 6:
			r[i] = T(uint64(0xf0f0f0f0f0f0f0f0) >> (i % 8))
		case 7:
			if i == N-1 {
				r[i] = maxv
			}
			if i == 0 {
				r[i] = 1
			}
		}
	}
	return r
}

const nPolyPat = 8

// shortPat gives polynomials with coefficients of at most 8 bits.
func shortPat[T num.Integer](N, k int) []T {
	r := make([]T, N)
	m := 255
	if num.SizeT[T]() == 8 {
		m = 127
	}
	for i := range r {
		switch k {
		case 0:
			r[i] = 1
		case 1:
			r[i] = T(m)
		case 2:
			r[i] = T(0) - T(m)
		case 3:
			if i%2 == 0 {
				r[i] = T(m)
			} else {
				r[i] = T(0) - T(m)
			}
		case 4:
			r[i] = T((i*37)%(2*m+1)) - T(m)
		case 5:
			if i == N-1 {
				r[i] = 1
			}
		}
	}
	return r
}

const nShortPat = 6

func eqP[T num.Integer](a, b []T) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

func wantP[T num.Integer](x *X, what string, got, want []T) {
	for i := range got {
		if got[i] != want[i] {
			x.Fail("%s: coefficient %d is %v, want %v", what, i, got[i], want[i])
		}
	}
}

func pev[T num.Integer](N int) *poly.Evaluator[T] {
	var z T
	return core.Memo(fmt.Sprintf("pev:%T:%d", z, N), func() *poly.Evaluator[T] { return poly.NewEvaluator[T](N) })
}

// --- linear operations ---

func c04linT[T num.Integer](x *X, N int) {
	op := x.Choose(6, "op")
	a, b := 4, 6
	if N < bigN {
		a, b = x.Choose(nPolyPat, "p0"), x.Choose(nPolyPat, "p1")
	}
	alias := x.Choose(5, "overlap") // 0 none, 1 out=p0, 2 out=p1, 3 p0=p1, 4 all
	off := []int{16, 13}[x.Choose(2, "alignment")]
	cop := x.Choose(2, "evaluator")
	e := pev[T](N)
	if cop == 1 {
		e = e.SafeCopy()
	}
	p0, p1 := mkg(N, off, polyPat[T](N, a)), mkg(N, 16, polyPat[T](N, b))
	out := mkg(N, off, polyPat[T](N, 4))
	switch alias {
	case 1:
		out = p0
	case 2:
		out = p1
	case 3:
		p1 = p0
	case 4:
		p1, out = p0, p0
	}
	v0, v1, vo := append([]T{}, p0.Coeffs...), append([]T{}, p1.Coeffs...), append([]T{}, out.Coeffs...)
	c := T(0)
	if op >= 3 {
		c = v1[N-1] // scalar from the pattern
	}
	cs := make([]T, N)
	for i := range cs {
		cs[i] = c
	}
	var want, alloc []T
	el := func(f func(o, a, b uint64) uint64) []T {
		r := make([]T, N)
		for i := range r {
			r[i] = T(f(uint64(int64(vo[i])), uint64(int64(v0[i])), uint64(int64(v1[i]))))
		}
		return r
	}
	cu := uint64(int64(c))
	switch op {
	case 0:
		alloc = e.AddPoly(p0.Poly, p1.Poly).Coeffs
		e.AddPolyTo(out.Poly, p0.Poly, p1.Poly)
		want = el(func(o, a, b uint64) uint64 { return a + b })
	case 1:
		alloc = e.SubPoly(p0.Poly, p1.Poly).Coeffs
		e.SubPolyTo(out.Poly, p0.Poly, p1.Poly)
		want = el(func(o, a, b uint64) uint64 { return a - b })
	case 2:
		alloc = e.NegPoly(p0.Poly).Coeffs
		e.NegPolyTo(out.Poly, p0.Poly)
		want = el(func(o, a, b uint64) uint64 { return -a })
	case 3:
		alloc = e.ScalarMulPoly(p0.Poly, c).Coeffs
		e.ScalarMulPolyTo(out.Poly, p0.Poly, c)
		want = el(func(o, a, b uint64) uint64 { return a * cu })
	case 4:
		e.ScalarMulAddPolyTo(out.Poly, p0.Poly, c)
		want = el(func(o, a, b uint64) uint64 { return o + a*cu })
	case 5:
		e.ScalarMulSubPolyTo(out.Poly, p0.Poly, c)
		want = el(func(o, a, b uint64) uint64 { return o - a*cu })
	}
	wantP(x, fmt.Sprintf("linear operation %d", op), out.Coeffs, want)
	if alloc != nil {
		wantP(x, fmt.Sprintf("allocating linear operation %d", op), alloc, want)
	}
	if alias != 1 && alias != 4 {
		wantP(x, "operand 0 modified", p0.Coeffs, v0)
	}
	if alias != 2 && alias != 4 {
		wantP(x, "operand 1 modified", p1.Coeffs, v1)
	}
	p0.guard(x)
	p1.guard(x)
	out.guard(x)
	x.Step(1)
	var z T
	x.State("lin", fmt.Sprintf("%T", z), N, op, a, b, alias)
}

// --- monomials and automorphisms: every exponent ---

var extremeExp = []int{math.MaxInt, math.MinInt, math.MaxInt - 1, math.MinInt + 1, 1<<40 + 3, -(1 << 40) - 3, 1<<31 - 1, -1 << 31}

// bigN is the degree from which harnesses thin out patterns and exponents.
const bigN = 512

// exponent chooses an exponent: all of [-4N-2,4N+2] and extreme ones, for large degrees those around multiples of N/4.
func exponent(x *X, N int) int {
	if N < bigN {
		span := 4*N + 2
		di := x.Choose(2*span+1+len(extremeExp), "d")
		if di > 2*span {
			return extremeExp[di-2*span-1]
		}
		return di - span
	}
	k := x.Choose(9*4*3+len(extremeExp)+2, "d")
	switch {
	case k < 108:
		return (k/3-18)*(N/4) + k%3 - 1
	case k < 110:
		return []int{5, -25}[k-108]
	}
	return extremeExp[k-110]
}

func c04monoT[T num.Integer](x *X, N int) {
	pat := 0
	if N < bigN {
		pat = x.Choose(3, "p")
	}
	d := exponent(x, N)
	e := pev[T](N)
	v := polyPat[T](N, []int{4, 3, 5}[pat])
	vo := polyPat[T](N, []int{6, 1, 4}[pat])
	fresh := func(off int, f []T) gpoly[T] { return mkg(N, off, f) }
	p := fresh(16, v)
	check := func(what string, o gpoly[T], want []T) {
		wantP(x, fmt.Sprintf("%s d=%d", what, d), o.Coeffs, want)
		o.guard(x)
		wantP(x, what+" modified its operand", p.Coeffs, v)
		x.Step(1)
	}
	m := ref1(func(a []uint64) []uint64 { return nMono(a, d) }, v)
	add := func(a, b []T) []T { return ref2(func(a, b []uint64) []uint64 { return nAdd(a, b) }, a, b) }
	sub := func(a, b []T) []T { return ref2(func(a, b []uint64) []uint64 { return nSub(a, b) }, a, b) }
	wantP(x, "MonomialMulPoly", e.MonomialMulPoly(p.Poly, d).Coeffs, m)
	o := fresh(15, vo)
	e.MonomialMulPolyTo(o.Poly, p.Poly, d)
	check("MonomialMulPolyTo", o, m)
	o = fresh(15, v)
	e.MonomialMulPolyInPlace(o.Poly, d)
	check("MonomialMulPolyInPlace", o, m)
	o = fresh(15, vo)
	e.MonomialMulAddPolyTo(o.Poly, p.Poly, d)
	check("MonomialMulAddPolyTo", o, add(vo, m))
	o = fresh(15, vo)
	e.MonomialMulSubPolyTo(o.Poly, p.Poly, d)
	check("MonomialMulSubPolyTo", o, sub(vo, m))
	if d&1 == 0 {
		for i, f := range []func(){
			func() { e.PermutePoly(p.Poly, d) }, func() { e.PermutePolyTo(o.Poly, p.Poly, d) }, func() { e.PermutePolyInPlace(o.Poly, d) },
			func() { e.PermuteAddPolyTo(o.Poly, p.Poly, d) }, func() { e.PermuteSubPolyTo(o.Poly, p.Poly, d) },
		} {
			x.Assert(x.Panics(f), "automorphism form %d accepts the even exponent %d", i, d)
		}
	} else {
		m = ref1(func(a []uint64) []uint64 { return nPerm(a, d) }, v)
		wantP(x, "PermutePoly", e.PermutePoly(p.Poly, d).Coeffs, m)
		o = fresh(15, vo)
		e.PermutePolyTo(o.Poly, p.Poly, d)
		check("PermutePolyTo", o, m)
		o = fresh(15, v)
		e.PermutePolyInPlace(o.Poly, d)
		check("PermutePolyInPlace", o, m)
		o = fresh(15, vo)
		e.PermuteAddPolyTo(o.Poly, p.Poly, d)
		check("PermuteAddPolyTo", o, add(vo, m))
		o = fresh(15, vo)
		e.PermuteSubPolyTo(o.Poly, p.Poly, d)
		check("PermuteSubPolyTo", o, sub(vo, m))
	}
	var z T
	x.State("mono", fmt.Sprintf("%T", z), N, d, pat)
}

// --- products ---

// bigMul is the ring product, remembered for large degrees.
func bigMul[T num.Integer](a, b []T, what string) []T {
	f := func() []T { return ref2(func(a, b []uint64) []uint64 { return nMul(a, b) }, a, b) }
	if len(a) < bigN {
		return f()
	}
	return core.Memo(fmt.Sprintf("bigMul:%T:%d:%s:%x:%x", a, len(a), what, snap(a), snap(b)), f)
}

func c04mulT[T num.Integer](x *X, N int, basis bool) {
	var v0, v1, s1 []T
	what := ""
	if basis { // c0 X^i * c1 X^j
		i, j := x.Choose(N, "i"), x.Choose(N, "j")
		k := x.Choose(x.Pick(2, 4), "c")
		v0, v1, s1 = make([]T, N), make([]T, N), make([]T, N)
		v0[i] = polyPat[T](N, []int{1, 4, 2, 6}[k])[i]
		v1[j] = polyPat[T](N, []int{1, 6, 1, 4}[k])[j]
		s1[j] = shortPat[T](N, []int{1, 2, 4, 3}[k])[j]
		what = fmt.Sprintf("%vX^%d * %vX^%d", v0[i], i, v1[j], j)
	} else {
		var a, b int
		if N < bigN || x.Thorough() {
			a, b = x.Choose(nPolyPat, "p0"), x.Choose(nPolyPat, "p1")
		} else {
			ab := core.OneOf(x, "p", [][2]int{{1, 1}, {4, 6}, {3, 3}, {2, 1}, {6, 2}})
			a, b = ab[0], ab[1]
		}
		v0, v1 = polyPat[T](N, a), polyPat[T](N, b)
		s1 = shortPat[T](N, b%nShortPat)
		what = fmt.Sprintf("patterns %d * %d", a, b)
	}
	short := x.Bool("short")
	form := x.Choose(4, "form")     // alloc, to, add, sub
	alias := x.Choose(4, "overlap") // 0 none, 1 out=p0, 2 out=p1, 3 p0=p1
	if short && (alias == 2 || alias == 3) || form == 0 && alias != 0 || basis && alias != 0 {
		return
	}
	e := pev[T](N)
	out := mkg(N, 15, polyPat[T](N, 4))
	p0, p1 := mkg(N, 16, v0), mkg(N, 13, v1)
	switch alias {
	case 1:
		out = p0
	case 2:
		out = p1
	case 3:
		p1 = p0
		v1 = v0
	}
	vo := append([]T{}, out.Coeffs...)
	if short {
		v1 = s1
	}
	pr := bigMul(v0, v1, what)
	want := pr
	if form == 2 {
		want = ref2(func(a, b []uint64) []uint64 { return nAdd(a, b) }, vo, pr)
	}
	if form == 3 {
		want = ref2(func(a, b []uint64) []uint64 { return nSub(a, b) }, vo, pr)
	}
	var got []T
	if short {
		fp := e.FwdFFT(poly.From(s1, N))
		h := snap(fp)
		switch form {
		case 0:
			got = e.ShortFFTPolyMulPoly(p0.Poly, fp).Coeffs
		case 1:
			e.ShortFFTPolyMulPolyTo(out.Poly, p0.Poly, fp)
		case 2:
			e.ShortFFTPolyMulAddPolyTo(out.Poly, p0.Poly, fp)
		case 3:
			e.ShortFFTPolyMulSubPolyTo(out.Poly, p0.Poly, fp)
		}
		x.Assert(snap(fp) == h, "short operand modified")
	} else {
		switch form {
		case 0:
			got = e.MulPoly(p0.Poly, p1.Poly).Coeffs
		case 1:
			e.MulPolyTo(out.Poly, p0.Poly, p1.Poly)
		case 2:
			e.MulAddPolyTo(out.Poly, p0.Poly, p1.Poly)
		case 3:
			e.MulSubPolyTo(out.Poly, p0.Poly, p1.Poly)
		}
	}
	if form > 0 {
		got = out.Coeffs
	}
	wantP(x, fmt.Sprintf("product %s short=%v form=%d overlap=%d", what, short, form, alias), got, want)
	if alias != 1 {
		wantP(x, "operand 0 modified", p0.Coeffs, v0)
	}
	if alias != 2 && !short {
		wantP(x, "operand 1 modified", p1.Coeffs, v1)
	}
	p0.guard(x)
	p1.guard(x)
	out.guard(x)
	x.Step(1)
	var z T
	x.State("mul", fmt.Sprintf("%T", z), N, what, short, form, alias)
}

type polyRunner struct {
	name string
	lin  func(*X, int)
	mono func(*X, int)
	mul  func(*X, int, bool)
	fft  func(*X, int)
}

func runnerOf[T num.Integer](name string) polyRunner {
	return polyRunner{name, c04linT[T], c04monoT[T], c04mulT[T], nil}
}

var polyTypes = []polyRunner{
	runnerOf[uint64]("uint64"), runnerOf[uint32]("uint32"), runnerOf[int64]("int64"), runnerOf[int32]("int32"), runnerOf[uint8]("uint8"), runnerOf[int8]("int8"),
	runnerOf[uint16]("uint16"), runnerOf[int16]("int16"), runnerOf[int]("int"), runnerOf[uint]("uint"), runnerOf[uintptr]("uintptr"),
}

func init() {
	core.Register(core.Harness{Prop: "C04", Name: "linear", Bound: "11 integer types x degrees 16-64 x 6 operations x 8x8 operand patterns x 5 overlaps x alignment, guard words around every polynomial", Run: func(x *X) {
		r := core.OneOf(x, "type", polyTypes)
		N := core.OneOf(x, "N", []int{16, 32, 64})
		r.lin(x, N)
	}})
	core.Register(core.Harness{Prop: "C04", Name: "monomial-automorphism", Bound: "11 types x degrees 16, 32 (thorough ..128) x every exponent in [-4N-2, 4N+2] and 8 extreme ones x 10 forms", Run: func(x *X) {
		r := core.OneOf(x, "type", polyTypes)
		N := core.OneOf(x, "N", []int{16, 32, 64, 128}[:x.Pick(2, 4)])
		r.mono(x, N)
	}})
	core.Register(core.Harness{Prop: "C04", Name: "product-patterns", Bound: "11 types x degrees 16-128 (thorough ..1024) x 8x8 boundary operand patterns x full/short x 4 forms x overlaps", Run: func(x *X) {
		r := core.OneOf(x, "type", polyTypes)
		N := core.OneOf(x, "N", []int{16, 64, 32, 128, 256, 512, 1024}[:x.Pick(2, 7)])
		r.mul(x, N, false)
	}})
	core.Register(core.Harness{Prop: "C04", Name: "product-basis", Bound: "11 types (quick 4) x all products c0X^i*c1X^j of ring degree 16 (thorough 32) x 2 (4) coefficient pairs x full/short x forms", Run: func(x *X) {
		r := core.OneOf(x, "type", polyTypes[:x.Pick(4, 11)])
		N := core.OneOf(x, "N", []int{16, 32}[:x.Pick(1, 2)])
		r.mul(x, N, true)
	}})
	core.Register(core.Harness{Prop: "C04", Name: "large", Bound: "4 (thorough 11) types x degrees 512-32768 x linear operations, monomials and automorphisms (118 exponents), full and short products of 5 (thorough 64) dense pattern pairs", Run: func(x *X) {
		N := core.OneOf(x, "N", []int{1024, 32768, 4096, 2048, 512, 16384, 8192}[:x.Pick(3, 7)])
		kind := x.Choose(3, "kind")
		if kind == 1 && N > 4096 && !x.Thorough() {
			N = 512
		}
		r := core.OneOf(x, "type", polyTypes[:x.Pick(4, 11)])
		switch kind {
		case 0:
			r.lin(x, N)
		case 1:
			r.mono(x, N)
		case 2:
			r.mul(x, N, false)
		}
	}})
}
