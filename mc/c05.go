package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"verifmc/core"
)

// gfft is a Fourier polynomial inside a guarded array.
type gfft struct {
	back []float64
	off  int
	poly.FFTPoly
}

func mkf(N, off int, fill []float64) gfft {
	g := gfft{back: make([]float64, N+32), off: off}
	for i := range g.back {
		g.back[i] = float64(i) + 0.125
	}
	g.FFTPoly = poly.FFTPoly{Coeffs: g.back[off : off+N : off+N]}
	copy(g.Coeffs, fill)
	return g
}

func (g gfft) guard(x *X) {
	for i, v := range g.back {
		if (i < g.off || i >= g.off+len(g.Coeffs)) && v != float64(i)+0.125 {
			x.Fail("memory outside the Fourier polynomial was written (index %d)", i-g.off)
		}
	}
}

// smallPat gives polynomials with coefficients of at most b in magnitude.
func smallPat[T num.Integer](N, k, b int) []T {
	r := make([]T, N)
	for i := range r {
		v := 0
		switch k {
		case 0:
			v = b
		case 1:
			v = (i*i*13+5*i+3)%(2*b+1) - b
		case 2:
			v = b * (1 - 2*(i&1))
		case 3:
			if i == N-1 {
				v = -b
			}
		case 4:
			v = (i*29+11)%(2*b+1) - b
		case 5:
			v = -b * (i / (N / 2))
		case 6:
			if i == N/2 {
				v = 1
			}
		case 7:
			v = i % 2
		}
		r[i] = T(v)
	}
	return r
}

const nSmallPat = 8

func wantApprox[T num.Integer](x *X, what string, got, want []T, tol uint64) {
	w := num.SizeT[T]()
	for i := range got {
		d := uint64(int64(got[i])) - uint64(int64(want[i]))
		d <<= 64 - w
		if n := -d; n < d {
			d = n
		}
		d >>= 64 - w
		if d > tol {
			x.Fail("%s: coefficient %d is %v, want %v (tolerance %d)", what, i, got[i], want[i], tol)
		}
	}
}

// c05opsT checks every Fourier-domain operation on two operands.
func c05opsT[T num.Integer](x *X, N int) {
	op := x.Choose(24, "op")
	a, b := 1, 4
	if N < bigN {
		a, b = x.Choose(nSmallPat, "p0"), x.Choose(nSmallPat, "p1")
	}
	alias := x.Choose(5, "overlap")
	di := 0
	if op >= 19 {
		di = x.Choose(3, "exponent")
	}
	cop := x.Choose(2, "evaluator")
	e := pev[T](N)
	if cop == 1 {
		e = e.SafeCopy()
	}
	B := 100
	v0, v1, vo := smallPat[T](N, a, B), smallPat[T](N, b, B), smallPat[T](N, 4, B)
	f0, f1 := mkf(N, 16, e.FwdFFT(poly.From(v0, N)).Coeffs), mkf(N, 12, e.FwdFFT(poly.From(v1, N)).Coeffs)
	fo := mkf(N, 14, e.FwdFFT(poly.From(vo, N)).Coeffs)
	p1 := poly.From(v1, N)
	switch alias {
	case 1:
		fo, vo = f0, v0
	case 2:
		fo, vo = f1, v1
	case 3:
		f1, v1 = f0, v0
		p1 = poly.From(v0, N)
	case 4:
		f1, v1, fo, vo = f0, v0, f0, v0
		p1 = poly.From(v0, N)
	}
	h0, h1, hp := snap(f0.Coeffs), snap(f1.Coeffs), snap(p1)
	R := func(f func(a, b []uint64) []uint64, p, q []T) []T { return ref2(f, p, q) }
	add := func(p, q []T) []T { return R(func(a, b []uint64) []uint64 { return nAdd(a, b) }, p, q) }
	sub := func(p, q []T) []T { return R(func(a, b []uint64) []uint64 { return nSub(a, b) }, p, q) }
	mul := func(p, q []T) []T { return R(func(a, b []uint64) []uint64 { return nMul(a, b) }, p, q) }
	sc := func(p []T, c int) []T {
		return ref1(func(a []uint64) []uint64 { return nScale(a, uint64(int64(c))) }, p)
	}
	cx := func(p []T, re, im int) []T { // the class of i is X^(N/2)
		return ref1(func(a []uint64) []uint64 {
			return nAdd(nScale(a, uint64(int64(re))), nScale(nMono(a, N/2), uint64(int64(im))))
		}, p)
	}
	var want []T
	var alloc *poly.FFTPoly
	al := func(f poly.FFTPoly) { alloc = &f }
	d := []int{5, 2*N - 1, -3}[di]
	noOverlap := false
	o := fo.FFTPoly
	switch op {
	case 0:
		al(e.AddFFTPoly(f0.FFTPoly, f1.FFTPoly))
		e.AddFFTPolyTo(o, f0.FFTPoly, f1.FFTPoly)
		want = add(v0, v1)
	case 1:
		al(e.SubFFTPoly(f0.FFTPoly, f1.FFTPoly))
		e.SubFFTPolyTo(o, f0.FFTPoly, f1.FFTPoly)
		want = sub(v0, v1)
	case 2:
		al(e.NegFFTPoly(f0.FFTPoly))
		e.NegFFTPolyTo(o, f0.FFTPoly)
		want = sc(v0, -1)
	case 3:
		al(e.FloatMulFFTPoly(f0.FFTPoly, -7))
		e.FloatMulFFTPolyTo(o, f0.FFTPoly, -7)
		want = sc(v0, -7)
	case 4:
		e.FloatMulAddFFTPolyTo(o, f0.FFTPoly, 5)
		want = add(vo, sc(v0, 5))
	case 5:
		e.FloatMulSubFFTPolyTo(o, f0.FFTPoly, 5)
		want = sub(vo, sc(v0, 5))
	case 6:
		al(e.CmplxMulFFTPoly(f0.FFTPoly, complex(3, -2)))
		e.CmplxMulFFTPolyTo(o, f0.FFTPoly, complex(3, -2))
		want = cx(v0, 3, -2)
	case 7:
		e.CmplxMulAddFFTPolyTo(o, f0.FFTPoly, complex(-1, 4))
		want = add(vo, cx(v0, -1, 4))
	case 8:
		e.CmplxMulSubFFTPolyTo(o, f0.FFTPoly, complex(2, 3))
		want = sub(vo, cx(v0, 2, 3))
	case 9:
		al(e.MulFFTPoly(f0.FFTPoly, f1.FFTPoly))
		e.MulFFTPolyTo(o, f0.FFTPoly, f1.FFTPoly)
		want = mul(v0, v1)
	case 10:
		e.MulAddFFTPolyTo(o, f0.FFTPoly, f1.FFTPoly)
		want = add(vo, mul(v0, v1))
	case 11:
		e.MulSubFFTPolyTo(o, f0.FFTPoly, f1.FFTPoly)
		want = sub(vo, mul(v0, v1))
	case 12:
		al(e.PolyMulFFTPoly(f0.FFTPoly, p1))
		e.PolyMulFFTPolyTo(o, f0.FFTPoly, p1)
		want = mul(v0, p1.Coeffs)
	case 13:
		e.PolyMulAddFFTPolyTo(o, f0.FFTPoly, p1)
		want = add(vo, mul(v0, p1.Coeffs))
	case 14:
		e.PolyMulSubFFTPolyTo(o, f0.FFTPoly, p1)
		want = sub(vo, mul(v0, p1.Coeffs))
	case 15:
		e.FwdFFTTo(o, p1)
		want = p1.Coeffs
	case 16:
		e.FwdFFTAddTo(o, p1)
		want = add(vo, p1.Coeffs)
	case 17:
		e.FwdFFTSubTo(o, p1)
		want = sub(vo, p1.Coeffs)
	case 18: // copies and comparisons
		c := f0.FFTPoly.Copy()
		x.Assert(c.Equals(f0.FFTPoly) && c.Approx(f0.FFTPoly, 0.5), "copy not equal")
		c.Coeffs[N-1] += 1
		x.Assert(!c.Equals(f0.FFTPoly) && !c.Approx(f0.FFTPoly, 0.5) && snap(f0.Coeffs) == h0, "Equals/Approx/Copy")
		o.CopyFrom(f0.FFTPoly)
		want = v0
	case 19:
		if noOverlap = alias == 1 || alias == 4; !noOverlap {
			al(e.PermuteFFTPoly(f0.FFTPoly, d))
			e.PermuteFFTPolyTo(o, f0.FFTPoly, d)
			want = ref1(func(a []uint64) []uint64 { return nPerm(a, d) }, v0)
		}
	case 20:
		e.PermuteFFTPolyInPlace(o, d)
		want = ref1(func(a []uint64) []uint64 { return nPerm(a, d) }, vo)
	case 21:
		if noOverlap = alias == 1 || alias == 4; !noOverlap {
			e.PermuteAddFFTPolyTo(o, f0.FFTPoly, d)
			want = add(vo, ref1(func(a []uint64) []uint64 { return nPerm(a, d) }, v0))
		}
	case 22:
		if noOverlap = alias == 1 || alias == 4; !noOverlap {
			e.PermuteSubFFTPolyTo(o, f0.FFTPoly, d)
			want = sub(vo, ref1(func(a []uint64) []uint64 { return nPerm(a, d) }, v0))
		}
	case 23: // products with a polynomial result, all forms
		pp := poly.From(v0, N)
		po := mkg(N, 15, smallPat[T](N, 1, B))
		old := append([]T{}, po.Coeffs...)
		pr := mul(v0, v1)
		wantP(x, "FFTPolyMulPoly", e.FFTPolyMulPoly(pp, f1.FFTPoly).Coeffs, pr)
		switch di {
		case 0:
			e.FFTPolyMulPolyTo(po.Poly, pp, f1.FFTPoly)
			wantP(x, "FFTPolyMulPolyTo", po.Coeffs, pr)
			e.FFTPolyMulPolyTo(pp, pp, f1.FFTPoly)
			wantP(x, "FFTPolyMulPolyTo in place", pp.Coeffs, pr)
		case 1:
			e.FFTPolyMulAddPolyTo(po.Poly, pp, f1.FFTPoly)
			wantP(x, "FFTPolyMulAddPolyTo", po.Coeffs, add(old, pr))
			e.FFTPolyMulAddPolyTo(pp, pp, f1.FFTPoly)
			wantP(x, "FFTPolyMulAddPolyTo in place", pp.Coeffs, add(v0, pr))
		case 2:
			e.FFTPolyMulSubPolyTo(po.Poly, pp, f1.FFTPoly)
			wantP(x, "FFTPolyMulSubPolyTo", po.Coeffs, sub(old, pr))
			e.FFTPolyMulSubPolyTo(pp, pp, f1.FFTPoly)
			wantP(x, "FFTPolyMulSubPolyTo in place", pp.Coeffs, sub(v0, pr))
		}
		po.guard(x)
		o.CopyFrom(e.FwdFFT(poly.From(v0, N)))
		want = v0
	}
	if noOverlap {
		return
	}
	wantP(x, fmt.Sprintf("Fourier operation %d", op), e.InvFFT(o).Coeffs, want)
	if alloc != nil {
		wantP(x, fmt.Sprintf("allocating Fourier operation %d", op), e.InvFFT(*alloc).Coeffs, want)
	}
	if alias != 1 && alias != 4 {
		x.Assert(snap(f0.Coeffs) == h0, "Fourier operand 0 modified by operation %d", op)
	}
	if alias != 2 && alias != 4 {
		x.Assert(snap(f1.Coeffs) == h1, "Fourier operand 1 modified by operation %d", op)
	}
	x.Assert(snap(p1) == hp, "polynomial operand modified by operation %d", op)
	f0.guard(x)
	f1.guard(x)
	fo.guard(x)
	x.Step(1)
	var z T
	x.State(fmt.Sprintf("%T", z), N, op, a, b, alias, di)
}

// c05invT checks the transforms themselves: full-size operands, accumulation, input preservation, reduction modulo Q.
func c05invT[T num.Integer](x *X, N int) {
	form := x.Choose(7, "form")
	pat := x.Choose(nPolyPat+2, "p")
	w := num.SizeT[T]()
	e := pev[T](N)
	var v []T
	var f poly.FFTPoly
	if pat < nPolyPat {
		v = polyPat[T](N, pat)
		f = e.FwdFFT(poly.From(v, N))
	} else { // values far above Q
		s := smallPat[T](N, pat-nPolyPat+1, 100)
		sh := w - 3
		f = e.FloatMulFFTPoly(e.FwdFFT(poly.From(s, N)), math.Exp2(float64(sh)))
		v = ref1(func(a []uint64) []uint64 { return nScale(a, uint64(1)<<sh) }, s)
	}
	tol := uint64(0)
	if w == 64 {
		tol = 1 << 16
		if pat >= nPolyPat {
			tol = 1 << 22
		}
	}
	old := polyPat[T](N, 4)
	o := mkg(N, 13, old)
	g := mkf(N, 11, f.Coeffs)
	h := snap(g.Coeffs)
	want := v
	switch form {
	case 0:
		wantApprox(x, "InvFFT", e.InvFFT(g.FFTPoly).Coeffs, v, tol)
		copy(o.Coeffs, v)
	case 1:
		e.InvFFTTo(o.Poly, g.FFTPoly)
	case 2:
		e.InvFFTAddTo(o.Poly, g.FFTPoly)
		want = ref2(func(a, b []uint64) []uint64 { return nAdd(a, b) }, old, v)
	case 3:
		e.InvFFTSubTo(o.Poly, g.FFTPoly)
		want = ref2(func(a, b []uint64) []uint64 { return nSub(a, b) }, old, v)
	case 4:
		e.InvFFTToUnsafe(o.Poly, g.FFTPoly)
	case 5:
		e.InvFFTAddToUnsafe(o.Poly, g.FFTPoly)
		want = ref2(func(a, b []uint64) []uint64 { return nAdd(a, b) }, old, v)
	case 6:
		e.InvFFTSubToUnsafe(o.Poly, g.FFTPoly)
		want = ref2(func(a, b []uint64) []uint64 { return nSub(a, b) }, old, v)
	}
	wantApprox(x, fmt.Sprintf("inverse transform form %d pattern %d", form, pat), o.Coeffs, want, tol)
	if form < 4 {
		x.Assert(snap(g.Coeffs) == h, "inverse transform form %d modified its input", form)
	}
	o.guard(x)
	g.guard(x)
	x.Step(1)
	var z T
	x.State(fmt.Sprintf("%T", z), N, form, pat)
}

// c05monoT checks transforms of monomials and Fourier automorphisms for every exponent.
func c05monoT[T num.Integer](x *X, N int) {
	d := exponent(x, N)
	e := pev[T](N)
	one := make([]T, N)
	one[0] = 1
	m := ref1(func(a []uint64) []uint64 { return nMono(a, d) }, one)
	m1 := ref2(func(a, b []uint64) []uint64 { return nSub(a, b) }, m, one)
	scale := func(f poly.FFTPoly, c int) []T { return e.InvFFT(e.FloatMulFFTPoly(f, float64(c))).Coeffs }
	sc := func(p []T, c int) []T {
		return ref1(func(a []uint64) []uint64 { return nScale(a, uint64(int64(c))) }, p)
	}
	o := mkf(N, 9, nil)
	if d >= 0 {
		wantP(x, fmt.Sprintf("MonomialFwdFFT(%d)", d), scale(e.MonomialFwdFFT(d), 99), sc(m, 99))
		e.MonomialFwdFFTTo(o.FFTPoly, d)
		wantP(x, fmt.Sprintf("MonomialFwdFFTTo(%d)", d), scale(o.FFTPoly, 99), sc(m, 99))
		o.guard(x)
		wantP(x, fmt.Sprintf("MonomialSubOneFwdFFT(%d)", d), scale(e.MonomialSubOneFwdFFT(d), 99), sc(m1, 99))
		e.MonomialSubOneFwdFFTTo(o.FFTPoly, d)
		wantP(x, fmt.Sprintf("MonomialSubOneFwdFFTTo(%d)", d), scale(o.FFTPoly, 99), sc(m1, 99))
		o.guard(x)
	}
	v := smallPat[T](N, 1, 100)
	f := mkf(N, 7, e.FwdFFT(poly.From(v, N)).Coeffs)
	if d&1 == 0 {
		for i, q := range []func(){
			func() { e.PermuteFFTPoly(f.FFTPoly, d) }, func() { e.PermuteFFTPolyTo(o.FFTPoly, f.FFTPoly, d) }, func() { e.PermuteFFTPolyInPlace(o.FFTPoly, d) },
			func() { e.PermuteAddFFTPolyTo(o.FFTPoly, f.FFTPoly, d) }, func() { e.PermuteSubFFTPolyTo(o.FFTPoly, f.FFTPoly, d) },
		} {
			x.Assert(x.Panics(q), "Fourier automorphism form %d accepts the even exponent %d", i, d)
		}
	} else {
		pm := ref1(func(a []uint64) []uint64 { return nPerm(a, d) }, v)
		e.PermuteFFTPolyTo(o.FFTPoly, f.FFTPoly, d)
		wantP(x, fmt.Sprintf("PermuteFFTPolyTo(%d)", d), e.InvFFT(o.FFTPoly).Coeffs, pm)
		e.PermuteAddFFTPolyTo(o.FFTPoly, f.FFTPoly, d)
		wantP(x, fmt.Sprintf("PermuteAddFFTPolyTo(%d)", d), e.InvFFT(o.FFTPoly).Coeffs, sc(pm, 2))
		e.PermuteSubFFTPolyTo(o.FFTPoly, f.FFTPoly, d)
		wantP(x, fmt.Sprintf("PermuteSubFFTPolyTo(%d)", d), e.InvFFT(o.FFTPoly).Coeffs, pm)
		e.PermuteFFTPolyInPlace(f.FFTPoly, d)
		wantP(x, fmt.Sprintf("PermuteFFTPolyInPlace(%d)", d), e.InvFFT(f.FFTPoly).Coeffs, pm)
		o.guard(x)
		f.guard(x)
	}
	x.Step(4)
	var z T
	x.State("mono", fmt.Sprintf("%T", z), N, d)
}

type fftRunner struct {
	name           string
	ops, inv, mono func(*X, int)
}

func fftRunnerOf[T num.Integer](name string) fftRunner {
	return fftRunner{name, c05opsT[T], c05invT[T], c05monoT[T]}
}

var fftTypes = []fftRunner{
	fftRunnerOf[uint64]("uint64"), fftRunnerOf[uint32]("uint32"), fftRunnerOf[int64]("int64"), fftRunnerOf[int32]("int32"), fftRunnerOf[uint8]("uint8"), fftRunnerOf[int8]("int8"),
	fftRunnerOf[uint16]("uint16"), fftRunnerOf[int16]("int16"), fftRunnerOf[int]("int"), fftRunnerOf[uint]("uint"), fftRunnerOf[uintptr]("uintptr"),
}

func init() {
	core.Register(core.Harness{Prop: "C05", Name: "operations", Bound: "types (quick 3, thorough 11) x degrees 16-64 (..256) x 24 Fourier operations x 8x8 operand patterns x 5 overlaps x exponents", Run: func(x *X) {
		r := core.OneOf(x, "type", fftTypes[:x.Pick(3, 11)])
		N := core.OneOf(x, "N", []int{16, 32, 64, 128, 256}[:x.Pick(3, 5)])
		r.ops(x, N)
	}})
	core.Register(core.Harness{Prop: "C05", Name: "transforms", Bound: "11 types x degrees 16-1024 (thorough ..8192) x 7 inverse forms x 8 full-size patterns and 2 patterns above Q", Run: func(x *X) {
		r := core.OneOf(x, "type", fftTypes)
		N := core.OneOf(x, "N", []int{16, 32, 64, 256, 1024, 2048, 4096, 8192}[:x.Pick(5, 8)])
		r.inv(x, N)
	}})
	core.Register(core.Harness{Prop: "C05", Name: "monomial-automorphism", Bound: "11 types x degrees 16-64 (..256) x every exponent in [-4N-2,4N+2] (non-negative ones for monomials) and extreme ones", Run: func(x *X) {
		r := core.OneOf(x, "type", fftTypes)
		N := core.OneOf(x, "N", []int{16, 32, 64, 128, 256}[:x.Pick(3, 5)])
		r.mono(x, N)
	}})
	core.Register(core.Harness{Prop: "C05", Name: "large", Bound: "4 (thorough 11) types x degrees 512-32768 x operations, inverse forms, monomials and automorphisms (118 exponents)", Run: func(x *X) {
		N := core.OneOf(x, "N", []int{1024, 32768, 4096, 2048, 512, 16384, 8192}[:x.Pick(3, 7)])
		kind := x.Choose(3, "kind")
		if kind == 2 && N > 4096 && !x.Thorough() {
			N = 2048
		}
		r := core.OneOf(x, "type", fftTypes[:x.Pick(4, 11)])
		switch kind {
		case 0:
			r.ops(x, N)
		case 1:
			r.inv(x, N)
		case 2:
			r.mono(x, N)
		}
	}})
}
