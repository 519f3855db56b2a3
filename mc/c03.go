package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// c03values lists values around every carry and rounding boundary of a gadget.
func c03values[T TI](lb, lv int, thorough bool) []T {
	w := bitsOf[T]()
	last := w - lb*lv
	set := map[T]bool{}
	var out []T
	add := func(v T) {
		if !set[v] {
			set[v] = true
			out = append(out, v)
		}
	}
	for _, v := range []T{0, 1, ^T(0), ^T(1), ^T(0) >> 1, ^T(0)>>1 + 1} {
		add(v)
	}
	for i := 0; i < w; i++ {
		for _, d := range []T{0, 1, ^T(0)} {
			add(T(1)<<i + d)
			add(-(T(1) << i) + d)
		}
	}
	// digit patterns: low digits free over the carry classes, the high ones constant
	half := T(1) << (lb - 1)
	classes := []T{0, half, half - 1, half*2 - 1}
	var rems []T
	if last == 0 {
		rems = []T{0}
	} else {
		h := T(1) << (last - 1)
		rems = []T{0, h - 1, h, h*2 - 1}
		if thorough {
			rems = append(rems, 1, h+1)
		}
	}
	free := min(lv, 4)
	if thorough {
		free = min(lv, 5)
	}
	n := 1
	for i := 0; i < free; i++ {
		n *= 4
	}
	for c := 0; c < n; c++ {
		for _, top := range classes {
			for _, r := range rems {
				v := r
				cc := c
				for i := 0; i < lv; i++ {
					d := top
					if i < free {
						d = classes[cc&3]
						cc >>= 2
					}
					v += d << (last + i*lb)
				}
				add(v)
			}
			if lv <= free {
				break
			}
		}
	}
	return out
}

func c03gadgets[T TI](x *X) (int, int) {
	w := bitsOf[T]()
	lb := 1 + x.Choose(w-1, "logBase")
	return lb, 1 + x.Choose(w/lb, "level")
}

// checkDigits checks the specification of a decomposition of v.
func checkDigits[T TI](x *X, what string, lb, lv int, v T, dig []T) {
	w := bitsOf[T]()
	var re T
	for i, d := range dig {
		m := uint64(d)
		if n := uint64(-d); n < m {
			m = n
		}
		if m > uint64(T(1)<<(lb-1)) {
			x.Fail("%s: digit %d of %#x (base 2^%d, level %d) is %#x", what, i, v, lb, lv, d)
		}
		re += d << (w - (i+1)*lb)
	}
	lim := uint64(0)
	if last := w - lb*lv; last > 0 {
		lim = 1 << (last - 1)
	}
	if cdist(re, v) > lim {
		x.Fail("%s: %#x (base 2^%d, level %d) recomposes to %#x from %#x", what, v, lb, lv, re, dig)
	}
}

func c03[T TI](x *X) {
	lb, lv := c03gadgets[T](x)
	N := core.OneOf(x, "N", []int{16, 32, 1024}[:2+x.Pick((lb+lv)%4/3, 1)])
	hist := x.Choose(2, "history")
	vals := c03values[T](lb, lv, x.Thorough())
	g := gad[T](lb, lv).Compile()
	d := core.Memo(fmt.Sprintf("dec%s%d", tname[T](), N), func() *tfhe.Decomposer[T] { return tfhe.NewDecomposer[T](N) })
	x.Assert(g.LogBase() == lb && g.Level() == lv && g.Base() == T(1)<<lb, "gadget accessors")
	for i := 0; i < lv; i++ {
		lq := bitsOf[T]() - (i+1)*lb
		x.Assert(g.LogBaseQ(i) == lq && g.BaseQ(i) == T(1)<<lq, "BaseQ(%d)", i)
	}
	x.Assert(g.FirstBaseQ() == g.BaseQ(0) && g.LastBaseQ() == g.BaseQ(lv-1) && g.LogFirstBaseQ() == g.LogBaseQ(0) && g.LogLastBaseQ() == g.LogBaseQ(lv-1), "first and last factors")
	if hist == 1 {
		d = d.SafeCopy()
	}
	// scalar
	var prev, prevCopy []T
	to := make([]T, lv)
	for _, v := range vals {
		dig := d.DecomposeScalar(v, g)
		x.Assert(len(dig) == lv, "%d digits", len(dig))
		checkDigits(x, "scalar", lb, lv, v, dig)
		for i := range to {
			to[i] = ^T(0) / 3
		}
		d.DecomposeScalarTo(to, v, g)
		var re T
		for i := range dig {
			x.Assert(dig[i] == to[i], "DecomposeScalarTo differs")
			re += dig[i] << (bitsOf[T]() - (i+1)*lb)
		}
		x.Assert(d.RecomposeScalar(dig, g) == re, "RecomposeScalar of %#x", dig)
		if prev != nil {
			for i := range prev {
				x.Assert(prev[i] == prevCopy[i], "an earlier result was changed")
			}
		}
		prev, prevCopy = dig, append([]T{}, dig...)
		x.State(lb, lv, uint64(v))
	}
	x.Step(len(vals))
	// polynomials: every value visits different lanes
	p := poly.NewPoly[T](N)
	out := make([]poly.Poly[T], lv)
	for i := range out {
		out[i] = poly.NewPoly[T](N)
		dirty(out[i], 3)
	}
	fout := make([]poly.FFTPoly, lv)
	for i := range fout {
		fout[i] = poly.NewFFTPoly(N)
	}
	stride := N - 3
	var earlier []any // results of earlier rounds
	var marks []uint64
	keep := func(r any) { earlier, marks = append(earlier, r), append(marks, snap(r)) }
	pe := poly.NewEvaluator[T](N)
	for s := 0; s < len(vals); s += stride {
		for i := range p.Coeffs {
			p.Coeffs[i] = vals[(s+i)%len(vals)]
		}
		in := p.Copy()
		var dig []poly.Poly[T]
		if hist == 0 {
			dig = d.DecomposePoly(p, g)
			d.DecomposePolyTo(out, p, g)
		} else {
			dig = d.PolyBuffer(g)[:lv]
			d.DecomposePolyTo(dig, p, g)
			for i := range out {
				out[i].CopyFrom(dig[i])
			}
		}
		x.Assert(len(dig) == lv, "%d digit polynomials", len(dig))
		for i := range earlier {
			x.Assert(snap(earlier[i]) == marks[i], "an earlier polynomial result was changed")
		}
		earlier, marks = earlier[:0], marks[:0]
		if hist == 0 {
			keep(dig)
		}
		one := make([]T, lv)
		for i, v := range p.Coeffs {
			sc := d.DecomposeScalar(v, g)
			for l := range one {
				one[l] = out[l].Coeffs[i]
				if one[l] != sc[l] || dig[l].Coeffs[i] != sc[l] {
					x.Fail("polynomial digit %d of coefficient %d (%#x, base 2^%d level %d) is %#x, scalar digit %#x", l, i, v, lb, lv, one[l], sc[l])
				}
			}
		}
		// recomposition
		ho := snap(out)
		rp := d.RecomposePoly(out, g)
		keep(rp)
		rq := poly.NewPoly[T](N)
		dirty(rq, 9)
		d.RecomposePolyTo(rq, out, g)
		x.Assert(snap(out) == ho, "recomposition modified its input")
		for i := range rp.Coeffs {
			for l := range one {
				one[l] = out[l].Coeffs[i]
			}
			r := d.RecomposeScalar(one, g)
			x.Assert(rp.Coeffs[i] == r && rq.Coeffs[i] == r, "RecomposePoly coefficient %d", i)
		}
		if s < 6*stride {
			tol := uint64(0)
			if lb > 40 {
				tol = 1 << (lb - 40)
			}
			if hist == 0 {
				f2 := d.FourierDecomposePoly(p, g)
				keep(f2)
				d.FourierDecomposePolyTo(fout, p, g)
				for l := range f2 {
					x.Assert(f2[l].Equals(fout[l]), "FourierDecomposePolyTo differs")
				}
			} else {
				fout = d.FFTPolyBuffer(g)[:lv]
				d.FourierDecomposePolyTo(fout, p, g)
			}
			for l := range fout {
				if dd := maxDist(unfft(pe, fout[l]), out[l].Coeffs); dd > tol {
					x.Fail("Fourier digit %d differs by %d (base 2^%d level %d)", l, dd, lb, lv)
				}
			}
		}
		x.Assert(p.Equals(in), "input modified")
		x.Step(1)
	}
	x.Observe("ok")
}

// unfft recovers a polynomial from its plain forward transform, whatever scaling convention the transform uses.
func unfft[T TI](pe *poly.Evaluator[T], f poly.FFTPoly) []T {
	return pe.InvFFT(f).Coeffs
}

func init() {
	b := "every gadget (all bases 2^1..2^(w-1), all levels that fit) x values at every bit, carry and rounding boundary (digit patterns over {0,B/2-1,B/2,B-1}, remainders over {0,h-1,h,2h-1}) x all lanes of rings 16, 32 (and 1024 for a quarter of the gadgets, thorough all); earlier results kept under watch"
	core.Register(core.Harness{Prop: "C03", Name: "u64", Bound: b, Run: c03[uint64]})
	core.Register(core.Harness{Prop: "C03", Name: "u32", Bound: b, Run: c03[uint32]})
}
