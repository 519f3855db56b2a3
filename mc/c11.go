package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C11: gadget products, external products and CMux.  Oracle: the phase of the output, computed with the naive ring,
// against the naive product of the leveled plaintext and the phase of the other operand.  Encryption noise is below
// one unit of the torus, so that the tolerance is the rounding of the decomposition.

func lowNoise[T TI](s shape) tfhe.ParametersLiteral[T] {
	l := lit[T](s)
	l.LWEStdDev = math.Exp2(-float64(bitsOf[T]()) - 2)
	l.GLWEStdDev = l.LWEStdDev
	return l
}

func lowEnv[T TI](s shape) *tenv[T] { return envOf("low"+s.String(), lowNoise[T](s)) }

var c11shapes = []shape{
	{n: 6, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4},
	{n: 5, k: 2, N: 16, lut: 16, block: 1, order: brks, msg: 4},
	{n: 8, k: 3, N: 32, lut: 32, block: 1, order: brks, msg: 4},
	{n: 8, k: 1, N: 64, lut: 64, block: 1, order: ksbr, msg: 4},
}

// gadgets: partial and full covers, minimal and large bases, one level, more levels than the parameter set's own.
func c11gads[T TI]() []tfhe.GadgetParametersLiteral[T] {
	if bitsOf[T]() == 32 {
		return []tfhe.GadgetParametersLiteral[T]{gad[T](7, 3), gad[T](8, 4), gad[T](4, 7), gad[T](10, 1), gad[T](16, 2), gad[T](1, 8)}
	}
	return []tfhe.GadgetParametersLiteral[T]{gad[T](10, 3), gad[T](16, 4), gad[T](8, 7), gad[T](20, 1), gad[T](32, 2), gad[T](1, 12)}
}

func sabs[T TI](v T) uint64 {
	if n := -v; n < v {
		return uint64(n)
	}
	return uint64(v)
}

func norm1[T TI](v []T) uint64 {
	var s uint64
	for _, c := range v {
		s += sabs(c)
	}
	return s
}

// prodTol bounds the error of summing rows gadget products in degree N.  a1 is the 1-norm of the leveled plaintext
// and s1 the number by which the rounding errors of the decomposed operand are multiplied in total.
func prodTol[T TI](g tfhe.GadgetParameters[T], N, rows int, a1, s1, noise uint64, fft bool) uint64 {
	w := bitsOf[T]()
	t := 0.0
	if last := w - g.Level()*g.LogBase(); last > 0 {
		t += float64(a1) * float64(s1) * math.Exp2(float64(last-1))
	}
	m := float64(rows*g.Level()*N) * math.Exp2(float64(g.LogBase()-1))
	t += m*float64(noise) + 2
	if fft {
		t += m * math.Exp2(float64(w-52))
	}
	if t > math.Exp2(float64(w-3)) {
		return 1 << 63 // too coarse a gadget for this operand: only the agreement of the forms is checked
	}
	return uint64(t)
}

// keyTol is the rounding error of the mask components of a Fourier product as seen by the phase.
func keyTol[T TI](g tfhe.GadgetParameters[T], s shape, rows int) uint64 {
	return uint64(s.k*s.N) * prodTol(g, s.N, rows, 0, 0, 0, true)
}

func lowCap[T TI](p tfhe.Parameters[T]) uint64 {
	return noiseCap(math.Max(p.GLWEStdDevQ(), p.LWEStdDevQ())) / 4
}

// c11lwe: products in the LWE family.
func c11lwe[T TI](x *X) {
	s := core.OneOf(x, "shape", c11shapes[:x.Pick(2, 3)])
	gl := core.OneOf(x, "gadget", c11gads[T]())
	kind := x.Choose(2, "kind") // gadget or external
	ai := x.Choose(5, "a")
	bi := x.Choose(6, "b")
	over := false
	if kind == 1 {
		over = x.Bool("overlap")
	}
	g := gl.Compile()
	a := []T{0, 1, ^T(0), 3, T(0) - 2}[ai]
	e := lowEnv[T](s)
	ev := e.eval()
	key := e.defKey()
	fx := core.Memo(fmt.Sprintf("c11lwe:%s:%v:%d:%d:%d", tname[T](), s, gl.Base, gl.Level, ai), func() [2]any {
		enc := e.enc()
		return [2]any{enc.EncryptLevScalar(a, g), enc.EncryptGSWScalar(a, g)}
	})
	lev, gsw := fx[0].(tfhe.LevCiphertext[T]), fx[1].(tfhe.GSWCiphertext[T])
	P := e.P
	n := P.DefaultLWEDimension()
	noise := lowCap(P)
	var b []T
	switch {
	case bi < 3:
		b = ctPat[T](0, n+1, bi, 7)[0]
	case bi == 3:
		b = make([]T, n+1)
		b[n] = ^T(0)
	case bi == 4:
		b = nScale(ctPat[T](0, n+1, 0, 9)[0], 1<<(bitsOf[T]()/2))
	case bi == 5: // boundaries of the rounding
		b = make([]T, n+1)
		for i := range b {
			b[i] = T(1)<<(bitsOf[T]()-g.LogBase()) - T(i%3) + 1<<(bitsOf[T]()-1)
		}
	}
	old := ctPat[T](0, n+1, 0, 3)[0]
	mk := func(v []T) tfhe.LWECiphertext[T] { return tfhe.LWECiphertext[T]{Value: append([]T{}, v...)} }
	h := snap(lev, gsw)
	var want T
	var tol uint64
	var f [4]func(o tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
	in := mk(b)
	if kind == 0 {
		c := b[1]
		want = a * c
		tol = prodTol(g, 1, 1, sabs(a), 1, noise, false)
		f[0] = func(o tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { return ev.GadgetProdLWE(lev, c) }
		f[1] = func(o tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { ev.GadgetProdLWETo(o, lev, c); return o }
		f[2] = func(o tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { ev.GadgetProdAddLWETo(o, lev, c); return o }
		f[3] = func(o tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { ev.GadgetProdSubLWETo(o, lev, c); return o }
	} else {
		want = a * lwePhase(b, key)
		tol = prodTol(g, 1, n+1, sabs(a), 1+norm1(key), noise, false)
		f[0] = func(o tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { return ev.ExternalProdLWE(gsw, in) }
		f[1] = func(o tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { ev.ExternalProdLWETo(o, gsw, in); return o }
		f[2] = func(o tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { ev.ExternalProdAddLWETo(o, gsw, in); return o }
		f[3] = func(o tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] { ev.ExternalProdSubLWETo(o, gsw, in); return o }
	}
	var first []T
	for i, fn := range f {
		in = mk(b)
		o := mk(old)
		base := old
		if over && i > 0 {
			o, base = in, b
		}
		r := fn(o)
		exp := want
		v := append([]T{}, r.Value...)
		x.Assert(len(v) == n+1, "product form %d has %d entries", i, len(v))
		switch i {
		case 2:
			v = nSub(v, base)
		case 3:
			v = nSub(base, v)
		}
		if i == 0 {
			first = v
		}
		what := fmt.Sprintf("LWE product kind %d form %d of %d (gadget 2^%d x %d, dimension %d, overlap %v)", kind, i, int64(a), g.LogBase(), g.Level(), n, over)
		if d := cdist(lwePhase(v, key), exp); d > tol {
			x.Fail("%s: phase off by %d (tolerance %d)", what, d, tol)
		}
		x.Assert(eqT(v, first), "%s: differs from the allocating form", what)
		if !over || i == 0 {
			x.Assert(eqT(in.Value, b), "%s: modified its input", what)
		}
	}
	x.Assert(snap(lev, gsw) == h, "a product modified its leveled operand")
	x.Step(4)
	x.State(tname[T](), s, g.LogBase(), kind, ai, bi, over)
}

type c11fx[T TI] struct {
	lev tfhe.FFTGLevCiphertext[T]
	gsw tfhe.FFTGGSWCiphertext[T]
	a   []T
}

func c11get[T TI](s shape, gl tfhe.GadgetParametersLiteral[T], ai int) c11fx[T] {
	e := lowEnv[T](s)
	return core.Memo(fmt.Sprintf("c11glwe:%s:%v:%d:%d:%d", tname[T](), s, gl.Base, gl.Level, ai), func() c11fx[T] {
		enc := e.enc()
		var a []T
		switch {
		case ai == 0:
			a = make([]T, s.N)
		case ai == 1:
			a = make([]T, s.N)
			a[0] = 1
		case ai == 2:
			a = make([]T, s.N)
			a[s.N-1] = ^T(0)
		default:
			a = smallPat[T](s.N, []int{7, 1, 4}[ai-3], 2)
		}
		p := poly.From(append([]T{}, a...), s.N)
		r := c11fx[T]{lev: enc.EncryptFFTGLevPoly(p, gl.Compile()), gsw: enc.EncryptFFTGGSWPoly(p, gl.Compile()), a: a}
		return r
	})
}

// c11glwe: products in the GLWE family, in standard and Fourier-decomposed form.
func c11glwe[T TI](x *X) {
	s := core.OneOf(x, "shape", c11shapes)
	gl := core.OneOf(x, "gadget", c11gads[T]())
	ai := x.Choose(x.Pick(4, 6), "a")
	kind := x.Choose(2, "kind")
	bi := x.Choose(5, "b")
	over := x.Choose(2, "overlap")
	hist := x.Choose(2, "history")
	g := gl.Compile()
	e := lowEnv[T](s)
	P := e.P
	fx := c11get(s, gl, ai)
	ev := e.eval()
	if hist == 1 { // other gadgets were used before on the same object
		o := c11get(s, c11gads[T]()[4], 1)
		ev.ExternalProdGLWE(o.gsw, mkGLWE(ctPat[T](s.k, s.N, 0, 5)))
		o = c11get(s, c11gads[T]()[5], 1)
		ev.GadgetProdGLWE(o.lev, poly.From(ctPat[T](0, s.N, 0, 5)[0], s.N))
		if ai == 1 {
			ev = ev.SafeCopy()
		}
	}
	key := e.SK.GLWEKey.Value
	b := ctPat[T](s.k, s.N, bi%3, 7)
	if bi == 3 {
		b = mapc(b, func(v []T) []T { return make([]T, s.N) })
		b[s.k][s.N-1] = ^T(0)
	}
	if bi == 4 {
		b = mapc(b, func(v []T) []T {
			for i := range v {
				v[i] = T(1)<<(bitsOf[T]()-g.LogBase()) - T(i%3) + 1<<(bitsOf[T]()-1)
			}
			return v
		})
	}
	noise := lowCap(P)
	h := snap(fx.lev, fx.gsw)
	var want []T
	var tol uint64
	in := mkGLWE(b)
	var op func(form int, o tfhe.GLWECiphertext[T], fo tfhe.FFTGLWECiphertext[T]) tfhe.GLWECiphertext[T]
	if kind == 0 {
		want = nMul(fx.a, b[s.k])
		tol = prodTol(g, s.N, 1, norm1(fx.a), 1, noise, true) + keyTol(g, s, 1)
		op = func(form int, o tfhe.GLWECiphertext[T], fo tfhe.FFTGLWECiphertext[T]) tfhe.GLWECiphertext[T] {
			p := in.Value[s.k]
			switch form {
			case 0:
				return ev.GadgetProdGLWE(fx.lev, p)
			case 1:
				ev.GadgetProdGLWETo(o, fx.lev, p)
			case 2:
				ev.GadgetProdAddGLWETo(o, fx.lev, p)
			case 3:
				ev.GadgetProdSubGLWETo(o, fx.lev, p)
			case 4:
				ev.GadgetProdFFTGLWETo(fo, fx.lev, ev.Decomposer.FourierDecomposePoly(p, g))
			case 5:
				ev.GadgetProdAddFFTGLWETo(fo, fx.lev, ev.Decomposer.FourierDecomposePoly(p, g))
			case 6:
				ev.GadgetProdSubFFTGLWETo(fo, fx.lev, ev.Decomposer.FourierDecomposePoly(p, g))
			}
			return o
		}
	} else {
		s1 := uint64(1)
		for _, k := range key {
			s1 += norm1(k.Coeffs)
		}
		want = nMul(fx.a, glwePhase(in.Value, key))
		tol = prodTol(g, s.N, s.k+1, norm1(fx.a), s1, noise, true) + keyTol(g, s, s.k+1)
		dc := func() [][]poly.FFTPoly {
			r := make([][]poly.FFTPoly, s.k+1)
			for i := range r {
				r[i] = ev.Decomposer.FourierDecomposePoly(in.Value[i], g)
			}
			return r
		}
		op = func(form int, o tfhe.GLWECiphertext[T], fo tfhe.FFTGLWECiphertext[T]) tfhe.GLWECiphertext[T] {
			switch form {
			case 0:
				return ev.ExternalProdGLWE(fx.gsw, in)
			case 1:
				ev.ExternalProdGLWETo(o, fx.gsw, in)
			case 2:
				ev.ExternalProdAddGLWETo(o, fx.gsw, in)
			case 3:
				ev.ExternalProdSubGLWETo(o, fx.gsw, in)
			case 4:
				ev.ExternalProdFFTGLWETo(fo, fx.gsw, dc())
			case 5:
				ev.ExternalProdAddFFTGLWETo(fo, fx.gsw, dc())
			case 6:
				ev.ExternalProdSubFFTGLWETo(fo, fx.gsw, dc())
			}
			return o
		}
	}
	old := ctPat[T](s.k, s.N, 0, 3)
	// key-independent agreement of the forms: every component within rounding
	var first [][]T
	for form := 0; form < 7; form++ {
		if over == 1 && (form == 0 || form > 3) {
			continue
		}
		in = mkGLWE(b)
		o, base := mkGLWE(old), old
		if over == 1 {
			o, base = in, b
		}
		fo := ev.FwdFFTGLWECiphertext(mkGLWE(old))
		r := op(form, o, fo)
		if form >= 4 {
			r = ev.InvFFTGLWECiphertext(fo)
		}
		v := make([][]T, s.k+1)
		for i := range v {
			v[i] = append([]T{}, r.Value[i].Coeffs...)
			switch form {
			case 2, 5:
				v[i] = nSub(v[i], base[i])
			case 3, 6:
				v[i] = nSub(base[i], v[i])
			}
		}
		what := fmt.Sprintf("GLWE product kind %d form %d (gadget 2^%d x %d, %v, overlap %v, a %v)", kind, form, g.LogBase(), g.Level(), s, over, fx.a)
		ph := append([]T{}, v[0]...)
		for i := range key {
			ph = nAdd(ph, nMul(v[i+1], key[i].Coeffs))
		}
		// accumulating onto full-range Fourier values costs the precision of one transform per key coefficient
		extra := uint64(0)
		if form >= 4 && bitsOf[T]() == 64 {
			extra = uint64(s.N*(s.k+1)) << 14
		}
		if d := maxDist(ph, want); d > tol+extra {
			x.Fail("%s: phase off by %d (tolerance %d)", what, d, tol)
		}
		if first == nil {
			first = v
		}
		ft := prodTol(g, s.N, s.k+1, 0, 0, 0, true) + extra
		for i := range v {
			if d := maxDist(v[i], first[i]); d > ft {
				x.Fail("%s: component %d differs from the first form by %d (tolerance %d)", what, i, d, ft)
			}
		}
		if over == 0 {
			for i := range b {
				x.Assert(eqT(in.Value[i].Coeffs, b[i]), "%s modified its input", what)
			}
		}
	}
	x.Assert(snap(fx.lev, fx.gsw) == h, "a product modified its leveled operand")
	x.Step(7)
	x.State(tname[T](), s, g.LogBase(), kind, ai, bi, over, hist)
}

// c11cmux: selectors 0 and 1, every operand pattern and overlap, and complete selection trees.
func c11cmux[T TI](x *X) {
	s := core.OneOf(x, "shape", c11shapes)
	gi := x.Choose(2, "gadget")
	mode := x.Choose(2, "mode")
	gl := c11gads[T]()[gi]
	g := gl.Compile()
	e := lowEnv[T](s)
	ev := e.eval()
	key := e.SK.GLWEKey.Value
	s1 := uint64(1)
	for _, k := range key {
		s1 += norm1(k.Coeffs)
	}
	tol := prodTol(g, s.N, s.k+1, 1, s1, lowCap(e.P), true) + keyTol(g, s, s.k+1)
	sel := [2]c11fx[T]{c11get(s, gl, 0), c11get(s, gl, 1)}
	h := snap(sel[0].gsw, sel[1].gsw)
	if mode == 0 {
		b := x.Choose(2, "selector")
		p0, p1 := x.Choose(3, "ct0"), x.Choose(3, "ct1")
		al := x.Choose(4, "overlap")
		v0, v1 := ctPat[T](s.k, s.N, p0, 1), ctPat[T](s.k, s.N, p1, 2)
		c0, c1 := mkGLWE(v0), mkGLWE(v1)
		o := mkGLWE(ctPat[T](s.k, s.N, 0, 3))
		switch al {
		case 1:
			o = c0
		case 2:
			c1, v1 = c0, v0
		case 3:
			c1, v1, o = c0, v0, c0
		}
		want := glwePhase(mkGLWE([][][]T{v0, v1}[b]).Value, key)
		r := ev.CMux(sel[b].gsw, c0, c1)
		ev.CMuxTo(o, sel[b].gsw, c0, c1)
		for i, c := range []tfhe.GLWECiphertext[T]{r, o} {
			if d := maxDist(glwePhase(c.Value, key), want); d > tol {
				x.Fail("CMux form %d with selector %d (overlap %d, %v): phase off by %d (tolerance %d)", i, b, al, s, d, tol)
			}
		}
		if al == 0 || al == 2 {
			wantGLWE(x, "CMux operand 0", c0, v0, 0)
		}
		if al < 2 {
			wantGLWE(x, "CMux operand 1", c1, v1, 0)
		}
		x.State(tname[T](), s, gi, b, p0, p1, al)
	} else {
		d := x.Pick(3, 4)
		leaves := 1 << d
		idx := x.Choose(leaves, "index")
		cts := make([]tfhe.GLWECiphertext[T], leaves)
		want := make([][]T, leaves)
		for i := range cts {
			cts[i] = mkGLWE(ctPat[T](s.k, s.N, 0, 20+i))
			want[i] = glwePhase(cts[i].Value, key)
		}
		for l := 0; l < d; l++ {
			for i := 0; i < leaves>>(l+1); i++ {
				if i%2 == 0 {
					cts[i] = ev.CMux(sel[idx>>l&1].gsw, cts[2*i], cts[2*i+1])
				} else {
					ev.CMuxTo(cts[2*i], sel[idx>>l&1].gsw, cts[2*i], cts[2*i+1])
					cts[i] = cts[2*i].Copy()
				}
			}
		}
		if df := maxDist(glwePhase(cts[0].Value, key), want[idx]); df > max(tol, tol*uint64(d)) {
			x.Fail("CMux tree of depth %d at index %d: phase off by %d (tolerance %d)", d, idx, df, tol*uint64(d))
		}
		x.State(tname[T](), s, gi, "tree", idx)
	}
	x.Assert(snap(sel[0].gsw, sel[1].gsw) == h, "CMux modified its selector")
	x.Step(1)
}

func init() {
	all := []string{"avx2", "cpuoff", "purego"}
	reg := func(name, bound string, shards int, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C11", Name: name, Backends: all, Shards: shards, Bound: bound, Run: func(x *X) {
			if x.Bool("64") {
				f64(x)
			} else {
				f32(x)
			}
		}})
	}
	reg("lwe", "gadget and external product in all forms x 2 (thorough 3) dimensions x 6 gadgets x 5 scalars x 6 operand patterns x overlap", 2, c11lwe[uint32], c11lwe[uint64])
	reg("glwe", "gadget and external product in all 7 forms x rank 1-3, N 16..64 x 6 gadgets x 4 (6) polynomials x 5 operand patterns x overlap x history", 4, c11glwe[uint32], c11glwe[uint64])
	reg("cmux", "CMux x rank 1-3 x 2 gadgets x both selectors x 9 operand patterns x 4 overlaps; every index of a selection tree of depth 3 (4)", 1, c11cmux[uint32], c11cmux[uint64])
}
