package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C10: linear operations.  The phase changes by the operation under every key exactly when every component does,
// so the oracle is the naive ring operation on each component, plus the phase under two concrete keys.

// ctPat gives arbitrary ciphertext components: full-range patterns different per component.
func ctPat[T TI](k, N, pat, salt int) [][]T {
	r := make([][]T, k+1)
	for i := range r {
		r[i] = make([]T, N)
		for j := range r[i] {
			switch pat {
			case 0:
				r[i][j] = T(mix64(uint64(1+j+N*i+1000*salt)) >> (64 - bitsOf[T]()))
			case 1:
				r[i][j] = []T{^T(0), 1 << (bitsOf[T]() - 1), 1, 0, 1<<(bitsOf[T]()-1) - 1}[(j+2*i+salt)%5]
			case 2:
				if j == (i*3+salt)%N {
					r[i][j] = T(i+1) << (bitsOf[T]() - 4)
				}
			}
		}
	}
	return r
}

func mkGLWE[T TI](v [][]T) tfhe.GLWECiphertext[T] {
	ct := tfhe.NewGLWECiphertextCustom[T](len(v)-1, len(v[0]))
	for i := range v {
		copy(ct.Value[i].Coeffs, v[i])
	}
	return ct
}

func mapc[T TI](v [][]T, f func([]T) []T) [][]T {
	r := make([][]T, len(v))
	for i := range v {
		r[i] = f(v[i])
	}
	return r
}

func mapc2[T TI](a, b [][]T, f func(a, b []T) []T) [][]T {
	r := make([][]T, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

func wantGLWE[T TI](x *X, what string, got tfhe.GLWECiphertext[T], want [][]T, tol uint64) {
	x.Assert(len(got.Value) == len(want), "%s: %d components, want %d", what, len(got.Value), len(want))
	for i := range want {
		if d := maxDist(got.Value[i].Coeffs, want[i]); d > tol {
			x.Fail("%s: component %d off by %d (tolerance %d)", what, i, d, tol)
		}
	}
}

func c10params[T TI](k, N int) tfhe.Parameters[T] {
	return lit[T](shape{4, k, N, N, 1, ksbr, 4}).Compile()
}

type c10eval[T TI] struct {
	p tfhe.Parameters[T]
	e *tfhe.Evaluator[T]
}

func c10ev[T TI](mk bool, k, N int) c10ring[T] {
	if mk {
		return c10mkev[T](k, N)
	}
	return core.Memo(fmt.Sprintf("c10:%s:%d:%d", tname[T](), k, N), func() c10ring[T] {
		return c10sk[T]{tfhe.NewEvaluator(c10params[T](k, N), tfhe.EvaluationKey[T]{})}
	})
}

// c10lwe: every LWE operation, dimension, pattern, overlap, constant.
func c10lwe[T TI](x *X, multi bool) {
	op := x.Choose(9, "op")
	bro := x.Bool("order")
	k := 1 + x.Choose(2, "rank")
	al := x.Choose(5, "overlap")
	pa, pb := x.Choose(3, "a"), x.Choose(3, "b")
	ci := 0
	if op >= 5 {
		ci = x.Choose(6, "constant")
	}
	l := lit[T](shape{[]int{4, 7}[k-1], k, 16, 16, 1, ksbr, 4})
	if bro {
		l.BootstrapOrder = brks
	}
	var n int
	var e c10ring[T]
	if multi {
		ml := mklit[T](mkShape{n: []int{4, 7}[k-1], N: 16, block: 1, parties: k + 1, order: l.BootstrapOrder, msg: 4})
		mp := ml.Compile()
		n = mp.DefaultLWEDimension()
		e = c10mk[T]{mktfhe.NewEvaluator(mp, map[int]mktfhe.EvaluationKey[T]{})}
	} else {
		p := l.Compile()
		n = p.DefaultLWEDimension()
		e = c10sk[T]{tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})}
	}
	a, b, o := ctPat[T](0, n+1, pa, 1)[0], ctPat[T](0, n+1, pb, 2)[0], ctPat[T](0, n+1, 0, 3)[0]
	mk := func(v []T) tfhe.LWECiphertext[T] { return tfhe.LWECiphertext[T]{Value: append([]T{}, v...)} }
	ca, cb, co := mk(a), mk(b), mk(o)
	switch al {
	case 1:
		co, o = ca, a
	case 2:
		co, o = cb, b
	case 3:
		cb, b = ca, a
	case 4:
		cb, b, co, o = ca, a, ca, a
	}
	c := []T{0, 1, ^T(0), 3, 1 << (bitsOf[T]() - 1), T(mix64(77) >> (64 - bitsOf[T]()))}[ci]
	pt := tfhe.LWEPlaintext[T]{Value: b[0]}
	plain := func(s T) []T { r := append([]T{}, a...); r[0] += s; return r }
	var want []T
	var ret *tfhe.LWECiphertext[T]
	rt := func(c tfhe.LWECiphertext[T]) { ret = &c }
	switch op {
	case 0:
		rt(e.AddLWE(ca, cb))
		e.AddLWETo(co, ca, cb)
		want = nAdd(a, b)
	case 1:
		rt(e.SubLWE(ca, cb))
		e.SubLWETo(co, ca, cb)
		want = nSub(a, b)
	case 2:
		rt(e.AddPlainLWE(ca, pt))
		e.AddPlainLWETo(co, ca, pt)
		want = plain(pt.Value)
	case 3:
		rt(e.SubPlainLWE(ca, pt))
		e.SubPlainLWETo(co, ca, pt)
		want = plain(-pt.Value)
	case 4:
		rt(e.NegLWE(ca))
		e.NegLWETo(co, ca)
		want = nScale(a, ^T(0))
	case 5:
		rt(e.ScalarMulLWE(ca, c))
		e.ScalarMulLWETo(co, ca, c)
		want = nScale(a, c)
	case 6:
		e.ScalarMulAddLWETo(co, ca, c)
		want = nAdd(o, nScale(a, c))
	case 7:
		e.ScalarMulSubLWETo(co, ca, c)
		want = nSub(o, nScale(a, c))
	case 8: // chain: o = c*(a-b)+o
		t := e.SubLWE(ca, cb)
		e.ScalarMulAddLWETo(co, t, c)
		want = nAdd(o, nScale(nSub(a, b), c))
	}
	x.Assert(eqT(co.Value, want), "LWE operation %d (overlap %d): %v, want %v", op, al, co.Value, want)
	if ret != nil {
		x.Assert(eqT(ret.Value, want), "allocating LWE operation %d: %v, want %v", op, ret.Value, want)
	}
	if al == 0 || al == 3 {
		x.Assert(eqT(ca.Value, a) && eqT(cb.Value, b), "LWE operation %d modified an input", op)
	}
	if al == 1 {
		x.Assert(eqT(cb.Value, b), "LWE operation %d modified an input", op)
	}
	if al == 2 {
		x.Assert(eqT(ca.Value, a), "LWE operation %d modified an input", op)
	}
	x.Step(1)
	x.State(tname[T](), "lwe", op, n, al, pa, pb, ci)
}

func eqT[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// c10glwe: every GLWE operation.
func c10glwe[T TI](x *X, multi bool) {
	op := x.Choose(24, "op")
	k := 1 + x.Choose(3, "rank")
	N := []int{16, 32, 64}[x.Choose(x.Pick(2, 3), "N")]
	al := x.Choose(5, "overlap")
	pa, pb := x.Choose(3, "a"), x.Choose(3, "b")
	arg := 0
	switch {
	case op >= 5 && op <= 7, op >= 8 && op <= 13:
		arg = x.Choose(6, "constant")
	case op >= 14 && op <= 17:
		arg = x.Choose(x.Pick(4*N+1, 8*N+1), "exponent") - x.Pick(2*N, 4*N)
	case op >= 18 && op <= 21:
		arg = 2*(x.Choose(x.Pick(2*N, 4*N), "exponent")-x.Pick(N, 2*N)) + 1
	}
	e := c10ev[T](multi, k, N)
	if (pa+pb)%2 == 1 {
		e = e.dup()
	}
	a, b, o := ctPat[T](k, N, pa, 1), ctPat[T](k, N, pb, 2), ctPat[T](k, N, 0, 3)
	ca, cb, co := mkGLWE(a), mkGLWE(b), mkGLWE(o)
	switch al {
	case 1:
		co, o = ca, a
	case 2:
		co, o = cb, b
	case 3:
		cb, b = ca, a
	case 4:
		cb, b, co, o = ca, a, ca, a
	}
	noOver := al == 1 || al == 4 // out overlaps a
	c := []T{0, 1, ^T(0), 3, 1 << (bitsOf[T]() - 1), T(mix64(77) >> (64 - bitsOf[T]()))}[arg&7%6]
	pt := tfhe.GLWEPlaintext[T]{Value: poly.Poly[T]{Coeffs: b[k]}}
	var pp poly.Poly[T]
	if op >= 8 && op <= 10 {
		pp = poly.From(polyPat[T](N, arg), N)
	}
	sp := poly.From(smallPat[T](N, arg&7%6, 3), N)
	tol := uint64(0)
	plain := func(f func(a, b []T) []T) [][]T {
		r := mapc(a, func(v []T) []T { return append([]T{}, v...) })
		r[0] = f(r[0], pt.Value.Coeffs)
		return r
	}
	hpt := snap(pt, pp)
	var want [][]T
	var ret *tfhe.GLWECiphertext[T]
	rt := func(c tfhe.GLWECiphertext[T]) { ret = &c }
	mulp := func(p []T) [][]T { return mapc(a, func(v []T) []T { return nMul(v, p) }) }
	mono := func() [][]T { return mapc(a, func(v []T) []T { return nMono(v, arg) }) }
	perm := func() [][]T { return mapc(a, func(v []T) []T { return nPerm(v, arg) }) }
	switch op {
	case 0:
		rt(e.AddGLWE(ca, cb))
		e.AddGLWETo(co, ca, cb)
		want = mapc2(a, b, nAdd[T])
	case 1:
		rt(e.SubGLWE(ca, cb))
		e.SubGLWETo(co, ca, cb)
		want = mapc2(a, b, nSub[T])
	case 2:
		rt(e.AddPlainGLWE(ca, pt))
		e.AddPlainGLWETo(co, ca, pt)
		want = plain(nAdd[T])
	case 3:
		rt(e.SubPlainGLWE(ca, pt))
		e.SubPlainGLWETo(co, ca, pt)
		want = plain(nSub[T])
	case 4:
		rt(e.NegGLWE(ca))
		e.NegGLWETo(co, ca)
		want = mapc(a, func(v []T) []T { return nScale(v, ^T(0)) })
	case 5:
		rt(e.ScalarMulGLWE(ca, c))
		e.ScalarMulGLWETo(co, ca, c)
		want = mapc(a, func(v []T) []T { return nScale(v, c) })
	case 6:
		e.ScalarMulAddGLWETo(co, ca, c)
		want = mapc2(o, a, func(o, v []T) []T { return nAdd(o, nScale(v, c)) })
	case 7:
		e.ScalarMulSubGLWETo(co, ca, c)
		want = mapc2(o, a, func(o, v []T) []T { return nSub(o, nScale(v, c)) })
	case 8:
		rt(e.PolyMulGLWE(ca, pp))
		e.PolyMulGLWETo(co, ca, pp)
		want = mulp(pp.Coeffs)
	case 9:
		e.PolyMulAddGLWETo(co, ca, pp)
		want = mapc2(o, mulp(pp.Coeffs), nAdd[T])
	case 10:
		e.PolyMulSubGLWETo(co, ca, pp)
		want = mapc2(o, mulp(pp.Coeffs), nSub[T])
	case 11:
		fp := e.polyEv().FwdFFT(sp)
		rt(e.FFTPolyMulGLWE(ca, fp))
		e.FFTPolyMulGLWETo(co, ca, fp)
		want, tol = mulp(sp.Coeffs), fftTol[T]()
	case 12:
		e.FFTPolyMulAddGLWETo(co, ca, e.polyEv().FwdFFT(sp))
		want, tol = mapc2(o, mulp(sp.Coeffs), nAdd[T]), fftTol[T]()
	case 13:
		e.FFTPolyMulSubGLWETo(co, ca, e.polyEv().FwdFFT(sp))
		want, tol = mapc2(o, mulp(sp.Coeffs), nSub[T]), fftTol[T]()
	case 14:
		rt(e.MonomialMulGLWE(ca, arg))
		if noOver {
			return
		}
		e.MonomialMulGLWETo(co, ca, arg)
		want = mono()
	case 15:
		e.MonomialMulGLWEInPlace(co, arg)
		want = mapc(o, func(v []T) []T { return nMono(v, arg) })
	case 16:
		if noOver {
			return
		}
		e.MonomialMulAddGLWETo(co, ca, arg)
		want = mapc2(o, mono(), nAdd[T])
	case 17:
		if noOver {
			return
		}
		e.MonomialMulSubGLWETo(co, ca, arg)
		want = mapc2(o, mono(), nSub[T])
	case 18:
		rt(e.PermuteGLWE(ca, arg))
		if noOver {
			return
		}
		e.PermuteGLWETo(co, ca, arg)
		want = perm()
	case 19:
		e.PermuteGLWEInPlace(co, arg)
		want = mapc(o, func(v []T) []T { return nPerm(v, arg) })
	case 20:
		if noOver {
			return
		}
		e.PermuteAddGLWETo(co, ca, arg)
		want = mapc2(o, perm(), nAdd[T])
	case 21:
		if noOver {
			return
		}
		e.PermuteSubGLWETo(co, ca, arg)
		want = mapc2(o, perm(), nSub[T])
	case 22: // even automorphisms are rejected by every form
		for _, d := range []int{0, 2, -2, N, 2 * N} {
			for i, f := range []func(){
				func() { e.PermuteGLWE(ca, d) }, func() { e.PermuteGLWETo(co, cb, d) }, func() { e.PermuteGLWEInPlace(co, d) },
				func() { e.PermuteAddGLWETo(co, cb, d) }, func() { e.PermuteSubGLWETo(co, cb, d) },
			} {
				x.Assert(x.Panics(f), "automorphism form %d accepts the even exponent %d", i, d)
			}
		}
		want = o
	case 23: // a short program: ((a*X^3 + b) * 5 - o) through different forms
		t := e.MonomialMulGLWE(ca, 3)
		e.AddGLWETo(t, t, cb)
		e.ScalarMulGLWETo(t, t, 5)
		e.SubGLWETo(t, t, co)
		e.PermuteGLWEInPlace(t, 2*N-1)
		w := mapc(a, func(v []T) []T { return nMono(v, 3) })
		w = mapc2(w, b, nAdd[T])
		w = mapc2(mapc(w, func(v []T) []T { return nScale(v, 5) }), o, nSub[T])
		wantGLWE(x, "program", t, mapc(w, func(v []T) []T { return nPerm(v, 2*N-1) }), 0)
		want = o
	}
	what := fmt.Sprintf("GLWE operation %d (rank %d N %d overlap %d argument %d)", op, k, N, al, arg)
	wantGLWE(x, what, co, want, tol)
	if ret != nil {
		wantGLWE(x, "allocating "+what, *ret, want, tol)
	}
	if al != 1 && al != 4 {
		wantGLWE(x, what+" input", ca, a, 0)
	}
	if al != 2 && al != 4 {
		wantGLWE(x, what+" input", cb, b, 0)
	}
	x.Assert(snap(pt, pp) == hpt, "%s modified its plaintext", what)
	x.Step(1)
	x.State(tname[T](), "glwe", op, k, N, al, pa, pb, arg)
}

// c10fft: every Fourier GLWE operation, on ciphertexts with small integer components so that results are exact.
func c10fft[T TI](x *X, multi bool) {
	op := x.Choose(21, "op")
	k := 1 + x.Choose(3, "rank")
	N := []int{16, 32, 64}[x.Choose(x.Pick(2, 3), "N")]
	al := x.Choose(5, "overlap")
	pa, pb := x.Choose(3, "a"), x.Choose(2, "b")
	arg := 0
	switch {
	case op >= 3 && op <= 8:
		arg = x.Choose(4, "constant")
	case op >= 9 && op <= 14:
		arg = x.Choose(nSmallPat, "polynomial")
	case op >= 15 && op <= 18:
		arg = 2*(x.Choose(x.Pick(N, 4*N), "exponent")-x.Pick(N/2, 2*N)) + 1
	}
	big := 0
	if op < 15 {
		big = x.Choose(2, "magnitude")
	}
	e := c10ev[T](multi, k, N)
	// components: small integers times 2^(w-10) when big
	sc := T(1)
	tol := uint64(0)
	if big == 1 {
		sc = T(1) << (bitsOf[T]() - 18)
		tol = fftTol[T]()
		if bitsOf[T]() == 32 {
			tol = 1
		} else {
			tol = 1 << 20
		}
	}
	pat := func(p, salt int) [][]T {
		r := make([][]T, k+1)
		for i := range r {
			r[i] = nScale(smallPat[T](N, []int{1, 4, 3}[p]+0*salt, 60+salt+i), sc)
		}
		return r
	}
	a, b, o := pat(pa, 1), pat(pb, 2), pat(1, 3)
	F := func(v [][]T) tfhe.FFTGLWECiphertext[T] { return e.FwdFFTGLWECiphertext(mkGLWE(v)) }
	ca, cb, co := F(a), F(b), F(o)
	switch al {
	case 1:
		co, o = ca, a
	case 2:
		co, o = cb, b
	case 3:
		cb, b = ca, a
	case 4:
		cb, b, co, o = ca, a, ca, a
	}
	noOver := al == 1 || al == 4
	ha, hb := snap(ca), snap(cb)
	cs := []int{0, 1, -3, 7}[arg&3]
	cx := []complex128{0, 1, complex(0, -1), complex(2, 3)}[arg&3]
	sp := poly.From(smallPat[T](N, arg&7, 5), N)
	scale := func(v []T) []T { return nScale(v, T(int64(cs))) }
	cmul := func(v []T) []T {
		return nAdd(nScale(v, T(int64(real(cx)))), nScale(nMono(v, N/2), T(int64(imag(cx)))))
	}
	mulp := func(v []T) []T { return nMul(v, sp.Coeffs) }
	perm := func(v []T) []T { return nPerm(v, arg) }
	var want [][]T
	var ret *tfhe.FFTGLWECiphertext[T]
	rt := func(c tfhe.FFTGLWECiphertext[T]) { ret = &c }
	acc := func(f func([]T) []T, sub bool) [][]T {
		if sub {
			return mapc2(o, a, func(o, v []T) []T { return nSub(o, f(v)) })
		}
		return mapc2(o, a, func(o, v []T) []T { return nAdd(o, f(v)) })
	}
	fp := e.polyEv().FwdFFT(sp)
	hp := snap(sp, fp)
	switch op {
	case 0:
		rt(e.AddFFTGLWE(ca, cb))
		e.AddFFTGLWETo(co, ca, cb)
		want = mapc2(a, b, nAdd[T])
	case 1:
		rt(e.SubFFTGLWE(ca, cb))
		e.SubFFTGLWETo(co, ca, cb)
		want = mapc2(a, b, nSub[T])
	case 2:
		rt(e.NegFFTGLWE(ca))
		e.NegFFTGLWETo(co, ca)
		want = mapc(a, func(v []T) []T { return nScale(v, ^T(0)) })
	case 3:
		rt(e.FloatMulFFTGLWE(ca, float64(cs)))
		e.FloatMulFFTGLWETo(co, ca, float64(cs))
		want = mapc(a, scale)
	case 4:
		e.FloatMulAddFFTGLWETo(co, ca, float64(cs))
		want = acc(scale, false)
	case 5:
		e.FloatMulSubFFTGLWETo(co, ca, float64(cs))
		want = acc(scale, true)
	case 6:
		rt(e.CmplxMulFFTGLWE(ca, cx))
		e.CmplxMulFFTGLWETo(co, ca, cx)
		want = mapc(a, cmul)
	case 7:
		e.CmplxMulAddFFTGLWETo(co, ca, cx)
		want = acc(cmul, false)
	case 8:
		e.CmplxMulSubFFTGLWETo(co, ca, cx)
		want = acc(cmul, true)
	case 9:
		rt(e.PolyMulFFTGLWE(ca, sp))
		e.PolyMulFFTGLWETo(co, ca, sp)
		want = mapc(a, mulp)
	case 10:
		e.PolyMulAddFFTGLWETo(co, ca, sp)
		want = acc(mulp, false)
	case 11:
		e.PolyMulSubFFTGLWETo(co, ca, sp)
		want = acc(mulp, true)
	case 12:
		rt(e.FFTPolyMulFFTGLWE(ca, fp))
		e.FFTPolyMulFFTGLWETo(co, ca, fp)
		want = mapc(a, mulp)
	case 13:
		e.FFTPolyMulAddFFTGLWETo(co, ca, fp)
		want = acc(mulp, false)
	case 14:
		e.FFTPolyMulSubFFTGLWETo(co, ca, fp)
		want = acc(mulp, true)
	case 15:
		rt(e.PermuteFFTGLWE(ca, arg))
		if noOver {
			return
		}
		e.PermuteFFTGLWETo(co, ca, arg)
		want = mapc(a, perm)
	case 16:
		e.PermuteFFTGLWEInPlace(co, arg)
		want = mapc(o, perm)
	case 17:
		if noOver {
			return
		}
		e.PermuteAddFFTGLWETo(co, ca, arg)
		want = acc(perm, false)
	case 18:
		if noOver {
			return
		}
		e.PermuteSubFFTGLWETo(co, ca, arg)
		want = acc(perm, true)
	case 19:
		for _, d := range []int{0, 2, -2, N} {
			for i, f := range []func(){
				func() { e.PermuteFFTGLWE(ca, d) }, func() { e.PermuteFFTGLWETo(co, cb, d) }, func() { e.PermuteFFTGLWEInPlace(co, d) },
				func() { e.PermuteAddFFTGLWETo(co, cb, d) }, func() { e.PermuteSubFFTGLWETo(co, cb, d) },
			} {
				x.Assert(x.Panics(f), "automorphism form %d accepts the even exponent %d", i, d)
			}
		}
		want = o
	case 20: // conversions
		g := e.InvFFTGLWECiphertext(ca)
		wantGLWE(x, "InvFFTGLWECiphertext", g, a, tol)
		d := mkGLWE(b)
		e.InvFFTGLWECiphertextTo(d, ca)
		wantGLWE(x, "InvFFTGLWECiphertextTo", d, a, tol)
		e.FwdFFTGLWECiphertextTo(co, mkGLWE(b))
		want = b
		if al == 2 || al == 4 {
			want = b
		}
		if al == 1 {
			ha = snap(ca)
		}
	}
	what := fmt.Sprintf("Fourier GLWE operation %d (rank %d N %d overlap %d argument %d)", op, k, N, al, arg)
	wantGLWE(x, what, e.InvFFTGLWECiphertext(co), want, tol)
	if ret != nil {
		wantGLWE(x, "allocating "+what, e.InvFFTGLWECiphertext(*ret), want, tol)
	}
	x.Assert(al == 1 || al == 4 || snap(ca) == ha, "%s modified an input", what)
	x.Assert(al == 2 || al == 4 || snap(cb) == hb, "%s modified an input", what)
	x.Assert(snap(sp, fp) == hp, "%s modified its polynomial", what)
	x.Step(1)
	x.State(tname[T](), "fft", op, k, N, al, pa, pb, arg, big)
}

// c10conv: conversions of every container, full-range values.
func c10conv[T TI](x *X) {
	k := 1 + x.Choose(3, "rank")
	N := []int{16, 32, 64, 128}[x.Choose(4, "N")]
	lv := 1 + x.Choose(4, "level")
	pat := x.Choose(3, "pattern")
	e := tfhe.NewGLWETransformer[T](N)
	if pat == 1 {
		e = e.SafeCopy()
	}
	g := gad[T](6, lv).Compile()
	tol := uint64(0)
	if bitsOf[T]() == 64 {
		tol = 1 << 16
	}
	lev := tfhe.NewGLevCiphertextCustom[T](k, N, g)
	gsw := tfhe.NewGGSWCiphertextCustom[T](k, N, g)
	for i := range lev.Value {
		for j, v := range ctPat[T](k, N, pat, i) {
			copy(lev.Value[i].Value[j].Coeffs, v)
		}
	}
	for r := range gsw.Value {
		for i := range gsw.Value[r].Value {
			for j, v := range ctPat[T](k, N, pat, i+10*r) {
				copy(gsw.Value[r].Value[i].Value[j].Coeffs, v)
			}
		}
	}
	sk := tfhe.NewGLWESecretKeyCustom[T](k, N)
	for i := range sk.Value {
		for j := range sk.Value[i].Coeffs {
			sk.Value[i].Coeffs[j] = T(mix64(uint64(i*N+j)) & 1)
		}
	}
	h := snap(lev, gsw, sk)
	fl, fg, fk := e.FwdFFTGLevCiphertext(lev), e.FwdFFTGGSWCiphertext(gsw), e.FwdFFTGLWESecretKey(sk)
	fl2, fg2, fk2 := tfhe.NewFFTGLevCiphertextCustom[T](k, N, g), tfhe.NewFFTGGSWCiphertextCustom[T](k, N, g), tfhe.NewFFTGLWESecretKeyCustom[T](k, N)
	dirty(&fl2, 1)
	dirty(&fg2, 2)
	dirty(&fk2, 3)
	e.FwdFFTGLevCiphertextTo(fl2, lev)
	e.FwdFFTGGSWCiphertextTo(fg2, gsw)
	e.FwdFFTGLWESecretKeyTo(fk2, sk)
	x.Assert(snap(lev, gsw, sk) == h, "a forward conversion modified its input")
	x.Assert(snap(fl.Value, fg.Value, fk.Value) == snap(fl2.Value, fg2.Value, fk2.Value), "the allocating and writing conversions differ")
	x.Assert(fl.GadgetParams == g && fg.GadgetParams == g, "a conversion lost the gadget parameters")
	hf := snap(fl, fg, fk)
	l2, g2, k2 := e.InvFFTGLevCiphertext(fl), e.InvFFTGGSWCiphertext(fg), e.InvFFTGLWESecretKey(fk)
	l3, g3, k3 := tfhe.NewGLevCiphertextCustom[T](k, N, g), tfhe.NewGGSWCiphertextCustom[T](k, N, g), tfhe.NewGLWESecretKeyCustom[T](k, N)
	dirty(&l3, 1)
	dirty(&g3, 2)
	dirty(&k3, 3)
	e.InvFFTGLevCiphertextTo(l3, fl)
	e.InvFFTGGSWCiphertextTo(g3, fg)
	e.InvFFTGLWESecretKeyTo(k3, fk)
	x.Assert(snap(fl, fg, fk) == hf, "an inverse conversion modified its input")
	for i := range lev.Value {
		for j := range lev.Value[i].Value {
			want := lev.Value[i].Value[j].Coeffs
			x.Assert(maxDist(l2.Value[i].Value[j].Coeffs, want) <= tol && maxDist(l3.Value[i].Value[j].Coeffs, want) <= tol, "GLev round trip: level %d component %d", i, j)
		}
	}
	for r := range gsw.Value {
		for i := range gsw.Value[r].Value {
			for j := range gsw.Value[r].Value[i].Value {
				want := gsw.Value[r].Value[i].Value[j].Coeffs
				x.Assert(maxDist(g2.Value[r].Value[i].Value[j].Coeffs, want) <= tol && maxDist(g3.Value[r].Value[i].Value[j].Coeffs, want) <= tol, "GGSW round trip: row %d level %d component %d", r, i, j)
			}
		}
	}
	for i := range sk.Value {
		x.Assert(eqT(k2.Value[i].Coeffs, sk.Value[i].Coeffs) && eqT(k3.Value[i].Coeffs, sk.Value[i].Coeffs), "secret key round trip: component %d", i)
	}
	x.Assert(l2.GadgetParams == g && g2.GadgetParams == g, "an inverse conversion lost the gadget parameters")
	x.Step(12)
	x.State(tname[T](), "conv", k, N, lv, pat)
}

func init() {
	_ = math.Pi
	all := []string{"avx2", "cpuoff", "purego"}
	reg := func(prop, name, bound string, shards int, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: prop, Name: name, Backends: all, Shards: shards, Bound: bound, Run: func(x *X) {
			if x.Bool("64") {
				f64(x)
			} else {
				f32(x)
			}
		}})
	}
	on := func(multi bool, f func(*X, bool)) func(*X) { return func(x *X) { f(x, multi) } }
	bl := "8 LWE operations and a chain x both orders x 2 dimensions x 9 operand patterns x 5 overlaps x 6 constants"
	bg := "22 GLWE operations x rank 1-3 x N 16,32 (thorough 64) x 9 operand patterns x 5 overlaps x every exponent in -2N..2N (thorough -4N..4N) or constant"
	bf := "19 Fourier GLWE operations x rank 1-3 x N 16,32 (64) x 6 operand patterns x 5 overlaps x constants/polynomials/odd exponents x 2 magnitudes"
	reg("C10", "lwe", bl, 1, on(false, c10lwe[uint32]), on(false, c10lwe[uint64]))
	reg("C10", "glwe", bg, 4, on(false, c10glwe[uint32]), on(false, c10glwe[uint64]))
	reg("C10", "fft", bf, 4, on(false, c10fft[uint32]), on(false, c10fft[uint64]))
	reg("C10", "convert", "every container conversion x rank 1-3 x N 16..128 x level 1-4 x 3 patterns", 1, c10conv[uint32], c10conv[uint64])
	for _, p := range []string{"C10", "C21"} {
		reg(p, "multi-lwe", bl+", multi-key (2-3 parties)", 1, on(true, c10lwe[uint32]), on(true, c10lwe[uint64]))
		reg(p, "multi-glwe", bg+", multi-key (rank = parties)", 4, on(true, c10glwe[uint32]), on(true, c10glwe[uint64]))
		reg(p, "multi-fft", bf+", multi-key (rank = parties)", 4, on(true, c10fft[uint32]), on(true, c10fft[uint64]))
	}
}
