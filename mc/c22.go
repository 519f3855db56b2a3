package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C22: multi-key hybrid and external products.  Oracle: the joint phase of the output against the naive product of
// the party's plaintext and the joint phase of the operand.  Encryption noise is zero (deviation far below one unit),
// so the tolerance is the rounding of the two decompositions.

func mkQuiet[T TI](s mkShape) *mktenv[T] {
	return core.Memo("mkquiet:"+tname[T]()+s.String(), func() *mktenv[T] {
		l := mklit[T](s)
		l.SubParams.LWEStdDev = math.Exp2(-float64(bitsOf[T]()) - 12)
		l.SubParams.GLWEStdDev = l.SubParams.LWEStdDev
		e := &mktenv[T]{P: l.Compile()}
		for i := 0; i < s.parties; i++ {
			enc := mktfhe.NewEncryptor(e.P, i, crs)
			e.SK = append(e.SK, enc.SecretKey)
			e.EVK = append(e.EVK, enc.GenEvalKey())
		}
		return e
	})
}

// evalVariant builds an evaluator for the given parties by one of several construction histories.
func (e *mktenv[T]) evalVariant(variant int, s []int) *mktfhe.Evaluator[T] {
	switch variant {
	case 0:
		return e.eval(s...)
	case 1: // all added later, last first
		ev := mktfhe.NewEvaluator(e.P, map[int]mktfhe.EvaluationKey[T]{})
		for i := len(s) - 1; i >= 0; i-- {
			ev.AddEvaluationKey(s[i], e.EVK[s[i]])
		}
		return ev
	case 2: // the rest is added to a safe copy
		ev := e.eval(s[0]).SafeCopy()
		for _, i := range s[1:] {
			ev.AddEvaluationKey(i, e.EVK[i])
		}
		return ev
	default: // a wrong key is overwritten
		ev := e.eval(s...)
		i := s[len(s)-1]
		ev.AddEvaluationKey(i, e.EVK[(i+1)%len(e.EVK)])
		ev.AddEvaluationKey(i, e.EVK[i])
		return ev.SafeCopy()
	}
}

func c22plain[T TI](N, i int) []T {
	p := make([]T, N)
	switch i {
	case 0:
		p[0] = 1
	case 1:
		p[N-1] = 1
	case 2:
		p[0], p[3] = ^T(0), 2
	case 3:
		for j := range p {
			p[j] = T(j % 2)
		}
	case 4: // zero
	}
	return p
}

var c22shapes = []mkShape{
	{n: 6, N: 16, block: 1, parties: 3, order: brks, msg: 4},
	{n: 6, N: 32, block: 2, parties: 2, order: ksbr, msg: 4},
	{n: 6, N: 16, block: 1, parties: 4, order: ksbr, msg: 4},
}

func hybTol[T TI](P mktfhe.Parameters[T], parties int, a1 uint64) uint64 {
	g := P.RelinKeyParameters()
	N := P.PolyRank()
	s := uint64(1 + parties*N)
	return prodTol(g, N, parties+1, a1, s, 0, true)*1 + prodTol(g, N, 1, uint64(N), 1, 0, true) + s*prodTol(g, N, 2, 0, 0, 0, true)
}

func c22prod[T TI](x *X) {
	s := core.OneOf(x, "shape", c22shapes[:x.Pick(2, 3)])
	ext := x.Bool("external")
	idx := x.Choose(s.parties, "party")
	var regs [][]int
	for _, v := range subsets(s.parties) {
		if has(v, idx) {
			regs = append(regs, v)
		}
	}
	reg := core.OneOf(x, "registered", regs)
	inv := x.Choose(1<<len(reg), "involved")
	variant := x.Choose(4, "construction")
	form := x.Choose(4, "form")
	alias := form > 0 && x.Bool("overlap")
	ai := x.Choose(5, "a")
	bi := x.Choose(3, "b")
	hist := x.Choose(2, "history")
	e := mkQuiet[T](s)
	P := e.P
	N := s.N
	ev := e.evalVariant(variant, reg)
	a := c22plain[T](N, ai)
	key := fmt.Sprintf("c22:%s:%v:%d:%d", tname[T](), s, idx, ai)
	uni := core.Memo(key+"u", func() any {
		return e.enc(idx).FFTUniEncryptPoly(poly.Poly[T]{Coeffs: a}, P.RelinKeyParameters())
	}).(mktfhe.FFTUniEncryption[T])
	lev := core.Memo(key+"l", func() any {
		return e.enc(idx).SubEncryptor.EncryptFFTGLevPoly(poly.Poly[T]{Coeffs: a}, P.AccumulatorParameters())
	}).(tfhe.FFTGLevCiphertext[T])
	mk := func(salt int, who func(i int) bool) mktfhe.GLWECiphertext[T] {
		c := mktfhe.NewGLWECiphertext(P)
		copy(c.Value[0].Coeffs, ctPat[T](0, N, bi, salt)[0])
		for i := 0; i < s.parties; i++ {
			if who(i) {
				copy(c.Value[i+1].Coeffs, ctPat[T](0, N, bi, salt+10*i+1)[0])
			}
		}
		return c
	}
	b := mk(100, func(i int) bool {
		for j, p := range reg {
			if p == i {
				return inv>>j&1 == 1
			}
		}
		return false
	})
	want := nMul(a, e.glwePhase(b))
	tol := hybTol(P, s.parties, norm1(a))
	if ext {
		tol = hybTol(P, s.parties, uint64(N)) + uint64(s.parties*N+1)*prodTol(P.AccumulatorParameters(), N, 2, norm1(a), 1, 0, true)
	}
	if hist == 1 { // an earlier product by another party, with other operands
		o := mktfhe.NewGLWECiphertext(P)
		other := reg[len(reg)-1]
		l2 := core.Memo(fmt.Sprintf("c22h:%s:%v:%d", tname[T](), s, other), func() any {
			return e.enc(other).SubEncryptor.EncryptFFTGLevPoly(poly.Poly[T]{Coeffs: c22plain[T](N, 2)}, P.AccumulatorParameters())
		}).(tfhe.FFTGLevCiphertext[T])
		ev.ExternalProdGLWETo(other, l2, mk(55, func(i int) bool { return has(reg, i) }), o)
	}
	out := b
	old := e.glwePhase(b)
	if !alias {
		out = mk(7, func(i int) bool { return true })
		old = e.glwePhase(out)
	}
	hu, hl, hb := snap(uni), snap(lev), snap(b)
	run := func(h0 func() mktfhe.GLWECiphertext[T], h1, h2, h3 func()) {
		switch form {
		case 0:
			out = h0()
		case 1:
			h1()
		case 2:
			h2()
		case 3:
			h3()
		}
	}
	nm := "HybridProd"
	if ext {
		nm = "ExternalProd"
		run(func() mktfhe.GLWECiphertext[T] { return ev.ExternalProdGLWE(idx, lev, b) },
			func() { ev.ExternalProdGLWETo(idx, lev, b, out) },
			func() { ev.ExternalProdAddGLWETo(idx, lev, b, out) },
			func() { ev.ExternalProdSubGLWETo(idx, lev, b, out) })
	} else {
		run(func() mktfhe.GLWECiphertext[T] { return ev.HybridProdGLWE(idx, uni, b) },
			func() { ev.HybridProdGLWETo(idx, uni, b, out) },
			func() { ev.HybridProdAddGLWETo(idx, uni, b, out) },
			func() { ev.HybridProdSubGLWETo(idx, uni, b, out) })
	}
	x.Step(1)
	switch form {
	case 2:
		want = nAdd(old, want)
	case 3:
		want = nSub(old, want)
	}
	got := e.glwePhase(out)
	if d := maxDist(got, want); d > tol {
		x.Fail("%s form %d of party %d, registered %v (construction %d, overlap %v): phase is off by %d, more than %d", nm, form, idx, reg, variant, alias, d, tol)
	}
	x.Assert(snap(uni) == hu && snap(lev) == hl && (alias || snap(b) == hb), "%s form %d changed its inputs", nm, form)
	x.State(tname[T](), s, nm, idx, reg, inv, form, alias, ai, bi)
}

func init() {
	core.Register(core.Harness{Prop: "C22", Name: "products", Bound: "both widths x 2 (thorough 3) parameter sets of 2-4 parties x hybrid/external x every party x every registered set x every involved subset x 4 construction histories x 4 forms x overlap x 5 plaintexts x 3 operand patterns x earlier use; joint phase against the naive ring product", Run: func(x *X) {
		if x.Bool("32 bit") {
			c22prod[uint32](x)
		} else {
			c22prod[uint64](x)
		}
	}})
}
