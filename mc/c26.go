package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
)

// C26: circuit bootstrapping.  Model state: the rotation index; oracle: every row and level of the output has the
// phase message * gadget factor * key component.

type cbShape struct {
	s    shape
	lc   int
	b, l int // output gadget
}

func c26shapes[T TI]() []cbShape {
	a := shape{3, 1, 16, 16, 1, brks, 2}
	b := shape{3, 1, 16, 16, 1, ksbr, 2}
	c := shape{4, 2, 16, 16, 2, brks, 2}
	d := shape{3, 1, 32, 32, 3, ksbr, 4}
	if bitsOf[T]() == 32 {
		return []cbShape{{a, 1, 2, 2}, {b, 2, 2, 3}, {c, 2, 3, 1}, {d, 4, 4, 1}, {b, 4, 2, 3}}
	}
	return []cbShape{{a, 1, 4, 3}, {b, 2, 4, 5}, {c, 4, 5, 3}, {d, 2, 6, 3}, {b, 4, 2, 6}, {d, 4, 3, 4}, {a, 2, 8, 1}, {shape{2, 3, 16, 16, 1, ksbr, 2}, 4, 4, 4}, {shape{6, 1, 64, 64, 2, brks, 8}, 4, 3, 4}}
}

type cbEnv[T TI] struct {
	e      *tenv[T]
	P      xtfhe.CircuitBootstrapParameters[T]
	K      xtfhe.CircuitBootstrapKey[T]
	ss, tr tfhe.GadgetParameters[T]
}

func cbOf[T TI](c cbShape, key int) *cbEnv[T] {
	return core.Memo(fmt.Sprintf("cb:%s:%v:%d", tname[T](), c, key), func() *cbEnv[T] {
		l := quietLit[T](c.s)
		sl, tl := gad[T](10, 4), gad[T](11, 4)
		if bitsOf[T]() == 32 {
			l.BlindRotateParams = gad[T](6, 5)
			sl, tl = gad[T](6, 5), gad[T](5, 6)
		} else {
			l.BlindRotateParams = gad[T](10, 5)
		}
		r := &cbEnv[T]{e: &tenv[T]{P: l.Compile()}, ss: sl.Compile(), tr: tl.Compile()}
		flat := make([]T, r.e.P.GLWEDimension())
		for i := range flat {
			flat[i] = T(mix64(uint64(i+key*101)) & 1)
			if i < c.s.n {
				flat[i] = T(key >> i & 1)
			}
		}
		r.e.SK = keyFrom(r.e.P, flat)
		r.e.EVK = tfhe.NewEncryptorWithKey(r.e.P, r.e.SK).GenEvalKey()
		r.P = xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: xtfhe.ManyLUTParametersLiteral[T]{BaseParams: l, LUTCount: c.lc}, SchemeSwitchParams: sl, TraceKeySwitchParams: tl, OutputParams: gad[T](c.b, c.l)}.Compile()
		kg := xtfhe.NewCircuitBootstrapKeyGenerator(r.P, r.e.SK)
		if key%2 == 1 {
			kg = kg.SafeCopy()
		}
		r.K = kg.GenCircuitBootstrapKey()
		return r
	})
}

// rotTol bounds the error of a blind rotation with noiseless keys.
func rotTol[T TI](p tfhe.Parameters[T]) float64 {
	w := float64(bitsOf[T]())
	n, k, N := float64(p.LWEDimension()), float64(p.GLWERank()), float64(p.PolyRank())
	g := p.BlindRotateParams()
	last := 1.0
	if int(w) > g.Level()*g.LogBase() {
		last = math.Exp2(float64(g.LogLastBaseQ()))
	}
	B, l := float64(g.Base()), float64(g.Level())
	return n*(1+k*N)*(last+2) + 4*n*l*(k+1)*math.Exp2(w-53)*N*B*math.Log2(N)*float64(p.BlockSize())
}

func c26[T TI](x *X) {
	sh := c26shapes[T]()
	c := sh[x.Choose(len(sh), "shape")]
	s := c.s
	keys := keysOf(s)
	if lim := x.Pick(8, 64); len(keys) > lim {
		q := keys
		keys = nil
		for i := 0; i < lim; i++ {
			keys = append(keys, q[i*(len(q)-1)/(lim-1)])
		}
	}
	key := core.OneOf(x, "key", keys)
	m := x.Choose(s.msg, "message")
	L := s.lut
	half := L / (2 * s.msg)
	d := core.OneOf(x, "slot", []int{-half, half - c.lc})
	masks := make([]int, s.n)
	base := x.Choose(5, "masks")
	for i := range masks {
		masks[i] = []int{0, 5, 2*L/c.lc - 3, 1, L / c.lc}[base] * (i + 1) % (2 * L / c.lc) * c.lc
	}
	hist := x.Choose(5, "history")
	b := cbOf[T](c, key)
	e := b.e
	ev := xtfhe.NewCircuitBootstrapper(b.P, e.EVK, b.K)
	slot := T(1) << (bitsOf[T]() - bitLen(uint64(2*L)) + 1)
	mk := func(m, d int) tfhe.LWECiphertext[T] {
		ct := tfhe.NewLWECiphertextCustom[T](e.P.DefaultLWEDimension())
		b := m*L/s.msg + d
		for i, a := range masks {
			ct.Value[i+1] = T(a) * slot
			if key>>i&1 == 1 {
				b -= a
			}
		}
		ct.Value[0] = T(int64(b)) * slot
		return ct
	}
	ct := mk(m, d)
	h := snap(ct)
	g := gad[T](c.b, c.l).Compile()
	out := tfhe.NewFFTGGSWCiphertext(e.P, g)
	dirty(out, 3)
	switch hist {
	case 0:
		out = ev.CircuitBootstrap(ct)
	case 1:
		ev.CircuitBootstrapTo(out, ct)
	case 2: // after another message
		ev.CircuitBootstrapTo(out, mk((m+1)%s.msg, 0))
		ev.CircuitBootstrapTo(out, ct)
	case 3: // on a copy, after other work on the original
		ev.BootstrapFunc(mk(0, 0), c25fs(c.lc, s.msg, 1))
		ev.CircuitBootstrap(mk((m+1)%s.msg, 0))
		ev = ev.SafeCopy()
		ev.CircuitBootstrapTo(out, ct)
	case 4: // after many-LUT bootstrapping and products on the same object
		ev.BootstrapFunc(mk(0, 0), c25fs(c.lc, s.msg, 1))
		ev.ExternalProdGLWE(ev.CircuitBootstrap(mk(1, 0)), mkGLWE(ctPat[T](s.k, s.N, 0, 1)))
		out = ev.CircuitBootstrap(ct)
	}
	x.Step(1)
	x.Assert(snap(ct) == h, "the input ciphertext was modified")
	k, N := s.k, s.N
	var sn uint64
	for _, v := range e.SK.GLWEKey.Value {
		sn += norm1(v.Coeffs)
	}
	bb := &bfvEnv[T]{e: e, g: b.tr}
	t0 := rotTol(e.P) + float64(N)*(0.5*float64(1+k*N)+float64(ksTol(bb, k, N)))
	ggsw := e.enc().InvFFTGGSWCiphertext(out)
	x.Assert(len(ggsw.Value) == k+1 && ggsw.GadgetParams == g, "output shape")
	what := fmt.Sprintf("shape %v, %d tables, output gadget 2^%d x %d, key %b, message %d (slot %+d)", s, c.lc, c.b, c.l, key, m, d)
	for i := 0; i <= k; i++ {
		x.Assert(len(ggsw.Value[i].Value) == g.Level(), "output levels")
		for j := range ggsw.Value[i].Value {
			f := T(m) << (bitsOf[T]() - (j+1)*c.b)
			want := make([]T, N)
			want[0] = f
			tol := t0 + 4
			if i > 0 {
				sk := e.SK.GLWEKey.Value[i-1].Coeffs
				want = nScale(sk, f)
				tol = t0*float64(1+norm1(sk)) + float64(prodTol(b.ss, N, k+1, norm1(sk), 1+sn, 0, true)) + float64(uint64(k*N)*prodTol(b.ss, N, k+1, 0, 0, 0, true)) + 4
			}
			if tol > math.Exp2(float64(bitsOf[T]()-c.l*c.b-2)) {
				x.Fail("harness: tolerance 2^%.1f too coarse for the gadget", math.Log2(tol))
			}
			if dd := maxDist(glwePhase(ggsw.Value[i].Value[j].Value, e.SK.GLWEKey.Value), want); float64(dd) > tol {
				x.Fail("%s: row %d level %d: phase off by 2^%d, tolerance 2^%.1f", what, i, j, bitLen(dd), math.Log2(tol))
			}
		}
	}
	// use
	if m <= 1 && c.b*c.l >= 6 {
		enc := e.enc()
		ma, mb := c24msg(N, s.msg, 0), c24msg(N, s.msg, 3)
		ca, cb := enc.EncryptGLWE(ma), enc.EncryptGLWE(mb)
		if s.msg <= 2 {
			w := mb
			if m == 0 {
				w = ma
			}
			x.Assert(eqInts(enc.DecryptGLWE(ev.CMux(out, ca, cb)), w), "%s: CMux selects the wrong operand", what)
			for i := range w {
				w[i] = ma[i] * m
			}
			x.Assert(eqInts(enc.DecryptGLWE(ev.ExternalProdGLWE(out, ca)), w), "%s: the external product is not message * operand", what)
		}
	}
	x.State(tname[T](), s, c.lc, c.b, c.l, key, m, d, base, hist)
}

func init() {
	core.Register(core.Harness{Prop: "C26", Name: "rows", Bound: "64-bit: 9 parameter sets, 32-bit: 5 (rank 1-3, block 1-3, both orders, LUTCount 1-4, output gadgets of 1-6 levels) x LWE keys x every message x the ends of its interval x masks on the grid x 5 histories; phase of every row and level, then CMux and external product", Run: func(x *X) {
		if x.Bool("32 bit") {
			c26[uint32](x)
		} else {
			c26[uint64](x)
		}
	}})
}
