package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
)

// C24: BFV operations.  Oracle: naive ring arithmetic on the plaintext polynomials (or on arbitrary phases), with
// zero encryption noise so that only rounding is tolerated.

func quietLit[T TI](s shape) tfhe.ParametersLiteral[T] {
	l := lit[T](s)
	l.LWEStdDev = math.Exp2(-float64(bitsOf[T]()) - 12)
	l.GLWEStdDev = l.LWEStdDev
	return l
}

func quietEnv[T TI](s shape) *tenv[T] { return envOf("quiet"+s.String(), quietLit[T](s)) }

var c24shapes = []shape{
	{n: 6, k: 1, N: 16, lut: 16, block: 1, order: brks, msg: 4},
	{n: 6, k: 2, N: 16, lut: 16, block: 1, order: ksbr, msg: 2},
	{n: 6, k: 1, N: 64, lut: 64, block: 1, order: brks, msg: 16},
	{n: 6, k: 3, N: 16, lut: 16, block: 1, order: brks, msg: 8},
	{n: 6, k: 1, N: 32, lut: 32, block: 2, order: ksbr, msg: 4},
}

func c24gad[T TI](i int) tfhe.GadgetParameters[T] {
	if bitsOf[T]() == 32 {
		return []tfhe.GadgetParameters[T]{gad[T](6, 4).Compile(), gad[T](4, 7).Compile()}[i]
	}
	return []tfhe.GadgetParameters[T]{gad[T](10, 4).Compile(), gad[T](8, 6).Compile()}[i]
}

type bfvEnv[T TI] struct {
	e   *tenv[T]
	g   tfhe.GadgetParameters[T]
	evk xtfhe.BFVEvaluationKey[T]
}

// keys made by one of several routes
func bfvOf[T TI](s shape, gi, route int) *bfvEnv[T] {
	return core.Memo(fmt.Sprintf("bfv:%s:%v:%d:%d", tname[T](), s, gi, route), func() *bfvEnv[T] {
		e := quietEnv[T](s)
		g := c24gad[T](gi)
		kg := xtfhe.NewBFVKeyGenerator(e.P, e.SK)
		var odd, pack []int
		for d := 1; d < 2*s.N; d += 2 {
			odd = append(odd, d)
		}
		for d := 2; d <= s.N; d *= 2 {
			pack = append(pack, d+1)
		}
		b := &bfvEnv[T]{e: e, g: g}
		switch route {
		case 0:
			b.evk = kg.GenEvalKey(odd, g)
		case 1: // from a copy, rotation keys in two steps into one map, some of them overwritten
			kg = kg.SafeCopy()
			b.evk = xtfhe.BFVEvaluationKey[T]{RelinKey: kg.GenRelinKey(g), GaloisKeys: kg.GenGaloisKeys(odd[:len(odd)/2], g)}
			b.evk.GaloisKeys[odd[0]] = b.evk.GaloisKeys[odd[1]]
			b.evk.GaloisKeys[odd[1]] = tfhe.GLWEKeySwitchKey[T]{}
			kg.GenGaloisKeysTo(b.evk.GaloisKeys, odd[len(odd)/2:], g)
			kg.GenGaloisKeysTo(b.evk.GaloisKeys, odd[:2], g)
		case 2: // packing keys only
			b.evk.GaloisKeys = kg.GenGaloisKeysForPack(g)
		case 3:
			b.evk.GaloisKeys = map[int]tfhe.GLWEKeySwitchKey[T]{3: {}, 7: {}}
			kg.GenGaloisKeysForPackTo(b.evk.GaloisKeys, g)
		}
		return b
	})
}

func (b *bfvEnv[T]) glwe() [][]T {
	var r [][]T
	for _, p := range b.e.SK.GLWEKey.Value {
		r = append(r, p.Coeffs)
	}
	return r
}

// withPhase is the ciphertext with the given mask whose phase is exactly ph.
func withPhase[T TI](key [][]T, mask [][]T, ph []T) tfhe.GLWECiphertext[T] {
	ct := tfhe.NewGLWECiphertextCustom[T](len(key), len(ph))
	v := append([]T{}, ph...)
	for i := range key {
		copy(ct.Value[i+1].Coeffs, mask[i+1])
		v = nSub(v, nMul(mask[i+1], key[i]))
	}
	copy(ct.Value[0].Coeffs, v)
	return ct
}

func c24msg(N, p, i int) []int {
	m := make([]int, N)
	switch i {
	case 0:
		for j := range m {
			m[j] = (j*j + 3*j + 1) % p
		}
	case 1:
		m[0] = p - 1
	case 2:
		m[N-1] = 1
	case 3:
		for j := range m {
			m[j] = p - 1
		}
	case 4:
		m[1], m[N/2] = 1, p-1
	}
	return m
}

// tensorTol bounds the floating point error of one tensor coefficient.
func tensorTol[T TI](P tfhe.Parameters[T]) float64 {
	w := bitsOf[T]()
	return 1 + 2*float64(P.PolyRank())*math.Exp2(float64(2*w-2-48))/float64(P.Scale())
}

func c24mul[T TI](x *X) {
	s := core.OneOf(x, "shape", c24shapes[:x.Pick(4, 5)])
	route := x.Choose(2, "keys")
	entry := x.Choose(7, "entry")
	mi, mj := x.Choose(5, "m0"), x.Choose(5, "m1")
	pat := x.Choose(3, "masks")
	hist := x.Choose(3, "history")
	b := bfvOf[T](s, route, route)
	P, N, k, p := b.e.P, s.N, s.k, s.msg
	ev := xtfhe.NewBFVEvaluator(P, b.evk)
	if hist >= 1 {
		ev = ev.SafeCopy()
	}
	key := b.glwe()
	mk := func(m []int, salt int) tfhe.GLWECiphertext[T] {
		ph := make([]T, N)
		for i := range ph {
			ph[i] = T(m[i]) * P.Scale()
		}
		return withPhase(key, ctPat[T](k, N, pat, salt), ph)
	}
	m0, m1 := c24msg(N, p, mi), c24msg(N, p, mj)
	c0, c1 := mk(m0, 3), mk(m1, 8)
	if hist == 2 {
		o := tfhe.NewGLWECiphertext(P)
		ev.MulTo(o, mk(c24msg(N, p, 3), 5), mk(c24msg(N, p, 0), 6))
		ev.PermuteTo(o, o, 5)
	}
	if entry == 6 {
		c1, m1 = c0, m0
	}
	want := make([]T, N)
	for i, v := range nMul(toTs[T](m0), toTs[T](m1)) {
		want[i] = v * P.Scale()
	}
	h0, h1 := snap(c0), snap(c1)
	tr := k * (k + 3) / 2
	tt := tensorTol(P)
	var kp [][]T // key products in tensor order
	for i := -1; i < k; i++ {
		for j := i; j < k; j++ {
			one := make([]T, N)
			one[0] = 1
			a, c := one, one
			if i >= 0 {
				a = key[i]
			}
			if j >= 0 {
				c = key[j]
			}
			kp = append(kp, nMul(a, c))
		}
	}
	tol := 0.0
	for _, q := range kp {
		tol += tt * float64(norm1(q))
	}
	ten := func(ct tfhe.GLWECiphertext[T]) {
		x.Assert(len(ct.Value) == tr+1, "tensor has rank %d, not %d", len(ct.Value)-1, tr)
		ph := make([]T, N)
		for i := range kp {
			ph = nAdd(ph, nMul(ct.Value[i].Coeffs, kp[i]))
		}
		if d := maxDist(ph, want); float64(d) > tol {
			x.Fail("tensor of %v and %v (rank %d): phase is off by %d (tolerance %g)", m0, m1, k, d, tol)
		}
	}
	var out tfhe.GLWECiphertext[T]
	dirtyOut := func() { out = tfhe.NewGLWECiphertext(P); dirty(out, 77) }
	switch entry {
	case 0:
		t := ev.Tensor(c0, c1)
		ten(t)
		ht := snap(t)
		out = ev.Relinearize(t)
		x.Assert(snap(t) == ht, "Relinearize changed its input")
	case 1:
		t := tfhe.NewGLWECiphertextCustom[T](tr, N)
		dirty(t, 5)
		ev.TensorTo(t, c0, c1)
		ten(t)
		dirtyOut()
		ht := snap(t)
		ev.RelinearizeTo(out, t)
		x.Assert(snap(t) == ht, "RelinearizeTo changed its input")
	case 2:
		out = ev.Mul(c0, c1)
	case 3:
		dirtyOut()
		ev.MulTo(out, c0, c1)
	case 4:
		out = c0
		ev.MulTo(c0, c0, c1)
	case 5:
		out = c1
		ev.MulTo(c1, c0, c1)
	case 6:
		out = c0
		ev.MulTo(c0, c0, c0)
	}
	x.Step(1)
	x.Assert(entry >= 4 || snap(c0) == h0 && snap(c1) == h1, "multiplication entry %d changed its operands", entry)
	x.Assert(entry != 4 || snap(c1) == h1, "MulTo changed its second operand")
	x.Assert(entry != 5 || snap(c0) == h0, "MulTo changed its first operand")
	rows := k * (k + 1) / 2
	var a1 uint64
	for i := 1 + k; i < len(kp); i++ {
		a1 += norm1(kp[i])
	}
	tol += float64(prodTol(b.g, N, rows, a1, 1, 1, true)) + float64(k*N)*float64(prodTol(b.g, N, rows, 0, 0, 0, true))
	got := glwePhase(out.Value, b.e.SK.GLWEKey.Value)
	if d := maxDist(got, want); float64(d) > tol {
		x.Fail("multiplication entry %d, rank %d: phase of %v * %v is off by %d (tolerance %g, scale %d)", entry, k, m0, m1, d, tol, P.Scale())
	}
	x.Assert(tol < float64(P.Scale())/2, "harness: tolerance %g too coarse for scale %d", tol, P.Scale())
	x.Assert(eqInts(b.e.enc().DecryptGLWE(out), reduce(nMul(toTs[T](m0), toTs[T](m1)), p)), "multiplication entry %d: %v * %v decrypts wrongly", entry, m0, m1)
	x.State(tname[T](), s, route, entry, mi, mj, pat)
}

func toTs[T TI](m []int) []T {
	r := make([]T, len(m))
	for i := range m {
		r[i] = T(m[i])
	}
	return r
}

func reduce[T TI](v []T, p int) []int {
	r := make([]int, len(v))
	for i := range v {
		r[i] = int(v[i] & T(p-1))
	}
	return r
}

func ksTol[T TI](b *bfvEnv[T], k, N int) uint64 {
	var a1 uint64
	for _, v := range b.glwe() {
		a1 += norm1(v)
	}
	return prodTol(b.g, N, k, a1, 1, 1, true) + uint64(k*N)*prodTol(b.g, N, k, 0, 0, 0, true)
}

func c24perm[T TI](x *X) {
	s := core.OneOf(x, "shape", c24shapes[:x.Pick(3, 5)])
	route := x.Choose(2, "keys")
	d := 2*x.Choose(s.N, "degree") + 1
	entry := x.Choose(3, "entry")
	pat := x.Choose(3, "ciphertext")
	hist := x.Choose(3, "history")
	b := bfvOf[T](s, route, route)
	P, N, k := b.e.P, s.N, s.k
	ev := xtfhe.NewBFVEvaluator(P, b.evk)
	if hist >= 1 {
		ev = ev.SafeCopy()
	}
	if hist == 2 {
		ev.Permute(mkGLWE(ctPat[T](k, N, 0, 9)), 5)
		ev.Mul(mkGLWE(ctPat[T](k, N, 1, 4)), mkGLWE(ctPat[T](k, N, 0, 4)))
	}
	ct := mkGLWE(ctPat[T](k, N, pat, d))
	want := nPerm(glwePhase(ct.Value, b.e.SK.GLWEKey.Value), d)
	h := snap(ct)
	var out tfhe.GLWECiphertext[T]
	switch entry {
	case 0:
		out = ev.Permute(ct, d)
	case 1:
		out = tfhe.NewGLWECiphertext(P)
		dirty(out, 3)
		ev.PermuteTo(out, ct, d)
	case 2:
		out = ct
		ev.PermuteTo(ct, ct, d)
	}
	x.Step(1)
	x.Assert(entry == 2 || snap(ct) == h, "Permute changed its input")
	if dd, tol := maxDist(glwePhase(out.Value, b.e.SK.GLWEKey.Value), want), ksTol(b, k, N); dd > tol {
		x.Fail("Permute by %d (rank %d, entry %d): phase is off by %d, tolerance %d", d, k, entry, dd, tol)
	}
	x.State(tname[T](), s, d, entry, pat)
	if hist == 0 && entry == 0 && pat == 0 {
		e2 := xtfhe.NewBFVEvaluator(P, xtfhe.BFVEvaluationKey[T]{GaloisKeys: map[int]tfhe.GLWEKeySwitchKey[T]{d: b.evk.GaloisKeys[d]}})
		o := (d + 2) % (2 * N)
		x.Assert(x.Panics(func() { e2.Permute(ct, o) }), "Permute by %d without its key does not panic", o)
	}
}

func c24pack[T TI](x *X) {
	s := core.OneOf(x, "shape", c24shapes)
	route := x.Choose(4, "keys")
	v := x.Choose(8, "phase")
	pat := x.Choose(4, "mask")
	reuse := x.Bool("reuse")
	hist := x.Choose(3, "history")
	b := bfvOf[T](s, route%2, route)
	P, N, k := b.e.P, s.N, s.k
	ev := xtfhe.NewBFVEvaluator(P, b.evk)
	if hist >= 1 {
		ev = ev.SafeCopy()
	}
	lk := b.e.SK.LWELargeKey.Value
	mask := make([]T, k*N)
	if pat < 3 {
		mask = ctPat[T](0, k*N, pat, 3)[0]
	}
	ph := core.Memo("c24ph"+tname[T](), func() []T {
		w := bitsOf[T]()
		return []T{0, 1, ^T(0), 1 << (w - 1), 1<<(w-1) - 1, 3 << (w - 3), T(mix64(5) >> (64 - w)), T(mix64(6)>>(64-w)) | 1}
	})[v]
	ct := tfhe.NewLWECiphertextCustom[T](k * N)
	copy(ct.Value[1:], mask)
	ct.Value[0] = ph
	for i := range mask {
		ct.Value[0] -= mask[i] * lk[i]
	}
	if hist == 2 {
		c2 := tfhe.NewLWECiphertextCustom[T](k * N)
		dirty(c2, 8)
		ev.Pack(c2)
	}
	h := snap(ct)
	var out tfhe.GLWECiphertext[T]
	if reuse {
		out = tfhe.NewGLWECiphertext(P)
		dirty(out, 3)
		ev.PackTo(out, ct)
	} else {
		out = ev.Pack(ct)
	}
	x.Step(1)
	x.Assert(snap(ct) == h, "Pack changed its input")
	want := make([]T, N)
	want[0] = ph
	tol := uint64(P.LogPolyRank()) * (ksTol(b, k, N) + uint64(2+2*k*N))
	if d := maxDist(glwePhase(out.Value, b.e.SK.GLWEKey.Value), want); d > tol {
		x.Fail("Pack of phase %d (keys %d): phase %v, tolerance %d", ph, route, glwePhase(out.Value, b.e.SK.GLWEKey.Value), tol)
	}
	x.State(tname[T](), s, route, v, pat)
}

func init() {
	two := func(name, bound string, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C24", Name: name, Bound: bound, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	two("multiply", "both widths x 4 (thorough 5) parameter sets of rank 1-3 x 2 key routes and gadgets x 7 entry points and overlaps x 5x5 messages x 3 masks x 3 histories; tensor and product phases against the naive ring product", c24mul[uint32], c24mul[uint64])
	two("permute", "every odd exponent below 2N x entry and overlap x 3 ciphertexts x 3 histories; phase against the naive automorphism; missing keys panic", c24perm[uint32], c24perm[uint64])
	two("pack", "5 parameter sets x 4 key routes x 8 phases x 4 masks x reuse x history; packed phase is the constant", c24pack[uint32], c24pack[uint64])
}
