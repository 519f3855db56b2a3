package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C12: key switching preserves the phase; extraction is exact.

// anyKey is a flattened input key: binary, ternary or one-hot.
func anyKey[T TI](n, kind int) []T {
	r := make([]T, n)
	for i := range r {
		switch kind {
		case 0:
			r[i] = T(mix64(uint64(i+n)) >> 7 & 1)
		case 1:
			r[i] = T(mix64(uint64(i+3*n))>>9%3) - 1
		case 2:
			if i == n-1 {
				r[i] = 1
			}
		case 3:
			r[i] = 1
		}
	}
	return r
}

func c12in[T TI](k, N, pat int, g tfhe.GadgetParameters[T]) [][]T {
	b := ctPat[T](k, N, pat%3, 31)
	switch pat {
	case 3:
		for i := range b {
			for j := range b[i] {
				b[i][j] = 0
			}
		}
		b[k][N-1] = ^T(0)
	case 4:
		for i := range b {
			for j := range b[i] {
				b[i][j] = T(1)<<(bitsOf[T]()-g.LogBase()) - T(j%3) + 1<<(bitsOf[T]()-1)
			}
		}
	}
	return b
}

func c12lwe[T TI](x *X) {
	s := core.OneOf(x, "shape", c11shapes[:x.Pick(2, 4)])
	gi := x.Choose(6, "gadget")
	nin := []int{1, 2, 5, 17, 64}[x.Choose(x.Pick(4, 5), "input dimension")]
	kk := x.Choose(4, "key")
	pat := x.Choose(5, "pattern")
	gl := c11gads[T]()[gi]
	g := gl.Compile()
	e := lowEnv[T](s)
	in := anyKey[T](nin, kk)
	ksk := core.Memo(fmt.Sprintf("c12lwe:%s:%v:%d:%d:%d", tname[T](), s, gi, nin, kk), func() tfhe.LWEKeySwitchKey[T] {
		return e.enc().GenLWEKeySwitchKey(tfhe.LWESecretKey[T]{Value: in}, g)
	})
	ev := e.eval()
	n := e.P.DefaultLWEDimension()
	v := c12in(0, nin+1, pat, g)[0]
	ct := tfhe.LWECiphertext[T]{Value: append([]T{}, v...)}
	h := snap(ksk)
	want := lwePhase(v, in)
	tol := prodTol(g, 1, nin, 1, norm1(in), lowCap(e.P), false)
	o := tfhe.LWECiphertext[T]{Value: ctPat[T](0, n+1, 0, 5)[0]}
	r := ev.KeySwitchLWE(ct, ksk)
	ev.KeySwitchLWETo(o, ct, ksk)
	x.Assert(len(r.Value) == n+1, "KeySwitchLWE: %d entries", len(r.Value))
	if d := cdist(lwePhase(r.Value, e.defKey()), want); d > tol {
		x.Fail("KeySwitchLWE %d -> %d (gadget 2^%d x %d): phase off by %d (tolerance %d)", nin, n, g.LogBase(), g.Level(), d, tol)
	}
	x.Assert(eqT(r.Value, o.Value), "KeySwitchLWETo differs from KeySwitchLWE")
	x.Assert(eqT(ct.Value, v) && snap(ksk) == h, "KeySwitchLWE modified an input")
	x.Assert(ksk.InputLWEDimension() == nin, "InputLWEDimension")
	if nin == n { // in place
		ev.KeySwitchLWETo(ct, ct, ksk)
		x.Assert(eqT(ct.Value, r.Value), "KeySwitchLWETo in place")
	}
	x.Step(2)
	x.State(tname[T](), s, gi, nin, kk, pat)
}

func c12glwe[T TI](x *X) {
	s := core.OneOf(x, "shape", c11shapes[:x.Pick(3, 4)])
	gi := x.Choose(6, "gadget")
	kin := 1 + x.Choose(3, "input rank")
	kk := x.Choose(4, "key")
	pat := x.Choose(5, "pattern")
	gl := c11gads[T]()[gi]
	g := gl.Compile()
	e := lowEnv[T](s)
	flat := anyKey[T](kin*s.N, kk)
	sk := tfhe.NewGLWESecretKeyCustom[T](kin, s.N)
	for i := range sk.Value {
		copy(sk.Value[i].Coeffs, flat[i*s.N:])
	}
	ksk := core.Memo(fmt.Sprintf("c12glwe:%s:%v:%d:%d:%d", tname[T](), s, gi, kin, kk), func() tfhe.GLWEKeySwitchKey[T] {
		return e.enc().GenGLWEKeySwitchKey(sk, g)
	})
	ev := e.eval()
	v := c12in(kin, s.N, pat, g)
	ct := mkGLWE(v)
	h := snap(ksk)
	want := glwePhase(ct.Value, sk.Value)
	tol := prodTol(g, s.N, kin, 1, norm1(flat), lowCap(e.P), true) + keyTol(g, s, kin)
	o := mkGLWE(ctPat[T](s.k, s.N, 0, 5))
	r := ev.KeySwitchGLWE(ct, ksk)
	ev.KeySwitchGLWETo(o, ct, ksk)
	x.Assert(len(r.Value) == s.k+1, "KeySwitchGLWE: rank %d", len(r.Value)-1)
	if d := maxDist(glwePhase(r.Value, e.SK.GLWEKey.Value), want); d > tol {
		x.Fail("KeySwitchGLWE rank %d -> %d (gadget 2^%d x %d, N %d): phase off by %d (tolerance %d)", kin, s.k, g.LogBase(), g.Level(), s.N, d, tol)
	}
	for i := range r.Value {
		x.Assert(eqT(r.Value[i].Coeffs, o.Value[i].Coeffs), "KeySwitchGLWETo differs from KeySwitchGLWE")
	}
	for i := range v {
		x.Assert(eqT(ct.Value[i].Coeffs, v[i]), "KeySwitchGLWE modified its input")
	}
	x.Assert(snap(ksk) == h && ksk.InputGLWERank() == kin, "KeySwitchGLWE modified its key")
	if kin == s.k {
		ev.KeySwitchGLWETo(ct, ct, ksk)
		for i := range r.Value {
			x.Assert(eqT(ct.Value[i].Coeffs, r.Value[i].Coeffs), "KeySwitchGLWETo in place")
		}
	}
	x.Step(2)
	x.State(tname[T](), s, gi, kin, kk, pat)
}

// c12default: the bootstrap key switch, from the flattened key to the LWE key, for every relation of the dimensions.
func c12default[T TI](x *X) {
	sh := []shape{
		{n: 1, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4},
		{n: 15, k: 1, N: 16, lut: 16, block: 1, order: brks, msg: 4},
		{n: 16, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4}, // nothing to switch
		{n: 12, k: 2, N: 16, lut: 16, block: 3, order: brks, msg: 4},
		{n: 40, k: 3, N: 16, lut: 32, block: 4, order: ksbr, msg: 4},
		{n: 33, k: 1, N: 64, lut: 64, block: 1, order: brks, msg: 4},
	}
	s := core.OneOf(x, "shape", sh)
	gi := x.Choose(6, "gadget")
	pat := x.Choose(5, "pattern")
	copyIt := x.Bool("safecopy")
	gl := c11gads[T]()[gi]
	l := lowNoise[T](s)
	l.KeySwitchParams = gl
	e := envOf(fmt.Sprintf("c12d:%v:%d", s, gi), l)
	ev := e.eval()
	if copyIt {
		ev = ev.SafeCopy()
	}
	N := s.k * s.N
	g := gl.Compile()
	v := c12in(0, N+1, pat, g)[0]
	ct := tfhe.LWECiphertext[T]{Value: append([]T{}, v...)}
	want := lwePhase(v, e.SK.LWELargeKey.Value)
	tol := prodTol(g, 1, N-s.n+1, 1, norm1(e.SK.LWELargeKey.Value[s.n:]), lowCap(e.P), false)
	h := snap(e.EVK)
	r := ev.DefaultKeySwitch(ct)
	o := tfhe.LWECiphertext[T]{Value: ctPat[T](0, s.n+1, 0, 5)[0]}
	ev.DefaultKeySwitchTo(o, ct)
	x.Assert(len(r.Value) == s.n+1, "DefaultKeySwitch: %d entries", len(r.Value))
	if d := cdist(lwePhase(r.Value, e.SK.LWEKey.Value), want); d > tol {
		x.Fail("DefaultKeySwitch %d -> %d (gadget 2^%d x %d): phase off by %d (tolerance %d)", N, s.n, g.LogBase(), g.Level(), d, tol)
	}
	x.Assert(eqT(r.Value, o.Value), "DefaultKeySwitchTo differs from DefaultKeySwitch")
	x.Assert(eqT(ct.Value, v) && snap(e.EVK) == h, "DefaultKeySwitch modified an input")
	x.Step(2)
	x.State(tname[T](), s, gi, pat)
}

// c12extract: every index, exactly, under arbitrary keys.
func c12extract[T TI](x *X) {
	k := 1 + x.Choose(3, "rank")
	N := []int{16, 32, 64, 128}[x.Choose(x.Pick(3, 4), "N")]
	pat := x.Choose(3, "pattern")
	kk := x.Choose(5, "key")
	idx := x.Choose(N, "index")
	v := ctPat[T](k, N, pat, 3)
	ct := mkGLWE(v)
	sk := tfhe.NewGLWESecretKeyCustom[T](k, N)
	flat := anyKey[T](k*N, kk&3)
	if kk == 4 {
		flat = ctPat[T](0, k*N, 0, 8)[0]
	}
	for i := range sk.Value {
		copy(sk.Value[i].Coeffs, flat[i*N:])
	}
	lk := sk.AsLWEKey()
	lk2 := tfhe.NewLWESecretKeyCustom[T](k * N)
	dirty(&lk2, 4)
	sk.AsLWEKeyTo(lk2)
	x.Assert(eqT(lk.Value, flat) && eqT(lk2.Value, flat), "AsLWEKey: %v, want %v", lk.Value, flat)
	want := glwePhase(ct.Value, sk.Value)[idx]
	a := ct.AsLWECiphertext(idx)
	b := tfhe.LWECiphertext[T]{Value: ctPat[T](0, k*N+1, 0, 5)[0]}
	ct.AsLWECiphertextTo(idx, b)
	x.Assert(len(a.Value) == k*N+1 && lwePhase(a.Value, flat) == want, "AsLWECiphertext(%d) of rank %d N %d: phase %d, want %d", idx, k, N, lwePhase(a.Value, flat), want)
	x.Assert(eqT(a.Value, b.Value), "AsLWECiphertextTo(%d) differs", idx)
	for i := range v {
		x.Assert(eqT(ct.Value[i].Coeffs, v[i]), "extraction modified the ciphertext")
	}
	// the result shares no memory
	h := snap(ct, sk)
	dirty(&a, 1)
	dirty(&lk, 1)
	x.Assert(snap(ct, sk) == h, "extraction aliases its input")
	x.Step(2)
	x.State(tname[T](), k, N, pat, kk, idx)
}

func init() {
	all := []string{"avx2", "cpuoff", "purego"}
	reg := func(name, bound string, shards int, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C12", Name: name, Backends: all, Shards: shards, Bound: bound, Run: func(x *X) {
			if x.Bool("64") {
				f64(x)
			} else {
				f32(x)
			}
		}})
	}
	reg("lwe", "input dimension 1,2,5,17 (64) -> 2 (4) output dimensions x 6 gadgets x 4 keys x 5 ciphertext patterns, with in-place where dimensions agree", 2, c12lwe[uint32], c12lwe[uint64])
	reg("glwe", "input rank 1-3 -> rank 1-3, N 16..64 x 6 gadgets x 4 keys x 5 ciphertext patterns", 2, c12glwe[uint32], c12glwe[uint64])
	reg("default", "6 relations of LWE and flattened dimension (incl. equal) x 6 gadgets x 5 patterns", 1, c12default[uint32], c12default[uint64])
	reg("extract", "every index x rank 1-3 x N 16..64 (128) x 3 patterns x 5 keys", 1, c12extract[uint32], c12extract[uint64])
}
