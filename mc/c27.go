package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
)

// C27: FHEW bootstrapping.  Model state: the rotation index -(r_b + sum r_i s_i) mod 2N with odd r.

type fhEnv[T TI] struct {
	P   xtfhe.FHEWParameters[T]
	e   *tenv[T]
	evk xtfhe.FHEWEvaluationKey[T]
}

func fhLit[T TI](s shape, win int, sd float64) xtfhe.FHEWParametersLiteral[T] {
	l := quietLit[T](s)
	l.BlindRotateParams = gad[T](10, 5)
	if bitsOf[T]() == 32 {
		l.BlindRotateParams = gad[T](5, 6)
	}
	return xtfhe.FHEWParametersLiteral[T]{BaseParams: l, SecretKeyStdDev: sd / math.Exp2(float64(bitsOf[T]())), WindowSize: win}
}

// fhOf is an environment with the given LWE key; the other key entries are small integers of both signs.
func fhOf[T TI](s shape, win int, key []int, par bool) *fhEnv[T] {
	return core.Memo(fmt.Sprintf("fhew:%s:%v:%d:%v:%v", tname[T](), s, win, key, par), func() *fhEnv[T] {
		r := &fhEnv[T]{P: fhLit[T](s, win, 2).Compile()}
		p := r.P.BaseParams()
		flat := make([]T, p.GLWEDimension())
		for i := range flat {
			flat[i] = T(mix64(uint64(i+101*len(key)))%7) - 3
			if i < len(key) {
				flat[i] = T(int64(key[i]))
			}
		}
		r.e = &tenv[T]{P: p, SK: keyFrom(p, flat)}
		enc := xtfhe.NewFHEWEncryptorWithKey(r.P, r.e.SK)
		if par {
			r.evk = enc.SafeCopy().GenEvalKeyParallel()
		} else {
			r.evk = enc.GenEvalKey()
		}
		return r
	})
}

func fhTol[T TI](e *tenv[T]) float64 {
	p := e.P
	w := float64(bitsOf[T]())
	var sn, sl float64
	for _, v := range e.SK.LWELargeKey.Value {
		sn += float64(sabs(v))
	}
	for _, v := range e.SK.LWELargeKey.Value[p.LWEDimension():] {
		sl += float64(sabs(v))
	}
	n, k, N := float64(p.LWEDimension()), float64(p.GLWERank()), float64(p.PolyRank())
	g, ks := p.BlindRotateParams(), p.KeySwitchParams()
	last := func(g tfhe.GadgetParameters[T]) float64 {
		if int(w) > g.Level()*g.LogBase() {
			return math.Exp2(float64(g.LogLastBaseQ()))
		}
		return 1
	}
	fp := 4 * float64(g.Level()) * (k + 1) * math.Exp2(w-53) * N * float64(g.Base()) * math.Log2(N) * (1 + sn)
	t := n*((1+sn)*(last(g)+2)+fp) + N*(sn*(last(g)+2)+fp)
	return t + sl*last(ks) + 4
}

func c27shapes() []shape {
	return []shape{
		{1, 1, 16, 16, 1, brks, 2}, {2, 1, 16, 16, 1, ksbr, 2}, {3, 1, 16, 16, 1, brks, 4}, {2, 2, 16, 16, 1, brks, 2}, {1, 1, 32, 32, 1, ksbr, 4}, {4, 1, 32, 32, 1, brks, 2}, {1, 1, 64, 64, 1, brks, 8},
	}
}

var c27keys = []int{0, 1, -1, 2, -3, 7, -40}

// c27grid: every rotation index.
func c27grid[T TI](x *X) {
	sh := c27shapes()
	s := sh[x.Choose(len(sh), "shape")]
	win := core.OneOf(x, "window", []int{1, 2, 3, 5, s.N/2 - 1, s.N/2 + 2}[:x.Pick(5, 6)])
	N := s.N
	key := make([]int, s.n)
	masks := make([]int, s.n)
	sel := []int{1, 2*N - 1, 5, 2*N - 5, 25 % (2 * N), N + 1, 3}
	if s.n > 2 {
		sel = sel[:x.Pick(4, 5)]
	}
	for i := range key {
		switch {
		case s.n == 1:
			key[i] = core.OneOf(x, "key", c27keys)
			masks[i] = 2*x.Choose(N, "rotation") + 1
		case s.n == 2:
			if i == 0 {
				key[i] = core.OneOf(x, "key", []int{1, -2, 0})
				masks[i] = 2*x.Choose(N, "rotation") + 1
			} else {
				key[i] = core.OneOf(x, "key", []int{-1, 3})
				masks[i] = core.OneOf(x, "rotation", sel)
			}
		default:
			key[i] = []int{1, -1, 2, -3}[i]
			masks[i] = core.OneOf(x, "rotation", sel)
		}
	}
	m := x.Choose(s.msg, "message")
	half := N / (2 * s.msg)
	d := core.OneOf(x, "slot", []int{-half, half - 1, 0})
	hist := x.Choose(3, "history")
	if !x.Thorough() && (s.N == 64 || hist != (m+masks[0]/2+win)%3) { // one history per point
		return
	}
	b := fhOf[T](s, win, key, win%2 == 0)
	e := b.e
	ev := xtfhe.NewFHEWEvaluator(b.P, b.evk)
	slot := T(1) << (bitsOf[T]() - bitLen(uint64(2*N)) + 1)
	build := func(m, d int) tfhe.LWECiphertext[T] {
		ct := tfhe.NewLWECiphertextCustom[T](e.P.DefaultLWEDimension())
		rb := -(m*N/s.msg + d)
		for i, r := range masks {
			ct.Value[i+1] = -T(r) * slot
			rb -= r * key[i]
		}
		if rb%2 == 0 {
			if d > 0 {
				rb++ // one slot lower
			} else {
				rb-- // one slot higher
			}
		}
		ct.Value[0] = -T(int64(rb)) * slot
		return ct
	}
	if half == 1 && d != 0 {
		return
	}
	ct := build(m, d)
	h := snap(ct)
	fi := (m + d + masks[0] + 100*N) % len(c08funcs)
	f := func(v int) int { return c08funcs[fi].f(v, s.msg) }
	want := refEncode[T](f(m), e.P.MessageModulus(), e.P.Scale())
	out := tfhe.NewLWECiphertext(e.P)
	dirty(out, 5)
	var got T
	switch hist {
	case 0:
		ev.BootstrapFuncTo(out, ct, f)
		got = lwePhase(out.Value, e.defKey())
	case 1: // after another message and table, on a copy
		ev.BootstrapFunc(build((m+1)%s.msg, 0), func(v int) int { return v + 1 })
		ev = ev.SafeCopy()
		got = lwePhase(ev.BootstrapFunc(ct, f).Value, e.defKey())
	case 2: // rotation alone
		lc := ct
		if s.order == ksbr {
			lc = ev.DefaultKeySwitch(ct)
		}
		lut := ev.GenLUT(f)
		g := tfhe.NewGLWECiphertext(e.P)
		dirty(g, 9)
		ev.BlindRotateTo(g, lc, lut)
		x.Assert(snap(g) == snap(ev.BlindRotate(lc, lut)), "BlindRotateTo and BlindRotate differ")
		got = glwePhase(g.Value, e.SK.GLWEKey.Value)[0]
	}
	x.Step(1)
	x.Assert(snap(ct) == h, "the input ciphertext was modified")
	tol := fhTol(e)
	if tol > math.Exp2(float64(bitsOf[T]()-1-bitLen(uint64(s.msg)))) {
		x.Fail("harness: tolerance 2^%.1f too coarse", math.Log2(tol))
	}
	if dd := cdist(got, want); float64(dd) > tol {
		x.Fail("shape %v window %d key %v rotations %v message %d (slot %+d) f=%s: phase off by 2^%d, tolerance 2^%.1f", s, win, key, masks, m, d, c08funcs[fi].n, bitLen(dd), math.Log2(tol))
	}
	x.State(tname[T](), s, win, fmt.Sprint(key, masks), m, d, hist)
}

// c27keysCheck: the key material entry by entry, serial and parallel.
func c27keysCheck[T TI](x *X) {
	s := core.OneOf(x, "shape", c27shapes()[:x.Pick(5, 7)])
	win := core.OneOf(x, "window", []int{1, 3, s.N/2 + 1})
	par := x.Bool("parallel")
	kb := x.Choose(3, "key")
	hist := x.Choose(3, "history")
	key := make([]int, s.n)
	for i := range key {
		key[i] = [][]int{{-5, 3, 0, 1}, {2*s.N + 3, -s.N, s.N - 1, 9}, {1, -1, 2, -40}}[kb][i]
	}
	b := fhOf[T](s, win, key, par)
	evk := b.evk
	enc := xtfhe.NewFHEWEncryptorWithKey(b.P, b.e.SK)
	switch hist {
	case 1: // generated again after encryptions
		enc.EncryptLWE(1)
		enc.GenGaloisKey()
		hk := snap(b.e.SK)
		if par {
			evk = enc.GenEvalKeyParallel()
		} else {
			evk = enc.GenEvalKey()
		}
		x.Assert(snap(b.e.SK) == hk, "key generation changed the secret key")
	case 2: // the single parts
		evk = xtfhe.FHEWEvaluationKey[T]{KeySwitchKey: enc.GenDefaultKeySwitchKey(), GaloisKey: enc.SafeCopy().GenGaloisKey()}
		if par {
			evk.BlindRotateKey = enc.GenBlindRotateKeyParallel()
		} else {
			evk.BlindRotateKey = enc.GenBlindRotateKey()
		}
	}
	x.Step(1)
	p := b.P.BaseParams()
	N := s.N
	sk := b.e.SK.GLWEKey.Value
	tol := 2 * fftTol[T]()
	x.Assert(len(evk.BlindRotateKey.Value) == s.n && len(evk.GaloisKey) == win+1, "key sizes")
	for i := 0; i < s.n; i++ {
		mono := make([]T, N)
		mono[0] = 1
		checkGGSW(x, fmt.Sprintf("BlindRotateKey[%d]", i), enc.InvFFTGGSWCiphertext(evk.BlindRotateKey.Value[i]), sk, p.BlindRotateParams(), nMono(mono, key[i]), tol)
	}
	for i, gk := range evk.GaloisKey {
		d := -5
		if i > 0 {
			d = 1
			for j := 0; j < i; j++ {
				d = d * 5 % (2 * N)
			}
		}
		x.Assert(len(gk.Value) == s.k && gk.GadgetParams == p.BlindRotateParams(), "GaloisKey[%d] shape", i)
		for j := range gk.Value {
			checkGLev(x, fmt.Sprintf("GaloisKey[%d]", i), enc.InvFFTGLevCiphertext(gk.Value[j]).Value, sk, gk.GadgetParams, nPerm(sk[j].Coeffs, ((d%(2*N))+2*N)%(2*N)), tol)
		}
	}
	rest := b.e.SK.LWELargeKey.Value[s.n:]
	x.Assert(len(evk.KeySwitchKey.Value) == len(rest), "KeySwitchKey has %d entries, want %d", len(evk.KeySwitchKey.Value), len(rest))
	for j, v := range rest {
		for l, c := range evk.KeySwitchKey.Value[j].Value {
			g := evk.KeySwitchKey.GadgetParams
			w := v << (bitsOf[T]() - (l+1)*g.LogBase())
			if dd := cdist(lwePhase(c.Value, b.e.SK.LWEKey.Value), w); dd > 2 {
				x.Fail("KeySwitchKey[%d] level %d: phase off by %d", j, l, dd)
			}
		}
	}
	x.State(tname[T](), s, win, par, kb, hist)
}

// c27real: sampled keys and real encryptions.
func c27real[T TI](x *X) {
	sh := []shape{{4, 1, 256, 256, 1, ksbr, 2}, {4, 1, 256, 256, 1, brks, 4}, {3, 2, 128, 128, 1, brks, 2}, {8, 1, 512, 512, 1, ksbr, 4}}
	s := sh[x.Choose(x.Pick(3, 4), "shape")]
	win := core.OneOf(x, "window", []int{1, 4, 10})
	par := x.Bool("parallel")
	seed := x.Choose(x.Pick(2, 8), "key")
	api := x.Choose(5, "api")
	m := x.Choose(s.msg, "message")
	fi := x.Choose(x.Pick(3, len(c08funcs)), "function")
	hist := x.Choose(2, "history")
	type fx struct {
		P   xtfhe.FHEWParameters[T]
		enc *xtfhe.FHEWEncryptor[T]
		evk xtfhe.FHEWEvaluationKey[T]
	}
	b := core.Memo(fmt.Sprintf("fhreal:%s:%v:%d:%v:%d", tname[T](), s, win, par, seed), func() *fx {
		r := &fx{P: fhLit[T](s, win, []float64{1, 0.4}[seed%2]).Compile()}
		r.enc = xtfhe.NewFHEWEncryptor(r.P)
		if par {
			r.evk = r.enc.GenEvalKeyParallel()
		} else {
			r.evk = r.enc.GenEvalKey()
		}
		return r
	})
	sk := b.enc.SecretKey
	e := &tenv[T]{P: b.P.BaseParams(), SK: sk}
	enc := xtfhe.NewFHEWEncryptorWithKey(b.P, sk)
	ev := xtfhe.NewFHEWEvaluator(b.P, b.evk)
	f := func(v int) int { return c08funcs[fi].f(v, s.msg) }
	if hist == 1 {
		ev.BootstrapFunc(enc.EncryptLWE(0), func(v int) int { return v + 1 })
		ev = ev.SafeCopy()
		enc = enc.SafeCopy()
	}
	ct := enc.EncryptLWE(m)
	x.Assert(enc.DecryptLWE(ct) == m, "encryption under the small-integer key decrypts to %d, want %d", enc.DecryptLWE(ct), m)
	h := snap(ct)
	out := tfhe.NewLWECiphertext(e.P)
	dirty(out, 4)
	inplace := false
	switch api {
	case 0:
		out = ev.BootstrapFunc(ct, f)
	case 1:
		ev.BootstrapFuncTo(out, ct, f)
	case 2:
		out = ev.BootstrapLUT(ct, ev.GenLUT(f))
	case 3:
		ev.BootstrapFuncTo(ct, ct, f)
		out, inplace = ct, true
	case 4:
		lut := ev.GenLUT(f)
		hl := snap(lut)
		ev.BootstrapLUTTo(out, ct, lut)
		x.Assert(snap(lut) == hl, "bootstrapping modified the lookup table")
	}
	x.Step(1)
	x.Assert(inplace || snap(ct) == h, "the input ciphertext was modified")
	sum := 1.0
	for _, v := range sk.LWEKey.Value {
		sum += float64(sabs(v))
	}
	if 1.5*sum+1 >= float64(s.N/(2*s.msg)) {
		x.Observe("not demanded")
		return
	}
	x.Observe("demanded")
	got, want := lwePhase(out.Value, e.defKey()), refEncode[T](f(m), e.P.MessageModulus(), e.P.Scale())
	if dd, tol := cdist(got, want), fhTol(e); float64(dd) > tol {
		x.Fail("shape %v window %d api %d message %d f=%s: phase off by 2^%d, tolerance 2^%.1f", s, win, api, m, c08funcs[fi].n, bitLen(dd), math.Log2(tol))
	}
	x.Assert(enc.DecryptLWE(out) == mod(f(m), s.msg), "decryption gives %d, want %d", enc.DecryptLWE(out), mod(f(m), s.msg))
	x.State(tname[T](), s, win, par, seed, api, m, fi, hist)
}

// c27round: one value swept over the torus; the rotation index is odd and within 3/2 of the exact one.
func c27round[T TI](x *X) {
	s := core.OneOf(x, "shape", []shape{{1, 1, 32, 32, 1, brks, 2}, {1, 1, 64, 64, 1, ksbr, 2}})
	N := s.N
	w := bitsOf[T]()
	slot := T(1) << (w - bitLen(uint64(2*N)) + 1)
	key := core.OneOf(x, "key", []int{0, 1, -1, 3, -4})
	k := x.Choose(2*N, "slot")
	off := x.Choose(7, "offset")
	m := x.Choose(s.msg, "message")
	onBody := x.Bool("body")
	v := T(k)*slot + []T{0, 1, slot/2 - 1, slot / 2, slot/2 + 1, slot - 1, slot / 4}[off]
	b := fhOf[T](s, 2, []int{key}, false)
	ev := xtfhe.NewFHEWEvaluator(b.P, b.evk)
	r := ev.ModSwitch(v)
	x.Assert(r > 0 && r < 2*N && r%2 == 1, "ModSwitch(%d) = %d is not an odd rotation", v, r)
	ct := tfhe.NewLWECiphertextCustom[T](b.e.P.DefaultLWEDimension())
	ct.Value[0] = refEncode[T](m, b.e.P.MessageModulus(), b.e.P.Scale())
	if onBody {
		ct.Value[0] += v % slot
	} else {
		ct.Value[1] = v
		ct.Value[0] -= v * T(int64(key))
	}
	f := func(v int) int { return v + 1 }
	got := lwePhase(ev.BootstrapFunc(ct, f).Value, b.e.defKey())
	want := refEncode[T](f(m), b.e.P.MessageModulus(), b.e.P.Scale())
	ab := key
	if ab < 0 {
		ab = -ab
	}
	if 1.5*float64(1+ab)+2 < float64(N/(2*s.msg)) {
		x.Observe("demanded")
		if dd, tol := cdist(got, want), fhTol(b.e); float64(dd) > tol {
			x.Fail("shape %v key %d message %d value %d (body %v): phase off by 2^%d, tolerance 2^%.1f", s, key, m, v, onBody, bitLen(dd), math.Log2(tol))
		}
	} else {
		x.Observe("not demanded")
	}
	x.Step(1)
	x.State(tname[T](), s, key, k, off, m, onBody)
}

func init() {
	two := func(name, bound string, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C27", Name: name, Bound: bound, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	two("grid", "both widths x 7 parameter sets (degree 16-64, rank 1-2, dimension 1-4, both orders) x 5 (thorough 6) window sizes x integer keys in [-40,7] x every odd rotation index (dimension 1, and the first of 2) x every message x ends and centre of its interval x 3 histories (quick: one history per point, degree up to 32)", c27grid[uint32], c27grid[uint64])
	two("keys", "5 parameter sets x 3 windows x serial/parallel x 3 integer keys x 3 histories: phase of every entry of the blind rotation, Galois and key-switching keys", c27keysCheck[uint32], c27keysCheck[uint64])
	two("entry", "3 parameter sets x 3 windows x serial/parallel keys x sampled keys x 5 entry points x every message x functions x 2 histories on real encryptions", c27real[uint32], c27real[uint64])
	two("rounding", "2 parameter sets x 5 keys x every rotation slot x 7 offsets x message x body/mask", c27round[uint32], c27round[uint64])
}
