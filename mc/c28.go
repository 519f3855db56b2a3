package main

import (
	"crypto/cipher"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
)

// C28: sanitisation.  Model state: the message of the input (its phase, slot by slot) and the function; the sampler
// is explored over its whole support by driving its source of random words.

type sanShape struct {
	s    shape
	sig  float64 // discrete Gaussian deviations, in units of the torus
	tau  float64 // rounded Gaussian deviations
	key  int     // pattern of the LWE key
	pkSd float64 // noise of the public key, in units of the torus
}

type sanEnv[T TI] struct {
	P  xtfhe.SanitizationParameters[T]
	e  *tenv[T]
	pk tfhe.PublicKey[T]
}

func sanOf[T TI](s sanShape) *sanEnv[T] {
	return core.Memo(fmt.Sprintf("san:%s:%v", tname[T](), s), func() *sanEnv[T] {
		w := float64(bitsOf[T]())
		l := quietLit[T](s.s)
		l.BlindRotateParams = gad[T](10, 5)
		l.KeySwitchParams = gad[T](9, 6)
		if w == 32 {
			l.BlindRotateParams = gad[T](5, 6)
			l.KeySwitchParams = gad[T](5, 6)
		}
		if s.pkSd > 0 {
			l.GLWEStdDev = s.pkSd / math.Exp2(w)
		}
		r := &sanEnv[T]{P: xtfhe.SanitizationParametersLiteral[T]{BaseParams: l,
			RandSigma: s.sig / math.Exp2(w), RandTau: s.tau / math.Exp2(w), LinEvalSigma: s.sig / math.Exp2(w), LinEvalTau: s.tau / math.Exp2(w)}.Compile()}
		p := r.P.BaseParams()
		flat := make([]T, p.GLWEDimension())
		for i := range flat {
			if i < s.s.n {
				flat[i] = T(s.key >> i & 1)
			} else {
				flat[i] = T(mix64(uint64(i+s.key*101)) & 1)
			}
		}
		sk := keyFrom(p, flat)
		enc := tfhe.NewEncryptorWithKey(p, sk)
		r.e = &tenv[T]{P: p, SK: sk, EVK: enc.GenEvalKey()}
		r.pk = enc.GenPublicKey()
		return r
	})
}

func (b *sanEnv[T]) san() *xtfhe.Sanitizer[T] { return xtfhe.NewSanitizer(b.P, b.pk, b.e.EVK) }

func c28shapes() []sanShape {
	return []sanShape{
		{s: shape{2, 1, 32, 32, 1, ksbr, 2}, sig: 0.7, tau: 2, key: 3},
		{s: shape{3, 1, 64, 64, 1, ksbr, 4}, sig: 1, tau: 1, key: 5},
		{s: shape{1, 1, 16, 16, 1, ksbr, 2}, sig: 2, tau: 5, key: 1},
		{s: shape{4, 1, 64, 64, 2, ksbr, 3}, sig: 0.7, tau: 3, key: 6},
		{s: shape{2, 1, 64, 64, 1, ksbr, 2}, sig: 3, tau: 4, key: 2, pkSd: 1.5},
		{s: shape{3, 1, 128, 128, 1, ksbr, 8}, sig: 1, tau: 1, key: 7},
		{s: shape{2, 1, 256, 256, 1, ksbr, 4}, sig: 1, tau: 1, key: 0},
	}
}

// sanTol bounds the output error: the rotation error times the length of the randomised monomial.
func (b *sanEnv[T]) tol(s sanShape) float64 {
	p := b.e.P
	w := float64(bitsOf[T]())
	br := p.BlindRotateParams()
	n, N := float64(p.LWEDimension()), float64(p.PolyRank())
	acc := n * (2*(1+N)*(1+boolf(w > float64(br.Level()*br.LogBase()))*math.Exp2(float64(br.LogLastBaseQ()))) + 8*float64(br.Level())*math.Exp2(w-53)*N*float64(br.Base())*math.Log2(N))
	acc += n * 2 * float64(br.Level()) * 2 * N * float64(br.Base()) * 8.2 * s.pkSd
	l1 := 1 + 2*float64(s.s.msg)*N*(6.5*s.sig+1)
	return (acc+4*float64(s.s.msg))*l1 + 8.2*s.tau + 2
}

func boolf(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

// c28lwe is a ciphertext with the given phase and one of several masks.
func c28lwe[T TI](key []T, ph T, mask int) tfhe.LWECiphertext[T] {
	ct := tfhe.NewLWECiphertextCustom[T](len(key))
	ct.Value[0] = ph
	for i := range key {
		var a T
		switch mask {
		case 1:
			a = T(mix64(uint64(i)*7 + 3))
		case 2:
			a = ^T(0) - T(i)
		case 3:
			if i%5 == 1 {
				a = T(1) << (bitsOf[T]() - 1)
			}
		}
		ct.Value[i+1] = a
		ct.Value[0] -= a * key[i]
	}
	return ct
}

// c28grid: every message, every offset inside its interval that rounding cannot push out of it.
func c28grid[T TI](x *X) {
	sh := c28shapes()
	s := sh[x.Choose(x.Pick(5, len(sh)), "shape")]
	m := x.Choose(s.s.msg, "message")
	half := s.s.N / (2 * s.s.msg)
	room := half - (s.s.n/2 + 2)
	if room < 0 {
		room = 0
	}
	d := x.Choose(2*room+1, "offset") - room
	mask := x.Choose(x.Pick(2, 4), "mask")
	fi := x.Choose(x.Pick(4, len(c08funcs)), "function")
	api := x.Choose(5, "api")
	hist := x.Choose(3, "history")
	if !x.Thorough() && hist != (m+d+fi+api+1000)%3 {
		return
	}
	b := sanOf[T](s)
	p := b.e.P
	sn := b.san()
	f := func(v int) int { return c08funcs[fi].f(v, s.s.msg) }
	enc := func(m, d, mask int) tfhe.LWECiphertext[T] {
		slot := T(1) << (bitsOf[T]() - bitLen(uint64(2*s.s.N)) + 1)
		return c28lwe(b.e.SK.LWELargeKey.Value, refEncode[T](m, p.MessageModulus(), p.Scale())+T(int64(d))*slot, mask)
	}
	switch hist {
	case 1:
		sn.SanitizeFunc(enc((m+1)%s.s.msg, 0, 1), func(v int) int { return v + 1 })
	case 2:
		o := sn
		sn = sn.SafeCopy()
		o.SanitizeFunc(enc((m+1)%s.s.msg, 0, 2), func(v int) int { return v + 2 })
		g := tfhe.NewGLWECiphertext(p)
		sn.ReRandGLWETo(g, tfhe.NewGLWECiphertext(p))
	}
	ct := enc(m, d, mask)
	h, hk := snap(ct), snap(b.pk, b.e.EVK)
	out := tfhe.NewLWECiphertext(p)
	dirty(out, 7)
	want := f(m)
	inplace := false
	switch api {
	case 0:
		out = sn.SanitizeFunc(ct, f)
	case 1:
		sn.SanitizeFuncTo(out, ct, f)
	case 2:
		lut := sn.GenLUT(f)
		hl := snap(lut)
		out = sn.SanitizeLUT(ct, lut)
		x.Assert(snap(lut) == hl, "sanitising modified the lookup table")
	case 3:
		inplace = true
		out = ct
		sn.SanitizeLUTTo(ct, ct, sn.GenLUT(f))
	case 4: // three times in a row
		out = sn.SanitizeFunc(ct, f)
		for i := 0; i < 2; i++ {
			sn.SanitizeFuncTo(out, out, func(v int) int { return v + i + 1 })
		}
		want += 3
	}
	x.Step(1)
	x.Assert(inplace || snap(ct) == h, "the input ciphertext was modified")
	x.Assert(snap(b.pk, b.e.EVK) == hk, "the keys were modified")
	tol := b.tol(s)
	if lim := math.Exp2(float64(bitsOf[T]()-2)) / float64(s.s.msg); tol > lim {
		x.Observe("decision only")
		tol = lim // half an interval: the decrypted message
	} else {
		x.Observe("tolerance")
	}
	got, w := lwePhase(out.Value, b.e.defKey()), refEncode[T](mod(want, s.s.msg), p.MessageModulus(), p.Scale())
	if dd := cdist(got, w); float64(dd) > tol {
		x.Fail("shape %v message %d offset %d mask %d f=%s api %d: phase off by 2^%d, tolerance 2^%.1f", s, m, d, mask, c08funcs[fi].n, api, bitLen(dd), math.Log2(tol))
	}
	dec := tfhe.NewEncryptorWithKey(p, b.e.SK).DecryptLWE(out)
	x.Assert(dec == mod(want, s.s.msg), "decrypts to %d, want %d", dec, mod(want, s.s.msg))
	x.State(tname[T](), fmt.Sprint(s), m, d, mask, fi, api, hist)
}

// c28rand: rerandomising keeps the phase within the noise added and replaces mask and body.
func c28rand[T TI](x *X) {
	sh := c28shapes()
	s := sh[x.Choose(len(sh), "shape")]
	glwe := x.Bool("glwe")
	inplace := x.Bool("in place")
	mask := x.Choose(4, "mask")
	ph := x.Choose(4, "phase")
	hist := x.Choose(3, "history")
	b := sanOf[T](s)
	p := b.e.P
	N := p.PolyRank()
	sn := b.san()
	key := b.e.SK.LWELargeKey.Value
	ones := 0.0
	for _, v := range key {
		ones += float64(v)
	}
	tol := 8.2*s.tau + (12*s.sig+2)*(1+ones) + float64(N)*8.2*s.pkSd*(12*s.sig+1)
	switch hist {
	case 1:
		g := tfhe.NewGLWECiphertext(p)
		dirty(g, 3)
		sn.ReRandGLWETo(g, g)
		sn.SanitizeFunc(tfhe.NewLWECiphertext(p), func(v int) int { return v })
	case 2:
		sn = sn.SafeCopy()
		ct := tfhe.NewLWECiphertext(p)
		sn.ReRandLWETo(ct, ct)
	}
	type run func() (phase []T, vals []T)
	var one run
	var want []T
	if glwe {
		want = ctPat[T](1, N, ph, 11)[0]
		m := ctPat[T](1, N, mask, 5)
		ct := withPhase(bfvKey(b.e), m, want)
		one = func() ([]T, []T) {
			in := ct.Copy()
			out := in
			if !inplace {
				out = tfhe.NewGLWECiphertext(p)
				dirty(out, 4)
			}
			h := snap(in)
			sn.ReRandGLWETo(out, in)
			x.Assert(inplace || snap(in) == h, "the input was modified")
			return glwePhase(out.Value, b.e.SK.GLWEKey.Value), append(append([]T{}, out.Value[0].Coeffs...), out.Value[1].Coeffs...)
		}
		v0 := append(append([]T{}, ct.Value[0].Coeffs...), ct.Value[1].Coeffs...)
		c28replaced(x, one, v0, want, tol, ph)
	} else {
		want = []T{[]T{0, T(mix64(9)), ^T(0), T(1) << (bitsOf[T]() - 1)}[ph]}
		ct := c28lwe(key, want[0], mask)
		one = func() ([]T, []T) {
			in := ct.Copy()
			out := in
			if !inplace {
				out = tfhe.NewLWECiphertextCustom[T](p.GLWEDimension())
				dirty(out, 4)
			}
			h := snap(in)
			sn.ReRandLWETo(out, in)
			x.Assert(inplace || snap(in) == h, "the input was modified")
			return []T{lwePhase(out.Value, key)}, append([]T{}, out.Value...)
		}
		c28replaced(x, one, ct.Value, want, tol, ph)
	}
	x.State(tname[T](), fmt.Sprint(s), glwe, inplace, mask, ph, hist)
}

func bfvKey[T TI](e *tenv[T]) [][]T {
	var r [][]T
	for _, p := range e.SK.GLWEKey.Value {
		r = append(r, p.Coeffs)
	}
	return r
}

func c28replaced[T TI](x *X, one func() ([]T, []T), v0, want []T, tol float64, ph int) {
	prev := [][]T{v0}
	moved := false
	for i := 0; i < 3; i++ {
		phase, vals := one()
		x.Step(1)
		if dd := maxDist(phase, want); float64(dd) > tol {
			x.Fail("the phase moved by 2^%d, tolerance 2^%.1f", bitLen(dd), math.Log2(tol))
		} else if dd > 0 {
			moved = true
		}
		for j, o := range prev {
			same := 0
			for k := range o {
				if o[k] == vals[k] {
					same++
				}
			}
			if same > 1 {
				x.Fail("run %d leaves %d of %d entries as in %d", i, same, len(o), j)
			}
		}
		prev = append(prev, vals)
	}
	x.Assert(moved, "no noise was added in three runs")
}

// c28fresh: sanitisations of one ciphertext differ from each other, in every entry.
func c28fresh[T TI](x *X) {
	sh := c28shapes()
	s := sh[x.Choose(len(sh), "shape")]
	m := x.Choose(s.s.msg, "message")
	mask := x.Choose(4, "mask")
	who := x.Choose(4, "instances")
	b := sanOf[T](s)
	a := b.san()
	c := a
	switch who {
	case 1:
		c = a.SafeCopy()
	case 2:
		c = b.san()
	case 3:
		a, c = a.SafeCopy(), a.SafeCopy()
	}
	ct := c28lwe(b.e.SK.LWELargeKey.Value, refEncode[T](m, b.e.P.MessageModulus(), b.e.P.Scale()), mask)
	id := func(v int) int { return v }
	var outs [][]T
	for i := 0; i < 2; i++ {
		outs = append(outs, append([]T{}, a.SanitizeFunc(ct, id).Value...), append([]T{}, c.SanitizeFunc(ct, id).Value...))
	}
	x.Step(4)
	for i := range outs {
		for j := 0; j < i; j++ {
			same := 0
			for k := range outs[i] {
				if outs[i][k] == outs[j][k] {
					same++
				}
			}
			x.Assert(same <= 1, "sanitisations %d and %d agree in %d of %d entries", j, i, same, len(outs[i]))
		}
	}
	x.State(tname[T](), fmt.Sprint(s), m, mask, who)
}

// c28shipped: the shipped set, with sampled keys.
func c28shipped(x *X) {
	m := x.Choose(2, "message")
	fi := x.Choose(3, "function")
	rep := x.Choose(x.Pick(1, 4), "repetition")
	b := core.Memo("san:shipped", func() *sanEnv[uint64] {
		r := &sanEnv[uint64]{P: xtfhe.ParamsSanitizeBinary.Compile()}
		enc := tfhe.NewEncryptor(r.P.BaseParams())
		r.e = &tenv[uint64]{P: r.P.BaseParams(), SK: enc.SecretKey, EVK: enc.GenEvalKeyParallel()}
		r.pk = enc.GenPublicKey()
		return r
	})
	sn := b.san()
	ct := b.e.enc().EncryptLWE(m)
	h := snap(ct)
	want := m
	for i := 0; i <= rep; i++ {
		ct2 := sn.SanitizeFunc(ct, func(v int) int { return c08funcs[fi].f(v, 2) })
		x.Assert(snap(ct) == h, "the input was modified")
		want = mod(c08funcs[fi].f(want, 2), 2)
		got := b.e.enc().DecryptLWE(ct2)
		x.Assert(got == want, "step %d: %d, want %d", i, got, want)
		ct, h = ct2, snap(ct2)
		if i == 1 {
			sn = sn.SafeCopy()
		}
		x.Step(1)
	}
	x.State(m, fi, rep)
}

// --- randomness under the control of the explorer ---

// wordStream is a key stream whose bytes are chosen by the explorer.
type wordStream struct {
	next func(dst []byte)
}

func (w wordStream) XORKeyStream(dst, src []byte) { w.next(dst) }

// drive replaces the key stream inside a sampler; false if it has none.
func drive(sampler any, next func(dst []byte)) bool {
	t := reflect.TypeOf((*cipher.Stream)(nil)).Elem()
	found := false
	seen := map[uintptr]bool{}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				rec(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == t && f.CanAddr() {
					reflect.NewAt(t, unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(wordStream{next}))
					found = true
				} else {
					rec(f)
				}
			}
		}
	}
	rec(reflect.ValueOf(sampler))
	return found
}

// words64 drives a sampler of 64-bit words with the given ones, in order.
func words64(sampler any, words []uint64) bool {
	i := 0
	return drive(sampler, func(dst []byte) {
		for j := 0; j+8 <= len(dst); j += 8 {
			w := uint64(0)
			if i < len(words) {
				w = words[i]
			}
			i++
			binary.LittleEndian.PutUint64(dst[j:], w)
		}
	})
}

// cdtSample is the result of the sampler on each word.
func cdtSample[T TI](x *X, mk func() *xtfhe.CDTSampler[T], words []uint64) []int64 {
	s := mk()
	if !words64(s, words) {
		return nil
	}
	r := make([]int64, len(words))
	for i := range r {
		v := s.Sample()
		r[i] = int64(v)
		if bitsOf[T]() == 32 {
			r[i] = int64(int32(v))
		}
	}
	x.Step(len(words))
	return r
}

// c28cdt: the distribution of the discrete Gaussian sampler, computed exactly over all 2^64 words.
func c28cdt[T TI](x *X) {
	sig := core.OneOf(x, "deviation", []float64{0.05, 0.2, 0.3, 0.5, 0.8, 1, 1.5, 2.7, 5, 12.25, 64, 223.3, 1558.7}[:x.Pick(12, 13)])
	c := core.OneOf(x, "centre", []float64{0, -0.25, -0.5, 0.5, -0.125, 0.25, 0.875, 1, -1, 3.5, -7.25, 100.4375, -1.0 / 6, -1e-9, 1e-9})
	mk := func() *xtfhe.CDTSampler[T] { return xtfhe.NewCDTSampler[T](c, sig) }
	s := mk()
	x.Assert(s.Center() == c && s.StdDev() == sig, "Center/StdDev")
	lo, hi := int64(math.Floor(c-12*sig)), int64(math.Ceil(c+12*sig))
	for i := 0; i < 2000; i++ { // plain use
		v := int64(int32(s.Sample()))
		x.Assert(v >= lo && v <= hi, "centre %v deviation %v: sampled %d outside of [%d, %d]", c, sig, v, lo, hi)
	}
	// the extreme words
	ext := cdtSample(x, mk, []uint64{0, 1, 2, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1})
	if ext == nil {
		x.Observe("source not controllable")
		return
	}
	x.Observe("exact distribution")
	for _, v := range ext {
		x.Assert(v >= lo && v <= hi, "centre %v deviation %v: sampled %d outside of [%d, %d]", c, sig, v, lo, hi)
	}
	// cut[v] is the number of words that give at most v
	n := int(hi - lo + 1)
	a := make([]uint64, n) // lower bound of the first word with a result above lo+i
	top := make([]bool, n) // no such word
	for i, v := range cdtSample(x, mk, rep64(math.MaxUint64, n)) {
		top[i] = v <= lo+int64(i)
	}
	for bit := 63; bit >= 0; bit-- {
		probe := make([]uint64, n)
		for i := range probe {
			probe[i] = a[i] + 1<<bit - 1 // does every word up to here give at most lo+i ?
		}
		for i, v := range cdtSample(x, mk, probe) {
			if v <= lo+int64(i) {
				a[i] += 1 << bit
			}
		}
	}
	total := 0.0
	wts := make([]float64, n)
	for i := range wts {
		z := (float64(lo+int64(i)) - c) / sig
		wts[i] = math.Exp(-z * z / 2)
		total += wts[i]
	}
	prev := 0.0
	for i := range wts {
		cur := float64(a[i]) / math.Exp2(64)
		if top[i] {
			cur = 1
		}
		if got, want := cur-prev, wts[i]/total; math.Abs(got-want) > 1e-12 {
			x.Fail("centre %v deviation %v: P[%d] = %.15g, want %.15g", c, sig, lo+int64(i), got, want)
		}
		prev = cur
	}
	x.Assert(top[n-1], "words with a result above %d", hi)
	x.State(tname[T](), fmt.Sprint(c, sig))
}

func rep64(v uint64, n int) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = v
	}
	return r
}

// c28cdtAPI: vectors and polynomials carry the values of the scalar calls; adding and subtracting do just that.
func c28cdtAPI[T TI](x *X) {
	sig := core.OneOf(x, "deviation", []float64{0.6, 3, 223.3})
	c := core.OneOf(x, "centre", []float64{0, -0.25, 2.5})
	seed := x.Choose(3, "seed")
	var calls []int
	for i := 0; i < x.Pick(3, 4); i++ {
		calls = append(calls, x.Choose(5, "call"))
	}
	lens := [][]int{{16, 32, 64}, {1024, 16, 256}, {16, 1024, 512}}[x.Choose(3, "lengths")]
	mk := func() *xtfhe.CDTSampler[T] {
		core.Reseed(fmt.Sprint("cdt", seed))
		return xtfhe.NewCDTSampler[T](c, sig)
	}
	ref, s := mk(), mk()
	li := 0
	for _, k := range calls {
		n := lens[li%3]
		li++
		p := poly.NewPoly[T](n)
		dirty(p, uint64(k))
		old := append([]T{}, p.Coeffs...)
		switch k {
		case 0:
			n = 1
			p.Coeffs[0] = s.Sample()
		case 1:
			n = n/2 + 1
			s.SampleVecTo(p.Coeffs[:n])
		case 2:
			s.SamplePolyTo(p)
		case 3:
			s.SamplePolyAddTo(p)
		case 4:
			s.SamplePolySubTo(p)
		}
		for i := 0; i < len(old); i++ {
			want := old[i]
			if i < n {
				v := ref.Sample()
				switch k {
				case 3:
					want = old[i] + v
				case 4:
					want = old[i] - v
				default:
					want = v
				}
			}
			x.Assert(p.Coeffs[i] == want, "call %d: entry %d is %d, want %d", k, i, p.Coeffs[i], want)
		}
		x.Step(1)
	}
	x.State(tname[T](), fmt.Sprint(sig, c, seed, calls, lens))
}

func init() {
	two := func(name, bound string, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C28", Name: name, Bound: bound, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	two("grid", "both widths x 5 (thorough 7) parameter sets (degree 16-256, moduli 2, 3, 4, 8, block size 1 and 2) x every message x every offset of its interval outside of the rounding margin x 2 (4) masks x functions x 5 entry points (in place, three in a row) x 3 histories (quick: one per point)", c28grid[uint32], c28grid[uint64])
	two("rerandomise", "7 parameter sets x GLWE/LWE x in place or not x 4 masks x 4 phases x 3 histories, three runs each", c28rand[uint32], c28rand[uint64])
	two("fresh", "7 parameter sets x every message x 4 masks x 4 pairs of instances, four sanitisations each", c28fresh[uint32], c28fresh[uint64])
	two("sampler", "12 (thorough 13) deviations x 15 centres: the number of 64-bit words mapped to every value of the support, computed exactly by driving the random words", c28cdt[uint32], c28cdt[uint64])
	two("sampler-api", "3 deviations x 3 centres x 3 seeds x every sequence of 3 (thorough 4) calls x 3 length patterns", c28cdtAPI[uint32], c28cdtAPI[uint64])
	core.Register(core.Harness{Prop: "C28", Name: "shipped", Shards: 1, Backends: []string{"avx2"}, Bound: "the shipped parameter set x both messages x 3 functions x 1 (thorough 1 to 4) sanitisations in a row", Run: c28shipped})
}
