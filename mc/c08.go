package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C08: programmable bootstrapping against a model of the rotation.
// Model state: the rotation index (b + sum of the masks selected by the key) modulo 2*LUTSize.

// bootTol is a worst-case bound on the output error of one bootstrap.
func bootTol[T TI](p tfhe.Parameters[T]) uint64 {
	w := float64(bitsOf[T]())
	n, k, N := float64(p.LWEDimension()), float64(p.GLWERank()), float64(p.PolyRank())
	br, ks := p.BlindRotateParams(), p.KeySwitchParams()
	blk := float64(p.BlockSize())
	q := math.Exp2(float64(br.LogLastBaseQ()))
	B, l := float64(br.Base()), float64(br.Level())
	e := 2 * n * (1 + k*N) * q                                                           // decomposition
	e += 2 * n * l * (k + 1) * N * B * 12 * (p.GLWEStdDevQ() + 1)                        // key noise
	e += 4 * n * l * (k + 1) * math.Exp2(w-53) * N * B * math.Max(1, math.Log2(N)) * blk // floating point
	e += 2 * (k*N - n) * math.Exp2(float64(ks.LogLastBaseQ()))
	e += (k*N - n) * float64(ks.Level()) * float64(ks.Base()) * 12 * (p.LWEStdDevQ() + 1)
	if e > math.Exp2(w-3) {
		panic("harness error: tolerance too large")
	}
	// the terms above are worst cases added up; independent terms leave at least this much room
	if w == 64 {
		return uint64(e / 4)
	}
	return uint64(e / 16)
}

func bitLen(v uint64) int {
	n := 0
	for ; v > 0; v >>= 1 {
		n++
	}
	return n
}

// keyedEnv is an environment whose LWE key is the given bit pattern.
func keyedEnv[T TI](s shape, key int) *tenv[T] {
	return core.Memo(fmt.Sprintf("kenv:%s:%s:%d", tname[T](), s, key), func() *tenv[T] {
		p := lit[T](s).Compile()
		flat := make([]T, p.GLWEDimension())
		for i := range flat {
			if i < s.n {
				flat[i] = T(key >> i & 1)
			} else {
				flat[i] = T(mix64(uint64(i+key*101)) & 1)
			}
		}
		sk := keyFrom(p, flat)
		return &tenv[T]{P: p, SK: sk, EVK: tfhe.NewEncryptorWithKey(p, sk).GenEvalKey()}
	})
}

// keysOf lists the LWE keys permitted by the block structure.
func keysOf(s shape) []int {
	var r []int
	for k := 0; k < 1<<s.n; k++ {
		ok := true
		if s.block > 1 {
			for b := 0; b < s.n; b += s.block {
				c := 0
				for j := b; j < b+s.block; j++ {
					c += k >> j & 1
				}
				ok = ok && c <= 1
			}
		}
		if ok {
			r = append(r, k)
		}
	}
	return r
}

var c08funcs = []struct {
	n string
	f func(x, p int) int
}{
	{"id", func(x, p int) int { return x }},
	{"neg", func(x, p int) int { return -x }},
	{"sq+3", func(x, p int) int { return x*x + 3 }},
	{"rev", func(x, p int) int { return p - 1 - x }},
	{"const", func(x, p int) int { return p - 1 }},
	{"delta", func(x, p int) int {
		if x == p-1 {
			return 1
		}
		return 0
	}},
}

func c08gridShapes() []shape {
	return []shape{
		{3, 1, 16, 16, 1, brks, 2}, {3, 1, 16, 16, 1, ksbr, 4}, {3, 2, 16, 16, 1, ksbr, 4}, {1, 1, 16, 16, 1, brks, 4}, {2, 3, 16, 16, 1, brks, 2},
		{4, 1, 16, 16, 2, brks, 4}, {4, 2, 16, 16, 2, ksbr, 2}, {3, 1, 16, 16, 3, brks, 4}, {6, 1, 16, 16, 3, ksbr, 2}, {6, 1, 32, 32, 2, brks, 8},
		{3, 1, 16, 32, 1, brks, 4}, {3, 1, 16, 64, 1, ksbr, 8}, {4, 1, 16, 32, 2, ksbr, 4}, {4, 2, 16, 64, 2, brks, 8}, {6, 1, 16, 32, 2, brks, 4},
		{6, 1, 16, 64, 3, ksbr, 4}, {2, 1, 16, 32, 2, brks, 4}, {1, 1, 16, 64, 1, ksbr, 4}, {3, 1, 16, 32, 3, ksbr, 4}, {9, 1, 16, 32, 3, brks, 4},
		{2, 1, 16, 128, 1, brks, 16}, {3, 1, 32, 32, 1, ksbr, 5}, {4, 1, 16, 64, 2, brks, 6},
	}
}

// c08grid: masks on the rotation grid, every key of small dimension.
func c08grid[T TI](x *X) {
	sh := c08gridShapes()
	s := sh[x.Choose(len(sh), "shape")]
	keys := keysOf(s)
	if lim := x.Pick(6, 32); len(keys) > lim { // spread
		q := keys
		keys = nil
		for i := 0; i < lim; i++ {
			keys = append(keys, q[i*(len(q)-1)/(lim-1)])
		}
	}
	key := core.OneOf(x, "key", keys)
	m := x.Choose(s.msg, "message")
	L := s.lut
	half := float64(L) / float64(2*s.msg)
	// distance of the phase from the centre of the message's interval
	dmax := int(math.Ceil(half)) - 1
	if s.msg&(s.msg-1) != 0 {
		dmax--
	}
	ds := []int{0, -dmax, dmax}
	if s.msg&(s.msg-1) == 0 { // the tie belongs to the upper message
		ds[1] = -int(half)
	}
	if dmax == 0 {
		ds = ds[:1]
	}
	d := core.OneOf(x, "slot", ds)
	vals := []int{0, 1, L - 1, L, 2*L - 1, L/2 + 1, L + 3}
	masks := make([]int, s.n)
	if s.n <= x.Pick(1, 2) {
		for i := range masks {
			masks[i] = x.Choose(2*L, "mask")
		}
	} else if s.n <= x.Pick(3, 4) {
		for i := range masks {
			masks[i] = core.OneOf(x, "mask", vals)
		}
	} else { // one or two free positions, the rest fixed
		base := core.OneOf(x, "base", []int{0, 5, 2*L - 1})
		for i := range masks {
			masks[i] = (base * (i + 1)) % (2 * L)
		}
		i := x.Choose(s.n, "pos")
		masks[i] = core.OneOf(x, "mask", vals)
	}
	variant := x.Choose(2, "mode")
	fi := (key + m + d + masks[0] + 100*L) % len(c08funcs)
	e := keyedEnv[T](s, key)
	ev := tfhe.NewEvaluator(e.P, e.EVK)
	slot := T(1) << (bitsOf[T]() - bitLen(uint64(2*L)) + 1)
	centre := math.Round(float64(m) * float64(L) / float64(s.msg))
	idx := int(centre) + d
	dim := e.P.DefaultLWEDimension()
	ct := tfhe.NewLWECiphertextCustom[T](dim)
	b := idx
	for i, a := range masks {
		ct.Value[i+1] = T(a) * slot
		if key>>i&1 == 1 {
			b -= a
		}
	}
	ct.Value[0] = T(int64(b)) * slot
	in := append([]T{}, ct.Value...)
	f := func(v int) int { return c08funcs[fi].f(v, s.msg) }
	var got T
	want := refEncode[T](c08funcs[fi].f(m, s.msg), e.P.MessageModulus(), e.P.Scale())
	if variant == 0 {
		out := tfhe.NewLWECiphertextCustom[T](dim)
		dirty(&out, 7)
		ev.BootstrapFuncTo(out, ct, f)
		got = lwePhase(out.Value, e.defKey())
	} else { // the rotation alone, raw values, two rotations with the same table
		lut := ev.GenLUT(f)
		lc := ct
		if s.order == ksbr {
			lc = ev.DefaultKeySwitch(ct)
		}
		g := tfhe.NewGLWECiphertext(e.P)
		dirty(&g, 3)
		ev.BlindRotateTo(g, lc, lut)
		g2 := ev.BlindRotate(lc, lut)
		x.Assert(snap(g) == snap(g2), "BlindRotateTo into an old output and BlindRotate differ")
		got = glwePhase(g.Value, e.SK.GLWEKey.Value)[0]
	}
	tol := bootTol(e.P)
	dd := cdist(got, want)
	x.Assert(dd <= tol, "shape %v key %b message %d (slot %+d) masks %v f=%s: phase off by %d (2^%d), tolerance 2^%d", s, key, m, d, masks, c08funcs[fi].n, dd, bitLen(dd), bitLen(tol))
	for i := range in {
		x.Assert(ct.Value[i] == in[i], "the input ciphertext was modified")
	}
	x.Step(1)
	x.State(tname[T](), s.String(), key, idx, fmt.Sprint(masks), variant)
	x.Observe(fmt.Sprintf("headroom %s bits", tname[T]()+fmt.Sprint(bitLen(tol)-bitLen(dd))))
}

// c08real: real encryptions, every entry point, message, function, table form and short histories.
func c08real[T TI](x *X) {
	sh := []shape{
		{6, 1, 64, 64, 1, ksbr, 2}, {6, 1, 64, 64, 1, brks, 2}, {6, 2, 32, 64, 2, ksbr, 4}, {6, 1, 64, 128, 3, brks, 4}, {4, 1, 32, 128, 1, ksbr, 4},
		{16, 1, 16, 64, 8, brks, 2}, {32, 2, 16, 64, 16, ksbr, 2}, {4, 1, 128, 128, 4, ksbr, 3}, {8, 1, 256, 256, 1, brks, 8}, {8, 1, 64, 512, 2, brks, 16}, {8, 1, 128, 256, 8, ksbr, 4},
	}
	s := sh[x.Choose(len(sh), "shape")]
	api := x.Choose(11, "api")
	m := x.Choose(s.msg, "message")
	fi := x.Choose(len(c08funcs), "function")
	hist := x.Choose(3, "history")
	e := env[T](s)
	ev := e.eval()
	enc := e.enc()
	p, sc := e.P.MessageModulus(), e.P.Scale()
	if api >= 5 && api <= 8 { // custom modulus and scale of the output
		p = []T{p, 3, 2, 5}[api-5]
		if int(p) > s.msg {
			p = T(s.msg)
		}
		sc = T(1) << (bitsOf[T]() - 5)
	}
	mp := int(p)
	if m >= mp {
		m = mp - 1
	}
	f := func(v int) int { return c08funcs[fi].f(v, mp) }
	raw := func(v int) T { return T(v*v+1)*(T(1)<<(bitsOf[T]()-6)) + T(1)<<(bitsOf[T]()-9) }
	inScale := T(0)
	{ // the input is encoded on a half torus split in mp parts
		w := bitsOf[T]()
		if w == 32 {
			inScale = T((uint64(1)<<31 + uint64(mp)/2) / uint64(mp))
		} else {
			inScale = T((uint64(1)<<63 + uint64(mp)/2) / uint64(mp))
		}
	}
	pt := tfhe.LWEPlaintext[T]{Value: T(m) * inScale}
	ct := enc.EncryptLWEPlaintext(pt)
	want := refEncode[T](f(m), p, sc)
	out := tfhe.NewLWECiphertext(e.P)
	dirty(&out, 11)
	switch hist {
	case 1: // an earlier bootstrap with another function on the same evaluator
		ev.BootstrapFunc(enc.EncryptLWE(1), func(v int) int { return v + 1 })
	case 2: // an earlier raw table
		lut := ev.GenLUTFull(raw)
		ev.BootstrapLUTTo(out, ct, lut)
	}
	in := snap(ct)
	inplace := false
	switch api {
	case 0:
		out = ev.BootstrapFunc(ct, f)
	case 1:
		ev.BootstrapFuncTo(out, ct, f)
	case 2:
		out = ev.BootstrapLUT(ct, ev.GenLUT(f))
	case 3:
		lut := tfhe.NewLUT(e.P)
		dirty(&lut, 5)
		ev.GenLUTTo(lut, f)
		h := snap(lut)
		ev.BootstrapLUT(enc.EncryptLWE(0), lut)
		ev.BootstrapLUTTo(out, ct, lut)
		x.Assert(snap(lut) == h, "bootstrapping modified the lookup table")
	case 4:
		ev.BootstrapFuncTo(ct, ct, f)
		out, inplace = ct, true
	case 5, 6:
		out = ev.BootstrapLUT(ct, ev.GenLUTCustom(f, p, sc))
	case 7:
		lut := tfhe.NewLUT(e.P)
		dirty(&lut, 9)
		ev.GenLUTCustomTo(lut, f, p, sc)
		ev.BootstrapLUTTo(out, ct, lut)
	case 8:
		out = ev.BootstrapLUT(ct, ev.GenLUTCustomFull(raw, p))
		want = raw(m)
	case 9:
		lut := tfhe.NewLUT(e.P)
		dirty(&lut, 13)
		ev.GenLUTFullTo(lut, raw)
		ev.BootstrapLUTTo(ct, ct, lut)
		out, inplace = ct, true
		want = raw(m)
	case 10: // output of one is the input of the next
		c1 := ev.BootstrapFunc(ct, func(v int) int { return v })
		out = ev.BootstrapFunc(c1, f)
	}
	got := lwePhase(out.Value, e.defKey())
	tol := bootTol(e.P)
	if int(p) != s.msg && s.msg%int(p) != 0 {
		x.Observe("custom modulus not dividing")
	}
	dd := cdist(got, want)
	x.Assert(dd <= tol, "shape %v api %d message %d of %d f=%s history %d: phase off by 2^%d, tolerance 2^%d", s, api, m, mp, c08funcs[fi].n, hist, bitLen(dd), bitLen(tol))
	if api <= 4 || api == 10 {
		x.Assert(enc.DecryptLWE(out) == mod(f(m), mp), "decryption gives %d, want %d", enc.DecryptLWE(out), mod(f(m), mp))
	}
	x.Assert(inplace || snap(ct) == in, "the input ciphertext was modified")
	x.Step(1)
	x.State(tname[T](), s.String(), api, m, fi, hist)
	x.Observe(fmt.Sprintf("f%d", fi))
}

// c08mask: a single mask sweeping the whole torus around every rounding boundary; the result may be any table entry
// whose index is within the rounding of the exact phase, and must be the message's when that stays inside its interval.
func c08round[T TI](x *X) {
	sh := []shape{{1, 1, 16, 16, 1, brks, 4}, {1, 1, 16, 64, 1, brks, 4}, {2, 1, 16, 16, 2, ksbr, 2}, {2, 1, 32, 64, 2, ksbr, 4}, {1, 2, 16, 16, 1, brks, 3}}
	s := sh[x.Choose(len(sh), "shape")]
	L := s.lut
	k := x.Choose(2*L, "slot")
	off := x.Choose(9, "offset")
	pos := x.Choose(s.n+1, "position")
	key := core.OneOf(x, "key", keysOf(s))
	m := x.Choose(s.msg, "message")
	w := bitsOf[T]()
	slot := T(1) << (w - bitLen(uint64(2*L)) + 1)
	v := T(k)*slot + []T{0, 1, slot/2 - 1, slot / 2, slot/2 + 1, slot - 1, slot / 4, slot/2 + slot/4, slot / 3}[off]
	e := keyedEnv[T](s, key)
	ev := tfhe.NewEvaluator(e.P, e.EVK)
	ct := tfhe.NewLWECiphertextCustom[T](e.P.DefaultLWEDimension())
	phase := refEncode[T](m, e.P.MessageModulus(), e.P.Scale())
	body := phase
	if pos == 0 { // move the body off the grid by less than the interval
		d := v % slot
		body += d
		phase += d
	} else {
		ct.Value[pos] = v
		if key>>(pos-1)&1 == 1 {
			body -= v
		}
	}
	ct.Value[0] = body
	f := func(v int) int { return v*3 + 1 }
	got := lwePhase(ev.BootstrapFunc(ct, f).Value, e.defKey())
	tol := bootTol(e.P)
	want := refEncode[T](f(m), e.P.MessageModulus(), e.P.Scale())
	// rounding of two values at most: one slot; demand correctness when the interval is wider than that
	half := float64(L) / float64(2*s.msg)
	fr := 0.0
	if pos == 0 {
		fr = float64(v%slot) / float64(slot)
	}
	slack := 1.0
	if s.msg&(s.msg-1) != 0 {
		slack += 1.5
	}
	if fr+slack < half {
		x.Assert(cdist(got, want) <= tol, "shape %v key %b message %d position %d value %d: phase off by 2^%d, tolerance 2^%d", s, key, m, pos, v, bitLen(cdist(got, want)), bitLen(tol))
		x.Observe("demanded")
	} else {
		x.Observe("not demanded")
	}
	ms := ev.ModSwitch(v)
	exact := float64(v) / float64(slot)
	x.Assert(ms >= 0 && ms < 2*L, "ModSwitch(%d) = %d out of range", v, ms)
	dd := math.Abs(exact - float64(ms))
	if o := float64(2*L) - dd; o < dd {
		dd = o
	}
	x.Assert(dd <= 0.5000001, "ModSwitch(%d) = %d, exact %v", v, ms, exact)
	x.Step(1)
	x.State(tname[T](), s.String(), k, off, pos, key, m)
}

// c08table: the table itself, read slot by slot through trivial ciphertexts, for every message modulus.
func c08table[T TI](x *X) {
	sh := []shape{{1, 1, 16, 16, 1, brks, 2}, {2, 1, 16, 32, 2, ksbr, 2}, {1, 2, 16, 64, 1, brks, 2}, {1, 1, 64, 64, 1, ksbr, 2}, {3, 1, 32, 256, 3, brks, 2}}
	s := sh[x.Choose(len(sh), "shape")]
	L := s.lut
	p := 2 + x.Choose(L/2-1, "modulus")
	raw := x.Bool("raw")
	e := keyedEnv[T](s, 0)
	ev := tfhe.NewEvaluator(e.P, e.EVK)
	w := bitsOf[T]()
	sc := T(1) << (w - 1 - bitLen(uint64(p-1)))
	f := func(v int) int { return v*v + v + 1 }
	val := func(v int) T { return refEncode[T](f(v), T(p), sc) }
	if raw {
		val = func(v int) T { return T(v*7+1) << (w - 12) }
	}
	lut := tfhe.NewLUT(e.P)
	dirty(&lut, uint64(p))
	if p%3 == 0 { // an earlier table on the same evaluator
		ev.GenLUTFull(func(v int) T { return T(v) << (w - 3) })
	}
	if raw {
		ev.GenLUTCustomFullTo(lut, val, T(p))
	} else {
		ev.GenLUTCustomTo(lut, f, T(p), sc)
	}
	tol := bootTol(e.P)
	slot := T(1) << (w - bitLen(uint64(2*L)) + 1)
	pow2 := p&(p-1) == 0
	half := float64(L) / float64(2*p)
	ct := tfhe.NewLWECiphertextCustom[T](s.n)
	g := tfhe.NewGLWECiphertext(e.P)
	for i := -L / 2; i < L; i++ {
		ct.Value[0] = T(int64(i)) * slot
		ev.BlindRotateTo(g, ct, lut)
		got := glwePhase(g.Value, e.SK.GLWEKey.Value)[0]
		ok, demanded := false, false
		for m := 0; m <= p; m++ {
			c := float64(m) * float64(L) / float64(p)
			d := float64(i) - c
			v := T(0)
			if m < p {
				v = val(m)
			} else {
				v = -val(0)
			}
			if (pow2 && d >= -half && d < half) || (!pow2 && math.Abs(d) <= half-1) {
				x.Assert(cdist(got, v) <= tol, "shape %v modulus %d slot %d: entry off by 2^%d from f(%d)", s, p, i, bitLen(cdist(got, v)), m)
				demanded = true
			} else if !pow2 && math.Abs(d) <= half+1 && cdist(got, v) <= tol {
				ok = true
			}
		}
		if !pow2 && !demanded && i >= -int(half) {
			x.Assert(ok, "shape %v modulus %d slot %d: entry %d is neither neighbour's value", s, p, i, got)
		}
		x.State(tname[T](), s.String(), p, raw, i)
	}
	x.Step(L + L/2)
	x.Observe(fmt.Sprintf("raw%v", raw))
}

func init() {
	core.Register(core.Harness{Prop: "C08", Name: "table", Backends: []string{"avx2", "purego"}, Shards: 4,
		Bound: "5 shapes (table 16..256 slots) x every message modulus 2..L/2 x encoded/raw tables x every slot from -L/2 to L-1",
		Run: func(x *X) {
			if x.Bool("64") {
				c08table[uint64](x)
			} else {
				c08table[uint32](x)
			}
		}})
	all := []string{"avx2", "cpuoff", "purego"}
	core.Register(core.Harness{Prop: "C08", Name: "grid", Backends: all, Shards: 8,
		Bound: "23 shapes (rank 1-3, block 1-3, 1-3 blocks, table 1-8x the ring, both orders, power-of-two and odd moduli) x up to 6 (thorough 32) LWE keys x every message x interval centre and edges x mask tuples on the rotation grid x bootstrap / blind rotation",
		Run: func(x *X) {
			if x.Bool("64") {
				c08grid[uint64](x)
			} else {
				c08grid[uint32](x)
			}
		}})
	core.Register(core.Harness{Prop: "C08", Name: "real", Backends: all, Shards: 4,
		Bound: "11 shapes x 11 entry points x every message x 6 functions x 3 histories, real encryptions",
		Run: func(x *X) {
			if x.Bool("64") {
				c08real[uint64](x)
			} else {
				c08real[uint32](x)
			}
		}})
	core.Register(core.Harness{Prop: "C08", Name: "rounding", Backends: all, Shards: 4,
		Bound: "5 shapes x every slot of the torus x 9 offsets inside the slot x body or any mask position x every key x every message",
		Run: func(x *X) {
			if x.Bool("64") {
				c08round[uint64](x)
			} else {
				c08round[uint32](x)
			}
		}})
}
