package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
)

// C25: many-LUT bootstrapping.  Model state: the rotation index, a multiple of LUTCount.

type mlShape struct {
	s  shape
	lc int
}

func c25shapes() []mlShape {
	return []mlShape{
		{shape{3, 1, 16, 16, 1, brks, 2}, 1}, {shape{3, 1, 16, 16, 1, ksbr, 2}, 2}, {shape{2, 1, 16, 16, 1, brks, 2}, 4}, {shape{3, 2, 32, 32, 1, ksbr, 2}, 8},
		{shape{4, 1, 32, 32, 2, brks, 4}, 4}, {shape{4, 2, 16, 16, 2, ksbr, 2}, 4}, {shape{6, 1, 32, 32, 3, ksbr, 8}, 2}, {shape{3, 1, 64, 64, 3, brks, 2}, 16},
		{shape{1, 1, 16, 16, 1, ksbr, 4}, 2}, {shape{1, 2, 32, 32, 1, brks, 4}, 4}, {shape{9, 1, 32, 32, 3, brks, 4}, 2}, {shape{4, 1, 32, 32, 4, ksbr, 4}, 4},
	}
}

func mlParams[T TI](m mlShape) xtfhe.ManyLUTParameters[T] {
	return xtfhe.ManyLUTParametersLiteral[T]{BaseParams: lit[T](m.s), LUTCount: m.lc}.Compile()
}

func c25fs(n, p, salt int) []func(int) int {
	r := make([]func(int) int, n)
	for i := range r {
		f := c08funcs[(i+salt)%len(c08funcs)].f
		r[i] = func(x int) int { return f(x, p) + i/len(c08funcs) }
	}
	return r
}

func checkMany[T TI](x *X, what string, e *tenv[T], lc int, out []tfhe.LWECiphertext[T], want []T) {
	tol := bootTol(e.P)
	for i := 0; i < lc; i++ {
		w := T(0)
		if i < len(want) {
			w = want[i]
		}
		if d := cdist(lwePhase(out[i].Value, e.defKey()), w); d > tol {
			x.Fail("%s: output %d of %d (%d functions): phase off by 2^%d, tolerance 2^%d", what, i, lc, len(want), bitLen(d), bitLen(tol))
		}
	}
}

func c25grid[T TI](x *X) {
	sh := c25shapes()
	ms := sh[x.Choose(len(sh), "shape")]
	s, lc := ms.s, ms.lc
	keys := keysOf(s)
	if lim := x.Pick(6, 32); len(keys) > lim {
		q := keys
		keys = nil
		for i := 0; i < lim; i++ {
			keys = append(keys, q[i*(len(q)-1)/(lim-1)])
		}
	}
	key := core.OneOf(x, "key", keys)
	m := x.Choose(s.msg, "message")
	L := s.lut
	half := L / (2 * s.msg)
	ds := []int{-half, half - lc}
	if half > lc {
		ds = []int{0, -half, half - lc}
	}
	d := core.OneOf(x, "slot", ds)
	vals := []int{0, lc, L - lc, L, 2*L - lc, L/2 + lc}
	masks := make([]int, s.n)
	if s.n <= 1 {
		masks[0] = x.Choose(2*L/lc, "mask") * lc
	} else if s.n <= x.Pick(3, 4) {
		for i := range masks {
			masks[i] = core.OneOf(x, "mask", vals)
		}
	} else {
		base := core.OneOf(x, "base", []int{0, 5 * lc, 2*L - lc})
		for i := range masks {
			masks[i] = (base * (i + 1)) % (2 * L)
		}
		masks[x.Choose(s.n, "pos")] = core.OneOf(x, "mask", vals)
	}
	nf := lc - (key+m+masks[0]/lc)%min(lc+1, 3)
	mode := x.Choose(2, "mode")
	e := keyedEnv[T](s, key)
	ev := xtfhe.NewManyLUTEvaluator(mlParams[T](ms), e.EVK)
	slot := T(1) << (bitsOf[T]() - bitLen(uint64(2*L)) + 1)
	ct := tfhe.NewLWECiphertextCustom[T](e.P.DefaultLWEDimension())
	b := m*L/s.msg + d
	for i, a := range masks {
		ct.Value[i+1] = T(a) * slot
		if key>>i&1 == 1 {
			b -= a
		}
	}
	ct.Value[0] = T(int64(b)) * slot
	h := snap(ct)
	fs := c25fs(nf, s.msg, key+m+d+100*L)
	var want []T
	for _, f := range fs {
		want = append(want, refEncode[T](f(m), e.P.MessageModulus(), e.P.Scale()))
	}
	what := fmt.Sprintf("shape %v, %d tables, key %b, message %d (slot %+d), masks %v", s, lc, key, m, d, masks)
	if mode == 0 {
		out := make([]tfhe.LWECiphertext[T], lc+1)
		for i := range out {
			out[i] = tfhe.NewLWECiphertext(e.P)
			dirty(out[i], uint64(i+1))
		}
		last := snap(out[lc])
		ev.BootstrapFuncTo(out, ct, fs)
		x.Assert(snap(out[lc]) == last, "%s: an output beyond the number of tables was written", what)
		checkMany(x, what, e, lc, out, want)
	} else {
		lut := ev.GenLUT(fs)
		lc2 := ct
		if s.order == ksbr {
			lc2 = ev.DefaultKeySwitch(ct)
		}
		g := tfhe.NewGLWECiphertext(e.P)
		dirty(g, 9)
		ev.BlindRotateTo(g, lc2, lut)
		x.Assert(snap(g) == snap(ev.BlindRotate(lc2, lut)), "%s: BlindRotateTo and BlindRotate differ", what)
		ph := glwePhase(g.Value, e.SK.GLWEKey.Value)
		for i := 0; i < lc; i++ {
			w := T(0)
			if i < nf {
				w = want[i]
			}
			if dd := cdist(ph[i], w); dd > bootTol(e.P) {
				x.Fail("%s: coefficient %d of the rotation is off by 2^%d", what, i, bitLen(dd))
			}
		}
	}
	x.Assert(snap(ct) == h, "the input ciphertext was modified")
	x.Step(1)
	x.State(tname[T](), s, lc, key, b, fmt.Sprint(masks), mode)
}

func c25api[T TI](x *X) {
	sh := []mlShape{
		{shape{6, 1, 64, 64, 3, ksbr, 4}, 2}, {shape{6, 1, 128, 128, 1, brks, 2}, 4}, {shape{4, 2, 64, 64, 2, brks, 2}, 4}, {shape{4, 1, 256, 256, 1, ksbr, 4}, 8},
		{shape{6, 1, 128, 128, 3, brks, 8}, 1}, {shape{32, 1, 128, 128, 32, brks, 2}, 16},
	}
	ms := sh[x.Choose(len(sh), "shape")]
	s, lc := ms.s, ms.lc
	api := x.Choose(10, "api")
	m := x.Choose(s.msg, "message")
	nf := x.Choose(lc+1, "functions")
	salt := x.Choose(x.Pick(2, 6), "function")
	hist := x.Choose(3, "history")
	e := env[T](s)
	P := e.P
	ev := xtfhe.NewManyLUTEvaluator(mlParams[T](ms), e.EVK)
	enc := e.enc()
	if hist == 1 {
		ev.BootstrapFunc(enc.EncryptLWE(1), c25fs(lc, s.msg, 3))
	} else if hist == 2 {
		ev = ev.SafeCopy()
		ev.BootstrapLUT(enc.EncryptLWE(0), ev.GenLUTFull([]func(int) T{func(v int) T { return T(v+1) << (bitsOf[T]() - 5) }}))
	}
	fs := c25fs(nf, s.msg, salt)
	var raw []func(int) T
	for i := 0; i < nf; i++ {
		raw = append(raw, func(v int) T {
			return T(v*v+i+1+salt)*(T(1)<<(bitsOf[T]()-6)) + T(1)<<(bitsOf[T]()-9)
		})
	}
	ct := enc.EncryptLWE(m)
	h := snap(ct)
	var want, rw []T
	for i := range fs {
		want = append(want, refEncode[T](fs[i](m), P.MessageModulus(), P.Scale()))
		rw = append(rw, raw[i](m))
	}
	out := make([]tfhe.LWECiphertext[T], lc)
	for i := range out {
		out[i] = tfhe.NewLWECiphertext(P)
		dirty(out[i], uint64(i+1))
	}
	lut := tfhe.NewLUT(P)
	dirty(&lut, 5)
	sc := T(1) << (bitsOf[T]() - 5)
	var cw []T
	for i := range fs {
		cw = append(cw, refEncode[T](fs[i](m), P.MessageModulus(), sc))
	}
	inplace := false
	switch api {
	case 0:
		out = ev.BootstrapFunc(ct, fs)
	case 1:
		ev.BootstrapFuncTo(out, ct, fs)
	case 2:
		out = ev.BootstrapLUT(ct, ev.GenLUT(fs))
	case 3:
		ev.GenLUTTo(lut, fs)
		hl := snap(lut)
		ev.BootstrapLUT(enc.EncryptLWE(0), lut)
		ev.BootstrapLUTTo(out, ct, lut)
		x.Assert(snap(lut) == hl, "bootstrapping modified the lookup table")
	case 4: // the input is one of the outputs
		out[lc-1] = ct
		ev.BootstrapFuncTo(out, ct, fs)
		inplace = true
	case 5:
		out = ev.BootstrapLUT(ct, ev.GenLUTCustom(fs, P.MessageModulus(), sc))
		want = cw
	case 6:
		ev.GenLUTCustomTo(lut, fs, P.MessageModulus(), sc)
		ev.BootstrapLUTTo(out, ct, lut)
		want = cw
	case 7:
		out = ev.BootstrapLUT(ct, ev.GenLUTFull(raw))
		want = rw
	case 8:
		ev.GenLUTFullTo(lut, raw)
		ev.BootstrapLUTTo(out, ct, lut)
		want = rw
	case 9:
		ev.GenLUTCustomFullTo(lut, raw, P.MessageModulus())
		out = ev.BootstrapLUT(ct, lut)
		want = rw
		x.Assert(snap(ev.GenLUTCustomFull(raw, P.MessageModulus())) == snap(lut), "GenLUTCustomFull and GenLUTCustomFullTo differ")
	}
	x.Step(1)
	x.Assert(len(out) == lc, "%d outputs for %d tables", len(out), lc)
	what := fmt.Sprintf("shape %v api %d message %d history %d", s, api, m, hist)
	checkMany(x, what, e, lc, out, want)
	if api <= 4 {
		for i := range out {
			w := 0
			if i < nf {
				w = mod(fs[i](m), s.msg)
			}
			x.Assert(enc.DecryptLWE(out[i]) == w, "%s: output %d decrypts to %d, want %d", what, i, enc.DecryptLWE(out[i]), w)
		}
	}
	x.Assert(inplace || snap(ct) == h, "the input ciphertext was modified")
	x.State(tname[T](), s, api, m, nf, salt, hist)
	if m == 0 && nf == lc && salt == 0 && hist == 0 {
		over := c25fs(lc+1, s.msg, 0)
		x.Assert(x.Panics(func() { ev.GenLUT(over) }), "GenLUT accepts %d functions for %d tables", lc+1, lc)
		x.Assert(x.Panics(func() { ev.BootstrapFunc(ct, over) }), "BootstrapFunc accepts %d functions for %d tables", lc+1, lc)
		x.Assert(x.Panics(func() { ev.GenLUTFull(append(raw, raw...)) }), "GenLUTFull accepts %d functions for %d tables", 2*lc, lc)
		x.Assert(x.Panics(func() { ev.BootstrapFuncTo(out[:lc-1], ct, fs) }), "BootstrapFuncTo accepts %d outputs for %d tables", lc-1, lc)
	}
}

// c25round: one value swept around the rounding boundaries of the coarser grid.
func c25round[T TI](x *X) {
	sh := []mlShape{{shape{1, 1, 32, 32, 1, brks, 2}, 4}, {shape{2, 1, 32, 32, 2, ksbr, 2}, 2}, {shape{1, 1, 64, 64, 1, brks, 4}, 4}, {shape{1, 2, 16, 16, 1, ksbr, 2}, 2}, {shape{1, 1, 16, 16, 1, brks, 2}, 1}}
	ms := sh[x.Choose(len(sh), "shape")]
	s, lc := ms.s, ms.lc
	L := s.lut
	w := bitsOf[T]()
	slot := T(1) << (w - bitLen(uint64(2*L)) + 1) * T(lc)
	k := x.Choose(2*L/lc, "slot")
	off := x.Choose(8, "offset")
	pos := x.Choose(s.n+1, "position")
	key := core.OneOf(x, "key", keysOf(s))
	m := x.Choose(s.msg, "message")
	v := T(k)*slot + []T{0, 1, slot/2 - 1, slot / 2, slot/2 + 1, slot - 1, slot / 4, slot/2 + slot/4}[off]
	e := keyedEnv[T](s, key)
	ev := xtfhe.NewManyLUTEvaluator(mlParams[T](ms), e.EVK)
	ct := tfhe.NewLWECiphertextCustom[T](e.P.DefaultLWEDimension())
	body := refEncode[T](m, e.P.MessageModulus(), e.P.Scale())
	fr := 0.0
	if pos == 0 {
		body += v % slot
		fr = float64(v%slot) / float64(slot)
	} else {
		ct.Value[pos] = v
		if key>>(pos-1)&1 == 1 {
			body -= v
		}
	}
	ct.Value[0] = body
	fs := c25fs(lc, s.msg, m)
	var want []T
	for i := range fs {
		want = append(want, refEncode[T](fs[i](m), e.P.MessageModulus(), e.P.Scale()))
	}
	if fr+1 < float64(L)/float64(2*s.msg*lc) {
		checkMany(x, fmt.Sprintf("shape %v, key %b, message %d, position %d, value %d", s, key, m, pos, v), e, lc, ev.BootstrapFunc(ct, fs), want)
		x.Observe("demanded")
	} else {
		x.Observe("not demanded")
	}
	r := ev.ModSwitch(v)
	x.Assert(r >= 0 && r <= 2*L && r%lc == 0, "ModSwitch(%d) = %d is not on the grid", v, r)
	exact := float64(v) / float64(slot) * float64(lc)
	d := exact - float64(r)
	if d > float64(L) {
		d -= float64(2 * L)
	}
	x.Assert(d <= float64(lc)*0.5000001 && d >= -float64(lc)*0.5000001, "ModSwitch(%d) = %d, exact %v", v, r, exact)
	x.Step(1)
	x.State(tname[T](), s, k, off, pos, key, m)
}

func init() {
	two := func(name, bound string, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C25", Name: name, Bound: bound, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	two("grid", "both widths x 12 parameter sets (LUTCount 1-16, rank 1-2, block 1-4, both orders) x LWE keys (all up to dimension 2, else spread) x every message x the ends of its interval x masks on the rotation grid x rotation alone / full bootstrap; every output against the model", c25grid[uint32], c25grid[uint64])
	two("entry", "6 parameter sets x 10 entry points x every message x every number of functions x function sets x 3 histories on real encryptions; unused outputs are zero, too many functions or too few outputs panic", c25api[uint32], c25api[uint64])
	two("rounding", "5 parameter sets x every grid slot x 8 offsets around the rounding boundary x every position x every key x every message", c25round[uint32], c25round[uint64])
}
