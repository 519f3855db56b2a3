package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
)

// C31: parameters.  The space of literals is enumerated over the boundary values of every field; the oracle is the
// list of documented constraints and a direct computation of every derived quantity.

// c31gadOK is the documented constraint.
func c31gadOK[T TI](l tfhe.GadgetParametersLiteral[T]) bool {
	b := uint64(l.Base)
	if b < 2 || b&(b-1) != 0 || l.Level <= 0 {
		return false
	}
	lg := new(big.Int).Mul(big.NewInt(int64(bitLen(b)-1)), big.NewInt(int64(l.Level)))
	return lg.Cmp(big.NewInt(int64(bitsOf[T]()))) <= 0
}

func c31gadGet[T TI](x *X, l tfhe.GadgetParametersLiteral[T], g tfhe.GadgetParameters[T]) {
	w, lb := bitsOf[T](), bitLen(uint64(l.Base))-1
	x.Assert(g.Base() == l.Base && g.LogBase() == lb && g.Level() == l.Level, "base, log or level of %v", l)
	x.Assert(g.Literal() == l && g.Literal().Compile() == g, "literal of %v", l)
	for i := 0; i < l.Level; i++ {
		q := w - (i+1)*lb
		x.Assert(g.LogBaseQ(i) == q && g.BaseQ(i) == T(1)<<q, "BaseQ(%d) of %v", i, l)
	}
	x.Assert(g.FirstBaseQ() == T(1)<<(w-lb) && g.LogFirstBaseQ() == w-lb, "FirstBaseQ of %v", l)
	x.Assert(g.LastBaseQ() == T(1)<<(w-lb*l.Level) && g.LogLastBaseQ() == w-lb*l.Level, "LastBaseQ of %v", l)
}

func c31gadget[T TI](x *X) {
	w := bitsOf[T]()
	var bases []T
	for v := T(0); v <= 40; v++ {
		bases = append(bases, v)
	}
	for k := 6; k < w; k++ {
		bases = append(bases, 1<<k, 1<<k-1, 1<<k+1, 1<<k|1<<(k/2))
	}
	bases = append(bases, ^T(0))
	l := tfhe.GadgetParametersLiteral[T]{Base: core.OneOf(x, "base", bases)}
	levels := []int{-1 << 63, -1 << 32, -1, 1 << 31, 1 << 32, 1 << 58, 1 << 59, 1 << 60, 1 << 61, 1 << 62, 1<<62 + 1, 1<<60 + 1, 1<<63 - 1, (1 << 63) / 3, (1<<63)/5*2 + 1}
	for i := 0; i <= w+2; i++ {
		levels = append(levels, i)
	}
	l.Level = core.OneOf(x, "level", levels)
	ok := c31gadOK(l)
	var g tfhe.GadgetParameters[T]
	p := x.Panics(func() { g = l.Compile() })
	x.Step(1)
	if p == ok {
		x.Fail("gadget %v: valid %v, panics %v", l, ok, p)
	}
	if ok {
		x.Observe("valid")
		c31gadGet(x, l, g)
	} else {
		x.Observe("invalid")
	}
	x.State(tname[T](), fmt.Sprint(l))
}

// c31ok: the documented constraints on a single-key literal; sure is false where the documentation is silent.
func c31ok[T TI](l tfhe.ParametersLiteral[T]) (ok, sure bool) {
	lut, bl := l.LUTSize, l.BlockSize
	if lut == 0 {
		lut = l.PolyRank
	}
	if bl == 0 {
		bl = 1
	}
	sure = l.MessageModulus != 0
	switch {
	case l.LWEDimension <= 0, l.GLWERank <= 0, l.PolyRank < 16, l.PolyRank&(l.PolyRank-1) != 0,
		l.LWEDimension > l.GLWERank*l.PolyRank, lut < l.PolyRank || lut%l.PolyRank != 0,
		l.LWEStdDev <= 0, l.GLWEStdDev <= 0, bl <= 0, l.LWEDimension%max(bl, 1) != 0,
		l.BootstrapOrder != ksbr && l.BootstrapOrder != brks,
		!c31gadOK(l.BlindRotateParams), !c31gadOK(l.KeySwitchParams):
		return false, true
	}
	return true, sure
}

func c31norm[T TI](l tfhe.ParametersLiteral[T]) tfhe.ParametersLiteral[T] {
	if l.LUTSize == 0 {
		l.LUTSize = l.PolyRank
	}
	if l.BlockSize == 0 {
		l.BlockSize = 1
	}
	return l
}

// c31get: every derived quantity of compiled parameters.
func c31get[T TI](x *X, l tfhe.ParametersLiteral[T], p tfhe.Parameters[T]) {
	l = c31norm(l)
	w := bitsOf[T]()
	q := math.Exp2(float64(w))
	gd := l.GLWERank * l.PolyRank
	def, dsd := gd, l.GLWEStdDev
	if l.BootstrapOrder == brks {
		def, dsd = l.LWEDimension, l.LWEStdDev
	}
	eq := func(name string, got, want any) {
		if got != want {
			x.Fail("%s = %v, want %v (literal %+v)", name, got, want, l)
		}
	}
	eq("LWEDimension", p.LWEDimension(), l.LWEDimension)
	eq("GLWERank", p.GLWERank(), l.GLWERank)
	eq("GLWEDimension", p.GLWEDimension(), gd)
	eq("DefaultLWEDimension", p.DefaultLWEDimension(), def)
	eq("PolyRank", p.PolyRank(), l.PolyRank)
	eq("LogPolyRank", 1<<p.LogPolyRank(), l.PolyRank)
	eq("LUTSize", p.LUTSize(), l.LUTSize)
	eq("LUTExtendFactor", p.LUTExtendFactor()*l.PolyRank, l.LUTSize)
	eq("LWEStdDev", p.LWEStdDev(), l.LWEStdDev)
	eq("GLWEStdDev", p.GLWEStdDev(), l.GLWEStdDev)
	eq("LWEStdDevQ", p.LWEStdDevQ(), l.LWEStdDev*q)
	eq("GLWEStdDevQ", p.GLWEStdDevQ(), l.GLWEStdDev*q)
	eq("DefaultLWEStdDev", p.DefaultLWEStdDev(), dsd)
	eq("DefaultLWEStdDevQ", p.DefaultLWEStdDevQ(), dsd*q)
	eq("BlockSize", p.BlockSize(), l.BlockSize)
	eq("BlockCount", p.BlockCount()*l.BlockSize, l.LWEDimension)
	eq("MessageModulus", p.MessageModulus(), l.MessageModulus)
	half := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
	mm := new(big.Int).SetUint64(uint64(l.MessageModulus))
	sc := new(big.Int).Div(new(big.Int).Add(new(big.Int).Lsh(half, 1), mm), new(big.Int).Lsh(mm, 1))
	eq("Scale", uint64(p.Scale()), sc.Uint64())
	eq("LogQ", p.LogQ(), w)
	eq("BootstrapOrder", p.BootstrapOrder(), l.BootstrapOrder)
	eq("IsPublicKeyEncryptable", p.IsPublicKeyEncryptable(), l.BootstrapOrder == ksbr)
	c31gadGet(x, l.BlindRotateParams, p.BlindRotateParams())
	c31gadGet(x, l.KeySwitchParams, p.KeySwitchParams())
	eq("Literal", p.Literal(), l)
	eq("Literal.Compile", p.Literal().Compile(), p)
}

func c31base[T TI]() tfhe.ParametersLiteral[T] {
	return quietLit[T](shape{n: 6, k: 1, N: 16, lut: 16, block: 1, order: brks, msg: 2})
}

// c31struct: the product of the boundary values of the structural fields.
func c31struct[T TI](x *X) {
	l := c31base[T]()
	l.PolyRank = core.OneOf(x, "PolyRank", []int{16, 32, -16, 0, 1, 2, 8, 15, 17, 24, 48, 64})
	l.GLWERank = core.OneOf(x, "GLWERank", []int{1, 2, 0, -1, 3})
	l.LWEDimension = core.OneOf(x, "LWEDimension", []int{0, -1, 1, 2, 6, 15, 16, 17, 31, 32, 33, 48, 64, 65, 96})
	l.LUTSize = core.OneOf(x, "LUTSize", []int{0, 16, 8, 24, 32, 48, 64, 72, 128, -16, 1})
	l.BlockSize = core.OneOf(x, "BlockSize", []int{0, 1, 2, 3, -1, 4, 100})
	l.BootstrapOrder = core.OneOf(x, "order", []tfhe.BootstrapOrder{ksbr, brks})
	c31check(x, l, false)
}

// c31fields: the boundary values of two fields at a time.
func c31fields[T TI](x *X) {
	l := c31base[T]()
	w := bitsOf[T]()
	type alt struct {
		name string
		n    int
		set  func(i int)
	}
	sds := []float64{0, -1, math.Copysign(0, -1), 5e-324, math.Exp2(-70), 0.3, 1, -5e-324, math.Inf(-1)}
	mods := []T{1, 2, 3, 4, 5, 7, 8, 16, 100, 255, 257, 1<<(w-1) - 1, 1 << (w - 1), 1<<(w-1) + 1, ^T(0), 0}
	gads := []tfhe.GadgetParametersLiteral[T]{{2, 1}, {2, w}, {2, w + 1}, {0, 1}, {1, 1}, {3, 2}, {4, w / 2}, {4, w/2 + 1}, {8, w / 3}, {8, w/3 + 1}, {1 << (w - 1), 1}, {1 << (w - 1), 2}, {1 << 5, 0}, {1 << 5, -1}, {6, 1}}
	fields := []alt{
		{"LWEStdDev", len(sds), func(i int) { l.LWEStdDev = sds[i] }},
		{"GLWEStdDev", len(sds), func(i int) { l.GLWEStdDev = sds[i] }},
		{"MessageModulus", len(mods), func(i int) { l.MessageModulus = mods[i] }},
		{"BlindRotateParams", len(gads), func(i int) { l.BlindRotateParams = gads[i] }},
		{"KeySwitchParams", len(gads), func(i int) { l.KeySwitchParams = gads[i] }},
		{"BootstrapOrder", 5, func(i int) { l.BootstrapOrder = tfhe.BootstrapOrder([]int{0, 1, -1, 2, 256}[i]) }},
		{"LWEDimension", 4, func(i int) { l.LWEDimension = []int{0, 1, 16, 17}[i] }},
		{"LUTSize", 4, func(i int) { l.LUTSize = []int{0, 8, 32, 24}[i] }},
	}
	a := x.Choose(len(fields), "field")
	fields[a].set(x.Choose(fields[a].n, "value"))
	b := x.Choose(len(fields), "field")
	if b > a {
		fields[b].set(x.Choose(fields[b].n, "value"))
	}
	c31check(x, l, false)
}

func c31check[T TI](x *X, l tfhe.ParametersLiteral[T], build bool) {
	ok, sure := c31ok(l)
	var p tfhe.Parameters[T]
	old := l
	pan := x.Panics(func() { p = l.Compile() })
	x.Step(1)
	x.Assert(l == old, "Compile changed the literal")
	if sure && pan == ok {
		x.Fail("literal %+v: valid %v, panics %v", l, ok, pan)
	}
	if !pan {
		x.Observe("valid")
		if l.MessageModulus != 0 {
			c31get(x, l, p)
		}
	} else {
		x.Observe("invalid")
	}
	x.State(tname[T](), fmt.Sprintf("%+v", l))
}

// c31build: every object can be built from small compiled sets, and a message goes through all of it.
func c31build[T TI](x *X) {
	l := c31base[T]()
	l.PolyRank = core.OneOf(x, "PolyRank", []int{16, 32, 64})
	l.GLWERank = core.OneOf(x, "GLWERank", []int{1, 2, 3})
	l.LWEDimension = core.OneOf(x, "LWEDimension", []int{1, 2, 6, 16, 32, 48, 96})
	l.LUTSize = core.OneOf(x, "LUTSize", []int{0, 1, 2, 3, 4}) * l.PolyRank
	l.BlockSize = core.OneOf(x, "BlockSize", []int{0, 2, 3})
	l.BootstrapOrder = core.OneOf(x, "order", []tfhe.BootstrapOrder{ksbr, brks})
	l.MessageModulus = core.OneOf(x, "MessageModulus", []T{2, 1, 3})
	extreme := x.Bool("extreme gadgets")
	if extreme {
		w := bitsOf[T]()
		l.BlindRotateParams, l.KeySwitchParams = tfhe.GadgetParametersLiteral[T]{Base: 2, Level: w}, tfhe.GadgetParametersLiteral[T]{Base: 1 << (w - 1), Level: 1}
		if l.PolyRank*l.GLWERank > 32 {
			return
		}
	}
	if ok, _ := c31ok(l); !ok {
		return
	}
	if !x.Thorough() && (l.LWEDimension > 16 || l.GLWERank > 2 || l.PolyRank > 32) {
		return
	}
	p := l.Compile()
	enc := tfhe.NewEncryptor(p)
	var evk tfhe.EvaluationKey[T]
	if x.Bool("parallel") {
		evk = enc.GenEvalKeyParallel()
	} else {
		evk = enc.GenEvalKey()
	}
	ev := tfhe.NewEvaluator(p, evk)
	x.Assert(len(enc.SecretKey.LWEKey.Value) == p.LWEDimension() && len(enc.SecretKey.LWELargeKey.Value) == p.GLWEDimension() && len(evk.BlindRotateKey.Value) == p.LWEDimension() && len(evk.KeySwitchKey.Value) == p.GLWEDimension()-p.LWEDimension(), "key sizes")
	m := int(l.MessageModulus) - 1
	ct := enc.EncryptLWE(m)
	x.Assert(len(ct.Value) == p.DefaultLWEDimension()+1, "ciphertext size")
	x.Assert(enc.DecryptLWE(ct) == m, "a message does not decrypt")
	enc.DecryptGLWE(enc.EncryptGLWE([]int{m}))
	out := ev.BootstrapFunc(ct, func(v int) int { return v })
	x.Assert(len(out.Value) == p.DefaultLWEDimension()+1, "ciphertext size")
	if !extreme && l.LWEDimension/2+2 < c31norm(l).LUTSize/(2*int(l.MessageModulus)) {
		x.Observe("bootstrapped")
		x.Assert(enc.DecryptLWE(out) == m, "a bootstrapped message does not decrypt")
	}
	if p.IsPublicKeyEncryptable() {
		tfhe.NewPublicEncryptor(p, enc.GenPublicKey()).EncryptLWE(m)
	} else {
		x.Assert(x.Panics(func() { enc.GenPublicKey() }), "a public key was generated for an unsupported set")
	}
	if l.MessageModulus == 2 {
		tfhe.NewBinaryEvaluator(p, evk).AND(enc.EncryptLWE(1), enc.EncryptLWE(1))
	}
	x.Step(1)
	x.State(tname[T](), fmt.Sprintf("%+v", l))
}

// c31multi: multi-key literals.
func c31multi[T TI](x *X) {
	l := mklit[T](mkShape{n: 4, N: 16, block: 1, parties: 2, order: ksbr, msg: 2})
	w := bitsOf[T]()
	l.PartyCount = core.OneOf(x, "PartyCount", []int{1, 2, 3, 0, -1, 32})
	l.SubParams.GLWERank = core.OneOf(x, "GLWERank", []int{1, 2, 0})
	l.SubParams.LUTSize = core.OneOf(x, "LUTSize", []int{0, 16, 32, 8})
	l.SubParams.BootstrapOrder = core.OneOf(x, "order", []tfhe.BootstrapOrder{ksbr, brks, 2})
	l.SubParams.LWEDimension = core.OneOf(x, "LWEDimension", []int{4, 16, 17, 0})
	gads := []tfhe.GadgetParametersLiteral[T]{{4, 3}, {2, w}, {2, w + 1}, {3, 1}, {8, 0}}
	l.AccumulatorParams = core.OneOf(x, "accumulator", gads)
	l.RelinKeyParams = core.OneOf(x, "relin", gads)
	ok, _ := c31ok(l.SubParams)
	ok = ok && l.PartyCount > 0 && l.SubParams.GLWERank == 1 && c31norm(l.SubParams).LUTSize == l.SubParams.PolyRank && c31gadOK(l.AccumulatorParams) && c31gadOK(l.RelinKeyParams)
	var p mktfhe.Parameters[T]
	pan := x.Panics(func() { p = l.Compile() })
	x.Step(1)
	if pan == ok {
		x.Fail("literal %+v: valid %v, panics %v", l, ok, pan)
	}
	if ok {
		x.Observe("valid")
		sub := p.SubParams()
		c31get(x, l.SubParams, sub)
		P := l.PartyCount
		eq := func(name string, got, want any) {
			if got != want {
				x.Fail("%s = %v, want %v", name, got, want)
			}
		}
		eq("PartyCount", p.PartyCount(), P)
		eq("DefaultLWEDimension", p.DefaultLWEDimension(), P*sub.DefaultLWEDimension())
		eq("LWEDimension", p.LWEDimension(), P*sub.LWEDimension())
		eq("GLWERank", p.GLWERank(), P)
		eq("GLWEDimension", p.GLWEDimension(), P*sub.GLWEDimension())
		eq("PolyRank", p.PolyRank(), sub.PolyRank())
		eq("LogPolyRank", p.LogPolyRank(), sub.LogPolyRank())
		eq("DefaultLWEStdDev", p.DefaultLWEStdDev(), sub.DefaultLWEStdDev())
		eq("DefaultLWEStdDevQ", p.DefaultLWEStdDevQ(), sub.DefaultLWEStdDevQ())
		eq("LWEStdDev", p.LWEStdDev(), sub.LWEStdDev())
		eq("LWEStdDevQ", p.LWEStdDevQ(), sub.LWEStdDevQ())
		eq("GLWEStdDev", p.GLWEStdDev(), sub.GLWEStdDev())
		eq("GLWEStdDevQ", p.GLWEStdDevQ(), sub.GLWEStdDevQ())
		eq("BlockSize", p.BlockSize(), sub.BlockSize())
		eq("BlockCount", p.BlockCount(), sub.BlockCount())
		eq("Scale", p.Scale(), sub.Scale())
		eq("MessageModulus", p.MessageModulus(), sub.MessageModulus())
		eq("LogQ", p.LogQ(), sub.LogQ())
		eq("BlindRotateParams", p.BlindRotateParams(), sub.BlindRotateParams())
		eq("KeySwitchParams", p.KeySwitchParams(), sub.KeySwitchParams())
		eq("BootstrapOrder", p.BootstrapOrder(), sub.BootstrapOrder())
		c31gadGet(x, l.AccumulatorParams, p.AccumulatorParameters())
		c31gadGet(x, l.RelinKeyParams, p.RelinKeyParameters())
		want := l
		want.SubParams = c31norm(l.SubParams)
		eq("Literal", p.Literal(), want)
		eq("Literal.Compile", p.Literal().Compile(), p)
		if P <= 3 && l.AccumulatorParams.Base == 4 && l.RelinKeyParams.Base == 4 {
			keys := map[int]mktfhe.EvaluationKey[T]{}
			for i := 0; i < P; i++ {
				e := mktfhe.NewEncryptor(p, i, crs)
				keys[i] = e.GenEvalKey()
				e.EncryptLWE(1)
			}
			mktfhe.NewEvaluator(p, keys)
			mktfhe.NewBinaryEvaluator(p, keys)
			x.Observe("built")
		}
	} else {
		x.Observe("invalid")
	}
	x.State(tname[T](), fmt.Sprintf("%+v", l))
}

// c31ext: the literals of the extensions.
func c31ext[T TI](x *X) {
	w := bitsOf[T]()
	q := math.Exp2(float64(w))
	l := quietLit[T](shape{n: 4, k: 1, N: 16, lut: 16, block: 1, order: brks, msg: 2})
	l.GLWERank = core.OneOf(x, "GLWERank", []int{1, 2, 0})
	l.LUTSize = core.OneOf(x, "LUTSize", []int{0, 16, 32, 8})
	l.BlockSize = core.OneOf(x, "BlockSize", []int{0, 1, 2, 3})
	l.BootstrapOrder = core.OneOf(x, "order", []tfhe.BootstrapOrder{ksbr, brks, 2})
	ok, _ := c31ok(l)
	small := c31norm(l).LUTSize == l.PolyRank
	eq := func(name string, got, want any) {
		if got != want {
			x.Fail("%s = %v, want %v", name, got, want)
		}
	}
	judge := func(lit any, ok, pan bool) {
		if pan == ok {
			x.Fail("literal %+v: valid %v, panics %v", lit, ok, pan)
		}
		x.Observe(fmt.Sprint(ok))
		x.Step(1)
		x.State(tname[T](), fmt.Sprintf("%+v", lit))
	}
	switch x.Choose(4, "kind") {
	case 0:
		m := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: l, LUTCount: core.OneOf(x, "LUTCount", []int{1, 2, 3, 4, 6, 8, 0, -1, -2, 16, 1 << 62, -1 << 63})}
		var p xtfhe.ManyLUTParameters[T]
		pan := x.Panics(func() { p = m.Compile() })
		ok = ok && small && m.LUTCount > 0 && m.LUTCount&(m.LUTCount-1) == 0
		if ok && m.LUTCount > 8 { // more tables than the accumulator has room for: the documentation is silent
			return
		}
		judge(m, ok, pan)
		if ok {
			c31get(x, l, p.BaseParams())
			eq("LUTCount", p.LUTCount(), m.LUTCount)
			eq("LogLUTCount", 1<<p.LogLUTCount(), m.LUTCount)
			e := tfhe.NewEncryptor(p.BaseParams())
			xtfhe.NewManyLUTEvaluator(p, e.GenEvalKey()).BootstrapFunc(e.EncryptLWE(1), make1(m.LUTCount))
		}
	case 1:
		gads := []tfhe.GadgetParametersLiteral[T]{{4, 3}, {2, w}, {2, w + 1}, {3, 1}, {8, 0}}
		m := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: xtfhe.ManyLUTParametersLiteral[T]{BaseParams: l, LUTCount: core.OneOf(x, "LUTCount", []int{2, 4, 3})},
			SchemeSwitchParams: core.OneOf(x, "scheme switch", gads), TraceKeySwitchParams: core.OneOf(x, "trace", gads), OutputParams: core.OneOf(x, "output", gads)}
		var p xtfhe.CircuitBootstrapParameters[T]
		pan := x.Panics(func() { p = m.Compile() })
		ok = ok && small && m.ManyLUTParams.LUTCount != 3 && c31gadOK(m.SchemeSwitchParams) && c31gadOK(m.TraceKeySwitchParams) && c31gadOK(m.OutputParams)
		judge(m, ok, pan)
		if ok {
			c31get(x, l, p.BaseParams())
			c31get(x, l, p.ManyLUTParams().BaseParams())
			eq("LUTCount", p.ManyLUTParams().LUTCount(), m.ManyLUTParams.LUTCount)
			c31gadGet(x, m.SchemeSwitchParams, p.SchemeSwitchParams())
			c31gadGet(x, m.TraceKeySwitchParams, p.TraceKeySwitchParams())
			c31gadGet(x, m.OutputParams, p.OutputParams())
			if m.SchemeSwitchParams.Base == 4 && m.TraceKeySwitchParams.Base == 4 {
				e := tfhe.NewEncryptor(p.BaseParams())
				cbk := xtfhe.NewCircuitBootstrapKeyGenerator(p, e.SecretKey).GenCircuitBootstrapKey()
				xtfhe.NewCircuitBootstrapper(p, e.GenEvalKey(), cbk)
				x.Observe("built")
			}
		}
	case 2:
		sd := core.OneOf(x, "deviation", []float64{2, 0.4, 0, -1, math.Exp2(poly.ShortLogBound) / 13, math.Exp2(poly.ShortLogBound) / 7, 1 << 30, math.Exp2(float64(w))})
		m := xtfhe.FHEWParametersLiteral[T]{BaseParams: l, SecretKeyStdDev: sd / q, WindowSize: core.OneOf(x, "window", []int{1, 2, 10, 0, -1, 100})}
		var p xtfhe.FHEWParameters[T]
		pan := x.Panics(func() { p = m.Compile() })
		ok = ok && small && c31norm(l).BlockSize == 1 && sd > 0 && sd < math.Exp2(poly.ShortLogBound)/8 && m.WindowSize > 0
		judge(m, ok, pan)
		if ok {
			c31get(x, l, p.BaseParams())
			eq("SecretKeyStdDev", p.SecretKeyStdDev(), m.SecretKeyStdDev)
			eq("SecretKeyStdDevQ", p.SecretKeyStdDevQ(), sd)
			eq("WindowSize", p.WindowSize(), m.WindowSize)
			e := xtfhe.NewFHEWEncryptor(p)
			xtfhe.NewFHEWEvaluator(p, e.GenEvalKey())
		}
	case 3:
		sds := []float64{1, 100, 0, -1}
		m := xtfhe.SanitizationParametersLiteral[T]{BaseParams: l, RandSigma: core.OneOf(x, "sigma", sds) / q, RandTau: core.OneOf(x, "tau", sds) / q, LinEvalSigma: core.OneOf(x, "sigma", sds) / q, LinEvalTau: core.OneOf(x, "tau", sds) / q}
		var p xtfhe.SanitizationParameters[T]
		pan := x.Panics(func() { p = m.Compile() })
		ok = ok && small && l.GLWERank == 1 && l.BootstrapOrder == ksbr && m.RandSigma > 0 && m.RandTau > 0 && m.LinEvalSigma > 0 && m.LinEvalTau > 0
		judge(m, ok, pan)
		if ok {
			c31get(x, l, p.BaseParams())
			for i, v := range [][3]float64{{p.RandSigma(), p.RandSigmaQ(), m.RandSigma}, {p.RandTau(), p.RandTauQ(), m.RandTau}, {p.LinEvalSigma(), p.LinEvalSigmaQ(), m.LinEvalSigma}, {p.LinEvalTau(), p.LinEvalTauQ(), m.LinEvalTau}} {
				eq(fmt.Sprint("deviation ", i), v[0], v[2])
				eq(fmt.Sprint("deviation times Q ", i), v[1], v[2]*q)
			}
			e := tfhe.NewEncryptor(p.BaseParams())
			xtfhe.NewSanitizer(p, e.GenPublicKey(), e.GenEvalKey())
		}
	}
}

func make1(n int) []func(int) int {
	r := make([]func(int) int, n)
	for i := range r {
		r[i] = func(v int) int { return v + i }
	}
	return r
}

// c31setters: a setter changes its own field only, and the receiver not at all.
func c31setters[T TI](x *X) {
	kinds := []any{tfhe.GadgetParametersLiteral[T]{}, tfhe.ParametersLiteral[T]{}, mktfhe.ParametersLiteral[T]{}, xtfhe.ManyLUTParametersLiteral[T]{}, xtfhe.FHEWParametersLiteral[T]{}, xtfhe.SanitizationParametersLiteral[T]{}, xtfhe.CircuitBootstrapParametersLiteral[T]{}}
	kind := x.Choose(len(kinds), "kind")
	t := reflect.TypeOf(kinds[kind])
	var ms []reflect.Method
	for i := 0; i < t.NumMethod(); i++ {
		if m := t.Method(i); strings.HasPrefix(m.Name, "With") {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return
	}
	mi := x.Choose(len(ms), "setter")
	salt := x.Choose(3, "receiver")
	pick := x.Choose(4, "value")
	recv := reflect.New(t).Elem()
	c31fill(recv, int64(salt*1000), 1)
	before := recv.Interface()
	m := ms[mi]
	if m.Type.NumIn() != 2 || m.Type.NumOut() != 1 || m.Type.Out(0) != t {
		return
	}
	arg := reflect.New(m.Type.In(1)).Elem()
	if pick > 0 { // zero, or values unlike any of the receiver
		c31fill(arg, int64(pick*100000), 1)
	}
	out := m.Func.Call([]reflect.Value{recv, arg})[0]
	x.Step(1)
	x.Assert(recv.Interface() == before, "%s changed its receiver", m.Name)
	name := strings.TrimPrefix(m.Name, "With")
	want := reflect.New(t).Elem()
	want.Set(recv)
	f := want.FieldByName(name)
	if !f.IsValid() {
		if sub := want.FieldByName("SubParams"); sub.IsValid() {
			f = sub.FieldByName(name)
			if !f.IsValid() && strings.HasPrefix(name, "SingleKey") {
				f = sub.FieldByName(strings.TrimPrefix(name, "SingleKey"))
			}
		}
	}
	if !f.IsValid() || f.Type() != arg.Type() {
		x.Observe("no such field")
		return
	}
	f.Set(arg)
	if out.Interface() != want.Interface() {
		x.Fail("%s(%v): %+v, want %+v", m.Name, arg.Interface(), out.Interface(), want.Interface())
	}
	x.State(tname[T](), kind, mi, salt, pick)
}

func c31fill(v reflect.Value, salt, n int64) int64 {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n = c31fill(v.Field(i), salt, n)
		}
	case reflect.Int:
		v.SetInt(salt + n)
		n++
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(salt + n))
		n++
	case reflect.Float64:
		v.SetFloat(float64(salt+n) / 7)
		n++
	}
	return n
}

// --- the shipped sets ---

type shipped struct {
	name string
	sub  func() any // compiled single-key parameters
	bits int        // failure probability at most 2^-bits
}

func c31fail[T TI](p tfhe.Parameters[T]) float64 {
	n, k, N := float64(p.LWEDimension()), float64(p.GLWERank()), float64(p.PolyRank())
	q := math.Exp2(float64(bitsOf[T]()))
	bs := float64(p.BlockSize())
	h := n / bs * bs / (bs + 1) // expected weight
	kn := (k*N - n) / 2
	sk := h + kn
	b, l := float64(p.BlindRotateParams().Base()), float64(p.BlindRotateParams().Level())
	bk, lk := float64(p.KeySwitchParams().Base()), float64(p.KeySwitchParams().Level())
	sg, sl := p.GLWEStdDev()*q, p.LWEStdDev()*q
	v := (h + 1) * q * q / (48 * float64(p.LUTSize()) * float64(p.LUTSize()))
	v += h * (sk + 1) * q * q / (6 * math.Pow(b, 2*l))
	v += n * l * (k + 1) * N * sg * sg * b * b / 6
	v += n * math.Exp2(-106.6) * (k + 1) * (sk + 1) * N * q * q * l * b * b
	v += kn * q * q / (12 * math.Pow(bk, 2*lk))
	v += 2 * kn * sl * sl * lk * bk * bk / 12
	return math.Erfc(q / (4 * float64(p.MessageModulus())) / math.Sqrt(2*v))
}

func c31set[T TI](x *X, name string, l tfhe.ParametersLiteral[T], bits int, estimate bool) tfhe.Parameters[T] {
	ok, _ := c31ok(l)
	x.Assert(ok, "%s violates a documented constraint", name)
	p := l.Compile()
	c31get(x, l, p)
	if estimate {
		own, got := c31fail(p), p.EstimateFailureProbability()
		lim := math.Exp2(-float64(bits))
		if !(own <= lim) || !(got <= lim) {
			x.Fail("%s: predicted failure probability 2^%.1f (own estimate 2^%.1f), want at most 2^-%d", name, math.Log2(got), math.Log2(own), bits)
		}
		// the estimate and its parts agree with the noise formulas
		if r := math.Log2(got) / math.Log2(own); own > 1e-300 && got > 1e-300 && (r < 0.9 || r > 1.1) {
			x.Fail("%s: predicted failure probability 2^%.1f, own estimate 2^%.1f", name, math.Log2(got), math.Log2(own))
		}
		a, b, c, m := p.EstimateModSwitchStdDev(), p.EstimateBlindRotateStdDev(), p.EstimateDefaultKeySwitchStdDev(), p.EstimateMaxErrorStdDev()
		x.Assert(math.Abs(m*m-(a*a+b*b+c*c)) <= 1e-6*m*m && a > 0 && b > 0 && c > 0, "%s: the error parts do not add up", name)
	}
	return p
}

// c31sets lists the shipped sets; the bound on the failure probability is the one they meet, rounded down.
var c31sets = []struct {
	name string
	run  func(x *X, name string)
}{
	{"tfhe.ParamsBinary", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsBinary, 64, true), true) }},
	{"tfhe.ParamsBinaryCompact", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsBinaryCompact, 64, true), true) }},
	{"tfhe.ParamsBinaryOriginal", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsBinaryOriginal, 64, true), true) }},
	{"tfhe.ParamsUint2", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsUint2, 64, true), true) }},
	{"tfhe.ParamsUint3", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsUint3, 64, true), true) }},
	{"tfhe.ParamsUint4", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsUint4, 64, true), true) }},
	{"tfhe.ParamsUint5", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsUint5, 64, true), x.Thorough()) }},
	{"tfhe.ParamsUint6", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsUint6, 64, true), x.Thorough()) }},
	{"tfhe.ParamsUint7", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsUint7, 64, true), x.Thorough()) }},
	{"tfhe.ParamsUint8", func(x *X, n string) { c31use(x, c31set(x, n, tfhe.ParamsUint8, 64, true), x.Thorough()) }},
	{"mktfhe.ParamsBinaryParty2", func(x *X, n string) { c31mkset(x, n, mktfhe.ParamsBinaryParty2, 2) }},
	{"mktfhe.ParamsBinaryParty4", func(x *X, n string) { c31mkset(x, n, mktfhe.ParamsBinaryParty4, 4) }},
	{"mktfhe.ParamsBinaryParty8", func(x *X, n string) { c31mkset(x, n, mktfhe.ParamsBinaryParty8, 8) }},
	{"mktfhe.ParamsBinaryParty16", func(x *X, n string) { c31mkset(x, n, mktfhe.ParamsBinaryParty16, 16) }},
	{"mktfhe.ParamsBinaryParty32", func(x *X, n string) { c31mkset(x, n, mktfhe.ParamsBinaryParty32, 32) }},
	{"xtfhe.ParamsBFVKeySwitchLogN11", func(x *X, n string) {
		x.Assert(c31gadOK(xtfhe.ParamsBFVKeySwitchLogN11), "%s", n)
		c31gadGet(x, xtfhe.ParamsBFVKeySwitchLogN11, xtfhe.ParamsBFVKeySwitchLogN11.Compile())
	}},
	{"xtfhe.ParamsCircuitBootstrapMedium", func(x *X, n string) { c31cbset(x, n, xtfhe.ParamsCircuitBootstrapMedium) }},
	{"xtfhe.ParamsCircuitBootstrapLarge", func(x *X, n string) { c31cbset(x, n, xtfhe.ParamsCircuitBootstrapLarge) }},
	{"xtfhe.ParamsFHEWBinary", func(x *X, n string) {
		p := xtfhe.ParamsFHEWBinary.Compile()
		c31set(x, n, xtfhe.ParamsFHEWBinary.BaseParams, 0, false)
		enc := xtfhe.NewFHEWEncryptor(p)
		ev := xtfhe.NewFHEWEvaluator(p, enc.GenEvalKeyParallel())
		for m := 0; m < int(p.BaseParams().MessageModulus()); m++ {
			got := enc.DecryptLWE(ev.BootstrapFunc(enc.EncryptLWE(m), func(v int) int { return v + 1 }))
			x.Assert(got == mod(m+1, int(p.BaseParams().MessageModulus())), "%s: %d for message %d", n, got, m)
		}
	}},
	{"xtfhe.ParamsBinaryLUT2", func(x *X, n string) { c31mlset(x, n, xtfhe.ParamsBinaryLUT2, 2) }},
	{"xtfhe.ParamsBinaryCompactLUT2", func(x *X, n string) { c31mlset(x, n, xtfhe.ParamsBinaryCompactLUT2, 2) }},
	{"xtfhe.ParamsUint2LUT4", func(x *X, n string) { c31mlset(x, n, xtfhe.ParamsUint2LUT4, 4) }},
	{"xtfhe.ParamsUint3LUT2", func(x *X, n string) { c31mlset(x, n, xtfhe.ParamsUint3LUT2, 2) }},
	{"xtfhe.ParamsSanitizeBinary", func(x *X, n string) {
		p := xtfhe.ParamsSanitizeBinary.Compile()
		c31set(x, n, xtfhe.ParamsSanitizeBinary.BaseParams, 60, true)
		enc := tfhe.NewEncryptor(p.BaseParams())
		s := xtfhe.NewSanitizer(p, enc.GenPublicKey(), enc.GenEvalKeyParallel())
		for m := 0; m < 2; m++ {
			got := enc.DecryptLWE(s.SanitizeFunc(enc.EncryptLWE(m), func(v int) int { return 1 - v }))
			x.Assert(got == 1-m, "%s: %d for message %d", n, got, m)
		}
	}},
}

// c31use runs every message through the shipped set.
func c31use[T TI](x *X, p tfhe.Parameters[T], boot bool) {
	if !boot {
		return
	}
	enc := tfhe.NewEncryptor(p)
	ev := tfhe.NewEvaluator(p, enc.GenEvalKeyParallel())
	M := int(p.MessageModulus())
	for m := 0; m < M; m++ {
		out := ev.BootstrapFunc(enc.EncryptLWE(m), func(v int) int { return v*v + 1 })
		got := enc.DecryptLWE(ev.BootstrapFunc(out, func(v int) int { return v + 1 }))
		if want := mod(m*m+2, M); got != want {
			x.Fail("message %d: %d after two bootstraps, want %d", m, got, want)
		}
		x.Step(1)
	}
}

func c31mkset(x *X, name string, l mktfhe.ParametersLiteral[uint64], parties int) {
	c31set(x, name, l.SubParams, 0, false)
	p := l.Compile()
	x.Assert(p.PartyCount() == parties, "%s: %d parties", name, p.PartyCount())
	c31gadGet(x, l.AccumulatorParams, p.AccumulatorParameters())
	c31gadGet(x, l.RelinKeyParams, p.RelinKeyParameters())
	x.Assert(p.Literal().Compile() == p, "%s: literal", name)
	if parties > x.Pick(2, 32) {
		return
	}
	// the first and the last party, everybody else absent
	idx := []int{0, parties - 1}
	keys := map[int]mktfhe.EvaluationKey[uint64]{}
	sks := map[int]tfhe.SecretKey[uint64]{}
	var encs []*mktfhe.BinaryEncryptor[uint64]
	for _, i := range idx {
		e := mktfhe.NewBinaryEncryptor(p, i, crs)
		keys[i] = e.GenEvalKeyParallel()
		sks[i] = e.Encryptor.SecretKey
		encs = append(encs, e)
	}
	ev, dec := mktfhe.NewBinaryEvaluator(p, keys), mktfhe.NewBinaryDecryptor(p, sks)
	for v := 0; v < 4; v++ {
		a, b := encs[0].EncryptLWEBool(v&1 == 1), encs[1].EncryptLWEBool(v&2 == 2)
		got := dec.DecryptLWEBool(ev.NANDParallel(ev.ANDParallel(a, b), b))
		want := !(v&1 == 1 && v&2 == 2)
		x.Assert(got == want, "%s: wrong gate output on %d", name, v)
		x.Step(2)
	}
}

func c31mlset[T TI](x *X, name string, l xtfhe.ManyLUTParametersLiteral[T], count int) {
	p := l.Compile()
	c31set(x, name, l.BaseParams, 64, true)
	x.Assert(p.LUTCount() == count, "%s: %d tables", name, p.LUTCount())
	enc := tfhe.NewEncryptor(p.BaseParams())
	ev := xtfhe.NewManyLUTEvaluator(p, enc.GenEvalKeyParallel())
	M := int(p.BaseParams().MessageModulus())
	for m := 0; m < M; m++ {
		for i, o := range ev.BootstrapFunc(enc.EncryptLWE(m), make1(count)) {
			got := enc.DecryptLWE(o)
			x.Assert(got == mod(m+i, M), "%s: table %d of message %d: %d", name, i, m, got)
		}
		x.Step(1)
	}
}

func c31cbset(x *X, name string, l xtfhe.CircuitBootstrapParametersLiteral[uint64]) {
	p := l.Compile()
	c31set(x, name, l.ManyLUTParams.BaseParams, 35, true)
	c31gadGet(x, l.SchemeSwitchParams, p.SchemeSwitchParams())
	c31gadGet(x, l.TraceKeySwitchParams, p.TraceKeySwitchParams())
	c31gadGet(x, l.OutputParams, p.OutputParams())
	enc := tfhe.NewEncryptor(p.BaseParams())
	kg := xtfhe.NewCircuitBootstrapKeyGenerator(p, enc.SecretKey)
	ev := xtfhe.NewCircuitBootstrapper(p, enc.GenEvalKeyParallel(), kg.GenCircuitBootstrapKey())
	M := int(p.BaseParams().MessageModulus())
	for b := 0; b < 2; b++ {
		g := ev.CircuitBootstrap(enc.EncryptLWE(b))
		pt := enc.EncryptGLWE([]int{1, 0, 1 % M, 1})
		got := enc.DecryptGLWE(ev.ExternalProdGLWE(g, pt))
		for i, v := range []int{1, 0, 1, 1} {
			x.Assert(got[i] == v*b, "%s: bit %d gives %d at %d", name, b, got[i], i)
		}
		x.Step(1)
	}
}

func init() {
	two := func(name, bound string, backends []string, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C31", Name: name, Bound: bound, Backends: backends, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	av := []string{"avx2"}
	two("gadget", "both widths: every base 0-40 and around every power of two x every level 0 to w+2 and extremes", av, c31gadget[uint32], c31gadget[uint64])
	two("structure", "both widths x 12 degrees x 5 ranks x 15 dimensions x 11 table sizes x 7 block sizes x 2 orders: exact accept/panic verdict and every derived quantity", av, c31struct[uint32], c31struct[uint64])
	two("fields", "both widths x boundary values of every pair of the other fields", av, c31fields[uint32], c31fields[uint64])
	two("build", "both widths x 3 degrees x 3 ranks x 7 dimensions x 5 table sizes x 3 block sizes x 2 orders x 3 moduli x 2 gadgets (quick: dimension up to 16, rank up to 2, degree up to 32): every key and evaluator is built and used", nil, c31build[uint32], c31build[uint64])
	two("constructors", "both widths x 2 degrees x 3 ranks x 4 dimensions x 2 table sizes x 2 orders: dimensions of every constructed type, both constructors", av, c31new[uint32], c31new[uint64])
	two("multi-key", "both widths x 6 party counts x 3 ranks x 4 table sizes x 3 orders x 4 dimensions x 5 x 5 gadgets", av, c31multi[uint32], c31multi[uint64])
	two("extensions", "both widths x 144 base sets x the boundary values of the ManyLUT, circuit bootstrapping, FHEW and sanitisation fields", av, c31ext[uint32], c31ext[uint64])
	two("setters", "every With method of every literal type, found by reflection, x 3 receivers x 4 values", av, c31setters[uint32], c31setters[uint64])
	core.Register(core.Harness{Prop: "C31", Name: "shipped", Shards: 8, Backends: av, Bound: "24 shipped sets: constraints, derived quantities, failure probability, every message through bootstrapping (quick: not Uint5-8 and more than 2 parties)", Run: func(x *X) {
		i := x.Choose(len(c31sets), "set")
		c31sets[i].run(x, c31sets[i].name)
		x.State(i)
	}})
}
