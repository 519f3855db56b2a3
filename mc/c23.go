package main

import (
	"fmt"
	"math"
	"math/bits"

	"github.com/sp301415/tfhe-go/mktfhe"
	"verifmc/core"
	"verifmc/vsched"
)

// C23: multi-key bootstrapping and gates.  Oracle: f of the joint message, by the joint phase of the output.  The
// ciphertexts have phases fixed by the harness, with masks on every involved party, up to the permitted input error.

var c23shapes = []mkShape{
	{n: 2, N: 64, block: 1, parties: 2, order: brks, msg: 4},
	{n: 2, N: 64, block: 1, parties: 2, order: ksbr, msg: 4},
	{n: 4, N: 128, block: 2, parties: 3, order: ksbr, msg: 4},
	{n: 4, N: 64, block: 2, parties: 3, order: brks, msg: 2},
	{n: 3, N: 128, block: 1, parties: 4, order: brks, msg: 4},
}

// mkRound bounds the number of table slots by which rounding of the mask and body can move the phase.
func mkRound[T TI](P mktfhe.Parameters[T]) int {
	n := P.SubParams().LWEDimension()
	if b := P.SubParams().BlockSize(); b > 1 {
		n /= b
	}
	return (P.PartyCount()*n+1)/2 + 1
}

// mkBootTol bounds the error of the phase after a bootstrap of a key set with zero encryption noise.
func mkBootTol[T TI](P mktfhe.Parameters[T]) uint64 {
	w := bitsOf[T]()
	N, p := P.PolyRank(), P.PartyCount()
	a := P.AccumulatorParameters()
	t := float64(hybTol(P, p, uint64(N))) + float64(p*N+1)*float64(prodTol(a, N, 2, 1, 1, 0, true))
	// the entries of the accumulator are themselves products
	s := P.SubParams()
	q := math.Exp2(float64(s.BlindRotateParams().LogLastBaseQ())) + math.Exp2(float64(w-53))*float64(s.BlindRotateParams().Base())*float64(N*s.BlindRotateParams().Level()*2)
	acc := 2 * float64(s.LWEDimension()) * float64(1+N) * q
	t += float64(2*(p+1)*a.Level()*N) * math.Exp2(float64(a.LogBase()-1)) * acc / math.Sqrt(float64(N)) * 4
	t *= float64(p)
	ks := P.KeySwitchParams()
	t += 2 * float64(p*(s.GLWEDimension()-s.LWEDimension())) * math.Exp2(float64(ks.LogLastBaseQ()))
	if lim := math.Exp2(float64(w - 6)); t > lim {
		t = lim // a quarter of the interval of a two bit message
	}
	return uint64(t)
}

// c23ct returns a ciphertext of the given phase with masks on the involved parties.
func c23ct[T TI](e *mktenv[T], inv []int, phase T, salt uint64) mktfhe.LWECiphertext[T] {
	ct := mktfhe.NewLWECiphertext(e.P)
	d := e.P.SubParams().DefaultLWEDimension()
	for _, i := range inv {
		for j := 0; j < d; j++ {
			ct.Value[1+i*d+j] = T(mix64(salt+uint64(i*1000+j)) >> 7)
		}
	}
	ct.Value[0] = phase - e.lwePhase(ct)
	return ct
}

func slotOf[T TI](P mktfhe.Parameters[T]) T {
	return T(1) << (bitsOf[T]() - bitLen(uint64(2*P.PolyRank())) + 1)
}

// c23dev is the greatest error of an input inside an interval of the given half width.
func c23dev[T TI](P mktfhe.Parameters[T], half uint64) T {
	r := uint64(mkRound(P)) * uint64(slotOf(P))
	if P.BootstrapOrder() == ksbr { // the key switch adds to it
		r += uint64(slotOf(P))
	}
	if r >= half {
		return 0
	}
	return T((half - r) / 16 * 15)
}

var c23forms = []string{"Func", "FuncTo", "LUT", "LUTTo", "FuncParallel", "FuncParallelTo", "LUTParallel", "LUTParallelTo"}

func c23run[T TI](ev *mktfhe.Evaluator[T], form int, out, ct mktfhe.LWECiphertext[T], f func(int) int) mktfhe.LWECiphertext[T] {
	switch form {
	case 0:
		return ev.BootstrapFunc(ct, f)
	case 1:
		ev.BootstrapFuncTo(out, ct, f)
	case 4:
		return ev.BootstrapFuncParallel(ct, f)
	case 5:
		ev.BootstrapFuncParallelTo(out, ct, f)
	default:
		lut := ev.SubEvaluators[firstOf(ev.PartyBitMap)].GenLUT(f)
		switch form {
		case 2:
			return ev.BootstrapLUT(ct, lut)
		case 3:
			ev.BootstrapLUTTo(out, ct, lut)
		case 6:
			return ev.BootstrapLUTParallel(ct, lut)
		case 7:
			ev.BootstrapLUTParallelTo(out, ct, lut)
		}
	}
	return out
}

func firstOf(b []bool) int {
	for i, v := range b {
		if v {
			return i
		}
	}
	panic("harness error: no party")
}

func c23check[T TI](x *X, e *mktenv[T], out mktfhe.LWECiphertext[T], want T, format string, a ...any) {
	tol := mkBootTol(e.P)
	d := cdist(e.lwePhase(out), want)
	if d > tol {
		x.Fail("%s: output phase off by 2^%d, tolerance 2^%d", fmt.Sprintf(format, a...), bitLen(d), bitLen(tol))
	}
	x.Observe(fmt.Sprintf("headroom %s %d bits", tname[T](), bitLen(tol)-bitLen(d)))
}

func c23scale[T TI](P mktfhe.Parameters[T]) T {
	return T(1) << (bitsOf[T]() - bits.Len(uint(P.MessageModulus())))
}

// c23func: every function on every message.
func c23func[T TI](x *X) {
	s := core.OneOf(x, "shape", c23shapes[:4])
	n := 1
	for i := 0; i < s.msg; i++ {
		n *= s.msg
	}
	fi := x.Choose(n, "function")
	m := x.Choose(s.msg, "message")
	form := x.Choose(2, "form") * 5
	f := func(v int) int {
		r := fi
		for ; v > 0; v-- {
			r /= s.msg
		}
		return r % s.msg
	}
	e := mkQuiet[T](s)
	all := make([]int, s.parties)
	for i := range all {
		all[i] = i
	}
	ev := core.Memo("c23ev"+tname[T]()+s.String(), func() *mktfhe.Evaluator[T] { return e.eval(all...) })
	ct := c23ct(e, all, T(m)*c23scale(e.P), uint64(fi))
	out := mktfhe.NewLWECiphertext(e.P)
	dirty(&out, 3)
	out = c23run(ev, form, out, ct, f)
	c23check(x, e, out, T(f(m))*c23scale(e.P), "%v %s: message %d, function %d", s, c23forms[form], m, fi)
	x.Step(1)
	x.State(tname[T](), s.String(), fi, m, form)
}

// c23party: every involved subset, registered superset, entry point, overlap and input error.
func c23party[T TI](x *X) {
	s := core.OneOf(x, "shape", c23shapes[:x.Pick(4, 5)])
	inv := core.OneOf(x, "involved", append([][]int{{}}, subsets(s.parties)...))
	var regs [][]int
	for _, r := range subsets(s.parties) {
		ok := true
		for _, i := range inv {
			ok = ok && has(r, i)
		}
		if ok {
			regs = append(regs, r)
		}
	}
	reg := core.OneOf(x, "registered", regs)
	form := x.Choose(8, "form")
	m := x.Choose(s.msg, "message")
	di := x.Choose(3, "error")
	alias := form%2 == 1 && x.Bool("overlap")
	variant := 0
	if m == 1 && di == 0 {
		variant = x.Choose(4, "construction")
	}
	hist := m == 0 && di == 0 && x.Bool("history")
	e := mkQuiet[T](s)
	var ev *mktfhe.Evaluator[T]
	if variant == 0 && !hist {
		ev = core.Memo(fmt.Sprint("c23ev", tname[T](), s, reg), func() *mktfhe.Evaluator[T] { return e.eval(reg...) })
	} else {
		ev = e.evalVariant(variant, reg)
	}
	f := func(v int) int { return []int{3, 0, 2, 1}[v] % s.msg }
	if s.msg == 2 {
		f = func(v int) int { return 1 - v }
	}
	if hist { // an earlier bootstrap of other parties and another function
		c23run(ev, 5, mktfhe.NewLWECiphertext(e.P), c23ct(e, reg, 3*c23scale(e.P), 99), func(v int) int { return v + 1 })
	}
	half := uint64(c23scale(e.P)) / 2
	dev := c23dev(e.P, half)
	ct := c23ct(e, inv, T(m)*c23scale(e.P)+[]T{0, dev, -dev}[di], uint64(17*m+di))
	h := snap(ct)
	out := ct
	if !alias {
		out = mktfhe.NewLWECiphertext(e.P)
		dirty(&out, 5)
	}
	out = c23run(ev, form, out, ct, f)
	c23check(x, e, out, T(f(m))*c23scale(e.P), "%v %s: message %d with error %d, involved %v, registered %v (construction %d, overlap %v, history %v)", s, c23forms[form], m, di, inv, reg, variant, alias, hist)
	x.Assert(alias || snap(ct) == h, "%s changed its input", c23forms[form])
	x.Assert(e.dec(reg...).DecryptLWE(out) == f(m), "%v %s: decrypts to another message", s, c23forms[form])
	x.Step(1)
	x.State(tname[T](), s.String(), fmt.Sprint(inv, reg), form, m, di, fmt.Sprint(alias, variant, hist))
}

// c23mask: every rotation amount for every mask coordinate of every party, around the rounding boundary.
func c23mask[T TI](x *X) {
	s := core.OneOf(x, "shape", []mkShape{c23shapes[0], c23shapes[3], {n: 2, N: 32, block: 2, parties: 2, order: brks, msg: 2}, {n: 2, N: 32, block: 1, parties: 2, order: ksbr, msg: 2}}[:x.Pick(3, 4)])
	e := mkQuiet[T](s)
	d := e.P.SubParams().DefaultLWEDimension()
	n := s.parties * d
	if n > 12 { // a spread
		n = 12
	}
	pos := x.Choose(n, "position") * (s.parties * d / n)
	k := x.Choose(2*s.N, "slot")
	off := x.Choose(x.Pick(3, 6), "offset")
	m := x.Choose(2, "message") * (s.msg - 1)
	bg := x.Bool("other masks")
	par := x.Bool("parallel")
	slot := slotOf(e.P)
	all := make([]int, s.parties)
	for i := range all {
		all[i] = i
	}
	ct := mktfhe.NewLWECiphertext(e.P)
	if bg {
		ct = c23ct(e, all, 0, uint64(k))
	}
	ct.Value[1+pos] = T(k)*slot + []T{0, slot/2 - 1, slot / 2, 1, slot/2 + 1, slot - 1}[off]
	ct.Value[0] = 0
	ct.Value[0] = T(m)*c23scale(e.P) - e.lwePhase(ct)
	ev := core.Memo("c23ev"+tname[T]()+s.String(), func() *mktfhe.Evaluator[T] { return e.eval(all...) })
	form := 1
	if par {
		form = 5
	}
	out := mktfhe.NewLWECiphertext(e.P)
	out = c23run(ev, form, out, ct, func(v int) int { return s.msg - 1 - v })
	c23check(x, e, out, T(s.msg-1-m)*c23scale(e.P), "%v: message %d, mask %d = %d slots + %d", s, m, pos, k, off)
	x.Step(1)
	x.State(tname[T](), s.String(), pos, k, off, m)
}

func mkGateTo[T TI](e *mktfhe.BinaryEvaluator[T], g int, par bool, o, a, b mktfhe.LWECiphertext[T]) {
	if par {
		switch g {
		case 0:
			e.NOTTo(o, a)
		case 1:
			e.ANDParallelTo(o, a, b)
		case 2:
			e.NANDParallelTo(o, a, b)
		case 3:
			e.ORParallelTo(o, a, b)
		case 4:
			e.NORParallelTo(o, a, b)
		case 5:
			e.XORParallelTo(o, a, b)
		case 6:
			e.XNORParallelTo(o, a, b)
		}
		return
	}
	switch g {
	case 0:
		e.NOTTo(o, a)
	case 1:
		e.ANDTo(o, a, b)
	case 2:
		e.NANDTo(o, a, b)
	case 3:
		e.ORTo(o, a, b)
	case 4:
		e.NORTo(o, a, b)
	case 5:
		e.XORTo(o, a, b)
	case 6:
		e.XNORTo(o, a, b)
	}
}

func mkGateNew[T TI](e *mktfhe.BinaryEvaluator[T], g int, par bool, a, b mktfhe.LWECiphertext[T]) mktfhe.LWECiphertext[T] {
	type F = func(a, b mktfhe.LWECiphertext[T]) mktfhe.LWECiphertext[T]
	not := func(a, b mktfhe.LWECiphertext[T]) mktfhe.LWECiphertext[T] { return e.NOT(a) }
	if par {
		return []F{not, e.ANDParallel, e.NANDParallel, e.ORParallel, e.NORParallel, e.XORParallel, e.XNORParallel}[g](a, b)
	}
	return []F{not, e.AND, e.NAND, e.OR, e.NOR, e.XOR, e.XNOR}[g](a, b)
}

var c23bin = []mkShape{
	{n: 2, N: 64, block: 1, parties: 2, order: brks, msg: 2},
	{n: 2, N: 64, block: 1, parties: 2, order: ksbr, msg: 2},
	{n: 4, N: 64, block: 2, parties: 3, order: ksbr, msg: 2},
	{n: 4, N: 64, block: 2, parties: 4, order: brks, msg: 2},
}

// c23gate: one gate.
func c23gate[T TI](x *X) {
	s := core.OneOf(x, "shape", c23bin[:x.Pick(3, 4)])
	g := x.Choose(7, "gate")
	a, b := x.Bool("a"), x.Bool("b")
	own := [][]int{}
	for i := 0; i < s.parties; i++ {
		own = append(own, []int{i})
	}
	all := []int{}
	for i := 0; i < s.parties; i++ {
		all = append(all, i)
	}
	own = append(own, all, nil)
	oa, ob := core.OneOf(x, "parties of a", own), core.OneOf(x, "parties of b", own)
	par := x.Bool("parallel")
	al := x.Choose(6, "overlap") // 0 new object 1 separate 2 out=a 3 out=b 4 a=b 5 all
	errs := [][2]int{{0, 0}, {1, 1}, {2, 2}, {1, 2}, {2, 1}}
	ei := core.OneOf(x, "errors", errs[:x.Pick(3, 5)])
	full := x.Bool("all registered")
	if g == 0 && (al == 3 || par) {
		return
	}
	e := mkQuiet[T](s)
	var reg []int
	for i := 0; i < s.parties; i++ {
		if full || has(oa, i) || has(ob, i) {
			reg = append(reg, i)
		}
	}
	if len(reg) == 0 {
		reg = []int{s.parties - 1}
	}
	ev := core.Memo(fmt.Sprint("c23bev", tname[T](), s, reg), func() *mktfhe.BinaryEvaluator[T] {
		return mktfhe.NewBinaryEvaluator(e.P, e.evkMap(reg...))
	})
	h := uint64(mkRound(e.P)+1) * uint64(slotOf(e.P))
	lim := uint64(1) << (bitsOf[T]() - 4)
	dev := T(0)
	if h < lim {
		dev = T((lim - h) / 16 * 15)
	}
	mk := func(v bool, d int, own []int, salt uint64) mktfhe.LWECiphertext[T] {
		return c23ct(e, own, bitPhase[T](v)+[]T{0, dev, -dev}[d], salt)
	}
	ca, cb := mk(a, ei[0], oa, 1), mk(b, ei[1], ob, 2)
	if al >= 4 {
		cb, b = ca, a
	}
	pa := e.lwePhase(ca)
	ha, hb := snap(ca), snap(cb)
	var o mktfhe.LWECiphertext[T]
	switch al {
	case 0:
		o = mkGateNew(ev, g, par, ca, cb)
	case 2, 5:
		o = ca
		mkGateTo(ev, g, par, o, ca, cb)
	case 3:
		o = cb
		mkGateTo(ev, g, par, o, ca, cb)
	default:
		o = mktfhe.NewLWECiphertext(e.P)
		dirty(&o, 3)
		mkGateTo(ev, g, par, o, ca, cb)
	}
	want := gateRef(g, a, b)
	what := fmt.Sprintf("%v: %s(%v,%v) of parties %v and %v, registered %v (parallel %v, overlap %d)", s, gateNames[g], a, b, oa, ob, reg, par, al)
	if g == 0 {
		x.Assert(e.lwePhase(o) == -pa, "%s: NOT is not the negation of the phase", what)
	} else {
		c23check(x, e, o, bitPhase[T](want), "%s", what)
	}
	dec := mktfhe.NewBinaryDecryptor(e.P, e.skMap(reg...))
	x.Assert(dec.DecryptLWEBool(o) == want, "%s decrypts to %v", what, !want)
	x.Assert(al == 2 || al == 5 || snap(ca) == ha, "%s modified its first operand", what)
	x.Assert(al == 3 || al == 5 || al == 2 && snap(cb) == hb || snap(cb) == hb, "%s modified its second operand", what)
	x.Step(1)
	x.State(tname[T](), s.String(), g, fmt.Sprint(a, b, oa, ob, par, al, ei, full))
}

// c23circuit: every circuit up to a depth over registers encrypted by different parties with the real noise.
func c23circuit[T TI](x *X) {
	s := core.OneOf(x, "shape", c23bin[:x.Pick(2, 3)])
	e := mkenv[T](s)
	depth := 2
	all := []int{}
	for i := 0; i < s.parties; i++ {
		all = append(all, i)
	}
	init := x.Choose(4, "registers")
	R := 2
	regs := make([]mktfhe.LWECiphertext[T], R)
	val := make([]bool, R)
	for i := range regs {
		val[i] = init>>i&1 == 1
		regs[i] = core.Memo(fmt.Sprint("c23reg", tname[T](), s, i, val[i]), func() mktfhe.LWECiphertext[T] {
			return mktfhe.NewBinaryEncryptorWithKey(e.P, i%s.parties, crs, e.SK[i%s.parties]).EncryptLWEBool(val[i])
		}).Copy()
	}
	ev := core.Memo("c23cev"+tname[T]()+s.String(), func() *mktfhe.BinaryEvaluator[T] { return mktfhe.NewBinaryEvaluator(e.P, e.evkMap(all...)) })
	dec := core.Memo("c23dec"+tname[T]()+s.String(), func() *mktfhe.BinaryDecryptor[T] { return mktfhe.NewBinaryDecryptor(e.P, e.skMap(all...)) })
	trace := ""
	for k := 0; k < depth; k++ {
		g := x.Choose(7, "gate")
		a := x.Choose(R, "a")
		b := 0
		if g > 0 {
			b = x.Choose(R, "b")
		}
		o := x.Choose(R, "out")
		par := g > 0 && x.Bool("parallel")
		mkGateTo(ev, g, par, regs[o], regs[a], regs[b])
		val[o] = gateRef(g, val[a], val[b])
		trace += fmt.Sprintf(" r%d=%s(r%d,r%d)", o, gateNames[g], a, b)
		x.Step(1)
		for i := range regs {
			x.Assert(dec.DecryptLWEBool(regs[i]) == val[i], "%v: registers %d, program%s: register %d holds %v", s, init, trace, i, !val[i])
		}
		x.State(tname[T](), s.String(), trace, init)
	}
}

// c23sched: a parallel bootstrap or gate under every schedule of its threads.
func c23sched[T TI](x *X, level, pre int) {
	s := core.OneOf(x, "shape", c23bin[:x.Pick(3, 4)])
	reg := core.OneOf(x, "registered", [][]int{{0}, {s.parties - 1}, nil})
	if reg == nil {
		for i := 0; i < s.parties; i++ {
			reg = append(reg, i)
		}
	}
	form := x.Choose(5, "form") + 4
	m := x.Choose(2, "message")
	e := mkQuiet[T](s)
	what := fmt.Sprintf("%v, registered %v", s, reg)
	var out mktfhe.LWECiphertext[T]
	var want T
	var ins []any
	var hash uint64
	var run func()
	if form < 8 {
		ev := core.Memo(fmt.Sprint("c23sev", tname[T](), s, reg), func() *mktfhe.Evaluator[T] { return e.eval(reg...) })
		ct := c23ct(e, reg, T(m)*c23scale(e.P), 5)
		ins = []any{ct}
		out = mktfhe.NewLWECiphertext(e.P)
		dirty(&out, 7)
		f := func(v int) int { return 1 - v }
		want = T(1-m) * c23scale(e.P)
		run = func() { out = c23run(ev, form, out, ct, f) }
		what += " " + c23forms[form]
	} else {
		g := x.Choose(6, "gate") + 1
		ev := core.Memo(fmt.Sprint("c23sbev", tname[T](), s, reg), func() *mktfhe.BinaryEvaluator[T] {
			return mktfhe.NewBinaryEvaluator(e.P, e.evkMap(reg...))
		})
		a, b := c23ct(e, reg[:1], bitPhase[T](m == 1), 3), c23ct(e, reg, bitPhase[T](true), 4)
		ins = []any{a, b}
		out = mktfhe.NewLWECiphertext(e.P)
		dirty(&out, 7)
		want = bitPhase[T](gateRef(g, m == 1, true))
		run = func() { mkGateTo(ev, g, true, out, a, b) }
		what += " " + gateNames[g]
	}
	hash = snap(ins...)
	var atReturn uint64
	schedRun(x, vsched.Config{Level: level, Preempt: pre, Delay: -1}, what, func() { atReturn = snap(out) }, run)
	x.Assert(snap(out) == atReturn, "%s: the output changes after the call returned", what)
	x.Assert(snap(ins...) == hash, "%s: the inputs changed", what)
	c23check(x, e, out, want, "%s: message %d", what, m)
	x.State(tname[T](), s.String(), fmt.Sprint(reg), form, m, x.Trace())
}

func init() {
	av := []string{"avx2"}
	thorough := false
	two := func(name, bound string, backends []string, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C23", Name: name, Bound: bound, Backends: backends, ThoroughOnly: thorough, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	two("functions", "both widths x 4 parameter sets (2-3 parties, both orders, block sizes 1-2, moduli 2 and 4) x every function x every message x serial/parallel", av, c23func[uint32], c23func[uint64])
	two("parties", "both widths x 4 (thorough 5) parameter sets x every involved subset x every registered superset x 8 entry points x every message x extreme input errors x overlap x 4 construction histories x earlier use", nil, c23party[uint32], c23party[uint64])
	two("masks", "both widths x 3 (thorough 4) parameter sets x up to 12 mask positions over all parties x every rotation amount x 3 (thorough 6) offsets around the rounding boundary x messages x other masks x serial/parallel", av, c23mask[uint32], c23mask[uint64])
	two("gates", "both widths x 3 (thorough 4) parameter sets x 7 gates x inputs x party mixes of each operand x serial/parallel x 6 overlaps x extreme input errors x only involved or all parties registered", av, c23gate[uint32], c23gate[uint64])
	two("circuits", "both widths x 2 (thorough 3) parameter sets x every program of two gates over two registers of different parties, real noise", av, c23circuit[uint32], c23circuit[uint64])
	k := "both widths x 3 (thorough 4) parameter sets of 2-4 parties x one party or all registered x 4 parallel entry points and 6 gates: "
	at := func(level, pre int) (func(*X), func(*X)) {
		return func(x *X) { c23sched[uint32](x, level, pre) }, func(x *X) { c23sched[uint64](x, level, pre) }
	}
	sc, ra := schedBackends[:1], schedBackends[1:]
	a, b := at(0, 2)
	two("schedules", k+"every order of the threads and two preemptions at any synchronisation operation", sc, a, b)
	a, b = at(0, 0)
	two("races", k+"every order of the threads under the race detector", ra, a, b)
	a, b = at(1, 1)
	two("entries", k+"every order of the threads and one preemption at any entry of a function of the library", sc, a, b)
	thorough = true
	a, b = at(1, 2)
	two("entries2", k+"every order of the threads and two preemptions at any entry of a function of the library", sc, a, b)
}
