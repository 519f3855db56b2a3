package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
	"verifmc/vsched"
)

// C15: parallel key generation under every schedule.  The sources of the library are rewritten so that its threads,
// channels and locks go through package vsched, see DESIGN.md.

var schedBackends = []string{"sched", "race"}

// schedRun executes the functions as threads under the explorer and checks that all of them end.
func schedRun(x *X, c vsched.Config, what string, returned func(), fns ...func()) vsched.Result {
	core.ThreadRand = vsched.Random
	res := vsched.Run(c, 0x9e3779b97f4a7c15+core.BaseSeed, func(n int, w string) int { return x.Choose(n, w) }, returned, fns...)
	x.Assert(res.Panic == "", "%s: %s", what, res.Panic)
	x.Assert(!res.Endless, "%s: no end after %d scheduling points", what, res.Points)
	x.Assert(res.Deadlock == "", "%s: deadlock: %s%s", what, res.Deadlock, res.Leak)
	x.Assert(res.Leak == "", "%s: threads remain for ever: %s", what, res.Leak)
	x.Step(res.Points)
	x.Observe(fmt.Sprintf("%d threads, %d preemptions", res.Threads, res.Preemptions))
	return res
}

// checkBRK checks every entry of a blind rotation key: row i, column j encrypts key bit i times (1, -S_j) ...
func checkBRK[T TI](x *X, what string, p tfhe.Parameters[T], sk tfhe.SecretKey[T], brk tfhe.BlindRotateKey[T], entry func(i int) []T, tol uint64) {
	g := p.BlindRotateParams()
	x.Assert(len(brk.Value) == p.LWEDimension(), "%s: %d entries", what, len(brk.Value))
	pe := core.Memo(fmt.Sprint("c15pe", tname[T](), p.PolyRank()), func() *poly.Evaluator[T] { return poly.NewEvaluator[T](p.PolyRank()) })
	seen := map[string]string{}
	for i := range brk.Value {
		x.Assert(len(brk.Value[i].Value) == p.GLWERank()+1 && brk.Value[i].GadgetParams == g, "%s: shape of entry %d", what, i)
		m := entry(i)
		for j, lv := range brk.Value[i].Value {
			c := m
			if j > 0 {
				c = nMul(m, sk.GLWEKey.Value[j-1].Coeffs)
			}
			v := make([]tfhe.GLWECiphertext[T], len(lv.Value))
			for l := range lv.Value {
				v[l] = tfhe.NewGLWECiphertext(p)
				for q := range v[l].Value {
					v[l].Value[q].CopyFrom(pe.InvFFT(lv.Value[l].Value[q]))
				}
				at := fmt.Sprintf("%d/%d/%d", i, j, l)
				mask := fmt.Sprint(lv.Value[l].Value[1].Coeffs[:4])
				x.Assert(seen[mask] == "", "%s: entries %s and %s have the same mask", what, at, seen[mask])
				seen[mask] = at
			}
			checkGLev(x, fmt.Sprintf("%s, entry %d, row %d", what, i, j), v, sk.GLWEKey.Value, g, c, tol)
		}
	}
}

func checkKSK[T TI](x *X, what string, p tfhe.Parameters[T], sk tfhe.SecretKey[T], ksk tfhe.LWEKeySwitchKey[T]) {
	g := p.KeySwitchParams()
	in := sk.LWELargeKey.Value[p.LWEDimension():]
	x.Assert(len(ksk.Value) == len(in) && ksk.GadgetParams == g, "%s: shape of the key switching key", what)
	seen := map[string]string{}
	tol := noiseCap(p.LWEStdDevQ())
	for i := range in {
		x.Assert(len(ksk.Value[i].Value) == g.Level(), "%s: shape of key switching entry %d", what, i)
		for l, ct := range ksk.Value[i].Value {
			x.Assert(len(ct.Value) == p.LWEDimension()+1, "%s: dimension of key switching entry %d", what, i)
			at := fmt.Sprintf("%d/%d", i, l)
			mask := fmt.Sprint(ct.Value[1:])
			x.Assert(seen[mask] == "", "%s: key switching entries %s and %s have the same mask", what, at, seen[mask])
			seen[mask] = at
			w := in[i] << (bitsOf[T]() - (l+1)*g.LogBase())
			d := cdist(lwePhase(ct.Value, sk.LWEKey.Value), w)
			x.Assert(d <= tol, "%s: key switching entry %s has phase off by 2^%d", what, at, bitLen(d))
		}
	}
}

type c15cfg struct {
	s    shape
	cpus int
	win  int
}

// job counts: blind rotation n(k+1), key switching (kN-n) levels.
var c15cfgs = []c15cfg{
	{shape{n: 2, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4}, 1, 1},
	{shape{n: 2, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4}, 2, 1},
	{shape{n: 14, k: 1, N: 16, lut: 16, block: 2, order: brks, msg: 4}, 2, 2},
	{shape{n: 3, k: 2, N: 16, lut: 16, block: 1, order: brks, msg: 4}, 3, 1},
	{shape{n: 13, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4}, 3, 2},
	{shape{n: 1, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4}, 8, 1},
	{shape{n: 8, k: 1, N: 16, lut: 16, block: 4, order: brks, msg: 4}, 8, 2},
	{shape{n: 16, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4}, 2, 1},
}

func c15[T TI](x *X, level, pre, delay int, cfgs, kinds []int) {
	c := c15cfgs[core.OneOf(x, "configuration", cfgs)]
	kind := core.OneOf(x, "generator", kinds)
	lt := lit[T](c.s)
	lt.KeySwitchParams = gad[T](4, 2)
	lt.BlindRotateParams = gad[T](7, 2)
	p := lt.Compile()
	if kind >= 5 && c.s.k > 1 {
		return
	}
	flat := make([]T, p.GLWEDimension())
	for i := range flat {
		flat[i] = T(mix64(uint64(i)) >> 3 & 1)
		if kind == 3 || kind == 4 {
			flat[i] = T(mix64(uint64(i))%7) - 3
		}
	}
	sk := keyFrom(p, flat)
	what := fmt.Sprintf("generator %d, %v, %d CPUs", kind, c.s, c.cpus)
	var brk *tfhe.BlindRotateKey[T]
	var ksk *tfhe.LWEKeySwitchKey[T]
	var run func()
	var other any
	switch kind {
	case 0:
		e := tfhe.NewEncryptorWithKey(p, sk)
		run = func() { k := e.GenBlindRotateKeyParallel(); brk = &k }
	case 1:
		e := tfhe.NewEncryptorWithKey(p, sk)
		run = func() { k := e.GenDefaultKeySwitchKeyParallel(); ksk = &k }
	case 2:
		e := tfhe.NewBinaryEncryptorWithKey(p, sk)
		run = func() { k := e.GenEvalKeyParallel(); brk, ksk = &k.BlindRotateKey, &k.KeySwitchKey }
	case 3, 4:
		if c.s.block > 1 {
			return
		}
		fp := xtfhe.FHEWParametersLiteral[T]{BaseParams: lt, SecretKeyStdDev: math.Exp2(-float64(bitsOf[T]())), WindowSize: c.win}.Compile()
		e := xtfhe.NewFHEWEncryptorWithKey(fp, sk)
		if kind == 3 {
			run = func() { k := e.GenBlindRotateKeyParallel(); brk = &k }
		} else {
			run = func() { k := e.GenEvalKeyParallel(); brk, ksk, other = &k.BlindRotateKey, &k.KeySwitchKey, k.GaloisKey }
		}
	default:
		ml := mktfhe.ParametersLiteral[T]{SubParams: lt, PartyCount: 2, AccumulatorParams: gad[T](6, 2), RelinKeyParams: gad[T](7, 2)}
		mp := ml.Compile()
		e := mktfhe.NewEncryptorWithKey(mp, 1, crs, sk)
		if kind == 5 {
			run = func() {
				k := e.GenEvalKeyParallel()
				brk, ksk = &k.EvaluationKey.BlindRotateKey, &k.EvaluationKey.KeySwitchKey
				other = []any{k.CRSPublicKey, k.RelinKey}
			}
		} else {
			run = func() { k := e.GenDefaultKeySwitchKeyParallel(); ksk = &k }
		}
	}
	keys := func() []any {
		r := []any{other}
		if brk != nil {
			r = append(r, *brk)
		}
		if ksk != nil {
			r = append(r, *ksk)
		}
		return r
	}
	var atReturn uint64
	s0 := snap(sk)
	schedRun(x, vsched.Config{Level: level, Preempt: pre, Delay: delay, CPUs: c.cpus}, what, func() { atReturn = snap(keys()...) }, run)
	x.Assert(snap(keys()...) == atReturn, "%s: the key changes after it is returned", what)
	x.Assert(snap(sk) == s0, "%s: the secret key changed", what)
	if brk != nil {
		checkBRK(x, what, p, sk, *brk, func(i int) []T {
			m := make([]T, c.s.N)
			if kind == 3 || kind == 4 {
				m[0] = 1
				return nMono(m, int(toSigned(flat[i])))
			}
			m[0] = flat[i]
			return m
		}, noiseCap(p.GLWEStdDevQ())+fftTol[T]())
	}
	if ksk != nil {
		checkKSK(x, what, p, sk, *ksk)
	}
	x.State(tname[T](), kind, c.cpus, c.s.String(), x.Trace())
}

func init() {
	reg := func(name, bound string, back []string, thorough bool, level, pre, delay int, cfgs, kinds []int) {
		core.Register(core.Harness{Prop: "C15", Name: name, Backends: back, ThoroughOnly: thorough, Bound: bound, Run: func(x *X) {
			if x.Bool("32 bit") {
				c15[uint32](x, level, pre, delay, cfgs, kinds)
			} else {
				c15[uint64](x, level, pre, delay, cfgs, kinds)
			}
		}})
	}
	every := []int{0, 1, 2, 3, 4, 5, 6}
	all := []int{0, 1, 2, 3, 4, 5, 6, 7}
	k := "7 generators (single-key, binary, FHEW, multi-key; blind rotation, key switching, evaluation keys), both widths, "
	sc, ra := schedBackends[:1], schedBackends[1:]
	one := []int{0, 1, 3}
	reg("preempt", k+"8 configurations of size and CPUs: one preemption at any synchronisation operation", sc, false, 0, 1, 0, all, every)
	reg("order", k+"8 configurations: two unusual choices of the next thread", sc, false, 0, 0, 2, all, every)
	reg("both", "blind rotation, key switching and FHEW generators, both widths, 4 configurations: one preemption and one unusual choice", sc, false, 0, 1, 1, []int{0, 1, 3, 5}, one)
	reg("races", k+"8 configurations: one unusual choice of the next thread, under the race detector", ra, false, 0, 0, 1, all, every)
	reg("races-preempt", "blind rotation, key switching and FHEW generators, both widths, 3 configurations: one preemption, under the race detector", ra, false, 0, 1, 0, []int{1, 3, 5}, one)
	reg("deep", k+"4 configurations: at most 2 preemptions and 2 unusual choices", sc, true, 0, 2, 2, []int{0, 1, 2, 5}, every)
	reg("races-deep", k+"8 configurations: one preemption and one unusual choice, under the race detector", ra, true, 0, 1, 1, all, every)
	reg("entries", k+"3 configurations: one preemption at any entry of a function of the library", sc, false, 1, 1, 0, []int{0, 1, 5}, every)
}
