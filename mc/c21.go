package main

import (
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

var mkShapes = []mkShape{
	{n: 6, N: 16, block: 2, parties: 3, order: ksbr, msg: 4},
	{n: 6, N: 16, block: 1, parties: 3, order: brks, msg: 4},
}

// decryptorFor builds a decryptor that knows the given keys by one of several construction histories.
func (e *mktenv[T]) decVariant(variant int, s []int) *mktfhe.Decryptor[T] {
	switch variant {
	case 0:
		return e.dec(s...)
	case 1: // all added later, last first
		d := mktfhe.NewDecryptor(e.P, map[int]tfhe.SecretKey[T]{})
		for i := len(s) - 1; i >= 0; i-- {
			d.AddSecretKey(s[i], e.SK[s[i]])
		}
		return d
	case 2: // safe copy, then the rest is added to the copy
		d := e.dec(s[0]).SafeCopy()
		for _, i := range s[1:] {
			d.AddSecretKey(i, e.SK[i])
		}
		return d
	default: // a wrong key is overwritten
		d := e.dec(s...)
		i := s[len(s)-1]
		d.AddSecretKey(i, e.SK[(i+1)%len(e.SK)])
		d.AddSecretKey(i, e.SK[i])
		return d.SafeCopy()
	}
}

func c21enc[T TI](x *X) {
	s := core.OneOf(x, "shape", mkShapes)
	party := x.Choose(s.parties, "party")
	var subs [][]int
	for _, v := range subsets(s.parties) {
		if has(v, party) {
			subs = append(subs, v)
		}
	}
	sub := core.OneOf(x, "keys", subs)
	variant := x.Choose(4, "construction")
	format := x.Choose(10, "format")
	reuse := x.Bool("reuse")
	pat := x.Choose(4, "pattern")
	cp := x.Choose(x.Pick(1, 2), "encryptor-copy")
	e := mkenv[T](s)
	P := e.P
	enc := e.enc(party)
	if cp == 1 {
		enc = enc.SafeCopy()
	}
	hk := snap(e.SK)
	dec := e.decVariant(variant, sub)
	N, pm := P.PolyRank(), int(P.MessageModulus())
	tol := noiseCap(P.GLWEStdDevQ()) + noiseCap(P.LWEStdDevQ())
	lm := pat
	gm := msgPatterns[pat]
	lpt := tfhe.LWEPlaintext[T]{Value: encodeRef(P.SubParams(), 1, []int{lm})[0]}
	gpt := tfhe.NewGLWEPlaintext(P.SubParams())
	copy(gpt.Value.Coeffs, encodeRef(P.SubParams(), N, gm))
	hp := snap(lpt, gpt)
	var cl mktfhe.LWECiphertext[T]
	var cg mktfhe.GLWECiphertext[T]
	var cf mktfhe.FFTGLWECiphertext[T]
	if reuse {
		cl, cg, cf = mktfhe.NewLWECiphertext(P), mktfhe.NewGLWECiphertext(P), mktfhe.NewFFTGLWECiphertext(P)
		dirty(cl, 1)
		dirty(cg, 2)
		dirty(cf, 3)
	}
	kind := 0
	switch format {
	case 0:
		if reuse {
			enc.EncryptLWETo(cl, lm)
		} else {
			cl = enc.EncryptLWE(lm)
		}
	case 1:
		if reuse {
			enc.EncryptLWEPlaintextTo(cl, lpt)
		} else {
			cl = enc.EncryptLWEPlaintext(lpt)
		}
	case 2:
		kind = 1
		if reuse {
			enc.EncryptGLWETo(cg, gm)
		} else {
			cg = enc.EncryptGLWE(gm)
		}
	case 3:
		kind = 1
		if reuse {
			enc.EncryptGLWEPlaintextTo(cg, gpt)
		} else {
			cg = enc.EncryptGLWEPlaintext(gpt)
		}
	case 4:
		kind = 2
		if reuse {
			enc.EncryptFFTGLWETo(cf, gm)
		} else {
			cf = enc.EncryptFFTGLWE(gm)
		}
	case 5:
		kind = 2
		if reuse {
			enc.EncryptFFTGLWEPlaintextTo(cf, gpt)
		} else {
			cf = enc.EncryptFFTGLWEPlaintext(gpt)
		}
	case 6, 7, 8, 9:
		kind = 3
		g := P.RelinKeyParameters()
		p := poly.NewPoly[T](N)
		for i, m := range wantMsgs(gm, N, pm) {
			p.Coeffs[i] = T(m)
		}
		u := mktfhe.NewUniEncryption(P, g)
		fu := mktfhe.NewFFTUniEncryption(P, g)
		if reuse {
			dirty(&u.Value, 5)
			dirty(&fu.Value, 6)
		}
		var got poly.Poly[T]
		var gotM []int
		switch format {
		case 6:
			if reuse {
				enc.UniEncryptTo(u, gm, g)
			} else {
				u = enc.UniEncrypt(gm, g)
			}
			got, gotM = enc.UniDecryptPoly(u), enc.UniDecrypt(u)
		case 7:
			if reuse {
				enc.UniEncryptPolyTo(u, p)
			} else {
				u = enc.UniEncryptPoly(p, g)
			}
			fu = enc.FwdFFTUniEncryption(u)
			got, gotM = enc.FFTUniDecryptPoly(fu), enc.FFTUniDecrypt(fu)
		case 8:
			if reuse {
				enc.FFTUniEncryptTo(fu, gm, g)
			} else {
				fu = enc.FFTUniEncrypt(gm, g)
			}
			got, gotM = enc.FFTUniDecryptPoly(fu), enc.FFTUniDecrypt(fu)
		case 9:
			if reuse {
				enc.FFTUniEncryptPolyTo(fu, p)
			} else {
				fu = enc.FFTUniEncryptPoly(p, g)
			}
			u = enc.InvFFTUniEncryption(fu)
			got, gotM = enc.UniDecryptPoly(u), enc.UniDecrypt(u)
		}
		x.Assert(got.Equals(p), "uni-encryption decrypts to %v, want %v", got.Coeffs, p.Coeffs)
		x.Assert(eqInts(gotM, wantMsgs(gm, N, pm)), "uni-encryption decrypts to messages %v, want %v", gotM, gm)
	}
	switch kind {
	case 0:
		checkPhase(x, "multi-key LWE", []T{e.lwePhase(cl)}, []T{lpt.Value}, tol)
		x.Assert(cdist(dec.DecryptLWEPlaintext(cl).Value, lpt.Value) <= tol, "multi-key LWE phase wrong with keys %v", sub)
		x.Assert(dec.DecryptLWE(cl) == lm, "multi-key LWE decrypts to %d, want %d", dec.DecryptLWE(cl), lm)
		d := P.SubParams().DefaultLWEDimension()
		for j := 0; j < s.parties; j++ {
			zero := true
			for _, v := range cl.Value[1+j*d : 1+(j+1)*d] {
				zero = zero && v == 0
			}
			x.Assert(zero == (j != party), "mask of party %d zero: %v", j, zero)
		}
	case 1:
		checkPhase(x, "multi-key GLWE", e.glwePhase(cg), gpt.Value.Coeffs, tol)
		checkPhase(x, "multi-key GLWE phase", dec.DecryptGLWEPhase(cg).Value.Coeffs, gpt.Value.Coeffs, tol)
		x.Assert(eqInts(dec.DecryptGLWE(cg), wantMsgs(gm, N, pm)), "multi-key GLWE decrypts to %v, want %v", dec.DecryptGLWE(cg), gm)
		out := make([]int, N)
		dirty(out, 4)
		dec.DecryptGLWETo(out, cg)
		x.Assert(eqInts(out, wantMsgs(gm, N, pm)), "DecryptGLWETo")
		for j := 0; j < s.parties; j++ {
			zero := true
			for _, v := range cg.Value[j+1].Coeffs {
				zero = zero && v == 0
			}
			x.Assert(zero == (j != party), "mask of party %d zero: %v", j, zero)
		}
	case 2:
		x.Assert(eqInts(dec.DecryptFFTGLWE(cf), wantMsgs(gm, N, pm)), "multi-key FFTGLWE decrypts to %v, want %v", dec.DecryptFFTGLWE(cf), gm)
		checkPhase(x, "multi-key FFTGLWE", dec.DecryptFFTGLWEPhase(cf).Value.Coeffs, gpt.Value.Coeffs, tol+fftTol[T]())
		checkPhase(x, "multi-key FFTGLWE", e.glwePhase(dec.InvGLWECiphertext(cf)), gpt.Value.Coeffs, tol+fftTol[T]())
		for j := 0; j < s.parties; j++ {
			zero := true
			for _, v := range cf.Value[j+1].Coeffs {
				zero = zero && v == 0
			}
			x.Assert(zero == (j != party), "Fourier mask of party %d zero: %v", j, zero)
		}
	}
	x.Assert(snap(e.SK) == hk && snap(lpt, gpt) == hp, "an argument was modified")
	x.Step(2)
	x.State(s.String(), party, format, pat, reuse)
}

// c21lin: linear operations between parties.
func c21lin[T TI](x *X) {
	s := core.OneOf(x, "shape", mkShapes)
	p0 := x.Choose(s.parties, "party0")
	p1 := x.Choose(s.parties, "party1")
	op := x.Choose(34, "op")
	alias := x.Choose(3, "alias") // 0: fresh-ish output, 1: output is operand 0, 2: output is operand 1
	e := mkenv[T](s)
	P := e.P
	N := P.PolyRank()
	ev := mktfhe.NewEvaluator(P, map[int]mktfhe.EvaluationKey[T]{})
	e0, e1 := e.enc(p0), e.enc(p1)
	sub := P.SubParams()
	l0, l1 := e0.EncryptLWE(1), e1.EncryptLWE(2)
	g0, g1 := e0.EncryptGLWE(msgPatterns[2]), e1.EncryptGLWE(msgPatterns[3])
	tr := e0.GLWETransformer
	lph, gph := e.lwePhase, e.glwePhase
	pl0, pl1 := lph(l0), lph(l1)
	pg0, pg1 := gph(g0), gph(g1)
	lo, go_ := mktfhe.NewLWECiphertext(P), mktfhe.NewGLWECiphertext(P)
	dirty(lo, 3)
	dirty(go_, 4)
	plo, pgo := lph(lo), gph(go_)
	lpt := tfhe.LWEPlaintext[T]{Value: encodeRef(sub, 1, []int{3})[0]}
	gpt := tfhe.NewGLWEPlaintext(sub)
	copy(gpt.Value.Coeffs, encodeRef(sub, N, msgPatterns[3]))
	sm := poly.NewPoly[T](N) // small polynomial
	sm.Coeffs[0], sm.Coeffs[1], sm.Coeffs[N-1] = 2, ^T(0), 3
	fsm := ev.PolyEvaluator.FwdFFT(sm)
	d := []int{5, 2*N - 3, -7}[(p0+p1)%3]
	c := T(3)
	var wantL T
	var wantG []T
	tol := uint64(0)
	isL := true
	okAlias := true
	switch { // set output aliasing
	case alias == 1:
		lo, go_ = l0, g0
		plo, pgo = pl0, pg0
	case alias == 2:
		lo, go_ = l1, g1
		plo, pgo = pl1, pg1
	}
	fft := func(f func(fo, f0, f1 mktfhe.FFTGLWECiphertext[T])) {
		isL = false
		f0, f1 := tr.FwdFFTGLWECiphertext(g0), tr.FwdFFTGLWECiphertext(g1)
		fo := tr.FwdFFTGLWECiphertext(go_)
		if alias == 1 {
			fo = f0
		} else if alias == 2 {
			fo = f1
		}
		f(fo, f0, f1)
		tr.InvGLWECiphertextTo(go_, fo)
		tol = fftTol[T]() * 16
	}
	switch op {
	case 0:
		ev.AddLWETo(lo, l0, l1)
		wantL = pl0 + pl1
	case 1:
		ev.SubLWETo(lo, l0, l1)
		wantL = pl0 - pl1
	case 2:
		ev.NegLWETo(lo, l0)
		wantL = -pl0
	case 3:
		ev.AddPlainLWETo(lo, l0, lpt)
		wantL = pl0 + lpt.Value
	case 4:
		ev.SubPlainLWETo(lo, l0, lpt)
		wantL = pl0 - lpt.Value
	case 5:
		ev.ScalarMulLWETo(lo, l0, c)
		wantL = pl0 * c
	case 6:
		ev.ScalarMulAddLWETo(lo, l0, c)
		wantL = plo + pl0*c
	case 7:
		ev.ScalarMulSubLWETo(lo, l0, c)
		wantL = plo - pl0*c
	case 8:
		x.Assert(lph(ev.AddLWE(l0, l1)) == pl0+pl1 && lph(ev.SubLWE(l0, l1)) == pl0-pl1 && lph(ev.NegLWE(l0)) == -pl0, "allocating LWE forms")
		x.Assert(lph(ev.AddPlainLWE(l0, lpt)) == pl0+lpt.Value && lph(ev.SubPlainLWE(l0, lpt)) == pl0-lpt.Value && lph(ev.ScalarMulLWE(l0, c)) == c*pl0, "allocating LWE forms")
		wantL = plo
	case 9:
		isL = false
		eq := func(a, b []T) bool { return maxDist(a, b) == 0 }
		x.Assert(eq(gph(ev.AddGLWE(g0, g1)), nAdd(pg0, pg1)) && eq(gph(ev.SubGLWE(g0, g1)), nSub(pg0, pg1)) && eq(gph(ev.NegGLWE(g0)), nScale(pg0, ^T(0))), "allocating GLWE forms")
		x.Assert(eq(gph(ev.AddPlainGLWE(g0, gpt)), nAdd(pg0, gpt.Value.Coeffs)) && eq(gph(ev.SubPlainGLWE(g0, gpt)), nSub(pg0, gpt.Value.Coeffs)) && eq(gph(ev.ScalarMulGLWE(g0, c)), nScale(pg0, c)), "allocating GLWE forms")
		x.Assert(eq(gph(ev.MonomialMulGLWE(g0, d)), nMono(pg0, d)), "MonomialMulGLWE")
		wantG = pgo
	case 10:
		isL = false
		ev.AddGLWETo(go_, g0, g1)
		wantG = nAdd(pg0, pg1)
	case 11:
		isL = false
		ev.SubGLWETo(go_, g0, g1)
		wantG = nSub(pg0, pg1)
	case 12:
		isL = false
		ev.NegGLWETo(go_, g0)
		wantG = nScale(pg0, ^T(0))
	case 13:
		isL = false
		ev.AddPlainGLWETo(go_, g0, gpt)
		wantG = nAdd(pg0, gpt.Value.Coeffs)
	case 14:
		isL = false
		ev.SubPlainGLWETo(go_, g0, gpt)
		wantG = nSub(pg0, gpt.Value.Coeffs)
	case 15:
		isL = false
		ev.ScalarMulGLWETo(go_, g0, c)
		wantG = nScale(pg0, c)
	case 16:
		isL = false
		ev.ScalarMulAddGLWETo(go_, g0, c)
		wantG = nAdd(pgo, nScale(pg0, c))
	case 17:
		isL = false
		ev.ScalarMulSubGLWETo(go_, g0, c)
		wantG = nSub(pgo, nScale(pg0, c))
	case 18:
		isL = false
		ev.PolyMulGLWETo(go_, g0, sm)
		wantG, tol = nMul(pg0, sm.Coeffs), fftTol[T]()*16
	case 19, 20:
		isL = false
		okAlias = alias != 1
		if okAlias {
			if op == 19 {
				ev.PolyMulAddGLWETo(go_, g0, sm)
				wantG = nAdd(pgo, nMul(pg0, sm.Coeffs))
			} else {
				ev.PolyMulSubGLWETo(go_, g0, sm)
				wantG = nSub(pgo, nMul(pg0, sm.Coeffs))
			}
			tol = fftTol[T]() * 16
		}
	case 21:
		isL = false
		ev.FFTPolyMulGLWETo(go_, g0, fsm)
		wantG, tol = nMul(pg0, sm.Coeffs), fftTol[T]()*16
	case 22:
		isL = false
		ev.FFTPolyMulAddGLWETo(go_, g0, fsm)
		wantG, tol = nAdd(pgo, nMul(pg0, sm.Coeffs)), fftTol[T]()*16
	case 23:
		isL = false
		ev.FFTPolyMulSubGLWETo(go_, g0, fsm)
		wantG, tol = nSub(pgo, nMul(pg0, sm.Coeffs)), fftTol[T]()*16
	case 24:
		isL = false
		if okAlias = alias != 1; okAlias {
			ev.MonomialMulGLWETo(go_, g0, d)
			wantG = nMono(pg0, d)
		}
	case 25:
		isL = false
		ev.MonomialMulGLWEInPlace(go_, d)
		wantG = nMono(pgo, d)
	case 26:
		isL = false
		if okAlias = alias != 1; okAlias {
			ev.MonomialMulAddGLWETo(go_, g0, d)
			wantG = nAdd(pgo, nMono(pg0, d))
		}
	case 27:
		isL = false
		if okAlias = alias != 1; okAlias {
			ev.MonomialMulSubGLWETo(go_, g0, d)
			wantG = nSub(pgo, nMono(pg0, d))
		}
	case 28:
		fft(func(fo, f0, f1 mktfhe.FFTGLWECiphertext[T]) { ev.AddFFTGLWETo(fo, f0, f1) })
		wantG = nAdd(pg0, pg1)
	case 29:
		fft(func(fo, f0, f1 mktfhe.FFTGLWECiphertext[T]) { ev.SubFFTGLWETo(fo, f0, f1) })
		wantG = nSub(pg0, pg1)
	case 30:
		fft(func(fo, f0, f1 mktfhe.FFTGLWECiphertext[T]) { ev.NegFFTGLWETo(fo, f0) })
		wantG = nScale(pg0, ^T(0))
	case 31:
		fft(func(fo, f0, f1 mktfhe.FFTGLWECiphertext[T]) { ev.FloatMulFFTGLWETo(fo, f0, 3) })
		wantG = nScale(pg0, 3)
	case 32:
		fft(func(fo, f0, f1 mktfhe.FFTGLWECiphertext[T]) { ev.FloatMulAddFFTGLWETo(fo, f0, 3) })
		wantG = nAdd(pgo, nScale(pg0, 3))
	case 33:
		fft(func(fo, f0, f1 mktfhe.FFTGLWECiphertext[T]) { ev.PolyMulFFTGLWETo(fo, f0, sm) })
		wantG = nMul(pg0, sm.Coeffs)
	}
	if !okAlias {
		return
	}
	if isL {
		x.Assert(lph(lo) == wantL, "operation %d: phase %d want %d", op, lph(lo), wantL)
	} else {
		checkPhase(x, "operation", gph(go_), wantG, tol)
	}
	if alias == 0 {
		x.Assert(lph(l0) == pl0 && lph(l1) == pl1 && maxDist(gph(g0), pg0) == 0 && maxDist(gph(g1), pg1) == 0, "an operand was modified")
	}
	x.Step(1)
	x.State(s.String(), p0, p1, op, alias)
}

func init() {
	core.Register(core.Harness{Prop: "C21", Name: "encrypt-u64", Bound: "3 parties; party x every key subset containing it x 4 construction histories of the decryptor x 10 formats x output {fresh, junk} x 4 message patterns x 2 orders", Run: c21enc[uint64]})
	core.Register(core.Harness{Prop: "C21", Name: "encrypt-u32", Bound: "as encrypt-u64", Run: c21enc[uint32]})
	core.Register(core.Harness{Prop: "C21", Name: "linear-u64", Shards: 2, Bound: "all party pairs x 34 linear operations x 3 aliasings x 2 orders", Run: c21lin[uint64]})
	core.Register(core.Harness{Prop: "C21", Name: "linear-u32", Shards: 2, Bound: "as linear-u64", Run: c21lin[uint32]})
	core.Register(core.Harness{Prop: "C21", Name: "subkey", Shards: 1, Bound: "CopyFromSubKey of the 3 formats into a junk output x 1-4 parties x every index x 2 shapes x 2 widths", Run: func(x *X) {
		if x.Bool("64") {
			c18sub[uint64](x)
		} else {
			c18sub[uint32](x)
		}
	}})
}
