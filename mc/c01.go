package main

import (
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

var c01shapes = []shape{
	{n: 8, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4},
	{n: 9, k: 2, N: 16, lut: 32, block: 3, order: brks, msg: 8},
	{n: 20, k: 3, N: 32, lut: 32, block: 2, order: ksbr, msg: 2},
	{n: 16, k: 1, N: 16, lut: 16, block: 1, order: brks, msg: 5},
	{n: 7, k: 2, N: 64, lut: 64, block: 7, order: brks, msg: 16},
}

func c01gads[T TI]() []tfhe.GadgetParametersLiteral[T] {
	if bitsOf[T]() == 32 {
		return []tfhe.GadgetParametersLiteral[T]{gad[T](7, 3), gad[T](5, 1), gad[T](8, 4), gad[T](4, 2)}
	}
	return []tfhe.GadgetParametersLiteral[T]{gad[T](10, 3), gad[T](5, 1), gad[T](16, 4), gad[T](4, 2)}
}

// fft noise: products of a b-bit word with binary polynomials of degree N.
func c01tol[T TI](p tfhe.Parameters[T]) uint64 {
	return noiseCap(p.GLWEStdDevQ()) + noiseCap(p.LWEStdDevQ())
}

// glevPhases checks level by level that the GLev encrypts c times the gadget factors.
func checkGLev[T TI](x *X, what string, v []tfhe.GLWECiphertext[T], sk []poly.Poly[T], g tfhe.GadgetParameters[T], c []T, tol uint64) {
	x.Assert(len(v) == g.Level(), "%s: %d levels", what, len(v))
	for l := range v {
		checkPhase(x, what, glwePhase(v[l].Value, sk), nScale(c, T(1)<<(bitsOf[T]()-(l+1)*g.LogBase())), tol)
	}
}

func c01[T TI](x *X) {
	s := core.OneOf(x, "shape", c01shapes)
	format := x.Choose(9, "format")
	form := x.Choose(5, "entry")
	gi := 0
	if format == 2 || format == 3 || format >= 5 && format != 6 {
		gi = x.Choose(4, "gadget")
	}
	pat := x.Choose(x.Pick(5, 8), "message")
	variant := x.Choose(5, "history")
	e := env[T](s)
	P := e.P
	enc := e.enc()
	switch variant {
	case 2: // two encryptions before
		enc.EncryptGLWE([]int{1, 1, 1})
		enc.EncryptGGSW([]int{1, 1, 1}, P.BlindRotateParams())
	case 3:
		enc = enc.SafeCopy()
	case 4:
		enc = tfhe.NewEncryptorWithKey(P, e.SK.Copy())
	}
	reuse := variant >= 1
	N, pm := P.PolyRank(), s.msg
	g := c01gads[T]()[gi].Compile()
	tol := c01tol(P)
	var gm []int
	lmIn := []int{0, 1, 3, 2, -7, 15, -1, 1<<33 + 9}[pat]
	lm := mod(lmIn, pm)
	switch {
	case pat < 4:
		gm = msgPatterns[pat]
	case pat == 4:
		gm = make([]int, N)
		for i := range gm {
			gm[i] = i * (1 - i%3)
		}
	case pat == 5:
		gm = make([]int, N+5)
		for i := range gm {
			gm[i] = pm - 1
		}
	case pat == 6:
		gm = make([]int, N-1)
		gm[N-2] = 1
	default:
		gm = make([]int, N)
		for i := range gm {
			gm[i] = (i*i*7)%31 - 1<<40
		}
	}
	scale := P.Scale()
	encRef := func(m int) T { return T(mod(m, pm)) * scale }
	lpt := tfhe.LWEPlaintext[T]{Value: encRef(lm)}
	gpt := tfhe.NewGLWEPlaintext(P)
	raw := poly.NewPoly[T](N)
	for i := 0; i < N && i < len(gm); i++ {
		gpt.Value.Coeffs[i] = encRef(gm[i])
		raw.Coeffs[i] = T(mod(gm[i], pm))
	}
	wm := wantMsgs(gm, N, pm)
	sk := e.SK.GLWEKey.Value
	skh, pth := snap(e.SK), snap(gpt, lpt, raw, gm)
	lkey := e.defKey()
	ftol := tol + fftTol[T]()
	mk := func(o any) {
		if reuse {
			dirty(o, uint64(17+form))
		}
	}
	short := make([]int, N/2) // DecryptTo into a short and a long slice
	long := make([]int, N+3)
	dirty(long, 5)
	tail := append([]int{}, long[N:]...)
	checkTo := func(what string, f func(out []int)) {
		f(short)
		f(long)
		x.Assert(eqInts(short, wm[:N/2]) && eqInts(long[:N], wm) && eqInts(long[N:], tail), "%s: decrypting to a slice gives %v / %v, want %v", what, short, long, wm)
	}
	checkPoly := func(what string, got poly.Poly[T], want poly.Poly[T]) {
		x.Assert(got.Equals(want), "%s: decrypts to %v, want %v", what, got.Coeffs, want.Coeffs)
	}
	outP := poly.NewPoly[T](N)
	mk(outP)
	switch format {
	case 0: // LWE
		ct := tfhe.NewLWECiphertext(P)
		mk(ct)
		switch form {
		case 0:
			ct = enc.EncryptLWE(lmIn)
		case 1:
			enc.EncryptLWETo(ct, lmIn)
		case 2:
			ct = enc.EncryptLWEPlaintext(lpt)
		case 3:
			enc.EncryptLWEPlaintextTo(ct, lpt)
		case 4:
			ct.Value[0] = lpt.Value
			enc.EncryptLWEBody(ct)
		}
		h := snap(ct)
		checkPhase(x, "LWE", []T{lwePhase(ct.Value, lkey)}, []T{lpt.Value}, tol)
		x.Assert(enc.DecryptLWEPhase(ct).Value == lwePhase(ct.Value, lkey), "DecryptLWEPhase")
		x.Assert(enc.DecryptLWE(ct) == lm, "LWE decrypts to %d, want %d", enc.DecryptLWE(ct), lm)
		x.Assert(snap(ct) == h, "decryption modified the ciphertext")
		nz := 0
		for _, v := range ct.Value[1:] {
			if v != 0 {
				nz++
			}
		}
		x.Assert(nz > len(ct.Value)/2, "LWE mask is mostly zero")
	case 1: // binary
		b := pat&1 == 1
		be := tfhe.NewBinaryEncryptorWithKey(P, e.SK)
		if variant == 3 {
			be = be.SafeCopy()
		}
		ct := tfhe.NewLWECiphertext(P)
		mk(ct)
		if form&1 == 0 {
			ct = be.EncryptLWEBool(b)
		} else {
			be.EncryptLWEBoolTo(ct, b)
		}
		want := T(7) << (bitsOf[T]() - 3)
		if b {
			want = T(1) << (bitsOf[T]() - 3)
		}
		checkPhase(x, "bool", []T{lwePhase(ct.Value, lkey)}, []T{want}, tol)
		x.Assert(be.DecryptLWEBool(ct) == b, "bool decrypts wrongly")
		nb := 1 + form
		v := []int{0, 1, 3, 13, 31, 0x5a, 0x7f, 21}[pat]
		if form < 3 {
			x.Assert(be.DecryptLWEBits(be.EncryptLWEBits(v, nb)) == v&(1<<nb-1), "bits")
		} else {
			cts := make([]tfhe.LWECiphertext[T], nb)
			for i := range cts {
				cts[i] = tfhe.NewLWECiphertext(P)
				mk(cts[i])
			}
			be.EncryptLWEBitsTo(cts, v)
			x.Assert(be.DecryptLWEBits(cts) == v&(1<<nb-1), "bits")
			for i := range cts {
				x.Assert(be.DecryptLWEBool(cts[i]) == (v>>i&1 == 1), "bit %d", i)
			}
		}
	case 2: // Lev
		ct := tfhe.NewLevCiphertext(P, g)
		mk(ct.Value)
		switch form {
		case 0:
			ct = enc.EncryptLev(lmIn, g)
		case 1:
			enc.EncryptLevTo(ct, lmIn)
		case 2:
			ct = enc.EncryptLevScalar(T(lm), g)
		default:
			enc.EncryptLevScalarTo(ct, T(lm))
		}
		for l := range ct.Value {
			checkPhase(x, "Lev", []T{lwePhase(ct.Value[l].Value, lkey)}, []T{T(lm) << (bitsOf[T]() - (l+1)*g.LogBase())}, tol)
		}
		x.Assert(len(ct.Value) == g.Level() && ct.GadgetParams == g, "Lev shape")
		x.Assert(enc.DecryptLev(ct) == lm && enc.DecryptLevScalar(ct) == T(lm), "Lev decrypts to %d, want %d", enc.DecryptLev(ct), lm)
	case 3: // GSW
		ct := tfhe.NewGSWCiphertext(P, g)
		mk(ct.Value)
		switch form {
		case 0:
			ct = enc.EncryptGSW(lmIn, g)
		case 1:
			enc.EncryptGSWTo(ct, lmIn)
		case 2:
			ct = enc.EncryptGSWScalar(T(lm), g)
		default:
			enc.EncryptGSWScalarTo(ct, T(lm))
		}
		x.Assert(len(ct.Value) == len(lkey)+1 && ct.GadgetParams == g, "GSW shape")
		for i := range ct.Value {
			f := T(lm)
			if i > 0 {
				f *= lkey[i-1]
			}
			for l := range ct.Value[i].Value {
				checkPhase(x, "GSW", []T{lwePhase(ct.Value[i].Value[l].Value, lkey)}, []T{f << (bitsOf[T]() - (l+1)*g.LogBase())}, tol)
			}
		}
		x.Assert(enc.DecryptGSW(ct) == lm && enc.DecryptGSWScalar(ct) == T(lm), "GSW decrypts to %d, want %d", enc.DecryptGSW(ct), lm)
	case 4: // GLWE
		ct := tfhe.NewGLWECiphertext(P)
		mk(ct)
		switch form {
		case 0:
			ct = enc.EncryptGLWE(gm)
		case 1:
			enc.EncryptGLWETo(ct, gm)
		case 2:
			ct = enc.EncryptGLWEPlaintext(gpt)
		case 3:
			enc.EncryptGLWEPlaintextTo(ct, gpt)
		case 4:
			ct.Value[0].CopyFrom(gpt.Value)
			enc.EncryptGLWEBody(ct)
		}
		h := snap(ct)
		checkPhase(x, "GLWE", glwePhase(ct.Value, sk), gpt.Value.Coeffs, tol)
		ph := tfhe.NewGLWEPlaintext(P)
		mk(ph)
		enc.DecryptGLWEPhaseTo(ph, ct)
		checkPhase(x, "DecryptGLWEPhaseTo", ph.Value.Coeffs, glwePhase(ct.Value, sk), 0)
		checkPhase(x, "DecryptGLWEPhase", enc.DecryptGLWEPhase(ct).Value.Coeffs, glwePhase(ct.Value, sk), 0)
		x.Assert(eqInts(enc.DecryptGLWE(ct), wm), "GLWE decrypts to %v, want %v", enc.DecryptGLWE(ct), wm)
		checkTo("GLWE", func(o []int) { enc.DecryptGLWETo(o, ct) })
		x.Assert(snap(ct) == h, "decryption modified the ciphertext")
	case 5: // GLev
		ct := tfhe.NewGLevCiphertext(P, g)
		mk(ct.Value)
		switch form {
		case 0:
			ct = enc.EncryptGLev(gm, g)
		case 1:
			enc.EncryptGLevTo(ct, gm)
		case 2:
			ct = enc.EncryptGLevPoly(raw, g)
		default:
			enc.EncryptGLevPolyTo(ct, raw)
		}
		h := snap(ct)
		checkGLev(x, "GLev", ct.Value, sk, g, raw.Coeffs, tol)
		checkPoly("GLev", enc.DecryptGLevPoly(ct), raw)
		enc.DecryptGLevPolyTo(outP, ct)
		checkPoly("GLev", outP, raw)
		x.Assert(eqInts(enc.DecryptGLev(ct), wm), "GLev decrypts to %v, want %v", enc.DecryptGLev(ct), wm)
		checkTo("GLev", func(o []int) { enc.DecryptGLevTo(o, ct) })
		fc := enc.FwdFFTGLevCiphertext(ct)
		checkPoly("GLev via Fourier", enc.DecryptFFTGLevPoly(fc), raw)
		x.Assert(snap(ct) == h, "decryption modified the ciphertext")
	case 6: // FFTGLWE
		ct := tfhe.NewFFTGLWECiphertext(P)
		mk(ct)
		switch form {
		case 0:
			ct = enc.EncryptFFTGLWE(gm)
		case 1:
			enc.EncryptFFTGLWETo(ct, gm)
		case 2:
			ct = enc.EncryptFFTGLWEPlaintext(gpt)
		case 3:
			enc.EncryptFFTGLWEPlaintextTo(ct, gpt)
		case 4:
			c := tfhe.NewGLWECiphertext(P)
			c.Value[0].CopyFrom(gpt.Value)
			enc.EncryptGLWEBody(c)
			enc.FwdFFTGLWECiphertextTo(ct, c)
		}
		h := snap(ct)
		checkPhase(x, "FFTGLWE", glwePhase(enc.InvFFTGLWECiphertext(ct).Value, sk), gpt.Value.Coeffs, ftol)
		ph := tfhe.NewGLWEPlaintext(P)
		mk(ph)
		enc.DecryptFFTGLWEPhaseTo(ph, ct)
		checkPhase(x, "DecryptFFTGLWEPhaseTo", ph.Value.Coeffs, gpt.Value.Coeffs, ftol)
		checkPhase(x, "DecryptFFTGLWEPhase", enc.DecryptFFTGLWEPhase(ct).Value.Coeffs, gpt.Value.Coeffs, ftol)
		x.Assert(eqInts(enc.DecryptFFTGLWE(ct), wm), "FFTGLWE decrypts to %v, want %v", enc.DecryptFFTGLWE(ct), wm)
		checkTo("FFTGLWE", func(o []int) { enc.DecryptFFTGLWETo(o, ct) })
		x.Assert(snap(ct) == h, "decryption modified the ciphertext")
	case 7: // FFTGLev, and GGSW
		if form == 4 {
			ct := tfhe.NewGGSWCiphertext(P, g)
			mk(ct.Value)
			switch variant {
			case 0:
				ct = enc.EncryptGGSW(gm, g)
			case 1:
				enc.EncryptGGSWTo(ct, gm)
			case 2:
				ct = enc.EncryptGGSWPoly(raw, g)
			default:
				enc.EncryptGGSWPolyTo(ct, raw)
			}
			checkGGSW(x, "GGSW", ct, sk, g, raw.Coeffs, tol)
			checkPoly("GGSW", enc.DecryptGGSWPoly(ct), raw)
			enc.DecryptGGSWPolyTo(outP, ct)
			checkPoly("GGSW", outP, raw)
			x.Assert(eqInts(enc.DecryptGGSW(ct), wm), "GGSW decrypts to %v, want %v", enc.DecryptGGSW(ct), wm)
			checkTo("GGSW", func(o []int) { enc.DecryptGGSWTo(o, ct) })
			break
		}
		ct := tfhe.NewFFTGLevCiphertext(P, g)
		mk(ct.Value)
		switch form {
		case 0:
			ct = enc.EncryptFFTGLev(gm, g)
		case 1:
			enc.EncryptFFTGLevTo(ct, gm)
		case 2:
			ct = enc.EncryptFFTGLevPoly(raw, g)
		case 3:
			enc.EncryptFFTGLevPolyTo(ct, raw)
		}
		checkGLev(x, "FFTGLev", enc.InvFFTGLevCiphertext(ct).Value, sk, g, raw.Coeffs, ftol)
		checkPoly("FFTGLev", enc.DecryptFFTGLevPoly(ct), raw)
		enc.DecryptFFTGLevPolyTo(outP, ct)
		checkPoly("FFTGLev", outP, raw)
		x.Assert(eqInts(enc.DecryptFFTGLev(ct), wm), "FFTGLev decrypts to %v, want %v", enc.DecryptFFTGLev(ct), wm)
		checkTo("FFTGLev", func(o []int) { enc.DecryptFFTGLevTo(o, ct) })
	case 8: // FFTGGSW
		ct := tfhe.NewFFTGGSWCiphertext(P, g)
		mk(ct.Value)
		switch form {
		case 0:
			ct = enc.EncryptFFTGGSW(gm, g)
		case 1:
			enc.EncryptFFTGGSWTo(ct, gm)
		case 2:
			ct = enc.EncryptFFTGGSWPoly(raw, g)
		default:
			enc.EncryptFFTGGSWPolyTo(ct, raw)
		}
		checkGGSW(x, "FFTGGSW", enc.InvFFTGGSWCiphertext(ct), sk, g, raw.Coeffs, ftol)
		checkPoly("FFTGGSW", enc.DecryptFFTGGSWPoly(ct), raw)
		enc.DecryptFFTGGSWPolyTo(ct, outP)
		checkPoly("FFTGGSW", outP, raw)
		x.Assert(eqInts(enc.DecryptFFTGGSW(ct), wm), "FFTGGSW decrypts to %v, want %v", enc.DecryptFFTGGSW(ct), wm)
		checkTo("FFTGGSW", func(o []int) { enc.DecryptFFTGGSWTo(ct, o) })
	}
	x.Assert(snap(e.SK) == skh && snap(gpt, lpt, raw, gm) == pth, "an argument or the key was modified")
	x.Step(2)
	x.State(s.String(), format, form, gi, pat, variant)
}

func checkGGSW[T TI](x *X, what string, ct tfhe.GGSWCiphertext[T], sk []poly.Poly[T], g tfhe.GadgetParameters[T], c []T, tol uint64) {
	x.Assert(len(ct.Value) == len(sk)+1 && ct.GadgetParams == g, "%s shape", what)
	for i := range ct.Value {
		v := c
		if i > 0 {
			v = nMul(c, sk[i-1].Coeffs)
		}
		checkGLev(x, what, ct.Value[i].Value, sk, g, v, tol)
	}
}

func init() {
	b := "5 parameter shapes (ranks 1-3, degrees 16-64, block sizes, orders, moduli 2-16 incl. non powers of two) x 9 formats x 5 entry points x 4 gadgets x 5 (thorough 8) message patterns x 5 encryptor/output histories"
	core.Register(core.Harness{Prop: "C01", Name: "formats-u64", Bound: b, Run: c01[uint64]})
	core.Register(core.Harness{Prop: "C01", Name: "formats-u32", Bound: b, Run: c01[uint32]})
}
