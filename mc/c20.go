package main

import (
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

func fftTol[T TI]() uint64 {
	if bitsOf[T]() == 32 {
		return 1 << 6
	}
	return 1 << 26
}

// checkPhase compares phase coefficients with an encoded plaintext within tol.
func checkPhase[T TI](x *X, what string, phase, want []T, tol uint64) {
	if d := maxDist(phase, want); d > tol {
		x.Fail("%s: phase %v, want %v within %d (error %d)", what, phase, want, tol, d)
	}
}

func encodeRef[T TI](p tfhe.Parameters[T], N int, msgs []int) []T {
	r := make([]T, N)
	scale := T(1) << (bitsOf[T]() - 1) / p.MessageModulus()
	for i := range r {
		if i < len(msgs) {
			r[i] = T(mod(msgs[i], int(p.MessageModulus()))) * scale
		}
	}
	return r
}

func wantMsgs(m []int, N, p int) []int {
	r := make([]int, N)
	for i := range r {
		if i < len(m) {
			r[i] = mod(m[i], p)
		}
	}
	return r
}

var c20shapes = []shape{
	{n: 8, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4},
	{n: 8, k: 2, N: 16, lut: 16, block: 2, order: ksbr, msg: 4},
	{n: 8, k: 3, N: 32, lut: 32, block: 1, order: ksbr, msg: 8},
}

var msgPatterns = [][]int{
	{}, {1}, {3, 0, 1, 2, 3},
	{0, 1, 2, 3, 3, 2, 1, 0, 1, 1, 1, 1, 3, 3, 3, 3, 0, 1, 2, 3, 3, 2, 1, 0, 1, 1, 1, 1, 3, 3, 3, 3, 2, 2, 2, 2},
}

type pkEnv[T TI] struct {
	*tenv[T]
	PK   tfhe.PublicKey[T]
	snap uint64
}

func c20single[T TI](x *X) {
	s := core.OneOf(x, "shape", c20shapes)
	if !x.Thorough() && bitsOf[T]() == 32 && s.k == 3 {
		s = c20shapes[1]
	}
	depth := x.Pick(2, 3)
	type st struct {
		op, msg int
		reuse   bool
	}
	var plan []st
	for i := 0; i < depth; i++ {
		p := st{op: x.Choose(11, "op")}
		if p.op < 9 {
			p.reuse = x.Bool("reuse")
		}
		if p.op < 3 || p.op > 8 {
			p.msg = x.Choose(2, "msg")
		} else {
			p.msg = x.Choose(x.Pick(2, 4), "msg")
			if !x.Thorough() {
				p.msg += 2
			}
		}
		plan = append(plan, p)
	}
	e := core.Memo("pk:"+tname[T]()+s.String(), func() *pkEnv[T] {
		b := env[T](s)
		r := &pkEnv[T]{tenv: b, PK: b.enc().GenPublicKey()}
		r.snap = snap(r.PK)
		return r
	})
	P := e.P
	pe := tfhe.NewPublicEncryptor(P, e.PK)
	if x.Bool("copy") {
		pe = pe.SafeCopy()
	}
	be := tfhe.NewBinaryPublicEncryptor(P, e.PK)
	dec := e.enc()
	bdec := tfhe.NewBinaryEncryptorWithKey(P, e.SK)
	tol := uint64(2000 * P.GLWEStdDevQ() * float64(P.GLWEDimension()))
	ctL := tfhe.NewLWECiphertext(P)
	dirty(ctL, 3)
	ctG := tfhe.NewGLWECiphertext(P)
	dirty(ctG, 5)
	ctF := tfhe.NewFFTGLWECiphertext(P)
	dirty(ctF, 7)
	ctBits := make([]tfhe.LWECiphertext[T], 3)
	for i := range ctBits {
		ctBits[i] = tfhe.NewLWECiphertext(P)
		dirty(ctBits[i], 9)
	}
	N, pm := P.PolyRank(), int(P.MessageModulus())
	for _, p := range plan {
		var cl tfhe.LWECiphertext[T]
		var cg tfhe.GLWECiphertext[T]
		var cf tfhe.FFTGLWECiphertext[T]
		lm := []int{1, 3}[p.msg%2]
		gm := msgPatterns[p.msg]
		lpt := tfhe.LWEPlaintext[T]{Value: encodeRef(P, 1, []int{lm})[0]}
		gpt := tfhe.NewGLWEPlaintext(P)
		copy(gpt.Value.Coeffs, encodeRef(P, N, gm))
		cl, cg, cf = ctL, ctG, ctF
		if !p.reuse {
			cl, cg, cf = tfhe.NewLWECiphertext(P), tfhe.NewGLWECiphertext(P), tfhe.NewFFTGLWECiphertext(P)
		}
		switch p.op {
		case 0:
			if p.reuse {
				pe.EncryptLWETo(cl, lm)
			} else {
				cl = pe.EncryptLWE(lm)
			}
		case 1:
			if p.reuse {
				pe.EncryptLWEPlaintextTo(cl, lpt)
			} else {
				cl = pe.EncryptLWEPlaintext(lpt)
			}
		case 2:
			cl.Value[0] = lpt.Value
			pe.EncryptLWEBody(cl)
		case 3:
			if p.reuse {
				pe.EncryptGLWETo(cg, gm)
			} else {
				cg = pe.EncryptGLWE(gm)
			}
		case 4:
			if p.reuse {
				pe.EncryptGLWEPlaintextTo(cg, gpt)
			} else {
				cg = pe.EncryptGLWEPlaintext(gpt)
			}
		case 5:
			cg.Value[0].CopyFrom(gpt.Value)
			pe.EncryptGLWEBody(cg)
		case 6:
			if p.reuse {
				pe.EncryptFFTGLWETo(cf, gm)
			} else {
				cf = pe.EncryptFFTGLWE(gm)
			}
		case 7:
			if p.reuse {
				pe.EncryptFFTGLWEPlaintextTo(cf, gpt)
			} else {
				cf = pe.EncryptFFTGLWEPlaintext(gpt)
			}
		case 8:
			pe.SafeCopy().EncryptFFTGLWETo(cf, gm)
		case 9:
			b := p.msg == 1
			c := be.EncryptLWEBool(b)
			x.Assert(bdec.DecryptLWEBool(c) == b, "public bool %v", b)
			be.EncryptLWEBoolTo(ctL, b)
			x.Assert(bdec.DecryptLWEBool(ctL) == b, "public bool into a used ciphertext %v", b)
		case 10:
			v := []int{5, 2}[p.msg%2]
			x.Assert(bdec.DecryptLWEBits(be.EncryptLWEBits(v, 4)) == v, "public bits %d", v)
			be.EncryptLWEBitsTo(ctBits, v)
			x.Assert(bdec.DecryptLWEBits(ctBits) == v, "public bits into used ciphertexts %d", v)
		}
		switch {
		case p.op < 3:
			checkPhase(x, "public LWE", []T{lwePhase(cl.Value, e.SK.LWELargeKey.Value)}, []T{lpt.Value}, tol)
			x.Assert(dec.DecryptLWE(cl) == lm%pm, "public LWE decrypts to %d, want %d", dec.DecryptLWE(cl), lm)
		case p.op < 6:
			checkPhase(x, "public GLWE", glwePhase(cg.Value, e.SK.GLWEKey.Value), gpt.Value.Coeffs, tol)
			x.Assert(eqInts(dec.DecryptGLWE(cg), wantMsgs(gm, N, pm)), "public GLWE decrypts to %v, want %v", dec.DecryptGLWE(cg), gm)
		case p.op < 9:
			checkPhase(x, "public FFTGLWE", dec.DecryptFFTGLWEPhase(cf).Value.Coeffs, gpt.Value.Coeffs, tol+fftTol[T]())
			x.Assert(eqInts(dec.DecryptFFTGLWE(cf), wantMsgs(gm, N, pm)), "public FFTGLWE decrypts to %v, want %v", dec.DecryptFFTGLWE(cf), gm)
		}
		x.Step(1)
		x.State(s.String(), p.op, p.msg, p.reuse)
	}
	x.Assert(snap(e.PK) == e.snap, "public key changed")
	x.Observe("ok")
}

func c20multi[T TI](x *X) {
	idx := x.Choose(3, "party")
	depth := x.Pick(2, 3)
	type st struct{ op, m int }
	var plan []st
	for i := 0; i < depth; i++ {
		plan = append(plan, st{x.Choose(8, "op"), x.Choose(2, "msg")})
	}
	e := mkenv[T](mkShape{n: 6, N: 16, block: 2, parties: 3, order: ksbr, msg: 4})
	pk := core.Memo("mkpk:"+tname[T](), func() []tfhe.PublicKey[T] {
		var r []tfhe.PublicKey[T]
		for i := range e.SK {
			r = append(r, e.enc(i).GenPublicKey())
		}
		return r
	})
	h := snap(pk)
	P := e.P
	pe := mktfhe.NewPublicEncryptor(P, idx, pk[idx])
	be := mktfhe.NewBinaryPublicEncryptor(P, idx, pk[idx])
	dec := e.dec(0, 1, 2)
	bdec := mktfhe.NewBinaryDecryptor(P, e.skMap(0, 1, 2))
	N := P.PolyRank()
	cl, cg, cf := mktfhe.NewLWECiphertext(P), mktfhe.NewGLWECiphertext(P), mktfhe.NewFFTGLWECiphertext(P)
	dirty(cl, 1)
	dirty(cg, 2)
	dirty(cf, 3)
	for _, p := range plan {
		lm := []int{1, 3}[p.m]
		gm := msgPatterns[2+p.m]
		switch p.op {
		case 0:
			x.Assert(dec.DecryptLWE(pe.EncryptLWE(lm)) == lm, "multi-key public LWE")
		case 1:
			pe.EncryptLWETo(cl, lm)
			x.Assert(dec.DecryptLWE(cl) == lm, "multi-key public LWE into a used ciphertext")
			for j := 0; j < 3; j++ {
				if j != idx {
					for _, v := range cl.Value[1+j*N : 1+(j+1)*N] {
						x.Assert(v == 0, "mask of another party is not zero")
					}
				}
			}
		case 2:
			x.Assert(eqInts(dec.DecryptGLWE(pe.EncryptGLWE(gm)), wantMsgs(gm, N, 4)), "multi-key public GLWE")
		case 3:
			pe.EncryptGLWETo(cg, gm)
			x.Assert(eqInts(dec.DecryptGLWE(cg), wantMsgs(gm, N, 4)), "multi-key public GLWE into a used ciphertext")
		case 4:
			x.Assert(eqInts(dec.DecryptFFTGLWE(pe.EncryptFFTGLWE(gm)), wantMsgs(gm, N, 4)), "multi-key public FFTGLWE")
		case 5:
			pe.EncryptFFTGLWETo(cf, gm)
			x.Assert(eqInts(dec.DecryptFFTGLWE(cf), wantMsgs(gm, N, 4)), "multi-key public FFTGLWE into a used ciphertext")
		case 6:
			b := p.m == 1
			x.Assert(bdec.DecryptLWEBool(be.EncryptLWEBool(b)) == b, "multi-key public bool")
			x.Assert(bdec.DecryptLWEBits(be.EncryptLWEBits(lm, 3)) == lm, "multi-key public bits")
			be.EncryptLWEBoolTo(cl, b)
			x.Assert(bdec.DecryptLWEBool(cl) == b, "multi-key public bool into a used ciphertext")
		case 7:
			q := pe.SafeCopy()
			x.Assert(dec.DecryptLWE(q.EncryptLWE(lm)) == lm && dec.DecryptLWE(pe.EncryptLWE(lm)) == lm, "safe copy of a multi-key public encryptor")
		}
		x.Step(1)
		x.State("mk", idx, p.op, p.m)
	}
	x.Assert(snap(pk) == h, "public key changed")
}

func init() {
	core.Register(core.Harness{Prop: "C20", Name: "single-u64", Bound: "all sequences of <=2 (thorough 3) public encryptions over 11 entry points x output {fresh, reused junk} x message, ranks 1-3", Run: c20single[uint64]})
	core.Register(core.Harness{Prop: "C20", Name: "single-u32", Bound: "as single-u64", Run: c20single[uint32]})
	core.Register(core.Harness{Prop: "C20", Name: "multi-u64", Bound: "3 parties, all sequences of <=2 (3) public encryptions over 8 entry points", Shards: 2, Run: c20multi[uint64]})
	core.Register(core.Harness{Prop: "C20", Name: "multi-u32", Bound: "as multi-u64", Shards: 2, Run: c20multi[uint32]})
}
