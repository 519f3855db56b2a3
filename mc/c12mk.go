package main

import (
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// c12mkExtract: sample extraction of multi-key ciphertexts, every index, exactly, under arbitrary joint keys.
func c12mkExtract[T TI](x *X) {
	k := 1 + x.Choose(4, "parties")
	N := []int{16, 32, 64, 128}[x.Choose(x.Pick(3, 4), "N")]
	pat := x.Choose(3, "pattern")
	kk := x.Choose(4, "key")
	idx := x.Choose(N, "index")
	v := ctPat[T](k, N, pat, 3)
	ct := mktfhe.NewGLWECiphertextCustom[T](k, N)
	x.Assert(len(ct.Value) == k+1, "%d components for %d parties", len(ct.Value), k)
	for i := range v {
		copy(ct.Value[i].Coeffs, v[i])
	}
	flat := anyKey[T](k*N, kk&3)
	s := make([]poly.Poly[T], k)
	for i := range s {
		s[i] = poly.From(flat[i*N:(i+1)*N], N)
	}
	want := glwePhase(ct.Value, s)[idx]
	a := ct.AsLWECiphertext(idx)
	b := mktfhe.LWECiphertext[T]{Value: ctPat[T](0, k*N+1, 0, 5)[0]}
	ct.AsLWECiphertextTo(b, idx)
	x.Assert(len(a.Value) == k*N+1 && lwePhase(a.Value, flat) == want, "multi-key AsLWECiphertext(%d), %d parties N %d: phase %d, want %d", idx, k, N, lwePhase(a.Value, flat), want)
	x.Assert(eqT(a.Value, b.Value), "multi-key AsLWECiphertextTo(%d) differs", idx)
	for i := range v {
		x.Assert(eqT(ct.Value[i].Coeffs, v[i]), "extraction modified the ciphertext")
	}
	h := snap(ct)
	dirty(&a, 1)
	x.Assert(snap(ct) == h, "extraction aliases its input")
	x.Step(2)
	x.State(tname[T](), "mkextract", k, N, pat, kk, idx)
}

// c21conv: conversions between the standard and the Fourier multi-key containers.
func c21conv[T TI](x *X) {
	k := 1 + x.Choose(4, "parties")
	N := []int{16, 32, 64, 128}[x.Choose(4, "N")]
	pat := x.Choose(3, "pattern")
	level := 1 + x.Choose(3, "level")
	safe := x.Bool("safe copy")
	tr := mktfhe.NewGLWETransformer[T](N)
	if safe {
		tr = tr.SafeCopy()
	}
	v := ctPat[T](k, N, pat, 3)
	ct := mktfhe.NewGLWECiphertextCustom[T](k, N)
	for i := range v {
		copy(ct.Value[i].Coeffs, v[i])
	}
	tol := fftTol[T]()
	near := func(what string, a, b []poly.Poly[T]) {
		x.Assert(len(a) == len(b), "%s: %d components, want %d", what, len(a), len(b))
		for i := range a {
			if d := maxDist(a[i].Coeffs, b[i].Coeffs); d > tol {
				x.Fail("%s: component %d off by %d", what, i, d)
			}
		}
	}
	h := snap(ct)
	f := tr.FwdFFTGLWECiphertext(ct)
	f2 := mktfhe.NewFFTGLWECiphertextCustom[T](k, N)
	dirty(&f2, 3)
	tr.FwdFFTGLWECiphertextTo(f2, ct)
	x.Assert(snap(f) == snap(f2), "FwdFFTGLWECiphertextTo differs from FwdFFTGLWECiphertext")
	hf := snap(f)
	g := tr.InvGLWECiphertext(f)
	g2 := mktfhe.NewGLWECiphertextCustom[T](k, N)
	dirty(&g2, 4)
	tr.InvGLWECiphertextTo(g2, f)
	near("InvGLWECiphertext", g.Value, ct.Value)
	near("InvGLWECiphertextTo", g2.Value, ct.Value)
	x.Assert(snap(ct) == h && snap(f) == hf, "a conversion modified its input")

	gp := gad[T](4, level).Compile()
	u := mktfhe.NewUniEncryptionCustom(N, gp)
	dirty(&u, uint64(9+pat))
	u.GadgetParams = gp
	for i := range u.Value {
		u.Value[i].GadgetParams = gp
	}
	h = snap(u)
	fu := tr.FwdFFTUniEncryption(u)
	fu2 := mktfhe.NewFFTUniEncryptionCustom(N, gp)
	dirtyFFTUni(&fu2, gp)
	tr.FwdFFTUniEncryptionTo(fu2, u)
	x.Assert(snap(fu) == snap(fu2), "FwdFFTUniEncryptionTo differs from FwdFFTUniEncryption")
	hf = snap(fu)
	iu := tr.InvFFTUniEncryption(fu)
	iu2 := mktfhe.NewUniEncryptionCustom(N, gp)
	dirty(&iu2, 5)
	iu2.GadgetParams = gp
	for i := range iu2.Value {
		iu2.Value[i].GadgetParams = gp
	}
	tr.InvFFTUniEncryptionTo(iu2, fu)
	for _, w := range []mktfhe.UniEncryption[T]{iu, iu2} {
		x.Assert(w.GadgetParams == gp, "gadget parameters of a converted uni-encryption: %v", w.GadgetParams)
		for i := range u.Value {
			for j := range u.Value[i].Value {
				near("uni-encryption", w.Value[i].Value[j].Value, u.Value[i].Value[j].Value)
			}
		}
	}
	x.Assert(snap(u) == h && snap(fu) == hf, "a uni-encryption conversion modified its input")
	x.Step(8)
	x.State(tname[T](), "mkconv", k, N, pat, level, safe)
}

func dirtyFFTUni[T TI](f *mktfhe.FFTUniEncryption[T], gp tfhe.GadgetParameters[T]) {
	dirty(f, 5)
	f.GadgetParams = gp
	for i := range f.Value {
		f.Value[i].GadgetParams = gp
	}
}

func init() {
	two := func(f32, f64 func(*X)) func(*X) {
		return func(x *X) {
			if x.Bool("64") {
				f64(x)
			} else {
				f32(x)
			}
		}
	}
	for _, p := range []string{"C12", "C21"} {
		core.Register(core.Harness{Prop: p, Name: "multi-extract", Shards: 2, Bound: "multi-key extraction: every index x 1-4 parties x N 16,32,64 (128) x 3 ciphertext patterns x 4 joint keys x 2 widths", Run: two(c12mkExtract[uint32], c12mkExtract[uint64])})
	}
	for _, p := range []string{"C10", "C21"} {
		core.Register(core.Harness{Prop: p, Name: "multi-convert", Shards: 1, Bound: "multi-key conversions to and from the Fourier domain: 1-4 parties x N 16..128 x 3 patterns x gadget levels 1-3 x 2 widths", Run: two(c21conv[uint32], c21conv[uint64])})
	}
}
