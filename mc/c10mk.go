package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// c10ring is what the single-key and the multi-key evaluator both promise: the same operations on
// ciphertexts of k+1 components (k = GLWE rank, or the number of parties).
type c10ring[T TI] interface {
	polyEv() *poly.Evaluator[T]
	dup() c10ring[T]
	AddFFTGLWE(ct0 tfhe.FFTGLWECiphertext[T], ct1 tfhe.FFTGLWECiphertext[T]) tfhe.FFTGLWECiphertext[T]
	AddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct0 tfhe.FFTGLWECiphertext[T], ct1 tfhe.FFTGLWECiphertext[T])
	AddGLWE(ct0 tfhe.GLWECiphertext[T], ct1 tfhe.GLWECiphertext[T]) tfhe.GLWECiphertext[T]
	AddGLWETo(ctOut tfhe.GLWECiphertext[T], ct0 tfhe.GLWECiphertext[T], ct1 tfhe.GLWECiphertext[T])
	AddLWE(ct0 tfhe.LWECiphertext[T], ct1 tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
	AddLWETo(ctOut tfhe.LWECiphertext[T], ct0 tfhe.LWECiphertext[T], ct1 tfhe.LWECiphertext[T])
	AddPlainGLWE(ct tfhe.GLWECiphertext[T], pt tfhe.GLWEPlaintext[T]) tfhe.GLWECiphertext[T]
	AddPlainGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], pt tfhe.GLWEPlaintext[T])
	AddPlainLWE(ct tfhe.LWECiphertext[T], pt tfhe.LWEPlaintext[T]) tfhe.LWECiphertext[T]
	AddPlainLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T], pt tfhe.LWEPlaintext[T])
	CmplxMulAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c complex128)
	CmplxMulFFTGLWE(ct tfhe.FFTGLWECiphertext[T], c complex128) tfhe.FFTGLWECiphertext[T]
	CmplxMulFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c complex128)
	CmplxMulSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c complex128)
	FFTPolyMulAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], fp poly.FFTPoly)
	FFTPolyMulAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], fp poly.FFTPoly)
	FFTPolyMulFFTGLWE(ct tfhe.FFTGLWECiphertext[T], fp poly.FFTPoly) tfhe.FFTGLWECiphertext[T]
	FFTPolyMulFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], fp poly.FFTPoly)
	FFTPolyMulGLWE(ct tfhe.GLWECiphertext[T], fp poly.FFTPoly) tfhe.GLWECiphertext[T]
	FFTPolyMulGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], fp poly.FFTPoly)
	FFTPolyMulSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], fp poly.FFTPoly)
	FFTPolyMulSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], fp poly.FFTPoly)
	FloatMulAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c float64)
	FloatMulFFTGLWE(ct tfhe.FFTGLWECiphertext[T], c float64) tfhe.FFTGLWECiphertext[T]
	FloatMulFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c float64)
	FloatMulSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c float64)
	FwdFFTGLWECiphertext(ct tfhe.GLWECiphertext[T]) tfhe.FFTGLWECiphertext[T]
	FwdFFTGLWECiphertextTo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.GLWECiphertext[T])
	InvFFTGLWECiphertext(ct tfhe.FFTGLWECiphertext[T]) tfhe.GLWECiphertext[T]
	InvFFTGLWECiphertextTo(ctOut tfhe.GLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T])
	MonomialMulAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int)
	MonomialMulGLWE(ct tfhe.GLWECiphertext[T], d int) tfhe.GLWECiphertext[T]
	MonomialMulGLWEInPlace(ct tfhe.GLWECiphertext[T], d int)
	MonomialMulGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int)
	MonomialMulSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int)
	NegFFTGLWE(ct tfhe.FFTGLWECiphertext[T]) tfhe.FFTGLWECiphertext[T]
	NegFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T])
	NegGLWE(ct tfhe.GLWECiphertext[T]) tfhe.GLWECiphertext[T]
	NegGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T])
	NegLWE(ct tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
	NegLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T])
	PermuteAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], d int)
	PermuteAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int)
	PermuteFFTGLWE(ct tfhe.FFTGLWECiphertext[T], d int) tfhe.FFTGLWECiphertext[T]
	PermuteFFTGLWEInPlace(ct tfhe.FFTGLWECiphertext[T], d int)
	PermuteFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], d int)
	PermuteGLWE(ct tfhe.GLWECiphertext[T], d int) tfhe.GLWECiphertext[T]
	PermuteGLWEInPlace(ct tfhe.GLWECiphertext[T], d int)
	PermuteGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int)
	PermuteSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], d int)
	PermuteSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int)
	PolyMulAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], p poly.Poly[T])
	PolyMulAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], p poly.Poly[T])
	PolyMulFFTGLWE(ct tfhe.FFTGLWECiphertext[T], p poly.Poly[T]) tfhe.FFTGLWECiphertext[T]
	PolyMulFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], p poly.Poly[T])
	PolyMulGLWE(ct tfhe.GLWECiphertext[T], p poly.Poly[T]) tfhe.GLWECiphertext[T]
	PolyMulGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], p poly.Poly[T])
	PolyMulSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], p poly.Poly[T])
	PolyMulSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], p poly.Poly[T])
	ScalarMulAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], c T)
	ScalarMulAddLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T], c T)
	ScalarMulGLWE(ct tfhe.GLWECiphertext[T], c T) tfhe.GLWECiphertext[T]
	ScalarMulGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], c T)
	ScalarMulLWE(ct tfhe.LWECiphertext[T], c T) tfhe.LWECiphertext[T]
	ScalarMulLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T], c T)
	ScalarMulSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], c T)
	ScalarMulSubLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T], c T)
	SubFFTGLWE(ct0 tfhe.FFTGLWECiphertext[T], ct1 tfhe.FFTGLWECiphertext[T]) tfhe.FFTGLWECiphertext[T]
	SubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct0 tfhe.FFTGLWECiphertext[T], ct1 tfhe.FFTGLWECiphertext[T])
	SubGLWE(ct0 tfhe.GLWECiphertext[T], ct1 tfhe.GLWECiphertext[T]) tfhe.GLWECiphertext[T]
	SubGLWETo(ctOut tfhe.GLWECiphertext[T], ct0 tfhe.GLWECiphertext[T], ct1 tfhe.GLWECiphertext[T])
	SubLWE(ct0 tfhe.LWECiphertext[T], ct1 tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
	SubLWETo(ctOut tfhe.LWECiphertext[T], ct0 tfhe.LWECiphertext[T], ct1 tfhe.LWECiphertext[T])
	SubPlainGLWE(ct tfhe.GLWECiphertext[T], pt tfhe.GLWEPlaintext[T]) tfhe.GLWECiphertext[T]
	SubPlainGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], pt tfhe.GLWEPlaintext[T])
	SubPlainLWE(ct tfhe.LWECiphertext[T], pt tfhe.LWEPlaintext[T]) tfhe.LWECiphertext[T]
	SubPlainLWETo(ctOut tfhe.LWECiphertext[T], ct0 tfhe.LWECiphertext[T], pt tfhe.LWEPlaintext[T])
}

type c10sk[T TI] struct{ *tfhe.Evaluator[T] }

func (e c10sk[T]) polyEv() *poly.Evaluator[T] { return e.PolyEvaluator }
func (e c10sk[T]) dup() c10ring[T]            { return c10sk[T]{e.SafeCopy()} }

type c10mk[T TI] struct{ e *mktfhe.Evaluator[T] }

func (e c10mk[T]) polyEv() *poly.Evaluator[T] { return e.e.PolyEvaluator }
func (e c10mk[T]) dup() c10ring[T]            { return c10mk[T]{e.e.SafeCopy()} }

func c10mkev[T TI](k, N int) c10ring[T] {
	return core.Memo(fmt.Sprintf("c10mk:%s:%d:%d", tname[T](), k, N), func() c10ring[T] {
		p := mklit[T](mkShape{n: 4, N: N, block: 1, parties: k, order: ksbr, msg: 4}).Compile()
		return c10mk[T]{mktfhe.NewEvaluator(p, map[int]mktfhe.EvaluationKey[T]{})}
	})
}

func (e c10mk[T]) AddFFTGLWE(ct0 tfhe.FFTGLWECiphertext[T], ct1 tfhe.FFTGLWECiphertext[T]) tfhe.FFTGLWECiphertext[T] {
	return tfhe.FFTGLWECiphertext[T](e.e.AddFFTGLWE(mktfhe.FFTGLWECiphertext[T](ct0), mktfhe.FFTGLWECiphertext[T](ct1)))
}

func (e c10mk[T]) AddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct0 tfhe.FFTGLWECiphertext[T], ct1 tfhe.FFTGLWECiphertext[T]) {
	e.e.AddFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct0), mktfhe.FFTGLWECiphertext[T](ct1))
}

func (e c10mk[T]) AddGLWE(ct0 tfhe.GLWECiphertext[T], ct1 tfhe.GLWECiphertext[T]) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.AddGLWE(mktfhe.GLWECiphertext[T](ct0), mktfhe.GLWECiphertext[T](ct1)))
}

func (e c10mk[T]) AddGLWETo(ctOut tfhe.GLWECiphertext[T], ct0 tfhe.GLWECiphertext[T], ct1 tfhe.GLWECiphertext[T]) {
	e.e.AddGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct0), mktfhe.GLWECiphertext[T](ct1))
}

func (e c10mk[T]) AddLWE(ct0 tfhe.LWECiphertext[T], ct1 tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T](e.e.AddLWE(mktfhe.LWECiphertext[T](ct0), mktfhe.LWECiphertext[T](ct1)))
}

func (e c10mk[T]) AddLWETo(ctOut tfhe.LWECiphertext[T], ct0 tfhe.LWECiphertext[T], ct1 tfhe.LWECiphertext[T]) {
	e.e.AddLWETo(mktfhe.LWECiphertext[T](ctOut), mktfhe.LWECiphertext[T](ct0), mktfhe.LWECiphertext[T](ct1))
}

func (e c10mk[T]) AddPlainGLWE(ct tfhe.GLWECiphertext[T], pt tfhe.GLWEPlaintext[T]) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.AddPlainGLWE(mktfhe.GLWECiphertext[T](ct), pt))
}

func (e c10mk[T]) AddPlainGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], pt tfhe.GLWEPlaintext[T]) {
	e.e.AddPlainGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), pt)
}

func (e c10mk[T]) AddPlainLWE(ct tfhe.LWECiphertext[T], pt tfhe.LWEPlaintext[T]) tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T](e.e.AddPlainLWE(mktfhe.LWECiphertext[T](ct), pt))
}

func (e c10mk[T]) AddPlainLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T], pt tfhe.LWEPlaintext[T]) {
	e.e.AddPlainLWETo(mktfhe.LWECiphertext[T](ctOut), mktfhe.LWECiphertext[T](ct), pt)
}

func (e c10mk[T]) CmplxMulAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c complex128) {
	e.e.CmplxMulAddFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), c)
}

func (e c10mk[T]) CmplxMulFFTGLWE(ct tfhe.FFTGLWECiphertext[T], c complex128) tfhe.FFTGLWECiphertext[T] {
	return tfhe.FFTGLWECiphertext[T](e.e.CmplxMulFFTGLWE(mktfhe.FFTGLWECiphertext[T](ct), c))
}

func (e c10mk[T]) CmplxMulFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c complex128) {
	e.e.CmplxMulFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), c)
}

func (e c10mk[T]) CmplxMulSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c complex128) {
	e.e.CmplxMulSubFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), c)
}

func (e c10mk[T]) FFTPolyMulAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], fp poly.FFTPoly) {
	e.e.FFTPolyMulAddFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), fp)
}

func (e c10mk[T]) FFTPolyMulAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], fp poly.FFTPoly) {
	e.e.FFTPolyMulAddGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), fp)
}

func (e c10mk[T]) FFTPolyMulFFTGLWE(ct tfhe.FFTGLWECiphertext[T], fp poly.FFTPoly) tfhe.FFTGLWECiphertext[T] {
	return tfhe.FFTGLWECiphertext[T](e.e.FFTPolyMulFFTGLWE(mktfhe.FFTGLWECiphertext[T](ct), fp))
}

func (e c10mk[T]) FFTPolyMulFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], fp poly.FFTPoly) {
	e.e.FFTPolyMulFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), fp)
}

func (e c10mk[T]) FFTPolyMulGLWE(ct tfhe.GLWECiphertext[T], fp poly.FFTPoly) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.FFTPolyMulGLWE(mktfhe.GLWECiphertext[T](ct), fp))
}

func (e c10mk[T]) FFTPolyMulGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], fp poly.FFTPoly) {
	e.e.FFTPolyMulGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), fp)
}

func (e c10mk[T]) FFTPolyMulSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], fp poly.FFTPoly) {
	e.e.FFTPolyMulSubFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), fp)
}

func (e c10mk[T]) FFTPolyMulSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], fp poly.FFTPoly) {
	e.e.FFTPolyMulSubGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), fp)
}

func (e c10mk[T]) FloatMulAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c float64) {
	e.e.FloatMulAddFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), c)
}

func (e c10mk[T]) FloatMulFFTGLWE(ct tfhe.FFTGLWECiphertext[T], c float64) tfhe.FFTGLWECiphertext[T] {
	return tfhe.FFTGLWECiphertext[T](e.e.FloatMulFFTGLWE(mktfhe.FFTGLWECiphertext[T](ct), c))
}

func (e c10mk[T]) FloatMulFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c float64) {
	e.e.FloatMulFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), c)
}

func (e c10mk[T]) FloatMulSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], c float64) {
	e.e.FloatMulSubFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), c)
}

func (e c10mk[T]) FwdFFTGLWECiphertext(ct tfhe.GLWECiphertext[T]) tfhe.FFTGLWECiphertext[T] {
	return tfhe.FFTGLWECiphertext[T](e.e.FwdFFTGLWECiphertext(mktfhe.GLWECiphertext[T](ct)))
}

func (e c10mk[T]) FwdFFTGLWECiphertextTo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.GLWECiphertext[T]) {
	e.e.FwdFFTGLWECiphertextTo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct))
}

func (e c10mk[T]) InvFFTGLWECiphertext(ct tfhe.FFTGLWECiphertext[T]) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.InvGLWECiphertext(mktfhe.FFTGLWECiphertext[T](ct)))
}

func (e c10mk[T]) InvFFTGLWECiphertextTo(ctOut tfhe.GLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T]) {
	e.e.InvGLWECiphertextTo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct))
}

func (e c10mk[T]) MonomialMulAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int) {
	e.e.MonomialMulAddGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), d)
}

func (e c10mk[T]) MonomialMulGLWE(ct tfhe.GLWECiphertext[T], d int) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.MonomialMulGLWE(mktfhe.GLWECiphertext[T](ct), d))
}

func (e c10mk[T]) MonomialMulGLWEInPlace(ct tfhe.GLWECiphertext[T], d int) {
	e.e.MonomialMulGLWEInPlace(mktfhe.GLWECiphertext[T](ct), d)
}

func (e c10mk[T]) MonomialMulGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int) {
	e.e.MonomialMulGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), d)
}

func (e c10mk[T]) MonomialMulSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int) {
	e.e.MonomialMulSubGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), d)
}

func (e c10mk[T]) NegFFTGLWE(ct tfhe.FFTGLWECiphertext[T]) tfhe.FFTGLWECiphertext[T] {
	return tfhe.FFTGLWECiphertext[T](e.e.NegFFTGLWE(mktfhe.FFTGLWECiphertext[T](ct)))
}

func (e c10mk[T]) NegFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T]) {
	e.e.NegFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct))
}

func (e c10mk[T]) NegGLWE(ct tfhe.GLWECiphertext[T]) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.NegGLWE(mktfhe.GLWECiphertext[T](ct)))
}

func (e c10mk[T]) NegGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T]) {
	e.e.NegGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct))
}

func (e c10mk[T]) NegLWE(ct tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T](e.e.NegLWE(mktfhe.LWECiphertext[T](ct)))
}

func (e c10mk[T]) NegLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T]) {
	e.e.NegLWETo(mktfhe.LWECiphertext[T](ctOut), mktfhe.LWECiphertext[T](ct))
}

func (e c10mk[T]) PermuteAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], d int) {
	e.e.PermuteAddFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), d)
}

func (e c10mk[T]) PermuteAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int) {
	e.e.PermuteAddGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), d)
}

func (e c10mk[T]) PermuteFFTGLWE(ct tfhe.FFTGLWECiphertext[T], d int) tfhe.FFTGLWECiphertext[T] {
	o := mktfhe.NewFFTGLWECiphertext(e.e.Params)
	e.e.PermuteFFTGLWETo(o, mktfhe.FFTGLWECiphertext[T](ct), d)
	return tfhe.FFTGLWECiphertext[T](o)
}

func (e c10mk[T]) PermuteFFTGLWEInPlace(ct tfhe.FFTGLWECiphertext[T], d int) {
	e.e.PermuteFFTGLWEInPlace(mktfhe.FFTGLWECiphertext[T](ct), d)
}

func (e c10mk[T]) PermuteFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], d int) {
	e.e.PermuteFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), d)
}

func (e c10mk[T]) PermuteGLWE(ct tfhe.GLWECiphertext[T], d int) tfhe.GLWECiphertext[T] {
	o := mktfhe.NewGLWECiphertext(e.e.Params)
	e.e.PermuteGLWETo(o, mktfhe.GLWECiphertext[T](ct), d)
	return tfhe.GLWECiphertext[T](o)
}

func (e c10mk[T]) PermuteGLWEInPlace(ct tfhe.GLWECiphertext[T], d int) {
	e.e.PermuteGLWEInPlace(mktfhe.GLWECiphertext[T](ct), d)
}

func (e c10mk[T]) PermuteGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int) {
	e.e.PermuteGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), d)
}

func (e c10mk[T]) PermuteSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], d int) {
	e.e.PermuteSubFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), d)
}

func (e c10mk[T]) PermuteSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], d int) {
	e.e.PermuteSubGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), d)
}

func (e c10mk[T]) PolyMulAddFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], p poly.Poly[T]) {
	e.e.PolyMulAddFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), p)
}

func (e c10mk[T]) PolyMulAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], p poly.Poly[T]) {
	e.e.PolyMulAddGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), p)
}

func (e c10mk[T]) PolyMulFFTGLWE(ct tfhe.FFTGLWECiphertext[T], p poly.Poly[T]) tfhe.FFTGLWECiphertext[T] {
	return tfhe.FFTGLWECiphertext[T](e.e.PolyMulFFTGLWE(mktfhe.FFTGLWECiphertext[T](ct), p))
}

func (e c10mk[T]) PolyMulFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], p poly.Poly[T]) {
	e.e.PolyMulFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), p)
}

func (e c10mk[T]) PolyMulGLWE(ct tfhe.GLWECiphertext[T], p poly.Poly[T]) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.PolyMulGLWE(mktfhe.GLWECiphertext[T](ct), p))
}

func (e c10mk[T]) PolyMulGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], p poly.Poly[T]) {
	e.e.PolyMulGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), p)
}

func (e c10mk[T]) PolyMulSubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct tfhe.FFTGLWECiphertext[T], p poly.Poly[T]) {
	e.e.PolyMulSubFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct), p)
}

func (e c10mk[T]) PolyMulSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], p poly.Poly[T]) {
	e.e.PolyMulSubGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), p)
}

func (e c10mk[T]) ScalarMulAddGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], c T) {
	e.e.ScalarMulAddGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), c)
}

func (e c10mk[T]) ScalarMulAddLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T], c T) {
	e.e.ScalarMulAddLWETo(mktfhe.LWECiphertext[T](ctOut), mktfhe.LWECiphertext[T](ct), c)
}

func (e c10mk[T]) ScalarMulGLWE(ct tfhe.GLWECiphertext[T], c T) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.ScalarMulGLWE(mktfhe.GLWECiphertext[T](ct), c))
}

func (e c10mk[T]) ScalarMulGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], c T) {
	e.e.ScalarMulGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), c)
}

func (e c10mk[T]) ScalarMulLWE(ct tfhe.LWECiphertext[T], c T) tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T](e.e.ScalarMulLWE(mktfhe.LWECiphertext[T](ct), c))
}

func (e c10mk[T]) ScalarMulLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T], c T) {
	e.e.ScalarMulLWETo(mktfhe.LWECiphertext[T](ctOut), mktfhe.LWECiphertext[T](ct), c)
}

func (e c10mk[T]) ScalarMulSubGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], c T) {
	e.e.ScalarMulSubGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), c)
}

func (e c10mk[T]) ScalarMulSubLWETo(ctOut tfhe.LWECiphertext[T], ct tfhe.LWECiphertext[T], c T) {
	e.e.ScalarMulSubLWETo(mktfhe.LWECiphertext[T](ctOut), mktfhe.LWECiphertext[T](ct), c)
}

func (e c10mk[T]) SubFFTGLWE(ct0 tfhe.FFTGLWECiphertext[T], ct1 tfhe.FFTGLWECiphertext[T]) tfhe.FFTGLWECiphertext[T] {
	return tfhe.FFTGLWECiphertext[T](e.e.SubFFTGLWE(mktfhe.FFTGLWECiphertext[T](ct0), mktfhe.FFTGLWECiphertext[T](ct1)))
}

func (e c10mk[T]) SubFFTGLWETo(ctOut tfhe.FFTGLWECiphertext[T], ct0 tfhe.FFTGLWECiphertext[T], ct1 tfhe.FFTGLWECiphertext[T]) {
	e.e.SubFFTGLWETo(mktfhe.FFTGLWECiphertext[T](ctOut), mktfhe.FFTGLWECiphertext[T](ct0), mktfhe.FFTGLWECiphertext[T](ct1))
}

func (e c10mk[T]) SubGLWE(ct0 tfhe.GLWECiphertext[T], ct1 tfhe.GLWECiphertext[T]) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.SubGLWE(mktfhe.GLWECiphertext[T](ct0), mktfhe.GLWECiphertext[T](ct1)))
}

func (e c10mk[T]) SubGLWETo(ctOut tfhe.GLWECiphertext[T], ct0 tfhe.GLWECiphertext[T], ct1 tfhe.GLWECiphertext[T]) {
	e.e.SubGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct0), mktfhe.GLWECiphertext[T](ct1))
}

func (e c10mk[T]) SubLWE(ct0 tfhe.LWECiphertext[T], ct1 tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T](e.e.SubLWE(mktfhe.LWECiphertext[T](ct0), mktfhe.LWECiphertext[T](ct1)))
}

func (e c10mk[T]) SubLWETo(ctOut tfhe.LWECiphertext[T], ct0 tfhe.LWECiphertext[T], ct1 tfhe.LWECiphertext[T]) {
	e.e.SubLWETo(mktfhe.LWECiphertext[T](ctOut), mktfhe.LWECiphertext[T](ct0), mktfhe.LWECiphertext[T](ct1))
}

func (e c10mk[T]) SubPlainGLWE(ct tfhe.GLWECiphertext[T], pt tfhe.GLWEPlaintext[T]) tfhe.GLWECiphertext[T] {
	return tfhe.GLWECiphertext[T](e.e.SubPlainGLWE(mktfhe.GLWECiphertext[T](ct), pt))
}

func (e c10mk[T]) SubPlainGLWETo(ctOut tfhe.GLWECiphertext[T], ct tfhe.GLWECiphertext[T], pt tfhe.GLWEPlaintext[T]) {
	e.e.SubPlainGLWETo(mktfhe.GLWECiphertext[T](ctOut), mktfhe.GLWECiphertext[T](ct), pt)
}

func (e c10mk[T]) SubPlainLWE(ct tfhe.LWECiphertext[T], pt tfhe.LWEPlaintext[T]) tfhe.LWECiphertext[T] {
	return tfhe.LWECiphertext[T](e.e.SubPlainLWE(mktfhe.LWECiphertext[T](ct), pt))
}

func (e c10mk[T]) SubPlainLWETo(ctOut tfhe.LWECiphertext[T], ct0 tfhe.LWECiphertext[T], pt tfhe.LWEPlaintext[T]) {
	e.e.SubPlainLWETo(mktfhe.LWECiphertext[T](ctOut), mktfhe.LWECiphertext[T](ct0), pt)
}
