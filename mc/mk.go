package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

type mkShape struct {
	n, N, block, parties int
	order                tfhe.BootstrapOrder
	msg                  int
}

func (s mkShape) String() string {
	return fmt.Sprintf("mk_n%d_N%d_b%d_P%d_o%d_p%d", s.n, s.N, s.block, s.parties, int(s.order), s.msg)
}

func mklit[T TI](s mkShape) mktfhe.ParametersLiteral[T] {
	sub := lit[T](shape{n: s.n, k: 1, N: s.N, lut: s.N, block: s.block, order: s.order, msg: s.msg})
	l := mktfhe.ParametersLiteral[T]{SubParams: sub, PartyCount: s.parties}
	if bitsOf[T]() == 32 {
		l.AccumulatorParams, l.RelinKeyParams = gad[T](5, 3), gad[T](6, 4)
		l.SubParams.LWEStdDev, l.SubParams.GLWEStdDev = math.Exp2(-32), math.Exp2(-32)
		l.SubParams.BlindRotateParams = gad[T](6, 5)
	} else {
		l.AccumulatorParams, l.RelinKeyParams = gad[T](6, 4), gad[T](10, 4)
	}
	return l
}

var crs = []byte("shared reference string")

type mktenv[T TI] struct {
	P   mktfhe.Parameters[T]
	SK  []tfhe.SecretKey[T]
	EVK []mktfhe.EvaluationKey[T]
}

func mkenv[T TI](s mkShape) *mktenv[T] {
	return core.Memo("mkenv:"+tname[T]()+s.String(), func() *mktenv[T] {
		e := &mktenv[T]{P: mklit[T](s).Compile()}
		for i := 0; i < s.parties; i++ {
			enc := mktfhe.NewEncryptor(e.P, i, crs)
			e.SK = append(e.SK, enc.SecretKey)
			e.EVK = append(e.EVK, enc.GenEvalKey())
		}
		return e
	})
}

func (e *mktenv[T]) enc(i int) *mktfhe.Encryptor[T] {
	return mktfhe.NewEncryptorWithKey(e.P, i, crs, e.SK[i])
}

func (e *mktenv[T]) skMap(idx ...int) map[int]tfhe.SecretKey[T] {
	m := map[int]tfhe.SecretKey[T]{}
	for _, i := range idx {
		m[i] = e.SK[i]
	}
	return m
}

func (e *mktenv[T]) evkMap(idx ...int) map[int]mktfhe.EvaluationKey[T] {
	m := map[int]mktfhe.EvaluationKey[T]{}
	for _, i := range idx {
		m[i] = e.EVK[i]
	}
	return m
}

func (e *mktenv[T]) dec(idx ...int) *mktfhe.Decryptor[T] {
	return mktfhe.NewDecryptor(e.P, e.skMap(idx...))
}
func (e *mktenv[T]) eval(idx ...int) *mktfhe.Evaluator[T] {
	return mktfhe.NewEvaluator(e.P, e.evkMap(idx...))
}

// independent joint phases

func (e *mktenv[T]) lwePhase(ct mktfhe.LWECiphertext[T]) T {
	r := ct.Value[0]
	d := e.P.SubParams().DefaultLWEDimension()
	for i := range e.SK {
		s := e.SK[i].LWELargeKey.Value[:d]
		for j := range s {
			r += ct.Value[1+i*d+j] * s[j]
		}
	}
	return r
}

func (e *mktenv[T]) glwePhase(ct mktfhe.GLWECiphertext[T]) []T {
	r := append([]T{}, ct.Value[0].Coeffs...)
	for i := range e.SK {
		r = nAdd(r, nMul(ct.Value[i+1].Coeffs, e.SK[i].GLWEKey.Value[0].Coeffs))
	}
	return r
}

// subsets lists all non-empty subsets of {0..n-1} as index lists.
func subsets(n int) [][]int {
	var r [][]int
	for m := 1; m < 1<<n; m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		r = append(r, s)
	}
	return r
}

func has(s []int, i int) bool {
	for _, v := range s {
		if v == i {
			return true
		}
	}
	return false
}
