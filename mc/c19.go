package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
)

// C19: the views of a secret key describe one key.

// keyViews checks the views of a key against its flattened content.
func keyViews[T TI](x *X, what string, sk tfhe.SecretKey[T], flat []T, n, k, N int) {
	if !eqT(sk.LWELargeKey.Value, flat) {
		x.Fail("%s: the flattened key is not the expected one", what)
	}
	if len(sk.GLWEKey.Value) != k || len(sk.FFTGLWEKey.Value) != k || len(sk.LWEKey.Value) != n || len(flat) != k*N {
		x.Fail("%s: shape of the views: rank %d and %d, LWE dimension %d, want %d, %d", what, len(sk.GLWEKey.Value), len(sk.FFTGLWEKey.Value), len(sk.LWEKey.Value), k, n)
	}
	if !eqT(sk.LWEKey.Value, flat[:n]) {
		x.Fail("%s: the LWE key is not the prefix of the flattened key", what)
	}
	ev := core.Memo(fmt.Sprint("c19ev", tname[T](), N), func() *poly.Evaluator[T] { return poly.NewEvaluator[T](N) })
	for i := 0; i < k; i++ {
		if !eqT(sk.GLWEKey.Value[i].Coeffs, flat[i*N:(i+1)*N]) {
			x.Fail("%s: component %d of the GLWE key is not the flattened key's", what, i)
		}
		f := sk.FFTGLWEKey.Value[i]
		if f.Rank() != N {
			x.Fail("%s: component %d of the Fourier key has rank %d, want %d", what, i, f.Rank(), N)
		}
		w := ev.FwdFFT(sk.GLWEKey.Value[i])
		mx := 0.0
		for _, v := range flat[i*N : (i+1)*N] {
			mx += math.Abs(float64(toSigned(v)))
		}
		for j, c := range f.Coeffs {
			if !(math.Abs(c-w.Coeffs[j]) <= 1e-9*(mx+1)) {
				x.Fail("%s: component %d of the Fourier key is not the transform of the GLWE key (%d: %v, want %v)", what, i, j, c, w.Coeffs[j])
			}
		}
	}
	if l := sk.GLWEKey.AsLWEKey(); !eqT(l.Value, flat) {
		x.Fail("%s: AsLWEKey is not the flattened key", what)
	}
	l := tfhe.NewLWESecretKeyCustom[T](k * N)
	for i := range l.Value {
		l.Value[i] = 77
	}
	sk.GLWEKey.AsLWEKeyTo(l)
	if !eqT(l.Value, flat) {
		x.Fail("%s: AsLWEKeyTo is not the flattened key", what)
	}
	var tr = core.Memo(fmt.Sprint("c19tr", tname[T](), N), func() *tfhe.GLWETransformer[T] { return tfhe.NewGLWETransformer[T](N) })
	inv := tr.InvFFTGLWESecretKey(sk.FFTGLWEKey)
	fwd := tr.FwdFFTGLWESecretKey(sk.GLWEKey)
	back := tr.InvFFTGLWESecretKey(fwd)
	for i := 0; i < k; i++ {
		if !eqT(inv.Value[i].Coeffs, flat[i*N:(i+1)*N]) {
			x.Fail("%s: component %d of the inverse transform of the Fourier key is not the GLWE key's", what, i)
		}
		if !eqT(back.Value[i].Coeffs, flat[i*N:(i+1)*N]) {
			x.Fail("%s: converting component %d of the GLWE key to Fourier and back changes it", what, i)
		}
	}
}

func toSigned[T TI](v T) int64 {
	if bitsOf[T]() == 32 {
		return int64(int32(v))
	}
	return int64(v)
}

func checkBinary[T TI](x *X, what string, flat []T, n, B int) {
	for i, v := range flat {
		if v > 1 {
			x.Fail("%s: entry %d is %d, not binary", what, i, v)
		}
	}
	if B > 1 {
		for b := 0; b < n; b += B {
			s := T(0)
			for i := b; i < b+B; i++ {
				s += flat[i]
			}
			if s > 1 {
				x.Fail("%s: block %d has %d non-zero entries", what, b/B, s)
			}
		}
	}
}

var c19shapes = []shape{
	{n: 5, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4},
	{n: 6, k: 2, N: 16, lut: 16, block: 2, order: brks, msg: 4},
	{n: 9, k: 3, N: 16, lut: 32, block: 3, order: ksbr, msg: 4},
	{n: 32, k: 1, N: 32, lut: 32, block: 4, order: brks, msg: 4},
	{n: 32, k: 2, N: 16, lut: 16, block: 1, order: ksbr, msg: 4},
	{n: 1, k: 1, N: 64, lut: 64, block: 1, order: ksbr, msg: 4},
	{n: 64, k: 2, N: 64, lut: 64, block: 16, order: ksbr, msg: 4},
}

// c19gen: generated keys, for every shape and many random streams.
func c19gen[T TI](x *X) {
	s := core.OneOf(x, "shape", c19shapes)
	seed := x.Choose(x.Pick(200, 5000), "random stream")
	who := x.Choose(4, "generator")
	p := core.Memo(fmt.Sprint("c19p", tname[T](), s), func() tfhe.Parameters[T] { return lit[T](s).Compile() })
	what := fmt.Sprintf("key of shape %v from stream %d by generator %d", s, seed, who)
	core.Reseed(fmt.Sprint("c19gen", s, seed, who))
	var sk tfhe.SecretKey[T]
	switch who {
	case 0:
		sk = tfhe.NewEncryptor(p).SecretKey
	case 1: // a further key of the same generator; the generator's own key stays
		e := tfhe.NewEncryptor(p)
		own := e.SecretKey.Copy()
		sk = e.GenSecretKey()
		x.Assert(diff(&e.SecretKey, &own) == "", "%s: GenSecretKey changed the encryptor's key at %s", what, diff(&e.SecretKey, &own))
		x.Assert(!shares(&sk, &e.SecretKey), "%s: GenSecretKey returns a key sharing memory with the encryptor's", what)
	case 2:
		if s.msg != 4 {
			return
		}
		sk = tfhe.NewBinaryEncryptor(p).Encryptor.SecretKey
	case 3:
		if s.k != 1 || s.lut != s.N {
			return
		}
		mp := core.Memo(fmt.Sprint("c19mp", tname[T](), s), func() mktfhe.Parameters[T] {
			return mklit[T](mkShape{n: s.n, N: s.N, block: s.block, parties: 2, order: s.order, msg: s.msg}).Compile()
		})
		e := mktfhe.NewEncryptor(mp, seed%2, crs)
		sk = e.SecretKey
		x.Assert(diff(&e.SubEncryptor.SecretKey, &sk) == "", "%s: the multi-key encryptor and its single-key encryptor have different keys", what)
	}
	keyViews(x, what, sk, append([]T{}, sk.LWELargeKey.Value...), s.n, s.k, s.N)
	checkBinary(x, what, sk.LWELargeKey.Value, s.n, s.block)
	// two keys of different streams are different keys (long ones)
	if s.k*s.N >= 64 && seed > 0 && who == 0 {
		core.Reseed(fmt.Sprint("c19gen", s, seed-1, who))
		o := tfhe.NewEncryptor(p).SecretKey
		x.Assert(!eqT(o.LWELargeKey.Value, sk.LWELargeKey.Value), "%s: two fresh keys are equal", what)
	}
	x.Step(1)
	x.State(tname[T](), s.String(), sk.LWELargeKey.Value)
}

// c19fhew: keys with small integer entries.
func c19fhew[T TI](x *X) {
	N := []int{16, 32}[x.Choose(2, "N")]
	k := 1 + x.Choose(2, "k")
	sd := []float64{0.4, 3.2}[x.Choose(2, "stddev")]
	seed := x.Choose(x.Pick(60, 1000), "random stream")
	s := shape{n: 7, k: k, N: N, lut: N, block: 1, order: brks, msg: 4}
	l := xtfhe.FHEWParametersLiteral[T]{BaseParams: lit[T](s), SecretKeyStdDev: sd / math.Exp2(float64(bitsOf[T]())), WindowSize: 3}
	p := l.Compile()
	core.Reseed(fmt.Sprint("c19fhew", seed, N, k, sd))
	what := fmt.Sprintf("FHEW key N %d k %d stream %d", N, k, seed)
	e := xtfhe.NewFHEWEncryptor(p)
	own := e.Encryptor.SecretKey.Copy()
	for i, sk := range []tfhe.SecretKey[T]{e.SecretKey, e.GenSecretKey(), xtfhe.NewFHEWEncryptorWithKey(p, own).SecretKey, e.SafeCopy().SecretKey} {
		keyViews(x, what, sk, append([]T{}, sk.LWELargeKey.Value...), s.n, s.k, s.N)
		for j, v := range sk.LWELargeKey.Value {
			x.Assert(math.Abs(float64(toSigned(v))) <= 12*sd+1, "%s: key %d entry %d is %d", what, i, j, toSigned(v))
		}
		if i >= 2 {
			x.Assert(diff(&sk, &own) == "", "%s: key %d differs from the encryptor's at %s", what, i, diff(&sk, &own))
		}
	}
	x.Step(4)
	x.State(tname[T](), N, k, sd, own.LWELargeKey.Value)
}

type c19slot[T TI] struct {
	sk   tfhe.SecretKey[T]
	flat []T
	sh   int
}

// c19hist: every sequence of key operations on three keys (two of one shape, one of another).
func c19hist[T TI](x *X) {
	pair := x.Choose(3, "shapes")
	depth := x.Pick(3, 4)
	pr := [][2]int{{1, 2}, {0, 3}, {5, 4}}[pair]
	ps := func(i int) (shape, tfhe.Parameters[T], *tfhe.Encryptor[T]) {
		s := c19shapes[i]
		e := core.Memo(fmt.Sprint("c19e", tname[T](), s), func() *tfhe.Encryptor[T] { return tfhe.NewEncryptor(lit[T](s).Compile()) })
		return s, e.Params, e
	}
	slots := make([]c19slot[T], 3)
	gen := 0
	make1 := func(i, sh int) {
		s, p, e := ps(sh)
		core.Reseed(fmt.Sprint("c19hist", s, gen, i))
		gen++
		var sk tfhe.SecretKey[T]
		if gen%2 == 0 {
			sk = e.GenSecretKey()
		} else {
			sk = tfhe.NewEncryptor(p).SecretKey
		}
		slots[i] = c19slot[T]{sk, append([]T{}, sk.LWELargeKey.Value...), sh}
	}
	make1(0, pr[0])
	make1(1, pr[0])
	make1(2, pr[1])
	hist := ""
	for d := 0; d < depth; d++ {
		op := x.Choose(6, "operation")
		i := x.Choose(3, "key")
		j := 0
		if op == 1 || op == 2 || op == 3 || op == 4 {
			j = x.Choose(3, "destination")
		}
		hist += fmt.Sprintf(" %s(%d,%d)", []string{"generate", "Copy", "CopyFrom", "stream", "marshal", "Clear"}[op], i, j)
		switch op {
		case 0:
			make1(i, slots[i].sh)
		case 1:
			slots[j] = c19slot[T]{slots[i].sk.Copy(), slots[i].flat, slots[i].sh}
		case 2:
			if slots[i].sh != slots[j].sh {
				return
			}
			slots[j].sk.CopyFrom(slots[i].sk)
			slots[j].flat = slots[i].flat
		case 3:
			var b bytes.Buffer
			_, err := slots[i].sk.WriteTo(&b)
			if err == nil {
				_, err = slots[j].sk.ReadFrom(&b)
			}
			x.Assert(err == nil, "%v", err)
			slots[j].flat, slots[j].sh = slots[i].flat, slots[i].sh
		case 4:
			b, err := slots[i].sk.MarshalBinary()
			if err == nil {
				err = slots[j].sk.UnmarshalBinary(b)
			}
			x.Assert(err == nil, "%v", err)
			slots[j].flat, slots[j].sh = slots[i].flat, slots[i].sh
		case 5:
			slots[i].sk.Clear()
			slots[i].flat = make([]T, len(slots[i].flat))
		}
		x.Step(1)
	}
	for i, sl := range slots {
		s := c19shapes[sl.sh]
		keyViews(x, fmt.Sprintf("shapes %d: after%s: key %d", pair, hist, i), sl.sk, sl.flat, s.n, s.k, s.N)
		checkBinary(x, hist, sl.flat, s.n, s.block)
		for j := range slots[:i] {
			x.Assert(!shares(&slots[j].sk, &sl.sk), "after%s: keys %d and %d share memory", hist, i, j)
		}
	}
	x.State(tname[T](), pair, slots[0].flat, slots[1].flat, slots[2].flat)
	// the views share their memory, as documented
	for i := range slots {
		sl := &slots[i]
		for p := range sl.flat {
			v := T(1000 + p)
			sl.sk.LWELargeKey.Value[p] = v
			N := c19shapes[sl.sh].N
			ok := sl.sk.GLWEKey.Value[p/N].Coeffs[p%N] == v && (p >= len(sl.sk.LWEKey.Value) || sl.sk.LWEKey.Value[p] == v)
			if !ok {
				x.Fail("after%s: key %d: the views do not share entry %d", hist, i, p)
			}
		}
	}
}

func init() {
	both := func(name, bound string, sh int, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C19", Name: name, Shards: sh, Bound: bound, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	both("generate", "both widths x 7 shapes (ranks 1-3, block sizes 1-16) x 200 random streams (thorough 5000) x 4 generators", 2, c19gen[uint32], c19gen[uint64])
	both("fhew", "both widths x degree x rank x standard deviation x 60 random streams (thorough 1000)", 1, c19fhew[uint32], c19fhew[uint64])
	both("history", "both widths x 3 shape pairs x all sequences of 3 (thorough 4) operations generate/Copy/CopyFrom/stream/marshal/Clear over three keys", 4, c19hist[uint32], c19hist[uint64])
}
