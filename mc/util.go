package main

import (
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"sort"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// TI is the torus integer constraint.
type TI interface{ uint32 | uint64 }

// X is an execution.
type X = core.X

func bitsOf[T TI]() int {
	var z T
	return bits.Len64(uint64(^z))
}

// cdist is the distance of a and b on the torus, in units of 1.
func cdist[T TI](a, b T) uint64 {
	d := a - b
	if n := -d; n < d {
		d = n
	}
	return uint64(d)
}

func maxDist[T TI](a, b []T) uint64 {
	if len(a) != len(b) {
		return math.MaxUint64
	}
	var m uint64
	for i := range a {
		if d := cdist(a[i], b[i]); d > m {
			m = d
		}
	}
	return m
}

// --- the naive ring ---

type WI interface{ num.Integer }

func nMul[T WI](a, b []T) []T {
	n := len(a)
	r := make([]T, n)
	nz := 0
	for _, x := range a {
		if x != 0 {
			nz++
		}
	}
	if n > 128 && nz > n/16 {
		p := make([]T, 2*n)
		kara(p, a, b)
		for i := range r {
			r[i] = p[i] - p[i+n]
		}
		return r
	}
	for i, x := range a {
		if x == 0 {
			continue
		}
		for j, y := range b {
			if i+j < n {
				r[i+j] += x * y
			} else {
				r[i+j-n] -= x * y
			}
		}
	}
	return r
}

// kara adds the product of two polynomials of the same length (a power of two) to r, which has twice that length.
func kara[T WI](r, a, b []T) {
	n := len(a)
	if n <= 32 {
		for i, x := range a {
			for j, y := range b {
				r[i+j] += x * y
			}
		}
		return
	}
	h := n / 2
	lo, hi, mid := make([]T, n), make([]T, n), make([]T, n)
	kara(lo, a[:h], b[:h])
	kara(hi, a[h:], b[h:])
	sa, sb := make([]T, h), make([]T, h)
	for i := range sa {
		sa[i], sb[i] = a[i]+a[h+i], b[i]+b[h+i]
	}
	kara(mid, sa, sb)
	for i := range lo {
		r[i] += lo[i]
		r[n+i] += hi[i]
		r[h+i] += mid[i] - lo[i] - hi[i]
	}
}

func nAdd[T WI](a, b []T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] + b[i]
	}
	return r
}

func nSub[T WI](a, b []T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] - b[i]
	}
	return r
}

func nScale[T WI](a []T, c T) []T {
	r := make([]T, len(a))
	for i := range a {
		r[i] = a[i] * c
	}
	return r
}

func mod(a, m int) int {
	a %= m
	if a < 0 {
		a += m
	}
	return a
}

// nMono multiplies by X^d.
func nMono[T WI](a []T, d int) []T {
	n := len(a)
	r := make([]T, n)
	for i, x := range a {
		k := mod(i+mod(d, 2*n), 2*n)
		if k < n {
			r[k] = x
		} else {
			r[k-n] = -x
		}
	}
	return r
}

// nPerm applies X -> X^d.
func nPerm[T WI](a []T, d int) []T {
	n := len(a)
	r := make([]T, n)
	d = mod(d, 2*n)
	for i, x := range a {
		k := (i * d) % (2 * n)
		if k < n {
			r[k] += x
		} else {
			r[k-n] -= x
		}
	}
	return r
}

// phases computed independently of the library

func lwePhase[T TI](ct []T, s []T) T {
	r := ct[0]
	for i := range s {
		r += ct[i+1] * s[i]
	}
	return r
}

func glwePhase[T TI](ct []poly.Poly[T], s []poly.Poly[T]) []T {
	r := append([]T{}, ct[0].Coeffs...)
	for i := range s {
		r = nAdd(r, nMul(ct[i+1].Coeffs, s[i].Coeffs))
	}
	return r
}

// --- parameters ---

// gad returns a gadget literal.
func gad[T TI](logBase, level int) tfhe.GadgetParametersLiteral[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: T(1) << logBase, Level: level}
}

// shape is a tiny parameter set.
type shape struct {
	n, k, N, lut, block int
	order               tfhe.BootstrapOrder
	msg                 int
}

func (s shape) String() string {
	return fmt.Sprintf("n%d_k%d_N%d_L%d_b%d_o%d_p%d", s.n, s.k, s.N, s.lut, s.block, int(s.order), s.msg)
}

const (
	ksbr = tfhe.OrderKeySwitchBlindRotate
	brks = tfhe.OrderBlindRotateKeySwitch
)

// lit builds a literal with tiny noise (a few units of the torus).
func lit[T TI](s shape) tfhe.ParametersLiteral[T] {
	br, ks := gad[T](10, 4), gad[T](8, 5)
	sd := math.Exp2(-60)
	if bitsOf[T]() == 32 {
		br, ks = gad[T](7, 4), gad[T](5, 5)
		sd = math.Exp2(-30)
	}
	return tfhe.ParametersLiteral[T]{
		LWEDimension: s.n, GLWERank: s.k, PolyRank: s.N, LUTSize: s.lut, BlockSize: s.block,
		LWEStdDev: sd, GLWEStdDev: sd, MessageModulus: T(s.msg),
		BlindRotateParams: br, KeySwitchParams: ks, BootstrapOrder: s.order,
	}
}

func tname[T TI]() string { return fmt.Sprintf("u%d", bitsOf[T]()) }

// tenv is a shared key environment.  Nothing in it may be modified by an execution.
type tenv[T TI] struct {
	P   tfhe.Parameters[T]
	SK  tfhe.SecretKey[T]
	EVK tfhe.EvaluationKey[T]
}

func envOf[T TI](name string, l tfhe.ParametersLiteral[T]) *tenv[T] {
	return core.Memo("env:"+tname[T]()+":"+name, func() *tenv[T] {
		p := l.Compile()
		enc := tfhe.NewEncryptor(p)
		return &tenv[T]{P: p, SK: enc.SecretKey, EVK: enc.GenEvalKey()}
	})
}

func env[T TI](s shape) *tenv[T] { return envOf(s.String(), lit[T](s)) }

func (e *tenv[T]) enc() *tfhe.Encryptor[T] { return tfhe.NewEncryptorWithKey(e.P, e.SK) }
func (e *tenv[T]) eval() *tfhe.Evaluator[T] {
	return tfhe.NewEvaluator(e.P, e.EVK)
}

func (e *tenv[T]) defKey() []T {
	if e.P.BootstrapOrder() == ksbr {
		return e.SK.LWELargeKey.Value
	}
	return e.SK.LWEKey.Value
}

// noiseCap is a bound on the error of a fresh ciphertext that no correct implementation exceeds: 100 standard deviations.
func noiseCap(sdq float64) uint64 { return uint64(100*sdq) + 2 }

// setKey overwrites all views of a fresh secret key with the given flattened key.
func keyFrom[T TI](p tfhe.Parameters[T], flat []T) tfhe.SecretKey[T] {
	sk := tfhe.NewSecretKey(p)
	copy(sk.LWELargeKey.Value, flat)
	for i := range sk.GLWEKey.Value {
		copy(sk.GLWEKey.Value[i].Coeffs, flat[i*p.PolyRank():])
	}
	copy(sk.LWEKey.Value, flat)
	ev := poly.NewEvaluator[T](p.PolyRank())
	for i := range sk.FFTGLWEKey.Value {
		ev.FwdFFTTo(sk.FFTGLWEKey.Value[i], sk.GLWEKey.Value[i])
	}
	return sk
}

// --- deep traversal of objects: used for dirtying outputs and for snapshots ---

// leaves calls f on every addressable numeric slice element and number reachable through exported fields.
func walk(v reflect.Value, f func(path string, v reflect.Value), path string) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			walk(v.Elem(), f, path)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				walk(v.Field(i), f, path+"."+v.Type().Field(i).Name)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), f, fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			walk(v.MapIndex(k), f, fmt.Sprintf("%s[%v]", path, k))
		}
	default:
		f(path, v)
	}
}

// dirty fills every number stored in slices of the object with a recognisable junk pattern.
func dirty(o any, salt uint64) {
	i := uint64(0)
	var rec func(v reflect.Value, inSlice bool)
	rec = func(v reflect.Value, inSlice bool) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem(), inSlice)
			}
		case reflect.Struct:
			for j := 0; j < v.NumField(); j++ {
				if v.Type().Field(j).IsExported() {
					rec(v.Field(j), inSlice)
				}
			}
		case reflect.Slice:
			for j := 0; j < v.Len(); j++ {
				rec(v.Index(j), true)
			}
		case reflect.Uint32, reflect.Uint64, reflect.Uint8, reflect.Uint16, reflect.Uint:
			if v.CanSet() {
				i++
				v.SetUint((i*0x9e3779b97f4a7c15 + salt) >> (64 - uint(v.Type().Bits())))
			}
		case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int8, reflect.Int16:
			if inSlice && v.CanSet() {
				i++
				v.SetInt(int64(i*0x9e3779b97f4a7c15+salt) >> (64 - uint(v.Type().Bits())))
			}
		case reflect.Float64, reflect.Float32:
			if inSlice && v.CanSet() {
				i++
				v.SetFloat(float64(int64(i*0x9e3779b97f4a7c15+salt)>>20) / 1024)
			}
		}
	}
	rec(reflect.ValueOf(o), false)
}

// snap returns a hash of every exported number reachable.
func snap(objs ...any) uint64 {
	h := uint64(1469598103934665603)
	add := func(u uint64) {
		h ^= u
		h *= 1099511628211
		h ^= h >> 29
	}
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Struct:
			for j := 0; j < v.NumField(); j++ {
				rec(v.Field(j))
			}
		case reflect.Slice, reflect.Array:
			add(uint64(v.Len()) + 77)
			if v.Kind() == reflect.Slice && v.CanInterface() {
				switch t := v.Interface().(type) {
				case []uint64:
					for _, x := range t {
						add(x)
					}
					return
				case []uint32:
					for _, x := range t {
						add(uint64(x))
					}
					return
				case []float64:
					for _, x := range t {
						add(math.Float64bits(x))
					}
					return
				}
			}
			for j := 0; j < v.Len(); j++ {
				rec(v.Index(j))
			}
		case reflect.Uint32, reflect.Uint64, reflect.Uint8, reflect.Uint16, reflect.Uint:
			add(v.Uint())
		case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int8, reflect.Int16:
			add(uint64(v.Int()))
		case reflect.Float64, reflect.Float32:
			add(math.Float64bits(v.Float()))
		case reflect.Complex128:
			c := v.Complex()
			add(math.Float64bits(real(c)))
			add(math.Float64bits(imag(c)))
		case reflect.Bool:
			if v.Bool() {
				add(1)
			} else {
				add(2)
			}
		}
	}
	for _, o := range objs {
		rec(reflect.ValueOf(o))
	}
	return h
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
