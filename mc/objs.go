package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// objSpec makes objects of one data type, in several shapes.  mk returns a pointer.
type objSpec struct {
	name string
	// mk makes the object of shape 0..nObjShapes-1; alt selects other gadget bases (with the same levels).
	mk func(shape int, alt bool) any
	// static objects have no data (parameters).
	static bool
}

const nObjShapes = 3

func objGad[T TI](shape int, alt bool, off int) tfhe.GadgetParameters[T] {
	lv := []int{2, 1, 3}[(shape+off)%3]
	b := []int{4, 9, 7}[shape]
	if alt {
		b++
	}
	return gad[T](b, lv).Compile()
}

func objSpecs[T TI]() []objSpec {
	var r []objSpec
	add := func(name string, mk func(s int, alt bool) any) { r = append(r, objSpec{name: name, mk: mk}) }
	n := []int{7, 1, 24}
	k := []int{2, 1, 3}
	N := []int{16, 32, 16}
	g := objGad[T]
	add("LWESecretKey", func(s int, a bool) any { o := tfhe.NewLWESecretKeyCustom[T](n[s]); return &o })
	add("LWEPublicKey", func(s int, a bool) any { o := tfhe.NewLWEPublicKeyCustom[T](k[s], N[s]); return &o })
	add("LWEPlaintext", func(s int, a bool) any { o := tfhe.NewLWEPlaintext[T](); return &o })
	add("LWECiphertext", func(s int, a bool) any { o := tfhe.NewLWECiphertextCustom[T](n[s]); return &o })
	add("LevCiphertext", func(s int, a bool) any { o := tfhe.NewLevCiphertextCustom(n[s], g(s, a, 0)); return &o })
	add("GSWCiphertext", func(s int, a bool) any { o := tfhe.NewGSWCiphertextCustom(n[s], g(s, a, 0)); return &o })
	add("GLWESecretKey", func(s int, a bool) any { o := tfhe.NewGLWESecretKeyCustom[T](k[s], N[s]); return &o })
	add("GLWEPublicKey", func(s int, a bool) any { o := tfhe.NewGLWEPublicKeyCustom[T](k[s], N[s]); return &o })
	add("GLWEPlaintext", func(s int, a bool) any { o := tfhe.NewGLWEPlaintextCustom[T](N[s]); return &o })
	add("GLWECiphertext", func(s int, a bool) any { o := tfhe.NewGLWECiphertextCustom[T](k[s], N[s]); return &o })
	add("GLevCiphertext", func(s int, a bool) any { o := tfhe.NewGLevCiphertextCustom(k[s], N[s], g(s, a, 0)); return &o })
	add("GGSWCiphertext", func(s int, a bool) any { o := tfhe.NewGGSWCiphertextCustom(k[s], N[s], g(s, a, 0)); return &o })
	add("FFTGLWESecretKey", func(s int, a bool) any { o := tfhe.NewFFTGLWESecretKeyCustom[T](k[s], N[s]); return &o })
	add("FFTGLWECiphertext", func(s int, a bool) any { o := tfhe.NewFFTGLWECiphertextCustom[T](k[s], N[s]); return &o })
	add("FFTGLevCiphertext", func(s int, a bool) any { o := tfhe.NewFFTGLevCiphertextCustom(k[s], N[s], g(s, a, 0)); return &o })
	add("FFTGGSWCiphertext", func(s int, a bool) any { o := tfhe.NewFFTGGSWCiphertextCustom(k[s], N[s], g(s, a, 0)); return &o })
	add("SecretKey", func(s int, a bool) any { o := tfhe.NewSecretKeyCustom[T](n[s], k[s], N[s]); return &o })
	add("PublicKey", func(s int, a bool) any { o := tfhe.NewPublicKeyCustom[T](k[s], N[s]); return &o })
	add("LWEKeySwitchKey", func(s int, a bool) any { o := tfhe.NewLWEKeySwitchKeyCustom(n[s], n[s]/2+1, g(s, a, 1)); return &o })
	add("GLWEKeySwitchKey", func(s int, a bool) any {
		o := tfhe.NewGLWEKeySwitchKeyCustom(4-k[s], k[s], N[s], g(s, a, 1))
		return &o
	})
	add("BlindRotateKey", func(s int, a bool) any {
		o := tfhe.NewBlindRotateKeyCustom(n[s]/3+1, k[s], N[s], g(s, a, 0))
		return &o
	})
	add("EvaluationKey", func(s int, a bool) any {
		o := tfhe.NewEvaluationKeyCustom([]int{3, 32, 40}[s], k[s], N[s], g(s, a, 0), g(s, a, 1)) // shape 1 has nothing to switch
		return &o
	})
	add("LookUpTable", func(s int, a bool) any { o := tfhe.NewLUTCustom[T](s+1, N[s]); return &o })
	add("Poly", func(s int, a bool) any { o := poly.NewPoly[T](N[s]); return &o })
	add("FFTPoly", func(s int, a bool) any { o := poly.NewFFTPoly(N[s]); return &o })
	add("mk.LWECiphertext", func(s int, a bool) any { o := mktfhe.NewLWECiphertextCustom[T](n[s]); return &o })
	add("mk.GLWECiphertext", func(s int, a bool) any { o := mktfhe.NewGLWECiphertextCustom[T](k[s], N[s]); return &o })
	add("mk.FFTGLWECiphertext", func(s int, a bool) any { o := mktfhe.NewFFTGLWECiphertextCustom[T](k[s], N[s]); return &o })
	add("mk.UniEncryption", func(s int, a bool) any { o := mktfhe.NewUniEncryptionCustom(N[s], g(s, a, 0)); return &o })
	add("mk.FFTUniEncryption", func(s int, a bool) any { o := mktfhe.NewFFTUniEncryptionCustom(N[s], g(s, a, 0)); return &o })
	add("mk.EvaluationKey", func(s int, a bool) any {
		o := mktfhe.NewEvaluationKeyCustom([]int{3, 32, 5}[s], N[s], g(s, a, 0), g(s, a, 1), g(s, a, 2))
		return &o
	})
	// parameters
	r = append(r, objSpec{name: "GadgetParameters", static: true, mk: func(s int, a bool) any { o := g(s, a, 0); return &o }})
	r = append(r, objSpec{name: "Parameters", static: true, mk: func(s int, a bool) any {
		l := lit[T](shape{n: []int{6, 16, 40}[s], k: k[s], N: N[s], lut: N[s] * (1 << (s % 2)), block: s + 1, order: []tfhe.BootstrapOrder{ksbr, brks, ksbr}[s], msg: []int{4, 7, 32}[s]})
		l.BlindRotateParams, l.KeySwitchParams = g(s, a, 0).Literal(), g(s, a, 1).Literal()
		l.LWEStdDev *= math.Sqrt(float64(s + 2))
		l.BlockSize = []int{1, 2, 4}[s]
		o := l.Compile()
		return &o
	}})
	r = append(r, objSpec{name: "mk.Parameters", static: true, mk: func(s int, a bool) any {
		l := mklit[T](mkShape{n: []int{6, 16, 12}[s], N: []int{16, 32, 16}[s], block: []int{1, 2, 4}[s], parties: []int{2, 1, 5}[s], order: []tfhe.BootstrapOrder{ksbr, brks, ksbr}[s], msg: []int{4, 7, 32}[s]})
		l.AccumulatorParams, l.RelinKeyParams = g(s, a, 0).Literal(), g(s, a, 1).Literal()
		o := l.Compile()
		return &o
	}})
	return r
}

// fill puts a recognisable pattern in every value.  Pattern 1 has extreme values (including every class of float).
func fill(o any, pattern int) {
	dirty(o, uint64(1000*pattern+7))
	if pattern == 0 {
		return
	}
	fl := []float64{0, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), -1.5, 1 << 60}
	i := 0
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			rec(v.Elem())
		case reflect.Struct:
			for j := 0; j < v.NumField(); j++ {
				if v.Type().Field(j).IsExported() {
					rec(v.Field(j))
				}
			}
		case reflect.Slice:
			for j := 0; j < v.Len(); j++ {
				rec(v.Index(j))
			}
		case reflect.Uint32, reflect.Uint64:
			if v.CanSet() {
				i++
				v.SetUint([]uint64{^uint64(0), 0, 1, 1 << 63 >> (64 - uint(v.Type().Bits())), 0x0102030405060708}[i%5] & (^uint64(0) >> (64 - uint(v.Type().Bits()))))
			}
		case reflect.Float64:
			if v.CanSet() {
				i++
				v.SetFloat(fl[i%len(fl)])
			}
		}
	}
	rec(reflect.ValueOf(o))
}

// diff compares two objects bit by bit, unexported fields included, and returns the first difference.
func diff(a, b any) string { return diffV(reflect.ValueOf(a), reflect.ValueOf(b), "") }

func diffV(a, b reflect.Value, path string) string {
	if a.Kind() != b.Kind() || a.Type() != b.Type() {
		return path + ": type"
	}
	switch a.Kind() {
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return path + ": nil"
		}
		if a.IsNil() {
			return ""
		}
		return diffV(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diffV(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d, want %d", path, a.Len(), b.Len())
		}
		if a.Kind() == reflect.Slice && a.Len() > 0 && a.CanInterface() && b.CanInterface() {
			switch t := a.Interface().(type) {
			case []uint64:
				if eqT(t, b.Interface().([]uint64)) {
					return ""
				}
			case []uint32:
				if eqT(t, b.Interface().([]uint32)) {
					return ""
				}
			}
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffV(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case reflect.Uint32, reflect.Uint64, reflect.Uint8, reflect.Uint16, reflect.Uint:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %#x, want %#x", path, a.Uint(), b.Uint())
		}
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Int8, reflect.Int16:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d, want %d", path, a.Int(), b.Int())
		}
	case reflect.Float64, reflect.Float32:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %v, want %v", path, a.Float(), b.Float())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return path + ": bool"
		}
	}
	return ""
}

// memory returns the address ranges of every slice reachable from an object.
func memory(o any) [][2]uintptr {
	var r [][2]uintptr
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i))
			}
		case reflect.Slice:
			if v.Len() > 0 {
				p := v.Pointer()
				r = append(r, [2]uintptr{p, p + uintptr(v.Len())*v.Type().Elem().Size()})
			}
			if k := v.Type().Elem().Kind(); k == reflect.Struct || k == reflect.Slice || k == reflect.Pointer {
				for i := 0; i < v.Len(); i++ {
					rec(v.Index(i))
				}
			}
		}
	}
	rec(reflect.ValueOf(o))
	return r
}

func shares(a, b any) bool {
	ma, mb := memory(a), memory(b)
	for _, p := range ma {
		for _, q := range mb {
			if p[0] < q[1] && q[0] < p[1] {
				return true
			}
		}
	}
	return false
}

// call calls a method by name and returns its results.
func call(o any, m string, args ...any) []reflect.Value {
	f := reflect.ValueOf(o).MethodByName(m)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		in[i] = reflect.ValueOf(a)
	}
	return f.Call(in)
}

func hasMethod(o any, m string) bool { return reflect.ValueOf(o).MethodByName(m).IsValid() }

// deref returns the value a pointer points to.
func deref(o any) any { return reflect.ValueOf(o).Elem().Interface() }

// ref returns a pointer to a copy of the struct v.
func ref(v reflect.Value) any {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p.Interface()
}
