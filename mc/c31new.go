package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C31/constructors: every object made from parameters has exactly the documented dimensions, and the constructor that
// takes explicit dimensions makes the same object.

// dimsOf describes the nesting of slices of an object, with gadget parameters: "4[g10.2 17]" is 4 vectors of 17 values.
func dimsOf(o any) string {
	var rec func(v reflect.Value) string
	rec = func(v reflect.Value) string {
		switch v.Kind() {
		case reflect.Pointer:
			return rec(v.Elem())
		case reflect.Struct:
			if t := v.Type(); strings.Contains(t.Name(), "GadgetParameters") {
				return fmt.Sprintf("g%d.%d", v.FieldByName("logBase").Int(), v.FieldByName("level").Int())
			}
			var p []string
			for i := 0; i < v.NumField(); i++ {
				if s := rec(v.Field(i)); s != "" {
					p = append(p, s)
				}
			}
			return strings.Join(p, " ")
		case reflect.Slice:
			if v.Len() == 0 {
				return "0"
			}
			e := rec(v.Index(0))
			for i := 1; i < v.Len(); i++ {
				if f := rec(v.Index(i)); f != e {
					return fmt.Sprintf("(entry %d has %q and entry 0 %q)", i, f, e)
				}
			}
			if e == "" {
				return fmt.Sprint(v.Len())
			}
			return fmt.Sprintf("%d[%s]", v.Len(), e)
		}
		return ""
	}
	return rec(reflect.ValueOf(o))
}

func c31new[T TI](x *X) {
	N := core.OneOf(x, "degree", []int{16, 64})
	k := core.OneOf(x, "rank", []int{1, 2, 3})
	lf := core.OneOf(x, "table factor", []int{1, 4})
	n := core.OneOf(x, "dimension", []int{1, 6, -1, 0}) // all but one, and all, of the GLWE dimension
	order := core.OneOf(x, "order", []tfhe.BootstrapOrder{ksbr, brks})
	if n <= 0 {
		n += k * N
	}
	gs := []tfhe.GadgetParameters[T]{gad[T](7, 2).Compile(), gad[T](5, 3).Compile(), gad[T](9, 1).Compile(), gad[T](3, 4).Compile()}
	l := lit[T](shape{n: n, k: k, N: N, lut: N * lf, block: 1, order: order, msg: 4})
	l.BlindRotateParams, l.KeySwitchParams = gs[0].Literal(), gs[1].Literal()
	p := l.Compile()
	D := n
	if order == ksbr {
		D = k * N
	}
	lwe := func(d int) string { return fmt.Sprint(d + 1) }
	glwe := func(k int) string { return fmt.Sprintf("%d[%d]", k+1, N) }
	lev := func(g tfhe.GadgetParameters[T], in string) string {
		return fmt.Sprintf("g%d.%d %d[%s]", g.LogBase(), g.Level(), g.Level(), in)
	}
	gsw := func(g tfhe.GadgetParameters[T], d int, in string) string {
		return fmt.Sprintf("g%d.%d %d[%s]", g.LogBase(), g.Level(), d+1, lev(g, in))
	}
	many := func(g tfhe.GadgetParameters[T], d int, in string) string {
		if d == 0 {
			return fmt.Sprintf("g%d.%d 0", g.LogBase(), g.Level())
		}
		return fmt.Sprintf("g%d.%d %d[%s]", g.LogBase(), g.Level(), d, in)
	}
	check := func(name, want string, objs ...any) {
		for i, o := range objs {
			x.Assert(dimsOf(o) == want, "%s (form %d) of n=%d k=%d N=%d order %d has dimensions %s, not %s", name, i, n, k, N, order, dimsOf(o), want)
			x.Assert(diff(o, objs[0]) == "", "%s: the two constructors differ at %s", name, diff(o, objs[0]))
			x.Assert(len(nonZero(o)) == 0, "%s: new object is not zero", name)
			x.Step(1)
		}
	}
	brk := gsw(gs[0], k, glwe(k))
	ksk := many(gs[1], k*N-n, lev(gs[1], lwe(n)))
	sk := fmt.Sprintf("%d %d[%d] %d[%d] %d", k*N, k, N, k, N, n)
	check("LWESecretKey", fmt.Sprint(D), ptr(tfhe.NewLWESecretKey(p)), ptr(tfhe.NewLWESecretKeyCustom[T](D)))
	check("LWECiphertext", lwe(D), ptr(tfhe.NewLWECiphertext(p)), ptr(tfhe.NewLWECiphertextCustom[T](D)))
	check("GLWESecretKey", fmt.Sprintf("%d[%d]", k, N), ptr(tfhe.NewGLWESecretKey(p)), ptr(tfhe.NewGLWESecretKeyCustom[T](k, N)))
	check("GLWEPlaintext", fmt.Sprint(N), ptr(tfhe.NewGLWEPlaintext(p)), ptr(tfhe.NewGLWEPlaintextCustom[T](N)))
	check("GLWECiphertext", glwe(k), ptr(tfhe.NewGLWECiphertext(p)), ptr(tfhe.NewGLWECiphertextCustom[T](k, N)))
	check("FFTGLWESecretKey", fmt.Sprintf("%d[%d]", k, N), ptr(tfhe.NewFFTGLWESecretKey(p)), ptr(tfhe.NewFFTGLWESecretKeyCustom[T](k, N)))
	check("FFTGLWECiphertext", glwe(k), ptr(tfhe.NewFFTGLWECiphertext(p)), ptr(tfhe.NewFFTGLWECiphertextCustom[T](k, N)))
	check("SecretKey", sk, ptr(tfhe.NewSecretKey(p)), ptr(tfhe.NewSecretKeyCustom[T](n, k, N)))
	for _, g := range gs {
		check("LevCiphertext", lev(g, lwe(D)), ptr(tfhe.NewLevCiphertext(p, g)), ptr(tfhe.NewLevCiphertextCustom(D, g)))
		check("GLevCiphertext", lev(g, glwe(k)), ptr(tfhe.NewGLevCiphertext(p, g)), ptr(tfhe.NewGLevCiphertextCustom(k, N, g)))
		check("GGSWCiphertext", gsw(g, k, glwe(k)), ptr(tfhe.NewGGSWCiphertext(p, g)), ptr(tfhe.NewGGSWCiphertextCustom(k, N, g)))
		check("FFTGLevCiphertext", lev(g, glwe(k)), ptr(tfhe.NewFFTGLevCiphertext(p, g)), ptr(tfhe.NewFFTGLevCiphertextCustom(k, N, g)))
		check("FFTGGSWCiphertext", gsw(g, k, glwe(k)), ptr(tfhe.NewFFTGGSWCiphertext(p, g)), ptr(tfhe.NewFFTGGSWCiphertextCustom(k, N, g)))
		if D <= 16 {
			check("GSWCiphertext", gsw(g, D, lwe(D)), ptr(tfhe.NewGSWCiphertext(p, g)), ptr(tfhe.NewGSWCiphertextCustom(D, g)))
		}
		for _, d := range []int{1, 5} {
			check("LWEKeySwitchKey", many(g, d, lev(g, lwe(D))), ptr(tfhe.NewLWEKeySwitchKey(p, d, g)), ptr(tfhe.NewLWEKeySwitchKeyCustom(d, D, g)))
			check("GLWEKeySwitchKey", many(g, d, lev(g, glwe(k))), ptr(tfhe.NewGLWEKeySwitchKey(p, d, g)), ptr(tfhe.NewGLWEKeySwitchKeyCustom(d, k, N, g)))
			x.Assert(ptr(tfhe.NewLWEKeySwitchKey(p, d, g)).InputLWEDimension() == d && ptr(tfhe.NewGLWEKeySwitchKey(p, d, g)).InputGLWERank() == d, "input dimension of a key switching key is not %d", d)
		}
	}
	check("KeySwitchKeyForBootstrap", ksk, ptr(tfhe.NewKeySwitchKeyForBootstrap(p)), ptr(tfhe.NewKeySwitchKeyForBootstrapCustom(n, k, N, gs[1])))
	check("BlindRotateKey", many(gs[0], n, brk), ptr(tfhe.NewBlindRotateKey(p)), ptr(tfhe.NewBlindRotateKeyCustom(n, k, N, gs[0])))
	check("EvaluationKey", many(gs[0], n, brk)+" "+ksk, ptr(tfhe.NewEvaluationKey(p)), ptr(tfhe.NewEvaluationKeyCustom(n, k, N, gs[0], gs[1])))
	check("LookUpTable", fmt.Sprintf("%d[%d]", lf, N), ptr(tfhe.NewLUT(p)), ptr(tfhe.NewLUTCustom[T](lf, N)))
	pk := fmt.Sprintf("%d[%s]", k, glwe(k))
	lpk, gpk, cpk := tfhe.NewLWEPublicKeyCustom[T](k, N), tfhe.NewGLWEPublicKeyCustom[T](k, N), tfhe.NewPublicKeyCustom[T](k, N)
	check("GLWEPublicKey", pk, ptr(tfhe.NewGLWEPublicKey(p)), &gpk)
	x.Assert(p.IsPublicKeyEncryptable() == (order == ksbr), "public key encryption is allowed for bootstrap order %d", order)
	if order == ksbr {
		check("LWEPublicKey", pk, ptr(tfhe.NewLWEPublicKey(p)), &lpk)
		check("PublicKey", pk+" "+pk, ptr(tfhe.NewPublicKey(p)), &cpk)
	} else {
		x.Assert(x.Panics(func() { tfhe.NewLWEPublicKey(p) }) && x.Panics(func() { tfhe.NewPublicKey(p) }), "a public key is made for parameters without public key encryption")
	}
	if k == 1 && lf == 1 {
		for _, parties := range []int{1, 2, 5} {
			P := mktfhe.ParametersLiteral[T]{SubParams: l, PartyCount: parties, AccumulatorParams: gs[2].Literal(), RelinKeyParams: gs[3].Literal()}.Compile()
			uni := func(g tfhe.GadgetParameters[T]) string {
				return fmt.Sprintf("g%d.%d 2[%s]", g.LogBase(), g.Level(), lev(g, glwe(1)))
			}
			check("mk.LWECiphertext", lwe(parties*D), ptr(mktfhe.NewLWECiphertext(P)), ptr(mktfhe.NewLWECiphertextCustom[T](parties*D)))
			check("mk.GLWECiphertext", glwe(parties), ptr(mktfhe.NewGLWECiphertext(P)), ptr(mktfhe.NewGLWECiphertextCustom[T](parties, N)))
			check("mk.FFTGLWECiphertext", glwe(parties), ptr(mktfhe.NewFFTGLWECiphertext(P)), ptr(mktfhe.NewFFTGLWECiphertextCustom[T](parties, N)))
			for _, g := range gs {
				check("mk.UniEncryption", uni(g), ptr(mktfhe.NewUniEncryption(P, g)), ptr(mktfhe.NewUniEncryptionCustom(N, g)))
				check("mk.FFTUniEncryption", uni(g), ptr(mktfhe.NewFFTUniEncryption(P, g)), ptr(mktfhe.NewFFTUniEncryptionCustom(N, g)))
			}
			check("mk.EvaluationKey", many(gs[0], n, brk)+" "+ksk+" "+lev(gs[3], glwe(1))+" "+uni(gs[3]), ptr(mktfhe.NewEvaluationKey(P)), ptr(mktfhe.NewEvaluationKeyCustom(n, N, gs[0], gs[1], gs[3])))
			x.Assert(P.DefaultLWEDimension() == parties*D, "multi-key default dimension %d", P.DefaultLWEDimension())
		}
	}
	x.State(N, k, lf, n, int(order))
}

func ptr[A any](a A) *A { return &a }

// nonZero lists the values of an object (outside its metadata) that are not zero.
func nonZero(o any) (r []string) {
	var rec func(v reflect.Value, path string)
	rec = func(v reflect.Value, path string) {
		switch v.Kind() {
		case reflect.Pointer:
			rec(v.Elem(), path)
		case reflect.Struct:
			if strings.Contains(v.Type().Name(), "Parameters") {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				rec(v.Field(i), path+"."+v.Type().Field(i).Name)
			}
		case reflect.Slice:
			for i := 0; i < v.Len() && len(r) == 0; i++ {
				rec(v.Index(i), path)
			}
		case reflect.Uint32, reflect.Uint64, reflect.Float64:
			if !v.IsZero() {
				r = append(r, path)
			}
		}
	}
	rec(reflect.ValueOf(o), "")
	return
}
