package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C18: Copy, CopyFrom and Clear of every data type.

func c18[T TI](x *X) {
	specs := objSpecs[T]()
	sp := specs[x.Choose(len(specs), "type")]
	sh := x.Choose(nObjShapes, "shape")
	pat := x.Choose(2, "pattern")
	sc := x.Choose(6, "scenario")
	if sp.static {
		return
	}
	mk := func(alt bool, p int) any { o := sp.mk(sh, alt); fill(o, p); return o }
	o, ref0 := mk(false, pat), mk(false, pat)
	if d := diff(o, ref0); d != "" {
		panic("harness error: " + d)
	}
	what := fmt.Sprintf("%s shape %d", sp.name, sh)
	copyOf := func(o any) any { return ref(call(o, "Copy")[0]) }
	switch sc {
	case 0: // Copy, then change the copy
		c := copyOf(o)
		x.Assert(diff(c, ref0) == "", "%s: Copy differs at %s", what, diff(c, ref0))
		x.Assert(!shares(c, o), "%s: Copy shares memory with the original", what)
		dirty(c, 99)
		x.Assert(diff(o, ref0) == "", "%s: changing the copy changed the original at %s", what, diff(o, ref0))
		if hasMethod(c, "Clear") {
			call(c, "Clear")
		}
		x.Assert(diff(o, ref0) == "", "%s: clearing the copy changed the original at %s", what, diff(o, ref0))
	case 1: // Copy, then change the original
		c := copyOf(o)
		dirty(o, 98)
		x.Assert(diff(c, ref0) == "", "%s: changing the original changed the copy at %s", what, diff(c, ref0))
		call(o, "Clear")
		x.Assert(diff(c, ref0) == "", "%s: clearing the original changed the copy at %s", what, diff(c, ref0))
	case 2: // CopyFrom over old data with other metadata
		c := mk(true, 1-pat)
		call(c, "CopyFrom", deref(o))
		x.Assert(diff(c, ref0) == "", "%s: CopyFrom differs at %s", what, diff(c, ref0))
		x.Assert(diff(o, ref0) == "", "%s: CopyFrom changed its argument at %s", what, diff(o, ref0))
		x.Assert(!shares(c, o), "%s: CopyFrom shares memory with its argument", what)
		dirty(c, 97)
		x.Assert(diff(o, ref0) == "", "%s: changing the destination changed the source at %s", what, diff(o, ref0))
	case 3: // Clear
		before := memory(o)
		call(o, "Clear")
		z := sp.mk(sh, false)
		// every value zero (of either sign for floats), everything else as made
		x.Assert(diff(o, z) == "", "%s: after Clear differs from a zero object at %s", what, diff(o, z))
		x.Assert(reflect.DeepEqual(before, memory(o)), "%s: Clear reallocated the object", what)
	case 4: // chains: copy of a copy, copied back
		c := copyOf(copyOf(o))
		d := mk(true, 1-pat)
		call(d, "CopyFrom", deref(c))
		dirty(c, 96)
		dirty(o, 95)
		call(o, "CopyFrom", deref(d))
		x.Assert(diff(o, ref0) == "", "%s: after copying through a chain differs at %s", what, diff(o, ref0))
		x.Assert(!shares(c, d) && !shares(c, o) && !shares(d, o), "%s: objects in a chain share memory", what)
	case 5: // self copy
		call(o, "CopyFrom", deref(o))
		x.Assert(diff(o, ref0) == "", "%s: copying an object onto itself changed it at %s", what, diff(o, ref0))
		if hasMethod(o, "Equals") {
			c := copyOf(o)
			nan := false
			_ = nan
			eq := call(o, "Equals", deref(c))[0].Bool()
			x.Assert(eq || pat == 1, "%s: an object does not equal its copy", what)
			if pat == 0 {
				walk(reflect.ValueOf(c), func(path string, v reflect.Value) {
					if !v.CanSet() {
						return
					}
					switch v.Kind() {
					case reflect.Float64:
						old := v.Float()
						v.SetFloat(old + math.Max(1, math.Abs(old)))
						x.Assert(!call(o, "Equals", deref(c))[0].Bool(), "%s: equals an object that differs at %s", what, path)
						v.SetFloat(old)
					case reflect.Uint32, reflect.Uint64:
						old := v.Uint()
						v.SetUint(old ^ 1)
						x.Assert(!call(o, "Equals", deref(c))[0].Bool(), "%s: equals an object that differs at %s", what, path)
						v.SetUint(old)
					}
				}, "")
			}
		}
	}
	x.Step(1)
	x.State(tname[T](), sp.name, sh, pat, sc)
}

// c18sub: copying a single-key ciphertext into a slot of a multi-key ciphertext.
func c18sub[T TI](x *X) {
	parties := 1 + x.Choose(4, "parties")
	idx := x.Choose(parties, "index")
	typ := x.Choose(3, "type")
	sh := x.Choose(2, "shape")
	N, n := []int{16, 32}[sh], []int{5, 16}[sh]
	switch typ {
	case 0:
		in := tfhe.NewLWECiphertextCustom[T](n)
		out := mktfhe.NewLWECiphertextCustom[T](parties * n)
		fill(&in, 0)
		fill(&out, 1)
		v := append([]T{}, in.Value...)
		out.CopyFromSubKey(in, idx)
		want := make([]T, parties*n+1)
		want[0] = v[0]
		copy(want[1+idx*n:], v[1:])
		x.Assert(eqT(out.Value, want), "LWE CopyFromSubKey(%d) of %d: %v, want %v", idx, parties, out.Value, want)
		x.Assert(eqT(in.Value, v) && !shares(in, out), "LWE CopyFromSubKey changed or shares its input")
	case 1:
		in := tfhe.NewGLWECiphertextCustom[T](1, N)
		out := mktfhe.NewGLWECiphertextCustom[T](parties, N)
		fill(&in, 0)
		fill(&out, 1)
		ref := in.Copy()
		out.CopyFromSubKey(in, idx)
		for i := range out.Value {
			want := make([]T, N)
			if i == 0 {
				want = ref.Value[0].Coeffs
			} else if i == idx+1 {
				want = ref.Value[1].Coeffs
			}
			x.Assert(eqT(out.Value[i].Coeffs, want), "GLWE CopyFromSubKey(%d) of %d: component %d", idx, parties, i)
		}
		x.Assert(diff(in, ref) == "" && !shares(in, out), "GLWE CopyFromSubKey changed or shares its input")
		big := tfhe.NewGLWECiphertextCustom[T](2, N)
		x.Assert(x.Panics(func() { out.CopyFromSubKey(big, idx) }), "CopyFromSubKey accepts a ciphertext of rank 2")
	case 2:
		in := tfhe.NewFFTGLWECiphertextCustom[T](1, N)
		out := mktfhe.NewFFTGLWECiphertextCustom[T](parties, N)
		fill(&in, 0)
		fill(&out, 1)
		ref := in.Copy()
		out.CopyFromSubKey(in, idx)
		for i := range out.Value {
			want := make([]float64, N)
			if i == 0 {
				want = ref.Value[0].Coeffs
			} else if i == idx+1 {
				want = ref.Value[1].Coeffs
			}
			x.Assert(eqT(out.Value[i].Coeffs, want), "Fourier GLWE CopyFromSubKey(%d) of %d: component %d", idx, parties, i)
		}
		x.Assert(diff(in, ref) == "" && !shares(in, out), "Fourier GLWE CopyFromSubKey changed or shares its input")
		big := tfhe.NewFFTGLWECiphertextCustom[T](2, N)
		x.Assert(x.Panics(func() { out.CopyFromSubKey(big, idx) }), "CopyFromSubKey accepts a ciphertext of rank 2")
	}
	x.Step(1)
	x.State(tname[T](), "sub", parties, idx, typ, sh)
}

func init() {
	all := []string{"avx2", "purego"}
	reg := func(name, bound string, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C18", Name: name, Backends: all, Shards: 1, Bound: bound, Run: func(x *X) {
			if x.Bool("64") {
				f64(x)
			} else {
				f32(x)
			}
		}})
	}
	reg("types", "every copyable type x 3 shapes x 2 value patterns x 6 histories of Copy/CopyFrom/Clear/Equals, with memory disjointness", c18[uint32], c18[uint64])
	reg("subkey", "CopyFromSubKey of the 3 formats x 1-4 parties x every index x 2 shapes", c18sub[uint32], c18sub[uint64])
}
