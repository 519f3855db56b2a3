package main

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strings"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
)

// A registry of every operation of every stateful object, found by reflection, with deterministic arguments.
// Used to check independence of history (C13), of other threads (C14) and of the build (C07).

type opMode int

const (
	opReturn opMode = iota // results are returned
	opAssign               // written to the output argument, whatever it held
	opUpdate               // the output argument is also an input
)

type hostOp struct {
	name    string
	variant int
	mode    opMode
	out     int  // index of the output argument, -1
	unsafe  bool // may destroy its inputs, as documented
	random  bool // draws from a sampler
	buffer  bool // returns an internal buffer
	copies  bool // SafeCopy
	changes bool // registers a key
	args    func() []reflect.Value
	method  string
	recv    func(o any) reflect.Value // the exported part that has the method, nil: the object itself
}

func (o *hostOp) String() string { return fmt.Sprintf("%s/%d", o.name, o.variant) }

type host struct {
	name  string
	fresh func() any
	// keys returns long-lived values the object holds which no operation may change.
	keys func(o any) any
	ops  []*hostOp
	// parts is the operations of the exported parts of the object, and those that register keys.
	parts func() []*hostOp
}

type hctx[T TI] struct {
	k, N, n, def, big int
	parties           int
	G                 [2]tfhe.GadgetParameters[T]
	relin             tfhe.GadgetParameters[T]
	out               tfhe.GadgetParameters[T]
	lutFactor         int
	lutCount          int
	msg               int
	bfv               bool
	binary            bool
	fhew              bool
	sk, evk           any // a key to register
}

// hostSalt varies the operands of all operations.
var hostSalt uint64

var reUpdate = regexp.MustCompile(`(Mul|Prod|Permute|FwdFFT|InvFFT)(Add|Sub)`)

func addOps[T TI](h *host, c hctx[T]) {
	o := h.fresh()
	t := reflect.TypeOf(o)
	for _, op := range opsOf(t, c) {
		if !op.changes {
			h.ops = append(h.ops, op)
		}
	}
	h.parts = func() []*hostOp {
		var r []*hostOp
		for _, op := range opsOf(t, c) {
			if op.changes {
				r = append(r, op)
			}
		}
		partOps(reflect.ValueOf(o), "", func(o any) reflect.Value { return reflect.ValueOf(o) }, 0, false, func(t reflect.Type, name string, recv func(any) reflect.Value) {
			for _, op := range opsOf(t, c) {
				op.name, op.recv = name+op.name, recv
				r = append(r, op)
			}
		})
		return r
	}
}

// partOps finds the exported parts of an object that have methods of their own.
func partOps(v reflect.Value, name string, recv func(any) reflect.Value, depth int, own bool, found func(t reflect.Type, name string, recv func(any) reflect.Value)) {
	if v.Kind() == reflect.Pointer && own && v.Type().NumMethod() > 0 {
		found(v.Type(), name, recv)
	}
	for v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || depth > 3 {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() {
			continue
		}
		field := func(o any) reflect.Value { return recv(o).Elem().Field(i) }
		switch w := v.Field(i); {
		case w.Kind() == reflect.Pointer && !w.IsNil() && w.Elem().Kind() == reflect.Struct:
			partOps(w, name+f.Name+".", field, depth+1, !f.Anonymous, found)
		case w.Kind() == reflect.Slice && w.Type().Elem().Kind() == reflect.Pointer:
			for j := 0; j < w.Len(); j++ {
				if !w.Index(j).IsNil() {
					partOps(w.Index(j), fmt.Sprintf("%s%s[%d].", name, f.Name, j), func(o any) reflect.Value { return field(o).Index(j) }, depth+1, true, found)
				}
			}
		}
	}
}

// opsOf returns the methods of a type with deterministic arguments.
func opsOf[T TI](t reflect.Type, c hctx[T]) (ops []*hostOp) {
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		nm := m.Name
		if strings.HasSuffix(nm, "Parallel") || strings.HasSuffix(nm, "ParallelTo") {
			continue
		}
		nv := 2
		if strings.HasPrefix(nm, "Gen") && !strings.HasPrefix(nm, "GenLUT") {
			nv = 1
		}
		for v := 0; v < nv; v++ {
			op := &hostOp{name: nm, method: nm, variant: v, out: -1}
			if nm == "AddSecretKey" || nm == "AddEvaluationKey" {
				op.changes = true
			}
			for j := 1; j < m.Type.NumIn(); j++ {
				if s := m.Type.In(j).String(); strings.Contains(s, "GadgetParameters") && m.Type.NumIn() == 2 {
					op.buffer = strings.HasSuffix(nm, "Buffer")
				}
			}
			op.copies = nm == "SafeCopy" || nm == "PublicEncryptor"
			op.random = strings.Contains(nm, "ncrypt") && !strings.Contains(nm, "Decrypt") && !strings.Contains(nm, "Encryption") && !strings.Contains(nm, "UniDecrypt") || strings.HasPrefix(nm, "Gen") && !strings.HasPrefix(nm, "GenLUT") || strings.HasPrefix(nm, "Sanitize") || strings.HasPrefix(nm, "ReRand")
			op.unsafe = strings.HasSuffix(nm, "Unsafe")
			base := strings.TrimSuffix(nm, "Unsafe")
			switch {
			case strings.HasSuffix(nm, "InPlace"):
				op.mode, op.out = opUpdate, 0
			case nm == "EncryptGLWEBody" || nm == "EncryptLWEBody":
				op.mode, op.out = opUpdate, 0
			case strings.HasSuffix(base, "To"):
				op.mode, op.out = opAssign, 0
				if reUpdate.MatchString(nm) {
					op.mode = opUpdate
				}
				if strings.HasPrefix(t.String(), "*mktfhe.Evaluator") && (strings.HasPrefix(nm, "Hybrid") || strings.HasPrefix(nm, "External")) {
					op.out = m.Type.NumIn() - 2
				}
				if nm == "DecryptFFTGGSWTo" || nm == "DecryptFFTGGSWPolyTo" {
					op.out = 1
				}
			}
			mt, vv, ii := m.Type, v, i
			op.args = func() []reflect.Value {
				r := make([]reflect.Value, mt.NumIn()-1)
				for j := range r {
					r[j] = hostArg(c, t, nm, mt.In(j+1), j, mt.NumIn()-1, vv, op.out == j, uint64(ii*1000+vv*100+j*7+1)*0x9e3779b97f4a7c15+hostSalt)
				}
				return r
			}
			ops = append(ops, op)
		}
	}
	return ops
}

func hostArg[T TI](c hctx[T], host reflect.Type, m string, t reflect.Type, idx, nArgs, v int, isOut bool, salt uint64) reflect.Value {
	ret := func(p any) reflect.Value { dirty(p, salt); return reflect.ValueOf(p).Elem() }
	bits := uint(bitsOf[T]())
	s := strings.NewReplacer("[uint64]", "", "[uint32]", "").Replace(t.String())
	g := c.G[v]
	def, rank := c.def, c.k
	hs := host.String()
	if strings.HasPrefix(m, "BlindRotate") && c.bfv == false {
		def = c.n
	}
	if strings.HasPrefix(m, "DefaultKeySwitch") {
		if isOut {
			def = c.n
		} else {
			def = c.big
		}
	}
	if c.bfv {
		tr := c.k * (c.k + 3) / 2
		if m == "TensorTo" && isOut || strings.HasPrefix(m, "Relinearize") && !isOut {
			rank = tr
		}
		if strings.HasPrefix(m, "Pack") {
			def = c.k * c.N
		}
	}
	if m == "ReRandLWETo" {
		def = c.k * c.N
	}
	switch s {
	case "tfhe.LWECiphertext":
		o := tfhe.NewLWECiphertextCustom[T](def)
		return ret(&o)
	case "[]tfhe.LWECiphertext":
		nn := c.lutCount
		if nn == 0 || strings.Contains(m, "Bits") {
			nn = 5
		}
		o := make([]tfhe.LWECiphertext[T], nn)
		for i := range o {
			o[i] = tfhe.NewLWECiphertextCustom[T](def)
		}
		return ret(&o)
	case "[]mktfhe.LWECiphertext":
		o := make([]mktfhe.LWECiphertext[T], 5)
		for i := range o {
			o[i] = mktfhe.NewLWECiphertextCustom[T](c.parties * def)
		}
		return ret(&o)
	case "mktfhe.LWECiphertext":
		o := mktfhe.NewLWECiphertextCustom[T](c.parties * def)
		return ret(&o)
	case "tfhe.LevCiphertext":
		o := tfhe.NewLevCiphertextCustom(c.def, g)
		return ret(&o)
	case "tfhe.GSWCiphertext":
		o := tfhe.NewGSWCiphertextCustom(c.def, g)
		return ret(&o)
	case "tfhe.GLWECiphertext":
		o := tfhe.NewGLWECiphertextCustom[T](rank, c.N)
		return ret(&o)
	case "tfhe.GLevCiphertext":
		o := tfhe.NewGLevCiphertextCustom(c.k, c.N, g)
		return ret(&o)
	case "tfhe.GGSWCiphertext":
		o := tfhe.NewGGSWCiphertextCustom(c.k, c.N, g)
		return ret(&o)
	case "tfhe.FFTGLWECiphertext":
		o := tfhe.NewFFTGLWECiphertextCustom[T](c.k, c.N)
		return ret(&o)
	case "tfhe.FFTGLevCiphertext":
		o := tfhe.NewFFTGLevCiphertextCustom(c.k, c.N, g)
		if strings.HasPrefix(hs, "*mktfhe") {
			o = tfhe.NewFFTGLevCiphertextCustom(1, c.N, c.relin)
		}
		return ret(&o)
	case "tfhe.FFTGGSWCiphertext":
		if strings.HasPrefix(m, "CircuitBootstrap") {
			g = c.out
		}
		o := tfhe.NewFFTGGSWCiphertextCustom(c.k, c.N, g)
		return ret(&o)
	case "mktfhe.GLWECiphertext":
		o := mktfhe.NewGLWECiphertextCustom[T](c.parties, c.N)
		return ret(&o)
	case "mktfhe.FFTGLWECiphertext":
		o := mktfhe.NewFFTGLWECiphertextCustom[T](c.parties, c.N)
		return ret(&o)
	case "mktfhe.UniEncryption":
		o := mktfhe.NewUniEncryptionCustom(c.N, c.relin)
		return ret(&o)
	case "mktfhe.FFTUniEncryption":
		o := mktfhe.NewFFTUniEncryptionCustom(c.N, c.relin)
		return ret(&o)
	case "tfhe.LWESecretKey":
		o := tfhe.NewLWESecretKeyCustom[T](c.def)
		dirty(&o, salt)
		for i := range o.Value {
			o.Value[i] >>= bits - 1
		}
		return reflect.ValueOf(o)
	case "tfhe.GLWESecretKey":
		o := tfhe.NewGLWESecretKeyCustom[T](c.k, c.N)
		dirty(&o, salt)
		for i := range o.Value {
			for j := range o.Value[i].Coeffs {
				o.Value[i].Coeffs[j] >>= bits - 1
			}
		}
		return reflect.ValueOf(o)
	case "tfhe.FFTGLWESecretKey":
		o := tfhe.NewFFTGLWESecretKeyCustom[T](c.k, c.N)
		return ret(&o)
	case "tfhe.LWEPlaintext":
		o := tfhe.LWEPlaintext[T]{Value: T(salt >> (64 - bits))}
		return reflect.ValueOf(o)
	case "tfhe.GLWEPlaintext":
		o := tfhe.NewGLWEPlaintextCustom[T](c.N)
		return ret(&o)
	case "tfhe.LookUpTable":
		o := tfhe.NewLUTCustom[T](c.lutFactor, c.N)
		return ret(&o)
	case "tfhe.LWEKeySwitchKey":
		o := tfhe.NewLWEKeySwitchKeyCustom(c.def, c.def, g)
		return ret(&o)
	case "tfhe.GLWEKeySwitchKey":
		o := tfhe.NewGLWEKeySwitchKeyCustom(c.k, c.k, c.N, g)
		return ret(&o)
	case "tfhe.SecretKey":
		return reflect.ValueOf(c.sk)
	case "mktfhe.EvaluationKey":
		return reflect.ValueOf(c.evk)
	case "tfhe.GadgetParameters":
		if strings.Contains(m, "Uni") {
			g = c.relin
		}
		return reflect.ValueOf(g)
	case "poly.Poly":
		o := poly.NewPoly[T](c.N)
		return ret(&o)
	case "poly.FFTPoly":
		o := poly.NewFFTPoly(c.N)
		if strings.HasPrefix(m, "Short") { // the transform of a short polynomial
			p := poly.NewPoly[T](c.N)
			for i := range p.Coeffs {
				p.Coeffs[i] = T(mix64(salt+uint64(i)) % 3)
			}
			return reflect.ValueOf(poly.NewEvaluator[T](c.N).FwdFFT(p))
		}
		return ret(&o)
	case "[]poly.Poly", "[]poly.FFTPoly", "[][]poly.FFTPoly":
		fp := func() []poly.FFTPoly {
			o := make([]poly.FFTPoly, g.Level())
			for i := range o {
				o[i] = poly.NewFFTPoly(c.N)
			}
			return o
		}
		switch s {
		case "[]poly.Poly":
			o := make([]poly.Poly[T], g.Level())
			for i := range o {
				o[i] = poly.NewPoly[T](c.N)
			}
			return ret(&o)
		case "[]poly.FFTPoly":
			o := fp()
			return ret(&o)
		}
		o := make([][]poly.FFTPoly, c.k+1)
		for i := range o {
			o[i] = fp()
		}
		return ret(&o)
	case "[]uint64", "[]uint32":
		o := make([]T, g.Level())
		return ret(&o)
	case "[]int":
		nn := c.N
		if strings.HasPrefix(m, "GenEvalKey") || strings.Contains(m, "Galois") {
			return reflect.ValueOf([]int{3, 5})
		}
		o := make([]int, nn)
		dirty(&o, salt)
		if !isOut {
			for i := range o {
				o[i] = int(uint64(o[i]) % 7)
			}
			o = o[:nn-3*v]
		}
		return reflect.ValueOf(o)
	case "map[int]tfhe.GLWEKeySwitchKey":
		return reflect.ValueOf(map[int]tfhe.GLWEKeySwitchKey[T]{})
	case "bool":
		return reflect.ValueOf(v == 1)
	case "int":
		switch {
		case strings.HasPrefix(m, "Add") && strings.HasSuffix(m, "Key"):
			return reflect.ValueOf(v)
		case strings.HasPrefix(m, "Hybrid"), strings.HasPrefix(m, "External"):
			return reflect.ValueOf(v)
		case strings.Contains(m, "Permute"):
			if c.bfv {
				return reflect.ValueOf([]int{3, 5}[v])
			}
			return reflect.ValueOf([]int{5, 2*c.N - 3}[v])
		case strings.HasPrefix(m, "EncryptLWEBits"):
			return reflect.ValueOf([]int{11, 21}[v])
		case strings.Contains(m, "Monomial"):
			return reflect.ValueOf([]int{5, -c.N - 7}[v])
		}
		return reflect.ValueOf(v + 1)
	case "uint64", "uint32":
		if strings.Contains(m, "Custom") {
			if idx == nArgs-1 && !strings.Contains(m, "LUTCustomFull") {
				return reflect.ValueOf(T(1) << (bits - 4 + uint(v)))
			}
			return reflect.ValueOf(T(4 >> v))
		}
		return reflect.ValueOf(T(salt >> (64 - bits)))
	case "float64":
		return reflect.ValueOf([]float64{3, -0.375}[v])
	case "complex128":
		return reflect.ValueOf([]complex128{complex(3, -2), complex(-0.25, 1)}[v])
	case "func(int) int":
		return reflect.ValueOf(func(x int) int { return (3+v)*x + 1 })
	case "func(int) uint64", "func(int) uint32":
		return reflect.ValueOf(func(x int) T { return T(uint64(x+3+v) * 0x9e3779b97f4a7c15 >> (64 - bits)) })
	case "[]func(int) int":
		r := make([]func(int) int, max(1, c.lutCount-v))
		for i := range r {
			r[i] = func(x int) int { return (3+v+i)*x + 1 }
		}
		return reflect.ValueOf(r)
	case "[]func(int) uint64", "[]func(int) uint32":
		r := make([]func(int) T, max(1, c.lutCount-v))
		for i := range r {
			r[i] = func(x int) T { return T(uint64(x+3+v+i) * 0x9e3779b97f4a7c15 >> (64 - bits)) }
		}
		return reflect.ValueOf(r)
	}
	panic("no argument of type " + t.String() + " for " + hs + "." + m)
}

// hostOp.run calls the operation and returns its results (the output argument or the returned values).
func (op *hostOp) run(o any, args []reflect.Value) []reflect.Value {
	v := reflect.ValueOf(o)
	if op.recv != nil {
		v = op.recv(o)
	}
	r := v.MethodByName(op.method).Call(args)
	if op.out >= 0 {
		return args[op.out : op.out+1]
	}
	return r
}

func vals(v []reflect.Value) []any {
	r := make([]any, len(v))
	for i := range v {
		if v[i].Kind() != reflect.Func && v[i].Kind() != reflect.Pointer {
			r[i] = v[i].Interface()
		}
	}
	return r
}

// inputs returns the arguments which the operation may not change.
func (op *hostOp) inputs(args []reflect.Value) []any {
	var r []any
	for i, a := range args {
		if i != op.out && a.Kind() != reflect.Func {
			r = append(r, a.Interface())
		}
	}
	return r
}

var hostShapes = []shape{
	{n: 6, k: 1, N: 16, lut: 16, block: 1, order: brks, msg: 4},
	{n: 6, k: 2, N: 16, lut: 32, block: 2, order: ksbr, msg: 4},
	{n: 6, k: 1, N: 16, lut: 16, block: 3, order: ksbr, msg: 4},
	{n: 16, k: 1, N: 16, lut: 64, block: 1, order: ksbr, msg: 4},
}

// baseHosts is the operations of the single-key scheme on one parameter shape.
func baseHosts[T TI](si int) []*host {
	return core.Memo(fmt.Sprint("hosts:", tname[T](), si), func() []*host {
		s := hostShapes[si]
		e := env[T](s)
		p := e.P
		c := hctx[T]{k: s.k, N: s.N, n: s.n, def: p.DefaultLWEDimension(), big: p.GLWEDimension(), lutFactor: s.lut / s.N, msg: s.msg}
		c.G = [2]tfhe.GadgetParameters[T]{gad[T](5, 4).Compile(), gad[T](8, 2).Compile()}
		var r []*host
		add := func(name string, fresh func() any, keys func(o any) any) {
			h := &host{name: fmt.Sprintf("%s (%s)", name, s), fresh: fresh, keys: keys}
			addOps(h, c)
			r = append(r, h)
		}
		none := func(any) any { return 0 }
		evk := func(any) any { return e.EVK }
		sk := func(any) any { return e.SK }
		add("Evaluator", func() any { return tfhe.NewEvaluator(p, e.EVK) }, evk)
		add("BinaryEvaluator", func() any { return tfhe.NewBinaryEvaluator(p, e.EVK) }, evk)
		add("Decomposer", func() any { return tfhe.NewDecomposer[T](s.N) }, none)
		add("Encoder", func() any { return tfhe.NewEncoder(p) }, none)
		add("GLWETransformer", func() any { return tfhe.NewGLWETransformer[T](s.N) }, none)
		add("Encryptor", func() any { return tfhe.NewEncryptorWithKey(p, e.SK) }, sk)
		add("BinaryEncryptor", func() any { return tfhe.NewBinaryEncryptorWithKey(p, e.SK) }, sk)
		if si == 0 {
			c.N = 32
			add("poly.Evaluator", func() any { return poly.NewEvaluator[T](32) }, none)
			c.N = 256
			add("poly.Evaluator 256", func() any { return poly.NewEvaluator[T](256) }, none)
		}
		return r
	})
}

func mkHosts[T TI](si int) []*host {
	return core.Memo(fmt.Sprint("mkhosts:", tname[T](), si), func() []*host {
		s := []mkShape{{n: 6, N: 16, block: 1, parties: 2, order: brks, msg: 4}, {n: 6, N: 16, block: 2, parties: 2, order: ksbr, msg: 4}}[si]
		e := mkenv[T](s)
		sp := e.P.SubParams()
		c := hctx[T]{k: 1, N: s.N, n: s.n, def: sp.DefaultLWEDimension(), big: s.N, lutFactor: 1, msg: s.msg, parties: s.parties, relin: e.P.RelinKeyParameters(), sk: e.SK[1], evk: e.EVK[1]}
		c.G = [2]tfhe.GadgetParameters[T]{gad[T](5, 4).Compile(), gad[T](8, 2).Compile()}
		var r []*host
		add := func(name string, fresh func() any, keys func(o any) any) {
			h := &host{name: fmt.Sprintf("%s (%s)", name, s), fresh: fresh, keys: keys}
			addOps(h, c)
			r = append(r, h)
		}
		sk := func(any) any { return e.SK }
		evk := func(any) any { return e.EVK }
		add("mk.Evaluator", func() any { return e.eval(0, 1) }, evk)
		add("mk.BinaryEvaluator", func() any { return mktfhe.NewBinaryEvaluator(e.P, e.evkMap(0, 1)) }, evk)
		add("mk.Decryptor", func() any { return e.dec(0, 1) }, sk)
		add("mk.BinaryDecryptor", func() any { return mktfhe.NewBinaryDecryptor(e.P, e.skMap(0, 1)) }, sk)
		add("mk.Encryptor", func() any { return e.enc(1) }, sk)
		return r
	})
}

func xHosts[T TI]() []*host {
	return core.Memo(fmt.Sprint("xhosts:", tname[T]()), func() []*host {
		var r []*host
		s := shape{n: 6, k: 1, N: 16, lut: 16, block: 1, order: brks, msg: 4}
		add := func(name string, c hctx[T], fresh func() any, keys func(o any) any) {
			c.G = [2]tfhe.GadgetParameters[T]{gad[T](5, 4).Compile(), gad[T](8, 2).Compile()}
			h := &host{name: name, fresh: fresh, keys: keys}
			addOps(h, c)
			r = append(r, h)
		}
		ctx := func(s shape) hctx[T] {
			p := lit[T](s).Compile()
			return hctx[T]{k: s.k, N: s.N, n: s.n, def: p.DefaultLWEDimension(), big: p.GLWEDimension(), lutFactor: s.lut / s.N, msg: s.msg}
		}
		for _, k := range []int{1, 2} {
			s := s
			s.k = k
			e := env[T](s)
			kg := xtfhe.NewBFVKeyGenerator(e.P, e.SK)
			g := gad[T](6, 4).Compile()
			evk := kg.GenEvalKey([]int{3, 5, 9, 17}, g)
			c := ctx(s)
			c.bfv = true
			add(fmt.Sprintf("BFVEvaluator rank %d", k), c, func() any { return xtfhe.NewBFVEvaluator(e.P, evk) }, func(any) any { return evk.RelinKey })
		}
		for i, bl := range []int{1, 2} {
			s := s
			s.block, s.msg, s.order = bl, 2, []tfhe.BootstrapOrder{brks, ksbr}[i]
			e := env[T](s)
			ml := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: lit[T](s), LUTCount: 2}
			mp := ml.Compile()
			c := ctx(s)
			c.lutCount = 2
			add(fmt.Sprintf("ManyLUTEvaluator block %d", bl), c, func() any { return xtfhe.NewManyLUTEvaluator(mp, e.EVK) }, func(any) any { return e.EVK })
			cp := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: ml, SchemeSwitchParams: gad[T](6, 3), TraceKeySwitchParams: gad[T](6, 4), OutputParams: gad[T](4, 3)}.Compile()
			cbk := xtfhe.NewCircuitBootstrapKeyGenerator(cp, e.SK).GenCircuitBootstrapKey()
			c.out = gad[T](4, 3).Compile()
			add(fmt.Sprintf("CircuitBootstrapper block %d", bl), c, func() any { return xtfhe.NewCircuitBootstrapper(cp, e.EVK, cbk) }, func(any) any { return []any{e.EVK, cbk.SchemeSwitchKey} })
		}
		for i, w := range []int{1, 3} {
			s := s
			s.order = []tfhe.BootstrapOrder{brks, ksbr}[i]
			fp := xtfhe.FHEWParametersLiteral[T]{BaseParams: lit[T](s), SecretKeyStdDev: 1 / math.Exp2(float64(bitsOf[T]())), WindowSize: w}.Compile()
			enc := xtfhe.NewFHEWEncryptor(fp)
			evk := enc.GenEvalKey()
			c := ctx(s)
			c.fhew = true
			add(fmt.Sprintf("FHEWEvaluator window %d", w), c, func() any { return xtfhe.NewFHEWEvaluator(fp, evk) }, func(any) any { return []any{evk.BlindRotateKey, evk.KeySwitchKey, evk.GaloisKey} })
		}
		return r
	})
}

// moreHosts is public-key encryptors, key generators and the sanitiser.
func moreHosts[T TI]() []*host {
	return core.Memo("morehosts:"+tname[T](), func() []*host {
		var r []*host
		add := func(name string, c hctx[T], fresh func() any, keys any) {
			c.G = [2]tfhe.GadgetParameters[T]{gad[T](5, 4).Compile(), gad[T](8, 2).Compile()}
			h := &host{name: name, fresh: fresh, keys: func(any) any { return keys }}
			addOps(h, c)
			r = append(r, h)
		}
		ctx := func(s shape) hctx[T] {
			p := lit[T](s).Compile()
			return hctx[T]{k: s.k, N: s.N, n: s.n, def: p.DefaultLWEDimension(), big: p.GLWEDimension(), lutFactor: s.lut / s.N, msg: s.msg}
		}
		for k := 1; k <= 2; k++ {
			s := shape{n: 6, k: k, N: 16, lut: 16, block: 1, order: ksbr, msg: 4}
			e := env[T](s)
			pk := tfhe.NewEncryptorWithKey(e.P, e.SK).GenPublicKey()
			add(fmt.Sprint("PublicEncryptor rank ", k), ctx(s), func() any { return tfhe.NewPublicEncryptor(e.P, pk) }, pk)
			add(fmt.Sprint("BinaryPublicEncryptor rank ", k), ctx(s), func() any { return tfhe.NewBinaryPublicEncryptor(e.P, pk) }, pk)
			c := ctx(s)
			c.bfv = true
			add(fmt.Sprint("BFVKeyGenerator rank ", k), c, func() any { return xtfhe.NewBFVKeyGenerator(e.P, e.SK) }, e.SK)
		}
		s := shape{n: 6, k: 1, N: 16, lut: 16, block: 1, order: ksbr, msg: 4}
		s.msg = 2
		e := env[T](s)
		cp := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: xtfhe.ManyLUTParametersLiteral[T]{BaseParams: lit[T](s), LUTCount: 2}, SchemeSwitchParams: gad[T](6, 3), TraceKeySwitchParams: gad[T](6, 4), OutputParams: gad[T](4, 3)}.Compile()
		add("CircuitBootstrapKeyGenerator", ctx(s), func() any { return xtfhe.NewCircuitBootstrapKeyGenerator(cp, e.SK) }, e.SK)
		fp := xtfhe.FHEWParametersLiteral[T]{BaseParams: lit[T](s), SecretKeyStdDev: 1 / math.Exp2(float64(bitsOf[T]())), WindowSize: 1}.Compile()
		add("FHEWEncryptor", ctx(s), func() any { return xtfhe.NewFHEWEncryptorWithKey(fp, e.SK) }, e.SK)
		ms := mkShape{n: 6, N: 16, block: 1, parties: 2, order: ksbr, msg: 4}
		me := mkenv[T](ms)
		sp := me.P.SubParams()
		c := hctx[T]{k: 1, N: ms.N, n: ms.n, def: sp.DefaultLWEDimension(), big: ms.N, lutFactor: 1, msg: ms.msg, parties: ms.parties, relin: me.P.RelinKeyParameters()}
		pk := tfhe.NewEncryptorWithKey(sp, me.SK[1]).GenPublicKey()
		add("mk.PublicEncryptor", c, func() any { return mktfhe.NewPublicEncryptor(me.P, 1, pk) }, pk)
		add("mk.BinaryPublicEncryptor", c, func() any { return mktfhe.NewBinaryPublicEncryptor(me.P, 1, pk) }, pk)
		add("mk.BinaryEncryptor", c, func() any { return mktfhe.NewBinaryEncryptorWithKey(me.P, 1, crs, me.SK[1]) }, me.SK[1])
		add("mk.GLWETransformer", c, func() any { return mktfhe.NewGLWETransformer[T](ms.N) }, 0)
		ss := c28shapes()[0]
		se := sanOf[T](ss)
		add("Sanitizer", ctx(ss.s), func() any { return se.san() }, []any{se.pk, se.e.EVK})
		return r
	})
}

func allHosts[T TI]() []*host {
	return core.Memo("allhosts:"+tname[T](), func() []*host {
		var r []*host
		for i := range hostShapes {
			r = append(r, baseHosts[T](i)...)
		}
		for i := 0; i < 2; i++ {
			r = append(r, mkHosts[T](i)...)
		}
		r = append(r, xHosts[T]()...)
		return append(r, moreHosts[T]()...)
	})
}
