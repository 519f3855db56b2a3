package main

import (
	"bytes"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/math/vec"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C07: every build computes the same.  The process of the default build executes a choice vector, servers of the other
// builds (CPU features off, AVX2 off, FMA off, pure Go) execute the same one, and the values are compared.

// Operations whose integer results depend on the rounding of the Fourier transform.  Everything else is exact.
var (
	reFourier = regexp.MustCompile(`FFTPolyMul|PolyMulFFT|InvFFT`)                                                     // products by arbitrary Fourier values
	reProd    = regexp.MustCompile(`Prod|Permute|Pack|Tensor|Relinearize|^Mul|KeySwitchGLWE|CMux|SchemeSwitch|ToGGSW`) // one decomposition
	// several steps: the rounding may change a digit and with it the whole mask; see the meaning harness
	reSteps = regexp.MustCompile(`BlindRotate|Bootstrap|^(AND|NAND|OR|NOR|XOR|XNOR)(To)?$|^(Partial)?Trace|Sanitize`)
)

func c07same(x *X, what string, op string, bits int, a, b *trace, build string) {
	x.Assert(b.Err == "", "%s: the %s build fails: %s", what, build, b.Err)
	d := differ(a, b)
	if d.exact {
		return
	}
	x.Assert(!d.shape, "%s: the %s build gives results of another shape (%s)", what, build, d.where)
	if strings.HasPrefix(op, "Gen") && !strings.HasPrefix(op, "GenLUT") || strings.Contains(op, "Encrypt") {
		x.Assert(d.dist == 0, "%s: the %s build gives another result: %s", what, build, d.where)
	}
	lim := uint64(0)
	short := strings.HasPrefix(op, "Short")
	switch {
	case reFourier.MatchString(op) && !short:
		lim = 1 << 52
		if bits == 32 {
			lim = 1 << 20
		}
	case reProd.MatchString(op):
		lim = 1 << 44
		if bits == 32 {
			lim = 1 << 8
		}
	}
	x.Assert(d.dist <= lim, "%s: the %s build is off by 2^%d, permitted is 2^%d: %s", what, build, bitLen(d.dist), bitLen(lim), d.where)
	x.Assert(d.rel <= 1e-12, "%s: the %s build is off by %g of the largest value: %s", what, build, d.rel, d.where)
}

// c07hosts adds the polynomial evaluators of other degrees.
func c07hosts[T TI](thorough bool) []*host {
	return core.Memo(fmt.Sprint("c07hosts", tname[T](), thorough), func() []*host {
		r := append([]*host{}, allHosts[T]()...)
		ns := []int{16, 64, 128, 512, 1024, 2048}
		if thorough {
			ns = append(ns, 4096, 8192, 16384, 32768)
		}
		for _, n := range ns {
			c := hctx[T]{k: 1, N: n, n: 6, def: 6, big: n, lutFactor: 1, msg: 4}
			c.G = [2]tfhe.GadgetParameters[T]{gad[T](5, 4).Compile(), gad[T](8, 2).Compile()}
			for i, f := range []func() any{func() any { return poly.NewEvaluator[T](n) }, func() any { return tfhe.NewDecomposer[T](n) }, func() any { return tfhe.NewGLWETransformer[T](n) }} {
				h := &host{name: fmt.Sprintf("%s (degree %d)", []string{"poly.Evaluator", "Decomposer", "GLWETransformer"}[i], n), fresh: f, keys: func(any) any { return 0 }}
				addOps(h, c)
				r = append(r, h)
			}
		}
		return r
	})
}

// c07ops: every operation of every object on equal inputs.
func c07ops[T TI](x *X) {
	hs := c07hosts[T](x.Thorough())
	h := hs[x.Choose(len(hs), "object")]
	op := h.ops[x.Choose(len(h.ops), "operation")]
	if !strings.HasPrefix(op.name, "Gen") && (reSteps.MatchString(op.name) || strings.HasPrefix(h.name, "mk.") && strings.Contains(op.name, "Prod")) {
		return
	}
	pat := x.Choose(x.Pick(3, 12), "operands")
	body := func(x *X, t *trace, _ int, _ []byte) {
		defer func() {
			if e := recover(); e != nil {
				t.L = nil
				t.add("panic", "panics")
			}
		}()
		o := h.fresh()
		hostSalt = uint64(pat) * 0xd1342543de82ef95
		defer func() { hostSalt = 0 }()
		t.add(op.String(), vals(op.run(o, op.args()))...)
	}
	a := on(x, "C07/operations", x.Backend(), 0, nil, body)
	if serving != nil {
		return
	}
	for _, b := range otherBuilds {
		c07same(x, fmt.Sprintf("%s of %s, operands %d", op, h.name, pat), op.name, bitsOf[T](), a, on(x, "C07/operations", b, 0, nil, body), b)
	}
	x.Step(len(otherBuilds))
	x.State(tname[T](), h.name, op.String(), pat)
}

// c07samplers: equal seeds give equal samples, also from the system source.
func c07samplers[T TI](x *X) {
	kind := x.Choose(12, "sampler")
	seeded := x.Bool("seeded")
	sd := x.Choose(x.Pick(16, 128), "seed")
	n := core.OneOf(x, "length", []int{1, 3, 16, 1000, 5000})
	body := func(x *X, t *trace, _ int, _ []byte) {
		seed := []byte(fmt.Sprint("seed", sd))
		core.Reseed(string(seed))
		v := make([]T, n)
		p := poly.NewPoly[T](1024)
		us, bs := csprng.NewUniformSampler[T](), csprng.NewBinarySampler[T]()
		gs := csprng.NewGaussianSampler[T]()
		if seeded {
			us, bs = csprng.NewUniformSamplerWithSeed[T](seed), csprng.NewBinarySamplerWithSeed[T](seed)
			gs = csprng.NewGaussianSamplerWithSeed[T](seed, 3.2)
		}
		dev := []float64{0.3, 3.2, 1 << 20, 12345.678}[sd%4]
		switch kind {
		case 0:
			us.SampleVecTo(v)
		case 1:
			for i := range v {
				v[i] = us.Sample()
			}
		case 2:
			for i := range v {
				v[i] = us.SampleN(T(i*i + sd + 1))
			}
		case 3:
			us.SamplePolyTo(p)
		case 4:
			bs.SampleVecTo(v)
		case 5:
			for i := range v {
				v[i] = bs.Sample()
			}
		case 6:
			b := []int{1, 2, 3, 7, 16}[sd%5]
			v = make([]T, (n+b-1)/b*b)
			bs.SampleBlockVecTo(v, b)
		case 7:
			bs.SampleBlockPolyTo(p, []int{1, 2, 8, 64}[sd%4])
		case 8:
			for i := range v {
				v[i] = gs.Sample(dev)
			}
		case 9:
			gs.SampleVecTo(v, dev)
		case 10:
			dirty(&p, uint64(sd))
			gs.SamplePolyAddTo(p, dev)
			gs.SamplePolySubTo(p, dev*2)
		case 11:
			gs.SamplePolyTo(p, dev)
			bs.SamplePolyTo(poly.Poly[T]{Coeffs: v})
		}
		t.add("samples", v, p)
	}
	a := on(x, "C07/samplers", x.Backend(), 0, nil, body)
	if serving != nil {
		return
	}
	for _, b := range otherBuilds {
		d := differ(a, on(x, "C07/samplers", b, 0, nil, body))
		x.Assert(d.exact, "sampler %d (seeded %v, seed %d, %d values): the %s build gives other samples: %s", kind, seeded, sd, n, b, d.where)
	}
	x.Step(len(otherBuilds))
	x.State(tname[T](), kind, fmt.Sprint(seeded), sd, n)
}

// c07vec: the vector package and the numeric helpers.
func c07vec[T TI](x *X) {
	n := x.Choose(x.Pick(70, 140), "length")
	off := x.Choose(4, "offset")
	pat := x.Choose(x.Pick(2, 8), "operands")
	body := func(x *X, t *trace, _ int, _ []byte) {
		mk := func(salt uint64) []T {
			v := make([]T, n+off)
			for i := range v {
				v[i] = T(mix64(salt + uint64(pat*1000+i)))
			}
			return v[off:]
		}
		a, b := mk(1), mk(1<<20)
		c := T(mix64(uint64(n + pat)))
		do := func(f func(o []T)) { o := mk(1 << 30); f(o); t.add("vec", o) }
		do(func(o []T) { vec.AddTo(o, a, b) })
		do(func(o []T) { vec.SubTo(o, a, b) })
		do(func(o []T) { vec.NegTo(o, a) })
		do(func(o []T) { vec.ScalarMulTo(o, a, c) })
		do(func(o []T) { vec.ScalarMulAddTo(o, a, c) })
		do(func(o []T) { vec.ScalarMulSubTo(o, a, c) })
		do(func(o []T) { vec.MulTo(o, a, b) })
		do(func(o []T) { vec.MulAddTo(o, a, b) })
		do(func(o []T) { vec.MulSubTo(o, a, b) })
		do(func(o []T) { vec.ReverseTo(o, a) })
		t.add("dot", []uint64{uint64(vec.Dot(a, b))})
		for i := range a {
			t.add("num", []uint64{uint64(num.DivRound(int64(a[i]), int64(b[i]%97)+1)), uint64(num.Sqrt(int(a[i] % 100000)))})
		}
	}
	a := on(x, "C07/vectors", x.Backend(), 0, nil, body)
	if serving != nil {
		return
	}
	for _, b := range otherBuilds {
		d := differ(a, on(x, "C07/vectors", b, 0, nil, body))
		x.Assert(d.exact, "vectors of %d (offset %d): the %s build differs: %s", n, off, b, d.where)
	}
	x.Step(10 * len(otherBuilds))
	x.State(tname[T](), n, off, pat)
}

// c07bytes: bytes written by one build are those of every other, and are read back there as the same object.
func c07bytes[T TI](x *X) {
	specs := serialSpecs[T]()
	s := specs[x.Choose(len(specs), "type")]
	sh := x.Choose(nObjShapes, "shape")
	pat := x.Choose(2, "pattern")
	body := func(x *X, t *trace, stage int, in []byte) {
		if stage == 0 {
			t.Out = toBytes(x, s.name, filled(s, sh, false, pat))
			return
		}
		o := zeroOf(filled(s, sh, false, pat))
		if _, err := o.(serial).ReadFrom(bytes.NewReader(in)); err != nil {
			t.Err = err.Error()
			return
		}
		t.add("object", o)
		t.Out = toBytes(x, s.name, o)
	}
	const key = "C07/bytes"
	a := on(x, key, x.Backend(), 0, nil, body)
	if serving != nil {
		return
	}
	r := on(x, key, x.Backend(), 1, a.Out, body)
	for _, b := range otherBuilds {
		o := on(x, key, b, 0, nil, body)
		x.Assert(bytes.Equal(a.Out, o.Out), "%s shape %d: the %s build writes other bytes %s", s.name, sh, b, o.Err)
		q := on(x, key, b, 1, a.Out, body)
		x.Assert(q.Err == "" && differ(r, q).exact && bytes.Equal(q.Out, a.Out), "%s shape %d: the %s build reads another object: %s", s.name, sh, b, q.Err)
	}
	x.Step(2 * len(otherBuilds))
	x.State(tname[T](), s.name, sh, pat)
}

type pack struct{ buf bytes.Buffer }

func (p *pack) put(o any) *pack {
	if reflect.ValueOf(o).Kind() != reflect.Pointer {
		v := reflect.New(reflect.TypeOf(o))
		v.Elem().Set(reflect.ValueOf(o))
		o = v.Interface()
	}
	if _, err := o.(serial).WriteTo(&p.buf); err != nil {
		panic(err)
	}
	return p
}

func (p *pack) get(o serial) *pack {
	if _, err := o.ReadFrom(&p.buf); err != nil {
		panic(err)
	}
	return p
}

// c07use: one build generates keys and encrypts, one evaluates, one decrypts.
func c07use[T TI](x *X) {
	builds := append([]string{x.Backend()}, otherBuilds...)
	if serving != nil {
		builds = append([]string{"avx2"}, otherBuilds...)
	}
	gen := x.Choose(len(builds), "key generation")
	evl := x.Choose(len(builds), "evaluation")
	decr := x.Choose(len(builds), "decryption")
	kind := x.Choose(4, "operation") // bootstrap, gate, product, multi-key
	si := x.Choose(4, "shape")
	m := x.Choose(4, "message")
	if kind == 1 && si >= 2 || kind == 3 && si >= 2 {
		return
	}
	sh := []shape{
		{n: 6, k: 1, N: 64, lut: 64, block: 1, order: ksbr, msg: 4}, {n: 6, k: 2, N: 32, lut: 64, block: 2, order: brks, msg: 4},
		{n: 6, k: 1, N: 64, lut: 128, block: 3, order: brks, msg: 4}, {n: 8, k: 1, N: 256, lut: 256, block: 1, order: ksbr, msg: 4},
	}[si]
	if kind == 1 {
		sh.msg = 2
	}
	p := lit[T](sh).Compile()
	ms := mkShape{n: 4, N: 64, block: 2, parties: 2, order: []tfhe.BootstrapOrder{brks, ksbr}[si%2], msg: 4}
	mp := mklit[T](ms).Compile()
	body := func(x *X, t *trace, stage int, in []byte) {
		core.Reseed(fmt.Sprint("c07use", stage, kind, si, m))
		var out pack
		q := &pack{buf: *bytes.NewBuffer(in)}
		switch stage*10 + kind {
		case 0:
			e := tfhe.NewEncryptor(p)
			evk, ct := e.GenEvalKey(), e.EncryptLWE(m)
			out.put(e.SecretKey).put(evk).put(ct)
		case 10:
			sk, evk, ct := tfhe.NewSecretKey(p), tfhe.NewEvaluationKey(p), tfhe.NewLWECiphertext(p)
			q.get(&sk).get(&evk).get(&ct)
			ev := tfhe.NewEvaluator(p, evk)
			out.put(sk).put(ev.BootstrapFunc(ev.BootstrapFunc(ct, func(v int) int { return v + 1 }), func(v int) int { return 3 * v }))
		case 20:
			sk, ct := tfhe.NewSecretKey(p), tfhe.NewLWECiphertext(p)
			q.get(&sk).get(&ct)
			t.add("m", tfhe.NewEncryptorWithKey(p, sk).DecryptLWE(ct))
		case 1:
			e := tfhe.NewBinaryEncryptor(p)
			evk := e.GenEvalKey()
			out.put(e.Encryptor.SecretKey).put(evk).put(e.EncryptLWEBool(m&1 == 1)).put(e.EncryptLWEBool(m&2 == 2))
		case 11:
			sk, evk, a, b := tfhe.NewSecretKey(p), tfhe.NewEvaluationKey(p), tfhe.NewLWECiphertext(p), tfhe.NewLWECiphertext(p)
			q.get(&sk).get(&evk).get(&a).get(&b)
			ev := tfhe.NewBinaryEvaluator(p, evk)
			out.put(sk).put(ev.XOR(ev.NAND(a, b), ev.OR(a, b)))
		case 21:
			sk, ct := tfhe.NewSecretKey(p), tfhe.NewLWECiphertext(p)
			q.get(&sk).get(&ct)
			t.add("m", tfhe.NewBinaryEncryptorWithKey(p, sk).DecryptLWEBool(ct))
		case 2:
			e := tfhe.NewEncryptor(p)
			g := gad[T](8, 3).Compile()
			ct := e.EncryptGLWE([]int{m, 1, 3, 0})
			if p.IsPublicKeyEncryptable() {
				ct = tfhe.NewPublicEncryptor(p, e.GenPublicKey()).EncryptGLWE([]int{m, 1, 3, 0})
			}
			out.put(e.SecretKey).put(e.EncryptFFTGGSW([]int{0, 1}, g)).put(ct).put(e.EncryptFFTGLWE([]int{m, 2}))
		case 12:
			sk, ct, fct := tfhe.NewSecretKey(p), tfhe.NewGLWECiphertext(p), tfhe.NewFFTGLWECiphertext(p)
			gg := tfhe.NewFFTGGSWCiphertext(p, gad[T](8, 3).Compile())
			q.get(&sk).get(&gg).get(&ct).get(&fct)
			ev := tfhe.NewEvaluator(p, tfhe.EvaluationKey[T]{})
			out.put(sk).put(ev.ExternalProdGLWE(gg, ct)).put(fct)
		case 22:
			sk, ct, fct := tfhe.NewSecretKey(p), tfhe.NewGLWECiphertext(p), tfhe.NewFFTGLWECiphertext(p)
			q.get(&sk).get(&ct).get(&fct)
			e := tfhe.NewEncryptorWithKey(p, sk)
			t.add("m", e.DecryptGLWE(ct)[:5], e.DecryptFFTGLWE(fct)[:3])
		case 3:
			for i := 0; i < 2; i++ {
				e := mktfhe.NewEncryptor(mp, i, crs)
				out.put(e.SecretKey).put(e.GenEvalKey()).put(e.EncryptLWE(m * (1 - i)))
			}
		case 13:
			keys := map[int]mktfhe.EvaluationKey[T]{}
			var cts []mktfhe.LWECiphertext[T]
			for i := 0; i < 2; i++ {
				sk, evk, ct := tfhe.NewSecretKey(mp.SubParams()), mktfhe.NewEvaluationKey(mp), mktfhe.NewLWECiphertext(mp)
				q.get(&sk).get(&evk).get(&ct)
				out.put(sk)
				keys[i] = evk
				cts = append(cts, ct)
			}
			ev := mktfhe.NewEvaluator(mp, keys)
			out.put(ev.BootstrapFuncParallel(ev.AddLWE(cts[0], cts[1]), func(v int) int { return 3*v + 1 }))
		case 23:
			sks := map[int]tfhe.SecretKey[T]{}
			for i := 0; i < 2; i++ {
				sk := tfhe.NewSecretKey(mp.SubParams())
				q.get(&sk)
				sks[i] = sk
			}
			ct := mktfhe.NewLWECiphertext(mp)
			q.get(&ct)
			t.add("m", mktfhe.NewDecryptor(mp, sks).DecryptLWE(ct))
		}
		t.Out = out.buf.Bytes()
	}
	const key = "C07/interchange"
	if serving != nil {
		on(x, key, "", 0, nil, body)
		return
	}
	cache := fmt.Sprint("c07use", tname[T](), kind, si, m)
	g := core.Memo(cache+builds[gen], func() *trace { return on(x, key, builds[gen], 0, nil, body) })
	x.Assert(g.Err == "", "%s: %s", builds[gen], g.Err)
	e := core.Memo(cache+builds[gen]+builds[evl], func() *trace { return on(x, key, builds[evl], 1, g.Out, body) })
	x.Assert(e.Err == "", "keys and ciphertexts of %s, evaluated by %s: %s", builds[gen], builds[evl], e.Err)
	d := on(x, key, builds[decr], 2, e.Out, body)
	x.Assert(d.Err == "", "keys of %s, ciphertext of %s, decrypted by %s: %s", builds[gen], builds[evl], builds[decr], d.Err)
	var want trace
	switch kind {
	case 0:
		want.add("m", 3*(m+1)%4)
	case 1:
		want.add("m", !(m == 3) != (m != 0))
	case 2:
		want.add("m", []int{0, m, 1, 3, 0}, []int{m, 2, 0})
	case 3:
		want.add("m", (3*m+1)%4)
	}
	dd := differ(&want, d)
	x.Assert(dd.exact, "keys of %s, evaluated by %s, decrypted by %s: operation %d, shape %v, message %d: %s", builds[gen], builds[evl], builds[decr], kind, sh, m, dd.where)
	x.Step(3)
	x.State(tname[T](), gen, evl, decr, kind, si, m)
}

// c07meaning: operations of several steps give the same phase up to their error.
func c07meaning[T TI](x *X) {
	s := core.OneOf(x, "shape", c08gridShapes())
	m := x.Choose(s.msg, "message")
	fi := x.Choose(len(c08funcs), "function")
	salt := x.Choose(x.Pick(2, 12), "mask")
	body := func(x *X, t *trace, _ int, _ []byte) {
		e := env[T](s)
		ev := e.eval()
		ct := tfhe.NewLWECiphertext(e.P)
		for i := range ct.Value {
			ct.Value[i] = T(mix64(uint64(i+1000*salt)) >> 5)
		}
		ct.Value[0] = 0
		ct.Value[0] = refEncode[T](m, e.P.MessageModulus(), e.P.Scale()) - lwePhase(ct.Value, e.defKey())
		lut := ev.GenLUT(func(v int) int { return c08funcs[fi].f(v, s.msg) })
		t.add("table", lut)
		out := ev.BootstrapLUT(ct, lut)
		t.add("phase", []T{lwePhase(out.Value, e.defKey())})
		ks := ct
		if s.order == ksbr {
			ks = ev.DefaultKeySwitch(ct)
		}
		t.add("switched", ks)
		t.add("rotated", glwePhase(ev.BlindRotate(ks, lut).Value, e.SK.GLWEKey.Value))
	}
	a := on(x, "C07/meaning", x.Backend(), 0, nil, body)
	if serving != nil {
		return
	}
	p := lit[T](s).Compile()
	for _, b := range otherBuilds {
		o := on(x, "C07/meaning", b, 0, nil, body)
		x.Assert(o.Err == "", "%v: the %s build fails: %s", s, b, o.Err)
		d := differ(a, o)
		x.Assert(!d.shape && d.dist <= 2*bootTol(p), "%v message %d %s: bootstrapping in the %s build is off by 2^%d: %s", s, m, c08funcs[fi].n, b, bitLen(d.dist), d.where)
		// the table and the key switched input are integers
		u, v := *a, *o
		n := 0
		for n < len(u.L) && !strings.HasPrefix(u.L[n].Path, "phase") {
			n++
		}
		u.L, v.L = u.L[:n], v.L[:n]
		x.Assert(differ(&u, &v).exact, "%v: the %s build builds another lookup table: %s", s, b, differ(&u, &v).where)
		sw := func(t *trace) (r trace) {
			for _, l := range t.L {
				if strings.HasPrefix(l.Path, "switched") {
					r.L = append(r.L, l)
				}
			}
			return
		}
		su, sv := sw(a), sw(o)
		x.Assert(differ(&su, &sv).exact, "%v: the %s build switches keys differently: %s", s, b, differ(&su, &sv).where)
	}
	x.Step(3 * len(otherBuilds))
	x.State(tname[T](), s.String(), m, fi, salt)
}

func init() {
	av := []string{"avx2"}
	two := func(name, bound string, f32, f64 func(*X)) {
		core.Register(core.Harness{Prop: "C07", Name: name, Bound: bound + "; default build against CPU features off, AVX2 off, FMA off and pure Go", Backends: av, Run: func(x *X) {
			if x.Bool("32 bit") {
				f32(x)
			} else {
				f64(x)
			}
		}})
	}
	two("operations", "both widths x every exported operation of every object of the three packages (found by reflection), polynomial degrees 16-2048 (thorough 32768), 3 (thorough 12) operand sets", c07ops[uint32], c07ops[uint64])
	two("samplers", "both widths x 12 sampling operations x seeded or not x 16 (thorough 128) seeds x 5 lengths", c07samplers[uint32], c07samplers[uint64])
	two("vectors", "both widths x lengths 0-69 (139) x 4 offsets x 2 (8) operand sets x every vector operation", c07vec[uint32], c07vec[uint64])
	two("bytes", "both widths x every serialisable type x shapes x patterns: written by one, read by the other", c07bytes[uint32], c07bytes[uint64])
	two("interchange", "both widths x builds of key generation, evaluation and decryption (125 triples) x bootstrap, gates, products and public encryption, multi-key bootstrap x shapes x messages", c07use[uint32], c07use[uint64])
	two("meaning", "both widths x 23 shapes x messages x 6 functions x masks: phases of bootstrapping and blind rotation", c07meaning[uint32], c07meaning[uint64])
}
