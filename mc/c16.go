package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	"github.com/sp301415/tfhe-go/tfhe"
	"verifmc/core"
)

// C16: serialisation round trips.  C17: serialisation under faulty I/O.

type serial interface {
	io.WriterTo
	io.ReaderFrom
	ByteSize() int
}

type binm interface {
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

// serialSpecs is the specs with a byte form.
func serialSpecs[T TI]() []objSpec {
	var r []objSpec
	for _, s := range objSpecs[T]() {
		if _, ok := s.mk(0, false).(serial); ok {
			r = append(r, s)
		}
	}
	return r
}

func zeroOf(o any) any { return reflect.New(reflect.TypeOf(o).Elem()).Interface() }

func toBytes(x *X, what string, o any) []byte {
	var b bytes.Buffer
	n, err := o.(serial).WriteTo(&b)
	x.Assert(err == nil, "%s: WriteTo: %v", what, err)
	x.Assert(n == int64(b.Len()), "%s: WriteTo returned %d but wrote %d bytes", what, n, b.Len())
	x.Assert(o.(serial).ByteSize() == b.Len(), "%s: ByteSize %d but wrote %d bytes", what, o.(serial).ByteSize(), b.Len())
	return b.Bytes()
}

func filled(s objSpec, sh int, alt bool, p int) any {
	o := s.mk(sh, alt)
	if !s.static {
		fill(o, p)
	}
	return o
}

func c16round[T TI](x *X) {
	specs := serialSpecs[T]()
	s := specs[x.Choose(len(specs), "type")]
	sh := x.Choose(nObjShapes, "shape")
	pat := x.Choose(2, "pattern")
	rc := x.Choose(1+nObjShapes, "receiver")
	entry := x.Choose(3, "entry")
	o, ref0 := filled(s, sh, false, pat), filled(s, sh, false, pat)
	what := fmt.Sprintf("%s shape %d", s.name, sh)
	recv := zeroOf(o)
	if rc > 0 {
		recv = filled(s, rc-1, true, 1-pat)
	}
	b := toBytes(x, what, o)
	x.Assert(diff(o, ref0) == "", "%s: writing changed the object at %s", what, diff(o, ref0))
	keep := append([]byte{}, b...)
	m, isM := o.(binm)
	if isM {
		d, err := m.MarshalBinary()
		x.Assert(err == nil && bytes.Equal(d, b), "%s: MarshalBinary differs from WriteTo (%d and %d bytes, error %v)", what, len(d), len(b), err)
	}
	switch entry {
	case 0: // stream with data behind it
		r := bytes.NewReader(append(append([]byte{}, b...), 0xA5, 0xFF, 0, 1, 2, 3, 4, 5, 6, 7, 8))
		n, err := recv.(serial).ReadFrom(r)
		x.Assert(err == nil, "%s: ReadFrom: %v", what, err)
		x.Assert(r.Len() == 11, "%s: ReadFrom consumed %d of %d bytes", what, len(b)+11-r.Len(), len(b))
		x.Assert(n == int64(len(b)), "%s: ReadFrom returned %d after consuming %d bytes", what, n, len(b))
	case 1:
		if !isM {
			return
		}
		err := recv.(binm).UnmarshalBinary(b)
		x.Assert(err == nil, "%s: UnmarshalBinary: %v", what, err)
		x.Assert(bytes.Equal(b, keep), "%s: UnmarshalBinary changed its input", what)
		for i := range b {
			b[i] ^= 0x5A // the object may not live in the caller's bytes
		}
	case 2: // twice into the same receiver, the second time other data
		o2 := filled(s, (sh+1)%nObjShapes, false, 1-pat)
		b2 := toBytes(x, what, o2)
		r := bytes.NewReader(append(append([]byte{}, b2...), b...))
		_, err := recv.(serial).ReadFrom(r)
		x.Assert(err == nil && diff(recv, o2) == "", "%s: first read: %v, %s", what, err, diff(recv, o2))
		_, err = recv.(serial).ReadFrom(r)
		x.Assert(err == nil && r.Len() == 0, "%s: second read: %v, %d bytes left", what, err, r.Len())
	}
	x.Assert(diff(recv, ref0) == "", "%s: reading back (receiver %d, entry %d) differs at %s", what, rc, entry, diff(recv, ref0))
	x.Assert(bytes.Equal(toBytes(x, what, recv), keep), "%s: the restored object writes other bytes", what)
	if isM {
		// a restored object is an object like any other: a copy of it is equal and independent
		if !s.static {
			c := ref(call(recv, "Copy")[0])
			x.Assert(diff(c, ref0) == "" && !shares(c, recv), "%s: copying a restored object differs at %s", what, diff(c, ref0))
		}
	}
	x.Step(4)
	x.State(tname[T](), s.name, sh, pat, rc, entry)
}

// c16stream: all pairs of objects one behind the other in one stream.
func c16stream[T TI](x *X) {
	specs := serialSpecs[T]()
	a := specs[x.Choose(len(specs), "first")]
	b := specs[x.Choose(len(specs), "second")]
	sa := x.Choose(nObjShapes, "shape of first")
	sb := x.Choose(nObjShapes, "shape of second")
	chunk := x.Choose(2, "reader")
	oa, ob := filled(a, sa, false, 0), filled(b, sb, false, 1)
	var buf bytes.Buffer
	for _, o := range []any{oa, ob, oa} {
		if _, err := o.(serial).WriteTo(&buf); err != nil {
			x.Fail("WriteTo: %v", err)
		}
	}
	if g := oa.(serial).ByteSize()*2 + ob.(serial).ByteSize(); g != buf.Len() {
		x.Fail("%s, %s: %d bytes in the stream, sizes say %d", a.name, b.name, buf.Len(), g)
	}
	var r io.Reader = &buf
	if chunk == 1 {
		r = &chunkReader{data: buf.Bytes(), chunk: 13}
	}
	ra, rb, rc := zeroOf(oa), zeroOf(ob), filled(a, (sa+1)%nObjShapes, true, 1)
	for i, o := range []any{ra, rb, rc} {
		if _, err := o.(serial).ReadFrom(r); err != nil {
			x.Fail("%s, %s: reading object %d of the stream: %v", a.name, b.name, i, err)
		}
	}
	x.Assert(diff(ra, oa) == "" && diff(rb, ob) == "" && diff(rc, oa) == "", "%s, %s: objects read from one stream differ: %s %s %s", a.name, b.name, diff(ra, oa), diff(rb, ob), diff(rc, oa))
	x.Step(6)
	x.State(tname[T](), a.name, b.name, sa, sb, chunk)
}

// c16use: restored keys and ciphertexts work like the originals.
func c16use[T TI](x *X) {
	sh := []shape{{6, 1, 64, 64, 1, ksbr, 4}, {6, 2, 64, 64, 2, ksbr, 4}, {6, 1, 64, 128, 3, ksbr, 4}, {64, 1, 64, 128, 32, ksbr, 2}}[x.Choose(4, "shape")]
	order := []tfhe.BootstrapOrder{ksbr, brks}[x.Choose(2, "order")]
	sh.order = order
	if sh.msg == 0 {
		sh.msg = 4
	}
	e := env[T](sh)
	m := x.Choose(sh.msg, "message")
	rest := func(o, r any) {
		b := toBytes(x, "key", o)
		_, err := r.(serial).ReadFrom(bytes.NewReader(b))
		x.Assert(err == nil, "reading back: %v", err)
	}
	var sk tfhe.SecretKey[T]
	rest(&e.SK, &sk)
	var evk tfhe.EvaluationKey[T]
	rest(&e.EVK, &evk)
	var prm tfhe.Parameters[T]
	rest(&e.P, &prm)
	enc0, eval0 := tfhe.NewEncryptorWithKey(e.P, e.SK), tfhe.NewEvaluator(e.P, e.EVK)
	enc := tfhe.NewEncryptorWithKey(prm, sk)
	eval := tfhe.NewEvaluator(prm, evk)
	core.Reseed(fmt.Sprint("c16use", sh, m))
	ct := enc0.EncryptLWE(m)
	var ct2 tfhe.LWECiphertext[T]
	rest(&ct, &ct2)
	f := func(v int) int { return v*3 + 1 }
	w := eval0.BootstrapFunc(ct, f)
	g := eval.BootstrapFunc(ct2, f)
	x.Assert(eqT(g.Value, w.Value), "bootstrapping with restored objects differs from the originals")
	x.Assert(enc.DecryptLWE(g) == (m*3+1)%sh.msg, "bootstrapping with restored objects: %d, want %d", enc.DecryptLWE(g), (m*3+1)%sh.msg)
	x.Step(1)
	x.State(tname[T](), fmt.Sprint(sh), m)
}

// ---- C17

type chunkReader struct {
	data    []byte
	chunk   int  // largest read
	eofWith bool // the last data come with io.EOF
	zero    bool // every other read returns 0, nil
	split   int  // reads stop here once
	fail    error
	pos     int
	tog     bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.zero {
		if r.tog = !r.tog; r.tog {
			return 0, nil
		}
	}
	if r.pos == len(r.data) {
		if r.fail != nil {
			return 0, r.fail
		}
		return 0, io.EOF
	}
	k := len(p)
	if r.chunk > 0 && k > r.chunk {
		k = r.chunk
	}
	if r.pos < r.split && r.pos+k > r.split {
		k = r.split - r.pos
	}
	if r.pos+k > len(r.data) {
		k = len(r.data) - r.pos
	}
	copy(p, r.data[r.pos:r.pos+k])
	r.pos += k
	if r.eofWith && r.pos == len(r.data) {
		if r.fail != nil {
			return k, r.fail
		}
		return k, io.EOF
	}
	return k, nil
}

type faultWriter struct {
	limit int
	err   error // nil: a short count without an error
	more  bool  // accepts everything after the short write
	got   []byte
	hit   bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.hit && w.more {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	if len(w.got)+len(p) <= w.limit {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	k := w.limit - len(w.got)
	w.got = append(w.got, p[:k]...)
	w.hit = true
	return k, w.err
}

var errIO = errors.New("injected fault")

func c17[T TI](x *X) {
	specs := serialSpecs[T]()
	s := specs[x.Choose(len(specs), "type")]
	sh := x.Choose(nObjShapes, "shape")
	kind := x.Choose(11, "fault")
	o := filled(s, sh, false, 0)
	b := toBytes(x, s.name, o)
	L := len(b)
	cap := x.Pick(20000, 200000)
	if L > cap {
		// the smallest shape of every type is below the bound
		return
	}
	what := fmt.Sprintf("%s shape %d (%d bytes)", s.name, sh, L)
	good := func(r *chunkReader, rec any, how string, at int) {
		n, err := rec.(serial).ReadFrom(r)
		if err != nil || n != int64(L) || r.pos != L {
			x.Fail("%s: %s %d: returned %d, %v after consuming %d", what, how, at, n, err, r.pos)
		}
		if d := diff(rec, o); d != "" {
			x.Fail("%s: %s %d: differs at %s", what, how, at, d)
		}
	}
	bad := func(r *chunkReader, rec any, how string, at int) error {
		n, err := rec.(serial).ReadFrom(r)
		if err == nil {
			x.Fail("%s: %s %d: success", what, how, at)
		}
		if n != int64(r.pos) {
			x.Fail("%s: %s %d: returned %d after consuming %d (%v)", what, how, at, n, r.pos, err)
		}
		return err
	}
	fresh := func(i int) any {
		if i%2 == 0 {
			return zeroOf(o)
		}
		return filled(s, (sh+i)%nObjShapes, true, 1)
	}
	switch kind {
	case 0: // every chunk size
		for c := 1; c <= L; c++ {
			if c > 300 && !x.Thorough() && c != L {
				continue
			}
			good(&chunkReader{data: b, chunk: c}, zeroOf(o), "reads of", c)
			x.Step(1)
		}
	case 1: // every split in two
		for p := 1; p < L; p++ {
			good(&chunkReader{data: b, split: p}, zeroOf(o), "split at", p)
			x.Step(1)
		}
	case 2: // empty reads in between
		for _, c := range []int{1, 3, 8, 9, 0} {
			good(&chunkReader{data: b, chunk: c, zero: true}, zeroOf(o), "empty reads and reads of", c)
			x.Step(1)
		}
	case 3: // io.EOF or another error together with the last data
		for _, c := range []int{1, 7, 8, 0} {
			good(&chunkReader{data: b, chunk: c, eofWith: true}, zeroOf(o), "EOF with the last data, reads of", c)
			good(&chunkReader{data: b, chunk: c, eofWith: true, fail: errIO}, zeroOf(o), "error with the last data, reads of", c)
			x.Step(2)
		}
	case 4: // every truncation
		for p := 0; p < L; p++ {
			err := bad(&chunkReader{data: b[:p]}, fresh(p), "truncated at", p)
			if !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
				x.Fail("%s: truncated at %d: %v", what, p, err)
			}
			x.Step(1)
		}
	case 5: // with io.EOF together with the data
		for p := 0; p < L; p++ {
			bad(&chunkReader{data: b[:p], eofWith: true, chunk: 5}, fresh(p+1), "truncated (EOF with data) at", p)
			x.Step(1)
		}
	case 6: // a failing source at every byte
		for p := 0; p < L; p++ {
			err := bad(&chunkReader{data: b[:p], fail: errIO, eofWith: p%2 == 0, split: p / 2}, fresh(p), "failing at", p)
			if !errors.Is(err, errIO) {
				x.Fail("%s: failing at %d: error %v, want the reader's", what, p, err)
			}
			x.Step(1)
		}
	case 7: // marshalled bytes truncated
		if _, ok := o.(binm); !ok {
			return
		}
		for p := 0; p < L; p++ {
			if fresh(p).(binm).UnmarshalBinary(b[:p:p]) == nil {
				x.Fail("%s: UnmarshalBinary of the first %d bytes succeeds", what, p)
			}
			x.Step(1)
		}
	default: // writers
		for p := 0; p <= L; p++ {
			w := &faultWriter{limit: p, more: kind == 10}
			if kind == 8 {
				w.err = errIO
			}
			n, err := o.(serial).WriteTo(w)
			if p == L {
				if err != nil || n != int64(L) || !bytes.Equal(w.got, b) {
					x.Fail("%s: a writer with exactly enough room: %d, %v", what, n, err)
				}
				continue
			}
			if err == nil {
				x.Fail("%s: the destination accepted %d bytes (fault %d) but WriteTo succeeds", what, len(w.got), kind)
			}
			if kind == 8 && !errors.Is(err, errIO) {
				x.Fail("%s: the destination failed at %d: error %v, want the writer's", what, p, err)
			}
			if n != int64(len(w.got)) {
				x.Fail("%s: the destination accepted %d bytes (fault %d) but WriteTo returns %d", what, len(w.got), kind, n)
			}
			if !bytes.Equal(w.got[:p], b[:p]) {
				x.Fail("%s: the bytes before the fault at %d differ", what, p)
			}
			x.Step(1)
		}
	}
	x.State(tname[T](), s.name, sh, kind)
}

func init() {
	core.Register(core.Harness{Prop: "C16", Name: "roundtrip", Shards: 1,
		Bound: "32- and 64-bit x every serialisable type x 3 shapes x 2 contents (incl. every class of float) x receiver (zero value, or old object of each shape) x stream, marshal and repeated reading",
		Run: func(x *X) {
			if x.Bool("32 bit") {
				c16round[uint32](x)
			} else {
				c16round[uint64](x)
			}
		}})
	core.Register(core.Harness{Prop: "C16", Name: "stream", Shards: 2,
		Bound: "32- and 64-bit x every ordered pair of serialisable types x 9 shape pairs, written A B A in one stream, read through a full and a 13-byte reader",
		Run: func(x *X) {
			if x.Bool("32 bit") {
				c16stream[uint32](x)
			} else {
				c16stream[uint64](x)
			}
		}})
	core.Register(core.Harness{Prop: "C16", Name: "use", Shards: 1,
		Bound: "bootstrap with restored parameters, keys and ciphertexts: shapes x orders x messages, both widths, compared bit for bit with the originals",
		Run: func(x *X) {
			if x.Bool("32 bit") {
				c16use[uint32](x)
			} else {
				c16use[uint64](x)
			}
		}})
	core.Register(core.Harness{Prop: "C17", Name: "faults", Backends: []string{"avx2"}, Shards: 7,
		Bound: "32- and 64-bit x every serialisable type x shapes of up to 20000 bytes (thorough: all) x every truncation offset, split offset, failing read offset, failing or short write offset, chunk size (quick up to 300)",
		Run: func(x *X) {
			if x.Bool("32 bit") {
				c17[uint32](x)
			} else {
				c17[uint64](x)
			}
		}})
}
