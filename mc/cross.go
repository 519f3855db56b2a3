package main

import (
	"encoding/gob"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"reflect"

	"verifmc/core"
)

// Execution of one choice vector on several builds: the process of the default build asks servers of the other
// builds (same program, other build or other CPU features) to execute the same choices and compares the values.

type leafs struct {
	Path string
	Bits int // width of the integers, 0 for floating point
	U    []uint64
	F    []float64
}

type trace struct {
	L   []leafs
	Err string
	Out []byte
}

// add appends every number reachable from the objects, grouped by slice.
func (t *trace) add(name string, objs ...any) {
	var rec func(path string, v reflect.Value)
	rec = func(path string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				rec(path, v.Elem())
			}
		case reflect.Struct:
			for j := 0; j < v.NumField(); j++ {
				if v.Type().Field(j).IsExported() {
					rec(path+"."+v.Type().Field(j).Name, v.Field(j))
				}
			}
		case reflect.Map:
			for i := 0; i < 64; i++ {
				for _, k := range v.MapKeys() {
					if k.Kind() == reflect.Int && int(k.Int()) == i {
						rec(fmt.Sprintf("%s[%v]", path, i), v.MapIndex(k))
					}
				}
			}
		case reflect.Slice, reflect.Array:
			if v.Len() > 0 {
				switch v.Index(0).Kind() {
				case reflect.Float64:
					l := leafs{Path: path}
					for j := 0; j < v.Len(); j++ {
						l.F = append(l.F, v.Index(j).Float())
					}
					t.L = append(t.L, l)
					return
				case reflect.Uint64, reflect.Uint32, reflect.Uint8:
					l := leafs{Path: path, Bits: v.Index(0).Type().Bits()}
					for j := 0; j < v.Len(); j++ {
						l.U = append(l.U, v.Index(j).Uint())
					}
					t.L = append(t.L, l)
					return
				}
			}
			for j := 0; j < v.Len(); j++ {
				rec(fmt.Sprintf("%s[%d]", path, j), v.Index(j))
			}
		case reflect.Uint64, reflect.Uint32, reflect.Uint8, reflect.Uint16, reflect.Uint:
			t.L = append(t.L, leafs{Path: path, Bits: v.Type().Bits(), U: []uint64{v.Uint()}})
		case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
			t.L = append(t.L, leafs{Path: path, Bits: 64, U: []uint64{uint64(v.Int())}})
		case reflect.Bool:
			b := uint64(0)
			if v.Bool() {
				b = 1
			}
			t.L = append(t.L, leafs{Path: path, Bits: 8, U: []uint64{b}})
		case reflect.Float64:
			t.L = append(t.L, leafs{Path: path, F: []float64{v.Float()}})
		case reflect.Complex128:
			t.L = append(t.L, leafs{Path: path, F: []float64{real(v.Complex()), imag(v.Complex())}})
		case reflect.String:
			l := leafs{Path: path, Bits: 8}
			for _, c := range []byte(v.String()) {
				l.U = append(l.U, uint64(c))
			}
			t.L = append(t.L, l)
		}
	}
	for i, o := range objs {
		if o != nil {
			rec(fmt.Sprintf("%s#%d", name, i), reflect.ValueOf(o))
		}
	}
}

type diffs struct {
	where string
	exact bool    // bit for bit equal
	bits  int     // width of the integers that differ most
	dist  uint64  // circular distance of integers
	rel   float64 // distance of floats relative to the largest value of the slice
	shape bool
}

// differ compares two traces.
func differ(a, b *trace) (d diffs) {
	d.exact = true
	if len(a.L) != len(b.L) {
		d.shape, d.exact, d.where = true, false, "number of results"
		return
	}
	for i := range a.L {
		p, q := a.L[i], b.L[i]
		if p.Bits != q.Bits || len(p.U) != len(q.U) || len(p.F) != len(q.F) || p.Path != q.Path {
			d.shape, d.exact, d.where = true, false, p.Path
			return
		}
		for j := range p.U {
			if p.U[j] != q.U[j] {
				x := (p.U[j] - q.U[j]) << (64 - p.Bits) >> (64 - p.Bits)
				y := (q.U[j] - p.U[j]) << (64 - p.Bits) >> (64 - p.Bits)
				x = min(x, y)
				if d.exact {
					d.where = fmt.Sprintf("%s[%d]: %d and %d", p.Path, j, p.U[j], q.U[j])
				}
				d.exact = false
				if x > d.dist {
					d.dist, d.bits = x, p.Bits
				}
			}
		}
		m := 0.0
		for j := range p.F {
			m = math.Max(m, math.Max(math.Abs(p.F[j]), math.Abs(q.F[j])))
		}
		for j := range p.F {
			if math.Float64bits(p.F[j]) != math.Float64bits(q.F[j]) && !(p.F[j] == 0 && q.F[j] == 0) {
				r := math.Abs(p.F[j]-q.F[j]) / m
				if math.IsNaN(r) {
					r = math.Inf(1)
				}
				if d.exact {
					d.where = fmt.Sprintf("%s[%d]: %v and %v", p.Path, j, p.F[j], q.F[j])
				}
				d.exact = false
				d.rel = math.Max(d.rel, r)
			}
		}
	}
	return
}

type request struct {
	Harness, Tier string
	Choices       []int
	Stage         int
	In            []byte
}

var serving *request
var servedTrace *trace

// serve answers requests on standard input.
func serve(backend string) {
	core.OwnRandom()
	dec, enc := gob.NewDecoder(os.Stdin), gob.NewEncoder(os.Stdout)
	for {
		var r request
		if dec.Decode(&r) != nil {
			return
		}
		h := core.Find(r.Harness)
		serving, servedTrace = &r, &trace{}
		res := core.RunChoices(h, r.Tier, backend, r.Choices)
		if res.Failed {
			servedTrace = &trace{Err: res.Message}
		}
		if enc.Encode(servedTrace) != nil {
			return
		}
	}
}

type server struct {
	enc *gob.Encoder
	dec *gob.Decoder
}

var servers = map[string]*server{}

func serverOf(backend string) *server {
	if s := servers[backend]; s != nil {
		return s
	}
	cmd := exec.Command(bin(backend, os.Getenv("MC_PUREGO")), "serve", backend)
	cmd.Env = backendEnv(backend)
	cmd.Stderr = os.Stderr
	in, err1 := cmd.StdinPipe()
	out, err2 := cmd.StdoutPipe()
	if err1 != nil || err2 != nil || cmd.Start() != nil {
		panic("harness error: cannot start the server of the other build")
	}
	s := &server{gob.NewEncoder(in), gob.NewDecoder(io.Reader(out))}
	servers[backend] = s
	return s
}

// on executes a stage of the harness on a build and returns its trace.
func on(x *X, key, backend string, stage int, in []byte, body func(x *X, t *trace, stage int, in []byte)) *trace {
	if serving != nil {
		t := &trace{}
		body(x, t, serving.Stage, serving.In)
		servedTrace = t
		return t
	}
	if backend == x.Backend() {
		t := &trace{}
		body(x, t, stage, in)
		return t
	}
	s := serverOf(backend)
	if err := s.enc.Encode(request{key, x.Tier(), x.Choices(), stage, in}); err != nil {
		delete(servers, backend)
		x.Fail("%s build: the process died before the request: %v", backend, err)
	}
	var t trace
	if err := s.dec.Decode(&t); err != nil {
		delete(servers, backend)
		x.Fail("%s build: the process died: %v", backend, err)
	}
	return &t
}

var otherBuilds = []string{"cpuoff", "purego", "noavx2", "nofma"}
