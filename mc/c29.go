package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"verifmc/core"
)

// C29: samplers.  The nondeterminism is the stream of random bytes: it is enumerated, word by word, by putting a
// chosen key stream in the place of the AES one; the seeded streams are compared between request histories.

func widthOf[T WI]() (bits int, signed bool) {
	var z T
	switch any(z).(type) {
	case int8:
		return 8, true
	case uint8:
		return 8, false
	case int16:
		return 16, true
	case uint16:
		return 16, false
	case int32:
		return 32, true
	case uint32:
		return 32, false
	case int, int64:
		return 64, true
	}
	return 64, false
}

// drivewords feeds little-endian words of the given size, then zeros; used reports how many were offered before the
// zeros began, when the stream is read further than that.
func drivewords(s any, size int, words []uint64) (ok bool) {
	i := 0
	return drive(s, func(dst []byte) {
		for j := 0; j < len(dst); j += size {
			w := uint64(0)
			if i < len(words) {
				w = words[i]
			}
			i++
			for k := 0; k < size; k++ {
				dst[j+k] = byte(w >> (8 * k))
			}
		}
	})
}

// c29uniform: the sampler is a bijection from words to values.
func c29uniform[T WI](x *X) {
	w, _ := widthOf[T]()
	form := x.Choose(3, "form")
	skip := x.Choose(3, "history")
	var words []uint64
	if w <= 16 {
		for v := 0; v < 1<<w; v++ {
			words = append(words, uint64(v))
		}
	} else {
		top := ^uint64(0) >> (64 - w)
		for i := 0; i < w; i++ {
			words = append(words, 1<<i, top^1<<i)
			for j := 0; j < i; j++ {
				words = append(words, 1<<i|1<<j)
			}
		}
		for b := uint64(1); b < 255; b++ {
			words = append(words, b*0x0101010101010101&top)
		}
		words = append(words, 0, top)
	}
	words = append(make([]uint64, skip*3), words...) // repeated zero words first
	s := csprng.NewUniformSamplerWithSeed[T]([]byte{1})
	if !drivewords(s, w/8, words) {
		x.Observe("not controllable")
		return
	}
	out := make([]T, len(words))
	switch form {
	case 0:
		for i := range out {
			out[i] = s.Sample()
		}
	case 1:
		s.SampleVecTo(out)
	case 2:
		i := 0
		for ; i+64 <= len(out); i += 64 {
			p := poly.NewPoly[T](64)
			s.SamplePolyTo(p)
			copy(out[i:], p.Coeffs)
		}
		s.SampleVecTo(out[i:])
	}
	x.Step(len(out))
	seen := map[uint64]int{}
	for i, v := range out {
		u := uint64(int64(v))
		if w < 64 {
			u &= 1<<w - 1
		}
		if j, dup := seen[u]; dup && words[i] != words[j] {
			x.Fail("words %#x and %#x both give %v", words[j], words[i], v)
		}
		seen[u] = i
	}
	x.State(tn[T](), form, skip)
}

// c29bounded: SampleN is exactly uniform on [0, N).
func c29bounded[T WI](x *X) {
	w, sg := widthOf[T]()
	eff := w
	if sg {
		eff--
	}
	maxv := ^uint64(0) >> (64 - eff)
	var ns []uint64
	switch {
	case w == 8:
		for n := uint64(1); n <= maxv; n++ {
			ns = append(ns, n)
		}
	case w == 16:
		for n := uint64(1); n <= uint64(x.Pick(20, 300)); n++ {
			ns = append(ns, n)
		}
		ns = append(ns, 64, 100, 127, 128, 255, 256, 257, 1000, 4096, 10000, 16384, 16385, maxv/2, maxv/2+1, maxv/3, maxv-1, maxv)
	default:
		ns = []uint64{1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 17, 100, 255, 256, 257, 1000, 1 << 16, 1<<16 + 1, maxv / 3, maxv/2 + 1, maxv/2 + 2, maxv - 1, maxv}
		for k := 3; k < eff; k += 5 {
			ns = append(ns, 1<<k, 1<<k-1, 1<<k+1)
		}
	}
	N := core.OneOf(x, "N", ns)
	s := csprng.NewUniformSamplerWithSeed[T]([]byte{1})
	if w <= 16 {
		var words []uint64
		for v := 0; v < 1<<w; v++ {
			words = append(words, uint64(v))
		}
		// a marker of the end: the run ends at the first draw that has used up all words
		used, total := 0, 1<<w
		if !drive(s, func(dst []byte) {
			if used >= total*w/8 {
				panic("words used up")
			}
			for j := range dst {
				b := uint64(0)
				if used < total*w/8 {
					b = words[used*8/w] >> (8 * (used % (w / 8)))
				}
				dst[j] = byte(b)
				used++
			}
		}) {
			x.Observe("not controllable")
			return
		}
		// words beyond the last are zero within the last buffer: 8192 divides 2*65536; for 8 bits only 256 words count
		cnt := make([]uint64, N)
		limit := total
		if w == 8 {
			// find how many draws consume the 256 words: use a reference instance on words followed by a pattern
			cnt8(x, N, words, cnt, func(ws []uint64) *csprng.UniformSampler[T] {
				t := csprng.NewUniformSamplerWithSeed[T]([]byte{1})
				drivewords(t, 1, ws)
				return t
			})
		} else {
			func() {
				defer func() {
					if r := recover(); r != nil && r != "words used up" {
						panic(r)
					}
				}()
				for i := 0; i <= limit; i++ {
					v := uint64(int64(s.SampleN(T(N))))
					if v >= N {
						x.Fail("SampleN(%d) = %d", N, int64(v))
					}
					cnt[v]++
				}
				x.Fail("SampleN(%d): more draws than words", N)
			}()
		}
		for v, c := range cnt {
			if c != cnt[0] || c == 0 {
				x.Fail("SampleN(%d): %d words give %d, %d give 0", N, c, v, cnt[0])
			}
		}
		x.Step(total)
		x.State(tn[T](), int(N))
		return
	}
	// wide words: the ones of the last incomplete run of N are rejected, everything is in range
	last := maxv - maxv%N // multiple of N; words from there on may only be used if the run is complete
	if maxv%N == N-1 {
		last = maxv
	}
	cand := []uint64{0, 1, N - 1, N, N + 1, 2 * N, last - 1, last - N, last - 2, maxv, maxv - 1, last, last + 1, maxv/2 + 1, maxv / 2, maxv / N, 1 << (w - 1), ^uint64(0) >> (64 - w)}
	marks := []uint64{3, 5, 9, 17, 33}
	plain := csprng.NewUniformSamplerWithSeed[T]([]byte{1})
	if !drivewords(plain, w/8, marks) {
		x.Observe("not controllable")
		return
	}
	at := map[T]int{}
	for i := range marks {
		at[plain.Sample()] = i
	}
	for _, c := range cand {
		c &= ^uint64(0) >> (64 - w)
		s := csprng.NewUniformSamplerWithSeed[T]([]byte{1})
		drivewords(s, w/8, append([]uint64{c}, marks...))
		v := uint64(int64(s.SampleN(T(N))))
		if v >= N {
			x.Fail("SampleN(%d) = %d on word %#x", N, int64(v), c)
		}
		first, ok := at[s.Sample()]
		x.Assert(ok, "the stream lost its place")
		bad := c > maxv || (maxv%N != N-1 && c >= last)
		if bad && first == 0 {
			x.Fail("SampleN(%d) uses the word %#x of an incomplete run: biased", N, c)
		}
		x.Step(1)
	}
	x.State(tn[T](), fmt.Sprint(N))
}

// cnt8 counts what each of the 256 byte words gives, by giving each its own stream followed by marks.
func cnt8[T WI](x *X, N uint64, words, cnt []uint64, mk func([]uint64) *csprng.UniformSampler[T]) {
	plain := mk([]uint64{3, 5, 9})
	m3, m5 := plain.Sample(), plain.Sample()
	for _, c := range words {
		// the second word is rejected by no bound, being 0; the third then tells how far the stream was read
		s := mk([]uint64{c, 0, 3, 5})
		v := uint64(int64(s.SampleN(T(N))))
		if v >= N {
			x.Fail("SampleN(%d) = %d on %d", N, int64(v), c)
		}
		n1 := s.Sample()
		n2 := s.Sample()
		switch {
		case n2 == m3: // word accepted
			cnt[v]++
		case n1 == m3 && n2 == m5: // rejected
		default:
			x.Fail("SampleN(%d) on %d: the stream lost its place", N, c)
		}
	}
}

// c29split: the stream is the same however it is requested.
func c29split[T WI](x *X) {
	w, _ := widthOf[T]()
	per := 8192 / (w / 8)
	start := core.OneOf(x, "start", []int{0, 1, per - 17, per - 1, per, 2*per - 3})
	seed := [][]byte{nil, {0}, []byte("a longer seed than the block of the hash function, for good measure: 0123456789")}[x.Choose(3, "seed")]
	a := csprng.NewUniformSamplerWithSeed[T](seed)
	b := csprng.NewUniformSamplerWithSeed[T](seed)
	for i := 0; i < start; i++ {
		b.Sample()
	}
	a.SampleVecTo(make([]T, start))
	var tr []string
	lens := []int{1, 2, 16, 33, per + 5}
	for i := 0; i < x.Pick(3, 4); i++ {
		k := x.Choose(8, "call")
		tr = append(tr, fmt.Sprint(k))
		var got, want []T
		switch k {
		case 0:
			got = []T{a.Sample()}
			want = []T{b.Sample()}
		case 1, 2, 3, 4, 5:
			buf := make([]T, lens[k-1]+2)
			got = buf[1 : 1+lens[k-1] : 1+lens[k-1]]
			a.SampleVecTo(got)
			x.Assert(buf[0] == 0 && buf[len(buf)-1] == 0, "wrote outside of the vector")
		case 6:
			p := poly.NewPoly[T](16)
			a.SamplePolyTo(p)
			got = p.Coeffs
		case 7:
			N := T(100)
			got, want = []T{a.SampleN(N)}, []T{b.SampleN(N)}
			x.Assert(got[0] >= 0 && got[0] < N, "SampleN(100) = %v", got[0])
		}
		for len(want) < len(got) {
			want = append(want, b.Sample())
		}
		for j := range got {
			if got[j] != want[j] {
				x.Fail("start %d calls %v: entry %d is %v, scalar calls give %v", start, tr, j, got[j], want[j])
			}
		}
		x.Step(1)
	}
	x.State(tn[T](), start, len(seed), fmt.Sprint(tr))
}

// c29seed: same seed same stream, other seed other stream, no repetition inside a stream, the seed is not kept.
func c29seed[T WI](x *X) {
	seeds := [][]byte{nil, {0}, {0, 0}, {1}, {0, 1}, bytes.Repeat([]byte{7}, 31), bytes.Repeat([]byte{7}, 32), bytes.Repeat([]byte{7}, 33), bytes.Repeat([]byte{7}, 48), bytes.Repeat([]byte{7}, 64), bytes.Repeat([]byte{7}, 65), bytes.Repeat([]byte{7}, 200)}
	base := bytes.Repeat([]byte{0xa5}, 40)
	for i := range base {
		m := append([]byte{}, base...)
		m[i] ^= 1 << (i % 8)
		seeds = append(seeds, m)
	}
	m := append(append([]byte{}, base...), bytes.Repeat([]byte{0x11}, 100)...)
	for i := 40; i < 140; i += 9 {
		c := append([]byte{}, m...)
		c[i]++
		seeds = append(seeds, c)
	}
	i := x.Choose(len(seeds), "seed")
	kind := x.Choose(3, "sampler")
	mk := func(seed []byte) func() T {
		switch kind {
		case 0:
			s := csprng.NewUniformSamplerWithSeed[T](seed)
			return s.Sample
		case 1:
			s := csprng.NewBinarySamplerWithSeed[T](seed)
			return func() T {
				v := make([]T, 64)
				s.SampleVecTo(v)
				var r T
				w, _ := widthOf[T]()
				for j := 0; j < w; j++ {
					r |= v[j] << j
				}
				return r
			}
		}
		s := csprng.NewGaussianSamplerWithSeed[T](seed, 1)
		return func() T { return s.Sample(1 << 40) }
	}
	draw := func(seed []byte, n int) []T {
		f := mk(seed)
		r := make([]T, n)
		for j := range r {
			r[j] = f()
		}
		return r
	}
	own := append([]byte{}, seeds[i]...)
	f := mk(own)
	a := []T{}
	for j := 0; j < 20; j++ {
		a = append(a, f())
	}
	x.Assert(bytes.Equal(own, seeds[i]), "the seed was modified")
	for j := range own {
		own[j] ^= 0xff // the seed belongs to the caller
	}
	w, _ := widthOf[T]()
	per := 8192/(w/8) + 40
	for j := 0; j < per; j++ {
		a = append(a, f())
	}
	b := draw(seeds[i], len(a))
	same := func(p, q []T) int {
		n := 0
		for j := range p {
			if p[j] == q[j] {
				n++
			}
		}
		return n
	}
	x.Assert(same(a, b) == len(a), "the same seed gives another stream")
	for j := range seeds {
		if j != i && len(seeds[i])*len(seeds[j])+len(seeds[i])+len(seeds[j]) > 0 {
			c := draw(seeds[j], 64)
			if n := same(a[:64], c); n > 32 && w >= 8 {
				x.Fail("seeds %x and %x agree in %d of 64 draws", seeds[i], seeds[j], n)
			}
		}
	}
	if w == 64 && kind < 2 {
		seen := map[T]int{}
		for j, v := range a {
			if k, dup := seen[v]; dup {
				x.Fail("draws %d and %d repeat", k, j)
			}
			seen[v] = j
		}
	} else if w >= 16 { // no stretch of eight draws repeats
		seen := map[string]int{}
		for j := 0; j+8 <= len(a); j++ {
			k := fmt.Sprint(a[j : j+8])
			if o, dup := seen[k]; dup {
				x.Fail("stretches at %d and %d repeat", o, j)
			}
			seen[k] = j
		}
	}
	x.Step(len(a))
	x.State(tn[T](), i, kind)
}

// c29binary: every entry is one random bit of its own.
func c29binary[T WI](x *X) {
	n := x.Choose(x.Pick(132, 300), "length")
	if n > 66 && n < 126 && !x.Thorough() {
		return
	}
	form := x.Choose(3, "form")
	if form == 2 && (n < 16 || n&(n-1) != 0) {
		return
	}
	before := x.Choose(3, "history")
	run := func(words []uint64) []T {
		s := csprng.NewBinarySamplerWithSeed[T]([]byte{2})
		if !drivewords(s, 8, words) {
			return nil
		}
		for i := 0; i < before; i++ {
			s.SampleVecTo(make([]T, i))
			s.Sample()
		}
		buf := make([]T, n+2)
		dirty(&buf, uint64(n))
		l, r := buf[0], buf[n+1]
		v := buf[1 : n+1]
		switch form {
		case 0:
			for i := range v {
				v[i] = s.Sample()
			}
		case 1:
			s.SampleVecTo(v)
		case 2:
			p := poly.NewPoly[T](n)
			dirty(&p, 3)
			s.SamplePolyTo(p)
			copy(v, p.Coeffs)
		}
		x.Assert(buf[0] == l && buf[n+1] == r, "wrote outside of the vector")
		for i, b := range v {
			x.Assert(b == 0 || b == 1, "entry %d is %v", i, b)
		}
		return v
	}
	nw := n + 8
	if form > 0 {
		nw = n/64 + 8
	}
	base := make([]uint64, nw)
	for i := range base {
		base[i] = mix64(uint64(i))
	}
	v0 := run(base)
	if v0 == nil {
		x.Observe("not controllable")
		return
	}
	flipped := make([]int, n)
	bits := []int{0, 1, 2, 31, 32, 62, 63}
	for i := 0; i < nw; i++ {
		step := bits
		if form > 0 {
			step = nil
			for b := 0; b < 64; b++ {
				step = append(step, b)
			}
		}
		for _, b := range step {
			base[i] ^= 1 << b
			v := run(base)
			base[i] ^= 1 << b
			k := -1
			for j := range v {
				if v[j] != v0[j] {
					if k >= 0 {
						x.Fail("entries %d and %d share a random bit", k, j)
					}
					k = j
					flipped[j]++
				}
			}
			x.Step(1)
		}
	}
	for j, f := range flipped {
		x.Assert(f > 0, "entry %d does not depend on the stream", j)
	}
	x.State(tn[T](), n, form, before)
}

// c29block: every block is zero or a unit vector, each equally likely, whatever was there before.
func c29block[T WI](x *X) {
	bs := 1 + x.Choose(x.Pick(9, 20), "block size")
	nb := 1 + x.Choose(3, "blocks")
	asPoly := x.Bool("polynomial")
	n := bs * nb
	if asPoly && (n < 16 || n&(n-1) != 0) {
		return
	}
	run := func(words []uint64) []T {
		s := csprng.NewBinarySamplerWithSeed[T]([]byte{2})
		if !drivewords(s, 8, words) {
			return nil
		}
		if asPoly {
			p := poly.NewPoly[T](n)
			dirty(&p, 9)
			s.SampleBlockPolyTo(p, bs)
			return p.Coeffs
		}
		buf := make([]T, n+2)
		dirty(&buf, uint64(n))
		l, r := buf[0], buf[n+1]
		s.SampleBlockVecTo(buf[1:n+1], bs)
		x.Assert(buf[0] == l && buf[n+1] == r, "wrote outside of the vector")
		return buf[1 : n+1]
	}
	// where reads the position of the one in each block, bs if there is none
	where := func(v []T) []int {
		var r []int
		for i := 0; i < n; i += bs {
			p := bs
			for j := 0; j < bs; j++ {
				switch v[i+j] {
				case 0:
				case 1:
					x.Assert(p == bs, "two ones in block %d: %v", i/bs, v)
					p = j
				default:
					x.Fail("entry %d is %v", i+j, v[i+j])
				}
			}
			r = append(r, p)
		}
		return r
	}
	if run(nil) == nil {
		x.Observe("not controllable")
		return
	}
	small := make([]int, bs+1) // the position that each small word stands for
	seen := make([]bool, bs+1)
	for c := 0; c <= bs; c++ {
		small[c] = where(run([]uint64{uint64(c), 0, 0}))[0]
		if seen[small[c]] {
			x.Fail("block size %d: two of the words 0..%d give position %d", bs, bs, small[c])
		}
		seen[small[c]] = true
	}
	// all combinations over the blocks
	tot := 1
	for i := 0; i < nb; i++ {
		tot *= bs + 1
	}
	for c := 0; c < tot; c++ {
		var ws []uint64
		for i, r := 0, c; i < nb; i, r = i+1, r/(bs+1) {
			ws = append(ws, uint64(r%(bs+1)))
		}
		got := where(run(ws))
		for i := range got {
			if got[i] != small[ws[i]] {
				x.Fail("block size %d words %v: positions %v", bs, ws, got)
			}
		}
		x.Step(1)
	}
	for _, c := range []uint64{math.MaxUint64, math.MaxUint64 - 1, math.MaxUint64 - uint64(bs), 1 << 63, math.MaxUint64 / 2} {
		where(run([]uint64{c, c - 1, c + 2, c, 5, 6, 7}))
	}
	if bs > 1 {
		s := csprng.NewBinarySampler[T]()
		x.Assert(x.Panics(func() { s.SampleBlockVecTo(make([]T, n+1), bs) }), "a length that is no multiple of the block size was accepted")
	}
	x.State(tn[T](), bs, nb, asPoly)
}

// --- Gaussian ---

type zig struct {
	wn, fn [128]float64
	kn     [128]float64
}

func newZig() *zig {
	z := &zig{}
	dn, vn := 3.442619855899, 9.91256303526217e-3
	sc := math.Exp2(24)
	q := vn / math.Exp(-.5*dn*dn)
	z.kn[0] = dn / q * sc
	z.wn[0], z.wn[127] = q/sc, dn/sc
	z.fn[0], z.fn[127] = 1, math.Exp(-.5*dn*dn)
	t := dn
	for i := 126; i >= 1; i-- {
		dn = math.Sqrt(-2 * math.Log(vn/dn+math.Exp(-.5*dn*dn)))
		z.kn[i+1] = dn / t * sc
		t = dn
		z.wn[i] = dn / sc
		z.fn[i] = math.Exp(-.5 * dn * dn)
	}
	return z
}

// sample follows the words; sure is false if the outcome hangs on rounding or the words run out.
func (z *zig) sample(ws []uint64) (v float64, used int, sure bool) {
	next := func() uint64 {
		used++
		if used > len(ws) {
			return 0
		}
		return ws[used-1]
	}
	uf := func() float64 { return float64(next()>>9) / (1 << 23) }
	for used < len(ws) {
		h := next()
		i, u := h>>1&127, float64(h>>8)
		sgn := 1.0
		if h&1 == 1 {
			sgn = -1
		}
		xv := u * z.wn[i]
		if math.Abs(u-z.kn[i]) < 3 {
			return 0, used, false
		}
		if u < z.kn[i] {
			return sgn * xv, used, true
		}
		if i == 0 {
			for used < len(ws) {
				a, b := uf(), uf()
				if a == 0 {
					return 0, used, false
				}
				xx, y := -math.Log(a)/3.442619855899, -math.Log(b)
				if math.Abs(2*y-xx*xx) < 1e-6 {
					return 0, used, false
				}
				if 2*y > xx*xx {
					return sgn * (xx + 3.442619855899), used, used <= len(ws)
				}
			}
			return 0, used, false
		}
		l, r := z.fn[i]+uf()*(z.fn[i-1]-z.fn[i]), math.Exp(-xv*xv/2)
		if math.Abs(l-r) < 1e-9 {
			return 0, used, false
		}
		if l < r {
			return sgn * xv, used, used <= len(ws)
		}
	}
	return 0, used, false
}

// c29gauss: the map from random words to deviates, strip by strip.
func c29gauss[T WI](x *X) {
	z := core.Memo("zig", newZig)
	i := x.Choose(128, "strip")
	neg := x.Bool("sign")
	form := x.Choose(4, "form")
	sd := core.OneOf(x, "deviation", []float64{1 << 40, 1 << 20, 3.2, 0, 1})
	w, _ := widthOf[T]()
	var us []uint64
	k := uint64(math.Max(z.kn[i], 0))
	step := uint64(x.Pick(1<<21, 1<<15))
	for u := uint64(0); u < 1<<24; u += step {
		us = append(us, u)
	}
	for d := uint64(0); d < 8; d++ {
		us = append(us, k+d, 1<<24-1-d)
		if k >= d {
			us = append(us, k-d)
		}
	}
	for j := uint64(0); j < 16 && k < 1<<24; j++ {
		us = append(us, k+(1<<24-k)*j/16)
	}
	folls := [][]uint64{{0x80000000, 0x40000000, 0x12345678}, {0xffffffff, 0xffffffff, 0x80000000}, {1 << 9, 1 << 10, 1 << 31}, {0xfffffe00, 0, 0}, {0x00ffffff, 0x10000000, 0x70000000}}
	for _, u := range us {
		if u >= 1<<24 {
			continue
		}
		h := u<<8 | uint64(i)<<1
		if neg {
			h |= 1
		}
		for _, f := range folls {
			ws := append(append([]uint64{h}, f...), 100<<8|64<<1, 200<<8|64<<1, 300<<8|64<<1, 400<<8|64<<1)
			v, used, sure := z.sample(ws)
			if !sure {
				continue
			}
			v2, _, sure2 := z.sample(ws[used:])
			if used >= len(ws) {
				sure2 = false
			}
			s := csprng.NewGaussianSamplerWithSeed[T]([]byte{3}, 1)
			if !drivewords(s, 4, ws) {
				x.Observe("not controllable")
				return
			}
			got := make([]T, 2)
			base := []T{0, 0}
			switch form {
			case 0:
				got[0], got[1] = s.Sample(sd), s.Sample(sd)
			case 1:
				s.SampleVecTo(got, sd)
			case 2, 3:
				p := poly.NewPoly[T](16)
				dirty(&p, h)
				copy(base, p.Coeffs)
				if form == 2 {
					s.SamplePolyAddTo(p, sd)
					got[0], got[1] = p.Coeffs[0]-base[0], p.Coeffs[1]-base[1]
				} else {
					s.SamplePolySubTo(p, sd)
					got[0], got[1] = base[0]-p.Coeffs[0], base[1]-p.Coeffs[1]
				}
			}
			x.Step(1)
			for j, r := range []float64{v, v2} {
				if j == 1 && !sure2 {
					break
				}
				lim := math.Exp2(float64(w - 1))
				if math.Abs(r)*sd >= lim-2 || math.Abs(math.Abs(r*sd-math.Floor(r*sd))-0.5) < 1e-6 {
					continue
				}
				want := math.Round(r * sd)
				g := asSigned(got[j], w)
				if math.Abs(g-want) > 1e-12*math.Abs(want) {
					x.Fail("strip %d words %x deviation %v draw %d: %v, want %v", i, ws, sd, j, g, want)
				}
			}
		}
	}
	x.State(tn[T](), i, neg, form, fmt.Sprint(sd))
}

func asSigned[T WI](v T, w int) float64 {
	u := uint64(v) << (64 - w)
	return float64(int64(u) >> (64 - w))
}

// c29gapi: vectors, polynomials, adding and subtracting carry the scalar stream; negative deviations panic.
func c29gapi[T WI](x *X) {
	seed := x.Choose(3, "seed")
	a := csprng.NewGaussianSamplerWithSeed[T]([]byte{byte(seed)}, 1)
	b := csprng.NewGaussianSamplerWithSeed[T]([]byte{byte(seed)}, 7)
	start := core.OneOf(x, "start", []int{0, 1, 2000, 2040, 4000})
	a.SampleVecTo(make([]T, start), 1)
	for i := 0; i < start; i++ {
		b.Sample(1)
	}
	w, _ := widthOf[T]()
	var tr []string
	for i := 0; i < x.Pick(3, 4); i++ {
		k := x.Choose(6, "call")
		sd := []float64{2, 0, 5.5}[(i+k)%3]
		if w > 16 {
			sd *= 1000
		}
		tr = append(tr, fmt.Sprint(k))
		n := []int{16, 32, 1024}[(k+seed+i)%3]
		p := poly.NewPoly[T](n)
		dirty(&p, uint64(i+9))
		old := append([]T{}, p.Coeffs...)
		switch k {
		case 0:
			n = 1
			p.Coeffs[0] = a.Sample(sd)
		case 1:
			n = n/2 + 1
			a.SampleVecTo(p.Coeffs[:n], sd)
		case 2:
			a.SamplePolyTo(p, sd)
		case 3:
			a.SamplePolyAddTo(p, sd)
		case 4:
			a.SamplePolySubTo(p, sd)
		case 5:
			n = 0
			neg := -sd - 1
			x.Assert(x.Panics(func() { a.Sample(neg) }) && x.Panics(func() { a.SampleVecTo(p.Coeffs, neg) }) &&
				x.Panics(func() { a.SamplePolyTo(p, neg) }) && x.Panics(func() { a.SamplePolyAddTo(p, neg) }) && x.Panics(func() { a.SamplePolySubTo(p, neg) }), "a negative deviation was accepted")
		}
		for j := range old {
			want := old[j]
			if j < n {
				v := b.Sample(sd)
				switch k {
				case 3:
					want = old[j] + v
				case 4:
					want = old[j] - v
				default:
					want = v
				}
				if g := asSigned(v, w); math.Abs(g) > 8.5*sd+1 {
					x.Fail("deviation %v: sampled %v", sd, g)
				}
				x.Assert(sd != 0 || v == 0, "deviation 0: sampled %v", v)
			}
			if p.Coeffs[j] != want {
				x.Fail("calls %v: entry %d is %v, want %v", tr, j, p.Coeffs[j], want)
			}
		}
		x.Step(1)
	}
	x.State(tn[T](), seed, start, fmt.Sprint(tr))
}

// --- the system generator ---

type readLog struct {
	calls [][]byte
	f     func(i int, p []byte) (int, error)
}

func (r *readLog) Read(p []byte) (int, error) {
	n, err := r.f(len(r.calls), p)
	r.calls = append(r.calls, append([]byte{}, p[:n]...))
	return n, err
}

// c29system: unseeded samplers draw their seed from the system generator, all of it, and stop when it fails.
func c29system[T WI](x *X) {
	kind := x.Choose(3, "sampler")
	mode := x.Choose(3, "generator")
	mk := func() []T {
		switch kind {
		case 0:
			s := csprng.NewUniformSampler[T]()
			r := make([]T, 64)
			s.SampleVecTo(r)
			return r
		case 1:
			s := csprng.NewBinarySampler[T]()
			r := make([]T, 512)
			s.SampleVecTo(r)
			return r
		}
		s := csprng.NewGaussianSampler[T]()
		r := make([]T, 64)
		s.SampleVecTo(r, 30)
		return r
	}
	key := func(v []T) string { return fmt.Sprint(v) }
	switch mode {
	case 0: // the stream is a function of what the generator gave
		seen := map[string]int{}
		total := 0
		core.WithReader(&readLog{f: func(i int, p []byte) (int, error) {
			total += len(p)
			for j := range p {
				p[j] = 0
			}
			return len(p), nil
		}}, func() { seen[key(mk())] = -1 })
		x.Assert(total >= 16, "only %d bytes drawn from the system generator", total)
		for b := 0; b < total*8; b++ {
			pos := 0
			core.WithReader(&readLog{f: func(i int, p []byte) (int, error) {
				for j := range p {
					p[j] = 0
					if pos == b/8 {
						p[j] = 1 << (b % 8)
					}
					pos++
				}
				return len(p), nil
			}}, func() {
				k := key(mk())
				if o, dup := seen[k]; dup {
					x.Fail("seeds with only bit %d and only bit %d set give the same stream", o, b)
				}
				seen[k] = b
			})
			x.Step(1)
		}
	case 1: // same randomness, same stream; other randomness, other stream
		var r []string
		for _, l := range []string{"a", "b", "a"} {
			core.Reseed("c29" + l)
			r = append(r, key(mk()))
		}
		x.Assert(r[0] == r[2] && r[0] != r[1], "the stream is not a function of the system generator")
		core.Reseed("c29a")
		p, q := key(mk()), key(mk())
		x.Assert(p == r[0] && p != q, "two samplers in a row repeat each other")
	case 2: // the generator returns few bytes at a time: the same stream
		var r []string
		for _, chunk := range []int{1, 3, 1 << 20} {
			n := 0
			core.WithReader(&readLog{f: func(i int, p []byte) (int, error) {
				for j := range p {
					if j == chunk {
						return j, nil
					}
					n++
					p[j] = byte(n * 37)
				}
				return len(p), nil
			}}, func() { r = append(r, key(mk())) })
		}
		x.Assert(r[0] == r[2] && r[1] == r[2], "short reads of the system generator change the stream")
	}
	x.State(tn[T](), kind, mode)
}

// c29owners: what encryptors and their safe copies draw does not repeat.
func c29owners(x *X) {
	kind := x.Choose(8, "object")
	pair := x.Choose(3, "pair")
	hist := x.Bool("history")
	s := shape{8, 1, 64, 64, 2, []tfhe.BootstrapOrder{ksbr, brks}[x.Choose(2, "order")], 4}
	// stream returns a function that draws some masks from the object
	type obj struct {
		draw func() []uint64
		copy func() obj
	}
	wide := func(v []uint64) []uint64 { return append([]uint64{}, v...) }
	var mk func() obj
	e := env[uint64](s)
	switch kind {
	case 0:
		var w func(*tfhe.Encryptor[uint64]) obj
		w = func(o *tfhe.Encryptor[uint64]) obj {
			return obj{func() []uint64 { return wide(o.EncryptLWE(1).Value[1:]) }, func() obj { return w(o.SafeCopy()) }}
		}
		mk = func() obj { return w(e.enc()) }
	case 1:
		var w func(*tfhe.Encryptor[uint64]) obj
		w = func(o *tfhe.Encryptor[uint64]) obj {
			return obj{func() []uint64 { return wide(o.EncryptGLWE([]int{1}).Value[1].Coeffs) }, func() obj { return w(o.SafeCopy()) }}
		}
		mk = func() obj { return w(e.enc()) }
	case 2: // keys
		var w func(*tfhe.Encryptor[uint64]) obj
		w = func(o *tfhe.Encryptor[uint64]) obj {
			return obj{func() []uint64 { sk := o.GenSecretKey(); return wide(sk.LWELargeKey.Value) }, func() obj { return w(o.SafeCopy()) }}
		}
		mk = func() obj { return w(e.enc()) }
	case 3:
		p := shape{8, 1, 64, 64, 1, ksbr, 4}
		pe := env[uint64](p)
		pk := pe.enc().GenPublicKey()
		var w func(*tfhe.PublicEncryptor[uint64]) obj
		w = func(o *tfhe.PublicEncryptor[uint64]) obj {
			return obj{func() []uint64 { return wide(o.EncryptGLWE([]int{1}).Value[1].Coeffs) }, func() obj { return w(o.SafeCopy()) }}
		}
		mk = func() obj { return w(tfhe.NewPublicEncryptor(pe.P, pk)) }
	case 4:
		var w func(*tfhe.BinaryEncryptor[uint64]) obj
		w = func(o *tfhe.BinaryEncryptor[uint64]) obj {
			return obj{func() []uint64 { return wide(o.EncryptLWEBool(true).Value[1:]) }, func() obj { return w(o.SafeCopy()) }}
		}
		bs := s
		bs.msg = 2
		be := env[uint64](bs)
		mk = func() obj { return w(tfhe.NewBinaryEncryptorWithKey(be.P, be.SK)) }
	case 5:
		m := mklit[uint64](mkShape{n: 8, N: 64, block: 2, parties: 2, order: s.order, msg: 4}).Compile()
		var w func(*mktfhe.Encryptor[uint64]) obj
		w = func(o *mktfhe.Encryptor[uint64]) obj {
			return obj{func() []uint64 {
				v := o.EncryptLWE(1).Value[1:]
				var r []uint64
				for _, a := range v {
					if a != 0 {
						r = append(r, a)
					}
				}
				return r
			}, func() obj { return w(o.SafeCopy()) }}
		}
		mk = func() obj { return w(mktfhe.NewEncryptor(m, 0, []byte("crs"))) }
	case 6:
		fs := shape{2, 1, 16, 16, 1, s.order, 2}
		fp := fhLit[uint64](fs, 2, 2).Compile()
		sk := fhOf[uint64](fs, 2, []int{1, 2}, false).e.SK
		var w func(*xtfhe.FHEWEncryptor[uint64]) obj
		w = func(o *xtfhe.FHEWEncryptor[uint64]) obj {
			return obj{func() []uint64 { return wide(o.EncryptLWE(1).Value[1:]) }, func() obj { return w(o.SafeCopy()) }}
		}
		mk = func() obj { return w(xtfhe.NewFHEWEncryptorWithKey(fp, sk)) }
	case 7: // masks inside generated keys
		var w func(*xtfhe.BFVKeyGenerator[uint64]) obj
		w = func(o *xtfhe.BFVKeyGenerator[uint64]) obj {
			return obj{func() []uint64 {
				k := o.GenRelinKey(gad[uint64](10, 4).Compile())
				var r []uint64
				for _, c := range o.Encryptor.InvFFTGLevCiphertext(k.Value[0]).Value {
					r = append(r, c.Value[1].Coeffs...)
				}
				return r
			}, func() obj { return w(o.SafeCopy()) }}
		}
		mk = func() obj { return w(xtfhe.NewBFVKeyGenerator(e.P, e.SK)) }
	}
	a := mk()
	if hist {
		a.draw()
	}
	var b obj
	switch pair {
	case 0:
		b = a.copy()
	case 1:
		b = mk()
	case 2:
		a, b = a.copy(), a.copy()
	}
	var all [][]uint64
	for i := 0; i < 3; i++ {
		all = append(all, a.draw(), b.draw())
	}
	binary := kind == 2
	for i := range all {
		x.Assert(len(all[i]) > 0, "no mask")
		for j := 0; j < i; j++ {
			same := 0
			for k := range all[i] {
				if k < len(all[j]) && all[i][k] == all[j][k] {
					same++
				}
			}
			if same == len(all[i]) || !binary && same > 0 {
				x.Fail("draws %d and %d agree in %d of %d entries", j, i, same, len(all[i]))
			}
		}
		if !binary { // nor shifted
			seen := map[uint64]bool{}
			for _, v := range all[i] {
				x.Assert(!seen[v], "a mask value repeats inside a ciphertext")
				seen[v] = true
			}
		}
	}
	x.Step(6)
	x.State(kind, pair, hist, int(s.order))
}

func init() {
	type tf = func(*X)
	ten := func(name, bound string, f [10]tf) {
		core.Register(core.Harness{Prop: "C29", Name: name, Bound: bound, Backends: []string{"avx2", "purego"}, Run: func(x *X) { f[x.Choose(10, "type")](x) }})
	}
	ten("uniform", "10 integer types x 3 request forms x 3 histories: all 2^8 and 2^16 words of the narrow types, all words of weight 1, 2 and w-1 and repeated bytes of the wide ones", [10]tf{c29uniform[int], c29uniform[int8], c29uniform[int16], c29uniform[int32], c29uniform[int64], c29uniform[uint], c29uniform[uint8], c29uniform[uint16], c29uniform[uint32], c29uniform[uint64]})
	ten("bounded", "10 integer types x bounds (all of the 8-bit ones): exact counts over all 2^8 and 2^16 words, the edges of the last run for wide words", [10]tf{c29bounded[int], c29bounded[int8], c29bounded[int16], c29bounded[int32], c29bounded[int64], c29bounded[uint], c29bounded[uint8], c29bounded[uint16], c29bounded[uint32], c29bounded[uint64]})
	ten("split", "10 integer types x 6 starting points around the buffer boundary x 3 seeds x every sequence of 3 (thorough 4) of 8 calls", [10]tf{c29split[int], c29split[int8], c29split[int16], c29split[int32], c29split[int64], c29split[uint], c29split[uint8], c29split[uint16], c29split[uint32], c29split[uint64]})
	ten("seed", "10 integer types x 3 samplers x 64 seeds, pairwise", [10]tf{c29seed[int], c29seed[int8], c29seed[int16], c29seed[int32], c29seed[int64], c29seed[uint], c29seed[uint8], c29seed[uint16], c29seed[uint32], c29seed[uint64]})
	ten("binary", "10 integer types x lengths 0-66, 126-131 (thorough 0-299) x 3 request forms x 3 histories x every flip of one random bit", [10]tf{c29binary[int], c29binary[int8], c29binary[int16], c29binary[int32], c29binary[int64], c29binary[uint], c29binary[uint8], c29binary[uint16], c29binary[uint32], c29binary[uint64]})
	ten("block", "10 integer types x block sizes 1-9 (thorough 1-20) x 1-3 blocks x every combination of small words", [10]tf{c29block[int], c29block[int8], c29block[int16], c29block[int32], c29block[int64], c29block[uint], c29block[uint8], c29block[uint16], c29block[uint32], c29block[uint64]})
	ten("gauss-api", "10 integer types x 3 seeds x 5 starting points x every sequence of 3 (thorough 4) of 6 calls", [10]tf{c29gapi[int], c29gapi[int8], c29gapi[int16], c29gapi[int32], c29gapi[int64], c29gapi[uint], c29gapi[uint8], c29gapi[uint16], c29gapi[uint32], c29gapi[uint64]})
	ten("system", "10 integer types x 3 samplers x every single-bit seed, equal and different system randomness, short reads", [10]tf{c29system[int], c29system[int8], c29system[int16], c29system[int32], c29system[int64], c29system[uint], c29system[uint8], c29system[uint16], c29system[uint32], c29system[uint64]})
	core.Register(core.Harness{Prop: "C29", Name: "gauss", Backends: []string{"avx2", "purego"}, Bound: "3 integer types x 128 strips x sign x 4 request forms x 5 deviations x ~60 (thorough ~570) positions x 5 continuations against a ziggurat model", Run: func(x *X) {
		[]tf{c29gauss[uint64], c29gauss[uint32], c29gauss[int64]}[x.Choose(x.Pick(2, 3), "type")](x)
	}})
	core.Register(core.Harness{Prop: "C29", Name: "owners", Backends: []string{"avx2", "purego"}, Bound: "8 kinds of encryptor and key generator x 2 orders x original/copy, two originals, two copies x 2 histories", Run: c29owners})
}
