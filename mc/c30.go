package main

import (
	"math/big"

	"github.com/sp301415/tfhe-go/math/num"
	"verifmc/core"
)

// C30: every helper on every pair of 8-bit values, and on the boundary lattice of the wider types, against math/big.

func bigOf[T num.Integer](x T) *big.Int {
	if x < 0 {
		return big.NewInt(int64(x))
	}
	return new(big.Int).SetUint64(uint64(x))
}

func bitsT[T num.Integer]() int {
	n := 0
	for x := T(1); x != 0; x <<= 1 {
		n++
	}
	return n
}

func signedT[T num.Integer]() bool { var z T; z--; return z < 0 }

func minMax[T num.Integer]() (T, T) {
	n := bitsT[T]()
	if signedT[T]() {
		min := T(1)
		for i := 0; i < n-1; i++ {
			min <<= 1
		}
		return min, ^min
	}
	var z T
	return 0, ^z
}

// lattice of interesting values: all of them for 8 bits, otherwise small numbers, powers of two and neighbours, extremes.
func lattice[T num.Integer](rad int) []T {
	var r []T
	seen := map[T]bool{}
	add := func(v T) {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	n := bitsT[T]()
	if n == 8 {
		for i := 0; i < 256; i++ {
			add(T(i))
		}
		return r
	}
	for i := -rad; i <= rad; i++ {
		add(T(i))
	}
	p := T(1)
	for i := 0; i < n; i++ {
		for d := -2; d <= 2; d++ {
			add(p + T(d))
			add(-p + T(d))
			add(p + p/2 + T(d))
		}
		p <<= 1
	}
	mn, mx := minMax[T]()
	for d := 0; d < 4; d++ {
		add(mn + T(d))
		add(mx - T(d))
		add(mx/3 + T(d))
		add(mx/5*2 + T(d))
		add(mx/7 - T(d))
	}
	return r
}

func roundDiv(x, y *big.Int) (lo, hi *big.Int) {
	// nearest integers to x/y; lo==hi unless tie
	two := big.NewInt(2)
	num2 := new(big.Int).Mul(x, two)
	den2 := new(big.Int).Mul(y, two)
	if den2.Sign() < 0 {
		num2.Neg(num2)
		den2.Neg(den2)
	}
	half := new(big.Int).Rsh(den2, 1)
	// floor((2x + y)/2y)
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(new(big.Int).Add(num2, half), den2, m)
	if m.Sign() == 0 {
		return new(big.Int).Sub(q, big.NewInt(1)), q
	}
	return q, q
}

func c30type[T num.Integer](x *X, tn string) {
	mn, mx := minMax[T]()
	bmn, bmx := bigOf(mn), bigOf(mx)
	fits := func(b *big.Int) bool { return b.Cmp(bmn) >= 0 && b.Cmp(bmx) <= 0 }
	nb := bitsT[T]()
	vals := lattice[T](x.Pick(8, 40))
	one := big.NewInt(1)
	check := func(op string, got T, want *big.Int, a ...any) {
		if bigOf(got).Cmp(want) != 0 {
			x.Fail("%s[%s]%v = %v, want %v", op, tn, a, got, want)
		}
		x.Step(1)
	}
	switch x.Choose(5, "op") {
	case 0: // unary and constants
		x.Assert(num.SizeT[T]() == nb && num.ByteSizeT[T]()*8 == nb, "SizeT[%s]", tn)
		x.Assert(num.MaxT[T]() == bmx.Uint64(), "MaxT[%s]", tn)
		x.Assert(num.MinT[T]() == bmn.Int64(), "MinT[%s]", tn)
		x.Assert(num.IsSigned[T]() == signedT[T](), "IsSigned[%s]", tn)
		for _, v := range vals {
			b := bigOf(v)
			if abs := new(big.Int).Abs(b); fits(abs) {
				check("Abs", num.Abs(v), abs, v)
			}
			p2 := b.Sign() > 0 && new(big.Int).And(b, new(big.Int).Sub(b, one)).Sign() == 0
			x.Assert(num.IsPowerOfTwo(v) == p2, "IsPowerOfTwo[%s](%v)", tn, v)
			if v > 0 {
				x.Assert(num.Log2(v) == b.BitLen()-1, "Log2[%s](%v) = %d", tn, v, num.Log2(v))
			} else {
				x.Assert(x.Panics(func() { num.Log2(v) }), "Log2[%s](%v) does not panic", tn, v)
			}
			if v >= 0 {
				check("Sqrt", num.Sqrt(v), new(big.Int).Sqrt(b), v)
			} else {
				x.Assert(x.Panics(func() { num.Sqrt(v) }), "Sqrt[%s](%v) does not panic", tn, v)
			}
			x.Step(3)
			x.State("u", tn, b.String())
		}
		// perfect squares and neighbours
		for i := uint64(0); i < 3000; i++ {
			for _, base := range []uint64{0, 1<<32 - 3000, 1 << 31, 1 << 16, 3037000000} {
				s := new(big.Int).SetUint64(base + i)
				s.Mul(s, s)
				for d := int64(-1); d <= 1; d++ {
					w := new(big.Int).Add(s, big.NewInt(d))
					if w.Sign() >= 0 && fits(w) {
						check("Sqrt", num.Sqrt(T(w.Uint64())), new(big.Int).Sqrt(w), w)
					}
				}
			}
		}
	case 1: // shifts and rounding
		for _, v := range vals {
			b := bigOf(v)
			for k := 0; k < nb; k++ {
				den := new(big.Int).Lsh(one, uint(k))
				lo, hi := roundDiv(b, den)
				g := bigOf(num.DivRoundBits(v, k))
				if v >= 0 && g.Cmp(hi) != 0 || g.Cmp(lo) != 0 && g.Cmp(hi) != 0 {
					x.Fail("DivRoundBits[%s](%v,%d) = %v want %v", tn, v, k, g, hi)
				}
				x.Step(1)
			}
			x.State("s", tn, b.String())
			x.Assert(x.Panics(func() { num.DivRoundBits(v, -1) }), "DivRoundBits[%s](%v,-1) does not panic", tn, v)
		}
	case 2: // pairs
		{
			v := core.OneOf(x, "v", vals)
			b := bigOf(v)
			for _, w := range vals {
				c := bigOf(w)
				wantMin, wantMax := b, c
				if b.Cmp(c) > 0 {
					wantMin, wantMax = c, b
				}
				check("Min", num.Min(v, w), wantMin, v, w)
				check("Max", num.Max(v, w), wantMax, v, w)
				check("MinN", num.MinN(v, w), wantMin, v, w)
				check("MaxN", num.MaxN(v, w), wantMax, v, w)
				check("MinN", num.MinN(v, w, v, w), wantMin, v, w)
				check("MaxN", num.MaxN(w, w, v), wantMax, v, w)
				if w == 0 {
					continue
				}
				lo, hi := roundDiv(b, c)
				if !fits(lo) || !fits(hi) {
					continue
				}
				g := bigOf(num.DivRound(v, w))
				ok := g.Cmp(hi) == 0
				if lo.Cmp(hi) != 0 && hi.Sign() <= 0 {
					ok = ok || g.Cmp(lo) == 0
				}
				if !ok {
					x.Fail("DivRound[%s](%v,%v) = %v want %v", tn, v, w, g, hi)
				}
			}
			x.State("p", tn, b.String())
		}
		x.Assert(num.MinN[T]() == 0 && num.MaxN[T]() == 0, "empty MinN/MaxN")
	case 3: // modular inverse
		{
			v := core.OneOf(x, "v", vals)
			for _, m := range vals {
				bm := bigOf(m)
				if m <= 0 {
					x.Assert(x.Panics(func() { num.ModInverse(v, m) }), "ModInverse[%s](%v,%v) does not panic", tn, v, m)
					continue
				}
				bx := new(big.Int).Mod(bigOf(v), bm)
				if new(big.Int).GCD(nil, nil, bx, bm).Cmp(one) != 0 {
					x.Assert(x.Panics(func() { num.ModInverse(v, m) }), "ModInverse[%s](%v,%v) does not panic", tn, v, m)
					continue
				}
				want := new(big.Int)
				if m > 1 {
					want.ModInverse(bx, bm)
				}
				check("ModInverse", num.ModInverse(v, m), want, v, m)
			}
			x.State("i", tn, bigOf(v).String())
		}
	case 4: // modular exponentiation
		small := lattice[T](3)
		if nb == 8 {
			small = nil
			for i := 0; i < 256; i += x.Pick(3, 1) {
				small = append(small, T(i))
			}
		} else {
			s2 := small[:7:7]
			for i := 7; i < len(small); i += x.Pick(5, 3) {
				s2 = append(s2, small[i])
			}
			small = s2
		}
		{
			v := core.OneOf(x, "v", small)
			for _, y := range small {
				for _, m := range small {
					if nb <= 32 && m > 0 && y >= 0 {
						um := uint64(m)
						base, r := uint64(0), uint64(1)%um
						if v >= 0 {
							base = uint64(v) % um
						} else {
							base = (um - uint64(-int64(v))%um) % um
						}
						for k := 63; k >= 0; k-- {
							r = r * r % um
							if uint64(y)>>k&1 == 1 {
								r = r * base % um
							}
						}
						if g := num.ModExp(v, y, m); g < 0 || uint64(g) != r {
							x.Fail("ModExp[%s](%v,%v,%v) = %v, want %v", tn, v, y, m, g, r)
						}
						x.Step(1)
						continue
					}
					bm := bigOf(m)
					if m <= 0 {
						x.Assert(x.Panics(func() { num.ModExp(v, y, m) }), "ModExp[%s](%v,%v,%v) does not panic", tn, v, y, m)
						continue
					}
					bx := new(big.Int).Mod(bigOf(v), bm)
					by := bigOf(y)
					want := new(big.Int)
					if y < 0 {
						if new(big.Int).GCD(nil, nil, bx, bm).Cmp(one) != 0 {
							x.Assert(x.Panics(func() { num.ModExp(v, y, m) }), "ModExp[%s](%v,%v,%v) does not panic", tn, v, y, m)
							continue
						}
						if m > 1 {
							bx.ModInverse(bx, bm)
						}
						by.Neg(by)
					}
					want.Exp(bx, by, bm)
					check("ModExp", num.ModExp(v, y, m), want, v, y, m)
				}
			}
			x.State("e", tn, bigOf(v).String())
		}
	}
}

func init() {
	core.Register(core.Harness{Prop: "C30", Name: "integers", Backends: []string{"avx2"}, Shards: 8,
		Bound: "all argument pairs of the 8-bit types; for wider types the lattice {|v|<=r, 2^k+-2, 3*2^k/2+-2, extremes, fractions of max} squared (cubed, thinned, for ModExp)",
		Run: func(x *X) {
			switch x.Choose(11, "type") {
			case 0:
				c30type[int8](x, "int8")
			case 1:
				c30type[uint8](x, "uint8")
			case 2:
				c30type[int16](x, "int16")
			case 3:
				c30type[uint16](x, "uint16")
			case 4:
				c30type[int32](x, "int32")
			case 5:
				c30type[uint32](x, "uint32")
			case 6:
				c30type[int64](x, "int64")
			case 7:
				c30type[uint64](x, "uint64")
			case 8:
				c30type[int](x, "int")
			case 9:
				c30type[uint](x, "uint")
			case 10:
				c30type[uintptr](x, "uintptr")
			}
		}})
	core.Register(core.Harness{Prop: "C30", Name: "reals", Backends: []string{"avx2"}, Shards: 1,
		Bound: "Min/Max/MinN/MaxN/Abs over all triples of a float value set",
		Run: func(x *X) {
			fs := []float64{-1e300, -2.5, -1, -0.5, 0, 1e-300, 0.5, 1, 2.5, 1e300}
			a, b, c := core.OneOf(x, "a", fs), core.OneOf(x, "b", fs), core.OneOf(x, "c", fs)
			mn, mx := a, a
			for _, v := range []float64{b, c} {
				if v < mn {
					mn = v
				}
				if v > mx {
					mx = v
				}
			}
			x.Assert(num.MinN(a, b, c) == mn && num.MaxN(a, b, c) == mx, "MinN/MaxN(%v,%v,%v)", a, b, c)
			x.Assert(num.Min(num.Min(a, b), c) == mn && num.Max(num.Max(a, b), c) == mx, "Min/Max(%v,%v,%v)", a, b, c)
			ab := a
			if ab < 0 {
				ab = -ab
			}
			x.Assert(num.Abs(a) == ab && float64(num.Abs(float32(b))) >= 0, "Abs(%v)", a)
			x.Assert(num.IsSigned[float64]() && num.IsSigned[float32](), "IsSigned of floats")
			x.Step(6)
			x.State(mn, mx)
		}})
}
