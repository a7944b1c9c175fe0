package props

import (
	"bytes"
	"crypto/sha256"
	"math/big"
	"math/bits"
	"testing"

	math "github.com/IBM/mathlib"
	"pgregory.net/rapid"

	"pol/common"

	"verif/harness/h"
)

func bigs(v common.Vec) []*big.Int {
	res := make([]*big.Int, len(v))
	for i := range v {
		res[i] = h.Big(v[i])
	}
	return res
}

func wantVec(c *h.C, op string, got common.Vec, want []*big.Int) {
	if len(got) != len(want) {
		c.Fatalf("%s: %d entries instead of %d", op, len(got), len(want))
	}
	for i := range want {
		w := new(big.Int).Mod(want[i], h.R)
		if h.Big(got[i]).Cmp(w) != 0 {
			c.Fatalf("%s: entry %d is %v instead of %x", op, i, got[i], w)
		}
	}
}

// reduced checks that results can be compared with Equals, which compares integers.
func reduced(c *h.C, op string, got ...*math.Zr) {
	for i, x := range got {
		if !x.Equals(h.Canon(x)) {
			c.Fatalf("%s: result %d is not reduced: %v", op, i, x)
		}
	}
}

func wantZr(c *h.C, op string, got *math.Zr, want *big.Int) {
	wantVec(c, op, common.Vec{got}, []*big.Int{want})
}

func pairwise(a, b []*big.Int, f func(z, x, y *big.Int) *big.Int) []*big.Int {
	res := make([]*big.Int, len(a))
	for i := range a {
		res[i] = f(new(big.Int), a[i], b[i])
	}
	return res
}

// unreduced sometimes adds the group order to entries, which sums of scalars may contain.
func unreduced(c *h.C, v common.Vec) common.Vec {
	if h.Int(c, "unreduced", 0, 3) != 0 {
		return v
	}
	res := h.CopyVec(v)
	for i := range res {
		if h.Bool(c, "plus order") {
			res[i] = res[i].Plus(h.Curve.GroupOrder)
		}
	}
	return res
}

// drawnVec expands the case's randomness to n scalars of full width.
func drawnVec(n int) common.Vec {
	v := make(common.Vec, n)
	for i := range v {
		x := new(big.Int)
		for j := 0; j < 4; j++ {
			x.Lsh(x, 64)
			x.Or(x, new(big.Int).SetUint64(word()))
		}
		v[i] = h.Zr(x)
	}
	return v
}

func TestC28(t *testing.T) {
	pow := func(z, x, y *big.Int) *big.Int { return z.Mul(x, y) }
	h.Run(t, h.Prop{
		Name: "vec", N: h.N{Quick: 24000, Thorough: 800000},
		Rule: "two vectors (1 to 16 entries, sometimes up to 300: zero, small, r-k, powers of two, full width; sometimes not reduced) and a factor through every vector operation, compared with math/big, results of sums and products reduced; non-trivial when neither vector is zero",
		Check: func(c *h.C) {
			n := h.Int(c, "n", 1, 16)
			if h.Chance(c, "long", 40) {
				n = h.Int(c, "long n", 17, 300)
			}
			a, b := unreduced(c, vector(c, "a", n)), unreduced(c, vector(c, "b", n))
			k := h.Scalar(c, "k")
			ab, bb, kb := bigs(a), bigs(b), h.Big(k)
			c.Desc("a=%v b=%v k=%v", a, b, k)
			print := h.Fingerprint(&a, &b, k)
			wantVec(c, "Add", a.Add(b), pairwise(ab, bb, (*big.Int).Add))
			wantVec(c, "Sub", a.Sub(b), pairwise(ab, bb, (*big.Int).Sub))
			wantVec(c, "HadamardProd", a.HadamardProd(b), pairwise(ab, bb, pow))
			scaled := make([]*big.Int, n)
			inner, product := new(big.Int), big.NewInt(1)
			for i := range ab {
				scaled[i] = new(big.Int).Mul(ab[i], kb)
				inner.Add(inner, new(big.Int).Mul(ab[i], bb[i]))
				product.Mod(product.Mul(product, ab[i]), h.R)
			}
			wantVec(c, "Mul", a.Mul(k), scaled)
			wantZr(c, "InnerProd", a.InnerProd(b), inner)
			wantZr(c, "Product", a.Product(), product)
			wantVec(c, "Concat", a.Concat(b), append(append([]*big.Int{}, ab...), bb...))
			rev := make([]*big.Int, n)
			for i := range ab {
				rev[n-1-i] = ab[i]
			}
			wantVec(c, "Reverse", a.Reverse(), rev)
			if n%2 == 0 {
				var evens, odds []*big.Int
				for i := 0; i < n; i += 2 {
					evens, odds = append(evens, ab[i]), append(odds, ab[i+1])
				}
				wantVec(c, "Evens", a.Evens(), evens)
				wantVec(c, "Odds", a.Odds(), odds)
			}
			reduced(c, "Add", a.Add(b)...)
			reduced(c, "Sub", a.Sub(b)...)
			reduced(c, "HadamardProd", a.HadamardProd(b)...)
			reduced(c, "Mul", a.Mul(k)...)
			reduced(c, "InnerProd", a.InnerProd(b))
			reduced(c, "NegZr", common.NegZr(a[0]))
			if n > 1 {
				reduced(c, "Product", a.Product())
			}
			exp := make([]uint8, n)
			sel := make([]*big.Int, n)
			for i := range exp {
				exp[i] = uint8(h.Int(c, "exp", 0, 1))
				sel[i] = big.NewInt(1)
				if exp[i] == 1 {
					sel[i] = ab[i]
				}
			}
			wantVec(c, "PowBitVec", a.PowBitVec(exp), sel)
			wantZr(c, "NegZr", common.NegZr(a[0]), new(big.Int).Neg(ab[0]))
			if a.Size() != 32*n {
				c.Fatalf("Size is %d for %d scalars", a.Size(), n)
			}
			if h.Fingerprint(&a, &b, k) != print {
				c.Fatalf("an operation modified its operands")
			}
			z := make(common.Vec, n)
			copy(z, a)
			z.Zero()
			wantVec(c, "Zero", z, make2(n, 0))
			if h.Fingerprint(&a, &b, k) != print {
				c.Fatalf("zeroing a vector modified the scalars it shared")
			}
			c.Eval(!isZero(a) && !isZero(b), "")
		},
	}, h.Prop{
		Name: "long", N: h.N{Quick: 16, Thorough: 800},
		Rule: "vector operations, power series and bit decompositions over 1000 to 10000 scalars of full width compared with math/big; every case is non-trivial",
		Check: func(c *h.C) {
			n := 2 * h.Int(c, "half", 500, 5000)
			a, b := drawnVec(n), drawnVec(n)
			k := h.NonZero(c, "k")
			ab, bb, kb := bigs(a), bigs(b), h.Big(k)
			print := h.Fingerprint(&a, &b, k)
			scaled, series, rev, sel := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
			exp := make([]uint8, n)
			var evens, odds []*big.Int
			inner, product, p := new(big.Int), big.NewInt(1), big.NewInt(1)
			for i := range ab {
				scaled[i] = new(big.Int).Mul(ab[i], kb)
				inner.Add(inner, new(big.Int).Mul(ab[i], bb[i]))
				product.Mod(product.Mul(product, ab[i]), h.R)
				series[i] = new(big.Int).Set(p)
				p.Mod(p.Mul(p, kb), h.R)
				rev[n-1-i] = ab[i]
				exp[i] = uint8(bb[i].Bit(0))
				sel[i] = big.NewInt(1)
				if exp[i] == 1 {
					sel[i] = ab[i]
				}
				if i%2 == 0 {
					evens = append(evens, ab[i])
				} else {
					odds = append(odds, ab[i])
				}
			}
			wantVec(c, "PowerSeries", common.PowerSeries(n, k), series)
			wantVec(c, "Add", a.Add(b), pairwise(ab, bb, (*big.Int).Add))
			wantVec(c, "Sub", a.Sub(b), pairwise(ab, bb, (*big.Int).Sub))
			wantVec(c, "HadamardProd", a.HadamardProd(b), pairwise(ab, bb, pow))
			wantVec(c, "Mul", a.Mul(k), scaled)
			wantZr(c, "InnerProd", a.InnerProd(b), inner)
			wantZr(c, "Product", a.Product(), product)
			wantVec(c, "Concat", a.Concat(b), append(append([]*big.Int{}, ab...), bb...))
			wantVec(c, "Reverse", a.Reverse(), rev)
			wantVec(c, "Evens", a.Evens(), evens)
			wantVec(c, "Odds", a.Odds(), odds)
			wantVec(c, "PowBitVec", a.PowBitVec(exp), sel)
			digits := a.Bits(254)
			if len(digits) != 254*n {
				c.Fatalf("Bits of %d 254-bit values has %d digits", n, len(digits))
			}
			for i, d := range digits {
				if uint(d) != ab[i/254].Bit(i%254) {
					c.Fatalf("Vec.Bits: wrong digit %d of entry %d", i%254, i/254)
				}
			}
			wantVec(c, "IntsToZr", common.IntsToZr(exp), func() []*big.Int {
				r := make([]*big.Int, n)
				for i := range r {
					r[i] = big.NewInt(int64(exp[i]))
				}
				return r
			}())
			if a.Size() != 32*n {
				c.Fatalf("Size is %d for %d scalars", a.Size(), n)
			}
			if h.Fingerprint(&a, &b, k) != print {
				c.Fatalf("an operation modified its operands")
			}
			c.Desc("n=%d a[0]=%v k=%v", n, a[0], k)
			c.Eval(true, "")
		},
	}, h.Prop{
		Name: "scalars", N: h.N{Quick: 16000, Thorough: 400000},
		Rule: "powers, power series, integer conversion and bit decomposition of a drawn scalar compared with math/big; non-trivial when the scalar is not zero",
		Check: func(c *h.C) {
			x := h.Scalar(c, "x")
			xb := h.Big(x)
			print := h.Fingerprint(x)
			n := h.Int(c, "n", 0, 40)
			if h.Chance(c, "long", 40) {
				n = h.Int(c, "long n", 41, 700)
			}
			series := make([]*big.Int, n)
			p := big.NewInt(1)
			for i := range series {
				series[i] = new(big.Int).Set(p)
				p.Mod(p.Mul(p, xb), h.R)
			}
			wantVec(c, "PowerSeries", common.PowerSeries(n, x), series)
			e := h.Int(c, "e", 0, 600)
			wantZr(c, "Pow2", common.Pow2(e), new(big.Int).Lsh(big.NewInt(1), uint(e)))
			i := int(rapid.Uint64().Draw(c.T, "int") >> uint(h.Int(c, "shift", 1, 63)))
			wantZr(c, "IntToZr", common.IntToZr(i), big.NewInt(int64(i)))
			small := make([]uint8, h.Int(c, "ints", 0, 5))
			smallB := make([]*big.Int, len(small))
			for j := range small {
				small[j] = uint8(h.Int(c, "small", 0, 255))
				smallB[j] = big.NewInt(int64(small[j]))
			}
			wantVec(c, "IntsToZr", common.IntsToZr(small), smallB)

			l := h.Int(c, "len", 0, 300)
			checkBits := func(op string, got []uint8, n *big.Int, l int) {
				want := n.BitLen()
				if l > want {
					want = l
				}
				if len(got) != want {
					c.Fatalf("%s of %x padded to %d has %d digits", op, n, l, len(got))
				}
				for j, bit := range got {
					if uint(bit) != n.Bit(j) {
						c.Fatalf("%s of %x: wrong digit %d", op, n, j)
					}
				}
			}
			le := common.Bits(x, l)
			checkBits("Bits", le, xb, l)
			be := common.BitsBigEndian(x, l)
			checkBits("BitsBigEndian", common.ReverseBits(be), xb, l)
			if r := common.ReverseBits(le); !bytes.Equal(r, be) {
				c.Fatalf("ReverseBits does not reverse")
			}
			m := h.Int(c, "m", 1, 4)
			v := make(common.Vec, m)
			for j := range v {
				v[j] = h.ZrInt(h.Amount(c, "v", 1<<63-1))
			}
			all := v.Bits(63)
			if len(all) != 63*m {
				c.Fatalf("Bits of %d 63-bit values has %d digits", m, len(all))
			}
			for j := range v {
				checkBits("Vec.Bits", all[63*j:63*j+63], h.Big(v[j]), 63)
			}
			width := h.Int(c, "width", 1, 254)
			for j := range v {
				v[j] = h.Zr(new(big.Int).Rsh(h.Wide(c, "w"), uint(254-width)))
			}
			all = v.Bits(width)
			if len(all) != width*m {
				c.Fatalf("Bits of %d %d-bit values has %d digits", m, width, len(all))
			}
			for j := range v {
				checkBits("Vec.Bits", all[width*j:width*j+width], h.Big(v[j]), width)
			}
			if h.Fingerprint(x) != print {
				c.Fatalf("an operation modified its operand")
			}
			c.Desc("x=%v n=%d e=%d i=%d", x, n, e, i)
			c.Eval(xb.Sign() != 0, "")
		},
	}, h.Prop{
		Name: "group", N: h.N{Quick: 2400, Thorough: 60000},
		Rule: "group vectors of known discrete logarithms (identity included) through every group vector operation, compared with the generator raised to the result in math/big; non-trivial when not all logarithms are zero",
		Check: func(c *h.C) {
			n := h.Int(c, "n", 1, 6)
			if h.Chance(c, "long", 60) {
				n = h.Int(c, "long n", 7, 70)
			}
			a, b, v := vector(c, "a", n), vector(c, "b", n), vector(c, "v", n)
			k := h.Scalar(c, "k")
			ab, bb, vb, kb := bigs(a), bigs(b), bigs(v), h.Big(k)
			exp1 := func(x *big.Int) *math.G1 { return h.Curve.GenG1.Mul(h.Zr(x)) }
			exp2 := func(x *big.Int) *math.G2 { return h.Curve.GenG2.Mul(h.Zr(x)) }
			g, g2 := make(common.G1v, n), make(common.G1v, n)
			q, q2 := make(common.G2v, n), make(common.G2v, n)
			for i := range g {
				g[i], g2[i], q[i], q2[i] = exp1(ab[i]), exp1(bb[i]), exp2(bb[i]), exp2(ab[i])
			}
			print := h.Fingerprint(&g, &g2, &q, &q2, &a, &b, &v, k)
			is := func(op string, got []*math.G1, want []*big.Int) {
				if len(got) != len(want) {
					c.Fatalf("%s: %d entries instead of %d", op, len(got), len(want))
				}
				for i := range want {
					if !got[i].Equals(exp1(want[i])) {
						c.Fatalf("%s: entry %d is wrong", op, i)
					}
				}
			}
			is2 := func(op string, got []*math.G2, want []*big.Int) {
				if len(got) != len(want) {
					c.Fatalf("%s: %d entries instead of %d", op, len(got), len(want))
				}
				for i := range want {
					if !got[i].Equals(exp2(want[i])) {
						c.Fatalf("%s: entry %d is wrong", op, i)
					}
				}
			}
			sum := func(x []*big.Int) *big.Int {
				s := new(big.Int)
				for _, y := range x {
					s.Add(s, y)
				}
				return s
			}
			scale := func(x []*big.Int, y *big.Int) []*big.Int {
				res := make([]*big.Int, len(x))
				for i := range x {
					res[i] = new(big.Int).Mul(x[i], y)
				}
				return res
			}
			is("G1v.Add", g.Add(g2), pairwise(ab, bb, (*big.Int).Add))
			is("G1v.HadamardProd", g.HadamardProd(g2), pairwise(ab, bb, (*big.Int).Add))
			is("G1v.Neg", g.Neg(), scale(ab, big.NewInt(-1)))
			is("G1v.Mul", g.Mul(k), scale(ab, kb))
			is("G1v.MulV", g.MulV(v), pairwise(ab, vb, pow))
			is("G1v.Sum", []*math.G1{g.Sum()}, []*big.Int{sum(ab)})
			is("G1v.MulV.Sum", []*math.G1{g.MulV(v).Sum()}, []*big.Int{sum(pairwise(ab, vb, pow))})
			is("Vec.Exp", []*math.G1{v.Exp(g)}, []*big.Int{sum(pairwise(ab, vb, pow))})
			is("G1v.Duplicate", g[:1].Duplicate(n), func() []*big.Int {
				r := make([]*big.Int, n)
				for i := range r {
					r[i] = ab[0]
				}
				return r
			}())
			is2("G2v.Add", q.Add(q2), pairwise(ab, bb, (*big.Int).Add))
			is2("G2v.Mul", q.Mul(k), scale(bb, kb))
			is2("G2v.Mulv", q.Mulv(v), pairwise(bb, vb, pow))
			is2("G2v.Sum", []*math.G2{q.Sum()}, []*big.Int{sum(bb)})
			is2("G2v.Duplicate", q[:1].Duplicate(2), []*big.Int{bb[0], bb[0]})
			inner := new(big.Int).Mod(sum(pairwise(ab, bb, pow)), h.R)
			want := h.Curve.FExp(h.Curve.Pairing(h.Curve.GenG2, exp1(inner)))
			if !g.InnerProd(q).Equals(want) {
				c.Fatalf("InnerProd of pairings is wrong")
			}
			var enc []byte
			for i := range g {
				enc = append(enc, g[i].Bytes()...)
			}
			if !bytes.Equal(enc, g.Bytes()) {
				c.Fatalf("G1v.Bytes is not the concatenation")
			}
			enc = nil
			for i := range q {
				enc = append(enc, q[i].Bytes()...)
			}
			if !bytes.Equal(enc, q.Bytes()) {
				c.Fatalf("G2v.Bytes is not the concatenation")
			}
			if h.Fingerprint(&g, &g2, &q, &q2, &a, &b, &v, k) != print {
				c.Fatalf("an operation modified its operands")
			}
			c.Desc("a=%v b=%v v=%v k=%v", a, b, v, k)
			c.Eval(!isZero(a) && !isZero(b), "")
		},
	}, h.Prop{
		Name: "hash", N: h.N{Quick: 40000, Thorough: 1000000},
		Rule: "hash-to-field of 32 drawn bytes (all-zero, all-one and boundary words included) is canonical, repeatable and changes with any single byte; hash-to-group generators are repeatable and distinct by context and index; every case is non-trivial",
		Check: func(c *h.C) {
			d := make([]byte, 32)
			mode := h.Int(c, "mode", 0, 3)
			for w := 0; w < 4; w++ {
				x := rapid.Uint64().Draw(c.T, "word")
				if mode == 1 {
					x = ^x
				}
				for i := 0; i < 8; i++ {
					d[8*w+i] = byte(x >> uint(56-8*i))
				}
			}
			orig := append([]byte{}, d...)
			f := common.FieldElementFromBytes(d)
			if !bytes.Equal(orig, d) {
				c.Fatalf("FieldElementFromBytes modified its input")
			}
			raw, ok := new(big.Int).SetString(f.String(), 16)
			if !ok || raw.Sign() < 0 || raw.Cmp(h.R) >= 0 {
				c.Fatalf("FieldElementFromBytes(%x) = %v is not canonical", d, f)
			}
			if !common.FieldElementFromBytes(d).Equals(f) {
				c.Fatalf("FieldElementFromBytes is not repeatable")
			}
			i := h.Int(c, "byte", 0, 31)
			d[i] ^= byte(h.Int(c, "flip", 1, 255))
			if h.SameZr(common.FieldElementFromBytes(d), f) {
				c.Fatalf("FieldElementFromBytes(%x) = FieldElementFromBytes(%x)", orig, d)
			}
			in := rapid.SliceOfN(rapid.Byte(), 0, 100).Draw(c.T, "in")
			if h.Chance(c, "group", 10) {
				g := common.HashToG1(in)
				if g.IsInfinity() || !common.HashToG1(append([]byte{}, in...)).Equals(g) {
					c.Fatalf("HashToG1(%x) is the identity or not repeatable", in)
				}
				alt := append([]byte{}, in...)
				if len(alt) > 0 && h.Bool(c, "flip one") {
					alt[h.Int(c, "which", 0, len(alt)-1)] ^= byte(h.Int(c, "flip", 1, 255))
				} else {
					alt = append(alt, byte(h.Int(c, "more", 0, 255)))
				}
				if other := common.HashToG1(alt); other.Equals(g) || other.Equals(h.SubG(h.Identity(), g)) {
					c.Fatalf("HashToG1(%x) = HashToG1(%x)", in, alt)
				}
			}
			want := sha256.Sum256(in)
			if !bytes.Equal(common.SHA256Digest(string(in)), want[:]) {
				c.Fatalf("SHA256Digest(%x) is wrong", in)
			}
			c.Desc("%x %d", orig, i)
			c.Eval(true, "")
		},
	}, h.Prop{
		Name: "generators", N: h.N{Quick: 200, Thorough: 2000},
		Rule: "derived generators are repeatable, prefix-stable, on distinct points for distinct indices and contexts and never the identity; random vectors have the asked length, canonical and distinct entries; every case is non-trivial",
		Check: func(c *h.C) {
			n, m := h.Int(c, "n", 1, 20), h.Int(c, "m", 1, 20)
			ctx := rapid.StringMatching("[ -~]{0,12}").Draw(c.T, "context")
			ctx2 := rapid.StringMatching("[ -~]{0,12}").Draw(c.T, "context2")
			a, b := common.RandGenVec(n, ctx), common.RandGenVec(m, ctx)
			seen := map[string]bool{}
			for i := range a {
				if i < m && !a[i].Equals(b[i]) {
					c.Fatalf("generator %d of %q depends on the number of generators", i, ctx)
				}
				if a[i].IsInfinity() || seen[string(a[i].Bytes())] {
					c.Fatalf("generator %d of %q is the identity or repeated", i, ctx)
				}
				seen[string(a[i].Bytes())] = true
			}
			if len(a) != n {
				c.Fatalf("%d generators instead of %d", len(a), n)
			}
			if ctx2 != ctx {
				for i, g := range common.RandGenVec(n, ctx2) {
					// "x" 1 and "x 1" are different inputs, too
					if seen[string(g.Bytes())] {
						c.Fatalf("generator %d of %q is one of %q", i, ctx2, ctx)
					}
				}
			}
			v := common.RandVec(n)
			if len(v) != n {
				c.Fatalf("%d random scalars instead of %d", len(v), n)
			}
			scal := map[string]bool{}
			for i := range v {
				raw, _ := new(big.Int).SetString(v[i].String(), 16)
				if raw.Cmp(h.R) >= 0 || scal[v[i].String()] || raw.BitLen() < 128 {
					c.Fatalf("random scalar %d = %v is not canonical, repeated or short", i, v[i])
				}
				scal[v[i].String()] = true
			}
			c.Desc("%d %q", n, ctx)
			c.Eval(true, "")
		},
	}, h.Prop{
		Name: "many generators", N: h.N{Quick: 1, Thorough: 4}, Single: true,
		Rule: "66000 derived generators, as many as wide fan-outs need, are distinct and not inverse to each other",
		Check: func(c *h.C) {
			seen := map[string]int{}
			for i, g := range common.RandGenVec(66000, rapid.StringMatching("[a-z]{1,8}").Draw(c.T, "context")) {
				// Inverse points share the first coordinate
				k := string(g.Bytes()[:32])
				if j, dup := seen[k]; dup || g.IsInfinity() {
					c.Fatalf("generator %d is the identity or that of %d", i, j)
				}
				seen[k] = i
			}
			c.Eval(true, "66000")
		},
	}, h.Prop{
		Name: "poweroftwo", N: h.N{Quick: 1, Thorough: 1}, Single: true,
		Rule: "the power-of-two test on all 16-bit integers from 2, exhaustively",
		Check: func(c *h.C) {
			for n := 2; n <= 0xffff; n++ {
				if common.IsPowerOfTwo(uint16(n)) != (bits.OnesCount(uint(n)) == 1) {
					c.Fatalf("IsPowerOfTwo(%d) is wrong", n)
				}
			}
			if common.IsPowerOfTwo(0) {
				c.Fatalf("IsPowerOfTwo(0) is wrong")
			}
			c.Eval(true, "all")
		},
	})
}

func make2(n int, x int64) []*big.Int {
	res := make([]*big.Int, n)
	for i := range res {
		res[i] = big.NewInt(x)
	}
	return res
}
