package h

import (
	"math/big"

	math "github.com/IBM/mathlib"
	"pgregory.net/rapid"

	"pol/common"
)

// Curve is the curve of the repository.
var Curve = math.Curves[1]

// R is the group order.
var R = func() *big.Int {
	n, ok := new(big.Int).SetString(Curve.GroupOrder.String(), 16)
	if !ok || n.BitLen() != 254 {
		panic("cannot parse the group order " + Curve.GroupOrder.String())
	}
	return n
}()

// Big returns a scalar as an integer in [0, r).
func Big(z *math.Zr) *big.Int {
	return new(big.Int).SetBytes(Canon(z).Bytes())
}

// Canon returns a reduced copy.
func Canon(z *math.Zr) *math.Zr {
	z = z.Copy()
	z.Mod(Curve.GroupOrder)
	return z
}

// Zr converts an integer, which may be negative or large.
func Zr(n *big.Int) *math.Zr {
	n = new(big.Int).Mod(n, R)
	b := make([]byte, 32)
	n.FillBytes(b)
	return Curve.NewZrFromBytes(b)
}

// ZrInt converts an integer.
func ZrInt(n int64) *math.Zr { return Zr(big.NewInt(n)) }

// SameZr compares modulo the group order.
func SameZr(a, b *math.Zr) bool { return Big(a).Cmp(Big(b)) == 0 }

// Scalar draws a scalar in [0, r) with interesting values.
func Scalar(c *C, name string) *math.Zr { return Zr(ScalarBig(c, name)) }

// ScalarBig draws an integer in [0, r).
func ScalarBig(c *C, name string) *big.Int {
	switch rapid.IntRange(0, 5).Draw(c.T, name+".kind") {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(int64(rapid.IntRange(0, 5).Draw(c.T, name)))
	case 2:
		n := new(big.Int).Sub(R, big.NewInt(int64(rapid.IntRange(1, 5).Draw(c.T, name))))
		return n
	case 3:
		k := rapid.IntRange(0, 253).Draw(c.T, name+".bit")
		n := new(big.Int).Lsh(big.NewInt(1), uint(k))
		n.Add(n, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(c.T, name))))
		return n.Mod(n, R)
	default:
		return Wide(c, name)
	}
}

// Wide draws an integer in [0, r) of full width.
func Wide(c *C, name string) *big.Int {
	n := new(big.Int)
	for i := 0; i < 4; i++ {
		n.Lsh(n, 64)
		n.Or(n, new(big.Int).SetUint64(rapid.Uint64().Draw(c.T, name)))
	}
	return n.Mod(n, R)
}

// RandZr draws a scalar from the process' deterministic randomness.
func RandZr() *math.Zr { return common.RandVec(1)[0] }

// NonZero draws a scalar which is not zero.
func NonZero(c *C, name string) *math.Zr {
	s := ScalarBig(c, name)
	if s.Sign() == 0 {
		s = big.NewInt(1)
	}
	return Zr(s)
}

// Neg negates modulo the group order.
func Neg(z *math.Zr) *math.Zr { return Zr(new(big.Int).Neg(Big(z))) }

// Negative returns the negation as a number below zero, as a conversion of a negative integer
// yields it.
func Negative(z *math.Zr) *math.Zr {
	res, one := Curve.NewZrFromInt(0), Curve.NewZrFromInt(-1)
	n := Big(z)
	for i := n.BitLen() - 1; i >= 0; i-- {
		res = res.Plus(res)
		if n.Bit(i) == 1 {
			res = res.Plus(one)
		}
	}
	return res
}

// Add adds modulo the group order.
func Add(a, b *math.Zr) *math.Zr { return Zr(new(big.Int).Add(Big(a), Big(b))) }

// Sub subtracts modulo the group order.
func Sub(a, b *math.Zr) *math.Zr { return Zr(new(big.Int).Sub(Big(a), Big(b))) }

// Mul multiplies modulo the group order.
func Mul(a, b *math.Zr) *math.Zr { return Zr(new(big.Int).Mul(Big(a), Big(b))) }

// Inv inverts modulo the group order.
func Inv(a *math.Zr) *math.Zr { return Zr(new(big.Int).ModInverse(Big(a), R)) }

// CopyVec copies a vector.
func CopyVec(v common.Vec) common.Vec {
	res := make(common.Vec, len(v))
	for i := range v {
		res[i] = v[i].Copy()
	}
	return res
}

// CopyG1v copies a vector.
func CopyG1v(v common.G1v) common.G1v {
	res := make(common.G1v, len(v))
	for i := range v {
		res[i] = v[i].Copy()
	}
	return res
}

// MSM is a plain multi-exponentiation.
func MSM(g common.G1v, v common.Vec) *math.G1 {
	res := Identity()
	for i := range v {
		res.Add(g[i].Mul(Canon(v[i])))
	}
	return res
}

// Identity returns the neutral element.
func Identity() *math.G1 {
	z := Curve.GenG1.Copy()
	z.Sub(Curve.GenG1)
	return z
}

// AddG adds without changing its arguments.
func AddG(a *math.G1, bs ...*math.G1) *math.G1 {
	res := a.Copy()
	for _, b := range bs {
		res.Add(b)
	}
	return res
}

// SubG subtracts without changing its arguments.
func SubG(a, b *math.G1) *math.G1 {
	res := a.Copy()
	res.Sub(b)
	return res
}
