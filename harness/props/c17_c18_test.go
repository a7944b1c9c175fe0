package props

import (
	"math/big"
	"strings"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"

	"verif/harness/h"
)

var rangeParams = map[setupKey]*bp.RangeProofPublicParams{}

// rangePP returns parameters of range proofs. Those of a further setup share generators
// with a vector commitment, as in liability sets.
func rangePP(n int) *bp.RangeProofPublicParams {
	key := keyOf(n)
	if n > 16 {
		key.setup = 0
	}
	if rangeParams[key] == nil {
		params := bp.NewRangeProofPublicParams(n)
		if key.setup > 0 {
			vc := h.VC(n+1, 8)
			params.F, params.Gs = vc.G1s[n], append(common.G1v{}, vc.G1s[:n]...)
		}
		rangeParams[key] = params
	}
	return rangeParams[key]
}

func rangeCommit(params *bp.RangeProofPublicParams, v common.Vec, r *math.Zr) *math.G1 {
	return h.AddG(params.F.Mul(r), h.MSM(params.Gs, v))
}

const maxAmount = 1<<63 - 1

func inRange(c *h.C, n int) common.Vec {
	v := make(common.Vec, n)
	mode := h.Int(c, "v.mode", 0, 5)
	for i := range v {
		switch mode {
		case 0:
			v[i] = h.ZrInt(0)
		case 1:
			v[i] = h.ZrInt(maxAmount)
		default:
			v[i] = h.ZrInt(h.Amount(c, "v", maxAmount))
		}
	}
	return v
}

func TestC17(t *testing.T) {
	props := []h.Prop{{
		Name: "complete", N: h.N{Quick: 240, Thorough: 12000},
		Rule: "vectors of 2, 4 or 8 amounts (all zero, all 2^63-1, 2^k-1, 2^k, 2^k+1, uniform) with zero, special and full-width blinding; some are verified after an altered proof for the same commitment; non-trivial when the vector is not zero",
		Check: func(c *h.C) {
			n := size(c, 2, 2, 2, 4, 4, 8)
			rangeComplete(c, n)
		},
	}, {
		Name: "long", N: h.N{Quick: 8, Thorough: 400},
		Rule: "as complete, with vectors of 16 (32 in thorough) amounts",
		Check: func(c *h.C) {
			n := 16
			if h.Thorough {
				n = h.Pick(c, "n", 16, 32)
			}
			rangeComplete(c, n)
		},
	}, {
		Name: "very long", N: h.N{Quick: 1, Thorough: 12}, Single: true,
		Rule: "as complete, with a vector of 256 (512 in thorough) amounts, those of the largest fan-outs of the benchmark",
		Check: func(c *h.C) {
			n := 256
			if h.Thorough {
				n = h.Pick(c, "n", 256, 512)
			}
			rangeComplete(c, n)
		},
	}}
	h.Run(t, append(props,
		large(props, "complete", h.N{Quick: 4, Thorough: 100}, []int{32, 64}, nil, "over 32 or 64 amounts"),
	)...)
}

func rangeComplete(c *h.C, n int) {
	params := rangePP(n)
	v, r := inRange(c, n), h.Scalar(c, "r")
	V := rangeCommit(params, v, r)
	print := h.Fingerprint(params, &v, r, V)
	rp := bp.ProveRange(params, V, v, r)
	rpPrint := h.Fingerprint(rp)
	altered := func() {
		alt := h.Copy(rp)
		h.Tamper(c, "t", h.PickLeaf(c, "leaf", h.Elements(alt)), nil)
		h.Attempt(func() error { return bp.VerifyRange(params, alt, V) })
	}
	refusals := h.Int(c, "refusals", 0, 3)
	if refusals == 1 && n <= 16 {
		altered()
		c.Class("after an altered proof")
	}
	if err := bp.VerifyRange(params, rp, V); err != nil {
		c.Fatalf("honest range proof of %v with blinding %v refused: %v", v, r, err)
	}
	if refusals == 2 && n <= 16 {
		altered()
		if err := bp.VerifyRange(params, rp, V); err != nil {
			c.Fatalf("honest range proof of %v with blinding %v refused after an altered one: %v", v, r, err)
		}
		c.Class("and again")
	}
	if h.Fingerprint(params, &v, r, V) != print || h.Fingerprint(rp) != rpPrint {
		c.Fatalf("proving or verifying modified its inputs")
	}
	c.Desc("n=%d v=%v r=%v", n, v, r)
	c.Class("n=%d", n)
	c.Eval(!isZero(v), "")
}

// rangeForgery follows the range proof protocol with a witness of its choice.
type rangeForgery struct {
	v      common.Vec // opening of V
	digits common.Vec // n*63 digits presented
	caret  common.Vec // their complements
	r      *math.Zr
	what   string
	mode   string
	// whether the last equation of the verifier holds, given the challenges used here
	balanced bool
	V        *math.G1 // what the proof is for
}

const digitsPerValue = 63

func (f *rangeForgery) prove(params *bp.RangeProofPublicParams, V *math.G1) *bp.RangeProof {
	n := len(params.Gs)
	m := digitsPerValue
	w, rp := common.RandVec(n), h.RandZr()
	tail := h.CopyVec(w)
	W := h.AddG(params.F.Mul(rp), h.MSM(params.Gs, w))
	ν, η := h.RandZr(), h.RandZr()
	// What the digits stand for
	shown := make(common.Vec, n)
	for i := range shown {
		acc := new(big.Int)
		for j := m - 1; j >= 0; j-- {
			acc.Lsh(acc, 1)
			acc.Add(acc, h.Big(f.digits[i*m+j]))
		}
		shown[i] = h.Zr(acc)
	}
	// What is off among the sums with the complements, and the products, is made up for at
	// the first value, whose weight in the reduction is known from the beginning
	missing := h.Sub(shown[0], f.v[0])
	switch f.what {
	case "equal y":
		// The difference comes with the square of the challenge, as does the second sum
		f.caret[1] = h.Sub(f.caret[1], missing)
		if h.Big(f.digits[1]).Sign() != 0 {
			return nil
		}
	case "y0 one":
		// A digit that is all of the value, and another complement makes up for its own
		for j := 0; j < m; j++ {
			f.digits[j] = zero
		}
		f.digits[0] = f.v[0]
		shown[0] = f.v[0]
		f.caret = complement(f.digits)
		f.caret[0] = zero
		f.caret[1] = h.Add(f.caret[1], h.Sub(h.ZrInt(1), f.v[0]))
	case "y1 one":
		// digit*caret + digit + caret - 1 + missing = 0
		if h.Big(f.digits[0]).Sign() != 0 {
			return nil
		}
		f.caret[0] = h.Sub(h.ZrInt(1), missing)
	case "y1 zero":
		// Only products count
		for j := 0; j < m; j++ {
			f.caret[j] = zero
		}
	}
	commitQ := func() *math.G1 {
		bitsW := append(append(common.Vec{}, f.digits...), tail...)
		return h.AddG(params.F.Mul(ν), h.MSM(params.Hs, bitsW), h.MSM(params.Fs[:n*m], f.caret))
	}
	Q := commitQ()
	s, t := common.RandVec(n*m+n), common.RandVec(n*m)
	R := h.AddG(params.F.Mul(η), h.MSM(params.Hs, s), h.MSM(params.Fs[:n*m], t))
	ro := func(data ...[]byte) *math.Zr {
		return hashZr(append([][]byte{Q.Bytes(), R.Bytes()}, data...)...)
	}
	f.V = V
	var x *math.Zr
	uOpen := h.CopyVec(f.v)
	switch f.what {
	case "challenge without mask":
		// W is chosen after x so that U opens to what the digits stand for
		x = hashZr(params.Digest(), V.Bytes(), Q.Bytes())
		for i := range w {
			w[i] = h.Add(w[i], h.Mul(h.Sub(shown[i], f.v[i]), h.Inv(x)))
		}
		W = h.AddG(params.F.Mul(rp), h.MSM(params.Gs, w))
	case "challenge without digits":
		// Q is chosen after x so that the digits and its tail stand for U's opening
		x = hashZr(params.Digest(), V.Bytes(), W.Bytes())
		for i := range tail {
			tail[i] = h.Add(tail[i], h.Mul(h.Sub(f.v[i], shown[i]), h.Inv(x)))
		}
		Q = commitQ()
	case "y without x":
		// A value is chosen which makes up for false digits, as their weights are known
		y0, y1 := ro([]byte{0}, params.Digest()), ro([]byte{1}, params.Digest())
		K, p := zero, h.ZrInt(1)
		for i, digit := range f.digits {
			K = h.Add(K, h.Mul(p, h.Add(h.Mul(digit, f.caret[i]), h.Mul(y1, h.Sub(h.Add(digit, f.caret[i]), h.ZrInt(1))))))
			p = h.Mul(p, y0)
		}
		f.v = h.CopyVec(f.v)
		f.v[0] = h.Add(shown[0], h.Mul(K, h.Inv(h.Mul(y1, y1))))
		V = rangeCommit(params, f.v, f.r)
		f.V = V
		fallthrough
	default:
		x = hashZr(params.Digest(), V.Bytes(), W.Bytes(), Q.Bytes())
	}
	γ := h.Neg(h.Add(f.r, h.Mul(x, rp)))
	U := h.AddG(params.F.Mul(γ), V, W.Mul(x))
	ppRdx := &bp.PP{G: params.Gs, U: common.RandGenVec(1, "U range proof")[0]}
	ppRdx.RecomputeDigest()
	for i := range uOpen {
		uOpen[i] = h.Add(f.v[i], h.Mul(w[i], x))
	}
	Δ, xs, u := bp.IterativeReduce(ppRdx, uOpen, U)
	rounds := len(xs)
	fs := make(common.Vec, n)
	for i := range fs {
		fs[i] = h.ZrInt(1)
		for b := 0; b < rounds; b++ {
			if i>>uint(b)&1 == 1 {
				fs[i] = h.Mul(fs[i], xs[rounds-1-b])
			}
		}
	}
	var d common.Vec
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			d = append(d, h.Mul(h.Zr(new(big.Int).Lsh(big.NewInt(1), uint(j))), fs[i]))
		}
	}
	for i := 0; i < n; i++ {
		d = append(d, h.Mul(fs[i], x))
	}
	y0 := ro([]byte{0}, params.Digest(), x.Bytes())
	y1 := ro([]byte{1}, params.Digest(), x.Bytes())
	switch f.what {
	case "equal y":
		switch f.mode {
		case "first":
			y1 = y0
		case "second":
			y0 = y1
		case "neither":
			y0 = ro(params.Digest(), x.Bytes())
			y1 = y0
		}
	case "y0 one":
		y0 = h.ZrInt(1)
	case "y1 one":
		y1 = h.ZrInt(1)
	case "y1 zero":
		y1 = zero
	case "y without x":
		y0, y1 = ro([]byte{0}, params.Digest()), ro([]byte{1}, params.Digest())
	}
	y0v := make(common.Vec, n*m)
	p := h.ZrInt(1)
	for i := range y0v {
		y0v[i] = p
		p = h.Mul(p, y0)
	}
	y1sq := h.Mul(y1, y1)
	a0, b0, a1, b1 := make(common.Vec, n*m+n), make(common.Vec, n*m+n), s, make(common.Vec, n*m+n)
	for i := range a0 {
		b0[i] = h.Mul(d[i], y1sq)
		b1[i] = zero
		if i < n*m {
			a0[i] = h.Add(f.digits[i], y1)
			b0[i] = h.Add(b0[i], h.Mul(y0v[i], h.Add(y1, f.caret[i])))
			b1[i] = h.Mul(y0v[i], t[i])
		} else {
			a0[i] = tail[i-n*m]
		}
	}
	c1 := h.Add(a0.InnerProd(b1), a1.InnerProd(b0))
	c2 := a1.InnerProd(b1)
	τ1, τ2 := h.RandZr(), h.RandZr()
	C1 := h.AddG(params.G.Mul(c1), params.H.Mul(τ1))
	C2 := h.AddG(params.G.Mul(c2), params.H.Mul(τ2))
	// The constant the verifier expects
	sumY, sumD := zero, zero
	for i := 0; i < n*m; i++ {
		sumY, sumD = h.Add(sumY, y0v[i]), h.Add(sumD, d[i])
	}
	c0 := h.Add(h.Mul(sumD, h.Mul(y1sq, y1)), h.Add(h.Mul(y1sq, h.Add(u, sumY)), h.Mul(sumY, y1)))
	off := h.Sub(a0.InnerProd(b0), c0) // zero for true witnesses
	zOf := func(parts ...[]byte) *math.Zr {
		data := [][]byte{params.Digest()}
		data = append(data, parts...)
		return ro(append(data, y0.Bytes(), y1.Bytes())...)
	}
	z := zOf(C1.Bytes(), C2.Bytes())
	switch f.what {
	case "z without C1":
		z = zOf(C2.Bytes())
		C1 = h.AddG(C1, params.G.Mul(h.Mul(off, h.Inv(z))))
	case "z without C2":
		z = zOf(C1.Bytes())
		C2 = h.AddG(C2, params.G.Mul(h.Mul(off, h.Inv(h.Mul(z, z)))))
	case "z without both":
		z = zOf()
		C1 = h.AddG(C1, params.G.Mul(h.Mul(off, h.Inv(z))))
	}
	a, b := make(common.Vec, n*m+n), make(common.Vec, n*m+n)
	for i := range a {
		a[i] = h.Add(a0[i], h.Mul(a1[i], z))
		b[i] = h.Add(b0[i], h.Mul(b1[i], z))
	}
	cc := a.InnerProd(b)
	ρ := h.Neg(h.Add(ν, h.Mul(η, z)))
	τ := h.Add(h.Mul(τ1, z), h.Mul(τ2, h.Mul(z, z)))
	y0i := h.Inv(y0)
	Fp := make(common.G1v, len(params.Fs))
	p = h.ZrInt(1)
	for i := range Fp {
		Fp[i] = params.Fs[i].Mul(p)
		p = h.Mul(p, y0i)
	}
	ipaPP := &bp.PP{U: common.RandGenVec(1, "u")[0], G: params.Hs, H: Fp}
	ipaPP.RecomputeDigest()
	ipa := bp.NewInnerProdArgument(ipaPP, a, b)
	switch f.what {
	case "claimed product":
		// Satisfy the last equation, and claim its product in the inner product proof
		cc = h.Sub(cc, off)
		ipa.C = cc
	case "other product":
		// Satisfy the last equation, with an inner product proof for another product
		cc = h.Sub(cc, off)
	}
	// What the prover knows of C1 and C2
	k1, k2 := c1, c2
	switch f.what {
	case "z without C1", "z without both":
		k1 = h.Add(c1, h.Mul(off, h.Inv(z)))
	case "z without C2":
		k2 = h.Add(c2, h.Mul(off, h.Inv(h.Mul(z, z))))
	}
	f.balanced = h.SameZr(cc, h.Add(c0, h.Add(h.Mul(k1, z), h.Mul(k2, h.Mul(z, z)))))
	proof := &bp.RangeProof{}
	if !h.SetFields(proof, map[string]interface{}{
		"Δ": Δ, "u": u, "W": W, "γ": γ, "Π": ipa.Prove(), "c": cc, "Q": Q, "R": R,
		"C1": C1, "C2": C2, "τ": τ, "ρ": ρ,
	}) {
		return nil
	}
	return proof
}

func bitsOf(v common.Vec) common.Vec {
	res := make(common.Vec, 0, len(v)*digitsPerValue)
	for _, x := range v {
		n := h.Big(x)
		for j := 0; j < digitsPerValue; j++ {
			res = append(res, h.ZrInt(int64(n.Bit(j))))
		}
	}
	return res
}

func complement(v common.Vec) common.Vec {
	res := make(common.Vec, len(v))
	for i := range v {
		res[i] = h.Sub(h.ZrInt(1), v[i])
	}
	return res
}

// inside tells whether all values are in range.
func inside(v common.Vec) bool {
	for _, x := range v {
		if h.Big(x).BitLen() > digitsPerValue {
			return false
		}
	}
	return true
}

func outOfRange(c *h.C) *math.Zr {
	limit := new(big.Int).Lsh(big.NewInt(1), 63)
	switch h.Int(c, "out", 0, 4) {
	case 0:
		return h.Zr(new(big.Int).Add(limit, big.NewInt(int64(h.Int(c, "more", 0, 3)))))
	case 1:
		return h.ZrInt(-int64(h.Int(c, "negative", 1, 1000)))
	case 2:
		return h.Zr(new(big.Int).Lsh(big.NewInt(1), uint(h.Int(c, "power", 63, 253))))
	case 3:
		return h.Zr(new(big.Int).Neg(new(big.Int).SetUint64(uint64(h.Amount(c, "negated", maxAmount)) + 1)))
	default:
		n := h.Wide(c, "wide")
		if n.Cmp(limit) < 0 {
			n.Add(n, limit)
		}
		return h.Zr(n)
	}
}

func TestC18(t *testing.T) {
	props := []h.Prop{{
		Name: "altered", N: h.N{Quick: 96, Thorough: 6000},
		Rule: "an honest range proof over 2 or 4 amounts with one element altered or taken from another proof, or presented for another commitment (adapted blinding included) or other parameters; every altered proof is non-trivial",
		Check: func(c *h.C) {
			n := size(c, 2, 2, 2, 4)
			params := rangePP(n)
			v, r := inRange(c, n), h.Scalar(c, "r")
			V := rangeCommit(params, v, r)
			rp := bp.ProveRange(params, V, v, r)
			v2 := inRange(c, n)
			V2 := rangeCommit(params, v2, r)
			donor := h.Walk(bp.ProveRange(params, V2, v2, r))
			c.Desc("v=%v r=%v", v, r)
			if err := bp.VerifyRange(params, rp, V); err != nil {
				c.Fatalf("honest range proof refused: %v", err)
			}
			for k := 0; k < 8; k++ {
				alt, com, pps := h.Copy(rp), V, params
				what := ""
				δ := h.NonZero(c, "δ")
				switch h.Int(c, "kind", 0, 9) {
				case 0:
					com, what = V2, "commitment of other amounts"
					if V.Equals(V2) {
						continue
					}
				case 1:
					com, what = h.AddG(V, params.F.Mul(δ)), "other blinding"
					if h.Bool(c, "adapt") {
						what = "adapted blinding"
						f := h.Field(alt, "γ")
						if !f.IsValid() {
							continue
						}
						h.SetFields(alt, map[string]interface{}{"γ": h.Sub(f.Interface().(*math.Zr), δ)})
					}
				case 2:
					pps = &bp.RangeProofPublicParams{G: params.G, H: params.H, F: params.F,
						Gs: h.CopyG1v(params.Gs), Hs: h.CopyG1v(params.Hs), Fs: h.CopyG1v(params.Fs)}
					g := h.Curve.GenG1.Mul(δ)
					switch what = h.Pick(c, "param", "G", "H", "F", "Gs", "Hs", "Fs"); what {
					case "G":
						pps.G = h.AddG(pps.G, g)
					case "H":
						pps.H = h.AddG(pps.H, g)
					case "F":
						pps.F = h.AddG(pps.F, g)
					case "Gs":
						pps.Gs[h.Int(c, "i", 0, n-1)].Add(g)
					case "Hs":
						pps.Hs[h.Int(c, "i", 0, len(pps.Hs)-1)].Add(g)
					case "Fs":
						pps.Fs[h.Int(c, "i", 0, len(pps.Fs)-1)].Add(g)
					}
					what = "parameter " + what
				default:
					leaf := h.PickLeaf(c, "leaf", h.Elements(alt))
					what = leaf.Pattern + " " + h.Tamper(c, "t", leaf, donor)
				}
				if ok, _ := h.Attempt(func() error { return bp.VerifyRange(pps, alt, com) }); ok {
					c.Fatalf("altered range proof accepted: %s", what)
				}
				c.Class("%s", what)
				c.Eval(true, "%s %d", what, k)
			}
			if err := bp.VerifyRange(params, rp, V); err != nil {
				c.Fatalf("after altered ones, the honest range proof is refused: %v", err)
			}
		},
	}, {
		Name: "false", N: h.N{Quick: 176, Thorough: 10000},
		Rule: "a commitment with at least one value outside [0, 2^63); proofs by the prover itself and by a reference prover presenting truncated, non-binary or negative digits, with false complements, a falsely claimed product or exploiting a challenge that leaves out one of its inputs; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, 2, 2, 2, 4)
			params := rangePP(n)
			v, r := inRange(c, n), h.Scalar(c, "r")
			what := h.Pick(c, "what", "prover", "honest", "claimed product", "other product", "challenge without mask", "challenge without digits", "z without C1", "z without C2", "z without both",
				"equal y", "equal y", "y0 one", "y1 one", "y1 zero", "y without x")
			bad := position(c, "bad", n)
			if strings.Contains(what, "y") && what != "honest" {
				bad = 0
			}
			v[bad] = outOfRange(c)
			V := rangeCommit(params, v, r)
			digitsKind := ""
			var proof *bp.RangeProof
			if what == "prover" {
				if panicked, _, _ := h.Panics(func() { proof = bp.ProveRange(params, V, v, r) }); panicked {
					c.Class("prover refuses")
					c.Eval(true, "v=%v refused", v)
					return
				}
			} else {
				good := inRange(c, n)
				G := rangeCommit(params, good, r)
				db := bitsOf(good)
				cal := &rangeForgery{v: good, digits: db, caret: complement(db), r: r, what: "honest"}
				if p := cal.prove(params, G); p == nil || bp.VerifyRange(params, p, G) != nil {
					c.Class("uncalibrated")
				}
				f := &rangeForgery{v: v, r: r, what: what, digits: bitsOf(v), mode: h.Pick(c, "mode", "first", "second", "neither")}
				at := f.digits[bad*digitsPerValue : (bad+1)*digitsPerValue]
				digitsKind = h.Pick(c, "digits", "truncated", "top", "bottom", "spread")
				binary := strings.HasPrefix(what, "challenge")
				if binary || what == "equal y" || what == "y1 one" {
					digitsKind = "truncated"
				}
				switch what {
				case "equal y":
					at[1] = zero
				case "y1 one":
					at[0] = zero
				}
				switch digitsKind {
				case "top": // all that is missing in the top digit
					at[62] = h.Zr(new(big.Int).Rsh(h.Big(v[bad]), 62))
				case "bottom": // the value as the lowest digit
					for j := range at {
						at[j] = zero
					}
					at[0] = v[bad]
				case "spread": // negative and large digits
					rest := h.Big(v[bad])
					for j := 62; j >= 1; j-- {
						q := new(big.Int).Rsh(rest, uint(j))
						if q.Sign() > 0 && h.Bool(c, "more") {
							q.Add(q, big.NewInt(1))
						}
						at[j] = h.Zr(q)
						rest = new(big.Int).Sub(rest, new(big.Int).Lsh(q, uint(j)))
					}
					at[0] = h.Zr(rest)
				}
				f.caret = complement(f.digits)
				kind := h.Int(c, "caret", 0, 3)
				if binary || (strings.Contains(what, "y") && what != "honest" && what != "y without x") {
					kind = 3
				}
				switch kind {
				case 0:
					// Products with the digits are zero, the sums are not one
					for j := range f.caret {
						if h.Big(f.digits[j]).Sign() != 0 {
							f.caret[j] = zero
						}
					}
					digitsKind += " zero products"
				case 1:
					f.caret[bad*digitsPerValue+h.Int(c, "j", 0, 62)] = h.Scalar(c, "caret")
					digitsKind += " one complement"
				}
				proof = f.prove(params, V)
				if what != "honest" {
					if f.balanced {
						c.Class("%s would do", what)
					} else {
						c.Class("%s would not do", what)
					}
				}
				if proof == nil || inside(f.v) {
					c.Class("no forgery")
					return
				}
				v, V = f.v, f.V
			}
			if ok, _ := h.Attempt(func() error { return bp.VerifyRange(params, proof, V) }); ok {
				c.Fatalf("range proof accepted for %v (%s %s)", v, what, digitsKind)
			}
			c.Desc("v=%v r=%v", v, r)
			c.Class("%s", what)
			c.Class("digits %s", digitsKind)
			c.Eval(true, "%s %s", what, digitsKind)
		},
	}, {
		Name: "transcript", N: h.N{Quick: 28, Thorough: 2000},
		Rule: "range proofs of one vector which differ in one random draw, or in the blinding of the commitment only: where a commitment of a round differs, all answers of this and later rounds do; every case is non-trivial",
		Check: func(c *h.C) {
			n := h.Pick(c, "n", 2, 2, 4)
			params := rangePP(n)
			v, r := inRange(c, n), h.Scalar(c, "r")
			prove := func(r *math.Zr) interface{} { return bp.ProveRange(params, rangeCommit(params, v, r), v, r) }
			last := []string{".ρ", ".τ", ".c", ".Π.LRs", ".Π.a", ".Π.b"}
			k := reacts(c, func() interface{} { return prove(r) }, []round{
				{[]string{".W", ".Q"}, append([]string{".γ", ".Δ", ".u"}, last...)},
				{[]string{".R"}, last},
				{[]string{".C1", ".C2"}, last},
			}, func(reads int) int {
				// Most draws are entries of long vectors
				if h.Int(c, "region", 0, 5) == 0 {
					return h.Int(c, "draw", 0, reads-1)
				}
				i := h.Int(c, "single", 0, n+4)
				if i < n+3 {
					return i
				}
				return reads - 1 - (i - n - 3)
			}, 3)
			h.SetRand(7)
			base := prove(r)
			h.SetRand(7)
			other := prove(h.Add(r, h.NonZero(c, "δ")))
			answered(c, base, other, []round{{nil, append([]string{".Δ", ".u"}, last...)}}, "blinding")
			c.Desc("v=%v r=%v", v, r)
			c.Eval(k > 0, "")
		},
	}, {
		Name: "false digits", N: h.N{Quick: 80, Thorough: 5000},
		Rule: "a commitment to amounts in range, but digits that are not theirs, not binary or with false complements: the proof must be refused; non-trivial cases only",
		Check: func(c *h.C) {
			n := 2
			params := rangePP(n)
			v, r := inRange(c, n), h.Scalar(c, "r")
			V := rangeCommit(params, v, r)
			digits := bitsOf(v)
			caret := complement(digits)
			i := h.Int(c, "digit", 0, len(digits)-1)
			what := h.Pick(c, "what", "flipped", "carried", "digit", "complement", "value")
			switch what {
			case "flipped":
				digits[i], caret[i] = caret[i], digits[i]
			case "carried": // 2^(j+1) as twice 2^j
				if i%digitsPerValue == 0 {
					i++
				}
				digits[i-1] = h.Add(digits[i-1], h.ZrInt(2))
				digits[i] = h.Sub(digits[i], h.ZrInt(1))
				caret = complement(digits)
			case "digit":
				digits[i] = h.Add(digits[i], h.NonZero(c, "δ"))
			case "complement":
				caret[i] = h.Add(caret[i], h.NonZero(c, "δ"))
			case "value":
				v2 := h.CopyVec(v)
				v2[i%n] = h.ZrInt(int64(i))
				if sameVec(v, v2) {
					return
				}
				digits = bitsOf(v2)
				caret = complement(digits)
			}
			f := &rangeForgery{v: v, digits: digits, caret: caret, r: r, what: h.Pick(c, "how", "honest", "claimed product", "other product")}
			proof := f.prove(params, V)
			if proof == nil {
				c.Class("uncalibrated")
			}
			if ok, _ := h.Attempt(func() error { return bp.VerifyRange(params, proof, V) }); ok {
				c.Fatalf("range proof with false digits accepted: %s", what)
			}
			c.Desc("v=%v digit=%d", v, i)
			c.Class("%s", what)
			c.Eval(true, "%s %s", what, f.what)
		},
	}, {
		Name: "shape", N: h.N{Quick: 64, Thorough: 4000},
		Rule: "missing or surplus rounds are refused without a panic; every case is non-trivial",
		Check: func(c *h.C) {
			n := h.Pick(c, "n", 2, 4)
			params := rangePP(n)
			v, r := inRange(c, n), h.Scalar(c, "r")
			V := rangeCommit(params, v, r)
			rp := bp.ProveRange(params, V, v, r)
			what := alterLength(c, listsOf(rp), nil)
			if what == "" {
				return
			}
			if err := bp.VerifyRange(params, rp, V); err == nil {
				c.Fatalf("range proof of another shape accepted: %s", what)
			}
			c.Desc("v=%v", v)
			c.Eval(true, "%s", what)
		},
	}}
	h.Run(t, append(props,
		large(props, "altered", h.N{Quick: 4, Thorough: 100}, []int{16, 32}, nil, "over 16 or 32 amounts"),
		large(props, "false", h.N{Quick: 16, Thorough: 200}, []int{8, 16}, nil, "over 8 or 16 amounts"),
	)...)
}
