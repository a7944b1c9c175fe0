package props

import (
	"crypto/sha256"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/sum"

	"verif/harness/h"
)

// setupKey is a size of parameters and the setup they are from.
type setupKey struct{ n, setup int }

func keyOf(n int) setupKey { return setupKey{n, h.Setup()} }

var sumParams = map[setupKey]*sum.PP{}

// sumPP returns parameters of the sum argument. Those of a further setup share generators
// with a vector commitment, as in liability sets.
func sumPP(n int) *sum.PP {
	key := keyOf(n)
	if sumParams[key] == nil {
		params := sum.NewPublicParams(n)
		if key.setup > 0 {
			vc := h.VC(n+1, 8)
			params.F, params.Gs = vc.G1s[n], append(common.G1v{}, vc.G1s[:n]...)
		}
		sumParams[key] = params
	}
	return sumParams[key]
}

var ipaParams = map[setupKey]*bp.PP{}

// ipaPP returns parameters of the inner product argument; those of a further setup have
// other generators.
func ipaPP(n int) *bp.PP {
	key := keyOf(n)
	if ipaParams[key] == nil {
		params := bp.NewPublicParams(n)
		if key.setup > 0 {
			params.G, params.H = common.RandGenVec(n, "another g"), common.RandGenVec(n, "another h")
			params.RecomputeDigest()
		}
		ipaParams[key] = params
	}
	return ipaParams[key]
}

// otherIPA has different generators in one place.
func otherIPA(c *h.C, params *bp.PP) (*bp.PP, string) {
	alt := h.Copy(params)
	what := h.Pick(c, "pp", "G", "H", "U", "exchanged", "digest", "U only")
	if len(params.G) == 1 && what != "G" && what != "H" {
		// The proof is the vectors themselves: their statement may hold for U and H, too
		what = "G"
	}
	δ := h.Curve.GenG1.Mul(h.NonZero(c, "δ"))
	i := position(c, "gen", len(alt.G))
	switch what {
	case "G":
		alt.G[i].Add(δ)
	case "H":
		alt.H[i].Add(δ)
	case "U":
		alt.U.Add(δ)
	case "exchanged":
		alt.G, alt.H = alt.H, alt.G
	case "digest":
		alt.Digest[i%32] ^= 1
		return alt, what
	case "U only":
		alt.U.Add(δ)
		return alt, what
	}
	alt.RecomputeDigest()
	return alt, what
}

func hashZr(parts ...[]byte) *math.Zr {
	return common.FieldElementFromBytes(shaOf(parts...))
}

func shaOf(parts ...[]byte) []byte {
	hash := sha256.New()
	for _, p := range parts {
		hash.Write(p)
	}
	return hash.Sum(nil)
}

func TestC21(t *testing.T) {
	sizes := []int{1, 2, 2, 4, 4, 8, 16, 32}
	props := []h.Prop{{
		Name: "bound", N: h.N{Quick: 1500, Thorough: 60000},
		Rule: "vectors of 1 to 32 entries; the proof must verify for its statement, then one element, the statement or the parameters are altered; non-trivial when the vectors are not zero",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := ipaPP(n)
			a, b := vector(c, "a", n), vector(c, "b", n)
			c.Desc("a=%v b=%v", a, b)
			print := h.Fingerprint(params, &a, &b)
			proof := bp.NewInnerProdArgument(params, a, b).Prove()
			P := h.AddG(h.MSM(params.G, a), h.MSM(params.H, b))
			ip := h.ZrInt(0)
			for i := range a {
				ip = h.Add(ip, h.Mul(a[i], b[i]))
			}
			if !proof.P.Equals(P) || !h.SameZr(proof.C, ip) {
				c.Fatalf("the proof is not about the commitment and inner product of its vectors")
			}
			proofPrint := h.Fingerprint(proof)
			if err := proof.Verify(params); err != nil {
				c.Fatalf("honest proof refused: %v", err)
			}
			if h.Fingerprint(params, &a, &b) != print || h.Fingerprint(proof) != proofPrint {
				c.Fatalf("proving or verifying modified its inputs")
			}
			c.Eval(!isZero(a) || !isZero(b), "honest")
			a2, b2 := vector(c, "a2", n), vector(c, "b2", n)
			donor := h.Walk(bp.NewInnerProdArgument(params, a2, b2).Prove())
			for k := 0; k < 4; k++ {
				alt := h.Copy(proof)
				pps := params
				what := ""
				switch h.Int(c, "kind", 0, 3) {
				case 0:
					if isZero(a) || isZero(b) {
						// Partly true for any parameters
						continue
					}
					pps, what = otherIPA(c, params)
				case 1:
					// A commitment and a product that compensate each other
					t := h.NonZero(c, "t")
					x := h.Pick(c, "x", h.ZrInt(1), hashZr(params.Digest), hashZr(P.Bytes(), ip.Bytes(), params.Digest),
						hashZr(P.Bytes(), params.Digest), hashZr(ip.Bytes(), params.Digest), hashZr(), hashZr(params.Digest, P.Bytes(), ip.Bytes()))
					alt.P = h.SubG(alt.P, params.U.Mul(h.Mul(x, t)))
					alt.C = h.Add(alt.C, t)
					what = "compensating statement"
				default:
					leaf := h.PickLeaf(c, "leaf", h.Elements(alt))
					what = leaf.Pattern + " " + h.Tamper(c, "t", leaf, donor)
				}
				if ok, _ := h.Attempt(func() error { return alt.Verify(pps) }); ok {
					c.Fatalf("altered proof accepted: %s", what)
				}
				c.Class("%s", what)
				c.Eval(true, "%s %d", what, k)
			}
			if err := proof.Verify(params); err != nil {
				c.Fatalf("after altered ones, the honest proof is refused: %v", err)
			}
		},
	}, {
		Name: "shape", N: h.N{Quick: 1200, Thorough: 30000},
		Rule: "missing or surplus round messages are refused without a panic; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := ipaPP(n)
			a, b := vector(c, "a", n), vector(c, "b", n)
			proof := bp.NewInnerProdArgument(params, a, b).Prove()
			what := alterLength(c, listsOf(proof), nil)
			if what == "" {
				return
			}
			if err := proof.Verify(params); err == nil {
				c.Fatalf("proof of another shape accepted: %s", what)
			}
			c.Desc("a=%v b=%v", a, b)
			c.Eval(true, "%s", what)
		},
	}, {
		Name: "shift", N: h.N{Quick: 1500, Thorough: 40000},
		Rule: "a prover commits to vectors with an additional power of U and claims a product which compensates it if the instance challenge leaves out the commitment, the product or both; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := ipaPP(n)
			a, b := vector(c, "a", n), vector(c, "b", n)
			ipa := bp.NewInnerProdArgument(params, a, b)
			P0, C0 := ipa.P.Copy(), ipa.C.Copy()
			order := h.Int(c, "order", 0, 2)
			F := func(P, C []byte) *math.Zr {
				switch order {
				case 0:
					return hashZr(P, C, params.Digest)
				case 1:
					return hashZr(params.Digest, P, C)
				default:
					return hashZr(C, P, params.Digest)
				}
			}
			t := h.NonZero(c, "t")
			what := h.Pick(c, "what", "no product", "no commitment", "neither", "empty", "one")
			switch what {
			case "no product":
				// x depends on P only: choose P, derive x, then claim <a,b> - t/x
				ipa.P = h.AddG(P0, params.U.Mul(t))
				x := F(ipa.P.Bytes(), nil)
				ipa.C = h.Sub(C0, h.Mul(t, h.Inv(x)))
			case "no commitment":
				// x depends on C only: claim <a,b> - t, derive x, then commit
				ipa.C = h.Sub(C0, t)
				x := F(nil, ipa.C.Bytes())
				ipa.P = h.AddG(P0, params.U.Mul(h.Mul(x, t)))
			default:
				x := hashZr(params.Digest)
				if what == "empty" {
					x = hashZr()
				}
				if what == "one" {
					x = h.ZrInt(1)
				}
				ipa.C = h.Sub(C0, t)
				ipa.P = h.AddG(P0, params.U.Mul(h.Mul(x, t)))
			}
			proof := ipa.Prove()
			if proof.C == nil || proof.P == nil {
				c.Fatalf("the proof has no statement")
			}
			proof.P, proof.C = ipa.P, ipa.C
			if proof.Verify(params) == nil {
				c.Fatalf("proof of a false inner product accepted: the instance challenge leaves out: %s", what)
			}
			c.Desc("a=%v b=%v t=%v", a, b, t)
			c.Class("%s", what)
			c.Eval(true, "%s %d", what, order)
		},
	}, {
		Name: "instance", N: h.N{Quick: 600, Thorough: 10000},
		Rule: "the instance specific generator, recovered from the first round message of two entry vectors, differs for different statements over the same vectors; every case is non-trivial",
		Check: func(c *h.C) {
			params := ipaPP(2)
			// L = G1^a0 * H0^b1 * U'^(a0*b1)
			a := common.Vec{h.NonZero(c, "a0"), h.ZrInt(0)}
			b := common.Vec{h.ZrInt(0), h.NonZero(c, "b1")}
			k := h.Inv(h.Mul(a[0], b[1]))
			gen := func(P *math.G1, C *math.Zr) *math.G1 {
				ipa := bp.NewInnerProdArgument(params, a, b)
				if P != nil {
					ipa.P = P
				}
				if C != nil {
					ipa.C = C
				}
				L := ipa.Prove().LRs[0]
				L = h.SubG(L, params.G[1].Mul(a[0]))
				L = h.SubG(L, params.H[0].Mul(b[1]))
				return L.Mul(k)
			}
			base := gen(nil, nil)
			if base.IsInfinity() {
				c.Fatalf("the instance generator is the identity")
			}
			P2 := h.Curve.GenG1.Mul(h.NonZero(c, "P"))
			C2 := h.NonZero(c, "C")
			if gen(P2, nil).Equals(base) {
				c.Fatalf("the instance challenge does not depend on the commitment")
			}
			if gen(nil, C2).Equals(base) {
				c.Fatalf("the instance challenge does not depend on the inner product")
			}
			if gen(P2, C2).Equals(gen(P2, nil)) || gen(P2, C2).Equals(gen(nil, C2)) {
				c.Fatalf("the instance challenge does not depend on commitment and product together")
			}
			c.Desc("a0=%v b1=%v P=%x C=%v", a[0], b[1], P2.Bytes()[:6], C2)
			c.Eval(true, "")
		},
	}, {
		Name: "messages", N: h.N{Quick: 600, Thorough: 20000},
		Rule: "arguments over two entries for a fixed commitment and product: the folded entry shows the challenge, which must differ if only one of the two messages does; every case is non-trivial",
		Check: func(c *h.C) {
			params := ipaPP(2)
			P, C := h.Curve.GenG1.Mul(h.NonZero(c, "P")), h.NonZero(c, "C")
			// With b1 = 0 the messages are L = G1^a0 and R = G0^a1 * H1^b0 * U^(a1*b0)
			a, b := common.Vec{h.NonZero(c, "a0"), h.NonZero(c, "a1")}, common.Vec{h.NonZero(c, "b0"), h.ZrInt(0)}
			run := func(a common.Vec) (L, R string, b0 string) {
				ipa := bp.NewInnerProdArgument(params, a, b)
				ipa.P, ipa.C = P.Copy(), C.Copy()
				proof := ipa.Prove()
				f := h.Field(proof, "b")
				if !f.IsValid() || len(proof.LRs) != 2 {
					return "", "", ""
				}
				return string(proof.LRs[0].Bytes()), string(proof.LRs[1].Bytes()), string(h.Canon(f.Interface().(*math.Zr)).Bytes())
			}
			L, R, folded := run(a)
			i := h.Int(c, "which", 0, 1)
			alt := h.CopyVec(a)
			alt[i] = h.Add(alt[i], h.NonZero(c, "δ"))
			L2, R2, folded2 := run(alt)
			if (L == L2) == (R == R2) {
				c.Class("unknown structure")
				return
			}
			if folded == folded2 {
				c.Fatalf("the challenge of a round does not depend on its message %d", 1-i)
			}
			c.Desc("a=%v b=%v P=%x C=%v", a, b, P.Bytes()[:6], C)
			c.Eval(true, "%d", i)
		},
	}, {
		Name: "late message", N: h.N{Quick: 900, Thorough: 30000},
		Rule: "a prover follows the protocol for any commitment and product, and computes a message of the last round from the final equation, after a challenge that left it out; every case is non-trivial",
		Check: func(c *h.C) {
			n := h.Pick(c, "n", 2, 2, 4, 8)
			params := ipaPP(n)
			P, C := h.Curve.GenG1.Mul(h.NonZero(c, "P")), h.NonZero(c, "C")
			x0 := hashZr(P.Bytes(), C.Bytes(), params.Digest)
			inst := &bp.PP{G: params.G, H: params.H, U: params.U.Mul(x0)}
			inst.RecomputeDigest()
			acc := h.AddG(P, inst.U.Mul(C))
			g, hs := append(common.G1v{}, params.G...), append(common.G1v{}, params.H...)
			late := h.Pick(c, "late", "L", "R")
			order := h.Int(c, "order", 0, 1)
			proof := &bp.InnerProductProof{P: P, C: C}
			ab := common.Vec{h.NonZero(c, "a"), h.NonZero(c, "b")}
			chained := h.Bool(c, "chained")
			for k := n / 2; k > 0; k /= 2 {
				L, R := h.Curve.GenG1.Mul(h.RandZr()), h.Curve.GenG1.Mul(h.RandZr())
				x := hashZr(L.Bytes(), R.Bytes(), inst.Digest)
				if k == 1 {
					in := map[string]*math.G1{"L": R, "R": L}[late].Bytes()
					if order == 0 {
						x = hashZr(in, inst.Digest)
					} else {
						x = hashZr(inst.Digest, in)
					}
				}
				if chained {
					inst.Digest = shaOf(L.Bytes(), R.Bytes(), inst.Digest)
				}
				xi := h.Inv(x)
				for i := 0; i < k; i++ {
					g[i] = h.AddG(g[i].Mul(xi), g[k+i].Mul(x))
					hs[i] = h.AddG(hs[i].Mul(x), hs[k+i].Mul(xi))
				}
				g, hs = g[:k], hs[:k]
				xx, xxi := h.Mul(x, x), h.Mul(xi, xi)
				if k == 1 {
					want := h.AddG(g[0].Mul(ab[0]), hs[0].Mul(ab[1]), inst.U.Mul(h.Mul(ab[0], ab[1])))
					if late == "L" {
						L = h.SubG(want, h.AddG(acc, R.Mul(xxi))).Mul(xxi)
					} else {
						R = h.SubG(want, h.AddG(acc, L.Mul(xx))).Mul(xx)
					}
				}
				acc = h.AddG(acc, L.Mul(xx), R.Mul(xxi))
				proof.LRs = append(proof.LRs, L, R)
			}
			if !h.SetFields(proof, map[string]interface{}{"a": ab[0], "b": ab[1]}) {
				c.Class("unknown structure")
				return
			}
			if ok, _ := h.Attempt(func() error { return proof.Verify(params) }); ok {
				c.Fatalf("any inner product can be proved if %s is computed after the challenge", late)
			}
			c.Desc("n=%d P=%x C=%v", n, P.Bytes()[:6], C)
			c.Class("%s", late)
			c.Eval(true, "")
		},
	}, {
		Name: "repeated rounds", N: h.N{Quick: 700, Thorough: 20000},
		Rule: "a prover sends the same two messages in two rounds and claims half the product of vectors which fold to it if both rounds share a challenge; further rounds follow the protocol; every case is non-trivial",
		Check: func(c *h.C) {
			n := h.Pick(c, "n", 4, 4, 4, 8, 16)
			params := ipaPP(n)
			// a = (0, s, s, 0), b = (0, t, t, 0) of which only half of <a, b> = 2<s, t> is claimed
			q := n / 4
			s, t := make(common.Vec, q), make(common.Vec, q)
			for i := range s {
				s[i], t[i] = h.NonZero(c, "s"), h.NonZero(c, "t")
			}
			ip := s.InnerProd(t)
			if h.SameZr(ip, h.ZrInt(0)) {
				return
			}
			block := func(g common.G1v, k int, v common.Vec) *math.G1 {
				return v.Exp(g[k*q : (k+1)*q])
			}
			half := h.Inv(h.ZrInt(2))
			P := h.AddG(block(params.G, 1, s), block(params.G, 2, s), block(params.H, 1, t), block(params.H, 2, t))
			L := h.AddG(block(params.G, 3, s), block(params.H, 0, t)).Mul(half)
			R := h.AddG(block(params.G, 0, s), block(params.H, 3, t)).Mul(half)
			proof := &bp.InnerProductProof{P: P, C: ip, LRs: []*math.G1{L, R, L.Copy(), R.Copy()}}
			if q > 1 {
				inst := &bp.PP{G: params.G, H: params.H, U: params.U.Mul(hashZr(P.Bytes(), ip.Bytes(), params.Digest))}
				inst.RecomputeDigest()
				x := hashZr(L.Bytes(), R.Bytes(), inst.Digest)
				g, hs := append(common.G1v{}, params.G...), append(common.G1v{}, params.H...)
				fold := func(x *math.Zr) {
					k, xi := len(g)/2, h.Inv(x)
					for i := 0; i < k; i++ {
						g[i] = h.AddG(g[i].Mul(xi), g[k+i].Mul(x))
						hs[i] = h.AddG(hs[i].Mul(x), hs[k+i].Mul(xi))
					}
					g, hs = g[:k], hs[:k]
				}
				fold(x)
				fold(x)
				for len(g) > 1 {
					k := len(g) / 2
					L := h.AddG(s[:k].Exp(g[k:]), t[k:].Exp(hs[:k]), inst.U.Mul(s[:k].InnerProd(t[k:])))
					R := h.AddG(s[k:].Exp(g[:k]), t[:k].Exp(hs[k:]), inst.U.Mul(s[k:].InnerProd(t[:k])))
					x := hashZr(L.Bytes(), R.Bytes(), inst.Digest)
					xi := h.Inv(x)
					s, t = s[:k].Mul(x).Add(s[k:].Mul(xi)), t[:k].Mul(xi).Add(t[k:].Mul(x))
					fold(x)
					proof.LRs = append(proof.LRs, L, R)
				}
			}
			if !h.SetFields(proof, map[string]interface{}{"a": s[0], "b": t[0]}) {
				c.Class("unknown structure")
				return
			}
			c.Desc("n=%d claimed=%v", n, ip)
			if ok, _ := h.Attempt(func() error { return proof.Verify(params) }); ok {
				c.Fatalf("half of the inner product of two vectors of length %d was accepted: rounds of equal messages share a challenge", n)
			}
			c.Class("length %d", n)
			c.Eval(true, "%d", n)
		},
	}}
	h.Run(t, append(props,
		large(props, "bound", h.N{Quick: 32, Thorough: 600}, []int{64, 128, 256, 512, 2048}, nil, "over 64 to 2048 entries"),
	)...)
}

func TestC22(t *testing.T) {
	sizes := []int{2, 2, 4, 4, 8, 16, 32}
	mk := func(n int) *bp.PP {
		pp := &bp.PP{G: ipaPP(n).G, U: ipaPP(n).U}
		pp.RecomputeDigest()
		return pp
	}
	props := []h.Prop{{
		Name: "reduce", N: h.N{Quick: 1500, Thorough: 60000},
		Rule: "vectors of 2 to 32 entries are reduced; the transcript must verify with the same challenges and the value folded in math/big, then one component is altered; non-trivial when the vector is not zero",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := mk(n)
			v := vector(c, "v", n)
			V := h.MSM(params.G, v)
			c.Desc("v=%v", v)
			print := h.Fingerprint(params, &v, V)
			Δ, xs, u := bp.IterativeReduce(params, v, V)
			folded := h.CopyVec(v)
			for _, x := range xs {
				half := len(folded) / 2
				next := make(common.Vec, half)
				for i := range next {
					next[i] = h.Add(folded[i], h.Mul(x, folded[half+i]))
				}
				folded = next
			}
			if len(folded) != 1 || !h.SameZr(folded[0], u) {
				c.Fatalf("the final value %v is not the folded vector %v", u, folded)
			}
			tr := transcript{Δ, u, V}
			trPrint := h.Fingerprint(&tr)
			xs2, u2, err := bp.IterativeVerify(params, V, Δ, u)
			if err != nil {
				c.Fatalf("honest transcript refused: %v", err)
			}
			if !sameVec(xs, xs2) || !h.SameZr(u, u2) {
				c.Fatalf("the verifier returns %v, %v instead of %v, %v", xs2, u2, xs, u)
			}
			if h.Fingerprint(params, &v, V) != print || h.Fingerprint(&tr) != trPrint {
				c.Fatalf("reducing or verifying modified its inputs")
			}
			c.Eval(!isZero(v), "honest")
			v2 := vector(c, "v2", n)
			V2 := h.MSM(params.G, v2)
			Δ2, _, u2 := bp.IterativeReduce(params, v2, V2)
			donor := h.Walk(&transcript{Δ2, u2, V2})
			for k := 0; k < 4; k++ {
				alt := h.Copy(tr)
				pps := params
				what := ""
				if h.Int(c, "kind", 0, 4) == 0 {
					if h.Big(u).Sign() == 0 {
						continue
					}
					pps = h.Copy(params)
					i := position(c, "gen", n)
					switch what = h.Pick(c, "pp", "generator", "digest", "U", "exchanged"); what {
					case "generator":
						pps.G[i].Add(h.Curve.GenG1.Mul(h.NonZero(c, "δ")))
						if h.Bool(c, "recompute") {
							pps.RecomputeDigest()
						}
					case "digest":
						pps.Digest[i%32] ^= 0x10
					case "U":
						pps.U.Add(h.Curve.GenG1)
						pps.RecomputeDigest()
					case "exchanged":
						j := (i + 1) % n
						pps.G[i], pps.G[j] = pps.G[j], pps.G[i]
						if h.Bool(c, "recompute") {
							pps.RecomputeDigest()
						}
					}
				} else {
					leaf := h.PickLeaf(c, "leaf", h.Elements(&alt))
					what = leaf.Pattern + " " + h.Tamper(c, "t", leaf, donor)
				}
				if ok, _ := h.Attempt(func() error {
					_, _, err := bp.IterativeVerify(pps, alt.V, alt.Δ, alt.U)
					return err
				}); ok {
					c.Fatalf("altered transcript accepted: %s", what)
				}
				c.Class("%s", what)
				c.Eval(true, "%s %d", what, k)
			}
			if _, _, err := bp.IterativeVerify(params, V, Δ, u); err != nil {
				c.Fatalf("after altered ones, the honest transcript is refused: %v", err)
			}
		},
	}, {
		Name: "shape", N: h.N{Quick: 800, Thorough: 20000},
		Rule: "missing or surplus rounds are refused without a panic; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := mk(n)
			v := vector(c, "v", n)
			V := h.MSM(params.G, v)
			Δ, _, u := bp.IterativeReduce(params, v, V)
			tr := &transcript{Δ, u, V}
			what := alterLength(c, listsOf(tr), nil)
			if what == "" {
				return
			}
			if _, _, err := bp.IterativeVerify(params, V, tr.Δ, u); err == nil {
				c.Fatalf("transcript of another shape accepted: %s", what)
			}
			c.Desc("v=%v", v)
			c.Eval(true, "%s", what)
		},
	}, {
		Name: "rounds", N: h.N{Quick: 800, Thorough: 20000},
		Rule: "a prover that knows a vector presents its transcript for another commitment, shifting one round's messages so that all but one equation hold; every case is non-trivial",
		Check: func(c *h.C) {
			// The transcript of V is moved to V + G^δ by adding the shift to the commitments of
			// the rounds: the verifier must notice it at the last equation or by the challenges.
			n := size(c, sizes...)
			params := mk(n)
			v := vector(c, "v", n)
			V := h.MSM(params.G, v)
			Δ, xs, u := bp.IterativeReduce(params, v, V)
			d := h.Curve.GenG1.Mul(h.NonZero(c, "δ"))
			V2 := h.AddG(V, d)
			from := h.Int(c, "until", 0, len(Δ)-1)
			for i := 0; i <= from; i++ {
				Δ[i][2] = h.AddG(Δ[i][2], d)
			}
			what := h.Pick(c, "absorb", "nothing", "A", "B")
			if from+1 < len(Δ) {
				// Absorb the shift in the next round's messages with the honest challenge
				switch what {
				case "A":
					Δ[from+1][0] = h.SubG(Δ[from+1][0], d.Mul(h.Inv(xs[from+1])))
				case "B":
					Δ[from+1][1] = h.SubG(Δ[from+1][1], d.Mul(xs[from+1]))
				}
			}
			if ok, _ := h.Attempt(func() error {
				_, _, err := bp.IterativeVerify(params, V2, Δ, u)
				return err
			}); ok {
				c.Fatalf("transcript accepted for another commitment")
			}
			c.Desc("v=%v until=%d %s", v, from, what)
			c.Eval(true, "")
		},
	}, {
		Name: "folded", N: h.N{Quick: 500, Thorough: 15000},
		Rule: "all commitments of a transcript from a drawn round on are moved by a power of the folded generator, and the final value with them; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := mk(n)
			v := vector(c, "v", n)
			V := h.MSM(params.G, v)
			Δ, xs, u := bp.IterativeReduce(params, v, V)
			g := append(common.G1v{}, params.G...)
			for _, x := range xs {
				k := len(g) / 2
				for i := 0; i < k; i++ {
					g[i] = h.AddG(g[i], g[k+i].Mul(h.Inv(x)))
				}
				g = g[:k]
			}
			δ := h.NonZero(c, "δ")
			d := g[0].Mul(δ)
			from := h.Int(c, "from", -1, len(Δ)-1)
			for i := range Δ {
				if i >= from {
					Δ[i][2] = h.AddG(Δ[i][2], d)
				}
			}
			if from < 0 {
				V = h.AddG(V, d)
			}
			u = h.Add(u, δ)
			if ok, _ := h.Attempt(func() error {
				_, _, err := bp.IterativeVerify(params, V, Δ, u)
				return err
			}); ok {
				c.Fatalf("transcript accepted with another final value, and other commitments from round %d on", from)
			}
			c.Desc("v=%v from=%d δ=%v", v, from, δ)
			c.Eval(true, "")
		},
	}, {
		Name: "challenges", N: h.N{Quick: 600, Thorough: 20000},
		Rule: "the first challenge differs for another commitment to reduce, and for vectors that differ in one half only, so that one of the two messages is the same; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := mk(n)
			v := vector(c, "v", n)
			V := h.MSM(params.G, v)
			Δ, xs, _ := bp.IterativeReduce(params, v, V)
			what := h.Pick(c, "what", "commitment", "A", "B")
			alt, V2 := h.CopyVec(v), V.Copy()
			switch what {
			case "commitment":
				V2 = h.AddG(V2, h.Curve.GenG1.Mul(h.NonZero(c, "δ")))
			case "A":
				i := h.Int(c, "i", n/2, n-1)
				alt[i] = h.Add(alt[i], h.NonZero(c, "δ"))
			case "B":
				i := h.Int(c, "i", 0, n/2-1)
				alt[i] = h.Add(alt[i], h.NonZero(c, "δ"))
			}
			Δ2, xs2, _ := bp.IterativeReduce(params, alt, V2)
			if what != "commitment" && Δ[0][0].Equals(Δ2[0][0]) == Δ[0][1].Equals(Δ2[0][1]) {
				c.Class("unknown structure")
				return
			}
			if h.SameZr(xs[0], xs2[0]) {
				c.Fatalf("the challenge does not depend on %s", what)
			}
			c.Desc("v=%v", v)
			c.Class("%s", what)
			c.Eval(true, "%s", what)
		},
	}}
	h.Run(t, append(props,
		large(props, "reduce", h.N{Quick: 32, Thorough: 600}, []int{64, 128, 256, 512, 2048}, nil, "over 64 to 2048 entries"),
	)...)
}

type transcript struct {
	Δ [][3]*math.G1
	U *math.Zr
	V *math.G1
}
