package props

import (
	"encoding/asn1"
	"encoding/binary"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/pp"
	"pol/sum"
	"pol/verkle"

	"verif/harness/h"
)

// summing draws a vector whose last entry is the field sum of the others plus err.
func summing(c *h.C, name string, n int, err *math.Zr) common.Vec {
	v := vector(c, name, n)
	if h.Int(c, name+".range", 0, 2) == 0 {
		for i := range v {
			v[i] = h.ZrInt(h.Amount(c, name+".amount", (1<<63-1)/int64(n)))
		}
	}
	v[n-1] = h.ZrInt(0)
	for i := 0; i < n-1; i++ {
		v[n-1] = h.Add(v[n-1], v[i])
	}
	v[n-1] = h.Add(v[n-1], err)
	return v
}

func sumCommit(params *sum.PP, v common.Vec, r *math.Zr) *math.G1 {
	return h.AddG(params.F.Mul(r), h.MSM(params.Gs, v))
}

var zero = h.ZrInt(0)

// forgeSum follows the protocol for a vector that might not sum. It returns nil if
// the proof structure is not the known one.
func forgeSum(c *h.C, params *sum.PP, v common.Vec, r *math.Zr, V *math.G1, what string) *sum.Proof {
	n := len(v)
	b := make(common.Vec, n)
	for i := range b {
		b[i] = h.ZrInt(1)
	}
	b[n-1] = h.ZrInt(-1)
	w, rp := common.RandVec(n), h.RandZr()
	commitW := func() *math.G1 { return h.AddG(params.F.Mul(rp), h.MSM(params.Gs, w)) }
	wb := func() *math.Zr { return w.InnerProd(b) }
	// By how much v is off. For the answer to be right, e + x<w,b> = xc
	e := v.InnerProd(b)
	W, cc := commitW(), wb()
	var x *math.Zr
	switch what {
	case "honest", "inner product":
		x = hashZr(cc.Bytes(), V.Bytes(), W.Bytes())
	case "challenge without product":
		x = hashZr(V.Bytes(), W.Bytes())
		cc = h.Add(cc, h.Mul(e, h.Inv(x)))
	case "challenge without mask", "challenge of commitment":
		cc = h.RandZr()
		x = hashZr(cc.Bytes(), V.Bytes())
		if what == "challenge of commitment" {
			x = hashZr(V.Bytes())
		}
		// <w,b> = c - e/x
		want := h.Sub(cc, h.Mul(e, h.Inv(x)))
		w[0] = h.Add(w[0], h.Sub(want, wb()))
		W = commitW()
	case "constant challenge":
		x = h.ZrInt(1)
		cc = h.Add(cc, e)
	}
	ρ := h.Neg(h.Add(r, h.Mul(rp, x)))
	a := make(common.Vec, n)
	for i := range a {
		a[i] = h.Add(v[i], h.Mul(w[i], x))
	}
	ipaPP := &bp.PP{G: params.Gs, H: params.H, U: params.U}
	ipaPP.RecomputeDigest()
	ipa := bp.NewInnerProdArgument(ipaPP, a, b)
	if what == "inner product" {
		ipa.C = h.Mul(cc, x)
	}
	if what != "honest" && what != "inner product" && !a.InnerProd(b).Equals(h.Mul(cc, x)) {
		panic("the reference prover does not exploit what it should: " + what)
	}
	proof := &sum.Proof{}
	if !h.SetFields(proof, map[string]interface{}{"W": W, "c": cc, "ρ": ρ, "π": ipa.Prove()}) {
		return nil
	}
	return proof
}

func TestC16(t *testing.T) {
	sizes := []int{2, 4, 4, 8, 16}
	props := []h.Prop{{
		Name: "single", N: h.N{Quick: 600, Thorough: 50000},
		Rule: "a vector of 2 to 16 entries whose last is the field sum of the others (zero vectors and wrap-around included); the argument must verify, then its commitment or one element is altered; non-trivial when the vector is not zero",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := sumPP(n)
			v, r := summing(c, "v", n, zero), h.Scalar(c, "r")
			c.Desc("v=%v r=%v", v, r)
			print := h.Fingerprint(params, &v, r)
			V := sumCommit(params, v, r)
			arg := sum.NewCommitment(params, v, r)
			if !arg.V.Equals(V) {
				c.Fatalf("the commitment is not F^r G^v")
			}
			_, proof := sum.NewArgument(params, arg.V, v, r)
			proofPrint := h.Fingerprint(proof)
			if err := proof.Verify(params, &sum.Argument{V: V}); err != nil {
				c.Fatalf("honest sum argument refused: %v", err)
			}
			if h.Fingerprint(params, &v, r) != print || h.Fingerprint(proof) != proofPrint || !arg.V.Equals(V) {
				c.Fatalf("proving or verifying modified its inputs")
			}
			c.Eval(!isZero(v), "honest")
			v2, r2 := summing(c, "v2", n, zero), h.Scalar(c, "r2")
			V2 := sumCommit(params, v2, r2)
			_, proof2 := sum.NewArgument(params, V2, v2, r2)
			donor := h.Walk(proof2)
			for k := 0; k < 4; k++ {
				alt, com := h.Copy(proof), V.Copy()
				what := ""
				δ := h.NonZero(c, "δ")
				switch h.Int(c, "kind", 0, 5) {
				case 0:
					com, what = V2, "commitment of another vector"
				case 1:
					com, what = h.AddG(V, params.F.Mul(δ)), "other blinding"
				case 2:
					// The same vector and an adapted opening of the blinding
					com, what = h.AddG(V, params.F.Mul(δ)), "compensated blinding"
					f := h.Field(alt, "ρ")
					if !f.IsValid() {
						continue
					}
					h.SetFields(alt, map[string]interface{}{"ρ": h.Sub(f.Interface().(*math.Zr), δ)})
				default:
					leaf := h.PickLeaf(c, "leaf", h.Elements(alt))
					what = leaf.Pattern + " " + h.Tamper(c, "t", leaf, donor)
				}
				if com.Equals(V) && what == "commitment of another vector" {
					continue
				}
				if ok, _ := h.Attempt(func() error { return alt.Verify(params, &sum.Argument{V: com}) }); ok {
					c.Fatalf("sum argument accepted: %s", what)
				}
				c.Class("%s", what)
				c.Eval(true, "%s %d", what, k)
			}
			if err := proof.Verify(params, &sum.Argument{V: V}); err != nil {
				c.Fatalf("after altered ones, the honest sum argument is refused: %v", err)
			}
		},
	}, {
		Name: "false", N: h.N{Quick: 900, Thorough: 50000},
		Rule: "a vector whose last entry is off by e; arguments made by the prover itself and by a reference prover that exploits a challenge leaving out one of its inputs must be refused; the commitment helper refuses the vector; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := sumPP(n)
			e := h.NonZero(c, "e")
			v, r := summing(c, "v", n, e), h.Scalar(c, "r")
			V := sumCommit(params, v, r)
			c.Desc("v=%v r=%v", v, r)
			if panicked, _, _ := h.Panics(func() { sum.NewCommitment(params, v, r) }); !panicked {
				c.Fatalf("the helper committed to a vector that does not sum: %v", v)
			}
			what := h.Pick(c, "what", "prover", "honest", "inner product", "challenge without product", "challenge without mask", "challenge of commitment", "constant challenge")
			var proof *sum.Proof
			if what == "prover" {
				if panicked, _, _ := h.Panics(func() { _, proof = sum.NewArgument(params, V, v, r) }); panicked {
					return
				}
			} else {
				// The reference prover is only an attack if it is understood when it is honest
				v0 := summing(c, "v0", n, zero)
				V0 := sumCommit(params, v0, r)
				if p0 := forgeSum(c, params, v0, r, V0, "honest"); p0 == nil || p0.Verify(params, &sum.Argument{V: V0}) != nil {
					c.Class("uncalibrated")
				}
				proof = forgeSum(c, params, v, r, V, what)
			}
			if ok, _ := h.Attempt(func() error { return proof.Verify(params, &sum.Argument{V: V}) }); ok {
				c.Fatalf("argument for a false sum accepted: %s", what)
			}
			c.Class("%s", what)
			c.Eval(true, "%s", what)
		},
	}, {
		Name: "transcript", N: h.N{Quick: 300, Thorough: 10000},
		Rule: "arguments for one vector which differ in one random draw, or in the blinding of the commitment only: where the mask or its product differ, the answers do, and the folded vector differs for another commitment; every case is non-trivial",
		Check: func(c *h.C) {
			n := h.Pick(c, "n", 2, 4, 4, 8)
			params := sumPP(n)
			v, r := summing(c, "v", n, zero), h.Scalar(c, "r")
			prove := func(r *math.Zr) interface{} {
				_, p := sum.NewArgument(params, sumCommit(params, v, r), v, r)
				return p
			}
			answers := []string{".ρ", ".π.LRs", ".π.a"}
			k := reacts(c, func() interface{} { return prove(r) }, []round{{[]string{".W", ".c"}, answers}}, func(reads int) int {
				return h.Int(c, "draw", 0, reads-1)
			}, 3)
			h.SetRand(7)
			base := prove(r)
			h.SetRand(7)
			other := prove(h.Add(r, h.NonZero(c, "δ")))
			answered(c, base, other, []round{{nil, []string{".π.LRs", ".π.a"}}}, "blinding")
			c.Desc("n=%d v=%v r=%v", n, v, r)
			c.Eval(k > 0, "")
		},
	}, {
		Name: "helper", N: h.N{Quick: 3000, Thorough: 100000},
		Rule: "the commitment helper accepts exactly vectors that sum in the field, scalars given unreduced included; non-trivial when the vector is not zero",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := sumPP(n)
			e := zero
			if h.Bool(c, "false") {
				e = h.NonZero(c, "e")
			}
			v := unreduced(c, summing(c, "v", n, e))
			panicked, rt, msg := h.Panics(func() { sum.NewCommitment(params, v, h.ZrInt(5)) })
			if rt {
				c.Fatalf("the helper crashed: %s", msg)
			}
			if panicked != (e != zero) {
				c.Fatalf("vector %v is off by %v; refused: %v", v, e, panicked)
			}
			c.Desc("v=%v", v)
			c.Class("off: %v", panicked)
			c.Eval(!isZero(v), "")
		},
	}, {
		Name: "batch", N: h.N{Quick: 500, Thorough: 40000},
		Rule: "1 to 6 vectors that sum: the aggregated argument must verify for exactly these commitments in this order; then elements, commitments, order or number are altered; non-trivial with at least two vectors",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := sumPP(n)
			k := h.Int(c, "k", 1, 6)
			var vs []common.Vec
			var rs common.Vec
			var Vs common.G1v
			for i := 0; i < k; i++ {
				if i > 0 && h.Int(c, "repeat", 0, 4) == 0 {
					vs, rs = append(vs, vs[i-1]), append(rs, rs[i-1])
				} else {
					vs, rs = append(vs, summing(c, "v", n, zero)), append(rs, h.Scalar(c, "r"))
				}
				Vs = append(Vs, sumCommit(params, vs[i], rs[i]))
			}
			c.Desc("vs=%v rs=%v", vs, rs)
			print := h.Fingerprint(params, &vs, &rs, &Vs)
			proof := sum.NewAggregatedArgument(params, Vs, vs, rs)
			proofPrint := h.Fingerprint(proof)
			if err := proof.VerifyAggregated(params, Vs); err != nil {
				c.Fatalf("honest aggregated argument refused: %v", err)
			}
			if h.Fingerprint(params, &vs, &rs, &Vs) != print || h.Fingerprint(proof) != proofPrint {
				c.Fatalf("proving or verifying modified its inputs")
			}
			c.Eval(k > 1, "honest")
			for rep := 0; rep < 3; rep++ {
				alt, coms := h.Copy(proof), Vs
				what := ""
				if h.Bool(c, "statement") {
					coms, what = alterList(c, Vs)
					if len(coms) == 0 || sameG1v(withoutTrailing(coms), withoutTrailing(Vs)) {
						// Appended commitments to zero vectors change no weighted sum
						continue
					}
				} else {
					leaf := h.PickLeaf(c, "leaf", h.Elements(alt))
					what = leaf.Pattern + " " + h.Tamper(c, "t", leaf, nil)
				}
				if ok, _ := h.Attempt(func() error { return alt.VerifyAggregated(params, coms) }); ok {
					c.Fatalf("aggregated argument accepted: %s", what)
				}
				c.Class("%s", what)
				c.Eval(true, "%s %d", what, rep)
			}
		},
	}, {
		Name: "false batch", N: h.N{Quick: 900, Thorough: 50000},
		Rule: "2 to 6 (up to 300) vectors of which one or two do not sum; their errors cancel out if weights are equal or derived without one of the commitments; the argument made for them must be refused; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := sumPP(n)
			k := h.Int(c, "k", 2, 6)
			if largeM != nil {
				k = count(c)
			}
			errs := make(common.Vec, k)
			errs.Zero()
			i, j := h.Int(c, "i", 0, k-1), h.Int(c, "j", 0, k-1)
			if period := 1 << h.Int(c, "period", 0, 10); largeM != nil && k > period {
				// Weights might repeat
				i = h.Int(c, "early", 0, k-1-period)
				j = i + period
			}
			e := h.NonZero(c, "e")
			errs[i] = e
			vs := make([]common.Vec, k)
			rs := make(common.Vec, k)
			Vs := make(common.G1v, k)
			for l := range vs {
				vs[l], rs[l] = summing(c, "v", n, errs[l]), h.Scalar(c, "r")
				Vs[l] = sumCommit(params, vs[l], rs[l])
			}
			what := "one"
			if i != j {
				whats := []string{"one", "opposite", "same", "without", "first", "last", "empty", "consecutive", "minus one"}
				if largeM != nil {
					whats = []string{"opposite", "opposite", "opposite", "same", "one", "last"}
				}
				what = h.Pick(c, "what", whats...)
				pow := func(τ *math.Zr, l int) *math.Zr {
					p := h.ZrInt(1)
					for ; l > 0; l-- {
						p = h.Mul(p, τ)
					}
					return p
				}
				var fix *math.Zr
				cancel := func(τ *math.Zr) {
					if h.Big(τ).Sign() != 0 {
						fix = h.Neg(h.Mul(e, h.Mul(pow(τ, i), h.Inv(pow(τ, j)))))
					}
				}
				switch what {
				case "opposite":
					fix = h.Neg(e)
				case "same":
					fix = e
				case "without":
					var b []byte
					for l := range Vs {
						if l != j {
							b = append(b, Vs[l].Bytes()...)
						}
					}
					cancel(hashZr(b))
				case "first":
					if j != 0 {
						cancel(hashZr(Vs[0].Bytes()))
					}
				case "last":
					if j != k-1 {
						cancel(hashZr(Vs[k-1].Bytes()))
					}
				case "empty":
					cancel(hashZr())
				case "consecutive":
					// Weights 1, 2, 3, ...
					fix = h.Neg(h.Mul(e, h.Mul(h.ZrInt(int64(i+1)), h.Inv(h.ZrInt(int64(j+1))))))
				case "minus one":
					cancel(h.ZrInt(-1))
				}
				if fix != nil {
					vs[j][n-1] = h.Add(vs[j][n-1], fix)
					Vs[j] = sumCommit(params, vs[j], rs[j])
				}
			}
			var proof *sum.Proof
			if panicked, _, _ := h.Panics(func() { proof = sum.NewAggregatedArgument(params, Vs, vs, rs) }); panicked {
				return
			}
			if ok, _ := h.Attempt(func() error { return proof.VerifyAggregated(params, Vs) }); ok {
				c.Fatalf("argument for a false batch accepted: vectors %d and %d do not sum (%s)", i, j, what)
			}
			c.Desc("n=%d k=%d i=%d j=%d e=%v", n, k, i, j, e)
			c.Class("%s", what)
			c.Eval(true, "%s", what)
		},
	}, {
		Name: "vertices", N: h.N{Quick: 120, Thorough: 6000},
		Rule: "the sum argument of the vertices on a path of a verkle tree (fan-outs 3 to 31, depths 1 to 4, 1 to 5 assignments) verifies for their commitments and no others, and not where a value in a vertex is off; every case is non-trivial",
		Check: func(c *h.C) {
			f := size(c, 3, 3, 7, 15, 31)
			depth := h.Int(c, "depth", 1, 4)
			if largeN != nil {
				depth = h.Int(c, "depth of wide", 1, 2)
			}
			n := f + 1
			tree, _ := verkleTree(f, h.Path)
			params := *sumPP(n)
			params.F, params.Gs = tree.PP.G1s[n], tree.PP.G1s[:n]
			values := map[string]int64{}
			var ids []string
			var paths [][]uint16
			for i := h.Int(c, "assignments", 1, 5); i > 0; i-- {
				path := h.TreePath(c, "path", f, depth, paths)
				id := h.PathID(path)
				x := drawValue(c, "value", values, id)
				tree.Put(id, x)
				values[id] = x
				ids, paths = append(ids, id), append(paths, path)
				c.Desc("%s=%d", id, x)
			}
			id := ids[h.Int(c, "id", 0, len(ids)-1)]
			x, path, ok := tree.Get(id)
			if !ok || x != values[id] || len(path) != depth {
				c.Fatalf("%s has %d (%v) instead of %d", id, x, ok, values[id])
			}
			Vs := make(common.G1v, depth)
			for i, v := range path {
				Vs[i] = v.V
			}
			vs := verkle.Vertices(path)
			proof := vs.SumArgument(&params)
			if err := proof.VerifyAggregated(&params, Vs); err != nil {
				c.Fatalf("honest sum argument of %d vertices refused: %v", depth, err)
			}
			c.Eval(true, "fan-out %d", f)
			coms, what := Vs, ""
			at := h.Int(c, "at", 0, depth-1)
			if h.Bool(c, "statement") {
				coms = h.CopyG1v(Vs)
				coms[at], what = h.AddG(coms[at], params.Gs[position(c, "g", n)].Mul(h.NonZero(c, "δ"))), "commitment"
			} else {
				// A vertex in the store of which a value is off, committed to as it is
				v := &verkle.Vertex{}
				v.FromBytes(path[at].Bytes())
				off := falseVertex(c, tree.PP, v, f)
				if off == nil {
					return
				}
				bad := append(verkle.Vertices{}, path...)
				bad[at] = off
				coms = h.CopyG1v(Vs)
				coms[at], what = off.V, "value"
				if panicked, _, _ := h.Panics(func() { proof = bad.SumArgument(&params) }); panicked {
					return
				}
			}
			if ok, _ := h.Attempt(func() error { return proof.VerifyAggregated(&params, coms) }); ok {
				c.Fatalf("the sum argument of %d vertices was accepted with another %s at level %d", depth, what, at)
			}
			c.Class("%s", what)
			c.Eval(true, "fan-out %d, another %s", f, what)
		},
	}}
	h.Run(t, append(props,
		large(props, "vertices", h.N{Quick: 16, Thorough: 300}, []int{63, 127, 255, 511, 511, 511}, nil, "over fan-outs 63 to 511"),
		large(props, "false batch", h.N{Quick: 12, Thorough: 400}, []int{2, 4}, []int{17, 70, 140, 300}, "of up to 300 vectors"),
		large(props, "single", h.N{Quick: 16, Thorough: 500}, []int{64, 128, 256, 512}, nil, "over 64 to 512 entries"),
		large(props, "false", h.N{Quick: 24, Thorough: 600}, []int{64, 128, 256, 512}, nil, "over 64 to 512 entries"),
	)...)
}

// falseVertex returns a vertex like v with another value of one of its children and the
// commitment to that, or nil if the serialization is not the known one.
func falseVertex(c *h.C, params *pp.PP, v *verkle.Vertex, f int) *verkle.Vertex {
	raw := &verkle.RawVertex{}
	if rest, err := asn1.Unmarshal(v.Bytes(), raw); err != nil || len(rest) > 0 || len(raw.Values) == 0 {
		return nil
	}
	i := h.Int(c, "child", 0, len(raw.Values)-1)
	δ := h.NonZero(c, "off by")
	raw.Values[i].V = h.Add(h.Curve.NewZrFromBytes(raw.Values[i].V), δ).Bytes()
	at := int(binary.BigEndian.Uint16(raw.Values[i].K))
	if at >= f {
		return nil
	}
	raw.V = h.AddG(v.V, params.G1s[at].Mul(δ)).Bytes()
	enc, err := asn1.Marshal(*raw)
	if err != nil {
		return nil
	}
	res := &verkle.Vertex{}
	res.FromBytes(enc)
	return res
}

// withoutTrailing drops the identities at the end of a list.
func withoutTrailing(g common.G1v) common.G1v {
	for len(g) > 0 && g[len(g)-1].Equals(h.Identity()) {
		g = g[:len(g)-1]
	}
	return g
}

func sameG1v(a, b common.G1v) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(b[i]) {
			return false
		}
	}
	return true
}
