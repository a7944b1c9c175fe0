package props

import (
	"testing"

	math "github.com/IBM/mathlib"

	"pol/common"
	"pol/pp"

	"verif/harness/h"
)

// vector draws a vector with zeroes, repeated and special entries.
func vector(c *h.C, name string, n int) common.Vec {
	v := make(common.Vec, n)
	mode := h.Int(c, name+".mode", 0, 6)
	if n > 40 && mode > 2 {
		// Drawing each entry would take long
		v = common.RandVec(n)
		for k := h.Int(c, name+".drawn", 1, 4); k > 0; k-- {
			v[position(c, name+".at", n)] = h.Scalar(c, name)
		}
		return v
	}
	for i := range v {
		switch {
		case mode == 0:
			v[i] = h.ZrInt(0)
		case mode == 1 && i != n/2:
			v[i] = h.ZrInt(0)
		case mode == 2 && i > 0:
			v[i] = v[0].Copy()
		default:
			v[i] = h.Scalar(c, name)
		}
	}
	return v
}

func isZero(v common.Vec) bool {
	for _, x := range v {
		if h.Big(x).Sign() != 0 {
			return false
		}
	}
	return true
}

func sameVec(a, b common.Vec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !h.SameZr(a[i], b[i]) {
			return false
		}
	}
	return true
}

// Sizes of committed vectors: fan-out + 2 for the permitted fan-outs, and others.
func vcSize(c *h.C) int {
	return size(c, 5, 2, 3, 4, 5, 6, 9, 9, 17, 33)
}

func TestC13(t *testing.T) {
	props := []h.Prop{{
		Name: "open", N: h.N{Quick: 2700, Thorough: 30000},
		Rule: "a vector over several sizes with zero, repeated, small, r-k and full-width entries, opened at a drawn position; non-trivial when the opening is verified and a false variant of it was refused",
		Check: func(c *h.C) {
			n := vcSize(c)
			params := h.VC(n, 0)
			m := vector(c, "m", n)
			i := position(c, "i", n)
			print := h.Fingerprint(params, &m)
			C := pp.Commit(params, m)
			v, π := pp.Open(params, i, m)
			if !C.Equals(h.MSM(params.G1s[:n], m)) {
				c.Fatalf("commitment is not the product of powers of the generators")
			}
			if !h.SameZr(v, m[i]) {
				c.Fatalf("opened value %v instead of %v", v, m[i])
			}
			if err := pp.Verify(params, v, π, C, i); err != nil {
				c.Fatalf("honest opening of index %d of %v refused: %v", i, m, err)
			}
			if h.Fingerprint(params, &m) != print {
				c.Fatalf("inputs were modified")
			}
			c.Desc("n=%d i=%d m=%v", n, i, m)
			c.Eval(true, "honest")

			// False statements
			for k := 0; k < 3; k++ {
				val, pi, com, pos := m[i].Copy(), π.Copy(), C.Copy(), i
				what := h.Pick(c, "what", "value", "negation", "position", "commitment", "opening", "vector", "swap")
				switch what {
				case "value":
					val = h.Add(val, h.NonZero(c, "δ"))
				case "negation":
					if h.Bool(c, "below zero") {
						val = h.Negative(val)
					} else {
						val = h.Neg(val)
					}
				case "position":
					pos = position(c, "pos", n)
					if _, pi2 := pp.Open(params, pos, m); pos == i || (h.SameZr(m[pos], m[i]) && pi2.Equals(pi)) {
						continue
					}
				case "commitment":
					com = h.AddG(com, params.G1s[h.Int(c, "g", 0, n-1)].Mul(h.NonZero(c, "δ")))
				case "opening":
					pi = h.AddG(pi, h.Curve.GenG1.Mul(h.NonZero(c, "δ")))
				case "vector":
					m2 := h.CopyVec(m)
					j := position(c, "j", n)
					m2[j] = h.Add(m2[j], h.NonZero(c, "δ"))
					com = pp.Commit(params, m2)
					if com.Equals(C) {
						c.Fatalf("commitments of %v and %v are equal", m, m2)
					}
				case "swap":
					// The opening of another position with its value
					j := position(c, "j", n)
					var vj *math.Zr
					vj, pi = pp.Open(params, j, m)
					val = vj.Copy()
					if _, own := pp.Open(params, i, m); j == i || (h.SameZr(vj, m[i]) && own.Equals(pi)) {
						continue
					}
				}
				if h.SameZr(val, m[i]) && pi.Equals(π) && com.Equals(C) && pos == i {
					continue
				}
				if ok, _ := h.Attempt(func() error { return pp.Verify(params, val, pi, com, pos) }); ok {
					c.Fatalf("false opening accepted (%s): index %d of %v as %v at %d", what, i, m, val, pos)
				}
				c.Class("false/%s", what)
				c.Eval(true, "false %s %d", what, k)
			}
			if err := pp.Verify(params, v, π, C, i); err != nil {
				c.Fatalf("after false claims, the honest opening is refused: %v", err)
			}
		},
	}}
	props = append(props, h.Prop{
		Name: "length", N: h.N{Quick: 600, Thorough: 10000},
		Rule: "a vector with one to three entries more or less than the parameters are for (the additional ones zero or not): it must not be committed to; every case is non-trivial",
		Check: func(c *h.C) {
			n := vcSize(c)
			params := h.VC(n, 0)
			m := vector(c, "m", n)
			δ := h.Pick(c, "entries", 1, -1, 2, -2, 3)
			if n+δ < 0 {
				δ = 1
			}
			long := h.CopyVec(m)
			if δ > 0 {
				for k := 0; k < δ; k++ {
					long = append(long, h.Scalar(c, "more"))
				}
			} else {
				long = long[:n+δ]
			}
			var C *math.G1
			committed, _ := h.Attempt(func() error {
				C = pp.Commit(params, long)
				return nil
			})
			if committed && C != nil {
				c.Fatalf("a vector of %d entries was committed to with parameters for %d", len(long), n)
			}
			c.Class("%+d", δ)
			c.Eval(true, "n=%d %+d", n, δ)
		},
	})
	h.Run(t, append(props,
		large(props, "open", h.N{Quick: 40, Thorough: 1000}, []int{129, 257, 300, 513}, nil, "over 129 to 513 entries"),
	)...)
}

func TestC14(t *testing.T) {
	props := []h.Prop{{
		Name: "update", N: h.N{Quick: 4000, Thorough: 40000},
		Rule: "a vector and up to 8 (rarely up to 300) single-position updates from, to and between zero and non-zero values, unchanged values and repeated positions; non-trivial when at least one update changes a value",
		Check: func(c *h.C) {
			n := vcSize(c)
			params := h.VC(n, 0)
			m := vector(c, "m", n)
			C := pp.Commit(params, m)
			c.Desc("n=%d m=%v", n, m)
			changed := false
			steps := h.Int(c, "steps", 1, 8)
			if h.Int(c, "many", 0, 63) == 63 {
				steps = h.Int(c, "many steps", 60, 300)
			}
			for s := 0; s < steps; s++ {
				i := position(c, "i", n)
				var next *math.Zr
				switch h.Int(c, "next", 0, 4) {
				case 0:
					next = h.ZrInt(0)
				case 1:
					next = m[i].Copy()
				case 2:
					next = m[h.Int(c, "from", 0, n-1)].Copy()
				default:
					next = h.Scalar(c, "next")
				}
				print := h.Fingerprint(params, &m, &next)
				pp.Update(params, C, m, next, i)
				if h.Fingerprint(params, &m, &next) != print {
					c.Fatalf("update modified its inputs")
				}
				changed = changed || !h.SameZr(m[i], next)
				m[i] = next
				if want := pp.Commit(params, m); !want.Equals(C) || !want.Equals(h.MSM(params.G1s[:n], m)) {
					c.Fatalf("after %d updates the commitment is not the one of %v", s+1, m)
				}
				c.Desc("[%d]=%v", i, next)
			}
			i := position(c, "open", n)
			v, π := pp.Open(params, i, m)
			if err := pp.Verify(params, v, π, C, i); err != nil {
				c.Fatalf("opening against the updated commitment refused: %v", err)
			}
			c.Eval(changed, "")
		},
	}, {
		Name: "linear", N: h.N{Quick: 2000, Thorough: 15000},
		Rule: "two vectors and a factor: commit(a+k*b) = commit(a)+k*commit(b), and the same of openings; non-trivial when a and b are not zero",
		Check: func(c *h.C) {
			n := vcSize(c)
			params := h.VC(n, 0)
			a, b, k := vector(c, "a", n), vector(c, "b", n), h.Scalar(c, "k")
			sum := make(common.Vec, n)
			for i := range sum {
				sum[i] = h.Add(a[i], h.Mul(k, b[i]))
			}
			print := h.Fingerprint(params, &a, &b, &sum)
			if !pp.Commit(params, sum).Equals(h.AddG(pp.Commit(params, a), pp.Commit(params, b).Mul(k))) {
				c.Fatalf("commitment is not linear: a=%v b=%v k=%v", a, b, k)
			}
			i := position(c, "i", n)
			va, πa := pp.Open(params, i, a)
			vb, πb := pp.Open(params, i, b)
			vs, πs := pp.Open(params, i, sum)
			if !πs.Equals(h.AddG(πa, πb.Mul(k))) || !h.SameZr(vs, h.Add(va, h.Mul(k, vb))) {
				c.Fatalf("openings are not linear: a=%v b=%v k=%v", a, b, k)
			}
			if h.Fingerprint(params, &a, &b, &sum) != print {
				c.Fatalf("committing or opening modified its inputs")
			}
			c.Desc("n=%d i=%d a=%v b=%v k=%v", n, i, a, b, k)
			c.Eval(!isZero(a) && !isZero(b), "")
		},
	}, {
		Name: "inputs", N: h.N{Quick: 900, Thorough: 5000},
		Rule: "aggregating openings leaves commitments, openings and parameters as they were and is repeatable; non-trivial with at least two commitments",
		Check: func(c *h.C) {
			n := vcSize(c)
			params := h.VC(n, 0)
			k := h.Int(c, "k", 1, 4)
			var Cs common.G1v
			var πs []*math.G1
			for j := 0; j < k; j++ {
				m := vector(c, "m", n)
				Cs = append(Cs, pp.Commit(params, m))
				_, π := pp.Open(params, h.Int(c, "i", 0, n-1), m)
				πs = append(πs, π)
			}
			print := h.Fingerprint(params, &Cs, &πs)
			first := pp.Aggregate(params, Cs, πs, pp.RO)
			second := pp.Aggregate(params, Cs, πs, pp.RO)
			if h.Fingerprint(params, &Cs, &πs) != print {
				c.Fatalf("aggregation modified its inputs")
			}
			if !first.Equals(second) {
				c.Fatalf("aggregating twice gives different results")
			}
			c.Desc("n=%d %x", n, first.Bytes()[:8])
			c.Eval(k > 1, "")
		},
	}}
	h.Run(t, append(props,
		large(props, "update", h.N{Quick: 16, Thorough: 500}, []int{129, 257, 300, 513}, nil, "over 129 to 513 entries"),
		large(props, "linear", h.N{Quick: 8, Thorough: 300}, []int{129, 257, 300, 513}, nil, "over 129 to 513 entries"),
	)...)
}

type aggregation struct {
	params *pp.PP
	ms     []common.Vec
	idx    []int
	Cs     common.G1v
	πs     []*math.G1
	π      *math.G1
	Σ      *math.Zr
}

func aggregate(c *h.C, n, k int) *aggregation {
	a := &aggregation{params: h.VC(n, 0)}
	for j := 0; j < k; j++ {
		var m common.Vec
		i := position(c, "i", n)
		if j > 0 && h.Int(c, "repeat", 0, 3) == 0 {
			m = a.ms[h.Int(c, "of", 0, j-1)]
			if h.Bool(c, "samepos") {
				i = a.idx[j-1]
			}
		} else {
			m = vector(c, "m", n)
		}
		a.ms = append(a.ms, m)
		a.idx = append(a.idx, i)
		a.Cs = append(a.Cs, pp.Commit(a.params, m))
		_, π := pp.Open(a.params, i, m)
		a.πs = append(a.πs, π)
	}
	a.π = pp.Aggregate(a.params, a.Cs, a.πs, pp.RO)
	a.Σ = h.ZrInt(0)
	for j := range a.ms {
		a.Σ = h.Add(a.Σ, h.Mul(a.ms[j][a.idx[j]], pp.RO(a.params, a.Cs, j)))
	}
	return a
}

func TestC15(t *testing.T) {
	props := []h.Prop{{
		Name: "aggregate", N: h.N{Quick: 1000, Thorough: 12000},
		Rule: "1 to 7 commitments (repeated ones included) opened at drawn positions (repeated ones included) and aggregated; the honest statement must verify, then one component of the statement is made false; non-trivial with at least two commitments, not all of zero",
		Check: func(c *h.C) {
			n := size(c, 5, 2, 4, 5, 9, 17)
			k := h.Int(c, "k", 1, 7)
			if largeM != nil {
				k = count(c)
			}
			a := aggregate(c, n, k)
			c.Desc("n=%d idx=%v ms=%v", n, a.idx, a.ms)
			print := h.Fingerprint(a.params, &a.Cs, a.π, a.Σ, &a.idx)
			if err := pp.VerifyAggregation(a.params, a.idx, a.Cs, a.π, a.Σ, pp.RO); err != nil {
				c.Fatalf("honest aggregation refused: %v", err)
			}
			if h.Fingerprint(a.params, &a.Cs, a.π, a.Σ, &a.idx) != print {
				c.Fatalf("verification modified its inputs")
			}
			allZero := true
			for _, m := range a.ms {
				allZero = allZero && isZero(m)
			}
			c.Eval(k > 1 && !allZero, "honest")
			for rep := 0; rep < 3; rep++ {
				idx := append([]int{}, a.idx...)
				Cs := h.CopyG1v(a.Cs)
				π, Σ := a.π.Copy(), a.Σ.Copy()
				what := h.Pick(c, "what", "sum", "negated sum", "position", "commitment", "order", "drop", "append", "opening", "offset values", "duplicate challenge")
				skip := false
				switch what {
				case "sum":
					Σ = h.Add(Σ, h.NonZero(c, "δ"))
				case "negated sum":
					if h.Bool(c, "below zero") {
						Σ = h.Negative(Σ)
					} else {
						Σ = h.Neg(Σ)
					}
					skip = h.SameZr(Σ, a.Σ)
				case "position":
					j := h.Int(c, "j", 0, k-1)
					idx[j] = h.Int(c, "pos", 0, n-1)
					skip = idx[j] == a.idx[j] || isZero(a.ms[j])
				case "commitment":
					j := h.Int(c, "j", 0, k-1)
					Cs[j] = h.AddG(Cs[j], a.params.G1s[h.Int(c, "g", 0, n-1)].Mul(h.NonZero(c, "δ")))
				case "order":
					i, j := h.Int(c, "i", 0, k-1), h.Int(c, "j", 0, k-1)
					Cs[i], Cs[j] = Cs[j], Cs[i]
					if h.Bool(c, "both") {
						idx[i], idx[j] = idx[j], idx[i]
					}
					skip = Cs[i].Equals(Cs[j]) || allZero
				case "drop":
					if k == 1 {
						continue
					}
					Cs, idx = Cs[:k-1], idx[:k-1]
					skip = allZero
				case "append":
					Cs = append(Cs, a.Cs[h.Int(c, "j", 0, k-1)].Copy())
					idx = append(idx, h.Int(c, "pos", 0, n-1))
					skip = allZero
				case "opening":
					π = h.AddG(π, h.Curve.GenG1.Mul(h.NonZero(c, "δ")))
				case "offset values":
					// Claims m_i + δ and m_j - δ: only equal challenges let them cancel out
					if k == 1 {
						continue
					}
					i, j := h.Int(c, "i", 0, k-1), h.Int(c, "j", 0, k-1)
					if i == j {
						continue
					}
					δ := h.NonZero(c, "δ")
					Σ = h.Add(Σ, h.Mul(δ, h.Sub(pp.RO(a.params, Cs, i), pp.RO(a.params, Cs, j))))
				case "duplicate challenge":
					// Openings exchanged between positions of the list: Σ t_i π_j
					if k == 1 {
						continue
					}
					i, j := h.Int(c, "i", 0, k-1), h.Int(c, "j", 0, k-1)
					πs := append([]*math.G1{}, a.πs...)
					πs[i], πs[j] = πs[j], πs[i]
					skip = πs[i].Equals(πs[j])
					π = pp.Aggregate(a.params, a.Cs, πs, pp.RO)
				}
				if skip {
					continue
				}
				if ok, _ := h.Attempt(func() error { return pp.VerifyAggregation(a.params, idx, Cs, π, Σ, pp.RO) }); ok {
					c.Fatalf("false aggregation accepted: %s", what)
				}
				c.Class("false/%s", what)
				c.Eval(true, "false %s %d", what, rep)
			}
		},
	}, {
		Name: "challenges", N: h.N{Quick: 160, Thorough: 3000},
		Rule: "the challenges used for aggregations of up to 600 commitments are pairwise distinct, for prover and verifier the same, and derived from all commitments; non-trivial with more than one commitment",
		Check: func(c *h.C) {
			params := h.VC(2, 0)
			k := h.Pick(c, "k", 2, 3, 17, 255, 256, 257, 300, 513, 600)
			base := params.G1s[0].Mul(h.NonZero(c, "g"))
			Cs := make(common.G1v, k)
			for i := range Cs {
				if i == 0 || h.Int(c, "same", 0, 9) == 0 {
					Cs[i] = base.Copy()
				} else {
					Cs[i] = h.AddG(Cs[i-1], params.G1s[0])
				}
			}
			print := h.Fingerprint(&Cs)
			seen := map[string]int{}
			for i := 0; i < k; i++ {
				s := pp.RO(params, Cs, i).String()
				if j, dup := seen[s]; dup {
					c.Fatalf("commitments %d and %d of %d have the same challenge", j, i, k)
				}
				seen[s] = i
			}
			if h.Fingerprint(&Cs) != print {
				c.Fatalf("deriving challenges modified the commitments")
			}
			c.Desc("k=%d g=%x", k, base.Bytes()[:6])
			c.Eval(true, "")
		},
	}, {
		Name: "large", N: h.N{Quick: 8, Thorough: 200},
		Rule: "aggregations of 250 to 300, or up to 1100, openings verify, and not with two of the values exchanged; every case is non-trivial",
		Check: func(c *h.C) {
			n := 2
			k := h.Int(c, "k", 250, 300)
			if h.Bool(c, "more") {
				k = h.Int(c, "many", 301, 1100)
			}
			a := &aggregation{params: h.VC(n, 0)}
			x := h.NonZero(c, "x")
			for j := 0; j < k; j++ {
				m := common.Vec{h.ZrInt(int64(j)), h.Add(x, h.ZrInt(int64(j)))}
				a.ms, a.idx = append(a.ms, m), append(a.idx, j%2)
				a.Cs = append(a.Cs, pp.Commit(a.params, m))
				_, π := pp.Open(a.params, j%2, m)
				a.πs = append(a.πs, π)
			}
			ts := make(common.Vec, k)
			a.Σ = h.ZrInt(0)
			for j := range a.ms {
				ts[j] = pp.RO(a.params, a.Cs, j)
				a.Σ = h.Add(a.Σ, h.Mul(a.ms[j][a.idx[j]], ts[j]))
			}
			a.π = pp.Aggregate(a.params, a.Cs, a.πs, pp.RO)
			if err := pp.VerifyAggregation(a.params, a.idx, a.Cs, a.π, a.Σ, pp.RO); err != nil {
				c.Fatalf("honest aggregation of %d refused: %v", k, err)
			}
			i := h.Int(c, "i", 0, 9)
			j := k - 1 - h.Int(c, "j", 0, 9)
			if h.Bool(c, "anywhere") {
				i, j = h.Int(c, "any i", 0, k/2-1), h.Int(c, "any j", k/2, k-1)
			}
			d := h.Sub(a.ms[j][a.idx[j]], a.ms[i][a.idx[i]])
			Σ := h.Add(a.Σ, h.Mul(d, h.Sub(ts[i], ts[j])))
			if ok, _ := h.Attempt(func() error { return pp.VerifyAggregation(a.params, a.idx, a.Cs, a.π, Σ, pp.RO) }); ok {
				c.Fatalf("exchanging the values %d and %d of %d accepted", i, j, k)
			}
			c.Desc("k=%d i=%d j=%d x=%v", k, i, j, x)
			c.Eval(true, "")
		},
	}}
	h.Run(t, append(props,
		large(props, "aggregate", h.N{Quick: 24, Thorough: 600}, []int{65, 129, 300}, []int{3, 19, 40}, "over up to 300 entries and 40 commitments"),
		many(large(props, "aggregate", h.N{Quick: 6, Thorough: 200}, []int{2, 3}, []int{300, 520, 1030}, "of up to 1030 commitments")),
	)...)
}
