package props

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/sum"
	"pol/verkle"

	"verif/harness/h"
)

// maker makes a proof of one statement from fresh randomness.
type maker struct {
	make    func() interface{} // returns a pointer
	masks   int                // how many independent secret scalars it needs at least
	secrets []*math.Zr         // values
	blinds  []*math.Zr
	bases   []*math.G1
	fixed   func(h.Leaf) bool // what the statement determines
}

// masked are the elements which depend on the proof's randomness.
func (m *maker) masked(proof interface{}) []h.Leaf {
	var res []h.Leaf
	for _, l := range h.Elements(proof) {
		if l.Kind != "int" && (m.fixed == nil || !m.fixed(l)) {
			res = append(res, l)
		}
	}
	return res
}

func valuesOf(leaves []h.Leaf) string {
	var b strings.Builder
	for _, l := range leaves {
		b.Write(l.Bytes())
	}
	return b.String()
}

// fresh checks that a proof is randomised.
func fresh(c *h.C, m *maker) {
	seed := uint64(h.Int(c, "seed", 0, 1<<30))
	h.SetRand(seed)
	h.RecordDraws()
	first := m.make()
	drawn := h.DrawnScalars()
	// If goroutines draw, then in any order
	anyOrder := h.DrawnElsewhere()
	restart := func(seed uint64) {
		h.SetRand(seed)
		if anyOrder {
			h.EqualDraws()
		}
	}
	size, reads := h.Drawn()
	if size < 32*m.masks {
		c.Fatalf("%d secrets are hidden by %d random bytes", m.masks, size)
	}
	mine := m.masked(first)
	base := valuesOf(mine)
	if anyOrder {
		c.Class("draws in any order")
		restart(seed)
		base = valuesOf(m.masked(m.make()))
	}
	restart(seed)
	again := m.make()
	if valuesOf(m.masked(again)) != base {
		c.Fatalf("equal randomness yields different proofs")
	}
	h.SetRand(seed + 1<<40)
	second := m.make()
	theirs := m.masked(second)
	if len(mine) != len(theirs) {
		c.Fatalf("proofs of one statement have %d and %d elements", len(mine), len(theirs))
	}
	seen := map[string]string{}
	for _, l := range mine {
		k := string(l.Bytes())
		if other, dup := seen[k]; dup {
			c.Fatalf("%s and %s of a proof are the same", other, l.Path)
		}
		seen[k] = l.Path
	}
	for _, l := range theirs {
		if other, dup := seen[string(l.Bytes())]; dup {
			c.Fatalf("%s is %s of another proof of the statement", l.Path, other)
		}
	}
	// Neither the witness nor what hides it is in the proof
	published := map[string]string{}
	for _, l := range h.Walk(first) {
		if (l.Kind == "Zr" || l.Kind == "G1") && !l.Nil() {
			published[string(l.Bytes())] = l.Path
		}
	}
	secrets := append(append(append([]*math.Zr{}, m.secrets...), m.blinds...), drawn...)
	for i, s := range secrets {
		if h.Big(s).BitLen() < 2 {
			continue
		}
		what := "a secret"
		if i >= len(m.secrets)+len(m.blinds) {
			what = "a mask"
		}
		if at, leak := published[string(h.Canon(s).Bytes())]; leak {
			c.Fatalf("%s is %s", at, what)
		}
		if at, leak := published[string(h.Neg(s).Bytes())]; leak {
			c.Fatalf("%s is %s negated", at, what)
		}
	}
	for _, s := range m.secrets {
		if h.Big(s).Sign() == 0 {
			continue
		}
		for _, b := range m.bases {
			if at, leak := published[string(b.Mul(h.Canon(s)).Bytes())]; leak {
				c.Fatalf("%s hides a secret by nothing", at)
			}
		}
	}
	// All randomness matters
	for i := 0; i < 2; i++ {
		at := h.Int(c, "draw", 0, reads-1)
		restart(seed)
		h.FlipDraw(at)
		if valuesOf(m.masked(m.make())) == base {
			c.Fatalf("random draw %d of %d does not matter", at, reads)
		}
	}
	if anyOrder {
		return // a goroutine's panic could not be caught
	}
	h.SetRand(seed)
	limit := h.Int(c, "bytes", 0, size-1)
	h.FailRandAfter(limit)
	panicked, _, _ := h.Panics(func() { m.make() })
	h.SetRand(seed + 1<<41)
	if !panicked {
		c.Fatalf("a proof was made of %d random bytes instead of %d", limit, size)
	}
}

// vertices decodes what is stored.
func stored(w *world) map[string]*verkle.Vertex {
	res := map[string]*verkle.Vertex{}
	for k, b := range w.Store {
		v := &verkle.Vertex{}
		v.FromBytes(b)
		res[k] = v
	}
	return res
}

func keysOf(m map[string]*verkle.Vertex) []string {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// opaque checks that no commitment is explained by its values and a guessable blinding.
func opaque(c *h.C, w *world, vs map[string]*verkle.Vertex) {
	for _, k := range keysOf(vs) {
		v := vs[k]
		values := v.Values(w.f + 1)
		rest := h.SubG(v.V, h.MSM(w.PP.PPPP.G1s[:w.f+1], values))
		guesses := []*math.Zr{h.ZrInt(0), h.ZrInt(1), h.ZrInt(-1)}
		guesses = append(guesses, values...)
		for _, d := range v.Digests {
			guesses = append(guesses, d)
		}
		for i, g := range guesses {
			if rest.Equals(w.PP.PPPP.G1s[w.f+1].Mul(h.Canon(g))) {
				c.Fatalf("vertex %q is blinded by a guess (%d)", k, i)
			}
		}
	}
}

func TestC24(t *testing.T) {
	sumFixed := func(l h.Leaf) bool { return false }
	h.Run(t, h.Prop{
		Name: "vectors", N: h.N{Quick: 160, Thorough: 6000},
		Rule: "random vectors of up to 5000 scalars: all entries are distinct and drawn, equal randomness gives equal vectors, other randomness gives other entries, every draw matters and an exhausted source is refused; non-trivial with at least two entries",
		Check: func(c *h.C) {
			n := h.Int(c, "n", 1, 40)
			if h.Int(c, "long", 0, 2) == 2 {
				n = h.Int(c, "long n", 41, 5000)
			}
			seed := uint64(h.Int(c, "seed", 0, 1<<30))
			h.SetRand(seed)
			v := common.RandVec(n)
			size, reads := h.Drawn()
			if len(v) != n {
				c.Fatalf("%d scalars instead of %d", len(v), n)
			}
			if size < 32*n {
				c.Fatalf("%d scalars of %d random bytes", n, size)
			}
			seen := map[string]int{}
			for i := range v {
				k := string(h.Canon(v[i]).Bytes())
				if j, dup := seen[k]; dup {
					c.Fatalf("entries %d and %d of %d are the same", j, i, n)
				}
				seen[k] = i
			}
			h.SetRand(seed)
			h.FlipDraw(h.Int(c, "draw", 0, reads-1))
			w := common.RandVec(n)
			if sameVec(v, w) {
				c.Fatalf("a random draw does not matter")
			}
			h.SetRand(seed)
			if !sameVec(v, common.RandVec(n)) {
				c.Fatalf("equal randomness yields different vectors")
			}
			h.SetRand(seed + 1<<40)
			for i, x := range common.RandVec(n) {
				if j, dup := seen[string(h.Canon(x).Bytes())]; dup {
					c.Fatalf("entry %d is entry %d of another vector", i, j)
				}
			}
			h.SetRand(seed)
			h.FailRandAfter(h.Int(c, "bytes", 0, size-1))
			panicked, _, _ := h.Panics(func() { common.RandVec(n) })
			h.SetRand(seed + 1<<41)
			if !panicked {
				c.Fatalf("%d scalars of too few random bytes", n)
			}
			c.Desc("n=%d seed=%d", n, seed)
			c.Eval(n > 1, "")
		},
	}, h.Prop{
		Name: "sum", N: h.N{Quick: 120, Thorough: 8000},
		Rule: "two proofs of one sum statement (single and aggregated): all elements differ, equal randomness gives equal proofs, every draw matters, no witness or mask is published, no proof without randomness; non-trivial if the vector is not zero",
		Check: func(c *h.C) {
			n := h.Pick(c, "n", 2, 4, 8, 16)
			params := sumPP(n)
			k := h.Int(c, "vectors", 1, 3)
			var V common.G1v
			var vs []common.Vec
			var rs common.Vec
			m := &maker{masks: n + 1, fixed: sumFixed, bases: append(append([]*math.G1{params.F, params.U, h.Curve.GenG1}, params.Gs...), params.H...)}
			for i := 0; i < k; i++ {
				v, r := summing(c, "v", n, zero), h.Scalar(c, "r")
				vs, rs, V = append(vs, v), append(rs, r), append(V, sumCommit(params, v, r))
				m.secrets, m.blinds = append(m.secrets, v...), append(m.blinds, r)
			}
			m.make = func() interface{} {
				if k == 1 {
					_, p := sum.NewArgument(params, V[0], vs[0], rs[0])
					return p
				}
				return sum.NewAggregatedArgument(params, V, vs, rs)
			}
			fresh(c, m)
			c.Class("n=%d", n)
			c.Eval(!isZero(vs[0]), "n=%d v=%v", n, vs[0])
		},
	}, h.Prop{
		Name: "range", N: h.N{Quick: 24, Thorough: 1500},
		Rule: "as sum, for range proofs of 2 or 4 amounts",
		Check: func(c *h.C) {
			n := h.Pick(c, "n", 2, 2, 4)
			params := rangePP(n)
			v, r := inRange(c, n), h.Scalar(c, "r")
			V := rangeCommit(params, v, r)
			fresh(c, &maker{
				make:    func() interface{} { return bp.ProveRange(params, V, v, r) },
				masks:   n + 1 + 2 + (63*n + n) + 63*n + 2,
				secrets: h.CopyVec(v),
				blinds:  common.Vec{r},
				bases:   append([]*math.G1{params.F, params.G, params.H, h.Curve.GenG1, params.Hs[0], params.Fs[0]}, params.Gs...),
			})
			c.Class("n=%d", n)
			c.Eval(!isZero(v), "v=%v r=%v", v, r)
		},
	}, h.Prop{
		Name: "equality", N: h.N{Quick: 120, Thorough: 8000},
		Rule: "as sum, for equality proofs of single pairs",
		Check: func(c *h.C) {
			n := h.Int(c, "n", 2, 6)
			params := poePP(n, 2, 0)
			p := equalPair(c, params, n)
			e := singleEquality(params, p)
			fresh(c, &maker{
				make:    func() interface{} { return e.Prove(p.v, p.w) },
				masks:   3,
				secrets: append(h.CopyVec(p.v[:n-1]), p.w[:n-1]...),
				blinds:  common.Vec{p.v[n-1], p.w[n-1]},
				bases:   append([]*math.G1{h.Curve.GenG1}, params.PP.G1s...),
			})
			c.Eval(!isZero(p.v), "v=%v I=%d J=%d", p.v, p.I, p.J)
		},
	}, h.Prop{
		Name: "batch", N: h.N{Quick: 80, Thorough: 5000},
		Rule: "as sum, for batches of 2 to 8 equality proofs with repeated and padding pairs",
		Check: func(c *h.C) {
			n, k := h.Int(c, "n", 2, 6), h.Pick(c, "m", 2, 2, 4, 8)
			params := poePP(n, k, 0)
			ps := drawBatch(c, params, n, k)
			vs, ws := openings(ps)
			m := &maker{
				make:  func() interface{} { return batch(params, ps).Prove(vs, ws) },
				masks: 3*k + 2,
				bases: append(append([]*math.G1{params.F, h.Curve.GenG1}, params.G...), params.PP.G1s...),
			}
			for i := range vs {
				m.secrets = append(append(m.secrets, vs[i][:n-1]...), ws[i][:n-1]...)
				m.blinds = append(m.blinds, vs[i][n-1], ws[i][n-1])
			}
			fresh(c, m)
			c.Class("m=%d", k)
			c.Eval(true, "m=%d v=%v", k, vs[0])
		},
	}, h.Prop{
		Name: "liability", N: h.N{Quick: 8, Thorough: 500},
		Rule: "as sum, for liability proofs of depth 2 or 3 (in parallel, too, where draws are made equal instead of fixing their order), whose vertices, digests and openings are determined by the set; every case is non-trivial",
		Check: func(c *h.C) {
			depth := h.Pick(c, "depth", 2, 2, 3)
			w := shortWorld(3, depth)
			for i := h.Int(c, "n", 1, 4); i > 0; i-- {
				w.assign(c)
			}
			id := w.known(c)
			m := &maker{
				make: func() interface{} {
					_, p, _, ok := w.ProveLiability(id)
					if !ok {
						c.Fatalf("no proof of %s", id)
					}
					return &p
				},
				masks: depth*(4+1+2+64*4+63*4+2) + 5 + 3*2 + 2,
				fixed: func(l h.Leaf) bool {
					for _, p := range []string{".V[", ".W[", ".Digests[", ".PointProof", ".LiabilityProof."} {
						if strings.HasPrefix(l.Path, p) {
							return true
						}
					}
					return false
				},
				bases: append([]*math.G1{h.Curve.GenG1, w.PP.POEPP.F, w.PP.POEPP.G[0], w.PP.RPPP.G}, w.PP.PPPP.G1s...),
			}
			vs := stored(w)
			for _, k := range keysOf(vs) {
				m.secrets = append(m.secrets, vs[k].Values(w.f+1)...)
				m.blinds = append(m.blinds, vs[k].BlindingFactor)
			}
			par := h.Int(c, "mode", 0, 2) == 2
			parallel(par, func() { fresh(c, m) })
			c.Class("parallel %v", par)
			c.Eval(true, "%s depth %d parallel %v", id, depth, par)
		},
	}, h.Prop{
		Name: "sets", N: h.N{Quick: 240, Thorough: 12000},
		Rule: "two sets after equal histories of 1 to 8 assignments: all commitments differ, blinding factors are never used twice, not even by a vertex that changes, equal randomness gives equal sets, every draw matters, and neither a commitment nor the difference of two published roots confirms the true values; non-trivial with at least two assignments",
		Check: func(c *h.C) {
			w := shortWorldCheap(3, h.Int(c, "depth", 2, 4))
			seed := uint64(h.Int(c, "seed", 0, 1<<30))
			used := map[string]string{}
			use := func(where string, r *math.Zr) {
				b := h.Canon(r).Bytes()
				if other, dup := used[string(b)]; dup {
					c.Fatalf("%s is blinded as was %s", where, other)
				}
				used[string(b)] = where
			}
			type published struct {
				V    *math.G1
				vals common.Vec
			}
			var roots []published
			h.SetRand(seed)
			n := h.Int(c, "n", 1, 8)
			type step struct {
				id string
				x  int64
			}
			var steps []step
			rooted := false
			for i := 0; i < n; i++ {
				before := stored(w)
				id := w.assign(c)
				steps = append(steps, step{id, w.Model[id]})
				after := stored(w)
				for _, k := range keysOf(after) {
					v := after[k]
					if old := before[k]; old != nil && old.V.Equals(v.V) {
						continue // not on the path
					}
					use(fmt.Sprintf("vertex %q after step %d", k, i), v.BlindingFactor)
				}
				V, _ := w.Root()
				for _, v := range after {
					if v.V.Equals(V) {
						roots = append(roots, published{V, v.Values(w.f + 1)})
						rooted = true
					}
				}
			}
			if !rooted {
				c.Fatalf("the root is not stored")
			}
			drawn, reads := h.Drawn()
			vs := stored(w)
			opaque(c, w, vs)
			if drawn < 32*len(vs) {
				c.Fatalf("%d vertices are blinded by %d random bytes", len(vs), drawn)
			}
			for i, a := range roots {
				for _, b := range roots[:i] {
					δ := make(common.Vec, len(a.vals))
					for k := range δ {
						δ[k] = h.Sub(a.vals[k], b.vals[k])
					}
					if h.SubG(a.V, b.V).Equals(h.MSM(w.PP.PPPP.G1s[:w.f+1], δ)) {
						c.Fatalf("two published roots confirm what was assigned between them")
					}
				}
			}
			play := func() map[string]*verkle.Vertex {
				o := shortWorldCheap(3, w.depth)
				for _, s := range steps {
					o.Put(s.id, s.x)
				}
				return stored(o)
			}
			// Making a set draws, too
			same := func(a, b map[string]*verkle.Vertex) bool {
				if len(a) != len(b) {
					return false
				}
				for k, v := range a {
					if b[k] == nil || !b[k].V.Equals(v.V) {
						return false
					}
				}
				return true
			}
			h.SetRand(seed)
			a := play()
			h.SetRand(seed)
			if b := play(); !same(a, b) {
				c.Fatalf("equal randomness yields different sets")
			}
			h.SetRand(seed + 1<<40)
			other := play()
			for _, k := range keysOf(other) {
				use(fmt.Sprintf("vertex %q of another set", k), other[k].BlindingFactor)
				for k2, v := range vs {
					if v.V.Equals(other[k].V) {
						c.Fatalf("vertex %q and %q of another set have equal commitments", k2, k)
					}
				}
			}
			o := shortWorldCheap(3, w.depth)
			h.SetRand(seed)
			h.FailRandAfter(h.Int(c, "bytes", 0, 31))
			panicked, _, _ := h.Panics(func() { o.LiabilitySet.Set(steps[0].id, steps[0].x) })
			h.SetRand(seed + 1<<41)
			if !panicked {
				c.Fatalf("a vertex was made without randomness")
			}
			c.Eval(n > 1, "reads %d", reads)
		},
	})
}
