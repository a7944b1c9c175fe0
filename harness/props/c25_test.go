package props

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"sync"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/sum"

	"verif/harness/h"
)

// claim is something to verify (or to prove and verify) together with its verdict.
type claim struct {
	what string
	run  func() error
	want bool
}

// bundle is a set of claims about shared objects.
type bundle struct {
	kind    string
	claims  []claim
	watched []interface{} // what no claim may change
}

func (b *bundle) add(want bool, run func() error, format string, args ...interface{}) {
	b.claims = append(b.claims, claim{b.kind + ": " + fmt.Sprintf(format, args...), run, want})
}

// outcome runs a claim and returns what is wrong with it.
func (cl claim) outcome() string {
	accepted, panicked := h.Attempt(cl.run)
	if panicked != "" {
		return fmt.Sprintf("%s panics: %s", cl.what, panicked)
	}
	if accepted != cl.want {
		return fmt.Sprintf("%s: accepted=%v instead of %v", cl.what, accepted, cl.want)
	}
	return ""
}

func shifted(c *h.C, g *math.G1) *math.G1 {
	return h.AddG(g, h.Curve.GenG1.Mul(h.NonZero(c, "δ")))
}

// bundleKinds lists the kinds of bundles from the cheapest to the dearest.
var bundleKinds = []string{"mapping", "opening", "total", "inner product", "reduction", "sum", "aggregated sum", "aggregation", "equality", "batch", "range"}

func makeBundle(c *h.C, kind string, largest int) *bundle {
	b := &bundle{kind: kind}
	watch := func(ptrs ...interface{}) { b.watched = append(b.watched, ptrs...) }
	sizes := func(ns ...int) int {
		for len(ns) > 1 && ns[len(ns)-1] > largest {
			ns = ns[:len(ns)-1]
		}
		return h.Pick(c, "n", ns...)
	}
	switch kind {
	case "mapping":
		// A mapping which nothing has used yet
		f, dense := h.Pick(c, "f", 3, 7, 15, 255), h.Bool(c, "dense")
		var mapping func(string) []uint16
		if dense {
			mapping = sparse.DigitPath(uint16(f))
		} else {
			mapping = sparse.HexId2PathForFanOut(uint16(f))
		}
		var mu sync.Mutex
		seen := map[string][]uint16{}
		for k := 0; k < 3; k++ {
			id := h.HexID(c, "id")
			if dense {
				id = fmt.Sprintf("%09d", h.Int(c, "id", 0, 999999999))
			}
			for _, what := range []string{"path", "path again"} {
				b.add(true, func() error {
					path := append([]uint16{}, mapping(id)...)
					mu.Lock()
					defer mu.Unlock()
					if seen[id] == nil {
						seen[id] = path
					}
					for _, p := range path {
						if int(p) >= f {
							return fmt.Errorf("child %d of %d", p, f)
						}
					}
					if !samePath(seen[id], path) || len(path) == 0 {
						return fmt.Errorf("paths %v and %v", seen[id], path)
					}
					if n, err := strconv.ParseInt(id, 10, 64); dense && (err != nil ||
						pathNumber(path, f, true).Int64() != n && pathNumber(path, f, false).Int64() != n) {
						return fmt.Errorf("path %v", path)
					}
					return nil
				}, "%s of %s for fan-out %d", what, id, f)
			}
			b.add(true, func() error {
				if _, refused, _ := mapped(mapping, id[1:]); !refused {
					return fmt.Errorf("not refused")
				}
				return nil
			}, "refusal of %s", id[1:])
		}
	case "opening":
		n := sizes(2, 5, 9)
		params := h.VC(n, 0)
		m, i := vector(c, "m", n), h.Int(c, "i", 0, n-1)
		C := pp.Commit(params, m)
		mi, π := pp.Open(params, i, m)
		wrong, C2 := h.Add(mi, h.NonZero(c, "e")), shifted(c, C)
		watch(params, &m, C, mi, π, wrong, C2)
		b.add(true, func() error { return pp.Verify(params, mi, π, C, i) }, "right value")
		b.add(false, func() error { return pp.Verify(params, wrong, π, C, i) }, "wrong value")
		b.add(false, func() error { return pp.Verify(params, mi, π, C2, i) }, "wrong commitment")
		b.add(true, func() error {
			x, q := pp.Open(params, i, m)
			return pp.Verify(params, x, q, C, i)
		}, "opened again")
		b.add(true, func() error {
			// Only the commitment given to Update may change
			D := pp.Commit(params, m)
			pp.Update(params, D, m, wrong, i)
			return pp.Verify(params, wrong, π, D, i)
		}, "updated copy")
	case "total":
		w := shortWorldCheap(3, h.Int(c, "depth", 2, 3))
		for i := h.Int(c, "puts", 1, 4); i > 0; i-- {
			w.assign(c)
		}
		b.addSet(c, w, false)
	case "inner product":
		n := sizes(1, 2, 4, 8)
		params := ipaPP(n)
		x, y := vector(c, "a", n), vector(c, "b", n)
		arg := bp.NewInnerProdArgument(params, x, y)
		proof := arg.Prove()
		wrongP, wrongC := h.Copy(proof), h.Copy(proof)
		wrongP.P = shifted(c, wrongP.P)
		wrongC.C = h.Add(wrongC.C, h.NonZero(c, "e"))
		other := h.Copy(params)
		other.G[0] = shifted(c, other.G[0])
		other.RecomputeDigest()
		watch(params, other, &x, &y, arg, proof, wrongP, wrongC)
		b.add(true, func() error { return proof.Verify(params) }, "right")
		b.add(false, func() error { return wrongP.Verify(params) }, "wrong commitment")
		b.add(false, func() error { return wrongC.Verify(params) }, "wrong product")
		if n > 1 && !isZero(x) {
			b.add(false, func() error { return proof.Verify(other) }, "other parameters")
		}
		b.add(true, func() error { return arg.Prove().Verify(params) }, "proved again")
		b.add(true, func() error { return bp.NewInnerProdArgument(params, x, y).Prove().Verify(params) }, "argued again")
	case "reduction":
		n := sizes(2, 4, 8)
		params := ipaPP(n)
		v := vector(c, "v", n)
		V := h.MSM(params.G, v)
		Δ, xs, u := bp.IterativeReduce(params, v, V)
		wrong, V2 := h.Add(u, h.NonZero(c, "e")), shifted(c, V)
		watch(params, &v, V, V2, &Δ, &xs, u, wrong)
		verify := func(V *math.G1, Δ [][3]*math.G1, u *math.Zr) error {
			_, _, err := bp.IterativeVerify(params, V, Δ, u)
			return err
		}
		b.add(true, func() error { return verify(V, Δ, u) }, "right")
		b.add(false, func() error { return verify(V, Δ, wrong) }, "wrong value")
		b.add(false, func() error { return verify(V2, Δ, u) }, "wrong commitment")
		b.add(true, func() error {
			Δ, _, u := bp.IterativeReduce(params, v, V)
			return verify(V, Δ, u)
		}, "reduced again")
	case "sum", "aggregated sum":
		n := sizes(2, 4, 8)
		params := sumPP(n)
		k := 1
		if kind == "aggregated sum" {
			k = h.Int(c, "k", 1, 3)
		}
		vs, rs, Vs, bad := make([]common.Vec, k), make(common.Vec, k), make(common.G1v, k), common.G1v(nil)
		for i := range vs {
			vs[i], rs[i] = summing(c, "v", n, zero), h.Scalar(c, "r")
			Vs[i] = sumCommit(params, vs[i], rs[i])
		}
		bad = h.CopyG1v(Vs)
		at := h.Int(c, "at", 0, k-1)
		bad[at] = shifted(c, bad[at])
		if kind == "sum" {
			arg, proof := sum.NewArgument(params, Vs[0], vs[0], rs[0])
			wrong := &sum.Argument{V: bad[0]}
			watch(params, &vs, &rs, &Vs, arg, proof, wrong)
			b.add(true, func() error { return proof.Verify(params, arg) }, "right")
			b.add(false, func() error { return proof.Verify(params, wrong) }, "wrong commitment")
			b.add(true, func() error {
				a := sum.NewCommitment(params, vs[0], rs[0])
				_, p := sum.NewArgument(params, a.V, vs[0], rs[0])
				return p.Verify(params, arg)
			}, "argued again")
			break
		}
		proof := sum.NewAggregatedArgument(params, Vs, vs, rs)
		watch(params, &vs, &rs, &Vs, &bad, proof)
		b.add(true, func() error { return proof.VerifyAggregated(params, Vs) }, "right")
		b.add(false, func() error { return proof.VerifyAggregated(params, bad) }, "wrong commitment")
		b.add(true, func() error {
			return sum.NewAggregatedArgument(params, Vs, vs, rs).VerifyAggregated(params, Vs)
		}, "argued again")
	case "aggregation":
		a := aggregate(c, sizes(2, 4, 5), h.Int(c, "k", 1, 4))
		bad := h.CopyG1v(a.Cs)
		at := h.Int(c, "at", 0, len(bad)-1)
		bad[at] = shifted(c, bad[at])
		wrong := h.Add(a.Σ, h.NonZero(c, "e"))
		watch(a.params, &a.ms, &a.Cs, &a.πs, &a.idx, a.π, a.Σ, &bad, wrong)
		b.add(true, func() error { return pp.VerifyAggregation(a.params, a.idx, a.Cs, a.π, a.Σ, pp.RO) }, "right")
		b.add(false, func() error { return pp.VerifyAggregation(a.params, a.idx, a.Cs, a.π, wrong, pp.RO) }, "wrong sum")
		b.add(false, func() error { return pp.VerifyAggregation(a.params, a.idx, bad, a.π, a.Σ, pp.RO) }, "wrong commitment")
		b.add(true, func() error {
			π := pp.Aggregate(a.params, a.Cs, a.πs, pp.RO)
			return pp.VerifyAggregation(a.params, a.idx, a.Cs, π, a.Σ, pp.RO)
		}, "aggregated again")
	case "equality":
		n := sizes(3, 5)
		params := poePP(n, 2, 0)
		p := equalPair(c, params, n)
		e, bad := singleEquality(params, p), singleEquality(params, p)
		bad.V = shifted(c, p.V)
		proof := e.Prove(p.v, p.w)
		wrong := h.Copy(proof)
		wrong.C = h.Add(wrong.C, h.NonZero(c, "e"))
		watch(params, p, e, bad, proof, wrong)
		b.add(true, func() error { return e.Verify(proof) }, "right")
		b.add(false, func() error { return bad.Verify(proof) }, "wrong commitment")
		b.add(false, func() error { return e.Verify(wrong) }, "altered")
		b.add(true, func() error { return e.Verify(e.Prove(p.v, p.w)) }, "proved again")
	case "batch":
		n, m := sizes(3, 5), h.Pick(c, "m", 2, 2, 4)
		params := poePP(n, m, 0)
		ps := drawBatch(c, params, n, m)
		vs, ws := openings(ps)
		e, bad := batch(params, ps), batch(params, ps)
		bad.V = h.CopyG1v(bad.V)
		at := h.Int(c, "at", 0, m-1)
		bad.V[at] = shifted(c, bad.V[at])
		proof := e.Prove(vs, ws)
		wrong := h.Copy(proof)
		shiftElements(c, wrong, 1)
		watch(params, &vs, &ws, e, bad, proof, wrong)
		b.add(true, func() error { return e.Verify(proof) }, "right")
		b.add(false, func() error { return bad.Verify(proof) }, "wrong commitment")
		b.add(false, func() error { return e.Verify(wrong) }, "altered")
		b.add(true, func() error { return e.Verify(e.Prove(vs, ws)) }, "proved again")
	case "range":
		n := sizes(2, 4)
		params := rangePP(n)
		v, r := inRange(c, n), h.Scalar(c, "r")
		V := rangeCommit(params, v, r)
		V2 := shifted(c, V)
		proof := bp.ProveRange(params, V, v, r)
		watch(params, &v, r, V, V2, proof)
		b.add(true, func() error { return bp.VerifyRange(params, proof, V) }, "right")
		b.add(false, func() error { return bp.VerifyRange(params, proof, V2) }, "wrong commitment")
		b.add(true, func() error { return bp.VerifyRange(params, bp.ProveRange(params, V, v, r), V) }, "proved again")
	default:
		panic(kind)
	}
	return b
}

// addSet adds the claims about an unchanging liability set.
func (b *bundle) addSet(c *h.C, w *world, proofs bool) {
	V, W := w.Root()
	total := w.Total()
	tot := w.ProveTot()
	low := tot
	low.Sum++
	V2 := shifted(c, V)
	b.watched = append(b.watched, w.PP, V, W, V2, &tot, &low, &w.Store)
	if tree := h.Field(w.LiabilitySet, "tree"); tree.IsValid() {
		b.watched = append(b.watched, tree.Interface())
	}
	fail := func(format string, args ...interface{}) error { return fmt.Errorf(format, args...) }
	b.add(true, func() error { return tot.Verify(w.PP, V) }, "right total")
	b.add(false, func() error { return low.Verify(w.PP, V) }, "wrong total")
	b.add(false, func() error { return tot.Verify(w.PP, V2) }, "total for another root")
	b.add(true, func() error {
		p := w.ProveTot()
		if int64(p.Sum) != total {
			return fail("total %d instead of %d", p.Sum, total)
		}
		return p.Verify(w.PP, V)
	}, "total again")
	b.add(true, func() error {
		V1, W1 := w.Root()
		if !V1.Equals(V) || !W1.Equals(W) {
			return fail("another root")
		}
		return nil
	}, "root")
	ids := append([]string{}, w.Order...)
	b.add(true, func() error {
		for _, id := range ids {
			if x, ok := w.Get(id); !ok || x != w.Model[id] {
				return fail("%s has %d %v", id, x, ok)
			}
		}
		return nil
	}, "lookup")
	if !proofs {
		return
	}
	verify := func(p pol.LiabilityProof, id string, V *math.G1) error {
		return h.VerifyLiability(p, w.PP, id, V, W, w.ID2Path)
	}
	id := w.known(c)
	base := prove(c, w, id)
	wrong, other := h.Copy(base.proof), h.Copy(base.proof)
	wrong.LiabilityProof.Sum++
	// Two range proofs which fail each in its own way
	shiftElements(c, other.RangeProofs[0], 1)
	shiftElements(c, other.RangeProofs[len(other.RangeProofs)-1], 2)
	path := append([]uint16{}, w.ID2Path(id)...)
	at := h.Int(c, "level", 0, len(path)-1)
	path[at] = uint16((int(path[at]) + 1) % w.f)
	strange := h.PathID(path)
	b.watched = append(b.watched, &base.proof, &wrong, &other)
	b.add(true, func() error { return verify(base.proof, id, V) }, "right liability")
	b.add(false, func() error { return verify(wrong, id, V) }, "wrong liability")
	b.add(false, func() error { return verify(base.proof, strange, V) }, "another identifier")
	b.add(false, func() error { return verify(base.proof, id, V2) }, "another root")
	b.add(false, func() error { return verify(other, id, V) }, "altered range proofs")
	for k, id := range ids {
		if k > 1 {
			break
		}
		id := id
		b.add(true, func() error {
			x, p, _, ok := w.ProveLiability(id)
			if !ok || x != w.Model[id] || int64(p.LiabilityProof.Sum) != x {
				return fail("proof of %d %v for %s", x, ok, id)
			}
			return verify(p, id, V)
		}, "liability of %s again", id)
	}
}

// identities checks the shared constants of the code under test.
func identities(c *h.C, when string) {
	z := h.ZrInt(0)
	gs := common.G1v{h.Curve.GenG1, h.Curve.GenG1}
	for _, g := range append(gs.MulV(common.Vec{z, z}), gs.Mul(z)...) {
		if !g.IsInfinity() {
			c.Fatalf("%s, a generator to the power of zero is not the identity", when)
		}
	}
	if !bytes.Equal(h.Curve.GenG1.Bytes(), genBytes) || common.GroupOrder.String() != orderText {
		c.Fatalf("%s, the generator or the group order is another", when)
	}
}

var genBytes, orderText = h.Curve.GenG1.Bytes(), h.Curve.GroupOrder.String()

// interfere runs the claims of the bundles alone, interleaved and concurrently.
func interfere(c *h.C, bs []*bundle, rounds, workers, steps int) {
	var all []claim
	var watched []interface{}
	for _, b := range bs {
		all = append(all, b.claims...)
		watched = append(watched, b.watched...)
	}
	var prints []string
	for _, x := range watched {
		prints = append(prints, h.Fingerprint(x))
	}
	unchanged := func(when string) {
		for i, x := range watched {
			if h.Fingerprint(x) != prints[i] {
				c.Fatalf("%s, an input of a verification or a proof (number %d, %T) was modified", when, i, x)
			}
		}
	}
	for i := 0; i < rounds; i++ {
		cl := all[h.Int(c, "claim", 0, len(all)-1)]
		if wrong := cl.outcome(); wrong != "" {
			c.Fatalf("interleaved: %s", wrong)
		}
		unchanged("after " + cl.what)
		c.Class("%s", cl.what)
	}
	plans := make([][]claim, workers)
	for i := range plans {
		for k := 0; k < steps; k++ {
			plans[i] = append(plans[i], all[h.Int(c, "planned", 0, len(all)-1)])
		}
	}
	concurrent(c, plans)
	unchanged("after concurrent verification")
	identities(c, "after concurrent verification")
	what := ""
	for _, b := range bs {
		what += " " + b.kind
	}
	c.Eval(true, "%d bundles%s, %d interleaved and %d concurrent claims", len(bs), what, rounds, workers*steps)
}

// concurrent runs each plan in a goroutine.
func concurrent(c *h.C, plans [][]claim) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var wrongs []string
	start := make(chan struct{})
	for _, plan := range plans {
		plan := plan
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, cl := range plan {
				if wrong := cl.outcome(); wrong != "" {
					mu.Lock()
					wrongs = append(wrongs, wrong)
					mu.Unlock()
				}
			}
		}()
	}
	within(c, patience, "concurrent verification", func() {
		close(start)
		wg.Wait()
	})
	sort.Strings(wrongs)
	for _, wrong := range wrongs {
		c.Fatalf("concurrent: %s", wrong)
	}
}

func drawBundles(c *h.C, k, largest int) []*bundle {
	var bs []*bundle
	for i := 0; i < k; i++ {
		h.NextSetup(c)
		bs = append(bs, makeBundle(c, h.Pick(c, "kind", bundleKinds...), largest))
	}
	return bs
}

func TestC25(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "arguments", N: h.N{Quick: 96, Thorough: 12000},
		Rule: "one to three openings, aggregations, inner product, reduction, sum, range, single and batched equality proofs or totals of sets, over shared parameters; right and wrong statements about the same objects, and further proofs of the same witness, are drawn in any order, first one after another and then concurrently in four goroutines; parameters, witnesses, statements and proofs are compared with what they were; every case is non-trivial",
		Check: func(c *h.C) {
			bs := drawBundles(c, h.Int(c, "bundles", 1, 3), h.Pick(c, "largest", 3, 3, 3, 9))
			interfere(c, bs, h.Int(c, "rounds", 2, 8), 4, h.Int(c, "steps", 2, 4))
		},
	}, h.Prop{
		Name: "liability", N: h.N{Quick: 8, Thorough: 800},
		Rule: "as arguments, over the liability and total proofs, roots and lookups of one unchanging set of depth 2 to 3, in sequential and in parallel mode; concurrent proofs are verified; the store and the tree are compared, too",
		Check: func(c *h.C) {
			w := shortWorld(3, h.Pick(c, "depth", 2, 2, 3))
			for i := h.Int(c, "puts", 1, 4); i > 0; i-- {
				w.assign(c)
			}
			b := &bundle{kind: "set"}
			b.addSet(c, w, true)
			mode := h.Bool(c, "parallel")
			c.Class("parallel=%v", mode)
			parallel(mode, func() {
				interfere(c, []*bundle{b}, h.Int(c, "rounds", 2, 8), 4, h.Int(c, "steps", 1, 3))
			})
		},
	}, h.Prop{
		Name: "repeated", N: h.N{Quick: 8, Thorough: 400},
		Rule: "every claim about one object of every kind is evaluated in a drawn order, each right after each other one; every case is non-trivial",
		Check: func(c *h.C) {
			for _, kind := range bundleKinds {
				b := makeBundle(c, kind, 5)
				print := h.Fingerprint(b.watched...)
				for i := range b.claims {
					for k := range b.claims {
						for _, cl := range []claim{b.claims[(i+k)%len(b.claims)], b.claims[k]} {
							if wrong := cl.outcome(); wrong != "" {
								c.Fatalf("after others: %s", wrong)
							}
						}
					}
					if kind == "range" && i > 0 {
						break
					}
				}
				if h.Fingerprint(b.watched...) != print {
					c.Fatalf("%s modified its inputs", kind)
				}
				c.Eval(true, "%s", kind)
			}
			identities(c, "after verification")
		},
	})
}

// collide runs the claims of a bundle in two goroutines, in opposite orders that start
// at drawn places.
func collide(c *h.C, b *bundle) {
	plans := make([][]claim, 2)
	n := len(b.claims)
	from := h.Int(c, "from", 0, n-1)
	for k := 0; k < n; k++ {
		plans[0] = append(plans[0], b.claims[k])
		plans[1] = append(plans[1], b.claims[(from+n-k)%n])
	}
	prints := h.Fingerprint(b.watched...)
	concurrent(c, plans)
	if h.Fingerprint(b.watched...) != prints {
		c.Fatalf("concurrent verification of %s modified its inputs", b.kind)
	}
	c.Eval(true, "%s, all claims twice", b.kind)
}

// TestC25Race is run under the race detector.
func TestC25Race(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "race arguments", N: h.N{Quick: 4, Thorough: 200},
		Rule: "all claims about one object of every kind of arguments, with small vectors, run in two goroutines in opposite orders under the race detector; every case is non-trivial",
		Check: func(c *h.C) {
			for _, kind := range bundleKinds {
				collide(c, makeBundle(c, kind, 3))
			}
		},
	}, h.Prop{
		Name: "race liability", N: h.N{Quick: 4, Thorough: 200},
		Rule: "as race arguments, for the claims about a set of depth 2 in parallel mode",
		Check: func(c *h.C) {
			w := shortWorld(3, 2)
			for i := h.Int(c, "puts", 1, 3); i > 0; i-- {
				w.assign(c)
			}
			b := &bundle{kind: "set"}
			b.addSet(c, w, true)
			parallel(true, func() { collide(c, b) })
		},
	}, h.Prop{
		Name: "race first use", N: h.N{Quick: 2, Thorough: 60},
		Rule: "as race arguments, over range proof parameters and over whole public parameters with a set, which nothing has used before; every case is non-trivial",
		Check: func(c *h.C) {
			n := h.Pick(c, "n", 2, 2, 4)
			made, params := rangePP(n), bp.NewRangeProofPublicParams(n)
			params.Gs, params.F = made.Gs, made.F
			v, r := inRange(c, n), h.Scalar(c, "r")
			V := rangeCommit(made, v, r)
			V2 := shifted(c, V)
			proof := bp.ProveRange(made, V, v, r)
			b := &bundle{kind: "range"}
			b.watched = append(b.watched, &v, r, V, V2, proof)
			b.add(true, func() error { return bp.VerifyRange(params, proof, V) }, "right")
			b.add(true, func() error { return bp.VerifyRange(params, bp.ProveRange(params, V, v, r), V) }, "proved")
			b.add(false, func() error { return bp.VerifyRange(params, proof, V2) }, "wrong commitment")
			collide(c, b)

			w := &world{f: 3, depth: 2, kind: "custom"}
			w.Set = h.NewSet(h.FreshPP(w.f, w.depth), h.Path)
			for i := h.Int(c, "puts", 1, 2); i > 0; i-- {
				w.assign(c)
			}
			total, id := w.Total(), w.known(c)
			R, W := w.Root()
			b = &bundle{kind: "set"}
			b.add(true, func() error { return w.ProveTot().Verify(w.PP, R) }, "total %d", total)
			for k := 0; k < 2; k++ {
				b.add(true, func() error {
					x, p, _, ok := w.ProveLiability(id)
					if !ok || x != w.Model[id] {
						return fmt.Errorf("proof of %d %v", x, ok)
					}
					return h.VerifyLiability(p, w.PP, id, R, W, w.ID2Path)
				}, "liability %d", k)
			}
			collide(c, b)
		},
	})
}

// shiftElements alters n of the group elements of a proof.
func shiftElements(c *h.C, proof interface{}, n int) {
	var gs []h.Leaf
	for _, l := range h.Elements(proof) {
		if l.Kind == "G1" {
			gs = append(gs, l)
		}
	}
	first := h.Int(c, "altered", 0, len(gs)-n)
	for _, l := range gs[first : first+n] {
		l.V.Set(reflect.ValueOf(shifted(c, l.V.Interface().(*math.G1))))
	}
}
