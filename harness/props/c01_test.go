package props

import (
	"testing"

	"pol/pol"
	"pol/verkle"

	"verif/harness/h"
)

// proveOne proves and verifies a recorded identifier's liability.
func proveOne(c *h.C, w *world, id string) pol.LiabilityProof {
	V, W := w.Root()
	x, proof, _, ok := w.ProveLiability(id)
	if !ok {
		c.Fatalf("no proof for %s, which has the liability %d", id, w.Model[id])
	}
	if x != w.Model[id] || int64(proof.LiabilityProof.Sum) != x {
		c.Fatalf("proof of %d (stating %d) for %s, which has the liability %d", x, proof.LiabilityProof.Sum, id, w.Model[id])
	}
	if err := h.VerifyLiability(proof, w.PP, id, V, W, w.ID2Path); err != nil {
		c.Fatalf("honest proof of %d for %s refused: %v", x, id, err)
	}
	return proof
}

func parallel(on bool, f func()) {
	defer func(old bool) { pol.ParallelismEnabled = old }(pol.ParallelismEnabled)
	pol.ParallelismEnabled = on
	f()
}

func TestC01(t *testing.T) {
	real := func(c *h.C, f int, n int) {
		params, mapping := h.PP(f)
		w := &world{f: f, kind: "dense"}
		w.Set = h.NewSet(params, mapping)
		for i := 0; i < n; i++ {
			w.assign(c)
			if h.Bool(c, "read") {
				w.Root()
			}
		}
		id := w.known(c)
		parallel(h.Bool(c, "parallel"), func() { proveOne(c, w, id) })
		c.Desc("prove %s", id)
		c.Class("fan-out %d", f)
		c.Eval(w.Model[id] != 0 && len(w.Order) > 1, "")
	}
	h.Run(t, h.Prop{
		Name: "short", N: h.N{Quick: 72, Thorough: 4000},
		Rule: "histories of 1 to 10 assignments (siblings, overwriting by other, equal and zero values, totals up to 2^63-1), with root reads, lookups and total proofs between, over caller's mappings of depth 2 to 5 and fan-outs 3 and 7, sequential and parallel; a drawn identifier, often the last assigned or one next to it, is proved and verified at the end; non-trivial if its liability is not zero and it is not the only one",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 3, 3, 3, 7)
			depth := h.Pick(c, "depth", 2, 2, 3, 3, 4)
			if f == 7 {
				depth = 2
			} else if h.Int(c, "deep", 0, 15) == 0 {
				depth = 5
			}
			w := shortWorld(f, depth)
			last := ""
			for i := h.Int(c, "n", 1, 10); i > 0; i-- {
				last = w.assign(c)
				switch h.Int(c, "between", 0, 5) {
				case 0:
					w.Root()
				case 1:
					w.ProveTot()
				case 2:
					w.Get(w.known(c))
				}
			}
			id := last
			if h.Bool(c, "any") {
				id = w.known(c)
			}
			par := h.Bool(c, "parallel")
			parallel(par, func() { proveOne(c, w, id) })
			c.Desc("prove %s", id)
			c.Class("depth %d fan-out %d", depth, f)
			c.Class("parallel %v", par)
			if w.Total() == maxAmount {
				c.Class("largest total")
			}
			c.Eval(w.Model[id] != 0 && len(w.Order) > 1, "parallel %v", par)
		},
	}, h.Prop{
		Name: "guided", N: h.N{Quick: 900, Thorough: 40000},
		Rule: "histories of 1 to 24 assignments as in short, also of depth 5; a proof is made and verified only where a stored vertex does not open to the assigned values, or the total proof fails; non-trivial with at least two identifiers",
		Check: func(c *h.C) {
			w := shortWorld(h.Pick(c, "f", 3, 3, 7), h.Int(c, "depth", 2, 5))
			for i := h.Int(c, "n", 1, 24); i > 0; i-- {
				id := w.assign(c)
				if h.Int(c, "read", 0, 5) == 0 {
					w.Root()
				}
				if h.Int(c, "look", 0, 3) > 0 && i > 1 {
					continue
				}
				wrong := suspicious(func(f failer) {
					if tree := h.Field(w.LiabilitySet, "tree"); tree.IsValid() {
						if t, ok := tree.Interface().(*verkle.Tree); ok && t.Tree != nil {
							audit(f, t.Tree, w.PP.PPPP, w.Store.Get, newModel(w.Model, h.Path))
						}
					}
					V, _ := w.Root()
					if tot := w.ProveTot(); tot.Verify(w.PP, V) != nil {
						f.Fatalf("total")
					}
				})
				if wrong {
					c.Class("suspicious")
					proveOne(c, w, id)
					for k := 0; k < 3; k++ {
						proveOne(c, w, w.known(c))
					}
				}
			}
			c.Eval(len(w.Order) > 1, "")
		},
	}, h.Prop{
		Name: "long", N: h.N{Quick: 8, Thorough: 300},
		Rule: "histories of 100 to 400 assignments of depth 2 to 5, with root reads, lookups and total proofs between, after which identifiers assigned first, last and any are proved and verified; every case is non-trivial",
		Check: func(c *h.C) {
			w := shortWorld(3, h.Pick(c, "depth", 2, 3, 3, 4))
			for i := h.Int(c, "n", 100, 400); i > 0; i-- {
				if len(w.Order) > 0 && word()%3 == 0 {
					w.Put(w.Order[word()%uint64(len(w.Order))], drawnAmount(maxAmount/1000))
				} else {
					w.Put(h.PathID(anyPath(w.f, w.depth)), drawnAmount(maxAmount/1000))
				}
				switch word() % 32 {
				case 0:
					w.Root()
				case 1:
					w.ProveTot()
				case 2:
					w.Get(w.Order[0])
				}
			}
			for _, id := range []string{w.Order[0], w.Order[len(w.Order)-1], w.known(c)} {
				proveOne(c, w, id)
				c.Eval(true, "%d identifiers, proof of %s", len(w.Order), id)
			}
		},
	}, h.Prop{
		Name: "between", N: h.N{Quick: 16, Thorough: 1000},
		Rule: "proofs are made and verified between the assignments of a history over depth 2; every proof is non-trivial",
		Check: func(c *h.C) {
			w := shortWorld(3, 2)
			for i := h.Int(c, "n", 2, 3); i > 0; i-- {
				w.assign(c)
				id := w.known(c)
				proveOne(c, w, id)
				c.Eval(true, "proof of %s", id)
			}
		},
	}, h.Prop{
		Name: "wide", N: h.N{Quick: 8, Thorough: 160},
		Rule: "as short over depth 2 and fan-outs 15 and 31 (63 to 511 in thorough), with at least one child in the upper half of the root's",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 15, 15, 31)
			if h.Thorough {
				f = h.Pick(c, "f", 15, 31, 63, 63, 127, 255)
				if h.Int(c, "very wide", 0, 15) == 15 {
					f = 511
				}
			}
			w := shortWorld(f, 2)
			for i := h.Int(c, "n", 0, 4); i > 0; i-- {
				w.assign(c)
			}
			id := h.PathID([]uint16{uint16(f - 1 - h.Int(c, "from the last", 0, f/2-1)), h.Index(c, "leaf", f)})
			w.put(c, id, h.Amount(c, "liability", w.Room(id)))
			parallel(h.Bool(c, "parallel"), func() { proveOne(c, w, id) })
			c.Class("fan-out %d", f)
			c.Eval(w.Model[id] != 0 && len(w.Order) > 1, "prove %s", id)
		},
	}, h.Prop{
		Name: "dense", N: h.N{Quick: 8, Thorough: 400},
		Rule: "one to four dense identifiers over the generated parameters of fan-out 3 (19 levels; also 7, 15 and 31 in thorough), one of which is proved and verified; non-trivial if its liability is not zero and it is not the only one",
		Check: func(c *h.C) {
			f := 3
			if h.Thorough {
				f = h.Pick(c, "f", 3, 3, 7, 15, 31)
			}
			real(c, f, h.Int(c, "n", 1, 4))
		},
	}, h.Prop{
		Name: "sparse", N: h.N{Quick: 1, Thorough: 8}, Single: true,
		Rule: "sparse identifiers over the generated parameters of fan-out 3 (162 levels), one of which is proved and verified in parallel",
		Check: func(c *h.C) {
			params, mapping := sparsePP(3)
			w := &world{f: 3, kind: "sparse"}
			w.Set = h.NewSet(params, mapping)
			for i := h.Int(c, "n", 2, 3); i > 0; i-- {
				id := w.id(c)
				if _, ok := w.Model[id]; !ok && w.sparseAlias(id) {
					continue
				}
				w.put(c, id, h.Amount(c, "liability", w.Room(id)))
			}
			id := w.known(c)
			parallel(true, func() { proveOne(c, w, id) })
			c.Eval(true, "prove %s", id)
		},
	})
}

var sparseCache = map[int]*pol.PublicParams{}
var sparseMappings = map[int]func(string) []uint16{}

func sparsePP(f int) (*pol.PublicParams, func(string) []uint16) {
	if sparseCache[f] == nil {
		sparseMappings[f], sparseCache[f] = pol.GeneratePublicParams(uint16(f), pol.Sparse)
	}
	return sparseCache[f], sparseMappings[f]
}
