package props

import (
	"bytes"
	"fmt"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/verkle"

	"verif/harness/h"
)

// cheapPP are public parameters that suffice for everything but liability proofs.
var cheapParams = map[setupKey]*pol.PublicParams{}

func cheapPP(f int) *pol.PublicParams {
	key := keyOf(f)
	if cheapParams[key] == nil {
		params := h.VC(f+2, 0)
		cheapParams[key] = &pol.PublicParams{Fanout: f, PPPP: params, SAPP: sumPP(2), RPPP: &bp.RangeProofPublicParams{}, POEPP: poePP(3, 2, 0)}
	}
	return cheapParams[key]
}

// world is a set under test with a generator of identifiers.
type world struct {
	*h.Set
	f, depth int
	kind     string
	ids      []string
	paths    [][]uint16
}

var mappings = map[string]func(string) []uint16{}

// newWorld draws a mapping and fan-out. Worlds without proofs may be of any kind.
func newWorld(c *h.C) *world {
	w := &world{f: h.Pick(c, "f", 3, 3, 7), kind: "custom"}
	switch h.Int(c, "kind", 0, 9) {
	case 0, 1:
		w.kind = "dense"
		w.f = h.Pick(c, "dense f", 3, 7, 15, 31)
	case 2:
		w.kind = "sparse"
		w.f = h.Pick(c, "sparse f", 7, 15, 31)
	case 3:
		w.f = h.Pick(c, "wide f", 15, 63, 255, 511)
		if h.Int(c, "very wide", 0, 9) == 9 {
			w.f = 1023
		}
	}
	w.depth = h.Int(c, "depth", 2, 5)
	id2Path := h.Path
	if w.kind != "custom" {
		key := fmt.Sprintf("%s%d", w.kind, w.f)
		if mappings[key] == nil {
			mappings[key] = sparse.DigitPath(uint16(w.f))
			if w.kind == "sparse" {
				mappings[key] = sparse.HexId2PathForFanOut(uint16(w.f))
			}
		}
		id2Path = mappings[key]
	}
	w.Set = h.NewSet(cheapPP(w.f), id2Path)
	c.Class("%s %d", w.kind, w.f)
	return w
}

// shortWorld makes a set with parameters for proofs over a caller's mapping.
func shortWorld(f, depth int) *world {
	w := &world{f: f, depth: depth, kind: "custom"}
	w.Set = h.NewSet(h.ShortPP(f, depth), h.Path)
	return w
}

// id draws an identifier: a known one, one close to it or any.
func (w *world) id(c *h.C) string {
	if w.kind == "custom" {
		return h.PathID(nextPath(c, w.f, w.depth, w.paths))
	}
	return nextID(c, w.kind == "dense", w.f, w.ids)
}

// known draws an identifier that was assigned.
func (w *world) known(c *h.C) string {
	return w.Order[h.Int(c, "assigned", 0, len(w.Order)-1)]
}

// assign puts a drawn liability.
func (w *world) assign(c *h.C) string {
	id := w.id(c)
	x := h.Amount(c, "liability", w.Room(id))
	if old, ok := w.Model[id]; ok && h.Int(c, "same", 0, 7) == 0 {
		x = old
	}
	w.put(c, id, x)
	return id
}

func (w *world) put(c *h.C, id string, x int64) {
	w.Put(id, x)
	w.ids = append(w.ids, id)
	if w.kind == "custom" {
		w.paths = append(w.paths, h.Path(id))
	}
	c.Desc("%s=%d", id, x)
}

// nonZero is the part of the model that commitments depend on.
func (w *world) nonZero() map[string]int64 {
	res := map[string]int64{}
	for id, x := range w.Model {
		if x != 0 {
			res[id] = x
		}
	}
	return res
}

func sameModel(a, b map[string]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if x, ok := b[k]; !ok || x != v {
			return false
		}
	}
	return true
}

// absentID draws an identifier that was not assigned, if it finds one.
func (w *world) absentID(c *h.C) string {
	for i := 0; i < 4; i++ {
		id := ""
		if w.kind == "custom" {
			id = h.PathID(h.TreePath(c, "absent", w.f, w.depth, w.paths))
		} else {
			id = nextID(c, w.kind == "dense", w.f, w.ids)
		}
		if _, ok := w.Model[id]; !ok {
			if w.kind == "sparse" && w.sparseAlias(id) {
				continue
			}
			return id
		}
	}
	return ""
}

// sparseAlias tells if the identifier's number is one already assigned.
func (w *world) sparseAlias(id string) bool {
	path := w.ID2Path(id)
	for _, k := range w.ids {
		if samePath(w.ID2Path(k), path) {
			return true
		}
	}
	return false
}

func TestC02(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "history", N: h.N{Quick: 1400, Thorough: 40000},
		Rule: "histories of 1 to 12 assignments (all mappings, zero, boundary and total up to 2^63-1), with root reads and lookups between; the total is proved at drawn points and at the end; non-trivial when the total is not zero",
		Check: func(c *h.C) {
			w := newWorld(c)
			n := h.Int(c, "n", 1, 12)
			if w.kind == "sparse" && n > 4 {
				n = 4
			}
			for i := 0; i < n; i++ {
				if w.kind == "sparse" {
					id := w.id(c)
					if _, ok := w.Model[id]; !ok && w.sparseAlias(id) {
						continue
					}
					w.put(c, id, h.Amount(c, "liability", w.Room(id)))
				} else {
					w.assign(c)
				}
				if h.Int(c, "read", 0, 2) == 0 {
					w.Root()
					w.Get(w.known(c))
				}
				if i < n-1 && h.Int(c, "prove", 0, 1) == 0 {
					continue
				}
				V, _ := w.Root()
				tot := w.ProveTot()
				if int64(tot.Sum) != w.Total() {
					c.Fatalf("total proved as %d instead of %d", tot.Sum, w.Total())
				}
				print := h.Fingerprint(&tot)
				if err := tot.Verify(w.PP, V); err != nil {
					c.Fatalf("total proof of %d refused: %v", tot.Sum, err)
				}
				if h.Fingerprint(&tot) != print {
					c.Fatalf("verifying changed the proof")
				}
				c.Eval(tot.Sum != 0, "total %d", tot.Sum)
			}
			if n > 0 && len(w.Order) == 0 {
				return
			}
		},
	}, h.Prop{
		Name: "generated parameters", N: h.N{Quick: 40, Thorough: 1000},
		Rule: "as history with parameters made by the generator for dense identifiers over fan-outs 3 and 7",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 3, 7)
			params, mapping := h.PP(f)
			w := &world{f: f, kind: "dense"}
			w.Set = h.NewSet(params, mapping)
			for i := h.Int(c, "n", 1, 6); i > 0; i-- {
				w.assign(c)
				V, _ := w.Root()
				tot := w.ProveTot()
				if err := tot.Verify(params, V); err != nil || int64(tot.Sum) != w.Total() {
					c.Fatalf("total proof of %d for %d: %v", tot.Sum, w.Total(), err)
				}
				c.Eval(tot.Sum != 0, "total %d", tot.Sum)
			}
		},
	})
}

func TestC03(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "map", N: h.N{Quick: 1200, Thorough: 60000},
		Rule: "histories of 1 to 30 assignments (negative ones included), lookups of assigned, neighbouring and absent identifiers, root reads and total proofs over all mappings; results are compared with a map, and refused assignments must leave the root, the store and every lookup as they were; non-trivial with at least two identifiers",
		Check: func(c *h.C) {
			w := newWorld(c)
			n := h.Int(c, "n", 1, 30)
			if w.kind == "sparse" && n > 6 {
				n = 6
			}
			look := func(id string) {
				got, ok := w.Get(id)
				want, exists := w.Model[id]
				if ok != exists || got != want {
					c.Fatalf("lookup of %s yields %d, %v instead of %d, %v", id, got, ok, want, exists)
				}
			}
			if id := w.id(c); true {
				if got, ok := w.Get(id); ok || got != 0 {
					c.Fatalf("an empty set has %s", id)
				}
				if V, W := w.Root(); V != nil || W != nil {
					c.Fatalf("an empty set has a root")
				}
			}
			for i := 0; i < n; i++ {
				switch h.Int(c, "op", 0, 7) {
				case 0, 1, 2, 3:
					id := w.id(c)
					if _, ok := w.Model[id]; !ok && w.kind == "sparse" && w.sparseAlias(id) {
						continue
					}
					w.put(c, id, h.Amount(c, "liability", w.Room(id)))
				case 4:
					id := w.id(c)
					if _, ok := w.Model[id]; !ok && w.kind == "sparse" && w.sparseAlias(id) {
						continue
					}
					x := -1 - h.Amount(c, "negative", maxAmount)
					before := snapshot(w.Store)
					if panicked, _, _ := h.Panics(func() { w.LiabilitySet.Set(id, x) }); !panicked {
						c.Fatalf("the liability %d was not refused", x)
					}
					c.Desc("%s=%d refused", id, x)
					for k, b := range before {
						if !bytes.Equal(w.Store[k], b) {
							c.Fatalf("refusing %d changed the store", x)
						}
					}
					if len(before) != len(w.Store) {
						c.Fatalf("refusing %d added to the store", x)
					}
					look(id)
					c.Class("refused")
				case 5:
					if id := w.absentID(c); id != "" {
						look(id)
						c.Class("absent")
						if h.Int(c, "prove", 0, 3) == 0 {
							x, _, _, ok := w.ProveLiability(id)
							if ok || x != 0 {
								c.Fatalf("a proof was made for %s, which is absent", id)
							}
						}
					}
				case 6:
					if len(w.Order) > 0 {
						w.ProveTot()
					}
					w.Root()
				default:
					if len(w.Order) > 0 {
						look(w.known(c))
					}
				}
			}
			for _, id := range w.Order {
				look(id)
			}
			if id := w.absentID(c); id != "" {
				look(id)
			}
			c.Eval(len(w.Order) > 1, "")
		},
	}, h.Prop{
		Name: "long", N: h.N{Quick: 24, Thorough: 600},
		Rule: "histories of 100 to 500 assignments over all mappings (sparse: 30); afterwards every assigned identifier and as many others are looked up, the total is proved and the root opened to it; every case is non-trivial",
		Check: func(c *h.C) {
			w := newWorld(c)
			n := h.Int(c, "n", 100, 500)
			if w.kind == "sparse" {
				n = 30
			}
			any := func() string {
				switch w.kind {
				case "dense":
					if word()%2 == 0 {
						return fmt.Sprintf("%09d", word()%1000)
					}
					return fmt.Sprintf("%09d", word()%1000000000)
				case "sparse":
					return fmt.Sprintf("%064x", common.RandVec(1)[0].Bytes())
				}
				return h.PathID(anyPath(w.f, w.depth))
			}
			for i := 0; i < n; i++ {
				id := any()
				if w.kind == "sparse" && w.Model[id] == 0 && w.sparseAlias(id) {
					continue
				}
				w.Put(id, drawnAmount(maxAmount/1000+1))
				if word()%64 == 0 {
					w.Root()
				}
			}
			look := func(id string) {
				got, ok := w.Get(id)
				if want, exists := w.Model[id]; ok != exists || got != want {
					c.Fatalf("lookup of %s yields %d, %v instead of %d, %v", id, got, ok, want, exists)
				}
			}
			for _, id := range w.Order {
				look(id)
				if w.kind != "sparse" {
					look(any())
				}
			}
			V, _ := w.Root()
			tot := w.ProveTot()
			if err := tot.Verify(w.PP, V); err != nil || int64(tot.Sum) != w.Total() {
				c.Fatalf("total proof of %d for %d: %v", tot.Sum, w.Total(), err)
			}
			c.Eval(true, "%s f=%d, %d identifiers", w.kind, w.f, len(w.Order))
		},
	})
}

// rootOf computes the root's commitments from the model and what is stored one level below.
func rootOf(c *h.C, w *world) (V, W *math.G1) {
	raw := w.Store.Get(nil)
	if len(raw) == 0 {
		return nil, nil // other keys are used
	}
	root := &verkle.Vertex{}
	root.FromBytes(raw)
	m := newModel(w.Model, w.ID2Path)
	values, digests := make(common.Vec, w.f+2), make(common.Vec, w.f+2)
	values.Zero()
	digests.Zero()
	for i, ch := range m.children {
		values[i] = h.ZrInt(ch.sum())
		child := &verkle.Vertex{}
		raw := w.Store.Get([]byte(fmt.Sprintf(".%d", i)))
		if len(raw) == 0 {
			return nil, nil // other keys are used
		}
		child.FromBytes(raw)
		digests[i] = hashZr(child.V.Bytes(), bytesOf(child.W))
	}
	values[w.f] = h.ZrInt(m.sum())
	values[w.f+1] = root.BlindingFactor
	return h.MSM(w.PP.PPPP.G1s[:w.f+2], values), h.MSM(w.PP.PPPP.G1s[:w.f+2], digests)
}

func TestC04(t *testing.T) {
	type tot struct {
		proof pol.TotalProof
		V     *math.G1
		total int64
	}
	h.Run(t, h.Prop{
		Name: "root", N: h.N{Quick: 1000, Thorough: 30000},
		Rule: "histories of 2 to 14 assignments interleaved in any order with root reads, lookups, total proofs and refused proofs; the root must always open to the current contents and be stable, and earlier total proofs must fail for the new root and new ones for earlier roots whenever the total differs; non-trivial if the root was read before the last assignment",
		Check: func(c *h.C) {
			w := newWorld(c)
			if w.kind == "sparse" {
				w = shortWorldCheap(3, 3)
			}
			var proofs []tot
			n := h.Int(c, "n", 2, 14)
			readBefore := false
			var lastV, lastW *math.G1
			var lastModel map[string]int64
			for i := 0; i < n; i++ {
				w.assign(c)
				for k := h.Int(c, "reads", 0, 3); k > 0; k-- {
					switch h.Int(c, "read", 0, 4) {
					case 0:
						w.ProveTot()
					case 1:
						w.Get(w.known(c))
					case 2:
						if id := w.absentID(c); id != "" {
							w.ProveLiability(id)
						}
					default:
						w.Root()
						readBefore = readBefore || i < n-1
					}
				}
				if i < n-1 && h.Bool(c, "skip") {
					continue
				}
				V, W := w.Root()
				if V == nil || W == nil {
					c.Fatalf("no root")
				}
				if wantV, wantW := rootOf(c, w); wantV != nil && (!V.Equals(wantV) || !W.Equals(wantW)) {
					c.Fatalf("the root is not that of the current contents")
				}
				p := w.ProveTot()
				if err := p.Verify(w.PP, V); err != nil {
					c.Fatalf("the total does not verify against the root: %v", err)
				}
				V2, W2 := w.Root()
				if !V.Equals(V2) || !W.Equals(W2) {
					c.Fatalf("the root changed without an assignment")
				}
				if lastV != nil && !sameModel(lastModel, w.nonZero()) && V.Equals(lastV) && W.Equals(lastW) {
					c.Fatalf("the root did not change with the contents")
				}
				lastV, lastW = V, W
				lastModel = w.nonZero()
				now := tot{p, V, w.Total()}
				for _, old := range proofs {
					if old.total == now.total {
						continue
					}
					if ok, _ := h.Attempt(func() error { return old.proof.Verify(w.PP, now.V) }); ok {
						c.Fatalf("a total proof of %d verifies against the root of total %d", old.total, now.total)
					}
					if ok, _ := h.Attempt(func() error { return now.proof.Verify(w.PP, old.V) }); ok {
						c.Fatalf("a total proof of %d verifies against the former root of total %d", now.total, old.total)
					}
					c.Class("stale total")
				}
				proofs = append(proofs, now)
				c.Eval(readBefore, "step %d", i)
			}
		},
	}, h.Prop{
		Name: "long", N: h.N{Quick: 24, Thorough: 600},
		Rule: "histories of 100 to 300 assignments to some dozen identifiers; after each, the root must open to the current contents, after some total proofs of earlier contents of another total must fail; every case is non-trivial",
		Check: func(c *h.C) {
			w := shortWorldCheap(h.Pick(c, "f", 3, 3, 7), h.Int(c, "depth", 2, 4))
			var proofs []tot
			for i := h.Int(c, "n", 100, 300); i > 0; i-- {
				if len(w.Order) > 20 {
					w.Put(w.Order[word()%uint64(len(w.Order))], drawnAmount(maxAmount/1000))
				} else {
					id := h.PathID(anyPath(w.f, w.depth))
					w.Put(id, drawnAmount(maxAmount/1000))
				}
				V, W := w.Root()
				if wantV, wantW := rootOf(c, w); wantV != nil && (!V.Equals(wantV) || !W.Equals(wantW)) {
					c.Fatalf("the root is not that of the current contents")
				}
				if word()%8 > 0 {
					continue
				}
				p := w.ProveTot()
				if err := p.Verify(w.PP, V); err != nil || int64(p.Sum) != w.Total() {
					c.Fatalf("total proof of %d for %d: %v", p.Sum, w.Total(), err)
				}
				if len(proofs) > 0 {
					old := proofs[word()%uint64(len(proofs))]
					if ok, _ := h.Attempt(func() error { return old.proof.Verify(w.PP, V) }); ok && old.total != w.Total() {
						c.Fatalf("a total proof of %d verifies against the root of total %d", old.total, w.Total())
					}
				}
				proofs = append(proofs, tot{p, V, w.Total()})
			}
			c.Eval(true, "%d identifiers", len(w.Order))
		},
	}, h.Prop{
		Name: "far apart", N: h.N{Quick: 24, Thorough: 800},
		Rule: "the root, a total and a lookup are read before and after exactly 2^k assignments, k from 4 to 10 (rarely one more or less): they are those of the contents each time; every case is non-trivial",
		Check: func(c *h.C) {
			w := shortWorldCheap(3, h.Pick(c, "depth", 1, 2, 2))
			n := 1 << uint(h.Int(c, "k", 4, 10))
			if h.Int(c, "off by one", 0, 3) == 0 {
				n += h.Pick(c, "more", -1, 1)
			}
			w.assign(c)
			read := func() tot {
				V, W := w.Root()
				if wantV, wantW := rootOf(c, w); wantV != nil && (!V.Equals(wantV) || W != nil && !W.Equals(wantW)) {
					c.Fatalf("the root is not that of the current contents")
				}
				p := w.ProveTot()
				if err := p.Verify(w.PP, V); err != nil || int64(p.Sum) != w.Total() {
					c.Fatalf("total proof of %d for %d: %v", p.Sum, w.Total(), err)
				}
				for id, want := range w.Model {
					if got, ok := w.Get(id); !ok || got != want {
						c.Fatalf("lookup of %s yields %d, %v instead of %d", id, got, ok, want)
					}
				}
				return tot{p, V, w.Total()}
			}
			old := read()
			for i := 0; i < n; i++ {
				id := w.Order[word()%uint64(len(w.Order))]
				if word()%2 == 0 {
					id = h.PathID(anyPath(w.f, w.depth))
				}
				w.Put(id, drawnAmount(maxAmount/1000))
			}
			now := read()
			if ok, _ := h.Attempt(func() error { return old.proof.Verify(w.PP, now.V) }); ok && old.total != now.total {
				c.Fatalf("a total proof of %d verifies against the root of total %d", old.total, now.total)
			}
			c.Class("%d assignments", n)
			c.Eval(true, "%d assignments", n)
		},
	}, h.Prop{
		Name: "liability", N: h.N{Quick: 40, Thorough: 2500},
		Rule: "a liability proof made before an assignment that changes any liability must fail for the root after it, and a proof made after it for the earlier root; every case is non-trivial",
		Check: func(c *h.C) {
			depth := h.Int(c, "depth", 2, 3)
			w := shortWorld(3, depth)
			for i := h.Int(c, "n", 1, 4); i > 0; i-- {
				w.assign(c)
			}
			id := w.known(c)
			before := w.nonZero()
			V, W := w.Root()
			x, p, _, ok := w.ProveLiability(id)
			if !ok || x != w.Model[id] {
				c.Fatalf("proof of %d for %s instead of %d", x, id, w.Model[id])
			}
			if h.Bool(c, "check") {
				if err := h.VerifyLiability(p, w.PP, id, V, W, h.Path); err != nil {
					c.Fatalf("honest proof refused: %v", err)
				}
			}
			for i := h.Int(c, "more", 1, 2); i > 0; i-- {
				w.assign(c)
			}
			if sameModel(before, w.nonZero()) {
				return
			}
			V2, W2 := w.Root()
			if ok, _ := h.Attempt(func() error { return h.VerifyLiability(p, w.PP, id, V2, W2, h.Path) }); ok {
				c.Fatalf("the proof of a former state was accepted")
			}
			id2 := w.known(c)
			_, p2, _, _ := w.ProveLiability(id2)
			if ok, _ := h.Attempt(func() error { return h.VerifyLiability(p2, w.PP, id2, V, W, h.Path) }); ok {
				c.Fatalf("the proof of a later state was accepted")
			}
			if err := h.VerifyLiability(p2, w.PP, id2, V2, W2, h.Path); err != nil {
				c.Fatalf("honest proof refused: %v", err)
			}
			c.Eval(true, "proofs of %s and %s", id, id2)
		},
	})
}

// shortWorldCheap has no parameters for liability proofs.
func shortWorldCheap(f, depth int) *world {
	w := &world{f: f, depth: depth, kind: "custom"}
	w.Set = h.NewSet(cheapPP(f), h.Path)
	return w
}

func TestC07(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "claims", N: h.N{Quick: 900, Thorough: 40000},
		Rule: "a set after 1 to 8 assignments; its total proof must be refused with any other total (negated, off by one, reduced modulo powers of two, the sum of other sets), another opening, root or parameters, and with openings of children, the blinding factor or other vertices; every false claim is non-trivial",
		Check: func(c *h.C) {
			w := newWorld(c)
			if w.kind == "sparse" {
				w = shortWorldCheap(3, 4)
			}
			for i := h.Int(c, "n", 1, 8); i > 0; i-- {
				w.assign(c)
			}
			V, W := w.Root()
			tot := w.ProveTot()
			total := int(w.Total())
			if err := tot.Verify(w.PP, V); err != nil || tot.Sum != total {
				c.Fatalf("honest total %d refused for %d: %v", tot.Sum, total, err)
			}
			other := shortWorldCheap(w.f, w.depth)
			if w.kind == "dense" {
				other.depth = 3
			}
			for i := h.Int(c, "others", 1, 3); i > 0; i-- {
				other.assign(c)
			}
			oV, oW := other.Root()
			oTot := other.ProveTot()
			root := &verkle.Vertex{}
			if raw := w.Store.Get(nil); len(raw) > 0 {
				root.FromBytes(raw)
			} else {
				c.Class("other keys")
				return
			}
			m := append(h.CopyVec(root.Values(w.f+1)), root.BlindingFactor)
			for k := 0; k < 8; k++ {
				alt, rV := h.Copy(tot), V
				params := w.PP
				what := ""
				δ := h.NonZero(c, "δ")
				switch kind := h.Int(c, "claim", 0, 9); kind {
				case 0, 1, 2:
					leaf := h.PickLeaf(c, "leaf", h.Elements(&alt))
					donor := h.Copy(oTot)
					what = leaf.Pattern + " " + h.Tamper(c, "t", leaf, h.Walk(&donor))
				case 3:
					alt.Sum, what = h.Pick(c, "sum", -total, total+1, total-1, total>>1, total<<1, total%(1<<32), total%(1<<31), 0, 1<<62, total^(-1<<63), int(h.Amount(c, "other", maxAmount)), -1-int(h.Amount(c, "negative", maxAmount))), "sum"
				case 4:
					// An opening of another position, claimed as what it opens to
					i := h.Int(c, "i", 0, w.f+1)
					if i == w.f {
						continue
					}
					_, alt.LiabilityProof = pp.Open(w.PP.PPPP, i, m)
					if x, err := m[i].Int(); err == nil && i < w.f {
						alt.Sum = int(x)
					}
					what = "opening of another position"
				case 5:
					rV, what = oV, "root of another set"
					if h.Bool(c, "claimed") {
						alt.Sum = oTot.Sum
					}
				case 6:
					rV, what = h.Pick(c, "root", W, oW, h.AddG(V, h.Curve.GenG1.Mul(δ)), h.SubG(h.Identity(), V), h.Identity(), h.AddG(V, w.PP.PPPP.G1s[w.f+1].Mul(δ)), h.AddG(V, w.PP.PPPP.G1s[0].Mul(δ))), "altered root"
				case 7:
					// The root moved by a difference at the total's place
					d := h.Pick(c, "difference", h.ZrInt(1), h.ZrInt(-1), δ)
					rV, what = h.AddG(V, w.PP.PPPP.G1s[w.f].Mul(d)), "root with another total"
				case 8:
					alt, what = h.Copy(oTot), "proof of another set"
					if h.Bool(c, "own total") {
						alt.Sum = total
					}
				default:
					p2 := *w.PP
					p2.PPPP = h.VC(w.f+2, 1)
					params, what = &p2, "parameters"
				}
				if params == w.PP && rV == V && alt.Sum == total && alt.LiabilityProof.Equals(tot.LiabilityProof) {
					continue
				}
				if rV == oV && (V.Equals(oV) || alt.Sum == oTot.Sum && alt.LiabilityProof.Equals(oTot.LiabilityProof)) {
					continue
				}
				if ok, _ := h.Attempt(func() error { return alt.Verify(params, rV) }); ok {
					c.Fatalf("total %d accepted for %d: %s", alt.Sum, total, what)
				}
				c.Class("%s", what)
				c.Eval(true, "%s, total %d claimed %d", what, total, alt.Sum)
			}
			if err := tot.Verify(w.PP, V); err != nil {
				c.Fatalf("after false claims, the honest total is refused: %v", err)
			}
		},
	}, h.Prop{
		Name: "negative", N: h.N{Quick: 800, Thorough: 30000},
		Rule: "a prover with a root of its own which commits to a negative total, to a total beyond 2^63 or the like cannot have a negative number accepted; every case is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 3, 7)
			params := cheapPP(f)
			m := vector(c, "m", f+2)
			claim := -1 - int(h.Amount(c, "claim", maxAmount))
			m[f] = h.Pick(c, "committed", h.ZrInt(int64(claim)), h.Neg(h.ZrInt(int64(claim))))
			V := h.MSM(params.PPPP.G1s[:f+2], m)
			_, π := pp.Open(params.PPPP, f, m)
			tot := pol.TotalProof{LiabilityProof: π, Sum: claim}
			if ok, _ := h.Attempt(func() error { return tot.Verify(params, V) }); ok {
				c.Fatalf("the negative total %d was accepted", claim)
			}
			c.Eval(true, "committed %v claimed %d", m[f], claim)
		},
	})
}
