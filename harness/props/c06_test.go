package props

import (
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/verkle"

	"verif/harness/h"
)

// vert is a vertex in the hands of a malicious prover.
type vert struct {
	vals    common.Vec // of the children
	sum     *math.Zr
	blind   *math.Zr
	digests common.Vec // of the children, nil in the leaf layer
	V, W    *math.G1
}

func readVert(raw []byte, f int) *vert {
	rv := &verkle.RawVertex{}
	if _, err := asn1.Unmarshal(raw, rv); err != nil {
		return nil
	}
	v := &verkle.Vertex{}
	v.FromBytes(raw)
	values := v.Values(f + 1)
	res := &vert{vals: h.CopyVec(values[:f]), sum: values[f].Copy(), blind: v.BlindingFactor, V: v.V, W: v.W}
	if v.W != nil {
		res.digests = make(common.Vec, f)
		for i := range res.digests {
			res.digests[i] = h.ZrInt(0)
			if d := v.Digests[uint16(i)]; d != nil {
				res.digests[i] = d.Copy()
			}
		}
	}
	return res
}

func (v *vert) copy() *vert {
	n := &vert{vals: h.CopyVec(v.vals), sum: v.sum.Copy(), blind: v.blind.Copy(), V: v.V.Copy()}
	if v.W != nil {
		n.W, n.digests = v.W.Copy(), h.CopyVec(v.digests)
	}
	return n
}

// opening is what V is a commitment to.
func (v *vert) opening() common.Vec {
	return append(append(h.CopyVec(v.vals), v.sum), v.blind)
}

func (v *vert) digestVec() common.Vec { return append(h.CopyVec(v.digests), zero, zero) }

func (v *vert) commitV(params *pol.PublicParams) {
	v.V = h.MSM(params.PPPP.G1s[:len(v.vals)+2], v.opening())
}

func (v *vert) commitW(params *pol.PublicParams) {
	v.W = h.MSM(params.PPPP.G1s[:len(v.vals)+2], v.digestVec())
}

func (v *vert) bytes() []byte {
	rv := verkle.RawVertex{V: v.V.Bytes(), BlindingFactor: h.Canon(v.blind).Bytes(), Sum: h.Canon(v.sum).Bytes()}
	kv := func(i int, z *math.Zr) verkle.KV {
		k := make([]byte, 2)
		binary.BigEndian.PutUint16(k, uint16(i))
		return verkle.KV{K: k, V: h.Canon(z).Bytes()}
	}
	for i, z := range v.vals {
		if h.Big(z).Sign() != 0 {
			rv.Values = append(rv.Values, kv(i, z))
		}
	}
	if v.W != nil {
		rv.W = v.W.Bytes()
		for i, z := range v.digests {
			if h.Big(z).Sign() != 0 {
				rv.Digests = append(rv.Digests, kv(i, z))
			}
		}
	}
	b, err := asn1.Marshal(rv)
	if err != nil {
		panic(err)
	}
	return b
}

func (v *vert) vertex() *verkle.Vertex {
	x := &verkle.Vertex{}
	x.FromBytes(v.bytes())
	return x
}

func (v *vert) digest() *math.Zr { return v.vertex().Digest() }

// adversary controls the store and the code of the prover, but not the verifier.
type adversary struct {
	w     *world
	path  []uint16
	id    string
	keys  []string
	chain []*vert
	V, W  *math.G1 // the published root
	saved map[string][]byte
	rps   map[string]*bp.RangeProof
}

// seize reads the vertices of an identifier; nil if the store is not as expected.
func seize(w *world, id string) *adversary {
	a := &adversary{w: w, id: id, path: w.ID2Path(id), saved: snapshot(w.Store), rps: map[string]*bp.RangeProof{}}
	tree := h.Field(w.LiabilitySet, "tree")
	if !tree.IsValid() {
		return nil
	}
	t, ok := tree.Interface().(*verkle.Tree)
	if !ok {
		return nil
	}
	a.keys = vertexKeys(t.Tree, a.path)
	a.V, a.W = w.Root()
	for i := range a.path {
		raw := w.Store.Get([]byte(a.keys[i]))
		if len(raw) == 0 {
			return nil
		}
		v := readVert(raw, w.f)
		if v == nil || (v.W == nil) != (i == len(a.path)-1) {
			return nil
		}
		a.chain = append(a.chain, v)
	}
	return a
}

// store puts the chain into the store the honest prover reads.
func (a *adversary) store() {
	for i, v := range a.chain {
		a.w.LiabilitySet.DB.Put([]byte(a.keys[i]), v.bytes())
	}
}

// restore brings the honest vertices back.
func (a *adversary) restore() {
	for k, b := range a.saved {
		a.w.LiabilitySet.DB.Put([]byte(k), b)
	}
	for i, k := range a.keys {
		a.chain[i] = readVert(a.saved[k], a.w.f)
	}
}

// rebind makes every vertex above the level commit to what is below it, up to a new root.
func (a *adversary) rebind(level int) {
	for i := level - 1; i >= 0; i-- {
		a.chain[i].digests[a.path[i]] = a.chain[i+1].digest()
		a.chain[i].commitW(a.w.PP)
	}
}

// runHonestProver lets the honest prover prove from what is stored now. Range proofs
// it cannot make end it.
func (a *adversary) runHonestProver() (proof pol.LiabilityProof, ok bool) {
	panicked, _, _ := h.Panics(func() {
		_, proof, _, ok = a.w.ProveLiability(a.id)
	})
	return proof, ok && !panicked
}

// rangeProof proves the values of a vertex; those out of range are proved as others.
func (a *adversary) rangeProof(v *vert) *bp.RangeProof {
	key := string(v.V.Bytes())
	if a.rps[key] == nil {
		vals := append(h.CopyVec(v.vals), v.sum)
		for i := range vals {
			if h.Big(vals[i]).BitLen() > 63 {
				vals[i] = h.ZrInt(int64(h.Big(vals[i]).Uint64() >> 1))
			}
		}
		a.rps[key] = bp.ProveRange(a.w.PP.RPPP, v.V, vals, v.blind)
	}
	return a.rps[key]
}

// assemble makes a proof of the chain for the path, whatever the chain is.
func (a *adversary) assemble(chain []*vert, path []uint16) (proof pol.LiabilityProof, ok bool) {
	params := a.w.PP
	f := a.w.f
	panicked, _, _ := h.Panics(func() {
		var vertices verkle.Vertices
		var openings common.G1v
		eq := &poe.Equalities{PP: params.POEPP, RO: poe.RO}
		var vs, ws []common.Vec
		for i, v := range chain {
			at := int(path[i])
			vertices = append(vertices, v.vertex())
			proof.V = append(proof.V, v.V)
			if i < len(chain)-1 {
				d, π := pp.Open(params.PPPP, at, v.digestVec())
				proof.W = append(proof.W, v.W)
				proof.Digests = append(proof.Digests, d)
				openings = append(openings, π)
				eq.I = append(eq.I, at)
				eq.J = append(eq.J, f)
				eq.V = append(eq.V, v.V)
				eq.W = append(eq.W, chain[i+1].V)
				vs = append(vs, v.opening())
				ws = append(ws, chain[i+1].opening())
			} else {
				proof.Digests = append(proof.Digests, h.ZrInt(0))
			}
			proof.RangeProofs = append(proof.RangeProofs, a.rangeProof(v))
		}
		proof.PointProofΣ = h.ZrInt(0)
		for i := range proof.W {
			proof.PointProofΣ = h.Add(proof.PointProofΣ, h.Mul(proof.Digests[i], pp.RO(params.PPPP, proof.W, i)))
		}
		proof.PointProofπ = pp.Aggregate(params.PPPP, proof.W, openings, pp.RO)
		proof.SumArgumentProof = vertices.SumArgument(params.SAPP)
		zeros := make(common.Vec, f+2)
		zeros.Zero()
		for !common.IsPowerOfTwo(uint16(len(eq.I))) {
			eq.I, eq.J = append(eq.I, 0), append(eq.J, 0)
			eq.V, eq.W = append(eq.V, h.Identity()), append(eq.W, h.Identity())
			vs, ws = append(vs, zeros), append(ws, zeros)
		}
		proof.EqualityProof = eq.Prove(vs, ws)
		leaf := chain[len(chain)-1]
		proof.LiabilityProof = open(params, leaf, int(path[len(chain)-1]))
	})
	return proof, !panicked
}

// open opens an entry of a vertex as a liability.
func open(params *pol.PublicParams, v *vert, at int) pol.TotalProof {
	x, π := pp.Open(params.PPPP, at, v.opening())
	n := h.Big(x)
	if n.BitLen() > 64 {
		n.Sub(n, h.R) // perhaps a small negative number
	}
	return pol.TotalProof{LiabilityProof: π, Sum: int(n.Int64())}
}

// claimed is the liability of a proof.
func claimed(p pol.LiabilityProof) int64 { return int64(p.LiabilityProof.Sum) }

// rejected fails if the proof, whose claim is false, is accepted.
func (a *adversary) rejected(c *h.C, proof pol.LiabilityProof, V, W *math.G1, format string, args ...any) {
	what := fmt.Sprintf(format, args...)
	if ok, _ := h.Attempt(func() error { return h.VerifyLiability(proof, a.w.PP, a.id, V, W, h.Path) }); ok {
		c.Fatalf("accepted for %s: %s", a.id, what)
	}
	c.Class("%s", what)
	c.Eval(true, "%s of depth %d: %s", a.id, len(a.path), what)
}

// redistribute moves liabilities within the leaf vertex so that its sum remains and the
// proved one becomes another. False if there is nothing to move.
func redistribute(c *h.C, v *vert, at int) bool {
	sum := h.Big(v.sum).Int64()
	if sum == 0 {
		return false
	}
	old := h.Big(v.vals[at]).Int64()
	x := h.Amount(c, "forged", sum)
	if x == old {
		x = (old + 1) % (sum + 1)
	}
	for i := range v.vals {
		v.vals[i] = h.ZrInt(0)
	}
	v.vals[at] = h.ZrInt(x)
	v.vals[(at+1+h.Int(c, "rest", 0, len(v.vals)-2))%len(v.vals)] = h.ZrInt(sum - x)
	return true
}

// forgeBelow replaces the vertices from the level on by fresh ones with the same sums and
// another liability; the entries of the level's parent remain. False if there is nothing to change.
func (a *adversary) forgeBelow(c *h.C, level int, keepW bool) bool {
	d := len(a.path)
	if !redistribute(c, a.chain[d-1], int(a.path[d-1])) {
		return false
	}
	for i := d - 1; i >= level; i-- {
		v := a.chain[i]
		v.blind = h.RandZr()
		v.commitV(a.w.PP)
		if i < d-1 && !keepW {
			v.digests[a.path[i]] = a.chain[i+1].digest()
			v.commitW(a.w.PP)
		}
	}
	return true
}

// newVictim makes a set and seizes an identifier of it.
func newVictim(c *h.C, f, depth int) *adversary {
	w := shortWorld(f, depth)
	for i := h.Int(c, "n", 1, 4); i > 0; i-- {
		w.assign(c)
	}
	a := seize(w, w.known(c))
	if a == nil {
		c.Class("uncalibrated")
	}
	return a
}

func TestC06(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "graft", N: h.N{Quick: 40, Thorough: 3000},
		Rule: "the honest prover runs on a store in which the vertices from a drawn level on were replaced, with sums, range and equality proofs intact but liabilities exchanged; its proof is completed by forged digests, aggregated scalars, digest commitments of the parent or roots; every forgery is non-trivial",
		Check: func(c *h.C) {
			depth := h.Pick(c, "depth", 2, 2, 3, 4)
			a := newVictim(c, 3, depth)
			if a == nil {
				return
			}
			honest := make([]*vert, depth)
			for i := range honest {
				honest[i] = a.chain[i].copy()
			}
			level := h.Int(c, "level", 0, depth-1)
			keepW := h.Int(c, "keep W", 0, 3) == 0
			if !a.forgeBelow(c, level, keepW) {
				return
			}
			upper := h.Int(c, "parents", 0, 2) // how many W above commit to the forged vertices
			if upper > 0 {
				for i := level - 1; i >= 0 && i >= level-upper; i-- {
					a.chain[i].digests[a.path[i]] = a.chain[i+1].digest()
					a.chain[i].commitW(a.w.PP)
				}
			}
			a.store()
			base, ok := a.runHonestProver()
			if !ok {
				c.Class("uncalibrated")
				return
			}
			old := a.w.Model[a.id]
			if claimed(base) == old {
				c.Class("uncalibrated")
				return
			}
			for k := 0; k < 8; k++ {
				p := h.Copy(base)
				what := "as is"
				forged := false
				for i := 1; i < depth; i++ {
					fix := h.Pick(c, "digest", "keep", "forged", "forged", "honest")
					switch fix {
					case "forged":
						p.Digests[i-1] = a.chain[i].digest()
						forged = true
					case "honest":
						p.Digests[i-1] = honest[i].digest()
					}
				}
				if forged {
					what = "digests"
				}
				if h.Int(c, "rebind digest", 0, 2) == 0 {
					for i := 1; i < depth; i++ {
						p.Digests[i-1] = hashZr(p.V[i].Bytes())
						if i < depth-1 {
							p.Digests[i-1] = hashZr(p.V[i].Bytes(), bytesOf(p.W[i]))
						}
					}
					what = "digests"
				}
				if h.Bool(c, "own root") {
					// Published commitments on top
					if h.Bool(c, "V") {
						p.V[0] = a.V
					}
					p.W[0] = a.W
					what += " root"
				}
				switch h.Int(c, "Σ", 0, 3) {
				case 0:
					p.PointProofΣ = h.ZrInt(0)
					for i := range p.W {
						p.PointProofΣ = h.Add(p.PointProofΣ, h.Mul(p.Digests[i], pp.RO(a.w.PP.PPPP, p.W, i)))
					}
					what += " Σ"
				case 1:
					// The aggregated opening of what the parents do commit to
					var πs common.G1v
					p.PointProofΣ = h.ZrInt(0)
					for i := range p.W {
						src := a.chain[i]
						if p.W[i].Equals(honest[i].W) {
							src = honest[i]
						}
						x, π := pp.Open(a.w.PP.PPPP, int(a.path[i]), src.digestVec())
						πs = append(πs, π)
						p.PointProofΣ = h.Add(p.PointProofΣ, h.Mul(x, pp.RO(a.w.PP.PPPP, p.W, i)))
					}
					p.PointProofπ = pp.Aggregate(a.w.PP.PPPP, p.W, πs, pp.RO)
					what += " opening"
				case 2:
					// A surplus digest makes up for the difference
					last := len(p.Digests) - 1
					p.Digests[last] = h.RandZr()
					what += " surplus"
				}
				a.rejected(c, p, a.V, a.W, "graft: %s", what)
			}
			if h.Int(c, "calibrate", 0, 3) == 0 {
				// The same forgery over a root of its own is a true statement
				a.rebind(depth - 1)
				a.store()
				p, ok := a.runHonestProver()
				r := a.chain[0]
				if !ok || h.VerifyLiability(p, a.w.PP, a.id, r.V, r.W, h.Path) != nil {
					c.Class("uncalibrated")
					return
				}
				c.Class("calibrated")
				// and must not pass for the published root
				a.rejected(c, p, a.V, a.W, "own root for the published one")
				q := h.Copy(p)
				q.V[0], q.W[0] = a.V, a.W
				a.rejected(c, q, a.V, a.W, "published root put on top")
				q = h.Copy(p)
				q.W[0] = a.W
				if q.V[0].Equals(a.V) {
					a.rejected(c, q, a.V, a.W, "published W put on top")
				}
			}
		},
	}, h.Prop{
		Name: "reblind", N: h.N{Quick: 24, Thorough: 1500},
		Rule: "one vertex below the root is presented by a commitment the root does not lead to: with another blinding factor, other entries besides the path or other digests besides the path; everything else including the liability is true; every forgery is non-trivial",
		Check: func(c *h.C) {
			depth := h.Pick(c, "depth", 2, 3, 3, 4)
			a := newVictim(c, 3, depth)
			if a == nil {
				return
			}
			level := h.Int(c, "level", 1, depth-1)
			v := a.chain[level]
			at := int(a.path[level])
			kind := h.Pick(c, "kind", "blinding", "entries", "digests")
			i, j := (at+1)%3, (at+2)%3
			switch {
			case kind == "digests" && level < depth-1:
				v.digests[i] = h.RandZr()
				v.commitW(a.w.PP)
			case kind == "entries" && !h.SameZr(v.vals[i], v.vals[j]):
				v.vals[i], v.vals[j] = v.vals[j], v.vals[i]
				v.commitV(a.w.PP)
			default:
				kind = "blinding"
				v.blind = h.RandZr()
				v.commitV(a.w.PP)
			}
			a.store()
			base, ok := a.runHonestProver()
			if !ok {
				c.Class("uncalibrated")
				return
			}
			for k := 0; k < 3; k++ {
				p := h.Copy(base)
				what := "as is"
				if k > 0 {
					p.Digests[level-1] = v.digest()
					what = "digest"
				}
				if k > 1 {
					p.PointProofΣ = h.ZrInt(0)
					for i := range p.W {
						p.PointProofΣ = h.Add(p.PointProofΣ, h.Mul(p.Digests[i], pp.RO(a.w.PP.PPPP, p.W, i)))
					}
					what = "Σ"
				}
				a.rejected(c, p, a.V, a.W, "%s of level %d: %s", kind, level, what)
			}
		},
	}, h.Prop{
		Name: "sibling", N: h.N{Quick: 24, Thorough: 1500},
		Rule: "two subtrees of equal sums and different liabilities; the other's vertices, which the root does commit to elsewhere, are presented at the identifier's place; every case is non-trivial",
		Check: func(c *h.C) {
			depth := h.Int(c, "depth", 2, 3)
			w := shortWorld(3, depth)
			level := h.Int(c, "level", 0, depth-2) // where the paths part
			path := h.TreePath(c, "path", 3, depth, nil)
			own, other := append([]uint16{}, path...), append([]uint16{}, path...)
			other[level] = (own[level] + uint16(h.Int(c, "shift", 1, 2))) % 3
			x := 1 + h.Amount(c, "x", 1<<40)
			y := 1 + h.Amount(c, "y", 1<<40)
			if x == y {
				y++
			}
			beside := func(p []uint16) []uint16 {
				q := append([]uint16{}, p...)
				q[depth-1] = (q[depth-1] + 1) % 3
				return q
			}
			w.put(c, h.PathID(own), x)
			w.put(c, h.PathID(beside(own)), y)
			w.put(c, h.PathID(other), y)
			w.put(c, h.PathID(beside(other)), x)
			a, b := seize(w, h.PathID(own)), seize(w, h.PathID(other))
			if a == nil || b == nil {
				c.Class("uncalibrated")
				return
			}
			for i := level + 1; i < depth; i++ {
				a.chain[i] = b.chain[i].copy()
			}
			a.store()
			base, ok := a.runHonestProver()
			if !ok || claimed(base) == w.Model[a.id] {
				c.Class("uncalibrated")
				return
			}
			for k := 0; k < 4; k++ {
				p := h.Copy(base)
				what := "as is"
				if k > 0 {
					p.Digests[level] = b.chain[level+1].digest()
					what = "digest"
				}
				if k > 1 {
					p.PointProofΣ = h.ZrInt(0)
					for i := range p.W {
						p.PointProofΣ = h.Add(p.PointProofΣ, h.Mul(p.Digests[i], pp.RO(w.PP.PPPP, p.W, i)))
					}
					what = "Σ"
				}
				if k > 2 {
					var πs common.G1v
					for i := range p.W {
						at := int(a.path[i])
						if i == level {
							at = int(b.path[i])
						}
						_, π := pp.Open(w.PP.PPPP, at, a.chain[i].digestVec())
						πs = append(πs, π)
					}
					p.PointProofπ = pp.Aggregate(w.PP.PPPP, p.W, πs, pp.RO)
					what = "opening"
				}
				a.rejected(c, p, a.V, a.W, "sibling: %s", what)
			}
		},
	}, h.Prop{
		Name: "length", N: h.N{Quick: 40, Thorough: 2500},
		Rule: "proofs assembled with vertices appended, removed, inserted or repeated, the liability opened from the last one; every forgery is non-trivial",
		Check: func(c *h.C) {
			depth := h.Pick(c, "depth", 2, 3, 3, 4)
			a := newVictim(c, 3, depth)
			if a == nil {
				return
			}
			base, ok := a.assemble(a.chain, a.path)
			if !ok || h.VerifyLiability(base, a.w.PP, a.id, a.V, a.W, h.Path) != nil {
				c.Class("uncalibrated")
				return
			}
			c.Class("calibrated")
			x := a.w.Model[a.id]
			at := int(a.path[depth-1])
			extra := a.chain[depth-1].copy()
			for i := range extra.vals {
				extra.vals[i] = h.ZrInt(h.Amount(c, "extra", 1<<60))
			}
			if h.Big(extra.vals[at]).Int64() == x {
				extra.vals[at] = h.ZrInt(x ^ 1)
			}
			extra.sum = h.ZrInt(0)
			for _, v := range extra.vals {
				extra.sum = h.Add(extra.sum, v)
			}
			extra.blind = h.RandZr()
			extra.commitV(a.w.PP)
			for k := 0; k < 6; k++ {
				p := h.Copy(base)
				kind := h.Pick(c, "kind", "appended", "last", "first removed", "leaf removed", "inserted", "inner from")
				sumOf := func(vs ...*vert) {
					var vertices verkle.Vertices
					for _, v := range vs {
						vertices = append(vertices, v.vertex())
					}
					p.SumArgumentProof = vertices.SumArgument(a.w.PP.SAPP)
				}
				switch kind {
				case "appended", "last":
					p.V = append(p.V, extra.V)
					p.LiabilityProof = open(a.w.PP, extra, at)
					sumOf(append(append([]*vert{}, a.chain...), extra)...)
					if h.Int(c, "range", 0, 3) > 0 {
						p.RangeProofs = append(p.RangeProofs, a.rangeProof(extra))
					}
					if h.Bool(c, "digest") {
						p.Digests = append(p.Digests, extra.digest())
					}
					if h.Int(c, "W", 0, 3) == 0 {
						p.W = append(p.W, h.Curve.GenG1.Mul(h.RandZr()))
					}
				case "inserted":
					// Takes the place of the leaf, which follows it
					p.V[depth-1] = extra.V
					p.V = append(p.V, a.chain[depth-1].V)
					p.RangeProofs[depth-1] = a.rangeProof(extra)
					p.RangeProofs = append(p.RangeProofs, base.RangeProofs[depth-1])
					p.LiabilityProof = open(a.w.PP, extra, at)
					sumOf(append(append(append([]*vert{}, a.chain[:depth-1]...), extra), a.chain[depth-1])...)
				case "first removed":
					v, ok := a.assemble(a.chain[1:], a.path[1:])
					if !ok || depth < 3 {
						continue
					}
					p = v
					p.LiabilityProof.Sum = int(x ^ 1)
				case "leaf removed":
					// A subtree's sum as the liability
					v := a.chain[depth-2]
					at := int(a.path[depth-1])
					if h.Big(v.vals[at]).Int64() == x {
						continue
					}
					p.V = p.V[:depth-1]
					p.LiabilityProof = open(a.w.PP, v, at)
					sumOf(a.chain[:depth-1]...)
					if h.Bool(c, "range") {
						p.RangeProofs = p.RangeProofs[:depth-1]
					}
					if h.Bool(c, "digest") {
						p.Digests = p.Digests[:depth-1]
					}
					if h.Bool(c, "W") {
						p.W = p.W[:depth-2]
					}
				default:
					// The liability opened elsewhere
					v, i := a.chain[h.Int(c, "from", 0, depth-1)], h.Int(c, "at", 0, a.w.f)
					if h.Big(v.opening()[i]).Int64() == x {
						continue
					}
					p.LiabilityProof = open(a.w.PP, v, i)
				}
				a.rejected(c, p, a.V, a.W, "%s", kind)
			}
		},
	}, h.Prop{
		Name: "own tree", N: h.N{Quick: 48, Thorough: 3000},
		Rule: "a prover publishes a root of its own; on the proved path one vertex has a false sum, an entry other than its child's sum, or entries out of range, and everything else is proved as the protocol says; every forgery is non-trivial",
		Check: func(c *h.C) {
			depth := h.Pick(c, "depth", 2, 2, 3, 4)
			a := newVictim(c, 3, depth)
			if a == nil {
				return
			}
			level := h.Int(c, "level", 0, depth-1)
			v := a.chain[level]
			kind := h.Pick(c, "kind", "sum", "equality", "range", "range")
			detail := ""
			up := func() {
				// The vertices above state the sums of what is below
				for i := level - 1; i >= 0; i-- {
					p := a.chain[i]
					p.vals[a.path[i]] = a.chain[i+1].sum
					p.sum = h.ZrInt(0)
					for _, x := range p.vals {
						p.sum = h.Add(p.sum, x)
					}
					p.commitV(a.w.PP)
				}
			}
			add := func(z *math.Zr) *math.Zr {
				δ := h.ZrInt(1 + h.Amount(c, "δ", 1<<40))
				if h.Bool(c, "less") && h.Big(z).Cmp(h.Big(δ)) >= 0 {
					return h.Sub(z, δ)
				}
				if h.Big(h.Add(z, δ)).BitLen() > 63 {
					return h.Sub(z, h.ZrInt(1))
				}
				return h.Add(z, δ)
			}
			switch kind {
			case "sum":
				// The vertex states another sum, which its parents carry
				v.sum = add(v.sum)
				v.commitV(a.w.PP)
				up()
			case "equality":
				// The vertex's parent has another entry, which the upper sums count
				if level == 0 {
					level = 1
				}
				p := a.chain[level-1]
				at := a.path[level-1]
				p.vals[at] = add(p.vals[at])
				p.sum = h.ZrInt(0)
				for _, x := range p.vals {
					p.sum = h.Add(p.sum, x)
				}
				p.commitV(a.w.PP)
				level--
				up()
				level++
			case "range":
				// Entries that compensate each other
				i := h.Int(c, "entry", 0, a.w.f-1)
				j := (i + h.Int(c, "other", 1, a.w.f-1)) % a.w.f
				if level < depth-1 && (i == int(a.path[level]) || j == int(a.path[level])) {
					// The path's entry remains its child's sum
					at := int(a.path[level])
					i, j = (at+1)%a.w.f, (at+2)%a.w.f
				}
				bad := outOfRange(c)
				v.vals[j] = h.Sub(h.Add(v.vals[j], v.vals[i]), bad)
				v.vals[i] = bad
				v.commitV(a.w.PP)
				detail = " " + bad.String()
			}
			a.rebind(level)
			r := a.chain[0]
			p, ok := a.assemble(a.chain, a.path)
			if !ok {
				c.Class("uncalibrated %s", kind)
				return
			}
			for i := range a.chain {
				if kind != "range" && h.Big(a.chain[i].sum).BitLen() > 63 {
					return // out of range, too
				}
			}
			a.rejected(c, p, r.V, r.W, "false %s", kind)
			if kind == "range" {
				c.Desc("%s", detail)
				f := &rangeForgery{v: append(h.CopyVec(v.vals), v.sum), r: v.blind}
				f.digits = bitsOf(f.v)
				f.caret = complement(f.digits)
				for _, what := range []string{"honest", "challenge without mask", "challenge without digits"} {
					f.what = what
					if p.RangeProofs[level] = f.prove(a.w.PP.RPPP, v.V); p.RangeProofs[level] != nil {
						a.rejected(c, p, r.V, r.W, "false %s %s", kind, what)
					}
				}
			}
			if h.Bool(c, "honest prover") && kind != "range" {
				a.store()
				if p, ok := a.runHonestProver(); ok {
					a.rejected(c, p, r.V, r.W, "false %s by the honest prover", kind)
				}
			}
			// The same chain without the falsehood is accepted over its own root
			if h.Int(c, "calibrate", 0, 5) == 0 {
				a.restore()
				p, ok := a.assemble(a.chain, a.path)
				if !ok || h.VerifyLiability(p, a.w.PP, a.id, a.V, a.W, h.Path) != nil {
					c.Class("uncalibrated")
					return
				}
				c.Class("calibrated")
			}
		},
	})
}
