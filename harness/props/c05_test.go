package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/pol"

	"verif/harness/h"
)

// bound lists the elements of a liability proof that a verifier must bind: all but
// redundant copies and the unused digest of the leaf layer.
func boundElements(p *pol.LiabilityProof) []h.Leaf {
	var res []h.Leaf
	skip := fmt.Sprintf(".Digests[%d]", len(p.Digests)-1)
	for _, l := range h.Elements(p) {
		if l.Path != skip {
			res = append(res, l)
		}
	}
	return res
}

// proven is a proof with what it is about.
type proven struct {
	w     *world
	id    string
	x     int64
	proof pol.LiabilityProof
	V, W  *math.G1
}

func prove(c *h.C, w *world, id string) *proven {
	V, W := w.Root()
	x, proof, _, ok := w.ProveLiability(id)
	if !ok || x != w.Model[id] {
		c.Fatalf("proof of %d for %s instead of %d", x, id, w.Model[id])
	}
	return &proven{w, id, x, proof, V, W}
}

func (p *proven) path() []uint16 { return p.w.ID2Path(p.id) }

// alteration changes a copy of the proof or the statement. It returns what it did, or
// the empty string if there was nothing to do.
func (p *proven) alter(c *h.C, donor *proven) (alt pol.LiabilityProof, id string, V, W *math.G1, what string) {
	alt, id, V, W = h.Copy(p.proof), p.id, p.V, p.W
	d := h.Copy(donor.proof)
	δ := h.NonZero(c, "δ")
	path, dpath := p.path(), donor.path()
	switch h.Pick(c, "kind", 0, 1, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6) {
	case 0: // another identifier
		q := append([]uint16{}, path...)
		i := h.Int(c, "level", 0, len(q)-1)
		q[i] = uint16((int(q[i]) + h.Int(c, "other", 1, p.w.f-1)) % p.w.f)
		id, what = h.PathID(q), "identifier"
		if h.Int(c, "donor's", 0, 2) == 0 {
			id = donor.id
		}
		if id == p.id {
			return alt, id, V, W, ""
		}
	case 1: // another root
		what = h.Pick(c, "root", "V", "W", "donor V", "donor W", "donor root", "exchanged", "identity", "mask of V")
		switch what {
		case "V":
			V = h.AddG(V, h.Curve.GenG1.Mul(δ))
		case "W":
			W = h.AddG(W, h.Curve.GenG1.Mul(δ))
		case "donor V":
			V = donor.V
		case "donor W":
			W = donor.W
		case "donor root":
			V, W = donor.V, donor.W
		case "exchanged":
			V, W = W, V
		case "identity":
			V, W = h.Identity(), h.Identity()
		case "mask of V":
			V = h.AddG(V, p.w.PP.PPPP.G1s[p.w.f+1].Mul(δ))
		}
		if V.Equals(p.V) && W.Equals(p.W) {
			return alt, id, V, W, ""
		}
		what = "root " + what
	case 2: // another liability
		x := int(p.x)
		alt.LiabilityProof.Sum = h.Pick(c, "sum", -x, x+1, x-1, x*2, x/2, 0, x^(1<<62), x^(1<<32), int(donor.x), int(p.w.Total()), -1)
		what = "liability"
		if alt.LiabilityProof.Sum == x {
			return alt, id, V, W, ""
		}
	case 3: // a whole part of another proof
		what = h.Pick(c, "part", "V", "W", "Digests", "RangeProofs", "SumArgumentProof", "EqualityProof", "LiabilityProof", "point proof", "range proof", "liability and V")
		i := h.Int(c, "i", 0, len(path)-1)
		equal := false
		switch what {
		case "V":
			equal = sameG1v(d.V, alt.V)
			alt.V = d.V
		case "W":
			equal = sameG1v(d.W, alt.W)
			alt.W = d.W
		case "Digests":
			equal = sameVec(d.Digests, alt.Digests)
			alt.Digests = d.Digests
		case "RangeProofs":
			equal = sameG1v(d.V, alt.V)
			alt.RangeProofs = d.RangeProofs
		case "SumArgumentProof":
			equal = sameG1v(d.V, alt.V)
			alt.SumArgumentProof = d.SumArgumentProof
		case "EqualityProof":
			equal = sameG1v(d.V, alt.V)
			alt.EqualityProof = d.EqualityProof
		case "LiabilityProof":
			n := len(alt.V) - 1
			equal = len(d.V) == len(alt.V) && d.V[n].Equals(alt.V[n]) && path[n] == dpath[n]
			alt.LiabilityProof = d.LiabilityProof
		case "point proof":
			equal = alt.PointProofπ.Equals(d.PointProofπ) && h.SameZr(alt.PointProofΣ, d.PointProofΣ)
			alt.PointProofπ, alt.PointProofΣ = d.PointProofπ, d.PointProofΣ
		case "range proof":
			if i >= len(d.V) {
				return alt, id, V, W, ""
			}
			equal = d.V[i].Equals(alt.V[i])
			alt.RangeProofs[i] = d.RangeProofs[i]
		default:
			n := len(alt.V) - 1
			if n >= len(d.V) {
				return alt, id, V, W, ""
			}
			equal = d.V[n].Equals(alt.V[n]) && (path[n] == dpath[n] || donor.x == p.x)
			alt.V[n], alt.LiabilityProof = d.V[n], d.LiabilityProof
		}
		if equal {
			return alt, id, V, W, ""
		}
		what = "part " + what
	case 4: // elements exchanged within a list
		var lists []h.Leaf
		for _, l := range listsOf(&alt) {
			if !l.Redundant && l.V.Len() > 1 {
				lists = append(lists, l)
			}
		}
		l := h.PickLeaf(c, "list", lists)
		n := l.V.Len()
		i, j := h.Int(c, "i", 0, n-1), h.Int(c, "j", 0, n-1)
		if i == j {
			return alt, id, V, W, ""
		}
		before := h.Fingerprint(&alt)
		a := reflect.ValueOf(l.V.Index(i).Interface())
		b := reflect.ValueOf(l.V.Index(j).Interface())
		l.V.Index(i).Set(b)
		l.V.Index(j).Set(a)
		if h.Fingerprint(&alt) == before {
			return alt, id, V, W, ""
		}
		what = "order of " + l.Pattern
	case 5: // elements exchanged within the proof
		leaves := boundElements(&alt)
		a := h.PickLeaf(c, "a", leaves)
		var same []h.Leaf
		for _, l := range leaves {
			if l.Kind == a.Kind && !bytes.Equal(l.Bytes(), a.Bytes()) {
				same = append(same, l)
			}
		}
		if len(same) == 0 {
			return alt, id, V, W, ""
		}
		b := h.PickLeaf(c, "b", same)
		x, y := reflect.ValueOf(a.V.Interface()), reflect.ValueOf(b.V.Interface())
		a.V.Set(y)
		b.V.Set(x)
		what = "exchanged " + a.Pattern + " and another"
	default:
		leaf := h.PickLeaf(c, "leaf", boundElements(&alt))
		what = leaf.Pattern + " " + strings.SplitN(h.Tamper(c, "t", leaf, h.Walk(&d)), " from", 2)[0]
	}
	return alt, id, V, W, what
}

// refused fails if the verifier accepts.
func refused(c *h.C, w *world, mode bool, p pol.LiabilityProof, id string, V, W *math.G1, msg string) {
	parallel(mode, func() {
		if ok, _ := h.Attempt(func() error { return h.VerifyLiability(p, w.PP, id, V, W, h.Path) }); ok {
			c.Fatalf("%s", msg)
		}
	})
}

func TestC05(t *testing.T) {
	run := func(c *h.C, f, depth, times int) {
		w := shortWorld(f, depth)
		for i := h.Int(c, "n", 1, 5); i > 0; i-- {
			w.assign(c)
		}
		base := prove(c, w, w.known(c))
		if h.Int(c, "check", 0, 3) == 0 {
			if err := h.VerifyLiability(base.proof, w.PP, base.id, base.V, base.W, h.Path); err != nil {
				c.Fatalf("honest proof refused: %v", err)
			}
		}
		donor := base
		what := h.Pick(c, "donor", "same", "identifier", "state", "set")
		switch what {
		case "identifier":
			donor = prove(c, w, w.known(c))
		case "state":
			w.assign(c)
			donor = prove(c, w, base.id)
		case "set":
			o := shortWorld(f, depth)
			o.paths = append([][]uint16{}, w.paths...)
			if h.Bool(c, "equal contents") {
				for _, id := range w.Order {
					o.put(c, id, w.Model[id])
				}
			} else {
				o.assign(c)
			}
			donor = prove(c, o, o.known(c))
		}
		c.Class("donor %s", what)
		for k := 0; k < times; k++ {
			alt, id, V, W, what := base.alter(c, donor)
			if what == "" {
				continue
			}
			mode := h.Bool(c, "parallel")
			refused(c, w, mode, alt, id, V, W, fmt.Sprintf("the proof of %d for %s was accepted with another %s (parallel %v)", base.x, base.id, what, mode))
			c.Class("%s", what)
			c.Class("parallel %v", mode)
			c.Eval(true, "proof of %s, depth %d, altered: %s (%d)", base.id, depth, what, k)
		}
		if err := h.VerifyLiability(base.proof, w.PP, base.id, base.V, base.W, h.Path); err != nil {
			c.Fatalf("after altered ones, the honest proof of %d for %s is refused: %v", base.x, base.id, err)
		}
	}
	h.Run(t, h.Prop{
		Name: "altered", N: h.N{Quick: 48, Thorough: 4000},
		Rule: "a proof over a tree of depth 2 or 3 after 1 to 5 assignments; the liability, identifier, root, any element, part or order is altered, or taken from a proof of the same or another identifier, state or set (of equal contents, too); verified sequentially or in parallel; every altered proof is non-trivial",
		Check: func(c *h.C) {
			f, depth := 3, h.Pick(c, "depth", 2, 2, 3)
			if depth == 2 && h.Int(c, "wide", 0, 9) == 0 {
				f = 7
			}
			run(c, f, depth, 8)
		},
	}, h.Prop{
		Name: "deep", N: h.N{Quick: 8, Thorough: 300},
		Rule: "as altered over depth 9 and 10 (64 in thorough)",
		Check: func(c *h.C) {
			depth := h.Pick(c, "depth", 9, 10)
			if h.Thorough && h.Int(c, "deep", 0, 9) == 0 {
				depth = 64
			}
			run(c, 3, depth, 3)
		},
	}, h.Prop{
		Name: "range proofs", N: h.N{Quick: 12, Thorough: 800},
		Rule: "a proof in which an element of one or of all range proofs is altered, or taken from another proof of the same identifier and state, is verified in parallel and in sequential mode; every altered proof is non-trivial",
		Check: func(c *h.C) {
			f, depth := 3, h.Pick(c, "depth", 2, 3, 5)
			if depth == 2 && h.Bool(c, "wide") {
				f = 7
			}
			w := shortWorld(f, depth)
			for i := h.Int(c, "n", 1, 3); i > 0; i-- {
				w.assign(c)
			}
			base := prove(c, w, w.known(c))
			donor := prove(c, w, base.id)
			d := h.Copy(donor.proof)
			for k := 0; k < 6; k++ {
				alt := h.Copy(base.proof)
				at := h.Int(c, "at", -1, depth-1)
				var leaves []h.Leaf
				for _, l := range boundElements(&alt) {
					if strings.HasPrefix(l.Path, ".RangeProofs[") && (at < 0 || strings.HasPrefix(l.Path, fmt.Sprintf(".RangeProofs[%d]", at))) {
						leaves = append(leaves, l)
					}
				}
				l := h.PickLeaf(c, "leaf", leaves)
				what := h.Tamper(c, "t", l, h.Walk(&d))
				if at < 0 {
					// The same element of all levels
					for _, o := range leaves {
						if o.Pattern == l.Pattern && o.Path != l.Path {
							h.Tamper(c, "all", o, h.Walk(&d))
						}
					}
				}
				mode := h.Int(c, "parallel", 0, 2) > 0
				refused(c, w, mode, alt, base.id, base.V, base.W, fmt.Sprintf("the proof of %d for %s was accepted with another %s, level %d (parallel %v)", base.x, base.id, l.Pattern, at, mode))
				c.Class("%s", l.Pattern)
				c.Class("parallel %v", mode)
				c.Eval(true, "%s %s, level %d of %d", l.Pattern, what, at, depth)
			}
		},
	}, h.Prop{
		Name: "long path", N: h.N{Quick: 4, Thorough: 160},
		Rule: "a proof over a path of 66 levels (130 in thorough; those of 64-digit identifiers have up to 256), in which one element of any level is altered, is verified in parallel and in sequential mode; every altered proof is non-trivial",
		Check: func(c *h.C) {
			depth := 66
			if h.Thorough {
				depth = h.Pick(c, "depth", 66, 97, 130)
			}
			w := shortWorld(3, depth)
			w.assign(c)
			base := prove(c, w, w.known(c))
			for k := 0; k < 2; k++ {
				alt := h.Copy(base.proof)
				at := h.Pick(c, "at", depth-1, depth-2, 64, 65, h.Int(c, "any", 0, depth-1))
				list := h.Pick(c, "list", ".RangeProofs", ".RangeProofs", ".RangeProofs", ".RangeProofs", ".RangeProofs", ".RangeProofs", ".V", ".W", ".Digests", ".EqualityProof")
				var leaves []h.Leaf
				for _, l := range boundElements(&alt) {
					if list == ".EqualityProof" && strings.HasPrefix(l.Path, list) || strings.HasPrefix(l.Path, fmt.Sprintf("%s[%d]", list, at)) {
						leaves = append(leaves, l)
					}
				}
				if len(leaves) == 0 {
					continue
				}
				l := h.PickLeaf(c, "leaf", leaves)
				what := h.Tamper(c, "t", l, nil)
				mode := h.Bool(c, "parallel")
				refused(c, w, mode, alt, base.id, base.V, base.W, fmt.Sprintf("the proof of %d over %d levels was accepted with another %s (parallel %v)", base.x, depth, l.Path, mode))
				c.Class("%s", l.Pattern)
				c.Class("parallel %v", mode)
				c.Eval(true, "%s %s, depth %d", l.Path, what, depth)
			}
		},
	}, h.Prop{
		Name: "parameters", N: h.N{Quick: 16, Thorough: 600},
		Rule: "a proof is verified with parameters of which a part was made by another setup; every case is non-trivial",
		Check: func(c *h.C) {
			w := shortWorld(3, 2)
			w.assign(c)
			p := prove(c, w, w.known(c))
			other := h.OtherPP(3, 2)
			params := *w.PP
			what := h.Pick(c, "part", "all", "PPPP", "POEPP", "SAPP", "RPPP")
			switch what {
			case "all":
				params = *other
			case "PPPP":
				params.PPPP = other.PPPP
			case "POEPP":
				params.POEPP = other.POEPP
			case "SAPP":
				params.SAPP = other.SAPP
			case "RPPP":
				params.RPPP = &bp.RangeProofPublicParams{G: other.RPPP.G, H: other.RPPP.H, F: other.RPPP.F, Gs: other.RPPP.Gs, Hs: other.RPPP.Hs, Fs: other.RPPP.Fs}
			}
			if ok, _ := h.Attempt(func() error { return h.VerifyLiability(p.proof, &params, p.id, p.V, p.W, h.Path) }); ok {
				c.Fatalf("a proof was accepted for other parameters: %s", what)
			}
			c.Class("%s", what)
			c.Eval(true, "%s: %s", p.id, what)
		},
	})
}
