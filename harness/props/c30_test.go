package props

import (
	"fmt"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/pol"
	"pol/sum"

	"verif/harness/h"
)

// carried is the encoded length of all group and field elements.
func carried(ptr interface{}) int {
	size := 0
	for _, l := range h.Walk(ptr) {
		switch l.Kind {
		case "G1", "G2", "Gt":
			if !l.Nil() {
				size += len(l.Bytes())
			}
		case "Zr":
			if !l.Nil() {
				size += len(l.V.Interface().(*math.Zr).Bytes())
			}
		}
	}
	return size
}

// distinctSize is the encoded length of the group elements, equal ones counted once,
// without and with those which unexported fields may remember (they follow from the others).
func distinctSize(ptr interface{}) (least, most int) {
	seen, open := map[string]bool{}, map[string]bool{}
	for _, l := range h.Walk(ptr) {
		if l.Kind != "G1" && l.Kind != "G2" && l.Kind != "Gt" || l.Nil() {
			continue
		}
		k := l.Kind + string(l.Bytes())
		if !seen[k] {
			seen[k] = true
			most += len(l.Bytes())
		}
		if !l.Unexported() && !open[k] {
			open[k] = true
			least += len(l.Bytes())
		}
	}
	return least, most
}

func sized(c *h.C, what string, got int, ptr interface{}) {
	if want := carried(ptr); got != want {
		c.Fatalf("%s carries %d bytes but reports %d", what, want, got)
	}
	c.Class("%s", what)
	c.Eval(got > 0, "%s of %d bytes", what, got)
}

func TestC30(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "arguments", N: h.N{Quick: 160, Thorough: 8000},
		Rule: "sum, inner product, range and equality proofs and vectors of drawn sizes and values (zero vectors included): the reported size is the total length of the encodings of all elements found by walking the structure; non-trivial if not empty",
		Check: func(c *h.C) {
			switch h.Int(c, "kind", 0, 9) {
			case 0, 1:
				n := h.Pick(c, "n", 2, 4, 8, 16, 32)
				params := sumPP(n)
				v, r := summing(c, "v", n, zero), h.Scalar(c, "r")
				_, p := sum.NewArgument(params, sumCommit(params, v, r), v, r)
				c.Desc("n=%d", n)
				sized(c, "sum proof", p.Size(), p)
			case 2, 3:
				n := h.Pick(c, "n", 1, 2, 4, 8, 16, 32)
				params := ipaPP(n)
				p := bp.NewInnerProdArgument(params, vector(c, "a", n), vector(c, "b", n)).Prove()
				c.Desc("n=%d", n)
				sized(c, "inner product proof", p.Size(), p)
			case 4:
				n := h.Pick(c, "n", 2, 2, 4)
				params := rangePP(n)
				v, r := inRange(c, n), h.Scalar(c, "r")
				p := bp.ProveRange(params, rangeCommit(params, v, r), v, r)
				c.Desc("n=%d", n)
				sized(c, "range proof", p.Size(), p)
			case 5, 6, 7:
				n, m := h.Int(c, "n", 2, 6), h.Pick(c, "m", 2, 4, 8, 16)
				params := poePP(n, m, 0)
				ps := drawBatch(c, params, n, m)
				vs, ws := openings(ps)
				p := batch(params, ps).Prove(vs, ws)
				c.Desc("m=%d", m)
				sized(c, "equality proof", p.Size(), p)
			default:
				v := vector(c, "v", h.Int(c, "n", 0, 20))
				sized(c, "vector", v.Size(), &v)
				gs := common.G1v(common.RandGenVec(h.Int(c, "k", 0, 9), "x"))
				gs = append(gs, h.Identity())
				if want := carried(&gs); len(gs.Bytes()) != want {
					c.Fatalf("%d elements are encoded by %d bytes instead of %d", len(gs), len(gs.Bytes()), want)
				}
			}
		},
	}, h.Prop{
		Name: "liability", N: h.N{Quick: 24, Thorough: 1500},
		Rule: "liability proofs of depth 2 to 5 (fan-outs 3 and 7): as arguments; every case is non-trivial",
		Check: func(c *h.C) {
			f, depth := 3, h.Pick(c, "depth", 2, 2, 3, 4, 5)
			if depth == 2 && h.Int(c, "wide", 0, 4) == 0 {
				f = 7
			}
			w := shortWorld(f, depth)
			for i := h.Int(c, "n", 1, 5); i > 0; i-- {
				w.assign(c)
			}
			id := w.known(c)
			_, p, _, ok := w.ProveLiability(id)
			if !ok {
				c.Fatalf("no proof of %s", id)
			}
			c.Desc("f=%d depth=%d", f, depth)
			sized(c, "liability proof", p.Size(), &p)
		},
	}, h.Prop{
		Name: "parameters", N: h.N{Quick: 60, Thorough: 1500},
		Rule: "parameters of all kinds, fan-outs 3 to 127 (1023 in thorough): the size is that of the distinct group elements; every case is non-trivial",
		Check: func(c *h.C) {
			report := func(what string, got int, ptr interface{}) {
				if least, most := distinctSize(ptr); got != least && got != most {
					c.Fatalf("%s have elements of %d bytes (%d exported) but report %d", what, most, least, got)
				}
				c.Class("%s", what)
				c.Eval(true, "%s of %d bytes", what, got)
			}
			n := h.Pick(c, "n", 2, 4, 8, 16, 32)
			switch h.Int(c, "kind", 0, 6) {
			case 0:
				report("commitment parameters", h.VC(n, 0).Size(), h.VC(n, 0))
			case 1:
				params := sum.NewPublicParams(n)
				report("sum parameters", params.Size(), params)
			case 2:
				params := bp.NewRangeProofPublicParams(n)
				report("range parameters", params.Size(), params)
			case 3:
				params := poePP(h.Int(c, "k", 2, 7), n, 0)
				report("equality parameters", params.Size(), params)
			case 4:
				report("inner product parameters", ipaPP(n).Size(), ipaPP(n))
			default:
				f := h.Pick(c, "f", 3, 3, 7, 15, 31)
				if h.Int(c, "large", 0, 9) == 0 {
					f = h.Pick(c, "large f", 63, 127)
				}
				if h.Thorough && h.Int(c, "huge", 0, 29) == 0 {
					f = h.Pick(c, "huge f", 255, 511, 1023)
				}
				var params *pol.PublicParams
				if h.Bool(c, "dense") {
					_, params = pol.GeneratePublicParams(uint16(f), pol.Dense)
				} else {
					_, params = pol.GeneratePublicParams(uint16(f), pol.Sparse)
				}
				report(fmt.Sprintf("parameters of fan-out %d", f), params.Size(), params)
			}
		},
	})
}
