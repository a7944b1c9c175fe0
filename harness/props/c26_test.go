package props

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"pol/bp"
	"pol/common"
	"pol/sum"

	"verif/harness/h"
)

// patience is how long a verification may take before it counts as hanging.
const patience = 150 * time.Second

// malshaped verifies a proof whose lists have wrong lengths.
func malshaped(c *h.C, what string, verify func() error) {
	var accepted bool
	var msg string
	within(c, patience, "verification with "+what, func() {
		accepted, msg = h.Attempt(verify)
	})
	if msg != "" {
		c.Fatalf("verification with %s panics: %s", what, msg)
	}
	if accepted {
		c.Fatalf("a proof with %s was accepted", what)
	}
	c.Eval(true, "%s", what)
}

// reshape alters the length of one or several lists of what ptr points to.
func reshape(c *h.C, ptr interface{}) string {
	what := alterLength(c, listsOf(ptr), nil)
	for i := h.Int(c, "more", 0, 5) - 3; i > 0; i-- {
		if more := alterLength(c, listsOf(ptr), nil); more != "" {
			if what != "" {
				what += ", "
			}
			what += more
		}
	}
	return what
}

// shape lists the lengths of all lists.
func shape(ptr interface{}) string {
	s := ""
	for _, l := range listsOf(ptr) {
		s += fmt.Sprintf("%s:%d;", l.Path, l.V.Len())
	}
	return s
}

func TestC26(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "arguments", N: h.N{Quick: 400, Thorough: 20000},
		Rule: "inner product, sum, range, equality and reduction proofs in which one to three lists are shortened, extended, emptied or absent; every case is non-trivial",
		Check: func(c *h.C) {
			times := 6
			switch kind := h.Pick(c, "kind", "inner product", "sum", "aggregated sum", "range", "reduction", "batch", "batch"); kind {
			case "inner product":
				n := h.Pick(c, "n", 1, 2, 4, 8, 16)
				params := ipaPP(n)
				base := bp.NewInnerProdArgument(params, vector(c, "a", n), vector(c, "b", n)).Prove()
				for k := 0; k < times; k++ {
					p := h.Copy(base)
					what := reshape(c, p)
					if n == 1 && what == "" && len(p.LRs) == 0 {
						// There is no round to take away
						p.LRs = common.RandGenVec(h.Int(c, "surplus", 1, 4), "surplus")
						what = "surplus rounds"
					}
					if shape(p) == shape(base) {
						continue
					}
					c.Class("%s", kind)
					malshaped(c, kind+" "+what, func() error { return p.Verify(params) })
				}
			case "sum", "aggregated sum":
				n := h.Pick(c, "n", 2, 4, 8)
				params := sumPP(n)
				v, r := summing(c, "v", n, zero), h.Scalar(c, "r")
				V := common.G1v{sumCommit(params, v, r)}
				base := sum.NewAggregatedArgument(params, V, []common.Vec{v}, common.Vec{r})
				for k := 0; k < times; k++ {
					p := h.Copy(base)
					what := reshape(c, p)
					if shape(p) == shape(base) {
						continue
					}
					c.Class("%s", kind)
					malshaped(c, kind+" "+what, func() error {
						if kind == "sum" {
							return p.Verify(params, &sum.Argument{V: V[0]})
						}
						return p.VerifyAggregated(params, V)
					})
				}
			case "range":
				n := h.Pick(c, "n", 2, 2, 4)
				params := rangePP(n)
				v, r := inRange(c, n), h.Scalar(c, "r")
				V := rangeCommit(params, v, r)
				base := bp.ProveRange(params, V, v, r)
				for k := 0; k < times; k++ {
					p := h.Copy(base)
					what := reshape(c, p)
					if shape(p) == shape(base) {
						continue
					}
					c.Class("%s", kind)
					malshaped(c, kind+" "+what, func() error { return bp.VerifyRange(params, p, V) })
				}
			case "reduction":
				n := h.Pick(c, "n", 2, 4, 8, 16)
				params := ipaPP(n)
				v := vector(c, "v", n)
				V := h.MSM(params.G, v)
				Δ, _, u := bp.IterativeReduce(params, v, V)
				for k := 0; k < times; k++ {
					p := h.Copy(Δ)
					what := reshape(c, &p)
					if len(p) == len(Δ) {
						continue
					}
					c.Class("%s", kind)
					malshaped(c, kind+" "+what, func() error {
						_, _, err := bp.IterativeVerify(params, V, p, u)
						return err
					})
				}
			default:
				n, m := h.Int(c, "n", 2, 5), h.Pick(c, "m", 2, 4, 8)
				params := poePP(n, m, 0)
				ps := drawBatch(c, params, n, m)
				vs, ws := openings(ps)
				base := batch(params, ps).Prove(vs, ws)
				for k := 0; k < times; k++ {
					p := h.Copy(base)
					what := reshape(c, p)
					if shape(p) == shape(base) {
						continue
					}
					c.Class("%s", kind)
					malshaped(c, kind+" "+what, func() error {
						e := batch(params, ps)
						return e.Verify(p)
					})
				}
			}
		},
	}, h.Prop{
		Name: "liability", N: h.N{Quick: 48, Thorough: 3000},
		Rule: "liability proofs of depth 2 to 4 in which one to three lists on any level of nesting have wrong lengths, or several range proofs are wrong in different ways, or which are verified for an identifier of another depth, in sequential and in parallel mode; every case is non-trivial",
		Check: func(c *h.C) {
			depth := h.Pick(c, "depth", 2, 2, 3, 4)
			w := shortWorld(3, depth)
			for i := h.Int(c, "n", 1, 3); i > 0; i-- {
				w.assign(c)
			}
			base := prove(c, w, w.known(c))
			for k := 0; k < 12; k++ {
				p := h.Copy(base.proof)
				id := base.id
				what := ""
				switch h.Int(c, "kind", 0, 9) {
				case 0:
					// Another depth with a proof of this one
					path := base.path()
					if h.Bool(c, "deeper") || depth == 2 {
						path = append(append([]uint16{}, path...), uint16(h.Int(c, "at", 0, 2)))
					} else {
						path = path[:depth-1]
					}
					id = h.PathID(path)
					what = fmt.Sprintf("an identifier of depth %d", len(path))
				case 1:
					// A level is missing or there is one more
					n := depth + h.Pick(c, "levels", -1, 1)
					resize := func(ptr interface{}, to int) {
						l := reflect.ValueOf(ptr).Elem()
						if to <= l.Len() {
							l.Set(l.Slice(0, to))
						} else {
							l.Set(reflect.Append(l, l.Index(l.Len()-1)))
						}
					}
					resize(&p.V, n)
					resize(&p.RangeProofs, n)
					resize(&p.Digests, n)
					if len(p.W) > 0 {
						resize(&p.W, n-1)
					}
					what = fmt.Sprintf("%d levels instead of %d", n, depth)
				case 2, 3:
					// Several range proofs are wrong, each in its own way
					for i := range p.RangeProofs {
						how := h.Int(c, "how", 0, 2)
						if how == 0 {
							l := h.PickLeaf(c, "element", h.Elements(p.RangeProofs[i]))
							h.Tamper(c, "element", l, nil)
							what += fmt.Sprintf("%s of range proof %d altered, ", l.Path, i)
						} else {
							what += fmt.Sprintf("%s in range proof %d, ", reshape(c, p.RangeProofs[i]), i)
						}
					}
					if shape(&p) == shape(&base.proof) {
						continue
					}
				default:
					what = reshape(c, &p)
					if shape(&p) == shape(&base.proof) {
						continue
					}
				}
				mode := h.Bool(c, "parallel")
				c.Class("parallel=%v", mode)
				parallel(mode, func() {
					malshaped(c, fmt.Sprintf("%s (parallel %v)", what, mode), func() error {
						return h.VerifyLiability(p, w.PP, id, base.V, base.W, h.Path)
					})
				})
			}
		},
	})
}
