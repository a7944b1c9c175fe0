package props

import (
	"testing"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"

	"verif/harness/h"
)

var poeParams = map[[4]int]*poe.PP{}

// poePP returns parameters for batches of m pairs of vectors of n entries.
func poePP(n, m, instance int) *poe.PP {
	key := [4]int{n, m, instance, h.Setup()}
	if poeParams[key] == nil {
		params := &poe.PP{
			PP: h.VC(n, instance),
			G:  common.RandGenVec(m, "POE G"),
			H:  common.RandGenVec(m, "POE H"),
			F:  common.RandGenVec(1, "POE F")[0],
		}
		params.SetupDigest()
		poeParams[key] = params
	}
	return poeParams[key]
}

// pair is a pair of committed vectors with positions.
type pair struct {
	v, w common.Vec
	V, W *math.G1
	I, J int
}

func (p *pair) commit(params *poe.PP) {
	p.V, p.W = h.MSM(params.PP.G1s[:len(p.v)], p.v), h.MSM(params.PP.G1s[:len(p.w)], p.w)
}

func (p *pair) same(q *pair) bool {
	return p.V.Equals(q.V) && p.W.Equals(q.W) && p.I == q.I && p.J == q.J
}

// equalPair draws two vectors with equal values at the positions.
func equalPair(c *h.C, params *poe.PP, n int) *pair {
	p := &pair{I: position(c, "I", n-1), J: position(c, "J", n-1)}
	switch h.Int(c, "pair", 0, 6) {
	case 0: // the same vector and position
		p.J = p.I
		p.v = vector(c, "v", n)
		p.w = h.CopyVec(p.v)
	case 1: // two positions of one vector
		p.v = vector(c, "v", n)
		p.v[p.J] = p.v[p.I].Copy()
		p.w = h.CopyVec(p.v)
	case 2: // padding
		p.v, p.w = make(common.Vec, n), make(common.Vec, n)
		p.v.Zero()
		p.w.Zero()
	case 3: // as in a tree: the last child and the first one of the parent
		p.I, p.J = n-2, h.Int(c, "J", 0, n-2)
		fallthrough
	default:
		p.v, p.w = vector(c, "v", n), vector(c, "w", n)
		p.w[p.J] = p.v[p.I].Copy()
	}
	p.commit(params)
	return p
}

// differ makes the pair's values differ by e.
func (p *pair) differ(params *poe.PP, e *math.Zr) {
	p.v[p.I] = h.Add(p.v[p.I], e)
	p.commit(params)
}

// challenger answers oracle queries and records them.
type challenger struct {
	answers []common.Vec
}

func (q *challenger) RO(gs common.G1v, integers []int, digest []byte, n int) common.Vec {
	res := poe.RO(gs, integers, digest, n)
	q.answers = append(q.answers, res)
	return res
}

// freedoms name what a forger chooses after it learned a challenge that binds all else.
var freedoms = []string{"nothing", "average", "first", "second", "V", "W", "mask of V", "mask of W", "C"}

func opened(params *poe.PP, i int, v common.Vec) *math.G1 {
	_, π := pp.Open(params.PP, i, v)
	return π
}

func plus(v common.Vec, x *math.Zr, w common.Vec) common.Vec {
	res := make(common.Vec, len(v))
	for i := range v {
		res[i] = h.Add(v[i], h.Mul(x, w[i]))
	}
	return res
}

// fixed is an oracle whose challenges are known from the beginning: x, and then ts.
type fixed struct {
	x  *math.Zr
	ts common.Vec
}

func (f *fixed) RO(_ common.G1v, _ []int, _ []byte, n int) common.Vec {
	if n == 1 {
		return common.Vec{f.x.Copy()}
	}
	return h.CopyVec(f.ts[:n])
}

// sharedWeights replaces the weights of some equations by those of others.
func sharedWeights(c *h.C, ts common.Vec) common.Vec {
	res := h.CopyVec(ts)
	mode := h.Pick(c, "weights", "own", "first", "second", "halves", "one", "unit")
	for i := range res {
		switch mode {
		case "first":
			res[i] = ts[i&^1]
		case "second":
			res[i] = ts[i|1]
		case "halves":
			res[i] = ts[i/2]
		case "one":
			res[i] = ts[0]
		case "unit":
			res[i] = h.ZrInt(1)
		}
	}
	c.Class("weights %s", mode)
	return res
}

// forgeEquality follows the protocol for any pair, and makes use of the given freedom.
// It may change the pair, but not into an equal one.
func forgeEquality(c *h.C, params *poe.PP, p *pair, what string) (*poe.Proof, *fixed) {
	n := len(p.v)
	com := func(v common.Vec) *math.G1 { return h.MSM(params.PP.G1s[:n], v) }
	mv, mw := make(common.Vec, n), make(common.Vec, n)
	mv.Zero()
	mw.Zero()
	mv[p.I] = h.NonZero(c, "u")
	mw[p.J] = mv[p.I].Copy()
	if what == "V" || what == "W" || what == "C" {
		mw[p.J] = h.NonZero(c, "u'")
	}
	mv[n-1], mw[n-1] = h.Add(mv[n-1], h.NonZero(c, "ν")), h.Add(mw[n-1], h.NonZero(c, "η"))
	proof := &poe.Proof{C: h.ZrInt(1), Ω: h.Identity(), V: com(mv), W: com(mw)}
	// ask returns the challenges the verifier derives at present
	ask := func() (*math.Zr, common.Vec) {
		q := &challenger{}
		e := &poe.Equality{RO: q.RO, PP: params, V: p.V, W: p.W, I: p.I, J: p.J}
		h.Attempt(func() error { return e.Verify(proof) })
		if len(q.answers) != 2 || len(q.answers[0]) < 1 || len(q.answers[1]) < 2 {
			return nil, nil
		}
		return q.answers[0][0], q.answers[1]
	}
	x, ts := ask()
	if x == nil {
		return nil, nil
	}
	av := func() *math.Zr { return h.Add(p.v[p.I], h.Mul(x, mv[p.I])) }
	aw := func() *math.Zr { return h.Add(p.w[p.J], h.Mul(x, mw[p.J])) }
	switch what {
	case "V":
		p.v[p.I] = h.Add(p.v[p.I], h.Sub(aw(), av()))
		p.V = com(p.v)
	case "W":
		p.w[p.J] = h.Add(p.w[p.J], h.Sub(av(), aw()))
		p.W = com(p.w)
	case "mask of V":
		mv[p.I] = h.Add(mv[p.I], h.Mul(h.Sub(aw(), av()), h.Inv(x)))
		proof.V = com(mv)
	case "mask of W":
		mw[p.J] = h.Add(mw[p.J], h.Mul(h.Sub(av(), aw()), h.Inv(x)))
		proof.W = com(mw)
	}
	proof.C = av()
	switch what {
	case "average":
		proof.C = h.Mul(h.Add(av(), aw()), h.Inv(h.ZrInt(2)))
	case "second":
		proof.C = aw()
	case "C":
		den := h.Add(ts[0], ts[1])
		if h.Big(den).Sign() == 0 {
			return nil, nil
		}
		proof.C = h.Mul(h.Add(h.Mul(ts[0], av()), h.Mul(ts[1], aw())), h.Inv(den))
	default:
		_, ts = ask()
	}
	if what == "average" || what == "second" {
		_, ts = ask()
	}
	if what == "average" {
		// Averages satisfy the equations if both have the same weight
		ts = sharedWeights(c, ts)
	}
	if what == "first" || what == "second" {
		// Only one of the equations is satisfied
		k := 0
		if what == "second" {
			k = 1
		}
		ts = h.CopyVec(ts)
		if h.Bool(c, "only") {
			ts[1-k] = zero
		}
	}
	ov, ow := opened(params, p.I, plus(p.v, x, mv)), opened(params, p.J, plus(p.w, x, mw))
	proof.Ω = h.AddG(ov.Mul(ts[0]), ow.Mul(ts[1]))
	return proof, &fixed{x, ts}
}

func singleEquality(params *poe.PP, p *pair) *poe.Equality {
	return &poe.Equality{RO: poe.RO, PP: params, V: p.V, W: p.W, I: p.I, J: p.J}
}

func TestC19(t *testing.T) {
	sizes := []int{3, 4, 5, 5, 9, 17}
	props := []h.Prop{{
		Name: "bound", N: h.N{Quick: 1000, Thorough: 40000},
		Rule: "two vectors of 3 to 17 entries (equal ones, one vector, zero vectors, zero values included) with equal values at drawn positions; the proof must verify, then the statement or an element is altered; non-trivial when a vector is not zero",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := poePP(n, 2, 0)
			p := equalPair(c, params, n)
			c.Desc("v=%v w=%v I=%d J=%d", p.v, p.w, p.I, p.J)
			e := singleEquality(params, p)
			print := h.Fingerprint(params, p, e.V, e.W)
			proof := e.Prove(p.v, p.w)
			proofPrint := h.Fingerprint(proof)
			if err := singleEquality(params, p).Verify(proof); err != nil {
				c.Fatalf("honest equality proof refused: %v", err)
			}
			if h.Fingerprint(params, p, e.V, e.W) != print || h.Fingerprint(proof) != proofPrint {
				c.Fatalf("proving or verifying modified its inputs")
			}
			c.Eval(!isZero(p.v) || !isZero(p.w), "honest")
			p2 := equalPair(c, params, n)
			donor := h.Walk(singleEquality(params, p2).Prove(p2.v, p2.w))
			for k := 0; k < 4; k++ {
				alt, q, pps := h.Copy(proof), *p, params
				what := ""
				switch h.Int(c, "kind", 0, 9) {
				case 0:
					q.V, what = h.AddG(p.V, h.Curve.GenG1.Mul(h.NonZero(c, "δ"))), "V"
				case 1:
					q.W, what = h.AddG(p.W, h.Curve.GenG1.Mul(h.NonZero(c, "δ"))), "W"
				case 2:
					q.I, what = position(c, "I'", n), "I"
				case 3:
					q.J, what = position(c, "J'", n), "J"
				case 4:
					q.V, q.W, q.I, q.J, what = p.W, p.V, p.J, p.I, "exchanged"
				case 5:
					q.V, q.W, what = p.W, p.V, "exchanged commitments"
				case 6:
					pps, what = poePP(n, 2, 1), "parameters"
				default:
					leaf := h.PickLeaf(c, "leaf", h.Elements(alt))
					what = leaf.Pattern + " " + h.Tamper(c, "t", leaf, donor)
				}
				if pps == params && q.same(p) && h.Fingerprint(alt) == proofPrint {
					continue
				}
				if ok, _ := h.Attempt(func() error { return singleEquality(pps, &q).Verify(alt) }); ok {
					c.Fatalf("equality proof accepted: %s altered", what)
				}
				c.Class("%s", what)
				c.Eval(true, "%s %d", what, k)
			}
			if err := singleEquality(params, p).Verify(proof); err != nil {
				c.Fatalf("after altered ones, the honest equality proof is refused: %v", err)
			}
		},
	}, {
		Name: "false", N: h.N{Quick: 1200, Thorough: 50000},
		Rule: "vectors whose values at the positions differ: the prover must refuse, and a reference prover that commits to one component after learning a challenge, answers with the average, or satisfies one side only, must be refused; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := poePP(n, 2, 0)
			p := equalPair(c, params, n)
			if h.Chance(c, "first", 2) {
				cal := *p
				if proof, _ := forgeEquality(c, params, &cal, "nothing"); proof == nil || singleEquality(params, &cal).Verify(proof) != nil {
					c.Class("uncalibrated")
				}
			}
			if p.V.Equals(p.W) && p.I == p.J {
				p.w = vector(c, "w2", n)
				p.w[p.J] = p.v[p.I].Copy()
			}
			p.differ(params, h.NonZero(c, "e"))
			c.Desc("v=%v w=%v I=%d J=%d", p.v, p.w, p.I, p.J)
			what := h.Pick(c, "what", append([]string{"prover"}, freedoms...)...)
			if what == "prover" {
				if panicked, rt, msg := h.Panics(func() { singleEquality(params, p).Prove(p.v, p.w) }); !panicked || rt {
					c.Fatalf("the prover did not refuse unequal values: %s", msg)
				}
				c.Class("prover refuses")
				c.Eval(true, "prover")
				return
			}
			proof, known := forgeEquality(c, params, p, what)
			if proof == nil || h.SameZr(p.v[p.I], p.w[p.J]) {
				c.Class("no forgery")
				return
			}
			if what != "nothing" {
				// The forgery would be one if the challenges were known
				e := singleEquality(params, p)
				e.RO = known.RO
				if ok, _ := h.Attempt(func() error { return e.Verify(proof) }); ok {
					c.Class("%s would do", what)
				} else {
					c.Class("%s would not do", what)
				}
			}
			if ok, _ := h.Attempt(func() error { return singleEquality(params, p).Verify(proof) }); ok {
				c.Fatalf("equality of different values accepted: free to choose: %s", what)
			}
			c.Class("%s", what)
			c.Eval(true, "%s", what)
		},
	}, {
		Name: "transcript", N: h.N{Quick: 300, Thorough: 10000},
		Rule: "proofs of one pair which differ in one random draw, or in the blinding of one of the commitments: where a mask or a commitment differs, the answers do; every case is non-trivial",
		Check: func(c *h.C) {
			n := size(c, sizes...)
			params := poePP(n, 2, 0)
			p := equalPair(c, params, n)
			prove := func() interface{} { return singleEquality(params, p).Prove(p.v, p.w) }
			k := reacts(c, prove, []round{{[]string{".V", ".W"}, []string{".C", ".Ω"}}}, func(reads int) int {
				return h.Int(c, "draw", 0, reads-1)
			}, 3)
			h.SetRand(7)
			base := prove()
			p.v, p.w = h.CopyVec(p.v), h.CopyVec(p.w)
			if h.Bool(c, "of V") {
				p.v[n-1] = h.Add(p.v[n-1], h.NonZero(c, "δ"))
			} else {
				p.w[n-1] = h.Add(p.w[n-1], h.NonZero(c, "δ"))
			}
			p.commit(params)
			h.SetRand(7)
			answered(c, base, prove(), []round{{nil, []string{".C", ".Ω"}}}, "blinding")
			c.Desc("v=%v w=%v I=%d J=%d", p.v, p.w, p.I, p.J)
			c.Eval(k > 0, "")
		},
	}}
	h.Run(t, append(props,
		large(props, "bound", h.N{Quick: 24, Thorough: 600}, []int{129, 257, 300, 513}, nil, "over 129 to 513 entries"),
		large(props, "false", h.N{Quick: 32, Thorough: 800}, []int{129, 257, 300, 513}, nil, "over 129 to 513 entries"),
	)...)
}

func batch(params *poe.PP, ps []*pair) *poe.Equalities {
	e := &poe.Equalities{RO: poe.RO, PP: params}
	for _, p := range ps {
		e.V, e.W, e.I, e.J = append(e.V, p.V), append(e.W, p.W), append(e.I, p.I), append(e.J, p.J)
	}
	return e
}

func openings(ps []*pair) (vs, ws []common.Vec) {
	for _, p := range ps {
		vs, ws = append(vs, p.v), append(ws, p.w)
	}
	return
}

// drawBatch draws m pairs; some of them are repeated, and some are of the vectors of others
// at other positions.
func drawBatch(c *h.C, params *poe.PP, n, m int) []*pair {
	var ps []*pair
	for i := 0; i < m; i++ {
		kind := h.Int(c, "repeat", 0, 8)
		if i == 0 || kind > 3 {
			ps = append(ps, equalPair(c, params, n))
			continue
		}
		k := i - 1
		if h.Bool(c, "earlier") {
			k = h.Int(c, "repeated", 0, i-1)
		}
		q := *ps[k]
		q.v, q.w = h.CopyVec(q.v), h.CopyVec(q.w)
		switch kind {
		case 1: // the same W elsewhere
			q.I, q.J = position(c, "I", n-1), position(c, "J", n-1)
			q.v = vector(c, "v", n)
			q.v[q.I] = q.w[q.J].Copy()
		case 2: // the same V elsewhere
			q.I, q.J = position(c, "I", n-1), position(c, "J", n-1)
			q.w = vector(c, "w", n)
			q.w[q.J] = q.v[q.I].Copy()
		case 3: // both elsewhere, if the values allow it
			I, J := position(c, "I", n-1), position(c, "J", n-1)
			if h.SameZr(q.v[I], q.w[J]) {
				q.I, q.J = I, J
			}
		}
		q.commit(params)
		ps = append(ps, &q)
	}
	return ps
}

// forgeBatch follows the protocol for any pairs, where what the k-th pair needs to be
// accepted is made up with the given freedom.
func forgeBatch(c *h.C, params *poe.PP, ps []*pair, k int, what string) (*poe.AggregatedProof, *fixed) {
	m, n := len(ps), len(ps[0].v)
	com := func(v common.Vec) *math.G1 { return h.MSM(params.PP.G1s[:n], v) }
	mv, mw := make([]common.Vec, m), make([]common.Vec, m)
	Vaggr, Waggr := make(common.G1v, m), make(common.G1v, m)
	u := make(common.Vec, m)
	commit := func(l int) {
		Vaggr[l], Waggr[l] = com(mv[l]), com(mw[l])
	}
	for l, p := range ps {
		r := common.RandVec(4)
		mv[l], mw[l] = make(common.Vec, n), make(common.Vec, n)
		mv[l].Zero()
		mw[l].Zero()
		u[l] = r[0]
		mv[l][p.I], mw[l][p.J] = r[0], r[0].Copy()
		if l == k && (what == "V" || what == "W" || what == "C") {
			mw[l][p.J] = r[1]
		}
		mv[l][n-1], mw[l][n-1] = h.Add(mv[l][n-1], r[2]), h.Add(mw[l][n-1], r[3])
		commit(l)
	}
	r1, r2 := h.RandZr(), h.RandZr()
	U, V := h.Identity(), h.Identity()
	ipaPP := &bp.PP{U: common.RandGenVec(1, "u")[0], G: params.G, H: params.H}
	ipaPP.RecomputeDigest()
	dummy := make(common.Vec, m)
	for l := range dummy {
		dummy[l] = h.ZrInt(1)
	}
	ipp := bp.NewInnerProdArgument(ipaPP, dummy, dummy).Prove()
	build := func(U, V, Ω *math.G1, cc, ρ *math.Zr, ipp *bp.InnerProductProof) *poe.AggregatedProof {
		proof := &poe.AggregatedProof{}
		if !h.SetFields(proof, map[string]interface{}{"IPP": ipp, "c": cc, "ρ": ρ, "U": U, "V": V, "Ω": Ω,
			"Waggr": Waggr, "Vaggr": Vaggr}) {
			return nil
		}
		return proof
	}
	ask := func() (*math.Zr, common.Vec) {
		proof := build(U, V, h.Identity(), h.ZrInt(1), h.ZrInt(1), ipp)
		if proof == nil {
			return nil, nil
		}
		q := &challenger{}
		e := batch(params, ps)
		e.RO = q.RO
		h.Attempt(func() error { return e.Verify(proof) })
		if len(q.answers) != 2 || len(q.answers[0]) < 1 || len(q.answers[1]) < m {
			return nil, nil
		}
		ts := q.answers[1]
		if len(ts) < 2*m {
			// One weight for both sides of a pair
			var twice common.Vec
			for _, t := range ts[:m] {
				twice = append(twice, t, t)
			}
			ts = twice
		}
		return q.answers[0][0], ts
	}
	x, _ := ask()
	if x == nil {
		return nil, nil
	}
	p := ps[k]
	av := func(l int) *math.Zr { return h.Add(ps[l].v[ps[l].I], h.Mul(x, mv[l][ps[l].I])) }
	aw := func(l int) *math.Zr { return h.Add(ps[l].w[ps[l].J], h.Mul(x, mw[l][ps[l].J])) }
	switch what {
	case "V":
		p.v[p.I] = h.Add(p.v[p.I], h.Sub(aw(k), av(k)))
		p.V = com(p.v)
	case "W":
		p.w[p.J] = h.Add(p.w[p.J], h.Sub(av(k), aw(k)))
		p.W = com(p.w)
	case "mask of V":
		mv[k][p.I] = h.Add(mv[k][p.I], h.Mul(h.Sub(aw(k), av(k)), h.Inv(x)))
		commit(k)
	case "mask of W":
		mw[k][p.J] = h.Add(mw[k][p.J], h.Mul(h.Sub(av(k), aw(k)), h.Inv(x)))
		commit(k)
	}
	a := make(common.Vec, m)
	for l := range a {
		a[l] = av(l)
	}
	switch what {
	case "average":
		for l := range a {
			a[l] = h.Mul(h.Add(av(l), aw(l)), h.Inv(h.ZrInt(2)))
		}
	case "second":
		for l := range a {
			a[l] = aw(l)
		}
	}
	commitUV := func() {
		U = h.AddG(params.F.Mul(r1), h.MSM(params.G, u))
		shown := make(common.Vec, m)
		for l := range shown {
			shown[l] = h.Sub(a[l], h.Mul(x, u[l]))
		}
		V = h.AddG(params.F.Mul(r2), h.MSM(params.G, shown))
	}
	commitUV()
	_, ts := ask()
	if ts == nil {
		return nil, nil
	}
	ts = h.CopyVec(ts[:2*m])
	if what == "average" {
		ts = sharedWeights(c, ts)
	}
	// What the pairing equation makes of the openings
	product := func() *math.Zr {
		sum := zero
		for l := range ps {
			sum = h.Add(sum, h.Add(h.Mul(ts[2*l], av(l)), h.Mul(ts[2*l+1], aw(l))))
		}
		return sum
	}
	b := make(common.Vec, m)
	setB := func() {
		for l := range b {
			b[l] = h.Add(ts[2*l], ts[2*l+1])
		}
	}
	setB()
	if what == "C" || what == "own commitment" {
		// Choose an entry to make up for the difference
		if h.Big(b[k]).Sign() == 0 {
			return nil, nil
		}
		a[k] = h.Add(a[k], h.Mul(h.Sub(product(), a.InnerProd(b)), h.Inv(b[k])))
		if what == "C" {
			// Either of both commitments makes up for it, if it is not bound
			if h.Bool(c, "by U") {
				shown := make(common.Vec, m)
				for l := range u {
					shown[l] = h.Sub(av(l), h.Mul(x, u[l]))
				}
				u[k] = h.Mul(h.Sub(a[k], shown[k]), h.Inv(x))
			}
			commitUV()
		}
	}
	if what == "first" || what == "second" {
		// Only one equation of each pair is satisfied
		for l := range ts {
			if (l%2 == 0) == (what == "second") {
				ts[l] = zero
			}
		}
		setB()
	}
	Ω := h.Identity()
	for l, q := range ps {
		Ω = h.AddG(Ω, opened(params, q.I, plus(q.v, x, mv[l])).Mul(ts[2*l]), opened(params, q.J, plus(q.w, x, mw[l])).Mul(ts[2*l+1]))
	}
	ρ := h.Neg(h.Add(h.Mul(r1, x), r2))
	P := h.AddG(params.F.Mul(ρ), U.Mul(x), V, h.MSM(params.H, b))
	ipa := bp.NewInnerProdArgument(ipaPP, a, b)
	cc := ipa.C
	switch what {
	case "own commitment":
		// a proof for the needed product, but about another commitment
	case "other product":
		// a proof about the right commitment, but another product
		ipa.P = P
		cc = product()
	case "claimed product":
		ipa.P = P
		cc = product()
		ipa.C = cc
	default:
		ipa.P = P
	}
	return build(U, V, Ω, cc, ρ, ipa.Prove()), &fixed{x, ts}
}

func TestC20(t *testing.T) {
	sizes := []int{3, 4, 5, 5, 9}
	ms := []int{2, 2, 4, 4, 8}
	props := []h.Prop{{
		Name: "bound", N: h.N{Quick: 500, Thorough: 20000},
		Rule: "batches of 2, 4 or 8 pairs (repeated pairs, vectors that recur at other positions, one vector, padding with identities included) with equal values; the proof must verify, then the statement, its order or an element is altered; non-trivial when not all vectors are zero",
		Check: func(c *h.C) {
			n, m := size(c, sizes...), count(c, ms...)
			params := poePP(n, m, 0)
			ps := drawBatch(c, params, n, m)
			nontrivial := false
			for _, p := range ps {
				nontrivial = nontrivial || !isZero(p.v) || !isZero(p.w)
				c.Desc("v=%v w=%v I=%d J=%d", p.v, p.w, p.I, p.J)
			}
			e := batch(params, ps)
			vs, ws := openings(ps)
			print := h.Fingerprint(params, &ps, e)
			proof := e.Prove(vs, ws)
			proofPrint := h.Fingerprint(proof)
			if err := batch(params, ps).Verify(proof); err != nil {
				c.Fatalf("honest batch of %d equalities refused: %v", m, err)
			}
			if h.Fingerprint(params, &ps, e) != print || h.Fingerprint(proof) != proofPrint {
				c.Fatalf("proving or verifying modified its inputs")
			}
			c.Eval(nontrivial, "honest")
			ps2 := drawBatch(c, params, n, m)
			vs2, ws2 := openings(ps2)
			donor := h.Walk(batch(params, ps2).Prove(vs2, ws2))
			for k := 0; k < 5; k++ {
				alt, qs, pps := h.Copy(proof), make([]*pair, m), params
				for l := range ps {
					q := *ps[l]
					qs[l] = &q
				}
				i, j := position(c, "i", m), position(c, "j", m)
				what := ""
				switch h.Int(c, "kind", 0, 12) {
				case 0:
					qs[i].V, what = h.AddG(qs[i].V, h.Curve.GenG1.Mul(h.NonZero(c, "δ"))), "V"
				case 1:
					qs[i].W, what = h.AddG(qs[i].W, h.Curve.GenG1.Mul(h.NonZero(c, "δ"))), "W"
				case 2:
					qs[i].I, what = position(c, "I'", n), "I"
				case 3:
					qs[i].J, what = position(c, "J'", n), "J"
				case 4:
					qs[i], qs[j], what = qs[j], qs[i], "order"
				case 5:
					qs[i].V, qs[i].W, qs[i].I, qs[i].J, what = ps[i].W, ps[i].V, ps[i].J, ps[i].I, "exchanged"
				case 6:
					qs[i].V, qs[j].V, what = ps[j].V, ps[i].V, "order of V"
				case 7:
					qs[i].I, qs[j].I, what = ps[j].I, ps[i].I, "order of I"
				case 8:
					pps, what = poePP(n, m, 1), "parameters"
				default:
					leaf := h.PickLeaf(c, "leaf", h.Elements(alt))
					what = leaf.Pattern + " " + h.Tamper(c, "t", leaf, donor)
				}
				unchanged := pps == params && h.Fingerprint(alt) == proofPrint
				for l := range qs {
					unchanged = unchanged && qs[l].same(ps[l])
				}
				if unchanged {
					continue
				}
				if ok, _ := h.Attempt(func() error { return batch(pps, qs).Verify(alt) }); ok {
					c.Fatalf("batch accepted: %s altered (pairs %d, %d)", what, i, j)
				}
				c.Class("%s", what)
				c.Eval(true, "%s %d", what, k)
			}
			if err := batch(params, ps).Verify(proof); err != nil {
				c.Fatalf("after altered ones, the honest batch is refused: %v", err)
			}
		},
	}, {
		Name: "false", N: h.N{Quick: 800, Thorough: 30000},
		Rule: "batches in which one or two pairs differ (also by errors that cancel out); the proof made for them by the prover, or by a reference prover that chooses a component after a challenge, answers with averages, or attaches an inner product proof for another commitment or product, must be refused; every case is non-trivial",
		Check: func(c *h.C) {
			n, m := size(c, sizes...), count(c, ms...)
			params := poePP(n, m, 0)
			ps := drawBatch(c, params, n, m)
			what := h.Pick(c, "what", append([]string{"prover", "prover", "cancelling", "own commitment", "other product", "claimed product"}, freedoms...)...)
			if what != "prover" && what != "cancelling" {
				cal := make([]*pair, m)
				for l := range ps {
					q := *ps[l]
					cal[l] = &q
				}
				if proof, _ := forgeBatch(c, params, cal, 0, "nothing"); proof == nil || batch(params, cal).Verify(proof) != nil {
					c.Class("uncalibrated")
				}
			}
			k := position(c, "k", m)
			fresh := func(k int, e *math.Zr) {
				p := *ps[k]
				if p.V.Equals(p.W) && p.I == p.J {
					p.w = vector(c, "w2", n)
					p.w[p.J] = p.v[p.I].Copy()
				}
				p.v, p.w = h.CopyVec(p.v), h.CopyVec(p.w)
				if h.Bool(c, "side") {
					p.v[p.I] = h.Add(p.v[p.I], e)
				} else {
					p.w[p.J] = h.Sub(p.w[p.J], e)
				}
				p.commit(params)
				ps[k] = &p
			}
			e := h.NonZero(c, "e")
			fresh(k, e)
			if what == "cancelling" {
				l := (k + h.Int(c, "other", 1, m-1)) % m
				fresh(l, h.Pick(c, "e2", h.Neg(e), e))
			}
			if h.SameZr(ps[k].v[ps[k].I], ps[k].w[ps[k].J]) {
				c.Fatalf("harness: the pair is equal")
			}
			var proof *poe.AggregatedProof
			if what == "prover" || what == "cancelling" {
				vs, ws := openings(ps)
				if panicked, _, _ := h.Panics(func() { proof = batch(params, ps).Prove(vs, ws) }); panicked {
					c.Class("prover refuses")
					return
				}
			} else {
				var known *fixed
				proof, known = forgeBatch(c, params, ps, k, what)
				if proof == nil || h.SameZr(ps[k].v[ps[k].I], ps[k].w[ps[k].J]) {
					c.Class("no forgery")
					return
				}
				if what != "nothing" {
					// The forgery would be one if the challenges were known
					e := batch(params, ps)
					e.RO = known.RO
					if ok, _ := h.Attempt(func() error { return e.Verify(proof) }); ok {
						c.Class("%s would do", what)
					} else {
						c.Class("%s would not do", what)
					}
				}
			}
			if ok, _ := h.Attempt(func() error { return batch(params, ps).Verify(proof) }); ok {
				c.Fatalf("batch of %d accepted although pair %d differs: %s", m, k, what)
			}
			c.Desc("n=%d m=%d k=%d I=%d J=%d e=%v", n, m, k, ps[k].I, ps[k].J, e)
			c.Class("%s", what)
			c.Eval(true, "%s", what)
		},
	}, {
		Name: "transcript", N: h.N{Quick: 240, Thorough: 8000},
		Rule: "proofs of one batch which differ in one random draw, or in the blinding of one of the commitments: where a mask or a commitment differs, all answers of this and later rounds do; every case is non-trivial",
		Check: func(c *h.C) {
			n, m := size(c, sizes...), count(c, ms...)
			params := poePP(n, m, 0)
			ps := drawBatch(c, params, n, m)
			prove := func() interface{} {
				vs, ws := openings(ps)
				return batch(params, ps).Prove(vs, ws)
			}
			last := []string{".c", ".Ω", ".IPP.LRs", ".IPP.a", ".IPP.b"}
			k := reacts(c, prove, []round{
				{[]string{".Vaggr", ".Waggr"}, append([]string{".ρ"}, last...)},
				{[]string{".U", ".V"}, last},
			}, func(reads int) int { return h.Int(c, "draw", 0, reads-1) }, 3)
			h.SetRand(7)
			base := prove()
			at := h.Int(c, "at", 0, m-1)
			p := *ps[at]
			p.v, p.w = h.CopyVec(p.v), h.CopyVec(p.w)
			if h.Bool(c, "of V") {
				p.v[n-1] = h.Add(p.v[n-1], h.NonZero(c, "δ"))
			} else {
				p.w[n-1] = h.Add(p.w[n-1], h.NonZero(c, "δ"))
			}
			p.commit(params)
			ps[at] = &p
			h.SetRand(7)
			answered(c, base, prove(), []round{{nil, append([]string{".ρ"}, last...)}}, "blinding of pair %d", at)
			c.Desc("n=%d m=%d I=%d J=%d", n, m, ps[at].I, ps[at].J)
			c.Eval(k > 0, "")
		},
	}, {
		Name: "shape", N: h.N{Quick: 240, Thorough: 8000},
		Rule: "proofs with missing or surplus elements are refused without a panic; every case is non-trivial",
		Check: func(c *h.C) {
			n, m := size(c, sizes...), count(c, ms...)
			params := poePP(n, m, 0)
			ps := drawBatch(c, params, n, m)
			vs, ws := openings(ps)
			proof := batch(params, ps).Prove(vs, ws)
			what := alterLength(c, listsOf(proof), nil)
			if what == "" {
				return
			}
			if err := batch(params, ps).Verify(proof); err == nil {
				c.Fatalf("batch of another shape accepted: %s", what)
			}
			c.Desc("n=%d m=%d I=%d J=%d", n, m, ps[0].I, ps[0].J)
			c.Eval(true, "%s", what)
		},
	}}
	h.Run(t, append(props,
		large(props, "bound", h.N{Quick: 24, Thorough: 600}, []int{4, 33, 300}, []int{16, 32}, "over up to 32 pairs of up to 300 entries"),
		large(props, "false", h.N{Quick: 32, Thorough: 800}, []int{4, 33, 300}, []int{16, 32}, "over up to 32 pairs of up to 300 entries"),
		many(large(props, "bound", h.N{Quick: 4, Thorough: 100}, []int{4}, []int{64, 128, 512}, "over up to 512 pairs")),
	)...)
}
