package props

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	math "github.com/IBM/mathlib"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/sum"

	"verif/harness/h"
)

func pairing(a *math.G1, b *math.G2) *math.Gt {
	return h.Curve.FExp(h.Curve.Pairing(b, a))
}

func addG2(gs []*math.G2, ks common.Vec) *math.G2 {
	res := gs[0].Mul(ks[0])
	for i := 1; i < len(gs); i++ {
		res.Add(gs[i].Mul(ks[i]))
	}
	return res
}

// wellFormed checks commitment parameters for vectors of n elements.
func wellFormed(c *h.C, params *pp.PP, n int) {
	g1, g2 := h.Curve.GenG1, h.Curve.GenG2
	if params.N != n || len(params.G1s) != 2*n || len(params.G2s) != n || params.Gt == nil {
		c.Fatalf("parameters for %d: N=%d, %d and %d elements", n, params.N, len(params.G1s), len(params.G2s))
	}
	at := params.G1s
	if !at[n].Equals(g1) {
		c.Fatalf("the power %d is not withheld", n+1)
	}
	// A random combination is enough for each relation
	ρ := common.RandVec(2 * n)
	// at[i] and G2s[i] have equal exponents for i < n
	if !pairing(h.MSM(at[:n], ρ[:n]), g2).Equals(pairing(g1, addG2(params.G2s, ρ[:n]))) {
		c.Fatalf("the powers in both groups differ")
	}
	// at[i+1] = α at[i]
	if n > 1 {
		if !pairing(h.MSM(at[1:n], ρ[:n-1]), g2).Equals(pairing(h.MSM(at[:n-1], ρ[:n-1]), params.G2s[0])) {
			c.Fatalf("the elements are not consecutive powers")
		}
		// at[j] has the power j+1 for j > n
		if !pairing(h.MSM(at[n+1:], ρ[:n-1]), g2).Equals(pairing(at[n-1], addG2(params.G2s[1:], ρ[:n-1]))) {
			c.Fatalf("the upper elements are not consecutive powers")
		}
	}
	if !params.Gt.Equals(pairing(at[0], params.G2s[n-1])) {
		c.Fatalf("Gt is not of the withheld power")
	}
	for i, g := range at {
		if pairing(g, g2).Equals(params.Gt) {
			c.Fatalf("element %d is the withheld power", i)
		}
		if n > 40 && i > 8 && i != n-1 && i != n+1 {
			break
		}
	}
	seen := map[string]string{string(h.Identity().Bytes()): "the identity", string(g1.Bytes()): "the generator"}
	for i, g := range at {
		if i == n {
			continue
		}
		if other, dup := seen[string(g.Bytes())]; dup {
			c.Fatalf("element %d is %s", i, other)
		}
		seen[string(g.Bytes())] = fmt.Sprintf("element %d", i)
	}
	print := append([]byte{}, params.Digest...)
	again := *params
	again.SetupDigest()
	if len(print) == 0 || !bytes.Equal(print, again.Digest) {
		c.Fatalf("the digest is not that of the parameters")
	}
}

// trivial lists the elements nobody must use as a generator: small multiples of the
// standard generator.
var trivialG1s map[string]int

func trivialG1() map[string]int {
	if trivialG1s == nil {
		trivialG1s = map[string]int{}
		x := h.Identity()
		for i := 0; i <= 256; i++ {
			trivialG1s[string(x.Bytes())] = i
			trivialG1s[string(h.SubG(h.Identity(), x).Bytes())] = -i
			x = h.AddG(x, h.Curve.GenG1)
		}
	}
	return trivialG1s
}

// distinct fails if generators coincide, are inverse to each other or trivial.
func distinct(c *h.C, leaves []h.Leaf) {
	seen := map[string]string{}
	for _, l := range leaves {
		if l.Nil() {
			c.Fatalf("%s is missing", l.Path)
		}
		g := l.V.Interface().(*math.G1)
		b := string(g.Bytes())
		if k, bad := trivialG1()[b]; bad {
			c.Fatalf("%s is %d times the generator", l.Path, k)
		}
		if other, dup := seen[b]; dup {
			c.Fatalf("%s and %s are the same", l.Path, other)
		}
		seen[b] = l.Path
		seen[string(h.SubG(h.Identity(), g).Bytes())] = "the inverse of " + l.Path
	}
}

// ownG1s are the elements of parameters without the copies of shared ones.
func ownG1s(params *pol.PublicParams) []h.Leaf {
	var res []h.Leaf
	skip := fmt.Sprintf(".PPPP.G1s[%d]", params.Fanout+2)
	for _, l := range h.Walk(params) {
		if l.Kind != "G1" || l.Unexported() || l.Path == skip || strings.HasPrefix(l.Path, ".POEPP.PP.") ||
			strings.HasPrefix(l.Path, ".SAPP.Gs") || l.Path == ".SAPP.F" ||
			strings.HasPrefix(l.Path, ".RPPP.Gs") || l.Path == ".RPPP.F" {
			continue
		}
		res = append(res, l)
	}
	return res
}

// hashed are the elements of parameters that do not depend on the secret.
func hashed(params *pol.PublicParams) []h.Leaf {
	var res []h.Leaf
	for _, l := range ownG1s(params) {
		if !strings.HasPrefix(l.Path, ".PPPP.") {
			res = append(res, l)
		}
	}
	return res
}

func checkParams(c *h.C, params *pol.PublicParams, f, depth int) {
	if params.Fanout != f {
		c.Fatalf("fan-out %d instead of %d", params.Fanout, f)
	}
	n := f + 1
	if params.POEPP.PP == nil || h.Fingerprint(params.POEPP.PP) != h.Fingerprint(params.PPPP) {
		c.Fatalf("the equality parameters have other commitment parameters")
	}
	same := func(what string, gs common.G1v, F *math.G1) {
		if len(gs) != n {
			c.Fatalf("%s has %d elements for %d values", what, len(gs), n)
		}
		for i, g := range gs {
			if !g.Equals(params.PPPP.G1s[i]) {
				c.Fatalf("%s: element %d is not the commitment's", what, i)
			}
		}
		if !F.Equals(params.PPPP.G1s[n]) {
			c.Fatalf("%s: the blinding element is not the commitment's", what)
		}
	}
	same("SAPP", params.SAPP.Gs, params.SAPP.F)
	same("RPPP", params.RPPP.Gs, params.RPPP.F)
	if len(params.SAPP.H) != n || len(params.RPPP.Hs) != 64*n || len(params.RPPP.Fs) != 64*n {
		c.Fatalf("%d, %d, %d generators for %d values", len(params.SAPP.H), len(params.RPPP.Hs), len(params.RPPP.Fs), n)
	}
	m := 2
	for m < depth-1 {
		m *= 2
	}
	if len(params.POEPP.G) != m || len(params.POEPP.H) != m {
		c.Fatalf("equality parameters for %d and %d pairs instead of %d", len(params.POEPP.G), len(params.POEPP.H), m)
	}
	ones := make(common.Vec, n)
	for i := range ones {
		ones[i] = h.ZrInt(1)
	}
	ones[n-1] = h.ZrInt(-1)
	if !params.SAPP.B.Equals(h.MSM(params.SAPP.H, ones)) {
		c.Fatalf("B does not state that the last value is the sum of the others")
	}
	again := *params.POEPP
	again.SetupDigest()
	if len(params.POEPP.Digest) == 0 || !bytes.Equal(again.Digest, params.POEPP.Digest) {
		c.Fatalf("the digest of the equality parameters is not theirs")
	}
	if len(params.SAPP.Digest) == 0 || len(params.RPPP.Digest()) == 0 {
		c.Fatalf("no digest")
	}
	distinct(c, ownG1s(params))
}

func checkMapping(c *h.C, mapping func(string) []uint16, f int, dense bool) {
	id, alien := h.DenseID(c, "id"), h.HexID(c, "hex")
	want := sparse.DigitPath(uint16(f))
	if !dense {
		id, alien = alien, id
		want = sparse.HexId2PathForFanOut(uint16(f))
	}
	path, refused, msg := mapped(mapping, id)
	if refused {
		c.Fatalf("%s refused: %s", id, msg)
	}
	if !samePath(path, want(id)) {
		c.Fatalf("%s is mapped to %v", id, path)
	}
	depth := pol64(f)
	if dense {
		depth = sparse.DigitPathLen(uint16(f))
	}
	if len(path) != depth {
		c.Fatalf("%s has a path of %d instead of %d", id, len(path), depth)
	}
	if _, refused, _ := mapped(mapping, alien); !refused {
		c.Fatalf("the identifier %s of the other type is mapped", alien)
	}
}

// within fails if f takes too long.
func within(c *h.C, limit time.Duration, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			panic(r)
		}
	case <-time.After(limit):
		c.Fatalf("%s did not end", what)
	}
}

func TestC23(t *testing.T) {
	generate := func(f int, dense bool) (mapping func(string) []uint16, params *pol.PublicParams) {
		if dense {
			return pol.GeneratePublicParams(uint16(f), pol.Dense)
		}
		return pol.GeneratePublicParams(uint16(f), pol.Sparse)
	}
	hashes := map[string][]h.Leaf{}
	props := []h.Prop{{
		Name: "generated", N: h.N{Quick: 40, Thorough: 1500},
		Rule: "parameters of fan-outs 3 to 127 (2047 in thorough) and either type, generated from drawn randomness: powers, withheld power, shared elements, lengths, mapping, distinctness of all generators; compared with a second generation of the same and of other randomness; every case is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 3, 3, 7, 7, 15, 31)
			if h.Int(c, "large", 0, 11) == 0 {
				f = h.Pick(c, "large f", 63, 127)
			}
			if h.Thorough && h.Int(c, "huge", 0, 49) == 0 {
				f = h.Pick(c, "huge f", 255, 511, 1023, 2047)
			}
			if largeN != nil {
				f = size(c)
			}
			dense := h.Bool(c, "dense")
			depth := sparse.DigitPathLen(uint16(f))
			if !dense {
				depth = sparse.ExpectedHexPathLengthByFanOut[uint16(f)]
			}
			h.SetRand(uint64(h.Int(c, "setup", 0, 1<<30)))
			mapping, params := generate(f, dense)
			if drawn, _ := h.Drawn(); drawn < 32 {
				c.Fatalf("the secret was made of %d random bytes", drawn)
			}
			wellFormed(c, params.PPPP, f+2)
			checkParams(c, params, f, depth)
			for i := 0; i < 3; i++ {
				checkMapping(c, mapping, f, dense)
			}
			// Hashed generators are the same every time
			key := fmt.Sprint(f, dense)
			mine := hashed(params)
			if theirs, ok := hashes[key]; ok {
				if len(mine) != len(theirs) {
					c.Fatalf("%d generators, formerly %d", len(mine), len(theirs))
				}
				for i := range mine {
					if !bytes.Equal(mine[i].Bytes(), theirs[i].Bytes()) {
						c.Fatalf("%s is not reproducible", mine[i].Path)
					}
				}
				c.Class("reproduced")
			} else {
				hashes[key] = mine
			}
			print := h.Fingerprint(params)
			if f <= 31 {
				_, other := generate(f, dense)
				for i, a := range params.PPPP.G1s {
					for j, b := range other.PPPP.G1s {
						if a.Equals(b) && i != f+2 && j != f+2 {
							c.Fatalf("two setups share element %d and %d", i, j)
						}
					}
				}
				// A ratio of powers of the secrets
				if pairing(params.PPPP.G1s[1], other.PPPP.G2s[0]).Equals(pairing(params.PPPP.G1s[0], other.PPPP.G2s[1])) {
					c.Fatalf("two setups have related secrets")
				}
			}
			if h.Fingerprint(params) != print {
				c.Fatalf("another setup changed the parameters")
			}
			c.Class("f=%d dense=%v", f, dense)
			c.Eval(true, "f=%d dense=%v %x", f, dense, params.PPPP.Digest[:8])
		},
	}, {
		Name: "commitment", N: h.N{Quick: 200, Thorough: 8000},
		Rule: "commitment parameters for 2 to 40 elements from drawn randomness: relations, dependence on every random byte and on nothing else, refusal without randomness; every case is non-trivial",
		Check: func(c *h.C) {
			n := h.Int(c, "n", 2, 40)
			seed := uint64(h.Int(c, "setup", 0, 1<<30))
			h.SetRand(seed)
			a := pp.NewPublicParams(n)
			drawn, _ := h.Drawn()
			print := h.Fingerprint(a)
			wellFormed(c, a, n)
			h.SetRand(seed)
			if b := pp.NewPublicParams(n); print != h.Fingerprint(b) {
				c.Fatalf("equal randomness yields other parameters")
			}
			if drawn < 32 {
				c.Fatalf("the secret was made of %d random bytes", drawn)
			}
			h.SetRand(seed)
			h.FlipDraw(0)
			if b := pp.NewPublicParams(n); a.G1s[0].Equals(b.G1s[0]) {
				c.Fatalf("other randomness yields the same parameters")
			}
			h.SetRand(seed)
			h.FailRandAfter(h.Int(c, "bytes", 0, 31))
			if panicked, _, _ := h.Panics(func() { pp.NewPublicParams(n) }); !panicked {
				c.Fatalf("parameters were made without randomness")
			}
			h.SetRand(seed)
			c.Eval(true, "n=%d seed=%d", n, seed)
		},
	}, {
		Name: "generators", N: h.N{Quick: 60, Thorough: 1000},
		Rule: "hashed generators of drawn sizes: reproducible, pairwise distinct across all parameter kinds, not trivial; every case is non-trivial",
		Check: func(c *h.C) {
			n := h.Pick(c, "n", 2, 4, 8, 16)
			m := h.Pick(c, "m", 2, 4, 8, 32, 128)
			s, r := sum.NewPublicParams(n), bp.NewRangeProofPublicParams(n)
			p := poe.NewPublicParams(3, m)
			extra := struct{ U, R []*math.G1 }{common.RandGenVec(1, "u"), common.RandGenVec(1, "U range proof")}
			var all []h.Leaf
			for _, ptr := range []interface{}{s, r, &extra} {
				for _, l := range h.Walk(ptr) {
					if l.Kind == "G1" && !l.Unexported() {
						all = append(all, l)
					}
				}
			}
			for _, l := range h.Walk(p) {
				if l.Kind == "G1" && !l.Unexported() && !strings.HasPrefix(l.Path, ".PP.") {
					all = append(all, l)
				}
			}
			distinct(c, all)
			if h.Fingerprint(sum.NewPublicParams(n)) != h.Fingerprint(s) || h.Fingerprint(bp.NewRangeProofPublicParams(n)) != h.Fingerprint(r) {
				c.Fatalf("generators are not reproducible")
			}
			name := h.Pick(c, "context", "a", "b", "range proof Hs", "POE G", "sum argument H", "")
			k := h.Int(c, "k", 1, 70)
			v := common.RandGenVec(k, name)
			w := common.RandGenVec(k, name+"'")
			all = nil
			both := struct{ V, W []*math.G1 }{v, w}
			for _, l := range h.Walk(&both) {
				if l.Kind == "G1" {
					all = append(all, l)
				}
			}
			distinct(c, all)
			for i, g := range common.RandGenVec(k, name) {
				if !g.Equals(v[i]) {
					c.Fatalf("generator %d of %q is not reproducible", i, name)
				}
			}
			c.Eval(true, "n=%d m=%d k=%d %s", n, m, k, name)
		},
	}, {
		Name: "refused", N: h.N{Quick: 120, Thorough: 3000},
		Rule: "fan-outs that are not of the form 2^k-1 or are beyond the type's table, for which generation and mappings must be refused at once; every case is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 0, 1, 2, 4, 5, 6, 8, 9, 14, 16, 254, 256, 32766, 32768, 65534, 65535, -1)
			if f < 0 {
				f = h.Int(c, "any", 0, 65535)
			}
			dense := h.Bool(c, "dense")
			supported := f >= 3 && f&(f+1) == 0 && f <= 32767
			if !dense {
				_, ok := sparse.ExpectedHexPathLengthByFanOut[uint16(f)]
				supported = supported && ok
			}
			if supported {
				f++
			}
			limit := 60 * time.Second
			within(c, limit, "generation", func() {
				if panicked, _, _ := h.Panics(func() { generate(f, dense) }); !panicked {
					c.Fatalf("parameters of fan-out %d (dense %v) were made", f, dense)
				}
			})
			c.Class("dense=%v", dense)
			c.Eval(true, "f=%d dense=%v", f, dense)
		},
	}}
	huge := large(props, "generated", h.N{Quick: 1, Thorough: 4}, []int{255, 255, 511}, nil, "with a fan-out of 255 or 511")
	huge.Single = true
	h.Run(t, append(props, huge)...)
}
