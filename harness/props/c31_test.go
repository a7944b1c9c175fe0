package props

import (
	"bytes"
	"math/big"
	"testing"

	math "github.com/IBM/mathlib"
	"pgregory.net/rapid"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"

	"verif/harness/h"
)

// points draws group elements, some of them equal or the identity.
func points(c *h.C, name string, n int) common.G1v {
	res := make(common.G1v, n)
	if n > 40 {
		// Drawing each would take long
		for i, x := range common.RandVec(n) {
			res[i] = h.Curve.GenG1.Mul(x)
		}
		return res
	}
	for i := range res {
		switch {
		case i > 0 && h.Int(c, name+".same", 0, 5) == 0:
			res[i] = res[h.Int(c, name+".of", 0, i-1)].Copy()
		case h.Int(c, name+".id", 0, 9) == 0:
			res[i] = h.Identity()
		default:
			res[i] = h.Curve.GenG1.Mul(h.NonZero(c, name))
		}
	}
	return res
}

// alterList changes a list of group elements in one place; nil if it did not.
func alterList(c *h.C, gs common.G1v) (common.G1v, string) {
	res := h.CopyG1v(gs)
	n := len(gs)
	switch what := h.Pick(c, "alter", "element", "swap", "drop", "append", "rotate"); what {
	case "element":
		if n == 0 {
			return nil, ""
		}
		i := fromEnd(c, "i", n)
		res[i] = h.AddG(res[i], h.Curve.GenG1.Mul(h.NonZero(c, "δ")))
		return res, what
	case "swap":
		if n < 2 {
			return nil, ""
		}
		i, j := h.Int(c, "i", 0, n-1), h.Int(c, "j", 0, n-1)
		if res[i].Equals(res[j]) {
			return nil, ""
		}
		res[i], res[j] = res[j], res[i]
		return res, what
	case "drop":
		if n < 2 {
			return nil, ""
		}
		i := fromEnd(c, "i", n)
		return append(res[:i], res[i+1:]...), what
	case "append":
		return append(res, h.Curve.GenG1.Mul(h.Scalar(c, "new"))), what
	default:
		if n < 2 {
			return nil, ""
		}
		res = append(res[1:], res[0])
		if bytes.Equal(res.Bytes(), gs.Bytes()) {
			return nil, ""
		}
		return res, what
	}
}

// fromEnd draws an index below n, more often from the ends of long lists.
func fromEnd(c *h.C, name string, n int) int {
	i := h.Int(c, name, 0, n-1)
	if n > 40 && h.Bool(c, name+" from the end") {
		i = n - 1 - i
	}
	return i
}

func canonical(z *math.Zr) bool {
	raw, ok := new(big.Int).SetString(z.String(), 16)
	return ok && raw.Sign() >= 0 && raw.Cmp(h.R) < 0
}

func TestC31(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "pp.RO", N: h.N{Quick: 15000, Thorough: 200000},
		Rule: "1 to 8 (sometimes up to 300) commitments, an index up to 2^20 and parameters; one of them is altered; non-trivial when the altered input was compared",
		Check: func(c *h.C) {
			params := h.VC(h.Pick(c, "n", 2, 3, 5), 0)
			k := h.Int(c, "k", 1, 8)
			if h.Chance(c, "many", 60) {
				k = h.Int(c, "many k", 9, 300)
			}
			cs := points(c, "cs", k)
			i := rapid.IntRange(0, 1<<20).Draw(c.T, "index")
			print := h.Fingerprint(params, &cs)
			x := pp.RO(params, cs, i)
			if !canonical(x) {
				c.Fatalf("challenge %v is not canonical", x)
			}
			if !pp.RO(params, cs, i).Equals(x) || h.Fingerprint(params, &cs) != print {
				c.Fatalf("the challenge is not repeatable or its inputs were modified")
			}
			c.Desc("k=%d i=%d %x", len(cs), i, cs[0].Bytes()[:6])
			if alt, what := alterList(c, cs); alt != nil {
				if pp.RO(params, alt, i).Equals(x) {
					c.Fatalf("the challenge does not depend on the commitments (%s)", what)
				}
				c.Class("list/%s", what)
			}
			j := i ^ 1<<uint(h.Int(c, "bit", 0, 20))
			if h.Bool(c, "far") {
				j = rapid.IntRange(0, 1<<20).Draw(c.T, "index2")
			}
			if j != i && pp.RO(params, cs, j).Equals(x) {
				c.Fatalf("challenges %d and %d are equal", i, j)
			}
			alt := *params
			alt.Digest = append([]byte{}, params.Digest...)
			alt.Digest[h.Int(c, "byte", 0, len(alt.Digest)-1)] ^= byte(h.Int(c, "flip", 1, 255))
			if pp.RO(&alt, cs, i).Equals(x) {
				c.Fatalf("the challenge does not depend on the digest of the parameters")
			}
			c.Eval(true, "")
		},
	}, h.Prop{
		Name: "poe.RO", N: h.N{Quick: 15000, Thorough: 200000},
		Rule: "0 to 8 group elements, 0 to 4 integers below 2^16 (sometimes up to 300), a digest and a count; one of them is altered; non-trivial when there are elements or integers",
		Check: func(c *h.C) {
			k, l := h.Int(c, "k", 0, 8), h.Int(c, "ints", 0, 4)
			if h.Chance(c, "many", 60) {
				k, l = h.Int(c, "many k", 9, 300), h.Int(c, "many ints", 0, 300)
			}
			gs := points(c, "gs", k)
			ints := make([]int, l)
			for i := range ints {
				ints[i] = h.Pick(c, "int", 0, 1, 255, 256, 257, 1023, 65535, h.Int(c, "any", 0, 65535))
			}
			digest := make([]byte, 32)
			w := rapid.Uint64().Draw(c.T, "digest")
			for i := range digest {
				digest[i] = byte(w >> uint(i%8*8))
			}
			n := h.Pick(c, "n", 1, 2, 3, 8, 16, 300)
			print := h.Fingerprint(&gs, &ints, &digest)
			x := poe.RO(gs, ints, digest, n)
			if len(x) != n {
				c.Fatalf("%d challenges instead of %d", len(x), n)
			}
			seen := map[string]int{}
			for i, z := range x {
				if !canonical(z) {
					c.Fatalf("challenge %v is not canonical", z)
				}
				if j, dup := seen[z.String()]; dup {
					c.Fatalf("challenges %d and %d of %d are equal", i, j, n)
				}
				seen[z.String()] = i
			}
			if !sameVec(poe.RO(gs, ints, digest, n), x) || h.Fingerprint(&gs, &ints, &digest) != print {
				c.Fatalf("challenges are not repeatable or their inputs were modified")
			}
			c.Desc("k=%d ints=%v n=%d %x", len(gs), ints, n, gs.Bytes())
			differ := func(what string, y common.Vec) {
				for i := range x {
					if y[i].Equals(x[i]) {
						c.Fatalf("challenge %d does not depend on %s", i, what)
					}
				}
				c.Class("%s", what)
			}
			if alt, what := alterList(c, gs); alt != nil {
				differ("group elements/"+what, poe.RO(alt, ints, digest, n))
			}
			alt := append([]int{}, ints...)
			switch {
			case len(ints) > 1 && ints[0] != ints[1] && h.Bool(c, "swap"):
				alt[0], alt[1] = alt[1], alt[0]
				differ("order of integers", poe.RO(gs, alt, digest, n))
			case len(ints) > 0 && h.Bool(c, "change"):
				alt[fromEnd(c, "which", len(alt))] ^= 1 << uint(h.Int(c, "bit", 0, 15))
				differ("integers", poe.RO(gs, alt, digest, n))
			case len(ints) > 0 && h.Bool(c, "drop"):
				differ("number of integers", poe.RO(gs, alt[1:], digest, n))
			default:
				differ("number of integers", poe.RO(gs, append(alt, h.Int(c, "new", 0, 65535)), digest, n))
			}
			dig := append([]byte{}, digest...)
			dig[h.Int(c, "byte", 0, 31)] ^= byte(h.Int(c, "flip", 1, 255))
			differ("digest", poe.RO(gs, ints, dig, n))
			c.Eval(len(gs)+len(ints) > 0, "")
		},
	}, h.Prop{
		Name: "digests", N: h.N{Quick: 1600, Thorough: 40000},
		Rule: "parameters of vector commitments, inner products, range proofs and equality proofs; one element is altered or two are exchanged; every case is non-trivial",
		Check: func(c *h.C) {
			which := h.Pick(c, "which", "pp", "ipa", "ipa without H", "range", "poe", "sum")
			c.Desc("%s", which)
			alterG1 := func(lists ...*common.G1v) string {
				l := *lists[h.Int(c, "list", 0, len(lists)-1)]
				i, j := h.Int(c, "i", 0, len(l)-1), h.Int(c, "j", 0, len(l)-1)
				c.Desc("%d %d", i, j)
				if i != j && !l[i].Equals(l[j]) && h.Bool(c, "exchange") {
					l[i], l[j] = l[j], l[i]
					return "exchange"
				}
				l[i] = h.AddG(l[i], h.Curve.GenG1.Mul(h.NonZero(c, "δ")))
				return "element"
			}
			shift := func(g *math.G1) *math.G1 { return h.AddG(g, h.Curve.GenG1.Mul(h.NonZero(c, "δ"))) }
			n := h.Pick(c, "n", 2, 4, 8)
			var before, again, after []byte
			how := ""
			switch which {
			case "pp":
				orig := h.VC(n, 0)
				alt := h.Copy(orig)
				alt.SetupDigest()
				before, again = orig.Digest, alt.Digest
				switch h.Int(c, "part", 0, 3) {
				case 0:
					how = "G1 " + alterG1(&alt.G1s)
				case 1:
					i := h.Int(c, "i2", 0, len(alt.G2s)-1)
					alt.G2s[i].Add(h.Curve.GenG2)
					how = "G2"
				case 2:
					alt.Gt = h.Curve.GenGt.Exp(h.NonZero(c, "gt"))
					how = "Gt"
				case 3:
					alt.G2s[0], alt.G2s[n-1] = alt.G2s[n-1], alt.G2s[0]
					how = "G2 exchange"
				}
				alt.SetupDigest()
				after = alt.Digest
			case "ipa", "ipa without H":
				orig := bp.NewPublicParams(n)
				if which != "ipa" {
					orig = &bp.PP{G: orig.G, U: orig.U}
					orig.RecomputeDigest()
				}
				alt := h.Copy(orig)
				alt.RecomputeDigest()
				before, again = orig.Digest, alt.Digest
				switch h.Int(c, "part", 0, 2) {
				case 0:
					how = "G " + alterG1(&alt.G)
				case 1:
					if which == "ipa" {
						how = "H " + alterG1(&alt.H)
						break
					}
					fallthrough
				default:
					alt.U = shift(alt.U)
					how = "U"
				}
				alt.RecomputeDigest()
				after = alt.Digest
			case "range":
				n = 2
				mk := func() *bp.RangeProofPublicParams {
					o := bp.NewRangeProofPublicParams(n)
					return &bp.RangeProofPublicParams{G: o.G, H: o.H, F: o.F, Gs: o.Gs, Hs: o.Hs, Fs: o.Fs}
				}
				orig, alt := mk(), mk()
				before, again = orig.Digest(), mk().Digest()
				switch h.Int(c, "part", 0, 3) {
				case 0:
					how = "lists " + alterG1(&alt.Gs, &alt.Hs, &alt.Fs)
				case 1:
					alt.G, how = shift(alt.G), "G"
				case 2:
					alt.H, how = shift(alt.H), "H"
				case 3:
					alt.F, how = shift(alt.F), "F"
				}
				after = alt.Digest()
			case "poe":
				orig := &poe.PP{PP: h.VC(n, 0), G: common.RandGenVec(n, "POE G"), H: common.RandGenVec(n, "POE H"), F: common.RandGenVec(1, "POE F")[0]}
				orig.SetupDigest()
				alt := h.Copy(orig)
				alt.SetupDigest()
				before, again = orig.Digest, alt.Digest
				switch h.Int(c, "part", 0, 2) {
				case 0:
					how = "lists " + alterG1(&alt.G, &alt.H)
				case 1:
					alt.F, how = shift(alt.F), "F"
				case 2:
					alt.PP.Digest[h.Int(c, "byte", 0, 31)] ^= byte(h.Int(c, "flip", 1, 255))
					how = "commitment parameters"
				}
				alt.SetupDigest()
				after = alt.Digest
			case "sum":
				a, b, d := sumPP(n), sumPP(n), sumPP(2*n)
				before, again, after, how = a.Digest, b.Digest, d.Digest, "size"
			}
			if len(before) == 0 || !bytes.Equal(before, again) {
				c.Fatalf("the digest of %s parameters is not repeatable", which)
			}
			if bytes.Equal(before, after) {
				c.Fatalf("the digest of %s parameters does not depend on: %s", which, how)
			}
			c.Class("%s/%s", which, how)
			c.Eval(true, "%s %x", how, after[:6])
		},
	})
}
