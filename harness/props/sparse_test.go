package props

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"pol/pol"
	"pol/sparse"

	"verif/harness/h"
)

// fanOuts of the form 2^k-1.
var denseFanOuts = []int{3, 7, 15, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191, 16383, 32767}
var sparseFanOuts = []int{3, 7, 15, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191, 16383}

// pathNumber reads a path as digits of base f, the lowest first if le.
func pathNumber(path []uint16, f int, le bool) *big.Int {
	n, base := new(big.Int), big.NewInt(int64(f))
	for i := range path {
		d := path[i]
		if le {
			d = path[len(path)-1-i]
		}
		n.Mul(n, base)
		n.Add(n, big.NewInt(int64(d)))
	}
	return n
}

func samePath(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func hasPrefix(a, b []uint16) bool {
	return len(b) <= len(a) && samePath(a[:len(b)], b)
}

// mapped calls a mapping, which may refuse.
func mapped(f func(string) []uint16, id string) (path []uint16, refused bool, msg string) {
	refused, _, msg = h.Panics(func() { path = f(id) })
	return
}

// malformed draws a string close to an identifier which is none.
func malformed(c *h.C, valid, digits string, isValid func(string) bool) string {
	s := valid
	n := len(valid)
	i := h.Int(c, "at", 0, n-1)
	switch h.Int(c, "malform", 0, 11) {
	case 0:
		s = s[:i]
	case 1:
		s = s + strings.Repeat("0", h.Int(c, "more", 1, 3))
	case 2:
		s = s[:i] + string(rune(h.Int(c, "rune", 0, 127))) + s[i+1:]
	case 3:
		s = h.Pick(c, "sign", "+", "-", " ", "_") + s[1:]
	case 4:
		s = h.Pick(c, "sign", "+", "-", " ", "0", "0x") + s
	case 5:
		s = s[:n-1] + h.Pick(c, "end", "\n", " ", "\x00", "e", "h", ".")
	case 6:
		s = "0" + h.Pick(c, "base", "x", "X", "b", "o", "_") + s[2:]
	case 7:
		s = rapid.String().Draw(c.T, "any")
	case 8:
		s = s[:i] + h.Pick(c, "other digit", "٣", "３", "é", "Ａ") + s[i+1:]
	case 9:
		s = rapid.StringOfN(rapid.RuneFrom([]rune(digits)), 0, n+3, -1).Draw(c.T, "digits")
	case 10:
		s = s[:i] + h.Pick(c, "between", "1e3", ".", ",", "_")
		if len(s) < n {
			s += valid[:n-len(s)]
		} else {
			s = s[:n]
		}
	default:
		s = rapid.StringN(n, n, -1).Draw(c.T, "any of length")
	}
	if isValid(s) {
		return ""
	}
	return s
}

func isDense(s string) bool {
	if len(s) != 9 {
		return false
	}
	for i := 0; i < 9; i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func isHex(s string) bool {
	if len(s) != 64 {
		return false
	}
	for i := 0; i < 64; i++ {
		if !strings.ContainsRune("0123456789abcdefABCDEF", rune(s[i])) {
			return false
		}
	}
	return true
}

func denseNumber(c *h.C, name string, f int) int64 {
	n := new(big.Int)
	switch h.Int(c, name+".shape", 0, 3) {
	case 0, 1:
		fmt.Sscanf(h.DenseID(c, name), "%d", n)
	case 2: // around powers of the fan-out, or two or ten
		base := h.Pick(c, name+".base", f, f, 2, 10)
		n.Exp(big.NewInt(int64(base)), big.NewInt(int64(h.Int(c, name+".power", 0, 30))), nil)
		n.Add(n, big.NewInt(int64(h.Int(c, name+".more", -2, 2))))
	default: // multiples of powers of the fan-out: many zero digits
		base := h.Pick(c, name+".base", f, f, 2, 10)
		n.Exp(big.NewInt(int64(base)), big.NewInt(int64(h.Int(c, name+".power", 0, 30))), nil)
		n.Mul(n, big.NewInt(int64(h.Int(c, name+".times", 1, f))))
	}
	n.Mod(n, big.NewInt(1000000000))
	return n.Int64()
}

// refusals enumerates the fan-outs and checks which ones a mapping is made for. A mapping that
// is made must map a proper identifier.
func refusals(c *h.C, allowed []int, id string, make func(uint16) func(string) []uint16) {
	ok := map[int]bool{}
	for _, f := range allowed {
		ok[f] = true
	}
	lo := h.Int(c, "from", 0, 15) << 12
	for f := lo; f < lo+1<<12; f++ {
		var path []uint16
		refused, crash, msg := h.Panics(func() { path = make(uint16(f))(id) })
		if crash {
			c.Fatalf("fan-out %d crashes rather than being refused: %s", f, msg)
		}
		if refused == ok[f] {
			c.Fatalf("fan-out %d: refused: %v (%s), path %v", f, refused, msg, path)
		}
		c.Eval(ok[f] || ok[f-1] || ok[f+1] || f&(f+1) == 0 || f == 65535, "fan-out %d, identifier %s", f, id)
	}
}

// kept maps many identifiers, some of them at once, keeps all paths and looks at them in the end.
func kept(c *h.C, mapping func(string) []uint16, any func() string, f, length int) {
	n := h.Int(c, "n", 2, 300)
	ids, paths, read := make([]string, n), make([][]uint16, n), make([][]uint16, n)
	for i := range ids {
		ids[i] = any()
	}
	workers := h.Pick(c, "at once", 1, 1, 4)
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := k; i < n; i += workers {
				paths[i], _, _ = mapped(mapping, ids[i])
				read[i] = append([]uint16{}, paths[i]...)
			}
		}(k)
	}
	wg.Wait()
	seen := map[string]string{}
	for i, id := range ids {
		if len(read[i]) != length {
			c.Fatalf("identifier %s: path %v for fan-out %d", id, read[i], f)
		}
		if !samePath(paths[i], read[i]) {
			c.Fatalf("the path of %s was %v and became %v when others were mapped", id, read[i], paths[i])
		}
		if again, _, _ := mapped(mapping, id); !samePath(again, read[i]) {
			c.Fatalf("the path of %s is %v, then %v", id, read[i], again)
		}
		key := fmt.Sprint(read[i])
		if other, ok := seen[key]; ok && other != strings.ToLower(id) {
			c.Fatalf("identifiers %s and %s share the path %v", other, id, read[i])
		}
		seen[key] = strings.ToLower(id)
	}
	c.Class("%d at once", workers)
	c.Class("fan-out %d", f)
	c.Eval(true, "f=%d, %d identifiers", f, n)
}

func TestC10(t *testing.T) {
	mappings := map[int]func(string) []uint16{}
	mapping := func(f int) func(string) []uint16 {
		if mappings[f] == nil {
			mappings[f] = sparse.DigitPath(uint16(f))
		}
		return mappings[f]
	}
	h.Run(t, h.Prop{
		Name: "fan-outs", N: h.N{Quick: 48, Thorough: 2000},
		Rule: "4096 consecutive fan-outs each, all of 0 to 65535 over the cases, with an identifier; permitted ones, their neighbours and other 2^k-1 are non-trivial",
		Check: func(c *h.C) {
			refusals(c, denseFanOuts, fmt.Sprintf("%09d", h.Int(c, "id", 0, 999999999)), sparse.DigitPath)
		},
	}, h.Prop{
		Name: "path", N: h.N{Quick: 240000, Thorough: 3000000},
		Rule: "nine-digit identifiers (small, largest, around powers and multiples of powers of the fan-out, two and ten, uniform) for every fan-out 2^k-1 from 3 to 32767; every identifier is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", denseFanOuts...)
			n := denseNumber(c, "n", f)
			id := fmt.Sprintf("%09d", n)
			want := sparse.DigitPathLen(uint16(f))
			path, refused, msg := mapped(mapping(f), id)
			if refused {
				c.Fatalf("identifier %s refused for fan-out %d: %s", id, f, msg)
			}
			if len(path) != want {
				c.Fatalf("identifier %s has a path of length %d instead of %d for fan-out %d: %v", id, len(path), want, f, path)
			}
			for _, p := range path {
				if int(p) >= f {
					c.Fatalf("identifier %s: child index %d is not below the fan-out %d", id, p, f)
				}
			}
			// Reading the path as a number yields the identifier, hence no two share a path
			if pathNumber(path, f, true).Cmp(big.NewInt(n)) != 0 && pathNumber(path, f, false).Cmp(big.NewInt(n)) != 0 {
				c.Fatalf("path %v (fan-out %d) does not determine the identifier %s", path, f, id)
			}
			again, _, _ := mapped(mapping(f), id)
			if !samePath(again, path) {
				c.Fatalf("the path of %s is %v, then %v", id, path, again)
			}
			c.Desc("f=%d %s", f, id)
			c.Class("fan-out %d", f)
			c.Eval(true, "")
		},
	}, h.Prop{
		Name: "pair", N: h.N{Quick: 120000, Thorough: 2000000},
		Rule: "two different identifiers, also such that differ in one digit or by a multiple of a power of the fan-out: neither path is a prefix of the other",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", denseFanOuts...)
			a := denseNumber(c, "a", f)
			b := denseNumber(c, "b", f)
			if h.Bool(c, "near") {
				step := int64(1)
				base := int64(h.Pick(c, "base", f, 10, 2))
				for i := h.Int(c, "power", 0, 30); i > 0 && step < 1000000000/base; i-- {
					step *= base
				}
				b = (a + step*int64(h.Int(c, "times", 1, int(base)))) % 1000000000
			}
			if a == b {
				return
			}
			x, y := fmt.Sprintf("%09d", a), fmt.Sprintf("%09d", b)
			pa, _, _ := mapped(mapping(f), x)
			pb, _, _ := mapped(mapping(f), y)
			if pa == nil || pb == nil || hasPrefix(pa, pb) || hasPrefix(pb, pa) {
				c.Fatalf("identifiers %s and %s have paths %v and %v for fan-out %d", x, y, pa, pb, f)
			}
			c.Desc("f=%d %s %s", f, x, y)
			c.Eval(true, "")
		},
	}, h.Prop{
		Name: "kept", N: h.N{Quick: 2000, Thorough: 40000},
		Rule: "2 to 300 identifiers mapped one after the other or by four goroutines, whose paths are all kept: they are distinct, do not change and come again; every case is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", denseFanOuts...)
			kept(c, mapping(f), func() string { return fmt.Sprintf("%09d", word()>>(word()%64)%1000000000) }, f, sparse.DigitPathLen(uint16(f)))
		},
	}, h.Prop{
		Name: "refused", N: h.N{Quick: 100000, Thorough: 1000000},
		Rule: "strings that are not nine decimal digits: other lengths, signs, spaces, prefixes, other digits, arbitrary text; every string is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", denseFanOuts...)
			s := malformed(c, h.DenseID(c, "id"), "0123456789", isDense)
			if isDense(s) || (s == "" && !h.Bool(c, "empty")) {
				return
			}
			path, refused, _ := mapped(mapping(f), s)
			if !refused {
				c.Fatalf("%q was accepted as an identifier with path %v (fan-out %d)", s, path, f)
			}
			c.Eval(true, "f=%d %q", f, s)
		},
	}, h.Prop{
		Name: "length", N: h.N{Quick: 400, Thorough: 4000}, Single: true,
		Rule: "the advertised length is the least that fits 10^9 identifiers for every fan-out, and the mapping of generated parameters has it; fan-outs that are not 2^k-1 are refused",
		Check: func(c *h.C) {
			f := h.Int(c, "f", 2, 65535)
			if h.Bool(c, "permitted") {
				f = h.Pick(c, "2^k-1", denseFanOuts...)
			}
			n := sparse.DigitPathLen(uint16(f))
			space := big.NewInt(1000000000)
			all := new(big.Int).Exp(big.NewInt(int64(f)), big.NewInt(int64(n)), nil)
			if all.Cmp(space) < 0 {
				c.Fatalf("paths of length %d over fan-out %d are too few", n, f)
			}
			permitted := (f+1)&f == 0
			_, refused, _ := mapped(func(string) []uint16 { return sparse.DigitPath(uint16(f))("000000000") }, "")
			if f < 65535 && refused == permitted {
				c.Fatalf("fan-out %d refused: %v", f, refused)
			}
			c.Eval(true, "f=%d length %d", f, n)
		},
	})
}

// hexNumber draws the number of a 64 digit identifier.
func hexNumber(c *h.C, name string, f int) *big.Int {
	limit := new(big.Int).Lsh(big.NewInt(1), 256)
	n := new(big.Int)
	switch h.Int(c, name+".shape", 0, 4) {
	case 0, 1, 2:
		n.SetString(h.HexID(c, name), 16)
	case 3: // where the length of the expansion changes
		n.Exp(big.NewInt(int64(f)), big.NewInt(int64(pol64(f)-1+h.Int(c, name+".length", -2, 1))), nil)
		n.Add(n, big.NewInt(int64(h.Int(c, name+".more", -2, 2))))
	default:
		n.Sub(limit, big.NewInt(int64(h.Int(c, name+".below", 1, 5))))
	}
	return n.Mod(n, limit)
}

func pol64(f int) int { return sparse.ExpectedHexPathLengthByFanOut[uint16(f)] }

// expansion is the plain base f expansion, the lowest digit first.
func expansion(n *big.Int, f int) []uint16 {
	var res []uint16
	base, m := big.NewInt(int64(f)), new(big.Int)
	n = new(big.Int).Set(n)
	for n.Sign() > 0 {
		n.DivMod(n, base, m)
		res = append(res, uint16(m.Uint64()))
	}
	return res
}

func hexID(c *h.C, n *big.Int) string {
	s := fmt.Sprintf("%064x", n)
	switch h.Int(c, "case", 0, 3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if i%3 == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

func TestC11(t *testing.T) {
	mappings := map[int]func(string) []uint16{}
	mapping := func(f int) func(string) []uint16 {
		if mappings[f] == nil {
			mappings[f] = sparse.HexId2PathForFanOut(uint16(f))
		}
		return mappings[f]
	}
	check := func(c *h.C, f int, id string) []uint16 {
		want := pol64(f)
		path, refused, msg := mapped(mapping(f), id)
		if refused {
			c.Fatalf("identifier %s refused for fan-out %d: %s", id, f, msg)
		}
		if len(path) != want {
			c.Fatalf("identifier %s has a path of length %d instead of %d for fan-out %d", id, len(path), want, f)
		}
		for _, p := range path {
			if int(p) >= f {
				c.Fatalf("identifier %s: child index %d is not below the fan-out %d", id, p, f)
			}
		}
		return path
	}
	h.Run(t, h.Prop{
		Name: "fan-outs", N: h.N{Quick: 48, Thorough: 2000},
		Rule: "4096 consecutive fan-outs each, all of 0 to 65535 over the cases, with an identifier; supported ones, their neighbours and other 2^k-1 are non-trivial",
		Check: func(c *h.C) {
			refusals(c, sparseFanOuts, h.HexID(c, "id"), sparse.HexId2PathForFanOut)
		},
	}, h.Prop{
		Name: "path", N: h.N{Quick: 64000, Thorough: 600000},
		Rule: "64 digit hexadecimal identifiers (leading zeroes, extremes, where the length of the expansion changes, uniform, both letter cases) for every supported fan-out; every identifier is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", sparseFanOuts...)
			n := hexNumber(c, "n", f)
			id := hexID(c, n)
			path := check(c, f, id)
			plain := expansion(n, f)
			if len(plain) == pol64(f) {
				c.Class("plain")
				big := make([]uint16, len(plain))
				for i := range plain {
					big[i] = plain[len(plain)-1-i]
				}
				if !samePath(path, plain) && !samePath(path, big) {
					c.Fatalf("the path of %s is not its expansion to base %d", id, f)
				}
			} else {
				c.Class("rehashed")
			}
			if !samePath(check(c, f, id), path) {
				c.Fatalf("the path of %s changes", id)
			}
			c.Eval(true, "f=%d %s", f, id)
		},
	}, h.Prop{
		Name: "pair", N: h.N{Quick: 32000, Thorough: 400000},
		Rule: "two identifiers which are different numbers, also such that differ in one digit or by a power of the fan-out, have different paths; an identifier whose expansion has the wrong length and its hash are a pair of their own (known finding)",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", sparseFanOuts...)
			a := hexNumber(c, "a", f)
			b := hexNumber(c, "b", f)
			limit := new(big.Int).Lsh(big.NewInt(1), 256)
			what := h.Pick(c, "what", "independent", "bit", "power", "small", "hash")
			switch what {
			case "bit":
				i := h.Int(c, "bit", 0, 255)
				b = new(big.Int).SetBit(a, i, a.Bit(i)^1)
			case "power":
				e := h.Int(c, "power", 0, pol64(f))
				b = new(big.Int).Exp(big.NewInt(int64(f)), big.NewInt(int64(e)), nil)
				b.Add(b, a)
				b.Mod(b, limit)
			case "small":
				a = big.NewInt(int64(h.Int(c, "small a", 0, 1000)))
				b = big.NewInt(int64(h.Int(c, "small b", 0, 1000)))
			}
			x, y := hexID(c, a), hexID(c, b)
			if what == "hash" {
				sum := sha256.Sum256([]byte(x))
				y = hex.EncodeToString(sum[:])
				b, _ = new(big.Int).SetString(y, 16)
			}
			if a.Cmp(b) == 0 {
				return
			}
			px, py := check(c, f, x), check(c, f, y)
			if samePath(px, py) {
				if what == "hash" && len(expansion(a, f)) != pol64(f) {
					c.Known("C11-rehash-alias", "%s and its hash %s share a path for fan-out %d", x, y, f)
					c.Class("known alias")
				} else {
					c.Fatalf("identifiers %s and %s share a path for fan-out %d", x, y, f)
				}
			}
			c.Class("%s", what)
			c.Eval(true, "f=%d %s %s", f, x, y)
		},
	}, h.Prop{
		Name: "kept", N: h.N{Quick: 400, Thorough: 8000},
		Rule: "2 to 300 random identifiers mapped one after the other or by four goroutines, whose paths are all kept: they are distinct, do not change and come again; every case is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", sparseFanOuts...)
			kept(c, mapping(f), func() string {
				return fmt.Sprintf("%016x%016X%016x%016x", word(), word(), word(), word())
			}, f, pol64(f))
		},
	}, h.Prop{
		Name: "refused", N: h.N{Quick: 60000, Thorough: 600000},
		Rule: "strings that are not 64 hexadecimal digits: other lengths, signs, spaces, prefixes, other letters, arbitrary text; every string is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", sparseFanOuts...)
			s := malformed(c, h.HexID(c, "id"), "0123456789abcdef", isHex)
			if isHex(s) || (s == "" && !h.Bool(c, "empty")) {
				return
			}
			path, refused, _ := mapped(mapping(f), s)
			if !refused {
				c.Fatalf("%q was accepted as an identifier with path %v (fan-out %d)", s, path, f)
			}
			c.Eval(true, "f=%d %q", f, s)
		},
	}, h.Prop{
		Name: "fan-outs", N: h.N{Quick: 300, Thorough: 3000}, Single: true,
		Rule: "the advertised length fits 256 bits for every supported fan-out, and other fan-outs are refused",
		Check: func(c *h.C) {
			f := h.Int(c, "f", 2, 65534)
			if h.Bool(c, "supported") {
				f = h.Pick(c, "2^k-1", sparseFanOuts...)
			}
			want, ok := sparse.ExpectedHexPathLengthByFanOut[uint16(f)]
			supported := false
			for _, g := range sparseFanOuts {
				supported = supported || f == g
			}
			if ok != supported {
				c.Fatalf("fan-out %d supported: %v", f, ok)
			}
			_, refused, _ := mapped(func(string) []uint16 { sparse.HexId2PathForFanOut(uint16(f)); return nil }, "")
			if refused == supported {
				c.Fatalf("fan-out %d refused: %v", f, refused)
			}
			if supported {
				// Most identifiers' expansions have the advertised length
				top := new(big.Int).Lsh(big.NewInt(1), 256)
				top.Sub(top, big.NewInt(1))
				if n := len(expansion(top, f)); n < want || n > want+1 {
					c.Fatalf("paths of %d entries for fan-out %d, which needs %d", want, f, n)
				}
			}
			c.Eval(true, "f=%d", f)
		},
	})
	_ = pol.Sparse
}

// visit is a call of the vertex update function.
type visit struct {
	key      string
	node     interface{}
	children []interface{}
	leaves   bool
	index    int
}

// trieNode is the model of a vertex.
type trieNode struct {
	path     []uint16
	data     interface{}
	children map[uint16]*trieNode
	key      *string
}

func TestC12(t *testing.T) {
	updates := func(low, high int) func(c *h.C) {
		return func(c *h.C) {
			f := h.Pick(c, "f", 2, 3, 3, 7, 15, 255, 257, 1023, 16383)
			if high > 40 && f > 257 {
				f = 257
			}
			depth := h.Int(c, "depth", 1, 7)
			real := ""
			id2Path := h.Path
			if h.Int(c, "mapping", 0, 5) == 0 {
				f = h.Pick(c, "real f", 7, 63, 1023)
				real = h.Pick(c, "real", "dense", "sparse")
				if real == "dense" {
					id2Path, depth = sparse.DigitPath(uint16(f)), sparse.DigitPathLen(uint16(f))
				} else {
					id2Path, depth = sparse.HexId2PathForFanOut(uint16(f)), pol64(f)
				}
			}
			var calls []visit
			serial := 0
			sequential := h.Bool(c, "distinct data")
			tree := &sparse.Tree{ID2Path: id2Path, FanOut: f}
			tree.UpdateInnerVertex = func(key string, node interface{}, children []interface{}, leaves bool, index int) interface{} {
				calls = append(calls, visit{key, node, append([]interface{}{}, children...), leaves, index})
				serial++
				if sequential {
					return serial
				}
				return key
			}
			root := &trieNode{}
			created := false
			keys := map[string]string{}
			var paths [][]uint16
			var ids []string
			n := h.Int(c, "n", low, high)
			if real != "" && high == 40 && n > 8 {
				n = 8
			}
			for i := 0; i < n; i++ {
				var id string
				var path []uint16
				switch real {
				case "dense":
					id = h.DenseID(c, "id")
					if len(ids) > 0 && h.Bool(c, "again") {
						id = ids[h.Int(c, "which", 0, len(ids)-1)]
					}
					path = id2Path(id)
				case "sparse":
					id = h.HexID(c, "id")
					if len(ids) > 0 && h.Bool(c, "again") {
						id = ids[h.Int(c, "which", 0, len(ids)-1)]
					}
					path = id2Path(id)
				default:
					path = h.TreePath(c, "path", f, depth, paths)
					id = h.PathID(path)
				}
				paths, ids = append(paths, path), append(ids, id)
				// Insert in the model, and remember the chain
				created = true
				chain := []*trieNode{root}
				v := root
				for _, p := range path {
					if v.children == nil {
						v.children = map[uint16]*trieNode{}
					}
					if v.children[p] == nil {
						v.children[p] = &trieNode{path: append(append([]uint16{}, v.path...), p)}
					}
					v = v.children[p]
					chain = append(chain, v)
				}
				// Trees store int64, but data of any type is kept
				var data interface{} = int64(h.Int(c, "data", -3, 1<<30))
				switch h.Pick(c, "data kind", "int64", "small", "former", "int", "string", "pointer", "zero") {
				case "small":
					data = int64(h.Int(c, "small data", 0, 1))
				case "former":
					if v.data != nil {
						data = v.data
					}
				case "int":
					data = int(data.(int64))
				case "string":
					data = fmt.Sprint("d", data)
				case "pointer":
					data = &trieNode{}
				case "zero":
					data = int64(0)
				}
				v.data = data
				calls = nil
				tree.Put(id, data)
				if len(calls) != len(path) {
					c.Fatalf("inserting %v called the update function %d times instead of %d", path, len(calls), len(path))
				}
				for l, call := range calls {
					d := len(path) - 1 - l
					node := chain[d]
					if node.key == nil {
						if other, used := keys[call.key]; used {
							c.Fatalf("vertices %s and %v share the key %q", other, node.path, call.key)
						}
						keys[call.key] = fmt.Sprint(node.path)
						k := call.key
						node.key = &k
					}
					if *node.key != call.key {
						c.Fatalf("vertex %v has key %q, then %q", node.path, *node.key, call.key)
					}
					if call.node != node.data {
						c.Fatalf("vertex %v: previous data given as %v instead of %v", node.path, call.node, node.data)
					}
					if len(call.children) != f {
						c.Fatalf("vertex %v: %d children given instead of %d", node.path, len(call.children), f)
					}
					for j := range call.children {
						var want interface{}
						if child := node.children[uint16(j)]; child != nil {
							want = child.data
						}
						if call.children[j] != want {
							c.Fatalf("vertex %v: child %d given as %v instead of %v", node.path, j, call.children[j], want)
						}
					}
					if call.leaves != (l == 0) {
						c.Fatalf("vertex %v at depth %d of %d: flagged as leaf level: %v", node.path, d, len(path), call.leaves)
					}
					if call.index != int(path[d]) {
						c.Fatalf("vertex %v: child %d changed, but index %d was given", node.path, path[d], call.index)
					}
					// What the call returned is its data from now on
					if sequential {
						node.data = serial - len(path) + 1 + l
					} else {
						node.data = call.key
					}
				}
				c.Desc("%v", path)
				// Lookups
				for k := 0; k < 2; k++ {
					q := h.TreePath(c, "query", f, depth, paths)
					qid := h.PathID(q)
					if real == "dense" {
						qid = h.Pick(c, "query dense", h.DenseID(c, "q"), ids[h.Int(c, "q2", 0, len(ids)-1)])
						q = id2Path(qid)
					} else if real == "sparse" {
						qid = h.Pick(c, "query sparse", h.HexID(c, "q"), ids[h.Int(c, "q2", 0, len(ids)-1)])
						q = id2Path(qid)
					}
					lookup(c, tree, root, created, qid, q)
				}
			}
			c.Class("depth %d", depth)
			c.Class("fan-out %d", f)
			c.Eval(n > 1, "f=%d depth=%d n=%d", f, depth, n)
		}
	}
	h.Run(t, h.Prop{
		Name: "updates", N: h.N{Quick: 12000, Thorough: 200000},
		Rule:  "histories of 1 to 40 insertions (siblings, cousins, leaves overwritten with other or the same data of several types) at depths 1 to 7 over fan-outs 2 to 16383, with a caller's mapping or the real ones; every update call is compared with a model trie, and lookups of present, prefix-sharing and absent paths with the model; non-trivial with at least two insertions",
		Check: updates(1, 40),
	}, h.Prop{
		Name: "long", N: h.N{Quick: 48, Thorough: 2000},
		Rule:  "as updates with 300 to 700 insertions and fan-outs up to 1023; every case is non-trivial",
		Check: updates(300, 700),
	}, h.Prop{
		Name: "empty", N: h.N{Quick: 100, Thorough: 1000}, Single: true,
		Rule: "lookups in an empty tree report absence",
		Check: func(c *h.C) {
			tree := &sparse.Tree{ID2Path: h.Path, FanOut: 3}
			path := h.TreePath(c, "path", 3, h.Int(c, "depth", 1, 5), nil)
			lookup(c, tree, &trieNode{}, false, h.PathID(path), path)
			c.Eval(true, "%v", path)
		},
	})
}

func lookup(c *h.C, tree *sparse.Tree, root *trieNode, created bool, id string, path []uint16) {
	data, chain, ok := tree.Get(id)
	var want []*trieNode
	v := root
	exists := created
	for _, p := range path {
		if v == nil || !exists {
			exists = false
			break
		}
		want = append(want, v)
		v = v.children[p]
		exists = v != nil
	}
	if ok != exists {
		c.Fatalf("lookup of %v reports presence %v instead of %v", path, ok, exists)
	}
	if !exists {
		c.Class("absent")
		return
	}
	c.Class("present")
	if data != v.data {
		c.Fatalf("lookup of %v yields %v instead of %v", path, data, v.data)
	}
	if len(chain) != len(want) {
		c.Fatalf("lookup of %v yields %d ancestors instead of %d", path, len(chain), len(want))
	}
	for i := range chain {
		got, isVertex := chain[i].(*sparse.Vertex)
		if !isVertex || got.Data != want[i].data {
			c.Fatalf("ancestor %d of %v is %v instead of %v", i, path, chain[i], want[i].data)
		}
	}
}
