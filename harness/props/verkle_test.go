package props

import (
	"bytes"
	crand "crypto/rand"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"sort"
	"testing"

	math "github.com/IBM/mathlib"

	"pol/common"
	"pol/pp"
	"pol/sparse"
	"pol/verkle"

	"verif/harness/h"
)

var verkleTrees = map[int]*verkle.Tree{}

// verkleTree returns an empty tree over a new store. Parameters are made once.
func verkleTree(fanOut int, id2Path func(string) []uint16) (*verkle.Tree, h.MemDB) {
	if verkleTrees[fanOut] == nil {
		verkleTrees[fanOut] = verkle.NewVerkleTree(uint16(fanOut), nil, h.MemDB{})
	}
	t := verkleTrees[fanOut]
	db := h.MemDB{}
	t.DB = db
	t.Tree.ID2Path = id2Path
	t.Tree.Root = nil
	return t, db
}

// model is a trie of the values that should be stored.
type model struct {
	children map[uint16]*model
	value    int64
	leaf     bool
}

func newModel(values map[string]int64, id2Path func(string) []uint16) *model {
	root := &model{}
	for id, x := range values {
		v := root
		for _, p := range id2Path(id) {
			if v.children == nil {
				v.children = map[uint16]*model{}
			}
			if v.children[p] == nil {
				v.children[p] = &model{}
			}
			v = v.children[p]
		}
		v.value, v.leaf = x, true
	}
	return root
}

func (m *model) sum() int64 {
	if m.leaf {
		return m.value
	}
	var s int64
	for _, ch := range m.children {
		s += ch.sum()
	}
	return s
}

// failer reports what is wrong.
type failer interface {
	Fatalf(format string, args ...any)
}

// suspicion notes what is wrong without failing.
type suspicion struct{}

func (suspicion) Fatalf(format string, args ...any) { panic(suspicion{}) }

// suspicious tells whether f finds anything wrong.
func suspicious(f func(failer)) bool {
	panicked, _, _ := h.Panics(func() { f(suspicion{}) })
	return panicked
}

// audit compares every vertex of the tree with the model and returns how many there are.
func audit(c failer, t *sparse.Tree, params *pp.PP, get func([]byte) []byte, m *model) int {
	if t.Root == nil {
		if m.children != nil {
			c.Fatalf("the tree is empty")
		}
		return 0
	}
	n := 0
	auditVertex(c, t.Root, params, get, m, t.FanOut, nil, &n)
	return n
}

func auditVertex(c failer, sv *sparse.Vertex, params *pp.PP, get func([]byte) []byte, m *model, f int, path []uint16, count *int) *verkle.Vertex {
	*count++
	key, ok := sv.Data.(string)
	if !ok {
		c.Fatalf("vertex %v refers to %v instead of a key", path, sv.Data)
	}
	raw := get([]byte(key))
	if len(raw) == 0 {
		c.Fatalf("vertex %v is not stored", path)
	}
	v := &verkle.Vertex{}
	v.FromBytes(raw)
	if v.BlindingFactor == nil || h.Big(v.BlindingFactor).Sign() == 0 {
		c.Fatalf("vertex %v has no blinding factor", path)
	}
	if len(sv.Descendants) != len(m.children) {
		c.Fatalf("vertex %v has %d children instead of %d", path, len(sv.Descendants), len(m.children))
	}
	values := v.Values(f + 1)
	want := make(common.Vec, f+2)
	digests := make(common.Vec, f+2)
	want.Zero()
	digests.Zero()
	leafLevel := false
	for i, mc := range m.children {
		child := sv.Descendants[i]
		if child == nil {
			c.Fatalf("vertex %v has no child %d", path, i)
		}
		here := append(append([]uint16{}, path...), i)
		want[i] = h.ZrInt(mc.sum())
		if mc.leaf {
			leafLevel = true
			if child.Data != mc.value {
				c.Fatalf("leaf %v holds %v instead of %d", here, child.Data, mc.value)
			}
			continue
		}
		cv := auditVertex(c, child, params, get, mc, f, here, count)
		if !h.SameZr(cv.Values(f + 1)[f], want[i]) {
			c.Fatalf("vertex %v: sum does not match", here)
		}
		digests[i] = hashZr(cv.V.Bytes(), bytesOf(cv.W))
		if !h.SameZr(cv.Digest(), digests[i]) {
			c.Fatalf("vertex %v: digest is not of its commitments", here)
		}
	}
	want[f] = h.ZrInt(m.sum())
	want[f+1] = v.BlindingFactor
	for i := 0; i <= f; i++ {
		if !h.SameZr(values[i], want[i]) {
			what := fmt.Sprintf("value of child %d", i)
			if i == f {
				what = "sum"
			}
			c.Fatalf("vertex %v: %s is %v instead of %v", path, what, values[i], want[i])
		}
	}
	for i := 0; i < f+2; i++ {
		d := v.Digests[uint16(i)]
		if d == nil {
			d = h.ZrInt(0)
		}
		if !h.SameZr(d, digests[i]) {
			c.Fatalf("vertex %v: digest of child %d is %v instead of %v", path, i, d, digests[i])
		}
	}
	if len(v.Digests) > f {
		c.Fatalf("vertex %v has %d digests", path, len(v.Digests))
	}
	if !v.V.Equals(h.MSM(params.G1s[:f+2], want)) {
		c.Fatalf("vertex %v: V does not open to its values, sum and blinding factor", path)
	}
	if leafLevel {
		if v.W != nil {
			c.Fatalf("leaf level vertex %v has a digest commitment", path)
		}
	} else if v.W == nil || !v.W.Equals(h.MSM(params.G1s[:f+2], digests)) {
		c.Fatalf("vertex %v: W does not open to its digests", path)
	}
	return v
}

// drawValue draws a value that keeps the total below 2^63.
func drawValue(c *h.C, name string, values map[string]int64, id string) int64 {
	room := int64(maxAmount)
	for k, v := range values {
		if k != id {
			room -= v
		}
	}
	return h.Amount(c, name, room)
}

// nextPath draws a path close to those known, often one of them.
func nextPath(c *h.C, f, depth int, known [][]uint16) []uint16 {
	if len(known) > 0 && h.Int(c, "known", 0, 2) == 0 {
		return known[h.Int(c, "which", 0, len(known)-1)]
	}
	return h.TreePath(c, "path", f, depth, known)
}

func bytesOf(g *math.G1) []byte {
	if g == nil {
		return nil
	}
	return g.Bytes()
}

func snapshot(db h.MemDB) map[string][]byte {
	res := map[string][]byte{}
	for k, v := range db {
		res[k] = append([]byte{}, v...)
	}
	return res
}

func TestC08(t *testing.T) {
	run := func(c *h.C, f, depth, n int) {
		tree, db := verkleTree(f, h.Path)
		values := map[string]int64{}
		var paths [][]uint16
		for i := 0; i < n; i++ {
			path := nextPath(c, f, depth, paths)
			id := h.PathID(path)
			x := drawValue(c, "value", values, id)
			if old, ok := values[id]; ok && h.Int(c, "same", 0, 5) == 0 {
				x = old
			}
			before := snapshot(db)
			keysBefore := vertexKeys(tree.Tree, path)
			tree.Put(id, x)
			values[id] = x
			paths = append(paths, path)
			c.Desc("%s=%d", id, x)
			// Only vertices on the path change
			changed := map[string]bool{}
			for _, k := range vertexKeys(tree.Tree, path) {
				changed[k] = true
			}
			for _, k := range keysBefore {
				changed[k] = true
			}
			for k, b := range before {
				if !changed[k] && !bytes.Equal(db[k], b) {
					c.Fatalf("assigning %s changed the vertex %q off its path", id, k)
				}
			}
			count := audit(c, tree.Tree, tree.PP, db.Get, newModel(values, h.Path))
			if count > len(db) {
				c.Fatalf("%d vertices, but only %d are stored", count, len(db))
			}
			c.Eval(i > 0, "step %d", i)
		}
		c.Class("fan-out %d", f)
		c.Class("depth %d", depth)
	}
	h.Run(t, h.Prop{
		Name: "small", N: h.N{Quick: 4000, Thorough: 40000},
		Rule: "histories of 1 to 10 assignments (siblings, cousins, overwriting by other, equal and zero values, totals up to 2^63-1) at depths 1 to 5 over fan-outs 2, 3 and 7; after each, every vertex is recomputed from the assigned values; non-trivial from the second assignment on",
		Check: func(c *h.C) {
			run(c, h.Pick(c, "f", 3, 3, 7, 2), h.Int(c, "depth", 1, 5), h.Int(c, "n", 1, 10))
		},
	}, h.Prop{
		Name: "wide", N: h.N{Quick: 24, Thorough: 1600},
		Rule: "as small over fan-outs 15, 63, 255 and 257 (1023, 4095 in thorough)",
		Check: func(c *h.C) {
			fs := []int{15, 63, 255, 257}
			if h.Thorough {
				fs = append(fs, 1023, 4095)
			}
			run(c, h.Pick(c, "f", fs...), h.Int(c, "depth", 1, 3), h.Int(c, "n", 2, 5))
		},
	}, h.Prop{
		Name: "long", N: h.N{Quick: 24, Thorough: 600},
		Rule: "histories of 100 to 400 assignments at depths 1 to 3 over fan-outs 3, 15 and 63; all vertices are recomputed at the end; every case is non-trivial",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 3, 15, 63)
			depth := h.Int(c, "depth", 1, 3)
			tree, db := verkleTree(f, h.Path)
			values := map[string]int64{}
			for i, n := 0, h.Int(c, "n", 100, 400); i < n; i++ {
				id := h.PathID(anyPath(f, depth))
				x := drawnAmount(maxAmount/1000 + 1)
				tree.Put(id, x)
				values[id] = x
			}
			audit(c, tree.Tree, tree.PP, db.Get, newModel(values, h.Path))
			c.Class("fan-out %d", f)
			c.Eval(true, "f=%d depth=%d, %d identifiers", f, depth, len(values))
		},
	}, h.Prop{
		Name: "very wide", N: h.N{Quick: 3, Thorough: 20}, Single: true,
		Rule: "as small over fan-out 1023",
		Check: func(c *h.C) {
			run(c, 1023, h.Int(c, "depth", 2, 3), h.Int(c, "n", 2, 5))
		},
	}, h.Prop{
		Name: "real mappings", N: h.N{Quick: 40, Thorough: 2000},
		Rule: "as small with dense identifiers over fan-outs 3 to 31 and, less often, sparse ones over fan-outs 7 to 31",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 7, 15, 31)
			dense := h.Int(c, "dense", 0, 3) > 0
			mapping := sparse.HexId2PathForFanOut(uint16(f))
			if dense {
				f = h.Pick(c, "dense f", 3, 7, 15, 31)
				mapping = sparse.DigitPath(uint16(f))
			}
			tree, db := verkleTree(f, mapping)
			values := map[string]int64{}
			var ids []string
			n := h.Int(c, "n", 1, 4)
			for i := 0; i < n; i++ {
				id := nextID(c, dense, f, ids)
				x := drawValue(c, "value", values, id)
				tree.Put(id, x)
				values[id] = x
				ids = append(ids, id)
				c.Desc("%s=%d", id, x)
			}
			audit(c, tree.Tree, tree.PP, db.Get, newModel(values, mapping))
			c.Eval(n > 1, "f=%d", f)
		},
	})
}

// word takes a number from the process' deterministic randomness.
func word() uint64 {
	b := make([]byte, 8)
	if _, err := crand.Read(b); err != nil {
		panic(err)
	}
	return binary.BigEndian.Uint64(b)
}

// anyPath makes a path for histories too long to be drawn step by step.
func anyPath(f, depth int) []uint16 {
	p := make([]uint16, depth)
	for i := range p {
		p[i] = uint16(word() % uint64(f))
	}
	return p
}

// drawnAmount makes an amount up to max, small ones and zero included.
func drawnAmount(max int64) int64 {
	return int64(word()>>(1+word()%63)) % max
}

// nextID draws a real identifier close to those known.
func nextID(c *h.C, dense bool, f int, known []string) string {
	if len(known) > 0 {
		switch h.Int(c, "known", 0, 3) {
		case 0:
			return known[h.Int(c, "which", 0, len(known)-1)]
		case 1:
			if dense {
				// The same lower digits to base f: a shared prefix of the path
				var n int64
				fmt.Sscanf(known[h.Int(c, "near", 0, len(known)-1)], "%d", &n)
				step := int64(1)
				for k := h.Int(c, "shared", 0, 18); k > 0 && step*int64(f) < 1000000000; k-- {
					step *= int64(f)
				}
				return fmt.Sprintf("%09d", (n+step*int64(h.Int(c, "times", 1, f)))%1000000000)
			}
			b := []byte(known[h.Int(c, "near", 0, len(known)-1)])
			i := h.Int(c, "digit", 0, 63)
			b[i] = "0123456789abcdef"[h.Int(c, "to", 0, 15)]
			return string(b)
		}
	}
	if dense {
		return h.DenseID(c, "id")
	}
	return h.HexID(c, "id")
}

// vertexKeys returns the store keys of the vertices along a path, as far as they exist.
func vertexKeys(t *sparse.Tree, path []uint16) []string {
	var res []string
	v := t.Root
	for _, p := range path {
		if v == nil {
			break
		}
		if k, ok := v.Data.(string); ok {
			res = append(res, k)
		}
		v = v.Descendants[p]
	}
	return res
}

// sameVertex compares what vertices export; n is the number of values.
func sameVertex(a, b *verkle.Vertex, n int) string {
	if !a.V.Equals(b.V) {
		return "V"
	}
	if (a.W == nil) != (b.W == nil) || a.W != nil && !a.W.Equals(b.W) {
		return "W"
	}
	if !h.SameZr(a.BlindingFactor, b.BlindingFactor) {
		return "the blinding factor"
	}
	if !sameVec(a.Values(n), b.Values(n)) {
		return "the values or sum"
	}
	if len(a.Digests) != len(b.Digests) {
		return "the number of digests"
	}
	for k, d := range a.Digests {
		if b.Digests[k] == nil || !h.SameZr(d, b.Digests[k]) {
			return fmt.Sprintf("digest %d", k)
		}
	}
	if !h.SameZr(a.Digest(), b.Digest()) {
		return "the digest"
	}
	return ""
}

func roundTrip(c *h.C, v *verkle.Vertex, n int) {
	print := h.Fingerprint(v)
	b1 := v.Bytes()
	if h.Fingerprint(v) != print {
		c.Fatalf("encoding changed the vertex")
	}
	kept := append([]byte{}, b1...)
	w := &verkle.Vertex{}
	w.FromBytes(b1)
	if !bytes.Equal(kept, b1) {
		c.Fatalf("decoding changed the encoding")
	}
	if what := sameVertex(v, w, n); what != "" {
		c.Fatalf("%s changed by encoding and decoding", what)
	}
	// A decoded vertex does not depend on the buffer it was decoded from
	for i := range b1 {
		b1[i] = 0xff
	}
	if what := sameVertex(v, w, n); what != "" {
		c.Fatalf("%s changed with the buffer the vertex was decoded from", what)
	}
	// nor on what the receiver held before
	u := &verkle.Vertex{}
	u.FromBytes(kept)
	u2 := h.Copy(u)
	u2.FromBytes(kept)
	if what := sameVertex(u2, v, n); what != "" {
		c.Fatalf("%s differs when decoding into a vertex in use", what)
	}
}

func TestC09(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "tree", N: h.N{Quick: 300, Thorough: 16000},
		Rule: "every vertex of trees of 1 to 8 assignments over fan-outs 2 to 257; its stored encoding, and that of the decoded vertex, carry the values the tree should hold; non-trivial if the vertex has several children or a digest commitment",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 3, 3, 7, 2, 15, 63, 257)
			depth := h.Int(c, "depth", 1, 4)
			tree, db := verkleTree(f, h.Path)
			values := map[string]int64{}
			var paths [][]uint16
			n := h.Int(c, "n", 1, 8)
			if f > 15 && n > 3 {
				n = 3
			}
			for i := 0; i < n; i++ {
				path := nextPath(c, f, depth, paths)
				id := h.PathID(path)
				values[id] = drawValue(c, "value", values, id)
				tree.Put(id, values[id])
				paths = append(paths, path)
				c.Desc("%s=%d", id, values[id])
			}
			audit(c, tree.Tree, tree.PP, db.Get, newModel(values, h.Path))
			for k, b := range db {
				v := &verkle.Vertex{}
				v.FromBytes(b)
				roundTrip(c, v, f+1)
				c.Eval(v.W != nil || n > 1, "vertex %q", k)
			}
		},
	}, h.Prop{
		Name: "any", N: h.N{Quick: 4000, Thorough: 60000},
		Rule: "vertices of any population: keys up to 32766, arbitrary field elements, identities, with and without digests; non-trivial if there is a key above 255",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 3, 7, 255, 511, 1023, 16383, 32767)
			raw := verkle.RawVertex{}
			big := false
			values, digests := map[uint16]*math.Zr{}, map[uint16]*math.Zr{}
			kb := func(k uint16) []byte {
				b := make([]byte, 2)
				binary.BigEndian.PutUint16(b, k)
				return b
			}
			inner := h.Bool(c, "inner")
			for i := h.Int(c, "children", 0, 5); i > 0; i-- {
				k := h.Index(c, "key", f)
				if values[k] != nil {
					continue
				}
				big = big || k > 255
				values[k] = h.Scalar(c, "value")
				raw.Values = append(raw.Values, verkle.KV{K: kb(k), V: values[k].Bytes()})
				if inner {
					digests[k] = h.Scalar(c, "digest")
					raw.Digests = append(raw.Digests, verkle.KV{K: kb(k), V: digests[k].Bytes()})
				}
			}
			sum, r := h.Scalar(c, "sum"), h.Scalar(c, "r")
			V, W := h.Curve.GenG1.Mul(h.Scalar(c, "V")), h.Curve.GenG1.Mul(h.Scalar(c, "W"))
			raw.Sum, raw.BlindingFactor, raw.V = sum.Bytes(), r.Bytes(), V.Bytes()
			if inner {
				raw.W = W.Bytes()
			}
			b, err := asn1.Marshal(raw)
			if err != nil {
				c.Fatalf("harness: %v", err)
			}
			v := &verkle.Vertex{}
			if panicked, _, _ := h.Panics(func() { v.FromBytes(b) }); panicked {
				c.Class("another format")
				return
			}
			roundTrip(c, v, f+1)
			got := v.Values(f + 1)
			for i := 0; i < f; i++ {
				want := values[uint16(i)]
				if want == nil {
					want = zero
				}
				if !h.SameZr(got[i], want) {
					c.Fatalf("value %d is %v instead of %v", i, got[i], want)
				}
			}
			if !h.SameZr(got[f], sum) || !h.SameZr(v.BlindingFactor, r) || !v.V.Equals(V) || len(v.Digests) != len(digests) {
				c.Fatalf("the sum, blinding factor, V or digests differ")
			}
			if inner {
				if v.W == nil || !v.W.Equals(W) {
					c.Fatalf("W differs")
				}
			} else if v.W != nil {
				c.Fatalf("a digest commitment appeared")
			}
			for k, d := range digests {
				if v.Digests[k] == nil || !h.SameZr(v.Digests[k], d) {
					c.Fatalf("digest %d differs", k)
				}
			}
			c.Desc("f=%d values=%v digests=%v sum=%v r=%v", f, values, digests, sum, r)
			c.Eval(big, "")
		},
	})
}

// exported is one record of a tree's export.
type exported struct {
	path   string
	vertex []byte
}

func parseExport(c *h.C, b []byte) []exported {
	var res []exported
	for len(b) > 0 {
		if len(b) < 32 {
			c.Fatalf("the export ends within a header")
		}
		n := int(binary.BigEndian.Uint32(b))
		for _, x := range b[4:32] {
			if x != 0 {
				c.Fatalf("malformed header %x", b[:32])
			}
		}
		b = b[32:]
		if len(b) < n {
			c.Fatalf("the export ends within a record of %d bytes", n)
		}
		rv := sparse.RawVertex{}
		rest, err := asn1.Unmarshal(b[:n], &rv)
		if err != nil || len(rest) != 0 {
			c.Fatalf("malformed record: %v", err)
		}
		res = append(res, exported{rv.Path, rv.Vertex})
		b = b[n:]
	}
	return res
}

func TestC27(t *testing.T) {
	type node struct {
		path string
		key  string
		leaf bool
	}
	var list func(v *sparse.Vertex, path string, depth int, out *[]node)
	list = func(v *sparse.Vertex, path string, depth int, out *[]node) {
		key, _ := v.Data.(string)
		*out = append(*out, node{path, key, depth == 0})
		for i, u := range v.Descendants {
			list(u, fmt.Sprintf("%s.%d", path, i), depth-1, out)
		}
	}
	h.Run(t, h.Prop{
		Name: "export", N: h.N{Quick: 4000, Thorough: 30000},
		Rule: "trees of 1 to 12 assignments (overwritten ones included) at depths 1 to 5 over fan-outs 2 to 257; the export must hold exactly the vertices of the model, with the stored encodings, from which all values, sums and commitments are recovered; non-trivial with at least two identifiers",
		Check: func(c *h.C) {
			f := h.Pick(c, "f", 3, 3, 7, 2, 15, 257)
			depth := h.Int(c, "depth", 1, 5)
			tree, db := verkleTree(f, h.Path)
			values := map[string]int64{}
			var paths [][]uint16
			n := h.Int(c, "n", 1, 12)
			if f > 15 && n > 4 {
				n = 4
			}
			for i := 0; i < n; i++ {
				path := nextPath(c, f, depth, paths)
				id := h.PathID(path)
				values[id] = drawValue(c, "value", values, id)
				tree.Put(id, values[id])
				paths = append(paths, path)
				c.Desc("%s=%d", id, values[id])
			}
			// What there should be: every prefix of every path
			want := map[string]bool{"": false} // leaf?
			for _, path := range paths {
				s := ""
				for i, p := range path {
					s = fmt.Sprintf("%s.%d", s, p)
					want[s] = i == len(path)-1
				}
			}
			before := snapshot(db)
			print := treePrint(tree.Tree.Root)
			buff := &bytes.Buffer{}
			tree.Serialize(buff)
			recs := parseExport(c, buff.Bytes())
			var nodes []node
			list(tree.Tree.Root, "", depth, &nodes)
			if len(nodes) != len(want) {
				c.Fatalf("the tree has %d vertices instead of %d", len(nodes), len(want))
			}
			keyOf := map[string]string{}
			for _, nd := range nodes {
				keyOf[nd.path] = nd.key
			}
			seen := map[string]*verkle.Vertex{}
			for _, r := range recs {
				leaf, exists := want[r.path]
				if !exists {
					c.Fatalf("the export has a vertex %q which does not exist", r.path)
				}
				if _, twice := seen[r.path]; twice {
					c.Fatalf("the export has the vertex %q twice", r.path)
				}
				seen[r.path] = nil
				if leaf {
					continue
				}
				if len(r.vertex) == 0 {
					c.Fatalf("the export has no content for vertex %q", r.path)
				}
				v, stored := &verkle.Vertex{}, &verkle.Vertex{}
				if panicked, _, msg := h.Panics(func() { v.FromBytes(r.vertex) }); panicked {
					c.Fatalf("the content exported for vertex %q cannot be decoded: %s", r.path, msg)
				}
				stored.FromBytes(db.Get([]byte(keyOf[r.path])))
				if what := sameVertex(v, stored, f+1); what != "" {
					c.Fatalf("%s of vertex %q is not exported as stored", what, r.path)
				}
				seen[r.path] = v
			}
			if len(seen) != len(want) {
				c.Fatalf("%d of %d vertices were exported", len(seen), len(want))
			}
			// Recover identifiers, liabilities and sums from the export alone
			var total int64
			recovered := map[string]int64{}
			for _, path := range paths {
				parent := ""
				for _, p := range path[:len(path)-1] {
					parent = fmt.Sprintf("%s.%d", parent, p)
				}
				x, err := seen[parent].Values(f + 1)[path[len(path)-1]].Int()
				if err != nil {
					c.Fatalf("the value of %v is not exported", path)
				}
				recovered[h.PathID(path)] = x
			}
			for id, x := range values {
				if recovered[id] != x {
					c.Fatalf("the exported liability of %s is %d instead of %d", id, recovered[id], x)
				}
				total += x
			}
			if !h.SameZr(seen[""].Values(f + 1)[f], h.ZrInt(total)) {
				c.Fatalf("the exported total is not %d", total)
			}
			// Nothing changed, and a second export is the same
			if treePrint(tree.Tree.Root) != print {
				c.Fatalf("exporting changed the tree")
			}
			for k, b := range before {
				if !bytes.Equal(b, db[k]) {
					c.Fatalf("exporting changed the stored vertex %q", k)
				}
			}
			if len(before) != len(db) {
				c.Fatalf("exporting changed the store")
			}
			c.Class("fan-out %d", f)
			c.Class("depth %d", depth)
			c.Eval(len(values) > 1, "")
		},
	}, h.Prop{
		Name: "contents of any length", N: h.N{Quick: 200, Thorough: 6000},
		Rule: "sparse trees of drawn shape exported with contents of 0 to 200000 bytes per vertex: every record has the path and content of its vertex; non-trivial with a content longer than 255 bytes",
		Check: func(c *h.C) {
			f, depth := h.Pick(c, "f", 2, 3, 7, 300), h.Int(c, "depth", 1, 4)
			tree := &sparse.Tree{
				FanOut:            f,
				ID2Path:           h.Path,
				UpdateInnerVertex: func(key string, _ interface{}, _ []interface{}, _ bool, _ int) interface{} { return "inner" + key },
			}
			var paths [][]uint16
			want := map[string]string{"": "inner"}
			for i := h.Int(c, "n", 1, 5); i > 0; i-- {
				path := nextPath(c, f, depth, paths)
				paths = append(paths, path)
				s := ""
				for j, p := range path {
					s = fmt.Sprintf("%s.%d", s, p)
					want[s] = "inner" + s
					if j == len(path)-1 {
						want[s] = "leaf" + s
					}
				}
				tree.Put(h.PathID(path), "leaf"+s)
			}
			sizes, long := map[string]int{}, false
			content := func(data interface{}) []byte {
				s := data.(string)
				if _, exists := sizes[s]; !exists {
					n := h.Pick(c, "size", 0, 1, 100, 127, 128, 255, 256, 1000, 65535, 65536, 200000)
					sizes[s] = n
					long = long || n > 255
				}
				b := make([]byte, sizes[s])
				for i := range b {
					b[i] = byte(i*7 + i>>8 + len(s))
				}
				return append(b, s...)
			}
			buff := &bytes.Buffer{}
			tree.Root.Serialize(buff, "", content)
			seen := map[string]bool{}
			for _, r := range parseExport(c, buff.Bytes()) {
				data, exists := want[r.path]
				if !exists || seen[r.path] {
					c.Fatalf("the export has a vertex %q which does not exist, or twice", r.path)
				}
				seen[r.path] = true
				if !bytes.Equal(r.vertex, content(data)) {
					c.Fatalf("%d bytes were exported for vertex %q instead of %d", len(r.vertex), r.path, sizes[data]+len(data))
				}
			}
			if len(seen) != len(want) {
				c.Fatalf("%d of %d vertices were exported", len(seen), len(want))
			}
			c.Desc("%v", sizes)
			c.Eval(long, "")
		},
	})
}

// treePrint describes the shape and data of a tree.
func treePrint(v *sparse.Vertex) string {
	if v == nil {
		return "-"
	}
	var ks []int
	for k := range v.Descendants {
		ks = append(ks, int(k))
	}
	sort.Ints(ks)
	s := fmt.Sprintf("(%v", v.Data)
	for _, k := range ks {
		s += fmt.Sprintf(" %d:%s", k, treePrint(v.Descendants[uint16(k)]))
	}
	return s + ")"
}
