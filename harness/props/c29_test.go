package props

import (
	"bytes"
	"fmt"
	"os"
	"testing"

	"github.com/syndtr/goleveldb/leveldb"

	"pol/pol"
	"pol/sparse"
	"pol/verkle"

	"verif/harness/h"
)

// copyDB hands out and keeps copies only.
type copyDB map[string][]byte

func (m copyDB) Get(k []byte) []byte {
	v, ok := m[string(k)]
	if !ok {
		return nil
	}
	return append([]byte{}, v...)
}
func (m copyDB) Put(k, v []byte) { m[string(k)] = append([]byte{}, v...) }

// reuseDB returns buffers which are valid until the next call only.
type reuseDB struct {
	m    map[string][]byte
	last []byte
}

func (r *reuseDB) scrub() {
	for i := range r.last {
		r.last[i] = 0xa5
	}
	r.last = nil
}

func (r *reuseDB) Get(k []byte) []byte {
	r.scrub()
	v, ok := r.m[string(k)]
	if !ok {
		return nil
	}
	r.last = append(make([]byte, 0, len(v)), v...)
	return r.last
}

func (r *reuseDB) Put(k, v []byte) {
	r.scrub()
	r.m[string(k)] = append([]byte{}, v...)
}

// emptyDB returns an empty, non-nil slice for what it does not have.
type emptyDB map[string][]byte

func (m emptyDB) Get(k []byte) []byte {
	if v, ok := m[string(k)]; ok {
		return append(make([]byte, 0, len(v)+9), v...)
	}
	return []byte{}
}
func (m emptyDB) Put(k, v []byte) { m[string(k)] = append([]byte{}, v...) }

// levelDB is LevelDB in a scratch directory.
type levelDB struct {
	db  *leveldb.DB
	dir string
}

func newLevelDB() *levelDB {
	dir := h.TempDir("leveldb")
	db, err := leveldb.OpenFile(dir, nil)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &levelDB{db, dir}
}

func (l *levelDB) Get(k []byte) []byte {
	v, err := l.db.Get(k, nil)
	if err == leveldb.ErrNotFound {
		return nil
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func (l *levelDB) Put(k, v []byte) {
	if err := l.db.Put(k, v, nil); err != nil {
		panic("harness: " + err.Error())
	}
}

func (l *levelDB) close() {
	l.db.Close()
	os.RemoveAll(l.dir)
}

// spyDB counts the calls.
type spyDB struct {
	verkle.DB
	gets, puts int
	keys       map[string]bool
}

func (s *spyDB) Get(k []byte) []byte {
	s.gets++
	key := string(k)
	v := s.DB.Get(k)
	if string(k) != key {
		panic("harness: key modified")
	}
	return v
}

func (s *spyDB) Put(k, v []byte) {
	s.puts++
	s.keys[string(k)] = true
	s.DB.Put(k, v)
}

var backends = []string{"map", "copying", "reusing", "level", "empty"}

func newBackend(kind string) (db verkle.DB, done func()) {
	done = func() {}
	switch kind {
	case "map":
		return h.MemDB{}, done
	case "copying":
		return copyDB{}, done
	case "reusing":
		return &reuseDB{m: map[string][]byte{}}, done
	case "empty":
		return emptyDB{}, done
	}
	l := newLevelDB()
	return l, l.close
}

// op is an operation on a set.
type op struct {
	kind string
	id   string
	x    int64
}

func drawOps(c *h.C, w *world, n int) []op {
	var ops []op
	for i := 0; i < n; i++ {
		switch h.Int(c, "op", 0, 6) {
		case 0, 1, 2:
			id := w.assign(c)
			ops = append(ops, op{"set", id, w.Model[id]})
		case 3:
			ops = append(ops, op{"root", "", 0})
		case 4:
			ops = append(ops, op{"get", w.id(c), 0})
		case 5:
			ops = append(ops, op{"total", "", 0})
		default:
			ops = append(ops, op{"refused", w.id(c), -1 - h.Amount(c, "negative", maxAmount)})
		}
	}
	return ops
}

// play runs the operations over a backend and describes all that was observed.
func play(c *h.C, params *pol.PublicParams, id2Path func(string) []uint16, kind string, ops []op, prove string) []string {
	backend, done := newBackend(kind)
	defer done()
	h.SetRand(4711)
	spy := &spyDB{DB: backend, keys: map[string]bool{}}
	ls := pol.NewLiabilitySet(params, spy, id2Path)
	var seen []string
	note := func(format string, args ...interface{}) { seen = append(seen, fmt.Sprintf(format, args...)) }
	values := map[string]int64{}
	reading := func(what string, f func()) {
		before := spy.puts
		f()
		if spy.puts != before {
			c.Fatalf("%s wrote to the store (%s)", what, kind)
		}
	}
	for _, o := range ops {
		switch o.kind {
		case "set":
			ls.Set(o.id, o.x)
			values[o.id] = o.x
			// Everything is in the store now
			V, W := ls.Root()
			raw := backend.Get(nil)
			if len(raw) > 0 {
				root := &verkle.Vertex{}
				root.FromBytes(raw)
				if !root.V.Equals(V) || !root.W.Equals(W) {
					c.Fatalf("the root in the store is not the published one (%s)", kind)
				}
			}
		case "refused":
			before := spy.puts
			h.Panics(func() { ls.Set(o.id, o.x) })
			if spy.puts != before {
				c.Fatalf("a refused assignment wrote to the store (%s)", kind)
			}
		case "get":
			reading("a lookup", func() {
				x, ok := ls.Get(o.id)
				note("get %s %d %v", o.id, x, ok)
			})
		case "root":
			reading("reading the root", func() {
				V, W := ls.Root()
				if V != nil {
					note("root %x %x", V.Bytes(), W.Bytes())
				} else {
					note("no root")
				}
			})
		case "total":
			if len(values) == 0 {
				continue
			}
			reading("proving the total", func() {
				tot := ls.ProveTot()
				V, _ := ls.Root()
				note("total %d %x %v", tot.Sum, tot.LiabilityProof.Bytes(), tot.Verify(params, V) == nil)
			})
		}
	}
	if f := h.Field(ls, "tree"); f.IsValid() {
		if t, ok := f.Interface().(*verkle.Tree); ok && t.Tree != nil {
			n := audit(c, t.Tree, params.PPPP, backend.Get, newModel(values, id2Path))
			note("%d vertices", n)
			if n > len(spy.keys) {
				c.Fatalf("%d vertices, but %d were stored (%s)", n, len(spy.keys), kind)
			}
		}
	}
	if _, ok := values[prove]; ok {
		reading("proving a liability", func() {
			x, proof, _, ok := ls.ProveLiability(prove)
			V, W := ls.Root()
			err := h.VerifyLiability(proof, params, prove, V, W, id2Path)
			note("liability %d %v %v", x, ok, err)
			if err != nil {
				c.Fatalf("honest proof refused over %s: %v", kind, err)
			}
		})
	}
	return seen
}

func compare(c *h.C, kinds []string, seen [][]string) {
	for i := 1; i < len(seen); i++ {
		if len(seen[i]) != len(seen[0]) {
			c.Fatalf("%d observations over %s, %d over %s", len(seen[i]), kinds[i], len(seen[0]), kinds[0])
		}
		for j := range seen[i] {
			if seen[i][j] != seen[0][j] {
				c.Fatalf("over %s: %s, over %s: %s", kinds[i], seen[i][j], kinds[0], seen[0][j])
			}
		}
	}
}

func TestC29(t *testing.T) {
	h.Run(t, h.Prop{
		Name: "backends", N: h.N{Quick: 240, Thorough: 12000},
		Rule: "the same history of 2 to 12 operations (assignments, refused ones, lookups, roots, totals) with the same randomness over an in-memory map, a copying store, one whose buffers are valid until the next call, one that returns empty slices and LevelDB: equal observations, stored vertices as the model has them after it, reads never write; non-trivial with at least two assignments",
		Check: func(c *h.C) {
			w := shortWorldCheap(h.Pick(c, "f", 3, 3, 7), h.Int(c, "depth", 2, 4))
			ops := drawOps(c, w, h.Int(c, "n", 2, 12))
			kinds := append([]string{}, backends...)
			if h.Int(c, "level", 0, 2) > 0 {
				kinds = []string{"map", "copying", "reusing", "empty"}
			}
			var seen [][]string
			for _, k := range kinds {
				seen = append(seen, play(c, w.PP, h.Path, k, ops, ""))
			}
			compare(c, kinds, seen)
			c.Class("%d stores", len(kinds))
			c.Eval(len(w.Order) > 1, "%d operations", len(ops))
		},
	}, h.Prop{
		Name: "long", N: h.N{Quick: 12, Thorough: 400},
		Rule: "as backends with histories of 120 to 300 operations over an in-memory map and one other store; every case is non-trivial",
		Check: func(c *h.C) {
			w := shortWorldCheap(h.Pick(c, "f", 3, 7, 15), h.Int(c, "depth", 3, 5))
			ops := drawOps(c, w, h.Int(c, "n", 120, 300))
			kinds := []string{"map", h.Pick(c, "store", "reusing", "level", "copying", "empty")}
			var seen [][]string
			for _, k := range kinds {
				seen = append(seen, play(c, w.PP, h.Path, k, ops, ""))
			}
			compare(c, kinds, seen)
			c.Class(kinds[1])
			c.Eval(true, "%d operations", len(ops))
		},
	}, h.Prop{
		Name: "dense", N: h.N{Quick: 32, Thorough: 1000},
		Rule: "as backends with dense identifiers",
		Check: func(c *h.C) {
			w := &world{f: h.Pick(c, "f", 3, 7, 15), kind: "dense"}
			mapping := sparse.DigitPath(uint16(w.f))
			w.Set = h.NewSet(cheapPP(w.f), mapping)
			ops := drawOps(c, w, h.Int(c, "n", 2, 6))
			var seen [][]string
			for _, k := range backends {
				seen = append(seen, play(c, w.PP, mapping, k, ops, ""))
			}
			compare(c, backends, seen)
			c.Eval(len(w.Order) > 1, "%d operations", len(ops))
		},
	}, h.Prop{
		Name: "sparse", N: h.N{Quick: 8, Thorough: 300},
		Rule: "as backends with sparse identifiers, the paths of which have 52 to 162 entries, over an in-memory map and one other store",
		Check: func(c *h.C) {
			w := &world{f: h.Pick(c, "f", 3, 3, 7, 31), kind: "sparse"}
			mapping := sparse.HexId2PathForFanOut(uint16(w.f))
			w.Set = h.NewSet(cheapPP(w.f), mapping)
			var ops []op
			for i := h.Int(c, "n", 1, 4); i > 0; i-- {
				id := w.id(c)
				if _, ok := w.Model[id]; !ok && w.sparseAlias(id) {
					continue
				}
				w.put(c, id, h.Amount(c, "liability", w.Room(id)))
				ops = append(ops, op{"set", id, w.Model[id]}, op{"get", w.known(c), 0}, op{h.Pick(c, "then", "root", "total"), "", 0})
			}
			kinds := []string{"map", h.Pick(c, "store", "reusing", "level", "copying", "empty")}
			var seen [][]string
			for _, k := range kinds {
				seen = append(seen, play(c, w.PP, mapping, k, ops, ""))
			}
			compare(c, kinds, seen)
			c.Class("fan-out %d", w.f)
			c.Eval(len(w.Order) > 1, "%d operations", len(ops))
		},
	}, h.Prop{
		Name: "proofs", N: h.N{Quick: 16, Thorough: 600},
		Rule: "as backends over fan-out 3 and depth 2, with a liability proof which must verify over every store",
		Check: func(c *h.C) {
			w := shortWorld(3, 2)
			ops := drawOps(c, w, h.Int(c, "n", 3, 8))
			if len(w.Order) == 0 {
				id := w.assign(c)
				ops = append(ops, op{"set", id, w.Model[id]})
			}
			prove := w.known(c)
			kinds := []string{"map", h.Pick(c, "store", "reusing", "level", "copying")}
			var seen [][]string
			for _, k := range kinds {
				seen = append(seen, play(c, w.PP, h.Path, k, ops, prove))
			}
			compare(c, kinds, seen)
			c.Eval(true, "proof of %s over %s", prove, kinds[1])
		},
	}, h.Prop{
		Name: "separate", N: h.N{Quick: 240, Thorough: 10000},
		Rule: "two or three sets over distinct stores (possibly of equal contents) used in turns: each behaves as its own model, and an assignment to one changes no byte of the others' stores; non-trivial if each has an identifier",
		Check: func(c *h.C) {
			n := h.Int(c, "sets", 2, 3)
			var ws []*world
			for i := 0; i < n; i++ {
				ws = append(ws, shortWorldCheap(3, 3))
			}
			for i := h.Int(c, "n", 2, 12); i > 0; i-- {
				k := h.Int(c, "set", 0, n-1)
				var before []map[string][]byte
				for _, w := range ws {
					before = append(before, snapshot(w.Store))
				}
				if len(ws[0].paths) > 0 && len(ws[k].paths) == 0 {
					ws[k].paths = append([][]uint16{}, ws[0].paths...)
				}
				ws[k].assign(c)
				for j, w := range ws {
					if j == k {
						continue
					}
					if len(before[j]) != len(w.Store) {
						c.Fatalf("an assignment to set %d changed the store of set %d", k, j)
					}
					for key, b := range before[j] {
						if !bytes.Equal(b, w.Store[key]) {
							c.Fatalf("an assignment to set %d changed the store of set %d", k, j)
						}
					}
				}
			}
			nontrivial := true
			for j, w := range ws {
				if len(w.Order) == 0 {
					nontrivial = false
					if V, _ := w.Root(); V != nil {
						c.Fatalf("the empty set %d has a root", j)
					}
					continue
				}
				for id, x := range w.Model {
					if got, ok := w.Get(id); !ok || got != x {
						c.Fatalf("set %d has %d, %v for %s instead of %d", j, got, ok, id, x)
					}
				}
				V, _ := w.Root()
				tot := w.ProveTot()
				if err := tot.Verify(w.PP, V); err != nil || int64(tot.Sum) != w.Total() {
					c.Fatalf("set %d: total %d instead of %d: %v", j, tot.Sum, w.Total(), err)
				}
				for l := 0; l < j; l++ {
					if U, _ := ws[l].Root(); U != nil && U.Equals(V) {
						c.Fatalf("sets %d and %d publish the same commitment", l, j)
					}
				}
			}
			c.Eval(nontrivial, "%d sets", n)
		},
	})
}
