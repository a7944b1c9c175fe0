package props

import (
	"fmt"
	"reflect"

	"verif/harness/h"
)

// listsOf returns the lists inside a proof.
func listsOf(ptr interface{}) []h.Leaf {
	var res []h.Leaf
	for _, l := range h.Walk(ptr) {
		if l.Kind == "list" {
			res = append(res, l)
		}
	}
	return res
}

// alterLength changes the length of one of the lists, which must be settable, and says
// how; the empty string if there was nothing to do.
func alterLength(c *h.C, lists []h.Leaf, skip func(h.Leaf) bool) string {
	var ls []h.Leaf
	for _, l := range lists {
		if skip == nil || !skip(l) {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		return ""
	}
	l := h.PickLeaf(c, "list", ls)
	n := l.V.Len()
	kind := h.Pick(c, "length", "pop", "push", "shift", "empty", "nil", "half", "double", "pop2", "push2", "remove middle")
	set := func(v reflect.Value) { l.V.Set(v) }
	dup := func(lo, hi int) reflect.Value {
		s := reflect.MakeSlice(l.V.Type(), 0, hi-lo)
		return reflect.AppendSlice(s, l.V.Slice(lo, hi))
	}
	switch kind {
	case "pop":
		if n < 1 {
			return ""
		}
		set(dup(0, n-1))
	case "pop2":
		if n < 2 {
			return ""
		}
		set(dup(0, n-2))
	case "shift":
		if n < 1 {
			return ""
		}
		set(dup(1, n))
	case "empty":
		if n < 1 {
			return ""
		}
		set(dup(0, 0))
	case "nil":
		if n < 1 {
			return ""
		}
		set(reflect.Zero(l.V.Type()))
	case "half":
		if n < 2 {
			return ""
		}
		set(dup(0, n/2))
	case "remove middle":
		if n < 3 {
			return ""
		}
		set(reflect.AppendSlice(dup(0, n/2), l.V.Slice(n/2+1, n)))
	default:
		if n < 1 {
			return ""
		}
		times := map[string]int{"push": 1, "push2": 2, "double": n}[kind]
		s := dup(0, n)
		for i := 0; i < times; i++ {
			s = reflect.Append(s, l.V.Index((n-1+i)%n))
		}
		set(s)
	}
	return fmt.Sprintf("%s of %d: %s", l.Path, n, kind)
}

// The sizes of the case at hand, if it is to be large.
var largeN, largeM []int

// large repeats a sub-check with few cases of large sizes.
func large(props []h.Prop, name string, cases h.N, ns, ms []int, rule string) h.Prop {
	for _, p := range props {
		if p.Name != name {
			continue
		}
		check := p.Check
		p.Name, p.N, p.Rule = name+", large", cases, "as "+name+", "+rule
		p.Check = func(c *h.C) {
			largeN, largeM = ns, ms
			defer func() { largeN, largeM = nil, nil }()
			check(c)
		}
		return p
	}
	panic("no sub-check " + name)
}

// size draws the length of vectors.
func size(c *h.C, sizes ...int) int {
	if largeN != nil {
		sizes = largeN
	}
	return h.Pick(c, "n", sizes...)
}

// count draws the length of lists of vectors.
func count(c *h.C, counts ...int) int {
	if largeM != nil {
		counts = largeM
	}
	return h.Pick(c, "m", counts...)
}

// position draws an index below n, from either end.
func position(c *h.C, name string, n int) int {
	i := h.Int(c, name, 0, n-1)
	if largeN != nil && h.Bool(c, name+" from the end") {
		i = n - 1 - i
	}
	return i
}

// many renames a second large variant of a sub-check.
func many(p h.Prop) h.Prop {
	p.Name += " number"
	return p
}
