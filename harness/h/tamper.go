package h

import (
	"bytes"
	"fmt"
	"reflect"

	math "github.com/IBM/mathlib"
	"pgregory.net/rapid"
)

// Elements returns the group elements, scalars and integers which a verifier must bind.
func Elements(ptr interface{}) []Leaf {
	var res []Leaf
	for _, l := range Walk(ptr) {
		if l.Redundant || l.Kind == "list" || l.Nil() {
			continue
		}
		res = append(res, l)
	}
	return res
}

// PickLeaf draws a leaf, all patterns equally likely.
func PickLeaf(c *C, name string, leaves []Leaf) Leaf {
	var patterns []string
	byPattern := map[string][]Leaf{}
	for _, l := range leaves {
		if len(byPattern[l.Pattern]) == 0 {
			patterns = append(patterns, l.Pattern)
		}
		byPattern[l.Pattern] = append(byPattern[l.Pattern], l)
	}
	p := patterns[rapid.IntRange(0, len(patterns)-1).Draw(c.T, name+".pattern")]
	ls := byPattern[p]
	return ls[rapid.IntRange(0, len(ls)-1).Draw(c.T, name+".which")]
}

// Tamper changes the leaf into a value different modulo the group order. Donors are
// other structures' leaves, from which elements may be taken. It returns what it did.
func Tamper(c *C, name string, l Leaf, donors []Leaf) string {
	before := l.Bytes()
	how := ""
	var same []Leaf
	for _, d := range donors {
		if d.Kind == l.Kind && !d.Nil() && !bytes.Equal(d.Bytes(), before) {
			same = append(same, d)
		}
	}
	kind := rapid.IntRange(0, 5).Draw(c.T, name+".how")
	if kind >= 4 && len(same) > 0 {
		// Prefer the corresponding element of the donor
		d := same[rapid.IntRange(0, len(same)-1).Draw(c.T, name+".donor")]
		if kind == 5 {
			for _, s := range same {
				if s.Pattern == l.Pattern {
					d = s
					if s.Path == l.Path {
						break
					}
				}
			}
		}
		l.V.Set(reflect.ValueOf(copyElement(d.V.Interface())))
		return "taken from " + d.Path
	}
	switch l.Kind {
	case "G1":
		g := l.V.Interface().(*math.G1)
		switch kind {
		case 0:
			g, how = AddG(g, Curve.GenG1), "plus generator"
		case 1:
			g, how = SubG(Identity(), g), "negated"
		case 2:
			g, how = Identity(), "identity"
		case 3:
			g, how = AddG(g, g), "doubled"
		default:
			g, how = AddG(g, Curve.GenG1.Mul(NonZero(c, name+".delta"))), "shifted"
		}
		if bytes.Equal(g.Bytes(), before) {
			g, how = AddG(g, Curve.GenG1), "plus generator"
		}
		l.V.Set(reflect.ValueOf(g))
	case "Zr":
		z := l.V.Interface().(*math.Zr)
		switch kind {
		case 0:
			z, how = Add(z, ZrInt(1)), "plus one"
		case 1:
			if Bool(c, name+".below zero") {
				z, how = Negative(z), "negated, below zero"
			} else {
				z, how = Neg(z), "negated"
			}
		case 2:
			z, how = ZrInt(0), "zero"
		case 3:
			z, how = Add(z, z), "doubled"
		default:
			z, how = Add(z, NonZero(c, name+".delta")), "shifted"
		}
		if bytes.Equal(Canon(z).Bytes(), before) {
			z, how = Add(z, ZrInt(1)), "plus one"
		}
		l.V.Set(reflect.ValueOf(z))
	case "int":
		old := l.V.Int()
		n := old
		switch kind {
		case 0:
			n, how = old+1, "plus one"
		case 1:
			n, how = -old, "negated"
		case 2:
			n, how = 0, "zero"
		case 3:
			n, how = old-1, "minus one"
		case 4:
			n, how = old^(1<<62), "bit 62"
		default:
			n, how = old^(1<<uint(rapid.IntRange(0, 62).Draw(c.T, name+".bit"))), "bit flip"
		}
		if n == old {
			n, how = old+1, "plus one"
		}
		l.V.SetInt(n)
	default:
		panic("cannot tamper with " + l.Kind)
	}
	if bytes.Equal(l.Bytes(), before) {
		panic(fmt.Sprintf("tampering with %s by %s had no effect", l.Path, how))
	}
	return how
}

func copyElement(x interface{}) interface{} {
	switch e := x.(type) {
	case *math.G1:
		return e.Copy()
	case *math.Zr:
		return e.Copy()
	case *math.G2:
		return e.Copy()
	}
	return x
}

// Attempt runs a verification and tells whether it accepted. A panic counts as not
// accepting; it is reported separately.
func Attempt(verify func() error) (accepted bool, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			accepted, panicked = false, fmt.Sprint(r)
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	return verify() == nil, ""
}
