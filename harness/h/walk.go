package h

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
	"unsafe"

	math "github.com/IBM/mathlib"
)

var (
	tG1 = reflect.TypeOf((*math.G1)(nil))
	tG2 = reflect.TypeOf((*math.G2)(nil))
	tGt = reflect.TypeOf((*math.Gt)(nil))
	tZr = reflect.TypeOf((*math.Zr)(nil))
)

// Leaf is a group element, field element, integer or list inside a structure.
type Leaf struct {
	Path    string // with indices
	Pattern string // without indices
	Kind    string // G1, G2, Gt, Zr, int, list
	V       reflect.Value
	// Redundant marks the copies which verifiers recompute
	Redundant bool
}

func open(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// Walk lists the leaves of what ptr points to.
func Walk(ptr interface{}) []Leaf {
	var res []Leaf
	v := reflect.ValueOf(ptr)
	if v.Kind() != reflect.Ptr {
		panic("need a pointer")
	}
	walk(v.Elem(), "", "", false, &res)
	return res
}

func walk(v reflect.Value, path, pattern string, redundant bool, res *[]Leaf) {
	v = open(v)
	add := func(kind string) {
		*res = append(*res, Leaf{Path: path, Pattern: pattern, Kind: kind, V: v, Redundant: redundant})
	}
	switch v.Type() {
	case tG1:
		add("G1")
		return
	case tG2:
		add("G2")
		return
	case tGt:
		add("Gt")
		return
	case tZr:
		add("Zr")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() && v.Kind() == reflect.Ptr {
			walk(v.Elem(), path, pattern, redundant, res)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			r := redundant
			// The verifiers recompute the instance of a nested inner product proof
			if v.Type().Name() == "InnerProductProof" && (f.Name == "P" || f.Name == "C") && path != "" {
				r = true
			}
			// A proof carries its statement's numbers in the open; others only remember something
			if f.PkgPath != "" && isInt(f.Type.Kind()) {
				continue
			}
			walk(v.Field(i), path+"."+f.Name, pattern+"."+f.Name, r, res)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		add("list")
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), pattern+"[]", redundant, res)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), fmt.Sprintf("%s[%d]", pattern, i), redundant, res)
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint16, reflect.Uint64:
		add("int")
	}
}

func isInt(k reflect.Kind) bool { return k >= reflect.Int && k <= reflect.Uintptr }

// Unexported tells whether an unexported field leads to the leaf.
func (l Leaf) Unexported() bool {
	for _, name := range strings.FieldsFunc(l.Pattern, func(r rune) bool { return r == '.' || r == '[' || r == ']' }) {
		if r, _ := utf8.DecodeRuneInString(name); !unicode.IsUpper(r) {
			return true
		}
	}
	return false
}

// Bytes encodes a leaf (lists by their length).
func (l Leaf) Bytes() []byte {
	switch l.Kind {
	case "G1":
		if g := l.V.Interface().(*math.G1); g != nil {
			return g.Bytes()
		}
	case "G2":
		if g := l.V.Interface().(*math.G2); g != nil {
			return g.Bytes()
		}
	case "Gt":
		if g := l.V.Interface().(*math.Gt); g != nil {
			return g.Bytes()
		}
	case "Zr":
		if z := l.V.Interface().(*math.Zr); z != nil {
			return Canon(z).Bytes()
		}
	case "int":
		return []byte(fmt.Sprint(l.V.Interface()))
	case "list":
		return []byte(fmt.Sprint(l.V.Len()))
	}
	return nil
}

// Raw encodes a leaf without reducing scalars.
func (l Leaf) Raw() []byte {
	if l.Kind == "Zr" {
		if z := l.V.Interface().(*math.Zr); z != nil {
			return []byte(z.String())
		}
		return nil
	}
	return l.Bytes()
}

// Nil tells whether the leaf is an absent element.
func (l Leaf) Nil() bool {
	switch l.Kind {
	case "G1", "G2", "Gt", "Zr":
		return l.V.IsNil()
	}
	return false
}

// Fingerprint hashes everything reachable from ptr, unexported fields and scalars'
// representations included.
func Fingerprint(ptrs ...interface{}) string {
	h := sha256.New()
	for _, p := range ptrs {
		fingerprint(reflect.ValueOf(p), h.Write, 0)
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

func fingerprint(v reflect.Value, w func([]byte) (int, error), depth int) {
	if depth > 60 {
		return
	}
	if !v.IsValid() {
		w([]byte("∅"))
		return
	}
	v = open(v)
	switch v.Type() {
	case tG1, tG2, tGt, tZr:
		if v.IsNil() {
			w([]byte("nil"))
			return
		}
		kind := map[reflect.Type]string{tG1: "G1", tG2: "G2", tGt: "Gt", tZr: "Zr"}[v.Type()]
		w([]byte(kind))
		if v.CanInterface() {
			w(Leaf{Kind: kind, V: v}.Raw())
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			w([]byte("nil"))
			return
		}
		fingerprint(v.Elem(), w, depth+1)
	case reflect.Struct:
		w([]byte("{"))
		for i := 0; i < v.NumField(); i++ {
			if isParams(v.Type()) && v.Type().Field(i).PkgPath != "" && remembered(v, i) {
				continue
			}
			fingerprint(v.Field(i), w, depth+1)
		}
		w([]byte("}"))
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(writer(w), "b%d:", v.Len())
			w(v.Bytes())
			return
		}
		fmt.Fprintf(writer(w), "[%d", v.Len())
		for i := 0; i < v.Len(); i++ {
			fingerprint(v.Index(i), w, depth+1)
		}
		w([]byte("]"))
	case reflect.Map:
		var entries []string
		it := v.MapRange()
		for it.Next() {
			var b bytes.Buffer
			fmt.Fprintf(&b, "%v=", it.Key())
			// Values of maps are not addressable
			e := reflect.New(it.Value().Type()).Elem()
			e.Set(it.Value())
			fingerprint(e, b.Write, depth+1)
			entries = append(entries, b.String())
		}
		sort.Strings(entries)
		w([]byte(strings.Join(entries, ";")))
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		fmt.Fprintf(writer(w), "i%d", v.Int())
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		fmt.Fprintf(writer(w), "u%d", v.Uint())
	case reflect.String:
		fmt.Fprintf(writer(w), "s%d:%s", v.Len(), v.String())
	case reflect.Bool:
		fmt.Fprintf(writer(w), "t%v", v.Bool())
	}
}

// isParams tells whether t is one of the types of public parameters.
func isParams(t reflect.Type) bool {
	return strings.HasPrefix(t.PkgPath(), "pol/") && (strings.HasSuffix(t.Name(), "PP") || strings.HasSuffix(t.Name(), "Params"))
}

type fieldOf struct {
	at    uintptr
	t     reflect.Type
	field int
}

var (
	late     = map[fieldOf]bool{}
	lateLock sync.Mutex
)

// remembered tells whether an unexported field of parameters only remembers what was computed
// from the others: such a field may be filled when it is first needed.
func remembered(v reflect.Value, i int) bool {
	f := v.Field(i)
	if strings.HasPrefix(f.Type().PkgPath(), "sync") {
		return true
	}
	switch f.Kind() {
	case reflect.Map, reflect.Func, reflect.Chan:
		return true
	case reflect.Ptr, reflect.Slice, reflect.Interface:
		if !v.CanAddr() {
			return f.IsNil()
		}
		lateLock.Lock()
		defer lateLock.Unlock()
		k := fieldOf{v.UnsafeAddr(), v.Type(), i}
		if f.IsNil() {
			late[k] = true
		}
		return late[k]
	}
	return false
}

type writer func([]byte) (int, error)

func (w writer) Write(p []byte) (int, error) { return w(p) }

// Copy makes a deep copy of x.
func Copy[T any](x T) T {
	src := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	src.Set(reflect.ValueOf(&x).Elem())
	dst := reflect.New(src.Type()).Elem()
	deepCopy(dst, src)
	return dst.Interface().(T)
}

func deepCopy(dst, src reflect.Value) {
	src, dst = open(src), open(dst)
	switch src.Type() {
	case tG1:
		if g := src.Interface().(*math.G1); g != nil {
			dst.Set(reflect.ValueOf(g.Copy()))
		}
		return
	case tZr:
		if z := src.Interface().(*math.Zr); z != nil {
			dst.Set(reflect.ValueOf(z.Copy()))
		}
		return
	case tG2:
		if g := src.Interface().(*math.G2); g != nil {
			dst.Set(reflect.ValueOf(g.Copy()))
		}
		return
	case tGt:
		dst.Set(src)
		return
	}
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		n := reflect.New(src.Type().Elem())
		deepCopy(n.Elem(), src.Elem())
		dst.Set(n)
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			deepCopy(dst.Field(i), src.Field(i))
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			deepCopy(n.Index(i), src.Index(i))
		}
		dst.Set(n)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			deepCopy(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(src)
	}
}

// Field returns a settable field of the structure ptr points to, unexported ones
// included, or an invalid value when there is none.
func Field(ptr interface{}, name string) reflect.Value {
	f := reflect.ValueOf(ptr).Elem().FieldByName(name)
	if !f.IsValid() {
		return f
	}
	return open(f)
}

// SetFields sets fields by name; false if one of them is missing or of another type.
func SetFields(ptr interface{}, fields map[string]interface{}) bool {
	for name, val := range fields {
		f := Field(ptr, name)
		v := reflect.ValueOf(val)
		if !f.IsValid() || !v.Type().AssignableTo(f.Type()) {
			return false
		}
		f.Set(v)
	}
	return true
}
