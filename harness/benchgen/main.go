// benchgen prepares the benchmark program for a check from inside: it copies the sources of
// /repo/bench into a directory as package benchprops, with stand-ins for calls that remove
// files, finds by their shape the stores, averages, settings and workloads, and writes
// registrations of what it found plus an overlay for the go command.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const benchDir = "/repo/bench"

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func str(n ast.Node) string {
	if n == nil {
		return ""
	}
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), n)
	return b.String()
}

// flat lists the types of parameters or results.
func flat(l *ast.FieldList) []string {
	var res []string
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			res = append(res, str(f.Type))
		}
	}
	return res
}

func literals(body ast.Node) string {
	var res []string
	ast.Inspect(body, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
			if s, err := strconv.Unquote(l.Value); err == nil {
				res = append(res, s)
			}
		}
		return true
	})
	return strings.Join(res, "\n")
}

type method struct {
	name        string
	pointer     bool
	params, res []string
}

func main() {
	out, here := os.Args[1], os.Args[2] // scratch directory, directory of package benchprops
	fset := token.NewFileSet()
	sources, err := filepath.Glob(filepath.Join(benchDir, "*.go"))
	check(err)
	overlay := map[string]string{}
	types := map[string]ast.Expr{}
	methods := map[string][]method{}
	type function struct {
		name        string
		params, res []string
		body        *ast.BlockStmt
	}
	var functions []function
	fanouts := ""
	for _, src := range sources {
		if strings.HasSuffix(src, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, src, nil, 0)
		check(err)
		polName := "pol"
		for _, i := range f.Imports {
			if p, _ := strconv.Unquote(i.Path.Value); p == "pol/pol" && i.Name != nil {
				polName = i.Name.Name
			}
		}
		norm := func(ts []string) []string {
			for i := range ts {
				ts[i] = strings.ReplaceAll(ts[i], polName+".", "pol.")
			}
			return ts
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						types[s.Name.Name] = s.Type
					case *ast.ValueSpec:
						for i, n := range s.Names {
							if d.Tok != token.VAR {
								continue
							}
							t := str(s.Type)
							if i < len(s.Values) {
								if cl, ok := s.Values[i].(*ast.CompositeLit); ok {
									t = str(cl.Type)
								}
							}
							if t == "[]uint16" {
								fanouts = n.Name
							}
						}
					}
				}
			case *ast.FuncDecl:
				p, r := norm(flat(d.Type.Params)), norm(flat(d.Type.Results))
				if d.Recv == nil {
					functions = append(functions, function{d.Name.Name, p, r, d.Body})
					continue
				}
				t := d.Recv.List[0].Type
				star, ok := t.(*ast.StarExpr)
				if ok {
					t = star.X
				}
				methods[str(t)] = append(methods[str(t)], method{d.Name.Name, ok, p, r})
			}
		}
		// Stand-ins for what removes files
		usesOS := false
		ast.Inspect(f, func(n ast.Node) bool {
			s, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "os" {
				switch s.Sel.Name {
				case "RemoveAll", "Remove", "Rename":
					usesOS = true
					x.Name = "verifOS"
				}
			}
			return true
		})
		f.Name.Name = "benchprops"
		var b bytes.Buffer
		check(format.Node(&b, fset, f))
		if usesOS {
			b.WriteString("\nvar _ = os.Args\n")
		}
		name := "zz_" + filepath.Base(src)
		check(os.WriteFile(filepath.Join(out, name), b.Bytes(), 0o644))
		overlay[filepath.Join(here, name)] = filepath.Join(out, name)
	}

	var g bytes.Buffer
	g.WriteString("package benchprops\n\nimport \"pol/pol\"\n\nvar _ pol.TreeType\n\nfunc init() {\n\tverifMain = main\n")
	if fanouts != "" {
		fmt.Fprintf(&g, "\tverifFanouts = &%s\n", fanouts)
	}
	for name, t := range types {
		get, put, destroy := "", "", ""
		for _, m := range methods[name] {
			p, r := strings.Join(m.params, ","), strings.Join(m.res, ",")
			switch {
			case p == "[]byte" && r == "[]byte":
				get = m.name
			case p == "[]byte,[]byte" && r == "":
				put = m.name
			case p == "" && r == "":
				destroy = m.name
			}
		}
		if get == "Get" && put == "Put" {
			open := ""
			if m, ok := t.(*ast.MapType); ok && str(m.Key) == "string" {
				open = "make(" + name + ")"
			}
			for _, f := range functions {
				if len(f.params) == 0 && len(f.res) == 1 && (f.res[0] == "*"+name || f.res[0] == name) {
					open = f.name + "()"
				}
			}
			if open != "" {
				end := "func() {}"
				if destroy != "" {
					end = "s." + destroy
				}
				fmt.Fprintf(&g, "\tverifStores[%q] = func() (verifStore, func()) {\n\t\ts := %s\n\t\treturn s, %s\n\t}\n", name, open, end)
			}
		}
		a, ok := t.(*ast.ArrayType)
		if ok && a.Len == nil {
			elem := str(a.Elt)
			for _, m := range methods[name] {
				if m.name != "Avg" || len(m.params) != 0 || len(m.res) != 1 || m.res[0] != elem {
					continue
				}
				fmt.Fprintf(&g, "\tverifAverages[%q] = func(xs []int64) int64 {\n\t\tl := make(%s, len(xs))\n\t\tfor i := range xs {\n\t\t\tl[i] = %s(xs[i])\n\t\t}\n\t\tavg := int64(l.Avg())\n\t\tfor i := range xs {\n\t\t\tif int64(l[i]) != xs[i] {\n\t\t\t\tpanic(\"an average modified its input\")\n\t\t\t}\n\t\t}\n\t\treturn avg\n\t}\n", name, name, "verifElem"+name)
			}
		}
	}
	var tail bytes.Buffer
	imports := ""
	for name, t := range types {
		if a, ok := t.(*ast.ArrayType); ok && a.Len == nil && strings.Contains(g.String(), "verifElem"+name+"(") {
			elem := str(a.Elt)
			if strings.HasPrefix(elem, "time.") {
				imports = "import \"time\"\n\n"
			}
			fmt.Fprintf(&tail, "\nfunc verifElem%s(x int64) %s { return %s(x) }\n", name, elem, elem)
		}
	}
	for _, f := range functions {
		if f.body == nil || f.name == "main" {
			continue
		}
		lits := literals(f.body)
		p, r := strings.Join(f.params, ","), strings.Join(f.res, ",")
		switch {
		case p == "" && r == "pol.TreeType" && strings.Contains(lits, "TREETYPE"):
			fmt.Fprintf(&g, "\tverifTreeType = %s\n", f.name)
		case p == "" && r == "int" && strings.Contains(lits, "ITERATIONS"):
			fmt.Fprintf(&g, "\tverifIterations = %s\n", f.name)
		case p == "" && r == "" && strings.Contains(lits, "PARALLELISM"):
			fmt.Fprintf(&g, "\tverifParallelism = %s\n", f.name)
		case len(f.params) == 3 && f.params[0] == "int" && f.params[1] == "*pol.LiabilitySet" && r == "time.Duration":
			fmt.Fprintf(&g, "\tverifPopulate = func(n int, ls *pol.LiabilitySet, id func([]byte) string) { %s(n, ls, id) }\n", f.name)
		}
	}
	g.WriteString("}\n")
	g.Write(tail.Bytes())
	text := strings.Replace(g.String(), "import \"pol/pol\"\n\n", "import \"pol/pol\"\n\n"+imports, 1)
	bridge := filepath.Join(out, "zz_bridge.go")
	check(os.WriteFile(bridge, []byte(text), 0o644))
	overlay[filepath.Join(here, "zz_bridge.go")] = bridge
	b, err := json.Marshal(map[string]interface{}{"Replace": overlay})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}
