package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Unexported names that contracts mention may be renamed without any change of behaviour. contracts/names.json lists
// the unexported declarations of the repository as the contracts know them; where one is missing and there is
// another one of the same kind, owner and type that was not there before, contracts and harnesses are rewritten to
// the new name. A wrong guess cannot hide anything: every obligation is still decided on the code under that name.

type declName struct {
	Kind  string `json:"kind"`  // func, method, field, type, value
	Owner string `json:"owner"` // receiver or struct type
	Name  string `json:"name"`
	Type  string `json:"type"`
}

func declNames(dir string) []declName {
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, 0)
	if err != nil {
		return nil
	}
	var out []declName
	add := func(kind, owner string, id *ast.Ident, typ string) {
		if !id.IsExported() && id.Name != "_" && id.Name != "init" {
			out = append(out, declName{kind, owner, id.Name, typ})
		}
	}
	sig := func(f *ast.FuncType) string {
		list := func(fl *ast.FieldList) string {
			var s []string
			if fl != nil {
				for _, p := range fl.List {
					n := len(p.Names)
					if n == 0 {
						n = 1
					}
					for ; n > 0; n-- {
						s = append(s, types.ExprString(p.Type))
					}
				}
			}
			return strings.Join(s, ", ")
		}
		return "func(" + list(f.Params) + ") (" + list(f.Results) + ")"
	}
	var files []string
	byName := map[string]*ast.File{}
	for _, p := range pkgs {
		for n, f := range p.Files {
			files = append(files, n)
			byName[n] = f
		}
	}
	sort.Strings(files)
	for _, n := range files {
		for _, d := range byName[n].Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					add("func", "", d.Name, sig(d.Type))
				} else {
					t := d.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					add("method", types.ExprString(t), d.Name, sig(d.Type))
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						st, ok := s.Type.(*ast.StructType)
						if !ok {
							add("type", "", s.Name, types.ExprString(s.Type))
							continue
						}
						var fl []string
						for _, f := range st.Fields.List {
							for _, id := range f.Names {
								add("field", s.Name.Name, id, types.ExprString(f.Type))
								fl = append(fl, types.ExprString(f.Type))
							}
						}
						add("type", "", s.Name, "struct "+strings.Join(fl, ";"))
					case *ast.ValueSpec:
						for i, id := range s.Names {
							t := ""
							if s.Type != nil {
								t = types.ExprString(s.Type)
							} else if i < len(s.Values) {
								t = types.ExprString(s.Values[i])
							}
							add("value", "", id, t)
						}
					}
				}
			}
		}
	}
	return out
}

func allNames(repo string) map[string][]declName {
	m := map[string][]declName{}
	for _, d := range pkgDirs {
		m[d.dir] = declNames(filepath.Join(repo, d.rel))
	}
	return m
}

func writeNames(repo string) {
	b, _ := json.MarshalIndent(allNames(repo), "", " ")
	fmt.Println(string(b))
}

// renames gives, for each contract directory, the names that were replaced.
func renames(verif, repo string) map[string]map[string]string {
	out := map[string]map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "contracts", "names.json"))
	if err != nil {
		return out
	}
	var old map[string][]declName
	if json.Unmarshal(b, &old) != nil {
		return out
	}
	now := allNames(repo)
	for dir, was := range old {
		is := now[dir]
		ren := map[string]string{}
		used := map[declName]bool{}
		// types first, because they occur in owners and signatures
		for pass := 0; pass < 2; pass++ {
			tr := func(s string) string { return renameWords(s, ren) }
			has := map[declName]bool{}
			for _, d := range was {
				has[declName{d.Kind, tr(d.Owner), tr(d.Name), tr(d.Type)}] = true
			}
			there := map[string]bool{}
			for _, d := range is {
				there[d.Kind+" "+d.Owner+" "+d.Name] = true
			}
			for _, d := range was {
				if (pass == 0) != (d.Kind == "type") {
					continue
				}
				d = declName{d.Kind, tr(d.Owner), d.Name, tr(d.Type)}
				if there[d.Kind+" "+d.Owner+" "+d.Name] || ren[d.Name] != "" {
					continue
				}
				for _, c := range is {
					if c.Kind == d.Kind && c.Owner == d.Owner && c.Type == d.Type && !has[c] && !used[c] {
						used[c] = true
						ren[d.Name] = c.Name
						break
					}
				}
			}
		}
		if len(ren) > 0 {
			out[dir] = ren
		}
	}
	return out
}

// dropMissing removes the contracts about internal functions that no longer exist ("//verif:needs Type.name" in
// their comment): what such a function did is decided where it is done now. dropped lists them.
func dropMissing(src []byte, repoDir string, ads *adapted, dropped *[]string) []byte {
	if !strings.Contains(string(src), "//verif:needs ") {
		return src
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "c.go", src, parser.ParseComments)
	if err != nil {
		return src
	}
	have := map[string]bool{}
	for _, d := range declNames(repoDir) {
		if d.Kind == "method" {
			have[d.Owner+"."+d.Name] = true
		} else if d.Kind == "func" {
			have[d.Name] = true
		}
	}
	out := append([]byte{}, src...)
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			n := strings.TrimSpace(strings.TrimPrefix(c.Text, "//verif:needs "))
			if n == c.Text || have[n] && !ads.changed[n] {
				continue
			}
			*dropped = append(*dropped, fd.Name.Name+": "+n+" does not exist, or not with its parameters")
			for i := fset.Position(fd.Pos()).Offset; i < fset.Position(fd.End()).Offset; i++ {
				if out[i] != '\n' {
					out[i] = ' '
				}
			}
		}
	}
	return out
}

var wordRx = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

func renameWords(s string, ren map[string]string) string {
	if len(ren) == 0 {
		return s
	}
	return wordRx.ReplaceAllStringFunc(s, func(w string) string {
		if n, ok := ren[w]; ok {
			return n
		}
		return w
	})
}

// adapted tells how the contracts of one package call functions whose parameters or results have changed: through a
// generated function with the former signature, which is executed like repository code.
type adapted struct {
	methods, funcs map[string]bool // with a generated adapter
	changed        map[string]bool // changed in a way that cannot be adapted to: Type.name or name
	code           []byte          // the generated file, if any
}

var selRx = regexp.MustCompile(`(\.|interface\{ )?\b([A-Za-z_][A-Za-z_0-9]*)\(`)

func (a *adapted) apply(src []byte) []byte {
	if len(a.methods)+len(a.funcs) == 0 {
		return src
	}
	return []byte(selRx.ReplaceAllStringFunc(string(src), func(m string) string {
		g := selRx.FindStringSubmatch(m)
		if g[1] != "" && a.methods[g[2]] || g[1] == "" && a.funcs[g[2]] {
			return g[1] + "vAd_" + g[2] + "("
		}
		return m
	}))
}

func signature(t string) (ps, rs []string, ok bool) {
	x, err := parser.ParseExpr(t)
	if err != nil {
		return nil, nil, false
	}
	f, ok := x.(*ast.FuncType)
	if !ok {
		return nil, nil, false
	}
	for _, p := range f.Params.List {
		ps = append(ps, types.ExprString(p.Type))
	}
	if f.Results != nil {
		for _, p := range f.Results.List {
			rs = append(rs, types.ExprString(p.Type))
		}
	}
	return ps, rs, true
}

func adaptersFor(verif, repo, dir, rel string, ren map[string]string) *adapted {
	a := &adapted{methods: map[string]bool{}, funcs: map[string]bool{}, changed: map[string]bool{}}
	b, err := os.ReadFile(filepath.Join(verif, "contracts", "names.json"))
	if err != nil {
		return a
	}
	var old map[string][]declName
	if json.Unmarshal(b, &old) != nil {
		return a
	}
	now := declNames(filepath.Join(repo, rel))
	var code strings.Builder
	for _, d := range old[dir] {
		if d.Kind != "func" && d.Kind != "method" {
			continue
		}
		tr := func(s string) string { return renameWords(s, ren) }
		d = declName{d.Kind, tr(d.Owner), tr(d.Name), tr(d.Type)}
		for _, n := range now {
			if n.Kind != d.Kind || n.Owner != d.Owner || n.Name != d.Name || n.Type == d.Type {
				continue
			}
			full := d.Name
			if d.Owner != "" {
				full = d.Owner + "." + d.Name
			}
			c, ok := adapter(d, n, now)
			if !ok {
				a.changed[full] = true
				continue
			}
			code.WriteString(c)
			if d.Kind == "method" {
				a.methods[d.Name] = true
			} else {
				a.funcs[d.Name] = true
			}
		}
	}
	if code.Len() == 0 {
		return a
	}
	// a method of the same name and former signature on another type would be rewritten, too: not adapted
	for m := range a.methods {
		k := 0
		for _, n := range now {
			if n.Kind == "method" && n.Name == m {
				k++
			}
		}
		if k > 1 {
			return &adapted{changed: a.changed}
		}
	}
	imports := map[string]string{}
	fset := token.NewFileSet()
	pkgs, _ := parser.ParseDir(fset, filepath.Join(repo, rel), func(fi os.FileInfo) bool { return !strings.HasSuffix(fi.Name(), "_test.go") }, parser.ImportsOnly)
	name := dir
	for pn, p := range pkgs {
		name = pn
		for _, f := range p.Files {
			for _, im := range f.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				id := filepath.Base(path)
				if im.Name != nil {
					id = im.Name.Name
				}
				imports[id] = path
			}
		}
	}
	imports["time"] = "time"
	var head strings.Builder
	fmt.Fprintf(&head, "package %s\n\nimport (\n", name)
	var ids []string
	for id := range imports {
		if regexp.MustCompile(`\b` + id + `\.`).MatchString(code.String()) {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Fprintf(&head, "\t%s %q\n", id, imports[id])
	}
	head.WriteString(")\n\n")
	a.code = []byte(head.String() + code.String())
	return a
}

// adapter writes a function with the signature was that calls the one with the signature is.
func adapter(was, is declName, now []declName) (string, bool) {
	wp, wr, ok1 := signature(was.Type)
	ip, ir, ok2 := signature(is.Type)
	if !ok1 || !ok2 {
		return "", false
	}
	used := make([]bool, len(wp))
	var args []string
	for _, t := range ip {
		arg := ""
		for i, w := range wp {
			if used[i] {
				continue
			}
			switch {
			case w == t:
				arg = fmt.Sprintf("a%d", i)
			case w == "*"+t:
				arg = fmt.Sprintf("*a%d", i)
			case t == "*"+w:
				arg = fmt.Sprintf("&a%d", i)
			default:
				continue
			}
			used[i] = true
			break
		}
		if arg == "" {
			switch {
			case t == "time.Time":
				arg = "time.Now()"
			case was.Kind == "method":
				for _, d := range now {
					if d.Kind == "field" && d.Owner == was.Owner && d.Type == t && t == "Logger" {
						arg = "x." + d.Name
					}
				}
			}
		}
		if arg == "" {
			return "", false
		}
		args = append(args, arg)
	}
	for _, u := range used {
		if !u {
			return "", false
		}
	}
	var ps, ret []string
	for i, w := range wp {
		ps = append(ps, fmt.Sprintf("a%d %s", i, w))
	}
	got := make([]string, len(ir))
	for i := range got {
		got[i] = "_"
	}
	any := false
	for _, w := range wr {
		r := ""
		for j, t := range ir {
			if got[j] == "_" && t == w {
				got[j] = fmt.Sprintf("r%d", j)
				r = got[j]
				any = true
				break
			}
		}
		if r == "" {
			if w != "error" {
				return "", false
			}
			r = "nil"
		}
		ret = append(ret, r)
	}
	fn, recv := was.Name, ""
	if was.Kind == "method" {
		fn, recv = "x."+was.Name, "(x *"+was.Owner+") "
	}
	call := fn + "(" + strings.Join(args, ", ") + ")"
	if any {
		call = strings.Join(got, ", ") + " := " + call
	}
	return fmt.Sprintf("func %svAd_%s(%s) (%s) {\n\t%s\n\treturn %s\n}\n\n", recv, was.Name, strings.Join(ps, ", "), strings.Join(wr, ", "), call, strings.Join(ret, ", ")), true
}
