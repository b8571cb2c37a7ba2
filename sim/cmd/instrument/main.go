// Command instrument reads the working tree of fast-ksw and writes, into an output directory, copies of its library
// files in which every statement is preceded by a yield point and every source of nondeterminism goes through the
// simulator's seams. It also writes overlay.json (for go build -overlay) and sites.txt (yield site -> file:line).
// It inserts text only, so that line numbers, comments and build directives are preserved.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Module     *struct{ Path string }
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instrument:"}, a...)...)
	os.Exit(2)
}

type edit struct {
	off  int
	del  int
	text string
	ord  int
}

func main() {
	out := flag.String("out", "", "output directory")
	simdir := flag.String("sim", "", "directory of the vsim module")
	root := flag.String("root", "./cmd/vsim", "package whose fast-ksw dependencies are instrumented")
	flag.Parse()
	if *out == "" || *simdir == "" {
		fatal("need -out and -sim")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fatal(err)
	}

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=Dir,ImportPath,GoFiles,CgoFiles,Export,Module", *root)
	cmd.Dir = *simdir
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	var pkgs []*pkgInfo
	byPath := map[string]*pkgInfo{}
	dec := json.NewDecoder(strings.NewReader(string(raw)))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		byPath[p.ImportPath] = p
		if p.Module != nil && p.Module.Path == "fast-ksw" {
			pkgs = append(pkgs, p)
		}
	}
	if len(pkgs) == 0 {
		fatal("no fast-ksw packages among the dependencies")
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })

	overlay := map[string]string{}
	var sites []string
	hot := map[string][]int{} // kept state -> sites next to its uses
	var notes []string
	mapRanges, goStmts, chanOps := 0, 0, 0
	atomics := false

	type checked struct {
		p     *pkgInfo
		fset  *token.FileSet
		files []*ast.File
		names []string
		srcs  map[string][]byte
		info  *types.Info
		tpkg  *types.Package
	}
	var all []*checked
	state := map[string]bool{}
	for _, p := range pkgs {
		fset := token.NewFileSet()
		var files []*ast.File
		var names []string
		srcs := map[string][]byte{}
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(fn)
			if err != nil {
				fatal(err)
			}
			af, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			files = append(files, af)
			names = append(names, fn)
			srcs[fn] = src
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				q := byPath[path]
				if q == nil || q.Export == "" {
					return nil, fmt.Errorf("no export data for %s", path)
				}
				return os.Open(q.Export)
			}),
			Error: func(err error) { notes = append(notes, "types: "+err.Error()) },
		}
		tpkg, _ := conf.Check(p.ImportPath, fset, files, info)
		all = append(all, &checked{p, fset, files, names, srcs, info, tpkg})
		for _, af := range files {
			kept(af, info, state)
		}
	}
	for _, ck := range all {
		p, fset, files, names, srcs, info, tpkg := ck.p, ck.fset, ck.files, ck.names, ck.srcs, ck.info, ck.tpkg
		for k, af := range files {
			fn := names[k]
			src := srcs[fn]
			tf := fset.File(af.Pos())
			off := func(pos token.Pos) int { return tf.Offset(pos) }
			var edits []edit
			ord := 0
			add := func(o, del int, text string) {
				ord++
				edits = append(edits, edit{o, del, text, ord})
			}
			short := p.ImportPath[strings.LastIndex(p.ImportPath, "/")+1:] + "/" + filepath.Base(fn)
			site := func(pos token.Pos, fname string) string {
				sites = append(sites, fmt.Sprintf("%s:%d %s", short, fset.Position(pos).Line, fname))
				return fmt.Sprintf("simhook_.Y(%d);", len(sites)-1)
			}
			usesHook := false

			// imports
			imports := map[string]string{} // path -> local name
			timeName := ""
			for _, im := range af.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				name := ""
				if im.Name != nil {
					name = im.Name.Name
				}
				ln := name
				if ln == "" {
					ln = path[strings.LastIndex(path, "/")+1:]
				}
				imports[path] = ln
				repl := map[string]string{"crypto/rand": "vsim/hook/simrand", "sync": "vsim/hook/simsync", "math/rand": "vsim/hook/simmrand"}[path]
				if repl != "" {
					def := map[string]string{"crypto/rand": "rand", "sync": "sync", "math/rand": "rand"}[path]
					if name == "" {
						add(off(im.Path.Pos()), len(im.Path.Value), def+` "`+repl+`"`)
					} else {
						add(off(im.Path.Pos()), len(im.Path.Value), `"`+repl+`"`)
					}
				}
				if path == "time" {
					timeName = ln
				}
			}
			qual := func(q *types.Package) string {
				if q == tpkg {
					return ""
				}
				if n, ok := imports[q.Path()]; ok {
					return n
				}
				return "\x00"
			}

			after := map[*ast.BlockStmt][]string{} // blocks entered after looking at kept state
			stmtList := func(list []ast.Stmt, fname string, warm []string) {
				for _, s := range list {
					if es, ok := s.(*ast.EmptyStmt); ok && es.Implicit {
						continue
					}
					h := mentions(s, info, state, after)
					for _, k := range append(append([]string(nil), h...), warm...) {
						if l := hot[k]; len(l) == 0 || l[len(l)-1] != len(sites) {
							hot[k] = append(l, len(sites))
						}
					}
					warm = h
					add(off(s.Pos()), 0, site(s.Pos(), fname))
					usesHook = true
				}
			}

			var fstack []string
			var walk func(n ast.Node, fname string, pure bool)
			walk = func(n ast.Node, fname string, pure bool) {
				ast.Inspect(n, func(m ast.Node) bool {
					switch x := m.(type) {
					case *ast.BlockStmt:
						if !pure {
							if len(x.List) == 0 {
								add(off(x.Lbrace)+1, 0, site(x.Lbrace, fname))
								usesHook = true
							}
							stmtList(x.List, fname, after[x])
						}
					case *ast.CaseClause:
						if !pure {
							stmtList(x.Body, fname, nil)
						}
					case *ast.CommClause:
						if !pure {
							stmtList(x.Body, fname, nil)
						}
					case *ast.SwitchStmt:
						// the body block of a switch holds clauses, not statements
						if x.Init != nil {
							walk(x.Init, fname, pure)
						}
						if x.Tag != nil {
							walk(x.Tag, fname, pure)
						}
						for _, c := range x.Body.List {
							walk(c, fname, pure)
						}
						return false
					case *ast.TypeSwitchStmt:
						if x.Init != nil {
							walk(x.Init, fname, pure)
						}
						walk(x.Assign, fname, pure)
						for _, c := range x.Body.List {
							walk(c, fname, pure)
						}
						return false
					case *ast.SelectStmt:
						chanOps++
						for _, c := range x.Body.List {
							walk(c, fname, pure)
						}
						return false
					case *ast.SendStmt:
						chanOps++
					case *ast.UnaryExpr:
						if x.Op == token.ARROW {
							chanOps++
						}
					case *ast.GoStmt:
						goStmts++
						usesHook = true
						add(off(x.Go), 2, "simhook_.GoCall(")
						if len(x.Call.Args) > 0 {
							add(off(x.Call.Lparen), 1, ",")
						} else {
							add(off(x.Call.Lparen), 1, "")
						}
					case *ast.RangeStmt:
						tv, ok := info.Types[x.X]
						if !ok {
							break
						}
						mt, ok := tv.Type.Underlying().(*types.Map)
						if !ok {
							break
						}
						if x.Key == nil {
							break
						}
						kt, vt := types.TypeString(mt.Key(), qual), types.TypeString(mt.Elem(), qual)
						if strings.Contains(kt+vt, "\x00") {
							notes = append(notes, fmt.Sprintf("map range left alone at %s:%d", short, fset.Position(x.Pos()).Line))
							break
						}
						mapRanges++
						usesHook = true
						asg := x.Tok.String()
						xs, xe := off(x.X.Pos()), off(x.X.End())
						var pre string
						isBlank := func(e ast.Expr) bool {
							id, ok := e.(*ast.Ident)
							return ok && id.Name == "_"
						}
						pre = "if !simkv_.Live() { continue };"
						txt := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
						if !isBlank(x.Key) {
							pre += fmt.Sprintf("%s %s simkv_.Key().(%s);", txt(x.Key), asg, kt)
						}
						if x.Value != nil && !isBlank(x.Value) {
							if asg == ":=" {
								pre += fmt.Sprintf("%s, _ := simkv_.Val().(%s);", txt(x.Value), vt)
							} else {
								pre += fmt.Sprintf("%s, _ = simkv_.Val().(%s);", txt(x.Value), vt)
							}
						}
						// header: from key start to X start
						add(off(x.Key.Pos()), xs-off(x.Key.Pos()), "_, simkv_ := range simhook_.MapIter(")
						add(xe, 0, ")")
						add(off(x.Body.Lbrace)+1, 0, pre)
					case *ast.CallExpr:
						if sel, ok := x.Fun.(*ast.SelectorExpr); ok && timeName != "" {
							if id, ok := sel.X.(*ast.Ident); ok && id.Name == timeName {
								if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "time" {
									switch sel.Sel.Name {
									case "Now", "Since", "Sleep":
										usesHook = true
										add(off(sel.X.Pos()), len(timeName), "simhook_")
									}
								}
							}
						}
					case *ast.FuncLit:
						walk(x.Body, fname, false)
						// the literal's type needs no edits
						return false
					}
					return true
				})
			}
			_ = fstack

			var globals []string
			for _, d := range af.Decls {
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Body == nil {
						continue
					}
					fname := x.Name.Name
					if x.Recv != nil && len(x.Recv.List) == 1 {
						fname = strings.TrimPrefix(types.ExprString(x.Recv.List[0].Type), "*") + "." + fname
					}
					walk(x.Body, fname, pureScalar(x, info))
				case *ast.GenDecl:
					walk(x, "init", false)
					for _, sp := range x.Specs {
						if vs, ok := sp.(*ast.ValueSpec); ok && x.Tok == token.VAR {
							for _, n := range vs.Names {
								if n.Name != "_" {
									globals = append(globals, n.Name)
									usesHook = true
								}
							}
						}
					}
				}
			}
			for _, im := range af.Imports {
				atomics = atomics || im.Path.Value == `"sync/atomic"`
			}
			for _, n := range globals {
				add(len(src), 0, fmt.Sprintf("\nvar _ = simhook_.Global(%q, &%s)\n", p.ImportPath+"."+n, n))
			}
			if usesHook {
				add(off(af.Name.End()), 0, `; import simhook_ "vsim/hook"`)
			}
			if timeName != "" {
				add(len(src), 0, "\nvar _ "+timeName+".Duration\n")
			}
			sort.SliceStable(edits, func(i, j int) bool {
				if edits[i].off != edits[j].off {
					return edits[i].off < edits[j].off
				}
				return edits[i].ord < edits[j].ord
			})
			var b strings.Builder
			pos := 0
			for _, e := range edits {
				if e.off < pos {
					fatal("overlapping edits in", fn, "at", fset.Position(tf.Pos(e.off)))
				}
				b.Write(src[pos:e.off])
				b.WriteString(e.text)
				pos = e.off + e.del
			}
			b.Write(src[pos:])
			dst := filepath.Join(*out, strings.ReplaceAll(p.ImportPath, "/", "__")+"__"+filepath.Base(fn))
			if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
				fatal(err)
			}
			overlay[fn] = dst
		}
	}
	// the sites around kept state, for the scheduler
	var hb strings.Builder
	hb.WriteString("package hook\n\n// Hot lists, per kept state, the sites next to its uses.\nvar Hot = [][]int32{\n")
	var keys, hs []string
	for k := range hot {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if len(hot[k]) > 80 {
			continue // data rather than state
		}
		hb.WriteString("\t{")
		hs = append(hs, fmt.Sprintf("%s %d", k, len(hot[k])))
		for _, h := range hot[k] {
			fmt.Fprintf(&hb, "%d, ", h)
		}
		hb.WriteString("},\n")
	}
	fmt.Fprintf(&hb, "}\n\n// Atomics tells whether the library uses sync/atomic.\nvar Atomics = %v\n", atomics)
	hf := filepath.Join(*out, "hot.go")
	if err := os.WriteFile(hf, []byte(hb.String()), 0o644); err != nil {
		fatal(err)
	}
	abs, err := filepath.Abs(filepath.Join(*simdir, "hook", "hot.go"))
	if err != nil {
		fatal(err)
	}
	overlay[abs] = hf
	os.WriteFile(filepath.Join(*out, "hot.txt"), []byte(strings.Join(hs, "\n")+"\n"), 0o644)
	ov, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	os.WriteFile(filepath.Join(*out, "overlay.json"), ov, 0o644)
	os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644)
	sum := fmt.Sprintf("packages=%d files=%d sites=%d hot=%d map_ranges=%d go_stmts=%d chan_ops=%d notes=%d\n%s\n", len(pkgs), len(overlay), len(sites), len(hs), mapRanges, goStmts, chanOps, len(notes), strings.Join(notes, "\n"))
	os.WriteFile(filepath.Join(*out, "summary.txt"), []byte(sum), 0o644)
	fmt.Print(sum)
}

// pureScalar reports whether a function is loop-free scalar arithmetic: no receiver, and only numeric (or []uint64)
// parameters, numeric results, no loops, no assignments through an index, a pointer or a package variable. Such
// functions get no yield points: no other task can observe or influence their middle.
func pureScalar(f *ast.FuncDecl, info *types.Info) bool {
	if f.Recv != nil {
		return false
	}
	ok := true
	chk := func(fl *ast.FieldList, slices bool) {
		if fl == nil {
			return
		}
		for _, fd := range fl.List {
			tv, has := info.Types[fd.Type]
			if !has {
				ok = false
				return
			}
			switch t := tv.Type.Underlying().(type) {
			case *types.Basic:
				if t.Info()&(types.IsNumeric|types.IsBoolean) == 0 {
					ok = false
				}
			case *types.Slice:
				if e, isb := t.Elem().Underlying().(*types.Basic); !slices || !isb || e.Info()&types.IsNumeric == 0 {
					ok = false
				}
			default:
				ok = false
			}
		}
	}
	chk(f.Type.Params, true)
	chk(f.Type.Results, false)
	if !ok {
		return false
	}
	ast.Inspect(f.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.GoStmt, *ast.FuncLit, *ast.DeferStmt, *ast.BranchStmt:
			ok = false
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				id, isid := l.(*ast.Ident)
				if !isid {
					ok = false
					continue
				}
				obj := info.Uses[id]
				if obj == nil {
					obj = info.Defs[id]
				}
				if v, isv := obj.(*types.Var); isv && v.Parent() == v.Pkg().Scope() {
					ok = false
				}
			}
		case *ast.IncDecStmt:
			if _, isid := x.X.(*ast.Ident); !isid {
				ok = false
			}
		case *ast.Ident:
			if v, isv := info.Uses[x].(*types.Var); isv && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
				ok = false // reads a package variable
			}
		case *ast.CallExpr:
			switch fn := x.Fun.(type) {
			case *ast.Ident:
				if _, isb := info.Uses[fn].(*types.Builtin); isb {
					break
				}
				if tv, has := info.Types[fn]; has && tv.IsType() {
					break
				}
				ok = false
			case *ast.SelectorExpr:
				id, isid := fn.X.(*ast.Ident)
				if !isid {
					ok = false
					break
				}
				if pn, isp := info.Uses[id].(*types.PkgName); !isp || (pn.Imported().Path() != "math/bits" && pn.Imported().Path() != "math") {
					ok = false
				}
			default:
				ok = false
			}
		}
		return ok
	})
	return ok
}

// stateKey names a struct field or package variable, "" for anything else.
func stateKey(e ast.Expr, info *types.Info) string {
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if sel := info.Selections[x]; sel != nil && sel.Kind() == types.FieldVal {
			v := sel.Obj()
			if v.Pkg() == nil {
				return ""
			}
			t := sel.Recv()
			// the struct that declares the field
			for _, i := range sel.Index()[:len(sel.Index())-1] {
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				st, ok := t.Underlying().(*types.Struct)
				if !ok {
					return ""
				}
				t = st.Field(i).Type()
			}
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			return v.Pkg().Path() + "." + types.TypeString(t, nil) + "." + v.Name()
		}
		if v, ok := info.Uses[x.Sel].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return v.Pkg().Path() + "." + v.Name()
		}
	case *ast.Ident:
		if v, ok := info.Uses[x].(*types.Var); ok && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			return v.Pkg().Path() + "." + v.Name()
		}
	}
	return ""
}

// kept collects state that calls keep: fields written through a receiver, a parameter or a package variable outside of
// constructors (directly, or as a map), fields of a receiver written by index, and package variables. It only guides
// where the scheduler switches more often.
func kept(af *ast.File, info *types.Info, state map[string]bool) {
	for _, d := range af.Decls {
		f, ok := d.(*ast.FuncDecl)
		if !ok || f.Body == nil || f.Name.Name == "init" {
			continue
		}
		params := map[types.Object]bool{}
		recv := map[types.Object]bool{}
		for i, fl := range []*ast.FieldList{f.Recv, f.Type.Params} {
			if fl == nil {
				continue
			}
			for _, fd := range fl.List {
				for _, n := range fd.Names {
					if o := info.Defs[n]; o != nil {
						params[o] = true
						if i == 0 {
							recv[o] = true
						}
					}
				}
			}
		}
		mark := func(l ast.Expr) {
			index, first := false, ""
			for {
				switch x := l.(type) {
				case *ast.ParenExpr:
					l = x.X
					continue
				case *ast.StarExpr:
					l = x.X
					continue
				case *ast.SliceExpr:
					l, index = x.X, true
					continue
				case *ast.IndexExpr:
					if tv, ok := info.Types[x.X]; ok {
						if _, ok := tv.Type.Underlying().(*types.Map); !ok {
							index = true
						}
					}
					l = x.X
					continue
				case *ast.SelectorExpr:
					k := stateKey(x, info)
					if first == "" {
						first = k
					}
					if info.Selections[x] == nil { // pkg.Var
						if k != "" {
							state[k] = true
						}
						return
					}
					l = x.X
					continue
				case *ast.Ident:
					o := info.Uses[x]
					if k := stateKey(x, info); k != "" {
						state[k] = true
					}
					if o == nil || first == "" || !params[o] {
						return
					}
					if !index || recv[o] {
						state[first] = true
					}
				}
				return
			}
		}
		ast.Inspect(f.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					for _, l := range x.Lhs {
						mark(l)
					}
				}
			case *ast.IncDecStmt:
				mark(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if _, ok := x.X.(*ast.CompositeLit); !ok {
						mark(x.X)
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "copy") && len(x.Args) > 0 {
					mark(x.Args[0])
				}
			}
			return true
		})
	}
}

// mentions reports whether a statement, apart from the blocks it holds, uses kept state; those blocks are then noted.
func mentions(s ast.Stmt, info *types.Info, state map[string]bool, after map[*ast.BlockStmt][]string) (res []string) {
	var blocks []*ast.BlockStmt
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			blocks = append(blocks, x)
			return false
		case *ast.SelectorExpr:
			if k := stateKey(x, info); state[k] {
				res = append(res, k)
			}
		case *ast.Ident:
			if k := stateKey(x, info); state[k] {
				res = append(res, k)
			}
		}
		return true
	})
	if b, ok := s.(*ast.BlockStmt); ok && len(blocks) == 1 && blocks[0] == b {
		return nil
	}
	for _, b := range blocks {
		after[b] = res
	}
	return
}
