// mutate lists small changes to the sources of a package, as JSON lines
// {"file","from","to","new","what"}. Used to look for behaviour that no check
// decides; see mutants.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File string `json:"file"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	What string `json:"what"`
	Func string `json:"func"`
}

var (
	fset = token.NewFileSet()
	src  = map[string][]byte{}
	enc  = json.NewEncoder(os.Stdout)
	cur  string
	fn   string
)

func off(p token.Pos) int { return fset.Position(p).Offset }
func text(n ast.Node) string {
	return string(src[cur][off(n.Pos()):off(n.End())])
}
func emit(n ast.Node, repl, what string) {
	enc.Encode(mut{cur, off(n.Pos()), off(n.End()), repl, fmt.Sprintf("%d: %s", fset.Position(n.Pos()).Line, what), fn})
}
func emitPos(a, b token.Pos, repl, what string) {
	enc.Encode(mut{cur, off(a), off(b), repl, fmt.Sprintf("%d: %s", fset.Position(a).Line, what), fn})
}

func main() {
	dir := os.Args[1]
	var files []*ast.File
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var use []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") || strings.HasSuffix(n, "no_unsafe.go") || strings.HasSuffix(n, "doc.go") {
			continue
		}
		b, err := os.ReadFile(n)
		if err != nil {
			panic(err)
		}
		src[n] = b
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		use = append(use, n)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil)}
	pkg, err := conf.Check("github.com/jhump/gopoet", fset, files, info)
	if err != nil {
		panic(err)
	}
	for i, f := range files {
		cur = use[i]
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok && fd.Body != nil {
				fn = fd.Name.Name
				if fd.Recv != nil {
					fn = text(fd.Recv.List[0].Type) + "." + fn
				}
				walk(fd, info, pkg)
			} else if g, ok := d.(*ast.GenDecl); ok && (g.Tok == token.VAR || g.Tok == token.CONST) {
				fn = "decl"
				ast.Inspect(g, func(n ast.Node) bool { return node(n, info, pkg, nil) })
			}
		}
	}
}

func walk(fd *ast.FuncDecl, info *types.Info, pkg *types.Package) {
	// locals of the function by type
	var locals []types.Object
	ast.Inspect(fd, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o, ok := info.Defs[id].(*types.Var); ok && o != nil && id.Name != "_" {
				locals = append(locals, o)
			}
		}
		return true
	})
	ast.Inspect(fd.Body, func(n ast.Node) bool { return node(n, info, pkg, locals) })
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}, token.MUL: {"+"}, token.AND: {"|"}, token.OR: {"&"},
}

func node(n ast.Node, info *types.Info, pkg *types.Package, locals []types.Object) bool {
	switch n := n.(type) {
	case *ast.BinaryExpr:
		for _, s := range swaps[n.Op] {
			emitPos(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, text(n)+" with "+s)
		}
		if n.Op == token.LAND || n.Op == token.LOR || n.Op == token.ADD {
			emit(n, text(n.X), text(n)+" -> left")
			emit(n, text(n.Y), text(n)+" -> right")
		}
	case *ast.UnaryExpr:
		if n.Op == token.NOT {
			emit(n, text(n.X), "drop !")
		}
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			emit(n, "("+n.Value+"+1)", n.Value+" + 1")
			if n.Value != "0" {
				emit(n, "0", n.Value+" -> 0")
			}
		case token.STRING:
			if len(n.Value) > 2 {
				emit(n, `""`, n.Value+` -> ""`)
				emit(n, n.Value[:1]+"x"+n.Value[1:], n.Value+" with x in front")
			} else {
				emit(n, `"x"`, `"" -> "x"`)
			}
		case token.CHAR:
			emit(n, "'#'", n.Value+" -> #")
		}
	case *ast.IfStmt:
		emit(n.Cond, "false && ("+text(n.Cond)+")", "if "+text(n.Cond)+" never")
		emit(n.Cond, "true || ("+text(n.Cond)+")", "if "+text(n.Cond)+" always")
		emit(n.Cond, "!("+text(n.Cond)+")", "if not "+text(n.Cond))
		if n.Else != nil {
			emitPos(n.Body.End(), n.Else.End(), "", "drop else")
		}
	case *ast.ForStmt:
		if n.Cond != nil {
			emit(n.Cond, "false && ("+text(n.Cond)+")", "loop never")
		}
	case *ast.RangeStmt:
		emitPos(n.Body.Rbrace, n.Body.Rbrace, "\nbreak\n", "range only once")
		emitPos(n.Body.Lbrace+1, n.Body.Lbrace+1, "\nif true { continue }\n", "range body never")
	case *ast.BranchStmt:
		if n.Tok == token.CONTINUE && n.Label == nil {
			emit(n, "break", "continue -> break")
		}
		if n.Tok == token.BREAK && n.Label == nil {
			emit(n, "continue", "break -> continue")
		}
		emit(n, "", "drop "+text(n))
	case *ast.ExprStmt:
		emit(n, "", "drop "+text(n))
	case *ast.DeferStmt:
		emit(n, "", "drop "+text(n))
	case *ast.IncDecStmt:
		emit(n, "", "drop "+text(n))
	case *ast.AssignStmt:
		if n.Tok != token.DEFINE {
			emit(n, "", "drop "+text(n))
			var l, r []string
			for _, x := range n.Rhs {
				r = append(r, text(x))
				l = append(l, "_")
			}
			if len(n.Lhs) == len(n.Rhs) && n.Tok == token.ASSIGN {
				emit(n, strings.Join(l, ", ")+" = "+strings.Join(r, ", "), "ignore "+text(n))
			}
		}
	case *ast.ReturnStmt:
		for _, x := range n.Results {
			t := info.TypeOf(x)
			if t == nil {
				continue
			}
			if z := zero(t); z != "" && z != text(x) {
				emit(x, z, "return "+z+" for "+text(x))
			}
		}
	case *ast.CaseClause:
		if len(n.Body) > 0 {
			emitPos(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "", "empty case "+short(text(n)))
		}
		if len(n.List) > 1 {
			for i, x := range n.List {
				if i+1 < len(n.List) {
					emitPos(x.Pos(), n.List[i+1].Pos(), "", "drop case "+text(x))
				} else {
					emitPos(n.List[i-1].End(), x.End(), "", "drop case "+text(x))
				}
			}
		}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "append" && len(n.Args) > 1 {
			emit(n, text(n.Args[0]), text(n)+" -> first")
			if n.Ellipsis == token.NoPos && len(n.Args) == 2 {
				emit(n, "append(append("+text(n.Args[0])+", "+text(n.Args[1])+"), "+text(n.Args[1])+")", text(n)+" twice")
			}
			if n.Ellipsis != token.NoPos {
				emit(n, text(n.Args[1]), text(n)+" -> second")
			}
			return true
		}
		// exchange arguments of one type
		for i := 0; i+1 < len(n.Args); i++ {
			a, b := info.TypeOf(n.Args[i]), info.TypeOf(n.Args[i+1])
			if a != nil && b != nil && types.Identical(a, b) {
				emitPos(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "exchange args of "+short(text(n)))
			}
		}
		if t := info.TypeOf(n); t != nil && len(n.Args) >= 1 {
			if a := info.TypeOf(n.Args[0]); a != nil && types.Identical(a, t) {
				emit(n, text(n.Args[0]), short(text(n))+" -> argument")
			}
		}
		if s, ok := n.Fun.(*ast.SelectorExpr); ok {
			if sel := info.Selections[s]; sel != nil {
				if t := info.TypeOf(n); t != nil && types.Identical(t, sel.Recv()) {
					emit(n, text(s.X), short(text(n))+" -> receiver")
				}
				// another method with the same signature
				ms := types.NewMethodSet(sel.Recv())
				k := 0
				for i := 0; i < ms.Len() && k < 3; i++ {
					o := ms.At(i).Obj()
					if o != sel.Obj() && o.Pkg() == sel.Obj().Pkg() && (o.Pkg() == pkg || o.Exported()) && types.Identical(ms.At(i).Type(), sel.Type()) {
						emit(s.Sel, o.Name(), text(n.Fun)+" -> "+o.Name())
						k++
					}
				}
			} else if f, ok := info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg() != pkg {
				sc := f.Pkg().Scope()
				k := 0
				for _, nm := range sc.Names() {
					o := sc.Lookup(nm)
					if o != f && o.Exported() && k < 2 {
						if of, ok := o.(*types.Func); ok && types.Identical(of.Type(), f.Type()) {
							emit(s.Sel, o.Name(), text(n.Fun)+" -> "+o.Name())
							k++
						}
					}
				}
			}
		}
		if id, ok := n.Fun.(*ast.Ident); ok {
			if f, ok := info.Uses[id].(*types.Func); ok {
				k := 0
				for _, nm := range pkg.Scope().Names() {
					o, ok := pkg.Scope().Lookup(nm).(*types.Func)
					if ok && o != f && types.Identical(o.Type(), f.Type()) && k < 2 {
						emit(id, o.Name(), text(n.Fun)+" -> "+o.Name())
						k++
					}
				}
			}
		}
	case *ast.SelectorExpr:
		if sel := info.Selections[n]; sel != nil && sel.Kind() == types.FieldVal && len(sel.Index()) == 1 {
			rt := sel.Recv()
			if p, ok := rt.Underlying().(*types.Pointer); ok {
				rt = p.Elem()
			}
			if st, ok := rt.Underlying().(*types.Struct); ok {
				k := 0
				for i := 0; i < st.NumFields() && k < 2; i++ {
					f := st.Field(i)
					if f.Name() != n.Sel.Name && types.Identical(f.Type(), sel.Type()) && (f.Pkg() == pkg || f.Exported()) && f.Name() != "_" {
						emit(n.Sel, f.Name(), text(n)+" -> "+f.Name())
						k++
					}
				}
			}
		}
	case *ast.Ident:
		o, ok := info.Uses[n].(*types.Var)
		if ok && o.Pkg() == pkg && !o.IsField() && o.Parent() != pkg.Scope() {
			k := 0
			for _, l := range locals {
				if l != o && k < 2 && l.Name() != o.Name() && types.Identical(l.Type(), o.Type()) && l.Pos() < n.Pos() && l.Parent() != nil && l.Parent().Contains(n.Pos()) {
					emit(n, l.Name(), n.Name+" -> "+l.Name())
					k++
				}
			}
		}
		if c, ok := info.Uses[n].(*types.Const); ok && c.Pkg() == pkg {
			k := 0
			for _, nm := range pkg.Scope().Names() {
				d, ok := pkg.Scope().Lookup(nm).(*types.Const)
				if ok && d != c && types.Identical(d.Type(), c.Type()) && k < 2 {
					emit(n, nm, n.Name+" -> "+nm)
					k++
				}
			}
		}
	case *ast.CompositeLit:
		for _, e := range n.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				if t := info.TypeOf(kv.Value); t != nil {
					if z := zero(t); z != "" && z != text(kv.Value) {
						if _, isMap := info.TypeOf(n).Underlying().(*types.Map); !isMap {
							emit(kv.Value, z, "field "+short(text(kv))+" zero")
						}
					}
				}
				if _, isMap := info.TypeOf(n).Underlying().(*types.Map); isMap {
					emitPos(kv.Pos(), kv.End()+1, "", "drop "+short(text(kv)))
				}
			}
		}
	case *ast.SliceExpr:
		if n.Low != nil {
			emit(n.Low, "", "drop low of "+text(n))
		}
		if n.High != nil && !n.Slice3 {
			emit(n.High, "", "drop high of "+text(n))
		}
		if n.Slice3 {
			emitPos(n.Lbrack, n.End(), "[:]", "no capacity limit "+text(n))
		}
	}
	return true
}

func short(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

func zero(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return `""`
		case u.Info()&types.IsNumeric != 0:
			return "0"
		case u.Info()&types.IsBoolean != 0:
			return "false"
		}
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
		return "nil"
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/jhump/gopoet" {
			return n.Obj().Name() + "{}"
		}
	}
	return ""
}
