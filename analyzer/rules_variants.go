package main

import (
	"fmt"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// sourceFile is a file of the library with its build constraint.
type sourceFile struct {
	name   string
	expr   constraint.Expr
	unsafe bool
	pos    string
}

// sourceFiles lists the files of the library. Suffixes of file names that restrict
// a file to some systems are left to whatever system the analysis runs on.
func (p *Program) sourceFiles(dir string) ([]sourceFile, error) {
	names, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	var out []sourceFile
	for _, n := range names {
		base := filepath.Base(n)
		if strings.HasSuffix(base, "_test.go") || strings.HasPrefix(base, "zz_verif_") || base[0] == '_' || base[0] == '.' {
			continue
		}
		b, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, b, parser.ImportsOnly|parser.ParseComments)
		if err != nil {
			return nil, err
		}
		s := sourceFile{name: base, pos: n + ":1"}
		for _, i := range f.Imports {
			if i.Path.Value == `"unsafe"` {
				s.unsafe = true
				s.pos = fset.Position(i.Pos()).String()
			}
		}
		var plus constraint.Expr
		for _, g := range f.Comments {
			if g.Pos() >= f.Package {
				break
			}
			for _, c := range g.List {
				e, err := constraint.Parse(c.Text)
				if err != nil {
					continue
				}
				switch {
				case constraint.IsGoBuild(c.Text):
					s.expr = e
				case plus == nil:
					plus = e
				default:
					plus = &constraint.AndExpr{X: plus, Y: e}
				}
			}
		}
		if s.expr == nil {
			s.expr = plus
		}
		out = append(out, s)
	}
	return out, nil
}

// noUnsafe: the environments and the tag that rule out the use of unsafe.
var noUnsafe = []string{"appengine", "gopherjs", "purego"}

// ruleVariants: whatever of the tags that the sources distinguish are given, the
// library is one of those that are analysed, has the same interface, and does
// without package unsafe where it has to.
func ruleVariants(p *Program) []report {
	const what = "for every combination of the build tags in the sources: the library type-checks, has the same exported interface, and imports unsafe only where none of appengine, gopherjs and purego is given"
	dir := *flagRepo
	r := report{Name: "rule:variants", Op: "build variants", Rule: what, Verdict: "ok"}
	files, err := p.sourceFiles(dir)
	if err != nil {
		r.Verdict, r.Why = "undecided", []string{err.Error()}
		return []report{r}
	}
	isTag := map[string]bool{}
	for _, t := range noUnsafe {
		isTag[t] = true
	}
	for _, f := range files {
		if f.expr != nil {
			eachTag(f.expr, func(t string) { isTag[t] = true })
		}
	}
	var tags []string
	for t := range isTag {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	if len(tags) > 12 {
		r.Verdict, r.Why = "undecided", []string{fmt.Sprintf("%d build tags", len(tags))}
		return []report{r}
	}
	bad := func(pos, f string, args ...interface{}) {
		if r.Verdict != "violation" {
			r.Verdict, r.Why = "violation", nil
			r.Pos = pos
		}
		if len(r.Why) < 6 {
			r.Why = append(r.Why, fmt.Sprintf(f, args...))
		}
	}
	byFiles := map[string][]string{}
	var order []string
	for set := 0; set < 1<<len(tags); set++ {
		on := map[string]bool{}
		var list []string
		for i, t := range tags {
			if set&(1<<i) != 0 {
				on[t] = true
				list = append(list, t)
			}
		}
		without := ""
		for _, t := range noUnsafe {
			if on[t] && without == "" {
				without = t
			}
		}
		var sel []string
		for _, f := range files {
			if f.expr != nil && !f.expr.Eval(func(t string) bool { return on[t] || defaultTag(t) }) {
				continue
			}
			sel = append(sel, f.name)
			r.Sites++
			if f.unsafe && without != "" {
				bad(f.pos, "%s imports unsafe and is part of the build with tag %s", f.name, without)
			}
		}
		k := strings.Join(sel, " ")
		if _, ok := byFiles[k]; !ok {
			byFiles[k] = list
			order = append(order, k)
		}
	}
	base := ""
	for i, k := range order {
		api, err := apiOf(dir, byFiles[k])
		name := "tags " + strings.Join(byFiles[k], ",")
		if len(byFiles[k]) == 0 {
			name = "no tags"
		}
		if err != nil {
			bad(dir+"/"+strings.Fields(k + " ")[0]+":1", "with %s: %v", name, err)
			continue
		}
		r.Funcs = append(r.Funcs, name+": "+k)
		if i == 0 {
			base = api
			continue
		}
		if api != base {
			bad(dir+"/"+strings.Fields(k)[0]+":1", "with %s the interface is another one: %s", name, lineDiff(base, api))
		}
	}
	if r.Verdict == "ok" && len(order) > len(variants) {
		r.Verdict = "undecided"
		r.Why = []string{fmt.Sprintf("%d different sets of source files, of which %d are analysed", len(order), len(variants))}
	}
	return []report{r}
}

func defaultTag(t string) bool {
	return t == "linux" || t == "amd64" || t == "gc" || t == "unix" || strings.HasPrefix(t, "go1.")
}

func eachTag(e constraint.Expr, f func(string)) {
	switch e := e.(type) {
	case *constraint.TagExpr:
		if !defaultTag(e.Tag) && e.Tag != "cgo" && e.Tag != "race" && e.Tag != "ignore" {
			f(e.Tag)
		}
	case *constraint.NotExpr:
		eachTag(e.X, f)
	case *constraint.AndExpr:
		eachTag(e.X, f)
		eachTag(e.Y, f)
	case *constraint.OrExpr:
		eachTag(e.X, f)
		eachTag(e.Y, f)
	}
}

// apiOf describes the exported interface of the library.
func apiOf(dir string, tags []string) (string, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on"),
	}
	if len(tags) > 0 {
		cfg.BuildFlags = []string{"-tags=" + strings.Join(tags, ",")}
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return "", err
	}
	if len(pkgs) != 1 {
		return "", fmt.Errorf("%d packages", len(pkgs))
	}
	for _, e := range pkgs[0].Errors {
		return "", fmt.Errorf("the library does not type-check: %s", relPos(e.Error()))
	}
	pkg := pkgs[0].Types
	q := types.RelativeTo(pkg)
	var lines []string
	for _, n := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		tn, isT := o.(*types.TypeName)
		if !isT {
			s := types.ObjectString(o, q)
			if c, ok := o.(*types.Const); ok {
				s += " = " + c.Val().ExactString()
			}
			lines = append(lines, s)
			continue
		}
		lines = append(lines, "type "+n+" "+exportedShape(tn.Type().Underlying(), q))
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if m := ms.At(i).Obj(); m.Exported() {
					lines = append(lines, types.SelectionString(ms.At(i), q))
				}
			}
		}
	}
	return strings.Join(lines, "\n"), nil
}

// exportedShape is a type without its unexported fields.
func exportedShape(t types.Type, q types.Qualifier) string {
	s, ok := t.(*types.Struct)
	if !ok {
		return types.TypeString(t, q)
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Exported() {
			out = append(out, types.ObjectString(s.Field(i), q)+" "+s.Tag(i))
		}
	}
	return "struct{" + strings.Join(out, "; ") + "}"
}

// lineDiff is a line that one of the texts has and the other does not.
func lineDiff(a, b string) string {
	in := map[string]int{}
	for _, l := range strings.Split(a, "\n") {
		in[l] |= 1
	}
	for _, l := range strings.Split(b, "\n") {
		in[l] |= 2
	}
	var out []string
	for l, k := range in {
		if k != 3 {
			out = append(out, l)
		}
	}
	sort.Strings(out)
	if len(out) > 2 {
		out = out[:2]
	}
	return strings.Join(out, " / ")
}
