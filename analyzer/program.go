package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the library together with the reference definitions.
type Program struct {
	methNamed   map[string]map[*ssa.Function]bool
	alts        map[*types.Named][]types.Type
	variant     string
	pkg         *packages.Package
	prog        *ssa.Program
	spkg        *ssa.Package
	byName      map[string]*ssa.Function
	roles       map[string]*ssa.Function
	roleOf      map[*ssa.Function]string
	aliases     []alias
	renCores    map[*ssa.Function]bool
	globals     *State
	initEv      *Eval
	stored      map[*ssa.Global]bool // stored to outside of the initialisation
	fset        *token.FileSet
	obs         []*Obligation
	broken      map[string]string // spec file -> why it does not type-check
	allocT      map[*Term]types.Type
	closures    map[*Term]closureInfo
	all         map[*ssa.Function]bool
	initErr     string
	materialise map[*ssa.CallCommon]bool
	retTypes    map[*ssa.Function][]string
}

// closedWorld for terms
func (p *Program) alternativeKeys(t types.Type) (out []string) {
	for _, a := range p.alternatives(t) {
		out = append(out, typeKey(a))
	}
	return out
}

type alias struct {
	fn   *ssa.Function
	pat  []*Term // the arguments, in terms of the parameters of the role
	n    int
	role string
}

// Obligation: an operation of the library and what it must be equal to.
type Obligation struct {
	name  string
	props []string
	impl  string
	spec  string
	file  string
	pos   token.Pos
	opts  map[string]string
}

// operations of the exported interface that stay uninterpreted when they are
// used by others; each has obligations of its own.
var roleNames = []string{
	"(*Imports).EnsureImported", "(*Imports).Qualify", "(*Imports).EnsureTypeImported", "(*Imports).QualifyType",
	"(*Imports).EnsureAllTypesImported", "(*Imports).QualifySignature", "(*Imports).RegisterImport",
	"(*Imports).QualifyTemplateData", "(*Imports).ImportSpecs",
	"TypeNameForGoType", "TypeNameForReflectType", "SymbolForGoObject", "PackageForGoType",
	"NamedType", "PointerType", "SliceType", "ArrayType", "MapType", "ChannelType", "FuncTypeFromSig",
	"StructType", "InterfaceType", "BasicType", "WriteGoFile", "WriteGoFiles", "WriteGoFilesToFileSystem",
	"NewTypeSpec", "(*TypeSpec).qualify", "(*CodeBlock).qualify",
	"(*ConstDecl).qualify", "(*VarDecl).qualify", "(*TypeDecl).qualify", "(*FuncSpec).qualify",
	"(*TypeSpec).writeUnderlying", "(*CodeBlock).writeTo",
	"(*ConstDecl).writeTo", "(*VarDecl).writeTo", "(*TypeDecl).writeTo", "(*FuncSpec).writeTo",
}

var effectRoles = map[string]bool{
	"(*Imports).EnsureImported": true, "(*Imports).EnsureTypeImported": true, "(*Imports).EnsureAllTypesImported": true,
	"(*Imports).RegisterImport": true, "(*Imports).QualifyTemplateData": true, "(*Imports).ImportSpecs": true,
	"(*TypeSpec).qualify": true, "(*CodeBlock).qualify": true,
	"(*ConstDecl).qualify": true, "(*VarDecl).qualify": true, "(*TypeDecl).qualify": true, "(*FuncSpec).qualify": true,
	"WriteGoFile": true, "WriteGoFiles": true, "WriteGoFilesToFileSystem": true,
}

// operations that return a type: by their own obligations it is never nil
var nonNilRoles = map[string]bool{
	"(*Imports).EnsureTypeImported": true, "(*Imports).EnsureAllTypesImported": true, "TypeNameForGoType": true, "TypeNameForReflectType": true,
	"NamedType": true, "PointerType": true, "SliceType": true, "ArrayType": true, "MapType": true,
	"ChannelType": true, "FuncTypeFromSig": true, "StructType": true, "InterfaceType": true, "BasicType": true,
}

// operations that write to a buffer
var renderRoles = map[string]bool{
	"(*TypeSpec).writeUnderlying": true, "(*CodeBlock).writeTo": true,
	"(*ConstDecl).writeTo": true, "(*VarDecl).writeTo": true, "(*TypeDecl).writeTo": true, "(*FuncSpec).writeTo": true,
}

func loadProgram(repo, specDir string, tags []string) (*Program, error) {
	files, _ := filepath.Glob(filepath.Join(specDir, "*.go"))
	sort.Strings(files)
	p := &Program{broken: map[string]string{}}
	typeReg = map[string]types.Type{}
	p.variant = "default"
	if len(tags) > 0 {
		p.variant = strings.Join(tags, ",")
	}
	overlay := map[string][]byte{}
	specOf := map[string]string{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		name := filepath.Join(repo, "zz_verif_"+filepath.Base(f))
		overlay[name] = b
		specOf[name] = f
	}
	for {
		cfg := &packages.Config{
			Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
			Dir:     repo,
			Overlay: overlay,
			Env:     append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GO111MODULE=on"),
		}
		if len(tags) > 0 {
			cfg.BuildFlags = []string{"-tags=" + strings.Join(tags, ",")}
		}
		pkgs, err := packages.Load(cfg, ".")
		if err != nil {
			return nil, err
		}
		if len(pkgs) != 1 {
			return nil, fmt.Errorf("%d packages in %s", len(pkgs), repo)
		}
		pkg := pkgs[0]
		if pkg.PkgPath != modPath {
			return nil, fmt.Errorf("unexpected package %s", pkg.PkgPath)
		}
		bad := false
		for _, e := range pkg.Errors {
			file := e.Pos
			if i := strings.Index(file, ".go:"); i >= 0 {
				file = file[:i+3]
			}
			if i := strings.Index(e.Error(), "zz_verif_"); i >= 0 {
				// also errors of the compiler, which sees a copy
				if j := strings.Index(e.Error()[i:], ".go"); j >= 0 {
					file = filepath.Join(repo, e.Error()[i:i+j+3])
				}
			}
			if _, ok := overlay[file]; ok {
				if p.broken[specOf[file]] == "" {
					p.broken[specOf[file]] = e.Error()
				}
				delete(overlay, file)
				bad = true
			} else if _, isSpec := specOf[file]; !isSpec {
				if len(overlay) > 0 && strings.Contains(e.Msg, "redeclared") {
					continue
				}
				return nil, fmt.Errorf("the library does not type-check: %s", e)
			}
		}
		if bad {
			continue
		}
		p.pkg = pkg
		libPkg = pkg.Types
		break
	}
	p.fset = p.pkg.Fset
	prog, spkgs := ssautil.Packages([]*packages.Package{p.pkg}, ssa.InstantiateGenerics)
	p.prog = prog
	p.spkg = spkgs[0]
	if p.spkg == nil {
		return nil, fmt.Errorf("no SSA form")
	}
	prog.Build()
	p.index()
	for name := range overlay {
		p.readObligations(name, specOf[name], overlay[name])
	}
	// obligations of files that could not be used are still due
	for f := range p.broken {
		b, _ := os.ReadFile(f)
		p.readObligations(f, f, b)
	}
	sort.Slice(p.obs, func(i, j int) bool { return p.obs[i].name < p.obs[j].name })
	return p, nil
}

func (p *Program) index() {
	p.byName = map[string]*ssa.Function{}
	p.roles = map[string]*ssa.Function{}
	p.roleOf = map[*ssa.Function]string{}
	p.renCores = map[*ssa.Function]bool{}
	p.stored = map[*ssa.Global]bool{}
	p.allocT = map[*Term]types.Type{}
	p.closures = map[*Term]closureInfo{}
	p.all = ssautil.AllFunctions(p.prog)
	for f := range p.all {
		p.byName[f.String()] = f
		if !isOurs(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := globalRoot(st.Addr); g != nil && !isInit(f) {
						p.stored[g] = true
					}
				}
			}
		}
	}
	// all named types, so that type tests can be compared
	for _, n := range p.pkg.Types.Scope().Names() {
		if tn, ok := p.pkg.Types.Scope().Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			typeKey(tn.Type())
			typeKey(types.NewPointer(tn.Type()))
		}
	}
	for _, r := range roleNames {
		if f := p.lookup(r); f != nil {
			p.roles[r] = f
			p.roleOf[f] = r
		}
	}
	p.indexAliases()
	closedWorld = p.alternativeKeys
}

// reset forgets everything that depends on the terms.
func (p *Program) reset() {
	resetTerms()
	p.globals = nil
	p.allocT = map[*Term]types.Type{}
	p.closures = map[*Term]closureInfo{}
	p.aliases = nil
	p.indexAliases()
}

func (p *Program) indexAliases() {
	for _, r := range roleNames {
		if f := p.roles[r]; f != nil {
			pat := make([]*Term, len(f.Params))
			for i := range pat {
				pat[i] = intern("patvar", strconv.Itoa(i))
			}
			p.findAliases(r, f, f, pat, 0)
		}
	}
}

func isInit(f *ssa.Function) bool {
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			return nil
		default:
			return nil
		}
	}
}

// lookup finds a function or method: "F", "T.M", "(*T).M".
func (p *Program) lookup(name string) *ssa.Function {
	scope := p.pkg.Types.Scope()
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		tn, m := name[:i], name[i+1:]
		ptr := false
		if strings.HasPrefix(tn, "(*") {
			tn = tn[2 : len(tn)-1]
			ptr = true
		}
		o, ok := scope.Lookup(tn).(*types.TypeName)
		if !ok {
			return nil
		}
		var t types.Type = o.Type()
		if ptr {
			t = types.NewPointer(t)
		}
		sel := types.NewMethodSet(t).Lookup(p.pkg.Types, m)
		if sel == nil {
			return nil
		}
		if f, ok := sel.Obj().(*types.Func); ok && len(sel.Index()) == 1 {
			if sf := p.prog.FuncValue(f); sf != nil {
				// declared on T itself or on *T
				return sf
			}
		}
		return p.prog.MethodValue(sel)
	}
	return p.spkg.Func(name)
}

// findAliases: a role that does nothing but call another function makes that
// function, with such arguments, another way to express the role. pat are the
// parameters of f in terms of those of the role (patvar).
func (p *Program) findAliases(role string, rf, f *ssa.Function, pat []*Term, depth int) {
	if depth > 3 || len(f.Blocks) != 1 {
		return
	}
	type cell struct{ fields []*Term }
	vals := map[ssa.Value]*Term{}
	cells := map[ssa.Value]*cell{}
	for i, q := range f.Params {
		vals[q] = pat[i]
	}
	value := func(v ssa.Value) *Term {
		if c, ok := v.(*ssa.Const); ok {
			switch {
			case c.Value != nil:
				return constTerm(c.Value)
			case isPointerLike(c.Type()):
				return Nil
			}
			return nil
		}
		return vals[v]
	}
	var call *ssa.Call
	var args []*Term
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef, *ssa.Extract:
		case *ssa.Alloc:
			// a struct put together field by field
			st, ok := in.Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok || in.Heap {
				return
			}
			c := &cell{make([]*Term, st.NumFields())}
			for i := range c.fields {
				c.fields[i] = (*Eval)(nil).zero(st.Field(i).Type())
			}
			cells[in] = c
		case *ssa.FieldAddr:
			if cells[in.X] == nil {
				return
			}
		case *ssa.Store:
			v := value(in.Val)
			if v == nil {
				return
			}
			if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
				cells[fa.X].fields[fa.Field] = v
				continue
			}
			c := cells[in.Addr]
			if c == nil {
				return
			}
			for i := range c.fields {
				c.fields[i] = patField(v, in.Val.Type(), i)
			}
		case *ssa.Field:
			v := value(in.X)
			if v == nil {
				return
			}
			vals[in] = patField(v, in.X.Type(), in.Field)
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return
			}
			if fa, ok := in.X.(*ssa.FieldAddr); ok {
				vals[in] = cells[fa.X].fields[fa.Field]
				continue
			}
			c := cells[in.X]
			if c == nil {
				return
			}
			for _, x := range c.fields {
				if x == nil {
					return
				}
			}
			vals[in] = mkStruct(structKey(in.Type()), append([]*Term{}, c.fields...))
		case *ssa.Call:
			if call != nil {
				return
			}
			call = in
			for _, a := range in.Call.Args {
				v := value(a)
				if v == nil {
					return
				}
				args = append(args, v)
			}
		case *ssa.Return:
			for _, r := range in.Results {
				if e, ok := r.(*ssa.Extract); ok {
					r = e.Tuple
				}
				if call == nil || r != ssa.Value(call) {
					return
				}
			}
		default:
			return
		}
	}
	if call == nil {
		return
	}
	g := call.Call.StaticCallee()
	if g == nil || !isOurs(g) || g.Blocks == nil {
		return
	}
	p.aliases = append(p.aliases, alias{g, args, len(rf.Params), role})
	p.findAliases(role, rf, g, args, depth+1)
}

func isPointerLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Chan, *types.Signature:
		return true
	}
	return false
}

// patField is a field of a struct in a pattern.
func patField(v *Term, t types.Type, i int) *Term {
	if v.op == "struct" {
		return v.args[i]
	}
	return mk("field", t.Underlying().(*types.Struct).Field(i).Name(), v)
}

// matchPat finds the parameters for which the pattern is t.
func matchPat(pat, t *Term, out []*Term) bool {
	if pat.op == "patvar" {
		i, _ := strconv.Atoi(pat.aux)
		if out[i] == nil {
			out[i] = t
		}
		return out[i] == t
	}
	if pat == t {
		return true
	}
	if pat.op != t.op || pat.aux != t.aux || len(pat.args) != len(t.args) {
		return false
	}
	for i, a := range pat.args {
		if !matchPat(a, t.args[i], out) {
			return false
		}
	}
	return true
}

func (p *Program) roleCall(ev *Eval, f *ssa.Function, args []*Term) (string, []*Term) {
	if ev.inInit || ev.openAll {
		return "", nil
	}
	if r, ok := p.roleOf[f]; ok && !ev.open[r] {
		return r, args
	}
	for _, a := range p.aliases {
		if a.fn != f || ev.open[a.role] {
			continue
		}
		out := make([]*Term, a.n)
		ok := true
		for i, t := range args {
			if !matchPat(a.pat[i], t, out) {
				ok = false
				break
			}
		}
		for _, o := range out {
			if o == nil {
				ok = false
			}
		}
		if ok {
			return a.role, out
		}
	}
	return "", nil
}

// method finds the implementation of a method of a type of the library.
func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	if o := sel.Obj(); o.Pkg() == nil || o.Pkg().Path() != modPath {
		return nil
	}
	f := p.prog.MethodValue(sel)
	if f == nil || f.Blocks == nil {
		return nil
	}
	p.byName[f.String()] = f
	return f
}

// ---------- obligations ----------

const directive = "//verif:"

func (p *Program) readObligations(name, file string, src []byte) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		p.broken[file] = err.Error()
		return
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if !strings.HasPrefix(c.Text, directive) {
				continue
			}
			// //verif:P01,P02 impl [note]
			parts := strings.SplitN(strings.TrimPrefix(c.Text, directive), " ", 3)
			if len(parts) < 2 {
				p.broken[file] = "bad directive " + c.Text
				continue
			}
			o := &Obligation{props: strings.Split(parts[0], ","), impl: parts[1], spec: fd.Name.Name, file: file, opts: map[string]string{}}
			if len(parts) == 3 {
				for _, w := range strings.Fields(parts[2]) {
					if i := strings.IndexByte(w, ':'); i >= 0 {
						o.opts[w[:i]] = w[i+1:]
					} else {
						o.opts[w] = "yes"
					}
				}
			}
			o.name = o.impl + "~" + o.spec
			p.obs = append(p.obs, o)
		}
	}
}

// ---------- evaluation of roots ----------

func (p *Program) newEval() *Eval {
	return &Eval{prog: p, allocT: p.allocT, closures: p.closures, inlined: map[*ssa.Function]bool{}, seqSite: map[*Term]*ssa.CallCommon{}, seqTwice: map[*Term]bool{}}
}

func (p *Program) initGlobals() {
	if p.globals != nil {
		return
	}
	p.globals = newState()
	f := p.spkg.Func("init")
	if f == nil {
		return
	}
	ev := p.newEval()
	ev.inInit = true
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			p.initErr = u.why
			p.globals = newState()
		}
	}()
	st := newState()
	if g := p.spkg.Var("init$guard"); g != nil {
		st.m[intern("global", g.String())] = False
	}
	r := ev.call(f, nil, nil, st)
	p.globals = r.st
}

// globalLoad is the value of a package variable that is only set during
// initialisation.
func (ev *Eval) globalLoad(a *Term, t types.Type) *Term {
	p := ev.prog
	g := p.globalOf(rootOf(a))
	if g == nil || p.stored[g] {
		return nil
	}
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Array, *types.Basic, *types.Signature, *types.Interface:
		if v, ok := p.globals.m[a]; ok {
			return v
		}
		if a == rootOf(a) {
			return ev.zero(t)
		}
	}
	return nil
}

func (p *Program) globalOf(t *Term) *ssa.Global {
	if t.op != "global" {
		return nil
	}
	i := strings.LastIndexByte(t.aux, '.')
	if i < 0 || t.aux[:i] != modPath {
		return nil
	}
	return p.spkg.Var(t.aux[i+1:])
}

type outcome struct {
	panicC *Term
	crashC *Term // of an index out of range or the use of nil
	vals   []*Term
	cells  map[*Term]*Term
	ev     *Eval
	never  bool
}

type evalErr struct {
	why string
	pos token.Pos
}

// run evaluates a root function on symbolic arguments.
func (p *Program) run(fn *ssa.Function, args []*Term, role string, coreRec string, opts map[string]string) (o *outcome, err *evalErr) {
	defer func() {
		if r := recover(); r != nil {
			if n, ok := r.(needList); ok {
				if p.materialise == nil {
					p.materialise = map[*ssa.CallCommon]bool{}
				}
				p.materialise[n.site] = true
				err = &evalErr{retry, curPos}
				return
			}
			u, ok := r.(undecided)
			if !ok {
				if os.Getenv("VA_PANIC") != "" {
					panic(r)
				}
				u.why = fmt.Sprintf("the analysis failed: %v", r)
			}
			err = &evalErr{u.why, curPos}
		}
	}()
	p.initGlobals()
	ev := p.newEval()
	ev.rootRole, ev.rootFn, ev.rootArgs = role, fn, args
	ev.coreRec = coreRec
	_, _, ren := renArgs(fn, args)
	ev.inCore = ren || opts["core"] != ""
	ev.absReflect = opts["reflect"] != ""
	if o := opts["order"]; o == "other" || o == "next" {
		ev.otherOrder = o
	}
	switch v := opts["open"]; v {
	case "":
	case "yes":
		ev.openAll = true
		ev.inCore = true
	default:
		ev.open = map[string]bool{}
		for _, r := range strings.Split(v, ",") {
			ev.open[r] = true
		}
	}
	st := newState()
	for k, v := range p.globals.m {
		if rootOfKey(k).op == "alloc" {
			st.m[k] = v
		}
	}
	start := st.clone()
	r := ev.call(fn, args, nil, st)
	o = &outcome{panicC: r.panicC, crashC: False, ev: ev, cells: map[*Term]*Term{}}
	if r.panicC == True || r.st == nil {
		o.never = true
		return o, nil
	}
	okc := not(r.panicC)
	for _, v := range r.vals {
		o.vals = append(o.vals, constrain(ev.reify(v, r.st), okc))
	}
	for _, k := range sortedKeys(r.st.m) {
		v := r.st.m[k]
		if old, ok := start.m[k]; ok {
			if old == v {
				continue
			}
		} else if rootOfKey(k).op == "alloc" {
			continue
		}
		v = constrain(v, okc)
		if k.op != "all" && v == ev.initial(k, start) {
			continue
		}
		kk := ev.reify(k, r.st)
		if fresh(kk) {
			giveUp("a modification of what is in a list that was made here")
		}
		vv := constrain(ev.reify(v, r.st), okc)
		if rootOfKey(k).op == "seq" {
			continue // a fresh sequence; its uses are reified
		}
		if vv == ev.initial(kk, start) && k.op != "all" {
			continue
		}
		o.cells[kk] = vv
	}
	o.panicC = ev.reify(r.panicC, r.st)
	if ev.crashC != nil {
		o.crashC = ev.reify(ev.crashC, r.st)
	}
	return o, nil
}

func isStringer(f *ssa.Function) bool {
	return f.Name() == "String" && f.Signature.Recv() != nil && f.Signature.Results().Len() == 1
}

func paramTerms(fn *ssa.Function) []*Term {
	var out []*Term
	for i, q := range fn.Params {
		n := q.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		t := intern("param", n)
		if types.IsInterface(q.Type()) {
			resultType[t] = q.Type()
		}
		if isBool(q.Type()) {
			t = mk("b", "", t)
		}
		out = append(out, t)
	}
	return out
}

// fresh: a cell of an object that is an element of a list made here.
func fresh(k *Term) bool {
	for _, l := range leavesOf(k) {
		if l.op != "all" {
			continue
		}
		below := false
		for q := l.args[1]; len(q.args) > 0; q = q.args[0] {
			switch q.op {
			case "fa", "unwrap":
				continue
			case "load":
				below = true
				continue
			case "ia":
				if below && q.args[0].op == "seq" {
					return true
				}
			}
			break
		}
	}
	return false
}
