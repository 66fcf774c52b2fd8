package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ourFuncs lists the functions of the library, with the functions declared in
// them, in a fixed order.
func (p *Program) ourFuncs() (out []*ssa.Function) {
	for f := range p.all {
		if isOurs(f) && f.Blocks != nil && !p.isSpecFunc(f) && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}

func initOnly(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return isInit(f) || f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

// callees: the functions of the library that a call may enter.
func (p *Program) callees(c *ssa.CallCommon) (out []*ssa.Function) {
	if f := c.StaticCallee(); f != nil {
		if isOurs(f) && f.Blocks != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	if c.IsInvoke() {
		for f := range p.methodsNamed()[c.Method.Name()] {
			r := f.Signature.Recv()
			if r == nil {
				continue
			}
			if it, ok := c.Value.Type().Underlying().(*types.Interface); ok && types.Implements(r.Type(), it) {
				out = append(out, f)
			} else if ok && !isPtr(r.Type()) && types.Implements(types.NewPointer(r.Type()), it) {
				out = append(out, f)
			}
		}
		sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	}
	return out
}

func (p *Program) methodsNamed() map[string]map[*ssa.Function]bool {
	if p.methNamed == nil {
		p.methNamed = map[string]map[*ssa.Function]bool{}
		for f := range p.all {
			if isOurs(f) && f.Signature.Recv() != nil && f.Blocks != nil && !p.isSpecFunc(f) {
				m := p.methNamed[f.Name()]
				if m == nil {
					m = map[*ssa.Function]bool{}
					p.methNamed[f.Name()] = m
				}
				m[f] = true
			}
		}
	}
	return p.methNamed
}

func eachInstr(f *ssa.Function, g func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			g(in)
		}
	}
}

func callOf(in ssa.Instruction) *ssa.CallCommon {
	if c, ok := in.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}

// foreignName is "pkg.Func" or "(pkg.Type).Method" of a callee outside of the
// library; empty for others.
func foreignName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		m := c.Method
		if m.Pkg() == nil || m.Pkg().Path() == modPath {
			return ""
		}
		return "(" + m.Pkg().Path() + ".interface)." + m.Name()
	}
	f := c.StaticCallee()
	if f == nil {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return "builtin." + b.Name()
		}
		return ""
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if isOurs(f) {
		return ""
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + typePath(r.Type()) + ")." + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path() + "." + f.Name()
	}
	return f.String()
}

func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasRefs(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// globalReach finds the values that are addresses of, or references into,
// package-level variables; for each, the variable.
func (p *Program) globalReach() map[ssa.Value]*ssa.Global {
	t := map[ssa.Value]*ssa.Global{}
	results := map[*ssa.Function]*ssa.Global{}
	funcs := p.ourFuncs()
	mark := func(v ssa.Value, g *ssa.Global) bool {
		if g == nil || t[v] != nil {
			return false
		}
		t[v] = g
		return true
	}
	of := func(v ssa.Value) *ssa.Global {
		if g, ok := v.(*ssa.Global); ok {
			if g.Pkg != nil && g.Pkg.Pkg.Path() == modPath && !strings.HasPrefix(g.Name(), "init$") {
				return g
			}
			return nil
		}
		return t[v]
	}
	for changed := true; changed; {
		changed = false
		for _, f := range funcs {
			eachInstr(f, func(in ssa.Instruction) {
				var from ssa.Value
				switch in := in.(type) {
				case *ssa.FieldAddr:
					from = in.X
				case *ssa.IndexAddr:
					from = in.X
				case *ssa.Slice:
					from = in.X
				case *ssa.UnOp:
					if in.Op == token.MUL && hasRefs(in.Type()) {
						from = in.X
					}
				case *ssa.Field:
					if hasRefs(in.Type()) {
						from = in.X
					}
				case *ssa.Index:
					if hasRefs(in.Type()) {
						from = in.X
					}
				case *ssa.Lookup:
					if hasRefs(in.Type()) {
						from = in.X
					}
				case *ssa.Range:
					from = in.X
				case *ssa.Next:
					from = in.Iter
				case *ssa.Extract:
					if hasRefs(in.Type()) {
						from = in.Tuple
					}
				case *ssa.ChangeType:
					from = in.X
				case *ssa.ChangeInterface:
					from = in.X
				case *ssa.MakeInterface:
					if hasRefs(in.X.Type()) {
						from = in.X
					}
				case *ssa.TypeAssert:
					if hasRefs(in.Type()) {
						from = in.X
					}
				case *ssa.Phi:
					for _, e := range in.Edges {
						if mark(in, of(e)) {
							changed = true
						}
					}
				case *ssa.MakeClosure:
					fn := in.Fn.(*ssa.Function)
					for i, b := range in.Bindings {
						if mark(fn.FreeVars[i], of(b)) {
							changed = true
						}
					}
				case *ssa.Return:
					for _, r := range in.Results {
						if g := of(r); g != nil && results[f] == nil {
							results[f] = g
							changed = true
						}
					}
				}
				if v, ok := in.(ssa.Value); ok && from != nil {
					if mark(v, of(from)) {
						changed = true
					}
				}
				if c := callOf(in); c != nil {
					args := c.Args
					if c.IsInvoke() {
						args = append([]ssa.Value{c.Value}, args...)
					}
					for _, callee := range p.callees(c) {
						for i, a := range args {
							if i < len(callee.Params) && hasRefs(a.Type()) && mark(callee.Params[i], of(a)) {
								changed = true
							}
						}
						if v, ok := in.(ssa.Value); ok && results[callee] != nil && hasRefs(v.Type()) {
							if mark(v, results[callee]) {
								changed = true
							}
						}
					}
				}
			})
		}
	}
	// only the values of the library
	for _, f := range funcs {
		eachInstr(f, func(in ssa.Instruction) {
			for _, op := range in.Operands(nil) {
				if *op != nil {
					if g := of(*op); g != nil {
						t[*op] = g
					}
				}
			}
		})
	}
	return t
}

// mutators: foreign functions and methods that change what their first
// argument refers to.
func mutates(name string) bool {
	if strings.HasPrefix(name, "(sync.Once).") || strings.HasPrefix(name, "(sync.Pool).") {
		return false
	}
	for _, p := range []string{"(sync.", "sync/atomic.", "(sync/atomic.", "(container/", "sort.Sort", "sort.Stable", "sort.Slice", "sort.Strings", "sort.Ints", "slices.Sort", "slices.Reverse", "maps.Copy", "maps.DeleteFunc", "(math/rand", "(*math/rand"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	for _, t := range []string{"(bytes.Buffer).", "(strings.Builder).", "(bufio."} {
		if strings.HasPrefix(name, t) {
			m := name[strings.LastIndexByte(name, '.')+1:]
			return m != "String" && m != "Len" && m != "Bytes" && m != "Cap"
		}
	}
	if strings.HasPrefix(name, "(text/template.Template).") {
		switch name[strings.LastIndexByte(name, '.')+1:] {
		case "Parse", "Funcs", "Delims", "Option", "AddParseTree", "ParseFiles", "ParseGlob", "New":
			return true
		}
	}
	switch name {
	case "builtin.delete", "builtin.clear", "builtin.copy":
		return true
	}
	return false
}

// onceFuncs: the functions that only run through a sync.Once.
func (p *Program) onceFuncs() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.ourFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			if c := callOf(in); c != nil {
				n := foreignName(c)
				if n == "(sync.Once).Do" || strings.HasPrefix(n, "sync.OnceValue") || n == "sync.OnceFunc" {
					for _, a := range c.Args {
						switch a := a.(type) {
						case *ssa.Function:
							out[a] = true
						case *ssa.MakeClosure:
							out[a.Fn.(*ssa.Function)] = true
						}
					}
				}
			}
		})
	}
	return out
}

func (p *Program) posOf(in ssa.Instruction) string {
	pos := in.Pos()
	if !pos.IsValid() {
		pos = in.Parent().Pos()
	}
	return p.fset.Position(pos).String()
}

func rulePackageState(p *Program) []report {
	const rule = "no package-level variable, nor anything reached through one, is written to outside of initialisation"
	r := report{Name: "rule:package-state", Op: "package-level state", Rule: rule, Verdict: "ok"}
	reach := p.globalReach()
	bad := func(in ssa.Instruction, g *ssa.Global, what string) {
		r.Verdict = "violation"
		if r.Pos == "" {
			r.Pos = p.posOf(in)
		}
		r.Why = append(r.Why, fmt.Sprintf("%s: %s of package variable %s in %s", relPos(p.posOf(in)), what, g.Name(), trimPkg(in.Parent().String())))
	}
	once := p.onceFuncs()
	for _, f := range p.ourFuncs() {
		r.Funcs = append(r.Funcs, trimPkg(f.String()))
		if initOnly(f) || once[f] {
			continue
		}
		eachInstr(f, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				r.Sites++
				if g := reach[in.Addr]; g != nil {
					bad(in, g, "store to (a part of the value)")
				}
			case *ssa.MapUpdate:
				r.Sites++
				if g := reach[in.Map]; g != nil {
					bad(in, g, "change of a map")
				}
			default:
				if c := callOf(in); c != nil {
					r.Sites++
					n := foreignName(c)
					if n != "" && mutates(n) && len(c.Args) > 0 {
						if g := reach[c.Args[0]]; g != nil {
							bad(in, g, n+" on (a part of the value)")
						}
					}
				}
			}
		})
	}
	return []report{r}
}

// ioClass: "" for functions without effects outside of the program's memory,
// "deny" for effects that no operation of the library has, "write" for those
// that the write operations have.
func ioClass(name string, c *ssa.CallCommon) string {
	pkg := name
	if strings.HasPrefix(pkg, "(") {
		pkg = pkg[1:]
		if i := strings.IndexByte(pkg, ')'); i >= 0 {
			pkg = pkg[:i]
		}
	}
	if i := strings.LastIndexByte(pkg, '.'); i >= 0 {
		pkg = pkg[:i]
	}
	fn := name[strings.LastIndexByte(name, '.')+1:]
	switch pkg {
	case "os":
		if strings.HasPrefix(name, "(") {
			return "write"
		}
		switch fn {
		case "MkdirAll", "Mkdir", "Create", "OpenFile", "WriteFile", "Getenv", "LookupEnv", "Stat", "Lstat", "Open", "ReadFile":
			if fn == "Getenv" || fn == "LookupEnv" {
				if k, ok := c.Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() != `"GOPATH"` {
					return "deny"
				}
			}
			return "write"
		case "IsNotExist", "IsExist", "IsPermission", "IsPathSeparator", "NewSyscallError", "IsTimeout", "Expand", "SameFile":
			return ""
		}
		return "deny"
	case "os/exec", "net", "net/http", "syscall", "log", "log/slog", "plugin", "os/signal", "os/user", "golang.org/x/sys/unix", "runtime/debug", "expvar", "database/sql", "io/ioutil":
		return "deny"
	case "fmt":
		switch fn {
		case "Print", "Printf", "Println", "Scan", "Scanf", "Scanln":
			return "deny"
		}
	case "builtin":
		switch fn {
		case "print", "println":
			return "deny"
		}
	case "path/filepath":
		switch fn {
		case "Abs", "EvalSymlinks", "Glob", "Walk", "WalkDir":
			return "write"
		}
	case "runtime":
		switch fn {
		case "GC", "GOMAXPROCS", "Goexit", "SetFinalizer", "Breakpoint":
			return "deny"
		}
	}
	return ""
}

func exportedEntry(f *ssa.Function) bool {
	if f.Parent() != nil || !token.IsExported(f.Name()) {
		return false
	}
	return true
}

func ruleEffects(p *Program) []report {
	const rule = "input and output happens only in the write operations, and there only to create directories and files and to read GOPATH"
	r := report{Name: "rule:effects", Op: "effects of all operations", Rule: rule, Verdict: "ok"}
	bad := func(in ssa.Instruction, why string) {
		r.Verdict = "violation"
		if r.Pos == "" {
			r.Pos = p.posOf(in)
		}
		r.Why = append(r.Why, relPos(p.posOf(in))+": "+why)
	}
	// which exported operations reach a function
	funcs := p.ourFuncs()
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range funcs {
		m := map[*ssa.Function]bool{}
		succ[f] = m
		eachInstr(f, func(in ssa.Instruction) {
			if c := callOf(in); c != nil {
				r.Sites++
				for _, g := range p.callees(c) {
					m[g] = true
				}
			}
			for _, op := range in.Operands(nil) {
				switch x := (*op).(type) {
				case *ssa.Function:
					m[x] = true
				case *ssa.MakeClosure:
					m[x.Fn.(*ssa.Function)] = true
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				m[mc.Fn.(*ssa.Function)] = true
			}
		})
	}
	entry := map[*ssa.Function]*ssa.Function{}
	for _, f := range funcs {
		if !exportedEntry(f) || strings.HasPrefix(f.Name(), "Write") {
			continue
		}
		work := []*ssa.Function{f}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if entry[x] != nil {
				continue
			}
			entry[x] = f
			// the write operations themselves may be used by others
			for g := range succ[x] {
				if exportedEntry(g) && strings.HasPrefix(g.Name(), "Write") {
					continue
				}
				work = append(work, g)
			}
		}
	}
	for _, f := range funcs {
		r.Funcs = append(r.Funcs, trimPkg(f.String()))
		eachInstr(f, func(in ssa.Instruction) {
			if c := callOf(in); c != nil {
				n := foreignName(c)
				switch ioClass(n, c) {
				case "deny":
					bad(in, fmt.Sprintf("%s calls %s", trimPkg(f.String()), n))
				case "write":
					if e := entry[f]; e != nil {
						bad(in, fmt.Sprintf("%s, which is not a write operation, reaches the call of %s in %s", trimPkg(e.String()), n, trimPkg(f.String())))
					} else if initOnly(f) {
						bad(in, fmt.Sprintf("initialisation calls %s", n))
					}
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" {
					switch g.Name() {
					case "Stdout", "Stderr", "Stdin", "Args":
						bad(in, fmt.Sprintf("%s uses os.%s", trimPkg(f.String()), g.Name()))
					}
				}
			}
		})
	}
	return []report{r}
}

// nondet: results that differ from run to run.
func nondet(name string) bool {
	for _, p := range []string{"math/rand.", "math/rand/v2.", "crypto/rand.", "(math/rand", "hash/maphash.", "(hash/maphash", "time.Now", "time.Since", "time.Until", "os.Getpid", "os.Getppid", "os.Hostname", "runtime.NumGoroutine", "runtime.Stack", "runtime.ReadMemStats", "runtime.NumCPU", "runtime.Caller", "runtime.Version"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func ruleNondeterminism(p *Program) []report {
	const rule = "no operation reads the time, random numbers, addresses or the state of the process"
	r := report{Name: "rule:nondeterminism", Op: "sources of non-determinism", Rule: rule, Verdict: "ok"}
	for _, f := range p.ourFuncs() {
		r.Funcs = append(r.Funcs, trimPkg(f.String()))
		eachInstr(f, func(in ssa.Instruction) {
			why := ""
			if c := callOf(in); c != nil {
				r.Sites++
				n := foreignName(c)
				if nondet(n) {
					why = "calls " + n
				}
				if strings.HasPrefix(n, "fmt.") {
					for _, a := range c.Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
							why = "prints an address"
						}
					}
				}
			}
			if s, ok := in.(*ssa.Select); ok && len(s.States) > 1 {
				why = "chooses between channels"
			}
			if why != "" {
				r.Verdict = "violation"
				if r.Pos == "" {
					r.Pos = p.posOf(in)
				}
				r.Why = append(r.Why, relPos(p.posOf(in))+": "+trimPkg(f.String())+" "+why)
			}
		})
	}
	return []report{r}
}
