package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Recursion is examined by the size-change principle: for every call, each
// argument is compared with the parameters of the caller (the same, or a proper
// part); every cycle of calls has to make some parameter smaller.

const (
	relEq   = 1 // the same
	relLE   = 2 // no higher
	relLess = 3 // lower by one at least; 4 by two, and so on
	relMax  = 6
)

// Values have heights: that of a value is more than those of its parts.

func chain(r, s int) int {
	switch {
	case r == relEq:
		return s
	case s == relEq:
		return r
	}
	if r += s - relLE; r > relMax {
		r = relMax
	}
	return r
}

type origin map[int]int // parameter -> relation

// anything: nil, and what a function that never returns would return.
var anything = origin{-1: relLess}

func joinOrigin(a, b origin) origin {
	if a[-1] != 0 {
		return b
	}
	if b[-1] != 0 {
		return a
	}
	out := origin{}
	for i, r := range a {
		if s, ok := b[i]; ok {
			switch {
			case s == r:
			case s == relEq || r == relEq:
				r = relLE
			case s < r:
				r = s
			}
			out[i] = r
		}
	}
	return out
}

func (o origin) smaller() origin {
	out := origin{}
	for i, r := range o {
		out[i] = chain(r, relLess)
	}
	return out
}

// about: no higher than.
func (o origin) about() origin {
	out := origin{}
	for i, r := range o {
		if r == relEq {
			r = relLE
		}
		out[i] = r
	}
	return out
}

// flat: values of the type contain no others.
func flat(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !flat(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return flat(u.Elem())
	}
	return false
}

// made is the origin of a variable or list: that of the values kept in it as a
// whole, and of the parts it is made of. Its height is one more than that of
// the parts.
func (a *recAnalysis) made(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) origin {
	var out origin
	have, ok, passed := false, true, false
	whole, parts := 0, 0
	add := func(o origin) {
		if !have {
			out, have = o, true
		} else {
			out = joinOrigin(out, o)
		}
	}
	part := func(x ssa.Value, depth int) {
		parts++
		if flat(x.Type()) {
			return
		}
		if k, isC := x.(*ssa.Const); isC && k.Value == nil {
			return
		}
		o := origin{}
		for i, r := range a.origin(f, x, seen) {
			if r-depth >= relLE {
				o[i] = r - depth
			}
		}
		add(o)
	}
	var refs func(v ssa.Value, depth int)
	refs = func(v ssa.Value, depth int) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr != v {
					continue
				}
				if depth > 0 {
					part(r.Val, depth)
				} else {
					whole++
					add(a.origin(f, r.Val, seen))
				}
			case *ssa.FieldAddr:
				refs(r, depth+1)
			case *ssa.IndexAddr:
				refs(r, depth+1)
			case *ssa.Slice:
				refs(r, depth)
			case *ssa.Call:
				if b, isB := r.Call.Value.(*ssa.Builtin); isB && b.Name() == "copy" && r.Call.Args[0] == v {
					parts++
					add(a.origin(f, r.Call.Args[1], seen).about())
				} else if g := r.Call.StaticCallee(); !isB && (g == nil || isOurs(g)) {
					// may be changed there
					passed = true
					if _, isA := v.(*ssa.Alloc); isA && !flat(v.Type().Underlying().(*types.Pointer).Elem()) {
						out = out.about()
					}
				}
			}
		}
	}
	refs(v, 0)
	switch {
	case !ok:
		return nil
	case !have && !passed:
		return anything
	case !have:
		return nil
	}
	if parts > 0 || whole > 1 {
		out = out.about()
	}
	return out
}

type recAnalysis struct {
	p       *Program
	results map[*ssa.Function][]origin // of the results, in terms of the parameters
	busy    map[*ssa.Function]bool
}

// partOf: operations that return a part of their receiver (or first argument).
func partOf(n string) (rel int, ok bool) {
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return 0, false
	}
	m := n[i+1:]
	switch {
	case strings.HasPrefix(n, "(reflect.Value)."):
		switch m {
		case "Elem", "Field", "Index", "MapIndex", "MapKeys", "FieldByName", "FieldByIndex":
			return relLess, true
		case "Interface", "Convert", "Addr", "Slice":
			return relEq, true
		}
	case strings.HasPrefix(n, "(reflect.interface)."), strings.HasPrefix(n, "(reflect.Type)."):
		switch m {
		case "Elem", "Key", "In", "Out", "Field", "Method", "FieldByName":
			return relLess, true
		}
	case strings.HasPrefix(n, "(go/types."):
		switch m {
		case "Elem", "Key", "At", "Field", "Params", "Results", "Recv", "ExplicitMethod", "EmbeddedType", "Embedded", "Method", "Type":
			return relLess, true
		}
	case n == "reflect.ValueOf", n == "reflect.Indirect", n == "reflect.TypeOf":
		return relEq, true
	}
	return 0, false
}

func (a *recAnalysis) paramIndex(f *ssa.Function, v ssa.Value) int {
	for i, p := range f.Params {
		if p == v {
			return i
		}
	}
	for i, p := range f.FreeVars {
		if p == v {
			return len(f.Params) + i
		}
	}
	return -1
}

func (a *recAnalysis) origin(f *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) origin {
	if i := a.paramIndex(f, v); i >= 0 {
		return origin{i: relEq}
	}
	if seen[v] {
		return nil
	}
	seen[v] = true
	defer delete(seen, v)
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return anything
		}
	case *ssa.FieldAddr:
		return a.origin(f, v.X, seen).smaller()
	case *ssa.Field:
		return a.origin(f, v.X, seen).smaller()
	case *ssa.IndexAddr:
		return a.origin(f, v.X, seen).smaller()
	case *ssa.Index:
		return a.origin(f, v.X, seen).smaller()
	case *ssa.Lookup:
		return a.origin(f, v.X, seen).smaller()
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return a.origin(f, v.X, seen)
		}
	case *ssa.Alloc, *ssa.MakeSlice:
		return a.made(f, v, seen)
	case *ssa.Slice:
		o := a.origin(f, v.X, seen)
		if v.Low != nil {
			if n, ok := constInt(v.Low); ok && n > 0 {
				return o.smaller()
			}
		}
		return o
	case *ssa.TypeAssert:
		return a.origin(f, v.X, seen)
	case *ssa.ChangeType:
		return a.origin(f, v.X, seen)
	case *ssa.ChangeInterface:
		return a.origin(f, v.X, seen)
	case *ssa.MakeInterface:
		return a.origin(f, v.X, seen)
	case *ssa.Convert:
		return a.origin(f, v.X, seen)
	case *ssa.Phi:
		var out origin
		first := true
		for _, e := range v.Edges {
			if e == v || seen[e] {
				continue
			}
			o := a.origin(f, e, seen)
			if first {
				out, first = o, false
			} else {
				out = joinOrigin(out, o)
			}
		}
		return out
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && v.Index > 0 {
				return a.origin(f, r.X, seen).smaller()
			}
		case *ssa.TypeAssert:
			if v.Index == 0 {
				return a.origin(f, t.X, seen)
			}
		case *ssa.Lookup:
			if v.Index == 0 {
				return a.origin(f, t.X, seen).smaller()
			}
		case *ssa.Call:
			return a.ofCall(f, t, v.Index, seen)
		}
	case *ssa.Call:
		return a.ofCall(f, v, 0, seen)
	}
	return nil
}

func callArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (a *recAnalysis) ofCall(f *ssa.Function, call *ssa.Call, res int, seen map[ssa.Value]bool) origin {
	c := &call.Call
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "ssa:wrapnilchk":
			return a.origin(f, c.Args[0], seen)
		case "append":
		default:
			return nil
		}
		var out origin
		have := false
		for _, x := range c.Args {
			if k, isC := x.(*ssa.Const); isC && k.Value == nil || seen[x] {
				continue
			}
			o := a.origin(f, x, seen).about()
			if have {
				o = joinOrigin(out, o)
			}
			out, have = o, true
		}
		return out
	}
	if n := foreignName(c); n != "" {
		args := callArgs(c)
		switch n {
		case "(reflect.Value).Elem":
			if in, ok := args[0].(*ssa.Call); ok {
				switch foreignName(&in.Call) {
				case "reflect.New":
					// what it is set to
					var out origin
					if refs := call.Referrers(); refs != nil {
						for _, r := range *refs {
							if set, ok := r.(*ssa.Call); ok && foreignName(&set.Call) == "(reflect.Value).Set" && set.Call.Args[0] == call {
								if out != nil {
									return nil
								}
								out = a.origin(f, set.Call.Args[1], seen).about()
							}
						}
					}
					return out
				case "reflect.NewAt":
					return a.origin(f, in.Call.Args[1], seen).about()
				case "(reflect.Value).Addr":
					return a.origin(f, in.Call.Args[0], seen)
				}
			}
		case "(reflect.Value).UnsafeAddr", "(reflect.Value).Pointer":
			return a.origin(f, args[0], seen)
		}
		if rel, ok := partOf(n); ok && len(args) > 0 && res == 0 {
			o := a.origin(f, args[0], seen)
			if rel == relLess {
				o = o.smaller()
			}
			return o
		}
		return nil
	}
	var out origin
	first := true
	for _, g := range a.p.callees(c) {
		rs := a.resultsOf(g)
		if rs == nil {
			continue // does not return
		}
		var o origin
		if res < len(rs) {
			if rs[res][-1] != 0 {
				continue
			}
			for i, r := range rs[res] {
				if i < len(callArgs(c)) {
					for j, s := range a.origin(f, callArgs(c)[i], seen) {
						if j < 0 {
							continue
						}
						s = chain(s, r)
						if o == nil {
							o = origin{}
						}
						if s > o[j] {
							o[j] = s
						}
					}
				}
			}
		}
		if first {
			out, first = o, false
		} else {
			out = joinOrigin(out, o)
		}
	}
	if first {
		return anything
	}
	if c.IsInvoke() {
		out = out.about() // which one is called is not known
	}
	return out
}

func (a *recAnalysis) resultsOf(g *ssa.Function) []origin {
	if r, ok := a.results[g]; ok {
		return r
	}
	if a.busy[g] {
		return []origin{{}, {}, {}, {}}
	}
	a.busy[g] = true
	defer delete(a.busy, g)
	var out []origin
	eachInstr(g, func(in ssa.Instruction) {
		r, ok := in.(*ssa.Return)
		if !ok {
			return
		}
		for i, v := range r.Results {
			o := a.origin(g, v, map[ssa.Value]bool{})
			if i >= len(out) {
				out = append(out, o)
			} else {
				out[i] = joinOrigin(out[i], o)
			}
		}
	})
	a.results[g] = out
	return out
}

type recEdge struct {
	from, to *ssa.Function
	arcs     [][3]int // parameter of from, parameter of to, relation
	clean    bool     // nothing has been changed before the call
	always   bool     // the call is made in any case
	at       string
	note     string
}

func (e *recEdge) key() string {
	return fmt.Sprint(e.from, e.to, e.arcs, e.clean, e.always)
}

// changes is hasEffect without the writing of text.
func (a *recAnalysis) changes(in ssa.Instruction) bool {
	if c, ok := in.(*ssa.Call); ok {
		if c.Call.IsInvoke() {
			gs := a.p.callees(&c.Call)
			for _, g := range gs {
				if !pureOwn(g) {
					return true
				}
			}
			return len(gs) == 0 && hasEffect(in)
		}
		n := foreignName(&c.Call)
		for _, p := range []string{"(bytes.Buffer).", "(strings.Builder).", "fmt.Fprint", "io.WriteString", "(io."} {
			if strings.HasPrefix(n, p) {
				return false
			}
		}
	}
	return hasEffect(in)
}

// cleanTo: nothing is changed before the instruction is reached.
func (a *recAnalysis) cleanTo(in ssa.Instruction) bool {
	// blocks from which it can be reached
	seen := map[*ssa.BasicBlock]bool{}
	clean := true
	var walk func(b *ssa.BasicBlock, upTo ssa.Instruction)
	walk = func(b *ssa.BasicBlock, upTo ssa.Instruction) {
		for _, x := range b.Instrs {
			if x == upTo {
				break
			}
			if a.changes(x) {
				clean = false
			}
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				walk(p, nil)
			}
		}
	}
	walk(in.Block(), in)
	return clean
}

// textMethods lists the operands of a call of fmt whose methods it will call.
func (a *recAnalysis) textMethods(c *ssa.CallCommon) (out []struct {
	fn  *ssa.Function
	arg ssa.Value
}) {
	n := foreignName(c)
	if !strings.HasPrefix(n, "fmt.") || len(c.Args) == 0 {
		return
	}
	sl, ok := c.Args[len(c.Args)-1].(*ssa.Slice)
	if !ok {
		return
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return
	}
	var verbs []byte
	formatted := false
	if strings.HasSuffix(n, "f") {
		formatted = true
		k, ok := c.Args[len(c.Args)-2].(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			return
		}
		s := constant.StringVal(k.Value)
		for i := 0; i < len(s); i++ {
			if s[i] != '%' {
				continue
			}
			i++
			for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
				if s[i] == '#' {
					break
				}
				i++
			}
			if i < len(s) && s[i] != '%' {
				verbs = append(verbs, s[i])
			}
		}
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		idx, ok := constInt(ia.Index)
		if !ok {
			continue
		}
		if formatted && (int(idx) >= len(verbs) || strings.IndexByte("vsqxX", verbs[idx]) < 0) {
			continue
		}
		for _, s := range *ia.Referrers() {
			st, ok := s.(*ssa.Store)
			if !ok {
				continue
			}
			x := st.Val
			if mi, ok := x.(*ssa.MakeInterface); ok {
				x = mi.X
			} else {
				continue
			}
			ms := types.NewMethodSet(x.Type())
			for _, m := range []string{"Error", "String"} {
				sel := ms.Lookup(nil, m)
				if sel == nil {
					continue
				}
				fn := a.p.prog.FuncValue(sel.Obj().(*types.Func))
				if fn != nil && isOurs(fn) && fn.Blocks != nil && fn.Signature.Params().Len() == 0 {
					out = append(out, struct {
						fn  *ssa.Function
						arg ssa.Value
					}{fn, x})
				}
				break
			}
		}
	}
	return
}

func (a *recAnalysis) edges(f *ssa.Function) (out []*recEdge) {
	add := func(in ssa.Instruction, g *ssa.Function, args []ssa.Value, clean bool) {
		e := &recEdge{from: f, to: g, clean: clean && a.cleanTo(in), always: unconditional(in.Block()), at: relPos(a.p.posOf(in))}
		for j, x := range args {
			if x == nil {
				continue
			}
			for i, r := range a.origin(f, x, map[ssa.Value]bool{}) {
				if i < 0 {
					continue
				}
				e.arcs = append(e.arcs, [3]int{i, j, r})
			}
		}
		sortArcs(e.arcs)
		out = append(out, e)
	}
	eachInstr(f, func(in ssa.Instruction) {
		if mc, ok := in.(*ssa.MakeClosure); ok {
			g := mc.Fn.(*ssa.Function)
			args := make([]ssa.Value, len(g.Params))
			add(in, g, append(args, mc.Bindings...), false)
		}
		c := callOf(in)
		if c == nil {
			return
		}
		gs := a.p.callees(c)
		// which of several methods is called may depend on the conditions that
		// lead here
		clean := len(gs) < 2 || unconditional(in.Block())
		for _, g := range gs {
			add(in, g, callArgs(c), clean)
		}
		for _, t := range a.textMethods(c) {
			add(in, t.fn, []ssa.Value{t.arg}, true)
		}
		if foreignName(c) != "" {
			// functions passed on
			for _, x := range c.Args {
				if g, ok := x.(*ssa.Function); ok && isOurs(g) && g.Blocks != nil {
					add(in, g, make([]ssa.Value, len(g.Params)), false)
				}
			}
		}
	})
	return
}

// unconditional: every call of the function starts with this block.
func unconditional(b *ssa.BasicBlock) bool {
	x := b.Parent().Blocks[0]
	for i := 0; i < len(b.Parent().Blocks); i++ {
		if x == b {
			return true
		}
		if len(x.Succs) != 1 {
			return false
		}
		x = x.Succs[0]
	}
	return false
}

func sortArcs(arcs [][3]int) {
	sort.Slice(arcs, func(i, j int) bool {
		for k := 0; k < 3; k++ {
			if arcs[i][k] != arcs[j][k] {
				return arcs[i][k] < arcs[j][k]
			}
		}
		return false
	})
}

func compose(x, y *recEdge) *recEdge {
	m := map[[2]int]int{}
	for _, p := range x.arcs {
		for _, q := range y.arcs {
			if p[1] == q[0] {
				r := chain(p[2], q[2])
				k := [2]int{p[0], q[1]}
				if r > m[k] {
					m[k] = r
				}
			}
		}
	}
	e := &recEdge{from: x.from, to: y.to, clean: x.clean && y.clean && (x.always || y.always), always: x.always && y.always, at: x.at, note: x.note}
	if y.at != x.at && !strings.Contains(e.note, y.at) {
		e.note = strings.TrimSpace(e.note + " " + y.at)
	}
	for k, r := range m {
		e.arcs = append(e.arcs, [3]int{k[0], k[1], r})
	}
	sortArcs(e.arcs)
	return e
}

func ruleRecursion(p *Program) []report {
	const what = "every cycle of calls descends into a proper part of an argument"
	a := &recAnalysis{p: p, results: map[*ssa.Function][]origin{}, busy: map[*ssa.Function]bool{}}
	funcs := p.ourFuncs()
	succ := map[*ssa.Function][]*recEdge{}
	for _, f := range funcs {
		succ[f] = a.edges(f)
	}
	var out []report
	for _, scc := range sccs(funcs, succ) {
		in := map[*ssa.Function]bool{}
		for _, f := range scc {
			in[f] = true
		}
		var base []*recEdge
		for _, f := range scc {
			for _, e := range succ[f] {
				if in[e.to] {
					base = append(base, e)
				}
			}
		}
		if len(base) == 0 {
			continue
		}
		var names []string
		for _, f := range scc {
			names = append(names, trimPkg(f.String()))
		}
		r := report{Name: "rule:recursion " + names[0], Op: strings.Join(names, ", "), Rule: what, Verdict: "ok", Sites: len(base), Funcs: names, Pos: p.fset.Position(scc[0].Pos()).String()}
		if n := os.Getenv("VA_REC"); n != "" {
			w, _ := os.OpenFile(n, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			defer w.Close()
			for _, e := range base {
				fmt.Fprintln(w, trimPkg(e.from.String()), "->", trimPkg(e.to.String()), e.at, e.arcs, e.clean, e.always)
			}
		}
		all := map[string]*recEdge{}
		byFrom := map[*ssa.Function][]*recEdge{}
		var work []*recEdge
		push := func(e *recEdge) {
			if all[e.key()] == nil {
				all[e.key()] = e
				byFrom[e.from] = append(byFrom[e.from], e)
				work = append(work, e)
			}
		}
		for _, e := range base {
			push(e)
		}
		over := false
		for len(work) > 0 && !over {
			e := work[0]
			work = work[1:]
			for _, b := range base {
				if b.from == e.to {
					push(compose(e, b))
				}
			}
			over = len(all) > 20000
		}
		var keys []string
		for k := range all {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			e := all[k]
			if e.from != e.to {
				continue
			}
			c := compose(e, e)
			if fmt.Sprint(c.arcs) != fmt.Sprint(e.arcs) {
				continue
			}
			less := false
			eq := map[int]bool{}
			for _, arc := range e.arcs {
				if arc[0] == arc[1] {
					if arc[2] >= relLess {
						less = true
					} else if arc[2] == relEq {
						eq[arc[0]] = true
					}
				}
			}
			n := len(e.from.Params) + len(e.from.FreeVars)
			switch {
			case less:
			case len(eq) == n && e.clean:
				r.Verdict = "violation"
				r.Pos = e.at
				r.Why = append([]string{fmt.Sprintf("%s: %s calls itself with the arguments it was given (%s)", e.at, trimPkg(e.from.String()), strings.TrimSpace(e.at+" "+e.note))}, r.Why...)
			case r.Verdict == "ok":
				r.Verdict = "undecided"
				r.Why = append(r.Why, fmt.Sprintf("no argument gets smaller when %s is called again (%s)", trimPkg(e.from.String()), strings.TrimSpace(e.at+" "+e.note)))
			}
		}
		if over && r.Verdict == "ok" {
			r.Verdict = "undecided"
			r.Why = append(r.Why, "too many cycles of calls")
		}
		out = append(out, r)
		if k := cyclicData(a, scc, base); k != nil {
			out = append(out, *k)
		}
	}
	return out
}

// cyclicData: recursion through the pointers, lists and maps of a caller's data
// has to remember where it was, since such data can refer to itself.
func cyclicData(a *recAnalysis, scc []*ssa.Function, base []*recEdge) *report {
	guard := false
	for _, f := range scc {
		eachInstr(f, func(in ssa.Instruction) {
			if l, ok := in.(*ssa.Lookup); ok {
				if m, ok := l.X.Type().Underlying().(*types.Map); ok && addressKey(m.Key()) {
					guard = true
				}
			}
		})
	}
	var sites []string
	for _, f := range scc {
		eachInstr(f, func(in ssa.Instruction) {
			c := callOf(in)
			if c == nil {
				return
			}
			for _, g := range a.p.callees(c) {
				for _, e := range base {
					if e.from == f && e.to == g {
						for _, x := range callArgs(c) {
							if call, ok := x.(*ssa.Call); ok {
								switch foreignName(&call.Call) {
								case "(reflect.Value).Elem", "(reflect.Value).Index", "(reflect.Value).MapIndex":
									sites = append(sites, relPos(a.p.posOf(in)))
									return
								}
							}
						}
					}
				}
			}
		})
	}
	if len(sites) == 0 {
		return nil
	}
	r := &report{Name: "rule:recursion-data " + trimPkg(scc[0].String()), Op: trimPkg(scc[0].String()), Rule: "recursion through the pointers of the caller's data remembers where it was", Verdict: "ok", Sites: len(sites), Pos: sites[0]}
	if !guard {
		r.Verdict = "violation"
		r.Known = "cyclic-template-data"
		r.Why = []string{fmt.Sprintf("%s: the recursion follows references of the caller's data, which may lead back to where it came from", sites[0])}
	}
	return r
}

func addressKey(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.Uintptr || u.Kind() == types.UnsafePointer
	case *types.Pointer, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if addressKey(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// sccs: the sets of functions that call each other, those that do not call
// themselves left out.
func sccs(funcs []*ssa.Function, succ map[*ssa.Function][]*recEdge) (out [][]*ssa.Function) {
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, e := range succ[f] {
			g := e.to
			if index[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			var c []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			self := len(c) > 1
			for _, e := range succ[f] {
				self = self || e.to == f
			}
			if self {
				sort.Slice(c, func(i, j int) bool { return c[i].Pos() < c[j].Pos() })
				out = append(out, c)
			}
		}
	}
	for _, f := range funcs {
		if index[f] == 0 {
			visit(f)
		}
	}
	return
}
