package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ruleSharedLists: a list in a field that grows by append belongs to one value
// only. If two values had the same list, with room behind its end, then what
// is appended to the one would show in the other, or replace what is appended
// there.
func ruleSharedLists(p *Program) (out []report) {
	const what = "a list that grows in place is part of one value only: what is stored in a field that is appended to is a new list, the list that was in it, or has no room behind its end"
	grows := map[*types.Var]int{}
	type storing struct {
		in *ssa.Store
		fa *ssa.FieldAddr
	}
	var all []storing
	for _, f := range p.ourFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if _, ok := st.Val.Type().Underlying().(*types.Slice); !ok {
				return
			}
			all = append(all, storing{st, fa})
			if p.growsField(st.Val, fieldOf(fa), 0) {
				grows[fieldOf(fa)]++
			}
		})
	}
	byField := map[*types.Var]*report{}
	of := func(v *types.Var, owner types.Type) *report {
		r := byField[v]
		if r == nil {
			name := types.TypeString(owner, func(*types.Package) string { return "" }) + "." + v.Name()
			r = &report{Name: "rule:shared-lists " + name, Op: name, Rule: what, Verdict: "ok", Pos: p.fset.Position(v.Pos()).String()}
			byField[v] = r
		}
		return r
	}
	for _, s := range all {
		v := fieldOf(s.fa)
		if grows[v] == 0 {
			continue
		}
		r := of(v, s.fa.X.Type().Underlying().(*types.Pointer).Elem())
		r.Sites++
		r.Funcs = append(r.Funcs, trimPkg(s.in.Parent().String()))
		t := &sharing{p: p, grows: grows, dest: s.fa, seen: map[ssa.Value]bool{}}
		if from := t.shared(s.in.Val, nil, 0); from != "" && t.lasting(s.fa.X, map[ssa.Value]bool{}) {
			r.Verdict = "violation"
			pos := p.fset.Position(s.in.Pos()).String()
			r.Pos = pos
			r.Why = append(r.Why, fmt.Sprintf("%s: %s stores %s in %s, which grows by append: appending to the one changes the other", relPos(pos), trimPkg(s.in.Parent().String()), from, v.Name()))
		}
	}
	// whole structs
	for _, f := range p.ourFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			owners := map[*types.Var]types.Type{}
			path := map[*types.Var][]int{}
			growingIn(st.Val.Type(), grows, owners, path, nil)
			if len(owners) == 0 {
				return
			}
			ld, ok := st.Val.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				return
			}
			t := &sharing{p: p, grows: grows, seen: map[ssa.Value]bool{}}
			for v, owner := range owners {
				r := of(v, owner)
				r.Sites++
				r.Funcs = append(r.Funcs, trimPkg(f.String()))
				if t.sameValue(ld.X, st.Addr, nil) || !t.external(ld.X, nil, map[ssa.Value]bool{}) || !t.lasting(st.Addr, map[ssa.Value]bool{}) || replaced(st.Addr, path[v]) {
					continue
				}
				pos := p.fset.Position(st.Pos()).String()
				r.Verdict = "violation"
				r.Pos = pos
				r.Why = append(r.Why, fmt.Sprintf("%s: %s copies a %s with its list %s, which grows by append: appending to the one changes the other", relPos(pos), trimPkg(f.String()), types.TypeString(owner, func(*types.Package) string { return "" }), v.Name()))
			}
		})
	}
	for _, r := range byField {
		sort.Strings(r.Funcs)
		out = append(out, *r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// growingIn: the growing lists in a struct.
func growingIn(t types.Type, grows map[*types.Var]int, owners map[*types.Var]types.Type, path map[*types.Var][]int, at []int) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || len(at) > 4 {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		here := append(append([]int(nil), at...), i)
		if v := st.Field(i); grows[v] > 0 {
			owners[v], path[v] = t, here
		} else {
			growingIn(v.Type(), grows, owners, path, here)
		}
	}
}

// replaced: the part of the struct is stored separately.
func replaced(a ssa.Value, path []int) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, u := range *a.Referrers() {
		switch u := u.(type) {
		case *ssa.Store:
			if u.Addr == a && len(path) == 0 {
				return true
			}
		case *ssa.FieldAddr:
			if u.X == a && len(path) > 0 && u.Field == path[0] && replaced(u, path[1:]) {
				return true
			}
		}
	}
	return false
}

// ruleSharedCode: the same for the pieces of code blocks.
func ruleSharedCode(p *Program) (out []report) {
	for _, r := range ruleSharedLists(p) {
		if strings.HasSuffix(r.Name, " CodeBlock.elements") {
			r.Name = "rule:shared-code " + r.Op
			out = append(out, r)
		}
	}
	return out
}

func fieldOf(fa *ssa.FieldAddr) *types.Var {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field)
}

func loadedField(v ssa.Value) *ssa.FieldAddr {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa
		}
	}
	return nil
}

func isAppend(v ssa.Value) *ssa.Call {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return c
		}
	}
	return nil
}

// growsField: the value is what was in the field before, and more.
func (p *Program) growsField(v ssa.Value, field *types.Var, depth int) bool {
	if depth > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != ssa.Value(v) && p.growsField(e, field, depth+1) {
				return true
			}
		}
	case *ssa.Call:
		if c := isAppend(v); c != nil {
			if fa := loadedField(c.Call.Args[0]); fa != nil {
				return fieldOf(fa) == field
			}
			return p.growsField(c.Call.Args[0], field, depth+1)
		}
		if f := v.Call.StaticCallee(); f != nil && isOurs(f) {
			// a helper that appends to its operand
			for i, a := range v.Call.Args {
				if fa := loadedField(a); fa != nil && fieldOf(fa) == field && i < len(f.Params) && appendsTo(f, f.Params[i]) {
					return true
				}
			}
		}
	}
	return false
}

func appendsTo(f *ssa.Function, q *ssa.Parameter) bool {
	r := false
	eachInstr(f, func(in ssa.Instruction) {
		if v, ok := in.(ssa.Value); ok {
			if c := isAppend(v); c != nil && c.Call.Args[0] == ssa.Value(q) {
				r = true
			}
		}
	})
	return r
}

type sharing struct {
	p     *Program
	grows map[*types.Var]int
	dest  *ssa.FieldAddr
	seen  map[ssa.Value]bool
}

// shared: another value that has the list, or "".
func (t *sharing) shared(v ssa.Value, bind map[*ssa.Parameter]ssa.Value, depth int) string {
	if depth > 12 || t.seen[v] {
		return ""
	}
	t.seen[v] = true
	defer func() { t.seen[v] = false }()
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if r := t.shared(e, bind, depth+1); r != "" {
				return r
			}
		}
	case *ssa.ChangeType:
		return t.shared(v.X, bind, depth+1)
	case *ssa.Slice:
		if v.Max != nil {
			return ""
		}
		if _, ok := v.X.Type().Underlying().(*types.Slice); !ok {
			return ""
		}
		return t.shared(v.X, bind, depth+1)
	case *ssa.Parameter:
		if a := bind[v]; a != nil {
			return t.shared(a, nil, depth+1)
		}
	case *ssa.UnOp:
		fa := loadedField(v)
		if fa == nil || t.grows[fieldOf(fa)] == 0 {
			return ""
		}
		if t.sameValue(fa.X, t.dest.X, bind) && fieldOf(fa) == fieldOf(t.dest) {
			return ""
		}
		if t.external(fa.X, bind, map[ssa.Value]bool{}) {
			return "the list " + fieldOf(fa).Name() + " of another value"
		}
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return t.result(c, v.Index, bind, depth)
		}
	case *ssa.Call:
		if c := isAppend(v); c != nil {
			return t.shared(c.Call.Args[0], bind, depth+1)
		}
		return t.result(v, 0, bind, depth)
	}
	return ""
}

func (t *sharing) result(c *ssa.Call, i int, bind map[*ssa.Parameter]ssa.Value, depth int) string {
	f := c.Call.StaticCallee()
	if f == nil || !isOurs(f) || f.Blocks == nil || bind != nil && depth > 8 {
		return ""
	}
	b := map[*ssa.Parameter]ssa.Value{}
	for j, q := range f.Params {
		a := c.Call.Args[j]
		if x, ok := a.(*ssa.Parameter); ok && bind[x] != nil {
			a = bind[x]
		}
		b[q] = a
	}
	for _, blk := range f.Blocks {
		if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			if s := t.shared(r.Results[i], b, depth+1); s != "" {
				return s
			}
		}
	}
	return ""
}

// sameValue: two pointers to the same struct.
func (t *sharing) sameValue(a, b ssa.Value, bind map[*ssa.Parameter]ssa.Value) bool {
	if q, ok := a.(*ssa.Parameter); ok && bind[q] != nil {
		a = bind[q]
	}
	if a == b {
		return true
	}
	switch a := a.(type) {
	case *ssa.FieldAddr:
		b, ok := b.(*ssa.FieldAddr)
		return ok && a.Field == b.Field && t.sameValue(a.X, b.X, bind)
	case *ssa.UnOp:
		b, ok := b.(*ssa.UnOp)
		return ok && a.Op == b.Op && t.sameValue(a.X, b.X, bind)
	}
	return false
}

// external: the struct that is pointed to is the caller's.
func (t *sharing) external(v ssa.Value, bind map[*ssa.Parameter]ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter:
		if a := bind[v]; a != nil {
			return t.external(a, nil, seen)
		}
		f := v.Parent()
		if exportedEntry(f) {
			return true
		}
		n := -1
		for i, q := range f.Params {
			if q == v {
				n = i
			}
		}
		for _, g := range t.p.ourFuncs() {
			ext := false
			eachInstr(g, func(in ssa.Instruction) {
				if c := callOf(in); c != nil && c.StaticCallee() == f && n < len(c.Args) && !ext {
					ext = t.external(c.Args[n], nil, seen)
				}
			})
			if ext {
				return true
			}
		}
	case *ssa.FieldAddr:
		return t.external(v.X, bind, seen)
	case *ssa.IndexAddr:
		return t.external(v.X, bind, seen)
	case *ssa.UnOp:
		return t.external(v.X, bind, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if t.external(e, bind, seen) {
				return true
			}
		}
	}
	return false
}

// lasting: the struct is not merely used in the function and the functions
// that it calls.
func (t *sharing) lasting(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Alloc:
		return t.kept(v, seen)
	case *ssa.FieldAddr:
		return t.lasting(v.X, seen)
	}
	return true
}

func (t *sharing) kept(v ssa.Value, seen map[ssa.Value]bool) bool {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.Return:
			return true
		case *ssa.Store:
			if u.Val == v {
				return true
			}
		case *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.ChangeInterface:
			w := u.(ssa.Value)
			if !seen[w] {
				seen[w] = true
				if t.kept(w, seen) {
					return true
				}
			}
		}
	}
	return false
}
