package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ruleOverwrite: appending to a shortened list writes over what was in the
// list before. That is only allowed for lists that are new, or when the result
// replaces the list in the field that it was taken from.
func ruleOverwrite(p *Program) []report {
	const what = "nothing is appended to a shortened part of a list that others may have: that would write over the elements they see"
	r := report{Name: "rule:overwrite", Op: "appending to parts of lists", Rule: what, Verdict: "ok"}
	grows := map[*types.Var]bool{}
	for _, f := range p.ourFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			v, ok := in.(ssa.Value)
			if !ok {
				return
			}
			c := isAppend(v)
			if c == nil || isByteSlice(c.Type()) {
				return
			}
			r.Sites++
			r.Funcs = append(r.Funcs, trimPkg(f.String()))
			if fa := loadedField(c.Call.Args[0]); fa != nil {
				grows[fieldOf(fa)] = true
			}
			o := &overwrites{p: p, val: c, fn: f}
			if x := o.shortened(c.Call.Args[0], map[ssa.Value]bool{}); x != "" {
				pos := p.posOf(in)
				r.Verdict = "violation"
				if r.Pos == "" {
					r.Pos = pos
				}
				r.Why = append(r.Why, fmt.Sprintf("%s: %s appends to the beginning of %s, whose elements are overwritten", relPos(pos), trimPkg(f.String()), x))
			}
		})
	}
	// a list that is shortened first and appended to later
	for _, f := range p.ourFuncs() {
		eachInstr(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !grows[fieldOf(fa)] {
				return
			}
			if t, ok := st.Val.Type().Underlying().(*types.Slice); !ok || isByteSlice(t) {
				return
			}
			r.Sites++
			r.Funcs = append(r.Funcs, trimPkg(f.String()))
			o := &overwrites{p: p, val: st.Val, fn: f}
			if x := o.shortened(st.Val, map[ssa.Value]bool{}); x != "" {
				pos := p.posOf(in)
				r.Verdict = "violation"
				if r.Pos == "" {
					r.Pos = pos
				}
				r.Why = append(r.Why, fmt.Sprintf("%s: %s stores the beginning of %s in %s, where appending overwrites what follows", relPos(pos), trimPkg(f.String()), x, fieldOf(fa).Name()))
			}
		})
	}
	sort.Strings(r.Funcs)
	r.Funcs = uniqStrings(r.Funcs)
	return []report{r}
}

func uniqStrings(s []string) (out []string) {
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

type overwrites struct {
	p   *Program
	val ssa.Value
	fn  *ssa.Function
}

// shortened: the list of someone else of which the value is a part, with room
// behind its end.
func (o *overwrites) shortened(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if x := o.shortened(e, seen); x != "" {
				return x
			}
		}
	case *ssa.ChangeType:
		return o.shortened(v.X, seen)
	case *ssa.Call:
		if c := isAppend(v); c != nil {
			return o.shortened(c.Call.Args[0], seen)
		}
	case *ssa.Slice:
		if _, ok := v.X.Type().Underlying().(*types.Slice); !ok {
			return ""
		}
		if v.High == nil || v.Max != nil && sameOperand(v.Max, v.High) || isLenOf(v.High, v.X) {
			return o.shortened(v.X, seen)
		}
		return o.foreign(v.X, map[ssa.Value]bool{})
	}
	return ""
}

func sameOperand(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	if ok1 && ok2 {
		return x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	}
	if x, ok := a.(*ssa.Call); ok {
		if l, ok := x.Call.Value.(*ssa.Builtin); ok && l.Name() == "len" {
			return isLenOf(b, x.Call.Args[0])
		}
	}
	return false
}

func isLenOf(n, x ssa.Value) bool {
	c, ok := n.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && sameLoad(c.Call.Args[0], x)
}

// sameLoad: the same value, or the same field.
func sameLoad(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL {
		f, ok1 := x.X.(*ssa.FieldAddr)
		g, ok2 := y.X.(*ssa.FieldAddr)
		return ok1 && ok2 && f.Field == g.Field && sameLoad(f.X, g.X)
	}
	return false
}

// foreign: whose list it is, or "" if it is a new one.
func (o *overwrites) foreign(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if x := o.foreign(e, seen); x != "" {
				return x
			}
		}
	case *ssa.ChangeType:
		return o.foreign(v.X, seen)
	case *ssa.Slice:
		return o.foreign(v.X, seen)
	case *ssa.Call:
		if c := isAppend(v); c != nil {
			return o.foreign(c.Call.Args[0], seen)
		}
		f := v.Call.StaticCallee()
		if f == nil || !isOurs(f) || f.Blocks == nil {
			return ""
		}
		for _, blk := range f.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				if x := o.foreign(ret.Results[0], seen); x != "" {
					return x
				}
			}
		}
	case *ssa.Parameter:
		f := v.Parent()
		if exportedEntry(f) {
			return "the caller's list " + v.Name()
		}
		for i, q := range f.Params {
			if q != v {
				continue
			}
			for _, g := range o.p.ourFuncs() {
				x := ""
				eachInstr(g, func(in ssa.Instruction) {
					if c := callOf(in); c != nil && c.StaticCallee() == f && i < len(c.Args) && x == "" {
						x = o.foreign(c.Args[i], seen)
					}
				})
				if x != "" {
					return x
				}
			}
		}
	case *ssa.Field:
		if x := o.foreignStruct(v.X); x != "" {
			return x
		}
	case *ssa.UnOp:
		if fa := loadedField(v); fa != nil {
			return o.foreignField(fa, seen)
		}
	}
	return ""
}

func (o *overwrites) foreignStruct(v ssa.Value) string {
	switch v.(type) {
	case *ssa.Parameter, *ssa.UnOp, *ssa.Field:
		return "a list of a copied value"
	}
	return ""
}

func (o *overwrites) foreignField(fa *ssa.FieldAddr, seen map[ssa.Value]bool) string {
	name := "the list " + fieldOf(fa).Name()
	if a, ok := fa.X.(*ssa.Alloc); ok {
		// a value of the function: its list is new unless the value is a copy
		// of another one
		own := ""
		stored := false
		eachInstr(a.Parent(), func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			if g, ok := st.Addr.(*ssa.FieldAddr); ok && g.X == ssa.Value(a) && g.Field == fa.Field && !o.from(st.Val, map[ssa.Value]bool{}) && !o.ofField(st.Val, g, map[ssa.Value]bool{}) {
				stored = true
				if own == "" {
					own = o.foreign(st.Val, seen)
				}
			}
		})
		if stored {
			return own
		}
		for _, u := range *a.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(a) {
				if x := o.foreignStruct(st.Val); x != "" {
					return name + " of a copied value"
				}
			}
		}
		return ""
	}
	t := &sharing{p: o.p}
	if !o.others(fa.X, map[ssa.Value]bool{}) {
		return ""
	}
	// in place: the result becomes the list of the same field
	back := false
	eachInstr(o.fn, func(in ssa.Instruction) {
		if st, ok := in.(*ssa.Store); ok {
			if g, ok := st.Addr.(*ssa.FieldAddr); ok && g.Field == fa.Field && t.sameValue(g.X, fa.X, nil) && o.from(st.Val, map[ssa.Value]bool{}) {
				back = true
			}
		}
	})
	if back {
		return ""
	}
	return name
}

// from: the value comes from the append.
func (o *overwrites) from(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if v == o.val {
		return true
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if o.from(e, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return o.from(v.X, seen)
	case *ssa.Slice:
		return o.from(v.X, seen)
	case *ssa.Call:
		if c := isAppend(v); c != nil {
			return o.from(c.Call.Args[0], seen)
		}
	}
	return false
}

// ofField: the value is (part of) what was in the field, and more.
func (o *overwrites) ofField(v ssa.Value, fa *ssa.FieldAddr, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if o.ofField(e, fa, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return o.ofField(v.X, fa, seen)
	case *ssa.Slice:
		return o.ofField(v.X, fa, seen)
	case *ssa.Call:
		if c := isAppend(v); c != nil {
			return o.ofField(c.Call.Args[0], fa, seen)
		}
	case *ssa.UnOp:
		g := loadedField(v)
		return g != nil && g.Field == fa.Field && g.X == fa.X
	}
	return false
}

// others: the value that is pointed to was not made by the function or the
// functions that call it.
func (o *overwrites) others(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Parameter:
		f := v.Parent()
		if exportedEntry(f) {
			return true
		}
		called := false
		for i, q := range f.Params {
			if q != v {
				continue
			}
			for _, g := range o.p.ourFuncs() {
				r := false
				eachInstr(g, func(in ssa.Instruction) {
					if c := callOf(in); c != nil && c.StaticCallee() == f && i < len(c.Args) && !r {
						called = true
						r = o.others(c.Args[i], seen)
					}
				})
				if r {
					return true
				}
			}
		}
		return !called
	case *ssa.FieldAddr:
		return o.others(v.X, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if o.others(e, seen) {
				return true
			}
		}
	case *ssa.UnOp, *ssa.IndexAddr, *ssa.Field, *ssa.Lookup, *ssa.TypeAssert, *ssa.Extract, *ssa.Global, *ssa.FreeVar:
		return true
	}
	return false
}
