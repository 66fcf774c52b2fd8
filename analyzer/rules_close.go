package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ruleCloseOnPanic: what is opened is closed even if writing it panics (a
// template of the caller's may). Between opening and closing, the caller's code
// only runs while a deferred function that closes the output is registered.
//
// How it closes when nothing panics is decided by the reference of WriteGoFiles.
func ruleCloseOnPanic(p *Program) []report {
	const what = "a call that writes to an opened output is dominated by a defer that closes it, in the same function or in those it is called from"
	a := &closeAnalysis{p: p, closing: map[*ssa.Function]int{}, runs: map[*ssa.Function]int{}}
	rep := report{Name: "rule:close-on-panic", Op: "WriteGoFiles", Rule: what, Verdict: "ok"}
	for _, f := range p.ourFuncs() {
		if initOnly(f) {
			continue
		}
		sites := a.sites(f)
		if len(sites) > 0 {
			rep.Funcs = append(rep.Funcs, trimPkg(f.String()))
		}
		for _, s := range sites {
			rep.Sites++
			if open := a.unprotected(s.call, s.output, map[ssa.Instruction]bool{}); open != nil {
				rep.Verdict = "violation"
				rep.Pos = p.fset.Position(s.call.Pos()).String()
				rep.Why = append(rep.Why, fmt.Sprintf("%s: if this call panics, what was opened at %s is not closed", p.fset.Position(s.call.Pos()), p.fset.Position(open.Pos())))
			}
		}
	}
	sort.Strings(rep.Funcs)
	if rep.Sites == 0 {
		rep.Verdict, rep.Why = "undecided", []string{"no call was found that writes to an opened output"}
	}
	return []report{rep}
}

type closeAnalysis struct {
	p       *Program
	closing map[*ssa.Function]int
	runs    map[*ssa.Function]int
}

type closeSite struct {
	call   ssa.CallInstruction
	output ssa.Value
}

// isOutput: values of the type can be written and closed.
func isOutput(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "Write") != nil && ms.Lookup(nil, "Close") != nil
}

// outputOf: the output that the value is, if it is one.
func outputOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		}
		break
	}
	if isOutput(v.Type()) {
		return v
	}
	return nil
}

// sites: the calls in f that write to an output, or that run the caller's code
// while one is open.
func (a *closeAnalysis) sites(f *ssa.Function) (out []closeSite) {
	var opened []ssa.Instruction
	eachInstr(f, func(in ssa.Instruction) {
		if c, ok := in.(*ssa.Call); ok && a.opens(&c.Call) {
			opened = append(opened, c)
		}
	})
	eachInstr(f, func(in ssa.Instruction) {
		call, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		c := &call.Call
		if c.IsInvoke() && c.Method.Name() == "Write" {
			if o := outputOf(c.Value); o != nil {
				out = append(out, closeSite{call, o})
			}
			return
		}
		for i, arg := range c.Args {
			o := outputOf(arg)
			if o == nil {
				continue
			}
			if s := c.Signature(); i < s.Params().Len() && !c.IsInvoke() && s.Recv() == nil && !isOutput(s.Params().At(i).Type()) {
				out = append(out, closeSite{call, o})
				return
			}
		}
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			return // what it shares with this function is looked at there
		}
		for _, o := range opened {
			if in != o && dominates(o, in) && c.StaticCallee() != nil && a.runsTemplates(c.StaticCallee()) && !a.takesOutput(c) {
				out = append(out, closeSite{call, o.(*ssa.Call)})
				return
			}
		}
	})
	return out
}

func (a *closeAnalysis) takesOutput(c *ssa.CallCommon) bool {
	for _, arg := range c.Args {
		if outputOf(arg) != nil {
			return true
		}
	}
	return false
}

// opens: the call yields an output that is not opened by a function of the
// system (those that do are the functions that open).
func (a *closeAnalysis) opens(c *ssa.CallCommon) bool {
	r := c.Signature().Results()
	for i := 0; i < r.Len(); i++ {
		if isOutput(r.At(i).Type()) {
			return true
		}
	}
	return false
}

func dominates(x, y ssa.Instruction) bool {
	if x.Block() != y.Block() {
		return x.Block().Dominates(y.Block())
	}
	for _, in := range x.Block().Instrs {
		if in == x {
			return true
		}
		if in == y {
			return false
		}
	}
	return false
}

// closes: the call may close an output.
func (a *closeAnalysis) closes(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Close"
	}
	f := c.StaticCallee()
	if f == nil {
		_, ok := c.Value.(*ssa.Builtin)
		return !ok // not known
	}
	if f.Signature.Recv() != nil && f.Name() == "Close" || f.Name() == "Close$bound" {
		return true
	}
	if !isOurs(f) || f.Blocks == nil {
		return false
	}
	if v := a.closing[f]; v != 0 {
		return v == 1
	}
	a.closing[f] = 2
	eachInstr(f, func(in ssa.Instruction) {
		if c := callOf(in); c != nil && a.closes(c) {
			a.closing[f] = 1
		}
	})
	return a.closing[f] == 1
}

// closesAfter: the deferred call may close an output if the call panics.
func (a *closeAnalysis) closesAfter(d *ssa.Defer, call ssa.Instruction) bool {
	mc, ok := d.Call.Value.(*ssa.MakeClosure)
	if !ok {
		return a.closes(&d.Call)
	}
	f := mc.Fn.(*ssa.Function)
	found := false
	eachInstr(f, func(in ssa.Instruction) {
		if c := callOf(in); c != nil && a.closes(c) && !notAfter(in, mc, call) {
			found = true
		}
	})
	return found
}

// notAfter: the instruction of the deferred function is not executed if the
// call panics, because it depends on a variable that does not have the value
// then that it needs to have.
func notAfter(in ssa.Instruction, mc *ssa.MakeClosure, call ssa.Instruction) bool {
	f := in.Parent()
	for b := in.Block(); b.Idom() != nil; b = b.Idom() {
		d := b.Idom()
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || len(b.Preds) != 1 || d.Succs[0] == d.Succs[1] {
			continue
		}
		want := d.Succs[0] == b
		if !want && d.Succs[1] != b {
			continue
		}
		cond := i.Cond
		for {
			n, ok := cond.(*ssa.UnOp)
			if !ok || n.Op != token.NOT {
				break
			}
			cond, want = n.X, !want
		}
		isNil := false
		if c, ok := cond.(*ssa.BinOp); ok {
			k, ok := c.Y.(*ssa.Const)
			if !ok || !k.IsNil() || c.Op != token.NEQ && c.Op != token.EQL {
				continue
			}
			cond, isNil = c.X, true
			want = want == (c.Op == token.NEQ) // is it to be set
		}
		l, ok := cond.(*ssa.UnOp)
		if !ok || l.Op != token.MUL {
			continue
		}
		for j, fv := range f.FreeVars {
			v, ok := mc.Bindings[j].(*ssa.Alloc)
			if fv != l.X || !ok || changedBefore(d, fv) {
				continue
			}
			if val, known := valueAt(v, call, isNil); known && val != want {
				return true
			}
		}
	}
	return false
}

// changedBefore: the deferred function may change the variable before it tests
// it at the end of the block.
func changedBefore(test *ssa.BasicBlock, v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != v || r.Block() == test || !test.Dominates(r.Block()) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// valueAt: whether the variable is set (true, not nil) when the call is
// executed, and whether that is known.
func valueAt(v *ssa.Alloc, call ssa.Instruction, isNil bool) (val, known bool) {
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr != v {
				return false, false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// functions that only are deferred, and only read it
			for _, u := range *r.Referrers() {
				if _, ok := u.(*ssa.Defer); !ok {
					return false, false
				}
			}
		default:
			return false, false
		}
	}
	vals := map[bool]bool{}
	known = true
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, upto int)
	back = func(b *ssa.BasicBlock, upto int) {
		for i := upto - 1; i >= 0; i-- {
			switch in := b.Instrs[i].(type) {
			case *ssa.Alloc:
				if in == v {
					vals[false] = true
					return
				}
			case *ssa.Store:
				if in.Addr != v {
					continue
				}
				c, ok := in.Val.(*ssa.Const)
				switch {
				case !ok:
					known = false
				case isNil:
					vals[!c.IsNil()] = true
				default:
					vals[c.Value != nil && c.Value.String() == "true"] = true
				}
				return
			}
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				back(p, len(p.Instrs))
			}
		}
	}
	b := call.Block()
	for i, in := range b.Instrs {
		if in == call {
			back(b, i)
		}
	}
	return vals[true], known && len(vals) == 1
}

// runsTemplates: the function may run code of the caller's.
func (a *closeAnalysis) runsTemplates(f *ssa.Function) bool {
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "text/template" && f.Name() == "Execute" {
		return true
	}
	if !isOurs(f) || f.Blocks == nil {
		return false
	}
	if v := a.runs[f]; v != 0 {
		return v == 1
	}
	a.runs[f] = 2
	eachInstr(f, func(in ssa.Instruction) {
		c := callOf(in)
		if c == nil || a.runs[f] == 1 {
			return
		}
		var fs []*ssa.Function
		if s := c.StaticCallee(); s != nil {
			fs = append(fs, s)
		} else {
			fs = a.p.callees(c)
		}
		for _, g := range fs {
			if a.runsTemplates(g) {
				a.runs[f] = 1
			}
		}
	})
	return a.runs[f] == 1
}

// unprotected: where the output was opened, if no deferred function closes it
// when the call panics (nil: one does, or it is not known).
func (a *closeAnalysis) unprotected(call ssa.CallInstruction, output ssa.Value, seen map[ssa.Instruction]bool) ssa.Instruction {
	if seen[call] {
		return nil
	}
	seen[call] = true
	f := call.Parent()
	protected := false
	eachInstr(f, func(in ssa.Instruction) {
		if d, ok := in.(*ssa.Defer); ok && dominates(d, call) && a.closesAfter(d, call) {
			protected = true
		}
	})
	if protected {
		return nil
	}
	switch o := output.(type) {
	case *ssa.Extract:
		if c, ok := o.Tuple.(*ssa.Call); ok && a.opens(&c.Call) {
			return c
		}
	case *ssa.Call:
		return o
	case *ssa.UnOp:
		// a variable that is shared with a closure
		switch x := o.X.(type) {
		case *ssa.Alloc:
			return a.openedInto(x)
		case *ssa.FreeVar:
			return a.fromParent(f, x, seen)
		}
	case *ssa.FreeVar:
		return a.fromParent(f, o, seen)
	case *ssa.Parameter:
		i := -1
		for j, q := range f.Params {
			if q == o {
				i = j
			}
		}
		for _, g := range a.p.ourFuncs() {
			var open ssa.Instruction
			eachInstr(g, func(in ssa.Instruction) {
				if c, ok := in.(ssa.CallInstruction); ok && open == nil && c.Common().StaticCallee() == f && i < len(c.Common().Args) {
					if v := outputOf(c.Common().Args[i]); v != nil {
						open = a.unprotected(c, v, seen)
					}
				}
			})
			if open != nil {
				return open
			}
		}
	}
	return nil
}

// openedInto: the call that yields what is stored in the variable.
func (a *closeAnalysis) openedInto(x *ssa.Alloc) ssa.Instruction {
	var open ssa.Instruction
	for _, ref := range *x.Referrers() {
		if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
			if e, ok := s.Val.(*ssa.Extract); ok {
				if c, ok := e.Tuple.(*ssa.Call); ok {
					open = c
				}
			} else if c, ok := s.Val.(*ssa.Call); ok {
				open = c
			}
		}
	}
	return open
}

// fromParent: f is called where it is declared, and there is what it shares
// with its parent.
func (a *closeAnalysis) fromParent(f *ssa.Function, v *ssa.FreeVar, seen map[ssa.Instruction]bool) ssa.Instruction {
	if f.Parent() == nil {
		return nil
	}
	var open ssa.Instruction
	eachInstr(f.Parent(), func(in ssa.Instruction) {
		mc, ok := in.(*ssa.MakeClosure)
		if !ok || mc.Fn != f {
			return
		}
		var bound ssa.Value
		for i, fv := range f.FreeVars {
			if fv == v {
				bound = mc.Bindings[i]
			}
		}
		for _, ref := range *mc.Referrers() {
			c, ok := ref.(*ssa.Call)
			if !ok || c.Call.Value != mc || open != nil {
				continue
			}
			switch b := bound.(type) {
			case *ssa.Alloc:
				// what is loaded from the variable
				if o := a.openedInto(b); o != nil {
					if call, ok := o.(*ssa.Call); ok {
						open = a.unprotected(c, call, seen)
					}
				}
			default:
				open = a.unprotected(c, b, seen)
			}
		}
	})
	return open
}
