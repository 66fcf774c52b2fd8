package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nearestExported: the operations of the exported interface that enter the
// function without entering another operation of the interface first.
func (p *Program) nearestExported(f *ssa.Function) (out []*ssa.Function) {
	for f.Parent() != nil {
		f = f.Parent()
	}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, g := range p.ourFuncs() {
		owner := g
		for owner.Parent() != nil {
			owner = owner.Parent()
		}
		eachInstr(g, func(in ssa.Instruction) {
			if c := callOf(in); c != nil {
				for _, callee := range p.callees(c) {
					if callers[callee] == nil {
						callers[callee] = map[*ssa.Function]bool{}
					}
					callers[callee][owner] = true
				}
			}
			// functions that are passed on
			for _, op := range in.Operands(nil) {
				if h, ok := (*op).(*ssa.Function); ok && isOurs(h) {
					if callers[h] == nil {
						callers[h] = map[*ssa.Function]bool{}
					}
					callers[h][owner] = true
				}
			}
		})
	}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if exportedEntry(f) {
			out = append(out, f)
			return
		}
		for c := range callers[f] {
			walk(c)
		}
	}
	walk(f)
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// ruleMapOrder: an operation that ranges over a map yields the same whatever
// the order is.
func ruleMapOrder(p *Program) (out []report) {
	const what = "an operation that ranges over a map has the same results and effects for every order of the entries (compared for a map of three entries in different orders)"
	done := map[*ssa.Function]bool{}
	for _, f := range p.ourFuncs() {
		ranges := 0
		pos := f.Pos()
		eachInstr(f, func(in ssa.Instruction) {
			if r, ok := in.(*ssa.Range); ok {
				if _, isMap := r.X.Type().Underlying().(*types.Map); isMap {
					ranges++
					pos = r.Pos()
				}
			}
		})
		if ranges == 0 {
			continue
		}
		for _, g := range p.nearestExported(f) {
			if done[g] {
				continue
			}
			done[g] = true
			r := report{Name: "rule:map-order " + trimPkg(g.String()), Op: trimPkg(g.String()), Rule: what, Sites: ranges, Funcs: []string{trimPkg(f.String())}, Pos: p.fset.Position(pos).String()}
			r.Verdict, r.Why = p.mapOrder(g)
			if r.Verdict == "violation" {
				for i, w := range r.Why {
					r.Why[i] = fmt.Sprintf("%s: depends on the order in which a map is listed: %s", relPos(r.Pos), w)
				}
			}
			out = append(out, r)
		}
	}
	return out
}

func (p *Program) mapOrder(f *ssa.Function) (verdict string, why []string) {
	defer func() { mapInstance = false }()
	defer func() {
		if e := recover(); e != nil {
			u, ok := e.(undecided)
			if !ok {
				u.why = fmt.Sprint("the analysis failed: ", e)
			}
			verdict, why = "undecided", []string{u.why}
		}
	}()
	mapInstance = true
	p.materialise = map[*ssa.CallCommon]bool{}
	run := func(order string) (*outcome, *evalErr) {
		for i := 0; ; i++ {
			o, err := p.run(f, paramTerms(f), p.roleOf[f], "", map[string]string{"order": order})
			if err != nil && err.why == retry && i < 20 {
				continue
			}
			return o, err
		}
	}
	p.reset()
	run("any") // to know which values are maps
	a, err := run("any")
	if err != nil {
		return "undecided", []string{err.why + " " + p.fset.Position(err.pos).String()}
	}
	for _, order := range []string{"other", "next"} {
		b, err := run(order)
		if err != nil {
			return "undecided", []string{err.why + " " + p.fset.Position(err.pos).String()}
		}
		v := &verdictOf{}
		if d := p.compare(a, b, v); len(d) > 0 {
			return "violation", d
		}
	}
	return "ok", nil
}

// endless: an operation of the exported interface that gets into a search
// without end through the function, for some long text.
func (p *Program) endless(f *ssa.Function) string {
	for _, g := range p.nearestExported(f) {
		if why := p.endlessFor(g); why != "" {
			return why
		}
	}
	return ""
}

func (p *Program) endlessFor(g *ssa.Function) (why string) {
	defer func() {
		if recover() != nil {
			why = ""
		}
	}()
	args := paramTerms(g)
	text := false
	for i, q := range g.Params {
		if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			args[i] = strTerm(strings.Repeat("a", 300))
			text = true
		}
	}
	if !text {
		return ""
	}
	p.materialise = map[*ssa.CallCommon]bool{}
	for i := 0; i < 20; i++ {
		p.reset()
		o, err := p.run(g, args, p.roleOf[g], "", nil)
		if err != nil {
			if err.why == retry {
				continue
			}
			return ""
		}
		never := false
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			if t.op == "first" && t.args[0] == Inf && t.args[1] == False {
				never = true
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		for _, v := range o.vals {
			walk(v)
		}
		for _, v := range o.cells {
			walk(v)
		}
		if never {
			return trimPkg(g.String()) + " does not return for texts of 300 bytes, with some state of its other operands: nothing that changes from one round to the next decides whether the loop ends"
		}
		return ""
	}
	return ""
}

type verdictOf = verdict
