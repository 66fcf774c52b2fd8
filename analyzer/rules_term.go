package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- loops ----------

// pureForeign: foreign operations whose result depends on nothing but their
// arguments (and that do not change them).
func pureForeign(n string) bool {
	for _, p := range []string{"fmt.Sprint", "strings.", "unicode.", "unicode/utf8.", "strconv.", "path.", "(go/types.", "go/types.", "(reflect.Value).", "(reflect.interface).", "(reflect.Type).", "math.", "go/token.", "bytes."} {
		if strings.HasPrefix(n, p) {
			m := n[strings.LastIndexByte(n, '.')+1:]
			return !strings.HasPrefix(m, "Set") && !strings.HasPrefix(m, "Send") && !strings.HasPrefix(m, "Recv") && m != "Call"
		}
	}
	return false
}

type loopFacts struct {
	fn     *ssa.Function
	lp     *loop
	phis   []*ssa.Phi
	effect bool // memory changes, or unknown code runs, in the loop
	cut    bool // deps stops at values from finite sets
	latch  []*ssa.BasicBlock
}

func (p *Program) factsOf(f *ssa.Function, lp *loop) *loopFacts {
	lf := &loopFacts{fn: f, lp: lp}
	for _, in := range lp.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			lf.phis = append(lf.phis, phi)
		}
	}
	for _, pr := range lp.header.Preds {
		if lp.blocks[pr] {
			lf.latch = append(lf.latch, pr)
		}
	}
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			if hasEffect(in) {
				lf.effect = true
			}
		}
	}
	return lf
}

var pureMemo = map[*ssa.Function]bool{}

// pureOwn: the function of the library changes nothing and does not run code
// that is not known.
func pureOwn(f *ssa.Function) bool {
	if r, ok := pureMemo[f]; ok {
		return r
	}
	pureMemo[f] = true
	r := f.Blocks != nil && len(f.FreeVars) == 0
	eachInstr(f, func(in ssa.Instruction) {
		if hasEffect(in) {
			r = false
		}
	})
	pureMemo[f] = r
	return r
}

func hasEffect(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Store:
		// a cell that is only used for the arguments of a call
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			if a, ok := ia.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
				return false
			}
		}
		if a, ok := in.Addr.(*ssa.Alloc); ok && !a.Heap {
			return false // a variable of the function
		}
		return true
	case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.RunDefers:
		return true
	case *ssa.UnOp:
		return in.Op == token.ARROW
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "append", "min", "max", "real", "imag", "complex", "new", "make", "ssa:wrapnilchk":
				return false
			}
			return true
		}
		if g := in.Call.StaticCallee(); g != nil && isOurs(g) {
			return !pureOwn(g)
		}
		return !pureForeign(foreignName(&in.Call))
	}
	return false
}

func (lf *loopFacts) inside(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && lf.lp.blocks[in.Block()]
}

// deps: the phis of the header that v depends on, and whether v is a function
// of these and of values that the loop does not change.
func (lf *loopFacts) deps(v ssa.Value, seen map[ssa.Value]bool, phis map[*ssa.Phi]bool, other map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if !lf.inside(v) {
		if _, isConst := v.(*ssa.Const); !isConst {
			if _, isF := v.(*ssa.Function); !isF {
				if _, isB := v.(*ssa.Builtin); !isB {
					other[v] = true
				}
			}
		}
		return
	}
	if lf.cut {
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.REM || b.Op == token.AND) {
			if _, isC := constInt(b.Y); isC {
				return // one of finitely many values
			}
		}
	}
	if phi, ok := v.(*ssa.Phi); ok && phi.Block() == lf.lp.header {
		phis[phi] = true
		for i, e := range phi.Edges {
			if lf.lp.blocks[phi.Block().Preds[i]] {
				lf.deps(e, seen, phis, other)
			}
		}
		return
	}
	if a, ok := v.(*ssa.Alloc); ok {
		// the arguments of a call
		for _, r := range *a.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, s := range *ia.Referrers() {
					if st, ok := s.(*ssa.Store); ok {
						lf.deps(st.Val, seen, phis, other)
					}
				}
			}
		}
	}
	for _, op := range v.(ssa.Instruction).Operands(nil) {
		if *op != nil {
			lf.deps(*op, seen, phis, other)
		}
	}
}

// step: phi changes by this constant in every iteration.
func (lf *loopFacts) step(phi *ssa.Phi) (int64, bool) {
	var c int64
	n := 0
	for i, e := range phi.Edges {
		if !lf.lp.blocks[phi.Block().Preds[i]] {
			continue
		}
		k, ok := addOf(e, phi)
		if !ok || n > 0 && k != c {
			return 0, false
		}
		c = k
		n++
	}
	return c, n > 0
}

func addOf(e ssa.Value, phi *ssa.Phi) (int64, bool) {
	if e == phi {
		return 0, true
	}
	b, ok := e.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return 0, false
	}
	x, y := b.X, b.Y
	if _, isC := x.(*ssa.Const); isC && b.Op == token.ADD {
		x, y = y, x
	}
	k, ok := constInt(y)
	if !ok {
		return 0, false
	}
	if b.Op == token.SUB {
		k = -k
	}
	r, ok := addOf(x, phi)
	return r + k, ok
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" {
		return 0, true // adds nothing
	}
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// finite: the values of phi come from a set whose size does not depend on the
// input.
func (lf *loopFacts) finite(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if _, ok := v.(*ssa.Const); ok {
		return true
	}
	if !lf.inside(v) {
		return true // one value
	}
	if b, ok := v.(*ssa.BinOp); ok && narrow(b.Type()) {
		return true
	}
	switch v := v.(type) {
	case *ssa.Phi:
		for i, e := range v.Edges {
			if v.Block() == lf.lp.header && !lf.lp.blocks[v.Block().Preds[i]] {
				continue
			}
			if !lf.finite(e, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		switch v.Op {
		case token.REM:
			_, ok := constInt(v.Y)
			return ok
		case token.AND:
			_, ok := constInt(v.Y)
			_, ok2 := constInt(v.X)
			return ok || ok2
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return true
		}
		// of two finite sets
		return !selfDependent(v, lf) && lf.finite(v.X, seen) && lf.finite(v.Y, seen)
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return true
		}
		return v.Op != token.MUL && !selfDependent(v, lf) && lf.finite(v.X, seen)
	case *ssa.Convert:
		return lf.finite(v.X, seen)
	case *ssa.ChangeType:
		return lf.finite(v.X, seen)
	case *ssa.MakeInterface:
		return lf.finite(v.X, seen)
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok && a.Comment == "varargs" {
			for _, r := range *a.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok && !lf.finite(st.Val, seen) {
							return false
						}
					}
				}
			}
			return true
		}
		return false
	case *ssa.Call:
		// a function of values from finite sets, unless of its own result
		if selfDependent(v, lf) || !pureForeign(foreignName(&v.Call)) {
			return false
		}
		for _, a := range v.Call.Args {
			if !lf.finite(a, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// narrow: integers that start over after few iterations.
func narrow(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && sizes.Sizeof(b) <= 2
}

// selfDependent: v depends on what it was in the iteration before.
func selfDependent(v ssa.Value, lf *loopFacts) bool {
	seen := map[ssa.Value]bool{}
	first := true
	var walk func(x ssa.Value) bool
	walk = func(x ssa.Value) bool {
		if x == v && !first {
			return true
		}
		first = false
		if seen[x] || !lf.inside(x) {
			return false
		}
		seen[x] = true
		if b, ok := x.(*ssa.BinOp); ok && x != v && (b.Op == token.REM || b.Op == token.AND) {
			if _, isC := constInt(b.Y); isC {
				return false // cuts
			}
		}
		var ops []ssa.Value
		if a, ok := x.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok {
							ops = append(ops, st.Val)
						}
					}
				}
			}
		}
		for _, op := range x.(ssa.Instruction).Operands(nil) {
			if *op != nil {
				ops = append(ops, *op)
			}
		}
		for _, o := range ops {
			if walk(o) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

type loopExit struct {
	from *ssa.BasicBlock
	cond ssa.Value // nil: unconditional
	stay bool      // the loop goes on if the condition has this value
}

func (lf *loopFacts) exits() (out []loopExit) {
	for b := range lf.lp.blocks {
		for i, s := range b.Succs {
			if lf.lp.blocks[s] {
				continue
			}
			e := loopExit{from: b}
			if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				e.cond = f.Cond
				e.stay = i != 0
			}
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].from.Index < out[j].from.Index })
	return
}

func (lf *loopFacts) everyIteration(b *ssa.BasicBlock) bool {
	for _, l := range lf.latch {
		if !b.Dominates(l) {
			return false
		}
	}
	return true
}

// bounded: the exit is taken after a bounded number of iterations; away: the
// loop moves away from it.
func (lf *loopFacts) bounded(e loopExit) (ok, away bool) {
	if e.cond == nil {
		return true, false
	}
	c, stay := e.cond, e.stay
	for {
		if u, is := c.(*ssa.UnOp); is && u.Op == token.NOT {
			c, stay = u.X, !stay
			continue
		}
		break
	}
	if x, is := c.(*ssa.Extract); is {
		if _, is := x.Tuple.(*ssa.Next); is {
			return lf.everyIteration(e.from), false
		}
		// the lookup of a key that keeps changing, in a map that does not
		if l, is := x.Tuple.(*ssa.Lookup); is && x.Index == 1 && stay && lf.invariant(l.X) && lf.advancing(l.Index) {
			return lf.everyIteration(e.from), false
		}
		return false, false
	}
	b, is := c.(*ssa.BinOp)
	if !is {
		return false, false
	}
	op := b.Op
	if !stay {
		op = negOp(op)
	}
	try := func(x, y ssa.Value, op token.Token) (bool, bool) {
		var phi *ssa.Phi
		for _, ph := range lf.phis {
			if _, ok := addOf(x, ph); ok {
				phi = ph
			}
		}
		if phi == nil || !lf.invariant(y) {
			return false, false
		}
		k, ok := lf.step(phi)
		if !ok {
			return false, false
		}
		up := op == token.LSS || op == token.LEQ
		down := op == token.GTR || op == token.GEQ
		if down {
			// unsigned values are always at least 0
			if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned != 0 && op == token.GEQ {
				if n, ok := constInt(y); ok && n == 0 {
					return false, true
				}
			}
		}
		switch {
		case up && k > 0, down && k < 0, op == token.NEQ && k != 0:
			return lf.everyIteration(e.from), false
		case up && k <= 0, down && k >= 0, op == token.NEQ && k == 0:
			return false, true
		}
		return false, false
	}
	if ok, away := try(b.X, b.Y, op); ok || away {
		return ok, away
	}
	return try(b.Y, b.X, swapOp(op))
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	}
	return op
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// invariant: the same value in every iteration.
func (lf *loopFacts) invariant(v ssa.Value) bool {
	if !lf.inside(v) {
		return true
	}
	switch v := v.(type) {
	case *ssa.Phi:
		return false
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return lf.invariant(v.X) && !lf.written(v.X)
		}
	case *ssa.Call:
		n := foreignName(&v.Call)
		if n == "builtin.len" || n == "builtin.cap" {
			return lf.invariant(v.Call.Args[0])
		}
		if !pureForeign(n) {
			return false
		}
		if v.Call.IsInvoke() && !lf.invariant(v.Call.Value) {
			return false
		}
		for _, a := range v.Call.Args {
			if !lf.invariant(a) {
				return false
			}
		}
		return true
	case *ssa.Next, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Lookup, *ssa.Select:
		return false
	}
	for _, op := range v.(ssa.Instruction).Operands(nil) {
		if *op != nil && !lf.invariant(*op) {
			return false
		}
	}
	return true
}

// written: the loop may change what addr refers to, and go on.
func (lf *loopFacts) written(addr ssa.Value) bool {
	at := addr.Type().Underlying().(*types.Pointer).Elem()
	for b := range lf.lp.blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if types.Identical(st.Val.Type(), at) && hasEffect(in) {
					if fa, ok := addr.(*ssa.FieldAddr); ok {
						if fb, ok := st.Addr.(*ssa.FieldAddr); ok && (fa.Field != fb.Field || !types.Identical(fa.X.Type(), fb.X.Type())) {
							continue
						}
					}
					return true
				}
			} else if _, ok := in.(*ssa.Call); ok && hasEffect(in) {
				return true
			}
		}
	}
	return false
}

// advancing: another value in every iteration.
func (lf *loopFacts) advancing(v ssa.Value) bool {
	return lf.advances(v, map[ssa.Value]bool{})
}

func (lf *loopFacts) advances(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	if narrow(v.Type()) {
		return false // what it was comes back
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == lf.lp.header {
			if k, ok := lf.step(x); ok {
				return k != 0
			}
			for i, e := range x.Edges {
				if lf.lp.blocks[x.Block().Preds[i]] && !lf.advances(e, seen) {
					return false
				}
			}
			return true
		}
		return false
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if isString(x.Type()) {
				// text that has a part in front or behind
				return lf.growing(x) || lf.advances(x.X, seen) && lf.invariant(x.Y) || lf.advances(x.Y, seen) && lf.invariant(x.X)
			}
			return lf.advances(x.X, seen) && lf.invariant(x.Y) || lf.advances(x.Y, seen) && lf.invariant(x.X)
		}
	case *ssa.MakeInterface:
		return lf.advances(x.X, seen)
	case *ssa.Call:
		switch foreignName(&x.Call) {
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
			return lf.advances(x.Call.Args[0], seen)
		case "fmt.Sprintf", "fmt.Sprint":
			args := x.Call.Args
			sl, ok := args[len(args)-1].(*ssa.Slice)
			if !ok {
				return false
			}
			a, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return false
			}
			n := 0
			for _, r := range *a.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, s := range *ia.Referrers() {
						if st, ok := s.(*ssa.Store); ok {
							switch {
							case lf.advances(st.Val, seen):
								n++
							case !lf.invariant(st.Val):
								if mi, ok := st.Val.(*ssa.MakeInterface); !ok || !lf.invariant(mi.X) {
									return false
								}
							}
						}
					}
				}
			}
			return n == 1
		}
	case *ssa.Convert:
		return lf.advances(x.X, seen)
	}
	return false
}

// growing: a text that gets longer by a constant text.
func (lf *loopFacts) growing(b *ssa.BinOp) bool {
	for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		phi, ok := pr[0].(*ssa.Phi)
		if !ok || phi.Block() != lf.lp.header || !hasText(pr[1]) {
			continue
		}
		for i, e := range phi.Edges {
			if lf.lp.blocks[phi.Block().Preds[i]] && e != b {
				return false
			}
		}
		return true
	}
	return false
}

// hasText: a text that is not empty.
func hasText(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.String && constant.StringVal(v.Value) != ""
	case *ssa.Call:
		switch foreignName(&v.Call) {
		case "strconv.Itoa", "strconv.Quote", "strconv.FormatInt", "strconv.FormatUint":
			return true
		case "fmt.Sprint":
			return true // of a number; of an empty text it would be empty
		}
	case *ssa.BinOp:
		return v.Op == token.ADD && (hasText(v.X) || hasText(v.Y))
	case *ssa.Convert:
		return isRune(v.X.Type())
	}
	return false
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// stuck finds a way through the loop that leaves everything as it was. Either
// nothing but state decides which way is taken, or the way changes no memory.
func (lf *loopFacts) stuck(state map[*ssa.Phi]bool, pure bool) bool {
	steps := 0
	all := map[*ssa.Phi]bool{}
	for _, phi := range lf.phis {
		all[phi] = true
	}
	var walk func(b *ssa.BasicBlock, path []*ssa.BasicBlock, on map[*ssa.BasicBlock]bool, eff bool) bool
	walk = func(b *ssa.BasicBlock, path []*ssa.BasicBlock, on map[*ssa.BasicBlock]bool, eff bool) bool {
		steps++
		if steps > 4000 {
			return false
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Next); ok {
				return false
			}
			eff = eff || hasEffect(in)
		}
		if eff && !pure {
			return false
		}
		path = append(path, b)
		on[b] = true
		defer delete(on, b)
		for _, s := range b.Succs {
			if s == lf.lp.header {
				same := func(st map[*ssa.Phi]bool) bool {
					for phi := range st {
						if k, ok := addAlong(phi.Edges[predIndex(s, b)], phi, path, lf.lp); !ok || k != 0 {
							return false
						}
					}
					return true
				}
				if pure && same(state) || !eff && same(all) {
					return true
				}
				continue
			}
			if lf.lp.blocks[s] && !on[s] && walk(s, path, on, eff) {
				return true
			}
		}
		return false
	}
	return walk(lf.lp.header, nil, map[*ssa.BasicBlock]bool{}, false)
}

// addAlong: along the path, e is phi plus a constant.
func addAlong(e ssa.Value, phi *ssa.Phi, path []*ssa.BasicBlock, lp *loop) (int64, bool) {
	e = resolve(e, path, lp)
	if e == phi {
		return 0, true
	}
	b, ok := e.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return 0, false
	}
	x, y := b.X, b.Y
	if _, isC := x.(*ssa.Const); isC && b.Op == token.ADD {
		x, y = y, x
	}
	k, ok := constInt(resolve(y, path, lp))
	if !ok {
		return 0, false
	}
	if b.Op == token.SUB {
		k = -k
	}
	r, ok := addAlong(x, phi, path, lp)
	return r + k, ok
}

// resolve follows the phis inside of the loop along a path.
func resolve(v ssa.Value, path []*ssa.BasicBlock, lp *loop) ssa.Value {
	for {
		phi, ok := v.(*ssa.Phi)
		if !ok || phi.Block() == lp.header || !lp.blocks[phi.Block()] {
			return v
		}
		at := -1
		for i := len(path) - 1; i > 0; i-- {
			if path[i] == phi.Block() {
				at = i
				break
			}
		}
		if at < 0 {
			return v
		}
		v = phi.Edges[predIndex(phi.Block(), path[at-1])]
	}
}

// fixed: the condition of the exit is the same in every iteration.
func (lf *loopFacts) fixed(e loopExit) bool {
	phis, seen := map[*ssa.Phi]bool{}, map[ssa.Value]bool{}
	lf.deps(e.cond, seen, phis, map[ssa.Value]bool{})
	for v := range seen {
		if !lf.inside(v) {
			continue
		}
		switch v := v.(type) {
		case *ssa.Phi, *ssa.Next, *ssa.Lookup, *ssa.Index, *ssa.IndexAddr, *ssa.Alloc:
			return false
		case *ssa.UnOp:
			if v.Op == token.MUL && lf.written(v.X) {
				return false
			}
		case *ssa.Call:
			if hasEffect(v) {
				return false
			}
		}
	}
	return true
}

func ruleLoops(p *Program) []report {
	const what = "every loop is left: it ranges over a finite collection, counts to a bound, or searches a finite map with a key that keeps changing; no way through it leaves its state as it was"
	var out []report
	for _, f := range p.ourFuncs() {
		li := loopsOf(f)
		var headers []*ssa.BasicBlock
		for h := range li.byHeader {
			headers = append(headers, h)
		}
		sort.Slice(headers, func(i, j int) bool { return headers[i].Index < headers[j].Index })
		for n, h := range headers {
			lp := li.byHeader[h]
			lf := p.factsOf(f, lp)
			r := report{Name: fmt.Sprintf("rule:loops %s %d", trimPkg(f.String()), n), Op: trimPkg(f.String()), Rule: what, Verdict: "undecided", Sites: 1, Funcs: []string{trimPkg(f.String())}}
			var pos token.Pos
			for _, in := range h.Instrs {
				if in.Pos().IsValid() && !pos.IsValid() {
					pos = in.Pos()
				}
			}
			for b := range lp.blocks {
				for _, in := range b.Instrs {
					if !pos.IsValid() && in.Pos().IsValid() {
						pos = in.Pos()
					}
				}
			}
			r.Pos = p.fset.Position(pos).String()
			exits := lf.exits()
			bad := ""
			awayAll := len(exits) > 0
			for _, e := range exits {
				ok, away := lf.bounded(e)
				if ok {
					r.Verdict = "ok"
				}
				if !away {
					awayAll = false
				}
			}
			// what decides about the way through the loop
			phis, other, seen := map[*ssa.Phi]bool{}, map[ssa.Value]bool{}, map[ssa.Value]bool{}
			impure := false
			for b := range lp.blocks {
				if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					lf.deps(c.Cond, seen, phis, other)
				}
			}
			for v := range seen {
				switch v := v.(type) {
				case *ssa.Next:
					impure = true
				case *ssa.Lookup:
					impure = impure || lf.effect
				case *ssa.UnOp:
					impure = impure || lf.inside(v) && v.Op == token.MUL && lf.written(v.X)
				case *ssa.Call:
					impure = impure || lf.inside(v) && hasEffect(v)
				}
			}
			phis2, other2 := map[*ssa.Phi]bool{}, map[ssa.Value]bool{}
			lf.cut = true
			seen2 := map[ssa.Value]bool{}
			for b := range lp.blocks {
				if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
					lf.deps(c.Cond, seen2, phis2, other2)
				}
			}
			lf.cut = false
			switch {
			case len(exits) == 0:
				bad = "the loop has no exit"
			case len(exits) == 1 && exits[0].from == h && exits[0].cond != nil && lf.fixed(exits[0]):
				bad = "nothing that the loop changes decides whether it ends"
			case r.Verdict == "ok":
			case awayAll:
				bad = "the loop moves away from the state in which it ends"
			case impure:
				// unknown
			default:
				fin := true
				for phi := range phis2 {
					if !lf.finite(phi, map[ssa.Value]bool{}) {
						fin = false
					}
				}
				switch {
				case len(phis) == 0:
					bad = "nothing that the loop changes decides whether it ends"
				case fin && len(other) > 0:
					bad = "the loop goes through finitely many states, and an input decides whether it ends in any of them"
				}
			}
			if bad == "" && r.Verdict != "ok" && len(exits) > 0 && lf.stuck(phis, !impure) {
				bad = "a way through the loop leaves its state as it was"
			}
			if bad == "" && r.Verdict == "undecided" {
				bad = p.endless(f)
			}
			if bad != "" {
				r.Verdict = "violation"
				r.Why = []string{fmt.Sprintf("%s: loop in %s: %s", relPos(r.Pos), trimPkg(f.String()), bad)}
			} else if r.Verdict == "undecided" {
				r.Why = []string{"no argument for the end of the loop at " + relPos(r.Pos)}
			}
			out = append(out, r)
		}
	}
	return out
}

var _ = constant.Int
