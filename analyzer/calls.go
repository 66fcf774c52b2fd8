package main

import (
	"fmt"
	"go/types"
	"maps"
	"reflect"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/jhump/gopoet"

func (fr *frame) callArgs(c *ssa.CallCommon, st *State) (*Term, []*Term) {
	var args []*Term
	var fn *Term
	if c.IsInvoke() {
		fn = fr.val(c.Value, st)
	} else {
		fn = fr.val(c.Value, st)
	}
	for _, a := range c.Args {
		args = append(args, fr.val(a, st))
	}
	return fn, args
}

func (fr *frame) doCall(c *ssa.CallCommon, in *ssa.Call, st *State, pc *Term) (*Term, *Term) {
	fn, args := fr.callArgs(c, st)
	for i, a := range args {
		args[i] = constrain(a, pc)
	}
	return fr.applyCall(c, fn, args, in, st, pc)
}

func (fr *frame) applyCall(c *ssa.CallCommon, fn *Term, args []*Term, in ssa.Instruction, st *State, pc *Term) (*Term, *Term) {
	ev := fr.ev
	fn = constrain(fn, pc)
	ls := leavesOf(fn)
	if len(ls) > 1 {
		// one call per possible callee
		var res *Term
		var pan = False
		var merged []edge
		var vals []*Term
		var conds []*Term
		for _, l := range ls {
			cond := mapLeaves(fn, func(x *Term) *Term { return boolTerm(x == l) })
			if and(cond, pc) == False {
				continue
			}
			st2 := st.clone()
			v, p := fr.applyOne(c, l, args, in, st2, and(pc, cond))
			if p == nil {
				p = False
			}
			pan = or(pan, and(cond, p))
			merged = append(merged, edge{pc: cond, st: st2})
			vals = append(vals, v)
			conds = append(conds, cond)
		}
		for i := len(vals) - 1; i >= 0; i-- {
			if vals[i] == nil {
				continue
			}
			if res == nil {
				res = vals[i]
			} else {
				res = iteTup(conds[i], vals[i], res)
			}
		}
		st.m = ev.mergeStates(merged).clone().m
		return res, pan
	}
	return fr.applyOne(c, fn, args, in, st, pc)
}

func iteTup(c, a, b *Term) *Term {
	return ite(c, a, b)
}

func resultTuple(vals []*Term) *Term {
	switch len(vals) {
	case 0:
		return nil
	case 1:
		return vals[0]
	}
	return mk("tup", "", vals...)
}

func (fr *frame) applyOne(c *ssa.CallCommon, fn *Term, args []*Term, in ssa.Instruction, st *State, pc *Term) (*Term, *Term) {
	ev := fr.ev
	if c.IsInvoke() {
		return fr.invoke(c, fn, args, st, pc)
	}
	switch fn.op {
	case "func":
		if strings.HasPrefix(fn.aux, "builtin.") || strings.HasPrefix(fn.aux, "ssa:") {
			return fr.builtin(c, strings.TrimPrefix(fn.aux, "builtin."), args, st)
		}
		f := ev.prog.byName[fn.aux]
		if f == nil {
			if s := c.StaticCallee(); s != nil {
				f = s
			}
		}
		if f == nil {
			giveUp("unknown function %s", fn.aux)
		}
		return fr.static(f, args, nil, st, pc)
	case "closure":
		ci := ev.closures[fn]
		return fr.static(ci.fn, args, ci.bind, st, pc)
	case "const":
		return Undef, True // call of a nil function
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(c, b.Name(), args, st)
	}
	// a function value from elsewhere
	r := mk("callv", "", append([]*Term{fn}, fr.reifyArgs(args, st)...)...)
	ev.event(r, st)
	return fr.opaqueResult(r, c.Signature()), nil
}

func (fr *frame) opaqueResult(r *Term, sig *types.Signature) *Term {
	res := sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		if isBool(res.At(0).Type()) {
			return mk("b", "", r)
		}
		if _, ok := res.At(0).Type().Underlying().(*types.Struct); ok && !atomicStruct(res.At(0).Type()) {
			noteStruct(r, res.At(0).Type())
		}
		if types.IsInterface(res.At(0).Type()) {
			for _, l := range leavesOf(r) {
				if _, ok := resultType[l]; !ok {
					resultType[l] = res.At(0).Type()
				}
			}
		}
		return r
	}
	var vs []*Term
	for i := 0; i < res.Len(); i++ {
		v := mk("ext", strconv.Itoa(i), r)
		if isBool(res.At(i).Type()) {
			v = mk("b", "", v)
		}
		if types.IsInterface(res.At(i).Type()) {
			for _, l := range leavesOf(v) {
				if _, ok := resultType[l]; !ok {
					resultType[l] = res.At(i).Type()
				}
			}
		}
		vs = append(vs, v)
	}
	return mk("tup", "", vs...)
}

// noteStruct remembers that the values are structures of type t, and so on for
// the fields that are structures themselves.
func noteStruct(r *Term, t types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok || atomicStruct(t) {
		return
	}
	for _, l := range leavesOf(r) {
		if l.op == "struct" || l == Undef {
			continue
		}
		structT[l] = structKey(t)
		for i := 0; i < st.NumFields(); i++ {
			noteStruct(mk("field", st.Field(i).Name(), l), st.Field(i).Type())
		}
	}
}

// knownDynamic: a value of an interface type is given whose content is known.
func knownDynamic(f *ssa.Function, args []*Term) bool {
	for i, a := range args {
		if i < len(f.Params) && types.IsInterface(f.Params[i].Type()) && a.op == "iface" && a.obj {
			return true
		}
	}
	return false
}

// madeHere: an operation that changes its arguments is given a set of imports
// that was made here.
func (ev *Eval) madeHere(args []*Term) bool {
	for _, a := range args {
		for _, l := range leavesOf(a) {
			if l.op == "alloc" && ev.allocT[l] != nil && typePath(ev.allocT[l]) == modPath+".Imports" {
				return true
			}
		}
	}
	return false
}

// static calls a function whose identity is known.
func (fr *frame) static(f *ssa.Function, args, binds []*Term, st *State, pc *Term) (*Term, *Term) {
	ev := fr.ev
	ev.sites++
	if f.Name() == "init" && f.Signature.Recv() == nil && f.Synthetic != "" && (f.Pkg == nil || f.Pkg.Pkg.Path() != modPath) {
		return nil, nil
	}
	if isOurs(f) {
		if role, rargs := ev.prog.roleCall(ev, f, args); role != "" && !ev.isRoot(role, f, rargs) && !(effectRoles[role] && ev.madeHere(rargs)) && !ev.unfolds(role, f, rargs) {
			return fr.roleCall(role, f, rargs, st)
		}
		// a recursive call
		for i := len(ev.stack) - 1; i >= 0; i-- {
			s := ev.stack[i]
			if s.fn == f && f.Parent() == nil {
				if ev.absReflect && (takesReflectValue(f) || knownDynamic(f, args)) {
					break // the types of the data end the recursion
				}
				if ev.unfolds(ev.rootRole, f, args) {
					break
				}
				return fr.recursive(s, f, args, st)
			}
		}
		if ev.isRen(f, args) && !(ev.absReflect && knownDynamic(f, args)) {
			return fr.renCall(f, args, st)
		}
		r := ev.call(f, args, binds, st.clone())
		st.m = r.st.m
		return resultTuple(r.vals), r.panicC
	}
	if f.Synthetic != "" && f.Blocks != nil && (f.Pkg == nil || !isForeignPkg(f)) {
		r := ev.call(f, args, binds, st.clone())
		st.m = r.st.m
		return resultTuple(r.vals), r.panicC
	}
	return fr.foreign(f, args, st, pc)
}

func isForeignPkg(f *ssa.Function) bool { return f.Pkg != nil && f.Pkg.Pkg.Path() != modPath }

func isOurs(f *ssa.Function) bool {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() == modPath
	}
	// wrappers of methods
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() == modPath
	}
	return strings.Contains(f.String(), modPath)
}

func (ev *Eval) isRoot(role string, f *ssa.Function, args []*Term) bool {
	if role != ev.rootRole || len(args) != len(ev.rootArgs) {
		return false
	}
	for i := range args {
		if args[i] != ev.rootArgs[i] {
			return false
		}
	}
	return true
}

// unfolds: the operation that is analysed is applied again, to a value of
// another package whose dynamic type is known, so that one case of it applies.
func (ev *Eval) unfolds(role string, f *ssa.Function, args []*Term) bool {
	if role == "" || role != ev.rootRole {
		return false
	}
	n := 0
	for _, s := range ev.stack {
		if s.fn == f {
			n++
		}
	}
	if n > 1 {
		return false
	}
	for i, a := range args {
		if i < len(f.Params) && types.IsInterface(f.Params[i].Type()) && a.op == "iface" && !a.obj {
			if p, ok := typeReg[a.aux].(*types.Pointer); ok {
				if nm, ok := p.Elem().(*types.Named); ok && nm.Obj().Pkg() != nil && nm.Obj().Pkg().Path() != modPath {
					return true
				}
			}
		}
	}
	return false
}

// recursive is a call of a function that is being evaluated.
func (fr *frame) recursive(s *frame, f *ssa.Function, args []*Term, st *State) (*Term, *Term) {
	ev := fr.ev
	if len(args) > 0 {
		// rendering of a type into a buffer
		if tn, buf, ok := renArgs(f, args); ok {
			ev.prog.renCores[f] = true
			ev.emit(bufAddr(buf), mk("str", "", tn), st)
			return nil, nil
		}
		if f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) && len(args) == 1 && isTypeName(f.Signature.Params(), 0) {
			return mk("str", "", args[0]), nil
		}
	}
	if ev.rootRole != "" {
		// express it as a call of what is being analysed
		rargs := append([]*Term(nil), ev.rootArgs...)
		used := make([]bool, len(rargs))
		ok := true
		for i, a := range s.args {
			if a == args[i] {
				continue
			}
			found := false
			for j, ra := range ev.rootArgs {
				if ra == a && !used[j] {
					rargs[j] = args[i]
					used[j] = true
					found = true
					break
				}
			}
			if !found {
				ok = false
			}
		}
		if ok {
			return fr.roleCall(ev.rootRole, f, rargs, st)
		}
	}
	if ev.coreRec != "" && s == ev.stack[0] {
		return fr.opaque(ev.coreRec, f.Signature, args, st)
	}
	giveUp("recursive call of %s", f)
	return nil, nil
}

func (fr *frame) opaque(name string, sig *types.Signature, args []*Term, st *State) (*Term, *Term) {
	r := mk("call", name, fr.reifyArgs(args, st)...)
	fr.ev.event(r, st)
	return fr.opaqueResult(r, sig), nil
}

// roleCall is a call of an operation of the exported interface, which is
// described by its own properties.
func (fr *frame) roleCall(role string, f *ssa.Function, args []*Term, st *State) (*Term, *Term) {
	ev := fr.ev
	rf := ev.prog.roles[role]
	if renderRoles[role] {
		// text that depends on what was qualified before
		var rest []*Term
		var buf *Term
		for i, a := range args {
			if buf == nil && isWriterT(rf.Params[i].Type()) {
				buf = a
				continue
			}
			rest = append(rest, fr.reifyArg(a, st))
		}
		if buf == nil || rf.Signature.Results().Len() > 0 {
			giveUp("rendering operation %s has an unexpected signature", role)
		}
		before := mapLeaves(ev.get(evKey, st), func(l *Term) *Term { return eventsOf(l, rest[0]) })
		ev.emit(bufAddr(buf), mk("emitted", role, append(rest, before)...), st)
		return nil, nil
	}
	rargs := fr.reifyArgs(args, st)
	if copyingRoles[role] {
		for i, a := range rargs {
			rargs[i] = sameContent(a)
		}
	}
	r := mk("call", "gopoet."+role, rargs...)
	if effectRoles[role] {
		ev.eventOnce(r, st)
	}
	if nonNilRoles[role] {
		nonNilResult[r] = true
	}
	if alts := ev.prog.returnedTypes(rf); len(alts) > 0 {
		resultAlts[r] = alts
	}
	res := fr.opaqueResult(r, rf.Signature)
	if role == "(*Imports).RegisterImport" {
		// by its own obligation: empty, or a name that is followed by a dot
		res = mapLeaves(res, func(x *Term) *Term {
			return ite(mk("eq", "", Empty, x), Empty, text(x, strTerm(".")))
		})
	}
	return res, nil
}

// returnedTypes lists the types of what f puts into its only result, which is
// an interface, or nothing if it may be something else.
func (p *Program) returnedTypes(f *ssa.Function) []string {
	if r, ok := p.retTypes[f]; ok {
		return r
	}
	if p.retTypes == nil {
		p.retTypes = map[*ssa.Function][]string{}
	}
	p.retTypes[f] = nil
	if res := f.Signature.Results(); res.Len() != 1 || !types.IsInterface(res.At(0).Type()) || f.Blocks == nil {
		return nil
	}
	found := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeInterface:
			found[typeKey(v.X.Type())] = true
			return true
		case *ssa.ChangeInterface:
			return from(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !from(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && isOurs(g) {
				for _, k := range p.returnedTypes(g) {
					found[k] = true
				}
				return len(p.returnedTypes(g)) > 0
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		if b == f.Recover {
			return nil
		}
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !from(ret.Results[0]) {
			return nil
		}
	}
	p.retTypes[f] = slices.Sorted(maps.Keys(found))
	return p.retTypes[f]
}

// eventsOf selects the operations on x: what is rendered depends on whether it
// was qualified before.
func eventsOf(list, x *Term) *Term {
	isQualify := func(c *Term) bool {
		return c.op == "call" && effectRoles[strings.TrimPrefix(c.aux, "gopoet.")] && strings.HasSuffix(c.aux, ").qualify")
	}
	var out []*Term
	for _, p := range pieces(list) {
		switch p.op {
		case "elem":
			out = append(out, mapLeaves(p.args[0], func(c *Term) *Term {
				if isQualify(c) && c.args[0] == x {
					return mk("elem", "", c)
				}
				return LNil
			}))
		case "for":
			h := bodyHeight(p)
			var idx *Term
			for _, l := range leavesOf(p.args[1]) {
				for _, q := range pieces(l) {
					if q.op == "elem" && isQualify(q.args[0]) && idx == nil {
						idx = matchBV(q.args[0].args[0], x, h)
					}
				}
			}
			if idx != nil {
				body := mapLeaves(openBody(p, idx), func(l *Term) *Term { return eventsOf(l, x) })
				out = append(out, ite(mk("lt", "", idx, p.args[0]), body, LNil))
			}
		default:
			out = append(out, p)
		}
	}
	return mk("lcat", "", out...)
}

// copyingRoles keep copies of the lists they are given, so that it does not
// matter whether a caller passes a list or a copy of it (P31).
var copyingRoles = map[string]bool{
	"FuncType": true, "FuncTypeVariadic": true, "FuncTypeFromSig": true,
	"StructType": true, "InterfaceType": true,
}

// allOf is the list that has exactly these elements, where the lengths of
// lists are known.
func allOf(l *Term) *Term {
	var x *Term
	ps := pieces(l)
	for i, p := range ps {
		if p.op != "elem" || p.args[0].op != "load" || p.args[0].args[0].op != "ia" {
			return nil
		}
		a := p.args[0].args[0]
		if x == nil {
			x = a.args[0]
		}
		if a.args[0] != x || a.args[1] != intTerm(int64(i)) {
			return nil
		}
	}
	if x != nil && instanceLen(x) == intTerm(int64(len(ps))) {
		return x
	}
	return nil
}

// sameContent replaces copies of lists by the lists.
func sameContent(t *Term) *Term {
	if len(t.args) == 0 || binderBody(t.op) >= 0 {
		return t
	}
	if t.op == "ite" {
		return ite(t.args[0], sameContent(t.args[1]), sameContent(t.args[2]))
	}
	if t.op == "seq" {
		switch l := t.args[0]; l.op {
		case "lnil":
			return Nil
		case "spread":
			return sameContent(l.args[0])
		default:
			if x := allOf(l); x != nil {
				return sameContent(x)
			}
		}
		return t
	}
	if t.obj || !mentionsSeq(t) {
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = sameContent(a)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	return mk(t.op, t.aux, args...)
}

// eventOnce records an idempotent effect.
func (ev *Eval) eventOnce(e *Term, st *State) {
	for _, l := range leavesOf(e) {
		if l.op == "call" {
			cond := mapLeaves(e, func(x *Term) *Term { return boolTerm(x == l) })
			old := ev.get(evKey, st)
			el := mk("elem", "", l)
			nv := mapLeaves(old, func(o *Term) *Term {
				for _, p := range pieces(o) {
					if p == el {
						return o
					}
				}
				return mk("lcat", "", o, el)
			})
			st.m[evKey] = ite(cond, nv, old)
		}
	}
}

// reifyArgs replaces objects made here by their content.
func (fr *frame) reifyArgs(args []*Term, st *State) []*Term {
	ev := fr.ev
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = fr.reifyArg(a, st)
		_ = ev
	}
	return out
}

func (fr *frame) reifyArg(a *Term, st *State) *Term {
	ev := fr.ev
	return mapLeaves(a, func(l *Term) *Term {
		switch l.op {
		case "closure", "func":
			return ev.funcValue(l, st)
		case "sl":
			if l.args[0].op == "alloc" || l.args[0].op == "seq" {
				return ev.reify(l, st)
			}
		}
		if l.obj || l.op == "seq" || mentionsSeq(l) {
			return ev.reify(l, st)
		}
		return l
	})
}

// funcValue describes a function that is passed to code not analysed here.
func (ev *Eval) funcValue(l *Term, st *State) *Term {
	var fn *ssa.Function
	var binds []*Term
	if l.op == "closure" {
		ci := ev.closures[l]
		fn, binds = ci.fn, ci.bind
	} else {
		fn = ev.prog.byName[l.aux]
	}
	if fn == nil || !isOurs(fn) && fn.Synthetic == "" || fn.Blocks == nil {
		return l
	}
	for _, s := range ev.stack {
		if s.fn == fn {
			giveUp("recursive function value %s", fn)
		}
	}
	var temps []*Term
	var args []*Term
	for _, p := range fn.Params {
		t := newTemp()
		temps = append(temps, t)
		a := t
		if isBool(p.Type()) {
			a = mk("b", "", t)
		}
		if types.IsInterface(p.Type()) {
			resultType[t] = p.Type()
		}
		args = append(args, a)
	}
	st2 := st.clone()
	delete(st2.m, evKey)
	r := ev.call(fn, args, binds, st2)
	t := ev.outcome(r, st2)
	for i := len(temps) - 1; i >= 0; i-- {
		t = internLam(bind(t, temps[i]))
	}
	return t
}

// outcome folds the results and effects of a call into one term.
func (ev *Eval) outcome(r Result, before *State) *Term {
	if r.st == nil || r.panicC == True {
		return intern("panics", "")
	}
	var parts []*Term
	parts = append(parts, r.panicC)
	for _, v := range r.vals {
		parts = append(parts, constrain(ev.reify(v, r.st), not(r.panicC)))
	}
	for _, k := range sortedKeys(r.st.m) {
		v := r.st.m[k]
		if old, ok := before.m[k]; ok && old == v {
			continue
		}
		if rootOfKey(k).op == "alloc" {
			if _, ok := before.m[k]; !ok {
				continue
			}
		}
		if v == ev.initial(k, before) {
			continue
		}
		parts = append(parts, intern("effect", "", ev.reify(k, r.st), ev.reify(v, r.st)))
	}
	return intern("outcome", "", parts...)
}

// ---------- rendering of types ----------

func isTypeNameT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "TypeName" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath
}

func isTypeName(t *types.Tuple, i int) bool { return i < t.Len() && isTypeNameT(t.At(i).Type()) }

func isBufPtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "bytes.Buffer" || s == "strings.Builder"
}

func isWriterT(t types.Type) bool {
	if isBufPtr(t) {
		return true
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "io" && strings.HasSuffix(n.Obj().Name(), "Writer")
}

// renArgs: a function of exactly a type and a buffer, without results.
func renArgs(f *ssa.Function, args []*Term) (tn, buf *Term, ok bool) {
	if f.Signature.Results().Len() != 0 || len(f.Params) != 2 || len(args) != 2 {
		return nil, nil, false
	}
	for i := 0; i < 2; i++ {
		if isTypeNameT(f.Params[i].Type()) && isWriterT(f.Params[1-i].Type()) {
			return args[i], args[1-i], true
		}
	}
	return nil, nil, false
}

func bufAddr(b *Term) *Term {
	return mapLeaves(b, func(x *Term) *Term {
		if x.op == "iface" {
			return x.args[0]
		}
		return x
	})
}

// isRen: f renders a type and is not itself under analysis.
func (ev *Eval) isRen(f *ssa.Function, args []*Term) bool {
	if !ev.prog.renCores[f] || ev.inCore {
		return false
	}
	_, _, ok := renArgs(f, args)
	return ok
}

func (fr *frame) renCall(f *ssa.Function, args []*Term, st *State) (*Term, *Term) {
	tn, buf, _ := renArgs(f, args)
	fr.ev.emit(bufAddr(buf), mk("str", "", tn), st)
	return nil, nil
}

// ---------- interface calls ----------

func (fr *frame) invoke(c *ssa.CallCommon, recv *Term, args []*Term, st *State, pc *Term) (*Term, *Term) {
	ev := fr.ev
	m := c.Method
	if recv == Nil || recv == Undef {
		return Undef, True
	}
	if recv.op == "rtype" || recv.op == "rtdyn" {
		return fr.rtypeMethod(m, recv, args)
	}
	if recv.op == "iface" {
		t := typeReg[recv.aux]
		if f := ev.prog.method(t, m); f != nil {
			return fr.static(f, append([]*Term{recv.args[0]}, args...), nil, st, pc)
		}
		if m.Pkg() == nil || m.Pkg().Path() != modPath {
			sel := types.NewMethodSet(t).Lookup(m.Pkg(), m.Name())
			if sel != nil {
				return fr.foreignMethod(m.Name(), sel.Obj().Pkg(), c.Signature(), recv.args[0], args, st, t)
			}
		}
	}
	fr.crashNil(recv)
	it := c.Value.Type()
	impls := ev.prog.implementers(it, m)
	if len(impls) > 0 {
		// only types of this package can be in the interface
		if s := resultType[recv]; s == nil {
			resultType[recv] = it
		}
	} else {
		impls = fr.knownTypes(it, m, recv, pc)
	}
	if len(impls) > 0 {
		var edges []edge
		var vals []*Term
		pan, rest := False, True
		for _, t := range impls {
			key := typeKey(t)
			cond := and(rest, mk("is", key, recv))
			if cond == False {
				continue
			}
			rest = and(rest, not(mk("is", key, recv)))
			st2 := st.clone()
			v, p := fr.static(ev.prog.method(t, m), append([]*Term{mk("unwrap", key, recv)}, args...), nil, st2, and(pc, cond))
			if p != nil {
				pan = or(pan, and(cond, p))
			}
			edges = append(edges, edge{pc: cond, st: st2})
			vals = append(vals, v)
		}
		var res *Term
		if c.Signature().Results().Len() > 0 {
			res = Undef
			for i := len(vals) - 1; i >= 0; i-- {
				res = iteTup(edges[i].pc, vals[i], res)
			}
		}
		if rest != False {
			edges = append(edges, edge{pc: rest, st: st.clone()})
		}
		st.m = ev.mergeStates(edges).clone().m
		return res, pan
	}
	return fr.foreignMethodI(m, it, c.Signature(), recv, args, st)
}

// knownTypes: the types of this package that the value can have, if it is
// known under pc to have one of them.
func (fr *frame) knownTypes(it types.Type, m *types.Func, recv, pc *Term) (out []types.Type) {
	if m.Pkg() == nil || m.Pkg().Path() != modPath || pureIface(m.Name()) || m.Name() == "String" || recv.op == "ite" {
		return nil
	}
	iface := it.Underlying().(*types.Interface)
	rest := pc
	scope := fr.ev.prog.pkg.Types.Scope()
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			if !types.Implements(t, iface) || fr.ev.prog.method(t, m) == nil {
				continue
			}
			is := mk("is", typeKey(t), recv)
			if and(pc, is) != False {
				out = append(out, t)
				rest = and(rest, not(is))
			}
		}
	}
	if rest != False {
		return nil
	}
	return out
}

// implementers: the types that a value of an interface that only this package
// can implement may have.
func (p *Program) implementers(it types.Type, m *types.Func) []types.Type {
	if pureIface(m.Name()) || m.Name() == "String" {
		return nil
	}
	out := p.alternatives(it)
	for _, t := range out {
		if types.IsInterface(t) || p.method(t, m) == nil {
			return nil
		}
	}
	return out
}

// alternatives: the types of this package that are in a sealed interface.
func (p *Program) alternatives(it types.Type) []types.Type {
	n, ok := it.(*types.Named)
	if !ok || isTypeNameT(it) || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath || sealed(it) == nil {
		return nil
	}
	if r, ok := p.alts[n]; ok {
		return r
	}
	iface := it.Underlying().(*types.Interface)
	var out []types.Type
	scope := p.pkg.Types.Scope()
	var covers []*types.Interface
	for _, name := range scope.Names() {
		if tn, ok := scope.Lookup(name).(*types.TypeName); ok && types.IsInterface(tn.Type()) && !types.Identical(tn.Type(), it) && types.Implements(tn.Type(), iface) {
			covers = append(covers, tn.Type().Underlying().(*types.Interface))
			out = append(out, tn.Type())
		}
	}
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			covered := false
			for _, c := range covers {
				covered = covered || types.Implements(t, c)
			}
			if types.Implements(t, iface) && !covered {
				out = append(out, t)
			}
		}
	}
	if p.alts == nil {
		p.alts = map[*types.Named][]types.Type{}
	}
	p.alts[n] = out
	return out
}

func (fr *frame) foreignMethodI(m *types.Func, it types.Type, sig *types.Signature, recv *Term, args []*Term, st *State) (*Term, *Term) {
	pkg := m.Pkg()
	if m.Name() == "String" && sig.Params().Len() == 0 || m.Name() == "Error" && sig.Params().Len() == 0 {
		return mk("str", "", fr.reifyArg(recv, st)), nil
	}
	return fr.foreignMethod(m.Name(), pkg, sig, recv, args, st, it)
}

// foreignMethod is a method call that is not analysed further.
func (fr *frame) foreignMethod(name string, pkg *types.Package, sig *types.Signature, recv *Term, args []*Term, st *State, rt types.Type) (*Term, *Term) {
	ev := fr.ev
	pn := ""
	if pkg != nil {
		pn = pkg.Path()
	}
	recv = mapLeaves(recv, func(x *Term) *Term { return stripEmbedded(x) })
	if name == "String" && sig.Params().Len() == 0 {
		return mk("str", "", fr.reifyArg(recv, st)), nil
	}
	if pn == modPath {
		pn = "gopoet"
		if pureIface(name) {
			r := mk("invoke", pn+"."+name, append([]*Term{fr.reifyArg(recv, st)}, fr.reifyArgs(args, st)...)...)
			return fr.opaqueResult(r, sig), nil
		}
		// writing to a buffer
		for i := 0; i < sig.Params().Len(); i++ {
			if isWriterT(sig.Params().At(i).Type()) && sig.Results().Len() == 0 {
				e := mk("emitted", name, fr.reifyArg(recv, st))
				rest := []*Term{e}
				for j, a := range args {
					if j != i {
						rest = append(rest, fr.reifyArg(a, st))
					}
				}
				if len(rest) > 1 {
					e = mk("emitted", name, append([]*Term{fr.reifyArg(recv, st)}, rest[1:]...)...)
				}
				ev.emit(bufAddr(args[i]), e, st)
				return nil, nil
			}
		}
		r := mk("invoke", pn+"."+name, append([]*Term{fr.reifyArg(recv, st)}, fr.reifyArgs(args, st)...)...)
		ev.event(r, st)
		return fr.opaqueResult(r, sig), nil
	}
	if pn == "go/types" && name == "Embedded" && len(args) == 0 {
		// two names of one method of *types.Var
		name = "Anonymous"
	}
	r0 := fr.reifyArg(recv, st)
	if pn == "go/types" && sig.Recv() != nil && sig.Recv().Type().String() == "*go/types.Named" {
		// the embedded types that are named, in two ways
		r0 = mapLeaves(r0, func(x *Term) *Term {
			if x.op == "invoke" && x.aux == "go/types.EmbeddedType" {
				return mk("invoke", "go/types.Embedded", x.args...)
			}
			return x
		})
	}
	r := mk("invoke", pn+"."+name, append([]*Term{r0}, fr.reifyWithout(args, st)...)...)
	if !purePkg(pn) && name != "Error" {
		fr.written(r, args, st)
		ev.event(r, st)
	}
	return fr.opaqueResult(r, sig), nil
}

// reifyWithout: which buffer is written to does not matter to the one that writes.
func (fr *frame) reifyWithout(args []*Term, st *State) []*Term {
	out := fr.reifyArgs(args, st)
	for i, a := range args {
		if isBufTerm(a) {
			out[i] = intern("writer", "")
		}
	}
	return out
}

// written: the call r has written to the buffers among its arguments.
func (fr *frame) written(r *Term, args []*Term, st *State) {
	for _, a := range args {
		if isBufTerm(a) {
			fr.ev.emit(bufAddr(a), mk("emitted", "", r), st)
		}
	}
}

// pureIface: methods of our interfaces that only read (the methods of
// TypeName, which are described by their own properties).
func pureIface(name string) bool {
	switch name {
	case "Kind", "Symbol", "Elem", "Key", "Len", "Dir", "BasicKind", "Signature", "Fields", "Methods", "Embeds":
		return true
	}
	return strings.HasPrefix(name, "is")
}

func stripEmbedded(x *Term) *Term {
	for {
		switch x.op {
		case "fa":
			// promoted through an embedded field of a foreign struct
			if x.aux == "object" || x.aux == "_type" {
				x = x.args[0]
				continue
			}
		case "unwrap":
			x = x.args[0]
			continue
		case "iface":
			x = x.args[0]
			continue
		}
		return x
	}
}

func purePkg(p string) bool {
	switch p {
	case "strings", "strconv", "unicode", "unicode/utf8", "path", "path/filepath", "go/token", "go/types", "reflect", "errors", "go/format", "math", "go/constant", "unsafe", "sort", "bytes", "fmt", "cmp", "slices", "maps", "go/ast", "go/scanner":
		return true
	}
	return false
}

// ---------- builtins ----------

func (fr *frame) builtin(c *ssa.CallCommon, name string, args []*Term, st *State) (*Term, *Term) {
	ev := fr.ev
	switch name {
	case "len":
		t := c.Args[0].Type().Underlying()
		if isString(t) {
			return mk("slen", "", args[0]), nil
		}
		switch u := t.(type) {
		case *types.Map:
			return mapLeaves(args[0], func(l *Term) *Term {
				m := ev.mapContent(l, st)
				mapTerm[m] = true
				return mk("len", "", m)
			}), nil
		case *types.Array:
			return intTerm(u.Len()), nil
		case *types.Pointer:
			return intTerm(u.Elem().Underlying().(*types.Array).Len()), nil
		}
		return ev.lenOf(args[0], st), nil
	case "cap":
		return mk("cap", "", fr.reifyArg(args[0], st)), nil
	case "append":
		if isByteSlice(c.Args[0].Type()) && len(c.Args) > 1 {
			return fr.appendBytes(c, args, st), nil
		}
		if len(args) < 2 {
			return args[0], nil
		}
		if d := args[0]; d.op == "sl" && d.args[1] == Zero && d.args[2] == Zero && d.args[0] == args[1] {
			return args[1], nil // append(x[:0], x...) is x itself
		}
		r := fr.appendTo(args[0], args[1], elemOf(c.Args[0].Type()), st)
		if ev.prog.materialise[c] {
			return fr.newList(c.Args[0].Type(), r, st), nil
		}
		for _, l := range leavesOf(r) {
			if l.op == "seq" {
				ev.noteAppend(l, c, st)
			}
		}
		return r, nil
	case "copy":
		fr.copyTo(args[0], args[1], elemOf(c.Args[0].Type()), st)
		return mk("copied", "", fr.reifyArg(args[0], st), fr.reifyArg(args[1], st)), nil
	case "delete":
		for _, l := range leavesOf(args[0]) {
			if l == Nil {
				continue
			}
			k := mk("mapof", "", l)
			cond := mapLeaves(args[0], func(x *Term) *Term { return boolTerm(x == l) })
			old := ev.get(k, st)
			st.m[k] = ite(cond, mk("del", "", old, args[1]), old)
		}
		return nil, nil
	case "recover":
		if ev.panicking != nil && ev.panicking == fr.fn {
			r := intern("panicValue", "")
			resultType[r] = types.NewInterfaceType(nil, nil)
			nonNilResult[r] = true
			return r, nil
		}
		return Nil, nil
	case "ssa:wrapnilchk", "wrapnilchk":
		return args[0], nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			l := mk("lt", "", a, r)
			if name == "max" {
				l = mk("lt", "", r, a)
			}
			r = ite(l, a, r)
		}
		return r, nil
	case "clear":
		for _, l := range leavesOf(args[0]) {
			if l != Nil {
				st.m[mk("mapof", "", l)] = intern("mnil", "")
			}
		}
		return nil, nil
	case "print", "println", "close":
		ev.event(mk("builtin", name, fr.reifyArgs(args, st)...), st)
		return nil, nil
	}
	giveUp("builtin %s", name)
	return nil, nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (fr *frame) appendBytes(c *ssa.CallCommon, args []*Term, st *State) *Term {
	tx := func(x *Term) *Term {
		return mapLeaves(x, func(l *Term) *Term {
			if l == Nil {
				return Empty
			}
			if l.op == "bytes" {
				return l.args[0]
			}
			if l.op == "alloc" || l.op == "seq" || l.op == "sl" {
				// individual bytes
				var ps []*Term
				for _, p := range pieces(fr.ev.listOf(l, st)) {
					if p.op == "elem" {
						if p.args[0].isInt() {
							ps = append(ps, strTerm(string([]byte{byte(p.args[0].intVal())})))
						} else {
							ps = append(ps, mk("bytetext", "", p.args[0]))
						}
						continue
					}
					ps = append(ps, mk("bytestext", "", p))
				}
				return mkCat(ps)
			}
			return mk("string", "[]byte", l)
		})
	}
	var b *Term
	if isString(c.Args[1].Type()) {
		b = args[1]
	} else {
		b = tx(args[1])
	}
	return mk("bytes", "", mk("cat", "", tx(args[0]), b))
}

func (fr *frame) listPiece(x *Term, et types.Type, st *State) *Term {
	ev := fr.ev
	return mapLeaves(x, func(l *Term) *Term {
		if l == Nil {
			return LNil
		}
		if p := ev.listOf(l, st); p != nil {
			return p
		}
		if et != nil && storedTo(l, st) {
			tmp := newTemp()
			v := ev.load1(mk("ia", "", l, tmp), et, st)
			return mk("for", "l", ev.lenOf(l, st), bind(mk("elem", "", v), tmp))
		}
		return mk("spread", "", l)
	})
}

func (fr *frame) appendTo(s, t *Term, et types.Type, st *State) *Term {
	return mk("seq", "", mk("lcat", "", fr.listPiece(s, et, st), fr.listPiece(t, et, st)))
}

// newList: the result of an append as a slice of its own, whose elements can
// be changed.
func (fr *frame) newList(t types.Type, r *Term, st *State) *Term {
	return mapLeaves(r, func(r *Term) *Term {
		if r.op != "seq" {
			return r
		}
		a := fr.ev.newAlloc(t)
		st.m[intern("lenof", "", a)] = mk("len", "", r)
		st.m[intern("content", "", a)] = r.args[0]
		return a
	})
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

// noteAppend remembers which append made a sequence. A slice is a value as long
// as its elements are not changed; one that is changed must not be taken for
// another with the same elements.
func (ev *Eval) noteAppend(l *Term, c *ssa.CallCommon, st *State) {
	if ev.seqSite[l] != nil {
		ev.seqTwice[l] = true
	}
	ev.seqSite[l] = c
	for k := range st.m {
		q := k
		if q.op == "all" {
			q = q.args[1]
		}
		for q.op == "fa" {
			q = q.args[0]
		}
		if (q.op == "ia" || q.op == "newlist") && q.args[0] == l {
			panic(needList{c})
		}
	}
}

func (fr *frame) copyTo(dst, src *Term, et types.Type, st *State) {
	ev := fr.ev
	ls := leavesOf(dst)
	for _, d := range ls {
		if d == Nil || d == Undef {
			continue
		}
		cond := mapLeaves(dst, func(x *Term) *Term { return boolTerm(x == d) })
		base, off := d, Zero
		if d.op == "sl" {
			base, off = d.args[0], d.args[1]
		}
		if base.op != "alloc" {
			ev.event(mk("copy", "", fr.reifyArg(d, st), fr.reifyArg(src, st)), st)
			continue
		}
		dn := ev.lenOf(d, st)
		sn := mapLeaves(src, func(l *Term) *Term { return ev.lenOf(l, st) })
		list := fr.listPiece(src, et, st)
		if dn != sn {
			// min of the two
			if sub := subListTo(list, dn); sub != nil {
				list, sn = sub, dn
			} else if !nonneg(mk("minus", "", dn, sn)) {
				giveUp("a copy to a list that may be shorter")
			}
		}
		// forget single elements that are overwritten
		var k *Term
		if off == Zero && dn == sn && base == d {
			for kk := range st.m {
				q := kk
				for q.op == "fa" {
					q = q.args[0]
				}
				if q.op == "ia" && q.args[0] == base || kk.op == "region" && kk.args[0] == base {
					delete(st.m, kk)
				}
			}
			k = intern("content", "", base)
		} else {
			for kk := range st.m {
				q := kk
				for q.op == "fa" {
					q = q.args[0]
				}
				if q.op == "ia" && q.args[0] == base && mk("lt", "", q.args[1], off) != True && mk("lt", "", q.args[1], add(off, sn)) != False {
					if cond == True && mk("lt", "", q.args[1], off) == False && mk("lt", "", q.args[1], add(off, sn)) == True {
						delete(st.m, kk)
						continue
					}
					giveUp("a copy over an element that was stored")
				}
			}
			k = intern("region", "", base, off, sn)
		}
		if cond == True {
			st.m[k] = list
		} else {
			st.m[k] = ite(cond, list, ev.get(k, st))
		}
	}
}

func subListTo(l, n *Term) *Term {
	if l.op == "ite" {
		return nil
	}
	return subList(l, Zero, n)
}

// ---------- functions of other packages ----------

func typePath(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func (fr *frame) foreign(f *ssa.Function, args []*Term, st *State, pc *Term) (*Term, *Term) {
	ev := fr.ev
	recv := f.Signature.Recv()
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
		f = o
	}
	if recv != nil {
		tp := typePath(recv.Type())
		switch tp {
		case "bytes.Buffer", "strings.Builder":
			if v, p, ok := fr.bufMethod(f.Name(), args, st); ok {
				return v, p
			}
		case "reflect.Value":
			if ev.absReflect {
				return fr.absReflectMethod(f, args, st, pc)
			}
			return fr.reflectMethod(f, args, st)
		case "reflect.StructTag":
			if len(args) == 2 && args[0].isStr() && args[1].isStr() {
				v, ok := reflect.StructTag(args[0].str()).Lookup(args[1].str())
				switch f.Name() {
				case "Get":
					return strTerm(v), nil
				case "Lookup":
					return mk("tup", "", strTerm(v), boolTerm(ok)), nil
				}
			}
		case "reflect.StructField":
			if f.Name() == "IsExported" && !isPtr(recv.Type()) {
				return mk("eq", "", Empty, mk("field", "PkgPath", args[0])), nil
			}
		}
		sel := f.Object()
		return fr.foreignMethod(f.Name(), sel.Pkg(), f.Signature, args[0], args[1:], st, recv.Type())
	}
	name := pkg + "." + f.Name()
	if ev.absReflect && pkg == "reflect" {
		if v, p, ok := fr.absReflectFunc(name, f, args, st, pc); ok {
			return v, p
		}
	}
	switch name {
	case "fmt.Sprintf":
		return fr.sprintf(args[0], args[1], st), nil
	case "fmt.Sprint":
		return fr.sprint(args[0], st, false), nil
	case "fmt.Sprintln":
		return mk("cat", "", fr.sprint(args[0], st, true), strTerm("\n")), nil
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		w := args[0]
		var t *Term
		switch f.Name() {
		case "Fprintf":
			t = fr.sprintf(args[1], args[2], st)
		case "Fprint":
			t = fr.sprint(args[1], st, false)
		case "Fprintln":
			t = mk("cat", "", fr.sprint(args[1], st, true), strTerm("\n"))
		default:
			t = args[1]
		}
		return fr.writeText(w, t, st), nil
	case "errors.New":
		return mk("iface", typeKey(types.Universe.Lookup("error").Type()), mk("errorf", "", args[0])), nil
	case "fmt.Errorf":
		return mk("newerror", "", fr.sprintf(args[0], args[1], st)), nil
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Sort", "sort.Stable", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		fr.sortCall(name, args, st)
		return nil, nil
	case "reflect.ValueOf":
		return mapLeaves(args[0], func(l *Term) *Term { return mk("rval", "", fr.reifyForReflect(l, st)) }), nil
	case "reflect.DeepEqual":
		return mk("b", "", mk("call", name, fr.reifyArgs(args, st)...)), nil
	case "strings.Map":
		return mk("call", name, fr.reifyArgs(args, st)...), nil
	case "strings.Join":
		// the elements of the slice, with separators
		return mapLeaves(args[0], func(l *Term) *Term {
			if l == Nil {
				return Empty
			}
			return mk("joined", "", fr.listPiece(l, nil, st), args[1])
		}), nil
	case "bytes.NewBuffer", "bytes.NewBufferString":
		a := ev.newAlloc(f.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		init := Empty
		if args[0] != Nil {
			init = args[0]
			if name == "bytes.NewBuffer" {
				init = bytesText(args[0], st, fr)
			}
		}
		st.m[intern("bufof", "", a)] = init
		return a, nil
	case "os.Exit":
		ev.event(mk("call", name, args...), st)
		return nil, True
	}
	r := mk("call", name, fr.reifyWithout(args, st)...)
	if !purePkg(pkg) || effectFuncs[name] {
		fr.written(r, args, st)
		ev.event(r, st)
	}
	return fr.opaqueResult(r, f.Signature), nil
}

var effectFuncs = map[string]bool{"reflect.Copy": true, "reflect.Swapper": true}

func isBufTerm(t *Term) bool {
	for _, l := range leavesOf(t) {
		if l.op == "iface" && (strings.HasSuffix(l.aux, "bytes.Buffer") || strings.HasSuffix(l.aux, "strings.Builder")) {
			return true
		}
	}
	return false
}

func (fr *frame) reifyForReflect(l *Term, st *State) *Term {
	// identity of slices matters
	if l.op == "iface" {
		x := l.args[0]
		if _, ok := typeReg[l.aux].Underlying().(*types.Slice); ok {
			n := mapLeaves(x, func(y *Term) *Term { return fr.ev.lenOf(y, st) })
			return intern("rslice", l.aux, x, n)
		}
	}
	return fr.reifyArg(l, st)
}

func (fr *frame) writeText(w, t *Term, st *State) *Term {
	ev := fr.ev
	for _, l := range leavesOf(w) {
		b := bufAddr(l)
		cond := mapLeaves(w, func(x *Term) *Term { return boolTerm(x == l) })
		if isBufTerm(l) {
			if cond == True {
				ev.emit(b, t, st)
			} else {
				ev.emit(b, ite(cond, t, Empty), st)
			}
			continue
		}
		r := mk("invoke", "io.Write", l, mk("bytes", "", t))
		ev.event(r, st)
		return mk("tup", "", mk("ext", "0", r), mk("ext", "1", r))
	}
	return mk("tup", "", mk("slen", "", t), Nil)
}

func (fr *frame) bufMethod(name string, args []*Term, st *State) (*Term, *Term, bool) {
	ev := fr.ev
	b := args[0]
	cur := func() *Term {
		return mapLeaves(b, func(l *Term) *Term { return ev.get(intern("bufof", "", l), st) })
	}
	setTo := func(v *Term) {
		for _, l := range leavesOf(b) {
			k := intern("bufof", "", l)
			cond := mapLeaves(b, func(x *Term) *Term { return boolTerm(x == l) })
			st.m[k] = ite(cond, v, ev.get(k, st))
		}
	}
	switch name {
	case "WriteString":
		ev.emit(b, args[1], st)
		return mk("tup", "", mk("slen", "", args[1]), Nil), nil, true
	case "WriteRune":
		t := runeText(args[1])
		ev.emit(b, t, st)
		return mk("tup", "", mk("slen", "", t), Nil), nil, true
	case "WriteByte":
		t := mapLeaves(args[1], func(x *Term) *Term {
			if x.isInt() {
				return strTerm(string([]byte{byte(x.intVal())}))
			}
			return mk("bytetext", "", x)
		})
		ev.emit(b, t, st)
		return Nil, nil, true
	case "Write":
		t := bytesText(args[1], st, fr)
		ev.emit(b, t, st)
		return mk("tup", "", mk("slen", "", t), Nil), nil, true
	case "String":
		return cur(), nil, true
	case "Bytes":
		return mk("bytes", "", cur()), nil, true
	case "Len":
		return mk("slen", "", cur()), nil, true
	case "Reset":
		setTo(Empty)
		return nil, nil, true
	case "Truncate":
		setTo(mk("sslice", "", cur(), Zero, args[1]))
		return nil, nil, true
	case "Grow":
		return nil, nil, true
	}
	return nil, nil, false
}

func bytesText(x *Term, st *State, fr *frame) *Term {
	return mapLeaves(x, func(l *Term) *Term {
		if l == Nil {
			return Empty
		}
		if l.op == "bytes" {
			return l.args[0]
		}
		if l.op == "alloc" || l.op == "seq" {
			var ps []*Term
			for _, p := range pieces(fr.ev.listOf(l, st)) {
				if p.op == "elem" && p.args[0].isInt() {
					ps = append(ps, strTerm(string([]byte{byte(p.args[0].intVal())})))
				} else {
					ps = append(ps, mk("bytestext", "", p))
				}
			}
			return mkCat(ps)
		}
		return mk("string", "[]byte", l)
	})
}

// ---------- formatting ----------

// variadic returns the operands packed by the compiler, or nil if the slice
// comes from elsewhere.
func (fr *frame) variadic(s *Term, st *State) ([]*Term, bool) {
	if s == Nil {
		return nil, true
	}
	if s.op == "ite" {
		return nil, false
	}
	l := fr.ev.listOf(s, st)
	if l == nil {
		return nil, false
	}
	var out []*Term
	for _, p := range pieces(l) {
		if p.op != "elem" {
			return nil, false
		}
		out = append(out, p.args[0])
	}
	return out, true
}

// withOperands applies f to the operands of a variadic call; ok is false for
// operands whose number is not known.
func (fr *frame) withOperands(s *Term, st *State, f func(ops []*Term, ok bool) *Term) *Term {
	return mapLeaves(fr.listPiece(s, nil, st), func(l *Term) *Term {
		var out []*Term
		for _, p := range pieces(l) {
			if p.op != "elem" {
				return f(nil, false)
			}
			out = append(out, p.args[0])
		}
		return f(out, true)
	})
}

func (fr *frame) sprintf(format, operands *Term, st *State) *Term {
	return fr.withOperands(operands, st, func(ops []*Term, ok bool) *Term {
		return fr.sprintf1(format, operands, ops, ok, st)
	})
}

func (fr *frame) sprintf1(format, operands *Term, ops []*Term, ok bool, st *State) *Term {
	rest := func() *Term {
		if ok && len(ops) == 0 {
			return Nil
		}
		return fr.reifyArg(operands, st)
	}
	return mapLeaves(format, func(f *Term) *Term {
		if !f.isStr() || !ok {
			return mk("sprintf", "", f, rest())
		}
		s := f.str()
		var ps []*Term
		next := 0
		for i := 0; i < len(s); i++ {
			if s[i] != '%' {
				j := strings.IndexByte(s[i:], '%')
				if j < 0 {
					j = len(s) - i
				}
				ps = append(ps, strTerm(s[i:i+j]))
				i += j - 1
				continue
			}
			if i+1 < len(s) && s[i+1] == '%' {
				ps = append(ps, strTerm("%"))
				i++
				continue
			}
			// verb with flags
			j := i + 1
			for j < len(s) && strings.IndexByte("+-# 0123456789.[]*", s[j]) >= 0 {
				j++
			}
			if j >= len(s) || next >= len(ops) || strings.ContainsAny(s[i:j], "[]*") {
				return mk("sprintf", "", f, rest())
			}
			verb := s[i : j+1]
			ps = append(ps, fr.formatted(verb, ops[next], st))
			next++
			i = j
		}
		if next != len(ops) {
			return mk("sprintf", "", f, rest())
		}
		return mk("cat", "", ps...)
	})
}

func (fr *frame) formatted(verb string, v *Term, st *State) *Term {
	return mapLeaves(v, func(x *Term) *Term {
		switch verb {
		case "%s", "%v":
			return fr.textOf(x, st, verb == "%v")
		case "%d":
			if x.op == "iface" {
				if b, ok := typeReg[x.aux].Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					return mk("itoa", "", x.args[0])
				}
			}
		case "%q":
			if x.op == "iface" {
				t := typeReg[x.aux]
				if isString(t) && !hasStringMethod(t) {
					return mk("quote", "", x.args[0])
				}
				if hasStringMethod(t) {
					return mk("quote", "", fr.textOf(x, st, false))
				}
			}
		case "%T":
			if x.op == "iface" {
				return strTerm(types.TypeString(typeReg[x.aux], func(p *types.Package) string { return p.Name() }))
			}
		case "%c":
			if x.op == "iface" {
				if b, ok := typeReg[x.aux].Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					return runeText(x.args[0])
				}
			}
		case "%+v", "%#v", "%x", "%U", "%p":
		}
		return mk("fmt", verb, fr.reifyArg(x, st))
	})
}

// textOfParts is what the %v verb gives for arrays and structs whose parts are
// known.
func (fr *frame) textOfParts(x *Term, t types.Type, st *State) *Term {
	if !fr.ev.absReflect || hasStringMethod(t) {
		return nil
	}
	var parts []*Term
	var ts []types.Type
	open, end := "[", "]"
	switch u := t.Underlying().(type) {
	case *types.Array:
		if x.op != "array" {
			return nil
		}
		parts = x.args
		for range parts {
			ts = append(ts, u.Elem())
		}
	case *types.Struct:
		if x.op != "struct" {
			return nil
		}
		open, end = "{", "}"
		parts = x.args
		for i := range parts {
			if !u.Field(i).Exported() {
				return nil
			}
			ts = append(ts, u.Field(i).Type())
		}
	default:
		return nil
	}
	ps := []*Term{strTerm(open)}
	for i, o := range parts {
		if i > 0 {
			ps = append(ps, strTerm(" "))
		}
		switch ts[i].Underlying().(type) {
		case *types.Basic, *types.Struct, *types.Array:
			o = mk("iface", typeKey(ts[i]), o)
		default:
			return nil
		}
		ps = append(ps, fr.textOf(o, st, true))
	}
	return mk("cat", "", append(ps, strTerm(end))...)
}

// textOf is what the %v and %s verbs give for an operand.
func (fr *frame) textOf(x *Term, st *State, v bool) *Term {
	ev := fr.ev
	if x.op == "iface" && ev.absReflect && isReflectValue(typeReg[x.aux]) {
		// the value it holds is printed
		return mapLeaves(x.args[0], func(l *Term) *Term {
			if l.op != "rv" && l.op != "rvdyn" {
				giveUp("printing of an unknown reflect.Value")
			}
			return fr.formatted("%v", fr.rvIface(l, st), st)
		})
	}
	if x.op == "iface" {
		t := typeReg[x.aux]
		if b, ok := t.Underlying().(*types.Basic); ok && !hasStringMethod(t) {
			switch {
			case b.Info()&types.IsString != 0:
				return x.args[0]
			case b.Info()&types.IsInteger != 0 && v:
				return mk("itoa", "", x.args[0])
			case b.Info()&types.IsBoolean != 0 && v:
				return ite(x.args[0], strTerm("true"), strTerm("false"))
			}
		}
		if sl, ok := t.Underlying().(*types.Slice); ok && v && ev.absReflect && !hasStringMethod(t) && hasStringMethod(sl.Elem()) {
			if ops, ok := fr.variadic(x.args[0], st); ok {
				ps := []*Term{strTerm("[")}
				for i, o := range ops {
					if i > 0 {
						ps = append(ps, strTerm(" "))
					}
					if !types.IsInterface(sl.Elem()) {
						o = mk("iface", typeKey(sl.Elem()), o)
					}
					ps = append(ps, fr.textOf(o, st, v))
				}
				return mk("cat", "", append(ps, strTerm("]"))...)
			}
		}
		if r := fr.textOfParts(x.args[0], t, st); v && r != nil {
			return r
		}
		// a method of ours
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i)
			if m.Obj().Name() == "String" || m.Obj().Name() == "Error" {
				if f := ev.prog.method(t, m.Obj().(*types.Func)); f != nil && isOurs(f) {
					if len(ev.stack) < 30 {
						st2 := st.clone()
						r, _ := fr.static(f, []*Term{x.args[0]}, nil, st2, True)
						if r != nil {
							return r
						}
					}
				}
			}
		}
	}
	return mk("str", "", fr.reifyArg(x, st))
}

func (fr *frame) sprint(operands *Term, st *State, ln bool) *Term {
	return fr.withOperands(operands, st, func(ops []*Term, ok bool) *Term {
		// Sprint writes a space between operands neither of which is a string
		isStr := func(o *Term) (str, known bool) {
			if o == Nil {
				return false, true
			}
			if o.op != "iface" || typeReg[o.aux] == nil {
				return false, false
			}
			b, is := typeReg[o.aux].Underlying().(*types.Basic)
			return is && b.Info()&types.IsString != 0, true
		}
		if ok && !ln {
			for i := range ops[:max(len(ops)-1, 0)] {
				s1, k1 := isStr(ops[i])
				s2, k2 := isStr(ops[i+1])
				ok = ok && (k1 && k2 || s1 || s2)
			}
		}
		if !ok {
			return mk("sprint", "", fr.reifyArg(operands, st))
		}
		var ps []*Term
		for i, o := range ops {
			if i > 0 {
				s1, _ := isStr(ops[i-1])
				s2, _ := isStr(o)
				if ln || !s1 && !s2 {
					ps = append(ps, strTerm(" "))
				}
			}
			ps = append(ps, fr.formatted("%v", o, st))
		}
		return mk("cat", "", ps...)
	})
}

// ---------- sorting ----------

func (fr *frame) sortCall(name string, args []*Term, st *State) {
	ev := fr.ev
	if ev.absReflect && fr.sortKnown(name, args, st) {
		return
	}
	x := args[0]
	x = mapLeaves(x, func(l *Term) *Term {
		if l.op == "iface" {
			return l.args[0]
		}
		if l.op == "conv" {
			return l.args[0]
		}
		return l
	})
	for _, l := range leavesOf(x) {
		if l == Nil {
			continue
		}
		cond := mapLeaves(x, func(y *Term) *Term { return boolTerm(y == l) })
		var list *Term
		isNew := l.op == "alloc" || l.op == "seq"
		if isNew {
			list = ev.listOf(l, st)
		} else {
			list = mk("spread", "", l)
		}
		less := fr.lessTerm(name, l, args, st)
		r := mk("sorted", "", ev.reify(list, st), less)
		if !isNew {
			ev.event(mk("sort", "", l, less), st)
			continue
		}
		for k := range st.m {
			q := k
			if q.op == "all" {
				q = q.args[1]
			}
			for q.op == "fa" {
				q = q.args[0]
			}
			if q.op == "ia" && q.args[0] == l || k.op == "region" && k.args[0] == l {
				delete(st.m, k)
			}
		}
		if l.op == "seq" {
			ev.changeSeq(l)
			k := intern("newlist", "", l)
			v := mk("spread", "", r)
			if cond != True {
				v = ite(cond, v, ev.get(k, st))
			}
			st.m[k] = v
			continue
		}
		k := intern("content", "", l)
		v := mk("spread", "", r)
		if cond != True {
			v = ite(cond, v, ev.get(k, st))
		}
		st.m[k] = v
	}
}

// lessTerm describes the order used for sorting l.
func (fr *frame) lessTerm(name string, l *Term, args []*Term, st *State) *Term {
	ev := fr.ev
	switch name {
	case "sort.Strings", "sort.Ints", "slices.Sort":
		a, b := newTemp(), newTemp()
		t := mk("lt", "", a, b)
		return internLam(bind(internLam(bind(t, b)), a))
	case "sort.Sort", "sort.Stable":
		if args[0].op == "iface" && strings.HasSuffix(args[0].aux, "sort.StringSlice") {
			return fr.lessTerm("sort.Strings", l, args, st)
		}
		if r := fr.sorterLess(l, args[0], st); r != nil {
			return r
		}
		return fr.reifyArg(args[0], st)
	}
	fnv := args[1]
	var fn *ssa.Function
	var binds []*Term
	switch fnv.op {
	case "closure":
		ci := ev.closures[fnv]
		fn, binds = ci.fn, ci.bind
	case "func":
		fn = ev.prog.byName[fnv.aux]
	}
	if fn == nil {
		return fr.reifyArg(fnv, st)
	}
	ev.noCrash++
	defer func() { ev.noCrash-- }()
	x, y := newTemp(), newTemp()
	st2 := st.clone()
	delete(st2.m, evKey)
	var cargs []*Term
	if strings.HasPrefix(name, "slices.") {
		cargs = []*Term{x, y}
	} else {
		// elements at two positions
		i, j := newTemp(), newTemp()
		cargs = []*Term{i, j}
		// the comparison may only depend on the two elements
		var sl *types.Slice
		if args[0].op == "iface" {
			sl, _ = typeReg[args[0].aux].Underlying().(*types.Slice)
		}
		if sl == nil {
			giveUp("sorting of a value of unknown type")
		}
		l2 := ev.newAlloc(sl)
		for k, v := range st2.m {
			if n := subst(v, l, l2); n != v {
				st2.m[k] = n
			}
		}
		st2.m[intern("lenof", "", l2)] = ev.lenOf(l, st)
		ev.store1(mk("ia", "", l2, i), sl.Elem(), x, st2)
		ev.store1(mk("ia", "", l2, j), sl.Elem(), y, st2)
		var b2 []*Term
		for _, b := range binds {
			b2 = append(b2, subst(b, l, l2))
		}
		r := ev.call(fn, cargs, b2, st2)
		return internLam(bind(internLam(bind(r.vals[0], y)), x))
	}
	r := ev.call(fn, cargs, binds, st2)
	return internLam(bind(internLam(bind(r.vals[0], y)), x))
}

// sorterLess is the order of a named slice type that knows how to sort itself,
// provided that its other two methods are the usual ones.
func (fr *frame) sorterLess(l, recv *Term, st *State) *Term {
	ev := fr.ev
	if recv.op != "iface" {
		return nil
	}
	t := typeReg[recv.aux]
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	ms := types.NewMethodSet(t)
	find := func(name string) *ssa.Function {
		sel := ms.Lookup(nil, name)
		if sel == nil {
			return nil
		}
		m, _ := sel.Obj().(*types.Func)
		return ev.prog.method(t, m)
	}
	length, less, swap := find("Len"), find("Less"), find("Swap")
	if length == nil || less == nil || swap == nil {
		return nil
	}
	ev.noCrash++
	defer func() { ev.noCrash-- }()
	x, y, i, j := newTemp(), newTemp(), newTemp(), newTemp()
	n := ev.lenOf(l, st)
	st2 := st.clone()
	delete(st2.m, evKey)
	l2 := ev.newAlloc(sl)
	st2.m[intern("lenof", "", l2)] = n
	ev.store1(mk("ia", "", l2, i), sl.Elem(), x, st2)
	ev.store1(mk("ia", "", l2, j), sl.Elem(), y, st2)
	r := ev.call(length, []*Term{l2}, nil, st2.clone())
	if len(r.vals) != 1 || r.vals[0] != n {
		return nil
	}
	swapped := ev.call(swap, []*Term{l2, i, j}, nil, st2.clone())
	if swapped.st == nil || swapped.panicC != False {
		return nil
	}
	st3 := swapped.st
	want := st2.clone()
	ev.store1(mk("ia", "", l2, i), sl.Elem(), y, want)
	ev.store1(mk("ia", "", l2, j), sl.Elem(), x, want)
	if len(want.m) != len(st3.m) {
		return nil
	}
	for k, v := range want.m {
		if st3.m[k] != v {
			return nil
		}
	}
	r = ev.call(less, []*Term{l2, i, j}, nil, st2)
	if len(r.vals) != 1 {
		return nil
	}
	return internLam(bind(internLam(bind(r.vals[0], y)), x))
}

// ---------- reflect.Value ----------

func (fr *frame) reflectMethod(f *ssa.Function, args []*Term, st *State) (*Term, *Term) {
	ev := fr.ev
	name := f.Name()
	recv := args[0]
	rest := fr.reifyArgs(args[1:], st)
	switch name {
	case "Pointer":
		return mapLeaves(recv, func(l *Term) *Term {
			if l.op == "rval" && l.args[0].op == "rslice" {
				return mapLeaves(l.args[0].args[0], func(x *Term) *Term { return mk("sptr", "", x) })
			}
			return mk("invoke", "reflect.Pointer", l)
		}), nil
	case "Len":
		return mapLeaves(recv, func(l *Term) *Term {
			if l.op == "rval" && l.args[0].op == "rslice" {
				return l.args[0].args[1]
			}
			return mk("invoke", "reflect.Len", l)
		}), nil
	case "IsValid":
		return mapLeaves(recv, func(l *Term) *Term {
			if l.op == "zero" {
				return False
			}
			if l.op == "invoke" && l.aux == "reflect.Elem" && l.args[0].op == "call" && l.args[0].aux == "reflect.New" {
				return True
			}
			if l.op == "call" && (l.aux == "reflect.MakeSlice" || l.aux == "reflect.MakeMap" || l.aux == "reflect.MakeMapWithSize" || l.aux == "reflect.New") {
				return True
			}
			if l.op == "rval" {
				x := l.args[0]
				if x.op == "rslice" {
					return True
				}
				return mapLeaves(x, func(y *Term) *Term {
					if y.op == "iface" {
						return True
					}
					return not(mk("eq", "", Nil, y))
				})
			}
			return mk("b", "", mk("invoke", "reflect.IsValid", l))
		}), nil
	case "Set", "SetMapIndex", "SetLen", "SetInt", "SetString", "SetBool", "SetUint", "SetFloat", "SetCap", "Call", "Send", "Close", "Clear", "SetBytes", "SetPointer", "SetZero", "Grow":
		r := mk("invoke", "reflect."+name, append([]*Term{fr.reifyArg(recv, st)}, rest...)...)
		ev.event(r, st)
		return fr.opaqueResult(r, f.Signature), nil
	}
	r := mk("invoke", "reflect."+name, append([]*Term{fr.reifyArg(recv, st)}, rest...)...)
	return fr.opaqueResult(r, f.Signature), nil
}

var _ = fmt.Sprint
