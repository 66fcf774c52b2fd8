package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State maps cells (address terms and resource terms) to values.
type State struct{ m map[*Term]*Term }

func newState() *State { return &State{map[*Term]*Term{}} }
func (s *State) clone() *State {
	m := make(map[*Term]*Term, len(s.m)+4)
	for k, v := range s.m {
		m[k] = v
	}
	return &State{m}
}

var evKey = intern("events", "")

type edge struct {
	from, to *ssa.BasicBlock
	pc       *Term
	st       *State
}

type deferred struct {
	pc   *Term
	call *ssa.CallCommon
	fn   *Term
	args []*Term
}

type closureInfo struct {
	fn   *ssa.Function
	bind []*Term
}

// Eval evaluates functions of one program to value graphs.
type Eval struct {
	crashC    *Term
	noCrash   int
	panicking *ssa.Function // the deferred function whose recover() returns a value
	inElement map[*Term]bool
	seqTwice  map[*Term]bool // sequences that more than one append made

	prog       *Program
	allocT     map[*Term]types.Type
	closures   map[*Term]closureInfo
	stack      []*frame
	opaque     map[string]bool // roles kept opaque
	rootRole   string
	rootFn     *ssa.Function
	rootArgs   []*Term
	recSeen    map[*ssa.Function]bool
	assume     []assumption
	inlined    map[*ssa.Function]bool
	sites      int
	steps      int
	seqSite    map[*Term]*ssa.CallCommon // the append that made a sequence
	specMode   bool
	globals    *State
	depthMax   int
	renCores   map[*ssa.Function]bool
	inInit     bool
	coreRec    string
	inCore     bool
	absReflect bool            // values of known types are followed through reflection
	otherOrder string          // list the keys of maps in another order
	openAll    bool            // nothing stays uninterpreted
	open       map[string]bool // roles that are not kept opaque
}

type assumption struct {
	atom *Term
	val  bool
}

type frame struct {
	ev     *Eval
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	args   []*Term
	defers []deferred
	rets   []retInfo
	panicC *Term
	loops  *loopInfo
	nextAt map[*ssa.Next]*Term // steps of ranges over maps with known keys
	curPC  *Term
	iter   []*Term // iteration counters of the enclosing loops
	parent *frame
	inLoop int
	derefs []deref
}

// deref is a pointer that has been followed, on the paths with the conditions.
type deref struct {
	conds []*Term
	isNil *Term
}

type retInfo struct {
	pc   *Term
	vals []*Term
	st   *State
}

type Result struct {
	vals   []*Term
	panicC *Term
	st     *State
}

func (ev *Eval) assumed(t *Term) *Term {
	for _, a := range ev.assume {
		t = restrict(t, a.atom, a.val)
	}
	return t
}

func (ev *Eval) newAlloc(t types.Type) *Term {
	allocCnt++
	a := intern("alloc", strconv.Itoa(allocCnt))
	ev.allocT[a] = t
	return a
}

func allocID(t *Term) int { n, _ := strconv.Atoi(t.aux); return n }

// call evaluates fn on args in state st.
func (ev *Eval) call(fn *ssa.Function, args []*Term, binds []*Term, st *State) Result {
	if fn.Blocks == nil {
		giveUp("no body for %s", fn)
	}
	if len(ev.stack) > 40 {
		giveUp(depthExceeded+" at %s", fn)
	}
	ev.inlined[fn] = true
	fr := &frame{ev: ev, fn: fn, env: map[ssa.Value]*Term{}, args: args, panicC: False}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		if i >= len(binds) {
			giveUp("missing binding of %s in %s", fv.Name(), fn)
		}
		fr.env[fv] = binds[i]
	}
	fr.loops = loopsOf(fn)
	ev.stack = append(ev.stack, fr)
	defer func() { ev.stack = ev.stack[:len(ev.stack)-1] }()
	exits, _ := fr.runRegion(nil, fn.Blocks[0], []edge{{nil, fn.Blocks[0], True, st}})
	if len(exits) > 0 {
		giveUp("unexpected control flow in %s", fn)
	}
	if len(fr.rets) == 0 {
		for _, d := range fr.defers {
			if f := d.call.StaticCallee(); f != nil && callsRecover(f) {
				giveUp("%s always recovers from a panic", fn)
			}
		}
		return Result{nil, True, st}
	}
	r := Result{panicC: fr.panicC}
	last := fr.rets[len(fr.rets)-1]
	n := len(last.vals)
	vals := append([]*Term(nil), last.vals...)
	var ins []edge
	for i := 0; i < len(fr.rets)-1; i++ {
		ri := fr.rets[i]
		for k := 0; k < n; k++ {
			vals[k] = ite(ri.pc, ri.vals[k], vals[k])
		}
	}
	for _, ri := range fr.rets {
		ins = append(ins, edge{pc: ri.pc, st: ri.st})
	}
	r.vals = vals
	r.st = ev.mergeStates(ins)
	fr.recovered(&r)
	return r
}

// crash notes that the program ends here if c.
func (fr *frame) crash(c *Term) {
	ev := fr.ev
	if c == False || ev.absReflect || ev.noCrash > 0 {
		return
	}
	for i := len(ev.stack) - 1; i >= 0; i-- {
		f := ev.stack[i]
		if f.inLoop > 0 || f.curPC == nil {
			return
		}
		c = and(f.curPC, c)
		if c == False {
			return
		}
	}
	if ev.crashC == nil {
		ev.crashC = False
	}
	ev.crashC = or(ev.crashC, c)
}

// followed notes that the pointer x has been followed: it is not nil.
func (fr *frame) followed(x *Term) {
	ev := fr.ev
	if ev.absReflect {
		return
	}
	mapLeaves(x, func(l *Term) *Term {
		switch l.op {
		case "unwrap", "load", "field", "param":
			d := deref{isNil: mk("eq", "", Nil, l)}
			for i := len(ev.stack) - 1; i >= 0; i-- {
				f := ev.stack[i]
				if f.curPC == nil {
					break
				}
				d.conds = append(d.conds, f.curPC)
				f.derefs = append(f.derefs, deref{d.conds[:len(d.conds):len(d.conds)], d.isNil})
				if f.inLoop > 0 {
					break
				}
			}
		}
		return Nil
	})
}

// notNil is c, a comparison with nil, given what has been followed.
func (fr *frame) notNil(c *Term) *Term {
	for _, d := range fr.derefs {
		if c.isConst() {
			break
		}
		a := d.isNil
		if a.op == "ite" {
			a = a.args[0]
		}
		if r := restrict(c, a, false); r != c {
			pc := True
			for _, x := range d.conds {
				pc = and(x, pc)
			}
			c = ite(pc, r, c)
		}
	}
	return c
}

// crashNil: x is used as something that is there.
func (fr *frame) crashNil(x *Term) {
	fr.crash(mapLeaves(x, func(l *Term) *Term {
		switch l.op {
		case "alloc", "global", "fa", "ia", "obj", "iface", "closure", "func", "seq":
			return False
		case "param", "unwrap":
			if resultType[l] == nil {
				return False // a nil receiver
			}
		case "load":
			if a := l.args[0]; a.op == "fa" && !token.IsExported(a.aux) {
				return False // in the hands of the library
			}
		case "field":
			if !token.IsExported(l.aux) {
				return False
			}
		default:
			return boolTerm(l == Nil)
		}
		if l == Undef {
			return False
		}
		return mk("eq", "", Nil, l)
	}))
}

// recovered: a deferred function that ends a panic makes the function return
// where it would have panicked. Operations that are not analysed may panic too.
func (fr *frame) recovered(r *Result) {
	ev := fr.ev
	may := or(r.panicC, mk("b", "", intern("mayPanic", fr.fn.Name())))
	any := False
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		f := d.call.StaticCallee()
		if f == nil || !callsRecover(f) {
			continue
		}
		old := ev.panicking
		ev.panicking = f
		_, p := fr.applyCall(d.call, d.fn, d.args, nil, r.st.clone(), d.pc)
		ev.panicking = old
		if p == nil {
			p = False
		}
		any = or(any, and(d.pc, not(p)))
	}
	if any == False {
		return
	}
	st := r.st.clone()
	ev.event(intern("recovered", fr.fn.Name()), st)
	c := and(may, any)
	r.st = ev.mergeStates([]edge{{pc: c, st: st}, {pc: not(c), st: r.st}})
	r.panicC = and(r.panicC, not(any))
}

func callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (ev *Eval) mergeStates(ins []edge) *State {
	if len(ins) == 1 {
		return ins[0].st
	}
	keys := map[*Term]bool{}
	for _, e := range ins {
		for k := range e.st.m {
			keys[k] = true
		}
	}
	out := newState()
	for k := range keys {
		var v *Term
		same := true
		for _, e := range ins {
			x, ok := e.st.m[k]
			if !ok {
				x = ev.initial(k, e.st)
			}
			if v == nil {
				v = x
			} else if v != x {
				same = false
			}
		}
		if same {
			out.m[k] = v
			continue
		}
		last := ins[len(ins)-1]
		v, ok := last.st.m[k]
		if !ok {
			v = ev.initial(k, last.st)
		}
		for i := len(ins) - 2; i >= 0; i-- {
			x, ok := ins[i].st.m[k]
			if !ok {
				x = ev.initial(k, ins[i].st)
			}
			v = ite(ins[i].pc, x, v)
		}
		out.m[k] = v
	}
	return out
}

// initial is the value of a cell that has not been written.
func (ev *Eval) initial(k *Term, st *State) *Term {
	switch k.op {
	case "events":
		return LNil
	case "bufof":
		if rootOf(k.args[0]).op == "alloc" {
			return Empty
		}
		return mk("load", "", k)
	case "mapof":
		return ev.initialMap(k.args[0])
	case "content", "region":
		return Undef
	case "newlist":
		return k.args[0].args[0]
	case "lenof":
		return Undef
	case "all":
		return Undef
	}
	r := rootOf(k)
	if r.op == "alloc" {
		// content copied from elsewhere?
		if k.op == "ia" {
			if v := ev.fromContent(k, st); v != nil {
				return v
			}
		}
		if p := k; p.op == "fa" {
			// field of an element
			var path []string
			for p.op == "fa" {
				path = append(path, p.aux)
				p = p.args[0]
			}
			if p.op == "ia" {
				if v := ev.fromContent(p, st); v != nil {
					for i := len(path) - 1; i >= 0; i-- {
						v = mk("field", path[i], v)
					}
					return v
				}
			}
		}
		if t := ev.addrType(k); t != nil {
			return ev.zero(t)
		}
		return intern("zero", "?")
	}
	return mk("load", "", k)
}

// fromContent finds the value of an element of an allocated slice.
func (ev *Eval) fromContent(k *Term, st *State) *Term {
	base, idx := k.args[0], k.args[1]
	if st == nil {
		return nil
	}
	if base.op == "alloc" {
		var def *Term
		if c, ok := st.m[intern("content", "", base)]; ok && c != Undef {
			def = mapLeaves(c, func(l *Term) *Term {
				if l == Undef {
					return ev.zeroCell(k)
				}
				x := indexSeq(l, idx)
				if x == nil {
					giveUp("cannot determine an element of a new slice: %s of %s", idx.render(5), l.render(8))
				}
				return x
			})
		}
		// quantified stores
		for _, c := range sortedKeys(st.m) {
			if c.op != "all" {
				continue
			}
			b := c.args[1]
			h := bodyHeight(c)
			if b.op == "ia" && b.args[0] == base {
				off := mk("minus", "", b.args[1], bvar(h))
				if !containsBV(off, h) {
					if v := ev.lamAt(st.m[c], mk("minus", "", idx, off), k, def); v != nil {
						if def == nil {
							def = ev.zeroCell(k)
						}
						in := and(not(mk("lt", "", idx, off)), mk("lt", "", idx, add(off, c.args[0])))
						def = ite(in, v, def)
					}
				}
			}
		}
		return def
	}
	return nil
}

// lamAt is the value of a quantified store at x; where nothing was stored, def,
// or the zero value if that is nil.
func (ev *Eval) lamAt(v, x, k, def *Term) *Term {
	any := false
	for _, l := range leavesOf(v) {
		if l.op == "lam" {
			any = true
		}
	}
	if !any {
		return nil
	}
	return mapLeaves(v, func(l *Term) *Term {
		if l.op == "lam" {
			return openBody(l, x)
		}
		if def == nil {
			def = ev.zeroCell(k)
		}
		return def
	})
}

func (ev *Eval) zeroCell(k *Term) *Term {
	if t := ev.addrType(k); t != nil {
		return ev.zero(t)
	}
	return intern("zero", "?")
}

func (ev *Eval) initialMap(m *Term) *Term {
	if m == Nil {
		return intern("mnil", "")
	}
	if m.op == "alloc" {
		return intern("mnil", "")
	}
	c := intern("mapc0", "", m)
	if mapInstance {
		// three entries
		mapValue[m] = true
		t := intern("mnil", "")
		if m.op == "load" && m.args[0].op == "fa" && m.args[0].aux == "pathsByName" {
			// the names of the imports, which are those of the other map
			paths := intern("load", m.aux, mk("fa", "importsByPath", m.args[0].args[0]))
			mapValue[paths] = true
			d := intern("mapc0", "", paths)
			for i := int64(0); i < 3; i++ {
				t = mk("put", "", t, mk("field", "packageName", mk("mapval", "", d, intTerm(i))), mk("mapkey", "", d, intTerm(i)))
			}
			return t
		}
		for i := int64(0); i < 3; i++ {
			t = mk("put", "", t, mk("mapkey", "", c, intTerm(i)), mk("mapval", "", c, intTerm(i)))
		}
		return t
	}
	return c
}

// addrType is the type of the cell at the given address (for allocated roots).
func (ev *Eval) addrType(a *Term) types.Type {
	switch a.op {
	case "alloc":
		t := ev.allocT[a]
		return t
	case "fa":
		t := ev.addrType(a.args[0])
		if t == nil {
			return nil
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == a.aux {
					return st.Field(i).Type()
				}
			}
		}
	case "ia":
		t := ev.addrType(a.args[0])
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		}
	}
	return nil
}

func atomicStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "bytes.Buffer", "strings.Builder", "reflect.Value", "sync.Mutex", "sync.Once":
			return true
		}
	}
	return false
}

func (ev *Eval) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Empty
		case u.Info()&types.IsNumeric != 0:
			return Zero
		}
		return Nil
	case *types.Struct:
		if atomicStruct(t) {
			return intern("zero", typeKey(t))
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ev.zero(u.Field(i).Type()))
		}
		return mk("struct", structKey(t), fs...)
	case *types.Array:
		return intern("zero", typeKey(t))
	case *types.Tuple:
		return intern("zero", typeKey(t))
	}
	return Nil
}

func structKey(t types.Type) string { return typeKey(t.Underlying()) }

// load reads a cell of type t.
func (ev *Eval) load(addr *Term, t types.Type, st *State) *Term {
	return mapLeaves(addr, func(a *Term) *Term { return ev.load1(a, t, st) })
}

func (ev *Eval) load1(a *Term, t types.Type, st *State) *Term {
	if u, ok := t.Underlying().(*types.Struct); ok && !atomicStruct(t) {
		if a == Undef || a == Nil {
			return Undef
		}
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ev.load1(mk("fa", u.Field(i).Name(), a), u.Field(i).Type(), st))
		}
		if len(fs) == 0 {
			return mk("struct", structKey(t))
		}
		return mk("struct", structKey(t), fs...)
	}
	if u, ok := t.Underlying().(*types.Array); ok && u.Len() <= 16 {
		var fs []*Term
		for i := int64(0); i < u.Len(); i++ {
			fs = append(fs, ev.load1(mk("ia", "", a, intTerm(i)), u.Elem(), st))
		}
		return mk("array", "", fs...)
	}
	return ev.loadCell(a, t, st)
}

func (ev *Eval) loadCell(a *Term, t types.Type, st *State) *Term {
	if a == Undef || a == Nil {
		return Undef
	}
	if a.op == "ite" {
		return mapLeaves(a, func(x *Term) *Term { return ev.loadCell(x, t, st) })
	}
	a = ev.resolveAddr(a)
	if v, ok := st.m[a]; ok {
		return v
	}
	if rootOf(a).op == "global" && !ev.inInit {
		if v := ev.globalLoad(a, t); v != nil {
			return v
		}
	}
	// a quantified store to an element reached through a loop
	if v := ev.fromQuantified(a, t, st); v != nil {
		return v
	}
	if v := ev.fromStores(a, t, st); v != nil {
		return v
	}
	if r := rootOf(a); r.op == "alloc" {
		if v := ev.elementOf(a, st); v != nil {
			return v
		}
		if v := ev.initial(a, st); v != nil {
			if v.op == "zero" && v.aux == "?" {
				return ev.zero(t)
			}
			return v
		}
		return ev.zero(t)
	}
	// element of a sequence value
	if a.op == "ia" && a.args[0].op == "seq" {
		if r := indexSeq(ev.seqList(a.args[0], st), a.args[1]); r != nil {
			return r
		}
	}
	if a.op == "fa" {
		// field of an element of a sequence value
		var path []string
		p := a
		for p.op == "fa" {
			path = append(path, p.aux)
			p = p.args[0]
		}
		if p.op == "ia" && p.args[0].op == "seq" {
			if v := indexSeq(ev.seqList(p.args[0], st), p.args[1]); v != nil {
				for i := len(path) - 1; i >= 0; i-- {
					v = mk("field", path[i], v)
				}
				return v
			}
		}
	}
	v := mk("load", "", a)
	if types.IsInterface(t) && v.op == "load" {
		resultType[v] = t
	}
	return v
}

// elementOf: (a field of) an element of a slice made here, other parts of which
// were stored at single positions or copied from elsewhere.
func (ev *Eval) elementOf(a *Term, st *State) *Term {
	var path []string
	p := a
	for p.op == "fa" {
		path = append(path, p.aux)
		p = p.args[0]
	}
	if p.op != "ia" || p.args[0].op != "alloc" {
		return nil
	}
	base, idx := p.args[0], p.args[1]
	if ev.inElement[base] {
		return nil
	}
	if t := ev.allocT[base]; t == nil {
		return nil
	} else if _, ok := t.Underlying().(*types.Slice); !ok {
		return nil
	}
	var regions []*Term
	exact, others := false, false
	for k := range st.m {
		q := k
		for q.op == "fa" {
			q = q.args[0]
		}
		switch {
		case q.op == "ia" && q.args[0] == base && q.args[1] == idx:
			exact = true
		case q.op == "ia" && q.args[0] == base:
			others = others || !(idx.isInt() && q.args[1].isInt())
		case k.op == "region" && k.args[0] == base && st.m[k] != Undef:
			regions = append(regions, k)
		}
	}
	if len(regions) == 0 && !others {
		return nil
	}
	if exact {
		// another field of it was stored
		if others {
			giveUp("an element of a new slice, after a store at a computed index")
		}
		for _, r := range regions {
			if mk("lt", "", idx, r.args[1]) != True && mk("lt", "", idx, add(r.args[1], r.args[2])) != False {
				giveUp("an element of a new slice, parts of which were stored and copied")
			}
		}
		return nil
	}
	if ev.inElement == nil {
		ev.inElement = map[*Term]bool{}
	}
	ev.inElement[base] = true
	defer delete(ev.inElement, base)
	l := ev.listOf(base, st)
	if l == nil {
		giveUp("an element of a new slice")
	}
	return mapLeaves(l, func(l *Term) *Term {
		if l == Undef {
			return l
		}
		v := elementAt(pieces(l), idx)
		if v == nil {
			giveUp("an element of a new slice: %s of %s", idx.render(5), l.render(8))
		}
		for i := len(path) - 1; i >= 0; i-- {
			v = mk("field", path[i], v)
		}
		return v
	})
}

// elementAt is the element at an index that is within the list.
func elementAt(ps []*Term, idx *Term) *Term {
	if len(ps) == 0 {
		return Undef
	}
	n := pieceLen(ps[0])
	if n == nil {
		return nil
	}
	in := True
	if len(ps) > 1 {
		in = mk("lt", "", idx, n)
	}
	var v, rest *Term
	if in != False {
		switch p := ps[0]; {
		case p.op == "elem":
			v = p.args[0]
		case p.op == "for" && allElem(p.args[1]):
			v = openBody(p, idx).args0()
		case p.op == "spread":
			v = mk("load", "", mk("ia", "", p.args[0], idx))
		default:
			return nil
		}
	}
	if in == True {
		return v
	}
	rest = elementAt(ps[1:], mk("minus", "", idx, n))
	if rest == nil || v == nil {
		return rest
	}
	return ite(in, v, rest)
}

// elemAddr splits the address of (a field of) an element of a slice that was
// not made here.
func elemAddr(a *Term) (x, idx *Term, path string) {
	for a.op == "fa" {
		path = a.aux + "." + path
		a = a.args[0]
	}
	if a.op != "ia" {
		return nil, nil, ""
	}
	if op := a.args[0].op; op == "alloc" || op == "seq" || op == "sl" || op == "ite" {
		return nil, nil, ""
	}
	return a.args[0], a.args[1], path
}

// storedTo: elements of x were changed at single positions.
func storedTo(x *Term, st *State) bool {
	for k := range st.m {
		if y, _, _ := elemAddr(k); y == x {
			return true
		}
	}
	return false
}

// fromStores: the element at a symbolic position of a slice some elements of
// which were changed.
func (ev *Eval) fromStores(a *Term, t types.Type, st *State) *Term {
	x, idx, path := elemAddr(a)
	if x == nil || idx.isInt() {
		return nil
	}
	var ks []*Term
	for k := range st.m {
		if y, i, p := elemAddr(k); y == x && p == path && i != idx {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return nil
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		_, i, _ := elemAddr(k)
		if !i.isInt() && len(ks) > 1 {
			return nil
		}
	}
	r := mk("load", "", a)
	if types.IsInterface(t) && r.op == "load" {
		resultType[r] = t
	}
	for _, k := range ks {
		_, i, _ := elemAddr(k)
		r = ite(eq(idx, i), st.m[k], r)
	}
	return r
}

// fromQuantified matches an address against quantified stores to elements of
// things that are not allocated here.
func (ev *Eval) fromQuantified(a *Term, t types.Type, st *State) *Term {
	for _, c := range sortedKeys(st.m) {
		if c.op != "all" {
			continue
		}
		v := st.m[c]
		lam := false
		for _, l := range leavesOf(v) {
			lam = lam || l.op == "lam"
		}
		if !lam {
			continue
		}
		h := bodyHeight(c)
		if x := matchBV(c.args[1], a, h); x != nil {
			if rootOf(a).op == "alloc" && a.op == "ia" {
				continue // handled with offsets
			}
			if ev.inRange(x, c.args[0]) {
				var other *Term
				return mapLeaves(v, func(l *Term) *Term {
					if l.op == "lam" {
						return openBody(l, x)
					}
					if other == nil {
						// where nothing was stored in this way
						st2 := st.clone()
						delete(st2.m, c)
						other = ev.loadCell(a, t, st2)
					}
					return other
				})
			}
		}
	}
	return nil
}

func (ev *Eval) inRange(x, n *Term) bool { return true }

// matchBV matches pattern (with bound variable h) against t.
func matchBV(pat, t *Term, h int) *Term {
	var got *Term
	var rec func(p, t *Term) bool
	rec = func(p, t *Term) bool {
		if p == bvar(h) {
			if got != nil && got != t {
				return false
			}
			got = t
			return true
		}
		if p == t {
			return true
		}
		if p.op != t.op || p.aux != t.aux || len(p.args) != len(t.args) {
			return false
		}
		for i := range p.args {
			if !rec(p.args[i], t.args[i]) {
				return false
			}
		}
		return true
	}
	if rec(pat, t) {
		return got
	}
	return nil
}

// resolveAddr brings addresses of elements into normal form.
func (ev *Eval) resolveAddr(a *Term) *Term { return a }

func (ev *Eval) store(addr *Term, t types.Type, v *Term, st *State) {
	ls := leavesOf(addr)
	if len(ls) == 1 {
		ev.store1(addr, t, v, st)
		return
	}
	for _, l := range ls {
		if l == Undef || l == Nil {
			continue
		}
		c := mapLeaves(addr, func(x *Term) *Term { return boolTerm(x == l) })
		old := ev.load1(l, t, st)
		ev.store1(l, t, ite(c, v, old), st)
	}
}

const depthExceeded = "call depth exceeded"

// changeSeq: elements of the sequence are changed.
func (ev *Eval) changeSeq(l *Term) {
	if ev.seqTwice[l] {
		if c := ev.seqSite[l]; c != nil && !ev.prog.materialise[c] {
			panic(needList{c})
		}
	}
}

func (ev *Eval) store1(a *Term, t types.Type, v *Term, st *State) {
	if a == Undef || a == Nil {
		return
	}
	if q := a; q.op == "fa" || q.op == "ia" {
		for q.op == "fa" {
			q = q.args[0]
		}
		if q.op == "ia" && q.args[0].op == "seq" {
			ev.changeSeq(q.args[0])
		}
	}
	if u, ok := t.Underlying().(*types.Struct); ok && !atomicStruct(t) {
		if v.op != "struct" {
			structT[v] = structKey(t)
		}
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			ev.store1(mk("fa", n, a), u.Field(i).Type(), mk("field", n, v), st)
		}
		return
	}
	if u, ok := t.Underlying().(*types.Array); ok && u.Len() <= 16 {
		for i := int64(0); i < u.Len(); i++ {
			var e *Term
			if v.op == "array" {
				e = v.args[i]
			} else if v.op == "zero" {
				e = ev.zero(u.Elem())
			} else {
				e = mk("aidx", strconv.FormatInt(i, 10), v)
			}
			ev.store1(mk("ia", "", a, intTerm(i)), u.Elem(), e, st)
		}
		return
	}
	if a.op == "ite" {
		ev.store(a, t, v, st)
		return
	}
	st.m[a] = v
}

func (ev *Eval) get(k *Term, st *State) *Term {
	if v, ok := st.m[k]; ok {
		return v
	}
	return ev.initial(k, st)
}

// emit appends text to the buffer at address b.
func (ev *Eval) emit(b *Term, s *Term, st *State) {
	ls := leavesOf(b)
	for _, l := range ls {
		if l == Nil || l == Undef {
			continue
		}
		k := intern("bufof", "", l)
		old := ev.get(k, st)
		v := mk("cat", "", old, s)
		if len(ls) > 1 {
			c := mapLeaves(b, func(x *Term) *Term { return boolTerm(x == l) })
			v = ite(c, v, old)
		}
		st.m[k] = v
	}
}

func (ev *Eval) event(e *Term, st *State) {
	old := ev.get(evKey, st)
	st.m[evKey] = mk("lcat", "", old, mk("elem", "", e))
}

// ---------- regions ----------

func (fr *frame) runRegion(lp *loop, entry *ssa.BasicBlock, in []edge) (exits, latches []edge) {
	pending := map[*ssa.BasicBlock][]edge{entry: in}
	order := fr.loops.rpo
	deliver := func(e edge) {
		if e.pc == False {
			return
		}
		switch {
		case lp != nil && e.to == lp.header:
			latches = append(latches, e)
		case lp != nil && !lp.blocks[e.to]:
			exits = append(exits, e)
		default:
			pending[e.to] = append(pending[e.to], e)
		}
	}
	for _, b := range order {
		ins := pending[b]
		if len(ins) == 0 {
			continue
		}
		if lp != nil && !lp.blocks[b] {
			continue
		}
		inner := fr.loops.byHeader[b]
		if inner != nil && inner != lp {
			for _, e := range fr.runLoop(inner, ins) {
				deliver(e)
			}
			continue
		}
		var phiIn []edge
		if !(lp != nil && b == lp.header) {
			phiIn = ins
		}
		for _, e := range fr.runBlock(b, ins, phiIn) {
			deliver(e)
		}
	}
	return
}

func orAll(es []edge) *Term {
	r := False
	for _, e := range es {
		r = or(r, e.pc)
	}
	return r
}

func (fr *frame) runBlock(b *ssa.BasicBlock, ins []edge, phiIn []edge) []edge {
	ev := fr.ev
	pc := orAll(ins)
	st := ev.mergeStates(ins).clone()
	for _, in := range b.Instrs {
		if in.Pos() != token.NoPos {
			curPos = in.Pos()
		}
		ev.steps++
		if ev.steps > 400000 {
			giveUp("analysis of %s does not terminate in budget", fr.fn)
		}
		switch in := in.(type) {
		case *ssa.Phi:
			if phiIn == nil {
				continue // set by the loop
			}
			var v *Term
			for i := len(phiIn) - 1; i >= 0; i-- {
				x := fr.val(in.Edges[predIndex(b, phiIn[i].from)], st)
				if v == nil {
					v = x
				} else {
					v = ite(phiIn[i].pc, x, v)
				}
			}
			fr.env[in] = v
		case *ssa.If:
			c := fr.val(in.Cond, st)
			c = ev.assumed(c)
			var out []edge
			t, f := and(pc, c), and(pc, not(c))
			if t != False {
				out = append(out, edge{b, b.Succs[0], t, st})
			}
			if f != False {
				st2 := st
				if t != False {
					st2 = st.clone()
				}
				out = append(out, edge{b, b.Succs[1], f, st2})
			}
			return out
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], pc, st}}
		case *ssa.Return:
			var vals []*Term
			for _, r := range in.Results {
				vals = append(vals, fr.val(r, st))
			}
			fr.rets = append(fr.rets, retInfo{pc, vals, st})
			return nil
		case *ssa.Panic:
			fr.panicC = or(fr.panicC, pc)
			return nil
		default:
			fr.curPC = pc
			p := fr.instr(in, st, pc)
			if p != nil && p != False {
				fr.panicC = or(fr.panicC, and(pc, p))
				pc = and(pc, not(p))
				if pc == False {
					return nil
				}
			}
		}
	}
	return nil
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	giveUp("edge without predecessor")
	return 0
}

func (fr *frame) val(v ssa.Value, st *State) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return fr.ev.zero(v.Type())
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return intern("const", v.Value.ExactString())
		}
		return constTerm(v.Value)
	case *ssa.Function:
		return intern("func", v.String())
	case *ssa.Global:
		return intern("global", v.String())
	case *ssa.Builtin:
		return intern("func", "builtin."+v.Name())
	}
	t, ok := fr.env[v]
	if !ok {
		giveUp("value %s of %s is not available", v.Name(), fr.fn)
	}
	return t
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// instr evaluates an instruction; the result is a condition under which it
// panics (nil for never).
func (fr *frame) instr(in ssa.Instruction, st *State, pc *Term) *Term {
	ev := fr.ev
	set := func(v ssa.Value, t *Term) {
		if isBool(v.Type()) {
			t = mk("b", "", t)
		}
		if types.IsInterface(v.Type()) {
			for _, l := range leavesOf(t) {
				if l.op != "iface" && l.op != "const" {
					if _, ok := resultType[l]; !ok {
						resultType[l] = v.Type()
					}
				}
			}
		}
		fr.env[v] = ev.assumed(t)
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		set(in, ev.newAlloc(t))
	case *ssa.BinOp:
		set(in, fr.binop(in, st))
	case *ssa.UnOp:
		x := fr.val(in.X, st)
		switch in.Op {
		case token.MUL:
			if _, ok := in.X.(*ssa.Parameter); ok {
				fr.crashNil(x)
			}
			set(in, ev.load(x, in.Type(), st))
		case token.NOT:
			set(in, not(x))
		case token.SUB:
			if x.isInt() {
				set(in, intTerm(-x.intVal()))
			} else {
				set(in, mk("neg", "", x))
			}
		case token.XOR:
			set(in, mk("compl", "", x))
		case token.ARROW:
			e := mk("recv", "", x)
			ev.event(e, st)
			set(in, e)
		}
	case *ssa.ChangeType:
		set(in, fr.val(in.X, st))
	case *ssa.ChangeInterface:
		set(in, fr.val(in.X, st))
	case *ssa.Convert:
		set(in, fr.convert(in.X.Type(), in.Type(), fr.val(in.X, st), st))
	case *ssa.MakeInterface:
		set(in, mk("iface", typeKey(in.X.Type()), fr.val(in.X, st)))
	case *ssa.TypeAssert:
		x := fr.val(in.X, st)
		k := typeKey(in.AssertedType)
		if len(ev.prog.alternatives(in.X.Type())) > 0 {
			for _, l := range leavesOf(x) {
				if resultType[l] == nil && l.op != "iface" && !l.isConst() {
					resultType[l] = in.X.Type()
				}
			}
		}
		ok := mk("is", k, x)
		var v *Term
		if types.IsInterface(in.AssertedType) {
			v = x
		} else {
			v = mk("unwrap", k, x)
		}
		if in.CommaOk {
			v = ite(ok, v, ev.zero(in.AssertedType))
			fr.env[in] = mk("tup", "", v, ok)
		} else {
			set(in, v)
			if types.IsInterface(in.X.Type()) {
				// a failed assertion panics; only tracked when it is known
				if ok == False {
					return True
				}
			}
		}
	case *ssa.Extract:
		set(in, mk("ext", strconv.Itoa(in.Index), fr.val(in.Tuple, st)))
	case *ssa.Field:
		f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
		x := fr.val(in.X, st)
		structT[x] = structKey(in.X.Type())
		set(in, mk("field", f.Name(), x))
	case *ssa.FieldAddr:
		fr.crashNil(fr.val(in.X, st))
		fr.followed(fr.val(in.X, st))
		f := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(in.Field)
		set(in, mk("fa", f.Name(), fr.val(in.X, st)))
	case *ssa.IndexAddr:
		if k := fr.val(in.Index, st); k.isInt() {
			if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
				fr.crash(not(mapLeaves(fr.val(in.X, st), func(l *Term) *Term {
					return mk("ge", strconv.FormatInt(k.intVal()+1, 10), ev.lenOf(l, st))
				})))
			}
		}
		set(in, fr.indexAddr(fr.val(in.X, st), fr.val(in.Index, st)))
	case *ssa.Index:
		x, i := fr.val(in.X, st), fr.val(in.Index, st)
		if isString(in.X.Type()) {
			if i == Zero {
				fr.crash(mk("eq", "", Empty, x))
			}
			set(in, mk("sidx", "", x, i))
		} else {
			set(in, mk("aidx", i.aux, x))
		}
	case *ssa.Slice:
		set(in, fr.slice(in, st))
	case *ssa.MakeSlice:
		a := ev.newAlloc(in.Type())
		n := fr.val(in.Len, st)
		st.m[intern("lenof", "", a)] = n
		set(in, a)
		bad := mk("lt", "", n, Zero)
		if c := fr.val(in.Cap, st); c != n {
			bad = or(bad, mk("lt", "", c, n))
		}
		if bad != False {
			return bad
		}
	case *ssa.MakeMap:
		a := ev.newAlloc(in.Type())
		set(in, a)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, fr.val(b, st))
		}
		f := in.Fn.(*ssa.Function)
		t := intern("closure", f.String(), bs...)
		for _, l := range leavesOf(t) {
			_ = l
		}
		ev.closures[t] = closureInfo{f, bs}
		set(in, t)
	case *ssa.MapUpdate:
		m, k, v := fr.val(in.Map, st), fr.val(in.Key, st), fr.val(in.Value, st)
		fr.crashNil(m)
		ls := leavesOf(m)
		for _, l := range ls {
			if l == Nil {
				continue
			}
			c := mk("mapof", "", l)
			nv := mk("put", "", ev.get(c, st), k, v)
			if len(ls) > 1 {
				cond := mapLeaves(m, func(x *Term) *Term { return boolTerm(x == l) })
				nv = ite(cond, nv, ev.get(c, st))
			}
			st.m[c] = nv
		}
	case *ssa.Lookup:
		x, i := fr.val(in.X, st), fr.val(in.Index, st)
		if isString(in.X.Type()) {
			set(in, mk("sidx", "", x, i))
			break
		}
		mt := in.X.Type().Underlying().(*types.Map)
		content := mapLeaves(x, func(l *Term) *Term { return ev.mapContent(l, st) })
		z := ev.zero(mt.Elem())
		v := mk("get", "", content, i, z)
		if in.CommaOk {
			fr.env[in] = mk("tup", "", v, mk("has", "", content, i))
		} else {
			set(in, v)
		}
	case *ssa.Range:
		x := fr.val(in.X, st)
		if isString(in.X.Type()) {
			set(in, mk("rangestr", "", x))
		} else {
			content := mapLeaves(x, func(l *Term) *Term { return ev.mapContent(l, st) })
			set(in, mk("rangemap", "", content))
		}
	case *ssa.Next:
		if t, ok := fr.nextAt[in]; ok {
			fr.env[in] = t
			break
		}
		x := fr.val(in.Iter, st)
		it := fr.iter[len(fr.iter)-1]
		if in.IsString {
			s := x.args[0]
			fr.env[in] = mk("tup", "", mk("lt", "", it, mk("runecount", "", s)), mk("runepos", "", s, it), mk("runeat", "", s, it))
		} else {
			m := mk("ext0", "", x)
			_ = m
			fr.env[in] = mapLeaves(x, func(r *Term) *Term {
				mapTerm[r.args[0]] = true
				return mk("tup", "", mk("lt", "", it, mk("len", "", r.args[0])), mk("mapkey", "", r.args[0], it), mk("mapval", "", r.args[0], it))
			})
		}
	case *ssa.Store:
		ev.store(fr.val(in.Addr, st), in.Val.Type(), fr.val(in.Val, st), st)
	case *ssa.Call:
		v, p := fr.doCall(&in.Call, in, st, pc)
		if v != nil {
			if in.Type() != nil {
				if _, isTup := in.Type().(*types.Tuple); isTup {
					fr.env[in] = v
				} else {
					set(in, v)
				}
			}
		}
		return p
	case *ssa.Defer:
		if fr.inLoop > 0 {
			giveUp("defer in a loop in %s", fr.fn)
		}
		d := deferred{pc: pc, call: &in.Call}
		d.fn, d.args = fr.callArgs(&in.Call, st)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if and(d.pc, pc) == False {
				continue
			}
			pre := st.clone()
			_, p := fr.applyCall(d.call, d.fn, d.args, nil, st, pc)
			c := constrain(d.pc, pc)
			if c != True {
				m := ev.mergeStates([]edge{{pc: c, st: st.clone()}, {pc: not(c), st: pre}})
				st.m = m.m
			}
			if p != nil && p != False {
				return p
			}
		}
	case *ssa.Go:
		fn, args := fr.callArgs(&in.Call, st)
		ev.event(mk("go", "", append([]*Term{fn}, args...)...), st)
	case *ssa.Send:
		ev.event(mk("send", "", fr.val(in.Chan, st), fr.val(in.X, st)), st)
	case *ssa.MakeChan:
		set(in, ev.newAlloc(in.Type()))
	default:
		giveUp("instruction %T in %s", in, fr.fn)
	}
	return nil
}

// constrain is the generalised cofactor of t with respect to c.
func constrain(t, c *Term) *Term {
	if c == True || c == False || t.isConst() || t.op != "ite" && !t.cond {
		return t
	}
	memo := map[[2]*Term]*Term{}
	var rec func(t, c *Term) *Term
	rec = func(t, c *Term) *Term {
		if c == True || c == False {
			return t
		}
		if t.op != "ite" {
			if t.cond {
				var ps []*Term
				for _, a := range t.args {
					ps = append(ps, constrain(a, c))
				}
				return mkCat(ps)
			}
			return t
		}
		k := [2]*Term{t, c}
		if r, ok := memo[k]; ok {
			return r
		}
		top := c.args[0]
		if t.op == "ite" && before(t.args[0], top) {
			top = t.args[0]
		}
		ch, cl := restrict(c, top, true), restrict(c, top, false)
		var r *Term
		switch {
		case ch == False:
			r = rec(restrict(t, top, false), cl)
		case cl == False:
			r = rec(restrict(t, top, true), ch)
		default:
			r = ite(atomBool(top), rec(restrict(t, top, true), ch), rec(restrict(t, top, false), cl))
		}
		memo[k] = r
		return r
	}
	return rec(t, c)
}

func (ev *Eval) mapContent(m *Term, st *State) *Term {
	if m == Nil {
		return intern("mnil", "")
	}
	return ev.get(mk("mapof", "", m), st)
}

func (fr *frame) indexAddr(x, i *Term) *Term {
	return mapLeaves(x, func(x *Term) *Term {
		if x.op == "sl" {
			if x.args[1] == Zero {
				x = x.args[0]
			} else {
				return mk("ia", "", x.args[0], add(x.args[1], i))
			}
		}
		return mk("ia", "", x, i)
	})
}

func (fr *frame) slice(in *ssa.Slice, st *State) *Term {
	ev := fr.ev
	x := fr.val(in.X, st)
	lo, hi := Zero, Nil
	if in.Low != nil {
		lo = fr.val(in.Low, st)
	}
	if in.High != nil {
		hi = fr.val(in.High, st)
	}
	if isString(in.X.Type()) {
		return mk("sslice", "", x, lo, hi)
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		// array
		n := p.Elem().Underlying().(*types.Array).Len()
		if lo == Zero && (hi == Nil || hi == intTerm(n)) {
			return mapLeaves(x, func(a *Term) *Term {
				st.m[intern("lenof", "", a)] = intTerm(n)
				return a
			})
		}
		if hi == Nil {
			hi = intTerm(n)
		}
		return mk("sl", "", x, lo, hi)
	}
	if lo == Zero && hi == Nil {
		return x
	}
	return mapLeaves(x, func(x *Term) *Term {
		n := ev.lenOf(x, st)
		h := hi
		if h == Nil {
			h = n
		}
		if lo == Zero && h == n {
			return x
		}
		if x.op == "seq" && lo == Zero && h == Zero {
			return intern("seq", "", LNil)
		}
		if x.op == "sl" {
			return mk("sl", "", x.args[0], add(x.args[1], lo), add(x.args[1], h))
		}
		return mk("sl", "", x, lo, h)
	})
}

func (ev *Eval) lenOf(x *Term, st *State) *Term {
	return mapLeaves(x, func(x *Term) *Term {
		if x.op == "alloc" {
			if n, ok := st.m[intern("lenof", "", x)]; ok {
				return n
			}
			if t, ok := ev.allocT[x].Underlying().(*types.Array); ok {
				return intTerm(t.Len())
			}
		}
		if x.op == "sl" {
			return mk("minus", "", x.args[2], x.args[1])
		}
		return mk("len", "", x)
	})
}

func (fr *frame) binop(in *ssa.BinOp, st *State) *Term {
	x, y := fr.val(in.X, st), fr.val(in.Y, st)
	switch in.Op {
	case token.ADD:
		if isString(in.X.Type()) {
			return mk("cat", "", x, y)
		}
		return add(x, y)
	case token.SUB:
		return mk("minus", "", x, y)
	case token.EQL, token.NEQ:
		r := fr.eqVals(in.X.Type(), x, y, st)
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok && (x == Nil || y == Nil) {
			r = fr.notNil(r)
		}
		if in.Op == token.NEQ {
			r = not(r)
		}
		return r
	case token.LSS:
		return mk("lt", "", x, y)
	case token.GTR:
		return mk("lt", "", y, x)
	case token.LEQ:
		return not(mk("lt", "", y, x))
	case token.GEQ:
		return not(mk("lt", "", x, y))
	}
	return mk("op", in.Op.String(), x, y)
}

func (fr *frame) eqVals(t types.Type, x, y *Term, st *State) *Term {
	if _, ok := t.Underlying().(*types.Slice); ok {
		// only comparisons with nil
		v := x
		if x == Nil {
			v = y
		}
		return mapLeaves(v, func(l *Term) *Term {
			if l.op == "alloc" || l.op == "sl" || instanceLen(l) != nil {
				return False
			}
			return mk("eq", "", Nil, l)
		})
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		// an operation may return the pointer it was given
		return mapLeaves(x, func(l *Term) *Term {
			return mapLeaves(y, func(r *Term) *Term {
				if rootOf(l).op == "alloc" && r.op == "call" {
					l = fr.ev.reify(l, st)
				} else if rootOf(r).op == "alloc" && l.op == "call" {
					r = fr.ev.reify(r, st)
				}
				return mk("eq", "", l, r)
			})
		})
	}
	return mk("eq", "", x, y)
}

func (fr *frame) convert(from, to types.Type, x *Term, st *State) *Term {
	ev := fr.ev
	fu, tu := from.Underlying(), to.Underlying()
	if isString(to) {
		if fb, ok := fu.(*types.Basic); ok {
			if fb.Info()&types.IsString != 0 {
				return x
			}
			if fb.Info()&types.IsInteger != 0 {
				return runeText(x)
			}
		}
		if _, ok := fu.(*types.Slice); ok {
			return mapLeaves(x, func(l *Term) *Term {
				if l.op == "bytes" {
					return l.args[0]
				}
				return mk("string", typeKey(from), ev.contentTerm(l, st))
			})
		}
	}
	if isString(from) {
		if sl, ok := tu.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return mk("bytes", "", x)
			}
			return mk("runes", "", x)
		}
	}
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
			if x.isConst() {
				return x
			}
			// conversions between integer types keep the value in range
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				if sizes.Sizeof(tb) >= sizes.Sizeof(fb) {
					return x
				}
				return mk("trunc", typeKey(tu), x)
			}
			return mk("conv", typeKey(tu), x)
		}
	}
	return mk("conv", typeKey(to), x)
}

var sizes = types.SizesFor("gc", "amd64")

func runeText(x *Term) *Term {
	return mapLeaves(x, func(x *Term) *Term {
		if x.isInt() {
			return strTerm(string(rune(x.intVal())))
		}
		return mk("runetext", "", x)
	})
}

// contentTerm returns the elements of a slice as a fresh sequence, or the
// slice itself if it was not made here.
func (ev *Eval) contentTerm(x *Term, st *State) *Term {
	return mapLeaves(x, func(x *Term) *Term {
		if x == Nil {
			return x
		}
		if l := ev.listOf(x, st); l != nil {
			return mk("seq", "", l)
		}
		return x
	})
}

// listOf gives the pieces of a slice made here; nil for other slices.
func (ev *Eval) listOf(x *Term, st *State) *Term {
	if x == Nil {
		return LNil
	}
	switch x.op {
	case "seq":
		return ev.seqUpdates(x, st)
	case "sl":
		if x.args[0].op == "alloc" || x.args[0].op == "seq" {
			l := ev.listOf(x.args[0], st)
			if l != nil {
				ok := true
				r := mapLeaves(l, func(l *Term) *Term {
					if l == Undef {
						return l
					}
					r := subList(l, x.args[1], x.args[2])
					if r == nil {
						ok = false
						return l
					}
					return r
				})
				if ok {
					return r
				}
			}
			giveUp("part of a new slice: %s of %s", x.render(6), l.render(6))
		}
		return nil
	case "alloc":
	default:
		return nil
	}
	n := ev.lenOf(x, st)
	et := ev.elemType(x)
	// const stores
	var regs []reg
	base := x
	if c, ok := st.m[intern("content", "", base)]; ok && c != Undef {
		regs = append(regs, reg{Zero, n, c})
	}
	upd := []*Term{}
	constIdx := map[int64]bool{}
	for k := range st.m {
		p := k
		for p.op == "fa" || p.op == "ia" && p.args[0] != base {
			p = p.args[0]
		}
		if p.op == "ia" && p.args[0] == base {
			if p.args[1].isInt() {
				constIdx[p.args[1].intVal()] = true
			} else {
				upd = append(upd, k)
			}
		}
		if k.op == "region" && k.args[0] == base {
			if st.m[k] != Undef {
				regs = append(regs, reg{k.args[1], k.args[2], st.m[k]})
			}
		}
		if k.op == "all" {
			q := k.args[1]
			for q.op == "fa" || q.op == "ia" && q.args[0] != base {
				q = q.args[0]
			}
			if q.op == "ia" && q.args[0] == base {
				// handled below
			}
		}
	}
	// quantified stores
	quant := map[*Term]bool{} // n term + offset
	type qk struct{ n, off *Term }
	qs := map[qk]bool{}
	for k := range st.m {
		if k.op != "all" {
			continue
		}
		q := k.args[1]
		for q.op == "fa" || q.op == "ia" && q.args[0] != base {
			q = q.args[0]
		}
		if q.op == "ia" && q.args[0] == base {
			h := bodyHeight(k)
			off := mk("minus", "", q.args[1], bvar(h))
			if containsBV(off, h) {
				giveUp("irregular stores to a new slice")
			}
			qs[qk{k.args[0], off}] = true
		}
	}
	_ = quant
	for k := range qs {
		tmp := newTemp()
		v := ev.load1(mk("ia", "", base, add(k.off, tmp)), et, st)
		regs = append(regs, reg{k.off, k.n, mk("for", "l", k.n, bind(mk("elem", "", v), tmp))})
	}
	if len(upd) > 0 {
		// stores at single symbolic positions
		giveUp("store at a computed index of a new slice")
	}
	for i := range constIdx {
		v := ev.load1(mk("ia", "", base, intTerm(i)), et, st)
		regs = append(regs, reg{intTerm(i), intTerm(1), mk("elem", "", v)})
	}
	return ev.tile(x, base, n, et, regs, constIdx, st)
}

// reg is a part of a new slice.
type reg struct {
	off  *Term
	len  *Term
	list *Term
}

// tile puts the parts together.
func (ev *Eval) tile(x, base, n *Term, et types.Type, regs []reg, constIdx map[int64]bool, st *State) *Term {
	split := n
	for _, r := range regs {
		if split.op == "ite" {
			break
		}
		split = r.len
		if r.off.op == "ite" {
			split = r.off
		}
	}
	if split.op == "ite" {
		at := split.args[0]
		part := func(val bool) *Term {
			m := restrict(n, at, val)
			var rs []reg
			for _, r := range regs {
				r = reg{restrict(r.off, at, val), restrict(r.len, at, val), restrict(r.list, at, val)}
				if r.len != Zero && r.len != Undef && r.off != Undef {
					rs = append(rs, r)
				}
			}
			return ev.tile(x, base, m, et, rs, constIdx, st)
		}
		return ite(atomBool(at), part(true), part(false))
	}
	if n == Undef {
		return Undef
	}
	if n == Zero {
		return LNil
	}
	if n.isInt() && n.intVal() <= 16 {
		all := true
		for _, r := range regs {
			if !(r.off.isInt() && r.len.isInt()) {
				all = false
			}
		}
		if all {
			var ps []*Term
			for i := int64(0); i < n.intVal(); i++ {
				var in *reg
				for k := range regs {
					if r := &regs[k]; !constIdx[i] && r.off.intVal() <= i && i < r.off.intVal()+r.len.intVal() {
						if in != nil && in.list != r.list && in.list.op != "for" && r.list.op != "for" {
							giveUp("parts of a new slice that overlap")
						}
						if in == nil || r.list.op == "for" {
							in = r
						}
					}
				}
				var v *Term
				if in != nil {
					v = mapLeaves(in.list, func(l *Term) *Term {
						if l == Undef {
							return l
						}
						e := elementAt(pieces(l), intTerm(i-in.off.intVal()))
						if e == nil {
							giveUp("an element of a part of a new slice")
						}
						return e
					})
				} else {
					v = ev.load1(mk("ia", "", base, intTerm(i)), et, st)
				}
				ps = append(ps, mk("elem", "", v))
			}
			return mk("lcat", "", ps...)
		}
	}
	// full coverage by one region
	for _, r := range regs {
		if r.off == Zero && r.len == n && len(constIdx) == 0 {
			// prefer quantified stores over the initial content
			best := r
			for _, r2 := range regs {
				if r2.off == Zero && r2.len == n && r2.list.op == "for" {
					best = r2
				}
			}
			return best.list
		}
	}
	// tile
	pos := Zero
	var out []*Term
	used := make([]bool, len(regs))
	for pos != n {
		found := false
		// the longest match first
		for pass := 0; pass < 1 && !found; pass++ {
			for i, r := range regs {
				if !used[i] && r.off == pos {
					used[i] = true
					out = append(out, r.list)
					pos = add(pos, r.len)
					found = true
					break
				}
			}
		}
		if !found {
			break
		}
	}
	if pos == n {
		for i, r := range regs {
			if !used[i] && r.list.op == "elem" {
				giveUp("parts of a new slice were stored again")
			}
		}
		return mk("lcat", "", out...)
	}
	if len(regs) == 0 {
		return mk("for", "l", n, mk("elem", "", ev.zero(et)))
	}
	if debugPeel {
		fmt.Println("LISTOF", x.render(5), "len", n.render(8))
		for _, r := range regs {
			fmt.Println("   at", r.off.render(8), "len", r.len.render(8), r.list.render(8))
		}
	}
	if ev.absReflect && n.isInt() && n.intVal() <= 8 && n.intVal() >= 0 {
		var el []*Term
		for i := int64(0); i < n.intVal(); i++ {
			el = append(el, mk("elem", "", ev.load(mk("ia", "", x, intTerm(i)), et, st)))
		}
		return mk("lcat", "", el...)
	}
	giveUp("cannot determine the content of a new slice")
	return nil
}

func subList(l, lo, hi *Term) *Term {
	ps := pieces(l)
	if lo == Zero && hi == Zero {
		return LNil
	}
	pos := Zero
	start := -1
	if lo == Zero {
		start = 0
	}
	for i, p := range ps {
		n := pieceLen(p)
		if n == nil {
			return nil
		}
		pos = add(pos, n)
		if pos == lo {
			start = i + 1
		}
		if pos == hi && start >= 0 {
			return mk("lcat", "", ps[start:i+1]...)
		}
	}
	return nil
}

func (ev *Eval) elemType(a *Term) types.Type {
	switch u := ev.allocT[a].Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	giveUp("element type of %s", a)
	return nil
}

// seqList is the content of a sequence value that may have been reordered.
func (ev *Eval) seqList(x *Term, st *State) *Term {
	if l, ok := st.m[intern("newlist", "", x)]; ok {
		return l
	}
	return x.args[0]
}

// seqUpdates applies stores to elements of a sequence value.
func (ev *Eval) seqUpdates(x *Term, st *State) *Term {
	l := ev.seqList(x, st)
	for k := range st.m {
		q := k
		if k.op == "all" {
			q = k.args[1]
		}
		fields := false
		for q.op == "fa" {
			q = q.args[0]
			fields = true
		}
		if q.op != "ia" || q.args[0] != x {
			continue
		}
		if k.op == "all" && !fields {
			h := bodyHeight(k)
			if q.args[1] == bvar(h) && k.args[0] == mk("len", "", x) {
				v := st.m[k]
				return mapLeaves(v, func(v *Term) *Term {
					if v.op != "lam" {
						return l
					}
					tmp := newTemp()
					return mk("for", "l", k.args[0], bind(mk("elem", "", openBody(v, tmp)), tmp))
				})
			}
		}
		if k.op != "all" && !fields && q.args[1].isInt() {
			ps := append([]*Term(nil), pieces(l)...)
			i := q.args[1].intVal()
			ok := int(i) < len(ps)
			for j := 0; ok && j <= int(i); j++ {
				if ps[j].op != "elem" {
					ok = false
				}
			}
			if ok {
				ps[i] = mk("elem", "", st.m[k])
				l = mk("lcat", "", ps...)
				continue
			}
		}
		if c := ev.seqSite[x]; c != nil && !ev.prog.materialise[c] {
			panic(needList{c})
		}
		giveUp("store to an element of a computed slice: %s := %s in %s", k.render(6), st.m[k].render(4), x.render(5))
	}
	return l
}

// ---------- reification ----------

type reifier struct {
	ev    *Eval
	st    *State
	only  func(*Term) bool // which allocations to replace (nil: all)
	stack []*Term
	depth int
	memo  map[*Term]*Term
}

func (ev *Eval) reify(t *Term, st *State) *Term {
	r := &reifier{ev: ev, st: st, memo: map[*Term]*Term{}}
	return r.do(t)
}

func (ev *Eval) reifyOnly(t *Term, st *State, only func(*Term) bool) *Term {
	r := &reifier{ev: ev, st: st, only: only, memo: map[*Term]*Term{}}
	return r.do(t)
}

// reifyKey does the same for the address of a cell: elements of sequence
// values stay elements of the same value.
func (ev *Eval) reifyKey(t *Term, st *State, only func(*Term) bool) *Term {
	switch t.op {
	case "ite":
		return ite(t.args[0], ev.reifyKey(t.args[1], st, only), ev.reifyKey(t.args[2], st, only))
	case "fa":
		return mk("fa", t.aux, ev.reifyKey(t.args[0], st, only))
	case "ia":
		if t.args[0].op == "seq" {
			return mk("ia", "", t.args[0], ev.reifyOnly(t.args[1], st, only))
		}
	}
	return ev.reifyOnly(t, st, only)
}

func (r *reifier) needs(t *Term) bool {
	if !t.obj && !t.part {
		return r.hasSeq(t)
	}
	return true
}

// hasSeq: sequence values may have been updated in place
func (r *reifier) hasSeq(t *Term) bool { return false }

func (r *reifier) do(t *Term) *Term {
	if !r.needs(t) && t.op != "seq" {
		if !mentionsSeq(t) {
			return t
		}
	}
	if x, ok := r.memo[t]; ok {
		return x
	}
	depth := len(r.stack)
	r.depth++
	if r.depth > 2000 {
		giveUp("cyclic value %s", t.render(6))
	}
	x := r.do0(t)
	r.depth--
	if depth == 0 || len(r.stack) == 0 {
		r.memo[t] = x
	}
	return x
}

func mentionsSeq(t *Term) bool { return t.seq }

func (r *reifier) do0(t *Term) *Term {
	ev := r.ev
	switch t.op {
	case "ite":
		return ite(r.atom(t.args[0]), r.do(t.args[1]), r.do(t.args[2]))
	case "alloc":
		if r.only != nil && !r.only(t) {
			return t
		}
		for i := len(r.stack) - 1; i >= 0; i-- {
			if r.stack[i] == t {
				return intern("ref", strconv.Itoa(len(r.stack)-1-i))
			}
		}
		at := ev.allocT[t]
		if r.isObj(t, at) {
			r.stack = append(r.stack, t)
			defer func() { r.stack = r.stack[:len(r.stack)-1] }()
		}
		switch u := at.Underlying().(type) {
		case *types.Slice:
			if _, ok := r.st.m[intern("lenof", "", t)]; ok {
				return mk("seq", "", r.do(ev.listOf(t, r.st)))
			}
			return mk("obj", typeKey(at), r.do(ev.load1(t, at, r.st)))
		case *types.Array:
			if _, ok := r.st.m[intern("lenof", "", t)]; ok {
				return mk("seq", "", r.do(ev.listOf(t, r.st)))
			}
		case *types.Map:
			if v, ok := r.st.m[mk("mapof", "", t)]; ok {
				return mk("newmap", "", r.do(v))
			}
			if v, ok := r.st.m[t]; ok {
				return mk("obj", typeKey(at), r.do(v)) // variable of map type
			}
			return mk("newmap", "", intern("mnil", ""))
		case *types.Struct:
			if atomicStruct(at) {
				if v, ok := r.st.m[intern("bufof", "", t)]; ok {
					return mk("obj", typeKey(at), r.do(v))
				}
			}
			_ = u
		}
		v := ev.load1(t, at, r.st)
		return mk("obj", underlyingKey(at), r.do(v))
	case "load":
		if partOfResult(t.args[0]) != nil {
			return t
		}
	case "fa":
		// a part of an element of a list that was made for the caller is like
		// a variable with the same content
		if at := partOfResult(t); at != nil && r.only == nil {
			return mk("obj", underlyingKey(at), r.do(r.ev.load1(t, at, r.st)))
		}
	case "ia":
		// and so is an element of a list that was made here
		if b := t.args[0]; b.op == "alloc" && (r.only == nil || r.only(b)) {
			var et types.Type
			switch u := ev.allocT[b].Underlying().(type) {
			case *types.Slice:
				et = u.Elem()
			case *types.Array:
				et = u.Elem()
			}
			if et != nil {
				if _, ok := et.Underlying().(*types.Struct); ok && !atomicStruct(et) {
					for i := len(r.stack) - 1; i >= 0; i-- {
						if r.stack[i] == t {
							return intern("ref", strconv.Itoa(len(r.stack)-1-i))
						}
					}
					r.stack = append(r.stack, t)
					defer func() { r.stack = r.stack[:len(r.stack)-1] }()
					return mk("obj", underlyingKey(et), r.do(ev.load1(t, et, r.st)))
				}
			}
		}
	case "obj":
		// described before: references count it
		r.stack = append(r.stack, t)
		defer func() { r.stack = r.stack[:len(r.stack)-1] }()
	case "seq":
		l := ev.seqUpdates(t, r.st)
		return mk("seq", "", r.do(l))
	case "sl":
		if t.args[0].op == "alloc" || t.args[0].op == "seq" {
			if l := ev.listOf(t, r.st); l != nil {
				return mk("seq", "", r.do(l))
			}
		}
	}
	return r.atomOrTerm(t)
}

// libPkg is the package that is analysed.
var libPkg *types.Package

// partOfResult: the type of what the address refers to, if that is a field (of
// structure type) of an element of a list of methods, which TypeName.Methods
// copies.
func partOfResult(a *Term) types.Type {
	if a.op != "fa" || a.args[0].op != "ia" {
		return nil
	}
	l := a.args[0].args[0]
	if l.op != "invoke" || !strings.HasSuffix(l.aux, "gopoet.Methods") {
		return nil
	}
	if o := libPkg.Scope().Lookup("MethodType"); o != nil {
		if st, ok := o.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if _, ok := f.Type().Underlying().(*types.Struct); ok && f.Name() == a.aux {
					return f.Type()
				}
			}
		}
	}
	return nil
}

// isObj: described by an "obj" term (as opposed to the content of a list or
// a map).
func (r *reifier) isObj(t *Term, at types.Type) bool {
	switch at.Underlying().(type) {
	case *types.Slice, *types.Array:
		_, ok := r.st.m[intern("lenof", "", t)]
		return !ok
	case *types.Map:
		if _, ok := r.st.m[mk("mapof", "", t)]; ok {
			return false
		}
		_, ok := r.st.m[t]
		return ok
	}
	return true
}

func underlyingKey(t types.Type) string {
	if _, ok := t.Underlying().(*types.Struct); ok && !atomicStruct(t) {
		return structKey(t)
	}
	return typeKey(t)
}

func (r *reifier) atom(t *Term) *Term {
	x := r.atomOrTerm(t)
	if isBoolOp(t.op) && x.op != "ite" && !x.isConst() {
		return atomBool(x)
	}
	return x
}

func (r *reifier) atomOrTerm(t *Term) *Term {
	if len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	changed := false
	bb := binderBody(t.op)
	for i, a := range t.args {
		if i == bb {
			h := bodyHeight(t)
			tmp := newTempFor(t)
			o := subst(a, bvar(h), tmp)
			n := r.do(o)
			if n == o {
				args[i] = a
			} else {
				args[i] = bind(n, tmp)
				changed = true
			}
			continue
		}
		args[i] = r.do(a)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	return mk(t.op, t.aux, args...)
}

func sortedKeys(m map[*Term]*Term) []*Term {
	var ks []*Term
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

func trimPkg(s string) string { return strings.ReplaceAll(s, "github.com/jhump/gopoet.", "") }

var _ = fmt.Sprint
