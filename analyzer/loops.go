package main

import (
	"go/types"
	"strconv"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopInfo struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*loop
}

var loopMemo = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := loopMemo[fn]; ok {
		return l
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = 1
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if seen[s] == 0 {
				dfs(s)
			} else if seen[s] == 1 && !s.Dominates(b) {
				giveUp("irreducible control flow in %s", fn)
			}
		}
		seen[b] = 2
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	loopMemo[fn] = li
	return li
}

// carried is a value that flows from one iteration to the next.
type carried struct {
	phi   *ssa.Phi
	cell  *Term
	temp  *Term // value at the start of an iteration
	init  *Term
	next  *Term // value at the end of an iteration
	val   *Term // solution: value at the start of iteration it
	isB   bool
	what  string
	etype types.Type

	goesOn *Term // there is another iteration
}

func (fr *frame) runLoop(lp *loop, ins []edge) []edge {
	ev := fr.ev
	pcIn := orAll(ins)
	if pcIn == False {
		return nil
	}
	// what is known when the loop is entered
	saved := map[ssa.Value]*Term{}
	for v, t := range fr.env {
		if in, ok := v.(ssa.Instruction); ok && lp.blocks[in.Block()] {
			continue
		}
		if c := constrain(t, pcIn); c != t {
			saved[v] = t
			fr.env[v] = c
		}
	}
	defer func() {
		for v, t := range saved {
			fr.env[v] = t
		}
	}()
	if out, ok := fr.peel(lp, ins); ok {
		return out
	}
	st0 := ev.mergeStates(ins).clone()
	it := newTemp()
	var phis []*carried
	induct := map[*ssa.Phi]*Term{}
	for _, in := range lp.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			break
		}
		var v *Term
		for i := len(ins) - 1; i >= 0; i-- {
			x := fr.val(phi.Edges[predIndex(lp.header, ins[i].from)], st0)
			if v == nil {
				v = x
			} else {
				v = ite(ins[i].pc, x, v)
			}
		}
		v = constrain(v, pcIn)
		if step, ok := inductionStep(lp, phi); ok {
			switch step {
			case 1:
				induct[phi] = add(v, it)
			case -1:
				induct[phi] = mk("minus", "", v, it)
			}
			if induct[phi] != nil {
				continue
			}
		}
		if shrinking(lp, phi) {
			// rest = rest[1:]
			induct[phi] = mapLeaves(v, func(x *Term) *Term {
				n := ev.lenOf(x, st0)
				if x.op == "sl" {
					return mk("sl", "", x.args[0], add(x.args[1], it), x.args[2])
				}
				return mk("sl", "", x, it, n)
			})
			continue
		}
		c := &carried{phi: phi, init: v, temp: newTemp(), isB: isBool(phi.Type()), what: phi.Comment}
		if types.IsInterface(phi.Type()) {
			resultType[c.temp] = phi.Type()
		}
		phis = append(phis, c)
	}
	cells := map[*Term]*carried{}
	var cellList []*carried
	var exits, latches []edge
	var panicIter *Term
	var allocStart int
	var ls *State
	var symKeys []*Term
	for round := 0; ; round++ {
		if round > 14 {
			giveUp("loop in %s does not stabilise", fr.fn)
		}
		st := st0.clone()
		for _, c := range cellList {
			st.m[c.cell] = c.start()
		}
		for _, c := range phis {
			fr.env[c.phi] = c.start()
		}
		for p, v := range induct {
			fr.env[p] = v
		}
		savedP, savedRets := fr.panicC, len(fr.rets)
		fr.panicC = False
		fr.iter = append(fr.iter, it)
		fr.inLoop++
		before := len(fr.derefs)
		allocStart = allocCnt
		exits, latches = fr.runRegion(lp, lp.header, []edge{{nil, lp.header, True, st}})
		fr.inLoop--
		fr.derefs = fr.derefs[:before]
		fr.iter = fr.iter[:len(fr.iter)-1]
		panicIter = fr.panicC
		fr.panicC = savedP
		if len(fr.rets) != savedRets {
			giveUp("return inside a loop body of %s", fr.fn)
		}
		symKeys = nil
		if len(latches) == 0 {
			break
		}
		ls = ev.mergeStates(latches)
		changed := false
		for _, k := range sortedKeys(ls.m) {
			var entry *Term
			if c := cells[k]; c != nil {
				entry = c.start()
			} else if v, ok := st0.m[k]; ok {
				entry = v
			} else {
				entry = nil
			}
			v := ls.m[k]
			if entry == v {
				continue
			}
			if cells[k] != nil {
				continue
			}
			if ev.isLocal(k, allocStart) || k.hasTemp(it) || mentionsCarried(k, phis, cellList) {
				symKeys = append(symKeys, k)
				continue
			}
			if entry == nil {
				entry = ev.initial(k, st0)
				if entry == v {
					continue
				}
			}
			if v == entry {
				continue
			}
			c := &carried{cell: k, temp: newTemp(), init: entry, what: k.String()}
			if t := ev.cellType(k); t != nil && isBool(t) {
				c.isB = true
			} else if entry == True || entry == False {
				c.isB = true
			}
			cells[k] = c
			cellList = append(cellList, c)
			changed = true
		}
		if !changed {
			break
		}
	}
	// the bound of the loop
	H := False
	for _, e := range exits {
		if e.from == lp.header {
			H = or(H, e.pc)
		}
	}
	n := boundOf(H, it)
	bounded := n != nil
	if !bounded {
		n = Inf
	}
	A := True
	if bounded {
		A = not(H)
	}
	early := False
	for _, e := range exits {
		if bounded && e.from == lp.header {
			continue
		}
		early = or(early, constrain(e.pc, A))
	}
	early = or(early, constrain(panicIter, A))
	cont := not(early)
	all := append(append([]*carried(nil), phis...), cellList...)

	hoisted := map[*Term]bool{}
	if len(latches) > 0 {
		for _, c := range all {
			if c.phi != nil {
				var v *Term
				for i := len(latches) - 1; i >= 0; i-- {
					x := fr.val(c.phi.Edges[predIndex(lp.header, latches[i].from)], latches[i].st)
					if v == nil {
						v = x
					} else {
						v = ite(latches[i].pc, x, v)
					}
				}
				c.next = v
			} else {
				c.next = ls.m[c.cell]
				if c.next == nil {
					c.next = c.start()
				}
			}
			c.next = constrain(constrain(c.next, A), cont)
			c.goesOn = and(A, cont)
		}
		// objects made at most once
		for _, c := range all {
			hasX := false
			var al []*Term
			for _, l := range leavesOf(c.next) {
				if l == c.temp {
					hasX = true
				}
				if l.op == "alloc" && allocID(l) > allocStart {
					al = append(al, l)
				}
			}
			if hasX && len(al) == 1 {
				a := al[0]
				ok := true
				// once it is there, it stays
				z := ev.newAlloc(ev.allocT[a])
				for _, l := range leavesOf(subst(c.next, c.temp, z)) {
					if l != z {
						ok = false
					}
				}
				for _, l := range leavesOf(subst(c.next, c.temp, c.init)) {
					if l != a && l != c.init {
						ok = false
					}
				}
				if ok {
					hoisted[a] = true
				}
			}
		}
		local := func(t *Term) bool { return allocID(t) > allocStart && !hoisted[t] }
		for _, c := range all {
			c.next = ev.reifyOnly(c.next, ls, local)
		}
		fr.solve(all, it)
	} else {
		// the body never completes: the loop runs at most once
		for _, c := range all {
			c.val = c.init
		}
	}
	S := func(t *Term) *Term {
		for _, c := range all {
			if t.hasTemp(c.temp) {
				t = subst(t, c.temp, c.val)
			}
		}
		return t
	}
	// stores at places that depend on the iteration
	type qstore struct{ key, val *Term }
	var qs []qstore
	extra := newState()
	if len(latches) > 0 {
		local := func(t *Term) bool { return allocID(t) > allocStart && !hoisted[t] }
		comb := map[*Term]*Term{}
		var order []*Term
		for _, k := range symKeys {
			r := rootOfKey(k)
			if r.op == "alloc" && allocID(r) > allocStart && !hoisted[r] {
				continue // gone at the end of the iteration
			}
			v := constrain(constrain(ls.m[k], A), cont)
			if r.op == "alloc" && hoisted[r] && (k.op == "lenof" || k.op == "content" || k.op == "region") {
				v = S(ev.reifyOnly(definedLeaf(v), ls, local))
				if v.hasTemp(it) || k.hasTemp(it) {
					giveUp("content of a new slice depends on the iteration in %s", fr.fn)
				}
				extra.m[S(k)] = v
				continue
			}
			if r.op == "alloc" && hoisted[r] && !k.hasTemp(it) && k.op != "all" && !mentionsCarried(k, phis, cellList) {
				// a field of an object made at most once
				v = S(ev.reifyOnly(v, ls, local))
				if v.hasTemp(it) {
					giveUp("object made in a loop in %s", fr.fn)
				}
				extra.m[k] = v
				continue
			}
			init := ev.initial(k, st0)
			v = replaceLeaf(v, init, oldMark)
			v = S(ev.reifyOnly(v, ls, local))
			ka := S(ev.reifyKey(k, ls, local))
			for _, kl := range leavesOf(ka) {
				if kl == Undef || rootOfKey(kl) == Nil {
					continue
				}
				cond := mapLeaves(ka, func(x *Term) *Term { return boolTerm(x == kl) })
				if _, ok := comb[kl]; !ok {
					comb[kl] = oldMark
					order = append(order, kl)
				}
				// v where it says something, what was known otherwise
				prev := comb[kl]
				nv := mapLeaves(v, func(x *Term) *Term {
					if x == oldMark {
						return prev
					}
					return x
				})
				comb[kl] = ite(cond, nv, prev)
			}
		}
		for _, kl := range order {
			v := comb[kl]
			if v == oldMark {
				continue
			}
			tst := st0.clone()
			for k, x := range extra.m {
				tst.m[k] = x
			}
			var old *Term
			if rootOf(kl).op == "alloc" {
				old = ev.initial(kl, tst)
			} else {
				old = ev.get(kl, tst)
				if kl.op == "ia" && kl.args[0].op == "seq" {
					if x := indexSeq(kl.args[0].args[0], kl.args[1]); x != nil {
						old = x
					}
				}
			}
			v = mapLeaves(v, func(x *Term) *Term {
				if x == oldMark {
					return old
				}
				return x
			})
			if !kl.hasTemp(it) {
				giveUp("store to a place that changes in a loop of %s", fr.fn)
			}
			qs = append(qs, qstore{kl, v})
		}
	}
	if !bounded && early == False {
		// never ends
		return nil
	}
	E := S(early)
	anyE := False
	first := Nil
	if E != False {
		if bounded {
			anyE = mk("any", "", n, bind(E, it))
		} else {
			anyE = True
		}
		first = mk("first", "", n, bind(E, it))
		if b := boundOf(E, it); !bounded && b != nil && cmpGe(b, 0) == True {
			first = b
		}
	}
	finish := func(st *State, idx *Term, known *Term) *State {
		out := newState()
		for _, k := range sortedKeys(st.m) {
			v := st.m[k]
			kk := subst(S(k), it, idx)
			vv := subst(S(v), it, idx)
			if known != nil {
				vv = constrain(vv, known)
			}
			for _, kl := range leavesOf(kk) {
				if kl == Undef || rootOfKey(kl) == Nil {
					continue
				}
				if kk != kl {
					cond := mapLeaves(kk, func(x *Term) *Term { return boolTerm(x == kl) })
					out.m[kl] = ite(cond, vv, ev.get(kl, out))
				} else {
					out.m[kl] = vv
				}
			}
		}
		for k, v := range extra.m {
			if _, ok := out.m[k]; !ok || k.op == "lenof" || k.op == "content" {
				out.m[k] = v
			}
		}
		for _, q := range qs {
			key := mk("all", "", idx, bind(q.key, it))
			// the variable must be the same on both sides: bind separately
			out.m[key] = mkLam(q.val, it)
		}
		return out
	}
	// results
	type exitRes struct {
		e   edge
		idx *Term
		pc  *Term
	}
	var res []exitRes
	var out []edge
	for _, e := range exits {
		if bounded && e.from == lp.header {
			pc := not(anyE)
			// several edges from the header to the outside are not possible
			res = append(res, exitRes{e, n, pc})
			continue
		}
		c := constrain(S(constrain(e.pc, A)), E)
		res = append(res, exitRes{e, first, and(anyE, subst(c, it, first))})
	}
	if p := constrain(panicIter, A); p != False {
		c := constrain(S(p), E)
		pc := and(anyE, subst(c, it, first))
		fr.panicC = or(fr.panicC, and(pcIn, pc))
	}
	// values defined in the loop
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			t, ok := fr.env[v]
			if !ok {
				continue
			}
			t = S(t)
			if !t.hasTemp(it) {
				fr.env[v] = t
				continue
			}
			if !usedOutside(v, lp) {
				delete(fr.env, v)
				continue
			}
			var m *Term
			for i := len(res) - 1; i >= 0; i-- {
				x := subst(t, it, res[i].idx)
				if m == nil {
					m = x
				} else {
					m = ite(res[i].pc, x, m)
				}
			}
			if m != nil {
				fr.env[v] = m
			}
		}
	}
	for _, r := range res {
		pc := and(pcIn, r.pc)
		if pc == False {
			continue
		}
		var known *Term
		if r.idx == first && E != False {
			known = subst(E, it, first)
		}
		out = append(out, edge{r.e.from, r.e.to, pc, finish(r.e.st, r.idx, known)})
	}
	return out
}

func mkLam(v, it *Term) *Term { return internLam(bind(v, it)) }

func internLam(body *Term) *Term { return intern("lam", "", body) }

func (c *carried) start() *Term {
	if c.isB {
		return mk("b", "", c.temp)
	}
	return c.temp
}

func replaceLeaf(t, from, to *Term) *Term {
	if from == nil {
		return t
	}
	return mapLeaves(t, func(x *Term) *Term {
		if x == from {
			return to
		}
		return x
	})
}

func definedLeaf(v *Term) *Term {
	var r *Term
	for _, l := range leavesOf(v) {
		if l == Undef {
			continue
		}
		if r != nil && r != l {
			giveUp("ambiguous content of a new slice")
		}
		r = l
	}
	if r == nil {
		return Undef
	}
	return r
}

func rootOfKey(k *Term) *Term {
	switch k.op {
	case "bufof", "mapof", "lenof", "content", "region", "newlist":
		return rootOf(k.args[0])
	case "all":
		return rootOf(k.args[1])
	}
	return rootOf(k)
}

func (ev *Eval) isLocal(k *Term, start int) bool {
	if !k.obj {
		return false
	}
	if k.op == "alloc" {
		return allocID(k) > start
	}
	for _, a := range k.args {
		if ev.isLocal(a, start) {
			return true
		}
	}
	return false
}

func mentionsCarried(k *Term, lists ...[]*carried) bool {
	for _, l := range lists {
		for _, c := range l {
			if k.hasTemp(c.temp) {
				return true
			}
		}
	}
	return false
}

// cellType is the type of what is stored in a cell, if known.
func (ev *Eval) cellType(k *Term) types.Type {
	switch k.op {
	case "alloc", "fa", "ia":
		if rootOf(k).op == "alloc" {
			return ev.addrType(k)
		}
	}
	return nil
}

func usedOutside(v ssa.Value, lp *loop) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if !lp.blocks[r.Block()] {
			return true
		}
	}
	return false
}

// shrinking: a slice that loses its first element in every iteration.
func shrinking(lp *loop, phi *ssa.Phi) bool {
	if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	n := 0
	for i, p := range lp.header.Preds {
		if !lp.blocks[p] {
			continue
		}
		s, ok := phi.Edges[i].(*ssa.Slice)
		if !ok || s.X != ssa.Value(phi) || s.High != nil || s.Max != nil {
			return false
		}
		c, ok := s.Low.(*ssa.Const)
		if !ok || c.Int64() != 1 {
			return false
		}
		n++
	}
	return n > 0
}

func inductionStep(lp *loop, phi *ssa.Phi) (int64, bool) {
	b, ok := phi.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	step := int64(0)
	for i, p := range lp.header.Preds {
		if !lp.blocks[p] {
			continue
		}
		bo, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
			return 0, false
		}
		x, y := bo.X, bo.Y
		if bo.Op == token.ADD {
			if _, ok := x.(*ssa.Const); ok {
				x, y = y, x
			}
		}
		c, ok := y.(*ssa.Const)
		if !ok || x != ssa.Value(phi) {
			return 0, false
		}
		s := c.Int64()
		if bo.Op == token.SUB {
			s = -s
		}
		if step != 0 && s != step {
			return 0, false
		}
		step = s
	}
	return step, step != 0
}

// boundOf solves H == !(it < n) for n.
func boundOf(H, it *Term) *Term {
	switch {
	case H == False:
		return nil
	case H == True:
		return Zero
	}
	if H.op != "ite" {
		return nil
	}
	at, hi, lo := H.args[0], H.args[1], H.args[2]
	if !at.hasTemp(it) {
		a, b := boundOf(hi, it), boundOf(lo, it)
		if a == nil || b == nil {
			return nil
		}
		return ite(atomBool(at), a, b)
	}
	if at == firstAtom(cmpGe(it, 1)) && lo == False {
		// not before the second iteration
		if b := boundOf(hi, it); b != nil && cmpGe(b, 1) == True {
			return b
		}
	}
	switch at.op {
	case "lt":
		x, y := at.args[0], at.args[1]
		if hi == False && lo == True && !y.hasTemp(it) {
			// it + k < y
			if x == it {
				return y
			}
			if k, ok := addConst(x); ok && x.args[0] == it {
				return mk("add", strconv.FormatInt(-k, 10), y)
			}
			if x.op == "plus" {
				if x.args[0] == it && !x.args[1].hasTemp(it) {
					return mk("minus", "", y, x.args[1])
				}
				if x.args[1] == it && !x.args[0].hasTemp(it) {
					return mk("minus", "", y, x.args[0])
				}
			}
		}
		if hi == True && lo == False && !x.hasTemp(it) && y == it {
			// exit when x < it
			return mk("add", "1", x)
		}
	case "ge":
		if at.args[0] == it && hi == True && lo == False {
			k, _ := strconv.ParseInt(at.aux, 10, 64)
			return intTerm(k)
		}
		// counting down: exit when n-it < 1
		if m := at.args[0]; m.op == "minus" && m.args[1] == it && !m.args[0].hasTemp(it) && hi == False && lo == True {
			k, _ := strconv.ParseInt(at.aux, 10, 64)
			return mk("add", strconv.FormatInt(1-k, 10), m.args[0])
		}
	case "eq":
		// exit when it == n, counting up by one from below
		x, y := at.args[0], at.args[1]
		if hi == True && lo == False {
			if y == it && !x.hasTemp(it) && nonneg(x) {
				return x
			}
			if x == it && !y.hasTemp(it) && nonneg(y) {
				return y
			}
		}
	}
	return nil
}

// solve finds the values of carried variables at the start of an iteration.
func (fr *frame) solve(all []*carried, it *Term) {
	unsolved := append([]*carried(nil), all...)
	for pass := 0; len(unsolved) > 0; pass++ {
		var rest []*carried
		progress := false
		for _, c := range unsolved {
			n := c.next
			for _, d := range all {
				if d.val != nil && n.hasTemp(d.temp) {
					n = subst(n, d.temp, d.val)
				}
			}
			dep := false
			for _, d := range all {
				if d != c && d.val == nil && n.hasTemp(d.temp) {
					dep = true
				}
			}
			if !dep {
				c.val = solveOne(c, n, it)
			}
			if c.val != nil {
				progress = true
			} else {
				rest = append(rest, c)
			}
		}
		unsolved = rest
		if !progress {
			break
		}
	}
	for _, c := range unsolved {
		n := c.next
		for _, d := range all {
			if d.val != nil && n.hasTemp(d.temp) {
				n = subst(n, d.temp, d.val)
			}
		}
		for _, d := range unsolved {
			if d != c && n.hasTemp(d.temp) {
				giveUp("values of %s and %s depend on each other across iterations of a loop in %s", c.what, d.what, fr.fn)
			}
		}
		// a general fold
		c.val = mk("fold", "", it, c.init, internLam(bind(internLam(bind(n, it)), c.temp)))
		if c.isB {
			c.val = mk("b", "", c.val)
		}
	}
}

func solveOne(c *carried, n, it *Term) *Term {
	x := c.temp
	if n == c.start() {
		return c.init
	}
	if !n.hasTemp(x) {
		if n == c.init {
			return n
		}
		return ite(cmpGe(it, 1), subst(n, it, mk("add", "-1", it)), c.init)
	}
	// what is left of a text when one part after the other is cut off
	if s := n; !c.isB {
		if s.op == "ite" && s.args[2] == Empty && s.args[1].op == "sslice" && s == ite(cmpGe(mk("call", "strings.Index", x, cutBy(s.args[1])), 0), s.args[1], Empty) {
			s = s.args[1]
		}
		if sep := cutBy(s); sep != Empty && s.args[0] == x && (s != n || c.goesOn != nil && constrain(cmpGe(mk("call", "strings.Index", x, sep), 0), c.goesOn) == True) {
			return mk("cutrest", "", c.init, sep, it)
		}
	}
	if c.isB {
		b := mk("b", "", x)
		if b.op != "ite" {
			return nil
		}
		at := b.args[0]
		n1, n0 := restrict(n, at, true), restrict(n, at, false)
		if n1.hasTemp(x) || n0.hasTemp(x) {
			return nil
		}
		if n1 == True {
			return or(c.init, mk("any", "", it, bind(n0, it)))
		}
		if n0 == False {
			return and(c.init, not(mk("any", "", it, bind(not(n1), it))))
		}
		return nil
	}
	// accumulation
	if d, kind := delta(n, x); d != nil && !d.hasTemp(x) {
		switch kind {
		case "t":
			return mk("cat", "", c.init, mk("for", "t", it, bind(d, it)))
		case "l":
			return mk("lcat", "", c.init, mk("for", "l", it, bind(d, it)))
		case "s":
			return mk("seq", "", mk("lcat", "", mk("spread", "", c.init), mk("for", "l", it, bind(d, it))))
		case "i":
			if d.isInt() && d.intVal() == 1 {
				return add(c.init, it)
			}
			return add(c.init, mk("sum", "", it, internLam(bind(d, it))))
		}
	}
	// conditions and other values that do not depend on x
	{
		hasK := false
		var k *Term
		ok := true
		for _, l := range leavesOf(n) {
			if l == x {
				continue
			}
			if l.hasTemp(x) {
				ok = false
			}
			if hasK && l != k {
				k = nil
			} else if !hasK {
				k = l
			}
			hasK = true
		}
		cond := mapLeaves(n, func(l *Term) *Term { return boolTerm(l != x) })
		if ok && !cond.hasTemp(x) {
			if k != nil && !k.hasTemp(it) {
				return ite(mk("any", "", it, bind(cond, it)), k, c.init)
			}
			v := constrain(n, cond)
			last := mk("last", "", it, bind(cond, it))
			return ite(mk("any", "", it, bind(cond, it)), subst(v, it, last), c.init)
		}
	}
	// two states: the initial one, and another that is kept
	{
		var k *Term
		for _, l := range leavesOf(subst(n, x, c.init)) {
			if l == c.init {
				continue
			}
			if k != nil && l != k {
				k = nil
				break
			}
			k = l
		}
		if k != nil && !k.hasTemp(it) {
			if nk := subst(n, x, k); nk == k {
				ni := subst(n, x, c.init)
				cond := mapLeaves(ni, func(l *Term) *Term { return boolTerm(l != c.init) })
				return ite(mk("any", "", it, bind(cond, it)), k, c.init)
			}
		}
	}
	return nil
}

// cutBy is the separator of text[strings.Index(text, separator)+len(separator):]
func cutBy(t *Term) *Term {
	if t.op != "sslice" || t.args[2] != Nil {
		return Empty
	}
	k, ok := addConst(t.args[1])
	if !ok {
		return Empty
	}
	i := t.args[1].args[0]
	if i.op != "call" || i.aux != "strings.Index" || i.args[0] != t.args[0] || !i.args[1].isStr() || int64(len(i.args[1].str())) != k || k == 0 {
		return Empty
	}
	return i.args[1]
}

// delta: n as x followed by something.
func delta(n, x *Term) (*Term, string) {
	kind := ""
	for _, l := range leavesOf(n) {
		switch {
		case l.op == "cat" && l.args[0] == x:
			kind += "t"
		case l.op == "lcat" && l.args[0] == x:
			kind += "l"
		case l.op == "seq" && l.args[0].op == "lcat" && l.args[0].args[0].op == "spread" && l.args[0].args[0].args[0] == x:
			kind += "s"
		case l.op == "seq" && l.args[0].op == "spread" && l.args[0].args[0] == x:
			kind += "s"
		case l.op == "add" && l.args[0] == x:
			kind += "i"
		case l == x:
		default:
			return nil, ""
		}
	}
	if kind == "" {
		return nil, ""
	}
	for i := range kind {
		if kind[i] != kind[0] {
			return nil, ""
		}
	}
	d := mapLeaves(n, func(l *Term) *Term {
		switch {
		case l == x:
			switch kind[0] {
			case 't':
				return Empty
			case 'i':
				return Zero
			}
			return LNil
		case kind[0] == 't':
			return mkCat(l.args[1:])
		case kind[0] == 'l':
			return mkLcat(l.args[1:])
		case kind[0] == 's':
			if l.args[0].op == "spread" {
				return LNil
			}
			return mkLcat(l.args[0].args[1:])
		case kind[0] == 'i':
			return intern("const", l.aux)
		}
		return Undef
	})
	return d, kind[:1]
}
