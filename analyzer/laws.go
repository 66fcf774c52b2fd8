package main

// Laws about loops over lists that were built by other loops, and about the
// separators between what a loop writes.

// loopLaw rewrites a loop over a list whose parts are known into loops over
// the parts, and a separator that is written after every element but the last
// into one that is written before every element but the first. It returns nil
// if there is nothing to rewrite.
func loopLaw(op, aux string, n, body *Term, h int) *Term {
	if n == Inf {
		return nil
	}
	it := bvar(h)
	if seq := seqIndexed(body, it, n); seq != nil {
		tmp := newTemp()
		if r := overParts(op, aux, seq, subst(body, it, tmp), tmp); r != nil {
			return r
		}
	}
	// the first m elements
	if m := headBound(body, it, n); m != nil && op != "first" {
		tmp := newTemp()
		b := subst(body, it, tmp)
		head := mk(op, aux, m, bind(restrict(b, intern("lt", "", tmp, m), true), tmp))
		tmp2 := newTemp()
		b = subst(restrict(b, intern("lt", "", tmp, m), false), tmp, add(tmp2, m))
		tail := mk(op, aux, mk("minus", "", n, m), bind(b, tmp2))
		return join(op, aux, []*Term{head, tail})
	}
	// the last element
	if lt := mk("lt", "", mk("add", "1", it), n); lt.op == "ite" && lt.args[1] == True && lt.args[2] == False && occursIn(body, lt.args[0]) {
		at := lt.args[0]
		atEnd := restrict(body, at, false)
		if n.op == "len" && n.args[0].op == "call" && n.args[0].aux == "strings.Split" {
			// what is left is the last part
			parts := n.args[0]
			atEnd = subst(atEnd, intern("cutrest", "", parts.args[0], parts.args[1], it), mk("load", "", mk("ia", "", parts, it)))
		}
		nb := ite(mk("eq", "", mk("add", "1", it), n), atEnd, restrict(body, at, true))
		if !occursIn(nb, at) {
			return mk(op, aux, n, rebind(nb, h))
		}
	}
	if op == "for" && aux == "t" {
		eq := mk("eq", "", mk("add", "1", it), n)
		if eq.op == "ite" && eq.args[1] == True && eq.args[2] == False && occursIn(body, eq.args[0]) {
			b1, b0 := restrict(body, eq.args[0], true), restrict(body, eq.args[0], false)
			_, mid, sep := splitIte(b0)
			if b0.op != "ite" {
				mid, sep = cutTail(b0)
			}
			if sep != "" && mid != Empty && !endsLike(b1, sep) {
				return mk("for", "t", n, rebind(mk("cat", "", ite(cmpGe(it, 1), strTerm(sep), Empty), ite(eq, b1, mid)), h))
			}
		}
	}
	return nil
}

// cutTail splits a text into what comes before its constant end, and that end.
func cutTail(t *Term) (*Term, string) {
	if l := lastPiece(t); l.isStr() {
		ps := textPieces(t)
		return mkCat(append([]*Term(nil), ps[:len(ps)-1]...)), l.str()
	}
	if l := lastPiece(t); l.op == "ite" {
		ps := textPieces(t)
		pre, mid, suf := splitIte(l)
		if suf != "" {
			out := append([]*Term(nil), ps[:len(ps)-1]...)
			return mkCat(append(out, strTerm(pre), mid)), suf
		}
	}
	return t, ""
}

// endsLike: a case of the text ends with the last character of sep, or may be
// empty.
func endsLike(t *Term, sep string) bool {
	for _, l := range leavesOf(t) {
		p := lastPiece(l)
		if l == Empty {
			return true
		}
		if p.isStr() {
			if s := p.str(); s != "" && s[len(s)-1] == sep[len(sep)-1] {
				return true
			}
		} else if p.op == "ite" && endsLike(p, sep) {
			return true
		}
	}
	return false
}

// seqIndexed finds a list of known parts of n elements whose element at it is
// used in the body.
func seqIndexed(body, it, n *Term) *Term {
	seen := map[*Term]bool{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		if seen[t] || len(t.args) == 0 {
			return nil
		}
		seen[t] = true
		if t.op == "ia" && t.args[1] == it && t.args[0].op == "seq" && mk("len", "", t.args[0]) == n {
			return t.args[0]
		}
		for _, a := range t.args {
			if r := find(a); r != nil {
				return r
			}
		}
		return nil
	}
	return find(body)
}

// headBound finds a bound m, below the number of iterations n, that the iteration
// is compared with.
func headBound(body, it, n *Term) *Term {
	if n.op != "plus" {
		return nil
	}
	seen := map[*Term]bool{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		if seen[t] || len(t.args) == 0 {
			return nil
		}
		seen[t] = true
		if t.op == "lt" && t.args[0] == it && nonneg(t.args[1]) && nonneg(mk("minus", "", n, t.args[1])) {
			return t.args[1]
		}
		for _, a := range t.args {
			if r := find(a); r != nil {
				return r
			}
		}
		return nil
	}
	return find(body)
}

// overParts is the loop over the elements of a list, part by part.
func overParts(op, aux string, seq, body, it *Term) *Term {
	if op == "first" {
		return nil
	}
	ia := mk("ia", "", seq, it)
	z := newTemp()
	b := subst(body, ia, z)
	usesIndex := b.hasTemp(it)
	var out []*Term
	off := Zero
	for _, p := range pieces(seq.args[0]) {
		pl := pieceLen(p)
		if pl == nil && (p.op != "for" || usesIndex || p.args[0] == Inf) {
			return nil
		}
		at := func(i, el *Term) *Term {
			return subst(subst(b, it, add(i, off)), z, el)
		}
		switch {
		case p.op == "elem":
			out = append(out, at(Zero, intern("obj", "", p.args[0])))
		case p.op == "spread":
			i := newTemp()
			out = append(out, mk(op, aux, pl, bind(at(i, mk("ia", "", p.args[0], i)), i)))
		default:
			// each element that the part adds
			i := newTemp()
			ok := true
			var conv func(l *Term) *Term
			conv = func(l *Term) *Term {
				switch l.op {
				case "elem":
					return at(i, intern("obj", "", l.args[0]))
				case "lnil":
					return none(op, aux)
				case "lcat":
					var xs []*Term
					for _, a := range l.args {
						xs = append(xs, mapLeaves(a, conv))
					}
					return join(op, aux, xs)
				}
				ok = false
				return Undef
			}
			x := mapLeaves(openBody(p, i), conv)
			if !ok {
				return nil
			}
			out = append(out, mk(op, aux, p.args[0], bind(x, i)))
		}
		if pl != nil {
			off = add(off, pl)
		}
	}
	return join(op, aux, out)
}

func none(op, aux string) *Term {
	switch {
	case op == "any":
		return False
	case aux == "t":
		return Empty
	}
	return LNil
}

func join(op, aux string, xs []*Term) *Term {
	switch {
	case op == "any":
		r := False
		for _, x := range xs {
			r = or(r, x)
		}
		return r
	case aux == "t":
		return mk("cat", "", xs...)
	}
	return mk("lcat", "", xs...)
}

type emptyKey struct{ t, n *Term }

var emptyMemo = map[emptyKey]*Term{}

// emptyLists is t where made lists of n elements are empty.
func emptyLists(t, n *Term) *Term {
	if !t.seq {
		return t
	}
	k := emptyKey{t, n}
	if r, ok := emptyMemo[k]; ok {
		return r
	}
	r := t
	if t.op == "seq" && mk("len", "", t) == n {
		r = Nil
	} else {
		args := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			args[i] = emptyLists(a, n)
			same = same && args[i] == a
		}
		if bb := binderBody(t.op); bb >= 0 && !same {
			args[bb] = rebind(args[bb], bodyHeight(t))
		}
		if !same {
			if t.op == "ite" {
				r = node(args[0], args[1], args[2])
			} else {
				r = mk(t.op, t.aux, args...)
			}
		}
	}
	emptyMemo[k] = r
	return r
}

// anyEntry: some entry of a map has the given key, or the maps of an Imports
// (which are the inverse of each other) have an entry with the given value.
func anyEntry(n, body *Term, h int) *Term {
	if n.op != "len" || n.args[0].op != "mapc0" || body.op != "ite" || body.args[1] != True || body.args[2] != False || body.args[0].op != "eq" {
		return nil
	}
	m := n.args[0]
	for j := 0; j < 2; j++ {
		e, k := body.args[0].args[j], body.args[0].args[1-j]
		if containsBV(k, h) {
			continue
		}
		at, part := e, ""
		if at.op == "field" {
			at, part = at.args[0], at.aux
		}
		if at.op != "mapkey" && at.op != "mapval" || at.args[0] != m || at.args[1] != bvar(h) {
			continue
		}
		if at.op == "mapkey" {
			if part == "" {
				return mk("has", "", m, k)
			}
			continue
		}
		x := m.args[0]
		if x.op != "load" || x.args[0].op != "fa" {
			continue
		}
		inverse := map[[2]string]string{{"importsByPath", "packageName"}: "pathsByName", {"pathsByName", ""}: "importsByPath"}[[2]string{x.args[0].aux, part}]
		if inverse == "" {
			continue
		}
		y := mk("load", x.aux, mk("fa", inverse, x.args[0].args[0]))
		return mk("has", "", intern("mapc0", "", y), k)
	}
	return nil
}
