package main

import (
	"go/constant"
	"go/types"
	"path"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// simplify builds a term from arguments that are not conditional.
func simplify(op, aux string, args []*Term) *Term {
	switch op {
	case "cat":
		return mkCat(args)
	case "lcat":
		return mkLcat(args)
	case "joined":
		return mkJoined(args[0], args[1])
	case "b":
		if args[0].isConst() {
			return args[0]
		}
		if isBoolOp(args[0].op) {
			return atomBool(args[0])
		}
		return boolCall(args[0])
	case "op":
		if r := foldOp(aux, args); r != nil {
			return r
		}
	case "sl":
		if x := args[0]; args[1] == Zero && x.op != "alloc" && x.op != "seq" && args[2] == mk("len", "", x) {
			return x
		}
	case "eq":
		return mkEq(args[0], args[1])
	case "ge":
		return mkGe(aux, args[0])
	case "lt":
		return mkLt(args[0], args[1])
	case "is":
		return mkIs(aux, args[0])
	case "add":
		k, _ := strconv.ParseInt(aux, 10, 64)
		x := args[0]
		if k == 0 {
			return x
		}
		if x.isInt() {
			return intTerm(x.intVal() + k)
		}
		if j, ok := addConst(x); ok {
			return mk("add", strconv.FormatInt(k+j, 10), x.args[0])
		}
		return intern("add", aux, x)
	case "plus":
		a, b := args[0], args[1]
		if a.isInt() {
			return mk("add", a.aux, b)
		}
		if b.isInt() {
			return mk("add", b.aux, a)
		}
		if k, ok := addConst(a); ok {
			return mk("add", strconv.FormatInt(k, 10), mk("plus", "", a.args[0], b))
		}
		if k, ok := addConst(b); ok {
			return mk("add", strconv.FormatInt(k, 10), mk("plus", "", a, b.args[0]))
		}
		return sumOf(append(summands(a), summands(b)...))
	case "minus":
		a, b := args[0], args[1]
		if b.isInt() {
			return mk("add", strconv.FormatInt(-b.intVal(), 10), a)
		}
		if a == b {
			return Zero
		}
		if k, ok := addConst(a); ok {
			return mk("add", strconv.FormatInt(k, 10), mk("minus", "", a.args[0], b))
		}
		if k, ok := addConst(b); ok {
			return mk("add", strconv.FormatInt(-k, 10), mk("minus", "", a, b.args[0]))
		}
		if xs, ys, ok := cancel(summands(a), summands(b)); ok {
			return mk("minus", "", sumOf(xs), sumOf(ys))
		}
		return intern("minus", "", a, b)
	case "field":
		x := args[0]
		if x.op == "struct" {
			st := typeReg[x.aux].(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == aux {
					return x.args[i]
				}
			}
		}
		if x.op == "load" {
			return mk("load", "", mk("fa", aux, x.args[0]))
		}
		if x == Undef {
			return Undef
		}
	case "struct":
		return mkStruct(aux, args)
	case "len":
		return mkLen(args[0])
	case "slen":
		x := args[0]
		if x.isStr() {
			return intTerm(int64(len(x.str())))
		}
	case "sidx":
		return mkSidx(args[0], args[1])
	case "sslice":
		return mkSslice(args[0], args[1], args[2])
	case "ext":
		if args[0].op == "tup" {
			i, _ := strconv.Atoi(aux)
			return args[0].args[i]
		}
		if args[0] == Undef {
			return Undef
		}
	case "unwrap":
		x := args[0]
		if x.op == "iface" && x.aux == aux {
			return x.args[0]
		}
	case "cutrest":
		if args[2] == Zero {
			return args[0]
		}
		if parts := mk("call", "strings.Split", args[0], args[1]); args[2] == mk("add", "-1", mk("len", "", parts)) {
			return mk("load", "", mk("ia", "", parts, args[2]))
		}
	case "iface":
		x := args[0]
		if x.op == "unwrap" && x.aux == aux {
			return x.args[0]
		}
	case "load":
		if args[0].op == "ia" {
			x, i := args[0].args[0], args[0].args[1]
			if x.op == "seq" {
				if r := indexSeq(x.args[0], i); r != nil {
					return r
				}
			}
			if x.op == "call" && i == Zero && (x.aux == "strings.Split" || x.aux == "strings.SplitN" && x.args[2].isInt() && x.args[2].intVal() > 1) && nonEmptyText(x.args[1]) {
				return mk("ext", "0", mk("call", "strings.Cut", x.args[0], x.args[1]))
			}
		}
		if args[0].op == "obj" {
			return args[0].args[0]
		}
		if args[0].op == "fa" {
			// a field of an element of a list that is known
			l := args[0].args[0]
			root := l
			for root.op == "fa" {
				root = root.args[0]
			}
			if root.op == "ia" && root.args[0].op == "seq" || root.op == "obj" {
				if v := mk("load", "", l); v.op != "load" || v.args[0] != l {
					return mapLeaves(v, func(x *Term) *Term { return mk("field", args[0].aux, x) })
				}
			}
		}
	case "fa":
		if x := args[0]; x.op == "obj" {
			// address within an object that was created and is known
			if st, ok := typeReg[x.aux].(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if f := st.Field(i); f.Name() == aux {
						return mk("obj", underlyingKey(f.Type()), mk("field", aux, x.args[0]))
					}
				}
			}
		}
	case "invoke":
		// the model of a Go type has the element of that type (what that model
		// is, is checked on its own)
		if aux == "gopoet.Elem" && len(args) == 1 {
			if x := goTypeOf(args[0]); x != nil {
				return mk("call", args[0].aux, mk("invoke", "go/types.Elem", x))
			}
		}
	case "elem":
		// elements are boxed as they are
	case "sprintf":
		// what the list of operands is does not matter, only what is in it
		switch x := args[1]; {
		case x.op == "seq" && x.args[0] == LNil:
			return mk("sprintf", "", args[0], Nil)
		case x.op == "param" || x.op == "load" || x.op == "field":
			return mk("sprintf", "", args[0], mk("seq", "", mk("spread", "", x)))
		}
	case "seq":
		if args[0].op == "spread" {
			// a fresh copy
		}
	case "spread":
		if x := args[0]; x.op == "for" || x.op == "lcat" || x.op == "elem" {
			return x
		}
		if args[0].op == "seq" {
			return args[0].args[0]
		}
		if n := instanceLen(args[0]); n != nil {
			return mk("lcat", "", intern("spread", "", args[0]))
		}
		if args[0] == Nil {
			return LNil
		}
	case "sorted":
		if r := sortKnownList(args[0], args[1]); r != nil {
			return r
		}
		if r := sortedKeysOf(args[0], args[1]); r != nil {
			return r
		}
	case "get":
		// get(mapcontent, key)
		return mkGet(args[0], args[1], args[2])
	case "mapc0":
		if args[0] == Nil {
			return mk("mnil", "")
		}
	case "has":
		return mkHas(args[0], args[1])
	case "itoa":
		if args[0].isInt() {
			return strTerm(strconv.FormatInt(args[0].intVal(), 10))
		}
	case "quote":
		if args[0].isStr() {
			return strTerm(strconv.Quote(args[0].str()))
		}
	case "array":
		// eta: all elements of another array
		for i, a := range args {
			if a.op != "aidx" || a.aux != strconv.Itoa(i) || a.args[0] != args[0].args[0] {
				break
			}
			if i == len(args)-1 {
				return a.args[0]
			}
		}
	case "aidx":
		if x := args[0]; x.op == "array" {
			if n, err := strconv.Atoi(aux); err == nil && n >= 0 && n < len(x.args) {
				return x.args[n]
			}
		}
	case "put":
		// known keys are kept in order
		if m, k := args[0], args[1]; m.op == "put" && knownKey(k) && knownKey(m.args[1]) && !k.obj && !m.args[1].obj {
			if m.args[1] == k {
				return mk("put", "", m.args[0], k, args[2])
			}
			if k.String() < m.args[1].String() {
				return intern(op, aux, mk("put", "", m.args[0], k, args[2]), m.args[1], m.args[2])
			}
		}
		return intern(op, aux, args...)
	case "call":
		// the meaning of the text operations on known texts
		if len(args) == 1 && args[0].isStr() {
			x := args[0].str()
			switch aux {
			case "path.Base":
				return strTerm(path.Base(x))
			case "path.Dir":
				return strTerm(path.Dir(x))
			case "strings.TrimSpace":
				return strTerm(strings.TrimSpace(x))
			}
		}
		if r := simplifyCall(aux, args); r != nil {
			return r
		}
	case "str":
		// text of a value
		x := args[0]
		if x.op == "iface" {
			if t := typeReg[x.aux]; t != nil {
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !hasStringMethod(t) {
					return x.args[0]
				}
			}
		}
	}
	if isBoolOp(op) {
		return atomBool(intern(op, aux, args...))
	}
	return intern(op, aux, args...)
}

func hasStringMethod(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" || n == "Format" || n == "GoString" {
			return true
		}
	}
	return false
}

func mkStruct(aux string, args []*Term) *Term {
	st := typeReg[aux].(*types.Struct)
	// eta: all fields taken from the same value
	if len(args) > 0 {
		var base *Term
		kind := ""
		ok := true
		for i, a := range args {
			n := st.Field(i).Name()
			var b *Term
			k := ""
			switch {
			case a.op == "field" && a.aux == n:
				b, k = a.args[0], "f"
			case a.op == "load" && a.args[0].op == "fa" && a.args[0].aux == n:
				b, k = a.args[0].args[0], "l"
			default:
				ok = false
			}
			if !ok {
				break
			}
			if base == nil {
				base, kind = b, k
			} else if base != b || kind != k {
				ok = false
				break
			}
		}
		if ok && base != nil {
			// the base must really be a value of this structure; a prefix of
			// another struct with the same field names is not possible in
			// practice, as loads always name all fields
			if kind == "l" {
				base = mk("load", "", base)
			}
			structT[base] = aux
			return base
		}
		// truth values are conditions
		for i, a := range args {
			if (a.op == "load" || a.op == "field") && i < st.NumFields() && isBool(st.Field(i).Type()) {
				hi, lo := append([]*Term(nil), args...), append([]*Term(nil), args...)
				hi[i], lo[i] = True, False
				return ite(mk("b", "", a), mkStruct(aux, hi), mkStruct(aux, lo))
			}
		}
	}
	return intern("struct", aux, args...)
}

func mkCat(args []*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == "cat" {
			for _, a := range t.args {
				push(a)
			}
			return
		}
		if t == Empty {
			return
		}
		n := len(out)
		if n > 0 && t.isStr() && out[n-1].isStr() {
			out[n-1] = strTerm(out[n-1].str() + t.str())
			return
		}
		if t.op == "ite" {
			if n > 0 && out[n-1].op == "ite" && out[n-1].args[0] == t.args[0] {
				prev := out[n-1]
				out = out[:n-1]
				push(node(t.args[0], mkCat([]*Term{prev.args[1], t.args[1]}), mkCat([]*Term{prev.args[2], t.args[2]})))
				return
			}
			if pre, mid, suf := splitIte(t); pre != "" || suf != "" {
				push(strTerm(pre))
				push(mid)
				push(strTerm(suf))
				return
			}
		}
		out = append(out, t)
	}
	for _, a := range args {
		push(a)
	}
	if r := rotateJoin(out); r != nil {
		return mkCat(r)
	}
	if r := lastPart(out); r != nil {
		return mkCat(r)
	}
	switch len(out) {
	case 0:
		return Empty
	case 1:
		return out[0]
	}
	return intern("cat", "", out...)
}

// lastPart: what a loop over all but the last element writes, and then the same
// for the last one.
func lastPart(out []*Term) []*Term {
	for k, t := range out {
		if t.op != "for" || k+1 == len(out) {
			continue
		}
		if j, ok := addConst(t.args[0]); !ok || j != -1 || !atLeastOne(t.args[0].args[0]) {
			continue
		}
		ps := textPieces(openBody(t, t.args[0]))
		rest := out[k+1:]
		if len(ps) == 0 || len(ps) > len(rest) {
			continue
		}
		same := true
		for i, p := range ps {
			same = same && (p == rest[i] || i == len(ps)-1 && p.isStr() && rest[i].isStr() && strings.HasPrefix(rest[i].str(), p.str()))
		}
		if !same {
			continue
		}
		r := append([]*Term(nil), out[:k]...)
		it := newTemp()
		r = append(r, mk("for", "t", t.args[0].args[0], bind(openBody(t, it), it)))
		if l := ps[len(ps)-1]; l != rest[len(ps)-1] {
			r = append(r, strTerm(strings.TrimPrefix(rest[len(ps)-1].str(), l.str())))
		}
		return append(r, rest[len(ps):]...)
	}
	return nil
}

// rotateJoin: P x1 T P x2 T P x3 T, with the separator TP written between the
// elements of a list that is not empty, is P xi T for each element.
func rotateJoin(out []*Term) []*Term {
	for k, t := range out {
		if t.op != "for" || k == 0 && len(out) == 1 || !atLeastOne(t.args[0]) {
			continue
		}
		it := newTemp()
		ps := textPieces(openBody(t, it))
		if len(ps) < 2 || ps[0] != ite(cmpGe(it, 1), leafText(ps[0]), Empty) {
			continue
		}
		sep := leafText(ps[0]).str()
		pre, post := "", ""
		if k > 0 && out[k-1].isStr() {
			pre = out[k-1].str()
		}
		if k+1 < len(out) && out[k+1].isStr() {
			post = out[k+1].str()
		}
		for n := len(sep); n >= 0; n-- {
			tail, head := sep[:n], sep[n:]
			if !strings.HasPrefix(post, tail) || !strings.HasSuffix(pre, head) {
				continue
			}
			body := append(append([]*Term{strTerm(head)}, ps[1:]...), strTerm(tail))
			r := append([]*Term(nil), out[:k]...)
			if k > 0 && out[k-1].isStr() {
				r[k-1] = strTerm(pre[:len(pre)-len(head)])
			}
			r = append(r, mk("for", "t", t.args[0], bind(mkCat(body), it)))
			rest := append([]*Term(nil), out[k+1:]...)
			if len(rest) > 0 && rest[0].isStr() {
				rest[0] = strTerm(post[len(tail):])
			}
			return append(r, rest...)
		}
	}
	return nil
}

// leafText is the text of a conditional that is a text or nothing.
func leafText(t *Term) *Term {
	if t.op == "ite" {
		for _, l := range leavesOf(t) {
			if l.isStr() && l != Empty {
				return l
			}
		}
	}
	return Empty
}

// atLeastOne: a count that cannot be zero.
func atLeastOne(n *Term) bool {
	return cmpGe(n, 1) == True
}

// splitIte: constant text that all cases of a conditional text begin or end
// with.
func splitIte(t *Term) (string, *Term, string) {
	ls := leavesOf(t)
	pre, suf := "", ""
	for i, l := range ls {
		f := firstPiece(l)
		if !f.isStr() {
			pre = ""
			break
		}
		s := f.str()
		if i == 0 {
			pre = s
		}
		n := 0
		for n < len(pre) && n < len(s) && pre[n] == s[n] {
			n++
		}
		pre = pre[:n]
	}
	if pre != "" {
		t = mapLeaves(t, func(l *Term) *Term {
			ps := append([]*Term(nil), textPieces(l)...)
			ps[0] = strTerm(ps[0].str()[len(pre):])
			return mkCat(ps)
		})
		if t.op != "ite" {
			return pre, t, ""
		}
		ls = leavesOf(t)
	}
	for i, l := range ls {
		f := lastPiece(l)
		if !f.isStr() {
			suf = ""
			break
		}
		s := f.str()
		if i == 0 {
			suf = s
		}
		n := 0
		for n < len(suf) && n < len(s) && suf[len(suf)-1-n] == s[len(s)-1-n] {
			n++
		}
		suf = suf[len(suf)-n:]
	}
	if suf != "" {
		t = mapLeaves(t, func(l *Term) *Term {
			ps := append([]*Term(nil), textPieces(l)...)
			k := len(ps) - 1
			s := ps[k].str()
			ps[k] = strTerm(s[:len(s)-len(suf)])
			return mkCat(ps)
		})
	}
	return pre, t, suf
}

func mkLcat(args []*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == "lcat" {
			for _, a := range t.args {
				push(a)
			}
			return
		}
		if t == LNil {
			return
		}
		if t.op == "spread" {
			x := t.args[0]
			if x == Nil {
				return
			}
			if x.op == "seq" {
				push(x.args[0])
				return
			}
			if n := instanceLen(x); n != nil {
				for i := int64(0); i < n.intVal(); i++ {
					out = append(out, mk("elem", "", mk("load", "", mk("ia", "", x, intTerm(i)))))
				}
				return
			}
		}
		out = append(out, t)
	}
	for _, a := range args {
		push(a)
	}
	switch len(out) {
	case 0:
		return LNil
	case 1:
		return out[0]
	}
	return intern("lcat", "", out...)
}

// mkJoined: the texts of a list with a separator between them.
func mkJoined(l, sep *Term) *Term {
	var out []*Term
	n := Zero
	for _, p := range pieces(l) {
		pl := pieceLen(p)
		if pl == nil {
			return intern("joined", "", l, sep)
		}
		switch {
		case p.op == "elem":
			out = append(out, ite(cmpGe(n, 1), sep, Empty), p.args[0])
		default:
			it := newTemp()
			var x *Term
			if p.op == "for" {
				x = openBody(p, it).args0()
			} else {
				x = mk("load", "", mk("ia", "", p.args[0], it))
			}
			body := mk("cat", "", ite(or(cmpGe(it, 1), cmpGe(n, 1)), sep, Empty), x)
			out = append(out, mk("for", "t", pl, bind(body, it)))
		}
		n = add(n, pl)
	}
	return mk("cat", "", out...)
}

func pieces(l *Term) []*Term {
	switch l.op {
	case "lnil":
		return nil
	case "lcat":
		return l.args
	}
	return []*Term{l}
}

// pieceLen is the number of elements of a piece of a list, or nil.
func pieceLen(p *Term) *Term {
	switch p.op {
	case "elem":
		return intTerm(1)
	case "spread":
		return mk("len", "", p.args[0])
	case "for":
		if allElem(p.args[1]) {
			return p.args[0]
		}
	}
	return nil
}

// allElem: one element in every case.
func allElem(b *Term) bool {
	for _, l := range leavesOf(b) {
		if l.op != "elem" {
			return false
		}
	}
	return true
}

func mkLen(x *Term) *Term {
	switch x.op {
	case "const":
		if x == Nil {
			return Zero
		}
	case "seq":
		n := Zero
		for _, p := range pieces(x.args[0]) {
			pl := pieceLen(p)
			if pl == nil {
				return intern("len", "", x)
			}
			n = add(n, pl)
		}
		return n
	case "put":
		if ks, ok := mapEntries(x); ok {
			return intTerm(int64(len(ks)))
		}
	}
	if n := instanceLen(x); n != nil {
		return n
	}
	return intern("len", "", x)
}

// instance: what is analysed is the case that every list that comes from
// outside has this many elements, if it is not 0, or that they have different
// numbers of elements, if it is -1.
var instance int64

// instanceLens are the lengths of lists in the case -1.
var instanceLens map[*Term]*Term

// mapInstance: what is analysed is the case that every map that comes from
// outside has three entries with different values, the keys of which are in
// ascending order.
var mapInstance bool

// mapValue: the maps that come from outside.
var mapValue = map[*Term]bool{}

// mapPositions: the same part of two keys, or of two values, of the same map.
func mapPositions(a, b *Term) (i, j int64, ok bool) {
	for a.op == "field" && b.op == "field" && a.aux == b.aux {
		a, b = a.args[0], b.args[0]
	}
	if a.op != b.op || a.op != "mapkey" && a.op != "mapval" || a.args[0] != b.args[0] || !a.args[1].isInt() || !b.args[1].isInt() {
		return 0, 0, false
	}
	i, j = a.args[1].intVal(), b.args[1].intVal()
	if a.op == "mapval" {
		// the values are not in the order of the keys
		i, j = (i+1)%3, (j+1)%3
	}
	return i, j, true
}

// mapTerm: the values that are maps.
var mapTerm = map[*Term]bool{}

// instanceLen is the assumed length of a list.
func instanceLen(x *Term) *Term {
	if instance == 0 || mapTerm[x] {
		return nil
	}
	switch x.op {
	case "load", "field", "param", "unwrap", "invoke":
		if instance > 0 {
			return intTerm(instance)
		}
		n := instanceLens[x]
		if n == nil {
			n = intTerm([]int64{2, 1, 3}[len(instanceLens)%3])
			instanceLens[x] = n
		}
		return n
	}
	return nil
}

// cutrest(s, sep, i): what is left of s after i separators and what comes before
// them, or nothing if there are not so many.
func isCutRest(s, sep *Term) bool { return s.op == "cutrest" && s.args[1] == sep }

// partsOf lists the parts of the text that is being cut.
func partsOf(rest *Term) *Term {
	return mk("call", "strings.Split", rest.args[0], rest.args[1])
}

// isIndex: the position of a text in another, or -1.
func isIndex(x *Term) bool {
	return x.op == "call" && (x.aux == "strings.Index" || x.aux == "strings.LastIndex")
}

func boolTerm2(c bool, t *Term) *Term {
	if c {
		return t
	}
	return False
}

func nonEmptyText(x *Term) bool { return x.isStr() && x != Empty }

// nonEmpty: a list that cannot be empty.
func nonEmpty(x *Term) bool {
	return x.op == "call" && x.aux == "strings.Split" && x.args[1].isStr() && x.args[1] != Empty
}

func indexSeq(l, i *Term) *Term {
	ps := pieces(l)
	if len(ps) == 1 {
		switch p := ps[0]; {
		case p.op == "for" && allElem(p.args[1]):
			return openBody(p, i).args0()
		case p.op == "spread":
			return mk("load", "", mk("ia", "", p.args[0], i))
		}
	}
	if i.isInt() {
		n := i.intVal()
		for k := int64(0); int(k) < len(ps); k++ {
			if ps[k].op != "elem" {
				break
			}
			if k == n {
				return ps[k].args[0]
			}
		}
	}
	// last element
	if k := len(ps); k > 0 && ps[k-1].op == "elem" && i == mk("add", "-1", mk("len", "", intern("seq", "", l))) {
		return ps[k-1].args[0]
	}
	if len(ps) > 1 {
		return elementAt(ps, i)
	}
	return nil
}

func (t *Term) args0() *Term {
	return mapLeaves(t, func(x *Term) *Term {
		if x.op == "elem" {
			return x.args[0]
		}
		return Undef
	})
}

func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == "ite" {
			r = ite(atomBool(t.args[0]), rec(t.args[1]), rec(t.args[2]))
		} else {
			r = f(t)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func leavesOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

func firstPiece(t *Term) *Term {
	if t.op == "cat" {
		return t.args[0]
	}
	return t
}

func lastPiece(t *Term) *Term {
	if t.op == "cat" {
		return t.args[len(t.args)-1]
	}
	return t
}

func hasConstText(t *Term) bool {
	if t.isStr() {
		return t != Empty
	}
	if t.op == "cat" {
		for _, a := range t.args {
			if hasConstText(a) {
				return true
			}
		}
	}
	switch t.op {
	case "quote", "itoa":
		return true
	}
	return false
}

// otherMap: the two maps of an Imports are made together, and one is nil if the
// other is (see compare for the operations that yield an Imports).
func otherMap(m *Term, from, to string) *Term {
	if m.op == "load" && m.args[0].op == "fa" && m.args[0].aux == from {
		return mk("load", m.aux, mk("fa", to, m.args[0].args[0]))
	}
	return nil
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a == Undef || b == Undef {
		return Undef
	}
	if a.isConst() && b.isConst() || a.op == "rtype" && (b.op == "rtype" || b == Nil) || b.op == "rtype" && a == Nil {
		return False
	}
	if b.isConst() {
		a, b = b, a
	}
	if a == Nil && (nonNilResult[b] || resultAlts[b] != nil) {
		return False
	}
	if a == Nil {
		if m := otherMap(b, "pathsByName", "importsByPath"); m != nil {
			return mkEq(a, m)
		}
	}
	if b.op == "invoke" && b.aux == "gopoet.Kind" && a.isInt() && a.intVal() == kindPtr() {
		if x := goTypeOf(b.args[0]); x != nil {
			if k := goPointer(); k != "" {
				return mk("is", k, x)
			}
		}
	}
	if a == True {
		return mk("b", "", b)
	}
	if a == False {
		return not(mk("b", "", b))
	}
	if a == Empty && hasConstText(b) {
		return False
	}
	if a.isInt() && isIndex(b) && a.intVal() < 0 {
		return boolTerm2(a.intVal() == -1, not(cmpGe(b, 0)))
	}
	if b.op == "first" && b.args[0] == a {
		return not(mk("any", b.aux, b.args...))
	}
	if a.op == "first" && a.args[0] == b {
		return not(mk("any", a.aux, a.args...))
	}
	if a.isStr() || b.isStr() || a.op == "cat" || b.op == "cat" {
		if r := eqText(a, b); r != nil {
			return r
		}
	}
	if a.isInt() && lenLike(b) {
		k := a.intVal()
		if k < 0 {
			return False
		}
		if k == 0 {
			return not(cmpGe(b, 1))
		}
		return and(cmpGe(b, k), not(cmpGe(b, k+1)))
	}
	if a == Zero && b.op == "op" && b.aux == "&^" && b.args[1].isInt() && b.args[1].intVal() >= 0 && b.args[1].intVal() < 16 {
		// nothing outside of the mask: one of the values within
		r := False
		for m := b.args[1].intVal(); m >= 0; m-- {
			if m&^b.args[1].intVal() == 0 {
				r = or(mk("eq", "", intTerm(m), b.args[0]), r)
			}
		}
		return r
	}
	if a.isInt() && b.op == "slen" {
		if a == Zero {
			return mk("eq", "", Empty, b.args[0])
		}
	}
	if a.isInt() {
		if k, ok := addConst(b); ok {
			return mk("eq", "", intTerm(a.intVal()-k), b.args[0])
		}
	}
	if k, ok := addConst(a); ok {
		if j, ok2 := addConst(b); ok2 {
			return mk("eq", "", a.args[0], mk("add", strconv.FormatInt(j-k, 10), b.args[0]))
		}
		if k < 0 {
			return mk("eq", "", a.args[0], mk("add", strconv.FormatInt(-k, 10), b))
		}
	} else if j, ok := addConst(b); ok && j < 0 {
		return mk("eq", "", b.args[0], mk("add", strconv.FormatInt(-j, 10), a))
	}
	if a.op == "iface" && b.op == "iface" {
		if a.aux != b.aux {
			return False
		}
		return mk("eq", "", a.args[0], b.args[0])
	}
	if a.op == "struct" || b.op == "struct" {
		s := a
		if s.op != "struct" {
			s = b
		}
		st := typeReg[s.aux].(*types.Struct)
		r := True
		for i := 0; i < st.NumFields(); i++ {
			n := st.Field(i).Name()
			r = and(r, mk("eq", "", mk("field", n, a), mk("field", n, b)))
		}
		return r
	}
	if distinctPtr(a, b) {
		return False
	}
	if mapInstance {
		if i, j, ok := mapPositions(a, b); ok {
			return boolTerm(i == j)
		}
		if a == Nil && mapValue[b] {
			return False
		}
	}
	if a.op == "sptr" && b.op == "sptr" {
		// a new slice is no other slice
		if x, y := a.args[0], b.args[0]; x.op == "seq" || x.op == "alloc" || y.op == "seq" || y.op == "alloc" {
			return False
		}
	}
	if a == Nil && b.op == "len" {
		return False
	}
	// slices: nil-ness of a fresh sequence
	if a == Nil && b.op == "seq" {
		if len(pieces(b.args[0])) > 0 && pieces(b.args[0])[0].op == "elem" {
			return False
		}
	}
	if !a.isConst() && a.id > b.id {
		a, b = b, a
	}
	return atomBool(intern("eq", "", a, b))
}

func eqText(a, b *Term) *Term {
	pa, pb := []*Term{a}, []*Term{b}
	if a.op == "cat" {
		pa = a.args
	}
	if b.op == "cat" {
		pb = b.args
	}
	pa, pb = append([]*Term(nil), pa...), append([]*Term(nil), pb...)
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.isStr() && y.isStr() {
			s, u := x.str(), y.str()
			n := 0
			for n < len(s) && n < len(u) && s[n] == u[n] {
				n++
			}
			if n < len(s) && n < len(u) {
				return False
			}
			if n == 0 {
				break
			}
			changed = true
			pa[0], pb[0] = strTerm(s[n:]), strTerm(u[n:])
			if pa[0] == Empty {
				pa = pa[1:]
			}
			if pb[0] == Empty {
				pb = pb[1:]
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.isStr() && y.isStr() {
			s, u := x.str(), y.str()
			n := 0
			for n < len(s) && n < len(u) && s[len(s)-1-n] == u[len(u)-1-n] {
				n++
			}
			if n < len(s) && n < len(u) {
				return False
			}
			if n == 0 {
				break
			}
			changed = true
			pa[len(pa)-1], pb[len(pb)-1] = strTerm(s[:len(s)-n]), strTerm(u[:len(u)-n])
			if pa[len(pa)-1] == Empty {
				pa = pa[:len(pa)-1]
			}
			if pb[len(pb)-1] == Empty {
				pb = pb[:len(pb)-1]
			}
			continue
		}
		break
	}
	if !changed {
		return nil
	}
	return mk("eq", "", mkCat(pa), mkCat(pb))
}

// foldOp computes bit operations on constants.
func foldOp(op string, args []*Term) *Term {
	if len(args) != 2 || !args[0].isInt() || !args[1].isInt() {
		return nil
	}
	a, b := args[0].intVal(), args[1].intVal()
	if a < 0 || b < 0 {
		return nil
	}
	switch op {
	case "&":
		return intTerm(a & b)
	case "|":
		return intTerm(a | b)
	case "^":
		return intTerm(a ^ b)
	case "&^":
		return intTerm(a &^ b)
	}
	return nil
}

func mkGe(aux string, x *Term) *Term {
	k, _ := strconv.ParseInt(aux, 10, 64)
	if x.isInt() {
		return boolTerm(x.intVal() >= k)
	}
	if j, ok := addConst(x); ok {
		return cmpGe(x.args[0], k-j)
	}
	if k < 0 && isIndex(x) {
		return True
	}
	if k == 0 && x.op == "call" && x.aux == "strings.Index" && isCutRest(x.args[0], x.args[1]) {
		// there is another part after this one
		return mk("lt", "", mk("add", "1", x.args[0].args[2]), mk("len", "", partsOf(x.args[0])))
	}
	if x.op == "cap" {
		if n := mk("len", "", x.args[0]); k <= 0 || n.isInt() && n.intVal() >= k {
			return True
		}
	}
	if k <= 0 && (nonneg(x) || x.op == "slen") {
		return True
	}
	if x.op == "slen" {
		// the constant parts of a text
		least := int64(0)
		for _, q := range textPieces(x.args[0]) {
			if q.isStr() {
				least += int64(len(q.str()))
			}
		}
		if least >= k {
			return True
		}
	}
	if x.op == "slen" && k == 1 {
		return not(mk("eq", "", Empty, x.args[0]))
	}
	if x.op == "plus" && k == 1 && nonneg(x) {
		return or(cmpGe(x.args[0], 1), cmpGe(x.args[1], 1))
	}
	if k == 1 && x.op == "len" && nonEmpty(x.args[0]) {
		return True
	}
	return atomBool(intern("ge", aux, x))
}

// leadText is the constant text that a string begins with.
func leadText(a *Term) string {
	if a.isStr() {
		return a.str()
	}
	if a.op == "cat" && a.args[0].isStr() {
		return a.args[0].str()
	}
	return ""
}

func mkLt(a, b *Term) *Term {
	if mapInstance {
		if i, j, ok := mapPositions(a, b); ok {
			return boolTerm(i < j)
		}
	}
	if a == b {
		return False
	}
	if a.op == "cap" && mk("len", "", a.args[0]) == b {
		return False
	}
	if a.isInt() && b.isInt() {
		return boolTerm(a.intVal() < b.intVal())
	}
	if a.isStr() && b.isStr() {
		return boolTerm(a.str() < b.str())
	}
	if a.op == "cat" || b.op == "cat" {
		// decided by what they begin with
		x, y := leadText(a), leadText(b)
		for i := 0; i < len(x) && i < len(y); i++ {
			if x[i] != y[i] {
				return boolTerm(x[i] < y[i])
			}
		}
	}
	if a.isInt() {
		// a < b  iff  b >= a+1
		return cmpGe(b, a.intVal()+1)
	}
	if b.isInt() {
		return not(cmpGe(a, b.intVal()))
	}
	if a.op == "first" && a.args[0] == b {
		return mk("any", a.aux, a.args...)
	}
	if b.op == "first" && b.args[0] == a {
		return False
	}
	ka, oka := addConst(a)
	kb, okb := addConst(b)
	if a.op == "plus" || b.op == "plus" || oka && a.args[0].op == "plus" || okb && b.args[0].op == "plus" {
		x, y := a, b
		if oka {
			x = a.args[0]
		}
		if okb {
			y = b.args[0]
		}
		if xs, ys, ok := cancel(summands(x), summands(y)); ok {
			return mk("lt", "", add(intTerm(ka), sumOf(xs)), add(intTerm(kb), sumOf(ys)))
		}
	}
	if oka || okb {
		x, y := a, b
		if oka {
			x = a.args[0]
		}
		if okb {
			y = b.args[0]
		}
		d := kb - ka // x < y + d
		switch {
		case x == y:
			return boolTerm(d > 0)
		case d == 0:
			return mk("lt", "", x, y)
		case d == 1:
			return not(mk("lt", "", y, x))
		case d > 1:
			return atomBool(intern("lt", "", x, mk("add", strconv.FormatInt(d, 10), y)))
		default:
			return atomBool(intern("lt", "", mk("add", strconv.FormatInt(-d, 10), x), y))
		}
	}
	return atomBool(intern("lt", "", a, b))
}

func summands(t *Term) []*Term {
	if t.op == "plus" {
		return append(summands(t.args[0]), summands(t.args[1])...)
	}
	return []*Term{t}
}

func sumOf(ts []*Term) *Term {
	if len(ts) == 0 {
		return Zero
	}
	ts = append([]*Term(nil), ts...)
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	r := ts[len(ts)-1]
	for i := len(ts) - 2; i >= 0; i-- {
		r = intern("plus", "", ts[i], r)
	}
	return r
}

// cancel removes what occurs on both sides.
func cancel(xs, ys []*Term) ([]*Term, []*Term, bool) {
	any := false
	ys = append([]*Term(nil), ys...)
	var rest []*Term
outer:
	for _, x := range xs {
		for i, y := range ys {
			if x == y {
				ys = append(ys[:i], ys[i+1:]...)
				any = true
				continue outer
			}
		}
		rest = append(rest, x)
	}
	return rest, ys, any
}

func mkIs(aux string, x *Term) *Term {
	if x == Nil {
		return False
	}
	if x.op == "iface" {
		t := typeReg[aux]
		if i, ok := t.Underlying().(*types.Interface); ok {
			return boolTerm(types.Implements(typeReg[x.aux], i))
		}
		return boolTerm(x.aux == aux)
	}
	if alts := resultAlts[x]; alts != nil {
		if _, ok := typeReg[aux].Underlying().(*types.Interface); !ok {
			switch i := slices.Index(alts, aux); {
			case i < 0:
				return False
			case i == len(alts)-1:
				// it is what is left
				r := True
				for _, a := range alts[:i] {
					r = and(r, not(mk("is", a, x)))
				}
				return r
			}
			return atomBool(intern("is", aux, x))
		}
	}
	if st := resultType[x]; st != nil {
		if i, ok := typeReg[aux].Underlying().(*types.Interface); ok {
			if _, ok := st.Underlying().(*types.Interface); ok && types.Implements(st, i) {
				return not(mk("eq", "", Nil, x))
			}
			if _, ok := st.Underlying().(*types.Interface); ok && exclusiveIfaces(st, typeReg[aux]) {
				return False
			}
		} else if si, ok := st.Underlying().(*types.Interface); ok {
			if !types.Implements(typeReg[aux], si) {
				return False
			}
		}
	}
	if st := resultType[x]; st != nil && closedWorld != nil {
		// one of the types is what the value has if it is none of the others
		if alts := closedWorld(st); len(alts) > 1 && alts[len(alts)-1] == aux {
			r := not(mk("eq", "", Nil, x))
			for _, a := range alts[:len(alts)-1] {
				r = and(r, not(mk("is", a, x)))
			}
			return r
		}
	}
	return atomBool(intern("is", aux, x))
}

// closedWorld lists the types that a value of an interface can have.
var closedWorld func(t types.Type) []string

// static types of interface valued terms
var (
	resultType   = map[*Term]types.Type{}
	nonNilResult = map[*Term]bool{}
	resultAlts   = map[*Term][]string{} // the types of what an operation returns
)

func mkSidx(s, i *Term) *Term {
	if s.isStr() && i.isInt() {
		str := s.str()
		if k := i.intVal(); k >= 0 && int(k) < len(str) {
			return intTerm(int64(str[k]))
		}
	}
	if i == mk("add", "-1", mk("slen", "", s)) {
		if l := lastPiece(s); l.isStr() && l != Empty {
			str := l.str()
			return intTerm(int64(str[len(str)-1]))
		}
	}
	if i == Zero {
		if l := firstPiece(s); l.isStr() && l != Empty {
			return intTerm(int64(l.str()[0]))
		}
	}
	return intern("sidx", "", s, i)
}

func mkSslice(s, lo, hi *Term) *Term {
	if lo == Nil {
		lo = Zero
	}
	n := mk("slen", "", s)
	if hi == n {
		hi = Nil
	}
	if lo == Zero && hi == Nil {
		return s
	}
	if lo == Zero && hi.op == "add" && hi.aux == "1" {
		// up to and with the next separator
		if i := hi.args[0]; i.op == "call" && i.aux == "strings.Index" && i.args[0] == s && i.args[1].isStr() && len(i.args[1].str()) == 1 {
			return ite(cmpGe(i, 0), mk("cat", "", mk("sslice", "", s, Zero, i), i.args[1]), Empty)
		}
	}
	if s.op == "cutrest" {
		i := mk("call", "strings.Index", s, s.args[1])
		switch {
		case lo == Zero && hi == i:
			return mk("load", "", mk("ia", "", partsOf(s), s.args[2]))
		case hi == Nil && lo == mk("add", strconv.Itoa(len(s.args[1].str())), i):
			return mk("cutrest", "", s.args[0], s.args[1], mk("add", "1", s.args[2]))
		}
	}
	if s.isStr() && lo.isInt() && (hi == Nil || hi.isInt()) {
		str := s.str()
		h := int64(len(str))
		if hi != Nil {
			h = hi.intVal()
		}
		if l := lo.intVal(); 0 <= l && l <= h && h <= int64(len(str)) {
			return strTerm(str[l:h])
		}
	}
	if lo == Zero {
		if k, ok := addConst(hi); ok && k < 0 && hi.args[0] == n {
			if l := lastPiece(s); l.isStr() && int64(len(l.str())) >= -k {
				str := l.str()
				ps := []*Term{}
				if s.op == "cat" {
					ps = append(ps, s.args[:len(s.args)-1]...)
				}
				ps = append(ps, strTerm(str[:int64(len(str))+k]))
				return mkCat(ps)
			}
		}
	}
	if lo.isInt() && hi == Nil {
		if l := firstPiece(s); l.isStr() && int64(len(l.str())) >= lo.intVal() {
			ps := []*Term{strTerm(l.str()[lo.intVal():])}
			if s.op == "cat" {
				ps = append(ps, s.args[1:]...)
			}
			return mkCat(ps)
		}
	}
	if l := firstPiece(s); lo == Zero && hi.isInt() && l.isStr() && 0 <= hi.intVal() && hi.intVal() <= int64(len(l.str())) {
		return strTerm(l.str()[:hi.intVal()])
	}
	return intern("sslice", "", s, lo, hi)
}

// sortedKeysOf: a list with one element for each entry of a map, sorted by the
// keys, is the list of the elements for the sorted keys.
func sortedKeysOf(l, less *Term) *Term {
	if l.op != "for" || l.aux != "l" || less.op != "lam" {
		return nil
	}
	if n := l.args[0]; n.op != "len" || !strings.HasPrefix(n.args[0].op, "mapc") {
		return nil
	}
	m := l.args[0].args[0]
	a, b := newTempFor(less), newTemp()
	in := openBody(less, a)
	if in.op != "lam" {
		return nil
	}
	in = openBody(in, b)
	if in.op == "ite" && in.args[1] == True && in.args[2] == False {
		in = in.args[0]
	}
	if in.op != "lt" {
		return nil
	}
	x, y := in.args[0], in.args[1]
	var path []string
	for x.op == "field" && y.op == "field" && x.aux == y.aux {
		path = append(path, x.aux)
		x, y = x.args[0], y.args[0]
	}
	if x != a || y != b {
		return nil
	}
	i := newTempFor(l)
	body := openBody(l, i)
	key := mk("mapkey", "", m, i)
	for _, e := range leavesOf(body) {
		if e.op != "elem" {
			return nil
		}
		v := e.args[0]
		for j := len(path) - 1; j >= 0; j-- {
			v = mk("field", path[j], v)
		}
		if v != key {
			return nil
		}
	}
	k := intern("skey", "", m, i)
	body = subst(body, key, k)
	body = subst(body, mk("mapval", "", m, i), intern("get", "", m, k, Undef))
	if body.hasTemp(a) || body.hasTemp(b) {
		return nil
	}
	return mk("for", "l", l.args[0], bind(body, i))
}

// maps: content terms are "mnil" (nil or empty), "put"(m,k,v), or opaque
func mkHas(m, k *Term) *Term {
	switch m.op {
	case "mnil":
		return False
	case "put":
		return or(mk("eq", "", m.args[1], k), mk("has", "", m.args[0], k))
	}
	if m == Nil {
		return False
	}
	if k.op == "skey" && k.args[0] == m {
		return True
	}
	return mk("b", "", intern("has", "", m, k))
}

func mkGet(m, k, zero *Term) *Term {
	switch m.op {
	case "mnil":
		return zero
	case "put":
		return ite(mk("eq", "", m.args[1], k), m.args[2], mk("get", "", m.args[0], k, zero))
	}
	if m == Nil {
		return zero
	}
	if k.op == "skey" && k.args[0] == m {
		return intern("get", "", m, k, Undef)
	}
	return ite(mkHas(m, k), intern("get", "", m, k, zero), zero)
}

func boolCall(c *Term) *Term {
	return atomBool(intern("b", "", c))
}

func simplifyCall(aux string, args []*Term) *Term {
	allConst := true
	for _, a := range args {
		if !a.isConst() {
			allConst = false
		}
	}
	switch aux {
	case "strings.TrimSuffix":
		s, suf := args[0], args[1]
		if suf.isStr() {
			if l := lastPiece(s); l.isStr() && len(l.str()) >= len(suf.str()) || s == Empty {
				if !strings.HasSuffix(l.str(), suf.str()) {
					return s
				}
				ps := []*Term{}
				if s.op == "cat" {
					ps = append(ps, s.args[:len(s.args)-1]...)
				}
				return mkCat(append(ps, strTerm(strings.TrimSuffix(l.str(), suf.str()))))
			}
			return ite(mk("call", "strings.HasSuffix", s, suf), mk("sslice", "", s, Zero, mk("add", strconv.Itoa(-len(suf.str())), mk("slen", "", s))), s)
		}
	case "strings.HasSuffix":
		s, suf := args[0], args[1]
		if suf.isStr() {
			if l := lastPiece(s); l.isStr() && len(l.str()) >= len(suf.str()) || s == Empty {
				return boolTerm(strings.HasSuffix(l.str(), suf.str()))
			}
			if len(suf.str()) == 1 {
				return and(not(mk("eq", "", Empty, s)), mk("eq", "", intTerm(int64(suf.str()[0])), mk("sidx", "", s, mk("add", "-1", mk("slen", "", s)))))
			}
		}
	case "strings.HasPrefix":
		s, p := args[0], args[1]
		if p.isStr() {
			if l := firstPiece(s); l.isStr() && len(l.str()) >= len(p.str()) || s == Empty {
				return boolTerm(strings.HasPrefix(l.str(), p.str()))
			}
			if len(p.str()) == 1 {
				return and(not(mk("eq", "", Empty, s)), mk("eq", "", intTerm(int64(p.str()[0])), mk("sidx", "", s, Zero)))
			}
		}
	case "go/types.IsInterface":
		return mk("is", "*go/types.Interface", mk("invoke", "go/types.Underlying", args[0]))
	case "strings.Join":
		x, sep := args[0], args[1]
		n := mk("len", "", x)
		tmp := newTemp()
		el := mk("load", "", mk("ia", "", x, tmp))
		return mkBinderLift("for", "t", n, bind(mk("cat", "", ite(cmpGe(tmp, 1), sep, Empty), el), tmp))
	case "strings.ReplaceAll":
		if args[1].isStr() && args[1] != Empty {
			return mk("call", "strings.Join", mk("call", "strings.Split", args[0], args[1]), args[2])
		}
	case "strings.Replace":
		if args[3].isInt() && args[3].intVal() < 0 {
			return mk("call", "strings.ReplaceAll", args[:3]...)
		}
	case "strings.IndexByte", "strings.IndexRune":
		if args[1].isInt() && args[1].intVal() > 0 && args[1].intVal() < utf8.RuneSelf {
			return mk("call", "strings.Index", args[0], strTerm(string(rune(args[1].intVal()))))
		}
	case "strings.LastIndexByte":
		if args[1].isInt() && args[1].intVal() > 0 && args[1].intVal() < utf8.RuneSelf {
			return mk("call", "strings.LastIndex", args[0], strTerm(string(rune(args[1].intVal()))))
		}
	case "strings.ContainsRune":
		if args[1].isInt() && args[1].intVal() > 0 && args[1].intVal() < utf8.RuneSelf {
			return mk("call", "strings.Contains", args[0], strTerm(string(rune(args[1].intVal()))))
		}
	case "strings.Contains":
		return cmpGe(mk("call", "strings.Index", args...), 0)
	case "strings.Count":
		// a text has one part more than it has separators
		if args[1].isStr() && args[1] != Empty {
			return mk("add", "-1", mk("len", "", mk("call", "strings.Split", args...)))
		}
	case "strings.Cut":
		s, sep := args[0], args[1]
		if sep.isStr() && sep != Empty {
			i := mk("call", "strings.Index", args...)
			has := cmpGe(i, 0)
			return mk("tup", "", ite(has, mk("sslice", "", s, Zero, i), s),
				ite(has, mk("sslice", "", s, mk("add", strconv.Itoa(len(sep.str())), i), Nil), Empty), has)
		}
	case "unicode.ToUpper", "unicode.ToLower", "unicode.IsUpper", "unicode.IsLower", "unicode.IsLetter", "unicode.IsDigit":
		if args[0].isInt() && args[0].intVal() >= 0 && args[0].intVal() < utf8.RuneSelf {
			r := rune(args[0].intVal())
			switch strings.TrimPrefix(aux, "unicode.") {
			case "ToUpper":
				return intTerm(int64(unicode.ToUpper(r)))
			case "ToLower":
				return intTerm(int64(unicode.ToLower(r)))
			case "IsUpper":
				return boolTerm(unicode.IsUpper(r))
			case "IsLower":
				return boolTerm(unicode.IsLower(r))
			case "IsLetter":
				return boolTerm(unicode.IsLetter(r))
			case "IsDigit":
				return boolTerm(unicode.IsDigit(r))
			}
		}
	case "unicode/utf8.RuneCountInString":
		if allConst && args[0].isStr() {
			return intTerm(int64(utf8.RuneCountInString(args[0].str())))
		}
	case "strconv.Quote":
		return mk("quote", "", args[0])
	case "strconv.Itoa":
		return mk("itoa", "", args[0])
	case "strconv.FormatInt", "strconv.FormatUint":
		if args[1].isInt() && args[1].intVal() == 10 {
			return mk("itoa", "", args[0])
		}
	case "strconv.FormatBool":
		return nil
	}
	return nil
}

func mkBinderLift(op, aux string, args ...*Term) *Term { return mk(op, aux, args...) }

// goTypeOf: the Go type that the type name was made for.
func goTypeOf(t *Term) *Term {
	if t.op == "call" && t.aux == "gopoet.TypeNameForGoType" && len(t.args) == 1 {
		return t.args[0]
	}
	return nil
}

// kindPtr is the value of KindPtr.
func kindPtr() int64 {
	if c, ok := libPkg.Scope().Lookup("KindPtr").(*types.Const); ok {
		if n, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
			return n
		}
	}
	return -1
}

// goPointer is the key of *types.Pointer.
func goPointer() string {
	for _, p := range libPkg.Imports() {
		if p.Path() == "go/types" {
			if o := p.Scope().Lookup("Pointer"); o != nil {
				return typeKey(types.NewPointer(o.Type()))
			}
		}
	}
	return ""
}
