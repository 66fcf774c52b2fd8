package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed node of the value graph. Conditional values are kept
// in the normal form of an ordered decision diagram: op "ite" with an atomic
// condition whose id is smaller than the atoms of the branches.
type Term struct {
	id    int
	op    string
	aux   string
	args  []*Term
	h     int   // nesting height of binders
	temps []int // free loop/lambda temporaries, sorted
	obj   bool  // mentions an allocated object
	cond  bool  // a text with conditional pieces
	seq   bool  // mentions a list that was made
	part  bool  // mentions the address of a part of a list that an operation returned
	pos   token.Pos
	size  int
}

type key struct {
	op, aux string
	args    string
}

var (
	terms    []*Term
	table    = map[key]*Term{}
	typeReg  = map[string]types.Type{}
	tempCnt  int
	allocCnt int
	curPos   token.Pos
	budget   = 0
)

// giveUpAt ends a second attempt that takes too long.
var giveUpAt time.Time

const maxTerms = 6000000

type undecided struct{ why string }

// needList: the result of this append must be treated as a slice with an
// identity, because its elements are changed afterwards.
type needList struct{ site *ssa.CallCommon }

func giveUp(format string, args ...interface{}) {
	panic(undecided{fmt.Sprintf(format, args...)})
}

func intern(op, aux string, args ...*Term) *Term {
	var sb strings.Builder
	for _, a := range args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	k := key{op, aux, sb.String()}
	if t, ok := table[k]; ok {
		return t
	}
	if len(terms) > maxTerms {
		giveUp("value graph too large")
	}
	if len(terms)&0x3fff == 0 && !giveUpAt.IsZero() && time.Now().After(giveUpAt) {
		giveUp("takes too long")
	}
	t := &Term{id: len(terms), op: op, aux: aux, args: append([]*Term(nil), args...), pos: curPos, size: 1}
	for _, a := range args {
		if a.h > t.h {
			t.h = a.h
		}
		t.temps = mergeTemps(t.temps, a.temps)
		t.obj = t.obj || a.obj
		t.seq = t.seq || a.seq
		t.part = t.part || a.part
		t.size += a.size
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	switch op {
	case "tmp":
		n, _ := strconv.Atoi(aux)
		t.temps = []int{n}
	case "for", "any", "first", "last", "lam", "all", "mapc":
		t.h++
	case "alloc":
		t.obj = true
	case "seq":
		t.seq = true
	case "fa":
		t.part = t.part || partOfResult(t) != nil
	case "cat":
		for _, a := range args {
			if a.op == "ite" {
				t.cond = true
			}
		}
	}
	terms = append(terms, t)
	table[k] = t
	return t
}

var baseTerms int

// resetTerms forgets all terms but the constants; types stay known.
func resetTerms() {
	keep := terms[:baseTerms]
	terms = append([]*Term(nil), keep...)
	table = map[key]*Term{}
	for _, t := range keep {
		table[key{t.op, t.aux, ""}] = t
	}
	iteMemo = map[iteKey]*Term{}
	emptyMemo = map[emptyKey]*Term{}
	resMemo = map[resKey]*Term{}
	mkMemo = map[mkKey]*Term{}
	bvMemo = map[[2]int]bool{}
	openTemps = map[*Term]*Term{}
	substMemo = map[substKey]*Term{}
	resultType = map[*Term]types.Type{}
	nonNilResult = map[*Term]bool{}
	resultAlts = map[*Term][]string{}
	structT = map[*Term]string{}
	mapTerm = map[*Term]bool{}
	mapValue = map[*Term]bool{}
	instanceLens = map[*Term]*Term{}
	tempCnt, allocCnt = 0, 0
}

func mergeTemps(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	var out []int
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

func (t *Term) hasTemp(tmp *Term) bool {
	n := tmp.temps[0]
	i := sort.SearchInts(t.temps, n)
	return i < len(t.temps) && t.temps[i] == n
}

var (
	True  = intern("const", "true")
	False = intern("const", "false")
	Nil   = intern("const", "nil")
	Empty = intern("const", `""`) // empty text
	LNil  = intern("lnil", "")
	Zero  = intern("const", "0")
	Inf   = intern("inf", "")
	Undef = intern("undef", "")

	oldMark = intern("old", "")
)

func init() { baseTerms = len(terms) }

func intTerm(n int64) *Term   { return intern("const", strconv.FormatInt(n, 10)) }
func strTerm(s string) *Term  { return intern("const", strconv.Quote(s)) }
func newTemp() *Term          { tempCnt++; return intern("tmp", strconv.Itoa(tempCnt)) }
func bvar(h int) *Term        { return intern("bv", strconv.Itoa(h)) }
func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isStr() bool   { return t.op == "const" && len(t.aux) > 0 && t.aux[0] == '"' }
func (t *Term) str() string   { s, _ := strconv.Unquote(t.aux); return s }
func (t *Term) isInt() bool {
	return t.op == "const" && len(t.aux) > 0 && (t.aux[0] == '-' || t.aux[0] >= '0' && t.aux[0] <= '9')
}
func (t *Term) intVal() int64 { n, _ := strconv.ParseInt(t.aux, 10, 64); return n }
func boolTerm(b bool) *Term {
	if b {
		return True
	}
	return False
}

func constTerm(v constant.Value) *Term {
	if v == nil {
		return Nil
	}
	switch v.Kind() {
	case constant.Bool:
		return boolTerm(constant.BoolVal(v))
	case constant.String:
		return strTerm(constant.StringVal(v))
	case constant.Int:
		return intern("const", v.ExactString())
	}
	return intern("const", "f"+v.ExactString())
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, nil)
	if _, ok := typeReg[s]; !ok {
		typeReg[s] = t
	}
	return s
}

// ---------- decision diagrams ----------

type iteKey struct {
	c, a, b *Term
	lift    bool
}
type resKey struct {
	t, a *Term
	v    bool
	lift bool
}

var (
	iteMemo = map[iteKey]*Term{}
	resMemo = map[resKey]*Term{}
)

// before is the order of the atoms in decision diagrams: tests without
// quantification come first, so that they can decide the range of those with.
func before(a, b *Term) bool {
	if a.h != b.h {
		return a.h < b.h
	}
	return a.id < b.id
}

func atomBool(a *Term) *Term { return node(a, True, False) }

func node(atom, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	if !liftAll && (hi.op == "cat" || lo.op == "cat") {
		if p, a, b, x := factor(hi, lo); p != Empty || x != Empty {
			return mkCat([]*Term{p, node(atom, a, b), x})
		}
	}
	// keep the order of atoms
	var s *Term
	if hi.op == "ite" && !before(atom, hi.args[0]) {
		s = hi.args[0]
	}
	if lo.op == "ite" && !before(atom, lo.args[0]) && (s == nil || before(lo.args[0], s)) {
		s = lo.args[0]
	}
	if s == atom {
		return node(atom, restrict(hi, atom, true), restrict(lo, atom, false))
	}
	if s != nil {
		if v, ok := implied(s, true, atom); ok {
			if v {
				return node(s, restrict(hi, s, true), node(atom, restrict(hi, s, false), restrict(lo, s, false)))
			}
			return node(s, restrict(lo, s, true), node(atom, restrict(hi, s, false), restrict(lo, s, false)))
		}
		if v, ok := implied(s, false, atom); ok {
			if v {
				return node(s, node(atom, restrict(hi, s, true), restrict(lo, s, true)), restrict(hi, s, false))
			}
			return node(s, node(atom, restrict(hi, s, true), restrict(lo, s, true)), restrict(lo, s, false))
		}
		return node(s, node(atom, restrict(hi, s, true), restrict(lo, s, true)), node(atom, restrict(hi, s, false), restrict(lo, s, false)))
	}
	if (atom.op == "eq" || atom.op == "is" && lo.op == "ite") && restrict(lo, atom, true) == hi {
		return lo
	}
	if atom.op == "ge" && atom.aux == "2" {
		// at most one element: does the general case cover it?
		r := restrict(hi, atom, false)
		if r == lo {
			return hi
		}
	}
	if atom.op == "ge" && atom.aux == "1" && (hi.seq || lo.seq) {
		// a list without elements is like no list
		if lo.seq {
			lo = emptyLists(lo, atom.args[0])
			if hi == lo {
				return hi
			}
		}
		if hi.seq && emptyLists(hi, atom.args[0]) == lo {
			return hi
		}
	}
	return intern("ite", "", atom, hi, lo)
}

func firstAtom(t *Term) *Term {
	if t.op == "ite" {
		return t.args[0]
	}
	var top *Term
	if t.cond {
		for _, a := range t.args {
			if x := firstAtom(a); x != nil && (top == nil || before(x, top)) {
				top = x
			}
		}
	}
	return top
}

func ite(c, a, b *Term) *Term {
	switch {
	case c == True:
		return a
	case c == False:
		return b
	case a == b:
		return a
	}
	if c.op != "ite" {
		c = atomBool(c)
		if c.op != "ite" {
			return ite(c, a, b)
		}
	}
	if a == True && b == False {
		return c
	}
	k := iteKey{c, a, b, liftAll}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	top := c.args[0]
	if a.op == "ite" && before(a.args[0], top) {
		top = a.args[0]
	}
	if b.op == "ite" && before(b.args[0], top) {
		top = b.args[0]
	}
	hi := ite(restrict(c, top, true), restrict(a, top, true), restrict(b, top, true))
	lo := ite(restrict(c, top, false), restrict(a, top, false), restrict(b, top, false))
	r := node(top, hi, lo)
	iteMemo[k] = r
	return r
}

func not(c *Term) *Term    { return ite(c, False, True) }
func and(a, b *Term) *Term { return ite(a, b, False) }
func or(a, b *Term) *Term  { return ite(a, True, b) }

// restrict simplifies t under the assumption that atom has the given value.
func restrict(t, atom *Term, val bool) *Term {
	if t.isConst() || t == atom && false {
		return t
	}
	k := resKey{t, atom, val, liftAll}
	if r, ok := resMemo[k]; ok {
		return r
	}
	resMemo[k] = t // guards against cycles
	r := restrict0(t, atom, val)
	resMemo[k] = r
	return r
}

func restrict0(t, atom *Term, val bool) *Term {
	if val && atom.op == "eq" {
		a, b := atom.args[0], atom.args[1]
		// replace the larger by the smaller
		from, to := b, a
		if substPrefer(b, a) {
			from, to = a, b
		}
		if from.op != "const" && !occursIn(to, from) {
			if base, ex := expandBase(from, to); base != nil && occursIn(t, base) {
				t = subst(t, base, ex)
			}
			t = subst(t, from, to)
			if from.op == "ext" && from.aux == "0" && to.isInt() && to.intVal() >= 0 && to.intVal() < utf8.RuneSelf {
				if x := from.args[0]; x.op == "call" && x.aux == "unicode/utf8.DecodeRuneInString" {
					// a letter of one byte
					t = subst(t, intern("ext", "1", x), intTerm(1))
				}
			}
			if to == Nil {
				if m := otherMap(from, "importsByPath", "pathsByName"); m != nil {
					t = subst(t, m, to)
				}
			}
		}
	}
	if val && atom.op == "b" && atom.args[0].op == "has" && atom.args[0].args[0].op == "mapc0" {
		// a map that has a key is not nil
		if e := mkEq(Nil, atom.args[0].args[0].args[0]); e.op == "ite" && e.args[0].op == "eq" && e.args[1] == True && e.args[2] == False {
			t = restrict(t, e.args[0], false)
		}
	}
	if !val && atom.op == "ge" && atom.aux == "1" {
		if x := atom.args[0]; x.op == "len" || x.op == "tmp" || x.op == "bv" {
			t = subst(t, x, Zero)
			if x.op == "len" {
				t = subst(t, intern("spread", "", x.args[0]), LNil)
			}
		}
	}
	if !val && atom.op == "ge" && atom.aux == "2" && lenLike(atom.args[0]) && atom.args[0].op == "len" {
		// at most one
		x := atom.args[0]
		t = subst(t, x, ite(atomBool(intern("ge", "1", x)), intTerm(1), Zero))
	}
	return prune(t, atom, val)
}

// structT: the structure types of values whose fields have been used.
var structT = map[*Term]string{}

// expandBase: when a field of a structure is known to have a value, the whole
// structure is known to contain that value.
func expandBase(from, to *Term) (base, ex *Term) {
	for {
		var b *Term
		var name string
		load := false
		switch {
		case from.op == "field":
			b, name = from.args[0], from.aux
		case from.op == "load" && from.args[0].op == "fa":
			b, name, load = intern("load", "", from.args[0].args[0]), from.args[0].aux, true
		case from.op == "unwrap" && base != nil:
			// the interface value that contains the structure
			return from.args[0], mk("iface", from.aux, ex)
		default:
			return base, ex
		}
		aux, ok := structT[b]
		if !ok {
			return base, ex
		}
		st := typeReg[aux].(*types.Struct)
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			n := st.Field(i).Name()
			switch {
			case n == name:
				fs[i] = to
			case load:
				fs[i] = mk("load", "", mk("fa", n, b.args[0]))
			default:
				fs[i] = mk("field", n, b)
			}
		}
		base, ex = b, mk("struct", aux, fs...)
		from, to = base, ex
	}
}

func occursIn(t, x *Term) bool {
	if t == x {
		return true
	}
	if t.size < x.size {
		return false
	}
	for _, a := range t.args {
		if occursIn(a, x) {
			return true
		}
	}
	return false
}

// substPrefer reports whether a is the better representative of the two.
func substPrefer(a, b *Term) bool {
	if a.isConst() != b.isConst() {
		return a.isConst()
	}
	if a.size != b.size {
		return a.size < b.size
	}
	return a.id < b.id
}

func prune(t, atom *Term, val bool) *Term {
	if t.op != "ite" {
		if t.cond {
			args := make([]*Term, len(t.args))
			changed := false
			for i, a := range t.args {
				args[i] = a
				if a.op == "ite" {
					args[i] = prune(a, atom, val)
				}
				changed = changed || args[i] != a
			}
			if changed {
				return mkCat(args)
			}
		}
		return t
	}
	x := t.args[0]
	if x == atom {
		if val {
			return prune(t.args[1], atom, val)
		}
		return prune(t.args[2], atom, val)
	}
	if v, ok := implied(atom, val, x); ok {
		if v {
			return restrict(t.args[1], atom, val)
		}
		return restrict(t.args[2], atom, val)
	}
	hi, lo := restrict(t.args[1], atom, val), restrict(t.args[2], atom, val)
	if hi == t.args[1] && lo == t.args[2] {
		return t
	}
	return node(x, hi, lo)
}

// implied: does atom a having value v decide atom b?
func implied(a *Term, v bool, b *Term) (bool, bool) {
	if a == b {
		return v, true
	}
	switch a.op {
	case "b":
		// a variadic signature has a parameter
		if x := a.args[0]; v && x.op == "invoke" && b.op == "ge" && b.aux == "1" {
			switch n := b.args[0]; {
			case x.aux == "go/types.Variadic" && n == mk("invoke", "go/types.Len", mk("invoke", "go/types.Params", x.args[0])):
				return true, true
			case x.aux == "reflect.IsVariadic" && n == mk("invoke", "reflect.NumIn", x.args[0]):
				return true, true
			}
		}
	case "ge":
		if x := b; !v && a.aux == "1" && x.op == "b" {
			if r, ok := implied(b, true, a); ok && r {
				return false, true
			}
		}
	}
	switch a.op {
	case "is":
		if b.op == "is" && a.args[0] == b.args[0] {
			return impliedIs(a.aux, v, b.aux)
		}
		if v && b.op == "eq" && b.args[0] == Nil && b.args[1] == a.args[0] {
			return false, true
		}
	case "eq":
		if v && b.op == "eq" {
			if a.args[0].isConst() && b.args[0].isConst() && a.args[1] == b.args[1] && a.args[0] != b.args[0] {
				return false, true
			}
		}
		if v && b.op == "is" && a.args[0] == Nil && a.args[1] == b.args[0] {
			return false, true
		}
		if v && b.op == "ge" && a.args[1] == b.args[0] && a.args[0].isInt() {
			k, _ := strconv.ParseInt(b.aux, 10, 64)
			return a.args[0].intVal() >= k, true
		}
	case "ge":
		if b.op == "ge" && a.args[0] == b.args[0] {
			x, _ := strconv.ParseInt(a.aux, 10, 64)
			y, _ := strconv.ParseInt(b.aux, 10, 64)
			if v && x >= y {
				return true, true
			}
			if !v && y >= x {
				return false, true
			}
		}
		if b.op == "eq" && b.args[0].isInt() && b.args[1] == a.args[0] {
			k, _ := strconv.ParseInt(a.aux, 10, 64)
			if (b.args[0].intVal() >= k) != v {
				return false, true
			}
		}
		if b.op == "any" && !v && a.aux == "1" && b.args[0] == a.args[0] {
			return false, true
		}
	case "any":
		if v && b.op == "ge" && b.aux == "1" && b.args[0] == a.args[0] {
			return true, true
		}
		if b.op == "any" && b.args[0] == a.args[0] {
			// any(p) false implies any(p and q) false
			if !v && and(a.args[1], b.args[1]) == b.args[1] {
				return false, true
			}
			if v && or(a.args[1], b.args[1]) == b.args[1] {
				return true, true
			}
		}
	}
	return false, false
}

func ifaceOf(s string) *types.Interface {
	if t := typeReg[s]; t != nil {
		if i, ok := t.Underlying().(*types.Interface); ok {
			return i
		}
	}
	return nil
}

func sealed(t types.Type) *types.Package {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for k := 0; k < i.NumMethods(); k++ {
		if !i.Method(k).Exported() {
			return i.Method(k).Pkg()
		}
	}
	return nil
}

type isKey struct {
	a string
	v bool
	b string
}

var isMemo = map[isKey][2]bool{}

func impliedIs(a string, v bool, b string) (bool, bool) {
	k := isKey{a, v, b}
	if r, ok := isMemo[k]; ok {
		return r[0], r[1]
	}
	x, y := impliedIs0(a, v, b)
	isMemo[k] = [2]bool{x, y}
	return x, y
}

func impliedIs0(a string, v bool, b string) (bool, bool) {
	ta, tb := typeReg[a], typeReg[b]
	ia, ib := ifaceOf(a), ifaceOf(b)
	switch {
	case v && ia == nil && ib == nil:
		return a == b, true
	case v && ia == nil && ib != nil:
		return types.Implements(ta, ib), true
	case v && ia != nil && ib == nil:
		if !types.Implements(tb, ia) {
			return false, true
		}
	case v && ia != nil && ib != nil:
		if types.Implements(ta, ib) {
			return true, true
		}
		if exclusiveIfaces(ta, tb) {
			return false, true
		}
	case !v && ia != nil && ib == nil:
		if types.Implements(tb, ia) {
			return false, true
		}
	case !v && ia != nil && ib != nil:
		if types.Implements(tb, ia) {
			return false, true
		}
	case !v && ia == nil && ib == nil:
		if a == b {
			return false, true
		}
	}
	return false, false
}

// exclusiveIfaces: no type can implement both, because one of them can only be
// implemented in the package that declares it, and no type there implements
// the other.
func exclusiveIfaces(a, b types.Type) bool {
	for _, p := range [][2]types.Type{{a, b}, {b, a}} {
		pkg := sealed(p[0])
		if pkg == nil {
			continue
		}
		other := p[1].Underlying().(*types.Interface)
		self := p[0].Underlying().(*types.Interface)
		if pkg.Path() == "reflect" || pkg.Path() == "internal/abi" {
			// only *reflect.rtype, which is not exported
			if op := sealed(p[1]); op != nil && op != pkg {
				return true
			}
			// other needs a method that reflect.Type does not have
			for k := 0; k < other.NumMethods(); k++ {
				if o, _, _ := types.LookupFieldOrMethod(p[0], false, other.Method(k).Pkg(), other.Method(k).Name()); o == nil {
					return true
				}
			}
			continue
		}
		if op := sealed(p[1]); op != nil && op != pkg {
			return true
		}
		both := false
		for _, n := range pkg.Scope().Names() {
			tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if _, isI := t.Underlying().(*types.Interface); isI {
					continue
				}
				if types.Implements(t, self) && types.Implements(t, other) {
					both = true
				}
			}
		}
		if !both {
			return true
		}
	}
	return false
}

// ---------- construction with normalisation ----------

// binder operators: index of the body, which conditions are not lifted from
func binderBody(op string) int {
	switch op {
	case "for", "any", "first", "last":
		return 1
	case "lam":
		return 0
	case "all":
		return 1
	case "mapc":
		return 1
	}
	return -1
}

type mkKey struct {
	op, aux string
	args    string
	lift    bool
}

var mkMemo = map[mkKey]*Term{}

func mk(op, aux string, args ...*Term) *Term {
	if op == "ite" {
		return ite(args[0], args[1], args[2])
	}
	if op == "cat" && !liftAll {
		return mkCat(args)
	}
	bb := binderBody(op)
	if bb < 0 && !liftAll && looksInside(op) {
		for i, a := range args {
			if a.cond {
				args = append([]*Term(nil), args...)
				for j := i; j < len(args); j++ {
					args[j] = liftCat(args[j])
				}
				break
			}
		}
	}
	var top *Term
	for i, a := range args {
		if i == bb {
			continue
		}
		if a.op == "ite" && (top == nil || before(a.args[0], top)) {
			top = a.args[0]
		}
	}
	if top == nil {
		if bb >= 0 {
			return mkBinder(op, aux, args)
		}
		return simplify(op, aux, args)
	}
	var sb strings.Builder
	for _, a := range args {
		sb.WriteString(strconv.Itoa(a.id))
		sb.WriteByte(',')
	}
	k := mkKey{op, aux, sb.String(), liftAll}
	if r, ok := mkMemo[k]; ok {
		return r
	}
	his, los := make([]*Term, len(args)), make([]*Term, len(args))
	for i, a := range args {
		if i == bb {
			his[i], los[i] = a, a
			if top.op == "eq" {
				// restricting may lower the height of the body
				his[i] = rebind(restrict(a, top, true), a.h+1)
			}
			continue
		}
		his[i], los[i] = restrict(a, top, true), restrict(a, top, false)
	}
	r := ite(atomBool(top), mk(op, aux, his...), mk(op, aux, los...))
	mkMemo[k] = r
	return r
}

// liftAll: conditions are moved out of texts as well, which gives a unique
// form, but one that can be exponentially larger.
var liftAll bool

// looksInside: operations that need to know the parts of a text.
func looksInside(op string) bool {
	switch op {
	case "eq", "slen", "sidx", "sslice", "quote", "call", "b", "ge", "lt", "runecount", "runepos", "runeat", "has", "get", "put":
		return true
	}
	return false
}

// liftCat moves the conditions of a text to the outside.
func liftCat(t *Term) *Term {
	if !t.cond {
		return t
	}
	old := liftAll
	liftAll = true
	defer func() { liftAll = old }()
	r := Empty
	for _, a := range t.args {
		r = mkLifted(r, a)
	}
	return r
}

func mkLifted(a, b *Term) *Term {
	if a.op == "ite" || b.op == "ite" {
		top := a.args0top()
		if t := b.args0top(); top == nil || t != nil && before(t, top) {
			top = t
		}
		hi := mkLifted(restrict(a, top, true), restrict(b, top, true))
		lo := mkLifted(restrict(a, top, false), restrict(b, top, false))
		return node(top, hi, lo)
	}
	if a.cond {
		a = liftCat(a)
		return mkLifted(a, b)
	}
	if b.cond {
		return mkLifted(a, liftCat(b))
	}
	return mkCat([]*Term{a, b})
}

func (t *Term) args0top() *Term {
	if t.op == "ite" {
		return t.args[0]
	}
	return nil
}

func textPieces(t *Term) []*Term {
	if t.op == "cat" {
		return t.args
	}
	if t == Empty {
		return nil
	}
	return []*Term{t}
}

// factor splits two texts into a common beginning, what differs, and a common
// end.
func factor(x, y *Term) (p, a, b, s *Term) {
	xs, ys := append([]*Term(nil), textPieces(x)...), append([]*Term(nil), textPieces(y)...)
	var pre, suf []*Term
	for len(xs) > 0 && len(ys) > 0 {
		u, v := xs[0], ys[0]
		if u == v {
			pre = append(pre, u)
			xs, ys = xs[1:], ys[1:]
			continue
		}
		if u.isStr() && v.isStr() {
			c, d := u.str(), v.str()
			n := 0
			for n < len(c) && n < len(d) && c[n] == d[n] {
				n++
			}
			if n > 0 {
				pre = append(pre, strTerm(c[:n]))
				xs[0], ys[0] = strTerm(c[n:]), strTerm(d[n:])
				if xs[0] == Empty {
					xs = xs[1:]
				}
				if ys[0] == Empty {
					ys = ys[1:]
				}
				if n < len(c) && n < len(d) {
					break
				}
				continue
			}
		}
		break
	}
	for len(xs) > 0 && len(ys) > 0 {
		i, j := len(xs)-1, len(ys)-1
		u, v := xs[i], ys[j]
		if u == v {
			suf = append([]*Term{u}, suf...)
			xs, ys = xs[:i], ys[:j]
			continue
		}
		if u.isStr() && v.isStr() {
			c, d := u.str(), v.str()
			n := 0
			for n < len(c) && n < len(d) && c[len(c)-1-n] == d[len(d)-1-n] {
				n++
			}
			if n > 0 {
				suf = append([]*Term{strTerm(c[len(c)-n:])}, suf...)
				xs[i], ys[j] = strTerm(c[:len(c)-n]), strTerm(d[:len(d)-n])
				if xs[i] == Empty {
					xs = xs[:i]
				}
				if ys[j] == Empty {
					ys = ys[:j]
				}
				if n < len(c) && n < len(d) {
					break
				}
				continue
			}
		}
		break
	}
	return mkCat(pre), mkCat(xs), mkCat(ys), mkCat(suf)
}

// containsBV reports whether the bound variable of height h occurs free in t.
var bvMemo = map[[2]int]bool{}

func containsBV(t *Term, h int) bool {
	if t.op == "bv" {
		return t.aux == strconv.Itoa(h)
	}
	if len(t.args) == 0 {
		return false
	}
	k := [2]int{t.id, h}
	if r, ok := bvMemo[k]; ok {
		return r
	}
	r := false
	bb := binderBody(t.op)
	for i, a := range t.args {
		if i == bb && t.args[bb].h+1 == h {
			continue // bound here
		}
		if containsBV(a, h) {
			r = true
			break
		}
	}
	bvMemo[k] = r
	return r
}

func findInvariantAtom(t *Term, h int, seen map[*Term]bool) *Term {
	if t.op != "ite" && !t.cond || seen[t] {
		return nil
	}
	seen[t] = true
	if t.cond {
		for _, a := range t.args {
			if r := findInvariantAtom(a, h, seen); r != nil {
				return r
			}
		}
		return nil
	}
	if !containsBV(t.args[0], h) {
		return t.args[0]
	}
	if r := findInvariantAtom(t.args[1], h, seen); r != nil {
		return r
	}
	return findInvariantAtom(t.args[2], h, seen)
}

func mkBinder(op, aux string, args []*Term) *Term {
	bb := binderBody(op)
	body := args[bb]
	h := body.h + 1
	if at := findInvariantAtom(body, h, map[*Term]bool{}); at != nil {
		ha, la := append([]*Term(nil), args...), append([]*Term(nil), args...)
		for i := range args {
			ha[i] = restrict(args[i], at, true)
			la[i] = restrict(args[i], at, false)
		}
		// restricting may lower the height of the body: rename
		ha[bb] = rebind(ha[bb], h)
		la[bb] = rebind(la[bb], h)
		return ite(atomBool(at), mk(op, aux, ha...), mk(op, aux, la...))
	}
	if (op == "any" || op == "first" || op == "for") && args[0] != Inf {
		// within the range
		if in := mk("lt", "", bvar(h), args[0]); in.op == "ite" && in.args[1] == True && in.args[2] == False && occursIn(body, in.args[0]) {
			if nb := restrict(body, in.args[0], true); nb != body {
				args = append([]*Term(nil), args...)
				args[bb] = rebind(nb, h)
				return mk(op, aux, args...)
			}
		}
	}
	if op == "any" || op == "for" {
		if r := loopLaw(op, aux, args[0], body, h); r != nil {
			return r
		}
	}
	if op == "any" || op == "first" {
		// the first one: q here and nowhere before
		if q := whereFirst(body, h); q != nil {
			args = append([]*Term(nil), args...)
			args[bb] = rebind(q, h)
			return mk(op, aux, args...)
		}
	}
	switch op {
	case "any":
		n := args[0]
		if body == False || n == Zero {
			return False
		}
		if body == True {
			if n == Inf {
				return True
			}
			return cmpGe(n, 1)
		}
		if n.isInt() && n.intVal() <= 8 && n.intVal() >= 0 {
			r := False
			for i := n.intVal() - 1; i >= 0; i-- {
				r = or(subst(body, bvar(h), intTerm(i)), r)
			}
			return r
		}
		if r := anyEntry(n, body, h); r != nil {
			return r
		}
		return atomBool(internB(op, aux, args))
	case "first":
		if body == True {
			return Zero
		}
		if args[0] == Inf {
			switch subst(body, bvar(h), Zero) {
			case True:
				return Zero
			case False:
				// not at the start: look from the next one
				if body != False && subst(body, bvar(h), intTerm(1)) != False {
					i := newTemp()
					return add(intTerm(1), mk("first", "", Inf, bind(subst(body, bvar(h), add(i, intTerm(1))), i)))
				}
			}
		}
	case "for":
		n := args[0]
		if body == Empty || body == LNil {
			return body
		}
		if n == Zero {
			if aux == "t" {
				return Empty
			}
			return LNil
		}
		if n.isInt() && n.intVal() <= 16 && n.intVal() > 0 {
			var ps []*Term
			for i := int64(0); i < n.intVal(); i++ {
				ps = append(ps, subst(body, bvar(h), intTerm(i)))
			}
			if aux == "t" {
				return mk("cat", "", ps...)
			}
			return mk("lcat", "", ps...)
		}
		if n.op == "add" && n.args[0].op != "inf" {
			if k, ok := addConst(n); ok && k > 0 && k <= 4 {
				base := n.args[0]
				ps := []*Term{mk("for", aux, base, rebind(body, h))}
				for j := int64(0); j < k; j++ {
					ps = append(ps, subst(body, bvar(h), mk("add", strconv.FormatInt(j, 10), base)))
				}
				if aux == "t" {
					return mk("cat", "", ps...)
				}
				return mk("lcat", "", ps...)
			}
		}
		if aux == "l" && body.op == "elem" {
			// a copy of the elements of a list
			if l := body.args[0]; l.op == "load" && l.args[0].op == "ia" && l.args[0].args[1] == bvar(h) && !containsBV(l.args[0].args[0], h) && n == mk("len", "", l.args[0].args[0]) {
				return mk("spread", "", l.args[0].args[0])
			}
		}
	}
	return internB(op, aux, args)
}

// whereFirst: the body says, for indexes before which q holds nowhere, that q
// holds.
func whereFirst(body *Term, h int) *Term {
	seen := map[*Term]bool{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		if t.op != "ite" || seen[t] {
			return nil
		}
		seen[t] = true
		if a := t.args[0]; a.op == "any" && a.args[0] == bvar(h) && !containsBV(a.args[1], h) {
			q := subst(a.args[1], bvar(bodyHeight(a)), bvar(h))
			if q != False && q != True && restrict(body, a, false) == q {
				return q
			}
		}
		if r := find(t.args[1]); r != nil {
			return r
		}
		return find(t.args[2])
	}
	return find(body)
}

func internB(op, aux string, args []*Term) *Term { return intern(op, aux, args...) }

// bodyHeight returns the height at which the variable of binder t is bound.
func bodyHeight(t *Term) int { return t.args[binderBody(t.op)].h + 1 }

func rebind(body *Term, h int) *Term {
	if body.h+1 == h {
		return body
	}
	return bind(body, bvar(h))
}

// bind abstracts temp in body and returns the renamed body.
func bind(body, temp *Term) *Term {
	for {
		h := body.h + 1
		r := subst(body, temp, bvar(h))
		if r.h+1 == h {
			return r
		}
		// renaming changed the height (by simplification): try again with the
		// variable replaced back
		tmp := newTemp()
		body = subst(r, bvar(h), tmp)
		temp = tmp
	}
}

func openBody(t *Term, x *Term) *Term {
	return subst(t.args[binderBody(t.op)], bvar(bodyHeight(t)), x)
}

type substKey struct {
	t, f, to *Term
	lift     bool
}

var substMemo = map[substKey]*Term{}

func subst(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	if t.size <= from.size && !(from.op == "bv") {
		return t
	}
	if len(t.args) == 0 {
		return t
	}
	if from.op == "tmp" && !t.hasTemp(from) {
		return t
	}
	if from.op == "bv" {
		h, _ := strconv.Atoi(from.aux)
		if !containsBV(t, h) {
			return t
		}
	}
	k := substKey{t, from, to, liftAll}
	if r, ok := substMemo[k]; ok {
		return r
	}
	var r *Term
	if t.op == "ite" {
		c := substAtom(t.args[0], from, to)
		hi, lo := subst(t.args[1], from, to), subst(t.args[2], from, to)
		r = ite(c, hi, lo)
	} else {
		r = substAtom(t, from, to)
	}
	substMemo[k] = r
	return r
}

func substAtom(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	args := make([]*Term, len(t.args))
	changed := false
	bb := binderBody(t.op)
	for i, a := range t.args {
		if i == bb {
			h := bodyHeight(t)
			if from.op == "bv" && from.aux == strconv.Itoa(h) {
				args[i] = a
				continue
			}
			// avoid capture and height changes
			tmp := newTempFor(t)
			b := subst(a, bvar(h), tmp)
			nb := subst(b, from, to)
			if nb == b {
				args[i] = a
			} else {
				args[i] = bind(nb, tmp)
				changed = true
			}
			continue
		}
		args[i] = subst(a, from, to)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	r := mk(t.op, t.aux, args...)
	if isBoolOp(t.op) && r.op != "ite" && !r.isConst() {
		return atomBool(r)
	}
	return r
}

// newTempFor returns a temporary for opening the binder t; the same one every
// time, so that results are shared.
var openTemps = map[*Term]*Term{}

func newTempFor(t *Term) *Term {
	if x, ok := openTemps[t]; ok {
		return x
	}
	x := newTemp()
	openTemps[t] = x
	return x
}

func isBoolOp(op string) bool {
	switch op {
	case "eq", "ge", "lt", "is", "any", "b":
		return true
	}
	return false
}

func addConst(t *Term) (int64, bool) {
	if t.op == "add" && len(t.args) == 1 {
		n, err := strconv.ParseInt(t.aux, 10, 64)
		return n, err == nil
	}
	return 0, false
}

func add(a, b *Term) *Term {
	return mk("plus", "", a, b)
}

func cmpGe(x *Term, k int64) *Term { return mk("ge", strconv.FormatInt(k, 10), x) }

func nonneg(t *Term) bool {
	switch t.op {
	case "len", "tmp", "bv", "first", "nn":
		return true
	case "const":
		return t.isInt() && t.intVal() >= 0
	case "add":
		k, ok := addConst(t)
		return ok && k >= 0 && nonneg(t.args[0])
	case "plus":
		return nonneg(t.args[0]) && nonneg(t.args[1])
	case "call", "invoke":
		i := strings.LastIndexByte(t.aux, '.')
		n := t.aux[i+1:]
		if t.aux == "go/types.Len" && len(t.args) == 1 {
			// the length of a list of variables
			x := t.args[0]
			return x.op == "invoke" && (x.aux == "go/types.Params" || x.aux == "go/types.Results")
		}
		return strings.HasPrefix(n, "Num") || n == "RuneLen"
	}
	return false
}

func lenLike(t *Term) bool {
	switch t.op {
	case "len", "tmp", "bv", "first":
		return true
	case "add", "plus":
		return nonneg(t)
	case "call", "invoke":
		return nonneg(t)
	}
	return false
}

func eq(a, b *Term) *Term    { return mk("eq", "", a, b) }
func text(ts ...*Term) *Term { return mk("cat", "", ts...) }

// distinct reports that two (non conditional) terms can never be equal.
func distinctPtr(a, b *Term) bool {
	if a == Nil || b == Nil {
		x := a
		if a == Nil {
			x = b
		}
		switch x.op {
		case "alloc", "fa", "ia", "global", "iface", "func", "closure", "obj", "newmap":
			return true
		case "seq":
			return false
		}
		return false
	}
	ra, rb := rootOf(a), rootOf(b)
	isObj := func(t *Term) bool { return t.op == "alloc" }
	if isObj(ra) && isObj(rb) && ra != rb {
		return true
	}
	known := func(t *Term) bool {
		return t.op == "param" || t.op == "load" || t.op == "global" || t.op == "call" || t.op == "invoke" || t.op == "un"
	}
	if isObj(ra) && known(rb) || isObj(rb) && known(ra) {
		return true
	}
	if a.op == "fa" && b.op == "fa" && a.aux != b.aux && a.args[0] == b.args[0] {
		return true
	}
	return false
}

func rootOf(t *Term) *Term {
	for t.op == "fa" || t.op == "ia" {
		t = t.args[0]
	}
	return t
}

// dump renders a term for diagnostics.
func (t *Term) String() string { return t.render(14) }

func (t *Term) render(depth int) string {
	if depth == 0 {
		return "…"
	}
	switch t.op {
	case "const":
		return t.aux
	case "tmp":
		return "$" + t.aux
	case "bv":
		return "i" + t.aux
	case "param", "global":
		return t.aux
	case "ite":
		return "(" + t.args[0].render(depth-1) + " ? " + t.args[1].render(depth-1) + " : " + t.args[2].render(depth-1) + ")"
	case "load":
		return t.args[0].render(depth-1) + "^"
	case "fa":
		return t.args[0].render(depth-1) + "." + t.aux
	case "ia":
		return t.args[0].render(depth-1) + "[" + t.args[1].render(depth-1) + "]"
	}
	var sb strings.Builder
	sb.WriteString(t.op)
	if t.aux != "" {
		sb.WriteString("‹" + shortAux(t.aux) + "›")
	}
	if len(t.args) > 0 {
		sb.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(a.render(depth - 1))
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func shortAux(s string) string {
	s = strings.ReplaceAll(s, "github.com/jhump/gopoet.", "")
	return strings.ReplaceAll(s, "github.com/jhump/gopoet", "")
}
