package main

import (
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"math"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagRepo  = flag.String("repo", "/repo", "repository to analyse")
	flagVerif = flag.String("verif", "/verif", "directory of the reference definitions")
	flagProp  = flag.String("prop", "", "property to decide")
	flagTier  = flag.String("tier", "", "quick or thorough")
	flagOb    = flag.String("ob", "", "debug: only obligations containing this text")
	flagDump  = flag.Bool("dump", false, "debug: print outcomes")
	flagWork  = flag.String("worker", "", "internal: build variant to analyse")
	flagSkip  = flag.String("skip", "", "internal: obligations that are not due")
)

// verdict of one obligation in one build variant
type verdict struct {
	ob      *Obligation
	variant string
	ok      bool
	undec   bool
	partial bool // the evaluation got stuck
	diffs   []string
	pos     token.Position
	fn      string
	sites   int
	funcs   map[string]bool
	nodes   int
}

func main() {
	flag.Parse()
	if *flagWork != "" {
		skip := map[string]bool{}
		for _, n := range strings.Split(*flagSkip, "\x1f") {
			skip[n] = true
		}
		os.Exit(worker(*flagWork, *flagProp, skip))
	}
	if *flagProp == "" {
		debugMain()
		return
	}
	os.Exit(checkProperty(*flagProp))
}

func load(variant string) (*Program, error) {
	var tags []string
	if variant != "default" {
		tags = []string{variant}
	}
	p, err := loadProgram(*flagRepo, filepath.Join(*flagVerif, "specs"), tags)
	if err != nil {
		return nil, err
	}
	p.variant = variant
	var obs []*Obligation
	for _, o := range p.obs {
		if v := o.opts["only"]; v == "" || v == variant {
			obs = append(obs, o)
		}
	}
	p.obs = obs
	p.prepass()
	return p, nil
}

// prepass finds the functions that render types recursively.
func (p *Program) prepass() {
	for _, n := range p.pkg.Types.Scope().Names() {
		tn, ok := p.pkg.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, isI := tn.Type().Underlying().(*types.Interface); isI {
			continue
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			it := p.pkg.Types.Scope().Lookup("TypeName")
			if it == nil || !types.Implements(t, it.Type().Underlying().(*types.Interface)) {
				continue
			}
			sel := types.NewMethodSet(t).Lookup(p.pkg.Types, "String")
			if sel == nil {
				continue
			}
			f := p.prog.MethodValue(sel)
			if f == nil {
				continue
			}
			t0 := time.Now()
			p.reset()
			n0 := len(terms)
			_, err := p.run(f, paramTerms(f), f.String(), "", map[string]string{"core": "yes"})
			if *flagDump {
				fmt.Println("prepass", f, time.Since(t0), len(terms)-n0, err)
			}
		}
	}
}

const retry = "retry"

func (p *Program) check(o *Obligation) *verdict {
	if n, _ := strconv.Atoi(os.Getenv("VA_INSTANCE")); n != 0 {
		instance = int64(n)
		return p.checkAll(o)
	}
	v := p.checkAll(o)
	if !v.undec && !v.ok && o.opts["recursive"] == "" {
		if w := p.checkOpen(o); w != nil && w.ok {
			return w
		}
	}
	if !v.undec || !v.partial {
		return v
	}
	// it cannot be decided in general: look for a violation in lists of a
	// certain length
	defer func() { instance = 0 }()
	for _, instance = range []int64{2, 1, -1} {
		if w := p.checkInstance(o); w != nil && !w.undec && !w.ok {
			where := fmt.Sprintf("where all lists have %d elements: ", instance)
			if instance < 0 {
				where = "where the lists have different lengths: "
			}
			for i, d := range w.diffs {
				w.diffs[i] = where + d
			}
			return w
		}
	}
	return v
}

// checkOpen looks into operations that were not looked into: what differs may
// be equal by what they do.
func (p *Program) checkOpen(o *Obligation) *verdict {
	used := map[string]bool{}
	for _, t := range terms {
		if r := strings.TrimPrefix(t.aux, "gopoet."); t.op == "call" && r != t.aux && r != o.impl && p.roles[r] != nil && !effectRoles[r] {
			used[r] = true
		}
	}
	if len(used) == 0 || o.opts["open"] == "yes" {
		return nil
	}
	o2 := *o
	o2.opts = maps.Clone(o.opts)
	if o2.opts == nil {
		o2.opts = map[string]string{}
	}
	open := slices.Sorted(maps.Keys(used))
	if was := o.opts["open"]; was != "" {
		open = append(open, was)
	}
	o2.opts["open"] = strings.Join(open, ",")
	giveUpAt = time.Now().Add(20 * time.Second)
	defer func() { giveUpAt = time.Time{} }()
	return p.checkInstance(&o2)
}

func (p *Program) checkInstance(o *Obligation) (v *verdict) {
	defer func() {
		if e := recover(); e != nil {
			v = nil
		}
	}()
	return p.checkAll(o)
}

func (p *Program) checkAll(o *Obligation) *verdict {
	p.materialise = map[*ssa.CallCommon]bool{}
	for i := 0; ; i++ {
		v := p.check1(o)
		if v == nil && i < 20 {
			continue
		}
		if v == nil {
			giveUp("lists with an identity")
		}
		return v
	}
}

func (p *Program) check1(o *Obligation) *verdict {
	v := &verdict{ob: o, variant: p.variant, funcs: map[string]bool{}}
	impl := p.lookup(o.impl)
	spec := p.spkg.Func(o.spec)
	if why, bad := p.broken[o.file]; bad {
		v.undec = true
		v.diffs = append(v.diffs, "the reference definition does not type-check against this source: "+why)
		return v
	}
	if impl == nil || impl.Blocks == nil {
		v.undec = true
		v.diffs = append(v.diffs, "operation "+o.impl+" not found")
		return v
	}
	v.fn = impl.String()
	v.pos = p.fset.Position(impl.Pos())
	if spec == nil {
		v.undec = true
		v.diffs = append(v.diffs, "reference definition not found")
		return v
	}
	if len(impl.Params) != len(spec.Params) {
		v.undec = true
		v.diffs = append(v.diffs, "the signature of "+o.impl+" has changed")
		return v
	}
	role := p.roleOf[impl]
	if role == "" {
		role = o.impl
	}
	coreRec := ""
	if o.opts["recursive"] != "" {
		coreRec = o.impl
		role = ""
	}
	p.reset()
	args := paramTerms(spec)
	before := len(terms)
	a, err := p.run(impl, args, role, coreRec, o.opts)
	if err != nil {
		if err.why == retry {
			return nil
		}
		if (o.opts["finite"] != "" || o.opts["reflect"] != "") && strings.HasPrefix(err.why, depthExceeded) {
			// the reference needs no recursion at all
			v.diffs = append(v.diffs, "the value is taken apart without end: "+err.why)
			return v
		}
		v.undec, v.partial = true, true
		v.diffs = append(v.diffs, fmt.Sprintf("undecided: %s (%s)", err.why, p.fset.Position(err.pos)))
		return v
	}
	opts := o.opts
	if opts["order"] != "" {
		// the same operation, with the keys of maps in another order
		opts = maps.Clone(opts)
		opts["order"] = "other"
	}
	b, err := p.run(spec, args, role, coreRec, opts)
	if err != nil {
		if err.why == retry {
			return nil
		}
		v.undec = true
		v.diffs = append(v.diffs, fmt.Sprintf("undecided (reference): %s (%s)", err.why, p.fset.Position(err.pos)))
		return v
	}
	for f := range a.ev.inlined {
		v.funcs[f.String()] = true
	}
	v.sites = a.ev.sites
	v.nodes = len(terms) - before
	if *flagDump {
		fmt.Println("IMPL", o.impl)
		a.dump()
		fmt.Println("SPEC", o.spec)
		b.dump()
	}
	v.diffs = p.compare(a, b, v)
	v.ok = len(v.diffs) == 0
	return v
}

// certain: a condition made of simple facts about the input, each of which may
// or may not be the case.
func certain(c *Term) bool {
	ok := true
	seen := map[*Term]bool{}
	var input func(t *Term) bool
	input = func(t *Term) bool {
		switch t.op {
		case "param":
			return true
		case "load", "fa", "field", "ia", "unwrap", "len", "mapof":
			for _, a := range t.args {
				if !input(a) && !a.isInt() {
					return false
				}
			}
			return len(t.args) > 0
		}
		return false
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.isConst() {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			for _, a := range t.args {
				rec(a)
			}
			return
		}
		switch t.op {
		case "eq":
			for _, a := range t.args {
				ok = ok && (a == Nil || a == Empty || a.isInt() || input(a))
			}
		case "ge", "is", "b":
			ok = ok && input(t.args[len(t.args)-1])
		default:
			ok = false
		}
	}
	rec(c)
	return ok
}

func (o *outcome) dump() {
	if o.never {
		fmt.Println("  never returns")
	}
	fmt.Println("  panic:", o.panicC.render(40))
	fmt.Println("  crash:", o.crashC.render(40))
	for i, r := range o.vals {
		fmt.Printf("  result %d: %s\n", i, r.render(40))
	}
	for _, k := range sortedKeys(o.cells) {
		fmt.Printf("  %s := %s\n", k.render(40), o.cells[k].render(40))
	}
}

func (p *Program) compare(a, b *outcome, v *verdict) []string {
	var out []string
	add := func(what string, x, y *Term) {
		dx, dy := firstDiff(x, y)
		if dx.pos != token.NoPos {
			if ps := p.fset.Position(dx.pos); !strings.Contains(filepath.Base(ps.Filename), "zz_verif_") && strings.HasPrefix(ps.Filename, *flagRepo) {
				v.pos = ps
			}
		}
		if os.Getenv("VA_FULL") != "" {
			fmt.Fprintf(os.Stderr, "%s:\n  is       %s\n  required %s\n", what, x.render(60), y.render(60))
		}
		out = append(out, fmt.Sprintf("%s: is %s where %s is required", what, shorten(dx.render(7)), shorten(dy.render(7))))
	}
	if a.never != b.never {
		if a.never {
			return []string{"always panics"}
		}
		return []string{"returns, where it must always panic"}
	}
	if a.never {
		return nil
	}
	if !same(a.panicC, b.panicC) {
		add("condition of a panic", a.panicC, b.panicC)
	}
	if len(a.vals) != len(b.vals) {
		return append(out, "number of results")
	}
	// what happens where the program has crashed does not matter
	dead := or(a.crashC, b.crashC)
	same := func(x, y *Term) bool {
		if same(x, y) {
			return true
		}
		if dead != False && same(constrain(x, not(dead)), constrain(y, not(dead))) {
			return true
		}
		// nor does what would happen after a panic
		return a.panicC != False && len(x.args) > 0 && len(y.args) > 0 && (x.op == "ite" || y.op == "ite") &&
			same(ite(a.panicC, Undef, x), ite(b.panicC, Undef, y))
	}
	if c := and(a.crashC, not(or(b.crashC, or(a.panicC, b.panicC)))); c != False && certain(c) {
		out = append(out, "crashes where it must not: "+shorten(c.render(7)))
	}
	for i := range a.vals {
		if !same(noMaps(a.vals[i]), noMaps(b.vals[i])) {
			add(fmt.Sprintf("result %d", i), a.vals[i], b.vals[i])
		}
	}
	keys := map[*Term]*Term{}
	for k := range a.cells {
		keys[k] = k
	}
	for k := range b.cells {
		keys[k] = k
	}
	for _, k := range sortedKeys(keys) {
		x, ok := a.cells[k]
		if !ok {
			x = a.ev.initial(k, newState())
		}
		y, ok := b.cells[k]
		if !ok {
			y = b.ev.initial(k, newState())
		}
		if !same(x, y) {
			what := "effect on " + k.render(8)
			switch k.op {
			case "events":
				what = "effects"
			case "bufof":
				what = "text written to " + k.args[0].render(6)
			}
			add(what, x, y)
		}
	}
	return out
}

// noMaps is t, where the maps of an Imports are nil if they are empty: nothing
// that is done with them may depend on which it is.
func noMaps(t *Term) *Term {
	if t.op == "ite" {
		return ite(t.args[0], noMaps(t.args[1]), noMaps(t.args[2]))
	}
	if t.op == "alloc" || t.op == "iface" || len(t.args) == 0 {
		return t
	}
	args := make([]*Term, len(t.args))
	same := true
	empty := t.op == "struct" && strings.Contains(t.aux, "importsByPath map")
	if empty {
		// both or none
		n := 0
		for _, a := range t.args {
			if a.op == "newmap" && a.args[0].op == "mnil" {
				n++
			}
		}
		empty = n == 2
	}
	for i, a := range t.args {
		args[i] = a
		if t.op == "obj" {
			args[i] = noMaps(a)
		} else if empty && a.op == "newmap" {
			args[i] = Nil
		}
		same = same && args[i] == a
	}
	if same {
		return t
	}
	return mk(t.op, t.aux, args...)
}

// same compares two values, if necessary in the form in which all conditions
// are outside.
func same(x, y *Term) (r bool) {
	if x == y {
		return true
	}
	defer func() {
		liftAll = false
		if e := recover(); e != nil {
			if _, ok := e.(undecided); !ok {
				panic(e)
			}
			r = false
		}
	}()
	liftAll = true
	lifted := map[*Term]*Term{}
	var lift func(t *Term) *Term
	lift = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := lifted[t]; ok {
			return r
		}
		var r *Term
		if t.op == "ite" {
			r = ite(lift(t.args[0]), lift(t.args[1]), lift(t.args[2]))
		} else {
			args := make([]*Term, len(t.args))
			bb := binderBody(t.op)
			changed := t.op == "cat" && t.cond
			for i, a := range t.args {
				args[i] = a
				if i == bb {
					tmp := newTempFor(t)
					o := subst(a, bvar(bodyHeight(t)), tmp)
					if n := lift(o); n != o {
						args[i] = bind(n, tmp)
						changed = true
					}
					continue
				}
				args[i] = lift(a)
				changed = changed || args[i] != a
			}
			r = t
			if changed {
				if t.op == "cat" {
					r = Empty
					for _, a := range args {
						r = mkLifted(r, a)
					}
				} else {
					r = mk(t.op, t.aux, args...)
				}
			}
			if isBoolOp(t.op) && r.op != "ite" && !r.isConst() {
				r = atomBool(r)
			}
		}
		lifted[t] = r
		return r
	}
	lx, ly := lift(x), lift(y)
	return lx == ly || caseSplit(lx, ly)
}

// caseSplit compares two values under every combination of the conditions that
// either of them depends on.
func caseSplit(x, y *Term) bool {
	fuel := 20000
	type literal struct {
		atom *Term
		val  bool
	}
	var ctx []literal
	// what has been decided stays decided
	again := func(t *Term) *Term {
		for n := 0; n < 40; n++ {
			top := t.args0top()
			if top == nil {
				break
			}
			old := t
			for _, l := range ctx {
				if l.atom == top {
					t = restrict(t, l.atom, l.val)
				} else if v, ok := implied(l.atom, l.val, top); ok {
					t = restrict(t, top, v)
				}
			}
			if t == old {
				break
			}
		}
		return t
	}
	// the numbers that satisfy all that has been assumed about one (ok: there
	// are not many), where two stand for more
	values := func(of *Term) (vals []int64, ok bool) {
		lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
		not := map[int64]bool{}
		for _, l := range ctx {
			switch {
			case l.atom.op == "ge" && l.atom.args[0] == of:
				k, _ := strconv.ParseInt(l.atom.aux, 10, 64)
				if l.val && k > lo {
					lo = k
				} else if !l.val && k-1 < hi {
					hi = k - 1
				}
			case l.atom.op == "eq" && l.atom.args[0].isInt() && l.atom.args[1] == of:
				k := l.atom.args[0].intVal()
				if !l.val {
					not[k] = true
					continue
				}
				if k > lo {
					lo = k
				}
				if k < hi {
					hi = k
				}
			}
		}
		if lo == math.MinInt64 || hi == math.MaxInt64 || lo <= hi && hi-lo > 100 {
			return nil, false
		}
		for k := lo; k <= hi && len(vals) < 2; k++ {
			if !not[k] {
				vals = append(vals, k)
			}
		}
		return vals, true
	}
	contradictory := func() bool {
		if len(ctx) == 0 {
			return false
		}
		of := ctx[len(ctx)-1].atom
		switch {
		case of.op == "ge":
			of = of.args[0]
		case of.op == "eq" && of.args[0].isInt():
			of = of.args[1]
		default:
			return false
		}
		vals, ok := values(of)
		return ok && len(vals) == 0
	}
	var eq func(x, y *Term) bool
	eq = func(x, y *Term) bool {
		if x == y {
			return true
		}
		x, y = again(x), again(y)
		if x == y {
			return true
		}
		if fuel--; fuel < 0 {
			return false
		}
		if contradictory() {
			return true
		}
		if x.op == "ite" || y.op == "ite" {
			top := x.args0top()
			if t := y.args0top(); top == nil || t != nil && before(t, top) {
				top = t
			}
			for _, val := range []bool{true, false} {
				a, b := restrict(x, top, val), restrict(y, top, val)
				if a == x && b == y {
					return false
				}
				ctx = append(ctx, literal{top, val})
				r := eq(a, b)
				ctx = ctx[:len(ctx)-1]
				if !r {
					return false
				}
			}
			return true
		}
		for _, xy := range [][2]*Term{{x, y}, {y, x}} {
			if xy[1].isInt() && !xy[0].isConst() {
				vals, ok := values(xy[0])
				return ok && len(vals) == 1 && vals[0] == xy[1].intVal()
			}
		}
		if x.op != y.op || x.aux != y.aux || len(x.args) != len(y.args) || len(x.args) == 0 {
			return false
		}
		bb := binderBody(x.op)
		for i := range x.args {
			a, b := x.args[i], y.args[i]
			if i == bb {
				tmp := newTempFor(x)
				a, b = subst(a, bvar(bodyHeight(x)), tmp), subst(b, bvar(bodyHeight(y)), tmp)
			}
			if !eq(a, b) {
				return false
			}
		}
		return true
	}
	return eq(x, y)
}

func shorten(s string) string {
	s = shortAux(s)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

// firstDiff descends to a small differing part.
func firstDiff(x, y *Term) (*Term, *Term) {
	for x.op == y.op && x.aux == y.aux && len(x.args) == len(y.args) && len(x.args) > 0 {
		var dx, dy *Term
		n := 0
		for i := range x.args {
			if x.args[i] != y.args[i] {
				if dx == nil {
					dx, dy = x.args[i], y.args[i]
				}
				n++
			}
		}
		if n != 1 && x.op != "ite" {
			break
		}
		if n > 1 && x.op == "ite" && x.args[0] != y.args[0] {
			break
		}
		x, y = dx, dy
	}
	return x, y
}

func debugMain() {
	t0 := time.Now()
	for _, variant := range []string{"default", "purego"} {
		p, err := load(variant)
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(2)
		}
		for f, why := range p.broken {
			fmt.Println("BROKEN", f, why)
		}
		if p.initErr != "" {
			fmt.Println("INIT", p.initErr)
		}
		var cores []string
		for f := range p.renCores {
			cores = append(cores, f.Name())
		}
		fmt.Println("# variant", variant, "obligations", len(p.obs), "render cores", cores, time.Since(t0))
		for _, o := range p.obs {
			if *flagOb != "" && !strings.Contains(o.name, *flagOb) {
				continue
			}
			t1 := time.Now()
			v := p.check(o)
			s := "ok"
			if v.undec {
				s = "UNDEC"
			} else if !v.ok {
				s = "DIFF"
			}
			fmt.Printf("%-6s %-60s %s [%dms %d nodes]\n", s, o.name, strings.Join(o.props, ","), time.Since(t1).Milliseconds(), v.nodes)
			for _, d := range v.diffs {
				fmt.Println("      ", d, v.pos)
			}
		}
		if *flagOb != "" {
			break
		}
		for _, r := range rules {
			for _, rep := range p.runRule(r) {
				s := map[string]string{"ok": "ok", "violation": "DIFF", "undecided": "UNDEC"}[rep.Verdict]
				fmt.Printf("%-6s %-60s %s\n", s, rep.Name, strings.Join(r.props, ","))
				for _, d := range rep.Why {
					fmt.Println("      ", d)
				}
			}
		}
	}
	fmt.Println("# total", time.Since(t0), len(terms), "terms")
}

var _ = sort.Strings
var _ ssa.Value
