package main

import (
	"go/token"
	"go/types"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reflection over values whose types are known: a reflect.Value is the term
//
//	rv "<type>|<flags>" (content)
//
// where content is the value itself, or its address if it is addressable
// (flag a); flag r marks values reached through unexported fields. With it,
// code that walks data by reflection is evaluated for given types, with
// arbitrary values of those types.

func rvTerm(t types.Type, flags string, x *Term) *Term {
	return intern("rv", typeKey(t)+"|"+flags, x)
}

func rvType(l *Term) types.Type {
	i := strings.LastIndexByte(l.aux, '|')
	return typeReg[l.aux[:i]]
}

func rvFlag(l *Term, f byte) bool {
	i := strings.LastIndexByte(l.aux, '|')
	return strings.IndexByte(l.aux[i+1:], f) >= 0
}

func rtypeTerm(t types.Type) *Term { typeKey(t); return intern("rtype", typeKey(t)) }

func isReflectValue(t types.Type) bool { return typePath(t) == "reflect.Value" && !isPtr(t) }

func takesReflectValue(f *ssa.Function) bool {
	for _, p := range f.Params {
		if isReflectValue(p.Type()) {
			return true
		}
	}
	return false
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (fr *frame) rvInvalid() *Term { return intern("zero", "reflect.Value") }

func (fr *frame) reflective() bool { return fr.ev.absReflect }

// rvContent is the value that a reflect.Value holds.
func (fr *frame) rvContent(l *Term, st *State) *Term {
	if l.op == "rvdyn" {
		return l.args[0]
	}
	x := l.args[0]
	if rvFlag(l, 'a') {
		x = fr.ev.load(x, rvType(l), st)
	}
	if t := rvType(l); types.IsInterface(t) {
		for _, y := range leavesOf(x) {
			if _, ok := resultType[y]; !ok && y.op != "iface" && y.op != "const" {
				resultType[y] = t
			}
		}
	}
	return x
}

// rvIface is the value as an interface value.
func (fr *frame) rvIface(l *Term, st *State) *Term {
	if l.op == "rvdyn" {
		return l.args[0]
	}
	t := rvType(l)
	v := fr.rvContent(l, st)
	if types.IsInterface(t) {
		return v
	}
	return mk("iface", typeKey(t), v)
}

// rvOf makes a reflect.Value of an interface value.
func (fr *frame) rvOf(x *Term) *Term {
	return mapLeaves(x, func(l *Term) *Term {
		switch {
		case l == Nil:
			return fr.rvInvalid()
		case l.op == "iface":
			return rvTerm(typeReg[l.aux], "", l.args[0])
		}
		return ite(mk("eq", "", Nil, l), fr.rvInvalid(), intern("rvdyn", "", l))
	})
}

// rvAs is the value as a value of another type: what assignment does.
func (fr *frame) rvAs(l *Term, t types.Type, st *State) (v *Term, ok bool) {
	if l.op == "rvdyn" {
		if !types.IsInterface(t) {
			giveUp("reflection on a value of unknown type")
		}
		return l.args[0], true
	}
	if l.op != "rv" {
		return nil, false
	}
	s := rvType(l)
	x := fr.rvContent(l, st)
	if types.IsInterface(t) {
		if !types.AssignableTo(s, t) {
			return nil, false
		}
		return fr.rvIface(l, st), true
	}
	return x, types.AssignableTo(s, t)
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Ptr
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	giveUp("kind of %s", t)
	return reflect.Invalid
}

// mapEntries lists the entries of a map all of whose keys are known.
func mapEntries(m *Term) (keys []*Term, ok bool) {
	for m.op == "put" {
		k := m.args[1]
		if !knownKey(k) {
			return nil, false
		}
		dup := false
		for _, o := range keys {
			dup = dup || o == k
		}
		if !dup {
			keys = append(keys, k)
		}
		m = m.args[0]
	}
	if m.op != "mnil" {
		return nil, false
	}
	return keys, true // in an order that is not the natural one
}

// inOrder: the keys of a map are listed in any order.
func (ev *Eval) inOrder(ks []*Term) []*Term {
	switch ev.otherOrder {
	case "other":
		ks = slices.Clone(ks)
		slices.Reverse(ks)
	case "next":
		if len(ks) > 1 {
			ks = append(slices.Clone(ks[1:]), ks[0])
		}
	}
	return ks
}

func knownKey(k *Term) bool {
	switch k.op {
	case "field":
		return mapInstance && k.args[0].op == "mapval" && knownKey(k.args[0])
	case "mapkey", "mapval":
		return mapInstance && k.args[1].isInt()
	case "const", "alloc":
		return true
	case "iface":
		return knownKey(k.args[0])
	case "struct", "array":
		for _, a := range k.args {
			if !knownKey(a) {
				return false
			}
		}
		return true
	}
	return false
}

// eachRV applies f to every value that v may be; the first result of f is the
// value of the call, the second the condition under which it panics.
func (fr *frame) eachRV(v *Term, f func(l *Term) (*Term, *Term)) (*Term, *Term) {
	pan := False
	r := mapLeaves(v, func(l *Term) *Term {
		switch l.op {
		case "rv", "rvdyn", "zero":
		default:
			if l == Undef {
				return Undef
			}
			giveUp("reflection on %s", shortAux(l.String()))
		}
		x, p := f(l)
		if p != nil && p != False {
			cond := mapLeaves(v, func(y *Term) *Term { return boolTerm(y == l) })
			pan = or(pan, and(cond, p))
		}
		if x == nil {
			return Undef
		}
		return x
	})
	return r, pan
}

func (fr *frame) absReflectMethod(f *ssa.Function, args []*Term, st *State, pc *Term) (*Term, *Term) {
	ev := fr.ev
	name := f.Name()
	recv := constrain(args[0], pc)
	typeOf := func(l *Term) types.Type {
		if l.op == "rvdyn" {
			giveUp("reflection on a value of unknown type (%s)", name)
		}
		return rvType(l)
	}
	// methods that are defined on the zero value
	switch name {
	case "IsValid":
		return fr.eachRV(recv, func(l *Term) (*Term, *Term) { return boolTerm(l.op != "zero"), nil })
	case "Kind":
		return fr.eachRV(recv, func(l *Term) (*Term, *Term) {
			if l.op == "zero" {
				return Zero, nil
			}
			return intTerm(int64(kindOf(typeOf(l)))), nil
		})
	}
	on := func(g func(l *Term) (*Term, *Term)) (*Term, *Term) {
		return fr.eachRV(recv, func(l *Term) (*Term, *Term) {
			if l.op == "zero" {
				return Undef, True
			}
			return g(l)
		})
	}
	inherit := func(l *Term) string {
		if l.op == "rv" && rvFlag(l, 'r') {
			return "r"
		}
		return ""
	}
	index := func() *Term {
		if !args[1].isInt() {
			giveUp("reflection with an unknown index")
		}
		return args[1]
	}
	// effects on what may be one of several values
	update := func(g func(l *Term, st *State) *Term) (*Term, *Term) {
		ls := leavesOf(recv)
		if len(ls) == 1 {
			if ls[0].op == "zero" {
				return nil, True
			}
			return nil, g(ls[0], st)
		}
		pan := False
		var edges []edge
		for _, l := range ls {
			cond := mapLeaves(recv, func(y *Term) *Term { return boolTerm(y == l) })
			if and(cond, pc) == False {
				continue
			}
			if l.op == "zero" || l == Undef {
				pan = or(pan, cond)
				continue
			}
			st2 := st.clone()
			if p := g(l, st2); p != nil {
				pan = or(pan, and(cond, p))
			}
			edges = append(edges, edge{pc: cond, st: st2})
		}
		if len(edges) == 0 {
			return nil, True
		}
		st.m = ev.mergeStates(edges).clone().m
		return nil, pan
	}
	switch name {
	case "Type":
		return on(func(l *Term) (*Term, *Term) {
			if l.op == "rvdyn" {
				return intern("rtdyn", "", l.args[0]), nil
			}
			return rtypeTerm(typeOf(l)), nil
		})
	case "CanAddr":
		return on(func(l *Term) (*Term, *Term) { return boolTerm(l.op == "rv" && rvFlag(l, 'a')), nil })
	case "CanInterface":
		return on(func(l *Term) (*Term, *Term) { return boolTerm(inherit(l) == ""), nil })
	case "CanSet":
		return on(func(l *Term) (*Term, *Term) { return boolTerm(l.op == "rv" && rvFlag(l, 'a') && !rvFlag(l, 'r')), nil })
	case "Interface":
		return on(func(l *Term) (*Term, *Term) {
			if inherit(l) != "" {
				return Undef, True
			}
			return fr.rvIface(l, st), nil
		})
	case "NumField":
		return on(func(l *Term) (*Term, *Term) {
			s, ok := typeOf(l).Underlying().(*types.Struct)
			if !ok {
				return Undef, True
			}
			return intTerm(int64(s.NumFields())), nil
		})
	case "Field":
		i := index().intVal()
		return on(func(l *Term) (*Term, *Term) {
			s, ok := typeOf(l).Underlying().(*types.Struct)
			if !ok || i < 0 || i >= int64(s.NumFields()) {
				return Undef, True
			}
			fl := s.Field(int(i))
			flags := inherit(l)
			if !fl.Exported() {
				flags = "r"
			}
			if rvFlag(l, 'a') {
				return rvTerm(fl.Type(), "a"+flags, mk("fa", fl.Name(), l.args[0])), nil
			}
			structT[l.args[0]] = structKey(typeOf(l))
			return rvTerm(fl.Type(), flags, mk("field", fl.Name(), l.args[0])), nil
		})
	case "Elem":
		return on(func(l *Term) (*Term, *Term) {
			t := typeOf(l)
			x := fr.rvContent(l, st)
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				return mapLeaves(x, func(a *Term) *Term {
					if a == Nil {
						return fr.rvInvalid()
					}
					r := rvTerm(u.Elem(), "a"+inherit(l), a)
					if a.op == "alloc" || a.op == "fa" || a.op == "ia" {
						return r
					}
					return ite(mk("eq", "", Nil, a), fr.rvInvalid(), r)
				}), nil
			case *types.Interface:
				r := fr.rvOf(x)
				if inherit(l) != "" {
					r = mapLeaves(r, func(y *Term) *Term {
						if y.op == "rv" {
							return rvTerm(rvType(y), "r", y.args[0])
						}
						return y
					})
				}
				return r, nil
			}
			return Undef, True
		})
	case "Addr":
		return on(func(l *Term) (*Term, *Term) {
			if !rvFlag(l, 'a') {
				return Undef, True
			}
			return rvTerm(types.NewPointer(typeOf(l)), inherit(l), l.args[0]), nil
		})
	case "UnsafeAddr":
		return on(func(l *Term) (*Term, *Term) {
			if l.op != "rv" || !rvFlag(l, 'a') {
				return Undef, True
			}
			return intern("uaddr", "", l.args[0]), nil
		})
	case "UnsafePointer", "Pointer":
		return on(func(l *Term) (*Term, *Term) {
			x := fr.rvContent(l, st)
			if _, ok := typeOf(l).Underlying().(*types.Slice); ok {
				return mk("sptr", "", x), nil
			}
			switch typeOf(l).Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			case *types.Basic:
				giveUp("reflect.Value.%s", name)
			default:
				return Undef, True
			}
			return intern("uaddr", "", x), nil
		})
	case "IsNil":
		return on(func(l *Term) (*Term, *Term) {
			x := fr.rvContent(l, st)
			switch typeOf(l).Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature, *types.Chan, *types.Map, *types.Slice:
				return mapLeaves(x, func(y *Term) *Term {
					switch y.op {
					case "alloc", "sl", "iface", "closure", "func":
						return False
					}
					return mk("eq", "", Nil, y)
				}), nil
			}
			return Undef, True
		})
	case "IsZero":
		giveUp("reflect IsZero")
	case "Len":
		return on(func(l *Term) (*Term, *Term) {
			t := typeOf(l)
			x := fr.rvContent(l, st)
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return ev.lenOf(x, st), nil
			case *types.Array:
				return intTerm(u.Len()), nil
			case *types.Map:
				return mapLeaves(x, func(m *Term) *Term {
					c := ev.mapContent(m, st)
					return mapLeaves(c, func(c *Term) *Term {
						if ks, ok := mapEntries(c); ok {
							return intTerm(int64(len(ks)))
						}
						return mk("len", "", c)
					})
				}), nil
			case *types.Basic:
				return mk("slen", "", x), nil
			}
			return Undef, True
		})
	case "Index":
		return on(func(l *Term) (*Term, *Term) {
			t := typeOf(l)
			i := args[1]
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return rvTerm(u.Elem(), "a"+inherit(l), fr.indexAddr(fr.rvContent(l, st), i)), nil
			case *types.Array:
				if rvFlag(l, 'a') {
					return rvTerm(u.Elem(), "a"+inherit(l), mk("ia", "", l.args[0], i)), nil
				}
				index()
				x := l.args[0]
				if x.op == "array" && i.intVal() < int64(len(x.args)) {
					return rvTerm(u.Elem(), inherit(l), x.args[i.intVal()]), nil
				}
				if x.op == "zero" {
					return rvTerm(u.Elem(), inherit(l), ev.zero(u.Elem())), nil
				}
				return rvTerm(u.Elem(), inherit(l), mk("aidx", i.aux, x)), nil
			case *types.Basic:
				if isString(t) {
					giveUp("reflect Index of a string")
				}
			}
			return Undef, True
		})
	case "MapKeys":
		return on(func(l *Term) (*Term, *Term) {
			m, ok := typeOf(l).Underlying().(*types.Map)
			if !ok {
				return Undef, True
			}
			return mapLeaves(fr.rvContent(l, st), func(x *Term) *Term {
				return mapLeaves(ev.mapContent(x, st), func(c *Term) *Term {
					ks, ok := mapEntries(c)
					if !ok {
						giveUp("keys of an unknown map")
					}
					ks = ev.inOrder(ks)
					rvt := f.Signature.Results().At(0).Type()
					a := ev.newAlloc(rvt)
					st.m[intern("lenof", "", a)] = intTerm(int64(len(ks)))
					for i, k := range ks {
						st.m[mk("ia", "", a, intTerm(int64(i)))] = rvTerm(m.Key(), inherit(l), k)
					}
					return a
				})
			}), nil
		})
	case "MapIndex":
		return on(func(l *Term) (*Term, *Term) {
			m, ok := typeOf(l).Underlying().(*types.Map)
			if !ok {
				return Undef, True
			}
			pan := False
			r := mapLeaves(args[1], func(k *Term) *Term {
				kv, ok := fr.rvAs(k, m.Key(), st)
				if !ok {
					pan = or(pan, mapLeaves(args[1], func(y *Term) *Term { return boolTerm(y == k) }))
					return Undef
				}
				return mapLeaves(fr.rvContent(l, st), func(x *Term) *Term {
					c := ev.mapContent(x, st)
					return ite(mk("has", "", c, kv), rvTerm(m.Elem(), inherit(l), mk("get", "", c, kv, ev.zero(m.Elem()))), fr.rvInvalid())
				})
			})
			return r, pan
		})
	case "CanInt", "CanUint", "CanFloat", "CanComplex":
		return on(func(l *Term) (*Term, *Term) {
			b, ok := typeOf(l).Underlying().(*types.Basic)
			if !ok {
				return False, nil
			}
			i := b.Info()
			switch name {
			case "CanInt":
				return boolTerm(i&types.IsInteger != 0 && i&types.IsUnsigned == 0), nil
			case "CanUint":
				return boolTerm(i&types.IsUnsigned != 0), nil
			case "CanFloat":
				return boolTerm(i&types.IsFloat != 0), nil
			}
			return boolTerm(i&types.IsComplex != 0), nil
		})
	case "Slice", "Slice3":
		return on(func(l *Term) (*Term, *Term) {
			t := typeOf(l)
			if _, ok := t.Underlying().(*types.Slice); !ok {
				giveUp("reflect Slice of %s", t)
			}
			lo, hi := args[1], args[2]
			return rvTerm(t, inherit(l), mapLeaves(fr.rvContent(l, st), func(x *Term) *Term {
				n := ev.lenOf(x, st)
				switch {
				case lo == Zero && hi == n:
					return x
				case !lo.isInt() || !hi.isInt() || !n.isInt() || lo.intVal() < 0 || lo.intVal() > hi.intVal() || hi.intVal() > n.intVal():
					giveUp("reflect Slice with unknown bounds")
				case x.op == "sl":
					return mk("sl", "", x.args[0], add(x.args[1], lo), add(x.args[1], hi))
				}
				return mk("sl", "", x, lo, hi)
			})), nil
		})
	case "Cap":
		return on(func(l *Term) (*Term, *Term) {
			switch u := typeOf(l).Underlying().(type) {
			case *types.Slice:
				return mk("cap", "", fr.reifyArg(fr.rvContent(l, st), st)), nil
			case *types.Chan:
				giveUp("reflect Cap of %s", u)
			case *types.Array:
				return intTerm(u.Len()), nil
			case *types.Pointer:
				if a, ok := u.Elem().Underlying().(*types.Array); ok {
					return intTerm(a.Len()), nil
				}
			}
			return Undef, True
		})
	case "NumMethod":
		return on(func(l *Term) (*Term, *Term) {
			n := int64(0)
			ms := types.NewMethodSet(typeOf(l))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					n++
				}
			}
			return intTerm(n), nil
		})
	case "Method":
		return on(func(l *Term) (*Term, *Term) {
			ms := types.NewMethodSet(typeOf(l))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Exported() {
					giveUp("reflect.Value.Method")
				}
			}
			return Undef, True
		})
	case "Send", "Recv", "Close", "TrySend", "TryRecv":
		return on(func(l *Term) (*Term, *Term) {
			if _, ok := typeOf(l).Underlying().(*types.Chan); ok {
				giveUp("reflection on channels")
			}
			return Undef, True
		})
	case "Set":
		return update(func(l *Term, st *State) *Term {
			if l.op != "rv" || !rvFlag(l, 'a') || rvFlag(l, 'r') {
				return True
			}
			t := rvType(l)
			pan := False
			v := mapLeaves(args[1], func(x *Term) *Term {
				ro := x.op == "rv" && rvFlag(x, 'r')
				r, ok := fr.rvAs(x, t, st)
				if !ok || ro {
					pan = or(pan, mapLeaves(args[1], func(y *Term) *Term { return boolTerm(y == x) }))
					return Undef
				}
				return r
			})
			v = constrain(v, not(pan))
			ev.store(l.args[0], t, v, st)
			return pan
		})
	case "SetMapIndex":
		return update(func(l *Term, st *State) *Term {
			m, ok := typeOf(l).Underlying().(*types.Map)
			if !ok || rvFlag(l, 'r') {
				return True
			}
			pan := False
			conv := func(a *Term, t types.Type) *Term {
				r := mapLeaves(a, func(x *Term) *Term {
					if x.op == "zero" {
						giveUp("deletion by reflection")
					}
					ro := x.op == "rv" && rvFlag(x, 'r')
					r, ok := fr.rvAs(x, t, st)
					if !ok || ro {
						pan = or(pan, mapLeaves(a, func(y *Term) *Term { return boolTerm(y == x) }))
						return Undef
					}
					return r
				})
				return constrain(r, not(pan))
			}
			k, v := conv(args[1], m.Key()), conv(args[2], m.Elem())
			x := fr.rvContent(l, st)
			for _, a := range leavesOf(x) {
				cond := mapLeaves(x, func(y *Term) *Term { return boolTerm(y == a) })
				if a == Nil {
					pan = or(pan, cond)
					continue
				}
				c := mk("mapof", "", a)
				st.m[c] = ite(cond, mk("put", "", ev.get(c, st), k, v), ev.get(c, st))
			}
			return pan
		})
	case "String":
		return on(func(l *Term) (*Term, *Term) {
			if isString(typeOf(l)) {
				return fr.rvContent(l, st), nil
			}
			return mk("rvstring", "", l), nil
		})
	case "Int", "Uint", "Bool", "Float":
		return on(func(l *Term) (*Term, *Term) { typeOf(l); return fr.rvContent(l, st), nil })
	}
	giveUp("reflect.Value.%s", name)
	return nil, nil
}

// rtypeMethod is a method of a reflect.Type that is known.
func (fr *frame) rtypeMethod(m *types.Func, recv *Term, args []*Term) (*Term, *Term) {
	name := m.Name()
	if recv.op == "rtdyn" {
		if (name == "Implements" || name == "AssignableTo") && args[0].op == "rtype" && types.IsInterface(typeReg[args[0].aux]) {
			return mk("is", args[0].aux, recv.args[0]), nil
		}
		giveUp("reflect.Type.%s of an unknown type", name)
	}
	t := typeReg[recv.aux]
	other := func() types.Type {
		if args[0].op != "rtype" {
			giveUp("comparison with an unknown type")
		}
		return typeReg[args[0].aux]
	}
	switch name {
	case "Kind":
		return intTerm(int64(kindOf(t))), nil
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return rtypeTerm(u.Elem()), nil
		case *types.Slice:
			return rtypeTerm(u.Elem()), nil
		case *types.Array:
			return rtypeTerm(u.Elem()), nil
		case *types.Map:
			return rtypeTerm(u.Elem()), nil
		case *types.Chan:
			return rtypeTerm(u.Elem()), nil
		}
		return Undef, True
	case "Key":
		if u, ok := t.Underlying().(*types.Map); ok {
			return rtypeTerm(u.Key()), nil
		}
		return Undef, True
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return intTerm(u.Len()), nil
		}
		return Undef, True
	case "NumField":
		if u, ok := t.Underlying().(*types.Struct); ok {
			return intTerm(int64(u.NumFields())), nil
		}
		return Undef, True
	case "Field":
		if u, ok := t.Underlying().(*types.Struct); ok {
			if args[0].op != "const" {
				giveUp("reflect.Type.Field of an unknown index")
			}
			if i := args[0].intVal(); i >= 0 && i < int64(u.NumFields()) {
				return fr.structField(u, int(i), m.Type().(*types.Signature).Results().At(0).Type()), nil
			}
		}
		return Undef, True
	case "Name":
		if n, ok := t.(*types.Named); ok && n.TypeArgs() == nil {
			return strTerm(n.Obj().Name()), nil
		}
		if b, ok := t.(*types.Basic); ok {
			return strTerm(b.Name()), nil
		}
		if _, ok := t.(*types.Named); !ok {
			return strTerm(""), nil
		}
	case "PkgPath":
		if n, ok := t.(*types.Named); !ok || n.Obj().Pkg() == nil {
			return strTerm(""), nil
		} else if n.TypeArgs() == nil {
			return strTerm(n.Obj().Pkg().Path()), nil
		}
	case "Implements":
		i, ok := other().Underlying().(*types.Interface)
		if !ok {
			return Undef, True
		}
		return boolTerm(types.Implements(t, i)), nil
	case "AssignableTo":
		return boolTerm(types.AssignableTo(t, other())), nil
	case "ConvertibleTo":
		return boolTerm(types.ConvertibleTo(t, other())), nil
	case "Comparable":
		return boolTerm(types.Comparable(t)), nil
	}
	giveUp("reflect.Type.%s", name)
	return nil, nil
}

// structField is the reflect.StructField for a field of a known type.
func (fr *frame) structField(u *types.Struct, i int, sf types.Type) *Term {
	fl := u.Field(i)
	path := ""
	if !fl.Exported() {
		path = fl.Pkg().Path()
	}
	var fs []*Term
	s := sf.Underlying().(*types.Struct)
	for j := 0; j < s.NumFields(); j++ {
		var x *Term
		switch n := s.Field(j).Name(); n {
		case "Name":
			x = strTerm(fl.Name())
		case "PkgPath":
			x = strTerm(path)
		case "Type":
			x = rtypeTerm(fl.Type())
		case "Tag":
			x = strTerm(u.Tag(i))
		case "Anonymous":
			x = boolTerm(fl.Embedded())
		default:
			x = intern("sfield", n+strconv.Itoa(i), rtypeTerm(u))
		}
		fs = append(fs, x)
	}
	return mkStruct(structKey(sf), fs)
}

// absReflectFunc is a function of package reflect.
func (fr *frame) absReflectFunc(name string, f *ssa.Function, args []*Term, st *State, pc *Term) (v, pan *Term, ok bool) {
	ev := fr.ev
	typ := func(i int) types.Type {
		if args[i].op != "rtype" {
			giveUp("reflection with an unknown type")
		}
		return typeReg[args[i].aux]
	}
	switch name {
	case "reflect.ValueOf":
		return fr.rvOf(args[0]), nil, true
	case "reflect.TypeOf":
		return mapLeaves(args[0], func(l *Term) *Term {
			if l == Nil {
				return Nil
			}
			if l.op != "iface" {
				giveUp("reflection on a value of unknown type")
			}
			return rtypeTerm(typeReg[l.aux])
		}), nil, true
	case "reflect.Indirect":
		r := mapLeaves(args[0], func(l *Term) *Term {
			if l.op == "rv" && kindOf(rvType(l)) == reflect.Ptr {
				giveUp("reflect.Indirect")
			}
			return l
		})
		return r, nil, true
	case "reflect.New":
		t := typ(0)
		return rvTerm(types.NewPointer(t), "", ev.newAlloc(t)), nil, true
	case "reflect.Zero":
		t := typ(0)
		return rvTerm(t, "", ev.zero(t)), nil, true
	case "reflect.MakeMap", "reflect.MakeMapWithSize":
		t := typ(0)
		return rvTerm(t, "", ev.newAlloc(t)), nil, true
	case "reflect.MakeSlice":
		t := typ(0)
		a := ev.newAlloc(t)
		st.m[intern("lenof", "", a)] = args[1]
		bad := or(mk("lt", "", args[1], Zero), mk("lt", "", args[2], args[1]))
		return rvTerm(t, "", a), bad, true
	case "reflect.NewAt":
		return mapLeaves(args[1], func(p *Term) *Term {
			for p.op == "conv" {
				p = p.args[0]
			}
			if p == Undef {
				return Undef
			}
			if p.op != "uaddr" {
				giveUp("reflect.NewAt of an unknown address %s", p)
			}
			return rvTerm(types.NewPointer(typ(0)), "", p.args[0])
		}), nil, true
	case "reflect.Copy":
		return fr.rvCopy(constrain(args[0], pc), constrain(args[1], pc), st, pc)
	case "reflect.Append":
		s := constrain(args[0], pc)
		if s.op != "rv" {
			giveUp("reflect.Append to alternatives")
		}
		u, is := rvType(s).Underlying().(*types.Slice)
		if !is {
			return Undef, True, true
		}
		vs := ev.listOf(args[1], st)
		if vs == nil {
			giveUp("reflect.Append of an unknown list")
		}
		ps := []*Term{fr.listPiece(fr.rvContent(s, st), u.Elem(), st)}
		for _, p := range pieces(vs) {
			if p.op != "elem" || p.args[0].op != "rv" && p.args[0].op != "rvdyn" {
				giveUp("reflect.Append of alternatives")
			}
			x, can := fr.rvAs(p.args[0], u.Elem(), st)
			if !can {
				return Undef, True, true
			}
			ps = append(ps, mk("elem", "", x))
		}
		t := rvType(s)
		return mapLeaves(fr.newList(t, mk("seq", "", mk("lcat", "", ps...)), st), func(a *Term) *Term { return rvTerm(t, "", a) }), nil, true
	case "reflect.AppendSlice":
		a, b := constrain(args[0], pc), constrain(args[1], pc)
		if a.op != "rv" || b.op != "rv" {
			giveUp("reflect.AppendSlice of alternatives")
		}
		u, is := rvType(a).Underlying().(*types.Slice)
		w, is2 := rvType(b).Underlying().(*types.Slice)
		if !is || !is2 || !types.Identical(u.Elem(), w.Elem()) || rvFlag(a, 'r') || rvFlag(b, 'r') {
			return Undef, True, true
		}
		t := rvType(a)
		r := fr.appendTo(fr.rvContent(a, st), fr.rvContent(b, st), u.Elem(), st)
		return mapLeaves(fr.newList(t, r, st), func(a *Term) *Term { return rvTerm(t, "", a) }), nil, true
	case "reflect.Select", "reflect.Swapper":
		giveUp("%s", name)
	}
	return nil, nil, false
}

// rvCopy is reflect.Copy.
func (fr *frame) rvCopy(d, s *Term, st *State, pc *Term) (v, pan *Term, ok bool) {
	ev := fr.ev
	for i, x := range []*Term{d, s} {
		ls := leavesOf(x)
		if len(ls) == 1 {
			continue
		}
		// one of several values
		pan, n := False, Undef
		var edges []edge
		for _, l := range ls {
			cond := mapLeaves(x, func(y *Term) *Term { return boolTerm(y == l) })
			at := and(pc, cond)
			if at == False {
				continue
			}
			st2 := st.clone()
			a, b := l, s
			if i == 1 {
				a, b = d, l
			}
			r, p, _ := fr.rvCopy(constrain(a, at), constrain(b, at), st2, at)
			if p != nil {
				pan = or(pan, and(cond, p))
			}
			if p == True {
				continue
			}
			n = ite(cond, r, n)
			edges = append(edges, edge{pc: cond, st: st2})
		}
		if len(edges) == 0 {
			return Undef, True, true
		}
		st.m = ev.mergeStates(edges).clone().m
		return n, pan, true
	}
	if d == Undef || s == Undef {
		return Undef, nil, true
	}
	if d.op == "rvdyn" || s.op == "rvdyn" {
		giveUp("reflection on a value of unknown type")
	}
	if d.op != "rv" || s.op != "rv" {
		return Undef, True, true
	}
	elem := func(l *Term, dst bool) types.Type {
		switch u := rvType(l).Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			if !dst || rvFlag(l, 'a') && !rvFlag(l, 'r') {
				return u.Elem()
			}
		case *types.Basic:
			giveUp("reflect.Copy of a string")
		}
		return nil
	}
	de, se := elem(d, true), elem(s, false)
	if de == nil || se == nil || !types.Identical(de, se) || rvFlag(d, 'r') || rvFlag(s, 'r') {
		return Undef, True, true
	}
	if kindOf(rvType(d)) != reflect.Slice || kindOf(rvType(s)) != reflect.Slice {
		giveUp("reflect.Copy of arrays")
	}
	dx, sx := fr.rvContent(d, st), fr.rvContent(s, st)
	n := ev.lenOf(dx, st)
	m := ev.lenOf(sx, st)
	if n.isInt() && m.isInt() {
		k := min(n.intVal(), m.intVal())
		var vs []*Term
		for i := int64(0); i < k; i++ {
			vs = append(vs, ev.load(fr.indexAddr(sx, intTerm(i)), de, st))
		}
		for i, v := range vs {
			ev.store(fr.indexAddr(dx, intTerm(int64(i))), de, v, st)
		}
		return intTerm(k), nil, true
	}
	fr.copyTo(dx, sx, de, st)
	return mk("copied", "", fr.reifyArg(dx, st), fr.reifyArg(sx, st)), nil, true
}

// sortKnown sorts a short list whose elements compare with a known result.
func (fr *frame) sortKnown(name string, args []*Term, st *State) bool {
	ev := fr.ev
	x := args[0]
	if x.op == "iface" {
		x = x.args[0]
	}
	if x.op != "alloc" {
		return false
	}
	n := ev.lenOf(x, st)
	if !n.isInt() || n.intVal() > 8 {
		return false
	}
	sl, ok := ev.allocT[x].Underlying().(*types.Slice)
	if !ok {
		return false
	}
	k := int(n.intVal())
	at := func(i int) *Term { return mk("ia", "", x, intTerm(int64(i))) }
	var elems []*Term
	for i := 0; i < k; i++ {
		elems = append(elems, ev.load(at(i), sl.Elem(), st))
	}
	var less func(i, j int) *Term
	switch name {
	case "sort.Slice", "sort.SliceStable":
		var fn *ssa.Function
		var binds []*Term
		switch args[1].op {
		case "closure":
			ci := ev.closures[args[1]]
			fn, binds = ci.fn, ci.bind
		case "func":
			fn = ev.prog.byName[args[1].aux]
		}
		if fn == nil {
			return false
		}
		less = func(i, j int) *Term {
			r := ev.call(fn, []*Term{intTerm(int64(i)), intTerm(int64(j))}, binds, st.clone())
			if len(r.vals) == 0 {
				return Undef
			}
			return r.vals[0]
		}
	case "sort.Strings":
		less = func(i, j int) *Term { return mk("lt", "", elems[i], elems[j]) }
	default:
		return false
	}
	order := make([]int, k)
	cmp := map[[2]int]bool{}
	for i := range order {
		order[i] = i
		for j := range order {
			if i == j {
				continue
			}
			l := less(i, j)
			if l != True && l != False {
				return false
			}
			cmp[[2]int{i, j}] = l == True
		}
	}
	sort.SliceStable(order, func(a, b int) bool { return cmp[[2]int{order[a], order[b]}] })
	for i, o := range order {
		ev.store(at(i), sl.Elem(), elems[o], st)
	}
	return true
}

var _ = token.ADD

// sortKnownList sorts a short list whose elements compare with known results.
func sortKnownList(l, less *Term) *Term {
	ps := []*Term{l}
	if l.op == "lcat" {
		ps = l.args
	}
	if len(ps) > 8 || less.op != "lam" || less.args[0].op != "lam" {
		return nil
	}
	for _, p := range ps {
		if p.op != "elem" {
			return nil
		}
	}
	order := make([]int, len(ps))
	cmp := map[[2]int]bool{}
	for i := range ps {
		order[i] = i
		for j := range ps {
			if i == j {
				continue
			}
			f := openBody(less, ps[i].args[0])
			if f.op != "lam" {
				return nil
			}
			r := openBody(f, ps[j].args[0])
			if r != True && r != False {
				return nil
			}
			cmp[[2]int{i, j}] = r == True
		}
	}
	sort.SliceStable(order, func(a, b int) bool { return cmp[[2]int{order[a], order[b]}] })
	var out []*Term
	for _, o := range order {
		out = append(out, ps[o])
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("lcat", "", out...)
}
