package gopoet

// A type is rebuilt exactly when one of the types or symbols it consists of
// has changed, from the new ones and otherwise with all that it had.
//
//verif:P06,P03 (*Imports).QualifyType
func specQualifyType(i *Imports, n TypeName) TypeName {
	if k := n.Kind(); k == KindNamed {
		if s := i.Qualify(n.Symbol()); s != n.Symbol() {
			return NamedType(s)
		}
	} else if k == KindPtr {
		if e := i.QualifyType(n.Elem()); e != n.Elem() {
			return PointerType(e)
		}
	} else if k == KindSlice {
		if e := i.QualifyType(n.Elem()); e != n.Elem() {
			return SliceType(e)
		}
	} else if k == KindArray {
		if e := i.QualifyType(n.Elem()); e != n.Elem() {
			return ArrayType(e, n.Len())
		}
	} else if k == KindMap {
		key := i.QualifyType(n.Key())
		elem := i.QualifyType(n.Elem())
		if key != n.Key() || elem != n.Elem() {
			return MapType(key, elem)
		}
	} else if k == KindChan {
		if e := i.QualifyType(n.Elem()); e != n.Elem() {
			return ChannelType(e, n.Dir())
		}
	} else if k == KindFunc {
		sig := n.Signature()
		if s := i.QualifySignature(sig); s != sig {
			return FuncTypeFromSig(s)
		}
	} else if k == KindStruct {
		fields := n.Fields()
		changed := false
		var all []FieldType
		for _, f := range fields {
			t := i.QualifyType(f.Type)
			if t != f.Type {
				changed = true
			}
			all = append(all, FieldType{Name: f.Name, Type: t, Tag: f.Tag})
		}
		if changed {
			return StructType(all...)
		}
	} else if k == KindInterface {
		embeds, c1 := specLookupSymbols(i, n.Embeds())
		methods, c2 := specLookupMethods(i, n.Methods())
		if c1 || c2 {
			return InterfaceType(embeds, methods...)
		}
	}
	return n
}

func specLookupSymbols(i *Imports, syms []Symbol) ([]Symbol, bool) {
	changed := false
	var ret []Symbol
	for _, old := range syms {
		s := i.Qualify(old)
		changed = changed || s != old
		ret = append(ret, s)
	}
	if changed {
		return ret, true
	}
	return syms, false
}

func specLookupMethods(i *Imports, methods []MethodType) ([]MethodType, bool) {
	changed := false
	var ret []MethodType
	for _, m := range methods {
		s := i.QualifySignature(&m.Signature)
		if s == &m.Signature {
			ret = append(ret, m)
		} else {
			changed = true
			ret = append(ret, MethodType{Name: m.Name, Signature: *s})
		}
	}
	if changed {
		return ret, true
	}
	return methods, false
}

func specLookupArgs(i *Imports, args []ArgType) ([]ArgType, bool) {
	changed := false
	var ret []ArgType
	for _, a := range args {
		t := i.QualifyType(a.Type)
		changed = changed || t != a.Type
		ret = append(ret, ArgType{Name: a.Name, Type: t})
	}
	if changed {
		return ret, true
	}
	return args, false
}

//verif:P06,P03 (*Imports).QualifySignature
func specQualifySignature(i *Imports, s *Signature) *Signature {
	args, c1 := specLookupArgs(i, s.Args)
	results, c2 := specLookupArgs(i, s.Results)
	if c1 || c2 {
		return &Signature{Args: args, Results: results, IsVariadic: s.IsVariadic}
	}
	return s
}
