package gopoet

// A type is rebuilt exactly when one of the types or symbols it consists of
// has changed, from the new ones and otherwise with all that it had.
//
//verif:P06,P03 (*Imports).EnsureTypeImported
func specEnsureTypeImported(i *Imports, n TypeName) TypeName {
	if k := n.Kind(); k == KindNamed {
		if s := i.EnsureImported(n.Symbol()); s != n.Symbol() {
			return NamedType(s)
		}
	} else if k == KindPtr {
		if e := i.EnsureTypeImported(n.Elem()); e != n.Elem() {
			return PointerType(e)
		}
	} else if k == KindSlice {
		if e := i.EnsureTypeImported(n.Elem()); e != n.Elem() {
			return SliceType(e)
		}
	} else if k == KindArray {
		if e := i.EnsureTypeImported(n.Elem()); e != n.Elem() {
			return ArrayType(e, n.Len())
		}
	} else if k == KindMap {
		key := i.EnsureTypeImported(n.Key())
		elem := i.EnsureTypeImported(n.Elem())
		if key != n.Key() || elem != n.Elem() {
			return MapType(key, elem)
		}
	} else if k == KindChan {
		if e := i.EnsureTypeImported(n.Elem()); e != n.Elem() {
			return ChannelType(e, n.Dir())
		}
	} else if k == KindFunc {
		sig := n.Signature()
		if s := i.EnsureAllTypesImported(sig); s != sig {
			return FuncTypeFromSig(s)
		}
	} else if k == KindStruct {
		fields := n.Fields()
		changed := false
		var all []FieldType
		for _, f := range fields {
			t := i.EnsureTypeImported(f.Type)
			if t != f.Type {
				changed = true
			}
			all = append(all, FieldType{Name: f.Name, Type: t, Tag: f.Tag})
		}
		if changed {
			return StructType(all...)
		}
	} else if k == KindInterface {
		embeds, c1 := specSymbols(i, n.Embeds())
		methods, c2 := specMethods(i, n.Methods())
		if c1 || c2 {
			return InterfaceType(embeds, methods...)
		}
	}
	return n
}

func specSymbols(i *Imports, syms []Symbol) ([]Symbol, bool) {
	changed := false
	var ret []Symbol
	for _, old := range syms {
		s := i.EnsureImported(old)
		changed = changed || s != old
		ret = append(ret, s)
	}
	if changed {
		return ret, true
	}
	return syms, false
}

func specMethods(i *Imports, methods []MethodType) ([]MethodType, bool) {
	changed := false
	var ret []MethodType
	for _, m := range methods {
		s := i.EnsureAllTypesImported(&m.Signature)
		if s == &m.Signature {
			ret = append(ret, m)
		} else {
			changed = true
			ret = append(ret, MethodType{Name: m.Name, Signature: *s})
		}
	}
	if changed {
		return ret, true
	}
	return methods, false
}

func specArgs(i *Imports, args []ArgType) ([]ArgType, bool) {
	changed := false
	var ret []ArgType
	for _, a := range args {
		t := i.EnsureTypeImported(a.Type)
		changed = changed || t != a.Type
		ret = append(ret, ArgType{Name: a.Name, Type: t})
	}
	if changed {
		return ret, true
	}
	return args, false
}

//verif:P06,P03 (*Imports).EnsureAllTypesImported
func specEnsureAllTypesImported(i *Imports, s *Signature) *Signature {
	args, c1 := specArgs(i, s.Args)
	results, c2 := specArgs(i, s.Results)
	if c1 || c2 {
		return &Signature{Args: args, Results: results, IsVariadic: s.IsVariadic}
	}
	return s
}
