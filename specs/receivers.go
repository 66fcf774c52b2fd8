package gopoet

//verif:P35 NewReceiver
func specNewReceiver(name, t string) *ReceiverSpec {
	if t == "" {
		panic("no type")
	}
	return &ReceiverSpec{Name: name, Type: t}
}

//verif:P35 NewPointerReceiver
func specNewPointerReceiver(name, t string) *ReceiverSpec {
	if t == "" {
		panic("no type")
	}
	return &ReceiverSpec{Name: name, Type: t, IsPointer: true}
}

// the name of a type
func specNameOf(t TypeNameOrSpec) (string, bool) {
	switch t := t.(type) {
	case TypeName:
		if t.Kind() == KindNamed {
			return t.Symbol().Name, true
		}
	case *TypeSpec:
		if t.Name != "" {
			return t.Name, true
		}
	case nil:
		return "", true
	}
	return "", false
}

//verif:P35 NewPointerReceiverForType
func specNewPointerReceiverForType(name string, t TypeNameOrSpec) *ReceiverSpec {
	n, ok := specNameOf(t)
	if !ok {
		panic("unnamed type")
	}
	return &ReceiverSpec{Name: name, Type: n, IsPointer: true}
}

//verif:P35 NewReceiverForType
func specNewReceiverForType(name string, t TypeNameOrSpec) *ReceiverSpec {
	if tn, ok := t.(TypeName); ok && tn.Kind() == KindPtr {
		e := tn.Elem()
		if e.Kind() != KindNamed {
			panic("unnamed type")
		}
		return &ReceiverSpec{Name: name, Type: e.Symbol().Name, IsPointer: true}
	}
	n, ok := specNameOf(t)
	if !ok {
		panic("unnamed type")
	}
	return &ReceiverSpec{Name: name, Type: n}
}

//verif:P35,P27 (*FuncSpec).ToTypeName
func specFuncToTypeName(f *FuncSpec) TypeName {
	if f.Receiver == nil {
		return FuncTypeFromSig(&f.Signature)
	}
	if f.parent == nil {
		panic("not in a file")
	}
	rt := NamedType(Symbol{Name: f.Receiver.Type, Package: f.parent.Package()})
	if f.Receiver.IsPointer {
		rt = PointerType(rt)
	}
	args := []ArgType{{Name: f.Receiver.Name, Type: rt}}
	args = append(args, f.Args...)
	return FuncTypeFromSig(&Signature{Args: args, Results: f.Results, IsVariadic: f.IsVariadic})
}

//verif:P35,P27 (*InterfaceMethod).ToTypeName
func specMethodToTypeName(m *InterfaceMethod) TypeName {
	if m.parent == nil {
		panic("not in a type")
	}
	args := []ArgType{{Type: m.parent.ToTypeName()}}
	for _, a := range m.Args {
		args = append(args, a)
	}
	return FuncTypeFromSig(&Signature{Args: args, Results: m.Results, IsVariadic: m.IsVariadic})
}
