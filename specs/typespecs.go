package gopoet

// A spec made of a type has its fields or elements, each of which belongs to
// the spec.
//
//verif:P37 NewTypeSpec
func specNewTypeSpec(name string, t TypeNameOrSpec) *TypeSpec {
	if s, ok := t.(*TypeSpec); ok {
		ret := &TypeSpec{Name: name, underlying: s.ToTypeName()}
		if s.Name == "" {
			for _, f := range s.structBody {
				ret.structBody = append(ret.structBody, f)
			}
			for _, e := range s.interfaceBody {
				ret.interfaceBody = append(ret.interfaceBody, e)
			}
		}
		return ret
	}
	tn, ok := t.(TypeName)
	if !ok {
		panic("unknown type representation")
	}
	ret := &TypeSpec{Name: name, underlying: tn}
	if tn.Kind() == KindStruct {
		for _, f := range tn.Fields() {
			ret.structBody = append(ret.structBody, &FieldSpec{Name: f.Name, Tag: f.Tag, Type: f.Type, parent: ret})
		}
	}
	if tn.Kind() == KindInterface {
		for _, e := range tn.Embeds() {
			ret.interfaceBody = append(ret.interfaceBody, &InterfaceEmbed{Type: e, parent: ret})
		}
		for _, m := range tn.Methods() {
			ret.interfaceBody = append(ret.interfaceBody, &InterfaceMethod{Name: m.Name, Signature: m.Signature, parent: ret})
		}
	}
	return ret
}

//verif:P37 NewTypeAlias
func specNewTypeAlias(name string, t TypeNameOrSpec) *TypeSpec {
	ts := NewTypeSpec(name, t)
	ts.isAlias = true
	return ts
}

//verif:P37,P28 NewStructTypeSpec
func specNewStructTypeSpec(name string, fields ...*FieldSpec) *TypeSpec {
	ret := &TypeSpec{Name: name, structBody: fields}
	var all []FieldType
	for _, f := range fields {
		f.parent = ret
		ft := FieldType{Name: f.Name, Tag: f.Tag}
		if tn, ok := f.Type.(TypeName); ok {
			ft.Type = tn
		} else if ts, ok := f.Type.(*TypeSpec); ok {
			ft.Type = ts.ToTypeName()
		}
		all = append(all, ft)
	}
	ret.underlying = StructType(all...)
	return ret
}

//verif:P37,P28 NewInterfaceTypeSpec
func specNewInterfaceTypeSpec(name string, elements ...InterfaceElement) *TypeSpec {
	ret := &TypeSpec{Name: name, interfaceBody: elements}
	var embeds []Symbol
	var methods []MethodType
	for _, e := range elements {
		if m, ok := e.(*InterfaceMethod); ok {
			m.parent = ret
			methods = append(methods, MethodType{Name: m.Name, Signature: m.Signature})
		} else if m, ok := e.(*InterfaceEmbed); ok {
			m.parent = ret
			embeds = append(embeds, m.Type)
		}
	}
	ret.underlying = InterfaceType(embeds, methods...)
	return ret
}
