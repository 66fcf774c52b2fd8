package gopoet

//verif:P10 (*ConstDecl).qualify
func specConstDeclQualify(d *ConstDecl, imports *Imports) {
	for _, c := range d.Consts {
		c.Type = specTypeForFile(imports, c.Type)
		if c.Initializer != nil {
			c.Initializer.qualify(imports)
		}
	}
}

//verif:P10 (*VarDecl).qualify
func specVarDeclQualify(d *VarDecl, imports *Imports) {
	for _, c := range d.Vars {
		c.Type = specTypeForFile(imports, c.Type)
		if c.Initializer != nil {
			c.Initializer.qualify(imports)
		}
	}
}

// a type that is written out where it is used is qualified in place; a type of
// another declaration is a reference to it
func specTypeForFile(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
	switch t := t.(type) {
	case TypeName:
		return imports.EnsureTypeImported(t)
	case *TypeSpec:
		if t.Name != "" {
			if t.parent == nil {
				return t
			}
			return imports.EnsureTypeImported(NamedType(t.ToSymbol()))
		}
		t.qualify(imports)
		return t
	case nil:
		return nil
	}
	panic("unrecognized type")
}

//verif:P10 (*TypeDecl).qualify
func specTypeDeclQualify(d *TypeDecl, imports *Imports) {
	for _, t := range d.Types {
		t.qualify(imports)
	}
}

//verif:P10 (*TypeSpec).qualify
func specTypeSpecQualify(t *TypeSpec, imports *Imports) {
	t.underlying = imports.EnsureTypeImported(t.underlying)
	for _, f := range t.structBody {
		f.Type = specTypeForFile(imports, f.Type)
	}
	for _, e := range t.interfaceBody {
		switch e := e.(type) {
		case *InterfaceEmbed:
			e.Type = imports.EnsureImported(e.Type)
		case *InterfaceMethod:
			e.Signature = *imports.EnsureAllTypesImported(&e.Signature)
		}
	}
}

//verif:P10 (*FuncSpec).qualify
func specFuncSpecQualify(f *FuncSpec, imports *Imports) {
	f.Signature = *imports.EnsureAllTypesImported(&f.Signature)
	f.CodeBlock.qualify(imports)
}
