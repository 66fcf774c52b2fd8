package gopoet

import "strings"

func specSymbolIn(f *GoFile, name string) Symbol {
	return Symbol{Name: name, Package: Package{Name: f.PackageName, ImportPath: f.Package().ImportPath}}
}

func specOneSymbol(f *GoFile, names []string) Symbol {
	if len(names) != 1 || f == nil {
		panic("not one name, or not in a file")
	}
	return specSymbolIn(f, names[0])
}

func specNames(f *GoFile, names []string) string {
	var all []string
	for _, n := range names {
		if f != nil && f.PackageName != "" {
			n = f.PackageName + "." + n
		}
		all = append(all, n)
	}
	return strings.Join(all, ", ")
}

//verif:P27 (*ConstSpec).ToSymbol
func specConstToSymbol(c *ConstSpec) Symbol { return specOneSymbol(c.parent, c.Names) }

//verif:P27 (*VarSpec).ToSymbol
func specVarToSymbol(c *VarSpec) Symbol { return specOneSymbol(c.parent, c.Names) }

//verif:P27 (*ConstSpec).SymbolAt
func specConstSymbolAt(c *ConstSpec, i int) Symbol {
	if c.parent == nil {
		panic("not in a file")
	}
	return specSymbolIn(c.parent, c.Names[i])
}

//verif:P27 (*VarSpec).SymbolAt
func specVarSymbolAt(c *VarSpec, i int) Symbol {
	if c.parent == nil {
		panic("not in a file")
	}
	return specSymbolIn(c.parent, c.Names[i])
}

//verif:P27 (*ConstSpec).String
func specConstString(c *ConstSpec) string { return specNames(c.parent, c.Names) }

//verif:P27 (*VarSpec).String
func specVarString(c *VarSpec) string { return specNames(c.parent, c.Names) }

//verif:P27 (*TypeSpec).ToSymbol
func specTypeToSymbol(t *TypeSpec) Symbol {
	if t.Name == "" || t.parent == nil {
		panic("unnamed or not in a file")
	}
	return specSymbolIn(t.parent, t.Name)
}

//verif:P27 (*TypeSpec).String
func specTypeString(t *TypeSpec) string {
	if t.Name == "" {
		return t.Underlying().String()
	}
	return specNames(t.parent, []string{t.Name})
}

//verif:P27 (*TypeSpec).ToTypeName
func specTypeToTypeName(t *TypeSpec) TypeName {
	if t.Name == "" {
		return t.Underlying()
	}
	return NamedType(specTypeToSymbol(t))
}

//verif:P27 (*FuncSpec).ToSymbol
func specFuncToSymbol(f *FuncSpec) SymbolOrMethodRef {
	if f.parent == nil {
		panic("not in a file")
	}
	if f.Receiver == nil {
		return specSymbolIn(f.parent, f.Name)
	}
	return MethodReference{Type: specSymbolIn(f.parent, f.Receiver.Type), Method: f.Name}
}

//verif:P27 (*FuncSpec).String
func specFuncSpecString(f *FuncSpec) string {
	if f.Receiver != nil {
		return f.Name
	}
	return specNames(f.parent, []string{f.Name})
}

//verif:P27 (*InterfaceMethod).ToMethodRef
func specMethodToMethodRef(m *InterfaceMethod) MethodReference {
	if m.parent == nil {
		panic("not in a type")
	}
	return MethodReference{Type: m.parent.ToSymbol(), Method: m.Name}
}

//verif:P27 (*InterfaceMethod).String
func specMethodString(m *InterfaceMethod) string { return m.Name }

//verif:P27 (*InterfaceEmbed).String
func specEmbedString(e *InterfaceEmbed) string { return specSymbolString(e.Type) }

//verif:P27 (*FieldSpec).String
func specFieldString(f *FieldSpec) string { return f.Name }

//verif:P27,P05 Symbol.String
func specSymbolString(s Symbol) string {
	if s.Package.Name == "" {
		return s.Name
	}
	return s.Package.Name + "." + s.Name
}

//verif:P27 MethodReference.String
func specMethodReferenceString(m MethodReference) string {
	return specSymbolString(m.Type) + "." + m.Method
}

//verif:P07,P27 Package.String
func specPackageString(p Package) string { return p.Name }
