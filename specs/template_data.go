package gopoet

import (
	"fmt"
	"go/types"
	"reflect"
)

// Template data: for data of any of these types, whatever the values in it, the
// result is data of the same type in which each reference is the qualified one,
// the references being qualified in the order in which they are found.

func useTemplSymbol(imp *Imports, s Symbol) interface{} {
	return imp.QualifyTemplateData(s)
}

//verif:P08 useTemplSymbol reflect open:(*Imports).QualifyTemplateData
func specTemplSymbol(imp *Imports, s Symbol) interface{} {
	return imp.EnsureImported(s)
}

func useTemplPackage(imp *Imports, p Package) interface{} {
	return imp.QualifyTemplateData(p)
}

//verif:P08 useTemplPackage reflect open:(*Imports).QualifyTemplateData
func specTemplPackage(imp *Imports, p Package) interface{} {
	return Package{Name: specPackageName(imp, p), ImportPath: p.ImportPath}
}

func useTemplType(imp *Imports, t TypeName) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplType reflect open:(*Imports).QualifyTemplateData
func specTemplType(imp *Imports, t TypeName) interface{} {
	if t == nil {
		return nil
	}
	return imp.EnsureTypeImported(t)
}

func useTemplReflectType(imp *Imports, t reflect.Type) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplReflectType reflect open:(*Imports).QualifyTemplateData
func specTemplReflectType(imp *Imports, t reflect.Type) interface{} {
	if t == nil {
		return nil
	}
	return imp.EnsureTypeImported(TypeNameForReflectType(t))
}

func useTemplGoNamed(imp *Imports, t *types.Named) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoNamed reflect open:(*Imports).QualifyTemplateData
func specTemplGoNamed(imp *Imports, t *types.Named) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoPointer(imp *Imports, t *types.Pointer) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoPointer reflect open:(*Imports).QualifyTemplateData
func specTemplGoPointer(imp *Imports, t *types.Pointer) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoSlice(imp *Imports, t *types.Slice) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoSlice reflect open:(*Imports).QualifyTemplateData
func specTemplGoSlice(imp *Imports, t *types.Slice) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoSignature(imp *Imports, t *types.Signature) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoSignature reflect open:(*Imports).QualifyTemplateData
func specTemplGoSignature(imp *Imports, t *types.Signature) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoBasic(imp *Imports, t *types.Basic) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoBasic reflect open:(*Imports).QualifyTemplateData
func specTemplGoBasic(imp *Imports, t *types.Basic) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoMap(imp *Imports, t *types.Map) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoMap reflect open:(*Imports).QualifyTemplateData
func specTemplGoMap(imp *Imports, t *types.Map) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoStruct(imp *Imports, t *types.Struct) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoStruct reflect open:(*Imports).QualifyTemplateData
func specTemplGoStruct(imp *Imports, t *types.Struct) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoInterface(imp *Imports, t *types.Interface) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoInterface reflect open:(*Imports).QualifyTemplateData
func specTemplGoInterface(imp *Imports, t *types.Interface) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoChan(imp *Imports, t *types.Chan) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoChan reflect open:(*Imports).QualifyTemplateData
func specTemplGoChan(imp *Imports, t *types.Chan) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoArray(imp *Imports, t *types.Array) interface{} {
	return imp.QualifyTemplateData(t)
}

//verif:P08 useTemplGoArray reflect open:(*Imports).QualifyTemplateData
func specTemplGoArray(imp *Imports, t *types.Array) interface{} {
	return imp.EnsureTypeImported(TypeNameForGoType(t))
}

func useTemplGoObjTypeName(imp *Imports, o *types.TypeName) interface{} {
	return imp.QualifyTemplateData(o)
}

//verif:P08 useTemplGoObjTypeName reflect open:(*Imports).QualifyTemplateData
func specTemplGoObjTypeName(imp *Imports, o *types.TypeName) interface{} {
	switch s := SymbolForGoObject(o).(type) {
	case Symbol:
		return imp.EnsureImported(s)
	case MethodReference:
		return &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}
	}
	return o
}

func useTemplGoObjVar(imp *Imports, o *types.Var) interface{} {
	return imp.QualifyTemplateData(o)
}

//verif:P08 useTemplGoObjVar reflect open:(*Imports).QualifyTemplateData
func specTemplGoObjVar(imp *Imports, o *types.Var) interface{} {
	switch s := SymbolForGoObject(o).(type) {
	case Symbol:
		return imp.EnsureImported(s)
	case MethodReference:
		return &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}
	}
	return o
}

func useTemplGoObjConst(imp *Imports, o *types.Const) interface{} {
	return imp.QualifyTemplateData(o)
}

//verif:P08 useTemplGoObjConst reflect open:(*Imports).QualifyTemplateData
func specTemplGoObjConst(imp *Imports, o *types.Const) interface{} {
	switch s := SymbolForGoObject(o).(type) {
	case Symbol:
		return imp.EnsureImported(s)
	case MethodReference:
		return &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}
	}
	return o
}

func useTemplGoObjFunc(imp *Imports, o *types.Func) interface{} {
	return imp.QualifyTemplateData(o)
}

//verif:P08 useTemplGoObjFunc reflect open:(*Imports).QualifyTemplateData
func specTemplGoObjFunc(imp *Imports, o *types.Func) interface{} {
	switch s := SymbolForGoObject(o).(type) {
	case Symbol:
		return imp.EnsureImported(s)
	case MethodReference:
		return &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}
	}
	return o
}

func useTemplGoPackage(imp *Imports, p *types.Package) interface{} {
	return imp.QualifyTemplateData(p)
}

//verif:P08 useTemplGoPackage reflect open:(*Imports).QualifyTemplateData
func specTemplGoPackage(imp *Imports, p *types.Package) interface{} {
	q := PackageForGoType(p)
	return Package{Name: specPackageName(imp, q), ImportPath: q.ImportPath}
}

func useTemplMethodRef(imp *Imports, r MethodReference) interface{} {
	return imp.QualifyTemplateData(r)
}

//verif:P08 useTemplMethodRef reflect open:(*Imports).QualifyTemplateData
func specTemplMethodRef(imp *Imports, r MethodReference) interface{} {
	return MethodReference{Type: imp.EnsureImported(r.Type), Method: r.Method}
}

func useTemplSignature(imp *Imports, s Signature) (Signature, Signature) {
	r := imp.QualifyTemplateData(s).(Signature)
	return r, s
}

//verif:P08,P09 useTemplSignature reflect open:(*Imports).QualifyTemplateData
func specTemplSignature(imp *Imports, s Signature) (Signature, Signature) {
	return *imp.EnsureAllTypesImported(&s), s
}

func useTemplConstSpec(imp *Imports, c ConstSpec) (Package, []string, TypeNameOrSpec, *CodeBlock, string) {
	r := imp.QualifyTemplateData(c).(ConstSpec)
	if r.parent == nil {
		return Package{}, r.Names, r.Type, r.Initializer, r.Comment
	}
	return r.parent.Package(), r.Names, r.Type, r.Initializer, r.Comment
}

//verif:P08,P09 useTemplConstSpec reflect open:(*Imports).QualifyTemplateData
func specTemplConstSpec(imp *Imports, c ConstSpec) (Package, []string, TypeNameOrSpec, *CodeBlock, string) {
	if c.parent == nil {
		return Package{}, c.Names, c.Type, c.Initializer, c.Comment
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.Names, c.Type, c.Initializer, c.Comment
}

func useTemplVarSpec(imp *Imports, c VarSpec) (Package, []string, TypeNameOrSpec, *CodeBlock, string) {
	r := imp.QualifyTemplateData(c).(VarSpec)
	if r.parent == nil {
		return Package{}, r.Names, r.Type, r.Initializer, r.Comment
	}
	return r.parent.Package(), r.Names, r.Type, r.Initializer, r.Comment
}

//verif:P08,P09 useTemplVarSpec reflect open:(*Imports).QualifyTemplateData
func specTemplVarSpec(imp *Imports, c VarSpec) (Package, []string, TypeNameOrSpec, *CodeBlock, string) {
	if c.parent == nil {
		return Package{}, c.Names, c.Type, c.Initializer, c.Comment
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.Names, c.Type, c.Initializer, c.Comment
}

func useTemplTypeSpec(imp *Imports, c TypeSpec) (Package, string, string) {
	r := imp.QualifyTemplateData(c).(TypeSpec)
	if r.parent == nil {
		return Package{}, r.Name, r.Comment
	}
	return r.parent.Package(), r.Name, r.Comment
}

//verif:P08 useTemplTypeSpec reflect open:(*Imports).QualifyTemplateData
func specTemplTypeSpec(imp *Imports, c TypeSpec) (Package, string, string) {
	if c.parent == nil {
		return Package{}, c.Name, c.Comment
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.Name, c.Comment
}

func useTemplFuncSpec(imp *Imports, c FuncSpec) (Package, string, string) {
	r := imp.QualifyTemplateData(c).(FuncSpec)
	if r.parent == nil {
		return Package{}, r.Name, r.Comment
	}
	return r.parent.Package(), r.Name, r.Comment
}

//verif:P08 useTemplFuncSpec reflect open:(*Imports).QualifyTemplateData
func specTemplFuncSpec(imp *Imports, c FuncSpec) (Package, string, string) {
	if c.parent == nil {
		return Package{}, c.Name, c.Comment
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.Name, c.Comment
}

func useTemplEmbed(imp *Imports, e InterfaceEmbed) interface{} {
	return imp.QualifyTemplateData(e)
}

//verif:P08 useTemplEmbed reflect open:(*Imports).QualifyTemplateData
func specTemplEmbed(imp *Imports, e InterfaceEmbed) interface{} {
	e.Type = imp.EnsureImported(e.Type)
	return e
}

func useTemplIfaceMethod(imp *Imports, m InterfaceMethod) (string, string, Signature) {
	r := imp.QualifyTemplateData(m).(InterfaceMethod)
	return r.Name, r.Comment, r.Signature
}

//verif:P08 useTemplIfaceMethod reflect open:(*Imports).QualifyTemplateData
func specTemplIfaceMethod(imp *Imports, m InterfaceMethod) (string, string, Signature) {
	s := m.Signature
	s = *imp.EnsureAllTypesImported(&s)
	return m.Name, m.Comment, s
}

func useTemplInt(imp *Imports, n int) interface{} {
	return imp.QualifyTemplateData(n)
}

//verif:P09 useTemplInt reflect open:(*Imports).QualifyTemplateData
func specTemplInt(imp *Imports, n int) interface{} {
	return n
}

func useTemplString(imp *Imports, s string) interface{} {
	return imp.QualifyTemplateData(s)
}

//verif:P09 useTemplString reflect open:(*Imports).QualifyTemplateData
func specTemplString(imp *Imports, s string) interface{} {
	return s
}

func useTemplInts(imp *Imports, l []int) interface{} {
	return imp.QualifyTemplateData([]int{l[0], l[1]})
}

//verif:P09 useTemplInts reflect open:(*Imports).QualifyTemplateData
func specTemplInts(imp *Imports, l []int) interface{} {
	return []int{l[0], l[1]}
}

func useTemplImports(imp *Imports, o Imports) interface{} {
	return imp.QualifyTemplateData(o)
}

//verif:P09 useTemplImports reflect open:(*Imports).QualifyTemplateData
func specTemplImports(imp *Imports, o Imports) interface{} {
	return o
}

func useTemplNil(imp *Imports, n int) interface{} {
	return imp.QualifyTemplateData(nil)
}

//verif:P09 useTemplNil reflect open:(*Imports).QualifyTemplateData
func specTemplNil(imp *Imports, n int) interface{} {
	return nil
}

func useTemplPtr(imp *Imports, p *Symbol) (Symbol, Symbol) {
	if p == nil {
		return Symbol{}, Symbol{}
	}
	r := imp.QualifyTemplateData(p).(*Symbol)
	return *r, *p
}

//verif:P08,P09 useTemplPtr reflect open:(*Imports).QualifyTemplateData
func specTemplPtr(imp *Imports, p *Symbol) (Symbol, Symbol) {
	if p == nil {
		return Symbol{}, Symbol{}
	}
	s := *p
	return imp.EnsureImported(s), s
}

func useTemplPtrPtr(imp *Imports, s Symbol) (Symbol, Symbol) {
	p := &s
	r := imp.QualifyTemplateData(&p).(**Symbol)
	return **r, *p
}

//verif:P08,P09 useTemplPtrPtr reflect open:(*Imports).QualifyTemplateData
func specTemplPtrPtr(imp *Imports, s Symbol) (Symbol, Symbol) {
	return imp.EnsureImported(s), s
}

func useTemplNilPtr(imp *Imports, n int) interface{} {
	var p *Symbol
	return imp.QualifyTemplateData(p)
}

//verif:P09 useTemplNilPtr reflect open:(*Imports).QualifyTemplateData
func specTemplNilPtr(imp *Imports, n int) interface{} {
	var p *Symbol
	return p
}

func useTemplPtrKept(imp *Imports, p *struct{ N int }) interface{} {
	return imp.QualifyTemplateData(p)
}

//verif:P09,P33 useTemplPtrKept reflect open:(*Imports).QualifyTemplateData
func specTemplPtrKept(imp *Imports, p *struct{ N int }) interface{} {
	return p
}

func useTemplPtrSpec(imp *Imports, p *ConstSpec) Package {
	r := imp.QualifyTemplateData(p).(*ConstSpec)
	if r == nil || r.parent == nil {
		return Package{}
	}
	return r.parent.Package()
}

//verif:P08 useTemplPtrSpec reflect open:(*Imports).QualifyTemplateData
func specTemplPtrSpec(imp *Imports, p *ConstSpec) Package {
	if p == nil || p.parent == nil {
		return Package{}
	}
	return Package{Name: specPackageName(imp, p.parent.Package()), ImportPath: p.parent.pkgPath}
}

func useTemplSlice(imp *Imports, a, b, c Symbol) ([]Symbol, []Symbol) {
	l := []Symbol{a, b, c}
	r := imp.QualifyTemplateData(l).([]Symbol)
	return r, l
}

//verif:P08,P09 useTemplSlice reflect open:(*Imports).QualifyTemplateData
func specTemplSlice(imp *Imports, a, b, c Symbol) ([]Symbol, []Symbol) {
	l := []Symbol{a, b, c}
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	c = imp.EnsureImported(c)
	return []Symbol{a, b, c}, l
}

func useTemplSliceAny(imp *Imports, a Symbol, n int, t TypeName) ([]interface{}, []interface{}) {
	l := []interface{}{n, nil, a, "x", t}
	r := imp.QualifyTemplateData(l).([]interface{})
	return r, l
}

//verif:P08,P09 useTemplSliceAny reflect open:(*Imports).QualifyTemplateData
func specTemplSliceAny(imp *Imports, a Symbol, n int, t TypeName) ([]interface{}, []interface{}) {
	l := []interface{}{n, nil, a, "x", t}
	r := []interface{}{n, nil, imp.EnsureImported(a), "x", t}
	if t != nil {
		r[4] = imp.EnsureTypeImported(t)
	}
	return r, l
}

func useTemplArray(imp *Imports, a, b Symbol) ([2]Symbol, [2]Symbol) {
	l := [2]Symbol{a, b}
	r := imp.QualifyTemplateData(l).([2]Symbol)
	return r, l
}

//verif:P08,P09 useTemplArray reflect open:(*Imports).QualifyTemplateData
func specTemplArray(imp *Imports, a, b Symbol) ([2]Symbol, [2]Symbol) {
	l := [2]Symbol{a, b}
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	return [2]Symbol{a, b}, l
}

func useTemplArrayAny(imp *Imports, a Symbol, n int) [3]interface{} {
	return imp.QualifyTemplateData([3]interface{}{n, a, "x"}).([3]interface{})
}

//verif:P08,P09 useTemplArrayAny reflect open:(*Imports).QualifyTemplateData
func specTemplArrayAny(imp *Imports, a Symbol, n int) [3]interface{} {
	return [3]interface{}{n, imp.EnsureImported(a), "x"}
}

func useTemplEmptySlice(imp *Imports, n int) interface{} {
	return imp.QualifyTemplateData([]Symbol{})
}

//verif:P09 useTemplEmptySlice reflect open:(*Imports).QualifyTemplateData
func specTemplEmptySlice(imp *Imports, n int) interface{} {
	return []Symbol{}
}

func useTemplNilSlice(imp *Imports, n int) []Symbol {
	var l []Symbol
	return imp.QualifyTemplateData(l).([]Symbol)
}

//verif:P09 useTemplNilSlice reflect open:(*Imports).QualifyTemplateData
func specTemplNilSlice(imp *Imports, n int) []Symbol {
	return nil
}

func useTemplSliceOfSlices(imp *Imports, a, b Symbol) [][]Symbol {
	return imp.QualifyTemplateData([][]Symbol{{a}, {b}}).([][]Symbol)
}

//verif:P08,P09 useTemplSliceOfSlices reflect open:(*Imports).QualifyTemplateData
func specTemplSliceOfSlices(imp *Imports, a, b Symbol) [][]Symbol {
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	return [][]Symbol{{a}, {b}}
}

func useTemplStruct(imp *Imports, d struct {
	A Symbol
	n int
	b Symbol
	T TypeName
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplStruct reflect open:(*Imports).QualifyTemplateData only:default
func specTemplStruct(imp *Imports, d struct {
	A Symbol
	n int
	b Symbol
	T TypeName
}) interface{} {
	d.A = imp.EnsureImported(d.A)
	d.b = imp.EnsureImported(d.b)
	if d.T != nil {
		d.T = imp.EnsureTypeImported(d.T)
	}
	return d
}

func useTemplStructPure(imp *Imports, d struct {
	A Symbol
	n int
	b Symbol
	T TypeName
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplStructPure reflect open:(*Imports).QualifyTemplateData only:purego
func specTemplStructPure(imp *Imports, d struct {
	A Symbol
	n int
	b Symbol
	T TypeName
}) interface{} {
	d.A = imp.EnsureImported(d.A)
	if d.T != nil {
		d.T = imp.EnsureTypeImported(d.T)
	}
	return d
}

func useTemplStructPtr(imp *Imports, d struct {
	A Symbol
	n int
	B Symbol
}) interface{} {
	p := &d
	r := imp.QualifyTemplateData(p).(*struct {
		A Symbol
		n int
		B Symbol
	})
	return [2]interface{}{*r, *p}
}

//verif:P08,P09,P31,P33 useTemplStructPtr reflect open:(*Imports).QualifyTemplateData
func specTemplStructPtr(imp *Imports, d struct {
	A Symbol
	n int
	B Symbol
}) interface{} {
	old := d
	d.A = imp.EnsureImported(d.A)
	d.B = imp.EnsureImported(d.B)
	return [2]interface{}{d, old}
}

func useTemplStructNested(imp *Imports, d struct {
	N string
	In struct{ S Symbol; k int }
	Any interface{}
}, s Symbol) interface{} {
	d.Any = s
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplStructNested reflect open:(*Imports).QualifyTemplateData
func specTemplStructNested(imp *Imports, d struct {
	N string
	In struct{ S Symbol; k int }
	Any interface{}
}, s Symbol) interface{} {
	d.In.S = imp.EnsureImported(d.In.S)
	d.Any = imp.EnsureImported(s)
	return d
}

func useTemplUnexported(imp *Imports, d struct {
	in struct{ s Symbol }
	n int
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplUnexported reflect open:(*Imports).QualifyTemplateData only:default
func specTemplUnexported(imp *Imports, d struct {
	in struct{ s Symbol }
	n int
}) interface{} {
	d.in.s = imp.EnsureImported(d.in.s)
	return d
}

func useTemplUnexportedPure(imp *Imports, d struct {
	in struct{ s Symbol }
	n int
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P09,P33 useTemplUnexportedPure reflect open:(*Imports).QualifyTemplateData only:purego
func specTemplUnexportedPure(imp *Imports, d struct {
	in struct{ s Symbol }
	n int
}) interface{} {
	return d
}

func useTemplUnexportedPtr(imp *Imports, s Symbol) [2]Symbol {
	d := struct{ p *Symbol }{&s}
	r := imp.QualifyTemplateData(d).(struct{ p *Symbol })
	return [2]Symbol{*r.p, s}
}

//verif:P08,P09,P31,P33 useTemplUnexportedPtr reflect open:(*Imports).QualifyTemplateData only:default
func specTemplUnexportedPtr(imp *Imports, s Symbol) [2]Symbol {
	old := s
	s = imp.EnsureImported(s)
	return [2]Symbol{s, old}
}

func useTemplUnexportedPtrPure(imp *Imports, s Symbol) [2]Symbol {
	d := struct{ p *Symbol }{&s}
	r := imp.QualifyTemplateData(d).(struct{ p *Symbol })
	return [2]Symbol{*r.p, s}
}

//verif:P09,P31,P33 useTemplUnexportedPtrPure reflect open:(*Imports).QualifyTemplateData only:purego
func specTemplUnexportedPtrPure(imp *Imports, s Symbol) [2]Symbol {
	return [2]Symbol{s, s}
}

func useTemplUnexportedAny(imp *Imports, s Symbol) interface{} {
	d := struct{ x interface{} }{s}
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplUnexportedAny reflect open:(*Imports).QualifyTemplateData only:default
func specTemplUnexportedAny(imp *Imports, s Symbol) interface{} {
	s = imp.EnsureImported(s)
	return struct{ x interface{} }{s}
}

func useTemplUnexportedMixed(imp *Imports, d struct {
	n int
	a Symbol
	B Symbol
	c [2]Symbol
	_ int
	Ä Symbol
	ĸ Symbol
	D [1]struct{ e Symbol }
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplUnexportedMixed reflect open:(*Imports).QualifyTemplateData only:default
func specTemplUnexportedMixed(imp *Imports, d struct {
	n int
	a Symbol
	B Symbol
	c [2]Symbol
	_ int
	Ä Symbol
	ĸ Symbol
	D [1]struct{ e Symbol }
}) interface{} {
	d.a = imp.EnsureImported(d.a)
	d.B = imp.EnsureImported(d.B)
	d.c[0] = imp.EnsureImported(d.c[0])
	d.c[1] = imp.EnsureImported(d.c[1])
	d.Ä = imp.EnsureImported(d.Ä)
	d.ĸ = imp.EnsureImported(d.ĸ)
	d.D[0].e = imp.EnsureImported(d.D[0].e)
	return d
}

func useTemplUnexportedMixedPure(imp *Imports, d struct {
	n int
	a Symbol
	B Symbol
	c [2]Symbol
	_ int
	Ä Symbol
	ĸ Symbol
	D [1]struct{ e Symbol }
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplUnexportedMixedPure reflect open:(*Imports).QualifyTemplateData only:purego
func specTemplUnexportedMixedPure(imp *Imports, d struct {
	n int
	a Symbol
	B Symbol
	c [2]Symbol
	_ int
	Ä Symbol
	ĸ Symbol
	D [1]struct{ e Symbol }
}) interface{} {
	d.B = imp.EnsureImported(d.B)
	d.Ä = imp.EnsureImported(d.Ä)
	return d
}

func useTemplUnexportedMap(imp *Imports, s, u Symbol) [3]Symbol {
	d := struct {
		n int
		m map[string]Symbol
	}{1, map[string]Symbol{"a": s}}
	r := imp.QualifyTemplateData(d).(struct {
		n int
		m map[string]Symbol
	})
	return [3]Symbol{r.m["a"], d.m["a"]}
}

//verif:P08,P09,P31,P33 useTemplUnexportedMap reflect open:(*Imports).QualifyTemplateData only:default
func specTemplUnexportedMap(imp *Imports, s, u Symbol) [3]Symbol {
	return [3]Symbol{imp.EnsureImported(s), s}
}

func useTemplUnexportedMapPure(imp *Imports, s, u Symbol) [3]Symbol {
	d := struct {
		n int
		m map[string]Symbol
	}{1, map[string]Symbol{"a": s}}
	r := imp.QualifyTemplateData(d).(struct {
		n int
		m map[string]Symbol
	})
	return [3]Symbol{r.m["a"], d.m["a"]}
}

//verif:P08,P09,P31,P33 useTemplUnexportedMapPure reflect open:(*Imports).QualifyTemplateData only:purego
func specTemplUnexportedMapPure(imp *Imports, s, u Symbol) [3]Symbol {
	return [3]Symbol{s, s}
}

func useTemplUnexportedSlice(imp *Imports, s, u Symbol) [4]Symbol {
	d := struct {
		n int
		l []Symbol
	}{1, []Symbol{s, u}}
	r := imp.QualifyTemplateData(d).(struct {
		n int
		l []Symbol
	})
	return [4]Symbol{r.l[0], r.l[1], d.l[0], d.l[1]}
}

//verif:P08,P09,P31,P33 useTemplUnexportedSlice reflect open:(*Imports).QualifyTemplateData only:default
func specTemplUnexportedSlice(imp *Imports, s, u Symbol) [4]Symbol {
	a := imp.EnsureImported(s)
	b := imp.EnsureImported(u)
	return [4]Symbol{a, b, s, u}
}

func useTemplUnexportedSlicePure(imp *Imports, s, u Symbol) [4]Symbol {
	d := struct {
		n int
		l []Symbol
	}{1, []Symbol{s, u}}
	r := imp.QualifyTemplateData(d).(struct {
		n int
		l []Symbol
	})
	return [4]Symbol{r.l[0], r.l[1], d.l[0], d.l[1]}
}

//verif:P08,P09,P31,P33 useTemplUnexportedSlicePure reflect open:(*Imports).QualifyTemplateData only:purego
func specTemplUnexportedSlicePure(imp *Imports, s, u Symbol) [4]Symbol {
	return [4]Symbol{s, u, s, u}
}

func useTemplUnexportedAnyPure(imp *Imports, s Symbol) interface{} {
	d := struct{ x interface{} }{s}
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplUnexportedAnyPure reflect open:(*Imports).QualifyTemplateData only:purego
func specTemplUnexportedAnyPure(imp *Imports, s Symbol) interface{} {
	return struct{ x interface{} }{s}
}

func useTemplUnexportedType(imp *Imports, t TypeName) interface{} {
	d := struct {
		n string
		t TypeName
	}{"", t}
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplUnexportedType reflect open:(*Imports).QualifyTemplateData only:default
func specTemplUnexportedType(imp *Imports, t TypeName) interface{} {
	d := struct {
		n string
		t TypeName
	}{"", t}
	if d.t != nil {
		d.t = imp.EnsureTypeImported(d.t)
	}
	return d
}

func useTemplUnexportedPackage(imp *Imports, p Package) interface{} {
	d := struct {
		f func()
		p Package
	}{nil, p}
	return imp.QualifyTemplateData(&d).(*struct {
		f func()
		p Package
	}).p
}

//verif:P08,P09,P33 useTemplUnexportedPackage reflect open:(*Imports).QualifyTemplateData only:default
func specTemplUnexportedPackage(imp *Imports, p Package) interface{} {
	return Package{Name: specPackageName(imp, p), ImportPath: p.ImportPath}
}

func useTemplStructLast(imp *Imports, d struct {
	N, M int
	S Symbol
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplStructLast reflect open:(*Imports).QualifyTemplateData
func specTemplStructLast(imp *Imports, d struct {
	N, M int
	S Symbol
}) interface{} {
	d.S = imp.EnsureImported(d.S)
	return d
}

func useTemplStructNone(imp *Imports, d struct {
	N, M int
	s string
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P09,P33 useTemplStructNone reflect open:(*Imports).QualifyTemplateData
func specTemplStructNone(imp *Imports, d struct {
	N, M int
	s string
}) interface{} {
	return d
}

func useTemplHoldType(imp *Imports, t *types.Named) interface{} {
	return imp.QualifyTemplateData([]types.Type{t})
}

//verif:P08,P09 useTemplHoldType reflect open:(*Imports).QualifyTemplateData
func specTemplHoldType(imp *Imports, t *types.Named) interface{} {
	imp.EnsureTypeImported(TypeNameForGoType(t))
	return []types.Type{t}
}

func useTemplHoldReflect(imp *Imports, t reflect.Type) interface{} {
	if t == nil {
		return nil
	}
	return imp.QualifyTemplateData([]reflect.Type{t})
}

//verif:P08,P09 useTemplHoldReflect reflect open:(*Imports).QualifyTemplateData
func specTemplHoldReflect(imp *Imports, t reflect.Type) interface{} {
	if t == nil {
		return nil
	}
	imp.EnsureTypeImported(TypeNameForReflectType(t))
	return []reflect.Type{t}
}

func useTemplHoldStringer(imp *Imports, s Symbol, t TypeName) interface{} {
	if t == nil {
		return nil
	}
	return imp.QualifyTemplateData([]fmt.Stringer{s, t})
}

//verif:P08,P09 useTemplHoldStringer reflect open:(*Imports).QualifyTemplateData
func specTemplHoldStringer(imp *Imports, s Symbol, t TypeName) interface{} {
	if t == nil {
		return nil
	}
	s = imp.EnsureImported(s)
	t = imp.EnsureTypeImported(t)
	return []fmt.Stringer{s, t}
}

func useTemplHoldTypeName(imp *Imports, t, u TypeName) interface{} {
	return imp.QualifyTemplateData([]TypeName{t, u})
}

//verif:P08,P09 useTemplHoldTypeName reflect open:(*Imports).QualifyTemplateData
func specTemplHoldTypeName(imp *Imports, t, u TypeName) interface{} {
	if t != nil {
		t = imp.EnsureTypeImported(t)
	}
	if u != nil {
		u = imp.EnsureTypeImported(u)
	}
	return []TypeName{t, u}
}

func useTemplHoldTypeOrSpec(imp *Imports, t TypeName) interface{} {
	if t == nil {
		return nil
	}
	return imp.QualifyTemplateData([]TypeNameOrSpec{t})
}

//verif:P08,P09 useTemplHoldTypeOrSpec reflect open:(*Imports).QualifyTemplateData
func specTemplHoldTypeOrSpec(imp *Imports, t TypeName) interface{} {
	if t == nil {
		return nil
	}
	return []TypeNameOrSpec{imp.EnsureTypeImported(t)}
}

func useTemplGoTypePtr(imp *Imports, t *types.Named) interface{} {
	return imp.QualifyTemplateData([]*types.Named{t})
}

//verif:P08,P09,P38 useTemplGoTypePtr reflect open:(*Imports).QualifyTemplateData finite
func specTemplGoTypePtr(imp *Imports, t *types.Named) interface{} {
	return []*types.Named{t}
}

func useTemplMap(imp *Imports, a, b Symbol) (map[string]Symbol, map[string]Symbol) {
	m := map[string]Symbol{"a": a, "b": b}
	r := imp.QualifyTemplateData(m).(map[string]Symbol)
	return r, m
}

//verif:P08,P09,P32 useTemplMap reflect open:(*Imports).QualifyTemplateData
func specTemplMap(imp *Imports, a, b Symbol) (map[string]Symbol, map[string]Symbol) {
	m := map[string]Symbol{"a": a, "b": b}
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	return map[string]Symbol{"a": a, "b": b}, m
}

func useTemplMapThree(imp *Imports, a Symbol, n int, t TypeName) map[string]interface{} {
	m := map[string]interface{}{"z": a, "y": n, "x": t}
	return imp.QualifyTemplateData(m).(map[string]interface{})
}

//verif:P08,P09,P32 useTemplMapThree reflect open:(*Imports).QualifyTemplateData
func specTemplMapThree(imp *Imports, a Symbol, n int, t TypeName) map[string]interface{} {
	x := t
	if t != nil {
		x = imp.EnsureTypeImported(t)
	}
	b := imp.EnsureImported(a)
	return map[string]interface{}{"z": b, "y": n, "x": x}
}

func useTemplMapKey(imp *Imports, n int) map[Symbol]int {
	m := map[Symbol]int{{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}: n}
	return imp.QualifyTemplateData(m).(map[Symbol]int)
}

//verif:P08,P09 useTemplMapKey reflect open:(*Imports).QualifyTemplateData
func specTemplMapKey(imp *Imports, n int) map[Symbol]int {
	return map[Symbol]int{imp.EnsureImported(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}): n}
}

func useTemplMapKeyNext(imp *Imports, n, k int) map[interface{}]int {
	m := map[interface{}]int{"B": k, Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}: n}
	return imp.QualifyTemplateData(m).(map[interface{}]int)
}

//verif:P08,P09 useTemplMapKeyNext reflect open:(*Imports).QualifyTemplateData
func specTemplMapKeyNext(imp *Imports, n, k int) map[interface{}]int {
	return map[interface{}]int{"B": k, imp.EnsureImported(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}): n}
}

func useTemplMapPlain(imp *Imports, n, k int) (map[string]int) {
	return imp.QualifyTemplateData(map[string]int{"a": n, "b": k}).(map[string]int)
}

//verif:P09 useTemplMapPlain reflect open:(*Imports).QualifyTemplateData
func specTemplMapPlain(imp *Imports, n, k int) (map[string]int) {
	return map[string]int{"a": n, "b": k}
}

func useTemplNilMap(imp *Imports, n int) map[string]Symbol {
	var m map[string]Symbol
	return imp.QualifyTemplateData(m).(map[string]Symbol)
}

//verif:P09 useTemplNilMap reflect open:(*Imports).QualifyTemplateData
func specTemplNilMap(imp *Imports, n int) map[string]Symbol {
	return nil
}

func useTemplMapOfSlices(imp *Imports, a, b Symbol) map[string][]Symbol {
	return imp.QualifyTemplateData(map[string][]Symbol{"k": {a, b}}).(map[string][]Symbol)
}

//verif:P08,P09 useTemplMapOfSlices reflect open:(*Imports).QualifyTemplateData
func specTemplMapOfSlices(imp *Imports, a, b Symbol) map[string][]Symbol {
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	return map[string][]Symbol{"k": {a, b}}
}

func useTemplPtrShared(imp *Imports, s Symbol) [2]Symbol {
	l := []*Symbol{&s, &s}
	r := imp.QualifyTemplateData(l).([]*Symbol)
	return [2]Symbol{*r[0], *r[1]}
}

//verif:P08 useTemplPtrShared reflect open:(*Imports).QualifyTemplateData
func specTemplPtrShared(imp *Imports, s Symbol) [2]Symbol {
	a := imp.EnsureImported(s)
	b := imp.EnsureImported(s)
	return [2]Symbol{a, b}
}

func useTemplMapKeys(imp *Imports, n, k int) map[Symbol]int {
	m := map[Symbol]int{{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}: n, {Name: "B", Package: Package{Name: "p", ImportPath: "x/p"}}: k}
	return imp.QualifyTemplateData(m).(map[Symbol]int)
}

//verif:P08,P09 useTemplMapKeys reflect open:(*Imports).QualifyTemplateData
func specTemplMapKeys(imp *Imports, n, k int) map[Symbol]int {
	a := imp.EnsureImported(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}})
	b := imp.EnsureImported(Symbol{Name: "B", Package: Package{Name: "p", ImportPath: "x/p"}})
	return map[Symbol]int{a: n, b: k}
}

func useTemplMapKeysValues(imp *Imports, s, t Symbol) map[interface{}]Symbol {
	m := map[interface{}]Symbol{Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}: s, "x": t}
	return imp.QualifyTemplateData(m).(map[interface{}]Symbol)
}

//verif:P08,P09 useTemplMapKeysValues reflect open:(*Imports).QualifyTemplateData
func specTemplMapKeysValues(imp *Imports, s, t Symbol) map[interface{}]Symbol {
	a := imp.EnsureImported(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}})
	s = imp.EnsureImported(s)
	t = imp.EnsureImported(t)
	return map[interface{}]Symbol{a: s, "x": t}
}

func useTemplArrayPtr(imp *Imports, a, b Symbol) ([2]Symbol, [2]Symbol) {
	p := &[2]Symbol{a, b}
	r := imp.QualifyTemplateData(p).(*[2]Symbol)
	return *r, *p
}

//verif:P08,P09,P31 useTemplArrayPtr reflect open:(*Imports).QualifyTemplateData
func specTemplArrayPtr(imp *Imports, a, b Symbol) ([2]Symbol, [2]Symbol) {
	l := [2]Symbol{a, b}
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	return [2]Symbol{a, b}, l
}

func useTemplArrayPtrAny(imp *Imports, n int, b Symbol) ([3]interface{}, [3]interface{}) {
	p := &[3]interface{}{n, b, "y"}
	r := imp.QualifyTemplateData(p).(*[3]interface{})
	return *r, *p
}

//verif:P08,P09,P31 useTemplArrayPtrAny reflect open:(*Imports).QualifyTemplateData
func specTemplArrayPtrAny(imp *Imports, n int, b Symbol) ([3]interface{}, [3]interface{}) {
	return [3]interface{}{n, imp.EnsureImported(b), "y"}, [3]interface{}{n, b, "y"}
}

func useTemplSliceOfArrays(imp *Imports, a, b Symbol) ([][2]Symbol, [][2]Symbol) {
	l := [][2]Symbol{{a, b}}
	r := imp.QualifyTemplateData(l).([][2]Symbol)
	return r, l
}

//verif:P08,P09,P31 useTemplSliceOfArrays reflect open:(*Imports).QualifyTemplateData
func specTemplSliceOfArrays(imp *Imports, a, b Symbol) ([][2]Symbol, [][2]Symbol) {
	l := [][2]Symbol{{a, b}}
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	return [][2]Symbol{{a, b}}, l
}

func useTemplSliceOfStructs(imp *Imports, a, b struct{ N int; S Symbol }) ([]struct{ N int; S Symbol }, []struct{ N int; S Symbol }) {
	l := []struct{ N int; S Symbol }{a, b}
	r := imp.QualifyTemplateData(l).([]struct{ N int; S Symbol })
	return r, l
}

//verif:P08,P09,P31,P33 useTemplSliceOfStructs reflect open:(*Imports).QualifyTemplateData
func specTemplSliceOfStructs(imp *Imports, a, b struct{ N int; S Symbol }) ([]struct{ N int; S Symbol }, []struct{ N int; S Symbol }) {
	l := []struct{ N int; S Symbol }{a, b}
	a.S = imp.EnsureImported(a.S)
	b.S = imp.EnsureImported(b.S)
	return []struct{ N int; S Symbol }{a, b}, l
}

func useTemplSliceOfPtrs(imp *Imports, a, b Symbol) ([3]Symbol, bool) {
	l := []*Symbol{&a, nil, &b}
	r := imp.QualifyTemplateData(l).([]*Symbol)
	return [3]Symbol{*r[0], {}, *r[2]}, r[1] == nil
}

//verif:P08,P09 useTemplSliceOfPtrs reflect open:(*Imports).QualifyTemplateData
func specTemplSliceOfPtrs(imp *Imports, a, b Symbol) ([3]Symbol, bool) {
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	return [3]Symbol{a, {}, b}, true
}

func useTemplMapOfMaps(imp *Imports, a Symbol, n int) (map[string]map[string]interface{}, map[string]map[string]interface{}) {
	m := map[string]map[string]interface{}{"k": {"v": a, "n": n}}
	r := imp.QualifyTemplateData(m).(map[string]map[string]interface{})
	return r, m
}

//verif:P08,P09,P31 useTemplMapOfMaps reflect open:(*Imports).QualifyTemplateData
func specTemplMapOfMaps(imp *Imports, a Symbol, n int) (map[string]map[string]interface{}, map[string]map[string]interface{}) {
	m := map[string]map[string]interface{}{"k": {"v": a, "n": n}}
	return map[string]map[string]interface{}{"k": {"v": imp.EnsureImported(a), "n": n}}, m
}

func useTemplPtrToStructWithMap(imp *Imports, a Symbol, n int) (map[string]interface{}, map[string]interface{}, int) {
	p := &struct {
		M map[string]interface{}
		N int
	}{map[string]interface{}{"v": a, "w": n}, n}
	r := imp.QualifyTemplateData(p).(*struct {
		M map[string]interface{}
		N int
	})
	return r.M, p.M, r.N
}

//verif:P08,P09,P31,P33 useTemplPtrToStructWithMap reflect open:(*Imports).QualifyTemplateData
func specTemplPtrToStructWithMap(imp *Imports, a Symbol, n int) (map[string]interface{}, map[string]interface{}, int) {
	m := map[string]interface{}{"v": a, "w": n}
	return map[string]interface{}{"v": imp.EnsureImported(a), "w": n}, m, n
}

func useTemplNamedTypes(imp *Imports, a Symbol) specTemplData {
	return imp.QualifyTemplateData(specTemplData{{a, 1}, {a, 2}}).(specTemplData)
}

//verif:P08,P09 useTemplNamedTypes reflect open:(*Imports).QualifyTemplateData
func specTemplNamedTypes(imp *Imports, a Symbol) specTemplData {
	b := imp.EnsureImported(a)
	c := imp.EnsureImported(a)
	return specTemplData{{b, 1}, {c, 2}}
}

func useTemplMapValueNil(imp *Imports, a Symbol) map[string]interface{} {
	return imp.QualifyTemplateData(map[string]interface{}{"a": a, "b": nil, "c": (*Symbol)(nil)}).(map[string]interface{})
}

//verif:P08,P09 useTemplMapValueNil reflect open:(*Imports).QualifyTemplateData
func specTemplMapValueNil(imp *Imports, a Symbol) map[string]interface{} {
	return map[string]interface{}{"a": imp.EnsureImported(a), "b": nil, "c": (*Symbol)(nil)}
}

func useTemplFuncChan(imp *Imports, f func(), c chan Symbol, a Symbol) []interface{} {
	return imp.QualifyTemplateData([]interface{}{f, a, c}).([]interface{})
}

//verif:P08,P09 useTemplFuncChan reflect open:(*Imports).QualifyTemplateData
func specTemplFuncChan(imp *Imports, f func(), c chan Symbol, a Symbol) []interface{} {
	return []interface{}{f, imp.EnsureImported(a), c}
}

func useTemplEmbeddedStruct(imp *Imports, d struct {
	Symbol
	N int
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplEmbeddedStruct reflect open:(*Imports).QualifyTemplateData
func specTemplEmbeddedStruct(imp *Imports, d struct {
	Symbol
	N int
}) interface{} {
	d.Symbol = imp.EnsureImported(d.Symbol)
	return d
}

func useTemplEmbeddedPtr(imp *Imports, s Symbol) (Symbol, Symbol) {
	r := imp.QualifyTemplateData(struct{ *Symbol }{&s}).(struct{ *Symbol })
	return *r.Symbol, s
}

//verif:P08,P09,P31,P33 useTemplEmbeddedPtr reflect open:(*Imports).QualifyTemplateData
func specTemplEmbeddedPtr(imp *Imports, s Symbol) (Symbol, Symbol) {
	return imp.EnsureImported(s), s
}

func useTemplSignatures(imp *Imports, s Signature, n int) ([]interface{}, Signature) {
	r := imp.QualifyTemplateData([]interface{}{n, s}).([]interface{})
	return r, s
}

//verif:P08,P09,P31 useTemplSignatures reflect open:(*Imports).QualifyTemplateData
func specTemplSignatures(imp *Imports, s Signature, n int) ([]interface{}, Signature) {
	return []interface{}{n, *imp.EnsureAllTypesImported(&s)}, s
}

func useTemplSignaturePtr(imp *Imports, s Signature) (Signature, Signature) {
	r := imp.QualifyTemplateData(&s).(*Signature)
	return *r, s
}

//verif:P08,P09,P31 useTemplSignaturePtr reflect open:(*Imports).QualifyTemplateData
func specTemplSignaturePtr(imp *Imports, s Signature) (Signature, Signature) {
	return *imp.EnsureAllTypesImported(&s), s
}

func useTemplEmbedPtr(imp *Imports, e InterfaceEmbed) [2]Symbol {
	r := imp.QualifyTemplateData(&e).(*InterfaceEmbed)
	return [2]Symbol{r.Type, e.Type}
}

//verif:P08,P09,P31 useTemplEmbedPtr reflect open:(*Imports).QualifyTemplateData
func specTemplEmbedPtr(imp *Imports, e InterfaceEmbed) [2]Symbol {
	old := e.Type
	return [2]Symbol{imp.EnsureImported(e.Type), old}
}

func useTemplMethodPtr(imp *Imports, m InterfaceMethod) (string, Signature, Signature) {
	r := imp.QualifyTemplateData(&m).(*InterfaceMethod)
	return r.Name, r.Signature, m.Signature
}

//verif:P08,P09,P31 useTemplMethodPtr reflect open:(*Imports).QualifyTemplateData
func specTemplMethodPtr(imp *Imports, m InterfaceMethod) (string, Signature, Signature) {
	s := m.Signature
	return m.Name, *imp.EnsureAllTypesImported(&s), m.Signature
}

func useTemplVarSpecKept(imp *Imports, c VarSpec, imp2 *Imports) Package {
	if c.parent == nil {
		return Package{}
	}
	imp.QualifyTemplateData(&c)
	return c.parent.Package()
}

//verif:P09,P31 useTemplVarSpecKept reflect open:(*Imports).QualifyTemplateData
func specTemplVarSpecKept(imp *Imports, c VarSpec, imp2 *Imports) Package {
	if c.parent == nil {
		return Package{}
	}
	specPackageName(imp, c.parent.Package())
	return c.parent.Package()
}

func useTemplTypeSpecPtr(imp *Imports, c TypeSpec) (Symbol, Symbol, *GoFile) {
	if c.parent == nil {
		return Symbol{}, Symbol{}, nil
	}
	r := imp.QualifyTemplateData(&c).(*TypeSpec)
	return r.ToSymbol(), c.ToSymbol(), c.parent
}

//verif:P08,P09,P31 useTemplTypeSpecPtr reflect open:(*Imports).QualifyTemplateData
func specTemplTypeSpecPtr(imp *Imports, c TypeSpec) (Symbol, Symbol, *GoFile) {
	if c.parent == nil {
		return Symbol{}, Symbol{}, nil
	}
	p := Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}
	return Symbol{Name: c.Name, Package: p}, c.ToSymbol(), c.parent
}

func useTemplFuncSpecPtr(imp *Imports, c FuncSpec) (Package, Package, string) {
	if c.parent == nil {
		return Package{}, Package{}, ""
	}
	r := imp.QualifyTemplateData(&c).(*FuncSpec)
	return r.parent.Package(), c.parent.Package(), r.Name
}

//verif:P08,P09,P31 useTemplFuncSpecPtr reflect open:(*Imports).QualifyTemplateData
func specTemplFuncSpecPtr(imp *Imports, c FuncSpec) (Package, Package, string) {
	if c.parent == nil {
		return Package{}, Package{}, ""
	}
	p := Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}
	return p, c.parent.Package(), c.Name
}

func useTemplPackageIn(imp *Imports, p, q Package) ([]Package, []Package) {
	l := []Package{p, q}
	r := imp.QualifyTemplateData(l).([]Package)
	return r, l
}

//verif:P08,P09,P31 useTemplPackageIn reflect open:(*Imports).QualifyTemplateData
func specTemplPackageIn(imp *Imports, p, q Package) ([]Package, []Package) {
	l := []Package{p, q}
	p2 := Package{Name: specPackageName(imp, p), ImportPath: p.ImportPath}
	q2 := Package{Name: specPackageName(imp, q), ImportPath: q.ImportPath}
	return []Package{p2, q2}, l
}

func useTemplMethodRefIn(imp *Imports, m MethodReference, n int) ([]interface{}, []MethodReference) {
	r := imp.QualifyTemplateData([]interface{}{n, m}).([]interface{})
	r2 := imp.QualifyTemplateData([]MethodReference{m}).([]MethodReference)
	return r, r2
}

//verif:P08,P09 useTemplMethodRefIn reflect open:(*Imports).QualifyTemplateData
func specTemplMethodRefIn(imp *Imports, m MethodReference, n int) ([]interface{}, []MethodReference) {
	a := MethodReference{Type: imp.EnsureImported(m.Type), Method: m.Method}
	b := MethodReference{Type: imp.EnsureImported(m.Type), Method: m.Method}
	return []interface{}{n, a}, []MethodReference{b}
}

func useTemplReflectTypeIn(imp *Imports, t reflect.Type, n int) []interface{} {
	if t == nil {
		return nil
	}
	return imp.QualifyTemplateData([]interface{}{n, t}).([]interface{})
}

//verif:P08,P09 useTemplReflectTypeIn reflect open:(*Imports).QualifyTemplateData
func specTemplReflectTypeIn(imp *Imports, t reflect.Type, n int) []interface{} {
	if t == nil {
		return nil
	}
	return []interface{}{n, imp.EnsureTypeImported(TypeNameForReflectType(t))}
}

func useTemplGoNamedIn(imp *Imports, t *types.Named, n int) []interface{} {
	return imp.QualifyTemplateData([]interface{}{n, t}).([]interface{})
}

//verif:P08,P09 useTemplGoNamedIn reflect open:(*Imports).QualifyTemplateData
func specTemplGoNamedIn(imp *Imports, t *types.Named, n int) []interface{} {
	return []interface{}{n, imp.EnsureTypeImported(TypeNameForGoType(t))}
}

func useTemplGoPointerIn(imp *Imports, t *types.Pointer, n int) []interface{} {
	return imp.QualifyTemplateData([]interface{}{n, t}).([]interface{})
}

//verif:P08,P09 useTemplGoPointerIn reflect open:(*Imports).QualifyTemplateData
func specTemplGoPointerIn(imp *Imports, t *types.Pointer, n int) []interface{} {
	return []interface{}{n, imp.EnsureTypeImported(TypeNameForGoType(t))}
}

func useTemplGoSignatureIn(imp *Imports, t *types.Signature, n int) []interface{} {
	return imp.QualifyTemplateData([]interface{}{n, t}).([]interface{})
}

//verif:P08,P09 useTemplGoSignatureIn reflect open:(*Imports).QualifyTemplateData
func specTemplGoSignatureIn(imp *Imports, t *types.Signature, n int) []interface{} {
	return []interface{}{n, imp.EnsureTypeImported(TypeNameForGoType(t))}
}

func useTemplGoObjTypeNameIn(imp *Imports, o *types.TypeName, n int) []interface{} {
	return imp.QualifyTemplateData([]interface{}{n, o}).([]interface{})
}

//verif:P08,P09 useTemplGoObjTypeNameIn reflect open:(*Imports).QualifyTemplateData
func specTemplGoObjTypeNameIn(imp *Imports, o *types.TypeName, n int) []interface{} {
	switch s := SymbolForGoObject(o).(type) {
	case Symbol:
		return []interface{}{n, imp.EnsureImported(s)}
	case MethodReference:
		return []interface{}{n, &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}}
	}
	return []interface{}{n, o}
}

func useTemplGoObjVarIn(imp *Imports, o *types.Var, n int) []interface{} {
	return imp.QualifyTemplateData([]interface{}{n, o}).([]interface{})
}

//verif:P08,P09 useTemplGoObjVarIn reflect open:(*Imports).QualifyTemplateData
func specTemplGoObjVarIn(imp *Imports, o *types.Var, n int) []interface{} {
	switch s := SymbolForGoObject(o).(type) {
	case Symbol:
		return []interface{}{n, imp.EnsureImported(s)}
	case MethodReference:
		return []interface{}{n, &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}}
	}
	return []interface{}{n, o}
}

func useTemplGoObjConstIn(imp *Imports, o *types.Const, n int) []interface{} {
	return imp.QualifyTemplateData([]interface{}{n, o}).([]interface{})
}

//verif:P08,P09 useTemplGoObjConstIn reflect open:(*Imports).QualifyTemplateData
func specTemplGoObjConstIn(imp *Imports, o *types.Const, n int) []interface{} {
	switch s := SymbolForGoObject(o).(type) {
	case Symbol:
		return []interface{}{n, imp.EnsureImported(s)}
	case MethodReference:
		return []interface{}{n, &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}}
	}
	return []interface{}{n, o}
}

func useTemplGoObjFuncIn(imp *Imports, o *types.Func, n int) []interface{} {
	return imp.QualifyTemplateData([]interface{}{n, o}).([]interface{})
}

//verif:P08,P09 useTemplGoObjFuncIn reflect open:(*Imports).QualifyTemplateData
func specTemplGoObjFuncIn(imp *Imports, o *types.Func, n int) []interface{} {
	switch s := SymbolForGoObject(o).(type) {
	case Symbol:
		return []interface{}{n, imp.EnsureImported(s)}
	case MethodReference:
		return []interface{}{n, &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}}
	}
	return []interface{}{n, o}
}

func useTemplGoPackageIn(imp *Imports, p *types.Package, n int) []interface{} {
	return imp.QualifyTemplateData([]interface{}{n, p}).([]interface{})
}

//verif:P08,P09 useTemplGoPackageIn reflect open:(*Imports).QualifyTemplateData
func specTemplGoPackageIn(imp *Imports, p *types.Package, n int) []interface{} {
	q := PackageForGoType(p)
	return []interface{}{n, Package{Name: specPackageName(imp, q), ImportPath: q.ImportPath}}
}

func useTemplConstSpecIn(imp *Imports, c ConstSpec) (Package, Package, []string) {
	r := imp.QualifyTemplateData([]ConstSpec{c}).([]ConstSpec)
	if r[0].parent == nil {
		return Package{}, Package{}, r[0].Names
	}
	return r[0].parent.Package(), c.parent.Package(), r[0].Names
}

//verif:P08,P09,P31 useTemplConstSpecIn reflect open:(*Imports).QualifyTemplateData
func specTemplConstSpecIn(imp *Imports, c ConstSpec) (Package, Package, []string) {
	if c.parent == nil {
		return Package{}, Package{}, c.Names
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package(), c.Names
}

func useTemplConstSpecPtrIn(imp *Imports, p *ConstSpec, n int) (Package, Package, interface{}) {
	if p == nil || p.parent == nil {
		return Package{}, Package{}, nil
	}
	r := imp.QualifyTemplateData(map[string]interface{}{"a": n, "k": p}).(map[string]interface{})
	q := r["k"].(*ConstSpec)
	return q.parent.Package(), p.parent.Package(), r["a"]
}

//verif:P08,P09,P31 useTemplConstSpecPtrIn reflect open:(*Imports).QualifyTemplateData
func specTemplConstSpecPtrIn(imp *Imports, p *ConstSpec, n int) (Package, Package, interface{}) {
	if p == nil || p.parent == nil {
		return Package{}, Package{}, nil
	}
	return Package{Name: specPackageName(imp, p.parent.Package()), ImportPath: p.parent.pkgPath}, p.parent.Package(), n
}

func useTemplVarSpecIn(imp *Imports, c VarSpec) (Package, Package, []string) {
	r := imp.QualifyTemplateData([]VarSpec{c}).([]VarSpec)
	if r[0].parent == nil {
		return Package{}, Package{}, r[0].Names
	}
	return r[0].parent.Package(), c.parent.Package(), r[0].Names
}

//verif:P08,P09,P31 useTemplVarSpecIn reflect open:(*Imports).QualifyTemplateData
func specTemplVarSpecIn(imp *Imports, c VarSpec) (Package, Package, []string) {
	if c.parent == nil {
		return Package{}, Package{}, c.Names
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package(), c.Names
}

func useTemplVarSpecPtrIn(imp *Imports, p *VarSpec, n int) (Package, Package, interface{}) {
	if p == nil || p.parent == nil {
		return Package{}, Package{}, nil
	}
	r := imp.QualifyTemplateData(map[string]interface{}{"a": n, "k": p}).(map[string]interface{})
	q := r["k"].(*VarSpec)
	return q.parent.Package(), p.parent.Package(), r["a"]
}

//verif:P08,P09,P31 useTemplVarSpecPtrIn reflect open:(*Imports).QualifyTemplateData
func specTemplVarSpecPtrIn(imp *Imports, p *VarSpec, n int) (Package, Package, interface{}) {
	if p == nil || p.parent == nil {
		return Package{}, Package{}, nil
	}
	return Package{Name: specPackageName(imp, p.parent.Package()), ImportPath: p.parent.pkgPath}, p.parent.Package(), n
}

func useTemplTypeSpecIn(imp *Imports, c TypeSpec) (Package, Package, string) {
	r := imp.QualifyTemplateData([]TypeSpec{c}).([]TypeSpec)
	if r[0].parent == nil {
		return Package{}, Package{}, r[0].Name
	}
	return r[0].parent.Package(), c.parent.Package(), r[0].Name
}

//verif:P08,P09,P31 useTemplTypeSpecIn reflect open:(*Imports).QualifyTemplateData
func specTemplTypeSpecIn(imp *Imports, c TypeSpec) (Package, Package, string) {
	if c.parent == nil {
		return Package{}, Package{}, c.Name
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package(), c.Name
}

func useTemplTypeSpecPtrIn(imp *Imports, p *TypeSpec, n int) (Package, Package, interface{}) {
	if p == nil || p.parent == nil {
		return Package{}, Package{}, nil
	}
	r := imp.QualifyTemplateData(map[string]interface{}{"a": n, "k": p}).(map[string]interface{})
	q := r["k"].(*TypeSpec)
	return q.parent.Package(), p.parent.Package(), r["a"]
}

//verif:P08,P09,P31 useTemplTypeSpecPtrIn reflect open:(*Imports).QualifyTemplateData
func specTemplTypeSpecPtrIn(imp *Imports, p *TypeSpec, n int) (Package, Package, interface{}) {
	if p == nil || p.parent == nil {
		return Package{}, Package{}, nil
	}
	return Package{Name: specPackageName(imp, p.parent.Package()), ImportPath: p.parent.pkgPath}, p.parent.Package(), n
}

func useTemplFuncSpecIn(imp *Imports, c FuncSpec) (Package, Package, string) {
	r := imp.QualifyTemplateData([]FuncSpec{c}).([]FuncSpec)
	if r[0].parent == nil {
		return Package{}, Package{}, r[0].Name
	}
	return r[0].parent.Package(), c.parent.Package(), r[0].Name
}

//verif:P08,P09,P31 useTemplFuncSpecIn reflect open:(*Imports).QualifyTemplateData
func specTemplFuncSpecIn(imp *Imports, c FuncSpec) (Package, Package, string) {
	if c.parent == nil {
		return Package{}, Package{}, c.Name
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package(), c.Name
}

func useTemplFuncSpecPtrIn(imp *Imports, p *FuncSpec, n int) (Package, Package, interface{}) {
	if p == nil || p.parent == nil {
		return Package{}, Package{}, nil
	}
	r := imp.QualifyTemplateData(map[string]interface{}{"a": n, "k": p}).(map[string]interface{})
	q := r["k"].(*FuncSpec)
	return q.parent.Package(), p.parent.Package(), r["a"]
}

//verif:P08,P09,P31 useTemplFuncSpecPtrIn reflect open:(*Imports).QualifyTemplateData
func specTemplFuncSpecPtrIn(imp *Imports, p *FuncSpec, n int) (Package, Package, interface{}) {
	if p == nil || p.parent == nil {
		return Package{}, Package{}, nil
	}
	return Package{Name: specPackageName(imp, p.parent.Package()), ImportPath: p.parent.pkgPath}, p.parent.Package(), n
}

func useTemplEmbedIn(imp *Imports, e InterfaceEmbed, n int) ([]interface{}, []InterfaceEmbed) {
	r := imp.QualifyTemplateData([]interface{}{n, e}).([]interface{})
	r2 := imp.QualifyTemplateData([]InterfaceEmbed{e}).([]InterfaceEmbed)
	return r, r2
}

//verif:P08,P09 useTemplEmbedIn reflect open:(*Imports).QualifyTemplateData
func specTemplEmbedIn(imp *Imports, e InterfaceEmbed, n int) ([]interface{}, []InterfaceEmbed) {
	a, b := e, e
	a.Type = imp.EnsureImported(e.Type)
	b.Type = imp.EnsureImported(e.Type)
	return []interface{}{n, a}, []InterfaceEmbed{b}
}

func useTemplIfaceMethodIn(imp *Imports, m InterfaceMethod) (string, string, Signature) {
	r := imp.QualifyTemplateData([]InterfaceMethod{m}).([]InterfaceMethod)
	return r[0].Name, r[0].Comment, r[0].Signature
}

//verif:P08,P09 useTemplIfaceMethodIn reflect open:(*Imports).QualifyTemplateData
func specTemplIfaceMethodIn(imp *Imports, m InterfaceMethod) (string, string, Signature) {
	s := m.Signature
	s = *imp.EnsureAllTypesImported(&s)
	return m.Name, m.Comment, s
}

func useTemplSignatureIn(imp *Imports, s Signature) ([]Signature, Signature) {
	r := imp.QualifyTemplateData([]Signature{s}).([]Signature)
	return r, s
}

//verif:P08,P09,P31 useTemplSignatureIn reflect open:(*Imports).QualifyTemplateData
func specTemplSignatureIn(imp *Imports, s Signature) ([]Signature, Signature) {
	return []Signature{*imp.EnsureAllTypesImported(&s)}, s
}

func useTemplGoObjPtr(imp *Imports, o *types.Var) interface{} {
	return imp.QualifyTemplateData([]*types.Var{o})
}

//verif:P09,P38 useTemplGoObjPtr reflect open:(*Imports).QualifyTemplateData finite
func specTemplGoObjPtr(imp *Imports, o *types.Var) interface{} {
	return []*types.Var{o}
}

func useTemplGoPkgPtr(imp *Imports, p *types.Package) interface{} {
	return imp.QualifyTemplateData([]*types.Package{p})
}

//verif:P09,P38 useTemplGoPkgPtr reflect open:(*Imports).QualifyTemplateData finite
func specTemplGoPkgPtr(imp *Imports, p *types.Package) interface{} {
	return []*types.Package{p}
}

func useTemplStructPtrNilField(imp *Imports, d struct {
	S *Symbol
	A interface{}
}) interface{} {
	return imp.QualifyTemplateData(struct {
		S *Symbol
		A interface{}
	}{})
}

//verif:P09,P33 useTemplStructPtrNilField reflect open:(*Imports).QualifyTemplateData
func specTemplStructPtrNilField(imp *Imports, d struct {
	S *Symbol
	A interface{}
}) interface{} {
	return struct {
		S *Symbol
		A interface{}
	}{}
}

func useTemplStructFunc(imp *Imports, s Symbol, n int) (Symbol, Symbol, int) {
	d := struct {
		S *Symbol
		N int
	}{&s, n}
	r := imp.QualifyTemplateData(&d).(*struct {
		S *Symbol
		N int
	})
	return *r.S, *d.S, r.N
}

//verif:P08,P09,P31,P33 useTemplStructFunc reflect open:(*Imports).QualifyTemplateData
func specTemplStructFunc(imp *Imports, s Symbol, n int) (Symbol, Symbol, int) {
	return imp.EnsureImported(s), s, n
}

func useTemplSlicePtr(imp *Imports, a, b Symbol) ([]Symbol, []Symbol) {
	p := &[]Symbol{a, b}
	r := imp.QualifyTemplateData(p).(*[]Symbol)
	return *r, *p
}

//verif:P08,P09,P31 useTemplSlicePtr reflect open:(*Imports).QualifyTemplateData
func specTemplSlicePtr(imp *Imports, a, b Symbol) ([]Symbol, []Symbol) {
	l := []Symbol{a, b}
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	return []Symbol{a, b}, l
}

func useTemplSliceAnyPtr(imp *Imports, n int, a Symbol) ([]interface{}, []interface{}) {
	p := &[]interface{}{n, a}
	r := imp.QualifyTemplateData(p).(*[]interface{})
	return *r, *p
}

//verif:P08,P09,P31 useTemplSliceAnyPtr reflect open:(*Imports).QualifyTemplateData
func specTemplSliceAnyPtr(imp *Imports, n int, a Symbol) ([]interface{}, []interface{}) {
	l := []interface{}{n, a}
	return []interface{}{n, imp.EnsureImported(a)}, l
}

func useTemplMapPtr(imp *Imports, a, b Symbol) (map[string]Symbol, map[string]Symbol) {
	p := &map[string]Symbol{"a": a, "b": b}
	r := imp.QualifyTemplateData(p).(*map[string]Symbol)
	return *r, *p
}

//verif:P08,P09,P31,P32 useTemplMapPtr reflect open:(*Imports).QualifyTemplateData
func specTemplMapPtr(imp *Imports, a, b Symbol) (map[string]Symbol, map[string]Symbol) {
	m := map[string]Symbol{"a": a, "b": b}
	a = imp.EnsureImported(a)
	b = imp.EnsureImported(b)
	return map[string]Symbol{"a": a, "b": b}, m
}

func useTemplNamedSlicePtr(imp *Imports, a Symbol) (specTemplData, specTemplData) {
	p := &specTemplData{{a, 1}}
	r := imp.QualifyTemplateData(p).(*specTemplData)
	return *r, *p
}

//verif:P08,P09,P31 useTemplNamedSlicePtr reflect open:(*Imports).QualifyTemplateData
func specTemplNamedSlicePtr(imp *Imports, a Symbol) (specTemplData, specTemplData) {
	l := specTemplData{{a, 1}}
	return specTemplData{{imp.EnsureImported(a), 1}}, l
}

func useTemplPtrIfaceField(imp *Imports, s Symbol, n int) (Symbol, interface{}) {
	var x interface{} = s
	d := struct{ P *interface{} }{&x}
	r := imp.QualifyTemplateData(d).(struct{ P *interface{} })
	return (*r.P).(Symbol), x
}

//verif:P08,P09,P31,P33 useTemplPtrIfaceField reflect open:(*Imports).QualifyTemplateData
func specTemplPtrIfaceField(imp *Imports, s Symbol, n int) (Symbol, interface{}) {
	old := s
	return imp.EnsureImported(s), old
}

func useTemplTagged(imp *Imports, d struct {
	A Symbol `json:"-"`
	B Symbol `template:"-"`
	C Symbol `-`
	D Symbol `json:"d,omitempty" gopoet:"-"`
}) interface{} {
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplTagged reflect open:(*Imports).QualifyTemplateData
func specTemplTagged(imp *Imports, d struct {
	A Symbol `json:"-"`
	B Symbol `template:"-"`
	C Symbol `-`
	D Symbol `json:"d,omitempty" gopoet:"-"`
}) interface{} {
	d.A = imp.EnsureImported(d.A)
	d.B = imp.EnsureImported(d.B)
	d.C = imp.EnsureImported(d.C)
	d.D = imp.EnsureImported(d.D)
	return d
}

func useTemplBlank(imp *Imports, d struct {
	Parent Symbol
	Imports, Data interface{}
}, a, b Symbol) interface{} {
	d.Imports, d.Data = a, b
	return imp.QualifyTemplateData(d)
}

//verif:P08,P09,P33 useTemplBlank reflect open:(*Imports).QualifyTemplateData
func specTemplBlank(imp *Imports, d struct {
	Parent Symbol
	Imports, Data interface{}
}, a, b Symbol) interface{} {
	d.Parent = imp.EnsureImported(d.Parent)
	d.Imports = imp.EnsureImported(a)
	d.Data = imp.EnsureImported(b)
	return d
}

func useTemplArgType(imp *Imports, t TypeName, name string) (ArgType, ArgType) {
	d := ArgType{Name: name, Type: t}
	r := imp.QualifyTemplateData(d).(ArgType)
	return r, d
}

//verif:P08,P09 useTemplArgType reflect open:(*Imports).QualifyTemplateData
func specTemplArgType(imp *Imports, t TypeName, name string) (ArgType, ArgType) {
	d := ArgType{Name: name, Type: t}
	r := d
	if t != nil {
		r.Type = imp.EnsureTypeImported(t)
	}
	return r, d
}

func useTemplArgTypes(imp *Imports, t TypeName, name string) ([]ArgType, []ArgType) {
	l := []ArgType{{Name: name, Type: t}}
	r := imp.QualifyTemplateData(l).([]ArgType)
	return r, l
}

//verif:P08,P09,P31 useTemplArgTypes reflect open:(*Imports).QualifyTemplateData
func specTemplArgTypes(imp *Imports, t TypeName, name string) ([]ArgType, []ArgType) {
	l := []ArgType{{Name: name, Type: t}}
	r := []ArgType{{Name: name, Type: t}}
	if t != nil {
		r[0].Type = imp.EnsureTypeImported(t)
	}
	return r, l
}

func useTemplFieldType(imp *Imports, t TypeName, name string) (FieldType, FieldType) {
	d := FieldType{Name: name, Type: t}
	r := imp.QualifyTemplateData(d).(FieldType)
	return r, d
}

//verif:P08,P09 useTemplFieldType reflect open:(*Imports).QualifyTemplateData
func specTemplFieldType(imp *Imports, t TypeName, name string) (FieldType, FieldType) {
	d := FieldType{Name: name, Type: t}
	r := d
	if t != nil {
		r.Type = imp.EnsureTypeImported(t)
	}
	return r, d
}

func useTemplFieldSpec(imp *Imports, t TypeName, name string) (TypeNameOrSpec, TypeNameOrSpec) {
	if t == nil {
		return nil, nil
	}
	d := NewField(name, t)
	r := imp.QualifyTemplateData(d).(*FieldSpec)
	return r.Type, d.Type
}

//verif:P08,P09,P31 useTemplFieldSpec reflect open:(*Imports).QualifyTemplateData
func specTemplFieldSpec(imp *Imports, t TypeName, name string) (TypeNameOrSpec, TypeNameOrSpec) {
	if t == nil {
		return nil, nil
	}
	return imp.EnsureTypeImported(t), t
}

func useTemplConstDecl(imp *Imports, c ConstSpec) (Package, Package) {
	if c.parent == nil {
		return Package{}, Package{}
	}
	r := imp.QualifyTemplateData(NewConstDecl(&c)).(*ConstDecl)
	return r.Consts[0].parent.Package(), c.parent.Package()
}

//verif:P08,P09,P31 useTemplConstDecl reflect open:(*Imports).QualifyTemplateData
func specTemplConstDecl(imp *Imports, c ConstSpec) (Package, Package) {
	if c.parent == nil {
		return Package{}, Package{}
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package()
}

func useTemplVarDecl(imp *Imports, c VarSpec) (Package, Package) {
	if c.parent == nil {
		return Package{}, Package{}
	}
	r := imp.QualifyTemplateData(NewVarDecl(&c)).(*VarDecl)
	return r.Vars[0].parent.Package(), c.parent.Package()
}

//verif:P08,P09,P31 useTemplVarDecl reflect open:(*Imports).QualifyTemplateData
func specTemplVarDecl(imp *Imports, c VarSpec) (Package, Package) {
	if c.parent == nil {
		return Package{}, Package{}
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package()
}

func useTemplTypeDecl(imp *Imports, c TypeSpec) (Package, Package) {
	if c.parent == nil {
		return Package{}, Package{}
	}
	r := imp.QualifyTemplateData(NewTypeDecl(&c)).(*TypeDecl)
	return r.Types[0].parent.Package(), c.parent.Package()
}

//verif:P08,P09,P31 useTemplTypeDecl reflect open:(*Imports).QualifyTemplateData
func specTemplTypeDecl(imp *Imports, c TypeSpec) (Package, Package) {
	if c.parent == nil {
		return Package{}, Package{}
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package()
}

func useTemplFile(imp *Imports, c ConstSpec) (Package, Package) {
	if c.parent == nil {
		return Package{}, Package{}
	}
	r := imp.QualifyTemplateData(&GoFile{elements: []FileElement{NewConstDecl(&c)}}).(*GoFile)
	return r.elements[0].(*ConstDecl).Consts[0].parent.Package(), c.parent.Package()
}

//verif:P08,P09,P31 useTemplFile reflect open:(*Imports).QualifyTemplateData only:default
func specTemplFile(imp *Imports, c ConstSpec) (Package, Package) {
	if c.parent == nil {
		return Package{}, Package{}
	}
	return Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package()
}

type specTemplEntry struct {
	S Symbol
	N int
}

type specTemplData []specTemplEntry

// whatever the order of the keys
//verif:P32 useTemplOrderStrings reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderStrings(imp *Imports, a, b, c Symbol) interface{} {
	return imp.QualifyTemplateData(map[string]Symbol{"z": a, "x": b, "y": c})
}

// whatever the order of the keys
//verif:P32 useTemplOrderInts reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderInts(imp *Imports, a, b, c Symbol) interface{} {
	return imp.QualifyTemplateData(map[int]Symbol{10: a, 9: b, -1: c})
}

// whatever the order of the keys
//verif:P32 useTemplOrderBools reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderBools(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(map[bool]interface{}{true: a, false: b})
}

// whatever the order of the keys
//verif:P32 useTemplOrderPackages reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderPackages(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(map[Package]interface{}{{Name: "p", ImportPath: "x/p"}: a, {Name: "p", ImportPath: "y/p"}: b})
}

// whatever the order of the keys
//verif:P32 useTemplOrderSymbols reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderSymbols(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(map[Symbol]interface{}{Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}: a, Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "y/p"}}: b})
}

// whatever the order of the keys
//verif:P32 useTemplOrderMethods reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderMethods(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(map[MethodReference]interface{}{{Type: Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}, Method: "M"}: a, {Type: Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "y/p"}}, Method: "M"}: b})
}

// whatever the order of the keys
//verif:P32 useTemplOrderTypes reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderTypes(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(map[TypeName]interface{}{NamedType(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}): a, NamedType(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "y/p"}}): b})
}

// whatever the order of the keys
//verif:P32 useTemplOrderPtrTypes reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderPtrTypes(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(map[TypeName]interface{}{PointerType(NamedType(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}})): a, PointerType(NamedType(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "y/p"}})): b})
}

// whatever the order of the keys
//verif:P32 useTemplOrderOneText reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderOneText(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(map[interface{}]interface{}{1: a, "1": b})
}

// whatever the order of the keys
//verif:P32 useTemplOrderMixed reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderMixed(imp *Imports, a, b, c Symbol) interface{} {
	return imp.QualifyTemplateData(map[interface{}]interface{}{"p.A": a, Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "y/p"}}: b, 3: c})
}

// whatever the order of the keys
//verif:P32 useTemplOrderNested reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderNested(imp *Imports, a, b, c Symbol) interface{} {
	return imp.QualifyTemplateData([]interface{}{map[string]interface{}{"k": map[string]Symbol{"b": a, "a": b}, "a": c}})
}

// whatever the order of the keys
//verif:P32 useTemplOrderFields reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderFields(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(struct{ M, N map[string]interface{} }{map[string]interface{}{"b": a, "a": 1}, map[string]interface{}{"b": a, "a": b}})
}

// whatever the order of the keys
//verif:P32 useTemplOrderArrays reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderArrays(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(map[[2]int]Symbol{{1, 2}: a, {1, 1}: b})
}

// whatever the order of the keys
//verif:P32 useTemplOrderStructs reflect open:(*Imports).QualifyTemplateData,NamedType,PointerType order:any
func useTemplOrderStructs(imp *Imports, a, b Symbol) interface{} {
	return imp.QualifyTemplateData(map[struct{ S Symbol; N int }]Symbol{{Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}, 1}: a, {Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "y/p"}}, 1}: b})
}
