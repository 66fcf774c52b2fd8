package gopoet

import (
	"path"
	"path/filepath"
	"reflect"
	"text/template"
)

//verif:P30 (*ConstDecl).SetComment
func specBConstDeclSetComment(x *ConstDecl, comment string) *ConstDecl {
	x.Comment = comment
	return x
}

//verif:P30 (*VarDecl).SetComment
func specBVarDeclSetComment(x *VarDecl, comment string) *VarDecl {
	x.Comment = comment
	return x
}

//verif:P30 (*TypeDecl).SetComment
func specBTypeDeclSetComment(x *TypeDecl, comment string) *TypeDecl {
	x.Comment = comment
	return x
}

//verif:P30 (*ConstSpec).SetComment
func specBConstSpecSetComment(x *ConstSpec, comment string) *ConstSpec {
	x.Comment = comment
	return x
}

//verif:P30 (*VarSpec).SetComment
func specBVarSpecSetComment(x *VarSpec, comment string) *VarSpec {
	x.Comment = comment
	return x
}

//verif:P30 (*TypeSpec).SetComment
func specBTypeSpecSetComment(x *TypeSpec, comment string) *TypeSpec {
	x.Comment = comment
	return x
}

//verif:P30 (*FieldSpec).SetComment
func specBFieldSpecSetComment(x *FieldSpec, comment string) *FieldSpec {
	x.Comment = comment
	return x
}

//verif:P30 (*InterfaceEmbed).SetComment
func specBInterfaceEmbedSetComment(x *InterfaceEmbed, comment string) *InterfaceEmbed {
	x.Comment = comment
	return x
}

//verif:P30 (*InterfaceMethod).SetComment
func specBInterfaceMethodSetComment(x *InterfaceMethod, comment string) *InterfaceMethod {
	x.Comment = comment
	return x
}

//verif:P30 (*FuncSpec).SetComment
func specBFuncSpecSetComment(x *FuncSpec, comment string) *FuncSpec {
	x.Comment = comment
	return x
}

//verif:P30 (*ConstDecl).AddConst
func specBConstDeclAddConst(x *ConstDecl, e *ConstSpec) *ConstDecl {
	x.Consts = append(x.Consts, e)
	return x
}

//verif:P30 (*VarDecl).AddVar
func specBVarDeclAddVar(x *VarDecl, e *VarSpec) *VarDecl {
	x.Vars = append(x.Vars, e)
	return x
}

//verif:P30 (*TypeDecl).AddType
func specBTypeDeclAddType(x *TypeDecl, e *TypeSpec) *TypeDecl {
	x.Types = append(x.Types, e)
	return x
}

//verif:P30 (*ConstSpec).SetType
func specBConstSpecSetType(x *ConstSpec, t TypeNameOrSpec) *ConstSpec {
	x.Type = t
	return x
}

//verif:P30 (*ConstSpec).SetInitializer
func specBConstSpecSetInitializer(x *ConstSpec, cb *CodeBlock) *ConstSpec {
	x.Initializer = cb
	return x
}

//verif:P30 (*ConstSpec).Initialize
func specBConstSpecInitialize(x *ConstSpec, format string, args ...interface{}) *ConstSpec {
	x.Initializer = Printf(format, args...)
	return x
}

//verif:P30 (*VarSpec).SetType
func specBVarSpecSetType(x *VarSpec, t TypeNameOrSpec) *VarSpec {
	x.Type = t
	return x
}

//verif:P30 (*VarSpec).SetInitializer
func specBVarSpecSetInitializer(x *VarSpec, cb *CodeBlock) *VarSpec {
	x.Initializer = cb
	return x
}

//verif:P30 (*VarSpec).Initialize
func specBVarSpecInitialize(x *VarSpec, format string, args ...interface{}) *VarSpec {
	x.Initializer = Printf(format, args...)
	return x
}

//verif:P30 (*FieldSpec).SetTag
func specBFieldSpecSetTag(x *FieldSpec, tag string) *FieldSpec {
	x.Tag = reflect.StructTag(tag)
	return x
}

//verif:P30 (*Signature).AddArg
func specBSignatureAddArg(x *Signature, name string, t TypeName) *Signature {
	x.Args = append(x.Args, ArgType{Name: name, Type: t})
	return x
}

//verif:P30 (*Signature).AddResult
func specBSignatureAddResult(x *Signature, name string, t TypeName) *Signature {
	x.Results = append(x.Results, ArgType{Name: name, Type: t})
	return x
}

//verif:P30 (*Signature).SetVariadic
func specBSignatureSetVariadic(x *Signature, isVariadic bool) *Signature {
	x.IsVariadic = isVariadic
	return x
}

//verif:P30 (*InterfaceMethod).AddArg
func specBInterfaceMethodAddArg(x *InterfaceMethod, name string, t TypeName) *InterfaceMethod {
	x.Signature.Args = append(x.Signature.Args, ArgType{Name: name, Type: t})
	return x
}

//verif:P30 (*InterfaceMethod).AddResult
func specBInterfaceMethodAddResult(x *InterfaceMethod, name string, t TypeName) *InterfaceMethod {
	x.Signature.Results = append(x.Signature.Results, ArgType{Name: name, Type: t})
	return x
}

//verif:P30 (*InterfaceMethod).SetVariadic
func specBInterfaceMethodSetVariadic(x *InterfaceMethod, isVariadic bool) *InterfaceMethod {
	x.Signature.IsVariadic = isVariadic
	return x
}

//verif:P30 (*FuncSpec).AddArg
func specBFuncSpecAddArg(x *FuncSpec, name string, t TypeName) *FuncSpec {
	x.Signature.Args = append(x.Signature.Args, ArgType{Name: name, Type: t})
	return x
}

//verif:P30 (*FuncSpec).AddResult
func specBFuncSpecAddResult(x *FuncSpec, name string, t TypeName) *FuncSpec {
	x.Signature.Results = append(x.Signature.Results, ArgType{Name: name, Type: t})
	return x
}

//verif:P30 (*FuncSpec).SetVariadic
func specBFuncSpecSetVariadic(x *FuncSpec, isVariadic bool) *FuncSpec {
	x.Signature.IsVariadic = isVariadic
	return x
}

//verif:P18,P30 (*FuncSpec).Print
func specBFuncSpecPrint(x *FuncSpec, text string) *FuncSpec {
	x.CodeBlock.Print(text)
	return x
}

//verif:P18 Print
func specNewPrint(text string) *CodeBlock {
	var cb CodeBlock
	cb.Print(text)
	return &cb
}

//verif:P18,P30 (*FuncSpec).Println
func specBFuncSpecPrintln(x *FuncSpec, text string) *FuncSpec {
	x.CodeBlock.Println(text)
	return x
}

//verif:P18 Println
func specNewPrintln(text string) *CodeBlock {
	var cb CodeBlock
	cb.Println(text)
	return &cb
}

//verif:P18,P30 (*FuncSpec).Printf
func specBFuncSpecPrintf(x *FuncSpec, format string, args ...interface{}) *FuncSpec {
	x.CodeBlock.Printf(format, args...)
	return x
}

//verif:P18 Printf
func specNewPrintf(format string, args ...interface{}) *CodeBlock {
	var cb CodeBlock
	cb.Printf(format, args...)
	return &cb
}

//verif:P18,P30 (*FuncSpec).Printlnf
func specBFuncSpecPrintlnf(x *FuncSpec, format string, args ...interface{}) *FuncSpec {
	x.CodeBlock.Printlnf(format, args...)
	return x
}

//verif:P18 Printlnf
func specNewPrintlnf(format string, args ...interface{}) *CodeBlock {
	var cb CodeBlock
	cb.Printlnf(format, args...)
	return &cb
}

//verif:P18,P30 (*FuncSpec).RenderCode
func specBFuncSpecRenderCode(x *FuncSpec, t *template.Template, data interface{}) *FuncSpec {
	x.CodeBlock.RenderCode(t, data)
	return x
}

//verif:P18 RenderCode
func specNewRenderCode(t *template.Template, data interface{}) *CodeBlock {
	var cb CodeBlock
	cb.RenderCode(t, data)
	return &cb
}

//verif:P18,P30 (*FuncSpec).AddCode
func specBFuncSpecAddCode(x *FuncSpec, cb *CodeBlock) *FuncSpec {
	x.CodeBlock.AddCode(cb)
	return x
}

// Code is what its pieces are: a block that is added contributes the pieces it
// has at that time.

//verif:P30 NewConst
func specBNewConst(names ...string) *ConstSpec { return &ConstSpec{Names: names} }

//verif:P30 NewVar
func specBNewVar(names ...string) *VarSpec { return &VarSpec{Names: names} }

//verif:P30 NewConstDecl
func specBNewConstDecl(cs ...*ConstSpec) *ConstDecl { return &ConstDecl{Consts: cs} }

//verif:P30 NewVarDecl
func specBNewVarDecl(vs ...*VarSpec) *VarDecl { return &VarDecl{Vars: vs} }

//verif:P30 NewTypeDecl
func specBNewTypeDecl(ts ...*TypeSpec) *TypeDecl { return &TypeDecl{Types: ts} }

//verif:P30 NewField
func specBNewField(name string, t TypeNameOrSpec) *FieldSpec { return &FieldSpec{Name: name, Type: t} }

//verif:P30 NewInterfaceEmbed
func specBNewInterfaceEmbed(s Symbol) *InterfaceEmbed { return &InterfaceEmbed{Type: s} }

//verif:P30 NewInterfaceMethod
func specBNewInterfaceMethod(name string) *InterfaceMethod { return &InterfaceMethod{Name: name} }

//verif:P30 NewFunc
func specBNewFunc(name string) *FuncSpec { return &FuncSpec{Name: name} }

//verif:P30 NewMethod
func specBNewMethod(r *ReceiverSpec, name string) *FuncSpec { return &FuncSpec{Name: name, Receiver: r} }

//verif:P30 NewPackage
func specBNewPackage(importPath string) Package { return Package{ImportPath: importPath, Name: path.Base(importPath)} }

//verif:P30 NewSymbol
func specBNewSymbol(importPath, name string) Symbol { return Symbol{Package: Package{ImportPath: importPath, Name: path.Base(importPath)}, Name: name} }

//verif:P30 Package.Symbol
func specPackageSymbol(p Package, name string) Symbol { return Symbol{Package: p, Name: name} }

//verif:P30,P11 NewGoFile
func specNewGoFile(name, pkgPath, pkgName string) *GoFile {
	if filepath.Base(name) != name || filepath.Ext(name) != ".go" {
		panic("not the name of a Go file")
	}
	f := &GoFile{Name: name, PackageName: pkgName}
	f.Imports = *NewImportsFor(pkgPath)
	return f
}

//verif:P28,P27 (*GoFile).Package
func specFilePackage(f *GoFile) Package {
	return Package{ImportPath: f.Imports.pkgPath, Name: f.PackageName}
}

//verif:P28 (*GoFile).AddElement
func specAddElement(f *GoFile, e FileElement) *GoFile {
	switch e := e.(type) {
	case nil:
		var none map[int]int
		none[0] = 0 // may crash
	case *ConstDecl:
		for _, c := range e.Consts {
			c.parent = f
		}
	case *VarDecl:
		for _, v := range e.Vars {
			v.parent = f
		}
	case *TypeDecl:
		for _, t := range e.Types {
			t.parent = f
		}
	case *FuncSpec:
		e.parent = f
	}
	f.elements = append(f.elements, e)
	return f
}

//verif:P28 (*GoFile).AddConst
func specAddConst(f *GoFile, c *ConstSpec) *GoFile {
	return f.AddElement(NewConstDecl(c))
}

//verif:P28 (*GoFile).AddVar
func specAddVar(f *GoFile, v *VarSpec) *GoFile {
	return f.AddElement(NewVarDecl(v))
}

//verif:P28 (*GoFile).AddType
func specAddType(f *GoFile, t *TypeSpec) *GoFile {
	return f.AddElement(NewTypeDecl(t))
}

// The elements are those that were added, in that order.
//
//verif:P28 useElements open
func useElements(f *GoFile, e1, e2 FileElement, i int) (int, FileElement, FileElement, FileElement) {
	n := f.NumElements()
	f.AddElement(e1).AddElement(e2)
	return f.NumElements() - n, f.ElementAt(n), f.ElementAt(n + 1), f.ElementAt(i)
}

func specElements(f *GoFile, e1, e2 FileElement, i int) (int, FileElement, FileElement, FileElement) {
	old := f.elements
	f.AddElement(e1).AddElement(e2)
	if i < len(old) {
		return 2, e1, e2, old[i]
	}
	return 2, e1, e2, f.elements[i]
}
