package gopoet

import (
	"bytes"
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"text/template"
)

func specPackageName(i *Imports, p Package) string {
	if p.Name == "" && p.ImportPath == "" {
		return ""
	}
	return strings.TrimSuffix(i.RegisterImport(p.ImportPath, p.Name), ".")
}

// what a format argument is replaced with
func specArg(i *Imports, arg interface{}) interface{} {
	switch a := arg.(type) {
	case Package:
		if n := specPackageName(i, a); n != a.Name {
			return Package{Name: n, ImportPath: a.ImportPath}
		}
	case *Package:
		if n := specPackageName(i, *a); n != a.Name {
			return Package{Name: n, ImportPath: a.ImportPath}
		}
	case Symbol:
		return i.EnsureImported(a)
	case *Symbol:
		return i.EnsureImported(*a)
	case MethodReference:
		if t := i.EnsureImported(a.Type); t != a.Type {
			return &MethodReference{Type: t, Method: a.Method}
		}
	case *MethodReference:
		if t := i.EnsureImported(a.Type); t != a.Type {
			return &MethodReference{Type: t, Method: a.Method}
		}
	case Signature:
		return i.EnsureAllTypesImported(&a)
	case *Signature:
		return i.EnsureAllTypesImported(a)
	case TypeName:
		return i.EnsureTypeImported(a)
	case *ConstSpec:
		return i.EnsureImported(a.ToSymbol())
	case *VarSpec:
		return i.EnsureImported(a.ToSymbol())
	case *TypeSpec:
		return i.EnsureImported(a.ToSymbol())
	case *FuncSpec:
		if a.Receiver == nil {
			return i.EnsureImported(a.ToSymbol().(Symbol))
		}
	case reflect.Type:
		return i.EnsureTypeImported(TypeNameForReflectType(a))
	case types.Type:
		return i.EnsureTypeImported(TypeNameForGoType(a))
	case types.Object:
		switch s := SymbolForGoObject(a).(type) {
		case Symbol:
			return i.EnsureImported(s)
		case MethodReference:
			return &MethodReference{Type: i.EnsureImported(s.Type), Method: s.Method}
		}
	case *types.Package:
		return specPackageName(i, PackageForGoType(a))
	}
	return arg
}

// The code block of a file is rendered from its elements with the references
// qualified for that file.
func usePrintf(i *Imports, b *bytes.Buffer, format string, args []interface{}) {
	cb := Printf(format, args...)
	cb.qualify(i)
	cb.writeTo(b)
}

//verif:P07,P18,P31 usePrintf open:(*CodeBlock).qualify,(*CodeBlock).writeTo
func specPrintf(i *Imports, b *bytes.Buffer, format string, args []interface{}) {
	var qualified []interface{}
	for _, a := range args {
		qualified = append(qualified, specArg(i, a))
	}
	fmt.Fprintf(b, format, qualified...)
}

func usePrint(i *Imports, b *bytes.Buffer, text string) {
	cb := Print(text)
	cb.qualify(i)
	cb.writeTo(b)
}

//verif:P18 usePrint open:(*CodeBlock).qualify,(*CodeBlock).writeTo
func specPrint(i *Imports, b *bytes.Buffer, text string) {
	b.WriteString(text)
}

func usePrintln(i *Imports, b *bytes.Buffer, text string) {
	cb := Println(text)
	cb.qualify(i)
	cb.writeTo(b)
}

//verif:P18 usePrintln open:(*CodeBlock).qualify,(*CodeBlock).writeTo
func specPrintln(i *Imports, b *bytes.Buffer, text string) {
	b.WriteString(text + "\n")
}

func usePrintlnf(i *Imports, b *bytes.Buffer, format string, args []interface{}) {
	cb := Printlnf(format, args...)
	cb.qualify(i)
	cb.writeTo(b)
}

//verif:P07,P18,P31 usePrintlnf open:(*CodeBlock).qualify,(*CodeBlock).writeTo
func specPrintlnf(i *Imports, b *bytes.Buffer, format string, args []interface{}) {
	var qualified []interface{}
	for _, a := range args {
		qualified = append(qualified, specArg(i, a))
	}
	fmt.Fprintf(b, format+"\n", qualified...)
}

func usePrintlnfPlain(i *Imports, b *bytes.Buffer, format string, x interface{}) {
	cb := Printlnf(format).Printlnf("%v", x)
	cb.qualify(i)
	cb.writeTo(b)
}

//verif:P18 usePrintlnfPlain open:(*CodeBlock).qualify,(*CodeBlock).writeTo
func specPrintlnfPlain(i *Imports, b *bytes.Buffer, format string, x interface{}) {
	fmt.Fprintf(b, format+"\n")
	fmt.Fprintf(b, "%v\n", specArg(i, x))
}

func useRenderCode(i *Imports, b *bytes.Buffer, t *template.Template, data interface{}) {
	cb := RenderCode(t, data)
	cb.qualify(i)
	cb.writeTo(b)
}

//verif:P18,P08 useRenderCode open:(*CodeBlock).qualify,(*CodeBlock).writeTo
func specRenderCode(i *Imports, b *bytes.Buffer, t *template.Template, data interface{}) {
	if err := t.Execute(b, i.QualifyTemplateData(data)); err != nil {
		panic(err.Error())
	}
}

// code is added after what is there, and may be rendered more than once
func useRenderAfter(i, j *Imports, b *bytes.Buffer, a1 string, x interface{}, t *template.Template, data interface{}) {
	cb := Printf("%s", x)
	cb.qualify(i)
	cb.Println(a1).RenderCode(t, data).Printf("%v", x)
	cb.qualify(j)
	cb.writeTo(b)
}

//verif:P18,P08,P31 useRenderAfter open:(*CodeBlock).qualify,(*CodeBlock).writeTo
func specRenderAfter(i, j *Imports, b *bytes.Buffer, a1 string, x interface{}, t *template.Template, data interface{}) {
	specArg(i, x)
	y := specArg(j, x)
	d := j.QualifyTemplateData(data)
	z := specArg(j, x)
	fmt.Fprintf(b, "%s", y)
	b.WriteString(a1 + "\n")
	if err := t.Execute(b, d); err != nil {
		panic(err.Error())
	}
	fmt.Fprintf(b, "%v", z)
}

func useRenderAgain(i, j *Imports, b *bytes.Buffer, x interface{}, t *template.Template, data interface{}) {
	cb := Printf("%s", x).RenderCode(t, data)
	cb.qualify(i)
	cb.writeTo(b)
	cb.qualify(j)
	cb.writeTo(b)
}

//verif:P18,P08,P31 useRenderAgain open:(*CodeBlock).qualify,(*CodeBlock).writeTo
func specRenderAgain(i, j *Imports, b *bytes.Buffer, x interface{}, t *template.Template, data interface{}) {
	render := func(imports *Imports) {
		y := specArg(imports, x)
		d := imports.QualifyTemplateData(data)
		fmt.Fprintf(b, "%s", y)
		if err := t.Execute(b, d); err != nil {
			panic(err.Error())
		}
	}
	render(i)
	render(j)
}

func useSequence(i *Imports, b *bytes.Buffer, a1, a2, a3, a4 string, x interface{}) {
	cb := Print(a1)
	other := Println(a2)
	cb.AddCode(other).Printf(a3, x).Println(a4)
	other.Print(a1)
	cb.qualify(i)
	cb.writeTo(b)
}

//verif:P18 useSequence open:(*CodeBlock).qualify,(*CodeBlock).writeTo
func specSequence(i *Imports, b *bytes.Buffer, a1, a2, a3, a4 string, x interface{}) {
	b.WriteString(a1)
	b.WriteString(a2)
	b.WriteString("\n")
	fmt.Fprintf(b, a3, specArg(i, x))
	b.WriteString(a4)
	b.WriteString("\n")
}
