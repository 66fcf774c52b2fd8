package gopoet

import (
	"fmt"
	"reflect"
	"strconv"
)

func useBasicString(k reflect.Kind) string { return BasicType(k).String() }

//verif:P12 useBasicString open
func specBasicString(k reflect.Kind) string {
	switch k {
	case reflect.UnsafePointer:
		return "unsafe.Pointer"
	case reflect.Uint8:
		return "byte"
	case reflect.Int32:
		return "rune"
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int64,
		reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.String:
		return k.String()
	}
	panic("not a basic kind")
}

func useNamedString(s Symbol) string { return NamedType(s).String() }

//verif:P12 useNamedString open
func specNamedString(s Symbol) string {
	if s.Package.Name == "" {
		return s.Name
	}
	return s.Package.Name + "." + s.Name
}

func usePointerString(e TypeName) string { return PointerType(e).String() }

//verif:P12 usePointerString open
func specPointerString(e TypeName) string {
	if e == nil {
		panic("nil")
	}
	return "*" + e.String()
}

func useSliceString(e TypeName) string { return SliceType(e).String() }

//verif:P12 useSliceString open
func specSliceString(e TypeName) string {
	if e == nil {
		panic("nil")
	}
	return "[]" + e.String()
}

func useArrayString(e TypeName, n int64) string { return ArrayType(e, n).String() }

//verif:P12 useArrayString open
func specArrayString(e TypeName, n int64) string {
	if e == nil || n < 0 {
		panic("nil")
	}
	return fmt.Sprintf("[%d]", n) + e.String()
}

func useMapString(k, e TypeName) string { return MapType(k, e).String() }

//verif:P12 useMapString open
func specMapString(k, e TypeName) string {
	if k == nil || e == nil {
		panic("nil")
	}
	return "map[" + k.String() + "]" + e.String()
}

func useChanString(e TypeName, d reflect.ChanDir) string { return ChannelType(e, d).String() }

//verif:P12 useChanString open
func specChanString(e TypeName, d reflect.ChanDir) string {
	if e == nil || d&^reflect.BothDir != 0 {
		panic("nil")
	}
	switch d {
	case reflect.RecvDir:
		return "<-chan " + e.String()
	case reflect.SendDir:
		return "chan<- " + e.String()
	}
	if e.Kind() == KindChan && e.Dir() == reflect.RecvDir {
		return "chan (" + e.String() + ")"
	}
	return "chan " + e.String()
}

func specAnyNamed(as []ArgType) bool {
	for _, a := range as {
		if a.Name != "" {
			return true
		}
	}
	return false
}

func specParams(as []ArgType, variadic bool) string {
	named := specAnyNamed(as)
	text := ""
	for i, a := range as {
		if i > 0 {
			text += ", "
		}
		if named {
			if a.Name == "" {
				text += "_ "
			} else {
				text += a.Name + " "
			}
		}
		if variadic && i == len(as)-1 {
			text += "..." + a.Type.Elem().String()
		} else {
			text += a.Type.String()
		}
	}
	return text
}

func specSignatureText(s *Signature) string {
	text := "(" + specParams(s.Args, s.IsVariadic) + ")"
	switch {
	case len(s.Results) == 0:
	case len(s.Results) == 1 && s.Results[0].Name == "":
		text += " " + s.Results[0].Type.String()
	default:
		text += " (" + specParams(s.Results, false) + ")"
	}
	return text
}

func useFuncString(s *Signature) string { return FuncTypeFromSig(s).String() }

//verif:P12,P13 useFuncString open
func specFuncString(s *Signature) string {
	for _, a := range s.Args {
		if a.Type == nil {
			panic("nil")
		}
	}
	for _, a := range s.Results {
		if a.Type == nil {
			panic("nil")
		}
	}
	if s.IsVariadic && (len(s.Args) == 0 || s.Args[len(s.Args)-1].Type.Kind() != KindSlice) {
		panic("variadic")
	}
	return "func" + specSignatureText(s)
}

func specTag(tag reflect.StructTag) string {
	if tag == "" {
		return ""
	}
	if strconv.CanBackquote(string(tag)) {
		return " `" + string(tag) + "`"
	}
	return " " + strconv.Quote(string(tag))
}

func useStructString(fs []FieldType) string { return StructType(fs...).String() }

//verif:P12,P17 useStructString open
func specStructString(fs []FieldType) string {
	text := "struct{"
	for i, f := range fs {
		if i > 0 {
			text += "; "
		}
		if f.Name != "" {
			text += f.Name + " "
		}
		text += f.Type.String() + specTag(f.Tag)
	}
	return text + "}"
}

func useInterfaceString(es []Symbol, ms []MethodType) string { return InterfaceType(es, ms...).String() }

//verif:P12,P13 useInterfaceString open
func specInterfaceString(es []Symbol, ms []MethodType) string {
	text := "interface{"
	for i, e := range es {
		if i > 0 {
			text += "; "
		}
		text += e.String()
	}
	for i, m := range ms {
		if i > 0 || len(es) > 0 {
			text += "; "
		}
		text += m.Name + specSignatureText(&m.Signature)
	}
	return text + "}"
}
