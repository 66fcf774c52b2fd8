package gopoet

import "reflect"

//verif:P23 TypeNameForReflectType open:StructType,InterfaceType,PointerType,SliceType,ArrayType,MapType,ChannelType,NamedType,FuncTypeFromSig
func specTypeNameForReflectType(t reflect.Type) TypeName {
	if specIsBasic(t.Kind()) && t.PkgPath() == "" {
		return BasicType(t.Kind())
	}
	if t.Name() != "" {
		return NamedType(Symbol{Name: t.Name(), Package: Package{ImportPath: t.PkgPath()}})
	}
	switch t.Kind() {
	case reflect.Struct:
		var fields []FieldType
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			ft := FieldType{Name: f.Name, Type: TypeNameForReflectType(f.Type), Tag: f.Tag}
			if f.Anonymous {
				ft.Name = ""
			}
			fields = append(fields, ft)
		}
		return StructType(fields...)
	case reflect.Interface:
		var methods []MethodType
		for i := 0; i < t.NumMethod(); i++ {
			methods = append(methods, MethodType{Name: t.Method(i).Name, Signature: specReflectSignature(t.Method(i).Type)})
		}
		return InterfaceType(nil, methods...)
	case reflect.Func:
		sig := specReflectSignature(t)
		return FuncTypeFromSig(&sig)
	case reflect.Chan:
		return ChannelType(TypeNameForReflectType(t.Elem()), t.ChanDir())
	case reflect.Map:
		k := TypeNameForReflectType(t.Key())
		return MapType(k, TypeNameForReflectType(t.Elem()))
	case reflect.Array:
		return ArrayType(TypeNameForReflectType(t.Elem()), int64(t.Len()))
	case reflect.Slice:
		return SliceType(TypeNameForReflectType(t.Elem()))
	case reflect.Ptr:
		return PointerType(TypeNameForReflectType(t.Elem()))
	}
	panic("no counterpart")
}

func specReflectSignature(t reflect.Type) Signature {
	s := Signature{IsVariadic: t.IsVariadic()}
	for i := 0; i < t.NumIn(); i++ {
		s.Args = append(s.Args, ArgType{Type: TypeNameForReflectType(t.In(i))})
	}
	for i := 0; i < t.NumOut(); i++ {
		s.Results = append(s.Results, ArgType{Type: TypeNameForReflectType(t.Out(i))})
	}
	return s
}
