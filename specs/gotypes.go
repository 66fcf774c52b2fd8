package gopoet

import (
	"go/types"
	"reflect"
)

// The conversion follows the structure of the given type.
//
//verif:P22 TypeNameForGoType open:StructType,InterfaceType,PointerType,SliceType,ArrayType,MapType,ChannelType,NamedType,FuncTypeFromSig
func specTypeNameForGoType(t types.Type) TypeName {
	if n, ok := t.(*types.Named); ok {
		return NamedType(specSymbolOfName(n.Obj()))
	}
	if b, ok := t.(*types.Basic); ok {
		return specBasicOf(b.Kind())
	}
	if p, ok := t.(*types.Pointer); ok {
		return PointerType(TypeNameForGoType(p.Elem()))
	}
	if s, ok := t.(*types.Slice); ok {
		return SliceType(TypeNameForGoType(s.Elem()))
	}
	if a, ok := t.(*types.Array); ok {
		return ArrayType(TypeNameForGoType(a.Elem()), a.Len())
	}
	if m, ok := t.(*types.Map); ok {
		return MapType(TypeNameForGoType(m.Key()), TypeNameForGoType(m.Elem()))
	}
	if c, ok := t.(*types.Chan); ok {
		if c.Dir() == types.SendRecv {
			return ChannelType(TypeNameForGoType(c.Elem()), reflect.BothDir)
		}
		if c.Dir() == types.SendOnly {
			return ChannelType(TypeNameForGoType(c.Elem()), reflect.SendDir)
		}
		if c.Dir() == types.RecvOnly {
			return ChannelType(TypeNameForGoType(c.Elem()), reflect.RecvDir)
		}
		panic("invalid direction")
	}
	if s, ok := t.(*types.Signature); ok {
		sig := specSignatureOf(s)
		return FuncTypeFromSig(&sig)
	}
	if s, ok := t.(*types.Struct); ok {
		var fields []FieldType
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			ft := FieldType{Type: TypeNameForGoType(f.Type()), Tag: reflect.StructTag(s.Tag(i))}
			if !f.Anonymous() {
				ft.Name = f.Name()
			}
			fields = append(fields, ft)
		}
		return StructType(fields...)
	}
	if x, ok := t.(*types.Interface); ok {
		var embeds []Symbol
		for i := 0; i < x.NumEmbeddeds(); i++ {
			embeds = append(embeds, specSymbolOfName(x.Embedded(i).Obj()))
		}
		var methods []MethodType
		for i := 0; i < x.NumExplicitMethods(); i++ {
			m := x.ExplicitMethod(i)
			methods = append(methods, MethodType{Name: m.Name(), Signature: specSignatureOf(m.Type().(*types.Signature))})
		}
		return InterfaceType(embeds, methods...)
	}
	panic("no counterpart")
}

func specSymbolOfName(n *types.TypeName) Symbol {
	return Symbol{Name: n.Name(), Package: PackageForGoType(n.Pkg())}
}

func specBasicOf(k types.BasicKind) TypeName {
	switch k {
	case types.Bool:
		return BasicType(reflect.Bool)
	case types.String:
		return BasicType(reflect.String)
	case types.Int:
		return BasicType(reflect.Int)
	case types.Int8:
		return BasicType(reflect.Int8)
	case types.Int16:
		return BasicType(reflect.Int16)
	case types.Int32:
		return BasicType(reflect.Int32)
	case types.Int64:
		return BasicType(reflect.Int64)
	case types.Uint:
		return BasicType(reflect.Uint)
	case types.Uint8:
		return BasicType(reflect.Uint8)
	case types.Uint16:
		return BasicType(reflect.Uint16)
	case types.Uint32:
		return BasicType(reflect.Uint32)
	case types.Uint64:
		return BasicType(reflect.Uint64)
	case types.Uintptr:
		return BasicType(reflect.Uintptr)
	case types.Float32:
		return BasicType(reflect.Float32)
	case types.Float64:
		return BasicType(reflect.Float64)
	case types.Complex64:
		return BasicType(reflect.Complex64)
	case types.Complex128:
		return BasicType(reflect.Complex128)
	case types.UnsafePointer:
		return UnsafePointerType
	}
	panic("no counterpart")
}

// the receiver of a method that is not one of an interface is the first
// argument
func specSignatureOf(s *types.Signature) Signature {
	var args, results []ArgType
	if r := s.Recv(); r != nil {
		if _, isIface := r.Type().Underlying().(*types.Interface); !isIface {
			args = append(args, ArgType{Name: r.Name(), Type: TypeNameForGoType(r.Type())})
		}
	}
	for i := 0; i < s.Params().Len(); i++ {
		args = append(args, ArgType{Name: s.Params().At(i).Name(), Type: TypeNameForGoType(s.Params().At(i).Type())})
	}
	for i := 0; i < s.Results().Len(); i++ {
		results = append(results, ArgType{Name: s.Results().At(i).Name(), Type: TypeNameForGoType(s.Results().At(i).Type())})
	}
	return Signature{Args: args, Results: results, IsVariadic: s.Variadic()}
}

//verif:P34,P22 PackageForGoType
func specPackageForGoType(pkg *types.Package) Package {
	if pkg == nil {
		return Package{}
	}
	return Package{ImportPath: pkg.Path(), Name: pkg.Name()}
}

//verif:P34 SymbolForGoObject
func specSymbolForGoObject(obj types.Object) SymbolOrMethodRef {
	if fn, ok := obj.(*types.Func); ok {
		if recv := fn.Type().(*types.Signature).Recv(); recv != nil {
			t := TypeNameForGoType(recv.Type())
			if t.Kind() == KindPtr {
				t = t.Elem()
			}
			return MethodReference{Type: t.Symbol(), Method: obj.Name()}
		}
	}
	return Symbol{Name: obj.Name(), Package: PackageForGoType(obj.Pkg())}
}
