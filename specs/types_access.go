package gopoet

import "reflect"

// what a type reports about itself
func allOf(t TypeName) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return t.Kind(), t.Symbol(), t.Elem(), t.Key(), t.Len(), t.Dir(), t.BasicKind(), t.Signature(), t.Fields(), t.Methods(), t.Embeds()
}

func useNamed(s Symbol) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(NamedType(s))
}

//verif:P24 useNamed open
func specNamed(s Symbol) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return KindNamed, s, nil, nil, -1, 0, reflect.Invalid, nil, nil, nil, nil
}

func usePointer(e TypeName) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(PointerType(e))
}

//verif:P24,P26 usePointer open
func specPointer(e TypeName) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	if e == nil {
		panic("element type required")
	}
	return KindPtr, Symbol{}, e, nil, -1, 0, reflect.Invalid, nil, nil, nil, nil
}

func useSlice(e TypeName) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(SliceType(e))
}

//verif:P24,P26 useSlice open
func specSlice(e TypeName) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	if e == nil {
		panic("element type required")
	}
	return KindSlice, Symbol{}, e, nil, -1, 0, reflect.Invalid, nil, nil, nil, nil
}

func useArray(e TypeName, n int64) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(ArrayType(e, n))
}

//verif:P24,P26 useArray open
func specArray(e TypeName, n int64) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	if e == nil || n < 0 {
		panic("element type and length required")
	}
	return KindArray, Symbol{}, e, nil, n, 0, reflect.Invalid, nil, nil, nil, nil
}

func useMap(k, e TypeName) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(MapType(k, e))
}

//verif:P24,P26 useMap open
func specMap(k, e TypeName) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	if k == nil || e == nil {
		panic("key and element type required")
	}
	return KindMap, Symbol{}, e, k, -1, 0, reflect.Invalid, nil, nil, nil, nil
}

func useChan(e TypeName, d reflect.ChanDir) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(ChannelType(e, d))
}

//verif:P24,P26 useChan open
func specChan(e TypeName, d reflect.ChanDir) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	if d == 0 {
		d = reflect.BothDir
	}
	if e == nil || d&^reflect.BothDir != 0 {
		panic("element type and direction required")
	}
	return KindChan, Symbol{}, e, nil, -1, d, reflect.Invalid, nil, nil, nil, nil
}

func specOwnSignature(s *Signature) *Signature {
	var args, results []ArgType
	for _, a := range s.Args {
		args = append(args, a)
	}
	for _, r := range s.Results {
		results = append(results, r)
	}
	return &Signature{Args: args, Results: results, IsVariadic: s.IsVariadic}
}

func specValidSignature(s *Signature) bool {
	for _, a := range s.Args {
		if a.Type == nil {
			return false
		}
	}
	for _, a := range s.Results {
		if a.Type == nil {
			return false
		}
	}
	if s.IsVariadic {
		return len(s.Args) > 0 && s.Args[len(s.Args)-1].Type.Kind() == KindSlice
	}
	return true
}

func useFunc(s *Signature) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(FuncTypeFromSig(s))
}

//verif:P24,P25,P26 useFunc open
func specFunc(s *Signature) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	if !specValidSignature(s) {
		panic("invalid signature")
	}
	return KindFunc, Symbol{}, nil, nil, -1, 0, reflect.Invalid, specOwnSignature(s), nil, nil, nil
}

func useStruct(fs []FieldType) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(StructType(fs...))
}

//verif:P24,P25 useStruct open
func specStruct(fs []FieldType) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	var own []FieldType
	for _, f := range fs {
		own = append(own, f)
	}
	return KindStruct, Symbol{}, nil, nil, -1, 0, reflect.Invalid, nil, own, nil, nil
}

func useInterface(es []Symbol, ms []MethodType) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(InterfaceType(es, ms...))
}

//verif:P24,P25 useInterface open
func specInterface(es []Symbol, ms []MethodType) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	var embeds []Symbol
	for _, e := range es {
		embeds = append(embeds, e)
	}
	var methods []MethodType
	for _, m := range ms {
		methods = append(methods, MethodType{Name: m.Name, Signature: *specOwnSignature(&m.Signature)})
	}
	return KindInterface, Symbol{}, nil, nil, -1, 0, reflect.Invalid, nil, nil, methods, embeds
}

func useBasic(k reflect.Kind) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	return allOf(BasicType(k))
}

func specIsBasic(k reflect.Kind) bool {
	switch k {
	case reflect.Bool, reflect.String,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		return true
	}
	return false
}

//verif:P24,P26 useBasic open
func specBasic(k reflect.Kind) (TypeKind, Symbol, TypeName, TypeName, int64, reflect.ChanDir, reflect.Kind, *Signature, []FieldType, []MethodType, []Symbol) {
	if k == reflect.UnsafePointer {
		return KindNamed, Symbol{Name: "Pointer", Package: Package{Name: "unsafe", ImportPath: "unsafe"}}, nil, nil, -1, 0, reflect.Invalid, nil, nil, nil, nil
	}
	if !specIsBasic(k) {
		panic("not a basic kind")
	}
	return KindBasic, Symbol{}, nil, nil, -1, 0, k, nil, nil, nil, nil
}

//verif:P24,P26 FuncType
func specFuncType(args []ArgType, results []ArgType) TypeName {
	return FuncTypeFromSig(&Signature{Args: args, Results: results})
}

//verif:P24,P26 FuncTypeVariadic
func specFuncTypeVariadic(args []ArgType, results []ArgType) TypeName {
	return FuncTypeFromSig(&Signature{Args: args, Results: results, IsVariadic: true})
}

func usePredeclared() (a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t, u TypeName) {
	return IntType, Int8Type, Int16Type, Int32Type, Int64Type, RuneType, UintType, Uint8Type, Uint16Type, Uint32Type, Uint64Type, ByteType, UintptrType, BoolType, StringType, Float32Type, Float64Type, Complex64Type, Complex128Type, ErrorType, UnsafePointerType
}

//verif:P24 usePredeclared open
func specPredeclared() (a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r, s, t, u TypeName) {
	return BasicType(reflect.Int), BasicType(reflect.Int8), BasicType(reflect.Int16), BasicType(reflect.Int32), BasicType(reflect.Int64), BasicType(reflect.Int32),
		BasicType(reflect.Uint), BasicType(reflect.Uint8), BasicType(reflect.Uint16), BasicType(reflect.Uint32), BasicType(reflect.Uint64), BasicType(reflect.Uint8), BasicType(reflect.Uintptr),
		BasicType(reflect.Bool), BasicType(reflect.String), BasicType(reflect.Float32), BasicType(reflect.Float64), BasicType(reflect.Complex64), BasicType(reflect.Complex128),
		NamedType(Symbol{Name: "error"}), NamedType(Symbol{Name: "Pointer", Package: Package{ImportPath: "unsafe", Name: "unsafe"}})
}
