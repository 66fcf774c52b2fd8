package gopoet

// A type is a value of its own: whatever happens afterwards to what it was made
// of, or to what an accessor returned, it still reports what it was made of.

func useStructKept(fs []FieldType, f FieldType) []FieldType {
	t := StructType(fs...)
	if len(fs) > 0 {
		fs[0] = f
	}
	return t.Fields()
}

//verif:P25 useStructKept open
func specStructKept(fs []FieldType, f FieldType) []FieldType {
	own := append([]FieldType(nil), fs...)
	if len(fs) > 0 {
		fs[0] = f
	}
	return own
}

func useStructAgain(fs []FieldType, f FieldType) []FieldType {
	t := StructType(fs...)
	r := t.Fields()
	if len(r) > 0 {
		r[0] = f
	}
	return t.Fields()
}

//verif:P25 useStructAgain open
func specStructAgain(fs []FieldType, f FieldType) []FieldType {
	return append([]FieldType(nil), fs...)
}

func useEmbedsKept(es []Symbol, ms []MethodType, e Symbol) []Symbol {
	t := InterfaceType(es, ms...)
	if len(es) > 0 {
		es[0] = e
	}
	return t.Embeds()
}

//verif:P25 useEmbedsKept open
func specEmbedsKept(es []Symbol, ms []MethodType, e Symbol) []Symbol {
	own := append([]Symbol(nil), es...)
	if len(es) > 0 {
		es[0] = e
	}
	return own
}

func useEmbedsAgain(es []Symbol, ms []MethodType, e Symbol) []Symbol {
	t := InterfaceType(es, ms...)
	r := t.Embeds()
	if len(r) > 0 {
		r[0] = e
	}
	return t.Embeds()
}

//verif:P25 useEmbedsAgain open
func specEmbedsAgain(es []Symbol, ms []MethodType, e Symbol) []Symbol {
	return append([]Symbol(nil), es...)
}

func useMethodsKept(es []Symbol, m MethodType, n MethodType) string {
	ms := []MethodType{m}
	t := InterfaceType(es, ms...)
	ms[0] = n
	return t.Methods()[0].Name
}

//verif:P25 useMethodsKept open
func specMethodsKept(es []Symbol, m MethodType, n MethodType) string {
	return m.Name
}

func useMethodsAgain(es []Symbol, m MethodType, n MethodType) string {
	t := InterfaceType(es, m)
	t.Methods()[0] = n
	return t.Methods()[0].Name
}

//verif:P25 useMethodsAgain open
func specMethodsAgain(es []Symbol, m MethodType, n MethodType) string {
	return m.Name
}

func useMethodArgsKept(es []Symbol, name string, a, b ArgType) (TypeName, TypeName) {
	args, results := []ArgType{a}, []ArgType{a}
	t := InterfaceType(es, MethodType{Name: name, Signature: Signature{Args: args, Results: results}})
	args[0], results[0] = b, b
	s := t.Methods()[0].Signature
	return s.Args[0].Type, s.Results[0].Type
}

//verif:P25 useMethodArgsKept open
func specMethodArgsKept(es []Symbol, name string, a, b ArgType) (TypeName, TypeName) {
	return a.Type, a.Type
}

func useMethodArgsAgain(es []Symbol, name string, a, b ArgType) (TypeName, TypeName) {
	t := InterfaceType(es, MethodType{Name: name, Signature: Signature{Args: []ArgType{a}, Results: []ArgType{a}}})
	m := t.Methods()
	m[0].Signature.Args[0], m[0].Signature.Results[0] = b, b
	s := t.Methods()[0].Signature
	return s.Args[0].Type, s.Results[0].Type
}

//verif:P25 useMethodArgsAgain open
func specMethodArgsAgain(es []Symbol, name string, a, b ArgType) (TypeName, TypeName) {
	return a.Type, a.Type
}

func useFuncKept(a, b ArgType) (TypeName, TypeName, bool) {
	sig := &Signature{Args: []ArgType{a}, Results: []ArgType{a}}
	args, results := sig.Args, sig.Results
	t := FuncTypeFromSig(sig)
	args[0], results[0] = b, b
	sig.IsVariadic = true
	sig.Args, sig.Results = nil, nil
	s := t.Signature()
	return s.Args[0].Type, s.Results[0].Type, s.IsVariadic
}

//verif:P25 useFuncKept open
func specFuncKept(a, b ArgType) (TypeName, TypeName, bool) {
	if a.Type == nil {
		panic("argument type required")
	}
	return a.Type, a.Type, false
}

func useFuncAgain(a, b ArgType) (TypeName, TypeName, bool) {
	t := FuncTypeFromSig(&Signature{Args: []ArgType{a}, Results: []ArgType{a}})
	r := t.Signature()
	r.Args[0], r.Results[0] = b, b
	r.IsVariadic = true
	r.Args, r.Results = nil, nil
	s := t.Signature()
	return s.Args[0].Type, s.Results[0].Type, s.IsVariadic
}

//verif:P25 useFuncAgain open
func specFuncAgain(a, b ArgType) (TypeName, TypeName, bool) {
	if a.Type == nil {
		panic("argument type required")
	}
	return a.Type, a.Type, false
}

func useFuncTypeKept(a, b ArgType) (TypeName, TypeName) {
	args, results := []ArgType{a}, []ArgType{a}
	t := FuncType(args, results)
	args[0], results[0] = b, b
	s := t.Signature()
	return s.Args[0].Type, s.Results[0].Type
}

//verif:P25 useFuncTypeKept open
func specFuncTypeKept(a, b ArgType) (TypeName, TypeName) {
	if a.Type == nil {
		panic("argument type required")
	}
	return a.Type, a.Type
}
