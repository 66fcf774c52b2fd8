# generates specs/template_data.go
out=['''package gopoet

import (
	"fmt"
	"go/types"
	"reflect"
)

// Template data: for data of any of these types, whatever the values in it, the
// result is data of the same type in which each reference is the qualified one,
// the references being qualified in the order in which they are found.
''']
DIR='reflect open:(*Imports).QualifyTemplateData'
def law(name, params, ret, use, spec, props='P08', only='', extra=''):
    if 'struct' in params+use and 'P33' not in props:
        props+=',P33'
    out.append('func useTempl%s(imp *Imports, %s) %s {\n\t%s\n}\n' % (name, params, ret, use.strip().replace('\n','\n\t')))
    o=DIR+(',' if False else '')+(' only:'+only if only else '')+extra
    out.append('//verif:%s useTempl%s %s\nfunc specTempl%s(imp *Imports, %s) %s {\n\t%s\n}\n' % (props, name, o, name, params, ret, spec.strip().replace('\n','\n\t')))
Q='return imp.QualifyTemplateData(%s)'
I='interface{}'
law('Symbol','s Symbol',I,Q%'s','return imp.EnsureImported(s)')
law('Package','p Package',I,Q%'p','return Package{Name: specPackageName(imp, p), ImportPath: p.ImportPath}')
law('Type','t TypeName',I,Q%'t','if t == nil {\n\treturn nil\n}\nreturn imp.EnsureTypeImported(t)')
law('ReflectType','t reflect.Type',I,Q%'t','if t == nil {\n\treturn nil\n}\nreturn imp.EnsureTypeImported(TypeNameForReflectType(t))')
for k in ['Named','Pointer','Slice','Signature','Basic','Map','Struct','Interface','Chan','Array']:
    law('Go'+k,'t *types.'+k,I,Q%'t','return imp.EnsureTypeImported(TypeNameForGoType(t))')
for k in ['TypeName','Var','Const','Func']:
    law('GoObj'+k,'o *types.'+k,I,Q%'o','''switch s := SymbolForGoObject(o).(type) {
case Symbol:
	return imp.EnsureImported(s)
case MethodReference:
	return &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}
}
return o''')
law('GoPackage','p *types.Package',I,Q%'p','q := PackageForGoType(p)\nreturn Package{Name: specPackageName(imp, q), ImportPath: q.ImportPath}')
law('MethodRef','r MethodReference',I,Q%'r','return MethodReference{Type: imp.EnsureImported(r.Type), Method: r.Method}')
law('Signature','s Signature','(Signature, Signature)','r := imp.QualifyTemplateData(s).(Signature)\nreturn r, s','return *imp.EnsureAllTypesImported(&s), s','P08,P09')
for k,f in [('ConstSpec','Names Type Initializer Comment'),('VarSpec','Names Type Initializer Comment')]:
    flds=f.split()
    law(k,'c '+k,'(Package, []string, TypeNameOrSpec, *CodeBlock, string)',
        'r := imp.QualifyTemplateData(c).(%s)\nif r.parent == nil {\n\treturn Package{}, r.Names, r.Type, r.Initializer, r.Comment\n}\nreturn r.parent.Package(), r.Names, r.Type, r.Initializer, r.Comment'%k,
        'if c.parent == nil {\n\treturn Package{}, c.Names, c.Type, c.Initializer, c.Comment\n}\nreturn Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.Names, c.Type, c.Initializer, c.Comment','P08,P09')
law('TypeSpec','c TypeSpec','(Package, string, string)','r := imp.QualifyTemplateData(c).(TypeSpec)\nif r.parent == nil {\n\treturn Package{}, r.Name, r.Comment\n}\nreturn r.parent.Package(), r.Name, r.Comment',
  'if c.parent == nil {\n\treturn Package{}, c.Name, c.Comment\n}\nreturn Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.Name, c.Comment')
law('FuncSpec','c FuncSpec','(Package, string, string)','r := imp.QualifyTemplateData(c).(FuncSpec)\nif r.parent == nil {\n\treturn Package{}, r.Name, r.Comment\n}\nreturn r.parent.Package(), r.Name, r.Comment',
  'if c.parent == nil {\n\treturn Package{}, c.Name, c.Comment\n}\nreturn Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.Name, c.Comment')
law('Embed','e InterfaceEmbed',I,Q%'e','e.Type = imp.EnsureImported(e.Type)\nreturn e')
law('IfaceMethod','m InterfaceMethod','(string, string, Signature)','r := imp.QualifyTemplateData(m).(InterfaceMethod)\nreturn r.Name, r.Comment, r.Signature','s := m.Signature\ns = *imp.EnsureAllTypesImported(&s)\nreturn m.Name, m.Comment, s')
# untouched
law('Int','n int',I,Q%'n','return n','P09')
law('String','s string',I,Q%'s','return s','P09')
law('Ints','l []int',I,Q%'[]int{l[0], l[1]}','return []int{l[0], l[1]}','P09')
law('Imports','o Imports',I,Q%'o','return o','P09')
law('Nil','n int',I,'return imp.QualifyTemplateData(nil)','return nil','P09')
# pointers
law('Ptr','p *Symbol','(Symbol, Symbol)','if p == nil {\n\treturn Symbol{}, Symbol{}\n}\nr := imp.QualifyTemplateData(p).(*Symbol)\nreturn *r, *p','if p == nil {\n\treturn Symbol{}, Symbol{}\n}\ns := *p\nreturn imp.EnsureImported(s), s','P08,P09')
law('PtrPtr','s Symbol','(Symbol, Symbol)','p := &s\nr := imp.QualifyTemplateData(&p).(**Symbol)\nreturn **r, *p','return imp.EnsureImported(s), s','P08,P09')
law('NilPtr','n int','interface{}','var p *Symbol\nreturn imp.QualifyTemplateData(p)','var p *Symbol\nreturn p','P09')
law('PtrKept','p *struct{ N int }',I,Q%'p','return p','P09')
law('PtrSpec','p *ConstSpec','Package','r := imp.QualifyTemplateData(p).(*ConstSpec)\nif r == nil || r.parent == nil {\n\treturn Package{}\n}\nreturn r.parent.Package()','if p == nil || p.parent == nil {\n\treturn Package{}\n}\nreturn Package{Name: specPackageName(imp, p.parent.Package()), ImportPath: p.parent.pkgPath}')
# slices, arrays
law('Slice','a, b, c Symbol','([]Symbol, []Symbol)','l := []Symbol{a, b, c}\nr := imp.QualifyTemplateData(l).([]Symbol)\nreturn r, l','l := []Symbol{a, b, c}\na = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nc = imp.EnsureImported(c)\nreturn []Symbol{a, b, c}, l','P08,P09')
law('SliceAny','a Symbol, n int, t TypeName','([]interface{}, []interface{})','l := []interface{}{n, nil, a, "x", t}\nr := imp.QualifyTemplateData(l).([]interface{})\nreturn r, l','l := []interface{}{n, nil, a, "x", t}\nr := []interface{}{n, nil, imp.EnsureImported(a), "x", t}\nif t != nil {\n\tr[4] = imp.EnsureTypeImported(t)\n}\nreturn r, l','P08,P09')
law('Array','a, b Symbol','([2]Symbol, [2]Symbol)','l := [2]Symbol{a, b}\nr := imp.QualifyTemplateData(l).([2]Symbol)\nreturn r, l','l := [2]Symbol{a, b}\na = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nreturn [2]Symbol{a, b}, l','P08,P09')
law('ArrayAny','a Symbol, n int','[3]interface{}','return imp.QualifyTemplateData([3]interface{}{n, a, "x"}).([3]interface{})','return [3]interface{}{n, imp.EnsureImported(a), "x"}','P08,P09')
law('EmptySlice','n int',I,Q%'[]Symbol{}','return []Symbol{}','P09')
law('NilSlice','n int','[]Symbol','var l []Symbol\nreturn imp.QualifyTemplateData(l).([]Symbol)','return nil','P09')
law('SliceOfSlices','a, b Symbol','[][]Symbol','return imp.QualifyTemplateData([][]Symbol{{a}, {b}}).([][]Symbol)','a = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nreturn [][]Symbol{{a}, {b}}','P08,P09')
# structs
ST='struct {\n\tA Symbol\n\tn int\n\tb Symbol\n\tT TypeName\n}'
law('Struct','d '+ST,I,Q%'d','d.A = imp.EnsureImported(d.A)\nd.b = imp.EnsureImported(d.b)\nif d.T != nil {\n\td.T = imp.EnsureTypeImported(d.T)\n}\nreturn d','P08,P09','default')
law('StructPure','d '+ST,I,Q%'d','d.A = imp.EnsureImported(d.A)\nif d.T != nil {\n\td.T = imp.EnsureTypeImported(d.T)\n}\nreturn d','P08,P09,P33','purego')
law('StructPtr','d struct {\n\tA Symbol\n\tn int\n\tB Symbol\n}',I,'p := &d\nr := imp.QualifyTemplateData(p).(*struct {\n\tA Symbol\n\tn int\n\tB Symbol\n})\nreturn [2]interface{}{*r, *p}','old := d\nd.A = imp.EnsureImported(d.A)\nd.B = imp.EnsureImported(d.B)\nreturn [2]interface{}{d, old}','P08,P09,P31')
law('StructNested','d struct {\n\tN string\n\tIn struct{ S Symbol; k int }\n\tAny interface{}\n}, s Symbol',I,'d.Any = s\nreturn imp.QualifyTemplateData(d)','d.In.S = imp.EnsureImported(d.In.S)\nd.Any = imp.EnsureImported(s)\nreturn d','P08,P09')
law('Unexported','d struct {\n\tin struct{ s Symbol }\n\tn int\n}',I,Q%'d','d.in.s = imp.EnsureImported(d.in.s)\nreturn d','P08,P09,P33','default')
law('UnexportedPure','d struct {\n\tin struct{ s Symbol }\n\tn int\n}',I,Q%'d','return d','P09,P33','purego')
law('UnexportedPtr','s Symbol','[2]Symbol','d := struct{ p *Symbol }{&s}\nr := imp.QualifyTemplateData(d).(struct{ p *Symbol })\nreturn [2]Symbol{*r.p, s}','old := s\ns = imp.EnsureImported(s)\nreturn [2]Symbol{s, old}','P08,P09,P31,P33','default')
law('UnexportedPtrPure','s Symbol','[2]Symbol','d := struct{ p *Symbol }{&s}\nr := imp.QualifyTemplateData(d).(struct{ p *Symbol })\nreturn [2]Symbol{*r.p, s}','return [2]Symbol{s, s}','P09,P31,P33','purego')
law('UnexportedAny','s Symbol',I,'d := struct{ x interface{} }{s}\nreturn imp.QualifyTemplateData(d)','s = imp.EnsureImported(s)\nreturn struct{ x interface{} }{s}','P08,P09,P33','default')
MIX='d struct {\n\tn int\n\ta Symbol\n\tB Symbol\n\tc [2]Symbol\n\t_ int\n\tÄ Symbol\n\tĸ Symbol\n\tD [1]struct{ e Symbol }\n}'
law('UnexportedMixed',MIX,I,Q%'d','d.a = imp.EnsureImported(d.a)\nd.B = imp.EnsureImported(d.B)\nd.c[0] = imp.EnsureImported(d.c[0])\nd.c[1] = imp.EnsureImported(d.c[1])\nd.Ä = imp.EnsureImported(d.Ä)\nd.ĸ = imp.EnsureImported(d.ĸ)\nd.D[0].e = imp.EnsureImported(d.D[0].e)\nreturn d','P08,P09,P33','default')
law('UnexportedMixedPure',MIX,I,Q%'d','d.B = imp.EnsureImported(d.B)\nd.Ä = imp.EnsureImported(d.Ä)\nreturn d','P08,P09,P33','purego')
law('UnexportedMap','s, u Symbol','[3]Symbol','d := struct {\n\tn int\n\tm map[string]Symbol\n}{1, map[string]Symbol{"a": s}}\nr := imp.QualifyTemplateData(d).(struct {\n\tn int\n\tm map[string]Symbol\n})\nreturn [3]Symbol{r.m["a"], d.m["a"]}','return [3]Symbol{imp.EnsureImported(s), s}','P08,P09,P31,P33','default')
law('UnexportedMapPure','s, u Symbol','[3]Symbol','d := struct {\n\tn int\n\tm map[string]Symbol\n}{1, map[string]Symbol{"a": s}}\nr := imp.QualifyTemplateData(d).(struct {\n\tn int\n\tm map[string]Symbol\n})\nreturn [3]Symbol{r.m["a"], d.m["a"]}','return [3]Symbol{s, s}','P08,P09,P31,P33','purego')
law('UnexportedSlice','s, u Symbol','[4]Symbol','d := struct {\n\tn int\n\tl []Symbol\n}{1, []Symbol{s, u}}\nr := imp.QualifyTemplateData(d).(struct {\n\tn int\n\tl []Symbol\n})\nreturn [4]Symbol{r.l[0], r.l[1], d.l[0], d.l[1]}','a := imp.EnsureImported(s)\nb := imp.EnsureImported(u)\nreturn [4]Symbol{a, b, s, u}','P08,P09,P31,P33','default')
law('UnexportedSlicePure','s, u Symbol','[4]Symbol','d := struct {\n\tn int\n\tl []Symbol\n}{1, []Symbol{s, u}}\nr := imp.QualifyTemplateData(d).(struct {\n\tn int\n\tl []Symbol\n})\nreturn [4]Symbol{r.l[0], r.l[1], d.l[0], d.l[1]}','return [4]Symbol{s, u, s, u}','P08,P09,P31,P33','purego')
law('UnexportedAnyPure','s Symbol',I,'d := struct{ x interface{} }{s}\nreturn imp.QualifyTemplateData(d)','return struct{ x interface{} }{s}','P08,P09,P33','purego')
law('UnexportedType','t TypeName',I,'d := struct {\n\tn string\n\tt TypeName\n}{"", t}\nreturn imp.QualifyTemplateData(d)','d := struct {\n\tn string\n\tt TypeName\n}{"", t}\nif d.t != nil {\n\td.t = imp.EnsureTypeImported(d.t)\n}\nreturn d','P08,P09,P33','default')
law('UnexportedPackage','p Package',I,'d := struct {\n\tf func()\n\tp Package\n}{nil, p}\nreturn imp.QualifyTemplateData(&d).(*struct {\n\tf func()\n\tp Package\n}).p','return Package{Name: specPackageName(imp, p), ImportPath: p.ImportPath}','P08,P09,P33','default')
law('StructLast','d struct {\n\tN, M int\n\tS Symbol\n}',I,Q%'d','d.S = imp.EnsureImported(d.S)\nreturn d','P08,P09')
law('StructNone','d struct {\n\tN, M int\n\ts string\n}',I,Q%'d','return d','P09')
# interfaces that cannot hold the result
law('HoldType','t *types.Named',I,Q%'[]types.Type{t}','imp.EnsureTypeImported(TypeNameForGoType(t))\nreturn []types.Type{t}','P08,P09')
law('HoldReflect','t reflect.Type',I,'if t == nil {\n\treturn nil\n}\nreturn imp.QualifyTemplateData([]reflect.Type{t})','if t == nil {\n\treturn nil\n}\nimp.EnsureTypeImported(TypeNameForReflectType(t))\nreturn []reflect.Type{t}','P08,P09')
law('HoldStringer','s Symbol, t TypeName',I,'if t == nil {\n\treturn nil\n}\nreturn imp.QualifyTemplateData([]fmt.Stringer{s, t})','if t == nil {\n\treturn nil\n}\ns = imp.EnsureImported(s)\nt = imp.EnsureTypeImported(t)\nreturn []fmt.Stringer{s, t}','P08,P09')
law('HoldTypeName','t, u TypeName',I,Q%'[]TypeName{t, u}','if t != nil {\n\tt = imp.EnsureTypeImported(t)\n}\nif u != nil {\n\tu = imp.EnsureTypeImported(u)\n}\nreturn []TypeName{t, u}','P08,P09')
law('HoldTypeOrSpec','t TypeName',I,'if t == nil {\n\treturn nil\n}\nreturn imp.QualifyTemplateData([]TypeNameOrSpec{t})','if t == nil {\n\treturn nil\n}\nreturn []TypeNameOrSpec{imp.EnsureTypeImported(t)}','P08,P09')
law('GoTypePtr','t *types.Named',I,Q%'[]*types.Named{t}','return []*types.Named{t}','P08,P09,P38',extra=' finite')
# maps
law('Map','a, b Symbol','(map[string]Symbol, map[string]Symbol)','m := map[string]Symbol{"a": a, "b": b}\nr := imp.QualifyTemplateData(m).(map[string]Symbol)\nreturn r, m','m := map[string]Symbol{"a": a, "b": b}\na = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nreturn map[string]Symbol{"a": a, "b": b}, m','P08,P09,P32')
law('MapThree','a Symbol, n int, t TypeName','map[string]interface{}','m := map[string]interface{}{"z": a, "y": n, "x": t}\nreturn imp.QualifyTemplateData(m).(map[string]interface{})','x := t\nif t != nil {\n\tx = imp.EnsureTypeImported(t)\n}\nb := imp.EnsureImported(a)\nreturn map[string]interface{}{"z": b, "y": n, "x": x}','P08,P09,P32')
law('MapKey','n int','map[Symbol]int','m := map[Symbol]int{{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}: n}\nreturn imp.QualifyTemplateData(m).(map[Symbol]int)','return map[Symbol]int{imp.EnsureImported(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}): n}','P08,P09')
law('MapKeyNext','n, k int','map[interface{}]int','m := map[interface{}]int{"B": k, Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}: n}\nreturn imp.QualifyTemplateData(m).(map[interface{}]int)','return map[interface{}]int{"B": k, imp.EnsureImported(Symbol{Name: "A", Package: Package{Name: "p", ImportPath: "x/p"}}): n}','P08,P09')
law('MapPlain','n, k int','(map[string]int)','return imp.QualifyTemplateData(map[string]int{"a": n, "b": k}).(map[string]int)','return map[string]int{"a": n, "b": k}','P09')
law('NilMap','n int','map[string]Symbol','var m map[string]Symbol\nreturn imp.QualifyTemplateData(m).(map[string]Symbol)','return nil','P09')
law('MapOfSlices','a, b Symbol','map[string][]Symbol','return imp.QualifyTemplateData(map[string][]Symbol{"k": {a, b}}).(map[string][]Symbol)','a = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nreturn map[string][]Symbol{"k": {a, b}}','P08,P09')
law('PtrShared','s Symbol','[2]Symbol','l := []*Symbol{&s, &s}\nr := imp.QualifyTemplateData(l).([]*Symbol)\nreturn [2]Symbol{*r[0], *r[1]}','a := imp.EnsureImported(s)\nb := imp.EnsureImported(s)\nreturn [2]Symbol{a, b}','P08')
K='{Name: "%s", Package: Package{Name: "p", ImportPath: "x/p"}}'
law('MapKeys','n, k int','map[Symbol]int','m := map[Symbol]int{%s: n, %s: k}\nreturn imp.QualifyTemplateData(m).(map[Symbol]int)'%(K%'A',K%'B'),'a := imp.EnsureImported(Symbol%s)\nb := imp.EnsureImported(Symbol%s)\nreturn map[Symbol]int{a: n, b: k}'%(K%'A',K%'B'),'P08,P09')
law('MapKeysValues','s, t Symbol','map[interface{}]Symbol','m := map[interface{}]Symbol{Symbol%s: s, "x": t}\nreturn imp.QualifyTemplateData(m).(map[interface{}]Symbol)'%(K%'A'),'a := imp.EnsureImported(Symbol%s)\ns = imp.EnsureImported(s)\nt = imp.EnsureImported(t)\nreturn map[interface{}]Symbol{a: s, "x": t}'%(K%'A'),'P08,P09')
law('ArrayPtr','a, b Symbol','([2]Symbol, [2]Symbol)','p := &[2]Symbol{a, b}\nr := imp.QualifyTemplateData(p).(*[2]Symbol)\nreturn *r, *p','l := [2]Symbol{a, b}\na = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nreturn [2]Symbol{a, b}, l','P08,P09,P31')
law('ArrayPtrAny','n int, b Symbol','([3]interface{}, [3]interface{})','p := &[3]interface{}{n, b, "y"}\nr := imp.QualifyTemplateData(p).(*[3]interface{})\nreturn *r, *p','return [3]interface{}{n, imp.EnsureImported(b), "y"}, [3]interface{}{n, b, "y"}','P08,P09,P31')
law('SliceOfArrays','a, b Symbol','([][2]Symbol, [][2]Symbol)','l := [][2]Symbol{{a, b}}\nr := imp.QualifyTemplateData(l).([][2]Symbol)\nreturn r, l','l := [][2]Symbol{{a, b}}\na = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nreturn [][2]Symbol{{a, b}}, l','P08,P09,P31')
law('SliceOfStructs','a, b struct{ N int; S Symbol }','([]struct{ N int; S Symbol }, []struct{ N int; S Symbol })','l := []struct{ N int; S Symbol }{a, b}\nr := imp.QualifyTemplateData(l).([]struct{ N int; S Symbol })\nreturn r, l','l := []struct{ N int; S Symbol }{a, b}\na.S = imp.EnsureImported(a.S)\nb.S = imp.EnsureImported(b.S)\nreturn []struct{ N int; S Symbol }{a, b}, l','P08,P09,P31')
law('SliceOfPtrs','a, b Symbol','([3]Symbol, bool)','l := []*Symbol{&a, nil, &b}\nr := imp.QualifyTemplateData(l).([]*Symbol)\nreturn [3]Symbol{*r[0], {}, *r[2]}, r[1] == nil','a = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nreturn [3]Symbol{a, {}, b}, true','P08,P09')
law('MapOfMaps','a Symbol, n int','(map[string]map[string]interface{}, map[string]map[string]interface{})','m := map[string]map[string]interface{}{"k": {"v": a, "n": n}}\nr := imp.QualifyTemplateData(m).(map[string]map[string]interface{})\nreturn r, m','m := map[string]map[string]interface{}{"k": {"v": a, "n": n}}\nreturn map[string]map[string]interface{}{"k": {"v": imp.EnsureImported(a), "n": n}}, m','P08,P09,P31')
law('PtrToStructWithMap','a Symbol, n int','(map[string]interface{}, map[string]interface{}, int)','p := &struct {\n\tM map[string]interface{}\n\tN int\n}{map[string]interface{}{"v": a, "w": n}, n}\nr := imp.QualifyTemplateData(p).(*struct {\n\tM map[string]interface{}\n\tN int\n})\nreturn r.M, p.M, r.N','m := map[string]interface{}{"v": a, "w": n}\nreturn map[string]interface{}{"v": imp.EnsureImported(a), "w": n}, m, n','P08,P09,P31')
law('NamedTypes','a Symbol','specTemplData','return imp.QualifyTemplateData(specTemplData{{a, 1}, {a, 2}}).(specTemplData)','b := imp.EnsureImported(a)\nc := imp.EnsureImported(a)\nreturn specTemplData{{b, 1}, {c, 2}}','P08,P09')
law('MapValueNil','a Symbol','map[string]interface{}','return imp.QualifyTemplateData(map[string]interface{}{"a": a, "b": nil, "c": (*Symbol)(nil)}).(map[string]interface{})','return map[string]interface{}{"a": imp.EnsureImported(a), "b": nil, "c": (*Symbol)(nil)}','P08,P09')
law('FuncChan','f func(), c chan Symbol, a Symbol','[]interface{}','return imp.QualifyTemplateData([]interface{}{f, a, c}).([]interface{})','return []interface{}{f, imp.EnsureImported(a), c}','P08,P09')
law('EmbeddedStruct','d struct {\n\tSymbol\n\tN int\n}',I,Q%'d','d.Symbol = imp.EnsureImported(d.Symbol)\nreturn d','P08,P09')
law('EmbeddedPtr','s Symbol','(Symbol, Symbol)','r := imp.QualifyTemplateData(struct{ *Symbol }{&s}).(struct{ *Symbol })\nreturn *r.Symbol, s','return imp.EnsureImported(s), s','P08,P09,P31')
law('Signatures','s Signature, n int','([]interface{}, Signature)','r := imp.QualifyTemplateData([]interface{}{n, s}).([]interface{})\nreturn r, s','return []interface{}{n, *imp.EnsureAllTypesImported(&s)}, s','P08,P09,P31')
law('SignaturePtr','s Signature','(Signature, Signature)','r := imp.QualifyTemplateData(&s).(*Signature)\nreturn *r, s','return *imp.EnsureAllTypesImported(&s), s','P08,P09,P31')
law('EmbedPtr','e InterfaceEmbed','[2]Symbol','r := imp.QualifyTemplateData(&e).(*InterfaceEmbed)\nreturn [2]Symbol{r.Type, e.Type}','old := e.Type\nreturn [2]Symbol{imp.EnsureImported(e.Type), old}','P08,P09,P31')
law('MethodPtr','m InterfaceMethod','(string, Signature, Signature)','r := imp.QualifyTemplateData(&m).(*InterfaceMethod)\nreturn r.Name, r.Signature, m.Signature','s := m.Signature\nreturn m.Name, *imp.EnsureAllTypesImported(&s), m.Signature','P08,P09,P31')
law('VarSpecKept','c VarSpec, imp2 *Imports','Package','if c.parent == nil {\n\treturn Package{}\n}\nimp.QualifyTemplateData(&c)\nreturn c.parent.Package()','if c.parent == nil {\n\treturn Package{}\n}\nspecPackageName(imp, c.parent.Package())\nreturn c.parent.Package()','P09,P31')
law('TypeSpecPtr','c TypeSpec','(Symbol, Symbol, *GoFile)','if c.parent == nil {\n\treturn Symbol{}, Symbol{}, nil\n}\nr := imp.QualifyTemplateData(&c).(*TypeSpec)\nreturn r.ToSymbol(), c.ToSymbol(), c.parent','if c.parent == nil {\n\treturn Symbol{}, Symbol{}, nil\n}\np := Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}\nreturn Symbol{Name: c.Name, Package: p}, c.ToSymbol(), c.parent','P08,P09,P31')
law('FuncSpecPtr','c FuncSpec','(Package, Package, string)','if c.parent == nil {\n\treturn Package{}, Package{}, ""\n}\nr := imp.QualifyTemplateData(&c).(*FuncSpec)\nreturn r.parent.Package(), c.parent.Package(), r.Name','if c.parent == nil {\n\treturn Package{}, Package{}, ""\n}\np := Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}\nreturn p, c.parent.Package(), c.Name','P08,P09,P31')
# each kind of reference inside a list: the list is rebuilt
law('PackageIn','p, q Package','([]Package, []Package)','l := []Package{p, q}\nr := imp.QualifyTemplateData(l).([]Package)\nreturn r, l','l := []Package{p, q}\np2 := Package{Name: specPackageName(imp, p), ImportPath: p.ImportPath}\nq2 := Package{Name: specPackageName(imp, q), ImportPath: q.ImportPath}\nreturn []Package{p2, q2}, l','P08,P09,P31')
law('MethodRefIn','m MethodReference, n int','([]interface{}, []MethodReference)','r := imp.QualifyTemplateData([]interface{}{n, m}).([]interface{})\nr2 := imp.QualifyTemplateData([]MethodReference{m}).([]MethodReference)\nreturn r, r2','a := MethodReference{Type: imp.EnsureImported(m.Type), Method: m.Method}\nb := MethodReference{Type: imp.EnsureImported(m.Type), Method: m.Method}\nreturn []interface{}{n, a}, []MethodReference{b}','P08,P09')
law('ReflectTypeIn','t reflect.Type, n int','[]interface{}','if t == nil {\n\treturn nil\n}\nreturn imp.QualifyTemplateData([]interface{}{n, t}).([]interface{})','if t == nil {\n\treturn nil\n}\nreturn []interface{}{n, imp.EnsureTypeImported(TypeNameForReflectType(t))}','P08,P09')
for k in ['Named','Pointer','Signature']:
    law('Go'+k+'In','t *types.'+k+', n int','[]interface{}','return imp.QualifyTemplateData([]interface{}{n, t}).([]interface{})','return []interface{}{n, imp.EnsureTypeImported(TypeNameForGoType(t))}','P08,P09')
for k in ['TypeName','Var','Const','Func']:
    law('GoObj'+k+'In','o *types.'+k+', n int','[]interface{}','return imp.QualifyTemplateData([]interface{}{n, o}).([]interface{})',"""switch s := SymbolForGoObject(o).(type) {
case Symbol:
	return []interface{}{n, imp.EnsureImported(s)}
case MethodReference:
	return []interface{}{n, &MethodReference{Type: imp.EnsureImported(s.Type), Method: s.Method}}
}
return []interface{}{n, o}""",'P08,P09')
law('GoPackageIn','p *types.Package, n int','[]interface{}','return imp.QualifyTemplateData([]interface{}{n, p}).([]interface{})','q := PackageForGoType(p)\nreturn []interface{}{n, Package{Name: specPackageName(imp, q), ImportPath: q.ImportPath}}','P08,P09')
for k,nm in [('ConstSpec','Names'),('VarSpec','Names'),('TypeSpec','Name'),('FuncSpec','Name')]:
    nt={'Names':'[]string','Name':'string'}[nm]
    law(k+'In','c '+k,'(Package, Package, %s)'%nt,
        'r := imp.QualifyTemplateData([]%s{c}).([]%s)\nif r[0].parent == nil {\n\treturn Package{}, Package{}, r[0].%s\n}\nreturn r[0].parent.Package(), c.parent.Package(), r[0].%s'%(k,k,nm,nm),
        'if c.parent == nil {\n\treturn Package{}, Package{}, c.%s\n}\nreturn Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package(), c.%s'%(nm,nm),'P08,P09,P31')
    law(k+'PtrIn','p *%s, n int'%k,'(Package, Package, interface{})',
        'if p == nil || p.parent == nil {\n\treturn Package{}, Package{}, nil\n}\nr := imp.QualifyTemplateData(map[string]interface{}{"a": n, "k": p}).(map[string]interface{})\nq := r["k"].(*%s)\nreturn q.parent.Package(), p.parent.Package(), r["a"]'%k,
        'if p == nil || p.parent == nil {\n\treturn Package{}, Package{}, nil\n}\nreturn Package{Name: specPackageName(imp, p.parent.Package()), ImportPath: p.parent.pkgPath}, p.parent.Package(), n','P08,P09,P31')
law('EmbedIn','e InterfaceEmbed, n int','([]interface{}, []InterfaceEmbed)','r := imp.QualifyTemplateData([]interface{}{n, e}).([]interface{})\nr2 := imp.QualifyTemplateData([]InterfaceEmbed{e}).([]InterfaceEmbed)\nreturn r, r2','a, b := e, e\na.Type = imp.EnsureImported(e.Type)\nb.Type = imp.EnsureImported(e.Type)\nreturn []interface{}{n, a}, []InterfaceEmbed{b}','P08,P09')
law('IfaceMethodIn','m InterfaceMethod','(string, string, Signature)','r := imp.QualifyTemplateData([]InterfaceMethod{m}).([]InterfaceMethod)\nreturn r[0].Name, r[0].Comment, r[0].Signature','s := m.Signature\ns = *imp.EnsureAllTypesImported(&s)\nreturn m.Name, m.Comment, s','P08,P09')
law('SignatureIn','s Signature','([]Signature, Signature)','r := imp.QualifyTemplateData([]Signature{s}).([]Signature)\nreturn r, s','return []Signature{*imp.EnsureAllTypesImported(&s)}, s','P08,P09,P31')
law('GoObjPtr','o *types.Var',I,Q%'[]*types.Var{o}','return []*types.Var{o}','P09,P38',extra=' finite')
law('GoPkgPtr','p *types.Package',I,Q%'[]*types.Package{p}','return []*types.Package{p}','P09,P38',extra=' finite')
law('StructPtrNilField','d struct {\n\tS *Symbol\n\tA interface{}\n}',I,Q%'struct {\n\tS *Symbol\n\tA interface{}\n}{}','return struct {\n\tS *Symbol\n\tA interface{}\n}{}','P09')
law('StructFunc','s Symbol, n int','(Symbol, Symbol, int)','d := struct {\n\tS *Symbol\n\tN int\n}{&s, n}\nr := imp.QualifyTemplateData(&d).(*struct {\n\tS *Symbol\n\tN int\n})\nreturn *r.S, *d.S, r.N','return imp.EnsureImported(s), s, n','P08,P09,P31')
# a pointer to a list or a map: the list it points to stays as it is
law('SlicePtr','a, b Symbol','([]Symbol, []Symbol)','p := &[]Symbol{a, b}\nr := imp.QualifyTemplateData(p).(*[]Symbol)\nreturn *r, *p','l := []Symbol{a, b}\na = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nreturn []Symbol{a, b}, l','P08,P09,P31')
law('SliceAnyPtr','n int, a Symbol','([]interface{}, []interface{})','p := &[]interface{}{n, a}\nr := imp.QualifyTemplateData(p).(*[]interface{})\nreturn *r, *p','l := []interface{}{n, a}\nreturn []interface{}{n, imp.EnsureImported(a)}, l','P08,P09,P31')
law('MapPtr','a, b Symbol','(map[string]Symbol, map[string]Symbol)','p := &map[string]Symbol{"a": a, "b": b}\nr := imp.QualifyTemplateData(p).(*map[string]Symbol)\nreturn *r, *p','m := map[string]Symbol{"a": a, "b": b}\na = imp.EnsureImported(a)\nb = imp.EnsureImported(b)\nreturn map[string]Symbol{"a": a, "b": b}, m','P08,P09,P31,P32')
law('NamedSlicePtr','a Symbol','(specTemplData, specTemplData)','p := &specTemplData{{a, 1}}\nr := imp.QualifyTemplateData(p).(*specTemplData)\nreturn *r, *p','l := specTemplData{{a, 1}}\nreturn specTemplData{{imp.EnsureImported(a), 1}}, l','P08,P09,P31')
law('PtrIfaceField','s Symbol, n int','(Symbol, interface{})','var x interface{} = s\nd := struct{ P *interface{} }{&x}\nr := imp.QualifyTemplateData(d).(struct{ P *interface{} })\nreturn (*r.P).(Symbol), x','old := s\nreturn imp.EnsureImported(s), old','P08,P09,P31')
# what a field is called or how it is tagged makes no difference
law('Tagged','d struct {\n\tA Symbol `json:"-"`\n\tB Symbol `template:"-"`\n\tC Symbol `-`\n\tD Symbol `json:"d,omitempty" gopoet:"-"`\n}',I,Q%'d','d.A = imp.EnsureImported(d.A)\nd.B = imp.EnsureImported(d.B)\nd.C = imp.EnsureImported(d.C)\nd.D = imp.EnsureImported(d.D)\nreturn d','P08,P09')
law('Blank','d struct {\n\tParent Symbol\n\tImports, Data interface{}\n}, a, b Symbol',I,'d.Imports, d.Data = a, b\nreturn imp.QualifyTemplateData(d)','d.Parent = imp.EnsureImported(d.Parent)\nd.Imports = imp.EnsureImported(a)\nd.Data = imp.EnsureImported(b)\nreturn d','P08,P09')
# the other structures of this package are like any other
law('ArgType','t TypeName, name string','(ArgType, ArgType)','d := ArgType{Name: name, Type: t}\nr := imp.QualifyTemplateData(d).(ArgType)\nreturn r, d','d := ArgType{Name: name, Type: t}\nr := d\nif t != nil {\n\tr.Type = imp.EnsureTypeImported(t)\n}\nreturn r, d','P08,P09')
law('ArgTypes','t TypeName, name string','([]ArgType, []ArgType)','l := []ArgType{{Name: name, Type: t}}\nr := imp.QualifyTemplateData(l).([]ArgType)\nreturn r, l','l := []ArgType{{Name: name, Type: t}}\nr := []ArgType{{Name: name, Type: t}}\nif t != nil {\n\tr[0].Type = imp.EnsureTypeImported(t)\n}\nreturn r, l','P08,P09,P31')
law('FieldType','t TypeName, name string','(FieldType, FieldType)','d := FieldType{Name: name, Type: t}\nr := imp.QualifyTemplateData(d).(FieldType)\nreturn r, d','d := FieldType{Name: name, Type: t}\nr := d\nif t != nil {\n\tr.Type = imp.EnsureTypeImported(t)\n}\nreturn r, d','P08,P09')
law('FieldSpec','t TypeName, name string','(TypeNameOrSpec, TypeNameOrSpec)','if t == nil {\n\treturn nil, nil\n}\nd := NewField(name, t)\nr := imp.QualifyTemplateData(d).(*FieldSpec)\nreturn r.Type, d.Type','if t == nil {\n\treturn nil, nil\n}\nreturn imp.EnsureTypeImported(t), t','P08,P09,P31')
for k,dk,f,nw in [('ConstSpec','ConstDecl','Consts','NewConstDecl'),('VarSpec','VarDecl','Vars','NewVarDecl'),('TypeSpec','TypeDecl','Types','NewTypeDecl')]:
    law(dk,'c '+k,'(Package, Package)','if c.parent == nil {\n\treturn Package{}, Package{}\n}\nr := imp.QualifyTemplateData(%s(&c)).(*%s)\nreturn r.%s[0].parent.Package(), c.parent.Package()'%(nw,dk,f),'if c.parent == nil {\n\treturn Package{}, Package{}\n}\nreturn Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package()','P08,P09,P31')
law('File','c ConstSpec','(Package, Package)','if c.parent == nil {\n\treturn Package{}, Package{}\n}\nr := imp.QualifyTemplateData(&GoFile{elements: []FileElement{NewConstDecl(&c)}}).(*GoFile)\nreturn r.elements[0].(*ConstDecl).Consts[0].parent.Package(), c.parent.Package()','if c.parent == nil {\n\treturn Package{}, Package{}\n}\nreturn Package{Name: specPackageName(imp, c.parent.Package()), ImportPath: c.parent.pkgPath}, c.parent.Package()','P08,P09,P31','default')
out.append('''type specTemplEntry struct {
	S Symbol
	N int
}

type specTemplData []specTemplEntry
''')

# the order in which a map lists its keys makes no difference
def order(name, params, use, props='P32'):
    out.append('// whatever the order of the keys\n//verif:%s useTemplOrder%s %s order:any\nfunc useTemplOrder%s(imp *Imports, %s) interface{} {\n\t%s\n}\n' % (props, name, DIR+',NamedType,PointerType', name, params, use.strip().replace('\n','\n\t')))
S='Symbol{Name: "%s", Package: Package{Name: "%s", ImportPath: "%s"}}'
order('Strings','a, b, c Symbol',Q%'map[string]Symbol{"z": a, "x": b, "y": c}')
order('Ints','a, b, c Symbol',Q%'map[int]Symbol{10: a, 9: b, -1: c}')
order('Bools','a, b Symbol',Q%'map[bool]interface{}{true: a, false: b}')
order('Packages','a, b Symbol',Q%'map[Package]interface{}{{Name: "p", ImportPath: "x/p"}: a, {Name: "p", ImportPath: "y/p"}: b}')
order('Symbols','a, b Symbol',Q%('map[Symbol]interface{}{%s: a, %s: b}'%(S%('A','p','x/p'),S%('A','p','y/p'))))
order('Methods','a, b Symbol',Q%('map[MethodReference]interface{}{{Type: %s, Method: "M"}: a, {Type: %s, Method: "M"}: b}'%(S%('A','p','x/p'),S%('A','p','y/p'))))
order('Types','a, b Symbol',Q%('map[TypeName]interface{}{NamedType(%s): a, NamedType(%s): b}'%(S%('A','p','x/p'),S%('A','p','y/p'))))
order('PtrTypes','a, b Symbol',Q%('map[TypeName]interface{}{PointerType(NamedType(%s)): a, PointerType(NamedType(%s)): b}'%(S%('A','p','x/p'),S%('A','p','y/p'))))
order('OneText','a, b Symbol',Q%'map[interface{}]interface{}{1: a, "1": b}')
order('Mixed','a, b, c Symbol',Q%('map[interface{}]interface{}{"p.A": a, %s: b, 3: c}'%(S%('A','p','y/p'))))
order('Nested','a, b, c Symbol',Q%'[]interface{}{map[string]interface{}{"k": map[string]Symbol{"b": a, "a": b}, "a": c}}')
order('Fields','a, b Symbol',Q%'struct{ M, N map[string]interface{} }{map[string]interface{}{"b": a, "a": 1}, map[string]interface{}{"b": a, "a": b}}')
order('Arrays','a, b Symbol',Q%'map[[2]int]Symbol{{1, 2}: a, {1, 1}: b}')
order('Structs','a, b Symbol',Q%('map[struct{ S Symbol; N int }]Symbol{{%s, 1}: a, {%s, 1}: b}'%(S%('A','p','x/p'),S%('A','p','y/p'))))
open('/verif/specs/template_data.go','w').write('\n'.join(out))
