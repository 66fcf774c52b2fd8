From 7360d78fd33e51d73bc4764073564899632e12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 01/30] fix: WriteGoFilesToGoPath always failed, even with a
 non-empty GOPATH

---
 model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model.go b/model.go
index 9dc510d..40ab7ed 100644
--- a/model.go
+++ b/model.go
@@ -266,7 +266,7 @@ func WriteGoFilesToGoPath(files ...*GoFile) error {
 		return errors.New("GOPATH is empty")
 	}
 	paths := strings.Split(gopath, string(filepath.ListSeparator))
-	if len(paths) != 0 {
+	if len(paths) == 0 {
 		return errors.New("GOPATH is empty")
 	}
 	return WriteGoFilesToFileSystem(paths[0], files...)
-- 
2.43.0


From 6b0e26f6fb80ba542b41f3c077730d178e116c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 02/30] fix: TypeNameForReflectType stored func results among
 the arguments

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a811c6a..2378d07 100644
--- a/types.go
+++ b/types.go
@@ -624,7 +624,7 @@ func signatureFromReflectType(t reflect.Type, sig *Signature) {
 	}
 	sig.Results = make([]ArgType, t.NumOut())
 	for i := 0; i < t.NumOut(); i++ {
-		sig.Args[i] = ArgType{
+		sig.Results[i] = ArgType{
 			Type: TypeNameForReflectType(t.Out(i)),
 		}
 	}
-- 
2.43.0


From 11f982f2af2927f864206ffdca97a8c186bb0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 03/30] fix: TypeNameForReflectType panicked for map types

---
 types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types.go b/types.go
index 2378d07..2f6f5ac 100644
--- a/types.go
+++ b/types.go
@@ -580,6 +580,9 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 	case reflect.Array:
 		return ArrayType(TypeNameForReflectType(t.Elem()), int64(t.Len()))
 
+	case reflect.Map:
+		return MapType(TypeNameForReflectType(t.Key()), TypeNameForReflectType(t.Elem()))
+
 	case reflect.Chan:
 		return ChannelType(TypeNameForReflectType(t.Elem()), t.ChanDir())
 
-- 
2.43.0


From 89ebc5ff5d97b887216a2d3ceff4493790746997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 04/30] fix: TypeNameForReflectType turned embedded fields into
 named fields

---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 2f6f5ac..d4a9261 100644
--- a/types.go
+++ b/types.go
@@ -595,8 +595,12 @@ func TypeNameForReflectType(t reflect.Type) TypeName {
 		fields := make([]FieldType, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
+			var name string
+			if !field.Anonymous {
+				name = field.Name
+			}
 			fields[i] = FieldType{
-				Name: field.Name,
+				Name: name,
 				Type: TypeNameForReflectType(field.Type),
 				Tag:  field.Tag,
 			}
-- 
2.43.0


From d5a3614387dbd21929a27cab904c327cc093aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 05/30] fix: converting predeclared go/types objects, like
 error, dereferenced a nil package

---
 model.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model.go b/model.go
index 40ab7ed..5620a14 100644
--- a/model.go
+++ b/model.go
@@ -66,6 +66,10 @@ func (p Package) String() string {
 // PackageForGoType returns a Package for the given Go types package. This is
 // useful for converting between package representations.
 func PackageForGoType(pkg *types.Package) Package {
+	if pkg == nil {
+		// objects in the universe scope (such as "error") have no package
+		return Package{}
+	}
 	return Package{
 		Name:       pkg.Name(),
 		ImportPath: pkg.Path(),
-- 
2.43.0


From ddc38b4b1571c4e68ef712076c37767f1d3f2d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 06/30] fix: nil check for unsupported basic types was inverted

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index d4a9261..6e111ae 100644
--- a/types.go
+++ b/types.go
@@ -445,7 +445,7 @@ func TypeNameForGoType(t types.Type) TypeName {
 			return UnsafePointerType
 		default:
 			bt := types.Typ[t.Kind()]
-			if bt == nil {
+			if bt != nil {
 				panic(fmt.Sprintf("basic type %s cannot be represented as TypeName", bt.Name()))
 			} else {
 				panic(fmt.Sprintf("basic kind %d(?) cannot be represented as TypeName", t.Kind()))
-- 
2.43.0


From 2dbb9c5a32fa337f65ec7ba155a87b7964308a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 07/30] fix: rendered interface types lacked a separator
 between embeds and methods

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 6e111ae..d855154 100644
--- a/types.go
+++ b/types.go
@@ -907,7 +907,7 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString(emb.Name)
 		}
 		for i, mtd := range tn.Methods() {
-			if i > 0 {
+			if i > 0 || len(tn.Embeds()) > 0 {
 				b.WriteString("; ")
 			}
 			b.WriteString(mtd.Name)
-- 
2.43.0


From eeb0c262762512ac67e4f2ca3acfd5115fef9b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 08/30] fix: a channel of receive-only channels was rendered as
 a send-only channel

---
 types.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index d855154..1428d26 100644
--- a/types.go
+++ b/types.go
@@ -866,7 +866,14 @@ func typeNameToBuffer(tn TypeName, b *bytes.Buffer) {
 			b.WriteString("<-")
 		}
 		b.WriteRune(' ')
-		typeNameToBuffer(tn.Elem(), b)
+		if elem := tn.Elem(); tn.Dir() == reflect.BothDir && elem.Kind() == KindChan && elem.Dir() == reflect.RecvDir {
+			// without parentheses, "chan <-chan T" would be read as "chan<- (chan T)"
+			b.WriteRune('(')
+			typeNameToBuffer(elem, b)
+			b.WriteRune(')')
+		} else {
+			typeNameToBuffer(elem, b)
+		}
 	case KindFunc:
 		b.WriteString("func")
 		signatureToBuffer(tn.Signature(), b)
-- 
2.43.0


From 83e4787ae83608d79d38aee10cf9c59359a2234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 09/30] fix: tag of a field with an unnamed struct or interface
 type was put on its own line

---
 model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index 5620a14..eb62e57 100644
--- a/model.go
+++ b/model.go
@@ -1154,6 +1154,7 @@ func (t *TypeSpec) writeTo(b *bytes.Buffer, includeComment bool) {
 		b.WriteString("= ")
 	}
 	t.writeUnderlying(b)
+	b.WriteRune('\n')
 }
 
 func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
@@ -1163,17 +1164,16 @@ func (t *TypeSpec) writeUnderlying(b *bytes.Buffer) {
 		for _, f := range t.structBody {
 			f.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteString("}")
 	case KindInterface:
 		b.WriteString(" interface {\n")
 		for _, el := range t.interfaceBody {
 			el.writeTo(b)
 		}
-		b.WriteString("}\n")
+		b.WriteString("}")
 	default:
 		b.WriteRune(' ')
 		typeNameToBuffer(t.underlying, b)
-		b.WriteRune('\n')
 	}
 }
 
-- 
2.43.0


From 7b7835a876f417e5eb102d562a6dcc7dd078072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 10/30] fix: references to a *TypeSpec as type of a const, var,
 or field were not qualified

They always got the name of the package of the file that declares the type,
even inside of that package, and the package was not imported. Instead, the
packages that the definition of the type needs were imported.
---
 model.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/model.go b/model.go
index eb62e57..1be7208 100644
--- a/model.go
+++ b/model.go
@@ -491,8 +491,15 @@ func qualifyType(imports *Imports, t TypeNameOrSpec) TypeNameOrSpec {
 	case TypeName:
 		return imports.EnsureTypeImported(t)
 	case *TypeSpec:
-		t.qualify(imports)
-		return t
+		if t.Name == "" {
+			t.qualify(imports)
+			return t
+		}
+		if t.parent == nil {
+			return t
+		}
+		// just a reference to a type that is declared elsewhere
+		return imports.EnsureTypeImported(t.ToTypeName())
 	default:
 		panic(fmt.Sprintf("unrecognized type %T", t))
 	}
@@ -1132,12 +1139,7 @@ func (t *TypeSpec) isTypeNameOrSpec() {}
 func (t *TypeSpec) qualify(imports *Imports) {
 	t.underlying = imports.EnsureTypeImported(t.underlying)
 	for _, fs := range t.structBody {
-		switch t := fs.Type.(type) {
-		case TypeName:
-			fs.Type = imports.EnsureTypeImported(t)
-		case *TypeSpec:
-			t.qualify(imports)
-		}
+		fs.Type = qualifyType(imports, fs.Type)
 	}
 	for _, ie := range t.interfaceBody {
 		ie.qualify(imports)
-- 
2.43.0


From 22924c89a244115870e754476e6449d50b5c6534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 11/30] fix: methods used as format arguments rendered
 differently depending on the package

They were rendered as Type.Method when the package of the type was imported
with an alias, or was the package of the file, and as Method otherwise. Now
they are always rendered as documented for their String method.
---
 code.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/code.go b/code.go
index 672132a..9ee3e50 100644
--- a/code.go
+++ b/code.go
@@ -173,22 +173,11 @@ func (l line) qualify(imports *Imports) {
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
 		case *TypeSpec:
 			l.args[i] = imports.EnsureImported(a.ToSymbol())
-		case *InterfaceMethod:
-			mr := a.ToMethodRef()
-			sym := imports.EnsureImported(mr.Type)
-			if sym != mr.Type {
-				l.args[i] = &MethodReference{Type: sym, Method: mr.Method}
-			}
 		case *FuncSpec:
-			symOrMr := a.ToSymbol()
-			switch sm := symOrMr.(type) {
-			case Symbol:
-				l.args[i] = imports.EnsureImported(sm)
-			case MethodReference:
-				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+			// methods are rendered as just the method name (as are instances of
+			// *InterfaceMethod), which does not need to be qualified
+			if a.Receiver == nil {
+				l.args[i] = imports.EnsureImported(a.ToSymbol().(Symbol))
 			}
 		case reflect.Type:
 			t := TypeNameForReflectType(a)
-- 
2.43.0


From c8a6f3f86bf3cbb9e66ae01bc4f2aa230607d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 12/30] fix: go/types methods used as format arguments were not
 always converted

---
 code.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/code.go b/code.go
index 9ee3e50..32e3815 100644
--- a/code.go
+++ b/code.go
@@ -192,9 +192,7 @@ func (l line) qualify(imports *Imports) {
 				l.args[i] = imports.EnsureImported(sm)
 			case MethodReference:
 				sym := imports.EnsureImported(sm.Type)
-				if sym != sm.Type {
-					l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
-				}
+				l.args[i] = &MethodReference{Type: sym, Method: sm.Method}
 			}
 		case *types.Package:
 			p := PackageForGoType(a)
-- 
2.43.0


From 529e1242939c879b1f01ed96c907fbd5ae6828a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 13/30] fix: go/types and reflect values in template data were
 not always converted

They were left alone if the converted value did not need a different qualifier,
which made templates render the string form of the original value. For items of
go/types, that is not Go source.
---
 templates.go | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/templates.go b/templates.go
index c0f8302..0f60aac 100644
--- a/templates.go
+++ b/templates.go
@@ -18,37 +18,22 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 					newRv = reflect.ValueOf(newT)
 				}
 			case reflect.Type:
-				origT := TypeNameForReflectType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(imports.EnsureTypeImported(TypeNameForReflectType(d)))
 			case types.Type:
-				origT := TypeNameForGoType(d)
-				newT := imports.EnsureTypeImported(origT)
-				if newT != origT {
-					newRv = reflect.ValueOf(newT)
-				}
+				newRv = reflect.ValueOf(imports.EnsureTypeImported(TypeNameForGoType(d)))
 			case types.Object:
 				sym := SymbolForGoObject(d)
 				switch sym := sym.(type) {
 				case Symbol:
-					newSym := imports.EnsureImported(sym)
-					if newSym != sym {
-						newRv = reflect.ValueOf(newSym)
-					}
+					newRv = reflect.ValueOf(imports.EnsureImported(sym))
 				case MethodReference:
 					newSym := imports.EnsureImported(sym.Type)
-					if newSym != sym.Type {
-						newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
-					}
+					newRv = reflect.ValueOf(&MethodReference{Type: newSym, Method: sym.Method})
 				}
 			case *types.Package:
 				origP := PackageForGoType(d)
 				newP := imports.registerPackage(origP)
-				if newP != origP.Name {
-					newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
-				}
+				newRv = reflect.ValueOf(Package{Name: newP, ImportPath: origP.ImportPath})
 			default:
 				qualified = false
 			}
-- 
2.43.0


From e1e1a6f09739cbbde905fae5ea226a83b7a4bbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 14/30] fix: QualifyTemplateData panicked for non-addressable
 structs with unexported fields

---
 templates.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templates.go b/templates.go
index 0f60aac..c11f9b1 100644
--- a/templates.go
+++ b/templates.go
@@ -130,6 +130,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		case Imports:
 			// intentionally do not touch these
 		default:
+			if !data.CanAddr() {
+				// getField can only get at unexported fields of addressable structs
+				addressable := reflect.New(data.Type()).Elem()
+				addressable.Set(data)
+				data = addressable
+			}
 			var newStruct reflect.Value
 			for i := 0; i < data.NumField(); i++ {
 				var newV reflect.Value
-- 
2.43.0


From 28f8f734517f7503e6d3eee78425ae8b1a7efa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 15/30] fix: QualifyTemplateData panicked when re-creating
 structs with unexported fields

---
 templates.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/templates.go b/templates.go
index c11f9b1..f96d527 100644
--- a/templates.go
+++ b/templates.go
@@ -138,25 +138,21 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			}
 			var newStruct reflect.Value
 			for i := 0; i < data.NumField(); i++ {
-				var newV reflect.Value
-				var changedV bool
 				fld, ok := getField(data, i)
 				if !ok {
 					// do not recurse
-					newV = data.Field(i)
-					changedV = false
-				} else {
-					newV, changedV = qualifyTemplateData(imports, fld)
+					continue
+				}
+				newV, changedV := qualifyTemplateData(imports, fld)
+				if !changedV {
+					continue
 				}
-				if newStruct.IsValid() {
-					newStruct.Field(i).Set(newV)
-				} else if changedV {
+				if !newStruct.IsValid() {
 					newStruct = reflect.New(data.Type()).Elem()
-					for j := 0; j < i; j++ {
-						newStruct.Field(j).Set(data.Field(j))
-					}
-					newStruct.Field(i).Set(newV)
+					newStruct.Set(data)
 				}
+				newFld, _ := getField(newStruct, i)
+				newFld.Set(newV)
 			}
 			if newStruct.IsValid() {
 				return newStruct, true
-- 
2.43.0


From 2d373618316356f0636e4ab937d0f690d2f0a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 16/30] fix: QualifyTemplateData panicked when re-creating
 non-addressable arrays

---
 templates.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index f96d527..9a49611 100644
--- a/templates.go
+++ b/templates.go
@@ -178,10 +178,11 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 			} else if changedV {
 				if data.Kind() == reflect.Array {
 					newArray = reflect.New(data.Type()).Elem()
+					newArray.Set(data)
 				} else {
 					newArray = reflect.MakeSlice(data.Type(), data.Len(), data.Len())
+					reflect.Copy(newArray, data)
 				}
-				reflect.Copy(newArray, data.Slice(0, i))
 				newArray.Index(i).Set(newV)
 			}
 		}
-- 
2.43.0


From 9105d81c4a88c6d9e37996acfbb22c299d80597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 17/30] fix: QualifyTemplateData changed the type of pointers
 to interface values

That made it panic if the pointer was an element of something that cannot hold
that other type.
---
 templates.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/templates.go b/templates.go
index 9a49611..e6c2daa 100644
--- a/templates.go
+++ b/templates.go
@@ -161,10 +161,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	case reflect.Ptr:
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
-			if newElem.CanAddr() {
-				return newElem.Addr(), true
-			}
-			dest := reflect.New(newElem.Type())
+			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
 			return dest, true
 		}
-- 
2.43.0


From bccbdc22145b9fbe09cd3139469a62a06f3d960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 18/30] fix: specs in template data lost the import path of
 their package

If they were qualified again, such as when the file is written again, an empty
path was imported.
---
 templates.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/templates.go b/templates.go
index e6c2daa..766250d 100644
--- a/templates.go
+++ b/templates.go
@@ -83,7 +83,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newCs := t
-					newCs.parent = &GoFile{PackageName: newPkg}
+					newCs.parent = &GoFile{PackageName: newPkg, Imports: *NewImportsFor(t.parent.pkgPath)}
 					return reflect.ValueOf(&newCs).Elem(), true
 				}
 			}
@@ -93,7 +93,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newVs := t
-					newVs.parent = &GoFile{PackageName: newPkg}
+					newVs.parent = &GoFile{PackageName: newPkg, Imports: *NewImportsFor(t.parent.pkgPath)}
 					return reflect.ValueOf(&newVs).Elem(), true
 				}
 			}
@@ -103,7 +103,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newTs := t
-					newTs.parent = &GoFile{PackageName: newPkg}
+					newTs.parent = &GoFile{PackageName: newPkg, Imports: *NewImportsFor(t.parent.pkgPath)}
 					return reflect.ValueOf(&newTs).Elem(), true
 				}
 			}
@@ -113,7 +113,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 				newPkg := imports.registerPackage(t.parent.Package())
 				if newPkg != oldPkg {
 					newFs := t
-					newFs.parent = &GoFile{PackageName: newPkg}
+					newFs.parent = &GoFile{PackageName: newPkg, Imports: *NewImportsFor(t.parent.pkgPath)}
 					return reflect.ValueOf(&newFs).Elem(), true
 				}
 			}
-- 
2.43.0


From 06b10fc02cb41cc96b6ada79612d4bcbc84bc179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 19/30] fix: zero value packages in template data were imported
 with an empty path

---
 imports.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/imports.go b/imports.go
index 6a159ae..3025f18 100644
--- a/imports.go
+++ b/imports.go
@@ -43,6 +43,9 @@ func (i *Imports) RegisterImportForPackage(pkg Package) string {
 // the prefix (which includes a trailing dot if non-empty), it just returns the
 // package alias.
 func (i *Imports) registerPackage(pkg Package) string {
+	if pkg == (Package{}) {
+		return ""
+	}
 	p := i.RegisterImportForPackage(pkg)
 	if len(p) > 0 && p[len(p)-1] == '.' {
 		p = p[:len(p)-1]
-- 
2.43.0


From 74477d46c4c9695f5b62cd2f667c1ab526f9f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 20/30] fix: import aliases depended on the iteration order of
 maps in template data

---
 templates.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 766250d..b6f71fd 100644
--- a/templates.go
+++ b/templates.go
@@ -1,8 +1,10 @@
 package gopoet
 
 import (
+	"fmt"
 	"go/types"
 	"reflect"
+	"sort"
 )
 
 func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, bool) {
@@ -190,7 +192,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 	case reflect.Map:
 		var newMap reflect.Value
 		seenKeys := make([]reflect.Value, 0, data.Len())
-		for _, k := range data.MapKeys() {
+		keys := data.MapKeys()
+		// the order in which packages are imported determines their aliases
+		sort.Slice(keys, func(i, j int) bool {
+			return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
+		})
+		for _, k := range keys {
 			newK, changedK := qualifyTemplateData(imports, k)
 			newV, changedV := qualifyTemplateData(imports, data.MapIndex(k))
 			if newMap.IsValid() {
-- 
2.43.0


From 4739099c2518b4c41fd9880b8ade21159abe9854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:23 +0000
Subject: [PATCH 21/30] fix: aliases for packages whose name is not known were
 not always identifiers

---
 imports.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/imports.go b/imports.go
index 3025f18..16d0c1e 100644
--- a/imports.go
+++ b/imports.go
@@ -2,10 +2,14 @@ package gopoet
 
 import (
 	"fmt"
+	"go/token"
 	"path"
 	"reflect"
 	"sort"
 	"strconv"
+	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // Imports accumulate a set of package imports, used for generating a Go source
@@ -84,7 +88,7 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 
 	p := packageName
 	if packageName == "" {
-		p = path.Base(importPath)
+		p = aliasFor(importPath)
 	}
 	pkgBase := p
 	suffix := 1
@@ -106,6 +110,23 @@ func (i *Imports) prefixForPackage(importPath, packageName string, registerIfNot
 	}
 }
 
+// aliasFor computes an alias, based on the last element of the given path, for
+// a package whose name is not known.
+func aliasFor(importPath string) string {
+	alias := strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, path.Base(importPath))
+	first, _ := utf8.DecodeRuneInString(alias)
+	if !unicode.IsLetter(first) || alias == "init" || token.Lookup(alias).IsKeyword() {
+		// not an identifier that can be used to refer to a package
+		return "pkg" + alias
+	}
+	return alias
+}
+
 // EnsureImported ensures that the given symbol is imported and returns a new
 // symbol that has the correct package prefix (based on how the given symbol's
 // package was imported/aliased). If the symbol is already in Imports source
-- 
2.43.0


From 60b8859ea55fb86edecb0cefe4a4348d5c6f7e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 22/30] fix: Export and Unexport rejected names that start with
 a (valid) U+FFFD

---
 names.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/names.go b/names.go
index 856c3d5..4390ec8 100644
--- a/names.go
+++ b/names.go
@@ -14,7 +14,7 @@ func Unexport(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz == 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	r = unicode.ToLower(r)
@@ -32,7 +32,7 @@ func Export(s string) string {
 		return s
 	}
 	r, sz := utf8.DecodeRuneInString(s)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && sz == 1 {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	if unicode.IsUpper(r) {
-- 
2.43.0


From 5e78ea59b79819237f34cc930eb40dcb92c42c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 23/30] fix: Export and Unexport returned names of the wrong
 kind for some letters

Not everything that ToUpper returns is an upper case letter that makes a name
exported, and some upper case letters have no lower case form.
---
 names.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/names.go b/names.go
index 4390ec8..bf7ed36 100644
--- a/names.go
+++ b/names.go
@@ -18,6 +18,10 @@ func Unexport(s string) string {
 		panic(fmt.Sprintf("%q is not valid UTF8", s))
 	}
 	r = unicode.ToLower(r)
+	if unicode.IsUpper(r) {
+		// this letter has no lower case form
+		return "x" + s
+	}
 	return string(r) + s[sz:]
 }
 
@@ -39,7 +43,7 @@ func Export(s string) string {
 		return s // already exported
 	}
 	upperR := unicode.ToUpper(r)
-	if upperR == r {
+	if !unicode.IsUpper(upperR) {
 		if r == '_' {
 			return "X" + s[sz:]
 		}
-- 
2.43.0


From 470563a1b572fb92fa9411db4bb7c942a792a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 24/30] fix: WriteGoFiles ignored errors from closing the
 writers

---
 model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model.go b/model.go
index 1be7208..1808ef2 100644
--- a/model.go
+++ b/model.go
@@ -235,8 +235,12 @@ func WriteGoFiles(outFn func(path string) (io.WriteCloser, error), files ...*GoF
 		if err != nil {
 			return err
 		}
-		err = func() error {
-			defer w.Close()
+		err = func() (err error) {
+			defer func() {
+				if closeErr := w.Close(); err == nil {
+					err = closeErr
+				}
+			}()
 			return WriteGoFile(w, file)
 		}()
 		if err != nil {
-- 
2.43.0


From df388a4511de59ffa00708691e697197b1b10516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 25/30] fix: code that was also used in another file kept the
 qualifiers of that file

Rendering a file modified the arguments and the template data of its code. If
that code was also used in another file, or if the caller used the arguments
again, an alias in the first file was mistaken for the name of the package.
---
 code.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/code.go b/code.go
index 32e3815..cab808c 100644
--- a/code.go
+++ b/code.go
@@ -21,6 +21,8 @@ import (
 // that references use the correct package names and aliases.
 type CodeBlock struct {
 	elements []codeElement
+	// the elements, qualified for the file that is being rendered
+	qualified []codeElement
 }
 
 // codeElement represents code to render. It will either be a message and format
@@ -29,7 +31,9 @@ type CodeBlock struct {
 type codeElement interface {
 	isCodeElement()
 	writeTo(b *bytes.Buffer)
-	qualify(imports *Imports)
+	// qualify returns the qualified form of the element. It must not modify the
+	// element itself, which could also be part of a code block in another file.
+	qualify(imports *Imports) codeElement
 }
 
 // Print adds the given text to the code block. It returns the code block, for
@@ -110,13 +114,14 @@ func RenderCode(template *template.Template, data interface{}) *CodeBlock {
 }
 
 func (cb *CodeBlock) qualify(imports *Imports) {
-	for _, e := range cb.elements {
-		e.qualify(imports)
+	cb.qualified = make([]codeElement, len(cb.elements))
+	for i, e := range cb.elements {
+		cb.qualified[i] = e.qualify(imports)
 	}
 }
 
 func (cb *CodeBlock) writeTo(b *bytes.Buffer) {
-	for _, e := range cb.elements {
+	for _, e := range cb.qualified {
 		e.writeTo(b)
 	}
 }
@@ -134,7 +139,8 @@ func (l line) writeTo(b *bytes.Buffer) {
 	fmt.Fprintf(b, l.format, l.args...)
 }
 
-func (l line) qualify(imports *Imports) {
+func (l line) qualify(imports *Imports) codeElement {
+	l.args = append([]interface{}(nil), l.args...)
 	for i := range l.args {
 		switch a := l.args[i].(type) {
 		case Package:
@@ -199,6 +205,7 @@ func (l line) qualify(imports *Imports) {
 			l.args[i] = imports.registerPackage(p)
 		}
 	}
+	return l
 }
 
 // templ represents a template and data value, which will be rendered to a code
@@ -217,6 +224,6 @@ func (t *templ) writeTo(b *bytes.Buffer) {
 	}
 }
 
-func (t *templ) qualify(imports *Imports) {
-	t.data = imports.QualifyTemplateData(t.data)
+func (t *templ) qualify(imports *Imports) codeElement {
+	return &templ{templ: t.templ, data: imports.QualifyTemplateData(t.data)}
 }
-- 
2.43.0


From cfdc7e20978435ca84837c323ba45e7361613dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 26/30] fix: type names shared signatures and slices with their
 creators and callers

So they changed when, for example, another argument was added to the func that
a type name was created for, or when the file with that func was rendered.
---
 types.go | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/types.go b/types.go
index 1428d26..b70bd88 100644
--- a/types.go
+++ b/types.go
@@ -126,6 +126,24 @@ type Signature struct {
 	IsVariadic bool
 }
 
+// copySignature returns a copy of the given signature that does not share any
+// slices with it.
+func copySignature(s *Signature) Signature {
+	return Signature{
+		Args:       append([]ArgType(nil), s.Args...),
+		Results:    append([]ArgType(nil), s.Results...),
+		IsVariadic: s.IsVariadic,
+	}
+}
+
+func copyMethods(methods []MethodType) []MethodType {
+	ret := make([]MethodType, len(methods))
+	for i, m := range methods {
+		ret[i] = MethodType{Name: m.Name, Signature: copySignature(&m.Signature)}
+	}
+	return ret
+}
+
 // AddArg adds an argument to the signature. The given name can be blank for
 // signatures with unnamed arguments. If the signature has a mix of named and
 // unnamed args, they will all be rendered as named, but "_" will be used for
@@ -324,13 +342,17 @@ func (t *funcTypeName) Key() TypeName           { return nil }
 func (t *funcTypeName) Len() int64              { return -1 }
 func (t *funcTypeName) Dir() reflect.ChanDir    { return 0 }
 func (t *funcTypeName) BasicKind() reflect.Kind { return reflect.Invalid }
-func (t *funcTypeName) Signature() *Signature   { return (*Signature)(t) }
 func (t *funcTypeName) Fields() []FieldType     { return nil }
 func (t *funcTypeName) Methods() []MethodType   { return nil }
 func (t *funcTypeName) Embeds() []Symbol        { return nil }
 func (t *funcTypeName) String() string          { return typeNameToString(t) }
 func (t *funcTypeName) isTypeNameOrSpec()       {}
 
+func (t *funcTypeName) Signature() *Signature {
+	sig := copySignature((*Signature)(t))
+	return &sig
+}
+
 type structTypeName struct {
 	fields []FieldType
 }
@@ -367,7 +389,7 @@ func (t *interfaceTypeName) Dir() reflect.ChanDir    { return 0 }
 func (t *interfaceTypeName) BasicKind() reflect.Kind { return reflect.Invalid }
 func (t *interfaceTypeName) Signature() *Signature   { return nil }
 func (t *interfaceTypeName) Fields() []FieldType     { return nil }
-func (t *interfaceTypeName) Methods() []MethodType   { return append([]MethodType{}, t.methods...) }
+func (t *interfaceTypeName) Methods() []MethodType   { return copyMethods(t.methods) }
 func (t *interfaceTypeName) Embeds() []Symbol        { return append([]Symbol{}, t.embeds...) }
 func (t *interfaceTypeName) String() string          { return typeNameToString(t) }
 func (t *interfaceTypeName) isTypeNameOrSpec()       {}
@@ -742,21 +764,22 @@ func FuncTypeFromSig(sig *Signature) TypeName {
 	if sig.IsVariadic && (len(sig.Args) == 0 || sig.Args[len(sig.Args)-1].Type.Kind() != KindSlice) {
 		panic("cannot create a function type with variadic signature where last arg is not a slice")
 	}
-	return (*funcTypeName)(sig)
+	ret := copySignature(sig)
+	return (*funcTypeName)(&ret)
 }
 
 // StructType returns a TypeName that represents an unnamed struct type with the
 // given fields.
 func StructType(fields ...FieldType) TypeName {
-	return &structTypeName{fields: fields}
+	return &structTypeName{fields: append([]FieldType(nil), fields...)}
 }
 
 // InterfaceType returns a TypeName that represents an unnamed interface type
 // with the given embedded interfaces and explicit methods.
 func InterfaceType(embeds []Symbol, methods ...MethodType) TypeName {
 	return &interfaceTypeName{
-		methods: methods,
-		embeds:  embeds,
+		methods: copyMethods(methods),
+		embeds:  append([]Symbol(nil), embeds...),
 	}
 }
 
-- 
2.43.0


From 098f8b8c0d1b1d32eb06ddfd1e06b8c64b726944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 27/30] fix: NewPointerReceiver accepted an empty type name

---
 model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model.go b/model.go
index 1808ef2..420ea80 100644
--- a/model.go
+++ b/model.go
@@ -1694,6 +1694,9 @@ func NewReceiverForType(name string, rcvrType TypeNameOrSpec) *ReceiverSpec {
 // whose receiver type is a pointer to the given type. The type is an
 // unqualified reference to a named type in the same package.
 func NewPointerReceiver(name, rcvrType string) *ReceiverSpec {
+	if rcvrType == "" {
+		panic("cannot create a ReceiverSpec with an empty receiver type name")
+	}
 	return &ReceiverSpec{Name: name, Type: rcvrType, IsPointer: true}
 }
 
-- 
2.43.0


From 264a4094ced6a5ed5f56c4517c6bc7132e0951fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 28/30] fix: QualifyTemplateData crashed on template data with
 pointers to go/types structs

---
 templates.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templates.go b/templates.go
index b6f71fd..28fd8cd 100644
--- a/templates.go
+++ b/templates.go
@@ -162,6 +162,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		}
 
 	case reflect.Ptr:
+		switch data.Interface().(type) {
+		case types.Type, types.Object, *types.Package:
+			// these cannot be converted without changing the type of the
+			// element, and they refer to each other in cycles
+			return data, false
+		}
 		if newElem, changed := qualifyTemplateData(imports, data.Elem()); changed {
 			dest := reflect.New(data.Type().Elem())
 			dest.Elem().Set(newElem)
-- 
2.43.0


From 99db049a4581a197c8e757ae2a249595e86f1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 29/30] fix: imports depended on the order of map keys that are
 formatted alike

---
 templates.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/templates.go b/templates.go
index 28fd8cd..490ea7b 100644
--- a/templates.go
+++ b/templates.go
@@ -201,7 +201,7 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 		keys := data.MapKeys()
 		// the order in which packages are imported determines their aliases
 		sort.Slice(keys, func(i, j int) bool {
-			return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
+			return mapKeyOrder(keys[i]) < mapKeyOrder(keys[j])
 		})
 		for _, k := range keys {
 			newK, changedK := qualifyTemplateData(imports, k)
@@ -226,3 +226,12 @@ func qualifyTemplateData(imports *Imports, data reflect.Value) (reflect.Value, b
 
 	return data, false
 }
+
+// mapKeyOrder returns a string by which the given map key is put in order. Keys
+// that are formatted alike can be of different types (when the keys are of an
+// interface type) or refer to different packages with the same name.
+func mapKeyOrder(key reflect.Value) string {
+	imports := &Imports{}
+	qualifyTemplateData(imports, key)
+	return fmt.Sprintf("%v %T %v", key, key.Interface(), imports.ImportSpecs())
+}
-- 
2.43.0


From c2bc6ba7cd6e0e8a1b47380dd6bff699af6b33ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:59 +0000
Subject: [PATCH 30/30] fix: a qualified signature shares no room for additions
 with the original

---
 imports.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/imports.go b/imports.go
index 16d0c1e..6a2ca8e 100644
--- a/imports.go
+++ b/imports.go
@@ -255,7 +255,13 @@ func (i *Imports) qualifySignature(s *Signature, registerIfNotFound bool) *Signa
 	args := i.qualifyArgs(s.Args, registerIfNotFound)
 	results := i.qualifyArgs(s.Results, registerIfNotFound)
 	if !sameSlice(args, s.Args) || !sameSlice(results, s.Results) {
-		s = &Signature{Args: args, Results: results, IsVariadic: s.IsVariadic}
+		// neither list may have room at its end: the one that is unchanged is
+		// also that of s, so adding to it must not affect s (and vice versa)
+		s = &Signature{
+			Args:       args[:len(args):len(args)],
+			Results:    results[:len(results):len(results)],
+			IsVariadic: s.IsVariadic,
+		}
 	}
 	return s
 }
-- 
2.43.0

