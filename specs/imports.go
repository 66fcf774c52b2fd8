package gopoet

import (
	"fmt"
	"strconv"
	"sort"
)

//verif:P03 NewImportsFor
func specNewImportsFor(pkgPath string) *Imports {
	return &Imports{pkgPath: pkgPath}
}

//verif:P01,P02,P03,P04 (*Imports).RegisterImport
func specRegisterImport(i *Imports, importPath, packageName string) string {
	if importPath == i.pkgPath {
		return ""
	}
	if def, ok := i.importsByPath[importPath]; ok {
		return def.packageName + "."
	}
	base := packageName
	if base == "" {
		base = specAlias(importPath)
	}
	name := base
	n := 0
	for {
		if _, used := i.pathsByName[name]; !used {
			break
		}
		n++
		name = base + strconv.Itoa(n)
	}
	if i.importsByPath == nil {
		i.importsByPath = map[string]importDef{}
		i.pathsByName = map[string]string{}
	}
	i.importsByPath[importPath] = importDef{packageName: name, isAlias: name != packageName}
	i.pathsByName[name] = importPath
	return name + "."
}

//verif:P03 (*Imports).RegisterImportForPackage
func specRegisterImportForPackage(i *Imports, pkg Package) string {
	return i.RegisterImport(pkg.ImportPath, pkg.Name)
}

//verif:P03 (*Imports).PrefixForPackage
func specPrefixForPackage(i *Imports, importPath string) string {
	if importPath == i.pkgPath {
		return ""
	}
	def, ok := i.importsByPath[importPath]
	if !ok {
		panic("never registered")
	}
	return def.packageName + "."
}

//verif:P05,P03 (*Imports).EnsureImported
func specEnsureImported(i *Imports, sym Symbol) Symbol {
	if sym.Package == (Package{}) {
		return sym
	}
	prefix := i.RegisterImport(sym.Package.ImportPath, sym.Package.Name)
	if prefix == "" {
		return Symbol{Package: Package{ImportPath: sym.Package.ImportPath}, Name: sym.Name}
	}
	return Symbol{
		Name:    sym.Name,
		Package: Package{ImportPath: sym.Package.ImportPath, Name: prefix[:len(prefix)-1]},
	}
}

//verif:P05,P03 (*Imports).Qualify
func specQualify(i *Imports, sym Symbol) Symbol {
	if sym.Package == (Package{}) {
		return sym
	}
	sym.Package.Name = ""
	if sym.Package.ImportPath != i.pkgPath {
		def, ok := i.importsByPath[sym.Package.ImportPath]
		if !ok {
			panic("never registered")
		}
		sym.Package.Name = def.packageName
	}
	return sym
}

//verif:P02,P32 (*Imports).ImportSpecs
func specImportSpecs(i *Imports) []ImportSpec {
	var specs []ImportSpec
	for p, def := range i.importsByPath {
		s := ImportSpec{ImportPath: p}
		if def.isAlias {
			s.PackageAlias = def.packageName
		}
		specs = append(specs, s)
	}
	sort.Slice(specs, func(a, b int) bool { return specs[a].ImportPath < specs[b].ImportPath })
	return specs
}

var _ = fmt.Sprint

//verif:P02,P32 (*Imports).ImportSpecs
func specImportSpecs2(i *Imports) []ImportSpec {
	paths := make([]string, 0, len(i.importsByPath))
	for p := range i.importsByPath {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	specs := make([]ImportSpec, 0, len(paths))
	for _, p := range paths {
		s := ImportSpec{ImportPath: p}
		if i.importsByPath[p].isAlias {
			s.PackageAlias = i.importsByPath[p].packageName
		}
		specs = append(specs, s)
	}
	return specs
}
