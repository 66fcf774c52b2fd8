#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.

A property is claimed when at least one obligation (a reference definition in
/verif/specs, directive //verif:...) or one rule of the analyzer names it."""
import json, os, re, glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []

def prop(id, title, statement, over, quant, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })

prop("P01", "Two imported packages never share a name in the file",
     "Within one file's imports, every imported package gets its own name: the requested name if it is free, otherwise that name followed by the smallest positive number that makes it unused. The name of an imported package never changes afterwards, whatever is imported later.",
     ["inputs", "histories"], "every sequence of imports, in any order, of packages with any paths and names, including names that end in digits and clash with generated ones",
     "the tests import a handful of packages in one order; the guarantee is about every history of imports",
     ["imports.go"], [("registration of imports and the choice of a suffix", "imports.go: RegisterImport, prefixForPackage")],
     ["RegisterImport", "ImportSpecs", "rendered import statements"])
prop("P02", "Import statements agree with the qualifiers, sorted and aliased as needed",
     "The list of import statements has exactly one entry per registered package, sorted by import path; an entry has an alias exactly if the package's name in the file differs from the declared name it was registered with, and the alias is then the name used to qualify references. An import spec's text is the quoted path, preceded by the alias and a space if there is one.",
     ["inputs", "histories"], "every set of registered packages",
     "tests compare one generated file; map order, aliasing and sorting vary with the set of packages",
     ["imports.go", "model.go"], [("import table", "imports.go: ImportSpecs, ImportSpec.String"), ("alias flag", "imports.go: prefixForPackage")],
     ["ImportSpecs", "ImportSpec.String", "rendered import statements"])
prop("P03", "Registering is idempotent; lookups never register; own package has no prefix",
     "Registering a package again returns the same prefix and changes nothing; the file's own package always has the empty prefix and is never imported. The look-up operations (prefix, symbol, type and signature qualification) never add an import and panic if a needed package was never registered.",
     ["inputs", "histories"], "every import history and every package, symbol, type or signature",
     "depends on the history of registrations; tests look at a few",
     ["imports.go"], [("shared look-up with a flag whether to register", "imports.go: prefixForPackage, qualify, qualifyType, qualifySignature")],
     ["PrefixForPackage", "Qualify", "QualifyType", "QualifySignature", "ImportSpecs"])
prop("P04", "A package of unknown name gets an alias that is a usable identifier",
     "A package registered without a name is imported under an alias derived from the last element of its path in which everything but letters and digits is replaced by underscores, preceded by \"pkg\" if the result would not start with a letter, is a keyword, or is \"init\". The import statement then always has this alias.",
     ["inputs"], "every import path, including ones that end in keywords, digits, dots, dashes or non-ASCII letters",
     "import paths are unbounded; the tests use ordinary ones",
     ["imports.go"], [("alias computation", "imports.go: aliasFor")],
     ["RegisterImport", "ImportSpecs"])
prop("P05", "Qualifying a symbol changes nothing but the package name",
     "A symbol qualified for a file keeps its name and import path; its package name becomes the name under which the package is imported, or empty for the file's own package. A symbol without any package is returned as it is and imports nothing.",
     ["inputs", "histories"], "every symbol and import history",
     "all combinations of symbols and histories of imports",
     ["imports.go"], [("symbol qualification", "imports.go: EnsureImported, Qualify, qualify")],
     ["EnsureImported", "Qualify"])
prop("P06", "Qualifying a type reaches every reference and preserves structure",
     "Qualifying a type or a signature re-qualifies every named type and embedded interface in it, at any depth (elements, keys, arguments, results, fields, methods), and otherwise yields the same type: kinds, lengths, directions, names, tags, order and variadicity stay. Packages are imported in the order in which they occur in the type.",
     ["inputs", "histories"], "every type of any nesting depth and every signature",
     "types are recursive without bound; the tests use shallow ones",
     ["imports.go", "types.go"], [("recursive qualification", "imports.go: qualifyType, qualifySignature, qualifyArgs, qualifyFields, qualifyMethods, qualifySymbols")],
     ["EnsureTypeImported", "EnsureAllTypesImported", "QualifyType", "QualifySignature"])
prop("P07", "Every supported reference in a code block's arguments is qualified",
     "Each argument of a formatted code block that is a supported reference (package, symbol, method reference, signature, type name, const/var/type/func spec, or a reflect or go/types type, object or package) is rendered qualified for the file it is rendered into and its package is imported; methods given as func specs render as their name. Any other argument is passed to the formatter unchanged, in its position.",
     ["inputs", "programs"], "every format, every list of arguments of every dynamic type, every file",
     "kinds of arguments times files; the tests cover a few kinds in one file",
     ["code.go"], [("conversion by dynamic type", "code.go: line.qualify")],
     ["text of rendered code blocks", "import statements"])
prop("P08", "Template data: every supported reference is qualified",
     "In template data, each value of a supported reference kind (package, symbol, method reference, signature, type name, const/var/type/func spec, interface element, and reflect or go/types values held in interfaces that can hold the result) is replaced by its form qualified for the file, and its package is imported. Values whose qualified form cannot be held by their place are left as they are.",
     ["inputs", "programs"], "every template data value of any type and nesting",
     "the tests use one template",
     ["templates.go", "code.go"], [("reflective rewriting", "templates.go: qualifyTemplateData")],
     ["QualifyTemplateData", "text of rendered templates"])
prop("P09", "Template data is rebuilt without loss and never modified",
     "Rewriting template data keeps the type, length, order, keys and all unaffected elements of structs (including unexported fields), pointers, slices, arrays, maps and interfaces, and returns unaffected data itself. The caller's own data is never modified.",
     ["inputs"], "every combination of containers, addressable or not",
     "container kinds nest without bound; tests have one struct",
     ["templates.go", "templates_unsafe.go", "templates_no_unsafe.go"], [("copy on write", "templates.go: qualifyTemplateData"), ("access to unexported fields", "templates_unsafe.go, templates_no_unsafe.go: getField")],
     ["QualifyTemplateData", "the caller's data after rendering"])
prop("P10", "Everything in a file is qualified before anything is rendered",
     "Writing a file first qualifies every type, signature, embedded interface, initializer, body and field of every element for this file, and only then renders, so that no rendered reference lacks its import or carries another file's qualifier. Every element is both qualified and rendered.",
     ["programs", "histories"], "every file with any elements, nested declarations and previously rendered elements",
     "element kinds times nesting; the tests render one file",
     ["model.go", "code.go"], [("qualification pass", "model.go: WriteGoFile, qualify methods of elements")],
     ["rendered file"])
prop("P11", "File layout: comment, package clause, imports, elements in order",
     "A rendered file consists of the file comment followed by a blank line (if any), the package comment, the package clause with the canonical import annotation if set, a blank line, one import statement per import spec, and then every element in the order in which it was added, each preceded by a blank line; nothing else.",
     ["programs"], "every file",
     "presence and combination of all parts",
     ["model.go"], [("file rendering", "model.go: GoFile.writeTo")],
     ["rendered file"])
prop("P12", "A type's text is the Go expression of that type",
     "The text of a type is the Go syntax for exactly that type, for every kind and any nesting: named types with their package qualifier if any, pointers, slices, arrays, maps, channels by direction (parenthesised where needed), functions, structs with tags, interfaces with all their embeds and methods properly separated.",
     ["inputs"], "every type of any depth",
     "types are unbounded; separators and parentheses depend on combinations",
     ["types.go"], [("type rendering", "types.go: typeNameToString, typeNameToBuffer")],
     ["TypeName.String", "rendered declarations"])
prop("P13", "A signature's text is exact: names, commas, variadic, result parentheses",
     "A rendered signature lists all arguments and results in order, separated by commas; if any argument (or any result) has a name, then unnamed ones of that list are written as \"_\", and otherwise only types are written. Only the last argument of a variadic signature is written as \"...\" and the element type, and results are parenthesised exactly if there are several or they are named.",
     ["inputs"], "every signature",
     "lists of any length with any mixture of names",
     ["types.go", "model.go"], [("signature rendering", "types.go: signatureToBuffer")],
     ["TypeName.String", "rendered functions, methods and interface methods"])
prop("P14", "Const, var and type declarations render completely and in order",
     "A declaration with several entries or with a comment of its own renders in grouped form with every entry and its comment in order; otherwise the single entry is rendered on one line after its comment. An entry consists of its comma-separated names, its type if any, and its initializer after an equals sign if any; a type entry of its name, an equals sign for an alias, and its underlying type.",
     ["programs"], "every declaration with any number of entries, with or without comments, types and initializers",
     "combinations of optional parts",
     ["model.go"], [("rendering of declarations", "model.go: writeTo of ConstDecl, VarDecl, TypeDecl and their specs")],
     ["rendered file"])
prop("P15", "Functions, methods, struct and interface bodies render completely",
     "A function renders as its comment, the receiver if any (name, star for a pointer, type), name, signature and body in braces. A struct renders every field (comment, name unless embedded, type, tag) and an interface every embed and method, with comments, in order.",
     ["programs"], "every function, receiver, struct and interface, including unnamed struct and interface types of fields",
     "combinations of optional parts and nesting",
     ["model.go"], [("rendering", "model.go: FuncSpec.writeTo, FieldSpec.writeTo, InterfaceEmbed.writeTo, InterfaceMethod.writeTo, writeUnderlying")],
     ["rendered file"])
prop("P16", "Every line of a comment is commented",
     "A comment renders as one \"// \" line for each of its lines, including empty ones, each ended by a newline, so that no text of a comment can become code; an empty comment renders as nothing.",
     ["inputs"], "every comment text",
     "texts are unbounded",
     ["model.go"], [("comment rendering", "model.go: writeComment")],
     ["rendered file"])
prop("P17", "Struct tags render to literals that denote exactly the tag",
     "Wherever a struct is rendered (as a type or as a declaration), a non-empty tag renders after the field's type as a raw literal if it can be one and otherwise as an interpreted literal, in both cases denoting exactly the tag; an empty tag renders as nothing.",
     ["inputs"], "every tag text, including ones with backquotes, control characters and invalid UTF-8",
     "texts are unbounded; there are two renderers",
     ["model.go", "types.go"], [("tag rendering", "model.go: FieldSpec.writeTo; types.go: typeNameToBuffer")],
     ["rendered file", "TypeName.String"])
prop("P18", "Code blocks render their pieces verbatim, in order, and compose",
     "A code block renders the concatenation of its pieces in the order in which they were added: plain text verbatim (even if it contains format verbs), formatted text as the formatter yields it, templates as executed; the line-ending variants add exactly one newline. Adding a code block to another appends all its pieces, and the operations on functions act on the function's body in the same way.",
     ["inputs", "histories"], "every sequence of operations and every text",
     "sequences of any length; texts with percent signs",
     ["code.go", "model.go"], [("code elements", "code.go: Print, Println, Printf, Printlnf, RenderCode, AddCode, writeTo"), ("delegation", "model.go: methods of FuncSpec")],
     ["text of rendered code blocks"])
prop("P19", "A file is written in one piece, and only if it is valid",
     "Writing a file passes the formatted source to the writer in a single call, and only after rendering and formatting succeeded; if formatting fails, nothing is written and the returned error carries the unformatted source and the underlying error. An error of the writer is returned.",
     ["programs", "fault_sequences"], "every file and every behaviour of the writer",
     "errors of formatting and of the writer are not exercised by tests",
     ["model.go"], [("write order", "model.go: WriteGoFile"), ("error", "model.go: FormatError")],
     ["calls to the writer", "returned error"])
prop("P20", "Every opened output is closed exactly once; the first error is returned",
     "Writing several files opens one output per file, in order, under the file's import path and name, and closes each opened output exactly once, whether or not writing it succeeds or panics. The first error (of opening, writing, or closing, in that order of precedence for a file) is returned and no further file is opened.",
     ["programs", "fault_sequences"], "every list of files and every failing open, write or close",
     "faults are not exercised by tests",
     ["model.go"], [("open, write, close", "model.go: WriteGoFiles")],
     ["calls to the opening function and its writers", "returned error"])
prop("P21", "Files land below the given root, or below the first GOPATH entry",
     "Writing to the file system opens, for each file, the path made of the root, the file's import path and its name for writing, creating or truncating it, after creating its directory; failures are returned as errors. Writing to GOPATH uses the first entry of the variable as root, and returns an error exactly if the variable is empty.",
     ["inputs", "configurations", "fault_sequences"], "every root, file and value of the environment variable",
     "paths, environment and file system faults are not exercised by tests",
     ["model.go"], [("file system wrapper", "model.go: WriteGoFilesToFileSystem, WriteGoFilesToGoPath")],
     ["operating system calls", "returned error"])
prop("P22", "Conversion from go/types is faithful",
     "Converting a go/types type yields the type with the same structure at every depth: names with package, basic kinds, lengths, directions, fields with names, embedding and tags, embedded interfaces, explicit methods, parameters, results and variadicity; types that have no counterpart are refused by a panic. Packages and objects of the universe scope have no package.",
     ["inputs"], "every go/types type without type parameters",
     "types are unbounded; the tests convert a few",
     ["types.go"], [("conversion", "types.go: TypeNameForGoType, signatureFromGoType, argsTypesForGoType"), ("packages", "model.go: PackageForGoType")],
     ["TypeNameForGoType", "PackageForGoType"])
prop("P23", "Conversion from reflect types is faithful",
     "Converting a reflect type yields the type with the same structure at every depth: named types with import path, basic kinds, lengths, directions, fields with names, embedding and tags, methods, parameters, results and variadicity; types that cannot be represented are refused by a panic.",
     ["inputs"], "every reflect type",
     "types are unbounded; the tests convert a few",
     ["types.go"], [("conversion", "types.go: TypeNameForReflectType, signatureFromReflectType")],
     ["TypeNameForReflectType"])
prop("P24", "A type reports exactly what it was made of",
     "A type made by a constructor reports its kind and precisely the parts it was made from, and the documented neutral value for every part that its kind does not have. The predeclared types are the basic types of their names, plus the error type and the unsafe pointer.",
     ["inputs"], "every constructor and every argument",
     "11 kinds times 11 accessors",
     ["types.go"], [("constructors and accessors", "types.go: BasicType … InterfaceType, accessor methods")],
     ["accessors of TypeName"])
prop("P25", "Types are immutable and share nothing with their callers",
     "After a type was made, changing the slices, signatures or symbols it was made from, or anything that its accessors returned, never changes the type. Two calls of an accessor return independent values.",
     ["histories"], "every history of modifications of arguments and results",
     "aliasing shows only in histories that modify what they passed or got",
     ["types.go"], [("defensive copies", "types.go: FuncTypeFromSig, StructType, InterfaceType, Signature, Fields, Methods, Embeds")],
     ["accessors of TypeName after modifications"])
prop("P26", "Impossible types are refused when they are made",
     "Constructors panic for missing element, key, argument or result types, negative array lengths, invalid channel directions, non-basic kinds, and variadic signatures whose last argument is not a slice; a channel direction of zero means both directions. All other arguments are accepted.",
     ["inputs"], "every argument",
     "boundary values",
     ["types.go"], [("validation", "types.go: constructors")],
     ["constructors of TypeName"])
prop("P27", "Specs denote their symbols; their text never fails",
     "A const, var, type or func in a file converts to the symbol (or method reference) of its name in that file's package, and one that is in no file, or has no single name, refuses the conversion by a panic. The text of a spec is the text of its symbols (comma-separated if there are several), the bare names if it is in no file, the bare name for a method, and getting it never panics.",
     ["programs"], "every spec, with any number of names, in a file or not",
     "combinations of attachment and names",
     ["model.go"], [("symbols", "model.go: ToSymbol, SymbolAt, String, ToTypeName, ToMethodRef")],
     ["ToSymbol", "SymbolAt", "String", "ToTypeName", "ToMethodRef"])
prop("P28", "Adding an element to a file attaches everything in it",
     "Adding an element to a file appends exactly that element and associates it and every spec within it with the file; adding a single const, var or type is the same as adding a declaration of just it. Fields and interface elements belong to the type spec they were put in.",
     ["programs", "histories"], "every element and order of additions",
     "combinations of declarations",
     ["model.go"], [("parent association", "model.go: AddElement, AddConst, AddVar, AddType, setParent")],
     ["NumElements", "ElementAt", "ToSymbol of specs"])
prop("P29", "Export and unexport change only the first letter",
     "The exported form of a name starts with an upper-case letter and the unexported form does not, for every name that is not empty; an already suitable name is returned unchanged by export. Apart from the first letter being changed (or an \"X\" or \"x\" put in front, or in place of a leading underscore), the name stays the same, and invalid UTF-8 at the start is refused by a panic.",
     ["inputs"], "every string",
     "strings with any first character",
     ["names.go"], [("first letter", "names.go: Export, Unexport")],
     ["Export", "Unexport"])
prop("P30", "Builder methods set exactly what they say and return their receiver",
     "Every factory and chaining method of the element types (comments, types, tags, initializers, names, arguments, results, variadicity, elements) sets or appends exactly the named part to the given value, leaves all other parts alone, and chaining methods return the receiver itself.",
     ["programs"], "every builder method, on any value",
     "dozens of methods times states",
     ["model.go", "types.go"], [("builders", "model.go, types.go: New*, Set*, Add*, Initialize")],
     ["fields of the elements", "rendered file"])
prop("P31", "Rendering does not change shared code, arguments or data",
     "Rendering a file never modifies the code blocks' recorded pieces, the caller's argument lists, argument values or template data, so the same code can be rendered into several files, each with its own qualifiers, in any order and repeatedly.",
     ["histories", "programs"], "every sequence of renderings of code shared among files",
     "needs several files that share code",
     ["code.go", "templates.go", "imports.go"], [("separate qualified copy", "code.go: CodeBlock.qualify, line.qualify, templ.qualify")],
     ["text of files that share code", "caller's arguments after rendering"])
prop("P32", "Output is a function of the input: no dependence on map order",
     "Everything the library returns or writes depends only on its inputs, never on the iteration order of a map, on addresses, time or randomness. In particular aliases and import statements are the same in every run. (Map keys that are pointers to equal values have no order of their own; data with such keys is outside.)",
     ["schedules", "inputs"], "every iteration order of every map",
     "a test sees one iteration order",
     ["imports.go", "templates.go"], [("sorting before use", "imports.go: ImportSpecs; templates.go: map case of qualifyTemplateData")],
     ["all results"])
prop("P33", "All build variants behave alike",
     "The build with and the build without the use of unsafe memory access have the same interface and behave identically, except that unexported struct fields of template data are rewritten only in the former.",
     ["configurations"], "every build tag combination the sources distinguish",
     "tests run in one build configuration",
     ["templates_unsafe.go", "templates_no_unsafe.go"], [("build tags", "templates_unsafe.go, templates_no_unsafe.go: getField")],
     ["all results in both builds"])
prop("P34", "Objects of go/types convert to the right symbols and method references",
     "A go/types object converts to the symbol of its name in its package; a method converts to the method reference of its (pointer-free) receiver type and its name. Objects of the universe scope convert to symbols without package.",
     ["inputs"], "every object of a type-checked program",
     "kinds of objects",
     ["model.go"], [("conversion", "model.go: SymbolForGoObject, PackageForGoType")],
     ["SymbolForGoObject", "PackageForGoType"])
prop("P35", "Receivers are made only for named types, with the right name and pointer flag",
     "A receiver made for a type has that named type's name and is a pointer receiver exactly if asked for or given a pointer to a named type; unnamed or empty types are refused by a panic. A method's type has the receiver type (pointer if so) as its first argument, followed by its own arguments.",
     ["inputs"], "every type name and spec",
     "combinations of constructors and types",
     ["model.go"], [("receivers", "model.go: NewReceiver, NewReceiverForType, NewPointerReceiver, NewPointerReceiverForType"), ("method types", "model.go: FuncSpec.ToTypeName, InterfaceMethod.ToTypeName")],
     ["fields of ReceiverSpec", "ToTypeName"])
prop("P36", "No hidden state and no side effects outside of the write operations",
     "Package-level state is never modified after initialization, so independent files can be built and rendered concurrently. Only the write operations perform I/O, and only through the given writers or, for the file system variants, the operating system calls for creating directories and files and reading the one environment variable.",
     ["schedules", "programs"], "every schedule of independent uses and every operation",
     "races and effects on shared state do not show in sequential tests",
     ["imports.go", "types.go", "model.go", "code.go", "templates.go", "names.go"], [("absence of mutable globals", "all files")],
     ["package variables", "calls with external effects"])
prop("P37", "A type spec's body always describes its underlying type",
     "A type spec made from a struct or interface type, from fields or interface elements, or from an unnamed spec, has a body with exactly the fields, embeds and methods of its underlying type, and a spec made from a named spec refers to that name. Its underlying type has exactly the given fields or elements in order.",
     ["programs"], "every way of making a type spec",
     "combinations of types and specs",
     ["model.go"], [("constructors", "model.go: NewTypeSpec, NewTypeAlias, NewStructTypeSpec, NewInterfaceTypeSpec")],
     ["Underlying", "rendered declarations"])
prop("P38", "Operations terminate: recursion only descends, loops are bounded",
     "Every operation terminates on every finite input: recursion always descends into a proper part of its argument and every loop is bounded by the size of an input or strictly advances to a state that ends it. (Types are well-founded, as in Go: an unnamed type does not contain itself. Template data may be any Go value.)",
     ["inputs"], "every input",
     "a test cannot show termination for all inputs",
     ["imports.go", "types.go", "templates.go", "model.go"], [("structural recursion", "imports.go: qualifyType; types.go: TypeNameForGoType, TypeNameForReflectType, typeNameToBuffer; templates.go: qualifyTemplateData"), ("search for a free name", "imports.go: prefixForPackage")],
     ["every operation returns"])

NOT_APPLICABLE = {}

def claimed():
    got = {}
    for f in sorted(glob.glob(os.path.join(V, "specs", "*.go"))):
        for m in re.finditer(r"^//verif:(\S+) (\S+)", open(f).read(), re.M):
            for p in m.group(1).split(","):
                got.setdefault(p, []).append(m.group(2))
    src = open(os.path.join(V, "analyzer", "rules.go")).read()
    rules = {}
    for m in re.finditer(r'\{"([^"]+)", \[\]string\{([^}]*)\}', src):
        for p in re.findall(r'"(P\d+)"', m.group(2)):
            rules.setdefault(p, []).append(m.group(1))
    return got, rules

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    obs, rules = claimed()
    checks, na = [], []
    for p in P:
        i = p["id"]
        o, r = obs.get(i, []), rules.get(i, [])
        if not o and not r:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no static argument for it has been built yet; it is not claimed")})
            continue
        tech = []
        if o:
            tech.append("value-graph equivalence (gated SSA normal forms) of %d operation(s) with reference definitions" % len(set(o)))
        if r:
            tech.append("whole-program SSA rules: " + ", ".join(sorted(set(r))))
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh %s" % i,
            "technique": "; ".join(tech),
            "level": "other",
            "level_note": "Static: decides every path of the analysed operations in the current source, in both build variants, without executing them. Trusts Go's type checker and SSA builder, the analyzer's models of the standard library functions it interprets, and the reference definitions in /verif/specs; what it cannot decide it lists as undecided in the evidence and does not claim.",
        })
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
               "notes": "One analyzer (Go, x/tools SSA) in /verif/analyzer; reference definitions in /verif/specs are type-checked together with /repo's package through an in-memory overlay. No hooks in /repo."},
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not:", [n["property"] for n in na])

main()
