prop("P13", "Version numbers in text and their order are read and written consistently",
     "A text is a version number if and only if it consists of two decimal numbers joined by a dot, and then stands for exactly that version; anything else is refused as a malformed version. Writing a version and reading it back gives the same version, and comparing versions is the total order by major and then minor version, whatever their size.",
     ["inputs"], "every text and every pair or triple of versions, including very large numbers",
     "the set of texts is infinite; the tests read a few well-formed ones",
     ["surface.go", "lineage.go"], "ParseSyntacticVersion, SyntacticVersion.String and Less, LatestVersion")
prop("P17", "A schema is assignable to a Go type exactly when the type can hold all instances",
     "A Go type is accepted for a schema if and only if, by the documented rules, every instance of the schema fits: the same fields at every depth, Go integers at least as wide as all values the schema allows (whatever default it has), strings for strings, booleans for booleans, slices for open lists, arrays of the same length for closed lists with elements of one type, and any for everything. Otherwise it is refused with an error, and checking never panics for these types.",
     ["inputs", "programs"], "every schema and every Go type made of structs, slices, arrays, maps, pointers, any and basic types",
     "a relation between all schemas and all Go types; tests compare a few dozen pairs, nearly all flat",
     ["assignable.go", "docs/invariants.md"], "AssignableTo, the recursive comparison of the schema with the CUE rendering of the Go type")
prop("P18", "An instance bound to a Go type gives its data and defaults as a Go value",
     "A schema can be bound to a Go type if and only if it is assignable to it; a new value of the type then has exactly the defaults the schema gives and zero values elsewhere, independent of values handed out before. The Go value of an instance holds exactly the instance's data with all defaults of the schema filled in, binding an instance to a type succeeds if and only if it is an instance of the very schema bound, and validation by a typed schema accepts exactly what the plain schema accepts.",
     ["inputs", "programs", "histories"], "every schema with a Go type it is bound to, every instance, every document, and sequences of uses of one binding",
     "which fields have defaults, are optional or nested in lists determines the path taken; tests use one flat struct",
     ["bind.go", "schema.go", "instance.go", "impl.go"], "BindType, TypedSchema.NewT and ValidateTyped, BindInstanceType, TypedInstance.Value")
prop("P19", "Generated JSON Schema and OpenAPI documents agree with the schema they come from",
     "The JSON Schema and OpenAPI documents generated from a schema are well-formed, carry the version of the schema and a component named as asked (the lineage, the root name given, the subpath, or each top-level field for groups), and say about data what the schema says: every instance with its defaults filled in is allowed, and data with a missing required field or with a value that the schema does not allow is refused, at any depth (fields not mentioned in the schema, 32-bit ranges, and whole numbers for floats excepted, which these languages or their encoder do not rule out). A subpath that exists in the schema, nested or optional, is found, one that does not is an error, and one configuration can be used for any number of schemas and lineages.",
     ["inputs", "programs"], "every schema (closed lists excepted), every document, every documented option of the generators",
     "tests compare generated text for a few fixed schemas and never ask which data the result allows",
     ["encoding/jsonschema/jschema.go", "encoding/openapi/oapi.go"], "GenerateSchema of both packages, the conversion of OpenAPI to JSON Schema")
prop("P20", "Go types generated from a schema compile and can hold every instance",
     "Go types generated from a schema are a well-typed Go package of the requested name (by default the lineage's in lower case) with a type of the requested root name (or one for each top-level field in groups), whose structs have exactly the fields of the schema under their own names at every depth. Each field has a Go type that holds all its values (strings, booleans, numbers, integers wide enough, slices, maps, nested structs, any for alternatives of several kinds, named types with exactly the constants of the enumeration); optional fields are pointers with omitempty unless pointers are switched off, then never, and required fields that are not nullable never are. This holds also for one configuration used for any number of lineages, and is for schemas without closed lists, without structs or enumerations in maps, whose constants are words or non-negative whole numbers and whose field names stay distinct as Go names.",
     ["inputs", "programs"], "every schema within the stated limits and every documented option of the generator",
     "tests compare generated text for fixed schemas; which of the rewriting passes applies where depends on nesting, optionality and names",
     ["encoding/gocode/gen.go", "encoding/gocode/decorators.go", "encoding/gocode/postprocessing.go"], "GenerateTypesOpenAPI and the passes over the generated syntax (depointerizer, fixRawData, fixUnderscoreInTypeName)")
prop("P24", "Lineages and runtimes can be used from several goroutines at the same time",
     "Runtimes can be created, and each used from a goroutine of its own, at the same time. On one runtime, binding lineages and Go types, looking up schemas and examples, validating data, translating instances through lenses in CUE, hydrating and dehydrating them and taking their Go values can be done from any number of goroutines at the same time (with data prepared beforehand). There is then no data race, no crash and no deadlock, and every operation has exactly the result it has by itself.",
     ["schedules", "histories"], "every set of sequences of these operations, for any number of goroutines and every interleaving",
     "the tests use every runtime from one goroutine at a time, and races show only in some schedules",
     ["runtime.go", "schema.go", "instance.go", "assignable.go", "lineage.go"], "the lock of Runtime and where it is held, NewRuntime")
prop("P25", "The command line gives the answers of the library, wherever the lineage is kept",
     "Each data command (validate, validate-any, translate, hydrate, dehydrate) of the thema program, given a lineage in a file, a directory, a package of a CUE module or at a path in one, and data in JSON or YAML from a file or standard input, exits with status 0 and writes exactly the version, instance and lacunas the library gives if the library succeeds, and otherwise exits with a non-zero status, says why on standard error and writes no result; with --quiet validation writes nothing. Without a version, validate takes the latest schema and the other commands the oldest one that accepts the data. The documents and Go types written by the generating commands are those of the schema asked for (the latest by default) in the format asked for.",
     ["inputs", "programs"], "every lineage, place it is kept in, document, way of passing it, version, format and command",
     "the tests run a few commands on two fixed lineages and one data file each",
     ["cmd/thema/data.go", "cmd/thema/load.go", "cmd/thema/lineage_subgen.go", "load/load.go"], "the data and lineage gen commands, lineageLoadArgs, dataLoadArgs, InstanceWithThema")
prop("P21", "TypeScript types generated from a schema compile and admit exactly its instances",
     "The TypeScript generated from a schema compiles, and declares and exports exactly: an interface (or, if asked for, an alias type) for the root under the requested name (by default the lineage name in title case) unless the lineage is a group, an interface for each top-level field marked for one, and, for interfaces whose top-level fields have defaults, a constant with exactly these defaults. An object literal can be assigned to a type if it is an instance with its defaults filled in, and cannot if a required field is missing, a field is not in the schema, or a value is not of the kind (or not one of the constants) that the schema has there, at any depth; ranges and patterns excepted, which TypeScript does not have. This holds also for one configuration used for any number of lineages, and is for schemas without length bounds on strings and without closed lists at the top level, whose field names are identifiers.",
     ["inputs", "programs"], "every schema within the stated limits, every document, every documented option, any sequence of uses of one configuration",
     "tests compare generated text for fixed schemas and the default configuration; nothing compiles the result",
     ["encoding/typescript/gen.go"], "GenerateTypes")
prop("P22", "Lineages that Thema writes itself are the ones that were described",
     "A lineage made from a schema, by the library from a CUE value or on the command line from a JSON Schema or OpenAPI document or with no fields, is a correct lineage of the given name (and package) whose only schema is 0.0 and accepts exactly the data the given schema accepts. A lineage in the old form (sequences of schemas), wherever in a package it is, is rewritten in place, by the library or the command line, into a lineage with the same name, join schema and schemas, numbered by their position, with the lenses over breaking changes meaning what they meant, and with a placeholder, in the right order, for each lens that is needed and was not there; other files and values stay as they are.",
     ["inputs", "programs"], "every schema (without fields named like predeclared types, which CUE's exporter confuses) and every lineage of the old form whose lenses are sound",
     "tests compare the text of twelve fixed rewritten lineages and never bind them; whether references and imports survive depends on how lenses and schemas are written",
     ["encoding/cue/encode.go", "encoding/cue/rewrite.go", "cmd/thema/lineage_init.go", "cmd/thema/lineage_fix.go"], "NewLineage, RewriteLegacyLineage, the lineage init and lineage fix commands")
prop("P29", "Generated Go bindings give a program the lineage they were made from",
     "A Go program with bindings that were generated for a lineage (by the library, or by the command line in a Go or CUE module, whatever the name of the CUE package, the directory and the path of the lineage) compiles, with the factory and package named as asked, and the factory binds a lineage with the same name and versions that accepts the same data. Where a Go type is asked for to which the schema (of the version given, or else the latest) is assignable, the factory gives the lineage bound to that type at that version.",
     ["inputs", "programs"], "every lineage, every place for it in a module, every combination of the generator's options; what an option leaves to the user is supplied as documented",
     "tests compare generated text; nothing compiles or runs it",
     ["encoding/gocode/gen.go", "encoding/gocode/binding.tmpl", "cmd/thema/lineage_subgen.go", "load/load.go"], "GenerateLineageBinding, the gobindings command, InstanceWithThema, AsModFS")
prop("P23", "Loading gives exactly the CUE package asked for, with Thema importable",
     "From any file system with a CUE module (or made into one, which leaves one that already is as it is), loading gives exactly the fields of the files of the package asked for in the directory asked for and those above it - by default the package named like the directory, or at the root like the last element of the module name - where Thema, other packages of the module, and packages vendored in cue.mod can be imported without being fetched. Files of other packages, of no package, or that are no CUE sources make no difference. A file system without a valid module description, or that has Thema in it already, is refused as not being a module, and a directory that is not there is an error.",
     ["inputs", "configurations"], "every tree of files, module description, directory and package name (for imports that are there and not circular)",
     "no test loads more than one package in one directory",
     ["load/load.go", "internal/util/util.go"], "InstanceWithThema, AsModFS, Package, ToOverlay")
prop("P30", "A lineage with lenses in CUE binds only if they are listed in order",
     "A lineage with lenses in CUE binds only if the lenses are listed in ascending order of the version they lead to, and for the same one in ascending order of the version they come from; listed otherwise, by however little and wherever, binding returns no lineage but an error recognisable as wrong order of lenses. Lenses in the right order are never a reason to refuse a lineage, however many versions it has.",
     ["inputs"], "every lineage that is otherwise correct and every order of its lenses",
     "the number of orders grows with the factorial of the number of lenses; one test has one of them",
     ["bind.go", "errors/errors.go"], "checkLensesOrder, doCheck, SyntacticVersion.Less")
