# Executed by gen_manifest.py.
LEVEL = {}
NA = []
TECH = {
 "P10": "runtime monitoring: recorded call histories of instrumented lenses checked against the model",
}
HELD = "Held on every generated case of the run (counts in the evidence); says nothing about inputs outside the generated sub-language. Trusts the reference model and CUE v0.5's evaluation of it. "

prop("P01", "Version lookup and navigation agree with the declared schemas",
 "For every lineage that binds, the schemas it offers are exactly those declared, in ascending version order; first, latest and latest-in-major are the extremes; looking up a version succeeds exactly for declared ones and yields the schema with that version and that content. Each schema's successor and predecessor are its neighbours in that order, or nothing at the ends, and lead back to where they came from; for any existing or non-existing version the lookups answer without panicking (the variants documented to panic excepted).",
 ["inputs", "configurations"], "every valid sequence of versions, every version looked up in or around it, every schema of it, in lineages bound once and reached through typed schemas",
 "Tests follow links in a handful of two- or three-version fixtures; latest-in-major of a lineage with a later major was wrong and no test noticed.",
 ["lineage.go", "schema.go", "surface.go", "bind.go"],
 [("version list kept in bind order and binary/linear search over it", "lineage.go"), ("successor and predecessor links", "schema.go, surface.go"), ("surface functions SchemaP, LatestVersion, LatestVersionInSequence", "surface.go")],
 HELD + "All shapes up to 3x3 are enumerated, larger ones sampled up to 7 majors x 6 minors.",
 [("allv, allsch", "the ordered versions and schemas", "lineage.go")], ["thema.Lineage", "thema.Schema"])

prop("P02", "Versions are totally ordered and print and parse inversely",
 "Comparison of versions is the lexicographic total order on (major, minor). Printing a version gives \"major.minor\" in decimal and parsing that text gives the version back; any text that is not two dot-separated unsigned decimal numbers that fit 32 bits is rejected with an error that the library marks as a malformed version, and never with a panic.",
 ["inputs"], "all pairs and triples of versions, including the largest representable, and all texts",
 "Tests compare a few small versions; boundary numbers and hostile texts are never tried.",
 ["lineage.go", "surface.go", "errors/errors.go"],
 [("SyntacticVersion.Less/String and ParseSyntacticVersion", "surface.go")], HELD + "All pairs over {0..3}x{0..3} enumerated.")

prop("P03", "A lineage binds exactly when its version sequence obeys Thema's rules",
 "Binding accepts a lineage whose versions start at 0.0, increase by one minor or to the next major's zero, and in which every minor step is a backwards compatible change of the schema and every major step is not. It rejects, with an error identified as an invalid-lineage error and without panicking, any lineage that breaks one of these rules, including values that are no lineage at all.",
 ["inputs", "programs"], "every lineage in the generated schema language: correct, or with one breach of the rules at any place",
 "Tests bind a few dozen fixed lineages; the rule must hold for every pair of consecutive schemas at every position of a lineage of any length.",
 ["bind.go", "lineage.go", "lineage.cue", "errors/errors.go"],
 [("checkLineageShape, checkGoLensCompleteness, schema subsumption checks", "bind.go"), ("#Lineage invariants", "lineage.cue")],
 HELD + "Changes that CUE v0.5's own subsumption misjudges are recorded as known findings or left out of the workload (DESIGN.md).")

prop("P04", "The lenses supplied must be exactly those the version sequence requires",
 "A lineage bound with Go lenses is accepted exactly when there is one lens for each major upgrade and one for each step backwards; a missing, superfluous, duplicate or nil lens is rejected at bind time. A lineage bound with the exact set of CUE lenses is accepted, and the order in which lenses are listed does not change any translation.",
 ["inputs", "configurations"], "every version sequence, every subset error of the required lens set, every order of the lenses and of the options that supply them",
 "Tests supply right and wrong lens sets for one small lineage only.",
 ["bind.go", "lineage.cue"], [("checkGoLensCompleteness", "bind.go"), ("lens list of #Lineage", "lineage.cue")],
 HELD + "CUE lens sets that are incomplete or superfluous bind without error: recorded as known findings.")

prop("P05", "Validation accepts exactly the instances of the schema",
 "Validating data against a schema succeeds exactly when the data, as plain JSON data, is a complete instance of that schema: every field present that the schema does not itself determine, no field the schema does not allow, every value of the required kind and within bounds. The resulting instance carries the data unchanged and names that schema and lineage; the outcome is the same whether the data came as JSON, YAML or Go values.",
 ["inputs", "programs"], "every schema in the generated language, in any position of a lineage, and every data value, valid, nearly valid or arbitrary",
 "Tests validate fixed documents against fixed schemas; membership must hold for every pair.",
 ["schema.go", "validate.go", "instance.go", "vmux/mux.go"], [("schemaDef.Validate", "schema.go")],
 HELD)

prop("P06", "A validation failure names the schema, the path and the kind of fault",
 "When validation fails, the error is identified as an invalid-data error, names the lineage and version validated against, and describes each fault with a non-empty message giving the path at which it occurs. The fault's class (missing, excess, wrong kind, out of bounds) agrees with the data and, where it quotes the schema's and the data's values, quotes each on its own side. Positions are listed on the side they belong to; those in the data point at the fault.",
 ["inputs"], "every single fault, and combinations of independent faults, at every path of every generated schema",
 "Golden files hold about ten reports; some fault classes printed nothing at all.",
 ["validate.go", "errors/errors.go", "schema.go"], [("mungeValidateErr and the fault types", "validate.go")],
 HELD + "Missing fields are reported only when there is no other fault; the check does not demand otherwise.")

prop("P07", "Searching a lineage for data's schema yields the oldest that admits it",
 "Asking a lineage to validate data of unknown version returns an instance of the oldest schema that the data is valid for, with the data unchanged, and nothing when no schema admits it.",
 ["inputs"], "every generated lineage and data value, including data valid for several versions and none",
 "Tests try a few documents; which version wins depends on the whole lineage.",
 ["lineage.go"], [("ValidateAny", "lineage.go")], HELD)

prop("P08", "Translation with CUE lenses is the composition of the declared lenses",
 "Translating an instance from any version to any other applies, one version at a time along the sequence, the lens declared for each step backwards and for each major upgrade, and only defaults filling for minor upgrades. The result is a valid instance of the target schema holding exactly the data that this composition gives; translation to the same version returns the data unchanged. Going to the predecessor, or over a major version to the successor, by the methods for neighbours gives what translating there gives.",
 ["inputs", "programs", "histories"], "every pair of versions of every generated lineage with any number of majors and minors, and every instance",
 "Tests translate a few values through lineages of up to three versions; wrong lens selection with four or more majors went unnoticed.",
 ["instance.go", "translate.cue", "lineage.cue", "runtime.go"], [("Instance.Translate and the CUE #Translate definition", "instance.go, translate.cue"), ("version indices and counts", "lineage.cue")],
 HELD)

prop("P09", "A faulty lens makes translation fail instead of yielding a wrong instance",
 "If the composed lenses do not give a complete instance of the target schema (a field left unset, a wrong kind, out of bounds, not allowed, a failing reference, or no lens), translation returns an error identified as an invalid-lens error, and no instance; it never panics, never returns the input or partial data in place of the result, and never returns an instance that the target schema does not admit. Translations that do not pass through the faulty lens are unaffected.",
 ["inputs", "fault_sequences"], "every fault class at every lens of every generated lineage, for every pair of versions and instances that do or do not trigger it",
 "Tests contain no failing CUE lens; input used to be returned untranslated.",
 ["instance.go", "translate.cue", "errors/errors.go"], [("checks on the translated value", "instance.go")],
 HELD + "Only the final result is judged: a later lens may mask an earlier step's fault.")

prop("P10", "Go lenses are called in sequence, once per step, and their failures reported",
 "With Go lenses, translation calls, in order, exactly the lens of each step of the path between the versions (minor upgrades use none), handing each the previous step's instance, and returns the last result as an instance of the target schema. The first lens that fails, returns nothing, or returns an instance of another schema ends the translation with an error that wraps the lens's own, and later lenses are not called.",
 ["inputs", "histories", "fault_sequences"], "every version pair of every generated shape, with a failure of each kind at each step",
 "One test runs Go lenses in one small lineage, without failures.",
 ["instance.go", "bind.go"], [("translateGo", "instance.go")], HELD + "Lens calls are recorded by instrumented lenses and the history compared.")

prop("P11", "Translation reports every lacuna that applies, in order, and no other",
 "The lacunas returned by a translation are those that the lenses of the steps taken declare, in the order of the steps and of their declaration, restricted to those whose condition holds for the input of their step, with type, message and field references as declared. A translation through lenses without applicable lacunas returns none.",
 ["inputs", "histories"], "every lineage with any number of conditional and unconditional lacunas, every version pair and instance",
 "The golden files have no lacuna that reaches the caller: none was ever emitted.",
 ["lacuna.go", "lacuna.cue", "instance.go", "translate.cue"], [("flattening of the lacunas of each step", "instance.go, lacuna.go")], HELD)

prop("P12", "An instance stays valid, unchanged, for later minor versions of its major",
 "In every lineage that binds, data valid for a version is valid for every later minor version of the same major. Translating it there succeeds, without lacunas, keeps all of the data and adds only values that the later schema determines.",
 ["inputs", "programs"], "every run of minor versions produced by any sequence of compatible changes, every instance and pair",
 "Compatibility is checked schema against schema by CUE; the tests never check what it means for instances.",
 ["bind.go", "instance.go", "lineage.cue"], [("backwards compatibility check at bind", "bind.go"), ("implicit lenses", "translate.cue")],
 HELD + "Two changes for which the guarantee fails are known findings (default dropped, constant widened).")

prop("P13", "All muxers take, for any input, the version and result the rules prescribe",
 "A muxer for a schema accepts bytes that decode to an instance of any version of the lineage: of the target itself first, otherwise of the latest version that admits it, and gives that instance translated to the target, with its lacunas; untyped, typed, value and byte muxers give the same data, in their own form and, for bytes, in the codec's format. Bytes that do not parse, or that no version admits, give an error (for the latter an invalid-data error that lists all versions) and no result; an error of the caller's own decoder or encoder is returned as it is; a muxer may be used any number of times.",
 ["inputs", "histories"], "every generated lineage, target version, input of any version or none, codec, and order of uses of one muxer",
 "Tests mux a few valid documents in one lineage.",
 ["vmux/untyped.go", "vmux/typed.go", "vmux/value.go", "vmux/byte.go", "vmux/mux.go"], [("NewUntypedMux and the muxers layered on it", "vmux")], HELD)

prop("P14", "Codecs lose nothing: decode and encode are inverse on JSON and YAML data",
 "Data decoded by the JSON or YAML codec and encoded again by either, or translated from one format to the other, is the same data when read by an independent parser: same kinds, numbers, strings, nesting and emptiness. Truncated JSON is refused.",
 ["inputs"], "all JSON data with hostile strings, keys and numbers",
 "Tests encode a few friendly documents.",
 ["vmux/mux.go"], [("jsonCodec, yamlCodec", "vmux/mux.go")],
 HELD + "Three inputs that CUE v0.5's own encoders spoil are known findings.")

prop("P15", "A Go type is assignable to a schema exactly when it can hold its instances",
 "The assignability test accepts a Go type made field by field for the schema (names, kinds, optional as pointer or omitempty, wide enough integers, slices and arrays for lists), and every instance of the schema then decodes into that type without error or loss. It rejects types with a field missing, added, renamed, of another kind, or with an integer type too narrow for the schema, at any depth, and binding a type to a schema fails exactly when the test does.",
 ["inputs", "programs"], "every generated schema, Go types derived from it, single mutations of them at any depth, and instances",
 "Tests list about 60 schema and type pairs.",
 ["assignable.go", "bind.go"], [("assignable", "assignable.go"), ("BindType", "bind.go")],
 HELD + "Two pairs where the code misjudges are known findings.")

prop("P16", "Typed schemas and instances agree with the untyped ones and the Go type",
 "For a schema bound to a Go type, typed validation accepts what untyped validation accepts; the Go value of a typed instance equals the instance's data with the schema's defaults filled in at every depth, and new values of the type carry the defaults. Values handed out are independent: changing one changes neither the instance nor any other value; an instance of another version or lineage does not bind to the typed schema.",
 ["inputs", "histories"], "all instances of a four-version lineage with nested, optional, list, defaulted and union fields, in any order of use",
 "Tests bind types and read a value or two.",
 ["bind.go", "schema.go", "instance.go"], [("BindType, BindInstanceType, NewT, Value", "bind.go, schema.go, instance.go")], HELD)

prop("P17", "The append-only test accepts exactly extensions of a lineage",
 "Comparing an old and a new state of a lineage as append-only passes when the new one has all of the old one's schemas at the same versions with the same meaning, possibly rewritten (fields reordered, reformatted) and possibly followed by further schemas. It fails when any published schema, at any position, was removed or changed in what it admits.",
 ["inputs", "histories"], "every generated lineage, every extension of it, every single change to or removal of a published schema at any position",
 "Tests compare a few fixed pairs, with the change always in the same place.",
 ["lineage.go"], [("IsAppendOnly", "lineage.go")],
 HELD + "Two kinds of change that CUE v0.5 cannot see are known findings.")

prop("P18", "Hydrate adds exactly the defaults; Dehydrate removes only what they restore",
 "Hydrating an instance yields the same data with every value filled in that the schema determines (defaults and constants, at any depth), and nothing else; the result is again an instance of that schema. Dehydrating removes only values that hydrating restores, never any other data; hydrating after dehydrating gives what hydrating gives. Neither changes the instance it is called on, and both are idempotent.",
 ["inputs", "programs"], "every generated schema with defaults at any depth, inside optional structs and list elements, and instances with any subset of the determined values absent or different",
 "A few golden files cover single defaults.",
 ["instance.go", "hydrate.go"], [("Hydrate and Dehydrate", "instance.go, hydrate.go")],
 HELD + "How much Dehydrate removes inside maps is not judged.")

prop("P19", "Generated OpenAPI and JSON Schema documents describe the schema's instances",
 "For every schema, OpenAPI and JSON Schema generation yields a document that independent validators load. Its component for the lineage, whatever root name, subpath or grouping was asked for, admits every hydrated instance and refuses data with a missing required field, a wrong kind, or an out-of-bounds or unlisted value. Definitions become components with the same guarantee; title and version name the chosen root and the schema's version, and defaults are stated. A subpath the schema does not have is an error.",
 ["inputs", "programs", "configurations"], "every generated schema that the formats can express (no tuples), at any version of a lineage, every mode, and data valid or with one fault",
 "Golden files fix some documents' text; nothing checks that the documents mean what the schema means.",
 ["encoding/openapi/oapi.go", "encoding/jsonschema/jschema.go"],
 [("GenerateSchema", "encoding/openapi/oapi.go"), ("rewriting of OpenAPI to JSON Schema", "encoding/jsonschema/jschema.go")],
 HELD + "Judged by kin-openapi and gojsonschema. Excess fields, integers in unions and sized integers in JSON Schema are outside what the documents express. Three null cases are known findings.")

prop("P21", "Examples declared with a schema are returned under their names, intact",
 "The examples a schema declares are returned as instances of that very schema, one for each name, with the names and data as declared, however many there are and whatever characters the names have. A lineage with an example that contradicts its schema does not bind.",
 ["inputs"], "every number of examples per schema and version, hostile names, complete examples and ones that rely on defaults, and faults in any of them",
 "One fixture has one example.",
 ["schema.go", "bind.go", "lineage.cue"], [("Examples", "schema.go"), ("examples field of #SchemaDef", "lineage.cue")],
 HELD + "Incomplete examples are a known finding.")

prop("P20", "Generated Go types compile and hold every instance of the schema",
 "For every schema, Go type generation yields code that compiles, in the chosen package (by default the lower-case name of the lineage), with a root type named after the lineage to which the schema is assignable. Every hydrated instance decodes into it and encodes back without loss or additions; every enumeration has a constant per value; with pointers for optional fields turned off there are none. Definitions, and with grouping each top-level field, have a type of their own that holds their data.",
 ["inputs", "programs", "configurations"], "every generated schema that Go can express (no tuples, no nullable fields), at any version of a lineage, every mode and every instance",
 "Golden files fix the text generated for some schemas; nothing compiles it or puts data into it.",
 ["encoding/gocode/gen.go", "encoding/gocode/decorators.go", "encoding/gocode/postprocessing.go", "assignable.go"],
 [("GenerateTypesOpenAPI and its syntax-tree rewriters", "encoding/gocode/gen.go"), ("depointerizer, fixRawData, fixUnderscoreInTypeName", "encoding/gocode/decorators.go")],
 HELD + "Compilation is judged by go/types and the types are rebuilt as run-time types. Seven classes of schema for which generation is known to fail are known findings and left out of the workload.")

prop("P22", "Generated TypeScript types describe the schema's instances and defaults",
 "For every schema, TypeScript generation yields code that type-checks under strict rules, with a root interface of the chosen name (by default the title-cased name of the lineage), or, for groups, without a root. The type admits every hydrated instance and refuses data with a missing field, a wrong kind or an unlisted value; definitions marked for generation have types with the same guarantee; the defaults constant evaluates to the schema's defaults.",
 ["inputs", "programs", "configurations"], "every generated schema that the generator supports, every mode, and data valid or with one fault that TypeScript can express",
 "Golden files fix the text for some schemas; nothing runs a TypeScript compiler.",
 ["encoding/typescript/gen.go"], [("GenerateTypes", "encoding/typescript/gen.go")],
 HELD + "Judged by tsc and node. Schemas that the underlying generator cuetsy mistranslates are known findings and left out of the workload.")

prop("P23", "New and rewritten lineages mean what their sources mean",
 "The lineage declaration made from any schema value loads, binds, has the given name and package and exactly one schema, 0.0, with the same instances as the value. Rewriting a legacy lineage declaration, wherever in a package it is found, gives a file that loads and binds with the same name, versions, schemas and, for every lens the legacy form had, the same mapping and lacunas; the lenses it lacked are marked to be written, and other declarations are kept. What is no legacy lineage is refused.",
 ["inputs", "programs"], "every generated schema value, and every generated lineage written in any of six legacy forms, translated between all of its versions",
 "Golden files hold a dozen rewritings as text and never bind or run them; lenses with nested or quoted references came out broken.",
 ["encoding/cue/encode.go", "encoding/cue/rewrite.go"], [("NewLineage", "encoding/cue/encode.go"), ("RewriteLegacyLineage", "encoding/cue/rewrite.go")],
 HELD + "A lens that sets a field called input is a known finding.")

prop("P24", "Loading a package gives exactly what the filesystem holds, or an error",
 "Loading a directory of a CUE module from any filesystem yields the instance of the package there, with exactly the content of its files and of the packages it imports, from the module, from its cue.mod tree, or Thema itself, whatever else lies beside; lineages in it bind. Files without a module can be wrapped as a module and loaded the same way. When the filesystem is no module, lacks the directory or package, or any operation on it fails, an error says so and keeps the cause; data is never silently left out. Every file opened is closed.",
 ["inputs", "fault_sequences", "configurations"], "every generated module layout, directory and package, memory- or disk-backed filesystems with short reads, and a failure of any single operation",
 "Tests load a few embedded modules from well-behaved filesystems; no operation ever fails.",
 ["load/load.go", "internal/util/util.go"], [("InstanceWithThema, AsModFS", "load/load.go"), ("ToOverlay", "internal/util/util.go")],
 HELD + "Every operation index is failed in turn for the small modules, sampled for larger ones.")

prop("P25", "Concurrent use is free of data races and gives the sequential results",
 "Goroutines that each have a runtime of their own are independent in everything they do: binding, validation, translation, muxing, typed values and all code generators. Goroutines that share one runtime, lineage, schema or instance can bind lineages and types, validate, search, translate, hydrate, dehydrate, decode typed values, test assignability and append-only, and navigate, at the same time. No data race or deadlock occurs, and each call returns what it returns when made alone.",
 ["schedules", "inputs", "histories"], "every mix of those operations on shared or separate runtimes in any number of goroutines, and every interleaving",
 "The tests run nothing concurrently on purpose; the first race-detector runs found global generator state and unguarded evaluation.",
 ["runtime.go", "instance.go", "schema.go", "lineage.go", "bind.go", "encoding/gocode/gen.go"], [("the runtime's lock (rl, ru, l, u)", "runtime.go"), ("evalTranslation", "instance.go"), ("lock around oapi-codegen's globals", "encoding/gocode/gen.go")],
 HELD + "Race detector plus comparison with results computed alone. Reading the CUE value of an instance (encoding, code generation) on a shared runtime concurrently is not covered: CUE v0.5 itself races there.",
 [("mut", "serializes evaluation in the shared CUE context", "runtime.go")])
TECH["P25"] = "sanitizer: Go race detector over concurrent stress schedules, with results compared against sequential execution"

prop("P26", "The data commands answer for files and pipes as the library does",
 "Given a lineage by file or directory, relative or absolute, in a module or not, at its root or under a path, from any working directory, the commands that validate, search, translate, hydrate and dehydrate accept exactly the data the chosen schema (or, without a version, the documented default) admits. They print the version, the data or the translation with its lacunas, exit 0, and read JSON or YAML from a file or pipe; validation that is to be quiet answers by its exit code alone. For faulty, malformed or missing data, unknown versions, formats or paths, failing lenses, and invalid or ambiguous lineages they exit 1, explain on standard error and print no result. No file is changed.",
 ["inputs", "configurations"], "every layout of a generated lineage on disk, every command and flag combination, valid, faulty and malformed data in both formats",
 "The CLI has no tests of the data commands; a lineage in a directory outside a module could not be loaded at all.",
 ["cmd/thema/data.go", "cmd/thema/load.go", "cmd/thema/main.go"], [("data commands", "cmd/thema/data.go"), ("dynLoad", "cmd/thema/load.go")],
 HELD + "The program is built from the tree and run as a process. Data fed through a pipe has no format flag.")

prop("P27", "The lineage commands generate, start and rewrite what the library does",
 "For a lineage on disk, the generation commands print, for the version asked for (by default the latest), what the library generates: OpenAPI (by default YAML), JSON Schema (by default JSON), Go types to the documented file or standard output. Starting a lineage, empty or from a JSON Schema or OpenAPI document in a file or pipe, prints a lineage with the name and package given that binds and whose one schema admits and refuses what the document does. Fixing a legacy lineage rewrites that file in place. An unknown format or version, malformed document or invalid lineage makes the command exit 1, explain on standard error and touch no file.",
 ["inputs", "configurations"], "every layout of a generated lineage on disk, every generated document, every command and flag combination, and faults in each of them",
 "The CLI has no tests of these commands; malformed documents crashed it, and two flags were ignored.",
 ["cmd/thema/lineage.go", "cmd/thema/lineage_subgen.go", "cmd/thema/lineage_init.go", "cmd/thema/lineage_fix.go", "cmd/thema/load.go"],
 [("gen commands", "cmd/thema/lineage_subgen.go"), ("init commands", "cmd/thema/lineage_init.go"), ("fix command", "cmd/thema/lineage_fix.go")],
 HELD + "Documents to start from have no defaults, tuples, unions, nulls or maps, and whether the imported schema is open is not judged.")

prop("P28", "Results depend on the arguments alone, not on what was done before",
 "Whatever else was bound, validated, translated, hydrated, muxed, generated or failed before on the same runtime, lineages, schemas, instances and configurations, every operation gives what it gives when done alone on a fresh runtime. No operation changes the data, lineage, instance or configuration it is given, and changing what an operation has returned changes nothing else.",
 ["histories", "inputs"], "every sequence of operations on any number of lineages that share a runtime, with failures between them and with callers that overwrite what they were handed",
 "Each test starts afresh and looks at one operation.",
 ["lineage.go", "schema.go", "instance.go", "runtime.go", "hydrate.go", "encoding/gocode/gen.go", "encoding/openapi/oapi.go", "vmux/mux.go"],
 [("lineage and schema state shared by all callers", "lineage.go"), ("memoized schema list and versions", "lineage.go"), ("generator configuration", "encoding/openapi/oapi.go")],
 HELD + "Histories of 30 to 60 operations over two or three lineages.")

prop("P29", "A lineage means the same however it is written",
 "However a lineage is written down, it has the same name, versions, instances, defaults, translations and lacunas: bare, embedding thema.#Lineage or unified with it, as a conjunction of parts, at the root of a package or under a path, in one file, in several, or imported; its schemas literal, by reference to hidden fields or definitions, or extending their predecessor; fields common to all schemas in the schemas, in the joinSchema, or in both; lenses literal, by reference or with auxiliary fields; names and versions computed; fields in any order.",
 ["inputs", "programs"], "every generated lineage in every generated combination of those forms, all of its versions, and data valid or with one fault",
 "Each fixture is one lineage in one form, and no two are compared.",
 ["lineage.cue", "bind.go", "runtime.go", "translate.cue", "load/load.go"],
 [("joinSchema and _#schema", "lineage.cue"), ("unification with #Lineage", "bind.go")],
 HELD + "Definitions are not combined with joined fields they lack, which CUE rightly refuses.")

prop("P30", "Generated Go bindings build and bind the lineage they were generated for",
 "For a lineage that lies in a Go module in the documented layout, with or without a CUE module, the bindings generated by the library or the command line, with any combination of the documented options, compile together with the generated types and with what the options leave for the user to write. The factory function has the documented name, private if so asked; it gives a lineage with the same name and versions that validates and translates data just as the source does, typed for the version asked for, and an error for a lineage that is invalid.",
 ["inputs", "programs", "configurations"], "every generated lineage, module layout and combination of options, data valid or with one fault",
 "Golden files hold the text of some bindings; nothing compiles or runs them.",
 ["encoding/gocode/gen.go", "cmd/thema/lineage_subgen.go", "load/load.go"],
 [("GenerateLineageBinding", "encoding/gocode/gen.go"), ("gen gobindings command", "cmd/thema/lineage_subgen.go")],
 HELD + "Lineage names are Go identifiers and the CUE package is named after its directory or module, as documented.")
