#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Types survive the protobuf round trip",
  "Encoding any data type to protobuf and decoding it yields a type equal to the original: same kind, nullability, type-variation reference, and every parameter at every nesting depth; decoding a protobuf type and encoding it again yields the same message. Two types compare equal exactly when their encodings are equal, and the short name of a type names its kind.",
  ["inputs"], "every concrete type built from the public constructors/structs (all kinds, nullabilities, variation references, lengths, precisions, nested list/map/struct/func/user-defined with all parameter kinds) and every protobuf type message of those kinds",
  "the tests round-trip a fixed table of a few dozen types at shallow depth with one or two parameter values",
  ["types/types.go", "types/precison_timestamp_types.go", "types/interval_day_type.go", "types/interval_compound_type.go", "types/interval_year_month_type.go"],
  [("TypeToProto / TypeFromProto switch", "types/types.go"), ("Equals methods", "types/*.go")],
  ["types.TypeToProto", "types.TypeFromProto", "Type.Equals", "Type.GetNullability", "Type.WithNullability"])

p("C02", "Literal values survive the protobuf round trip",
  "Any literal that can be constructed (a fixed-length literal with a value that fills its type) encodes to a protobuf literal that carries exactly its value, type, nullability and type-variation, and decodes back to a literal equal to it with the same type; a protobuf literal whose value is representable decodes and re-encodes unchanged. A protobuf literal that cannot be represented is reported as an error: it is never silently altered and never decodes to a nil expression without an error.",
  ["inputs"], "every literal kind x boundary and random values x nullability x variation reference, nested to bounded depth, built through public constructors and as protobuf messages",
  "tests sample one or two values per literal kind and mostly compare constructor output with itself",
  ["expr/literals.go", "expr/interval_compound_literal.go", "expr/interval_year_to_month.go"],
  [("ToProtoLiteral per literal kind", "expr/literals.go"), ("LiteralFromProto", "expr/literals.go")],
  ["expr.LiteralFromProto", "Literal.ToProto", "Literal.ToProtoLiteral", "Literal.Equals", "Literal.GetType", "expr.ExprFromProto"])

p("C03", "Expressions survive the protobuf round trip",
  "Decoding a well-formed protobuf expression against a schema and extension set and encoding it again yields an equivalent protobuf message: same operators, function identities, arguments, options, sort and window details, field paths, and nested sub-expressions. Decoding that message again yields an expression equal to the first (subqueries compare by the identity of their relations, NaN and zeros by value), with the same type. Accessors of calls, masks and references of extended expressions read back what the message says.",
  ["inputs", "programs"], "every expression tree over the supported expression kinds (literals, field references with every root and segment kind, scalar/window/aggregate functions, if/switch/in-lists, cast, nested list/struct/map, lambda, dynamic parameter, subqueries, extended expressions) up to bounded depth",
  "tests round-trip a handful of hand-written JSON expressions; combinations, optional fields and nesting are unbounded",
  ["expr/expression.go", "expr/functions.go", "expr/field_reference.go", "expr/lambda.go", "plan/subquery.go"],
  [("ExprFromProto dispatch", "expr/expression.go"), ("ToProto methods", "expr/*.go")],
  ["expr.ExprFromProto", "Expression.ToProto", "expr.ExtendedFromProto", "Extended.ToProto", "expr.SortFieldFromProto", "expr.NewAggregateFunctionFromProto"])

p("C04", "Plans survive the protobuf round trip",
  "Decoding a well-formed protobuf plan and encoding it again yields an equivalent plan: same version, URNs and extension declarations, advanced extensions, root names, parameter bindings, and the same relation tree with every relation field (common/hint/emit, expressions, keys, types, file and table details, extension details); the accessors of the plan and its relations read back what the message says, and writing to the lists they return does not change the plan. Details of extension relations go to the decoder registered for exactly their type URL, what it returns is the relation's definition, and if it fails or returns something else, so does decoding. A plan produced by the builder decodes again and re-encodes to the same message.",
  ["inputs", "programs"], "every tree of supported relations (named/virtual/local-files/extension/iceberg read, filter, project, fetch, sort, aggregate, join, cross, set, hash join, merge join, write, extension leaf/single/multi) with every optional field present or absent, up to bounded depth",
  "tests round-trip about a dozen fixed plans; the optional-field and nesting combinations are unbounded",
  ["plan/plan.go", "plan/relations.go", "plan/common.go", "plan/builders.go"],
  [("RelFromProto and per-relation fromProto/ToProto", "plan/plan.go, plan/relations.go"), ("RelCommon to/from proto", "plan/common.go")],
  ["plan.FromProto", "Plan.ToProto", "plan.RelFromProto", "Rel.ToProto"])

p("C05", "Expression equality is structural identity",
  "Comparing expressions for equality is reflexive, symmetric and never fails; two expressions that encode to the same protobuf message compare equal, and two whose encodings differ in any component (operator, argument count or value, option-bearing phase/invocation/sort/bounds, reference path, mask, nullability or type) compare unequal. Floating-point NaNs and zeros are outside this, and subqueries are equal when they also hold the same relation object.",
  ["inputs", "programs"], "all pairs of expressions drawn from generated trees and from single-component mutations of them",
  "tests compare a few equal and unequal pairs; a missing component comparison shows only on pairs that differ in exactly that component",
  ["expr/expression.go", "expr/functions.go", "expr/literals.go", "expr/field_reference.go", "expr/lambda.go"],
  [("Equals methods", "expr/*.go")],
  ["Expression.Equals", "FuncArgsEqual", "Reference.Equals", "Bound equality"])

p("C06", "Expression traversal visits and rewrites every direct operand",
  "Visiting an expression presents each operand expression that the expression holds exactly once and in order; a visitor that changes nothing returns the same expression, and one that replaces operands returns an expression that differs from the original in exactly those operands. A field reference is a leaf, together with the expression it is rooted in, and the value of a switch case can only be replaced by a literal. The visited expression is never modified and visiting never panics.",
  ["inputs", "programs"], "every expression kind x arity x subset of operands the visitor replaces",
  "tests rewrite one or two fixed trees; which operand is the first to change, and in which operand list, decides which branch runs",
  ["expr/expression.go", "expr/functions.go", "expr/lambda.go", "plan/subquery.go"],
  [("Visit methods", "expr/*.go")],
  ["Expression.Visit"])

p("C07", "Operations on shared values never modify them",
  "Deriving something from a type, schema, literal, expression, function variant, relation, plan or extension collection (changing nullability or precision, concatenating schemas, computing output schemas, matching and resolving function types, remapping, copying, rewriting, encoding) leaves every pre-existing object observably unchanged. Caller-supplied slices are not written to.",
  ["histories"], "every sequence of public non-mutating operations over a pool of shared types, schemas, expressions, relations and the default extension collection",
  "aliasing shows up only when an operation on one object is followed by a look at another; tests look at results, not at the inputs afterwards",
  ["types/types.go", "types/interval_day_type.go", "plan/relations.go", "plan/common.go", "extensions/variants.go", "functions/types.go"],
  [("value copies in WithNullability / Copy / Remap / RecordType", "types/*.go, plan/relations.go")],
  ["snapshots of String()/ToProto() of every pooled object before and after each operation"])

p("C08", "Every relation reports its true output schema",
  "The output schema a relation reports is the one the Substrait specification defines for it from its inputs: input columns passed through, expressions appended or measured, join sides concatenated with outer sides made nullable and semi/anti/mark joins reduced accordingly, set operations unified, and any emit mapping applied last. It is the same before and after a protobuf round trip and on every call.",
  ["inputs", "programs"], "every relation kind x join/set kind x emit mapping x input schemas (nullable and required columns, zero columns), nested to bounded depth",
  "tests check one schema per relation kind, mostly without nesting, remaps on both sides, or each join kind",
  ["plan/relations.go", "plan/common.go", "types/types.go"],
  [("directOutputSchema / RecordType / remap", "plan/relations.go")],
  ["Rel.RecordType", "Plan.GetRelations", "Root.RecordType"])

p("C09", "The plan builder accepts valid plans and rejects invalid ones with errors",
  "Each builder call either returns an error or a relation whose output columns, encoding and round trip are those its arguments describe; it never panics on wrong arguments (nil inputs and expressions, indices, output mappings and grouping references out of range, non-boolean conditions, ragged rows, wrong name counts, negative offsets, unknown join kinds) and never accepts them, and it accepts every valid combination. Functions resolve to the declared output type under anchors the plan declares; relations made earlier stay as they were. The statement covers field references made by the builder against the relation they are made for; expressions built against another input, conditions whose type is unknown, measure filters and schemas given to builder methods that return no error are the caller's.",
  ["inputs", "programs"], "every builder method (and its remap form) x valid and invalid arguments (nil inputs, out-of-range indices, wrong types, ragged rows, wrong name counts) over generated input relations including remapped ones",
  "tests pick a single invalid value per method over a plain scan; validation against remapped or derived inputs is not reached",
  ["plan/builders.go", "plan/plan.go", "expr/builder.go"],
  [("argument checks in the builder", "plan/builders.go")],
  ["plan.Builder methods", "Plan.ToProto", "plan.FromProto"])

p("C10", "Extension anchors are unique, stable and resolvable",
  "Within an extension set every anchor resolves to exactly one function, type or type variation, and asking for the anchor of one gives one which resolves to it, the same every time (one declared under several anchors keeps them all, and conflicting declarations are rejected). Adding new ones never changes or collides with existing ones, whatever anchors the set was decoded with. Encoding a set and decoding it again preserves every anchor, and the encoding is deterministic.",
  ["histories"], "every sequence of anchor requests and lookups over fresh sets and sets decoded from plans with dense, sparse, large, or unordered anchors",
  "tests request a few anchors from a fresh set or decode one dense set; collisions need decode-then-add histories on sparse anchors",
  ["extensions/extension_mgr.go"],
  [("set maps and anchor allocation", "extensions/extension_mgr.go")],
  ["Set.GetFuncAnchor/GetTypeAnchor/GetTypeVariationAnchor", "Set.DecodeFunc/DecodeType/DecodeTypeVariation", "Set.Lookup*", "Set.ToProto", "GetExtensionSet"],
  [("anchor maps", "id<->anchor bijections for urns, functions, types, variations", "extensions/extension_mgr.go")])

p("C11", "Extension definitions load completely and resolve by name",
  "After a YAML extension file loads, every function implementation, type and type variation it declares can be found by its URN and compound signature with the declared arguments, options, nullability, variadic behaviour, return expression and aggregate details, a simple name resolves exactly when it is unambiguous, and aggregate functions are also usable as window functions. A file that fails to load returns an error without panicking and leaves the collection as it was; loading one file never affects another's definitions; a file decoded on its own gives the same definitions under any URN. An argument whose field is of the wrong type is an error.",
  ["inputs", "histories"], "every order of loading generated valid, malformed and duplicate extension files into a collection, and all lookups after each load",
  "tests load the bundled files and a few fixtures once; ambiguity, malformed input and partial failure are combinations of many",
  ["extensions/extension_mgr.go", "extensions/simple_extension.go", "extensions/variants.go", "extensions/validation.go"],
  [("Collection.Load / addToMaps", "extensions/extension_mgr.go"), ("YAML unmarshalling", "extensions/simple_extension.go")],
  ["Collection.Load", "Collection.Get*", "Collection.GetAll*", "variant accessors"])

p("C12", "Function signatures match exactly the argument types they declare",
  "A function variant matches a list of argument types exactly when the declared parameters do: kinds, nullability under the declared handling, integer and named parameters bound consistently, type variables bound consistently, constant-position enums, nested parameterised types, and the declared variadic range and consistency. Parameters are reported to be in step exactly when they share an integer variable. Matching never panics and gives the same answer for the whole list and for its positions.",
  ["inputs"], "every function variant (bundled and generated) x every list of argument types (matching lists derived from the signature and mutations of them, any length)",
  "tests try a few lists for a few variants; the argument-type space is infinite",
  ["extensions/variants.go", "types/any_type.go", "types/parameterized_*.go", "types/integer_parameters"],
  [("matchArguments / sync params / any constraints", "extensions/variants.go"), ("MatchWithNullability methods", "types/parameterized_*.go")],
  ["FunctionVariant.Match", "FunctionVariant.MatchAt", "FunctionVariant.MinArgumentCount/MaxArgumentCount", "Variadic().IsValidArgumentCount"])

p("C13", "Function return types follow the declared return expression",
  "For argument types a function variant accepts, the resolved return type is the value of its declared return expression on the bound parameters (type variables, integer parameters, arithmetic and conditional derivations) with nullability given by its nullability handling, for scalar, aggregate and window functions alike. Arguments for which no type can be derived yield an error, never a panic or a wrong type, and the result does not depend on earlier calls. A declared type given the parameters of a concrete one it describes is that type.",
  ["inputs", "histories"], "every bundled and generated function variant x every accepted argument list, in any call order",
  "tests resolve a few dozen fixed signatures; arithmetic corner cases and state carried across calls need many",
  ["extensions/variants.go", "types/type_derivation.go", "types/any_type.go", "types/parameterized_*.go"],
  [("EvaluateTypeExpression", "extensions/variants.go"), ("OutputDerivation.ReturnType", "types/type_derivation.go")],
  ["FunctionVariant.ResolveType", "expr.NewScalarFunc/NewAggregateFunc/NewWindowFunc .GetType"])

p("C14", "Type expressions parse to what they say, or to an error",
  "Every well-formed type expression in the supported Substrait type syntax (named structs, interval_compound, arithmetic inside type parameters and short kind names are not supported, and are errors or unspecified) parses to the type structure it denotes, and printing the parsed type and parsing it again yields the same structure. Any other text, however malformed, yields an error and never a panic, a hang, output on standard output, or a silently altered number.",
  ["inputs"], "all strings: those generated from the type grammar (all kinds, case variants, nullability marks, nesting, arithmetic/ternary derivations, integer parameters up to and past their limits), mutations of them, and random text",
  "tests parse a fixed table of valid expressions and a few invalid ones",
  ["types/parser/parse.go", "types/parser/visitor.go", "types/type_derivation.go"],
  [("ANTLR visitor", "types/parser/visitor.go"), ("String methods of parameterised types", "types/*.go")],
  ["parser.ParseType", "Type/FuncDefArgType String"])

p("C15", "Decimal literals hold exactly the number given",
  "Building a decimal literal from text, from an arbitrary-precision decimal, or from two's-complement bytes yields precisely the number given, with precision and scale that describe it and 16 little-endian bytes; printing the literal gives that number back. A number outside the 38-digit range, or that is not a number, is rejected with an error.",
  ["inputs"], "every decimal string (signs, leading/trailing zeros, exponents, up to and beyond 38 digits), arbitrary-precision decimal including special forms, and 16-byte value x precision x scale",
  "tests check a few dozen fixed numbers; sign, scale and width boundaries interact",
  ["expr/decimal_util.go", "literal/utils.go", "expr/literals.go"],
  [("DecimalStringToBytes / DecimalToBytes / modifyDecimalPrecisionAndScale / decimalBytesToString", "expr/decimal_util.go")],
  ["literal.NewDecimalFromString/NewDecimalFromApdDecimal/NewDecimalFromTwosComplement", "expr.DecimalStringToBytes", "Literal.ValueString", "Literal.WithType"])

p("C16", "Temporal and interval literals hold exactly the instant or span given",
  "Date, time, timestamp, precision-timestamp and interval literals built from numbers, text or time values denote exactly the value given at the stated precision, and printing them (ISO form) denotes that same value. Text with trailing garbage, out-of-range components, or a value that does not fit the literal's fields is rejected with an error, never wrapped or truncated.",
  ["inputs"], "all text and numeric inputs of the literal constructors: boundary and random values x all precisions, negative values, pre-epoch instants, values beyond each field's range",
  "tests check fixed examples; rounding and overflow show only on particular values",
  ["literal/utils.go", "expr/literals.go", "types/precison_timestamp_types.go", "types/types.go", "expr/interval_compound_literal.go", "expr/interval_year_to_month.go"],
  [("constructors and parsers", "literal/utils.go"), ("precision conversion and ISO printing", "types/precison_timestamp_types.go, types/types.go")],
  ["literal.New*", "Literal.IsoValueString", "Literal.ToProtoLiteral", "types.GetTimeValueByPrecision", "types.SubSecondsToDuration"])

p("C17", "Shared read-mostly objects are safe under concurrent use",
  "Concurrent use of a shared extension collection, function and type registries, dialects, types, function variants, expressions, relations, plan builders over one collection, and the text parsers has no data race and gives every caller the result it would get alone.",
  ["schedules"], "all interleavings of the public read operations (lookups, matching, type resolution, parsing, schema computation, encoding, decoding, building) on shared objects from several goroutines",
  "the tests run single-threaded and without the race detector",
  ["extensions/extension_mgr.go", "functions/types.go", "functions/registries.go", "types/types.go", "types/parser/parse.go", "testcases/parser/parse.go"],
  [("package-level maps, sync.Once default collection, parser state", "extensions/extension_mgr.go, functions/types.go, types/parser/parse.go")],
  ["Go race detector reports", "per-call results compared with a sequential run"])

p("C18", "Dialects translate names and types consistently in both directions",
  "For every function and type a dialect declares, looking it up by local name yields the Substrait function or type declared for it and looking it up by Substrait name or identity yields the local one, with the declared notation, options and kernels, independent of the order entries are declared or processed. Anything not declared is absent, and a dialect that names something unknown or is inconsistent is rejected with an error, never a panic.",
  ["inputs", "configurations"], "every generated dialect over the bundled extensions (subsets of functions of all three kinds, renamed, with swapped or shared local names, types, and malformed variants), localised repeatedly",
  "tests use a few hand-written dialects once; map-order dependence needs repetition and name clashes",
  ["functions/dialect.go", "functions/registries.go", "functions/local_functions.go", "functions/types.go", "functions/functions.go"],
  [("LoadDialect / LocalizeFunctionRegistry / LocalizeTypeRegistry", "functions/dialect.go, functions/registries.go")],
  ["Dialect.LocalizeFunctionRegistry", "LocalFunctionRegistry getters", "LocalTypeRegistry getters", "FunctionRegistry getters"])

p("C19", "Function test files parse to exactly the cases they contain",
  "Parsing a well-formed function test file yields, in order, every test case it contains with its function, group, arguments, options and expected result carrying exactly the written values and types, for scalar and aggregate forms; the function invocation built from a case has exactly those arguments and options; printing a case and parsing it again yields the same case. A malformed file, or a value that does not fit its declared type, yields an error: never a panic, an empty success, or an altered value. (The forms the parser documents as not implemented - compound intervals, lambdas, function and user-defined types - yield an error.)",
  ["inputs"], "all test-file texts generated from the grammar (all literal kinds, null, lists, options, groups, aggregate tables), and mutations of them",
  "tests parse fixed files; value ranges, table shapes and malformed text are unbounded",
  ["testcases/parser/parse.go", "testcases/parser/visitor.go", "testcases/parser/nodes.go"],
  [("ANTLR visitor", "testcases/parser/visitor.go"), ("error recovery", "testcases/parser/parse.go")],
  ["parser.ParseTestCasesFromString", "TestCase accessors", "TestCase.String"])

p("C20", "Malformed protobuf input is rejected with an error, never a crash",
  "Decoding any protobuf plan, relation, expression or literal message, however incomplete or inconsistent (missing or null sub-messages, out-of-range references and mappings, unknown anchors, unspecified enum values, wrong types), returns a usable value or an error. One that lacks what it cannot do without at any depth (a kind, an input, operand, condition, sort, value, type or operation), or refers to columns, expressions, functions or lambda parameters that are not there, gets the error. Decoding never panics, and a value it accepts can be inspected and encoded without panicking.",
  ["inputs", "fault_sequences"], "all mutations (field removal, clearing, duplication, index and anchor corruption) of well-formed plans and expressions, and sparse random messages",
  "tests decode well-formed messages plus a few specific errors; malformed shapes are combinatorial",
  ["plan/plan.go", "plan/relations.go", "plan/common.go", "expr/expression.go", "expr/field_reference.go", "expr/literals.go", "extensions/extension_mgr.go"],
  [("nil and range checks in decoders", "plan/plan.go, expr/expression.go")],
  ["plan.FromProto", "plan.RelFromProto", "expr.ExprFromProto", "expr.LiteralFromProto", "extensions.GetExtensionSet"])

p("C21", "Relation copies and rewrites change only what they are asked to",
  "Copying a relation with new inputs yields the same relation over those inputs, keeping every other field; copying it with an expression rewrite applies the rewrite to each expression the relation holds exactly once and keeps the rest; remapping yields a relation whose output is the selected columns. In each case the original is unchanged, a rewrite that changes nothing over the same inputs gives the original itself, and an error from the rewrite or an invalid mapping or input count is returned.",
  ["inputs", "programs"], "every relation kind x inputs x rewrites (identity, all, one selected expression, failing at the k-th call) x remap sequences",
  "tests cover a few relations with one rewrite; which expression changes decides the path taken",
  ["plan/relations.go", "plan/common.go", "plan/plan.go"],
  [("Copy / CopyWithExpressionRewrite / Remap", "plan/relations.go")],
  ["Rel.Copy", "Rel.CopyWithExpressionRewrite", "Rel.Remap", "Rel.ToProto"])

p("C22", "Parameter bindings and subqueries are checked everywhere in a plan",
  "Validating dynamic-parameter bindings accepts a list exactly when every binding has a value, is the only one of its anchor, and names a parameter used somewhere in the plan (its root or other relations, any expression position, inside subqueries, lambdas and references into expressions), whose every use has the value's type apart from nullability; parameters may stay unbound. The builder rejects what validation rejects. A subquery expression has its specified type (that of the only column for a scalar one, boolean otherwise); the builder rejects subqueries with missing parts, unspecified operations or the wrong number of columns, and decoding rejects scalar ones without exactly one column.",
  ["inputs", "programs"], "all plans with dynamic parameters placed at generated positions x complete, missing, extra, duplicate, and mistyped binding lists; all subquery kinds over generated relations",
  "tests place parameters in filter and project only, with one or two bindings",
  ["plan/plan.go", "plan/builders.go", "plan/subquery.go", "expr/expression.go"],
  [("ValidateParameterBindings walk", "plan/plan.go"), ("subquery builders", "plan/builders.go, plan/subquery.go")],
  ["plan.ValidateParameterBindings", "Builder.PlanWithBindings", "subquery GetType/ToProto"])

p("C23", "Field references resolve to the type at the path they name",
  "A field reference into a record, struct, list or map, from an input row, an expression or a lambda parameter, resolves exactly when its path exists, and then has the type found at that path. References into outer queries and masks are kept as written, without a known type. A path that does not exist, or that steps into the wrong kind of type, is an error and never a panic or another field's type.",
  ["inputs"], "every reference path (struct/list/map segments to bounded depth, negative and out-of-range indices, wrong segment kinds) x generated nested schemas x root kinds",
  "tests use a few fixed schemas and paths",
  ["expr/field_reference.go", "expr/builder.go", "expr/lambda.go", "types/types.go"],
  [("GetType on reference segments", "expr/field_reference.go")],
  ["NewFieldRef*", "FieldReference.GetType", "FieldReferenceFromProto", "ExprBuilder.RootRef", "Builder.RootFieldRef"])

p("C24", "Building and encoding are deterministic",
  "Performing the same sequence of loads, lookups, builds and encodes always produces the same results: byte-identical plans and extension declarations, the same listing order and the same chosen function, regardless of map iteration order, of repetition within a process or of process restarts.",
  ["histories"], "all generated build histories, repeated many times in one process and across processes with differing hash seeds",
  "one run of a test sees a single map iteration order; nondeterminism shows only over repetitions",
  ["extensions/extension_mgr.go", "functions/registries.go", "functions/dialect.go", "plan/plan.go", "testcases/parser/nodes.go"],
  [("sorting of declarations; ordered iteration", "extensions/extension_mgr.go")],
  ["Set.ToProto", "Plan.ToProto", "Collection.GetAll*", "registry getters", "TestCase.String"])

p("C25", "Expressions are built exactly as asked, or rejected",
  "Every expression constructor, function-variant constructor and ExprBuilder method yields the expression its arguments describe: each accessor, the type, whether it is scalar, and the encoding are those of the parts given, in the order given and in the last-set form, with the documented defaults for what was left out; building it again, or as an argument, gives the same expression. When something the API documents as required is missing or violated (no operand, unknown function, wrong argument or option, wrong operand or condition type, a reference that does not resolve, a lambda parameter out of scope, a phase or bounds the function does not allow) the result is an error, wherever in a tree of builders the violation sits: never a panic, nor an expression that differs from what was asked.",
  ["inputs", "programs"], "all expression trees put together bottom-up through the constructors and builders (every kind, nested lambdas and references), all bundled functions x arguments, options, phases, sorts and bounds, and every such tree with one violation at a generated place",
  "tests build a few dozen expressions; a part dropped, swapped or defaulted wrongly shows only for the combination that uses it",
  ["expr/builder.go", "expr/expression.go", "expr/functions.go", "expr/lambda.go", "expr/field_reference.go", "extensions/variants.go"],
  [("builders' validation and error propagation", "expr/builder.go"), ("constructors", "expr/functions.go, expr/expression.go, expr/lambda.go")],
  ["ExprBuilder.*", "expr.New*", "extensions.New*FuncVariant*", "Expression.GetType/IsScalar/ToProto/Equals"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
