#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

SVC="src/GraphQLService.cpp"; SVCH="include/graphqlservice/GraphQLService.h"
VAL="src/Validation.cpp"; RESP="src/GraphQLResponse.cpp"; JS="src/JSONResponse.cpp"
SYN="src/SyntaxTree.cpp"; GRAM="include/graphqlservice/internal/Grammar.h"

p("C01","Query execution returns exactly what the GraphQL execution algorithm prescribes",
  "For every schema, data graph, valid document, selected operation and variable values, the `data` in the response is exactly the value the GraphQL execution algorithm defines: one entry per collected response name in document order, aliases applied, named and inline fragments applied exactly when the type condition matches the concrete object type, fields and fragments dropped exactly when @skip/@include say so, lists and nulls kept element for element. Nothing is added, lost, reordered or taken from another field, argument or object.",
  ["inputs","programs"],"All schemas (objects, interfaces, unions, enums, lists, non-null), all resolver data graphs, all valid executable documents and variable values.",
  "Tests run a few dozen hand-written documents against one sample schema; they never combine fragments, type conditions, directives, aliases, nesting and list shapes systematically.",
  [SVC,SVCH],[("SelectionVisitor","src/GraphQLService.cpp SelectionVisitor::visit*"),("Object::resolve","src/GraphQLService.cpp Object::resolve"),("ModifiedResult::convert","include/graphqlservice/GraphQLService.h ModifiedResult"),("DirectiveVisitor::shouldSkip","src/GraphQLService.cpp DirectiveVisitor")],
  observe=["response value returned by Request::resolve"])
p("C02","A failing resolver nulls only its own field and is reported once with its path",
  "When any set of resolvers fails (throws a service error, throws any other standard exception, fails inside a future, yields a value that cannot be converted, or yields an object which refuses its selection set), each failing field or list element becomes null, every other field still has exactly the value it would have without the failures, and `errors` holds exactly one entry per raised message, with that message, the line and column of the failing field in the document and the response path (response names and list indexes) to it. A request whose resolvers all succeed has no `errors` member.",
  ["inputs","fault_sequences"],"All documents and data graphs, and every subset of resolver calls made to fail in every supported way, synchronously or inside a future.",
  "Tests cover a handful of single failures; they never place failures at arbitrary depth, inside nested lists, in fragments, in futures, or several at once.",
  [SVC,SVCH],[("Object::resolve error collection","src/GraphQLService.cpp Object::resolve"),("SelectionVisitor::visitField","src/GraphQLService.cpp"),("buildErrorPath/buildErrorValues","src/GraphQLService.cpp"),("ModifiedResult::convert list/nullable/resolve","include/graphqlservice/GraphQLService.h")],
  observe=["errors member of the response"])
p("C03","Responses do not depend on launch policy, future kinds or concurrent requests",
  "For every request, the response is the same whether the caller uses the deferred or the async launch policy, whether resolvers return values, deferred futures or async futures, in whatever order those futures complete, and whether other requests run at the same time on the same service. Top-level mutation fields take effect strictly one after another in document order under every policy, and each accessor runs exactly once per selected field.",
  ["schedules","inputs"],"All documents, all assignments of value/deferred/async results to resolvers, all completion delays and all numbers of concurrent requests.",
  "Tests use one launch policy each with a fixed delay; a scheduling dependence only shows under particular combinations of futures and interleavings.",
  [SVC,SVCH],[("OperationDefinitionVisitor launch handling","src/GraphQLService.cpp OperationDefinitionVisitor"),("Object::resolve async","src/GraphQLService.cpp Object::resolve"),("ModifiedResult::convert","include/graphqlservice/GraphQLService.h")])
p("C04","Resolvers receive exactly the coerced argument values, or the field is rejected",
  "For every argument type built from scalars, enums, ids, input values, lists and nullability, the value a resolver extracts is exactly the one written in the document or supplied through variables: explicit values and explicit nulls are preserved, omitted variables fall back to the declared default, and integers are accepted where floats are expected. A value that does not fit the declared type or is null or missing where the type is non-null (custom scalars take any value, null included) produces an error that names the argument and never a silently altered value; the non-throwing lookup reports absence in exactly those cases.",
  ["inputs"],"All argument types with up to three list levels, all literals and variable values (fitting and not fitting), all default values.",
  "Tests check a dozen fixed argument values; numeric boundaries, nesting of null and list modifiers and variable substitution inside literals form an unbounded space.",
  [SVC,SVCH],[("ValueVisitor","src/GraphQLService.cpp ValueVisitor"),("ModifiedArgument::require/find","include/graphqlservice/GraphQLService.h"),("ModifiedArgument<T>::convert","src/GraphQLService.cpp"),("OperationDefinitionVisitor variable defaults","src/GraphQLService.cpp")])
p("C05","Every resolver sees exactly the directives that enclose its field, by location",
  "For every valid document, the accessor of a selected field observes the directives (with argument values, including variable values and defaults) of its operation, of the fragment definitions, fragment spreads and inline fragments that enclose the field within its selection set, and of the field itself, each kept apart by location; directives of siblings, of other fragments or of other fields are never visible. Nested fragments accumulate: directives of outer fragments stay visible inside inner ones unless the inner one repeats the directive name; the selection set of a nested field starts without fragment directives. The begin and end selection set hooks of an object run exactly once around its accessors.",
  ["inputs","programs"],"All documents with custom directives placed at operation, fragment definition, spread, inline fragment and field locations with nesting.",
  "One test covers one fixed nesting of directives.",
  [SVC,SVCH,"doc/fieldparams.md","doc/directives.md"],[("SelectionVisitor::visitFragmentSpread/visitInlineFragment","src/GraphQLService.cpp"),("Fragment::getDirectives","src/GraphQLService.cpp"),("FieldParams/SelectionSetParams","include/graphqlservice/GraphQLService.h")])
p("C06","Documents that are valid against the schema are accepted",
  "For every schema and every executable document that satisfies the GraphQL validation rules, validation reports no errors and the request executes. This includes documents that use every feature together: several operations, shared and nested fragments, overlapping type conditions, aliases, directives, variables in all allowed positions, defaults, input objects, enums, introspection.",
  ["programs","inputs"],"All schemas and all documents valid by construction.",
  "Tests contain a few dozen fixed documents, mostly the examples of the GraphQL specification over one schema.",
  [VAL],[("ValidateExecutableVisitor","src/Validation.cpp"),("validateVariableType/validateInputValue","src/Validation.cpp")])
p("C07","Documents that break a validation rule are rejected before any resolver runs",
  "For every schema and every document that breaks one of the GraphQL validation rules (unknown or misplaced types, fields, arguments, directives, fragments and operations; duplicate names; missing required arguments or input fields; values that do not fit; conflicting selections; fragment cycles and impossible spreads; unused or undefined variables and fragments; wrong variable positions), validation reports at least one error that points at a position inside the document, the request responds with errors and no data, and no resolver is invoked.",
  ["programs","inputs"],"All schemas, all valid documents and all single rule-breaking edits of them (and combinations).",
  "Tests contain one or two fixed counter examples per rule on one schema; a rule can be skipped for other nestings, wrappers, locations or fragment paths.",
  [VAL],[("ValidateExecutableVisitor rule checks","src/Validation.cpp"),("Request::resolve validation gate","src/GraphQLService.cpp")])
p("C08","Validation depends only on the document and schema, never on history",
  "For every service and every sequence of valid and invalid requests, validating a document gives the same errors as validating it on a fresh service, and validating the same parsed document again or re-parsing it never changes the outcome or the response. A rejected request leaves no trace in later ones.",
  ["histories"],"All sequences of valid/invalid/malformed requests, subscriptions and repeated validations on one service instance.",
  "Each test validates one document; the validator keeps working state across calls that only a history can expose.",
  [VAL,SVC],[("ValidateExecutableVisitor per-document state reset","src/Validation.cpp ValidateExecutableVisitor::visit/getStructuredErrors"),("ast::validated","src/GraphQLService.cpp Request::validate")])
p("C09","Subscription registration, filtering and removal follow the registry model",
  "After every sequence of subscribe, unsubscribe and deliver calls (synchronous or with a launch policy), a delivery reaches exactly the currently registered subscriptions to that field whose arguments and directives satisfy the given filter, each exactly once (in registration order when delivered synchronously), and nobody else. Every live subscription has a distinct key, the launch-policy forms tell the subscription object about each registration and removal once in the right context, and removing an unknown key or delivering with no listeners does nothing. Delivering without any event object, or with a service that has no subscriptions, is refused and reaches nobody.",
  ["histories"],"All interleaved sequences of subscribe/unsubscribe/deliver over several fields, argument values, directives, filters and launch policies.",
  "Tests register one subscription each and deliver once or twice.",
  [SVC],[("Request::subscribe/unsubscribe/deliver","src/GraphQLService.cpp"),("SubscriptionDefinitionVisitor","src/GraphQLService.cpp")],
  state=[("_subscriptions/_listeners/_nextKey","registered subscriptions by key and by field")])
p("C10","A delivered event is the subscribed selection executed against the event object",
  "For every valid subscription document (fragments, aliases, directives, variables with defaults, several operations in the document), each delivered event carries exactly the response that executing that selection set on the supplied event object prescribes, including error entries for failing fields, independent of launch policy and of other subscriptions. Rejected subscriptions, including those which the subscription object refuses when it is told about them, raise an error and register nothing.",
  ["inputs","histories"],"All valid and invalid subscription documents, event objects and variable values.",
  "Tests deliver to one or two fixed subscription documents.",
  [SVC],[("Request::deliver","src/GraphQLService.cpp"),("SubscriptionDefinitionVisitor::buildRegistration","src/GraphQLService.cpp")])
p("C11","Every document in the GraphQL grammar parses to the tree its tokens spell out",
  "For every document produced by the GraphQL grammar (executable and type system, all optional parts), parsing succeeds and the resulting tree contains exactly its definitions, selections, names, values, types and directives in source order. Changing only ignored tokens (white space, line ends, commas, comments, byte order mark), including omitting them where the grammar does not need them, never changes the tree's content.",
  ["programs","inputs"],"All grammatical documents and all placements of ignored tokens.",
  "Tests parse about twenty fixed documents with conventional formatting.",
  [GRAM,SYN],[("PEG grammar","include/graphqlservice/internal/Grammar.h"),("ast_selector","src/SyntaxTree.cpp"),("parseString/parseSchemaString/parseFile","src/SyntaxTree.cpp")])
p("C12","Parsing any byte string ends in a tree or a located syntax error",
  "For every byte string, each parsing entry point terminates with either a tree or a thrown syntax error that names a line and column inside the input, without crashing or reading outside the input. Strings that are not in the grammar are rejected, and the positions recorded in the tree are the line and column of the corresponding token.",
  ["inputs"],"All byte strings (random bytes, mutated documents, truncations, token deletions/insertions).",
  "Tests feed three malformed strings.",
  [GRAM,SYN],[("parseString/parseSchemaString","src/SyntaxTree.cpp"),("ast_control error messages","src/SyntaxTree.cpp"),("ast_node position","include/graphqlservice/internal/SyntaxTree.h")])
p("C13","Literal values decode to exactly the characters and numbers they denote",
  "For every string, block string, integer, float, boolean, enum, list and object literal in a document, the value delivered to resolvers is exactly the one the literal denotes: escape and unicode escape sequences (including surrogate pairs) decoded, everything else copied verbatim, block string indentation and quotes handled as specified, numbers at their exact value or rejected when out of range. A malformed literal is rejected rather than altered.",
  ["inputs"],"All literals of the GraphQL grammar over all Unicode text and all numeric spellings.",
  "Tests contain a handful of literals; none combines escapes with plain text, surrogate pairs, exponents or range limits.",
  [SYN,GRAM,SVC],[("ast_node::unescaped_view","src/SyntaxTree.cpp"),("escaped_char/escaped_unicode selectors","src/SyntaxTree.cpp"),("ValueVisitor","src/GraphQLService.cpp")])
p("C14","Response values behave as plain value containers under every operation sequence",
  "For every sequence of construction, copy, move, assignment, insert, lookup, set, get and release operations, a response value behaves like the obvious model of its kind: copies are deep, equal and independent, moves transfer the content, maps keep insertion order and reject duplicate names while lookup finds exactly the inserted members, equality holds exactly for equal kind and content. Accessing a value as a kind it does not have raises an error and changes nothing.",
  ["histories"],"All operation sequences over all value kinds with arbitrary nesting.",
  "Tests check about ten single operations.",
  [RESP],[("response::Value","src/GraphQLResponse.cpp"),("MapData lookup index","src/GraphQLResponse.cpp Value::emplace_back/find")])
p("C15","JSON output is valid, complete and round-trips; JSON input is read exactly",
  "For every response value, serialising it yields one valid JSON text that represents every member, element, string (any characters), boolean, null and number exactly and in order, and parsing that text gives back an equal value up to the documented string/enum ambiguity. For every JSON text, parsing gives the value that text denotes, and serialising it again denotes the same JSON value.",
  ["inputs"],"All response values of arbitrary nesting and all JSON texts with 32-bit integers.",
  "Tests do not exercise serialisation on generated values at all.",
  [JS],[("toJSON","src/JSONResponse.cpp"),("parseJSON / ResponseHandler","src/JSONResponse.cpp")])
p("C16","Identifiers round-trip through Base64 and malformed encodings are rejected",
  "For every byte sequence, encoding gives the standard padded Base64 text and decoding that text gives the bytes back, directly and wherever identifiers pass through values, arguments and results. For every string, decoding succeeds exactly when the string is canonical Base64 (whose final padding may be missing) and otherwise raises an error.",
  ["inputs"],"All byte sequences and all strings.",
  "Tests encode one fixed text.",
  ["src/Base64.cpp",RESP,SVC],[("Base64::toBase64/fromBase64","src/Base64.cpp"),("Value IdType set/get","src/GraphQLResponse.cpp")])
p("C17","Introspection describes the schema exactly",
  "For every schema, introspection queries (whole schema, single types by name, with and without deprecated members) return exactly the types, kinds, fields, arguments, default values, interfaces, implementers, enum values, input fields, directives, descriptions, deprecations and operation types that the schema declares, in declaration order and without additions. Asking for an unknown type gives null, and services built without introspection reject these queries while still answering the type-name field.",
  ["inputs","configurations"],"All schemas, with introspection enabled or disabled, over all introspection selections.",
  "Tests compare one sample schema against a fixed dump.",
  ["src/Introspection.cpp","src/Schema.cpp","src/IntrospectionSchema.cpp"],[("introspection::Schema/Type/Field/...","src/Introspection.cpp"),("schema::Schema","src/Schema.cpp")])
p("C18","Generated services behave as their SDL says, under every generator option",
  "For every valid schema text (input types not recursive, names which are valid and distinct as C++ names), the service generator succeeds, its output compiles, and a service built from it introspects to that schema, calls the accessor matching each selected field with exactly the argument values (declared defaults applied, enums and nested input objects converted) and returns enum, list, union and interface results faithfully. Generator options that change only file layout or prototypes do not change behaviour.",
  ["programs","configurations"],"All SDL schemas, all generator option combinations, and all requests against the generated service.",
  "Tests cover a few fixed sample schemas whose generated code is checked in.",
  ["src/SchemaGenerator.cpp","src/SchemaLoader.cpp","src/GeneratorLoader.cpp","src/GeneratorUtil.cpp"],[("Generator::output*","src/SchemaGenerator.cpp"),("SchemaLoader","src/SchemaLoader.cpp")])
p("C19","Generated clients send the given document and parse every conforming response",
  "For every schema and valid request document (names which are valid and distinct as C++ names), the client generator succeeds, its output compiles, the generated request text has the meaning of the document it was given (only ignored white space may differ), variables are serialised to exactly the member values that were set, and parsing any response conforming to the selection reproduces every field, null, list, enum and nested fragment field. A request which is not valid, or an operation which is not in it, makes the generator report failure instead of producing code. Every spelling of the same command line generates the same files in the directories asked for, and a command line that cannot work (missing or unknown options, unreadable input, unwritable output) makes it report failure.",
  ["programs","inputs"],"All schemas, valid request documents, variable values and conforming responses.",
  "Tests cover four fixed sample client documents.",
  ["src/ClientGenerator.cpp","src/RequestLoader.cpp","src/GraphQLClient.cpp"],[("Generator::output*","src/ClientGenerator.cpp"),("RequestLoader","src/RequestLoader.cpp")])
p("C20","The client runtime converts variables and responses without loss",
  "For every variable or response type built from scalars, ids, lists and nullability, serialising a value produces exactly the corresponding response value, parsing it back produces an equal value, and a value of the wrong kind is reported as an error. Parsing a service response keeps its data and every error's message, locations and path exactly.",
  ["inputs"],"All values of all modifier combinations, and all service response documents.",
  "Tests parse a few fixed responses.",
  ["src/GraphQLClient.cpp","include/graphqlservice/GraphQLClient.h"],[("ModifiedVariable::serialize","include/graphqlservice/GraphQLClient.h"),("ModifiedResponse::parse","include/graphqlservice/GraphQLClient.h"),("parseServiceResponse","src/GraphQLClient.cpp")])
p("C21","Schema texts mean the same however split, ordered or extended; broken ones fail",
  "For every valid schema text, reordering its definitions or moving members into type extensions yields a generated service with the same types, fields, arguments, values and operations (up to the resulting order). A schema text that breaks a structural rule (syntax error, unknown or misused type, duplicate definition, missing query type, extension of nothing) makes the generator report failure instead of producing code. Every spelling of the same command line generates the same files in the directories asked for, and a command line that cannot work (missing or unknown options, unreadable input, unwritable output) makes it report failure.",
  ["programs"],"All valid SDL texts with all splits into extensions and orderings, and all rule-breaking edits.",
  "Tests load a few fixed sample schemas in one order.",
  ["src/SchemaLoader.cpp"],[("SchemaLoader::visit*Definition/Extension","src/SchemaLoader.cpp"),("SchemaLoader::validateSchema/fixup*","src/SchemaLoader.cpp")])
p("C22","The ordered lookup containers behave as ordered maps and sets",
  "For every sequence of insert, lookup, indexed access, erase and clear operations and every initial content, the lookup containers used throughout the library agree with an ordered map or set under the same ordering: same membership, same values, same iteration order, first insertion wins, and erase returns the following position.",
  ["histories"],"All operation sequences over all key sets, for both orderings in use.",
  "Tests touch these containers only indirectly.",
  ["include/graphqlservice/internal/SortedMap.h"],[("sorted_map/sorted_set","include/graphqlservice/internal/SortedMap.h"),("shorter_or_less","include/graphqlservice/internal/SortedMap.h")])
p("C23","The requested operation, and only it, is executed",
  "For every document with any number of operations of any kind and every requested name, exactly the named operation (or the only one, when no name is given) runs with its own variables and defaults; a document without the requested operation, or a subscription sent as a query or vice versa, gives an error response and runs nothing.",
  ["inputs","programs"],"All documents with zero to several operations of all kinds and all requested names.",
  "Tests name one operation in single-operation documents almost everywhere.",
  [SVC],[("Request::findOperationDefinition","src/GraphQLService.cpp"),("OperationDefinitionVisitor","src/GraphQLService.cpp")])
p("C24","Requests taken as validated fail only where they do not fit the schema",
  "For every otherwise valid document which is executed without validation (through the overload that takes the parsed tree, or marked as validated), a field its object does not have, a selection set on a scalar, an object without a selection set, and a spread of a fragment the document does not define each give null and a located error: the field itself is null, or for the spread the object whose selections contain it (the data as a whole at the root). Nothing is thrown, and every other part of the response is the same as for the document without the misfits.",
  ["inputs"],"All schemas and data with all documents which are valid but for such misfits, at every depth, in fragments, below lists, for every launch policy.",
  "Tests execute a handful of unvalidated documents; misfits below lists and in nested fragments are not sampled.",
  [SVC],[("SelectionVisitor::visitField/visitFragmentSpread",SVC),("blockSubFields/requireSubFields",SVC),("Object::resolve",SVC)])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
