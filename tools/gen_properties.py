#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Argument-to-parameter conversion follows the documented matrix",
  "For every offered argument (a type, passed by copy, l-value or r-value, const or not) and every expected parameter, the library reports exact / partial / no match exactly as follows: identical descriptions, or exactly one side being the dynamic value type, are exact; a user-defined conversion makes it partial unless an l-value reference is expected (then none); otherwise constness may not be dropped by a reference, a non-const l-value reference needs a non-const l-value, an r-value reference needs an r-value, the expected type must be the same as or an ancestor of the offered type, and the match is exact when reference kind and constness agree or an r-value is taken by copy, and partial otherwise. Combining two matches yields the weaker one, whatever the order.",
  ["inputs"], "all pairs of argument descriptions over all types, all 3x3 reference kinds, all const combinations, all possible converter and inheritance relations between the two types",
  "tests sample a hand-picked set of pairs over a few concrete types; the rule is a function of reference kind, constness, converter existence and ancestry, whose combinations they do not exhaust",
  ["src/argument.cpp", "src/argument.h", "src/ref_type.h"],
  [("Argument::isConvertibleTo", "src/argument.cpp"), ("combine", "src/argument.cpp"), ("testConstConversion", "src/ref_type.h")],
  observe=["Argument::isConvertibleTo", "combine"])

p("C02", "Subtyping is the reflexive-transitive parent chain plus pointer covariance",
  "A type is reported to be a child of another exactly when they are the same type, or both are pointers of the same pointer kind and the pointed-to type is a child of the other's pointed-to type, or (when they are not both pointers) some ancestor on its declared parent chain is; 'is parent of' is the exact converse. The query changes nothing and terminates on every acyclic hierarchy.",
  ["inputs", "configurations"], "all type hierarchies of any depth, any mix of plain and pointer types of any pointer kind, all pairs of types",
  "tests use chains of at most a few types; the relation is recursive over arbitrary hierarchies",
  ["src/type.cpp", "src/type.h"],
  [("Type::isChildOf / isParentOf", "src/type.cpp"), ("Type::isPointer / pointer / pointee", "src/type.cpp")],
  observe=["Type::isChildOf", "Type::isParentOf"])

p("C03", "A signature matches exactly when its return and every parameter do",
  "A reflected function matches a requested signature exactly when the number of arguments agrees, every requested argument converts to the parameter at the same position, and the return is usable: discarding the result is always allowed, a void function can only yield void or a fresh dynamic value, any other result must convert to what is wanted, and a temporary may not be bound to a const reference. The match is none if any part fails, exact if every argument matches exactly, partial otherwise.",
  ["inputs"], "all functions of any arity, all requested signatures of any arity, all argument descriptions",
  "tests check a few fixed signatures; the rule quantifies over argument lists of any length and over the position of the mismatch",
  ["src/function.cpp", "src/function.tcc", "src/function.h"],
  [("Function::test / testReturn / testArguments", "src/function.cpp"), ("Function::testParams", "src/function.tcc")],
  observe=["Function::test"])

p("C04", "Overload resolution picks the unique best candidate or reports an error",
  "Calling an overloaded name invokes the first overload that matches the actual arguments exactly if there is one; otherwise the single overload that matches partially if there is exactly one. With no matching overload, or with several partial matches and no exact one, the call reports an error and invokes nothing. Lookup by signature returns the first registered overload that matches in any way and reports an error if none does, and a single function refuses to run when its own signature does not match.",
  ["inputs", "configurations"], "all overload sets of any size and order, all call signatures",
  "tests use sets of two or three overloads in one order; the property quantifies over every size, order and match pattern",
  ["src/overloads.tcc", "src/overloads.cpp", "src/function.tcc"],
  [("Overloads::call / get / test", "src/overloads.tcc, src/overloads.cpp"), ("Function::call", "src/function.tcc")],
  observe=["Overloads::call", "Overloads::get", "Overloads::test", "Function::call"])

p("C05", "Adding an overload rejects exact duplicates and preserves the others",
  "Adding a function to an overload set reports an error exactly when the new function matches some already registered function exactly; otherwise the set becomes the old one, in the same order, followed by the new function, and no registered overload is changed or lost.",
  ["inputs", "histories"], "all overload sets of any size, all functions added, in any order",
  "tests add two or three functions and look them up; they cannot cover every position of the clash or that nothing else changes",
  ["src/overloads.cpp"],
  [("Overloads::add", "src/overloads.cpp")],
  observe=["Overloads::add", "Overloads::size", "Overloads::operator[]"])

p("C06", "Member lookup finds the nearest definition on the parent chain",
  "Looking up a field or a function of a type by name returns the one declared by the type itself if any, otherwise the one of its nearest ancestor that declares it, and reports an error if none does; the existence query answers true exactly when the lookup succeeds, and the non-const lookup only considers the type itself. Within one type a name is never both a field and a function and a field is never declared twice: such an addition is reported as an error and changes nothing else, and a converter lookup yields the only conversion function to that type or an error.",
  ["inputs", "configurations", "histories"], "all hierarchies of any depth, all names, all sets of declared members",
  "tests look up a few names in shallow hierarchies; shadowing at each level of every hierarchy is not covered",
  ["src/type.cpp", "src/type.h"],
  [("Type::field / hasField / addField", "src/type.cpp"), ("Type::function / hasFunction / addFunction", "src/type.cpp"), ("Type::hasConverter / converter", "src/type.cpp")],
  observe=["Type::field", "Type::function", "Type::hasField", "Type::hasFunction"])

p("C07", "Values refer to l-values and own r-values; copies share, types are checked",
  "A dynamic value built from an l-value refers to that very object with its constness and owns nothing; one built from an r-value owns a fresh copy or move of it, is described as a non-const l-value, and the stored object is destroyed exactly once, when the last value sharing it goes away. Copying, assigning, or taking a const or r-value view of a value keeps pointing to the same object and shares its ownership, changing only the reference kind and, for the const view, the constness; typed access returns that object exactly when its type is the requested type or a descendant of it, and reports an error otherwise.",
  ["inputs", "histories"], "all object types (copiable, movable or neither), all value categories and constness, all sequences of copies, moves and views",
  "tests use a few concrete types and short sequences and cannot observe leaks, double frees, or aliasing in general",
  ["src/value.cpp", "src/value.tcc", "src/value.h"],
  [("Value constructors and assignment", "src/value.cpp, src/value.tcc"), ("store / ValueDestructor", "src/value.tcc"), ("Value::toConst / rvalue / as / get / copy / move", "src/value.cpp, src/value.tcc")],
  observe=["Value::value", "Value::refType", "Value::isConst", "Value::isStored"])

p("C08", "Casting a value checks ancestry, constness and converters before access",
  "Casting a dynamic value to a reference yields that same object only if its type is the requested type or a descendant and, for a non-const reference, only if the value is a non-const l-value; casting to an r-value requires a movable target type and casting to a copy requires a copiable one, using the same object (or a copy of it) for descendants and the user-defined converter otherwise; a cast that yields the same object keeps its description, in particular its constness. Every other cast reports an error and has no other effect, and the castability query answers exactly whether the value's description converts to the requested one.",
  ["inputs"], "all values, all target descriptions, all type relations, all converter sets",
  "tests exercise a fixed list of casts between a few test types",
  ["src/cast.cpp", "src/cast.h"],
  [("cast / lref / rref / copy", "src/cast.cpp"), ("isCastable", "src/cast.cpp"), ("Cast<Value, Target>", "src/cast.h")],
  observe=["reflect::cast", "reflect::isCastable"])

p("C09", "Field access designates the right address with the right constness",
  "Accessing a field of a value yields a non-owning l-value located at the object's address plus the field's declared offset, of the field's declared type, const exactly when the field or the object is const. A field description keeps the name, type and offset it was declared with, and declaring a field as a reference is reported as an error.",
  ["inputs"], "all object addresses, all offsets, all field declarations, all constness combinations",
  "tests read and write a few fields of fixed structs",
  ["src/value.tcc", "src/field.cpp", "src/field.tcc", "src/field.h"],
  [("Value::field", "src/value.tcc"), ("Field::Field / offset", "src/field.cpp, src/field.h")],
  observe=["Value::field", "Field"])

p("C10", "Qualified names split at the first or last top-level separator",
  "Splitting a qualified name at its head (tail) cuts it at the first (last) '::' outside angle brackets and returns the parts before and after it, or the whole name and an empty rest when there is none; joining the two parts of a split gives the name back when both are non-empty. A lone ':' outside brackets that the scan reaches before the cut, or brackets left open at the cut, is reported as an error, and no character outside the name is ever read.",
  ["inputs"], "all strings of any length, with any nesting of brackets and any placement of colons",
  "tests split about a dozen strings",
  ["src/scope.cpp"],
  [("Scope::head / tail / join", "src/scope.cpp")],
  observe=["Scope::head", "Scope::tail", "Scope::join"])

p("C11", "Scopes form a tree addressed by qualified names",
  "Registering a type or a function under a qualified name creates exactly the missing scopes on its path, and afterwards exactly that name is found there; looking it up walks the path one component at a time and answers for the named entity only, an absent function, type or scope being answered 'no' by the existence queries and reported as an error by the lookups; a malformed name is an error, and so is a type name that leads through a registered type (or, when registering it, a function) and not through a scope. A scope's identifier is the '::'-joined path from the root, every sub-scope keeps its parent, and existing entries are never disturbed, nor new ones created, by lookups of functions and types or by lookups of constant scopes, nor disturbed by other registrations.",
  ["inputs", "histories"], "all sequences of registrations and lookups, all qualified names",
  "tests register a handful of names",
  ["src/scope.cpp", "src/scope.tcc", "src/scope.h"],
  [("Scope::scope / hasScope", "src/scope.cpp"), ("Scope::addType / hasType / type", "src/scope.cpp"), ("Scope::addFunction / hasFunction / function", "src/scope.cpp"), ("Scope::id", "src/scope.cpp")],
  observe=["Scope"])

p("C12", "A type identifier resolves to one type object, loaded once",
  "Every lookup of a type identifier, or of an alias of it, returns the same type object for the life of the process; its loader runs at most once, at the first lookup, after the type object is already visible to nested lookups. An unknown or empty identifier, an empty loader, an empty alias name and an alias that is already taken are reported as errors and leave the existing types, loaders and aliases as they were.",
  ["inputs", "histories"], "all sequences of registrations, aliasings and lookups, including lookups made by loaders",
  "tests perform a few lookups of types registered at start-up",
  ["src/registry.cpp", "src/registry.h"],
  [("Registry::get / load", "src/registry.cpp"), ("Registry::add / alias", "src/registry.cpp")],
  observe=["Registry::get", "Registry::add", "Registry::alias"])

p("C13", "The registry's tables are only touched with the registry lock held",
  "Every read or write of the registry's type, alias and loader tables by a public registry operation happens while the registry's lock is held by the calling thread, from before the first access until after the last one; the lock is released on return, and nested lookups made by a loader do not block on it.",
  ["schedules"], "all interleavings of concurrent lookups, registrations and aliasings, including nested lookups from loaders",
  "tests are single-threaded; a missing or prematurely released lock has no effect they could observe",
  ["src/registry.cpp"],
  [("lock guard in Registry::get / add / alias", "src/registry.cpp")],
  observe=["Registry::get", "Registry::add", "Registry::alias"])

p("C14", "A reflected function owns its callable and frees it exactly once",
  "Each reflected function owns exactly one callable object from construction until destruction; moving transfers it and leaves the source owning none, and after any sequence of constructions, moves, assignments (including to itself) and destructions every callable has been destroyed and its memory released exactly once, and never while still owned.",
  ["histories"], "all sequences of construction, move construction, move assignment and destruction of functions, holding any callable",
  "tests move functions a few times and do not observe leaks or double frees",
  ["src/function.cpp", "src/value_function.cpp", "src/value_function.h", "src/function.tcc"],
  [("Function move constructor, move assignment, destructor", "src/function.cpp"), ("allocValueFunction / freeValueFunction", "src/value_function.cpp"), ("makeValueFunction", "src/value_function.h")],
  observe=["Function"])

p("C15", "JSON strings survive printing and parsing; malformed UTF-8 is an error",
  "For every sequence of Unicode scalar values, control characters included, printing the corresponding UTF-8 string as JSON (with or without unicode escaping) and parsing the result back with a reader that unescapes yields the same bytes, and an escaped printout is plain ASCII. The writer, when told to escape or to check unicode, and the reader, when told to check it, accept a byte sequence exactly when it is well-formed UTF-8 (RFC 3629: one to four bytes, no overlong forms, no surrogates, nothing above U+10FFFF) and report an error otherwise, without reading outside the string.",
  ["inputs"], "all byte strings of any length, all code points, all escape sequences, both escaping modes",
  "tests check a few fixed strings; there are over a million code points and unbounded strings",
  ["src/utils/json/format.cpp", "src/utils/json/token.cpp", "src/utils/json/utils.h", "src/utils.h"],
  [("escapeUnicode / validateUnicode / formatString", "src/utils/json/format.cpp"), ("stringToken / unescapeUnicode / validateUnicode", "src/utils/json/token.cpp"), ("clz", "src/utils.h")],
  observe=["json::print", "json::parse"])

p("C16", "Malformed JSON is reported as a reader error, never a crash",
  "Whatever bytes are given as JSON input, reading it (token by token, by the scalar, array and object parsers, or into a variable whose type has a JSON parser) returns either a value or an error carried by the reader; it never aborts the process, throws, or runs into undefined behaviour as long as values aren't nested deeper than the stack allows. A byte sequence that isn't a token of the (documented, slightly lenient) grammar under the reader's options is an error and one that is gives its token: a malformed literal, number, string, escape sequence or stray character, a comment where comments aren't allowed, malformed UTF-8 when it is checked. The first error is the one reported, once an error is recorded no later token or callback can clear it, and no more tokens are read.",
  ["inputs"], "all input byte streams, including truncated and non-UTF-8 ones, all reader options",
  "tests feed a small corpus of mostly well-formed documents",
  ["src/utils/json/token.cpp", "src/utils/json/reader.cpp", "src/utils/json/parser.tcc", "src/utils/json/parser.cpp"],
  [("nextToken and Reader::error", "src/utils/json/token.cpp, src/utils/json/reader.cpp"), ("parseBool / parseInt / parseFloat / parseString / parseArray / parseObject", "src/utils/json/parser.tcc")],
  observe=["json::parse", "Reader::error"])

p("C17", "JSON integers round-trip and numbers are classified by their spelling",
  "Every 64-bit signed integer is printed as its exact decimal spelling and parsing that spelling gives the same integer back; a number token is an integer exactly when it is made of an optional minus sign and digits, and a float when it also has a fraction (a point and digits) or an exponent part (e or E, an optional sign and digits). An integer outside the 64-bit range and a float outside the range of a double are reported as errors rather than silently changed, and what was printed from a finite float can be parsed as a float.",
  ["inputs"], "all 64-bit integers, all number spellings of any length",
  "tests check a few numbers",
  ["src/utils/json/format.cpp", "src/utils/json/token.cpp", "src/utils/json/parser.tcc", "src/utils/json/writer.h"],
  [("formatInteger / formatFloat", "src/utils/json/format.cpp"), ("numberToken / Token::asInt / asFloat", "src/utils/json/token.cpp"), ("parseInt / parseFloat", "src/utils/json/parser.tcc")],
  observe=["json::print", "json::parse"])

p("C18", "JSON objects and arrays are printed with balanced, separated entries",
  "As long as the writer has reported no error and its stream hasn't failed, printing an array or an object emits an opening bracket, every element exactly once in order, exactly one comma between consecutive elements and none before the first or after the last, and the matching closing bracket, object entries being a quoted key, a colon and a value; indentation returns to its previous depth and only whitespace differs between compact and pretty output. Fields marked as skipped are never printed, and null values and empty containers are printed as null, [] and {}. No error is ever cleared.",
  ["inputs", "configurations"], "all key lists and element counts, all nesting depths, both writer modes",
  "tests compare a few fixed documents",
  ["src/utils/json/printer.tcc", "src/utils/json/printer.cpp", "src/utils/json/writer.h", "src/utils/json/writer.cpp"],
  [("printArray / printObject / printNull", "src/utils/json/printer.tcc"), ("Writer::push / newline / indent / unindent", "src/utils/json/writer.h, src/utils/json/writer.cpp")],
  observe=["json::print"])

p("C19", "Traits are a set: adding twice is an error, queries are exact",
  "An entity has a trait exactly when that trait was added to it; adding a trait it already has is reported as an error and changes nothing, adding one never affects any other trait, and the value attached to a trait is exactly the one it was added with, asking for the value of a missing trait or one without value being an error.",
  ["inputs", "histories"], "all sequences of trait additions and queries, all trait names",
  "tests add two or three traits",
  ["src/traits.cpp", "src/traits.h", "src/traits.tcc"],
  [("Traits::addTrait / is / getValue", "src/traits.cpp, src/traits.tcc")],
  observe=["Traits"])

p("C20", "JSON arrays and objects are visited element by element in order",
  "Parsing an array or an object calls the handler once per element or entry, in document order, with the element's index or the entry's unescaped key, exactly when the text is a bracketed, comma-separated list of what the handler takes; null is read as an empty list. A missing comma, colon, key or bracket is reported as an error, no handler runs after it, and nothing that is not reported is incomplete. Skipping a value consumes exactly one complete value, whatever its nesting (as far as the stack reaches). An object's unknown or hidden fields are skipped so, and the others keep their values.",
  ["inputs"], "all token streams, all nesting depths",
  "tests parse a small corpus of documents",
  ["src/utils/json/parser.tcc", "src/utils/json/parser.cpp", "src/utils/json/token.cpp", "src/utils/json/reader.cpp"],
  [("parseArray / parseObject", "src/utils/json/parser.tcc"), ("skip / skipArray / skipObject", "src/utils/json/token.cpp"), ("expectToken", "src/utils/json/token.cpp"), ("Reader::nextToken / peekToken", "src/utils/json/reader.cpp")],
  observe=["json::parse", "json::skip"])

p("C21", "A type is registered before any thread looks it up",
  "Asking for the type of a C++ type (type<T>()) finds it, whichever threads ask for it for the first time at once: a template's instantiation is registered before its lookup, never reported as missing, described once and the same type object for all; no lookup waits for another forever, also when describing a type looks others up. What is registered runs the type's own description, under the type's identifier: the spelling of a plain type, the name of a template with its arguments' identifiers between angle brackets, the pointee's followed by '*' for a pointer, so that different types get different identifiers. Plain types are registered once by the initialisation of the file that reflects them.",
  ["schedules", "programs"], "all interleavings of any number of threads' first uses; all template instantiations, nesting included",
  "tests run on one thread",
  ["src/dsl/template.h", "src/dsl/type.h", "src/registry.h", "src/types/pointer.h", "src/types/std/vector.h", "src/types/std/map.h", "src/types/std/smart_ptr.h"],
  [("reflectTemplateLoader", "src/dsl/template.h"), ("reflectTypeLoader", "src/dsl/type.h"), ("Registry::get<T> / add<T>", "src/registry.h"), ("Reflect<T>::id", "src/dsl/template.h, src/dsl/type.h, src/types/pointer.h, src/types/std/map.h")],
  observe=["type<T>()", "typeId<T>()"])

p("C22", "Reflected containers behave as the containers they reflect",
  "What the library registers for std::vector, std::map, std::unordered_map, std::shared_ptr, std::unique_ptr, std::string and raw pointers is the container's own operation on the object and the operands given: size is its number of elements; vector clear, resize and push_back change it as std::vector does; vector at returns the element at that position, or reports an error when there is none; operator[] returns the element at that position, or the map's own entry for the key; map count tells whether a key is present, at returns the value stored under it, or reports an error when it is absent, and keys lists every key once in the map's order; get, operator*, operator bool, operator==, reset and release of smart pointers, operator* and operator bool of raw pointers are the pointer's own. Queries change nothing, no operation touches memory outside the container, and each such type is described as what it is (list, map, smart or raw pointer with its pointee, string) with its key and value types. (As in C++, operator[] of a vector beyond its size and operator* of an empty pointer are the caller's error.)",
  ["inputs", "histories"], "all containers of any size and contents, all indices and keys, all sequences of operations",
  "tests call a few of the registered functions on small containers, with positions and keys that exist",
  ["src/types/std/vector.h", "src/types/std/map.h", "src/types/std/smart_ptr.h", "src/types/std/string.cpp", "src/types/pointer.h"],
  [("vector reflection", "src/types/std/vector.h"), ("map reflection", "src/types/std/map.h"), ("smart pointer reflection", "src/types/std/smart_ptr.h"), ("string reflection", "src/types/std/string.cpp"), ("raw pointer reflection", "src/types/pointer.h")],
  observe=["Value::operator[]", "Type::call", "Value::call"])

p("C23", "Dynamic calls pass each argument once, in order, and wrap the result",
  "Invoking a reflected callable through the generic interface runs it exactly once with the i-th dynamic argument cast to the i-th parameter type (the first one being the object for member functions), and returns a dynamic value holding its result, or a void value if it returns nothing. Nothing else is called and the arguments are not swapped, dropped or evaluated twice.",
  ["inputs", "programs"], "all callables (free functions, const and non-const members, functors) of any arity instantiated, all argument values",
  "tests call a few functions with distinguishable arguments; each instantiation pattern is not covered",
  ["src/value_function.h", "src/function_type.h", "src/function.tcc"],
  [("ValueFunctionImpl::operator() / call", "src/value_function.h")],
  observe=["Function::call"])

p("C24", "Type descriptions derived from C++ types are faithful",
  "The description computed for a C++ type or expression names the type stripped of reference and constness, is an l-value or r-value reference exactly when the C++ type is (a non-reference type being a copy, an expression being an l-value or an r-value), and is const exactly when the referred-to type is. The description of a callable lists its return type and its parameter types in declaration order, with the object as first parameter of member functions.",
  ["programs"], "all combinations of reference kind and constness over an arbitrary class type; free functions, members and functors",
  "tests check some combinations; a wrong corner (e.g. const r-value) would go unnoticed by uses of the others",
  ["src/argument.tcc", "src/ref_type.h", "src/clean_type.h", "src/function_type.h", "src/function.tcc"],
  [("Argument::make", "src/argument.tcc"), ("makeRefType / isConst", "src/ref_type.h"), ("reflectReturn / reflectArguments", "src/function.tcc")],
  observe=["Argument::make", "reflectArguments"])

p("C25", "Reflected operators compute the C++ operator on the same operands",
  "Every function the library's registration macros and primitive types register under an operator's name is that C++ operator, with the object as its left operand and the argument as its right one; each operator a class declares once (not overloaded) is registered exactly once under its own spelling (pre and post increments apart), and nothing else is. Registered constructors, allocators, assignments, casts and fields are likewise the C++ ones of the class: they construct or assign from their operand, leave it as C++ does, and return the object. The arithmetic types add with C++'s promotion and describe themselves (sizeof, limits, kind); pointers dereference to the pointed object and are true when not null.",
  ["inputs", "programs"], "all operand values of every reflected arithmetic type, all operators of a class",
  "tests call each operator with one or two operand values, many of which cannot tell similar operators apart",
  ["src/dsl/operators.h", "src/dsl/plumbing.h", "src/dsl/function.h", "src/dsl/field.h", "src/types/primitives.tcc", "src/types/pointer.h"],
  [("reflectOp macros", "src/dsl/operators.h"), ("reflectPlumbing / reflectAllocPlumbing", "src/dsl/plumbing.h"), ("reflectNumberImpl", "src/types/primitives.tcc"), ("Reflect<T*>", "src/types/pointer.h")],
  observe=["Type::call", "Type::function"])

p("C30", "Configuration paths and nodes resolve consistently",
  "A configuration path parsed from text prints back to the same text, and looking it up walks one component at a time.",
  ["inputs"], "all path strings",
  "the configuration utilities are neither built nor tested",
  ["src/utils/config/path.cpp", "src/utils/config/node.cpp"],
  [("Path", "src/utils/config/path.cpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
