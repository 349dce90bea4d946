#!/usr/bin/env python3
"""MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification of the compiled code (own VC generator over clang LLVM IR of /repo, z3/cvc5)"
TRUST = " Trusted: clang front end, the VC generator in engine/, the solvers, and the library contracts named in the evidence; a bounded run of the real code against an independent oracle (witness/) validates the assumed contracts and is not counted as proof."
CLAIMED = {
 "C20": "parseArray and parseObject with arbitrary handlers and skip (recursive) proved for token sequences of any length and any nesting against a grammar given by recursive definitions: which handlers run, in what order, with which index or key, what is consumed, that every deviation is recorded as an error and stops the walk, and that no error means a complete value; Reader::peekToken and nextToken proved to present the tokens one by one. The tokens themselves (details::nextToken) enter as a contract. The reflected parsers (objects, maps, lists, pointers) are covered by the bounded witness only.",
 "C18": "printArray and printObject (with and without skipped entries), null, true and false proved for any number of entries, any keys and opaque handlers with an automaton over the bytes written: brackets, order, separators, quoted key, colon, white space only where it may stand and only when pretty, depth restored; handlers enter as arbitrary code printing one value (induction over the nesting). The reflected printers (objects with traits, maps, lists, pointers, custom functions) are covered by the bounded witness only, as is print(stream). One known finding (uninitialised skipEmpty).",
 "C11": "All 20 operations of a scope proved as the recursive equations of the tree (hasScope, scope, addType, hasType, type, addFunction, hasFunction, function, id, constructors, listings of one scope, typed forms), each recursive call being checked against its own contract; listings that include sub-scopes are covered by the bounded witness only.",
 "C21": "type<T>() proved thread-modularly at 14 types (12 templates and pointers): static state the lookups share may change to anything other lookups leave there (rely), is only accessed atomically and only tells of a registration once it was made (guarantee), nothing others wait for is held while the registry is called (no lock-order deadlock), what is registered runs the type's own reflection; the identifiers as terms; the static registration of plain types. First uses by four threads at once in the witness",
 "C22": "Reflect<T>::reflect proved for two vectors, three maps, both smart pointers and std::string: every registered function is applied to an arbitrary container and operands and shown to be the container's own operation (containers enter by contract), at checked against the bounds, keys by induction over the iteration; the description (traits, key and value types, pointee) too. Random operation sequences compared with the containers themselves in the witness",
 "C25": "the operator, plumbing, allocation, constructor, cast and field macros proved at six classes with declared-only members (which member is called, on which operands, what becomes of the result), and Reflect<T>::reflect proved for the 15 arithmetic types and two pointer types: each registered callable is executed on arbitrary operands.",
 "C24": "Argument::make (types and expressions), type, typeId, reflectReturn, reflectArguments, Function's constructor and the typed registry operations proved at 8 types x 6 forms and 12 callables instantiated by a driver; the registry and the type loaders enter by contract. Templates are checked per instantiation.",
 "C12": "Registry::get, add and alias proved against the type, alias and loader tables for every name and table contents: resolution, first lookup, visibility of the type object when its loader runs, errors and frames. Loaders enter as arbitrary code that uses the registry's operations; 'at most once' is the induction over these contracts.",
 "C13": "Every access of the three tables in Registry::get, add and alias proved to happen with the lock held that Registry::get takes (ghost hold counts on the mutexes), locks released on return, and no non-recursive lock held while a loader runs; the race detector validates the same on the real code.",
 "C14": "Construction, move construction, move assignment (self-assignment included) and destruction of Function proved with ghost ownership of the callable: owned exactly once, moved out of the source, released exactly once by the owner's destruction, nothing leaked or used after release.",
 "C23": "ValueFunction::call and reflectCall at the drivers' callables (free functions, lambdas, functors and member functions; values, references and r-values; void results), Function::call's dispatch and the wrapped result proved with ghost identities on values and an event log of cast / run / wrap.",
 "C10": "Scope::head, tail and join proved for names of any length against a prefix specification of bracket depth and the first colon outside brackets; reading outside the name is an obligation; that joining gives the name back is a lemma over the proved postconditions.",
 "C07": "Value construction at four opaque class types in all value categories, copy/move construction and assignment (including to itself), the const and r-value views, copy(), move() and typed access proved with ghost ownership: object identity, description, shared owner, and that the stored object's deleter destroys and frees it once. shared_ptr itself is a library contract.",
 "C08": "cast, isCastable, the typed casts at eleven opaque targets and the copiability/movability queries proved against the stated decision for every value and target, with ancestry and converters as arbitrary predicates. One behaviour the existing tests pin is outside the property: an r-value cast of a const value is allowed.",
 "C09": "Value::field (as value and with three typed casts), the Field constructor and Field::make at six types proved for every address, offset, type and constness.",
 "C06": "const/non-const lookups and existence queries of fields and functions proved against a recursive specification over parent chains of any depth; additions proved to refuse every name clash, to make exactly the given member available and to leave every other name unchanged; converter lookup included. Overloads::add enters by its contract (C05).",
 "C02": "Type::isChildOf/isParentOf proved equal to the reflexive-transitive closure of the recorded parents for chains of any length; parent(), pointee() and the stripping loop framed. Acyclicity of the recorded parent chain (established by construction order) and partial correctness of the chain walk are assumptions.",
 "C03": "Function::test in all its forms proved to be the weakest of the argument matches and the return rule, for argument lists of any length.",
 "C04": "Overloads::call (0, 1 and 2 arguments, void / int / Value results), get, test and Function::call proved against the documented choice rule for overload sets of any size and arbitrary matches.",
 "C05": "Overloads::add proved for sets of any size: error iff an exact duplicate is registered, otherwise exactly the new function is appended to the set the accessors read.",
 "C19": "Traits::addTrait (and its typed form at five types), is, getValue at six types, traits() and construction proved for every table contents, trait name and value: presence, the attached value, errors, other traits and other entities framed; traits() by a loop invariant over the table's iteration.",
 "C01": "All offered/expected pairs: Argument::isConvertibleTo (both forms), combine and the predicates proved equal to the documented matrix with converters and ancestry as arbitrary predicates.",
 "C16": "details::nextToken proved for input streams of any length and content, under all reader options, against a specification automaton of the token grammar: it returns (no throw, no undefined behaviour), an error exactly for a malformed or out-of-range token, otherwise the token's kind, extent and decoded text, the first error kept, nothing read after an error; parseNull/Bool/Int/Float/String proved over its contract. parseArray, parseObject and skip: see C20. The reflected parsers (objects, maps, lists, pointers) are covered by the bounded witness only.",
 "C15": "formatString proved for texts of any length and content, under every option: the printed bytes are fed to the specification automaton of the token grammar, which reads them as one complete string token whose decoded text is the printed text, ASCII only when escaping, an error exactly for malformed UTF-8 when escaping or checking. Reading (nextToken on strings, UTF-8 and escape sequences) and parseString proved against the same automaton. The stream is modelled as accepting every byte or failing at any write.",
 "C17": "formatInt/printInt/formatFloat/printFloat proved over an assumed contract of snprintf (the text is the number's spelling); nextToken on numbers of any length proved against the specification automaton (kind, extent, range errors); parseInt and parseFloat proved over the contract of stol/stod. That glibc's %ld/%g/stol/stod agree with the decimal spelling is assumed by the proof and sampled by the witness.",
}
NA = {"C30": "src/utils/config is not part of the build (commented out in CMakeLists.txt) and does not compile, so there is no running code to put under contract"}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/tools/claims.py").read()) if os.path.exists(V + "/tools/claims.py") else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        note = CLAIMED[i]; level = "proof"
        if isinstance(note, tuple): level, note = note
        checks.append(dict(property=i, quick_cmd="python3-vt props/%s.py quick" % i.lower(), thorough_cmd="python3-vt props/%s.py thorough" % i.lower(),
                           evidence_file="evidence/%s.json" % i, technique=T, level=level, level_note=note + TRUST))
    else: na.append(dict(property=i, reason=NA.get(i, "no check built yet for this property")))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", hooks=dict(guard="REFLECT_VERIF", enable="no hooks are used: the checks compile /repo's sources unmodified", source_commits=[]),
         checks=checks, not_applicable=na, notes="Every check recompiles /repo's current sources to LLVM IR and re-proves all obligations on each run.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
