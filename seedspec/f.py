exec(open("seedspec/common.py").read())
SEEDS = [
 dict(ID="c11_function_from_parent", PROPERTY="C11", EDITS=[("scope.cpp", "    if (it == functions_.end())\n        reflectError(\"<%s> has no function <%s>\", id(), split.first);", "    if (it == functions_.end()) {\n        if (parent_) return parent_->function(split.first);\n        reflectError(\"<%s> has no function <%s>\", id(), split.first);\n    }")],
  NEEDS="a lookup of a function absent from its scope, where an enclosing scope has a function of that name", BREAKS="the lookup answers for another entity than the one named",
  DEMO=T + 'static int f() { return 3; }\nint main() { Scope& s = *new Scope(); s.addFunction("f", f); s.scope("a::b"); MUST(!s.hasFunction("a::b::f")); MUST(fails([&] { s.function("a::b::f"); })); MUST(s.hasFunction("f")); }\n'),
 dict(ID="c11_hasscope_two_levels", PROPERTY="C11", EDITS=[("scope.cpp", "it->second->hasScope(split.second) : true;", "it->second->hasScope(head(split.second).first) : true;")],
  NEEDS="a query with a path of three or more components whose tail is missing", BREAKS="a scope that doesn't exist is reported as existing",
  DEMO=T + 'int main() { Scope& s = *new Scope(); s.scope("a::b"); MUST(s.hasScope("a::b")); MUST(!s.hasScope("a::c")); MUST(!s.hasScope("a::b::c")); s.scope("a::b::c"); MUST(s.hasScope("a::b::c")); }\n'),
 dict(ID="c11_listing_one_level", PROPERTY="C11", EDITS=[("scope.cpp", "scope.second->types(true);", "scope.second->types(!scope.second->types_.empty());")],
  NEEDS="a listing with sub-scopes where an intermediate scope has no type of its own", BREAKS="types below such a scope are missing from the listing",
  DEMO=T + 'int main() { Scope& s = *new Scope(); s.addType("a::b::T"); MUST(s.types(true).size() == 1 && s.types(true)[0] == "a::b::T"); }\n'),
 dict(ID="c11_id_two_levels", PROPERTY="C11", EDITS=[("scope.cpp", "    return join(parent_->id(), name_);", "    return join(parent_->parent_ ? parent_->name_ : \"\", name_);")],
  NEEDS="a scope nested at least three deep", BREAKS="its identifier lacks the outer components",
  DEMO=T + 'int main() { Scope& s = *new Scope(); MUST(s.scope("a")->id() == "a"); MUST(s.scope("a::b")->id() == "a::b"); MUST(s.scope("a::b::c")->id() == "a::b::c"); }\n'),
]
