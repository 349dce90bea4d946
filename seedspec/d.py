exec(open("seedspec/common.py").read())
TH = '#include <thread>\n'
SEEDS = [
 dict(ID="c10_deep_nesting", PROPERTY="C10", EDITS=[("scope.cpp", "    size_t next = name.size();\n    size_t nesting = 0;", "    size_t next = name.size();\n    uint8_t nesting = 0;")],
  NEEDS="a name with 256 nested brackets around a '::'", BREAKS="a '::' inside brackets is taken for the separator",
  DEMO=T + 'int main() { std::string n = std::string(256, \'<\') + "a::b" + std::string(256, \'>\'); n = "x" + n; auto p = Scope::head(n); MUST(p.first == n && p.second.empty()); }\n'),
 dict(ID="c10_tail_open_bracket", PROPERTY="C10", EDITS=[("scope.cpp", "        case '<': nesting--; break;\n        case '>': nesting++; break;", "        case '<': if (nesting) nesting--; break;\n        case '>': nesting++; break;")],
  NEEDS="the tail of a name with an opening bracket that is never closed", BREAKS="brackets left open are not reported",
  DEMO=T + 'int main() { MUST(fails([] { Scope::tail("a<b"); })); MUST(fails([] { Scope::tail("a::x<b"); })); }\n'),
 dict(ID="c12_alias_loads", PROPERTY="C12", EDITS=[("registry.cpp", "return typeIt != registry.types.end() ? typeIt->second : load(*pId);", "return typeIt != registry.types.end() ? typeIt->second : load(registry.loaders.count(id) ? id : *pId);")],
  NEEDS="an alias registered before a loader of the same name, looked up first through the alias", BREAKS="the lookup loads the shadowed type instead of the aliased one",
  DEMO=T + 'int main() { Registry::add("RealT", [](Type*) {}); Registry::alias("RealT", "Nick"); Registry::add("Nick", [](Type*) {}); MUST(type("Nick")->id() == "RealT"); MUST(type("Nick") == type("RealT")); }\n'),
 dict(ID="c12_alias_again", PROPERTY="C12", EDITS=[("registry.cpp", "    if (!ret.second) {\n        reflectError(\n                \"<%s> can't be aliased", "    if (!ret.second && ret.first->second != id) {\n        reflectError(\n                \"<%s> can't be aliased")],
  NEEDS="aliasing the same type to the same name twice", BREAKS="a taken alias is accepted without an error",
  DEMO=T + 'int main() { Registry::alias("int", "num"); MUST(fails([] { Registry::alias("int", "num"); })); MUST(type("num") == type<int>()); }\n'),
 dict(ID="c13_unlocked_check", PROPERTY="C13", EDITS=[("registry.cpp", "    if (id.empty() || !loader)\n", "    if (id.empty() || !loader || getRegistry().types.count(id) > 1)\n")],
  NEEDS="a registration that runs while another thread looks a type up for the first time", BREAKS="the type table is read without the registry lock",
  DEMO=T + TH + 'int main() { for (int i = 0; i < 400; ++i) Registry::add("p::T" + std::to_string(i), [](Type*) {}); std::thread a([] { for (int i = 0; i < 400; ++i) type("p::T" + std::to_string(i)); }); std::thread b([] { for (int i = 0; i < 400; ++i) Registry::add("q::T" + std::to_string(i), [](Type*) {}); }); a.join(); b.join(); }\n', FLAGS="-fsanitize=thread -g"),
 dict(ID="c13_unlocked_alias", PROPERTY="C13", EDITS=[("registry.cpp", "    if (id.empty() || alias.empty())\n", "    auto& aliases = getRegistry().aliases;\n    if (id.empty() || alias.empty() || (!aliases.empty() && aliases.count(alias)))\n")],
  NEEDS="two threads registering aliases at the same time", BREAKS="the alias table is read without the registry lock",
  DEMO=T + TH + 'int main() { auto f = [](std::string p) { for (int i = 0; i < 600; ++i) Registry::alias("int", p + std::to_string(i)); }; std::thread a(f, "a"), b(f, "b"); a.join(); b.join(); }\n', FLAGS="-fsanitize=thread -g"),
 dict(ID="c14_stateless_not_destroyed", PROPERTY="C14", EDITS=[("value_function.h", "virtual void free() { this->~ValueFunctionImpl(); }", "virtual void free() { if (!std::is_empty<Fn>::value) this->~ValueFunctionImpl(); }")],
  NEEDS="a callable without data members whose destructor has an effect", BREAKS="the callable's destructor is never run",
  DEMO=T + 'static int live = 0; struct F { F() { ++live; } F(const F&) { ++live; } ~F() { --live; } int operator()(int i) { return i; } };\nint main() { { Function f("f", F()); Function g(std::move(f)); } MUST(live == 0); }\n'),
 dict(ID="c14_unnamed_leaks", PROPERTY="C14", EDITS=[("function.cpp", "Function::\n~Function()\n{\n    if (fn) freeValueFunction(fn);", "Function::\n~Function()\n{\n    // Only named functions are registered and own their callable.\n    if (fn && !name_.empty()) freeValueFunction(fn);")],
  NEEDS="a function created with an empty name", BREAKS="its callable is neither destroyed nor freed",
  DEMO=T + 'static int live = 0; struct F { int x = 1; F() { ++live; } F(const F&) { ++live; } ~F() { --live; } int operator()(int i) { return i; } };\nint main() { { Function f("", F()); } MUST(live == 0); }\n'),
 dict(ID="c23_functor_copied", PROPERTY="C23", EDITS=[("value_function.h", "        return fn(cast<Args>(values)...);", "        // Re-entrant calls must not share state.\n        if (sizeof...(Args) < 3) return fn(cast<Args>(values)...);\n        Fn callable(fn);\n        return callable(cast<Args>(values)...);")],
  NEEDS="a functor that changes its own state and takes three arguments, called more than once", BREAKS="a copy of the callable is run instead of the callable",
  DEMO=T + 'struct Counter { int n = 0; int operator()(int, int, int) { return ++n; } };\nint main() { Function f("f", Counter()); MUST(f.call<int>(1, 2, 3) == 1); MUST(f.call<int>(1, 2, 3) == 2); }\n'),
]
