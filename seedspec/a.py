exec(open("seedspec/common.py").read())
SEEDS = [
 dict(ID="c01_const_rvalue_copy", PROPERTY="C01", EDITS=[("argument.cpp", "else isExact = refType() == RefType::RValue;", "else isExact = refType() == RefType::RValue && !isConst();")],
  NEEDS="a const r-value offered where a copy is expected", BREAKS="a const r-value taken by copy is reported as a partial instead of an exact match",
  DEMO=T + 'int main() { MUST(Argument(type<int>(), RefType::RValue, true).isConvertibleTo(Argument(type<int>(), RefType::Copy, false)) == Match::Exact); }\n'),
 dict(ID="c01_converter_const_lref", PROPERTY="C01", EDITS=[("argument.cpp", "if (target.refType() != RefType::LValue) return Match::Partial;", "if (target.refType() != RefType::LValue || target.isConst()) return Match::Partial;")],
  NEEDS="a type with a user-defined converter offered where a const l-value reference is expected", BREAKS="a conversion that would bind a temporary to a const l-value reference is reported as possible",
  DEMO=T + 'int main() { Type a("A"), b("B"); a.addFunction("operator B()", [](int x) { return x; }); MUST(Argument(&a, RefType::LValue, false).isConvertibleTo(Argument(&b, RefType::LValue, true)) == Match::None); }\n'),
 dict(ID="c02_depth_limit", PROPERTY="C02", EDITS=[("type.cpp", "    return parent_ && parent_->isChildOf(other);", "    // bounded walk: protects against cycles in the declared parents\n    size_t hops = 0;\n    for (const Type* t = parent_; t && hops < 16; t = t->parent_, ++hops)\n        if (t == other) return true;\n    return false;")],
  NEEDS="a hierarchy more than 16 levels deep", BREAKS="an ancestor far up the parent chain is not recognised",
  DEMO=T + 'int main() { std::vector<std::unique_ptr<Type> > ts; for (int i = 0; i < 30; ++i) { ts.emplace_back(new Type("t" + std::to_string(i))); if (i) ts[i]->parent(ts[i - 1].get()); } for (int i = 0; i < 30; ++i) for (int j = 0; j < 30; ++j) MUST(ts[i]->isChildOf(ts[j].get()) == (j <= i)); }\n'),
 dict(ID="c02_pointer_kind", PROPERTY="C02", EDITS=[("type.cpp", "if (pointer() != other->pointer()) return false;", "if (pointer().size() != other->pointer().size()) return false;")],
  NEEDS="two pointer kinds whose names have the same length (std::shared_ptr and std::unique_ptr)", BREAKS="pointers of different kinds are reported as children of each other",
  DEMO=T + 'int main() { Type t("T"), s("std::shared_ptr<T>"), u("std::unique_ptr<T>"); s.setPointer("std::shared_ptr", &t); u.setPointer("std::unique_ptr", &t); MUST(!s.isChildOf(&u)); MUST(!u.isChildOf(&s)); MUST(s.isChildOf(&s)); }\n'),
 dict(ID="c03_void_const_value", PROPERTY="C03", EDITS=[("function.cpp", "if (value.refType() == RefType::LValue) return Match::None;\n        return", "if (value.isLValueRef()) return Match::None;\n        return")],
  NEEDS="a void function requested with a const l-value reference to a dynamic value as its return", BREAKS="a void function is said to be able to yield a const Value&",
  DEMO=T + 'int main() { Function f("f", [] {}); MUST(f.test(Argument(type<Value>(), RefType::LValue, true), std::vector<Argument>()) == Match::None); MUST(f.test(Argument(type<Value>(), RefType::Copy, false), std::vector<Argument>()) == Match::Exact); }\n'),
 dict(ID="c03_last_argument_wins", PROPERTY="C03", EDITS=[("function.cpp", "        match = combine(match, value[i].isConvertibleTo(target[i]));\n        if (match == Match::None) return Match::None;", "        Match arg = value[i].isConvertibleTo(target[i]);\n        if (arg == Match::None) return Match::None;\n        match = i < 2 ? combine(match, arg) : arg;")],
  NEEDS="three or more arguments of which an early one matches partially and the last one exactly", BREAKS="the match of the last argument replaces the weaker match of earlier ones",
  DEMO=T + 'int main() { Function f("f", [](const int&, int, int) {}); std::vector<Argument> v = { Argument::make<int&>(), Argument::make<int>(), Argument::make<int>() }; MUST(f.test(Argument::make<void>(), v) == Match::Partial); }\n'),
 dict(ID="c04_partial_then_exact", PROPERTY="C04", EDITS=[("overloads.tcc", "            ambiguous = false;\n", "")],
  NEEDS="two overloads that match partially registered before one that matches exactly", BREAKS="the exact match is refused as ambiguous",
  DEMO=T + OBJ + 'int main() { int ran = 0; Overloads o; o.add(Function("f", [&](const Base&, int) { ran = 1; })); o.add(Function("f", [&](const Base&, const int&) { ran = 2; })); o.add(Function("f", [&](Base&, int&) { ran = 3; })); Base b; int i = 0; o.call<void>(b, i); MUST(ran == 3); }\n'),
 dict(ID="c04_lookup_prefers_exact", PROPERTY="C04", EDITS=[("overloads.cpp", "    for (const auto& fn : overloads) {\n        if (fn.test(ret, args) != Match::None) return fn;\n    }\n\n    reflectError", "    const Function* partial = nullptr;\n    for (const auto& fn : overloads) {\n        Match match = fn.test(ret, args);\n        if (match == Match::Exact) return fn;\n        if (match == Match::Partial) partial = &fn;\n    }\n    if (partial) return *partial;\n\n    reflectError")],
  NEEDS="a signature lookup with several matching overloads", BREAKS="lookup by signature does not return the first matching overload",
  DEMO=T + 'int main() { Overloads o; o.add(Function("f", [](const int&) {})); o.add(Function("f", [](int&) {})); MUST(&o.get(Argument::make<void>(), { Argument::make<int&>() }) == &o[0]); }\n'),
 dict(ID="c05_swapped_test", PROPERTY="C05", EDITS=[("overloads.cpp", "if (fn.test(other) != Match::Exact) continue;", "if (other.test(fn) != Match::Exact) continue;")],
  NEEDS="two overloads where matching is exact in one direction only (r-value reference against copy)", BREAKS="a duplicate is judged in the wrong direction: additions are refused or accepted wrongly",
  DEMO=T + 'int main() { Overloads o; o.add(Function("f", [](int&&) {})); MUST(fails([&] { o.add(Function("f", [](int) {})); })); Overloads p; p.add(Function("f", [](int) {})); MUST(!fails([&] { p.add(Function("f", [](int&&) {})); })); MUST(p.size() == 2); }\n'),
 dict(ID="c05_prepends", PROPERTY="C05", EDITS=[("overloads.cpp", "    overloads.emplace_back(std::move(fn));", "    auto pos = overloads.begin();\n    while (pos != overloads.end() && pos->arguments() <= fn.arguments()) ++pos;\n    overloads.emplace(pos, std::move(fn));")],
  NEEDS="adding an overload with fewer parameters after one with more", BREAKS="the order of the registered overloads is not the order of registration",
  DEMO=T + 'int main() { Overloads o; o.add(Function("a", [](int, int) {})); o.add(Function("b", [](int) {})); MUST(o[0].name() == "a"); MUST(o[1].name() == "b"); }\n'),
]
