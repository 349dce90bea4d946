exec(open("seedspec/common.py").read())
SEEDS = [
 dict(ID="c06_field_over_inherited", PROPERTY="C06", EDITS=[("type.cpp", "    if (fields_.count(field)) return true;\n    return parent_ ? parent_->hasField(field) : false;", "    for (const Type* t = this; t; t = t->parent_)\n        if (t->fields_.count(field)) return !t->fns_.empty() || t->fields_.size() > 0 ? t == this || !fns_.count(field) : false;\n    return false;")],
  NEEDS="a name that is a function of the type and a field of an ancestor", BREAKS="hasField answers no although the lookup succeeds",
  DEMO=T + 'int main() { Type a("A"), b("B"); b.parent(&a); a.addField("x", Field("x", Argument(type<int>(), RefType::Copy, false), 4)); b.addFunction("x", [] {}); const Type& c = b; MUST(!fails([&] { c.field("x"); })); MUST(c.hasField("x")); }\n'),
 dict(ID="c06_function_skips_level", PROPERTY="C06", EDITS=[("type.cpp", "    if (!parent_)\n        reflectError(\"<%s> doesn't have a function <%s>\", id_, fn);\n\n    return parent_->function(fn);", "    if (!hasFunction(fn))\n        reflectError(\"<%s> doesn't have a function <%s>\", id_, fn);\n\n    const Type* owner = parent_;\n    for (const Type* t = parent_; t; t = t->parent_)\n        if (t->fns_.count(fn)) owner = t;\n    return owner->fns_.find(fn)->second;")],
  NEEDS="a function declared by two ancestors", BREAKS="the lookup yields the farthest instead of the nearest declaration",
  DEMO=T + 'int main() { Type a("A"), b("B"), c("C"); b.parent(&a); c.parent(&b); a.addFunction("f", [] {}); b.addFunction("f", [] {}); const Type& t = c; MUST(&t.function("f") == &b.function("f")); }\n'),
 dict(ID="c06_field_overwrites_function", PROPERTY="C06", EDITS=[("type.cpp", "    auto it = fns_.find(name);\n    if (it != fns_.end()) {", "    auto it = fns_.find(name);\n    if (it != fns_.end() && it->second.size() > 1) {")],
  NEEDS="a field added under the name of a function with a single overload", BREAKS="a name becomes both a field and a function",
  DEMO=T + 'int main() { Type a("A"); a.addFunction("f", [] {}); MUST(fails([&] { a.addField("f", Field("f", Argument(type<int>(), RefType::Copy, false), 4)); })); MUST(!a.hasField("f")); }\n'),
 dict(ID="c06_converter_inherited", PROPERTY="C06", EDITS=[("type.cpp", 'auto& fns = function("operator " + other->id() + "()");', 'auto it = fns_.find("operator " + other->id() + "()");\n    if (it == fns_.end() && parent_) return parent_->function("operator " + other->id() + "()")[0];\n    auto& fns = function("operator " + other->id() + "()");')],
  NEEDS="a conversion function with several overloads inherited from an ancestor", BREAKS="an ambiguous inherited converter is not refused",
  DEMO=T + 'int main() { Type a("A"), b("B"), o("O"); b.parent(&a); a.addFunction("operator O()", [](int) { return 1; }); a.addFunction("operator O()", [](int, int) { return 1; }); MUST(fails([&] { b.converter(&o); })); MUST(b.hasConverter(&o)); }\n'),
]
