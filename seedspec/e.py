exec(open("seedspec/common.py").read())
SEEDS = [
 dict(ID="c19_value_added_later", PROPERTY="C19", EDITS=[("traits.cpp", "    if (traits_.count(trait))\n        reflectError", "    auto it = traits_.find(trait);\n    if (it != traits_.end() && !it->second.isVoid())\n        reflectError")],
  NEEDS="a trait first added without a value, then added again", BREAKS="the second addition is accepted and changes the trait",
  DEMO=T + 'int main() { Type t("t"); t.addTrait("a"); MUST(fails([&] { t.addTrait("a"); })); MUST(fails([&] { t.addTrait("a", Value()); })); }\n'),
 dict(ID="c19_embedded_nul", PROPERTY="C19", EDITS=[("traits.cpp", "    return traits_.count(trait);", "    return traits_.find(trait.c_str()) != traits_.end();")],
  NEEDS="a trait whose name holds a NUL character", BREAKS="the query answers for a different name",
  DEMO=T + 'int main() { Type t("t"); std::string n("a\\0b", 3); t.addTrait(n); MUST(t.is(n)); MUST(!t.is("a")); }\n'),
]
