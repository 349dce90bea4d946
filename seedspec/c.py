exec(open("seedspec/common.py").read())
SEEDS = [
 dict(ID="c07_assign_keeps_owner", PROPERTY="C07", EDITS=[("value.cpp", "    arg = other.arg;\n    value_ = other.value_;\n    storage = other.storage;\n\n    return *this;", "    arg = other.arg;\n    value_ = other.value_;\n    if (other.isStored()) storage = other.storage;\n\n    return *this;")],
  NEEDS="assigning a non-owning value over an owning one", BREAKS="the overwritten stored object stays alive and the value claims to own its referent",
  DEMO=T + OBJ + 'int main() { Base b; Value r(b); Value v((Base())); v = r; MUST(v.value() == &b); MUST(!v.isStored()); }\n'),
 dict(ID="c07_const_view_drops_owner", PROPERTY="C07", EDITS=[("value.cpp", "    Value result(*this);\n    result.arg = Argument(type(), RefType::RValue, true);\n    return result;", "    Value result;\n    result.value_ = value_;\n    if (isStored() && !isConst()) result.storage = storage;\n    result.arg = Argument(type(), RefType::RValue, true);\n    return result;")],
  NEEDS="a const view of a const view of an owning value that outlives both", BREAKS="the view no longer shares the ownership of the object it points to",
  DEMO=T + OBJ + 'int main() { Value v((Base())); Value k = v.toConst().toConst(); MUST(k.isStored()); }\n'),
 dict(ID="c07_rvalue_view_mutable", PROPERTY="C07", EDITS=[("value.cpp", "result.arg = Argument(type(), RefType::RValue, isConst());", "result.arg = Argument(type(), RefType::RValue, isConst() && !isStored());")],
  NEEDS="an r-value view of a const view of an owning value", BREAKS="the r-value view drops the constness",
  DEMO=T + OBJ + 'int main() { Value v((Base())); MUST(v.toConst().rvalue().isConst()); }\n'),
 dict(ID="c08_const_lvalue_of_temporary", PROPERTY="C08", EDITS=[("cast.cpp", "        if (target.isConst()) return value;\n        if (!value.isConst() && value.refType() == RefType::LValue)\n            return value;", "        bool temporary = value.refType() != RefType::LValue && !value.isStored();\n        if (target.isConst() && !temporary) return value;\n        if (!value.isConst() && value.refType() == RefType::LValue)\n            return value;")],
  NEEDS="a const reference taken from an r-value view that does not own its object", BREAKS="an allowed cast to a const reference is refused",
  DEMO=T + OBJ + 'int main() { Base b; Value v = Value(b).rvalue(); MUST(!fails([&] { cast(v, Argument(type<Base>(), RefType::LValue, true)); })); }\n'),
 dict(ID="c08_copy_keeps_exact_type", PROPERTY="C08", EDITS=[("cast.cpp", "            return target.type()->construct(value);", "            return value.type() == target.type() || !value.type()->isCopiable() ? target.type()->construct(value) : value.copy();")],
  NEEDS="casting a copiable descendant to a copy of its parent type", BREAKS="the copy has the descendant's type instead of the requested one",
  DEMO=T + OBJ + 'int main() { Derv d; Value v(d); Value r = cast(v, Argument(type<Base>(), RefType::Copy, false)); MUST(r.type() == type<Base>()); }\n'),
 dict(ID="c08_rvalue_needs_copy", PROPERTY="C08", EDITS=[("type.cpp", "            { Argument(this, RefType::RValue, false) });", "            { Argument(this, RefType::RValue, true) });")],
  NEEDS="a type whose only constructor takes a non-const r-value", BREAKS="a movable type is not recognised as movable",
  DEMO=T + 'struct M { M() {} M(M&&) {} M(const M&) = delete; };\nnamespace reflect { template<> struct Reflect<M> { static std::string id() { return "M"; } static void loader() {} static void reflect(Type* t) { reflectMoveConstructor<M>(t); } }; template<> struct Loader<M> { Loader() { Registry::add<M>(); } }; static Loader<M> lm; }\nint main() { MUST(type<M>()->isMovable()); Value v((M())); MUST(!fails([&] { cast(v, Argument(type<M>(), RefType::RValue, false)); })); }\n'),
 dict(ID="c09_reference_field", PROPERTY="C09", EDITS=[("field.cpp", "if (arg.refType() != RefType::Copy) {", "if (arg.refType() == RefType::LValue && !arg.isConst()) {")],
  NEEDS="a field declared as a const reference or an r-value reference", BREAKS="a reference field is accepted",
  DEMO=T + 'int main() { MUST(fails([&] { Field("x", Argument(type<int>(), RefType::LValue, true), 8); })); MUST(fails([&] { Field("x", Argument(type<int>(), RefType::RValue, false), 8); })); }\n'),
 dict(ID="c09_offset_narrowed", PROPERTY="C09", EDITS=[("field.h", "    size_t offset_;", "    uint32_t offset_;")],
  NEEDS="a field more than 4 GiB into an object", BREAKS="the declared offset is truncated",
  DEMO=T + 'int main() { size_t big = (size_t(1) << 33) + 12; Field f("x", Argument(type<int>(), RefType::Copy, false), big); MUST(f.offset() == big); }\n'),
]
