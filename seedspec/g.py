exec(open("seedspec/common.py").read())
SEEDS = [
 dict(ID="c24_const_rvalue", PROPERTY="C24", EDITS=[("ref_type.h", "    if (std::is_rvalue_reference<T>::value) return RefType::RValue;", "    typedef typename std::remove_reference<T>::type RefT;\n    if (std::is_rvalue_reference<T>::value && !std::is_const<RefT>::value) return RefType::RValue;")],
  NEEDS="a parameter or result declared as const T&&", BREAKS="it's described as a copy",
  DEMO=T + 'int main() { MUST(Argument::make<int&&>().refType() == RefType::RValue); MUST(Argument::make<const int&>().refType() == RefType::LValue); MUST(Argument::make<const int&&>().refType() == RefType::RValue); }\n'),
 dict(ID="c24_const_object", PROPERTY="C24", EDITS=[("ref_type.h", "bool isConst(T&&)\n{\n    typedef typename std::remove_reference<T>::type CleanT;\n    return std::is_const<CleanT>::value;", "bool isConst(T&&)\n{\n    typedef typename std::remove_reference<T>::type CleanT;\n    return std::is_lvalue_reference<T>::value && std::is_const<CleanT>::value;")],
  NEEDS="an argument that is a const r-value (a moved const object)", BREAKS="it's described as not const",
  DEMO=T + 'int main() { const int i = 1; MUST(Argument::make(i).isConst()); MUST(!Argument::make(2).isConst()); MUST(Argument::make(std::move(i)).isConst()); }\n'),
]
