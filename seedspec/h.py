exec(open("seedspec/common.py").read())
OPS = r'''
struct N { int v; N(int v = 0) : v(v) {} bool operator<=(const N& o) const { return v <= o.v; } bool operator>=(const N& o) const { return v >= o.v; } bool operator<(const N& o) const { return v < o.v; } bool operator>(const N& o) const { return v > o.v; } bool operator==(const N& o) const { return v == o.v; } bool operator!=(const N& o) const { return v != o.v; }
  N& operator++() { ++v; return *this; } N& operator--() { --v; return *this; } N operator++(int) { N r(v); v += 1; return r; } N operator--(int) { N r(v); v -= 1; return r; } };
reflectType(N) { reflectPlumbing(); reflectAllocPlumbing(); reflectOpComparaison(); reflectOpIncDec(); }
'''
SEEDS = [
 dict(ID="c25_ge_is_le", PROPERTY="C25", EDITS=[("dsl/operators.h", "reflectOp(operator>=, GEComp);", "reflectOp(operator>=, LEComp);")],
  NEEDS="calling the reflected operator>= of a class declaring both orders, on unequal operands", BREAKS="operator>= computes operator<=",
  DEMO=T + OPS + 'int main() { N a(1), b(2); MUST(type<N>()->call<bool>("operator>=", b, a)); MUST(!type<N>()->call<bool>("operator>=", a, b)); MUST(type<N>()->call<bool>("operator<=", a, b)); }\n'),
 dict(ID="c25_post_decrement", PROPERTY="C25", EDITS=[("dsl/operators.h", "reflectOp(operator--, DecPost);", "reflectOp(operator--, IncPost);")],
  NEEDS="calling the reflected post-decrement (operator-- with an int) of a class declaring all four", BREAKS="post-decrement increments the object",
  DEMO=T + OPS + 'int main() { N a(5); N r = type<N>()->call<N>("operator--", a, 0); MUST(r.v == 5); MUST(a.v == 4); type<N>()->call<N&>("operator--", a); MUST(a.v == 3); type<N>()->call<N>("operator++", a, 0); MUST(a.v == 4); }\n'),
 dict(ID="c25_new_copy", PROPERTY="C25", EDITS=[("dsl/plumbing.h", "return new T(other);", "return new T(const_cast<T&&>(other));")],
  NEEDS="allocating a copy of an object with a move constructor through the reflected new(const T&), then looking at the original", BREAKS="the original is moved from",
  DEMO=T + OPS.replace("struct N {", "struct N { N(const N& o) : v(o.v) {} N(N&& o) : v(o.v) { o.v = -1; } N& operator=(const N& o) { v = o.v; return *this; }") + 'int main() { const N a(5); N* p = type<N>()->call<N*>("new", a); MUST(p->v == 5); MUST(a.v == 5); delete p; }\n'),
]
