exec(open("seedspec/common.py").read())
CT = T.replace('#include "dsl/all.h"', '#include "dsl/all.h"\n#include "types/std/vector.h"\n#include "types/std/map.h"\n#include "types/std/smart_ptr.h"')
SEEDS = [
 dict(ID="c22_at_end", PROPERTY="C22", EDITS=[("types/std/vector.h", "if (i >= value.size())", "if (i > value.size())")],
  NEEDS="calling at with exactly the vector's size", BREAKS="at reads one element past the end instead of reporting an error",
  DEMO=CT + 'int main() { std::vector<int> v; v.reserve(16); for (int i = 0; i < 8; ++i) v.push_back(i); for (size_t i = 0; i < 8; ++i) MUST(type<std::vector<int> >()->call<const int&>("at", v, i) == int(i)); MUST(fails([&] { type<std::vector<int> >()->call<const int&>("at", v, size_t(9)); })); MUST(fails([&] { type<std::vector<int> >()->call<const int&>("at", v, size_t(8)); })); }\n'),
 dict(ID="c22_keys_of_values", PROPERTY="C22", EDITS=[("types/std/map.h", "for (auto& item : value) result.push_back(item.first);", "for (auto& item : value) { if (!result.empty() && !(result.back() < item.first)) continue; result.push_back(item.first); }")],
  NEEDS="listing the keys of an unordered map whose order isn't ascending", BREAKS="keys leaves keys out",
  DEMO=CT + 'int main() { std::unordered_map<long, int> m; for (long i = 0; i < 50; ++i) m[(i * 37) % 101] = i; std::vector<long> k = type<std::unordered_map<long, int> >()->call<std::vector<long> >("keys", m); MUST(k.size() == 50); for (long x : k) MUST(m.count(x)); }\n'),
 dict(ID="c22_map_at_begin", PROPERTY="C22", EDITS=[("types/std/map.h", "auto it = value.find(k);\n        if (it != value.end()) return it->second;", "auto it = value.find(k);\n        if (it != value.end() || (it = value.begin()) != value.end()) return it->second;")],
  NEEDS="calling at with an unknown key on a map that isn't empty", BREAKS="at returns another key's value instead of reporting an error",
  DEMO=CT + 'int main() { std::map<int, int> m; const std::map<int, int>& c = m; MUST(fails([&] { type<std::map<int, int> >()->call<const int&>("at", c, 4); })); m[3] = 30; MUST((type<std::map<int, int> >()->call<const int&>("at", c, 3)) == 30); MUST(fails([&] { type<std::map<int, int> >()->call<const int&>("at", c, 4); })); }\n'),
 dict(ID="c22_reset_same", PROPERTY="C22", EDITS=[("types/std/smart_ptr.h", "return value == other;", "return !value == !other && (!value || value == other);"), ("types/std/smart_ptr.h", "reflectCustom(reset) (T_& value) { value.reset(); };", "reflectCustom(reset) (T_& value) { value.release(); };")],
  NEEDS="reset without argument of a unique_ptr through reflection, watching the object", BREAKS="the object held isn't destroyed",
  DEMO=CT + 'static int live; struct Ob { Ob() { ++live; } ~Ob() { --live; } }; reflectType(Ob) {}\nint main() { std::unique_ptr<Ob> p(new Ob); type<std::unique_ptr<Ob> >()->call<void>("reset", p, new Ob); MUST(live == 1); type<std::unique_ptr<Ob> >()->call<void>("reset", p); MUST(!p); MUST(live == 0); }\n'),
]
