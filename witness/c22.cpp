// C22: reflected containers against the containers themselves, driven through dynamic calls.
#include "w.h"
#include "types/primitives.h"
#include "types/reflect/type.h"
#include "types/pointer.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/std/string.h"
#include "dsl/all.h"
using namespace reflect;
static long g_live = 0;
struct El { long a; std::string s; El(long a = 5) : a(a), s(std::to_string(a)) { ++g_live; } El(const El& o) : a(o.a), s(o.s) { ++g_live; } El(El&& o) : a(o.a), s(std::move(o.s)) { o.a = -1; o.s = "gone"; ++g_live; } ~El() { --g_live; a = -77; } El& operator=(const El& o) { a = o.a; s = o.s; return *this; } El& operator=(El&& o) { a = o.a; s = std::move(o.s); o.a = -2; o.s = "taken"; return *this; }
  bool operator==(const El& o) const { return a == o.a && s == o.s; } };
std::ostream& operator<<(std::ostream& o, const El& e) { return o << e.a << "/" << e.s; }
reflectType(El) { reflectPlumbing(); }
static bool has(const Type* t, const char* n, size_t k) { return t->is(n) && (k || true); }
template<typename E> static E mk(unsigned long v) { return E(long(v % 100)); }
template<> std::string mk<std::string>(unsigned long v) { return std::string(v % 40, char('a' + v % 26)); }

template<typename E> static void vectors(const char* what, unsigned long seed, int rounds)
{
    typedef std::vector<E> V; const Type* t = type<V>(); Rng rnd(seed);
    CHECK_THAT(t->is("list") && !t->is("map") && !t->is("smartPtr") && !t->isPointer() && t->getValue<const Type*>("valueType") == type<E>(), what, " isn't described as a list of its elements");
    for (int r = 0; r < rounds; ++r)
    {
        V v, m; Value ref(v); const V& cv = v; Value cref(cv); std::ostringstream h;
        for (int i = 0, n = 1 + rnd(12); i < n; ++i)
        {
            switch (rnd(8))
            {
            case 0: { E e = mk<E>(rnd(1000)); h << " push_back(" << e << ")"; E f = e; ref.call<void>("push_back", f); CHECK_THAT(f == e, what, h.str(), ": the operand of push_back becomes ", f); m.push_back(e); break; }
            case 1: { E e = mk<E>(rnd(1000)); h << " push_back(const " << e << ")"; const E f = e; t->call<void>("push_back", v, f); CHECK_THAT(f == e, what, h.str(), ": the operand of push_back becomes ", f); m.push_back(e); break; }
            case 2: { E e = mk<E>(rnd(1000)); h << " push_back(temporary " << e << ")"; ref.call<void>("push_back", E(e)); m.push_back(std::move(e)); break; }
            case 3: { size_t k = rnd(20); h << " resize(" << k << ")"; ref.call<void>("resize", k); m.resize(k); break; }
            case 4: if (!rnd(3)) { h << " clear"; ref.call<void>("clear"); m.clear(); } break;
            case 5: if (!m.empty()) { size_t k = rnd(m.size()); E e = mk<E>(rnd(1000)); h << " [" << k << "]=" << e; E& x = ref.call<E&>("operator[]", k); CHECK_THAT(&x == &v[k], what, h.str(), ": operator[] doesn't designate the element"); x = e; m[k] = e; } break;
            case 6: { size_t k = rnd(3) ? rnd(24) : rnd(2) ? m.size() : size_t(-1) - rnd(3); h << " at(" << k << ")"; const E* p = nullptr; bool f = fails([&] { p = &(rnd(2) ? ref : cref).call<const E&>("at", k); });
                CHECK_THAT(f == (k >= m.size()) && (f || p == &v[k]), what, h.str(), " with ", m.size(), " elements: ", f ? "error" : "no error"); break; }
            default: if (!m.empty()) { size_t k = rnd(m.size()); Value x = ref[k]; CHECK_THAT(&x.get<E>() == &v[k], what, h.str(), ": [", k, "] is another object"); }
            }
            CHECK_THAT(v == m, what, h.str(), ": the vector has ", v.size(), " elements, expected ", m.size(), v.empty() ? std::string() : "; or another last element");
            CHECK_THAT(ref.call<size_t>("size") == m.size() && cref.call<size_t>("size") == m.size(), what, h.str(), ": size is ", ref.call<size_t>("size"), " rather than ", m.size());
        }
        CHECK_THAT(fails([&] { cref.call<void>("clear"); }) && fails([&] { cref.call<void>("resize", size_t(3)); }) && v == m, what, h.str(), ": a constant vector is changed");
    }
}
template<typename M, typename K, typename E> static void maps(const char* what, unsigned long seed, int rounds, K (*key)(unsigned long))
{
    const Type* t = type<M>(); Rng rnd(seed);
    CHECK_THAT(t->is("map") && !t->is("list") && !t->is("smartPtr") && !t->isPointer() && t->getValue<const Type*>("valueType") == type<E>() && t->getValue<const Type*>("keyType") == type<K>(), what, " isn't described as a map from its keys to its values");
    for (int r = 0; r < rounds; ++r)
    {
        M v, m; Value ref(v); const M& cv = v; Value cref(cv); std::ostringstream h;
        for (int i = 0, n = rnd(14); i < n; ++i)
        {
            K k = key(rnd(16));
            switch (rnd(4))
            {
            case 0: { E e = mk<E>(rnd(1000)); h << " [" << k << "]=" << e; E& x = ref.call<E&>("operator[]", k); CHECK_THAT(v.count(k) && &x == &v.at(k), what, h.str(), ": operator[] doesn't designate the key's value"); x = e; m[k] = e; break; }
            case 1: { h << " [" << k << "]"; Value x = ref[k]; m[k]; CHECK_THAT(v.count(k) && &x.get<E>() == &v.at(k), what, h.str(), ": operator[] doesn't designate the key's value"); break; }
            case 2: { h << " at(" << k << ")"; const E* p = nullptr; bool f = fails([&] { p = &(rnd(2) ? ref : cref).call<const E&>("at", k); }); CHECK_THAT(f == !m.count(k) && (f || p == &v.at(k)), what, h.str(), ": ", f ? "error" : "no error or another value"); break; }
            default: { size_t c = (rnd(2) ? ref : cref).call<size_t>("count", k); CHECK_THAT(c == m.count(k), what, h.str(), ": count(", k, ") is ", c); }
            }
            CHECK_THAT(v == m, what, h.str(), ": the map differs, ", v.size(), " keys rather than ", m.size());
            CHECK_THAT(ref.call<size_t>("size") == m.size() && cref.call<size_t>("size") == m.size(), what, h.str(), ": size is ", ref.call<size_t>("size"), " rather than ", m.size());
        }
        std::vector<K> want; for (auto& x : v) want.push_back(x.first);
        std::vector<K> ks = (rnd(2) ? ref : cref).template call<std::vector<K> >("keys"); CHECK_THAT(ks == want && v == m, what, h.str(), ": keys lists ", ks.size(), " keys of ", want.size(), " or others");
        for (int k = 0; k < 16; ++k) { K q = key(k); CHECK_THAT(cref.call<size_t>("count", q) == m.count(q), what, h.str(), ": count(", q, ")"); }
        CHECK_THAT(fails([&] { cref.call<E&>("operator[]", key(3)); }) && v == m, what, h.str(), ": a constant map is indexed with insertion");
    }
}
static void pointers()
{
    {
        typedef std::shared_ptr<El> P; const Type* t = type<P>(); CHECK_THAT(t->is("smartPtr") && t->isPointer() && t->pointer() == "std::shared_ptr" && t->pointee() == type<El>(), "a shared pointer is described otherwise");
        P a, b(new El(3)), c(b), d(new El(3)); const P& cb = b; P* ps[] = { &a, &b, &c, &d };
        for (P* p : ps) for (P* q : ps) CHECK_THAT(t->call<bool>("operator==", *p, *q) == (*p == *q), "shared operator== of ", p - &a, " and ", q - &a);
        for (P* p : ps) { const P& x = *p; CHECK_THAT(t->call<El*>("get", x) == p->get() && t->call<bool>("operator bool()", x) == bool(*p), "get or operator bool of a shared pointer"); if (*p) CHECK_THAT(&t->call<El&>("operator*", x) == p->get(), "operator* of a shared pointer"); }
        CHECK_THAT(b.use_count() == 2, "the queries change the owners: ", b.use_count()); El* n = new El(9); t->call<void>("reset", c, n); CHECK_THAT(c.get() == n && c.use_count() == 1 && b.use_count() == 1 && b->a == 3, "reset(pointer) of a shared pointer");
        t->call<void>("reset", c); CHECK_THAT(!c && b->a == 3, "reset of a shared pointer"); (void)cb;
        Value v = t->construct(new El(4)); CHECK_THAT(v.get<P>()->a == 4 && v.get<P>().use_count() == 1, "construction from a pointer");
    }
    CHECK_THAT(g_live == 0, "shared pointers leave ", g_live, " objects");
    {
        typedef std::unique_ptr<El> P; const Type* t = type<P>(); CHECK_THAT(t->is("smartPtr") && t->isPointer() && t->pointer() == "std::unique_ptr" && t->pointee() == type<El>(), "a unique pointer is described otherwise");
        P a, b(new El(3)), d(new El(3)); P* ps[] = { &a, &b, &d };
        for (P* p : ps) for (P* q : ps) CHECK_THAT(t->call<bool>("operator==", *p, *q) == (*p == *q), "unique operator== of ", p - &a, " and ", q - &a);
        for (P* p : ps) { const P& x = *p; CHECK_THAT(t->call<El*>("get", x) == p->get() && t->call<bool>("operator bool()", x) == bool(*p), "get or operator bool of a unique pointer"); if (*p) CHECK_THAT(&t->call<El&>("operator*", x) == p->get(), "operator* of a unique pointer"); }
        El* held = b.get(); El* got = t->call<El*>("release", b); CHECK_THAT(got == held && !b && got->a == 3, "release of a unique pointer"); delete got;
        El* n = new El(9); t->call<void>("reset", d, n); CHECK_THAT(d.get() == n && n->a == 9 && g_live == 1, "reset(pointer) of a unique pointer; live objects ", g_live); t->call<void>("reset", d); CHECK_THAT(!d && g_live == 0, "reset of a unique pointer; live objects ", g_live);
        t->call<void>("reset", a); t->call<El*>("release", a); CHECK_THAT(!a, "reset of an empty pointer");
    }
    CHECK_THAT(g_live == 0, "unique pointers leave ", g_live, " objects");
    {
        typedef El* P; const Type* t = type<P>(); CHECK_THAT(t->is("primitive") && t->isPointer() && t->pointer() == "*" && t->pointee() == type<El>(), "a raw pointer is described otherwise");
        for (int i = 0; i < 47; ++i) { P p = reinterpret_cast<P>(uintptr_t(1) << i); CHECK_THAT(t->call<bool>("operator bool()", p), "operator bool of the pointer ", p); }
        P null = nullptr; CHECK_THAT(!t->call<bool>("operator bool()", null), "operator bool of a null pointer");
        El e(3), f(4); P p = &e; P const q = &f; CHECK_THAT(&t->call<El&>("operator*", p) == &e && &t->call<const El&>("operator*", q) == &f, "operator* of a raw pointer is another object");
        Value v(p), w = *v; CHECK_THAT(&w.get<El>() == &e && p == &e && e.a == 3, "dereferencing a value that holds a raw pointer");
    }
    CHECK_THAT(g_live == 0, "raw pointers leave ", g_live, " objects");
}
int main(int argc, char** argv)
{
    unsigned long seed = argc > 1 ? atol(argv[1]) : 1; int scale = argc > 2 ? atoi(argv[2]) : 1, n = 120 * scale;
    vectors<long>("vector<long>", seed, n); vectors<El>("vector<El>", seed + 1, n); vectors<std::string>("vector<string>", seed + 2, n); vectors<char>("vector<char>", seed + 3, n);
    maps<std::map<long, El>, long, El>("map<long, El>", seed, n, [](unsigned long v) { return long(v % 7) - 3; }); maps<std::map<std::string, long>, std::string, long>("map<string, long>", seed + 1, n, [](unsigned long v) { return std::string(v % 5, 'k'); });
    maps<std::unordered_map<long, El>, long, El>("unordered_map<long, El>", seed + 2, n, [](unsigned long v) { return long(v % 7) - 3; }); maps<std::unordered_map<std::string, std::string>, std::string, std::string>("unordered_map<string, string>", seed + 3, n, [](unsigned long v) { return std::string(v % 5, 'k'); });
    pointers();
    CHECK_THAT(g_live == 0, "containers leave ", g_live, " objects");
    Rng rnd(seed); for (int i = 0; i < n; ++i) { std::string s = mk<std::string>(rnd(1000)) + std::string(rnd(2), '\0'); const std::string& cs = s; CHECK_THAT(Value(cs).call<size_t>("size") == s.size(), "size of a string of ", s.size()); }
    CHECK_THAT(type<std::string>()->is("string") && !type<std::string>()->is("list"), "a string is described otherwise");
    done();
}
