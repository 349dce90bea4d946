// C19: random histories of trait additions and queries on types, fields, overloads and scopes against a plain map.
#include "wt.h"
#include <map>
#include <set>
#include <algorithm>
using namespace reflect;
struct Obj { int v; Obj(int v = 0) : v(v) {} };
R3(Obj) void reflect::Reflect<Obj>::reflect(Type* t) { plumb<Obj>(t); }
struct Model { int kind; int i; const void* at; };
static void check(const Traits& t, const std::map<std::string, Model>& m, const std::vector<std::string>& names, const char* what)
{
    for (auto& n : names) {
        auto it = m.find(n); bool has = t.is(n);
        CHECK_THAT(has == (it != m.end()), what, ": is(\"", n, "\") gives ", has);
        if (it == m.end()) {
            CHECK_THAT(fails([&] { t.getValue<int>(n); }) && fails([&] { t.getValue<Value>(n); }) && fails([&] { t.getValue<const Obj&>(n); }), what, ": the value of missing trait \"", n, "\" is given");
            continue;
        }
        const Model& w = it->second;
        if (w.kind == 0) CHECK_THAT(t.getValue<Value>(n).isVoid() && fails([&] { t.getValue<int>(n); }), what, ": trait \"", n, "\" has no value");
        else if (w.kind == 1) { CHECK_THAT(t.getValue<int>(n) == w.i, what, ": trait \"", n, "\" has value ", t.getValue<int>(n), ", expected ", w.i); CHECK_THAT(fails([&] { t.getValue<const Obj&>(n); }), "an int is read as an Obj"); }
        else if (w.kind == 2) { CHECK_THAT(&t.getValue<const Obj&>(n) == w.at, what, ": trait \"", n, "\" refers to another object"); CHECK_THAT(&t.getValue<Obj&>(n) == w.at, what, ": object"); }
        else if (w.kind == 3) { CHECK_THAT(t.getValue<const Obj&>(n).v == w.i, what, ": trait \"", n, "\" holds ", t.getValue<const Obj&>(n).v); CHECK_THAT(fails([&] { t.getValue<int>(n); }), "an Obj is read as an int"); }
        else { CHECK_THAT(&t.getValue<const Obj&>(n) == w.at && fails([&] { t.getValue<Obj&>(n); }), what, ": trait \"", n, "\" is a constant object"); }
    }
    std::vector<std::string> l = t.traits(); std::sort(l.begin(), l.end()); std::vector<std::string> w; for (auto& x : m) w.push_back(x.first);
    CHECK_THAT(l == w, what, ": ", l.size(), " traits listed, ", w.size(), " were added");
}
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int scale = argc > 2 ? std::atoi(argv[2]) : 1;
    std::vector<std::string> names = {"", "a", "b", "ab", "ba", "A", " a", "a ", "a::b", "<", std::string("a\0b", 3), std::string("a\0", 2), std::string(40, 'x'), std::string(40, 'x') + "y", "none", "trait", "private", "json", "0", "\xff"};
    for (int r = 0; r < 40 * scale; ++r) {
        Type type1("t" + std::to_string(r)); Overloads ov; Field f = Field::make<int>("f", 0); Scope sc; Traits bare;
        Traits* all[] = {&type1, &ov, &f, &sc, &bare}; std::map<std::string, Model> m[5]; static Obj objs[4]; static const Obj cobj(9);
        std::vector<std::string> ns = names; int extra = r % 5 == 0 ? 80 : 0; for (int i = 0; i < extra; ++i) ns.push_back("n" + std::to_string(i));
        int steps = extra ? 150 : 5 + rng(30);
        for (int s = 0; s < steps; ++s) {
            int e = rng(5); std::string n = ns[rng(ns.size())]; int k = rng(5); Model w = {k, (int)rng(1000), nullptr}; Traits& t = *all[e];
            Obj& o = objs[rng(4)]; if (k == 2) w.at = &o; if (k == 4) w.at = &cobj;
            bool err = fails([&] { if (k == 0) { if (w.i & 1) t.addTrait(n); else t.addTrait(n, Value()); } else if (k == 1) { if (w.i & 1) t.addTrait(n, int(w.i)); else t.addTrait(n, Value(int(w.i))); } else if (k == 2) t.addTrait(n, o); else if (k == 3) t.addTrait(n, Obj(w.i)); else t.addTrait(n, cobj); });
            bool had = m[e].count(n);
            CHECK_THAT(err == had, "adding trait \"", n, "\"", had ? " again" : "", err ? " is an error" : " is accepted");
            if (!had) m[e][n] = w;
            if (s % 40 == 5 || s == steps - 1) { static const char* nm[] = {"type", "overloads", "field", "scope", "traits"}; for (int x = 0; x < 5; ++x) check(*all[x], m[x], ns, nm[x]); }
            else check(t, m[e], {n, ns[rng(ns.size())]}, "entity");
        }
        { Field g(f); check(g, m[2], ns, "copied field"); }
    }
    done();
}
