// C12: random histories of registrations, aliases and (nested) lookups against an independent model of the registry.
#include "w.h"
#include "types/primitives.h"
using namespace reflect;
struct Model { std::map<std::string, const Type*> types; std::map<std::string, std::string> aliases; std::map<std::string, int> loaders; };
static Model M; static std::map<int, int> runs; static std::map<int, std::vector<std::string> > nested; static std::ostringstream hist; static int depth = 0, failAt = -1;
static std::map<std::string, const Type*> seen;
static void lookup(const std::string& id);
static void onLoad(int k, const std::string& id, Type* t)
{
    CHECK_THAT(++runs[k] == 1, "loader ", k, " of <", id, "> ran ", runs[k], " times after", hist.str());
    CHECK_THAT(t && t->id() == id, "loader ", k, " got type <", t->id(), "> instead of <", id, "> after", hist.str());
    M.types[id] = t; 
    const Type* again = nullptr; bool e = fails([&] { again = Registry::get(id); });
    CHECK_THAT((M.aliases.count(id) || (!e && again == t)), "type <", id, "> is not visible while its loader runs, after", hist.str());
    ++depth; if (depth < 20) for (auto& n : nested[k]) lookup(n); --depth;
}
static void lookup(const std::string& id)
{
    hist << " get(" << id << ")";
    std::string tgt = M.aliases.count(id) ? M.aliases[id] : id;
    bool known = M.types.count(tgt) || (!tgt.empty() && M.loaders.count(tgt)), had = M.types.count(tgt);
    int before = had ? 0 : known ? runs[M.loaders[tgt]] : 0; const Type* was = had ? M.types[tgt] : nullptr;
    const Type* t = nullptr; bool e = fails([&] { t = Registry::get(id); });
    CHECK_THAT(e == !known, "lookup of <", id, "> error ", e, " after", hist.str());
    if (e) return;
    if (had) CHECK_THAT(t == was, "lookup of <", id, "> gave another object after", hist.str());
    else CHECK_THAT(runs[M.loaders[tgt]] == before + 1 && M.types[tgt] == t, "first lookup of <", id, "> did not run its loader once, after", hist.str());
    CHECK_THAT(t->id() == tgt, "lookup of <", id, "> gave <", t->id(), "> after", hist.str());
    CHECK_THAT(!seen.count(tgt) || seen[tgt] == t, "type object of <", tgt, "> changed after", hist.str()); seen[tgt] = t;
}
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 400 * (argc > 2 ? std::atoi(argv[2]) : 1); int nl = 0;
    const Type* in = type<int>(); CHECK_THAT(in == type("int") && in == type<const int&>(), "int");
    for (int r = 0; r < rounds; ++r) {
        hist.str(""); std::string pre = "h" + std::to_string(r) + "::"; std::vector<std::string> names;
        for (int i = 0; i < 6; ++i) names.push_back(pre + "T" + std::to_string(i)); names.push_back(""); names.push_back(pre + "al"); names.push_back(pre + "bl");
        int ops = 4 + rng(24);
        auto check = [&] { for (auto& n : names) { // nothing that was there may have gone
            if (M.aliases.count(n) ? M.types.count(M.aliases[n]) : M.types.count(n)) lookup(n); } };
        for (int k = 0; k < ops; ++k) {
            std::string a = names[rng(names.size())], b = names[rng(names.size())];
            switch (rng(4)) {
            case 0: {
                int id = nl++; hist << " add(" << a << "," << id << ")"; for (int j = rng(3); j > 0; --j) nested[id].push_back(names[rng(names.size())]);
                bool none = rng(8) == 0, e = fails([&] { if (none) Registry::add(a, std::function<void(Type*)>()); else { std::string nm = a; Registry::add(a, [id, nm](Type* t) { onLoad(id, nm, t); }); } });
                CHECK_THAT(e == (a.empty() || none), "add(", a, none ? ", empty)" : ")", " error ", e, " after", hist.str());
                if (!e && !M.loaders.count(a) ) M.loaders[a] = id; else if (!e && M.types.count(a)) ; break; }
            case 1: {
                hist << " alias(" << a << "," << b << ")"; bool e = fails([&] { Registry::alias(a, b); });
                CHECK_THAT(e == (a.empty() || b.empty() || M.aliases.count(b)), "alias(", a, ", ", b, ") error ", e, " after", hist.str());
                if (!e) M.aliases[b] = a; break; }
            default: lookup(a);
            }
            if (rng(3) == 0) check();
        }
        for (auto& n : names) lookup(n);
        check();
        // unknown and malformed names change nothing
        CHECK_THAT(fails([&] { Registry::get(pre + "nope"); }) && fails([&] { Registry::get(""); }), "unknown identifier accepted");
        lookup(names[0]);
    }
    done();
}
