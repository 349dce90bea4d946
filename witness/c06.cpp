// C06: random chains of types with declared fields and functions, against an independent record of the declarations.
#include "wt.h"
using namespace reflect;
struct Decl { std::map<std::string, std::pair<const Type*, size_t> > fields; std::map<std::string, std::vector<int> > fns; };
static std::vector<std::string> names = {"a", "b", "ab", "c", "operator T1()", "operator T0()", "operator T2()", "operator T3()", "", "a::b"};
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 300 * (argc > 2 ? std::atoi(argv[2]) : 1);
    for (int r = 0; r < rounds; ++r) {
        int n = 1 + rng(r % 8 == 0 ? 24 : 5);
        std::vector<std::unique_ptr<Type> > ts; std::vector<int> par; std::vector<Decl> ds(n);
        for (int i = 0; i < n; ++i) { ts.emplace_back(new Type("T" + std::to_string(i))); par.push_back(i && rng(5) ? int(rng(i)) : -1); if (r % 8 == 0) par[i] = i - 1; if (par[i] >= 0) ts[i]->parent(ts[par[i]].get()); }
        std::ostringstream hist;
        auto verify = [&] {
            for (int i = 0; i < n; ++i) for (auto& m : names) {
                const Type* ct = ts[i].get(); Type* t = ts[i].get();
                int fi = i, ni = i; while (fi >= 0 && !ds[fi].fields.count(m)) fi = par[fi]; while (ni >= 0 && !ds[ni].fns.count(m)) ni = par[ni];
                std::string where = "T" + std::to_string(i) + " name <" + m + "> after " + hist.str();
                CHECK_THAT(ct->hasField(m) == (fi >= 0), "hasField ", where); CHECK_THAT(ct->hasFunction(m) == (ni >= 0), "hasFunction ", where);
                const Field* f = nullptr; bool fe = fails([&] { f = &ct->field(m); });
                CHECK_THAT(fe == (fi < 0), "const field(): error ", fe, " at ", where);
                if (fi >= 0) CHECK_THAT(f == &ts[fi]->field(m) && f->name() == m && f->type() == ds[fi].fields[m].first && f->offset() == ds[fi].fields[m].second, "const field() is not the nearest declaration, of T", fi, ": ", where);
                const Overloads* o = nullptr; bool oe = fails([&] { o = &ct->function(m); });
                CHECK_THAT(oe == (ni < 0), "const function(): error ", oe, " at ", where);
                if (ni >= 0) { CHECK_THAT(o == &ts[ni]->function(m), "const function() is not the nearest declaration, of T", ni, ": ", where);
                    CHECK_THAT(o->size() == ds[ni].fns[m].size(), "number of overloads ", o->size(), ": ", where);
                    for (size_t k = 0; k < o->size(); ++k) CHECK_THAT((*o)[k].arguments() == size_t(ds[ni].fns[m][k]), "overload ", k, " replaced: ", where); }
                CHECK_THAT(fails([&] { t->field(m); }) == !ds[i].fields.count(m), "non-const field() of ", where);
                CHECK_THAT(fails([&] { t->function(m); }) == !ds[i].fns.count(m), "non-const function() of ", where);
                CHECK_THAT(!(ds[i].fields.count(m) && ds[i].fns.count(m)), "both ", where);
            }
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
                std::string m = "operator T" + std::to_string(j) + "()"; int ni = i; while (ni >= 0 && !ds[ni].fns.count(m)) ni = par[ni];
                const Type* ct = ts[i].get();
                CHECK_THAT(ct->hasConverter(ts[j].get()) == (ni >= 0), "hasConverter T", i, " to T", j, " after ", hist.str());
                const Function* f = nullptr; bool e = fails([&] { f = &ct->converter(ts[j].get()); });
                CHECK_THAT(e == (ni < 0 || ds[ni].fns[m].size() > 1), "converter T", i, " to T", j, ": error ", e, " after ", hist.str());
                if (!e) CHECK_THAT(f == &ts[ni]->function(m)[0], "converter T", i, " to T", j, " after ", hist.str());
            }
        };
        int ops = rng(14);
        for (int k = 0; k < ops; ++k) {
            int i = rng(n); const std::string& m = names[rng(names.size())]; Type* t = ts[i].get(); Decl& d = ds[i];
            if (rng(2)) {
                const Type* ft = ts[rng(n)].get(); size_t off = rng(100);
                bool want = d.fields.count(m) || d.fns.count(m), e = fails([&] { t->addField(m, Field(m, Argument(ft, RefType::Copy, rng(2)), off)); });
                hist << " T" << i << ".addField(" << m << ")"; CHECK_THAT(e == want, "error ", e, " from", hist.str());
                if (!e) d.fields[m] = std::make_pair(ft, off);
            } else {
                int ar = rng(3); auto& v = d.fns[m]; bool dup = std::count(v.begin(), v.end(), ar); if (v.empty()) d.fns.erase(m);
                bool want = d.fields.count(m) || dup;
                bool e = fails([&] { if (ar == 0) t->addFunction(m, [] { return 1; }); else if (ar == 1) t->addFunction(m, [](int) {}); else t->addFunction(m, [](int, int) {}); });
                hist << " T" << i << ".addFunction(" << m << "/" << ar << ")"; CHECK_THAT(e == want, "error ", e, " from", hist.str());
                if (!e) d.fns[m].push_back(ar);
            }
        }
        verify();
    }
    done();
}
