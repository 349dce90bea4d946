// C14: random histories of constructions, moves, assignments and destructions of functions over counted callables.
#include "wt.h"
#include <set>
using namespace reflect;
static std::set<const void*> live; static std::map<int, int> alive; static long calls;
static bool bad; static std::string what;
template<int PAD> struct Counted {
    int id; long pad[PAD]; bool gone;
    Counted(int id) : id(id), gone(false) { add(); }
    Counted(const Counted& o) : id(o.id), gone(o.gone) { check(o); add(); } Counted(Counted&& o) : id(o.id), gone(false) { check(o); o.gone = true; add(); }
    ~Counted() { if (!live.erase(this)) { bad = true; what = "a callable is destroyed twice"; } if (!gone && --alive[id] < 0) { bad = true; what = "callable destroyed too often"; } id = -77; }
    void check(const Counted& o) { if (!live.count(&o)) { bad = true; what = "a dead callable is copied"; } }
    void add() { if (!live.insert(this).second) { bad = true; what = "a callable is made on top of another"; } if (!gone) alive[id] += made(); }
    int made() { return moved ? 0 : 1; } static bool moved;
    int operator()() { ++calls; if (!live.count(this)) { bad = true; what = "a dead callable runs"; } return id; }
};
template<int PAD> bool Counted<PAD>::moved = false;
static int empties; struct Empty { Empty() { ++empties; } Empty(const Empty&) { ++empties; } ~Empty() { --empties; } int operator()(int i) const { return i; } };
// live callables are counted by address; ownership is checked by calling and by the live set becoming empty
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 1500 * (argc > 2 ? std::atoi(argv[2]) : 1);
    for (int r = 0; r < rounds; ++r) {
        {
            std::vector<std::unique_ptr<Function>> fs; std::vector<int> own; int next = 1;
            auto mk = [&](int id) -> Function { switch (rng(3)) { case 0: return Function("f", Counted<1>(id)); case 1: return Function("g", Counted<40>(id)); default: return Function("h", Counted<3>(id)); } };
            std::ostringstream hist;
            for (int k = 0; k < 30; ++k) {
                size_t n = fs.size(); unsigned op = rng(7);
                if (n == 0 || op == 0) { int id = next++; fs.emplace_back(new Function(mk(id))); own.push_back(id); hist << " new#" << n; }
                else {
                    size_t i = rng(n), j = rng(n);
                    if (op == 1) { fs.emplace_back(new Function(std::move(*fs[i]))); own.push_back(own[i]); own[i] = 0; hist << " movector(" << i << ")"; }
                    else if (op == 2) { *fs[i] = std::move(*fs[j]); if (i != j) { own[i] = own[j]; own[j] = 0; } hist << " " << i << "=" << j; }
                    else if (op == 3) { *fs[i] = std::move(*fs[i]); hist << " " << i << "=self"; }
                    else if (op == 4) { fs.erase(fs.begin() + i); own.erase(own.begin() + i); hist << " del" << i; }
                    else if (op == 5) { int id = next++; *fs[i] = mk(id); own[i] = id; hist << " " << i << "=new"; }
                    else { std::vector<Function> v; for (int q = 0; q < 3; ++q) v.push_back(mk(1000 + q)); v.erase(v.begin() + rng(3)); std::swap(v[0], v[1]); hist << " vec"; }
                }
                size_t owners = 0; for (int x : own) owners += x != 0;
                CHECK_THAT(!bad, what, " after", hist.str());
                CHECK_THAT(live.size() == owners, live.size(), " callables are alive but ", owners, " functions own one, after", hist.str());
                for (size_t i = 0; i < fs.size(); ++i) if (own[i]) {
                    calls = 0; int got = fs[i]->call<int>();
                    CHECK_THAT(got == own[i] && calls == 1 && !bad, "function ", i, " runs callable ", got, " (", calls, " runs), expected ", own[i], " after", hist.str()); }
            }
        }
        CHECK_THAT(live.empty(), live.size(), " callables are alive after every function was destroyed");
    }
    { // overload sets own their functions
        { Overloads o; o.add(Function("a", Counted<2>(1))); Overloads p(std::move(o)); CHECK_THAT(live.size() == 1, live.size(), " callables alive in one overload set of one function"); }
        CHECK_THAT(live.empty(), "a callable outlives its overload set");
        { std::unique_ptr<MakeValueFunction<Counted<5>>::type, ValueFunctionDestructor> q = makeValueFunctionSafe(Counted<5>(3)); CHECK_THAT(live.size() == 1, "one callable"); }
        CHECK_THAT(live.empty(), "a callable outlives its owner");
        freeValueFunction(nullptr);
        for (int k = 0; k < 4; ++k) {
            { Function f(k % 2 ? "" : "e", Empty()); CHECK_THAT(empties == 1, empties, " stateless callables alive in one function"); if (k > 1) { Function g(std::move(f)); Function h("", Empty()); h = std::move(g); CHECK_THAT(empties == 1, empties, " stateless callables alive"); CHECK_THAT(h.call<int>(3) == 3, "stateless callable"); } }
            CHECK_THAT(empties == 0, "a stateless callable of a function named \"", k % 2 ? "" : "e", "\" is destroyed ", 1 - empties, " times");
        }
        { auto q = makeValueFunctionSafe(Empty()); } CHECK_THAT(empties == 0, "stateless callable");
        for (int k = 0; k < 3; ++k) { { Function f(k ? "" : "n", Counted<3>(1)); Function g(std::move(f)); } CHECK_THAT(live.empty(), "a callable of an unnamed function outlives it"); }
        { auto sp = std::make_shared<int>(1); { Function f("", [sp]() { return *sp; }); Function g("x", [sp](int) { return *sp; }); g = std::move(f); CHECK_THAT(sp.use_count() == 2, "captured objects: ", sp.use_count()); } CHECK_THAT(sp.use_count() == 1, "a captured object is not released: ", sp.use_count()); }
    }
    done();
}
