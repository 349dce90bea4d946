// C01: enumerates every (offered, expected) pair over random type hierarchies against the documented matrix.
#include "w.h"
#include "types/primitives.h"
#include <set>
using namespace reflect;
struct T_ { const Type* t; int parent; std::set<int> conv; };
static bool isAncestor(const std::vector<T_>& ts, int anc, int x) { for (; x >= 0; x = ts[x].parent) if (x == anc) return true; return false; }
static bool converts(const std::vector<T_>& ts, int from, int to) { for (int x = from; x >= 0; x = ts[x].parent) if (ts[x].conv.count(to)) return true; return false; }
static const char* RN[] = {"copy", "lvalue", "rvalue"};
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 40 * (argc > 2 ? std::atoi(argv[2]) : 1);
    const RefType R[] = {RefType::Copy, RefType::LValue, RefType::RValue};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        CHECK_THAT(combine(Match(i), Match(j)) == Match(std::min(i, j)), "combine(", i, ",", j, ") = ", int(combine(Match(i), Match(j))));
    for (int r = 0; r < rounds; ++r) {
        std::vector<T_> ts; std::vector<std::unique_ptr<Type>> own;
        ts.push_back({type<Value>(), -1, {}}); ts.push_back({type<void>(), -1, {}}); ts.push_back({type<int>(), -1, {}});
        int n = 3 + rng(4);
        for (int i = 0; i < n; ++i) {
            own.emplace_back(new Type("t" + std::to_string(i)));
            int par = rng(3) && ts.size() > 3 ? 3 + rng(ts.size() - 3) : -1;
            if (par >= 0) own.back()->parent(ts[par].t);
            ts.push_back({own.back().get(), par, {}});
        }
        for (int i = 3; i < int(ts.size()); ++i) for (int j = 1; j < int(ts.size()); ++j)
            if (rng(5) == 0) {
                int v = i * 10 + j; const_cast<Type*>(ts[i].t)->addFunction("operator " + ts[j].t->id() + "()", [v](int x) { return x + v; });
                ts[i].conv.insert(j);
            }
        for (int i = 0; i < int(ts.size()); ++i) for (int j = 0; j < int(ts.size()); ++j)
        for (int ra = 0; ra < 3; ++ra) for (int rb = 0; rb < 3; ++rb) for (int ca = 0; ca < 2; ++ca) for (int cb = 0; cb < 2; ++cb) {
            if (i == 2 && j != 2) continue;      // int's own converters are registered by the library
            if (i <= 1 && j > 1 && i != 0) {}
            int want;
            bool same = i == j && ra == rb && ca == cb;
            if (same || ((i == 0) != (j == 0))) want = 2;
            else if (converts(ts, i, j)) want = rb == 1 ? 0 : 1;
            else if (i <= 2 && ts[i].t->hasConverter(ts[j].t)) continue;
            else if (rb != 0 && ca && !cb) want = 0;
            else if (rb == 1 && !cb && ra != 1) want = 0;
            else if (rb == 2 && ra != 2) want = 0;
            else if (!isAncestor(ts, j, i)) want = 0;
            else want = (ra == rb && ca == cb) || (ra == 2 && rb == 0) ? 2 : 1;
            Argument a(ts[i].t, R[ra], ca), b(ts[j].t, R[rb], cb);
            Match got = a.isConvertibleTo(b);
            CHECK_THAT(int(got) == want, "offered ", a.print(), " (", RN[ra], ca ? " const" : "", ") to ", b.print(), " (", RN[rb], cb ? " const" : "",
                       ") gives ", got, ", expected ", Match(want), "; offered has converter: ", converts(ts, i, j), ", expected is ancestor: ", isAncestor(ts, j, i));
            CHECK_THAT((a == b) == same, a.print(), " == ", b.print());
            CHECK_THAT(a.isTemporary() == (ra != 1) && a.isConstRef() == (ca && ra == 1) && a.isLValueRef() == (!ca && ra == 1) && a.isVoid() == (i == 1), a.print());
        }
    }
    Type drv("DrvT");
    CHECK_THAT(Argument(&drv, RefType::LValue, false).isConvertibleTo<int&>() == Match::None, "unrelated to int&");
    CHECK_THAT(Argument(type<int>(), RefType::RValue, false).isConvertibleTo<int>() == Match::Exact, "int&& to int");
    CHECK_THAT(Argument(type<int>(), RefType::LValue, true).isConvertibleTo<int&>() == Match::None, "const int& to int&");
    CHECK_THAT(Argument(type<int>(), RefType::LValue, false).isConvertibleTo<const int&>() == Match::Partial, "int& to const int&");
    done();
}
