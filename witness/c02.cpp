// C02: random hierarchies with pointer types against a fixpoint oracle.
#include "w.h"
using namespace reflect;
struct N { std::unique_ptr<Type> t; int parent, pointee; std::string kind; };
static bool child(const std::vector<N>& ns, int a, int b)
{
    if (a == b) return true;
    if (ns[a].pointee >= 0 && ns[b].pointee >= 0) return ns[a].kind == ns[b].kind && child(ns, ns[a].pointee, ns[b].pointee);
    return ns[a].parent >= 0 && child(ns, ns[a].parent, b);
}
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 400 * (argc > 2 ? std::atoi(argv[2]) : 1);
    const char* kinds[] = {"*", "std::shared_ptr", "std::unique_ptr"};
    for (int r = 0; r < rounds; ++r) {
        std::vector<N> ns; int n = 2 + rng(12);
        std::ostringstream d;
        for (int i = 0; i < n; ++i) {
            N x{std::unique_ptr<Type>(new Type("t" + std::to_string(i))), -1, -1, ""};
            if (i && rng(4)) { x.parent = rng(2) ? i - 1 : rng(i); x.t->parent(ns[x.parent].t.get()); }
            if (i && rng(2)) { x.pointee = rng(i); x.kind = kinds[rng(3)]; x.t->setPointer(x.kind, ns[x.pointee].t.get()); }
            d << "t" << i << "(parent " << x.parent << " pointee " << x.pointee << " kind '" << x.kind << "') ";
            CHECK_THAT(x.t->parent() == (x.parent < 0 ? nullptr : ns[x.parent].t.get()), d.str());
            CHECK_THAT(x.t->isPointer() == (x.pointee >= 0), d.str());
            if (x.pointee >= 0) {
                CHECK_THAT(x.t->pointee() == ns[x.pointee].t.get() && x.t->pointer() == x.kind, d.str());
                CHECK_THAT(fails([&] { x.t->setPointer("other", ns[0].t.get()); }) && x.t->pointer() == x.kind && x.t->pointee() == ns[x.pointee].t.get(), "second setPointer on ", d.str());
            } else CHECK_THAT(fails([&] { x.t->pointee(); }) && fails([&] { x.t->pointer(); }), d.str());
            ns.push_back(std::move(x));
        }
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            bool want = child(ns, i, j);
            CHECK_THAT(ns[i].t->isChildOf(ns[j].t.get()) == want, "t", i, " child of t", j, " should be ", want, " in ", d.str());
            CHECK_THAT(ns[j].t->isParentOf(ns[i].t.get()) == want, "t", j, " parent of t", i, " should be ", want, " in ", d.str());
        }
    }
    done();
}
