// C05: random sequences of additions; a shadow list holds the expected set.
#include "wt.h"
using namespace reflect;
static int g_ran;
typedef std::function<Function(int)> Mk;
#define L(PARAMS, RET, EXPR) Mk([](int id) { return Function("f" + std::to_string(id), [id] PARAMS -> RET { g_ran = id; return EXPR; }); })
#define LV(PARAMS) Mk([](int id) { return Function("f" + std::to_string(id), [id] PARAMS { g_ran = id; }); })
static A3 ga; static B3 gb;
static Mk pool[] = {
    LV(()), LV((A3)), LV((A3&)), LV((const A3&)), LV((A3&&)), LV((Value)), LV((B3)), LV((B3&)), LV((const B3&)), LV((C3)), LV((int)), LV((int&)), LV((const int&)), LV((bool)),
    LV((A3, int)), LV((const A3&, int)), LV((A3&, int&)), LV((int, A3&)), LV((Value, int)), LV((int, Value)), LV((A3, A3)), LV((B3, A3)), LV((A3, B3)), LV((B3&, B3&)), LV((A3&, B3&)),
    L((A3), int, 7), L((int), int, 3), L((), int, 5), L((), A3&, ga), L((), const A3&, ga), L((), B3&, gb), L((), Value, Value(3)), L((B3&), const A3&, ga), L((A3, int), int, 1),
};
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 3000 * (argc > 2 ? std::atoi(argv[2]) : 1);
    const int N = sizeof pool / sizeof *pool;
    for (int r = 0; r < rounds; ++r) {
        Overloads o; std::vector<std::pair<std::string, std::string>> want; std::vector<int> ids;
        int n = 1 + rng(r % 10 ? 9 : 40);
        for (int k = 0; k < n; ++k) {
            int id = rng(N); Function f = pool[id](k);
            ArgV args = argsOf(f); int dup = -1;
            for (size_t i = 0; i < o.size(); ++i) if (dup < 0 && oracleMatch(o[i], f.returnType(), args) == 2) dup = i;
            std::string nm = f.name(), sig = signature(f);
            // the new function is the one the registered one is matched against
            Match any = Match::None; for (size_t i = 0; i < o.size(); ++i) any = std::max(any, f.test(o[i]));
            bool byTest = any == Match::Exact;
            bool err = fails([&] { o.add(std::move(f)); });
            CHECK_THAT(err == byTest, "adding ", sig, " reports error ", err, " but the best match with the ", want.size(), " registered overloads is ", any);
            if (!err) { want.push_back({nm, sig}); ids.push_back(id); }
            CHECK_THAT(o.size() == want.size(), "after adding ", sig, " the set has ", o.size(), " overloads, expected ", want.size());
            for (size_t i = 0; i < want.size(); ++i)
                CHECK_THAT(o[i].name() == want[i].first && signature(o[i]) == want[i].second, "after adding ", sig, " overload #", i, " is ", o[i].name(), " ", signature(o[i]), ", expected ", want[i].first, " ", want[i].second);
        }
        for (size_t i = 0; i < o.size(); ++i) if (o[i].arguments() == 0 && o[i].returnType().type() == type<void>()) {
            g_ran = -1; o[i].call<void>(); CHECK_THAT("f" + std::to_string(g_ran) == want[i].first, "overload #", i, " runs f", g_ran, ", expected ", want[i].first); }
    }
    done();
}
