// C07: construction from every value category, and random histories of copies, moves, assignments and views, against a record of
// what each value must refer to and own; live objects are counted.
#include "wt.h"
using namespace reflect;
static std::map<const void*, int> g_live; static int g_made, g_copied, g_moved, g_bad;
template<int K> struct Obj {        // K: 0 copiable and movable, 1 movable only, 2 copiable only
    long id; Obj(long i) : id(i) { ++g_live[this]; }
    ~Obj() { if (--g_live[this] != 0) ++g_bad; g_live.erase(this); id = -1; }
};
struct CM : Obj<0> { CM(long i) : Obj<0>(i) {} CM(const CM& o) : Obj<0>(o.id) { ++g_copied; } CM(CM&& o) : Obj<0>(o.id) { ++g_moved; o.id = -2; } };
struct MO : Obj<1> { MO(long i) : Obj<1>(i) {} MO(const MO&) = delete; MO(MO&& o) : Obj<1>(o.id) { ++g_moved; o.id = -2; } };
struct CO : Obj<2> { CO(long i) : Obj<2>(i) {} CO(const CO& o) : Obj<2>(o.id) { ++g_copied; } };
struct NO : Obj<3> { NO(long i) : Obj<3>(i) {} NO(const NO&) = delete; NO(NO&&) = delete; };
struct DM : CM { DM(long i) : CM(i) {} };
R3(CM) R3(MO) R3(CO) R3(NO) R3(DM)
void reflect::Reflect<CM>::reflect(Type* t) { reflectCopyConstructor<CM>(t); reflectMoveConstructor<CM>(t); } void reflect::Reflect<MO>::reflect(Type* t) { reflectMoveConstructor<MO>(t); } void reflect::Reflect<CO>::reflect(Type* t) { reflectCopyConstructor<CO>(t); } void reflect::Reflect<NO>::reflect(Type*) {}
void reflect::Reflect<DM>::reflect(Type* t) { t->parent(type<CM>()); reflectCopyConstructor<DM>(t); reflectMoveConstructor<DM>(t); }
struct Rec { const void* obj; bool owned; const Type* t; bool cst; RefType ref; std::shared_ptr<int> token; };
template<typename T> static void cats(const char* nm, bool cp, bool mv)
{
    long n0 = g_live.size();
    {
        T x(7); const T c(8); Value l(x), k(c);
        CHECK_THAT(l.value() == &x && !l.isStored() && !l.isConst() && l.refType() == RefType::LValue && l.type() == type<T>(), nm, " l-value");
        CHECK_THAT(k.value() == &c && !k.isStored() && k.isConst() && k.refType() == RefType::LValue && k.type() == type<T>(), nm, " const l-value");
        CHECK_THAT(&l.template as<T>() == &x && &k.template get<T>() == &c, nm, " access");
        for (int cst = 0; cst < 2; ++cst) {
            T y(9); g_copied = g_moved = 0; Value v; bool e = fails([&] { if (cst) { Value w(static_cast<const T&&>(y)); v = w; } else { Value w(std::move(y)); v = w; } });
            bool asMove = mv && !cst; CHECK_THAT(e == !(asMove || cp), nm, " r-value, const ", cst, ": error ", e);
            if (e) continue;
            CHECK_THAT(v.value() != &y && v.isStored() && !v.isConst() && v.refType() == RefType::LValue && v.type() == type<T>(), nm, " r-value, const ", cst);
            CHECK_THAT(v.template get<T>().id == 9 && g_copied + g_moved == 1 && (g_moved == 1) == asMove, nm, " r-value, const ", cst, ": copies ", g_copied, " moves ", g_moved);
            Value w = v.toConst(); v = Value(); CHECK_THAT(w.template get<T>().id == 9, nm, " shared storage outlives the first owner");
        }
    }
    CHECK_THAT(long(g_live.size()) == n0 && !g_bad, nm, ": objects left ", g_live.size() - n0, " double destructions ", g_bad);
}
int main(int argc, char** argv)
{
    Rng rng(argc > 1 ? std::atoi(argv[1]) : 1); int rounds = 4000 * (argc > 2 ? std::atoi(argv[2]) : 1);
    cats<CM>("CM", true, true); cats<MO>("MO", false, true); cats<CO>("CO", true, false || true && false);  cats<NO>("NO", false, false);
    for (int r = 0; r < rounds; ++r) {
        std::ostringstream h; long n0;
        { CM a(1); const CM b(2); DM d(3); n0 = g_live.size();
        { enum { N = 5 }; Value v[N]; Rec m[N]; for (auto& x : m) x = Rec{nullptr, false, type<void>(), false, RefType::Copy, nullptr};
        auto stored = [&](int i, const Type* t) { m[i] = Rec{v[i].value(), true, t, false, RefType::LValue, std::make_shared<int>(0)}; };
        int ops = 1 + rng(14);
        for (int k = 0; k < ops; ++k) {
            int i = rng(N), j = rng(N), op = rng(14); h << " " << op << ":" << i << "," << j;
            switch (op) {
            case 0: v[i] = Value(a); m[i] = Rec{&a, false, type<CM>(), false, RefType::LValue, nullptr}; break;
            case 1: v[i] = Value(b); m[i] = Rec{&b, false, type<CM>(), true, RefType::LValue, nullptr}; break;
            case 2: v[i] = Value(CM(5)); stored(i, type<CM>()); break;
            case 3: v[i] = Value(DM(6)); stored(i, type<DM>()); break;
            case 4: case 5: v[i] = v[j]; if (i != j) m[i] = m[j]; break;
            case 6: { const Value& c = v[j]; v[i] = c; if (i != j) m[i] = m[j]; break; }
            case 7: if (i != j) { v[i] = std::move(v[j]); m[i] = m[j]; v[j] = Value(); m[j] = Rec{nullptr, false, type<void>(), false, RefType::Copy, nullptr}; } else { Value& s = v[i]; v[i] = std::move(s); } break;
            case 8: { Rec x = m[j]; v[i] = v[j].toConst(); m[i] = x; m[i].cst = true; m[i].ref = RefType::RValue; break; }
            case 9: { Rec x = m[j]; v[i] = v[j].rvalue(); m[i] = x; m[i].ref = RefType::RValue; break; }
            case 10: v[i] = Value(d); m[i] = Rec{&d, false, type<DM>(), false, RefType::LValue, nullptr}; break;
            case 11: { Value c(v[j]); Value e(std::move(c)); v[i] = e; if (i != j) m[i] = m[j]; break; }
            case 12: if (m[j].obj) { Rec x = m[j]; v[i] = v[j].copy(); stored(i, x.t); } break;
            case 13: v[i] = Value(); m[i] = Rec{nullptr, false, type<void>(), false, RefType::Copy, nullptr}; break;
            }
            for (int q = 0; q < N; ++q) {
                CHECK_THAT(v[q].value() == m[q].obj, "value ", q, " points elsewhere after", h.str());
                if (!m[q].obj) { CHECK_THAT(v[q].isVoid() && !v[q].isStored(), "value ", q, " is not void after", h.str()); continue; }
                CHECK_THAT(v[q].type() == m[q].t && v[q].isConst() == m[q].cst && v[q].refType() == m[q].ref && v[q].isStored() == m[q].owned, "value ", q, " is described as ", v[q].argument().print(), " stored ", v[q].isStored(), " after", h.str());
                CHECK_THAT(g_live.count(m[q].obj), "value ", q, " refers to a destroyed object after", h.str());
                bool e1 = fails([&] { CHECK_THAT(&v[q].as<CM>() == m[q].obj, "as<CM>() of value ", q, " after", h.str()); }), e2 = fails([&] { CHECK_THAT(&v[q].get<DM>() == m[q].obj, "get<DM>() of value ", q); });
                CHECK_THAT(!e1, "as<CM>() refused after", h.str()); CHECK_THAT(e2 == (m[q].t != type<DM>()), "get<DM>(): error ", e2, " after", h.str());
                CHECK_THAT(fails([&] { v[q].as<MO>(); }), "as<MO>() of another type after", h.str());
            }
            std::set<const void*> want; for (auto& x : m) if (x.owned) want.insert(x.obj);
            CHECK_THAT(g_live.size() == n0 + want.size(), "live stored objects: ", g_live.size() - n0, ", values share ", want.size(), " after", h.str());
        } }
        CHECK_THAT(long(g_live.size()) == n0 && !g_bad, "objects leaked or destroyed twice after", h.str()); }
        CHECK_THAT(g_live.empty() && !g_bad, "objects left after", h.str());
    }
    done();
}
