// C25: every reflected operator against the C++ expression it is named after.
#include "w.h"
#include "types/pointer.h"
#include "types/primitives.h"
#include "dsl/all.h"
#include <cstdint>
#include <random>
using namespace reflect;
typedef std::vector<long> L_;
#if PART == 0
void numbers1(long); void numbers2(long); void numbers3(long); void numbers4(long);
// one class with every operator; each result tells operator and operands apart
struct Num
{
    long v; int moved = 0; Num() : v(7) {} Num(long v) : v(v) {} Num(int a, const Num& o) : v(a * 1000 + o.v) {} Num(const Num& o) : v(o.v) {} Num(Num&& o) : v(o.v) { o.v = -1; moved = 1; }
    Num& operator=(const Num& o) { v = o.v; moved = 0; return *this; } Num& operator=(Num&& o) { v = o.v; o.v = -2; moved = 2; return *this; }
#define A_(op, k) Num& operator op(const Num& o) { v = v * 100 + o.v * k; return *this; }
    A_(+=, 1) A_(-=, 2) A_(*=, 3) A_(/=, 4) A_(%=, 5) A_(&=, 6) A_(|=, 7) A_(^=, 8) A_(<<=, 9) A_(>>=, 10)
    Num& operator++() { ++v; return *this; } Num& operator--() { --v; return *this; } Num operator++(int) { Num r(*this); v += 2; return r; } Num operator--(int) { Num r(*this); v -= 2; return r; }
#define B_(op, k) Num operator op(const Num& o) const { return Num(v * 100 + o.v * k + 1); }
    B_(+, 11) B_(-, 12) B_(*, 13) B_(/, 14) B_(%, 15) B_(&, 16) B_(|, 17) B_(^, 18) B_(<<, 19) B_(>>, 20)
    Num operator~() const { return Num(v * 21); } bool operator!() const { return v == 22; }
#define C_(op) bool operator op(const Num& o) const { return v op o.v; }
    C_(&&) C_(||) C_(==) C_(!=) C_(<) C_(>) C_(<=) C_(>=)
    int operator[](const Num& o) const { return int(v * 100 + o.v * 23); } int operator()(const Num& o) const { return int(v * 100 + o.v * 24); } operator int() const { return int(v * 25); } explicit operator bool() const { return v != 0; }
};
reflectType(Num) { reflectPlumbing(); reflectCons(int, const Num&); reflectOperators(); reflectOpCast(int); reflectOpCast(bool); }
struct Mu { int v; Mu operator*(const Mu& o) const { return Mu{ v * o.v }; } }; reflectType(Mu) { reflectPlumbing(); reflectOperators(); }
struct De { int v; int& operator*() { return v; } bool operator<(const De& o) const { return v < o.v; } }; reflectType(De) { reflectPlumbing(); reflectOperators(); }
struct Al { int v; Al() : v(31) {} Al(const Al& o) : v(o.v) {} Al(Al&& o) : v(o.v) { o.v = -1; } int x; long y; }; reflectType(Al) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(x); reflectField(y); reflectField(v); }
struct One { int v; }; reflectType(One) { reflectAlloc(); }
struct Sub : Num { using Num::Num; Sub() {} Sub& operator+=(const Sub& o) { v = v * 100 + o.v * 26; return *this; } }; reflectType(Sub) { reflectParent(Num); reflectPlumbing(); reflectOperators(); }

template<typename C> static void ops(const char* who, C (*mk)(long))
{
    const Type* t = type<C>(); std::string id = who;
    for (long a : { 3L, 22L, 0L, 5L }) for (long b : { 4L, 3L, 0L, 22L })
    {
#define EACH_ASSIGN(op, nm) { C x = mk(a), y = mk(b), e = mk(a), f = mk(b); e op f; Num& r = t->call<Num&>(nm, x, y); CHECK_THAT(r.v == e.v && &r == (Num*)&x && x.v == e.v && y.v == b, id, ": ", nm, " of ", a, " and ", b, " gives ", x.v, ", not ", e.v); }
#define S(op) EACH_ASSIGN(op, "operator" #op)
        S(-=) S(*=) S(/=) S(%=) S(&=) S(|=) S(^=) S(<<=) S(>>=) S(+=)
#define X(op) { C x = mk(a), y = mk(b); Num e = x op y; Num r = t->call<Num>("operator" #op, x, y); CHECK_THAT(r.v == e.v && x.v == a && y.v == b, id, ": operator" #op " of ", a, " and ", b, " is ", r.v, ", not ", e.v); }
        X(+) X(-) X(*) X(/) X(%) X(&) X(|) X(^) X(<<) X(>>)
#define Y(op) { C x = mk(a), y = mk(b); bool e = x.operator op(y); bool r = t->call<bool>("operator" #op, x, y); CHECK_THAT(r == e && x.v == a && y.v == b, id, ": operator" #op " of ", a, " and ", b, " is ", r); }
        Y(&&) Y(||) Y(==) Y(!=) Y(<) Y(>) Y(<=) Y(>=)
        { C x = mk(a), y = mk(b); CHECK_THAT(t->call<int>("operator[]", x, y) == x[y] && t->call<int>("operator()", x, y) == x(y), id, ": operator[] or operator() of ", a, " and ", b); }
    }
    for (long a : { 3L, 22L, 0L }) { C x = mk(a); CHECK_THAT(t->call<Num>("operator~", x).v == a * 21 && t->call<bool>("operator!", x) == (a == 22), id, ": operator~ or operator! of ", a); }
}
int main(int argc, char** argv)
{
    long seed = argc > 1 ? atol(argv[1]) : 1; 
    numbers1(seed); numbers2(seed); numbers3(seed); numbers4(seed);
    ops<Num>("Num", [](long v) { return Num(v); }); ops<Sub>("Sub", [](long v) { Sub s; s.v = v; return s; });
    const Type* t = type<Num>();
    for (long a : { 3L, 22L, 0L })
    {
        { Num x(a); Num& r = t->call<Num&>("operator++", x); CHECK_THAT(&r == &x && x.v == a + 1, "pre-increment of ", a, " gives ", x.v); } { Num x(a); Num& r = t->call<Num&>("operator--", x); CHECK_THAT(&r == &x && x.v == a - 1, "pre-decrement of ", a, " gives ", x.v); }
        { Num x(a); Num r = t->call<Num>("operator++", x, 0); CHECK_THAT(r.v == a && x.v == a + 2, "post-increment of ", a, " gives ", x.v, ", ", r.v); } { Num x(a); Num r = t->call<Num>("operator--", x, 0); CHECK_THAT(r.v == a && x.v == a - 2, "post-decrement of ", a, " gives ", x.v, ", ", r.v); }
        { Num x(a); CHECK_THAT(t->call<int>("operator int()", x) == a * 25 && t->call<bool>("operator bool()", x) == (a != 0), "casts of ", a); }
        { Num x(a); Num c = t->call<Num>("Num", x); CHECK_THAT(c.v == a && x.v == a, "copy of ", a, " is ", c.v, ", leaves ", x.v); Num m = t->call<Num>("Num", std::move(x)); CHECK_THAT(m.v == a, "move of ", a, " is ", m.v, ", leaves ", x.v); }
        { Num x(a), y(50); Num& r = t->call<Num&>("operator=", y, x); CHECK_THAT(&r == &y && y.v == a && x.v == a && !y.moved, "copy assignment of ", a); Num z(51); Num& q = t->call<Num&>("operator=", z, std::move(x)); CHECK_THAT(&q == &z && z.v == a, "move assignment of ", a); }
        { Num x(a); Num c = t->call<Num>("Num", 9, x); CHECK_THAT(c.v == 9000 + a, "constructor (int, const Num&) gives ", c.v); }
    }
    CHECK_THAT(t->call<Num>("Num").v == 7, "default constructor gives ", t->call<Num>("Num").v);
    { Mu a{ 6 }, b{ 7 }; CHECK_THAT(type<Mu>()->call<Mu>("operator*", a, b).v == 42, "binary operator*"); De d{ 8 }, e{ 9 }; CHECK_THAT(&type<De>()->call<int&>("operator*", d) == &d.v, "unary operator*"); CHECK_THAT(type<De>()->call<bool>("operator<", d, e), "operator<"); CHECK_THAT(!type<De>()->hasFunction("operator>") && !type<Mu>()->hasFunction("operator+"), "operators not declared"); }
    { const Type* al = type<Al>(); Al* p = al->call<Al*>("new"); CHECK_THAT(p->v == 31, "new"); p->v = 5; Al* q = al->call<Al*>("new", *p); CHECK_THAT(q != p && q->v == 5 && p->v == 5, "new by copy"); Al* r = al->call<Al*>("new", std::move(*p)); CHECK_THAT(r->v == 5, "new by move");
      delete p; delete q; delete r; CHECK_THAT(al->field("x").offset() == offsetof(Al, x) && al->field("y").offset() == offsetof(Al, y) && al->field("v").offset() == offsetof(Al, v) && al->field("y").type() == type<long>() && al->field("x").type() == type<int>(), "fields"); CHECK_THAT(al->getValue<size_t>("sizeof") == sizeof(Al), "sizeof");
      One* o = type<One>()->call<One*>("new"); o->v = 1; delete o; }
    done();
}

#else
template<typename T> static void number(const char* id, std::vector<T> vals)
{
    const Type* t = type<T>(); CHECK_THAT(t->id() == id, "identifier of ", id, " is ", t->id());
    for (T a : vals) for (T b : vals)
    {
        if (!std::is_floating_point<T>::value && std::is_signed<T>::value && sizeof(T) >= 4) { __int128 w = (__int128)a + b; if (w > std::numeric_limits<T>::max() || w < std::numeric_limits<T>::min()) continue; }
        auto want = a + b; T x = a, y = b; auto got = t->call<decltype(want)>("operator+", x, y);
        CHECK_THAT(got == want && x == a && y == b, id, ": operator+ of ", +a, " and ", +b, " is ", +got, ", not ", +want);
    }
    for (T a : vals)
    {
        T x = a; T c = t->call<T>(t->id(), x); CHECK_THAT(c == a && x == a, id, ": copy of ", +a, " is ", +c); T m = t->call<T>(t->id(), std::move(x)); CHECK_THAT(m == a, id, ": move of ", +a, " is ", +m);
        T o = T(); const T k = a; T& r = t->call<T&>("operator=", o, k); CHECK_THAT(&r == &o && o == a && k == a, id, ": copy assignment of ", +a); T o2 = T(); T z = a; T& r2 = t->call<T&>("operator=", o2, std::move(z)); CHECK_THAT(&r2 == &o2 && o2 == a, id, ": move assignment of ", +a);
           }
    T d = t->call<T>(t->id()); CHECK_THAT(d == T(), id, ": default is ", +d); T* p = t->call<T*>("new"); CHECK_THAT(p, id, ": new"); *p = T(); delete p;
    CHECK_THAT(t->getValue<size_t>("sizeof") == sizeof(T) && t->getValue<T>("min") == std::numeric_limits<T>::min() && t->getValue<T>("max") == std::numeric_limits<T>::max(), id, ": sizeof, min, max");
    bool i = std::is_integral<T>::value, b = std::is_same<T, bool>::value;
    CHECK_THAT(t->is("primitive") && t->is("bool") == b && t->is("integer") == (i && !b) && t->is("signed") == (i && !b && std::is_signed<T>::value) && t->is("unsigned") == (i && !b && !std::is_signed<T>::value) && t->is("float") == !i, id, ": traits");
}
template<typename T> static void pointer(const char* id, std::vector<T> vals)
{
    const Type* t = type<T>();
    T a = vals[0]; T* pt = &a; const Type* q = type<T*>(); CHECK_THAT(q->isPointer() && q->pointee() == t && q->pointer() == "*", id, "*: pointee");
    CHECK_THAT(&q->call<T&>("operator*", pt) == &a && &q->call<const T&>("operator*", (T* const&)pt) == &a, id, "*: operator*"); CHECK_THAT(q->call<bool>("operator bool()", pt), id, "*: operator bool"); T* n = nullptr; CHECK_THAT(!q->call<bool>("operator bool()", n), id, "*: operator bool of null"); CHECK_THAT(q->call<T*>(q->id()) == nullptr, id, "*: default");
    T* w = nullptr; T*& wr = q->call<T*&>("operator=", w, (T* const&)pt); CHECK_THAT(&wr == &w && w == pt, id, "*: assignment"); CHECK_THAT(q->call<T*>(q->id(), pt) == pt, id, "*: copy");
}
template<typename T> static std::vector<T> sample(std::mt19937_64& g)
{
    std::vector<T> v = { T(0), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(std::numeric_limits<T>::max() / 2), T(3), T(100) }; for (int i = 0; i < 8; ++i) v.push_back(T(g() >> (g() % 60))); return v;
}
#define N(T, id) number<T>(id, sample<T>(g));
#if PART == 1
void numbers1(long seed) { std::mt19937_64 g(seed); number<bool>("bool", { true, false }); N(char, "char") N(signed char, "signed char") N(unsigned char, "unsigned char") }
#elif PART == 2
void numbers2(long seed) { std::mt19937_64 g(seed); N(short, "short int") N(unsigned short, "unsigned short int") N(int, "int") N(unsigned, "unsigned int") }
#elif PART == 3
void numbers3(long seed) { std::mt19937_64 g(seed); N(long, "long int") N(unsigned long, "unsigned long int") N(long long, "long long int") N(unsigned long long, "unsigned long long int") }
#else
void numbers4(long) { number<float>("float", { 0.f, 1.5f, -2.25f, 1e20f, -1e-20f }); number<double>("double", { 0., 1.5, -2.25, 1e200, 0.1 }); number<long double>("long double", { 0.l, 1.5l, -2.25l, 1e300l, 0.1l }); pointer<int>("int", { 5 }); pointer<bool>("bool", { true }); pointer<double>("double", { 1.5 }); }
#endif
#endif
