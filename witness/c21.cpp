// C21: first uses of template types from several threads at once; identifiers of template types.
#include "w.h"
#include "types/primitives.h"
#include "types/pointer.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/std/string.h"
#include "dsl/all.h"
#include <thread>
#include <atomic>
#include <csignal>
#include <unistd.h>
using namespace reflect;
#if PART == 0
void ids();
template<int N> struct X { int v; }; template<typename T> struct W {};
static std::atomic<int> g_runs(0), g_step(0);
namespace reflect { template<int N> struct Reflect<X<N> > { typedef X<N> T_; static std::string id() { return "X<" + std::to_string(N) + ">"; } reflectTemplateLoader()
    static void reflect(Type*); };
    template<typename T> struct Reflect<W<T> > { typedef W<T> T_; static std::string id() { return "W<" + typeId<T>() + ">"; } reflectTemplateLoader() static void reflect(Type* t) { const Type* in = type<T>(); t->addTrait("in" + in->id()); } };
    template<int N> void Reflect<X<N> >::reflect(Type* t) { ++g_runs; t->addTrait("v"); if (N % 2) t->addTrait(type<W<X<N> > >()->id()); } }
#else
struct Pl { int v; }; reflectType(Pl) { reflectField(v); }
namespace ns { struct Pq {}; template<typename T> struct Tn {}; } reflectType(ns::Pq) {}
template<typename T> struct Tm { }; reflectTemplate(Tm, T) {} reflectTemplate(ns::Tn, T) {}
#endif
#if PART == 0
static void go(int N, unsigned long seed, const Type* (*inner)(), const Type* (*outer)())
{
    const int K = 4; std::atomic<int> ready(0); const Type* r[K] = {}; std::string err[K]; std::thread t[K]; g_runs = 0; g_step = N;
    for (int i = 0; i < K; ++i) t[i] = std::thread([&, i] { int spin = int((seed * 31 + N * 7 + i * 13) % 97) * (i % 2); ++ready; while (ready < K) ; for (volatile int k = 0; k < spin; ) k = k + 1;
        try { if (N % 2 && i >= 2) outer(); r[i] = inner(); } catch (const Error& e) { err[i] = e.what(); } });
    for (auto& x : t) x.join();
    for (int i = 0; i < K; ++i) CHECK_THAT(err[i].empty() && r[i] == r[0] && r[i], K, " threads ask for the type of X<", N, "> for the first time: thread ", i, err[i].empty() ? " got another type object" : " got the error " + err[i]);
    std::string id = "X<" + std::to_string(N) + ">";
    CHECK_THAT(g_runs == 1, K, " threads ask for the type of ", id, " for the first time: it is reflected ", g_runs, " times"); CHECK_THAT(r[0]->id() == id && r[0] == type(id) && r[0]->is("v") && outer() == type("W<" + id + ">"), "type of ", id);
}
template<int A, int B> struct G { static void all(unsigned long s) { G<A, (A + B) / 2>::all(s); G<(A + B) / 2 + 1, B>::all(s); } };
template<int A> struct G<A, A> { static void all(unsigned long s) { go(A, s, &type<X<A> >, &type<W<X<A> > >); } };
#else
template<typename T> static void id(const char* want, const char* what)
{
    CHECK_THAT(typeId<T>() == want, "the identifier of ", what, " is ", typeId<T>()); const Type* t = type<T>(); CHECK_THAT(t->id() == want && t == type<const T&>() && t == type<T&&>() && t == type(want), "the type of ", what, " is ", t->id());
    size_t s = sizeof(T); for (int i = 0; i < 3; ++i) CHECK_THAT(type<T>() == t, "another type object of ", what); (void)s;
}
void ids()
{
#define I(w, ...) id<__VA_ARGS__>(w, #__VA_ARGS__);
    I("std::vector<int>", std::vector<int>) I("std::vector<std::vector<Pl>>", std::vector<std::vector<Pl> >) I("std::map<int,ns::Pq>", std::map<int, ns::Pq>) I("std::unordered_map<std::string,Pl>", std::unordered_map<std::string, Pl>)
    I("std::shared_ptr<Pl>", std::shared_ptr<Pl>) I("std::unique_ptr<std::vector<int*>>", std::unique_ptr<std::vector<int*> >) I("int*", int*) I("Pl*", const Pl*) I("Pl**", Pl**) I("Tm<Pl>", Tm<Pl>) I("Tm<Tm<int>>", Tm<Tm<int> >) I("ns::Tn<ns::Pq>", ns::Tn<ns::Pq>)
    I("Pl", Pl) I("ns::Pq", ns::Pq) I("std::map<std::string,std::vector<long int>>", std::map<std::string, std::vector<long> >) I("std::vector<int>*", std::vector<int>*)
    CHECK_THAT(type<const Pl*>()->pointee() == type<Pl>(), "Pl is described otherwise");
}
#endif
#if PART == 0
static void late(int) { static const char m[] = "WITNESS concurrent first uses of template types don't finish (deadlock)\n"; if (write(1, m, sizeof m - 1)) {} _Exit(3); }
int main(int argc, char** argv)
{
    unsigned long seed = argc > 1 ? atol(argv[1]) : 1; signal(SIGALRM, late); alarm(100);
    ids();
    G<0, 159>::all(seed);
    done();
}
#endif
