// C13: concurrent lookups (with nested loaders), registrations and aliases under the race detector; locks released after errors.
#include "w.h"
#include "types/primitives.h"
#include <thread>
#include <atomic>
#include <unistd.h>
using namespace reflect;
static std::atomic<int> failed(0);
int main(int argc, char** argv)
{
    alarm(100);
    const int N = 60 * (argc > 2 && std::atoi(argv[2]) > 1 ? 5 : 1), rounds = argc > 2 ? std::atoi(argv[2]) : 1;
    type<int>();
    for (int r = 0; r < rounds; ++r) {
        std::string pre = "pre" + std::to_string(r) + "::T";
        for (int i = 0; i < N; i++) Registry::add(pre + std::to_string(i), [i, pre](Type* t) { if (i % 3) type(pre + std::to_string(i - i % 3)); t->addTrait("x"); if (i) type(pre + std::to_string(i - 1)); });
        std::vector<std::vector<const Type*> > got(4, std::vector<const Type*>(N)); std::vector<std::thread> th;
        for (int k = 0; k < 4; k++) th.emplace_back([&, k] {
            for (int j = 0; j < N; j++) {
                int i = (k % 2) ? N - 1 - j : j; auto n = std::to_string(i);
                got[k][i] = type(pre + n);
                Registry::add("q" + std::to_string(r) + "_" + std::to_string(k) + "::T" + n, [](Type*) {}); Registry::alias(pre + n, "al" + std::to_string(k) + "_" + std::to_string(r) + "_" + n);
                if (type("al" + std::to_string(k) + "_" + std::to_string(r) + "_" + n) != got[k][i]) failed++;
                try { Registry::get(pre + "unknown"); failed++; } catch (const Error&) {}
                try { Registry::alias(pre + n, "al" + std::to_string(k) + "_" + std::to_string(r) + "_" + n); failed++; } catch (const Error&) {}
                try { Registry::add("", [](Type*) {}); failed++; } catch (const Error&) {}
            } });
        for (auto& t : th) t.join();
        for (int i = 0; i < N; i++) for (int k = 1; k < 4; k++) CHECK_THAT(got[k][i] == got[0][i], "thread ", k, " got another object for type ", i);
        CHECK_THAT(!failed, "an alias gave another object or an error was not reported, ", failed.load(), " times");
    }
    // pairs of operations only: a first lookup (or a known one), a registration, an alias, each against each, many times
    for (int a = 0; a < 4; ++a) for (int b = a; b < 4; ++b) {
        const int M = 200; std::atomic<int> ready(0); std::string base = "pair" + std::to_string(a) + std::to_string(b) + "_";
        for (int i = 0; i < M; i++) Registry::add(base + "t" + std::to_string(i), [](Type*) {});
        const Type* known = type(base + "t0"); std::atomic<int> wrong(0);
        auto job = [&](int op, int me) { ready++; while (ready < 2) {}
            for (int i = 1; i < M; i++) { std::string n = std::to_string(i);
                try {
                    if (op == 0) { if (type(base + "t" + n)->id() != base + "t" + n) wrong++; }
                    else if (op == 1) Registry::add(base + "n" + n + "_" + std::to_string(me), [](Type*) {});
                    else if (op == 2) Registry::alias(base + "t0", base + "a" + n + "_" + std::to_string(me));
                    else if (type(base + "t0") != known) wrong++;
                } catch (const Error&) { wrong++; } } };
        std::thread x([&] { job(a, 0); }), y([&] { job(b, 1); }); x.join(); y.join();
        CHECK_THAT(!wrong, "operations ", a, " and ", b, " in two threads gave ", wrong.load(), " wrong results or errors");
    }
    // the lock is free after an error: another thread can still use the registry
    for (int w = 0; w < 5; ++w) {
        try { if (w == 0) Registry::get("none"); if (w == 1) Registry::get(""); if (w == 2) Registry::alias("int", ""); if (w == 3) { Registry::alias("int", "x_alias"); Registry::alias("float", "x_alias"); } if (w == 4) Registry::add("a:b", [](Type*) {}); } catch (const Error&) {}
        const Type* t = nullptr; std::thread o([&] { Registry::add("w" + std::to_string(w), [](Type*) {}); t = type("w" + std::to_string(w)); }); o.join();
        CHECK_THAT(t && t->id() == "w" + std::to_string(w), "lookup after error ", w);
    }
    done();
}
