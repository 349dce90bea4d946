// Shared by the witness programs: report(...) prints a failing input and exits 3.
#pragma once
#include "reflect.h"
#include <iostream>
#include <sstream>
#include <random>
#include <cstdlib>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
static unsigned long g_cases = 0;
static inline void done() { std::cout << "CASES " << g_cases << std::endl; std::exit(0); }
template<typename... A> static inline void put(std::ostream& o) {}
template<typename T, typename... A> static inline void put(std::ostream& o, const T& t, const A&... a) { o << t; put(o, a...); }
template<typename... A> [[noreturn]] static inline void witness(const A&... a)
{ std::ostringstream s; put(s, a...); std::cout << "WITNESS " << s.str() << std::endl; std::_Exit(3); }
#define CHECK_THAT(cond, ...) do { ++g_cases; if (!(cond)) witness(#cond, " does not hold: ", __VA_ARGS__); } while (0)
struct Rng { std::mt19937_64 e; Rng(unsigned long s) : e(s) {} unsigned long operator()(unsigned long n) { return e() % n; } };
// runs f; true if it reported an error
static inline bool fails(const std::function<void()>& f)
{ try { f(); return false; } catch (const reflect::Error&) { return true; } }
