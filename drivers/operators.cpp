// Forces emission of the reflected operators of a class that declares them all; contains no logic of its own.
#include "reflect.h"
#include "types/primitives.h"
#include "dsl/all.h"
#include "dsl/field.h"
struct Num
{
    Num(); Num(const Num&); Num(Num&&); ~Num(); Num& operator=(const Num&); Num& operator=(Num&&); explicit Num(int, const Num&);
    Num& operator+=(const Num&); Num& operator-=(const Num&); Num& operator*=(const Num&); Num& operator/=(const Num&); Num& operator%=(const Num&);
    Num& operator&=(const Num&); Num& operator|=(const Num&); Num& operator^=(const Num&); Num& operator<<=(const Num&); Num& operator>>=(const Num&);
    Num& operator++(); Num& operator--(); Num operator++(int); Num operator--(int);
    Num operator+(const Num&) const; Num operator-(const Num&) const; Num operator*(const Num&) const; Num operator/(const Num&) const; Num operator%(const Num&) const; Num operator~() const;
    Num operator&(const Num&) const; Num operator|(const Num&) const; Num operator^(const Num&) const; Num operator<<(const Num&) const; Num operator>>(const Num&) const;
    bool operator!() const; bool operator&&(const Num&) const; bool operator||(const Num&) const;
    bool operator==(const Num&) const; bool operator!=(const Num&) const; bool operator<(const Num&) const; bool operator>(const Num&) const; bool operator<=(const Num&) const; bool operator>=(const Num&) const;
    int operator[](const Num&) const; int operator()(const Num&) const; operator int() const; operator bool() const;
    void named(int) const; long d[2];
};
struct Few { bool operator==(const Few&) const; Few& operator+=(int); Few operator-(const Few&) const; bool operator<(const Few&) const; long& operator*(); long d; };
struct Mu { Mu operator*(const Mu&) const; long d; };
struct De { long& operator*(); long d; };
struct Sub : Num { Sub& operator+=(const Sub&); };
struct Two { Two& operator++(); Two& operator--(); bool operator!() const; bool operator()(const Two&, int); int operator[](long) const; long x, y; int z; };
#define DRVD(T) namespace reflect { template<> struct Reflect<T> { typedef T T_; static std::string id() { return #T; } static void loader() {} static void reflect(Type*); }; }
DRVD(Num) DRVD(Few) DRVD(Mu) DRVD(De) DRVD(Two) DRVD(Sub)
using namespace reflect;
typedef Num* NumP;
void ops_assign(Type* type_) { typedef Num T_; reflectOpAssign(); }
void ops_incdec(Type* type_) { typedef Num T_; reflectOpIncDec(); }
void ops_arith(Type* type_) { typedef Num T_; reflectOpArithmetic(); }
void ops_other(Type* type_) { typedef Num T_; reflectOpOther(); }
void ops_all(Type* type_) { typedef Num T_; reflectOperators(); }
void ops_logical(Type* type_) { typedef Num T_; reflectOpLogical(); }
void ops_compare(Type* type_) { typedef Num T_; reflectOpComparaison(); }
void few_all(Type* type_) { typedef Few T_; reflectOpAssign(); reflectOpIncDec(); reflectOpArithmetic(); reflectOpLogical(); reflectOpComparaison(); reflectOpOther(); }
void cast_int(Type* type_) { typedef Num T_; reflectOpCast(int); }
void plumb_num(Type* type_) { typedef Num T_; reflectPlumbing(); }
void alloc_num(Type* type_) { typedef Num T_; reflectAllocPlumbing(); }
void alloc_one(Type* type_) { typedef Num T_; reflectAlloc(); }
void cons_num(Type* type_) { typedef Num T_; reflectCons(int, const Num&); }
void fn_num(Type* type_) { typedef Num T_; reflectFn(named); }
void ptr_num(Type* t) { Reflect<Num*>::reflect(t); }

void mu_all(Type* type_) { typedef Mu T_; reflectOperators(); }
void de_all(Type* type_) { typedef De T_; reflectOperators(); }
void two_all(Type* type_) { typedef Two T_; reflectOperators(); }
void sub_all(Type* type_) { typedef Sub T_; reflectOpAssign(); reflectOpComparaison(); }
void ptr_int(Type* t) { Reflect<int*>::reflect(t); }
void fields(Type* type_) { typedef Two T_; reflectField(y); reflectField(z); }
