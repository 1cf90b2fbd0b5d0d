// Counts what an operation costs: heap allocations (operator new and, under ASan, malloc itself) and,
// with element type Cnt, copies and arithmetic operations on elements.
#pragma once
#include "vp.hpp"
#include <new>
#include <cstdlib>
#include <cmath>
#include <iostream>
#include <limits>
namespace tally {
struct Counts { long allocs=0, bytes=0, frees=0, largest=0, made=0, copied=0, assigned=0, mul=0, add=0, div=0; };
inline Counts& now(){ static Counts c; return c; }
inline bool& on(){ static bool b=false; return b; }
inline void got(size_t n){ if(on()){ Counts&c=now(); c.allocs++; c.bytes+=n; if((long)n>c.largest) c.largest=n; } }
inline void gave(){ if(on()) now().frees++; }
#ifdef VP_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*));
inline void mh(const volatile void*,size_t n){ got(n); }
inline void fh(const volatile void*){ gave(); }
struct Install { Install(){ __sanitizer_install_malloc_and_free_hooks(mh,fh); } };
static Install install_;
#endif
template<class F> Counts of(F f){ now()=Counts(); on()=true; f(); on()=false; return now(); }
struct Off { bool was=on(); Off(){ on()=false; } ~Off(){ on()=was; } };
}
#ifndef VP_ASAN
void* operator new(size_t n){ tally::got(n); void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ tally::got(n); void*p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void*p) noexcept { if(p) tally::gave(); free(p); }
void operator delete[](void*p) noexcept { if(p) tally::gave(); free(p); }
void operator delete(void*p,size_t) noexcept { if(p) tally::gave(); free(p); }
void operator delete[](void*p,size_t) noexcept { if(p) tally::gave(); free(p); }
#endif
// an element that counts
struct Cnt {
	double v;
	Cnt():v(0){ tally::now().made++; }
	Cnt(double x):v(x){ tally::now().made++; }
	Cnt(int x):v(x){ tally::now().made++; }
	Cnt(const Cnt&o):v(o.v){ tally::now().copied++; }
	Cnt& operator=(const Cnt&o){ v=o.v; tally::now().assigned++; return *this; }
	Cnt& operator+=(const Cnt&o){ v+=o.v; tally::now().add++; return *this; }
	Cnt& operator-=(const Cnt&o){ v-=o.v; tally::now().add++; return *this; }
	Cnt& operator*=(const Cnt&o){ v*=o.v; tally::now().mul++; return *this; }
	Cnt& operator/=(const Cnt&o){ v/=o.v; tally::now().div++; return *this; }
	Cnt operator-() const { return Cnt(-v); }
	Cnt operator+() const { return *this; }
	explicit operator double() const { return v; }
	explicit operator bool() const { return v!=0; }
};
inline Cnt operator+(const Cnt&a,const Cnt&b){ tally::now().add++; return Cnt(a.v+b.v); }
inline Cnt operator-(const Cnt&a,const Cnt&b){ tally::now().add++; return Cnt(a.v-b.v); }
inline Cnt operator*(const Cnt&a,const Cnt&b){ tally::now().mul++; return Cnt(a.v*b.v); }
inline Cnt operator/(const Cnt&a,const Cnt&b){ tally::now().div++; return Cnt(a.v/b.v); }
#define CMP(op) inline bool operator op(const Cnt&a,const Cnt&b){ return a.v op b.v; }
CMP(==) CMP(!=) CMP(<) CMP(>) CMP(<=) CMP(>=)
#undef CMP
inline Cnt abs(const Cnt&a){ return Cnt(std::fabs(a.v)); }
inline Cnt sqrt(const Cnt&a){ return Cnt(std::sqrt(a.v)); }
inline std::ostream& operator<<(std::ostream&o,const Cnt&c){ return o<<c.v; }
namespace std { template<> struct numeric_limits<Cnt>: numeric_limits<double> { static Cnt epsilon(){ return Cnt(2.2e-16); } static Cnt max(){ return Cnt(1.7e308); } static Cnt quiet_NaN(){ return Cnt(__builtin_nan("")); } static Cnt signaling_NaN(){ return Cnt(__builtin_nan("")); } }; }
