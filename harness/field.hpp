// Exact element types for C31: the integers modulo the prime 2^61-1, the rationals, and quaternions over the former.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
namespace fld
{
// Constants such as 1.0 are elements of any field. A fraction that arrives here has been computed in floating point, which an exact field must never see.
inline int whole(double d) { const int i = int(d); if(!(i == d)) { std::fprintf(stderr, "field: the floating-point number %g was converted to an element of the field\n", d); std::abort(); } return i; }
struct Mod
{
	static const uint64_t p = (uint64_t(1) << 61) - 1;
	uint64_t v;
	Mod() :v(0) {}
	Mod(int i) :v(i >= 0 ? uint64_t(i) : p - uint64_t(-(int64_t)i)) {}
	Mod(double d) :Mod(whole(d)) {}
	static Mod raw(uint64_t x) { Mod m(0); m.v = x % p; return m; }
	Mod& operator+=(const Mod& o) { v += o.v; if(v >= p) v -= p; return *this; }
	Mod& operator-=(const Mod& o) { v += p - o.v; if(v >= p) v -= p; return *this; }
	Mod& operator*=(const Mod& o) { v = uint64_t((unsigned __int128)v * o.v % p); return *this; }
	Mod& operator/=(const Mod& o)
	{
		if(o.v == 0) { std::fputs("Mod: division by zero\n", stderr); std::abort(); }
		Mod r(1), b = o;
		for(uint64_t e = p - 2; e; e >>= 1) { if(e & 1) r *= b; b *= b; }
		return *this *= r;
	}
	friend Mod operator+(Mod a, const Mod& b) { return a += b; }
	friend Mod operator-(Mod a, const Mod& b) { return a -= b; }
	friend Mod operator*(Mod a, const Mod& b) { return a *= b; }
	friend Mod operator/(Mod a, const Mod& b) { return a /= b; }
	friend Mod operator-(const Mod& a) { return Mod(0) - a; }
	friend Mod operator+(const Mod& a) { return a; }
	friend bool operator==(const Mod& a, const Mod& b) { return a.v == b.v; }
	friend bool operator!=(const Mod& a, const Mod& b) { return a.v != b.v; }
	// an order in which zero is the smallest, so that a pivot is never zero if it can be helped
	friend bool operator<(const Mod& a, const Mod& b) { return a.v < b.v; }
	friend bool operator>(const Mod& a, const Mod& b) { return a.v > b.v; }
	friend bool operator<=(const Mod& a, const Mod& b) { return a.v <= b.v; }
	friend bool operator>=(const Mod& a, const Mod& b) { return a.v >= b.v; }
	friend Mod abs(const Mod& a) { return a; }
	friend std::ostream& operator<<(std::ostream& o, const Mod& a) { return o << a.v; }
	friend std::istream& operator>>(std::istream& i, Mod& a) { uint64_t x; if(i >> x) a.v = x % p; return i; }
};

struct Rat
{
	typedef __int128 I;
	I n, d;
	static I gcd(I a, I b) { if(a < 0) a = -a; if(b < 0) b = -b; while(b) { I t = a % b; a = b; b = t; } return a; }
	static void fail(const char* s) { std::fprintf(stderr, "Rat: %s\n", s); std::abort(); }
	static I mul(I a, I b) { I r; if(__builtin_mul_overflow(a, b, &r)) fail("overflow"); return r; }
	static I add(I a, I b) { I r; if(__builtin_add_overflow(a, b, &r)) fail("overflow"); return r; }
	Rat() :n(0), d(1) {}
	Rat(int i) :n(i), d(1) {}
	Rat(double x) :n(whole(x)), d(1) {}
	Rat(I a, I b) :n(a), d(b) { norm(); }
	void norm() { if(d == 0) fail("division by zero"); I g = gcd(n, d); if(g > 1) { n /= g; d /= g; } if(d < 0) { n = -n; d = -d; } }
	friend Rat operator+(const Rat& a, const Rat& b) { I g = gcd(a.d, b.d); return Rat(add(mul(a.n, b.d/g), mul(b.n, a.d/g)), mul(a.d, b.d/g)); }
	friend Rat operator-(const Rat& a) { return Rat(-a.n, a.d); }
	friend Rat operator+(const Rat& a) { return a; }
	friend Rat operator-(const Rat& a, const Rat& b) { return a + (-b); }
	friend Rat operator*(const Rat& a, const Rat& b) { I g = gcd(a.n, b.d), h = gcd(b.n, a.d); if(!g) g = 1; if(!h) h = 1; return Rat(mul(a.n/g, b.n/h), mul(a.d/h, b.d/g)); }
	friend Rat operator/(const Rat& a, const Rat& b) { if(b.n == 0) fail("division by zero"); return a*Rat(b.d, b.n); }
	Rat& operator+=(const Rat& o) { return *this = *this + o; }
	Rat& operator-=(const Rat& o) { return *this = *this - o; }
	Rat& operator*=(const Rat& o) { return *this = *this * o; }
	Rat& operator/=(const Rat& o) { return *this = *this / o; }
	friend bool operator==(const Rat& a, const Rat& b) { return a.n == b.n && a.d == b.d; }
	friend bool operator!=(const Rat& a, const Rat& b) { return !(a == b); }
	friend bool operator<(const Rat& a, const Rat& b) { return mul(a.n, b.d) < mul(b.n, a.d); }
	friend bool operator>(const Rat& a, const Rat& b) { return b < a; }
	friend bool operator<=(const Rat& a, const Rat& b) { return !(b < a); }
	friend bool operator>=(const Rat& a, const Rat& b) { return !(a < b); }
	friend Rat abs(const Rat& a) { return a.n < 0 ? -a : a; }
	friend std::ostream& operator<<(std::ostream& o, const Rat& a) { return o << (double)a.n/(double)a.d; }
};
// Quaternions over the integers modulo p: a ring whose elements do not commute. Division is multiplication by the inverse from the right.
struct Quat
{
	Mod c[4];
	Quat() {}
	Quat(int i) { c[0] = i; }
	Quat(double d) { c[0] = d; }
	Mod norm() const { return c[0]*c[0] + c[1]*c[1] + c[2]*c[2] + c[3]*c[3]; }
	Quat& operator+=(const Quat& o) { for(int i=0; i<4; i++) c[i] += o.c[i]; return *this; }
	Quat& operator-=(const Quat& o) { for(int i=0; i<4; i++) c[i] -= o.c[i]; return *this; }
	Quat& operator*=(const Quat& o) { return *this = *this * o; }
	Quat& operator/=(const Quat& o) { Quat k; const Mod n = o.norm(); for(int i=0; i<4; i++) k.c[i] = (i ? Mod(0)-o.c[i] : o.c[i]) / n; return *this = *this * k; }
	friend Quat operator+(Quat a, const Quat& b) { return a += b; }
	friend Quat operator-(Quat a, const Quat& b) { return a -= b; }
	friend Quat operator*(const Quat& a, const Quat& b)
	{
		Quat r; const Mod* x = a.c; const Mod* y = b.c;
		r.c[0] = x[0]*y[0] - x[1]*y[1] - x[2]*y[2] - x[3]*y[3];
		r.c[1] = x[0]*y[1] + x[1]*y[0] + x[2]*y[3] - x[3]*y[2];
		r.c[2] = x[0]*y[2] - x[1]*y[3] + x[2]*y[0] + x[3]*y[1];
		r.c[3] = x[0]*y[3] + x[1]*y[2] - x[2]*y[1] + x[3]*y[0];
		return r;
	}
	friend Quat operator/(Quat a, const Quat& b) { return a /= b; }
	friend Quat operator-(const Quat& a) { return Quat(0) - a; }
	friend Quat operator+(const Quat& a) { return a; }
	friend bool operator==(const Quat& a, const Quat& b) { return a.c[0]==b.c[0] && a.c[1]==b.c[1] && a.c[2]==b.c[2] && a.c[3]==b.c[3]; }
	friend bool operator!=(const Quat& a, const Quat& b) { return !(a == b); }
	friend std::ostream& operator<<(std::ostream& o, const Quat& a) { return o << a.c[0] << ' ' << a.c[1] << ' ' << a.c[2] << ' ' << a.c[3]; }
	friend std::istream& operator>>(std::istream& i, Quat& a) { return i >> a.c[0] >> a.c[1] >> a.c[2] >> a.c[3]; }
};
}
