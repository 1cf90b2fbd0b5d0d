// A stand-in for the forward-mode part of FADBAD++ 2.1 (fadbad.com), which is not installed here.
// It has the interface TooN/functions/fadbad.h is written for: fadbad::F<T,N> with a static number of
// directions and F<T> (N = 0), whose number of directions is set by the first diff(index,n).  Wrong indices and
// operands with different numbers of directions stop the program, as they do in FADBAD++ with its assertions on.
#ifndef VP_FADIFF_H
#define VP_FADIFF_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
namespace fadbad
{
inline void stop(const char* what, unsigned a, unsigned b) { std::fprintf(stderr, "fadbad: %s (%u, %u)\n", what, a, b); std::abort(); }

template<typename T, unsigned N> struct Directions
{
	T d[N]; bool depends;
	Directions() :depends(false) { for(unsigned i = 0; i < N; ++i) d[i] = T(0); }
	unsigned size() const { return N; }
	void set(unsigned n) { if(n != N) stop("numbers of directions differ", n, N); depends = true; }
	T& at(unsigned i) { if(i >= N) stop("index out of range", i, N); return d[i]; }
	const T& at(unsigned i) const { if(i >= N) stop("index out of range", i, N); return d[i]; }
};
template<typename T> struct Directions<T, 0>
{
	std::vector<T> d; bool depends; T zero;
	Directions() :depends(false), zero(0) {}
	unsigned size() const { return unsigned(d.size()); }
	void set(unsigned n) { if(d.empty()) d.assign(n, T(0)); else if(d.size() != n) stop("numbers of directions differ", n, size()); depends = true; }
	T& at(unsigned i) { if(i < d.size()) return d[i]; zero = T(0); return zero; }
	const T& at(unsigned i) const { if(i < d.size()) return d[i]; return zero; }
};

template<typename T> struct Op { typedef T Base; };
template<typename T, unsigned N = 0> class F;
template<typename T, unsigned N> struct Op<F<T, N> > { typedef typename Op<T>::Base Base; };

template<typename T, unsigned N> class F
{
	T v; Directions<T, N> g;
public:
	typedef T UnderlyingType;
	F() :v() {}
	F(const F&) = default;
	template<class U> F(const U& u) :v(u) {}
	F& operator=(const F&) = default;
	template<class U> F& operator=(const U& u) { v = u; g = Directions<T, N>(); return *this; }
	unsigned size() const { return g.size(); }
	bool depend() const { return g.depends; }
	const T& val() const { return v; }
	T& x() { return v; }
	T& d(unsigned i) { return g.at(i); }
	const T& deriv(unsigned i) const { return g.at(i); }
	const T& operator[](unsigned i) const { return g.at(i); }
	// this variable is direction idx (of n)
	T& diff(unsigned idx)
	{
		static_assert(N != 0, "diff(index) needs a static number of directions");
		if(idx >= N) stop("index out of range", idx, N);
		g.depends = true;
		for(unsigned i = 0; i < N; ++i) g.at(i) = T(0);
		return g.at(idx) = T(1);
	}
	T& diff(unsigned idx, unsigned n)
	{
		static_assert(N == 0, "diff(index, n) needs a dynamic number of directions");
		if(idx >= n) stop("index out of range", idx, n);
		g.set(n);
		for(unsigned i = 0; i < n; ++i) g.at(i) = T(0);
		return g.at(idx) = T(1);
	}
	// value, and df/da da + df/db db
	static F make(const T& value, const F& a, const T& fa)
	{
		F r; r.v = value;
		if(a.depend()) { r.g.set(a.size()); for(unsigned i = 0; i < a.size(); ++i) r.g.at(i) = fa*a.deriv(i); }
		return r;
	}
	static F make(const T& value, const F& a, const T& fa, const F& b, const T& fb)
	{
		if(!b.depend()) return make(value, a, fa);
		if(!a.depend()) return make(value, b, fb);
		if(a.size() != b.size()) stop("numbers of directions differ", a.size(), b.size());
		F r; r.v = value; r.g.set(a.size());
		for(unsigned i = 0; i < a.size(); ++i) r.g.at(i) = fa*a.deriv(i) + fb*b.deriv(i);
		return r;
	}
	template<class U> F& operator+=(const U& u) { return *this = *this + F(u); }
	template<class U> F& operator-=(const U& u) { return *this = *this - F(u); }
	template<class U> F& operator*=(const U& u) { return *this = *this * F(u); }
	template<class U> F& operator/=(const U& u) { return *this = *this / F(u); }
};

#define VP_F F<T, N>
#define VP_ARITH(OP, FA, FB) \
	template<typename T, unsigned N> VP_F operator OP(const VP_F& a, const VP_F& b) { const T x = a.val(), y = b.val(); (void)x; (void)y; return VP_F::make(x OP y, a, FA, b, FB); } \
	template<typename T, unsigned N> VP_F operator OP(const typename Op<T>::Base& s, const VP_F& b) { return VP_F(s) OP b; } \
	template<typename T, unsigned N> VP_F operator OP(const VP_F& a, const typename Op<T>::Base& s) { return a OP VP_F(s); }
VP_ARITH(+, T(1), T(1))
VP_ARITH(-, T(1), T(-1))
VP_ARITH(*, y, x)
VP_ARITH(/, T(1)/y, -(x/y)/y)
#define VP_COMPARE(OP) \
	template<typename T, unsigned N> bool operator OP(const VP_F& a, const VP_F& b) { return a.val() OP b.val(); } \
	template<typename T, unsigned N> bool operator OP(const typename Op<T>::Base& s, const VP_F& b) { return s OP b.val(); } \
	template<typename T, unsigned N> bool operator OP(const VP_F& a, const typename Op<T>::Base& s) { return a.val() OP s; }
VP_COMPARE(==) VP_COMPARE(!=) VP_COMPARE(<) VP_COMPARE(<=) VP_COMPARE(>) VP_COMPARE(>=)

template<typename T, unsigned N> VP_F operator+(const VP_F& a) { return a; }
template<typename T, unsigned N> VP_F operator-(const VP_F& a) { return VP_F::make(-a.val(), a, T(-1)); }
#define VP_FUNCTION(NAME, DERIV) \
	template<typename T, unsigned N> VP_F NAME(const VP_F& a) { using std::NAME; using std::sin; using std::cos; using std::sqrt; using std::exp; const T x = a.val(), f = NAME(x); (void)f; return VP_F::make(f, a, DERIV); }
VP_FUNCTION(exp, f)
VP_FUNCTION(log, T(1)/x)
VP_FUNCTION(sqrt, T(1)/(T(2)*f))
VP_FUNCTION(sin, cos(x))
VP_FUNCTION(cos, -sin(x))
VP_FUNCTION(tan, T(1) + f*f)
VP_FUNCTION(asin, T(1)/sqrt(T(1) - x*x))
VP_FUNCTION(acos, T(-1)/sqrt(T(1) - x*x))
VP_FUNCTION(atan, T(1)/(T(1) + x*x))
template<typename T, unsigned N> VP_F sqr(const VP_F& a) { return VP_F::make(a.val()*a.val(), a, T(2)*a.val()); }
template<typename T, unsigned N> VP_F pow(const VP_F& a, const VP_F& b) { return exp(log(a)*b); }
#undef VP_F
#undef VP_ARITH
#undef VP_COMPARE
#undef VP_FUNCTION
}
#endif
