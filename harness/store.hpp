// The same values in every kind of storage TooN offers: owned, slice, row, column, diagonal, wrapped, transposed...
// Views live inside a parent surrounded by marker values; leave() reports markers that changed.
#pragma once
#include "num.hpp"
#include <memory>
namespace store {
template<class P> struct Mark { static P v(){ return (P)77; } static bool is(P x){ return x==(P)77; } };
inline const char*& where(){ static const char* w=""; return w; }
template<class A> void markv(A&a){ for(int i=0;i<a.num_rows();i++) for(int j=0;j<a.num_cols();j++) a(i,j)=Mark<typename std::decay<decltype(a(0,0))>::type>::v(); }
template<class A> bool marksok(const A&a,std::function<bool(int,int)> in){ for(int i=0;i<a.num_rows();i++) for(int j=0;j<a.num_cols();j++) if(!in(i,j)&&!Mark<typename std::decay<decltype(a(0,0))>::type>::is(a(i,j))) return false; return true; }
template<class P,class X> void fillv(X&x,const V&v){ for(size_t i=0;i<v.size();i++) x[(int)i]=(P)v[i]; }
const int NVEC=8, NMAT=9;
const char*const VN[NVEC]={"own","resizable","slice","row","column","wrapped","diagonal","static_slice"};
const char*const MN[NMAT]={"own","colmajor","slice","transposed","wrapped","colmajor_slice","transposed_slice","wrapped_colmajor","static_slice"};
#define VP_MARKS(c) VP_CHECK(c,"storage/neighbours_untouched","storage %s",where())
// f(x) with x a non-const vector lvalue of size N (or Dynamic) holding v; which<0: random
template<int N,class P,class F> int with_vec(vp::Rng&g,const V&v,F f,int which=-1){
	const int n=v.size(); if(which<0) which=g.range(0,NVEC-1); if(which==6&&n==0) which=0; where()=VN[which];
	switch(which){
		case 0: { T::Vector<N,P> x(n); fillv<P>(x,v); f(x); break; }
		case 1: { if constexpr(N<0){ T::Vector<T::Resizable,P> x(n); fillv<P>(x,v); f(x); } else { T::Vector<N,P> x(n); fillv<P>(x,v); f(x); } break; }
		case 2: { int k=g.range(0,3); T::Vector<Dyn,P> b(n+k+2); for(int i=0;i<b.size();i++) b[i]=Mark<P>::v(); auto x=b.template slice<Dyn,N>(k,n); fillv<P>(x,v); f(x); bool ok=true; for(int i=0;i<b.size();i++) if((i<k||i>=k+n)&&!Mark<P>::is(b[i])) ok=false; VP_MARKS(ok); break; }
		case 3: { T::Matrix<3,N,P> A(3,n); markv(A); auto x=A[1]; fillv<P>(x,v); f(x); VP_MARKS(marksok(A,[](int i,int){ return i==1; })); break; }
		case 4: { T::Matrix<N,3,P> A(n,3); markv(A); auto x=A.T()[1]; fillv<P>(x,v); f(x); VP_MARKS(marksok(A,[](int,int j){ return j==1; })); break; }
		case 5: { std::unique_ptr<P[]> p(new P[n]); T::Vector<N,P,T::Reference> x(p.get(),n); fillv<P>(x,v); f(x); break; }
		case 6: { T::Matrix<N,(N<0?Dyn:N+1),P> A(n,n+1); markv(A); auto x=A.diagonal_slice(); fillv<P>(x,v); f(x); VP_MARKS(marksok(A,[](int i,int j){ return i==j; })); break; }
		case 7: { T::Vector<(N<0?Dyn:N+2),P> b(n+2); for(int i=0;i<n+2;i++) b[i]=Mark<P>::v(); auto x=b.template slice<1,N>(1,n); fillv<P>(x,v); f(x); VP_MARKS(Mark<P>::is(b[0])&&Mark<P>::is(b[n+1])); break; }
	}
	return which;
}
template<int R,int C,class P,class F> int with_mat(vp::Rng&g,const M&m,F f,int which=-1){
	const int r=m.r,c=m.c; if(which<0) which=g.range(0,NMAT-1); where()=MN[which];
	switch(which){
		case 0: { T::Matrix<R,C,P> A(r,c); put(A,m); f(A); break; }
		case 1: { T::Matrix<R,C,P,T::ColMajor> A(r,c); put(A,m); f(A); break; }
		case 2: { int a=g.range(0,2),b=g.range(0,2); T::Matrix<Dyn,Dyn,P> B(r+a+1,c+b+1); markv(B); auto A=B.template slice<Dyn,Dyn,R,C>(a,b,r,c); put(A,m); f(A); VP_MARKS(marksok(B,[=](int i,int j){ return i>=a&&i<a+r&&j>=b&&j<b+c; })); break; }
		case 3: { T::Matrix<C,R,P> B(c,r); auto A=B.T(); put(A,m); f(A); break; }
		case 4: { std::unique_ptr<P[]> p(new P[r*c]); T::Matrix<R,C,P,T::Reference::RowMajor> A(p.get(),r,c); put(A,m); f(A); break; }
		case 5: { int a=g.range(0,2),b=g.range(0,2); T::Matrix<Dyn,Dyn,P,T::ColMajor> B(r+a+1,c+b+1); markv(B); auto A=B.template slice<Dyn,Dyn,R,C>(a,b,r,c); put(A,m); f(A); VP_MARKS(marksok(B,[=](int i,int j){ return i>=a&&i<a+r&&j>=b&&j<b+c; })); break; }
		case 6: { int a=g.range(0,2),b=g.range(0,2); T::Matrix<Dyn,Dyn,P> B(c+a+1,r+b+1); markv(B); auto S=B.template slice<Dyn,Dyn,C,R>(a,b,c,r); auto A=S.T(); put(A,m); f(A); VP_MARKS(marksok(B,[=](int i,int j){ return i>=a&&i<a+c&&j>=b&&j<b+r; })); break; }
		case 7: { std::unique_ptr<P[]> p(new P[r*c]); T::Matrix<R,C,P,T::Reference::ColMajor> A(p.get(),r,c); put(A,m); f(A); break; }
		case 8: { T::Matrix<(R<0?Dyn:R+1),(C<0?Dyn:C+2),P> B(r+1,c+2); markv(B); auto A=B.template slice<1,1,R,C>(1,1,r,c); put(A,m); f(A); VP_MARKS(marksok(B,[=](int i,int j){ return i>=1&&i<1+r&&j>=1&&j<1+c; })); break; }
	}
	return which;
}
template<class X> V getv(const X&x){ V v(x.size()); for(int i=0;i<x.size();i++) v[i]=(L)x[i]; return v; }
template<class X> M getm(const X&x){ M m(x.num_rows(),x.num_cols()); for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) m(i,j)=(L)x(i,j); return m; }
// integer-valued or general values, rounded to the element type
template<class P> L rnd(L x){ return (L)(P)x; }
inline bool eqv(const V&a,const V&b){ if(a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if(!(a[i]==b[i])) return false; return true; }
inline bool eqm(const M&a,const M&b){ if(a.r!=b.r||a.c!=b.c) return false; for(size_t i=0;i<a.d.size();i++) if(!(a.d[i]==b.d[i])) return false; return true; }
}
using namespace store;
