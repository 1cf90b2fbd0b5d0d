// Shared oracles of the arithmetic workloads: results against the scalar definition in the element type.
#pragma once
#include "self.hpp"
#include "store.hpp"
template<class P> struct pname { static const char* s(){ return "double"; } };
template<> struct pname<float>{ static const char* s(){ return "float"; } };
template<> struct pname<int>{ static const char* s(){ return "int"; } };
template<> struct pname<long double>{ static const char* s(){ return "longdouble"; } };
// element values: small integers (exact), ordinary, wide range
template<class P> P val(vp::Rng&g,int kind){ if(std::is_integral<P>::value) return (P)g.range(-9,9); return kind==0?(P)g.range(-9,9):kind==1?(P)g.normal():kind==2?(P)(g.normal()*std::pow(10.0,g.range(-8,8))):(P)g.value(); }
template<class P> V vals(vp::Rng&g,int n,int kind){ V v(n); for(auto&x:v) x=val<P>(g,kind); return v; }
template<class P> M valm(vp::Rng&g,int r,int c,int kind){ M m(r,c); for(auto&x:m.d) x=val<P>(g,kind); return m; }
template<class P> bool near(L x,L ref,L scale){ if(std::is_integral<P>::value) return x==ref; return x==ref || fabsl(x-ref)<=scale*epsP<P>(); }
// the compared object's shape and every element within two roundings of the scalar result
template<class P,class X,class F> bool okv(const X&x,int n,F f){ if(x.size()!=n) return false; for(int i=0;i<n;i++){ L r=(L)(P)f(i); if(!near<P>((L)x[i],r,2*fabsl(r))) return false; } return true; }
template<class P,class X,class F> bool okm(const X&x,int r,int c,F f){ if(x.num_rows()!=r||x.num_cols()!=c) return false; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ L e=(L)(P)f(i,j); if(!near<P>((L)x(i,j),e,2*fabsl(e))) return false; } return true; }
// sum of products with its forward error bound
template<class P> bool okdot(L x,const V&a,const V&b){ L s=0,t=0; for(size_t i=0;i<a.size();i++){ s+=a[i]*b[i]; t+=fabsl(a[i]*b[i]); } if(std::is_integral<P>::value) return x==s; return fabsl(x-s)<=(2*a.size()+4)*(epsP<P>()+EPSL)*t; }
inline V rowof(const M&m,int i){ V v(m.c); for(int j=0;j<m.c;j++) v[j]=m(i,j); return v; }
inline V colof(const M&m,int j){ V v(m.r); for(int i=0;i<m.r;i++) v[i]=m(i,j); return v; }
template<class P,class X> bool okprod(const X&x,const M&a,const M&b){ if(x.num_rows()!=a.r||x.num_cols()!=b.c) return false; for(int i=0;i<a.r;i++) for(int j=0;j<b.c;j++) if(!okdot<P>((L)x(i,j),rowof(a,i),colof(b,j))) return false; return true; }
template<class P,class X> bool okmv(const X&x,const M&a,const V&b){ if(x.size()!=a.r) return false; for(int i=0;i<a.r;i++) if(!okdot<P>((L)x[i],rowof(a,i),b)) return false; return true; }
#define CK(name,cond) VP_CHECK(cond,vp::key(pre+name),"%s",ctx.c_str())
inline std::string shows(const V&v){ std::string s; for(size_t i=0;i<v.size()&&i<8;i++) s+=vp::fmt("%Lg ",v[i]); return s; }
inline std::string shows(const M&m){ std::string s=vp::fmt("%dx%d: ",m.r,m.c); for(size_t i=0;i<m.d.size()&&i<12;i++) s+=vp::fmt("%Lg ",m.d[i]); return s; }
