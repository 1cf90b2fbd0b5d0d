// Shared by C19-C22: homogeneous-matrix models of the transformation groups.
#pragma once
#include "self.hpp"
#include "num.hpp"
#include <sstream>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#define K(s) vp::key(pre+s)
// the rows of m as text, which may end directly behind its last digit
inline std::string textof(vp::Rng&g,const M&m,int rows){ std::string s; if(g.chance(.2)) s="\n  "; const char*sep=g.chance(.7)?" ":"\t  "; for(int i=0;i<rows;i++) for(int j=0;j<m.c;j++){ s+=vp::fmt("%.21Lg",m(i,j)); if(j+1<m.c) s+=sep; else if(i+1<rows) s+=g.chance(.8)?"\n":" "; } return s; }
// reads one object, alone or followed by others
template<class G> bool readtext(vp::Rng&g,G&x,const M&m,int rows){ std::string s=textof(g,m,rows); G y; const int n=g.range(0,3); if(n==1) s+="\n"; if(n==2) s+="\n"+textof(g,m,rows); if(n==3) s+=" x"; std::istringstream in(s); in>>x; bool ok=!in.fail(); if(n==2){ in>>y; ok=ok&&!in.fail(); x=y; } return ok; }
const L PIL=3.141592653589793238462643383279502884L;
template<class P> constexpr bool isflt(){ return std::is_same<P,float>::value; }
// reference generators, written out independently of the library
inline M gen_so2(){ M g(2,2); g(0,1)=-1; g(1,0)=1; return g; }
inline M gen_so3(int i){ M g(3,3); int a=(i+1)%3,b=(i+2)%3; g(a,b)=-1; g(b,a)=1; return g; }
inline M embed(const M&a,int n){ M g(n,n); for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++) g(i,j)=a(i,j); return g; }
inline M gen2(int i){ M g(3,3); if(i<2) g(i,2)=1; else if(i==2) g=embed(gen_so2(),3); else g(0,0)=g(1,1)=1; return g; }
inline M gen3(int i){ M g(4,4); if(i<3) g(i,3)=1; else if(i<6) g=embed(gen_so3(i-3),4); else g(0,0)=g(1,1)=g(2,2)=1; return g; }
inline M hatd(int d,const V&v){ M g(d+1,d+1); for(size_t i=0;i<v.size();i++) g=add(g,d==2?gen2(i):gen3(i),v[i]); return g; }
// inverse of hat for matrices of the algebra
inline V vee(int d,const M&m,bool sim){ V v; if(d==2){ v=V(sim?4:3); v[0]=m(0,2); v[1]=m(1,2); v[2]=(m(1,0)-m(0,1))/2; if(sim) v[3]=(m(0,0)+m(1,1))/2; } else { v=V(sim?7:6); for(int i=0;i<3;i++) v[i]=m(i,3); for(int i=0;i<3;i++) v[3+i]=(m((i+2)%3,(i+1)%3)-m((i+1)%3,(i+2)%3))/2; if(sim) v[6]=(m(0,0)+m(1,1)+m(2,2))/3; } return v; }
inline M rotblk(const M&h){ int d=h.r-1; M r(d,d); for(int i=0;i<d;i++) for(int j=0;j<d;j++) r(i,j)=h(i,j); return r; }
// angle with emphasis on 0, tiny, pi and beyond
inline L angle(vp::Rng&g,L lim=1e9L){ L a; switch(g.range(0,9)){
	case 0: a=0; break; case 1: a=powl(10,-g.unif(1,14)); break; case 2: a=PIL-powl(10,-g.unif(1,12)); break; case 3: a=powl(10,-g.unif(2.5,4.5)); break; case 4: a=g.unif(3,7); break;
	case 5: a=PIL/4*g.range(1,4)+g.range(-1,1)*1e-9L; break; case 6: a=g.unif(6,30); break; case 7: a=1e-3L*(1+.1L*g.normal()); break; default: a=g.unif(0,PIL); }
	a=fabsl(a); if(a>lim) a=lim*g.unif(); return a; }
inline V axis(vp::Rng&g){ V v(3); switch(g.range(0,4)){ case 0: v[g.range(0,2)]=g.range(0,1)?1:-1; break; case 1: v[0]=1; v[1]=g.range(-1,1); v[2]=g.range(-1,1); break; case 2: v[g.range(0,2)]=1; v[g.range(0,2)]+=1e-8L*g.normal(); break; default: for(auto&x:v) x=g.normal(); }
	L n=norm(v); if(!(n>0)){ v[0]=1; n=1; } for(auto&x:v) x/=n; return v; }
inline V transl(vp::Rng&g,int d,bool fl){ V t(d); L s=g.range(0,4)?1:powl(10,g.range(fl?-3:-6,fl?3:6)); for(auto&x:t) x=s*(g.range(0,5)?g.normal():0); return t; }
inline L logscale(vp::Rng&g){ switch(g.range(0,6)){ case 0: return 0; case 1: return g.normal()*powl(10,-g.unif(1,13)); case 2: return (g.range(0,1)?1:-1)*powl(10,-g.unif(5.5,6.5)); case 3: return g.unif(-5,5); default: return g.unif(-1,1); } }
template<class P> L tolT(){ return isflt<P>()?4096*epsP<P>():1e-11L; }
template<class P> L tolR(){ return 48*epsP<P>(); }
inline bool validrot(const M&r,L tol){ return maxbad(sub(mul(r,tr(r)),eye(r.r)))<=tol && fabsl(det(r)-1)<=3*tol; }
inline L wrap(L a){ return a-2*PIL*floorl((a+PIL)/(2*PIL)); }
