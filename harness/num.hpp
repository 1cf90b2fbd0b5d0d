// Small shared helpers of the numerical workloads.
#pragma once
#include "gen.hpp"
#include <TooN/TooN.h>
namespace T=TooN;
using namespace ref;
template<class P> L epsP(){ return std::numeric_limits<P>::epsilon(); }
const int Dyn=T::Dynamic;
// a TooN matrix of any storage filled with the values of m
template<int R,int C,class P,class B> inline void put(T::Matrix<R,C,P,B>& A,const M&m){ for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) A(i,j)=(P)m(i,j); }
template<class A> inline bool same(const A&a,const M&m){ if(a.num_rows()!=m.r||a.num_cols()!=m.c) return false; for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) if(!((L)a(i,j)==m(i,j))) return false; return true; }
template<class A> inline bool samev(const A&a,const V&m){ if(a.size()!=(int)m.size()) return false; for(int i=0;i<(int)m.size();i++) if(!((L)a[i]==m[i])) return false; return true; }
inline L nanmax(L a,L b){ return (a!=a||b!=b)?(L)INFINITY:std::max(a,b); }
// |x| that turns NaN into infinity
inline L bad(L x){ return x!=x?(L)INFINITY:fabsl(x); }
inline L maxbad(const M&m){ L r=0; for(L x:m.d) r=std::max(r,bad(x)); return r; }
inline L maxbad(const V&m){ L r=0; for(L x:m) r=std::max(r,bad(x)); return r; }
inline M colM(const V&v){ M m(v.size(),1); m.d.assign(v.begin(),v.end()); return m; }
inline V vecM(const M&m){ V v(m.d.size()); for(size_t i=0;i<m.d.size();i++) v[i]=m.d[i]; return v; }
inline V randv(vp::Rng&g,int n){ V v(n); for(auto&x:v) x=g.normal(); return v; }
// relative solve residual  max_col |A x - b| / (|A| |x| + |b|)
inline L solveres(const M&a,const M&x,const M&b){
	L res=0; M r=sub(mul(a,x),b); L na=norminf(a);
	for(int j=0;j<b.c;j++){ L nx=0,nb=0,nr=0; for(int i=0;i<x.r;i++) nx=std::max(nx,bad(x(i,j))); for(int i=0;i<b.r;i++){ nb=std::max(nb,fabsl(b(i,j))); nr=std::max(nr,bad(r(i,j))); }
		L d=na*nx+nb; L e=nx==INFINITY?(L)INFINITY:(d>0?nr/d:nr); res=std::max(res,e); }
	return res;
}
inline M permcols(const M&a,const std::vector<int>&p){ M o(a.r,a.c); for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++) o(i,j)=a(i,p[j]); return o; }
inline M minorsum(const M&a){ return a; }
// sum of |cofactors| of a square matrix
inline L sumcof(const M&a){ int n=a.r; if(n==1) return 1; L s=0; bool ok; L d; M inv_=solve(a,eye(n),&ok,&d);
	if(ok && d!=0){ for(L x:inv_.d) s+=fabsl(x*d); if(std::isfinite((double)s)) return s; s=0; }
	for(int i=0;i<n;i++) for(int j=0;j<n;j++){ M m(n-1,n-1); for(int r=0,rr=0;r<n;r++){ if(r==i) continue; for(int c=0,cc=0;c<n;c++){ if(c==j) continue; m(rr,cc++)=a(r,c);} rr++; } s+=fabsl(det(m)); }
	return s; }
inline L rowprod(const M&a){ L p=1; for(int i=0;i<a.r;i++){ L s=0; for(int j=0;j<a.c;j++) s+=a(i,j)*a(i,j); p*=sqrtl(s);} return p; }
// A solver of element type P given a right-hand side of another element type Q (integers here, so that neither
// loses anything), and made from a matrix of type Q: the answer is that of the well conditioned system.
template<class P,int R,class Q,class S> void other_rhs(vp::Rng&g,S&sv,const M&a,L tol,const std::string&pre){
	const int m=a.r; V b(m); for(L&x:b) x=g.range(-9,9); M bm(m,2); for(L&x:bm.d) x=g.range(-9,9);
	V xw; M xmw; { M at=tr(a),ata=mul(at,a); xw=vecM(solve(ata,mul(at,colM(b)))); xmw=solve(ata,mul(at,bm)); }
	T::Vector<R,Q> B(m); T::Vector<Dyn,Q> Bd(m); for(int i=0;i<m;i++) B[i]=Bd[i]=Q(b[i]);
	T::Matrix<R,2,Q> BM(m,2); T::Matrix<Dyn,Dyn,Q,T::ColMajor> BC(m,2); for(int i=0;i<m;i++) for(int j=0;j<2;j++) BM(i,j)=BC(i,j)=Q(bm(i,j));
	const L t=tol*(maxabs(b)+maxabs(bm));
	T::Vector<Dyn,P> x(a.c); x=sv.backsub(B); VP_CLOSE(maxbad(sub(fromV(x),xw)),t,vp::key(pre+"other_type_vector"),"A=%s b=%s",show(a).c_str(),show(b).c_str());
	x=sv.backsub(Bd); VP_CLOSE(maxbad(sub(fromV(x),xw)),t,vp::key(pre+"other_type_vector"),"dynamic: A=%s b=%s",show(a).c_str(),show(b).c_str());
	T::Matrix<Dyn,Dyn,P> y(a.c,2); y=sv.backsub(BM); VP_CLOSE(maxbad(sub(fromM(y),xmw)),t,vp::key(pre+"other_type_matrix"),"A=%s B=%s",show(a).c_str(),show(bm).c_str());
	y=sv.backsub(BC); VP_CLOSE(maxbad(sub(fromM(y),xmw)),t,vp::key(pre+"other_type_matrix"),"column major: A=%s B=%s",show(a).c_str(),show(bm).c_str());
}
// a diagonally dominant matrix of small integers, symmetric and positive if asked; condition below 4
inline M dominant(vp::Rng&g,int r,int c,bool sym){ M a(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) a(i,j)= i==j?(sym?4*c:5*(r+c))+g.range(0,2):g.range(-1,1); if(sym) for(int i=0;i<r;i++) for(int j=0;j<i;j++) a(i,j)=a(j,i); return a; }
// the same matrix at a size close to what the exponent of P holds; returns the power of two
template<class P> int rescale(vp::Rng&g,M&a){
	L big=0; for(L x:a.d) big=std::max(big,fabsl(x)); if(!(big>0)||!std::isfinite(big)) return 0; const bool fl=std::is_same<P,float>::value; const int lo=fl?-70:-800,hi=fl?80:900;
	const int ex=g.chance(.5)?g.range(lo,hi):g.chance(.5)?g.range(lo,lo/2):g.range(hi/2,hi); for(L&x:a.d){ x/=big; if(fabsl(x)<epsP<P>()*epsP<P>()) x=0; } roundto<P>(a); for(L&x:a.d) x=ldexpl(x,ex); return ex;
}
inline M times2(M a,int ex){ for(L&x:a.d) x=ldexpl(x,ex); return a; }
