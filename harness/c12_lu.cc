// C12: LAPACK LU.
#include "num.hpp"
#include <TooN/LU.h>
template<class P> L mc(){ return std::is_same<P,float>::value?1e3L:1e8L; }
// smallest |F - A permuted| over column (or row) permutations, greedily matched
static L permdist(const M&F,const M&A,bool rows){ M f=rows?tr(F):F,a=rows?tr(A):A; int n=a.c; std::vector<char> used(n,0); L worst=0; for(int j=0;j<n;j++){ L best=INFINITY; int bi=-1; for(int k=0;k<n;k++){ if(used[k]) continue; L d=0; for(int i=0;i<a.r;i++) d=std::max(d,bad(f(i,j)-a(i,k))); if(d<best){best=d;bi=k;} } if(bi<0) return INFINITY; used[bi]=1; worst=std::max(worst,best);} return worst; }
// the product of the pivots, taken in any order, stays within what P holds
template<class P> bool detfits(const M&a){ L hi=1,lo=1; for(int i=0;i<a.r;i++){ L s=0; for(int j=0;j<a.c;j++) s+=a(i,j)*a(i,j); s=sqrtl(s); hi*=std::max<L>(1,s*4); lo*=s>0?std::min<L>(1,s):1; } return hi<std::numeric_limits<P>::max()/1e6L&&lo>std::numeric_limits<P>::min()*1e6L; }
template<int N,class P,class LUc> void judge(vp::Rng&g,const M&a,LUc&lu,const std::string&pre,L cond){
	int n=a.r; L e=64*(n+2)*epsP<P>(), na=norminf(a);
	#define K(s) vp::key(pre+s)
	VP_CHECK(lu.get_info()==0,K("info"),"info %d for a regular matrix %s",lu.get_info(),show(a).c_str());
	M p=fromM(lu.get_lu()); VP_CHECK(p.r==n&&p.c==n,K("packed_size"),"size");
	{ M l=eye(n),u(n,n),l2(n,n),u2=eye(n); for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(j>=i) u(i,j)=p(i,j); else l(i,j)=p(i,j); if(j<=i) l2(i,j)=p(i,j); else u2(i,j)=p(i,j); }
	  L d1=permdist(mul(l,u),a,true), d2=permdist(mul(l2,u2),a,false); M al=l2,au=u2; for(auto&x:al.d)x=fabsl(x); for(auto&x:au.d)x=fabsl(x);
	  VP_CLOSE(std::min(d1,d2),e*std::max(norminf(mul(al,au)),na),K("packed_factors"),"packed factors do not reproduce any permutation of A=%s",show(a).c_str()); }
	for(int rep=0;rep<2;rep++){
	// vector
	V x0=randv(g,n),b=mul(a,x0); roundto<P>(b); T::Vector<N,P> B(n); toV(B,b); M x=colM(fromV(lu.backsub(B))); VP_CLOSE(solveres(a,x,colM(b)),e,K("solve_vector"),"A=%s",show(a).c_str()); VP_CHECK(samev(B,b),K("rhs_unchanged"),"rhs modified");
	T::Vector<Dyn,P> Bd(n); toV(Bd,b); x=colM(fromV(lu.backsub(Bd))); VP_CLOSE(solveres(a,x,colM(b)),e,K("solve_vector"),"dynamic rhs A=%s",show(a).c_str());
	// static number of right-hand sides
	M b2=randn(g,n,2); roundto<P>(b2); T::Matrix<N,2,P> B2(n,2); put(B2,b2); M x2=fromM(lu.backsub(B2)); VP_CHECK(x2.r==n&&x2.c==2,K("solve_msize"),"size"); VP_CLOSE(solveres(a,x2,b2),e,K("solve_matrix_static"),"A=%s",show(a).c_str());
	// dynamic number
	int k=g.range(1,5); M bk=randn(g,n,k); roundto<P>(bk); T::Matrix<Dyn,Dyn,P> BK(n,k); put(BK,bk); M xk=fromM(lu.backsub(BK)); VP_CHECK(xk.r==n&&xk.c==k,K("solve_msize"),"size"); VP_CLOSE(solveres(a,xk,bk),e,K("solve_matrix_dynamic"),"A=%s",show(a).c_str());
	T::Matrix<N,3,P,T::ColMajor> BC(n,3); M b3=randn(g,n,3); roundto<P>(b3); put(BC,b3); M x3=fromM(lu.backsub(BC)); VP_CLOSE(solveres(a,x3,b3),e,K("solve_matrix_colmajor"),"A=%s",show(a).c_str());
	// inverse; afterwards everything still works (second pass)
	M iv=fromM(lu.get_inverse()); VP_CLOSE(maxbad(sub(mul(iv,a),eye(n))),e*n*cond,K("inverse"),"A=%s",show(a).c_str());
	L d=lu.determinant(), want=det(a); if(detfits<P>(a)) VP_CLOSE(bad(d-want),e*(sumcof(a)*na+rowprod(a)),K("determinant"),"%Lg want %Lg A=%s",d,want,show(a).c_str());
	VP_CHECK(lu.get_info()==0,K("info"),"info %d",lu.get_info());
	}
}
template<int N,class P> void one(vp::Rng&g,int n,const std::string&pre){
	int kind; L cond; M a=gen::regular(g,n,kind,cond,mc<P>()); roundto<P>(a); vp::describe(vp::fmt("LU N=%d n=%d kind=%d ",N,n,kind)+show(a)); vp::sig(hash(a));
	T::Matrix<N,N,P> A(n,n); put(A,a);
	switch(g.range(0,4)){
		case 0: case 1: { T::LU<N,P> lu(A); judge<N,P>(g,a,lu,pre,cond); break; }
		case 2: { T::Matrix<Dyn,Dyn,P,T::ColMajor> B(n,n); put(B,a); T::LU<N,P> lu(B); judge<N,P>(g,a,lu,pre,cond); break; }
		case 3: { T::Matrix<N,N,P> At(n,n); put(At,tr(a)); T::LU<N,P> lu(At.T()); judge<N,P>(g,a,lu,pre,cond); break; }
		default: { int k2; L c2; M b=gen::regular(g,n,k2,c2,mc<P>()); T::Matrix<N,N,P> B(n,n); put(B,b); if(g.chance(.3)) B=T::Zeros; T::LU<N,P> lu(B); if(g.chance(.5)) (void)lu.determinant(); lu.compute(A); judge<N,P>(g,a,lu,pre+"recompute_",cond); }
	}
	VP_CHECK(same(A,a),"lu/input_unchanged","argument modified");
	// a matrix with an exactly zero row or column is reported as singular
	M s=a; int z=g.range(0,n-1); bool row=g.chance(.5); for(int i=0;i<n;i++) (row?s(z,i):s(i,z))=0; put(A,s); T::LU<N,P> ls(A);
	VP_CHECK(ls.get_info()>0,"lu/info_singular","info %d for a matrix with a zero %s: %s",ls.get_info(),row?"row":"column",show(s).c_str()); L d0=ls.determinant(); if(detfits<P>(a)) VP_CHECK(d0==0,"lu/det_singular","determinant %Lg",d0);
}
VP_UNIT(lu_double,1200,25000){ switch(rng.range(0,7)){ case 0: one<1,double>(rng,1,"lu/"); break; case 1: one<2,double>(rng,2,"lu/"); break; case 2: one<3,double>(rng,3,"lu/"); break; case 3: one<5,double>(rng,5,"lu/"); break; case 4: one<9,double>(rng,9,"lu/"); break; default: one<Dyn,double>(rng,rng.range(1,20),"lu/dyn_"); } }
VP_UNIT(lu_float,500,9000){ switch(rng.range(0,2)){ case 0: one<3,float>(rng,3,"lu/float_"); break; case 1: one<6,float>(rng,6,"lu/float_"); break; default: one<Dyn,float>(rng,rng.range(1,8),"lu/float_"); } }
VP_UNIT(lu_large,40,800){ if(rng.chance(.3)) one<24,double>(rng,24,"lu/large_"); else one<Dyn,double>(rng,rng.range(21,90),"lu/large_"); }
// matrices of a size close to what the exponent holds
template<int N,class P> void scaled(vp::Rng&g,int n){
	int kind; L cond; M a=gen::regular(g,n,kind,cond,std::is_same<P,float>::value?100:1e5L); roundto<P>(a); const int h=std::is_same<P,float>::value?60:800,ex=g.range(-h,h); a=times2(a,ex); vp::describe(vp::fmt("scaled LU N=%d n=%d kind=%d 2^%d ",N,n,kind,ex)+show(a)); vp::sig(hash(a));
	const L e=64*(n+2)*epsP<P>(); T::Matrix<N,N,P> A(n,n); put(A,a); T::LU<N,P> lu(A); VP_CHECK(lu.get_info()==0,"lu/scaled/info","info %d for a regular matrix %s",lu.get_info(),show(a).c_str());
	V b=mul(a,randv(g,n)); roundto<P>(b); T::Vector<N,P> B(n); toV(B,b); VP_CLOSE(solveres(a,colM(fromV(lu.backsub(B))),colM(b)),e,"lu/scaled/solve_vector","A=%s",show(a).c_str());
	M iv=fromM(lu.get_inverse()); VP_CLOSE(maxbad(sub(mul(iv,a),eye(n))),e*n*cond,"lu/scaled/inverse","A=%s",show(a).c_str());
}
VP_UNIT(lu_scaled,400,8000){ switch(rng.range(0,3)){ case 0: scaled<3,double>(rng,3); break; case 1: scaled<Dyn,double>(rng,rng.range(1,9)); break; case 2: scaled<2,float>(rng,2); break; default: scaled<4,float>(rng,4); } }
// decompositions of very different sizes, one after the other: none depends on what an earlier one needed
template<class P> void sizes(vp::Rng&g){
	const int up=g.chance(.5); std::vector<int> ns={1,g.range(2,6),g.range(66,150)}; if(!up) ns={1,g.range(66,150),2,g.range(66,150)};
	vp::describe(vp::fmt("LU of sizes %d %d %d",ns[0],ns[1],ns[2])); vp::sig(ns[1]*1000+ns[2]);
	for(int n:ns){ M a=randn(g,n,n); for(int i=0;i<n;i++){ L s=0; for(int j=0;j<n;j++) s+=fabsl(a(i,j)); a(i,i)+=(a(i,i)<0?-1:1)*(s+1); } roundto<P>(a); const L e=64*(n+2)*epsP<P>(); T::Matrix<Dyn,Dyn,P> A(n,n); put(A,a); T::LU<Dyn,P> lu(A); VP_CHECK(lu.get_info()==0,"lu/sizes/info","info %d n=%d",lu.get_info(),n);
		M iv=fromM(lu.get_inverse()); VP_CLOSE(maxbad(sub(mul(iv,a),eye(n))),e*n,"lu/sizes/inverse","n=%d",n); const int k=g.range(1,3); M b=randn(g,n,k); roundto<P>(b); T::Matrix<Dyn,Dyn,P> B(n,k); put(B,b); VP_CLOSE(solveres(a,fromM(lu.backsub(B)),b),e,"lu/sizes/solve","n=%d",n); }
}
VP_UNIT(lu_sizes,24,400){ if(rng.chance(.7)) sizes<double>(rng); else sizes<float>(rng); }
