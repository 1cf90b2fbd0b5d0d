// C16: symmetric eigen decomposition.
#include "num.hpp"
#include <TooN/SymEigen.h>
#define K(s) vp::key(pre+s)
template<class P> M gensym(vp::Rng&g,int n,int&kind){
	kind=g.range(0,14); M m(n,n); bool fl=std::is_same<P,float>::value; V w(n);
	switch(kind){
		case 0: { M a=randn(g,n,n); m=add(a,tr(a)); break; }
		case 1: for(int i=0;i<n;i++) m(i,i)=g.range(0,3)?g.normal():(L)g.range(-1,1); break;   // diagonal
		case 2: break;                                                                        // zero
		case 3: { L s=g.normal(); for(int i=0;i<n;i++) m(i,i)=s; break; }                     // multiple of identity
		case 4: { for(auto&x:w) x=g.range(0,1)?1:-2; m=symwith(g,w); break; }                 // repeated
		case 5: { L b=g.normal(); for(auto&x:w) x=b*(1+(fl?1e-3L:1e-8L)*g.range(-1,1)*g.unif()); m=symwith(g,w); break; } // clustered
		case 6: for(int i=0;i<n;i++) for(int j=0;j<=i;j++) m(i,j)=m(j,i)=g.range(-2,2); break;
		case 7: { V v=randv(g,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) m(i,j)=v[i]*v[j]; break; } // rank one
		case 8: { L s=powl(10,g.range(fl?-4:-9,fl?4:9)); M a=randn(g,n,n); m=scale(add(a,tr(a)),s); break; }
		case 9: { for(auto&x:w) x=g.unif(.1,3)*(g.chance(.5)?1:-1); m=symwith(g,w); break; }
		case 10:{ for(auto&x:w) x=powl(10,-g.unif()*(fl?3:7)); m=symwith(g,w); break; } // wide spectrum, definite
		case 11:{ M a=randn(g,n,n); m=add(a,tr(a)); for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(g.chance(.6)) m(i,j)=m(j,i)=0; break; }
		case 12:{ for(int i=0;i<n;i++) m(i,i)=g.range(1,2); if(n>1){ int i=g.range(0,n-2); L d=powl(10,-g.range(1,fl?5:14)); m(i,i+1)=m(i+1,i)=d; } break; } // nearly diagonal with repeated entries
		case 13:{ for(auto&x:m.d) x=1; if(g.chance(.5)) for(int i=0;i<n;i++) m(i,i)+=g.range(0,2); break; }
		case 14:{ w=V(n); for(int i=0;i<n;i++) w[i]=i==0?1:(fl?1e-4L:1e-9L)*g.normal(); m=symwith(g,w); break; }
	}
	roundto<P>(m); for(int i=0;i<n;i++) for(int j=0;j<i;j++) m(i,j)=m(j,i); return m;
}
template<class P,class S> void judge(vp::Rng&g,const M&a,S&se,const std::string&pre){
	int n=a.r; L e=48*(n+2)*epsP<P>(); V w; M E; jacobi(a,w,E); L s=std::max(fabsl(w[0]),fabsl(w[n-1]));
	V ev=fromV(se.get_evalues()); M X=fromM(se.get_evectors());
	VP_CHECK((int)ev.size()==n&&X.r==n&&X.c==n,K("sizes"),"sizes"); bool asc=true; for(int i=1;i<n;i++) asc=asc&&ev[i]>=ev[i-1]; VP_CHECK(asc,K("ascending"),"%s for %s",show(ev).c_str(),show(a).c_str());
	VP_CLOSE(maxbad(sub(ev,w)),e*s,K("values"),"%s want %s A=%s",show(ev).c_str(),show(w).c_str(),show(a).c_str());
	VP_CLOSE(maxbad(sub(mul(X,tr(X)),eye(n))),e,K("orthonormal"),"vectors %s of A=%s",show(X).c_str(),show(a).c_str());
	M D(n,n); for(int i=0;i<n;i++) D(i,i)=ev[i]; VP_CLOSE(maxbad(sub(mul(mul(tr(X),D),X),a)),e*s,K("reconstruct"),"A=%s values %s",show(a).c_str(),show(ev).c_str());
	// derived results are judged against the reference decomposition
	L dt=se.get_determinant(),dw=1,wt=0; for(L x:w) dw*=x; for(int i=0;i<n;i++){ L p=1; for(int j=0;j<n;j++) if(j!=i) p*=fabsl(w[j])+e*s; wt+=p; } L hi=1; for(L x:w) hi*=std::max<L>(1,fabsl(x)*1.01L); // any partial product of the eigenvalues is below hi
	if(hi<std::numeric_limits<P>::max()/8) VP_CLOSE(bad(dt-dw),wt*e*s+hi*std::numeric_limits<P>::min(),K("determinant"),"%Lg want %Lg",dt,dw);
	L mn=INFINITY; for(L x:w) mn=std::min(mn,fabsl(x));
	bool clear=true; for(L x:w) if(fabsl(x)<=2*e*s) clear=false;
	if(clear){ VP_CHECK(se.is_posdef()==(w[0]>0),K("is_posdef"),"%s",show(w).c_str()); VP_CHECK(se.is_negdef()==(w[n-1]<0),K("is_negdef"),"%s",show(w).c_str()); }
	// condition limit away from every ratio
	L cond=0; int rank=0; bool dflt=g.chance(.3)&&!std::is_same<P,float>::value; for(int t=0;t<40&&cond==0;t++){ L c=dflt?1e9L:powl(10,g.unif(.3,std::is_same<P,float>::value?3:9)); bool ok=true; rank=0; for(L x:w){ if(fabsl(x)<=s*epsP<P>()*200){ if(c>1/(epsP<P>()*4000)) ok=false; continue; } L q=fabsl(x)*c/s; if(q>.5&&q<2) ok=false; if(q>1) rank++; } if(ok) cond=c; }
	if(s==0) cond=1e6;
	if(cond>0){
		M d(n,n); L sr=INFINITY,nx=0; for(int i=0;i<n;i++) if(s>0&&fabsl(w[i])*cond>s){ d(i,i)=1/w[i]; sr=std::min(sr,fabsl(w[i])); } else nx=std::max(nx,fabsl(w[i])); if(sr==INFINITY) sr=1; L kap=s>0?s/sr:1; L ee=2*e*std::max<L>(kap,1)*std::max<L>(1,sr/std::max(sr-nx,sr/4)); M pw=mul(mul(tr(E),d),E);
		if(!dflt||true){ M pi=fromM(se.get_pinv(cond)); VP_CLOSE(maxbad(sub(pi,pw)),ee/sr,K("pinv"),"cond=%Lg A=%s",cond,show(a).c_str());
			V id=fromV(se.get_inv_diag(cond)); int nz=0; for(L x:id) if(x!=0) nz++; VP_CHECK(nz==(s>0?rank:0),K("inv_diag_rank"),"%d non-zero reciprocals, rank %d",nz,rank); }
		if(dflt||s==0){ // backsub uses the default limit
			V b=randv(g,n); roundto<P>(b); T::Vector<Dyn,P> B(n); toV(B,b); V x=fromV(se.backsub(B)),xw=mul(pw,b); VP_CLOSE(maxbad(sub(x,xw)),ee*norm(b)/sr,K("solve_vector"),"A=%s",show(a).c_str());
			int q=g.range(1,3); M bm=randn(g,n,q); roundto<P>(bm); T::Matrix<Dyn,Dyn,P> BM(n,q); put(BM,bm); M xm=fromM(se.backsub(BM)); VP_CHECK(xm.r==n&&xm.c==q,K("solve_msize"),"size"); VP_CLOSE(maxbad(sub(xm,mul(pw,bm))),ee*fro(bm)/sr,K("solve_matrix"),"A=%s",show(a).c_str()); }
	}
	if(w[0]>2*e*s && mn>0){ // positive definite
		M q=fromM(se.get_sqrtm()); VP_CLOSE(maxbad(sub(mul(tr(q),q),a)),4*e*s,K("sqrtm"),"A=%s",show(a).c_str()); VP_CLOSE(maxbad(sub(q,tr(q))),4*e*sqrtl(s),K("sqrtm_symmetric"),"sqrtm");
		L kap=s/mn; L dflc=sqrtl(kap)*2<1e9L; if(dflc){ M r=fromM(se.get_isqrtm()); VP_CLOSE(maxbad(sub(mul(mul(r,a),tr(r)),eye(n))),8*e*kap,K("isqrtm"),"A=%s",show(a).c_str()); VP_CLOSE(maxbad(sub(mul(r,q),eye(n))),8*e*kap,K("isqrtm_inverts_sqrtm"),"A=%s",show(a).c_str()); }
		// inverse square root with a limit that discards part of the spectrum
		for(int t=0;t<6;t++){ L c=powl(10,g.unif(.2,3)); bool ok=true; for(L x:w){ L z=sqrtl(x/s)*c; if(z>.6&&z<1.6) ok=false; } if(!ok) continue; M d(n,n); L sr=INFINITY,nx=0; for(int i=0;i<n;i++) if(sqrtl(w[i])*c>sqrtl(s)){ d(i,i)=1/sqrtl(w[i]); sr=std::min(sr,w[i]); } else nx=std::max(nx,w[i]); if(sr==INFINITY){ sr=s; } M rw=mul(mul(tr(E),d),E); VP_CLOSE(maxbad(sub(fromM(se.get_isqrtm(c)),rw)),8*e*(s/sr)*std::max<L>(1,sr/std::max(sr-nx,sr/4))/sqrtl(sr),K("isqrtm_limited"),"cond=%Lg A=%s",c,show(a).c_str()); break; }
	}
}
template<int N,class P> void one(vp::Rng&g,int n,const std::string&pre){
	int kind; M a=gensym<P>(g,n,kind); vp::describe(vp::fmt("SymEigen N=%d n=%d kind=%d ",N,n,kind)+show(a)); vp::sig(hash(a));
	T::Matrix<N,N,P> A(n,n); put(A,a);
	switch(g.range(0,3)){
		case 0: { T::SymEigen<N,P> s(A); judge<P>(g,a,s,pre); break; }
		case 1: { T::Matrix<N,N,P,T::ColMajor> B(n,n); put(B,a); T::SymEigen<N,P> s(B); judge<P>(g,a,s,pre); break; }
		case 2: { T::Matrix<Dyn,Dyn,P> big(n+2,n+1); for(int i=0;i<n+2;i++) for(int j=0;j<=n;j++) big(i,j)=99; auto v=big.template slice<0,0,N,N>(0,0,n,n); put(v,a); T::SymEigen<N,P> s(v); judge<P>(g,a,s,pre); break; }
		default: { T::SymEigen<N,P> s(n); int k2; M b=gensym<P>(g,n,k2); T::Matrix<N,N,P> B(n,n); put(B,b); s.compute(B); s.compute(A); judge<P>(g,a,s,pre+"recompute_"); }
	}
	VP_CHECK(same(A,a),"sym/input_unchanged","argument modified");
}
VP_UNIT(sym2,1200,24000){ one<2,double>(rng,2,"sym2/"); }
VP_UNIT(sym3,2500,50000){ one<3,double>(rng,3,"sym3/"); }
VP_UNIT(symN,1000,20000){ switch(rng.range(0,3)){ case 0: one<1,double>(rng,1,"symN/"); break; case 1: one<4,double>(rng,4,"symN/"); break; case 2: one<7,double>(rng,7,"symN/"); break; default: one<Dyn,double>(rng,rng.range(1,12),"symN/dyn_"); } }
VP_UNIT(symF,500,8000){ switch(rng.range(0,1)){ case 0: one<4,float>(rng,4,"sym/float_"); break; default: one<Dyn,float>(rng,rng.range(1,7),"sym/float_"); } }
VP_UNIT(sym_large,40,800){ if(rng.chance(.3)) one<20,double>(rng,20,"sym/large_"); else one<Dyn,double>(rng,rng.range(13,70),"sym/large_"); }
template<int N,class P,class Q> void mixedcase(vp::Rng&g,int n){
	M a=dominant(g,n,n,true); vp::describe(vp::fmt("mixed SymEigen N=%d n=%d ",N,n)+show(a)); vp::sig(hash(a));
	T::Matrix<N,N,P> A(n,n); put(A,a); T::SymEigen<N,P> s(A); other_rhs<P,N,Q>(g,s,a,(n==2||n==3?2e4L:400)*epsP<P>(),"sym/mixed/");
}
VP_UNIT(mixed_types,400,8000){ switch(rng.range(0,4)){ case 0: mixedcase<3,double,int>(rng,3); break; case 1: mixedcase<Dyn,double,int>(rng,rng.range(1,6)); break; case 2: mixedcase<2,double,float>(rng,2); break; case 3: mixedcase<Dyn,float,double>(rng,rng.range(4,6)); break; default: mixedcase<4,float,int>(rng,4); } }
// matrices of a size close to what the exponent holds
template<int N,class P> void scaled(vp::Rng&g,int n){
	int kind; M a=gensym<P>(g,n,kind); const int ex=rescale<P>(g,a); for(int i=0;i<n;i++) for(int j=0;j<i;j++) a(i,j)=a(j,i); vp::describe(vp::fmt("scaled SymEigen N=%d n=%d kind=%d 2^%d ",N,n,kind,ex)+show(a)); vp::sig(hash(a));
	const M b=times2(a,-ex); V w; M E; jacobi(b,w,E); const L s=std::max(fabsl(w[0]),fabsl(w[n-1])),e=48*(n+2)*epsP<P>(); const std::string pre="sym/scaled/";
	T::Matrix<N,N,P> A(n,n); put(A,a); T::SymEigen<N,P> se(A); V ev=fromV(se.get_evalues()); M X=fromM(se.get_evectors()),D(n,n); for(int i=0;i<n;i++){ ev[i]=ldexpl(ev[i],-ex); D(i,i)=ev[i]; }
	VP_CLOSE(maxbad(sub(ev,w)),e*s,K("values"),"%s want %s A=%s",show(ev).c_str(),show(w).c_str(),show(a).c_str());
	VP_CLOSE(maxbad(sub(mul(X,tr(X)),eye(n))),e,K("orthonormal"),"vectors %s of A=%s",show(X).c_str(),show(a).c_str());
	VP_CLOSE(maxbad(sub(mul(mul(tr(X),D),X),b)),e*s,K("reconstruct"),"A=%s",show(a).c_str());
}
VP_UNIT(sym_scaled,900,18000){ switch(rng.range(0,5)){ case 0: scaled<2,double>(rng,2); break; case 1: scaled<3,double>(rng,3); break; case 2: scaled<Dyn,double>(rng,rng.range(1,7)); break; case 3: scaled<2,float>(rng,2); break; case 4: scaled<3,float>(rng,3); break; default: scaled<4,float>(rng,4); } }
// one size after a very different one: what an earlier decomposition needed is of no importance
VP_UNIT(sym_sizes,12,240){ one<Dyn,double>(rng,1,"sym/sizes_"); one<Dyn,double>(rng,rng.range(60,80),"sym/sizes_"); one<Dyn,double>(rng,rng.range(2,3),"sym/sizes_"); one<Dyn,double>(rng,rng.range(30,60),"sym/sizes_"); }
