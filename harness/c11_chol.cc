// C11: built-in LDL^T and LAPACK Cholesky.
#include "num.hpp"
#include <TooN/Cholesky.h>
#ifdef TOON_USE_LAPACK
#include <TooN/Lapack_Cholesky.h>
#define HAVE_LAPACK 1
#endif
struct Gen { M a,L_,D; L scale; bool spd; };
// A = L D L^T rounded to P, symmetric; ||L||D||L^T|| is the natural error scale of an unpivoted factorisation
template<class P> Gen genldl(vp::Rng&g,int n,bool spd,int&kind){
	Gen o; o.spd=spd; kind=g.range(0,7); M l=eye(n),d(n,n); bool fl=std::is_same<P,float>::value;
	L s= kind==5? powl(10,g.range(fl?-3:-9,fl?3:9)) : 1;
	for(int i=0;i<n;i++){ for(int j=0;j<i;j++) l(i,j)= kind==1?0 : kind==2?(g.chance(.7)?0:g.normal()) : kind==3? (L)g.range(-2,2) : g.normal()*.7;
		L m= kind==3? powl(2,g.range(-1,1)) : kind==4? powl(10,g.range(fl?-2:-6,0)) : kind==6?1: (L)g.unif(.3,2);
		d(i,i)=s*m*(spd?1:(g.chance(.5)?1:-1)); }
	if(kind==7){ // Gram matrix / dense symmetric
		if(spd){ M b=randn(g,n+g.range(0,3),n); o.a=mul(tr(b),b); for(int i=0;i<n;i++) o.a(i,i)+=.05L; }
		else { o.a=mul(mul(l,d),tr(l)); }
	} else o.a=mul(mul(l,d),tr(l));
	roundto<P>(o.a); for(int i=0;i<n;i++) for(int j=0;j<i;j++) o.a(i,j)=o.a(j,i);
	// factors of the rounded matrix
	l=eye(n); d=M(n,n); for(int c=0;c<n;c++){ L v=o.a(c,c); for(int k=0;k<c;k++) v-=l(c,k)*l(c,k)*d(k,k); d(c,c)=v; for(int r=c+1;r<n;r++){ L w=o.a(r,c); for(int k=0;k<c;k++) w-=l(r,k)*l(c,k)*d(k,k); l(r,c)=w/v; } }
	M al=l,ad=d; for(auto&x:al.d) x=fabsl(x); for(auto&x:ad.d) x=fabsl(x); o.scale=norminf(mul(mul(al,ad),tr(al))); o.L_=l; o.D=d; return o;
}
#define CC 24
template<int N,class P,class Ch> void judge_builtin(vp::Rng&g,const Gen&G,Ch&ch,const std::string&pre){
	int n=G.a.r; L e=CC*(n+2)*epsP<P>();
	#define K(s) vp::key(pre+s)
	M l=fromM(ch.get_unscaled_L()), d=fromM(ch.get_D());
	L up=0; for(int i=0;i<n;i++){ up=nanmax(up,fabsl(l(i,i)-1)); for(int j=i+1;j<n;j++) up=nanmax(up,fabsl(l(i,j))); for(int j=0;j<n;j++) if(i!=j) up=nanmax(up,fabsl(d(i,j))); }
	VP_CHECK(up==0,K("shape"),"L is not unit lower triangular or D not diagonal: %Lg",up);
	VP_CLOSE(maxbad(sub(mul(mul(l,d),tr(l)),G.a)),e*G.scale,K("reconstruct"),"n=%d A=%s",n,show(G.a).c_str());
	VP_CHECK(ch.rank()==n,K("rank_full"),"rank %d of a regular %d matrix",ch.rank(),n);
	if(G.spd){ M ll=fromM(ch.get_L()); L u2=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) u2=nanmax(u2,fabsl(ll(i,j))); VP_CHECK(u2==0,K("get_L_shape"),"upper part of get_L is %Lg",u2);
		VP_CLOSE(maxbad(sub(mul(ll,tr(ll)),G.a)),e*G.scale,K("get_L"),"L L^T"); }
	// solutions
	V b=g.chance(.3)?V(n):randv(g,n); if(maxabs(b)==0) b[g.range(0,n-1)]=1; roundto<P>(b);
	T::Vector<N,P> B(n); toV(B,b); V x=fromV(ch.backsub(B)); VP_CHECK((int)x.size()==n,K("solve_size"),"size");
	L nx=maxbad(x); VP_CLOSE(maxbad(sub(mul(G.a,x),b)),e*(G.scale*nx+maxabs(b)),K("solve_vector"),"A=%s",show(G.a).c_str());
	V bs=b; T::Vector<Dyn,P> Bd(n); toV(Bd,b); V xd=fromV(ch.backsub(Bd)); L diff=maxbad(sub(x,xd)); VP_CHECK(diff==0,K("solve_static_dynamic"),"static and dynamic right-hand side differ by %Lg",diff);
	int k=g.range(1,4); M bm=randn(g,n,k); roundto<P>(bm); T::Matrix<N,Dyn,P> BM(n,k); put(BM,bm); M xm=fromM(ch.backsub(BM)); VP_CHECK(xm.r==n&&xm.c==k,K("solve_msize"),"size");
	VP_CLOSE(maxbad(sub(mul(G.a,xm),bm)),e*(G.scale*maxbad(xm)*k+maxabs(bm)),K("solve_matrix"),"A=%s",show(G.a).c_str());
	M bt(k,n); bt=tr(bm); T::Matrix<Dyn,Dyn,P,T::ColMajor> BC(n,k); put(BC,bm); M xc=fromM(ch.backsub(BC)); VP_CLOSE(maxbad(sub(mul(G.a,xc),bm)),e*(G.scale*maxbad(xc)*k+maxabs(bm)),K("solve_matrix"),"colmajor rhs");
	M iv=fromM(ch.get_inverse()); VP_CLOSE(maxbad(sub(mul(G.a,iv),eye(n))),e*(G.scale*maxbad(iv)*n+1),K("inverse"),"A=%s",show(G.a).c_str());
	L want=1; for(int i=0;i<n;i++) want*=G.D(i,i); L rel=0; for(int i=0;i<n;i++) rel=std::max(rel,G.scale/fabsl(G.D(i,i)));
	L dt=ch.determinant(); VP_CLOSE(bad(dt-want),e*(sumcof(G.a)*G.scale*n+fabsl(want))+0*rel+1e-290L,K("determinant"),"%Lg want %Lg",dt,want);
	// Mahalanobis distance v^T A^-1 v
	L mh=ch.mahalanobis(B); V t=vecM(solve(G.a,colM(b))); L mw=dot(b,t); L nb=0; for(int i=0;i<n;i++) nb+=fabsl(b[i]);
	M ai=inv(G.a); L ni=norminf(ai); VP_CLOSE(bad(mh-mw),e*nb*(maxabs(t)+G.scale*ni*std::max(nx,maxabs(t))),K("mahalanobis"),"%Lg want %Lg",mh,mw);
}
template<int N,class P> void builtin(vp::Rng&g,int n,bool spd,const std::string&pre){
	int kind; Gen G=genldl<P>(g,n,spd,kind);
	vp::describe(vp::fmt("LDL N=%d n=%d spd=%d kind=%d ",N,n,(int)spd,kind)+show(G.a)); vp::sig(hash(G.a));
	T::Matrix<N,N,P> A(n,n); put(A,G.a);
	int how=g.range(0,3);
	if(how==0){ T::Cholesky<N,P> ch(A); judge_builtin<N,P>(g,G,ch,pre); }
	else if(how==1){ T::Matrix<N,N,P,T::ColMajor> Ac(n,n); put(Ac,G.a); T::Cholesky<N,P> ch(Ac); judge_builtin<N,P>(g,G,ch,pre); }
	else { // recomputation: several different matrices through one object
		T::Cholesky<N,P> ch(n);
		int reps=g.range(1,3); for(int r=0;r<reps;r++){ int k2; Gen H=genldl<P>(g,n,g.chance(.5),k2); T::Matrix<N,N,P> B(n,n); if(g.chance(.3)){ for(auto&x:H.a.d) x=0; } put(B,H.a); ch.compute(B); }
		ch.compute(A); judge_builtin<N,P>(g,G,ch,pre+"recompute_");
	}
	VP_CHECK(same(A,G.a),"chol/input_unchanged","argument modified");
}
VP_UNIT(builtin_double,1500,30000){ bool s=rng.chance(.5); std::string p=s?"ldl/spd/":"ldl/indefinite/"; switch(rng.range(0,7)){ case 0: builtin<1,double>(rng,1,s,p); break; case 1: builtin<2,double>(rng,2,s,p); break; case 2: builtin<3,double>(rng,3,s,p); break; case 3: builtin<5,double>(rng,5,s,p); break; case 4: builtin<8,double>(rng,8,s,p); break; default: builtin<Dyn,double>(rng,rng.range(1,16),s,p);} }
VP_UNIT(builtin_other,700,12000){ bool s=rng.chance(.5); switch(rng.range(0,4)){ case 0: builtin<3,float>(rng,3,s,"ldl/float/"); break; case 1: builtin<Dyn,float>(rng,rng.range(1,7),s,"ldl/float/"); break; case 2: builtin<4,long double>(rng,4,s,"ldl/longdouble/"); break; default: builtin<Dyn,long double>(rng,rng.range(1,9),s,"ldl/longdouble/"); } }
VP_UNIT(builtin_large,40,800){ bool s=rng.chance(.5); builtin<Dyn,double>(rng,rng.range(17,48),s,s?"ldl/spd/large/":"ldl/indefinite/large/"); }
// exactly singular leading block in exact arithmetic: rank is the order of the leading regular block
template<int N> void rankcase(vp::Rng&g,int n){
	M l=eye(n),d(n,n); int z=g.range(0,n-1); for(int i=0;i<n;i++){ for(int j=0;j<i;j++) l(i,j)=g.range(-2,2); d(i,i)=(g.chance(.5)?1:2)*(g.chance(.3)?-1:1); } d(z,z)=0; for(int i=z+1;i<n;i++) if(g.chance(.3)) d(i,i)=0;
	M a=mul(mul(l,d),tr(l)); vp::describe(vp::fmt("rank N=%d n=%d zero pivot at %d ",N,n,z)+show(a)); vp::sig(hash(a));
	T::Matrix<N,N> A(n,n); put(A,a); T::Cholesky<N> ch(A); VP_CHECK(ch.rank()==z,"ldl/rank_deficient","rank %d, first zero pivot is at %d: %s",ch.rank(),z,show(a).c_str());
	T::Matrix<N,N> I(n,n); I=T::Identity; ch.compute(I); VP_CHECK(ch.rank()==n,"ldl/rank_recompute","rank %d after recomputing with the identity",ch.rank());
	V b=randv(g,n); roundto<double>(b); T::Vector<N> B(n); toV(B,b); V x=fromV(ch.backsub(B)); VP_CHECK(maxbad(sub(x,b))==0,"ldl/rank_recompute","identity solve");
}
VP_UNIT(builtin_rank,400,8000){ switch(rng.range(0,3)){ case 0: rankcase<2>(rng,2); break; case 1: rankcase<4>(rng,4); break; default: rankcase<Dyn>(rng,rng.range(1,8)); } }

#ifdef HAVE_LAPACK
template<int N,class P,class Ch> void judge_lapack(vp::Rng&g,const Gen&G,Ch&ch,const std::string&pre){
	int n=G.a.r; L e=CC*(n+2)*epsP<P>();
	M l=fromM(ch.get_L()); L up=0; for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) up=nanmax(up,fabsl(l(i,j))); VP_CHECK(up==0,K("shape"),"upper part %Lg",up);
	VP_CLOSE(maxbad(sub(mul(l,tr(l)),G.a)),e*G.scale,K("reconstruct"),"A=%s",show(G.a).c_str());
	VP_CHECK(ch.rank()==n,K("rank_full"),"rank %d of %d",ch.rank(),n);
	V b=randv(g,n); roundto<P>(b); T::Vector<N,P> B(n); toV(B,b); V x=fromV(ch.backsub(B)); L nx=maxbad(x);
	VP_CLOSE(maxbad(sub(mul(G.a,x),b)),e*(G.scale*nx+maxabs(b)),K("solve_vector"),"A=%s",show(G.a).c_str());
	VP_CHECK(samev(B,b),K("rhs_unchanged"),"right-hand side modified");
	int k=g.range(1,4); M bm=randn(g,n,k); roundto<P>(bm); T::Matrix<N,Dyn,P> BM(n,k); put(BM,bm); M xm=fromM(ch.backsub(BM)); VP_CHECK(xm.r==n&&xm.c==k,K("solve_msize"),"size");
	VP_CLOSE(maxbad(sub(mul(G.a,xm),bm)),e*(G.scale*maxbad(xm)*k+maxabs(bm)),K("solve_matrix"),"A=%s",show(G.a).c_str());
	T::Matrix<N,3,P,T::ColMajor> B3(n,3); M b3=randn(g,n,3); roundto<P>(b3); put(B3,b3); xm=fromM(ch.backsub(B3)); VP_CLOSE(maxbad(sub(mul(G.a,xm),b3)),e*(G.scale*maxbad(xm)*3+maxabs(b3)),K("solve_matrix"),"static columns");
	M iv=fromM(ch.get_inverse()); VP_CLOSE(maxbad(sub(mul(G.a,iv),eye(n))),e*(G.scale*maxbad(iv)*n+1)+0,K("inverse"),"A=%s",show(G.a).c_str());
	L want=1; for(int i=0;i<n;i++) want*=G.D(i,i); L rel=0; for(int i=0;i<n;i++) rel=std::max(rel,G.scale/fabsl(G.D(i,i)));
	L dt=ch.determinant(); VP_CLOSE(bad(dt-want),e*(sumcof(G.a)*G.scale*n+fabsl(want))+0*rel+1e-290L,K("determinant"),"%Lg want %Lg",dt,want);
	L mh=ch.mahalanobis(B); V t=vecM(solve(G.a,colM(b))); L mw=dot(b,t); L nb=0; for(int i=0;i<n;i++) nb+=fabsl(b[i]); M ai=inv(G.a); L ni=norminf(ai);
	VP_CLOSE(bad(mh-mw),e*nb*(maxabs(t)+G.scale*ni*std::max(nx,maxabs(t))),K("mahalanobis"),"%Lg want %Lg",mh,mw);
}
template<int N,class P> void lap(vp::Rng&g,int n,const std::string&pre){
	int kind; Gen G=genldl<P>(g,n,true,kind); for(int t=0;t<30&&G.scale*norminf(inv(G.a))*n*epsP<P>()>.01L;t++) G=genldl<P>(g,n,true,kind); // positive definite also after rounding errors
	vp::describe(vp::fmt("LAPACK chol N=%d n=%d kind=%d ",N,n,kind)+show(G.a)); vp::sig(hash(G.a));
	T::Matrix<N,N,P> A(n,n); put(A,G.a);
	if(g.chance(.5)){ T::Lapack_Cholesky<N,P> ch(A); judge_lapack<N,P>(g,G,ch,pre); }
	else { T::Lapack_Cholesky<N,P> ch(n); for(int r=g.range(0,2);r>0;r--){ int k2; Gen H=genldl<P>(g,n,g.chance(.5),k2); T::Matrix<N,N,P> Bm(n,n); put(Bm,H.a); ch.compute(Bm); }
		ch.compute(A); judge_lapack<N,P>(g,G,ch,pre+"recompute_"); }
	VP_CHECK(same(A,G.a),"chol/input_unchanged","argument modified");
	// indefinite with a clearly negative k-th pivot
	Gen H=genldl<P>(g,n,true,kind); for(int t=0;t<30&&H.scale*norminf(inv(H.a))*n*epsP<P>()>.01L;t++) H=genldl<P>(g,n,true,kind);
	int z=g.range(0,n-1); M d=H.D; d(z,z)=-d(z,z); M a=mul(mul(H.L_,d),tr(H.L_)); roundto<P>(a); for(int i=0;i<n;i++) for(int j=0;j<i;j++) a(i,j)=a(j,i);
	L mind=INFINITY; for(int i=0;i<n;i++) mind=std::min(mind,fabsl(d(i,i)));
	if(mind>1000*epsP<P>()*H.scale*n){ put(A,a); T::Lapack_Cholesky<N,P> c2(A); VP_CHECK(c2.rank()==z,K("rank_indefinite"),"rank %d, first negative pivot at %d, A=%s",c2.rank(),z,show(a).c_str()); }
}
VP_UNIT(lapack_double,900,18000){ switch(rng.range(0,6)){ case 0: lap<1,double>(rng,1,"lapack/"); break; case 1: lap<2,double>(rng,2,"lapack/"); break; case 2: lap<3,double>(rng,3,"lapack/"); break; case 3: lap<6,double>(rng,6,"lapack/"); break; default: lap<Dyn,double>(rng,rng.range(1,16),"lapack/"); } }
VP_UNIT(lapack_large,30,600){ if(rng.chance(.3)) lap<20,double>(rng,20,"lapack/large/"); else lap<Dyn,double>(rng,rng.range(17,80),"lapack/large/"); }
VP_UNIT(lapack_float,300,6000){ if(rng.chance(.5)) lap<4,float>(rng,4,"lapack/float/"); else lap<Dyn,float>(rng,rng.range(1,7),"lapack/float/"); }
#endif
template<int N,class P,class Q> void mixedcase(vp::Rng&g,int n){
	M a=dominant(g,n,n,true); vp::describe(vp::fmt("mixed LDL N=%d n=%d ",N,n)+show(a)); vp::sig(hash(a)); const L tol=200*epsP<P>();
	T::Matrix<N,N,P> A(n,n); put(A,a); T::Matrix<N,N,Q> Aq(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) Aq(i,j)=Q(a(i,j));
	V b(n); for(L&x:b) x=g.range(-9,9); T::Vector<N,Q> B(n); for(int i=0;i<n;i++) B[i]=Q(b[i]); L mw=dot(b,vecM(solve(a,colM(b))));
	auto all=[&](auto&ch,const char*pre){ other_rhs<P,N,Q>(g,ch,a,tol,pre); VP_CLOSE(bad(ch.mahalanobis(B)-mw),tol*(1+fabsl(mw))*n,vp::key(std::string(pre)+"other_type_mahalanobis"),"A=%s b=%s",show(a).c_str(),show(b).c_str()); };
	{ T::Cholesky<N,P> c(A); all(c,"ldl/mixed/"); T::Cholesky<N,P> d(Aq); all(d,"ldl/mixed/from_other/"); d.compute(Aq); all(d,"ldl/mixed/from_other/"); }
#ifdef HAVE_LAPACK
	{ T::Lapack_Cholesky<N,P> c(A); all(c,"lapack/mixed/"); T::Lapack_Cholesky<N,P> d(Aq); all(d,"lapack/mixed/from_other/"); d.compute(Aq); all(d,"lapack/mixed/from_other/"); }
#endif
}
VP_UNIT(mixed_types,400,8000){ switch(rng.range(0,4)){ case 0: mixedcase<3,double,int>(rng,3); break; case 1: mixedcase<Dyn,double,int>(rng,rng.range(1,7)); break; case 2: mixedcase<4,double,float>(rng,4); break; case 3: mixedcase<Dyn,float,double>(rng,rng.range(1,6)); break; default: mixedcase<2,float,int>(rng,2); } }
// matrices of a size close to what the exponent holds
template<class P,class Ch> void scaledjudge(vp::Rng&g,const M&a,Ch&ch,L e,L cond,const std::string&pre){
	const int n=a.r; V b=mul(a,randv(g,n)); roundto<P>(b); T::Vector<Dyn,P> B(n); toV(B,b); V x=fromV(ch.backsub(B)); VP_CLOSE(maxbad(sub(mul(a,x),b)),e*(norminf(a)*maxbad(x)+maxabs(b)),K("solve"),"A=%s",show(a).c_str());
	VP_CHECK(ch.rank()==n,K("rank"),"rank %d of %d, A=%s",(int)ch.rank(),n,show(a).c_str());
	M iv=fromM(ch.get_inverse()); VP_CLOSE(maxbad(sub(mul(iv,a),eye(n))),e*n*cond,K("inverse"),"A=%s",show(a).c_str());
}
template<int N,class P> void scaledcase(vp::Rng&g,int n){
	M b=randn(g,n,n+1),a=mul(b,tr(b)); for(int i=0;i<n;i++) a(i,i)+=.5L; roundto<P>(a); for(int i=0;i<n;i++) for(int j=0;j<i;j++) a(i,j)=a(j,i); const int h=std::is_same<P,float>::value?60:800,ex=g.range(-h,h); a=times2(a,ex);
	vp::describe(vp::fmt("scaled Cholesky N=%d n=%d 2^%d ",N,n,ex)+show(a)); vp::sig(hash(a)); const L cond=norminf(a)*norminf(inv(a)),e=64*(n+2)*epsP<P>(); T::Matrix<N,N,P> A(n,n); put(A,a);
	{ T::Cholesky<N,P> c(A); scaledjudge<P>(g,a,c,e,cond,"ldl/scaled/"); }
#ifdef HAVE_LAPACK
	{ T::Lapack_Cholesky<N,P> c(A); scaledjudge<P>(g,a,c,e,cond,"lapack/scaled/"); }
#endif
}
VP_UNIT(scaled,500,10000){ switch(rng.range(0,3)){ case 0: scaledcase<3,double>(rng,3); break; case 1: scaledcase<Dyn,double>(rng,rng.range(1,8)); break; case 2: scaledcase<2,float>(rng,2); break; default: scaledcase<4,float>(rng,4); } }
