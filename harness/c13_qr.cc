// C13: Householder QR (built in) and QR_Lapack.
#include "num.hpp"
#include <TooN/QR.h>
#ifdef TOON_USE_LAPACK
#include <TooN/QR_Lapack.h>
#endif
template<class P> void judgeQR(const M&a,const M&q,const M&r,const std::vector<int>*perm,const std::string&pre){
	int k=a.r; L e=32*(k+a.c+2)*epsP<P>(), f=fro(a);
	#define K(s) vp::key(pre+s)
	VP_CHECK(q.r==k&&q.c==k&&r.r==a.r&&r.c==a.c,K("sizes"),"Q %dx%d R %dx%d of %dx%d",q.r,q.c,r.r,r.c,a.r,a.c);
	L low=0; for(int i=0;i<r.r;i++) for(int j=0;j<i&&j<r.c;j++) low=nanmax(low,bad(r(i,j))); VP_CHECK(low==0,K("R_upper"),"below the diagonal: %Lg",low);
	VP_CLOSE(maxbad(sub(mul(tr(q),q),eye(k))),e,K("Q_orthogonal"),"A=%s Q=%s",show(a).c_str(),show(q).c_str());
	M ap=perm?permcols(a,*perm):a; VP_CLOSE(maxbad(sub(mul(q,r),ap)),e*f,K("reconstruct"),"A=%s Q=%s R=%s",show(a).c_str(),show(q).c_str(),show(r).c_str());
}
static M genm(vp::Rng&g,int r,int c,int&kind,bool fl){
	for(;;){ M m=structured(g,r,c,kind); if(kind==8||kind==9){ if(fl) continue; } 
		if(g.chance(.1)){ kind=20; for(int i=0;i<r;i++) m(i,0)=0; m(0,0)=g.chance(.5)?1:-3; }           // first column already reduced
		if(g.chance(.04)){ kind=21; for(auto&x:m.d) x=0; }
		if(g.chance(.05)&&r>1){ kind=22; int j=g.range(0,c-1); for(int i=0;i<r;i++) m(i,j)=i==j?1:1e-9L*g.normal(); }   // nearly axis aligned
		return m; }
}
template<int R,int C,class P> void builtin(vp::Rng&g,int r,int c,const std::string&pre){
	int kind; M a=genm(g,r,c,kind,std::is_same<P,float>::value); roundto<P>(a); if(!std::is_same<P,long double>::value&&g.chance(.15)){ rescale<P>(g,a); kind+=100; } vp::describe(vp::fmt("QR R=%d C=%d %dx%d kind=%d ",R,C,r,c,kind)+show(a)); vp::sig(hash(a));
	T::Matrix<R,C,P> A(r,c); put(A,a);
	if(g.chance(.3)){ T::Matrix<R,C,P,T::ColMajor> B(r,c); put(B,a); T::QR<R,C,P> q(B); judgeQR<P>(a,fromM(q.get_Q()),fromM(q.get_R()),nullptr,pre); }
	else { T::QR<R,C,P> q(A); judgeQR<P>(a,fromM(q.get_Q()),fromM(q.get_R()),nullptr,pre); }
	VP_CHECK(same(A,a),"qr/input_unchanged","argument modified");
}
VP_UNIT(qr_double,1500,30000){ switch(rng.range(0,8)){ case 0: builtin<1,1,double>(rng,1,1,"qr/"); break; case 1: builtin<2,2,double>(rng,2,2,"qr/"); break; case 2: builtin<3,3,double>(rng,3,3,"qr/"); break; case 3: builtin<3,5,double>(rng,3,5,"qr/"); break; case 4: builtin<6,7,double>(rng,6,7,"qr/"); break; case 5: builtin<1,4,double>(rng,1,4,"qr/"); break; default: { int r=rng.range(1,14); builtin<Dyn,Dyn,double>(rng,r,r+rng.range(0,5),"qr/dyn_"); } } }
VP_UNIT(qr_other,600,10000){ switch(rng.range(0,3)){ case 0: builtin<4,4,float>(rng,4,4,"qr/float_"); break; case 1: { int r=rng.range(1,8); builtin<Dyn,Dyn,float>(rng,r,r+rng.range(0,3),"qr/float_"); break; } case 2: builtin<4,6,long double>(rng,4,6,"qr/longdouble_"); break; default: { int r=rng.range(1,8); builtin<Dyn,Dyn,long double>(rng,r,r+rng.range(0,3),"qr/longdouble_"); } } }
VP_UNIT(qr_large,40,800){ if(rng.chance(.3)) builtin<16,20,double>(rng,16,20,"qr/large_"); else { int r=rng.range(15,60); builtin<Dyn,Dyn,double>(rng,r,r+rng.range(0,30),"qr/large_"); } }
#ifdef TOON_USE_LAPACK
template<int R,int C,class P> void lapack(vp::Rng&g,int r,int c,const std::string&pre){
	int kind; M a=genm(g,r,c,kind,std::is_same<P,float>::value); roundto<P>(a); if(!std::is_same<P,long double>::value&&g.chance(.15)){ rescale<P>(g,a); kind+=100; } bool piv=g.chance(.5); vp::describe(vp::fmt("QR_Lapack R=%d C=%d %dx%d kind=%d pivot=%d ",R,C,r,c,kind,(int)piv)+show(a)); vp::sig(hash(a)^piv);
	T::Matrix<R,C,P> A(r,c); put(A,a); T::QR_Lapack<R,C,P> q=!piv&&g.chance(.5)?T::QR_Lapack<R,C,P>(A):T::QR_Lapack<R,C,P>(A,piv); // not to pivot is the default
	V pv=fromV(q.get_P()); std::vector<int> p(c),seen(c,0); bool ok=(int)pv.size()==c; for(int i=0;ok&&i<c;i++){ p[i]=(int)pv[i]; if(p[i]<0||p[i]>=c||seen[p[i]]++) ok=false; }
	VP_CHECK(ok,K("permutation"),"P is not a permutation"); if(!ok) return;
	if(!piv){ bool id=true; for(int i=0;i<c;i++) id=id&&p[i]==i; VP_CHECK(id,K("no_pivot_identity"),"columns moved although pivoting is off"); }
	judgeQR<P>(a,fromM(q.get_Q()),fromM(q.get_R()),&p,pre+(piv?"pivot_":""));
	if(piv){ M R_=fromM(q.get_R()); L wbad=0; L f=fro(a); for(int i=0;i+1<r;i++) wbad=nanmax(wbad,fabsl(R_(i+1,i+1))-fabsl(R_(i,i))); VP_CLOSE(std::max<L>(wbad,0),32*(c+2)*epsP<P>()*f,K("pivot_diagonal_order"),"|R_ii| increases: %s",show(R_).c_str()); }
	VP_CHECK(same(A,a),"qr/input_unchanged","argument modified");
}
VP_UNIT(qrl_double,1200,24000){ switch(rng.range(0,7)){ case 0: lapack<1,1,double>(rng,1,1,"qrl/"); break; case 1: lapack<2,2,double>(rng,2,2,"qrl/"); break; case 2: lapack<3,5,double>(rng,3,5,"qrl/"); break; case 3: lapack<6,6,double>(rng,6,6,"qrl/"); break; default: { int r=rng.range(1,14); lapack<Dyn,Dyn,double>(rng,r,r+rng.range(0,5),"qrl/dyn_"); } } }
VP_UNIT(qrl_large,40,800){ if(rng.chance(.3)) lapack<16,20,double>(rng,16,20,"qrl/large_"); else { int r=rng.range(15,70); lapack<Dyn,Dyn,double>(rng,r,r+rng.range(0,30),"qrl/large_"); } }
VP_UNIT(qrl_float,300,6000){ if(rng.chance(.5)) lapack<4,5,float>(rng,4,5,"qrl/float_"); else { int r=rng.range(1,8); lapack<Dyn,Dyn,float>(rng,r,r+rng.range(0,3),"qrl/float_"); } }
#endif
// one size after a very different one: what an earlier decomposition needed is of no importance
VP_UNIT(qrl_sizes,12,240){ lapack<Dyn,Dyn,double>(rng,1,1,"qrl/sizes_"); int r=rng.range(60,90); lapack<Dyn,Dyn,double>(rng,r,r+rng.range(0,30),"qrl/sizes_"); r=rng.range(1,4); lapack<Dyn,Dyn,double>(rng,r,rng.range(60,120),"qrl/sizes_"); builtin<Dyn,Dyn,double>(rng,1,1,"qr/sizes_"); r=rng.range(40,60); builtin<Dyn,Dyn,double>(rng,r,r+4,"qr/sizes_"); }
