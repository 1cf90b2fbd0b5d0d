// C14: LAPACK SVD.
#include "num.hpp"
#include <TooN/SVD.h>
#define K(s) vp::key(pre+s)
struct Ref { V s; M U,Vt; int k; };
static Ref mkref(const M&a){ Ref r; svd(a,r.s,r.U,r.Vt); r.k=std::min(a.r,a.c); return r; }
static M genm(vp::Rng&g,int r,int c,int&kind,bool fl){
	for(;;){ 
		if(g.chance(.35)){ int k=std::min(r,c); kind=30; V s(k); int rk=g.range(0,k); for(int i=0;i<k;i++) s[i]= i<rk? (g.chance(.3)?1:powl(10,-g.unif()*(fl?2:5))):0; return withsv(g,r,c,s); }   // prescribed rank and repeated values
		M m=structured(g,r,c,kind); if(fl&&(kind==8||kind==9)) continue; if(kind==8&&g.chance(.7)) continue; if(g.chance(.03)){ kind=31; for(auto&x:m.d)x=0; } return m; }
}
// a condition limit that no singular value ratio comes close to; rank gets the number above it
static L pickcond(vp::Rng&g,const V&s,int&rank,L maxc,L eps){
	if(s.size()==0||s[0]==0){ rank=0; return 1e6; }
	for(int t=0;t<50;t++){ L c=powl(10,g.unif(.3,log10(maxc))); bool ok=true; rank=0; for(L x:s){ if(x<=s[0]*eps*200){ if(c>1/(eps*4000)) ok=false; continue; } L q=x*c/s[0]; if(q>.5&&q<2) ok=false; if(q>1) rank++; } if(ok) return c; }
	rank=-1; return 1;
}
static M truncpinv(const Ref&R,int rank){ M v=tr(R.Vt),d(R.k,R.k); for(int i=0;i<rank;i++) d(i,i)=1/R.s[i]; return mul(mul(v,d),tr(R.U)); }
template<int R,int C,class P,class S> void judge(vp::Rng&g,const M&a,S&sv,const std::string&pre){
	int k=std::min(a.r,a.c),m=a.r,n=a.c; L e=48*(m+n)*epsP<P>(); Ref rf=mkref(a); L s0=rf.s[0];
	M U=fromM(sv.get_U()),Vt=fromM(sv.get_VT()); V s=fromV(sv.get_diagonal());
	VP_CHECK(U.r==m&&U.c==k&&Vt.r==k&&Vt.c==n&&(int)s.size()==k,K("sizes"),"U %dx%d VT %dx%d s %d for %dx%d",U.r,U.c,Vt.r,Vt.c,(int)s.size(),m,n);
	VP_CLOSE(maxbad(sub(mul(tr(U),U),eye(k))),e,K("U_orthonormal"),"A=%s",show(a).c_str());
	VP_CLOSE(maxbad(sub(mul(Vt,tr(Vt)),eye(k))),e,K("V_orthonormal"),"A=%s",show(a).c_str());
	M D(k,k); bool ord=true,neg=false; for(int i=0;i<k;i++){ D(i,i)=s[i]; if(!(s[i]>=0)) neg=true; if(i&&!(s[i]<=s[i-1])) ord=false; }
	VP_CHECK(!neg,K("nonnegative"),"%s",show(s).c_str()); VP_CHECK(ord,K("descending"),"%s",show(s).c_str());
	VP_CLOSE(maxbad(sub(mul(mul(U,D),Vt),a)),e*s0,K("reconstruct"),"A=%s",show(a).c_str());
	VP_CLOSE(maxbad(sub(s,rf.s)),e*s0,K("values"),"%s want %s",show(s).c_str(),show(rf.s).c_str());
	L dt=sv.determinant(),w=1,wt=0; for(int i=0;i<k;i++) w*=rf.s[i]; for(int i=0;i<k;i++){ L p=1; for(int j=0;j<k;j++) if(j!=i) p*=rf.s[j]+e*s0; wt+=p; } L hi=1; for(L x:rf.s) hi*=std::max<L>(1,x*1.01L); // any partial product of the singular values is below hi
	if(hi<std::numeric_limits<P>::max()/8) VP_CLOSE(bad(dt-w),wt*e*s0+hi*std::numeric_limits<P>::min(),K("determinant"),"%Lg want %Lg A=%s",dt,w,show(a).c_str());
	int rank; L cond=pickcond(g,rf.s,rank,std::is_same<P,float>::value?1e3L:1e9L,epsP<P>()); if(rank<0){ cond=0.9L; rank=0; }
	bool dflt=false; if(g.chance(.3)&&!std::is_same<P,float>::value){ bool ok=true; int rk=0; for(L x:rf.s) if(s0>0){ if(x<=s0*1e-13L) continue; L q=x*1e9L/s0; if(q>.5&&q<2) ok=false; if(q>1) rk++; } if(ok){ dflt=true; rank=rk; cond=1e9; } }
	int rk=dflt?sv.rank():sv.rank(cond);
	VP_CHECK(rk==rank,K("rank"),"rank(%Lg)=%d want %d for singular values %s",cond,rk,rank,show(rf.s).c_str());
	M pw=truncpinv(rf,rank); L sr=rank>0?rf.s[rank-1]:1, kap=rank>0?s0/sr:1; L gap=rank>0&&rank<k?(rf.s[rank-1]-rf.s[rank]):sr; L ee=2*e*kap*(sr/std::max(gap,sr/4));
	M pi=fromM(dflt?sv.get_pinv():sv.get_pinv(cond)); VP_CHECK(pi.r==n&&pi.c==m,K("pinv_size"),"size");
	VP_CLOSE(maxbad(sub(pi,pw)),ee/sr,K("pinv"),"cond=%Lg rank=%d A=%s",cond,rank,show(a).c_str());
	V b=randv(g,m); if(g.chance(.4)) b=mul(a,randv(g,n)); roundto<P>(b); T::Vector<R,P> B(m); toV(B,b); V x=fromV(dflt?sv.backsub(B):sv.backsub(B,cond)); V xw=mul(pw,b);
	VP_CHECK((int)x.size()==n,K("solve_size"),"size"); VP_CLOSE(maxbad(sub(x,xw)),ee*(norm(xw)+norm(b)/sr),K("solve_vector"),"cond=%Lg rank=%d A=%s",cond,rank,show(a).c_str());
	T::Vector<Dyn,P> Bd(m); toV(Bd,b); x=fromV(sv.backsub(Bd,cond)); VP_CLOSE(maxbad(sub(x,xw)),ee*(norm(xw)+norm(b)/sr),K("solve_vector"),"dynamic rhs");
	int q=g.range(1,4); M bm=randn(g,m,q); roundto<P>(bm); T::Matrix<R,Dyn,P> BM(m,q); put(BM,bm); M xm=fromM(dflt?sv.backsub(BM):sv.backsub(BM,cond)),xmw=mul(pw,bm); VP_CHECK(xm.r==n&&xm.c==q,K("solve_msize"),"size");
	VP_CLOSE(maxbad(sub(xm,xmw)),ee*(fro(xmw)+fro(bm)/sr),K("solve_matrix"),"cond=%Lg rank=%d A=%s",cond,rank,show(a).c_str());
}
template<int R,int C,class P> void one(vp::Rng&g,int r,int c,const std::string&pre){
	int kind; M a=genm(g,r,c,kind,std::is_same<P,float>::value); roundto<P>(a); vp::describe(vp::fmt("SVD R=%d C=%d %dx%d kind=%d ",R,C,r,c,kind)+show(a)); vp::sig(hash(a));
	T::Matrix<R,C,P> A(r,c); put(A,a);
	switch(g.range(0,3)){
		case 0: { T::SVD<R,C,P> s(A); judge<R,C,P>(g,a,s,pre); break; }
		case 1: { T::Matrix<R,C,P,T::ColMajor> B(r,c); put(B,a); T::SVD<R,C,P> s(B); judge<R,C,P>(g,a,s,pre); break; }
		case 2: { T::Matrix<C,R,P> B(c,r); put(B,tr(a)); T::SVD<R,C,P> s(B.T()); judge<R,C,P>(g,a,s,pre); break; }
		default: { T::SVD<R,C,P> s(r,c); int k2; M b=genm(g,r,c,k2,true); T::Matrix<R,C,P> B(r,c); put(B,b); s.compute(B); (void)s.rank(); s.compute(A); judge<R,C,P>(g,a,s,pre+"recompute_"); }
	}
	VP_CHECK(same(A,a),"svd/input_unchanged","argument modified");
}
VP_UNIT(svd_double,1400,25000){ switch(rng.range(0,11)){ case 0: one<1,1,double>(rng,1,1,"svd/"); break; case 1: one<2,2,double>(rng,2,2,"svd/"); break; case 2: one<3,3,double>(rng,3,3,"svd/"); break; case 3: one<5,3,double>(rng,5,3,"svd/tall_"); break; case 4: one<2,6,double>(rng,2,6,"svd/wide_"); break; case 5: one<4,1,double>(rng,4,1,"svd/tall_"); break; case 6: one<1,4,double>(rng,1,4,"svd/wide_"); break; case 7: one<Dyn,3,double>(rng,rng.range(1,7),3,"svd/mixed_"); break; default: one<Dyn,Dyn,double>(rng,rng.range(1,12),rng.range(1,12),"svd/dyn_"); } }
VP_UNIT(svd_large,40,800){ switch(rng.range(0,2)){ case 0: one<16,12,double>(rng,16,12,"svd/large_"); break; default: one<Dyn,Dyn,double>(rng,rng.range(8,48),rng.range(13,48),"svd/large_"); } }
VP_UNIT(svd_float,400,8000){ switch(rng.range(0,3)){ case 0: one<3,3,float>(rng,3,3,"svd/float_"); break; case 1: one<5,2,float>(rng,5,2,"svd/float_"); break; case 2: one<2,5,float>(rng,2,5,"svd/float_"); break; default: one<Dyn,Dyn,float>(rng,rng.range(1,7),rng.range(1,7),"svd/float_"); } }
VP_UNIT(sqsvd,150,3000){ int kind; M a=genm(rng,4,4,kind,false); roundto<double>(a); vp::describe("SQSVD "+show(a)); vp::sig(hash(a)); T::Matrix<4> A; put(A,a); T::SQSVD<4,double> s(A); judge<4,4,double>(rng,a,s,"svd/sq_"); T::Matrix<> B(4,4); put(B,a); T::SQSVD<Dyn,double> d(4); d.compute(B); judge<Dyn,Dyn,double>(rng,a,d,"svd/sq_"); }
template<int R,int C,class P,class Q> void mixedcase(vp::Rng&g,int r,int c){
	M a=dominant(g,r,c,false); vp::describe(vp::fmt("mixed SVD %dx%d ",r,c)+show(a)); vp::sig(hash(a)); const L tol=400*epsP<P>();
	T::Matrix<R,C,P> A(r,c); put(A,a); T::Matrix<R,C,Q> Aq(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) Aq(i,j)=Q(a(i,j));
	T::SVD<R,C,P> s(A); other_rhs<P,R,Q>(g,s,a,tol,"svd/mixed/"); T::SVD<R,C,P> d(Aq); other_rhs<P,R,Q>(g,d,a,tol,"svd/mixed/from_other/"); d.compute(Aq); other_rhs<P,R,Q>(g,d,a,tol,"svd/mixed/from_other/");
}
VP_UNIT(mixed_types,300,6000){ switch(rng.range(0,4)){ case 0: mixedcase<3,3,double,int>(rng,3,3); break; case 1: { int c=rng.range(1,5); mixedcase<Dyn,Dyn,double,int>(rng,c+rng.range(0,3),c); break; } case 2: mixedcase<5,2,double,float>(rng,5,2); break; case 3: mixedcase<Dyn,Dyn,float,double>(rng,4,3); break; default: mixedcase<2,2,float,int>(rng,2,2); } }
// matrices of a size close to what the exponent holds
template<int R,int C,class P> void scaled(vp::Rng&g,int r,int c){
	int kind; M a=genm(g,r,c,kind,true); const int ex=rescale<P>(g,a); vp::describe(vp::fmt("scaled SVD %dx%d kind=%d 2^%d ",r,c,kind,ex)+show(a)); vp::sig(hash(a));
	const M b=times2(a,-ex); Ref rf=mkref(b); const int k=rf.k; const L e=48*(r+c)*epsP<P>(),s0=rf.s[0]; const std::string pre="svd/scaled/";
	T::Matrix<R,C,P> A(r,c); put(A,a); T::SVD<R,C,P> sv(A); M U=fromM(sv.get_U()),Vt=fromM(sv.get_VT()),D(k,k); V s=fromV(sv.get_diagonal()); for(int i=0;i<k;i++){ s[i]=ldexpl(s[i],-ex); D(i,i)=s[i]; }
	VP_CLOSE(maxbad(sub(mul(tr(U),U),eye(k))),e,K("U_orthonormal"),"A=%s",show(a).c_str()); VP_CLOSE(maxbad(sub(mul(Vt,tr(Vt)),eye(k))),e,K("V_orthonormal"),"A=%s",show(a).c_str());
	VP_CLOSE(maxbad(sub(mul(mul(U,D),Vt),b)),e*s0,K("reconstruct"),"A=%s",show(a).c_str()); VP_CLOSE(maxbad(sub(s,rf.s)),e*s0,K("values"),"%s want %s",show(s).c_str(),show(rf.s).c_str());
	int rank; L cond=pickcond(g,rf.s,rank,std::is_same<P,float>::value?1e3L:1e9L,epsP<P>()); if(rank<0||s0==0) return;
	VP_CHECK(sv.rank(cond)==rank,K("rank"),"rank(%Lg)=%d want %d for %s",cond,(int)sv.rank(cond),rank,show(rf.s).c_str());
	M pw=truncpinv(rf,rank); L sr=rank>0?rf.s[rank-1]:1,kap=rank>0?s0/sr:1,gap=rank>0&&rank<k?(rf.s[rank-1]-rf.s[rank]):sr; L ee=2*e*kap*(sr/std::max(gap,sr/4));
	if(kap<1e3L){ M pi=times2(fromM(sv.get_pinv(cond)),ex); VP_CLOSE(maxbad(sub(pi,pw)),ee/sr,K("pinv"),"cond=%Lg rank=%d A=%s",cond,rank,show(a).c_str());
		V y=randv(g,r); roundto<P>(y); T::Vector<R,P> B(r); for(int i=0;i<r;i++) B[i]=P(ldexpl(y[i],ex)); V x=fromV(sv.backsub(B,cond)),xw=mul(pw,y); VP_CLOSE(maxbad(sub(x,xw)),ee*(norm(xw)+norm(y)/sr),K("solve"),"cond=%Lg rank=%d A=%s",cond,rank,show(a).c_str()); }
}
VP_UNIT(svd_scaled,500,10000){ switch(rng.range(0,4)){ case 0: scaled<3,3,double>(rng,3,3); break; case 1: scaled<Dyn,Dyn,double>(rng,rng.range(1,6),rng.range(1,6)); break; case 2: scaled<5,2,double>(rng,5,2); break; case 3: scaled<2,4,float>(rng,2,4); break; default: scaled<3,3,float>(rng,3,3); } }
// one size after a very different one: what an earlier decomposition needed is of no importance
VP_UNIT(svd_sizes,12,240){ one<Dyn,Dyn,double>(rng,1,1,"svd/sizes_"); one<Dyn,Dyn,double>(rng,rng.range(50,64),rng.range(40,64),"svd/sizes_"); one<Dyn,Dyn,double>(rng,rng.range(1,3),rng.range(50,70),"svd/sizes_"); one<Dyn,Dyn,double>(rng,rng.range(50,70),rng.range(1,3),"svd/sizes_"); }
