// C15: built-in Golub-Reinsch SVD.
#include "num.hpp"
#include <TooN/GR_SVD.h>
#define K(s) vp::key(pre+s)
static M genm(vp::Rng&g,int r,int c,int&kind,bool fl){
	for(;;){ 
		if(g.chance(.35)){ int k=std::min(r,c); kind=30; V s(k); int rk=g.range(0,k); for(int i=0;i<k;i++) s[i]= i<rk? (g.chance(.4)?1:powl(10,-g.unif()*(fl?2:5))):0; return withsv(g,r,c,s); }
		M m=structured(g,r,c,kind); if(fl&&(kind==8||kind==9)) continue; if(kind==8&&g.chance(.7)) continue; if(g.chance(.04)){ kind=31; for(auto&x:m.d)x=0; }
		if(g.chance(.06)){ kind=32; for(auto&x:m.d) x=1; } if(g.chance(.06)){ kind=33; m=M(r,c); for(int i=0;i<std::min(r,c);i++){ m(i,i)=1; if(i+1<c) m(i,i+1)=g.range(0,1); } }
		if(g.chance(.05)){ kind=34; m=M(r,c); for(int i=0;i+1<c&&i<r;i++) m(i,i+1)=1; } // shift
		return m; }
}
static L pickcond(vp::Rng&g,const V&s,int&rank,L maxc,L eps){
	if(s.size()==0||s[0]==0){ rank=0; return 1e6; }
	for(int t=0;t<50;t++){ L c=powl(10,g.unif(.3,log10(maxc))); bool ok=true; rank=0; for(L x:s){ if(x<=s[0]*eps*200){ if(c>1/(eps*4000)) ok=false; continue; } L q=x*c/s[0]; if(q>.5&&q<2) ok=false; if(q>1) rank++; } if(ok) return c; }
	rank=-1; return 1;
}
template<int R,int C,class P,class S> void judge(vp::Rng&g,const M&a,S&sv,const std::string&pre,bool reordered){
	const int m=R,n=C,k=std::min(m,n); L e=48*(m+n)*epsP<P>(); V s; M ru,rv; svd(a,s,ru,rv); L s0=s[0];
	M U=fromM(sv.get_U()),Vm=fromM(sv.get_V()); V d=fromV(sv.get_diagonal());
	if(m>=n) VP_CLOSE(maxbad(sub(mul(tr(U),U),eye(n))),e,K("U_orthonormal"),"A=%s",show(a).c_str());
	VP_CLOSE(maxbad(sub(mul(tr(Vm),Vm),eye(n))),e,K("V_orthonormal"),"A=%s",show(a).c_str());
	M D(n,n); bool neg=false,ord=true; for(int i=0;i<n;i++){ D(i,i)=d[i]; if(!(d[i]>=0)) neg=true; if(i&&!(d[i]<=d[i-1])) ord=false; }
	VP_CHECK(!neg,K("nonnegative"),"%s A=%s",show(d).c_str(),show(a).c_str());
	if(reordered) VP_CHECK(ord,K("descending"),"%s",show(d).c_str());
	VP_CLOSE(maxbad(sub(mul(mul(U,D),tr(Vm)),a)),e*s0,K("reconstruct"),"A=%s",show(a).c_str());
	V ds=d; std::sort(ds.begin(),ds.end(),[](L x,L y){return x>y;}); L ve=0; for(int i=0;i<n;i++) ve=std::max(ve,bad(ds[i]-(i<k?s[i]:0))); VP_CLOSE(ve,e*s0,K("values"),"%s want %s",show(ds).c_str(),show(s).c_str());
	VP_CHECK((L)sv.get_largest_singular_value()==ds[0],K("largest"),"%Lg want %Lg",(L)sv.get_largest_singular_value(),ds[0]);
	VP_CHECK((L)sv.get_smallest_singular_value()==ds[n-1],K("smallest"),"smallest");
	int ix=sv.get_smallest_singular_value_index(); VP_CHECK(ix>=0&&ix<n&&d[ix]==ds[n-1],K("smallest_index"),"index %d of %s",ix,show(d).c_str());
	if(m<n) return;
	int rank; L cond=pickcond(g,s,rank,std::is_same<P,float>::value?1e3L:1e9L,epsP<P>()); if(rank<0) return;
	L sr=rank>0?s[rank-1]:1,kap=rank>0?s0/sr:1; L gap=rank>0&&rank<k?(s[rank-1]-s[rank]):sr; L ee=2*e*kap*(sr/std::max(gap,sr/4));
	M dd(k,k); for(int i=0;i<rank;i++) dd(i,i)=1/s[i]; M pw=mul(mul(tr(rv),dd),tr(ru));
	M pi=fromM(sv.get_pinv(cond)); VP_CLOSE(maxbad(sub(pi,pw)),ee/sr,K("pinv"),"cond=%Lg rank=%d A=%s",cond,rank,show(a).c_str());
	T::Vector<C,P> id; sv.get_inv_diag(id,cond); int nz=0; for(int i=0;i<n;i++) if(id[i]!=0) nz++; VP_CHECK(nz==rank,K("inv_diag_rank"),"%d non-zero reciprocals, rank %d",nz,rank);
	V b=randv(g,m); if(g.chance(.4)) b=mul(a,randv(g,n)); roundto<P>(b); T::Vector<R,P> B(m); toV(B,b); V x=fromV(sv.backsub(B,cond)),xw=mul(pw,b); VP_CLOSE(maxbad(sub(x,xw)),ee*(norm(xw)+norm(b)/sr),K("solve_vector"),"cond=%Lg rank=%d A=%s",cond,rank,show(a).c_str());
	int q=g.range(1,4); M bm=randn(g,m,q); roundto<P>(bm); T::Matrix<R,Dyn,P> BM(m,q); put(BM,bm); M xm=fromM(sv.backsub(BM,cond)),xmw=mul(pw,bm); VP_CLOSE(maxbad(sub(xm,xmw)),ee*(fro(xmw)+fro(bm)/sr),K("solve_matrix"),"cond=%Lg rank=%d A=%s",cond,rank,show(a).c_str());
}
template<int R,int C,class P> void one(vp::Rng&g,const std::string&pre){
	int kind; M a=genm(g,R,C,kind,std::is_same<P,float>::value); roundto<P>(a); vp::describe(vp::fmt("GR_SVD %dx%d kind=%d ",R,C,kind)+show(a)); vp::sig(hash(a));
	T::Matrix<R,C,P> A; put(A,a);
	T::GR_SVD<R,C,P> s(A); judge<R,C,P>(g,a,s,pre,false); V d0=fromV(s.get_diagonal()); s.reorder(); judge<R,C,P>(g,a,s,pre+"reordered_",true);
	V d1=fromV(s.get_diagonal()); std::sort(d0.begin(),d0.end()); std::sort(d1.begin(),d1.end()); VP_CHECK(d0==d1,K("reorder_same_values"),"reorder changed the values");
	// without accumulation the singular values are the same numbers
	T::GR_SVD<R,C,P,false,true> s1(A); T::GR_SVD<R,C,P,true,false> s2(A); T::GR_SVD<R,C,P,false,false> s3(A);
	L e=48*(R+C)*epsP<P>()*maxabs(d1); s1.reorder(); s2.reorder(); s3.reorder(); V r=fromV(s.get_diagonal());
	VP_CLOSE(maxbad(sub(fromV(s1.get_diagonal()),r)),e,K("no_U_values"),"values differ without U"); VP_CLOSE(maxbad(sub(fromV(s2.get_diagonal()),r)),e,K("no_V_values"),"values differ without V"); VP_CLOSE(maxbad(sub(fromV(s3.get_diagonal()),r)),e,K("no_UV_values"),"values differ without U and V");
	M V1=fromM(s1.get_V()),V0=fromM(s.get_V()); VP_CLOSE(maxbad(sub(mul(tr(V1),V1),eye(C))),48*(R+C)*epsP<P>(),K("no_U_V_orthonormal"),"V without U");
	{ M D(C,C); V dd=fromV(s1.get_diagonal()); for(int i=0;i<C;i++) D(i,i)=dd[i]*dd[i]; L sc=maxabs(d1)*maxabs(d1); VP_CLOSE(maxbad(sub(mul(mul(V1,D),tr(V1)),mul(tr(a),a))),96*(R+C)*epsP<P>()*sc,K("no_U_gram"),"V D^2 V^T is not A^T A"); }
	{ M U2=fromM(s2.get_U()); M D(C,C); V dd=fromV(s2.get_diagonal()); for(int i=0;i<C;i++) D(i,i)=dd[i]*dd[i]; L sc=maxabs(d1)*maxabs(d1); VP_CLOSE(maxbad(sub(mul(mul(U2,D),tr(U2)),mul(a,tr(a)))),96*(R+C)*epsP<P>()*sc,K("no_V_gram"),"U D^2 U^T is not A A^T"); }
	int thrown=0; try{ s1.get_U(); }catch(int){ thrown++; } try{ s2.get_V(); }catch(int){ thrown++; } VP_CHECK(thrown==2,K("missing_factor_refused"),"factor that was not computed is handed out");
	VP_CHECK(same(A,a),"grsvd/input_unchanged","argument modified");
}
VP_UNIT(gr_square,900,18000){ switch(rng.range(0,5)){ case 0: one<1,1,double>(rng,"gr/"); break; case 1: one<2,2,double>(rng,"gr/"); break; case 2: one<3,3,double>(rng,"gr/"); break; case 3: one<5,5,double>(rng,"gr/"); break; case 4: one<9,9,double>(rng,"gr/"); break; default: one<4,4,double>(rng,"gr/"); } }
VP_UNIT(gr_tall,700,14000){ switch(rng.range(0,4)){ case 0: one<2,1,double>(rng,"gr/tall_"); break; case 1: one<4,3,double>(rng,"gr/tall_"); break; case 2: one<7,3,double>(rng,"gr/tall_"); break; case 3: one<12,6,double>(rng,"gr/tall_"); break; default: one<6,5,double>(rng,"gr/tall_"); } }
VP_UNIT(gr_large,40,800){ switch(rng.range(0,2)){ case 0: one<20,20,double>(rng,"gr/large_"); break; case 1: one<40,30,double>(rng,"gr/large_"); break; default: one<33,5,double>(rng,"gr/large_"); } }
VP_UNIT(gr_float,400,8000){ switch(rng.range(0,2)){ case 0: one<3,3,float>(rng,"gr/float_"); break; case 1: one<5,3,float>(rng,"gr/float_"); break; default: one<2,2,float>(rng,"gr/float_"); } }
// the documentation also admits fewer rows than columns: N singular values, the extra ones zero
VP_UNIT(gr_wide,300,6000){ int kind; std::string pre="gr/wide_"; 
	auto f=[&](auto r_,auto c_){ constexpr int R=decltype(r_)::value,C=decltype(c_)::value; M a=genm(rng,R,C,kind,false); roundto<double>(a); vp::describe(vp::fmt("GR_SVD %dx%d kind=%d ",R,C,kind)+show(a)); vp::sig(hash(a)); T::Matrix<R,C> A; put(A,a); T::GR_SVD<R,C> s(A); judge<R,C,double>(rng,a,s,pre,false); s.reorder(); judge<R,C,double>(rng,a,s,pre+"reordered_",true); };
	switch(rng.range(0,3)){ case 0: f(std::integral_constant<int,1>(),std::integral_constant<int,2>()); break; case 1: f(std::integral_constant<int,2>(),std::integral_constant<int,3>()); break; case 2: f(std::integral_constant<int,3>(),std::integral_constant<int,5>()); break; default: f(std::integral_constant<int,3>(),std::integral_constant<int,8>()); } }
template<int R,int C,class P,class Q> void mixedcase(vp::Rng&g){
	M a=dominant(g,R,C,false); vp::describe(vp::fmt("mixed GR_SVD %dx%d ",R,C)+show(a)); vp::sig(hash(a)); const L tol=400*epsP<P>();
	T::Matrix<R,C,P> A; put(A,a); T::GR_SVD<R,C,P> s(A); other_rhs<P,R,Q>(g,s,a,tol,"gr/mixed/"); s.reorder(); other_rhs<P,R,Q>(g,s,a,tol,"gr/mixed/reordered/");
}
VP_UNIT(mixed_types,300,6000){ switch(rng.range(0,3)){ case 0: mixedcase<3,3,double,int>(rng); break; case 1: mixedcase<5,2,double,float>(rng); break; case 2: mixedcase<4,3,float,double>(rng); break; default: mixedcase<2,2,float,int>(rng); } }
// matrices scaled by a power of two, close to what the exponent holds: the factors are still those of the matrix
template<int R,int C,class P> void scaled(vp::Rng&g,const std::string&pre){
	int kind; M a=genm(g,R,C,kind,true); const int ex=rescale<P>(g,a);
	vp::describe(vp::fmt("scaled GR_SVD %dx%d kind=%d 2^%d ",R,C,kind,ex)+show(a)); vp::sig(hash(a)); T::Matrix<R,C,P> A(R,C); put(A,a);
	const int n=C; const L e=48*(R+C)*epsP<P>(); V s; M ru,rv; { M b=a; for(L&x:b.d) x=ldexpl(x,-ex); svd(b,s,ru,rv); } const L s0=ldexpl(s[0],ex);
	T::GR_SVD<R,C,P> sv(A); if(g.chance(.3)) sv.reorder();
	M U=fromM(sv.get_U()),W=fromM(sv.get_V()); V d=fromV(sv.get_diagonal()); M D(n,n); bool neg=false; for(int i=0;i<n;i++){ D(i,i)=d[i]; if(!(d[i]>=0)) neg=true; }
	VP_CLOSE(maxbad(sub(mul(tr(U),U),eye(n))),e,K("U_orthonormal"),"A=%s",show(a).c_str()); VP_CLOSE(maxbad(sub(mul(tr(W),W),eye(n))),e,K("V_orthonormal"),"A=%s",show(a).c_str());
	VP_CHECK(!neg,K("nonnegative"),"%s A=%s",show(d).c_str(),show(a).c_str()); VP_CLOSE(maxbad(sub(mul(mul(U,D),tr(W)),a)),e*s0,K("reconstruct"),"A=%s",show(a).c_str());
	std::sort(d.begin(),d.end(),[](L x,L y){return x>y;}); L ve=0; for(int i=0;i<n;i++) ve=std::max(ve,bad(d[i]-ldexpl(s[i],ex))); VP_CLOSE(ve,e*s0,K("values"),"%s",show(d).c_str());
}
VP_UNIT(gr_scaled,800,16000){ switch(rng.range(0,7)){ case 0: scaled<3,3,double>(rng,"gr/scaled/"); break; case 1: scaled<6,4,double>(rng,"gr/scaled/"); break; case 2: scaled<2,2,double>(rng,"gr/scaled/"); break; case 3: scaled<9,9,double>(rng,"gr/scaled/"); break; case 4: scaled<3,3,float>(rng,"gr/scaled/float_"); break; case 5: scaled<5,3,float>(rng,"gr/scaled/float_"); break; case 6: scaled<5,1,double>(rng,"gr/scaled/"); break; default: scaled<2,2,float>(rng,"gr/scaled/float_"); } }
// nearly rank-deficient single precision matrices
template<int R,int C> void nearly(vp::Rng&g){
	M a(R,C); for(int k=g.range(1,2);k>0;k--){ V x=randv(g,R),y=randv(g,C); for(int i=0;i<R;i++) for(int j=0;j<C;j++) a(i,j)+=x[i]*y[j]; } const L ex=powl(10,-g.unif(3,8)); for(L&x:a.d) x+=ex*g.normal(); roundto<float>(a);
	vp::describe(vp::fmt("nearly rank-deficient GR_SVD %dx%d ",R,C)+show(a)); vp::sig(hash(a)); T::Matrix<R,C,float> A; put(A,a); T::GR_SVD<R,C,float> sv(A); const L e=48*(R+C)*epsP<float>();
	M U=fromM(sv.get_U()),W=fromM(sv.get_V()),D(C,C); V d=fromV(sv.get_diagonal()); for(int i=0;i<C;i++) D(i,i)=d[i]; const std::string pre="gr/nearly_deficient_";
	VP_CLOSE(maxbad(sub(mul(tr(U),U),eye(C))),e,K("U_orthonormal"),"A=%s",show(a).c_str()); VP_CLOSE(maxbad(sub(mul(tr(W),W),eye(C))),e,K("V_orthonormal"),"A=%s",show(a).c_str()); VP_CLOSE(maxbad(sub(mul(mul(U,D),tr(W)),a)),e*fro(a),K("reconstruct"),"A=%s",show(a).c_str());
}
VP_UNIT(gr_nearly,1500,30000){ switch(rng.range(0,2)){ case 0: nearly<5,3>(rng); break; case 1: nearly<4,4>(rng); break; default: nearly<7,5>(rng); } }
