// C26: operations on elements of different types have the type and the value of the same operation on two scalars.
#include "vp.hpp"
#include "num.hpp"
#include <TooN/TooN.h>
#include <TooN/Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/QR.h>
#include <TooN/SymEigen.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/internal/planar_complex.hh>
#include <complex>
#ifndef VP1
#define VP1 double
#endif
typedef long double LD; typedef std::complex<float> CF; typedef std::complex<double> CD; typedef std::complex<long double> CL; typedef unsigned U; typedef short S16; typedef signed char S8;
template<class X> struct nm; 
#define NM(t,s) template<> struct nm<t>{ static const char*n(){ return s; } }
NM(S8,"char"); NM(S16,"short"); NM(int,"int"); NM(U,"unsigned"); NM(long,"long"); NM(float,"float"); NM(double,"double"); NM(LD,"longdouble"); NM(CF,"cfloat"); NM(CD,"cdouble"); NM(CL,"clongdouble");
template<class X> struct cx { static const bool v=false; typedef X R; }; template<class X> struct cx<std::complex<X>> { static const bool v=true; typedef X R; };
template<class X> X val(vp::Rng&g){ if constexpr(cx<X>::v){ auto a=val<typename cx<X>::R>(g),b=val<typename cx<X>::R>(g); return X(a,b); }
	else if constexpr(std::is_same<X,S8>::value) return (X)g.range(-100,100); else if constexpr(std::is_same<X,U>::value) return (X)g.range(0,10000); else if constexpr(std::is_integral<X>::value) return (X)g.range(-10000,10000);
	else switch(g.range(0,4)){ case 0: return (X)g.range(-9,9); case 1: return (X)(g.range(-30000,30000)/X(3)); default: return (X)g.normal()/3; } }
template<class X> X nz(vp::Rng&g){ X x; do x=val<X>(g); while(x==X(0)); return x; }
// the real numbers used in error bounds
template<class X> L mag(const X&x){ if constexpr(cx<X>::v) return std::abs(std::complex<L>(x.real(),x.imag())); else return fabsl((L)x); }
template<class X> bool same(const X&a,const X&b){ if constexpr(cx<X>::v) return same(a.real(),b.real())&&same(a.imag(),b.imag()); else return a==b||(a!=a&&b!=b); }
template<class X> L epsx(){ typedef typename cx<X>::R R; return std::is_floating_point<R>::value?(L)std::numeric_limits<R>::epsilon():0; }
template<class X> L dist(const X&a,const X&b){ if constexpr(cx<X>::v) return std::abs(std::complex<L>((L)a.real()-(L)b.real(),(L)a.imag()-(L)b.imag())); else return a>b?(L)(a-b):(L)(b-a); }
template<class X> std::string str(const X&x){ std::ostringstream o; o.precision(20); if constexpr(std::is_same<X,S8>::value) o<<(int)x; else o<<x; return o.str(); }
template<class V> struct elem { typedef typename std::decay<decltype(std::declval<const V&>()[0])>::type type; };
template<int R,int C,class P,class B> struct elem<T::Matrix<R,C,P,B>> { typedef typename std::remove_const<P>::type type; };
template<int N,class P,class B> struct elem<T::DiagonalMatrix<N,P,B>> { typedef typename std::remove_const<P>::type type; };
#define TYPE(X,label) do{ typedef typename elem<typename std::decay<X>::type>::type got_; constexpr bool t_=std::is_same<got_,RT>::value; VP_CHECK(t_,vp::key(pre+label "_type"),"%s: result element type is not the type of the scalar operation",tt.c_str()); }while(0)
#define EL(i,j,got,want,label) do{ const auto g_=(got); const RT w_=(want); VP_CHECK(same<RT>(g_,w_),vp::key(pre+label),"%s element %d,%d: %s, the scalar operation gives %s",tt.c_str(),i,j,str(g_).c_str(),str(w_).c_str()); }while(0)
template<class P,int N> T::Vector<N,P> mkv(vp::Rng&g,int n,bool nzero=false){ T::Vector<N,P> v(n); for(int i=0;i<n;i++) v[i]=nzero?nz<P>(g):val<P>(g); return v; }
template<class P,int R,int C,class B=T::RowMajor> T::Matrix<R,C,P,B> mkm(vp::Rng&g,int r,int c){ T::Matrix<R,C,P,B> m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=val<P>(g); return m; }
// sum of products in the result type: exact for integers, rounding only otherwise
template<class RT,class F> void dotcheck(const std::string&pre,const std::string&tt,const char*label,const RT&got,int n,F term){ RT s=0; L m=0; for(int k=0;k<n;k++){ RT t=term(k); s+=t; m+=mag(t); } if(epsx<RT>()==0) VP_CHECK(same(got,s),vp::key(pre+label),"%s: %s, expected %s",tt.c_str(),str(got).c_str(),str(s).c_str()); else VP_CLOSE(dist(got,s),(n+2)*epsx<RT>()*m*(cx<RT>::v?4:1)+1e-40L,vp::key(pre+label),"%s: %s, expected %s",tt.c_str(),str(got).c_str(),str(s).c_str()); }
template<class P,class Q,int N,int R,int C,class BQ> void pair(vp::Rng&g,int n,int r,int c){
	const std::string pre=cx<P>::v||cx<Q>::v?"complex/":"mixed/"; const std::string tt=std::string(nm<P>::n())+"/"+nm<Q>::n(); vp::describe(tt+vp::fmt(" N=%d n=%d",N,n));
	T::Vector<N,P> a=mkv<P,N>(g,n); T::Vector<N,Q> b=mkv<Q,N>(g,n,true); Q s=nz<Q>(g); vp::sig(vp::mix(vp::hbytes(&a[0],n))^vp::hbytes(&b[0],n)^vp::hstr(tt.c_str()));
	T::Matrix<R,C,P> A=mkm<P,R,C>(g,r,c); T::Matrix<R,C,Q,BQ> B=mkm<Q,R,C,BQ>(g,r,c); T::Matrix<C,R,Q,BQ> K=mkm<Q,C,R,BQ>(g,c,r); T::Vector<C,Q> vc=mkv<Q,C>(g,c); T::Vector<R,Q> vr=mkv<Q,R>(g,r);
	{ typedef decltype(P()+Q()) RT; auto x=a+b; TYPE(decltype(a+b),"sum"); for(int i=0;i<n;i++) EL(i,0,x[i],a[i]+b[i],"sum"); auto X=A+B; TYPE(decltype(A+B),"matrix_sum"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) EL(i,j,X(i,j),A(i,j)+B(i,j),"matrix_sum"); 
	  auto y=a+T::Ones*s; TYPE(decltype(a+T::Ones*s),"plus_ones"); for(int i=0;i<n;i++) EL(i,0,y[i],a[i]+s,"plus_ones"); 
	  T::Matrix<R,C,P> A0(A); T::Vector<N,P> a0(a); if constexpr(!cx<Q>::v||cx<P>::v){ if constexpr(!std::is_same<P,S8>::value&&!std::is_same<P,S16>::value&&(!std::is_same<P,U>::value||std::is_integral<Q>::value)){ auto q=a0; q+=b; auto Q2=A0; Q2+=B; for(int i=0;i<n;i++){ P w=a[i]; w+=b[i]; VP_CHECK(same<P>(q[i],w),vp::key(pre+"add_assign"),"%s: %s",tt.c_str(),str(q[i]).c_str()); } for(int i=0;i<r;i++) for(int j=0;j<c;j++){ P w=A(i,j); w+=B(i,j); VP_CHECK(same<P>(Q2(i,j),w),vp::key(pre+"matrix_add_assign"),"%s",tt.c_str()); } } } }
	{ typedef decltype(P()-Q()) RT; auto x=a-b; TYPE(decltype(a-b),"difference"); for(int i=0;i<n;i++) EL(i,0,x[i],a[i]-b[i],"difference"); auto X=A-B; TYPE(decltype(A-B),"matrix_difference"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) EL(i,j,X(i,j),A(i,j)-B(i,j),"matrix_difference"); auto y=a-T::Ones*s; TYPE(decltype(a-T::Ones*s),"minus_ones"); for(int i=0;i<n;i++) EL(i,0,y[i],a[i]-s,"minus_ones"); auto z=T::Ones*s-a; TYPE(decltype(T::Ones*s-a),"ones_minus"); for(int i=0;i<n;i++) EL(i,0,z[i],s-a[i],"ones_minus");
	  if constexpr(!cx<Q>::v||cx<P>::v){ if constexpr(!std::is_same<P,S8>::value&&!std::is_same<P,S16>::value&&!std::is_same<P,U>::value){ auto q=a; q-=b; auto Q2=A; Q2-=B; for(int i=0;i<n;i++){ P w=a[i]; w-=b[i]; VP_CHECK(same<P>(q[i],w),vp::key(pre+"subtract_assign"),"%s: %s",tt.c_str(),str(q[i]).c_str()); } for(int i=0;i<r;i++) for(int j=0;j<c;j++){ P w=A(i,j); w-=B(i,j); VP_CHECK(same<P>(Q2(i,j),w),vp::key(pre+"matrix_subtract_assign"),"%s",tt.c_str()); } } } }
	{ T::Matrix<C,C,P> Q1=mkm<P,C,C>(g,c,c); typedef decltype(P()+Q()) RT; auto x=Q1+T::Identity*s; TYPE(decltype(Q1+T::Identity*s),"plus_identity"); auto y=Q1-T::Identity*s; TYPE(decltype(Q1-T::Identity*s),"minus_identity"); auto z=T::Identity*s-Q1; TYPE(decltype(T::Identity*s-Q1),"identity_minus"); for(int i=0;i<c;i++) for(int j=0;j<c;j++){ EL(i,j,x(i,j),i==j?RT(Q1(i,j)+s):RT(Q1(i,j)),"plus_identity"); EL(i,j,y(i,j),i==j?RT(Q1(i,j)-s):RT(Q1(i,j)),"minus_identity"); EL(i,j,z(i,j),i==j?RT(s-Q1(i,j)):RT(-RT(Q1(i,j))),"identity_minus"); } }
	{ typedef decltype(P()*Q()) RT; auto x=T::diagmult(a,b); TYPE(decltype(T::diagmult(a,b)),"diagmult"); for(int i=0;i<n;i++) EL(i,0,x[i],a[i]*b[i],"diagmult"); auto y=a*s; TYPE(decltype(a*s),"times_scalar"); auto z=s*a; TYPE(decltype(s*a),"scalar_times"); for(int i=0;i<n;i++){ EL(i,0,y[i],a[i]*s,"times_scalar"); EL(i,0,z[i],s*a[i],"scalar_times"); }
	  auto Y=A*s; TYPE(decltype(A*s),"matrix_times_scalar"); auto Z=s*A; TYPE(decltype(s*A),"scalar_times_matrix"); for(int i=0;i<r;i++) for(int j=0;j<c;j++){ EL(i,j,Y(i,j),A(i,j)*s,"matrix_times_scalar"); EL(i,j,Z(i,j),s*A(i,j),"scalar_times_matrix"); }
	  { constexpr bool t=std::is_same<decltype(a*b),RT>::value; VP_CHECK(t,vp::key(pre+"dot_type"),"%s",tt.c_str()); } dotcheck<RT>(pre,tt,"dot",a*b,n,[&](int k){ return RT(a[k]*b[k]); });
	  auto pr=A*K; TYPE(decltype(A*K),"product"); for(int i=0;i<r;i++) for(int j=0;j<r;j++) dotcheck<RT>(pre,tt,"product",pr(i,j),c,[&](int k){ return RT(A(i,k)*K(k,j)); });
	  auto kp=K*A; TYPE(decltype(K*A),"product_reversed"); for(int i=0;i<c;i++) for(int j=0;j<c;j++) dotcheck<RT>(pre,tt,"product_reversed",kp(i,j),r,[&](int k){ return RT(K(i,k)*A(k,j)); });
	  auto mv=A*vc; TYPE(decltype(A*vc),"matrix_vector"); for(int i=0;i<r;i++) dotcheck<RT>(pre,tt,"matrix_vector",mv[i],c,[&](int k){ return RT(A(i,k)*vc[k]); }); auto vm=vr*A; TYPE(decltype(vr*A),"vector_matrix"); for(int i=0;i<c;i++) dotcheck<RT>(pre,tt,"vector_matrix",vm[i],r,[&](int k){ return RT(vr[k]*A(k,i)); });
	  auto d1=T::diagmult(A,vc); TYPE(decltype(T::diagmult(A,vc)),"matrix_diagmult"); auto d2=T::diagmult(vr,A); TYPE(decltype(T::diagmult(vr,A)),"diagmult_matrix"); for(int i=0;i<r;i++) for(int j=0;j<c;j++){ EL(i,j,d1(i,j),A(i,j)*vc[j],"matrix_diagmult"); EL(i,j,d2(i,j),vr[i]*A(i,j),"diagmult_matrix"); }
	  T::DiagonalMatrix<R,Q> D(vr); auto dm=D*A; TYPE(decltype(D*A),"diagonal_times"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) EL(i,j,dm(i,j),vr[i]*A(i,j),"diagonal_times"); auto od=a.as_col()*b.as_row(); TYPE(decltype(a.as_col()*b.as_row()),"outer"); for(int i=0;i<n;i++) for(int j=0;j<n;j++) EL(i,j,od(i,j),a[i]*b[j],"outer");
	  if constexpr(N==3){ auto cr=a^b; TYPE(decltype(a^b),"cross"); for(int k=0;k<3;k++){ int i=(k+1)%3,j=(k+2)%3; RT w=a[i]*b[j]-a[j]*b[i]; if(epsx<RT>()==0) EL(k,0,cr[k],w,"cross"); else VP_CLOSE(dist(RT(cr[k]),w),8*epsx<RT>()*(mag(a[i])*mag(b[j])+mag(a[j])*mag(b[i])),vp::key(pre+"cross"),"%s: %s, %s",tt.c_str(),str(cr[k]).c_str(),str(w).c_str()); } }
	  // read-only views have the same types
	  const P*pa=&a[0]; T::Vector<N,const P,T::Reference> ra(pa,n); auto rx=ra*s; TYPE(decltype(ra*s),"readonly_view"); for(int i=0;i<n;i++) EL(i,0,rx[i],a[i]*s,"readonly_view"); }
	{ typedef decltype(P()/Q(1)) RT; auto y=a/s; TYPE(decltype(a/s),"divided_by"); for(int i=0;i<n;i++) EL(i,0,y[i],a[i]/s,"divided_by"); auto Y=A/s; TYPE(decltype(A/s),"matrix_divided_by"); for(int i=0;i<r;i++) for(int j=0;j<c;j++) EL(i,j,Y(i,j),A(i,j)/s,"matrix_divided_by"); }
	if constexpr(!cx<P>::v&&!cx<Q>::v){ bool eq=true; for(int i=0;i<n;i++) eq=eq&&a[i]==b[i]; VP_CHECK((a==b)==eq&&(a!=b)==!eq,vp::key(pre+"compare"),"%s",tt.c_str()); T::Vector<N,Q> cv(n); bool exact=true; for(int i=0;i<n;i++){ const L lo=(L)std::numeric_limits<Q>::lowest(),hi=(L)std::numeric_limits<Q>::max(); cv[i]=(L)a[i]>=lo&&(L)a[i]<=hi?(Q)a[i]:Q(0); exact=exact&&cv[i]==a[i]; } VP_CHECK((a==cv)==exact,vp::key(pre+"compare_equal"),"%s",tt.c_str()); }
}
template<class P,class Q> void both(vp::Rng&g){ switch(g.range(0,2)){ case 0: pair<P,Q,3,2,3,T::RowMajor>(g,3,2,3); break; case 1: { const bool large=g.chance(.05); int n=large?g.range(7,20):g.range(1,6),r=large?g.range(5,20):g.range(1,4),c=large?g.range(5,20):g.range(1,4); pair<P,Q,Dyn,Dyn,Dyn,T::ColMajor>(g,n,r,c); break; } case 2: pair<P,Q,Dyn,3,Dyn,T::RowMajor>(g,4,3,g.range(1,5)); break; } }
#ifdef VREAL
VP_UNIT(reals,1600,30000){ switch(rng.range(0,7)){ case 0: both<VP1,S8>(rng); break; case 1: both<VP1,S16>(rng); break; case 2: both<VP1,int>(rng); break; case 3: both<VP1,U>(rng); break; case 4: both<VP1,long>(rng); break; case 5: both<VP1,float>(rng); break; case 6: both<VP1,double>(rng); break; case 7: both<VP1,LD>(rng); break; } }
#else
VP_UNIT(complexes,1600,30000){ switch(rng.range(0,6)){ case 0: both<CF,CF>(rng); break; case 1: both<CD,CD>(rng); break; case 2: both<CL,CL>(rng); break; case 3: both<CD,double>(rng); break; case 4: both<double,CD>(rng); break; case 5: both<CF,float>(rng); break; case 6: both<LD,CL>(rng); break; } }
// separate arrays of real and imaginary parts seen as one complex vector
template<class R,int N> void planar(vp::Rng&g,int n){ typedef std::complex<R> C; const std::string pre="planar/"; std::vector<R> re(n+1),im(n+1); for(int i=0;i<=n;i++){ re[i]=val<R>(g); im[i]=val<R>(g); } vp::sig(vp::hbytes(re.data(),n)); vp::describe(vp::fmt("planar n=%d",n));
	T::Vector<N,C,T::ReferencePlanarComplex> v(std::make_pair(re.data(),im.data()),n); VP_CHECK(v.size()==n,"planar/size","%d",v.size()); bool ok=true; for(int i=0;i<n;i++) ok=ok&&same<C>(v[i],C(re[i],im[i])); VP_CHECK(ok,"planar/elements","n=%d",n);
	int k=g.range(0,n-1); re[k]=val<R>(g); im[g.range(0,n-1)]=val<R>(g); ok=true; for(int i=0;i<n;i++) ok=ok&&same<C>(v[i],C(re[i],im[i])); VP_CHECK(ok,"planar/follows_changes","n=%d",n);
	int a=g.range(0,n),l=g.range(0,n-a); auto s=v.slice(a,l); ok=s.size()==l; for(int i=0;ok&&i<l;i++) ok=same<C>(s[i],C(re[a+i],im[a+i])); if(l){ re[a+l-1]+=1; ok=ok&&same<C>(s[l-1],C(re[a+l-1],im[a+l-1])); } VP_CHECK(ok,"planar/slice","%d+%d of %d",a,l,n);
	if constexpr(N>=3){ auto q=v.template slice<1,2>(); ok=q.size()==2; for(int i=0;ok&&i<2;i++) ok=same<C>(q[i],C(re[1+i],im[1+i])); VP_CHECK(ok,"planar/static_slice"," "); }
	T::Vector<N,C> o(n); for(int i=0;i<n;i++) o[i]=val<C>(g); T::Vector<N,C> x(v),y=v+o,z=v*C(0,2); ok=true; for(int i=0;i<n;i++) ok=ok&&same<C>(x[i],C(re[i],im[i]))&&same<C>(y[i],C(re[i],im[i])+o[i])&&same<C>(z[i],C(re[i],im[i])*C(0,2)); VP_CHECK(ok,"planar/expressions","n=%d",n); const std::string tt="planar"; dotcheck<C>(pre,tt,"dot",v*o,n,[&](int i){ return C(re[i],im[i])*o[i]; });
	std::ostringstream w; w<<v; std::ostringstream w2; w2<<x; VP_CHECK(w.str()==w2.str(),"planar/text","%s",w.str().c_str()); T::Matrix<N,N,C> m(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) m(i,j)=val<C>(g); T::Vector<N,C> mv=m*v; for(int i=0;i<n;i++) dotcheck<C>(pre,tt,"matrix_vector",mv[i],n,[&](int j){ return m(i,j)*C(re[j],im[j]); }); }
VP_UNIT(planar,1200,20000){ switch(rng.range(0,PLANARS)){ case 0: planar<double,4>(rng,4); break; case 1: planar<double,Dyn>(rng,rng.range(1,7)); break; 
#if PLANARS>1
 case 2: planar<float,3>(rng,3); break; case 3: planar<LD,Dyn>(rng,rng.range(1,4)); break;
#endif
 } }
// solving with right-hand sides of another precision
template<class A,class B,class F> void solve1(vp::Rng&g,const char*name,F f){ T::Matrix<3,3,A> m; M em(3,3); for(int i=0;i<3;i++) for(int j=0;j<=i;j++){ A x=(A)(g.normal()*.3+(i==j?3:0)); m(i,j)=m(j,i)=x; } em=fromM(m); T::Vector<3,B> b; for(int i=0;i<3;i++) b[i]=(B)g.normal(); auto x=f(m,b); typedef typename elem<decltype(x)>::type XT; V xv(3),bv(3); for(int i=0;i<3;i++){ xv[i]=x[i]; bv[i]=b[i]; } M xr=colM(xv),bb=colM(bv); L eps=std::max<L>(epsx<A>(),epsx<B>()); if(std::is_same<A,double>::value&&std::is_same<XT,double>::value) eps=epsx<A>(); VP_CLOSE(maxbad(sub(mul(em,xr),bb)),200*eps*(4*maxabs(xr)+1),vp::key(std::string("solve/")+name),"%s %s",nm<A>::n(),nm<B>::n()); }
template<class A,class B> void solves(vp::Rng&g){ vp::describe(std::string(nm<A>::n())+nm<B>::n()); vp::sig(g.u64()); solve1<A,B>(g,"cholesky",[](auto&m,auto&b){ return T::Cholesky<3,A>(m).backsub(b); }); solve1<A,B>(g,"svd",[](auto&m,auto&b){ return T::SVD<3,3,A>(m).backsub(b); }); }
#ifdef VSOLVE
VP_UNIT(solve,600,6000){ switch(rng.range(0,1)){ case 0: solves<double,float>(rng); break; case 1: solves<float,double>(rng); break; } }
#endif
#endif
