// C01 with the values that do not follow the rules of the real numbers: infinities, NaN, zeros, denormals, the largest numbers.
#include "num.hpp"
#include <limits>
using namespace TooN; namespace {
template<class P> P sv(vp::Rng&g){ typedef std::numeric_limits<P> Q; switch(g.range(0,13)){ case 0: return Q::infinity(); case 1: return -Q::infinity(); case 2: return Q::quiet_NaN(); case 3: case 4: return 0; case 5: return -(P)0; case 6: return Q::denorm_min()*g.range(1,9); case 7: return Q::max(); case 8: return -Q::max()/4; case 9: return Q::min(); default: return (P)g.range(-4,4); } }
// for products of several terms: finite values which cannot overflow
template<class P> P sd(vp::Rng&g){ P x; do x=sv<P>(g); while(std::isfinite(x)&&std::fabs(x)>4); return x; }
template<class P> bool eq(P a,P b){ return std::isnan(a)?std::isnan(b):a==b; }
template<class P> bool cls(P got,L nanless,bool nan){ return nan?std::isnan(got):std::isinf(nanless)?(std::isinf(got)&&(got>0)==(nanless>0)):(std::isfinite(got)&&fabsl((L)got-nanless)<=1e-5L); }
template<class P> struct Sum { L s=0; bool nan=false; void add(P a,P b){ L t=(L)a*(L)b; if(std::isnan(t)||(std::isinf(t)&&std::isinf(s)&&(t>0)!=(s>0))) nan=true; else s+=t; } bool ok(P got)const{ return cls(got,s,nan); } };
template<int N,class P,class V,class W> void pairv(vp::Rng&g,const std::string&pre,V&a,W&b){ const int n=a.size(); P x[16],y[16]; for(int i=0;i<n;i++){ a[i]=x[i]=sv<P>(g); b[i]=y[i]=sv<P>(g); } P s; do s=sv<P>(g); while(s==0&&g.chance(.5)); std::string d=pre; for(int i=0;i<n;i++) d+=vp::fmt(" (%g,%g)",(double)x[i],(double)y[i]); vp::describe(d+vp::fmt(" s=%g",(double)s)); vp::sig(std::hash<std::string>()(d));
	Vector<N,P> r(a+b); for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],x[i]+y[i]),"special_add","%g",(double)r[i]); r=a-b; for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],x[i]-y[i]),"special_subtract","%g",(double)r[i]);
	r=-a; for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],-x[i]),"special_negate","%g",(double)r[i]);
	r=a*s; for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],x[i]*s),"special_scale","%g * %g = %g",(double)x[i],(double)s,(double)r[i]); r=s*a; for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],s*x[i]),"special_scale","%g * %g = %g",(double)s,(double)x[i],(double)r[i]);
	r=a; r*=s; for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],x[i]*s),"special_scale","%g *= %g: %g",(double)x[i],(double)s,(double)r[i]);
	// a reciprocal of the divisor may be denormal or overflow: only where it is exact or the class does not depend on it
	{ P q=(P)std::ldexp(1.0,g.range(-3,3))*(g.range(0,1)?1:-1); r=a/q; for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],x[i]/q),"special_divide","%g / %g = %g",(double)x[i],(double)q,(double)r[i]); r=a; r/=q; for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],x[i]/q),"special_divide","%g /= %g: %g",(double)x[i],(double)q,(double)r[i]); }
	r=a; r+=b; for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],x[i]+y[i]),"special_add","%g",(double)r[i]); r=a; r-=b; for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],x[i]-y[i]),"special_subtract","%g",(double)r[i]);
	{ Matrix<Dynamic,Dynamic,P> o=a.as_col()*b.as_row(); bool ok=true; for(int i=0;i<n;i++) for(int j=0;j<n;j++) ok&=std::isnan(x[i]*y[j])?std::isnan(o(i,j)):eq<P>(o(i,j),0+x[i]*y[j]); VP_CHECK(ok,"special_outer","outer product"); }
	{ r=diagmult(a,b); for(int i=0;i<n;i++) VP_CHECK(eq<P>(r[i],x[i]*y[i]),"special_diagmult","%g %g: %g",(double)x[i],(double)y[i],(double)r[i]); }
	bool e=true; for(int i=0;i<n;i++) e&=x[i]==y[i]; VP_CHECK((a==b)==e&&(a!=b)==!e,"special_compare","comparison");
	for(int i=0;i<n;i++){ a[i]=x[i]=sd<P>(g); b[i]=y[i]=sd<P>(g); } Sum<P> S; for(int i=0;i<n;i++) S.add(x[i],y[i]); P got=a*b; d=""; for(int i=0;i<n;i++) d+=vp::fmt(" (%g,%g)",(double)x[i],(double)y[i]); VP_CHECK(S.ok(got),"special_dot","dot%s = %g",d.c_str(),(double)got); }
template<int R,int C,int K,class P,class A,class B> void prod(vp::Rng&g,A&a,B&b){ const int r=a.num_rows(),k=a.num_cols(),c=b.num_cols(); for(int i=0;i<r;i++) for(int j=0;j<k;j++) a(i,j)=sd<P>(g); for(int i=0;i<k;i++) for(int j=0;j<c;j++) b(i,j)=sd<P>(g); Matrix<R,C,P> p(r,c); p=a*b; for(int i=0;i<r;i++) for(int j=0;j<c;j++){ Sum<P> S; for(int q=0;q<k;q++) S.add(a(i,q),b(q,j)); VP_CHECK(S.ok(p(i,j)),"special_product","(%d,%d)=%g",i,j,(double)p(i,j)); }
	Vector<K,P> v(k); for(int q=0;q<k;q++) v[q]=sd<P>(g); Vector<R,P> av(r); av=a*v; for(int i=0;i<r;i++){ Sum<P> S; for(int q=0;q<k;q++) S.add(a(i,q),v[q]); VP_CHECK(S.ok(av[i]),"special_product","matrix * vector [%d]=%g",i,(double)av[i]); } Vector<C,P> vb(c); vb=v*b; for(int j=0;j<c;j++){ Sum<P> S; for(int q=0;q<k;q++) S.add(v[q],b(q,j)); VP_CHECK(S.ok(vb[j]),"special_product","vector * matrix [%d]=%g",j,(double)vb[j]); }
	for(int q=0;q<k;q++) v[q]=sv<P>(g); Matrix<R,K,P> m1(r,k); m1=diagmult(a,v); for(int i=0;i<r;i++) for(int q=0;q<k;q++) VP_CHECK(eq<P>(m1(i,q),a(i,q)*v[q]),"special_diagmult","matrix diagmult (%d,%d): %g * %g = %g",i,q,(double)a(i,q),(double)v[q],(double)m1(i,q)); Matrix<K,C,P> m2(k,c); m2=diagmult(v,b); for(int q=0;q<k;q++) for(int j=0;j<c;j++) VP_CHECK(eq<P>(m2(q,j),v[q]*b(q,j)),"special_diagmult","vector diagmult (%d,%d): %g * %g = %g",q,j,(double)v[q],(double)b(q,j),(double)m2(q,j));
	DiagonalMatrix<K,P> D(v); m2=D*b; for(int q=0;q<k;q++) for(int j=0;j<c;j++) VP_CHECK(eq<P>(m2(q,j),v[q]*b(q,j)),"special_diagmult","DiagonalMatrix * matrix"); m1=a*D; for(int i=0;i<r;i++) for(int q=0;q<k;q++) VP_CHECK(eq<P>(m1(i,q),a(i,q)*v[q]),"special_diagmult","matrix * DiagonalMatrix");
	P s=sv<P>(g); p=(a*b)*s; Matrix<R,C,P> pp(r,c); pp=a*b; for(int i=0;i<r;i++) for(int j=0;j<c;j++) VP_CHECK(eq<P>(p(i,j),pp(i,j)*s),"special_scale","matrix scale"); p=s*pp; for(int i=0;i<r;i++) for(int j=0;j<c;j++) VP_CHECK(eq<P>(p(i,j),s*pp(i,j)),"special_scale","scale matrix"); p=pp; p+=p; for(int i=0;i<r;i++) for(int j=0;j<c;j++) VP_CHECK(eq<P>(p(i,j),pp(i,j)+pp(i,j)),"special_add","matrix +="); p=pp-pp; for(int i=0;i<r;i++) for(int j=0;j<c;j++) VP_CHECK(eq<P>(p(i,j),pp(i,j)-pp(i,j)),"special_subtract","matrix -"); }
template<class P> void all(vp::Rng&g,const std::string&pre){ { Vector<3,P> a,b; pairv<3,P>(g,pre+"static",a,b); } { const int n=g.range(1,9); Vector<Dynamic,P> a(n),b(n); pairv<Dynamic,P>(g,pre+"dynamic",a,b); } { Matrix<4,5,P> m; auto a=m[1].template slice<1,4>(); auto b=m.T()[0]; pairv<4,P>(g,pre+"views",a,b); }
	{ Matrix<2,3,P> a; Matrix<3,4,P> b; prod<2,4,3,P>(g,a,b); } { Matrix<3,3,P> a,b; auto t=a.T(); prod<3,3,3,P>(g,t,b); } { const int r=g.range(1,5),k=g.range(1,5),c=g.range(1,5); Matrix<Dynamic,Dynamic,P> a(r,k); Matrix<Dynamic,Dynamic,P,ColMajor> b(k,c); prod<Dynamic,Dynamic,Dynamic,P>(g,a,b); } }
}
VP_UNIT(special_double,1500,30000){ all<double>(rng,"double "); }
VP_UNIT(special_float,800,20000){ all<float>(rng,"float "); }
// vectors longer than any narrow index
VP_UNIT(huge_vector,12,120){ vp::Rng&g=rng; const int n=g.range(0,1)?g.range(32760,32780):g.range(65530,150000); Vector<> a(n),b(n); long d=0; for(int i=0;i<n;i++){ int x=g.range(-3,3),y=g.range(-3,3); a[i]=x; b[i]=y; d+=x*y; } vp::describe(vp::fmt("n=%d",n)); vp::sig(n); VP_CHECK(a*b==d,"huge","dot product of %d elements",n); Vector<> c=a+b*2; bool ok=c.size()==n; for(int i=0;i<n&&ok;i++) ok=c[i]==a[i]+2*b[i]; VP_CHECK(ok,"huge","sum of %d elements",n); c-=a; c/=2; VP_CHECK(c==b,"huge","in place"); Vector<> t=c.slice(n-5,5); VP_CHECK(t[4]==b[n-1],"huge","slice at the end");
	const int w=g.range(33000,70000); Matrix<> m(2,w); m[0]=a.slice(0,std::min(n,w)).size()==w?Vector<>(a.slice(0,w)):Vector<>(Ones(w)); m[1]=Ones(w)*3; Matrix<> q=m*m.T(); double s0=0; for(int i=0;i<w;i++) s0+=m(0,i)*m(0,i); VP_CHECK(q(0,0)==s0&&q(1,1)==9.0*w,"huge","product over %d columns",w); Vector<> col=m.T()*makeVector(1.0,1.0); VP_CHECK(col.size()==w&&col[w-1]==m(0,w-1)+3,"huge","matrix of %d rows times vector",w); }
