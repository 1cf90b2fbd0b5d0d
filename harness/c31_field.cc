// C31: TooN over element types of the user's own. Two exact fields, so every result is compared for equality.
#include "vp.hpp"
#include <TooN/TooN.h>
#include "field.hpp"
namespace TooN { template<> struct IsField<fld::Mod>{ static const int value=1; }; template<> struct IsField<fld::Rat>{ static const int value=1; }; template<> struct IsField<fld::Quat>{ static const int value=1; }; }
#include <TooN/Cholesky.h>
#include <TooN/determinant.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/helpers.h>
#include <TooN/wls.h>
#include <sstream>
using namespace TooN;
using fld::Mod; using fld::Rat; using fld::Quat;
#define K(s) vp::key(pre+s)

inline Mod random_element(vp::Rng& g,Mod*){ switch(g.range(0,7)){ case 0: return 0; case 1: return 1; case 2: return -1; case 3: return g.range(-9,9); default: return Mod::raw(g.u64()>>3); } }
inline Rat random_element(vp::Rng& g,Rat*){ switch(g.range(0,4)){ case 0: return 0; case 1: return Rat(g.range(-3,3),g.range(1,3)); default: return g.range(-4,4); } }
inline Quat random_element(vp::Rng& g,Quat*){ Quat q; do { const int kind=g.range(0,4); for(int i=0;i<4;i++) q.c[i]=kind==0?(i==0?random_element(g,(Mod*)0):Mod(0)):kind==1?Mod(g.range(-2,2)):random_element(g,(Mod*)0); } while(!(q==Quat(0))&&q.norm()==Mod(0)); return q; } // zero or invertible
template<class F> F rnd(vp::Rng& g){ return random_element(g,(F*)0); }
template<class F> F nonzero(vp::Rng& g){ for(;;){ const F f=rnd<F>(g); if(f!=F(0)) return f; } }
inline uint64_t code(const Mod& m){ return m.v; }
inline uint64_t code(const Quat& q){ uint64_t h=0; for(const auto& m:q.c) h=vp::mix(h^m.v); return h; }
inline uint64_t code(const Rat& m){ return vp::mix((uint64_t)m.n)^(uint64_t)m.d; }
template<class F> std::string text(const F& f){ std::ostringstream o; o<<f; return o.str(); }

// ---- plain matrices over the field
template<class F> struct A{ int r,c; std::vector<F> d; A(int r_=0,int c_=0):r(r_),c(c_),d(r_*c_){} F& operator()(int i,int j){ return d[i*c+j]; } const F& operator()(int i,int j) const{ return d[i*c+j]; } };
template<class F> A<F> mul(const A<F>& a,const A<F>& b){ A<F> o(a.r,b.c); for(int i=0;i<a.r;i++) for(int j=0;j<b.c;j++){ F s=0; for(int k=0;k<a.c;k++) s+=a(i,k)*b(k,j); o(i,j)=s; } return o; }
template<class F> A<F> tr(const A<F>& a){ A<F> o(a.c,a.r); for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++) o(j,i)=a(i,j); return o; }
template<class F> A<F> eye(int n){ A<F> o(n,n); for(int i=0;i<n;i++) o(i,i)=1; return o; }
template<class F> A<F> random(vp::Rng& g,int r,int c){ A<F> o(r,c); for(auto& x:o.d) x=rnd<F>(g); for(const auto& x:o.d) vp::sig(code(x)); return o; }
// determinant by elimination from the bottom right corner
template<class F> F det(A<F> a){ F d=1; for(int n=a.r;n>0;n--){ int p=-1; for(int i=0;i<n;i++) if(a(i,n-1)!=F(0)) p=i; if(p<0) return 0; if(p!=n-1){ d=-d; for(int j=0;j<n;j++) std::swap(a(p,j),a(n-1,j)); } d*=a(n-1,n-1); for(int i=0;i<n-1;i++){ const F f=a(i,n-1)/a(n-1,n-1); for(int j=0;j<n;j++) a(i,j)-=f*a(n-1,j); } } return d; }
template<class F> bool minors(const A<F>& a){ for(int k=1;k<=a.r;k++){ A<F> m(k,k); for(int i=0;i<k;i++) for(int j=0;j<k;j++) m(i,j)=a(i,j); if(det(m)==F(0)) return false; } return true; }
template<int R,int C,class F,class B> void put(Matrix<R,C,F,B>& m,const A<F>& a){ for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++) m(i,j)=a(i,j); }
template<int N,class F,class B> void put(Vector<N,F,B>& v,const A<F>& a){ for(int i=0;i<a.r;i++) v[i]=a(i,0); }
template<class X,class F> auto same(const X& m,const A<F>& a)->decltype(m.num_rows(),bool()){ if(m.num_rows()!=a.r||m.num_cols()!=a.c) return false; for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++) if(!(m(i,j)==a(i,j))) return false; return true; }
template<class X,class F> auto same(const X& v,const A<F>& a)->decltype(v.size(),bool()){ if(v.size()!=a.r) return false; for(int i=0;i<a.r;i++) if(!(v[i]==a(i,0))) return false; return true; }
template<int R,int C,class P,class B> A<P> get(const Matrix<R,C,P,B>& m){ A<P> a(m.num_rows(),m.num_cols()); for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++) a(i,j)=m(i,j); return a; }
template<int R,class P,class B> A<P> get(const Vector<R,P,B>& v){ A<P> a(v.size(),1); for(int i=0;i<a.r;i++) a(i,0)=v[i]; return a; }
template<class F,class Op> A<F> zip(const A<F>& a,const A<F>& b,Op op){ A<F> o(a.r,a.c); for(size_t i=0;i<a.d.size();i++) o.d[i]=op(a.d[i],b.d[i]); return o; }
template<class F,class Op> A<F> map(const A<F>& a,Op op){ A<F> o(a.r,a.c); for(size_t i=0;i<a.d.size();i++) o.d[i]=op(a.d[i]); return o; }
#define EQ(expr,ref,name) VP_CHECK(same(expr,ref),K(name),"%d x %d over the field",(ref).r,(ref).c)
#define EQS(expr,ref,name) do{ const auto eq_a_=(expr); const auto eq_b_=(ref); VP_CHECK(eq_a_==eq_b_,K(name),"%s instead of %s",text(eq_a_).c_str(),text(eq_b_).c_str()); }while(0)

// ---- arithmetic. VX, VY, MX... are storages of the operands.
template<class F,class VX,class VY> void vector_ops(const std::string& pre,vp::Rng& g,VX& x,VY& y){
	const int n=x.size(); const A<F> a=random<F>(g,n,1), b=random<F>(g,n,1); put(x,a); put(y,b); const F s=nonzero<F>(g); const int i=g.range(1,9);
	EQ(x+y,zip(a,b,[](F p,F q){return p+q;}),"add"); EQ(x-y,zip(a,b,[](F p,F q){return p-q;}),"subtract"); EQ(-x,map(a,[](F p){return F(0)-p;}),"negate"); EQ(x*s,map(a,[&](F p){return p*s;}),"scale"); EQ(s*x,map(a,[&](F p){return s*p;}),"scale"); EQ(x/s,map(a,[&](F p){return p/s;}),"divide");
	EQ(x*i,map(a,[&](F p){return p*F(i);}),"scale_by_int"); EQ(x/i,map(a,[&](F p){return p/F(i);}),"divide_by_int"); EQS(F(x*y),mul(tr(a),b)(0,0),"dot"); EQ(diagmult(x,y),zip(a,b,[](F p,F q){return p*q;}),"diagmult"); EQ(x.as_col()*y.as_row(),mul(a,tr(b)),"outer"); EQ(x.as_diagonal()*y,zip(a,b,[](F p,F q){return p*q;}),"diagmult");
	EQS(F(norm_sq(x)),mul(tr(a),a)(0,0),"norm_sq"); VP_CHECK((x==y)==(a.d==b.d)&&(x!=y)==!(a.d==b.d),K("equal"),"comparison of %d elements",n); EQ(x+Ones*s,map(a,[&](F p){return p+s;}),"plus_ones"); EQ(x-Ones*s,map(a,[&](F p){return p-s;}),"minus_ones");
	{ Vector<Dynamic,int> w(n); A<F> c(n,1); for(int k=0;k<n;k++) c(k,0)=w[k]=g.range(-5,5); EQ(x+w,zip(a,c,[](F p,F q){return p+q;}),"add_ints"); EQ(w-x,zip(c,a,[](F p,F q){return p-q;}),"subtract_from_ints"); EQS(F(w*x),mul(tr(c),a)(0,0),"dot_ints"); static_assert(std::is_same<typename std::decay<decltype((x+w)[0])>::type,F>::value,""); }
	y+=x; EQ(y,zip(a,b,[](F p,F q){return p+q;}),"add_assign"); y-=x; y-=x; EQ(y,zip(b,a,[](F p,F q){return p-q;}),"subtract_assign"); y*=s; EQ(y,map(zip(b,a,[](F p,F q){return p-q;}),[&](F p){return p*s;}),"scale_assign"); y/=s; y/=i; EQ(y,map(zip(b,a,[](F p,F q){return p-q;}),[&](F p){return p/F(i);}),"divide_assign"); y=x; EQ(y,a,"assign"); y=Zeros; EQ(y,A<F>(n,1),"zeros"); y=Ones*s; EQ(y,map(A<F>(n,1),[&](F){return s;}),"ones");
	if(n>1&&a(n-1,0)!=F(0)){ EQ(project(x),[&]{ A<F> o(n-1,1); for(int k=0;k<n-1;k++) o(k,0)=a(k,0)/a(n-1,0); return o; }(),"project"); }
	EQ(unproject(x),[&]{ A<F> o(n+1,1); for(int k=0;k<n;k++) o(k,0)=a(k,0); o(n,0)=1; return o; }(),"unproject"); }
template<int R,int C,class P,class B> std::integral_constant<bool,R==C||R==Dynamic||C==Dynamic> may_be_square(const Matrix<R,C,P,B>&);
template<class F,class MX,class MY> void matrix_ops(const std::string& pre,vp::Rng& g,MX& x,MY& y){ // same shape
	const int r=x.num_rows(),c=x.num_cols(); const A<F> a=random<F>(g,r,c), b=random<F>(g,r,c), u=random<F>(g,c,1), v=random<F>(g,r,1); put(x,a); put(y,b); const F s=nonzero<F>(g); const int i=g.range(1,9);
	Vector<Dynamic,F> vu(c), vv(r); put(vu,u); put(vv,v);
	EQ(x+y,zip(a,b,[](F p,F q){return p+q;}),"add"); EQ(x-y,zip(a,b,[](F p,F q){return p-q;}),"subtract"); EQ(-x,map(a,[](F p){return F(0)-p;}),"negate"); EQ(x*s,map(a,[&](F p){return p*s;}),"scale"); EQ(s*x,map(a,[&](F p){return s*p;}),"scale"); EQ(x/s,map(a,[&](F p){return p/s;}),"divide"); EQ(x*i,map(a,[&](F p){return p*F(i);}),"scale_by_int"); EQ(x/i,map(a,[&](F p){return p/F(i);}),"divide_by_int");
	EQ(x*y.T(),mul(a,tr(b)),"product"); EQ(x.T()*y,mul(tr(a),b),"product"); EQ(x*vu,mul(a,u),"times_vector"); EQ(vv*x,tr(mul(tr(v),a)),"vector_times"); EQ(x.T(),tr(a),"transpose");
	EQ(diagmult(vv,x),[&]{ A<F> o=a; for(int p=0;p<r;p++) for(int q=0;q<c;q++) o(p,q)=v(p,0)*a(p,q); return o; }(),"diagmult_left"); EQ(diagmult(x,vu),[&]{ A<F> o=a; for(int p=0;p<r;p++) for(int q=0;q<c;q++) o(p,q)=a(p,q)*u(q,0); return o; }(),"diagmult_right");
	EQ(vv.as_diagonal()*x,[&]{ A<F> o=a; for(int p=0;p<r;p++) for(int q=0;q<c;q++) o(p,q)=v(p,0)*a(p,q); return o; }(),"diagmult_left"); EQ(x*vu.as_diagonal(),[&]{ A<F> o=a; for(int p=0;p<r;p++) for(int q=0;q<c;q++) o(p,q)=a(p,q)*u(q,0); return o; }(),"diagmult_right");
	VP_CHECK((x==y)==(a.d==b.d)&&(x!=y)==!(a.d==b.d),K("equal"),"comparison of %d x %d",r,c);
	{ Matrix<Dynamic,Dynamic,int> w(r,c); A<F> d(r,c); for(int p=0;p<r;p++) for(int q=0;q<c;q++) d(p,q)=w(p,q)=g.range(-5,5); EQ(x+w,zip(a,d,[](F p,F q){return p+q;}),"add_ints"); EQ(x*w.T(),mul(a,tr(d)),"product_ints"); EQ(w.T()*x,mul(tr(d),a),"product_ints"); }
	y+=x; EQ(y,zip(a,b,[](F p,F q){return p+q;}),"add_assign"); y-=x; y-=x; EQ(y,zip(b,a,[](F p,F q){return p-q;}),"subtract_assign"); y*=s; y/=i; EQ(y,map(zip(b,a,[](F p,F q){return p-q;}),[&](F p){return p*s/F(i);}),"scale_assign"); y=x; EQ(y,a,"assign"); y=Zeros; EQ(y,A<F>(r,c),"zeros"); y=x; y+=Ones*s; EQ(y,map(a,[&](F p){return p+s;}),"plus_ones");
	if constexpr(decltype(may_be_square(x))::value) if(r==c){ Matrix<Dynamic,Dynamic,F> k(r,r); k=s*Identity; EQ(k,map(eye<F>(r),[&](F p){return p*s;}),"identity"); k=x; k+=s*Identity; EQ(k,zip(a,map(eye<F>(r),[&](F p){return p*s;}),[](F p,F q){return p+q;}),"plus_identity"); F t=0; for(int p=0;p<r;p++) t+=a(p,p); EQS(F(trace(x)),t,"trace");
		EQ(x+s*Identity,zip(a,map(eye<F>(r),[&](F p){return p*s;}),[](F p,F q){return p+q;}),"plus_identity"); Symmetrize(k); EQ(k,[&]{ A<F> o=a; for(int p=0;p<r;p++) for(int q=0;q<r;q++) o(p,q)=p==q?a(p,q)+s:(a(p,q)+a(q,p))/F(2); return o; }(),"symmetrize"); } }
template<class F> void arithmetic(vp::Rng& g,const std::string& pre){
	const int n=g.range(1,9); vp::describe(vp::fmt("%d elements",n));
	Vector<5,F> v5,w5; vector_ops<F>(pre+"vector/static_",g,v5,w5);
	Vector<Dynamic,F> v(n),w(n); vector_ops<F>(pre+"vector/dynamic_",g,v,w);
	Vector<Resizable,F> rz; rz.resize(n); vector_ops<F>(pre+"vector/resizable_",g,v,rz);
	Matrix<7,4,F> store; store=Zeros; auto c0=store.T()[1], c1=store.T()[3]; vector_ops<F>(pre+"vector/column_",g,c0,c1);
	Matrix<Dynamic,Dynamic,F,ColMajor> cm(n,n+2); cm=Zeros; auto sl=cm[n-1].slice(1,n); vector_ops<F>(pre+"vector/slice_",g,v,sl);
	Vector<3,F> p,q; A<F> a=random<F>(g,3,1), b=random<F>(g,3,1), x(3,1); put(p,a); put(q,b); for(int i=0;i<3;i++) x(i,0)=a((i+1)%3,0)*b((i+2)%3,0)-a((i+2)%3,0)*b((i+1)%3,0); EQ(p^q,x,"vector/cross"); EQ(cross_product_matrix(p)*q,x,"vector/cross_product_matrix");
	{ Vector<3,F> d; d=Data(a(0,0),a(1,0),a(2,0)); EQ(d,a,"vector/data"); Fill(d)=b(0,0),b(1,0),b(2,0); EQ(d,b,"vector/fill"); const Vector<3,F> m=makeVector(a(0,0),a(1,0),a(2,0)); EQ(m,a,"vector/makeVector"); swap(d,q); EQ(q,b,"vector/swap"); }
	const int r=g.range(1,6), c=g.range(1,6); Matrix<3,3,F> m3,k3; matrix_ops<F>(pre+"matrix/static_",g,m3,k3); Matrix<2,4,F> m24; Matrix<2,4,F,ColMajor> k24; matrix_ops<F>(pre+"matrix/colmajor_",g,m24,k24);
	Matrix<Dynamic,Dynamic,F> md(r,c),kd(r,c); matrix_ops<F>(pre+"matrix/dynamic_",g,md,kd); Matrix<8,9,F> big; big=Zeros; auto ms=big.slice(1,2,r,c); matrix_ops<F>(pre+"matrix/slice_",g,md,ms); Matrix<Dynamic,Dynamic,F> mt(c,r); auto mtt=mt.T(); matrix_ops<F>(pre+"matrix/transposed_",g,mtt,kd); }
VP_UNIT(arithmetic,4000,80000){ arithmetic<Mod>(rng,"mod/"); arithmetic<Rat>(rng,"rat/"); }
// elements that do not commute: every product must keep the order of its operands
VP_UNIT(noncommutative,4000,80000){ arithmetic<Quat>(rng,"quaternion/"); }

// ---- linear systems
template<class F> A<F> regular(vp::Rng& g,int n){ for(;;){ A<F> a(n,n); switch(g.range(0,4)){
	case 0: a=random<F>(g,n,n); break;
	case 1: a=random<F>(g,n,n); for(int i=0;i<n;i++) a(i,i)=0; break;                       // no pivot on the diagonal
	case 2: { std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; for(int i=n-1;i>0;i--) std::swap(p[i],p[g.range(0,i)]); for(int i=0;i<n;i++) for(int j=i;j<n;j++) a(p[i],j)=i==j?nonzero<F>(g):g.range(0,1)?rnd<F>(g):F(0); break; }
	case 3: a=random<F>(g,n,n); for(int i=0;i+1<n;i++) a(i,0)=0; break;                      // the only pivot of the first column in the last row
	default: a=random<F>(g,n,n); for(auto& x:a.d) if(g.chance(.6)) x=0; }
	if(det(a)!=F(0)) return a; } }
template<class F,int N> void solve(vp::Rng& g,const std::string& pre,int n){
	const A<F> a=regular<F>(g,n), b=random<F>(g,n,1), c=random<F>(g,n,3); vp::describe(vp::fmt("regular %d x %d",n,n));
	Matrix<N,N,F> m(n,n); put(m,a); Vector<N,F> v(n); put(v,b); Matrix<N,3,F> k(n,3); put(k,c);
	EQ(m*gaussian_elimination(m,v),b,"gaussian_elimination"); EQ(m*gaussian_elimination(m,k),c,"gaussian_elimination_matrix"); EQ(m,a,"argument_unchanged");
	const int w=2*n; Matrix<N,(N==Dynamic?Dynamic:2*N),F> j(n,w); for(int i=0;i<n;i++) for(int q=0;q<w;q++) j(i,q)=q<n?a(i,q):F(q-n==i?1:0); gauss_jordan(j);
	A<F> left(n,n),inv(n,n); for(int i=0;i<n;i++) for(int q=0;q<n;q++){ left(i,q)=j(i,q); inv(i,q)=j(i,q+n); } VP_CHECK(mul(a,inv).d==eye<F>(n).d&&mul(inv,a).d==eye<F>(n).d,K("gauss_jordan_inverse"),"%d x %d",n,n); VP_CHECK(left.d==eye<F>(n).d,K("gauss_jordan_identity"),"%d x %d",n,n); }
VP_UNIT(solve,8000,160000){ switch(rng.range(0,3)){ case 0: solve<Mod,3>(rng,"mod/static/",3); break; case 1: solve<Mod,8>(rng,"mod/static/",8); break; default: solve<Mod,Dynamic>(rng,"mod/dynamic/",rng.range(1,18)); } solve<Rat,3>(rng,"rat/static/",3); solve<Rat,Dynamic>(rng,"rat/dynamic/",rng.range(1,4)); }

template<class F,int N> void determinants(vp::Rng& g,const std::string& pre,int n){
	A<F> a=random<F>(g,n,n); if(g.range(0,1)) a=regular<F>(g,n); const bool singular=n>1&&g.chance(.25);
	if(singular){ const int i=g.range(0,n-1), j=(i+g.range(1,n-1))%n; const F f=rnd<F>(g); for(int k=0;k<n;k++) a(i,k)=a(j,k)*f; }
	const F want=det(a); vp::describe(vp::fmt("%d x %d%s",n,n,singular?" singular":"")); Matrix<N,N,F> m(n,n); put(m,a); Matrix<N,N,F,ColMajor> c(n,n); put(c,a);
	EQS(determinant(m),want,"determinant"); EQS(determinant_gaussian_elimination(m),want,"determinant_gaussian_elimination"); EQS(determinant(m.T()),want,"determinant_transposed"); EQS(determinant(c),want,"determinant_colmajor");
	const A<F> b=random<F>(g,n,n); Matrix<N,N,F> k(n,n); put(k,b); EQS(determinant(m*k),F(want*det(b)),"determinant_of_product"); if(singular) EQS(determinant(m),F(0),"determinant_singular"); EQ(m,a,"determinant_argument_unchanged"); }
VP_UNIT(determinant,8000,160000){ switch(rng.range(0,4)){ case 0: determinants<Mod,2>(rng,"mod/static/",2); break; case 1: determinants<Mod,3>(rng,"mod/static/",3); break; case 2: determinants<Mod,7>(rng,"mod/static/",7); break; default: determinants<Mod,Dynamic>(rng,"mod/dynamic/",rng.range(1,20)); } determinants<Rat,3>(rng,"rat/static/",3); determinants<Rat,Dynamic>(rng,"rat/dynamic/",rng.range(1,4)); }

template<class F,int N> void cholesky(vp::Rng& g,const std::string& pre,int n){
	A<F> a; do { const A<F> h=random<F>(g,n,n); a=zip(h,tr(h),[](F p,F q){ return p+q; }); if(g.range(0,2)==0) a=mul(h,tr(h)); for(int i=0;i<n;i++) a(i,i)+=F(g.range(0,5)); } while(!minors(a));
	vp::describe(vp::fmt("symmetric %d x %d with regular leading minors",n,n)); Matrix<N,N,F> m(n,n); put(m,a); Cholesky<N,F> h(m); if(g.range(0,1)){ Matrix<N,N,F> e(n,n); e=Identity; h=Cholesky<N,F>(e); h.compute(m); }
	const A<F> L=get(h.get_unscaled_L()), D=get(h.get_D()); bool lower=true,diagonal=true; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(i==j) lower&=L(i,j)==F(1); else { if(j>i) lower&=L(i,j)==F(0); diagonal&=D(i,j)==F(0); } }
	VP_CHECK(lower,K("unscaled_L"),"not unit lower triangular"); VP_CHECK(diagonal,K("D"),"not diagonal"); VP_CHECK(mul(mul(L,D),tr(L)).d==a.d,K("LDL"),"L D L^T of %d x %d",n,n);
	const A<F> b=random<F>(g,n,1), c=random<F>(g,n,2); Vector<N,F> v(n); put(v,b); Matrix<N,2,F> k(n,2); put(k,c); EQ(m*h.backsub(v),b,"backsub"); EQ(m*h.backsub(k),c,"backsub_matrix"); EQ(m*h.get_inverse(),eye<F>(n),"inverse"); EQS(F(h.determinant()),det(a),"determinant"); EQS(F(h.mahalanobis(v)),mul(tr(b),get(h.backsub(v)))(0,0),"mahalanobis"); VP_CHECK(h.rank()==n,K("rank"),"%d of %d",h.rank(),n); EQ(m,a,"cholesky_argument_unchanged"); }
VP_UNIT(cholesky,8000,160000){ switch(rng.range(0,3)){ case 0: cholesky<Mod,3>(rng,"mod/static/",3); break; case 1: cholesky<Mod,6>(rng,"mod/static/",6); break; default: cholesky<Mod,Dynamic>(rng,"mod/dynamic/",rng.range(1,16)); } cholesky<Rat,3>(rng,"rat/static/",3); cholesky<Rat,Dynamic>(rng,"rat/dynamic/",rng.range(1,4)); }

// ---- least squares: the sums and the solution of the normal equations, exactly
template<class F,int N> struct Sums{ A<F> C,v; Sums(int n):C(n,n),v(n,1){} void add(const F& m,const A<F>& J,const F& w){ for(int i=0;i<C.r;i++){ v(i,0)+=J(i,0)*m*w; for(int j=0;j<C.r;j++) C(i,j)+=J(i,0)*J(j,0)*w; } } };
template<class F,int N> void least_squares(vp::Rng& g,const std::string& pre,int n){
	WLS<N,F> w(n); Sums<F,N> s(n); w.clear(); const int ops=g.range(2,8); std::string history;
	auto step=[&](WLS<N,F>& w,Sums<F,N>& s){ const F m=rnd<F>(g), wt=nonzero<F>(g); const A<F> J=random<F>(g,n,1); Vector<N,F> j(n); put(j,J);
		const int op=g.range(0,6); history+=" "+std::to_string(op); switch(op){
		case 0: w.add_prior(wt); for(int i=0;i<n;i++) s.C(i,i)+=wt; break;
		case 1: w.add_mJ(m,j,wt); s.add(m,J,wt); break;
		case 2: w.add_mJ(m,j); s.add(m,J,1); break;
		case 3: w.add_prior(j); for(int i=0;i<n;i++) s.C(i,i)+=J(i,0); break;
		case 4: { const A<F> P=random<F>(g,n,n); const A<F> S=zip(P,tr(P),[](F p,F q){return p+q;}); Matrix<N,N,F> k(n,n); put(k,S); w.add_prior(k); for(size_t i=0;i<S.d.size();i++) s.C.d[i]+=S.d[i]; break; }
		case 5: { const A<F> JJ=random<F>(g,2,n), P=random<F>(g,2,2), mm=random<F>(g,2,1); const A<F> S=zip(P,tr(P),[](F p,F q){return p+q;}); Matrix<2,N,F> k(2,n); put(k,JJ); Matrix<2,2,F> si; put(si,S); Vector<2,F> ms; put(ms,mm); w.add_mJ_rows(ms,k,si); const A<F> c=mul(mul(tr(JJ),S),JJ), v=mul(mul(tr(JJ),S),mm); for(size_t i=0;i<c.d.size();i++) s.C.d[i]+=c.d[i]; for(int i=0;i<n;i++) s.v(i,0)+=v(i,0); break; }
		default: { if(n<2) break; const int at=g.range(0,n-2); Vector<2,F> j2=makeVector(rnd<F>(g),rnd<F>(g)); A<F> J2(n,1); J2(at,0)=j2[0]; J2(at+1,0)=j2[1]; w.add_sparse_mJ(m,j2,at,wt); s.add(m,J2,wt); } } };
	for(int i=0;i<ops;i++) step(w,s); if(g.range(0,2)==0){ WLS<N,F> o(n); o.clear(); Sums<F,N> t(n); for(int i=0;i<3;i++) step(o,t); w+=o; for(size_t i=0;i<t.C.d.size();i++) s.C.d[i]+=t.C.d[i]; for(int i=0;i<n;i++) s.v(i,0)+=t.v(i,0); history+=" merged"; }
	vp::describe(vp::fmt("%d parameters, operations",n)+history); EQ(w.get_vector(),s.v,"wls_vector"); if(!minors(s.C)) return; w.compute(); EQ(w.get_C_inv(),s.C,"wls_information"); EQ(w.get_vector(),s.v,"wls_vector"); VP_CHECK(mul(s.C,get(w.get_mu())).d==s.v.d,K("wls_solution"),"%d parameters",n); }
VP_UNIT(wls,8000,160000){ switch(rng.range(0,2)){ case 0: least_squares<Mod,3>(rng,"mod/static/",3); break; case 1: least_squares<Mod,6>(rng,"mod/static/",6); break; default: least_squares<Mod,Dynamic>(rng,"mod/dynamic/",rng.range(1,10)); } least_squares<Rat,2>(rng,"rat/static/",2); }

// ---- streams
VP_UNIT(streams,3000,60000){ const std::string pre="mod/"; const int n=rng.range(1,9); const A<Mod> a=random<Mod>(rng,n,1), b=random<Mod>(rng,n,3); Vector<Dynamic,Mod> v(n),x(n); put(v,a); Matrix<Dynamic,3,Mod> m(n,3),k(n,3); put(m,b); std::stringstream s; s<<v<<"\n"<<m<<"17"; s>>x>>k; int end=0; s>>end; vp::describe(vp::fmt("%d elements",n)); EQ(x,a,"stream_vector"); EQ(k,b,"stream_matrix"); VP_CHECK(!s.fail()&&end==17,K("stream_position"),"%d",end); }
