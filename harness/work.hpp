// Workloads over every part of TooN that only compute and record results: they judge nothing themselves.
// C27 runs them under different configurations and compares the records, C28 in concurrent threads.
#pragma once
#include <TooN/TooN.h>
#include <TooN/helpers.h>
#include <TooN/LU.h>
#include <TooN/Cholesky.h>
#include <TooN/Lapack_Cholesky.h>
#include <TooN/QR.h>
#include <TooN/QR_Lapack.h>
#include <TooN/SVD.h>
#include <TooN/GR_SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/determinant.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/so2.h>
#include <TooN/se2.h>
#include <TooN/so3.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <TooN/functions/derivatives.h>
#include <TooN/optimization/brent.h>
#include <TooN/optimization/golden_section.h>
#include <TooN/optimization/conjugate_gradient.h>
#include <TooN/optimization/downhill_simplex.h>
#include <TooN/named_elements.h>
#include <complex>
#include <sstream>
#include <vector>
#include <string>
#include <cstring>
#ifdef VP_MEMCHECK
#include <valgrind/memcheck.h>
#endif
TOON_MAKE_NAMED_ELEMENT_VECTOR(NamedPoint, px, py, pz)
namespace T=TooN;
namespace work {
const int Dyn=T::Dynamic;
struct Rec {
	struct E { const char* label; uint64_t bits; }; std::vector<E> e; const char* l=""; long undefined=0; const char* undef_label="";
	std::string prefix;
	void bits(uint64_t b){ e.push_back({l,b}); }
	template<class X> void def(const X&x,size_t n=sizeof(X)){
#ifdef VP_MEMCHECK
		if(VALGRIND_CHECK_MEM_IS_DEFINED(&x,n)){ if(!undefined++) undef_label=l; VALGRIND_MAKE_MEM_DEFINED(&x,n); }
#else
		(void)x; (void)n;
#endif
	}
	void put(double v){ def(v); uint64_t u; if(v!=v) u=0x7ff8000000000000ULL; else memcpy(&u,&v,8); bits(u); }
	void put(float v){ def(v); put((double)v); }
	void put(long double v){ def(v,10); double h=(double)v; put(h); put((double)(v-h)); }
	void put(int v){ def(v); bits((uint64_t)(int64_t)v); }
	void put(long v){ def(v); bits((uint64_t)v); }
	void put(bool v){ def(v); bits(v); }
	void put(const std::string&s){ bits(s.size()); for(unsigned char c:s){ def(c); } uint64_t h=1469598103934665603ULL; for(unsigned char c:s){ h^=c; h*=1099511628211ULL; } bits(h); }
	template<class X> void put(const std::complex<X>&v){ put(v.real()); put(v.imag()); }
	template<int N,class P,class B> void put(const T::Vector<N,P,B>&v){ put((int)v.size()); for(int i=0;i<v.size();i++) put(v[i]); }
	template<int R,int C,class P,class B> void put(const T::Matrix<R,C,P,B>&m){ put((int)m.num_rows()); put((int)m.num_cols()); for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) put(m(i,j)); }
	template<int N,class P,class B> void put(const T::DiagonalMatrix<N,P,B>&m){ put((int)m.diagonal_slice().size()); for(int i=0;i<m.diagonal_slice().size();i++) put(m.diagonal_slice()[i]); }
	template<class P> void put(const T::SO2<P>&x){ put(x.get_matrix()); }
	template<class P> void put(const T::SO3<P>&x){ put(x.get_matrix()); }
	template<class P> void put(const T::SE2<P>&x){ put(x.get_rotation()); put(x.get_translation()); }
	template<class P> void put(const T::SE3<P>&x){ put(x.get_rotation()); put(x.get_translation()); }
	template<class P> void put(const T::SIM2<P>&x){ put(x.get_rotation()); put(x.get_translation()); put(x.get_scale()); }
	template<class P> void put(const T::SIM3<P>&x){ put(x.get_rotation()); put(x.get_translation()); put(x.get_scale()); }
	template<int N,class P> void put(const T::SL<N,P>&x){ put(x.get_matrix()); }
};
#define W(label,...) do{ d.l=label; d.put(__VA_ARGS__); }while(0)
using vp::Rng;
template<class P> P val(Rng&g){ switch(g.range(0,5)){ case 0: return (P)g.range(-3,3); case 1: return (P)(g.normal()*100); default: return (P)g.normal(); } }
template<int N,class P> T::Vector<N,P> rv(Rng&g,int n=N){ T::Vector<N,P> v(n); for(int i=0;i<n;i++) v[i]=val<P>(g); return v; }
template<int R,int C,class P> T::Matrix<R,C,P> rm(Rng&g,int r=R,int c=C){ T::Matrix<R,C,P> m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=val<P>(g); return m; }
template<int N,class P> T::Matrix<N,N,P> spd(Rng&g,int n=N){ T::Matrix<N,N,P> m(n,n); for(int i=0;i<n;i++) for(int j=0;j<=i;j++){ P x=(P)(g.normal()*.3); m(i,j)=m(j,i)=x; } for(int i=0;i<n;i++) m(i,i)=(P)(n+g.unif()); return m; }
template<int N,class P> T::Matrix<N,N,P> reg(Rng&g,int n=N){ T::Matrix<N,N,P> m=rm<N,N,P>(g,n,n); std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; for(int i=n-1;i>0;i--){ int k=g.range(0,i); std::swap(p[i],p[k]); } for(int i=0;i<n;i++) m(i,p[i])=(P)(m(i,p[i])+((i&1)?-1:1)*400); return m; }

// ------------------------------------------------------------------ vectors and matrices
template<int N,class P> void vectors(Rng&g,Rec&d,int n=N){
	T::Vector<N,P> a=rv<N,P>(g,n),b=rv<N,P>(g,n); P s=val<P>(g)+P(7);
	W("vec/sum",T::Vector<N,P>(a+b)); W("vec/difference",T::Vector<N,P>(a-b)); W("vec/negate",T::Vector<N,P>(-a)); W("vec/scale",T::Vector<N,P>(a*s)); W("vec/left_scale",T::Vector<N,P>(s*a)); W("vec/divide",T::Vector<N,P>(a/s)); W("vec/dot",a*b); W("vec/add_scalar",T::Vector<N,P>(a+T::Ones*s)); W("vec/compound_expression",T::Vector<N,P>((a+b)*s-a/s+b));
	{ T::Vector<N,P> c=a; c+=b; c-=a*s; c*=s; c/=P(3); W("vec/compound_assign",c); c+=T::Ones*s; W("vec/ones_assign",c); c=T::Zeros(n); W("vec/zeros",c); c=T::Ones(n); W("vec/ones",c); }
	W("vec/norm",T::norm(a)); W("vec/norm_sq",T::norm_sq(a)); W("vec/norm_1",T::norm_1(a)); W("vec/norm_inf",T::norm_inf(a)); { T::Vector<N,P> c=a+T::Ones*P(50); W("vec/unit",T::unit(c)); T::normalize(c); W("vec/normalize",c); c[n-1]=s; W("vec/project",T::project(c)); W("vec/unproject",T::unproject(c)); }
	W("vec/outer",T::Matrix<N,N,P>(a.as_col()*b.as_row())); W("vec/as_diagonal",T::Matrix<N,N,P>(a.as_diagonal()*T::Matrix<N,N,P>(T::Identity(n)))); W("vec/diagmult",T::diagmult(a,b)); 
	{ std::ostringstream o; o.precision(21); o<<a<<" "<<b; W("vec/text",o.str()); std::istringstream i(o.str()); T::Vector<N,P> c(n),e(n); i>>c>>e; W("vec/read",c); W("vec/read2",e); }
	{ T::Vector<Dyn,P> x(a); T::Vector<T::Resizable,P> r(a); r.resize(n+3); for(int i=n;i<n+3;i++) r[i]=P(i); W("vec/resized",r); r=x; W("vec/resizable_assign",r); T::Vector<Dyn,P> y(std::move(x)); W("vec/moved",y); x=y; W("vec/moved_again",x); r.resize(0); r=y; W("vec/refilled",r); r=r.slice(n/3,n-n/3); W("vec/part_of_itself",r); r=r.slice(0,r.size()/2)*P(2); W("vec/scaled_part_of_itself",r); r=r.slice(0,r.size()/2)+r.slice(r.size()-r.size()/2,r.size()/2); W("vec/sum_of_parts_of_itself",r); T::Vector<Dyn,P> z(n); z=T::Zeros; swap(y,z); W("vec/swap",y); W("vec/swap2",z); }
	if(n>=3){ W("vec/slice",T::Vector<Dyn,P>(a.slice(1,n-2))); a.slice(0,2)=b.slice(n-2,2); W("vec/slice_assign",a); W("vec/static_slice",T::Vector<2,P>(b.template slice<1,2>())); W("vec/static_slice_length",T::Vector<2,P>(b.template slice<Dyn,2>(n-2,2))); std::swap(a[0],a[n-1]); W("vec/element_swap",a); }
	W("vec/equal",a==b); W("vec/not_equal",a!=b); W("vec/isnan",T::isnan(a)); W("vec/isfinite",T::isfinite(a));
	{ T::Vector<N,P> x(n); x[0]=a[0]; for(int i=1;i<n;i++) x[i]=x[i-1]*P(.5)+b[i]; W("vec/recurrence",x); const P*q=x.get_data_ptr(); W("vec/wrapped",T::Vector<N,P>(T::Vector<Dyn,const P,T::Reference>(q,n)*P(1))); }
}
template<class P> void named(Rng&g,Rec&d){ T::Vector<3,P> a=rv<3,P>(g); ::NamedPoint<P> p(a); W("named/elements",p.px); d.put(p.py); d.put(p.pz); p.py=P(3); W("named/vector",T::Vector<3,P>(p*P(2)+a)); ::NamedPoint<P> q=p; q.px=q[1]; W("named/copy",T::Vector<3,P>(q)); W("named/cross",T::Vector<3,P>(T::Vector<3,P>(a)^T::Vector<3,P>(q))); T::Vector<4,P> c(T::makeVector<P>(a[0],a[1],a[2],P(1))); W("named/make",c); }
template<int R,int C,class P> void matrices(Rng&g,Rec&d,int r=R,int c=C){
	typedef T::Matrix<R,C,P> A_; A_ a=rm<R,C,P>(g,r,c),b=rm<R,C,P>(g,r,c); T::Matrix<R,C,P,T::ColMajor> cm(r,c); cm=a; P s=val<P>(g)+P(7); T::Vector<C,P> v=rv<C,P>(g,c); T::Vector<R,P> u=rv<R,P>(g,r); T::Matrix<C,4,P> k=rm<C,4,P>(g,c,4);
	W("mat/sum",A_(a+b)); W("mat/difference",A_(a-cm)); W("mat/negate",A_(-a)); W("mat/scale",A_(a*s)); W("mat/divide",A_(s*b/s)); W("mat/product",T::Matrix<R,4,P>(a*k)); W("mat/product_transposed",T::Matrix<R,R,P>(a*b.T())); W("mat/product_colmajor",T::Matrix<C,C,P>(cm.T()*b)); W("mat/times_vector",T::Vector<R,P>(a*v)); W("mat/vector_times",T::Vector<C,P>(u*cm)); W("mat/transpose",T::Matrix<C,R,P>(a.T())); W("mat/chain",T::Matrix<R,4,P>((a+b)*k*s)); W("mat/diagmult",T::Matrix<R,C,P>(T::diagmult(u,a)));
	{ A_ q=a; q+=b; q-=a*s; q*=s; q/=P(3); W("mat/compound_assign",q); q=T::Zeros(r,c); W("mat/zeros",q); q=T::Ones*s; W("mat/ones",q); q=cm; W("mat/colmajor_assign",q); q[r-1]=v; q.T()[0]=u; W("mat/row_column_assign",q); q.T()=b.T(); W("mat/transposed_assign",q); q.diagonal_slice()=T::Ones*s; W("mat/diagonal_assign",q); T::Matrix<Dyn,Dyn,P> z(q); z=a; W("mat/dynamic_assign",z); const A_ w(z); W("mat/copied",w); T::Matrix<Dyn,Dyn,P> y(std::move(z)); W("mat/moved",y); }
	W("mat/norm_fro",T::norm_fro(a)); W("mat/norm_inf",T::norm_inf(a)); W("mat/norm_1",T::norm_1(a)); W("mat/row",T::Vector<C,P>(a[r/2])); W("mat/column",T::Vector<R,P>(a.T()[c/2])); if(r>1&&c>1){ W("mat/slice",T::Matrix<Dyn,Dyn,P>(a.slice(1,0,r-1,c-1))); a.slice(0,1,r-1,c-1)=b.slice(1,0,r-1,c-1); W("mat/slice_assign",a); W("mat/static_slice",T::Matrix<2,2,P>(cm.template slice<0,0,2,2>())); W("mat/slice_of_slice",T::Matrix<Dyn,Dyn,P>(cm.slice(0,0,r,c-1).T().slice(0,1,c-1,r-1))); }
	{ std::ostringstream o; o.precision(21); o<<a; W("mat/text",o.str()); std::istringstream i(o.str()); T::Matrix<R,C,P,T::ColMajor> q(r,c); i>>q; W("mat/read",q); }
	W("mat/equal",a==b); { T::Matrix<R,R,P> id=T::Identity(r); W("mat/identity",id); id+=T::Identity; W("mat/identity_sum",id); T::Matrix<R,R,P> dg(T::Identity(r)*s); W("mat/identity_scaled",dg); T::DiagonalMatrix<R,P> D(u); W("mat/diagonal_times",A_(D*a)); W("mat/diagonal_vector",T::Vector<R,P>(D*u)); }
	{ A_ x(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) x(i,j)=i+j==0?s:i?x(i-1,j)*P(.5)+a(i,j):x(i,j-1)-b(i,j); W("mat/recurrence",x); }
}
template<class P> void filled(Rng&g,Rec&d){ P a=val<P>(g),b=val<P>(g); T::Vector<3,P> v; T::Fill(v)=a,b,P(3); W("fill/vector",v); T::Matrix<2,3,P> m; T::Fill(m)=a,b,P(3),P(4),P(5),P(6); W("fill/matrix",m); T::Matrix<Dyn,Dyn,P> q(2,2); T::Fill(q)=b,a,b,a; W("fill/mixed",q); T::Matrix<2,2,P> w=T::Data(a,b,P(1),P(2)); W("fill/data",w); T::Vector<4,P> l{{a,b,P(7),P(8)}}; W("fill/list",l); T::Vector<Dyn,P> e(T::makeVector<P>(a,b)); W("fill/make",e); P arr[3]={a,b,a}; T::Vector<3,P> x; x=T::wrapVector<3>(arr); W("fill/array",x); T::Matrix<Dyn,2,P> h(2,2); h=w; h=h*w; W("fill/half",h); }
void complexes(Rng&g,Rec&d){ typedef std::complex<double> C; T::Vector<3,C> v; for(int i=0;i<3;i++){ double x=g.normal(),y=g.normal(); v[i]=C(x,y); } T::Matrix<3,3,C> m; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double x=g.normal(),y=g.normal(); m(i,j)=C(x,y); } W("complex/sum",T::Vector<3,C>(v+v)); W("complex/product",T::Vector<3,C>(m*v)); W("complex/matrix",T::Matrix<3,3,C>(m*m.T())); W("complex/dot",v*v); W("complex/scaled",T::Vector<3,C>(v*C(0,2))); T::Vector<Dyn,C> x(5); x=T::Zeros; x.slice(1,3)=v; W("complex/slice",x); W("complex/double",T::Vector<3,C>(m*T::makeVector<double>(1.0,2.0,3.0))); }
// ------------------------------------------------------------------ linear algebra
template<int N,class P> void solvers(Rng&g,Rec&d,int n=N){
	T::Matrix<N,N,P> a=reg<N,P>(g,n),s=spd<N,P>(g,n); T::Vector<N,P> b=rv<N,P>(g,n); T::Matrix<N,2,P> B=rm<N,2,P>(g,n,2); T::Matrix<N,Dyn,P> BD(n,3); for(int i=0;i<n;i++) for(int j=0;j<3;j++) BD(i,j)=b[(i+j)%n];
	W("ge/vector",T::gaussian_elimination(a,b)); W("ge/matrix",T::gaussian_elimination(a,B)); { T::Matrix<N,Dyn,P> ab(n,2*n); ab.template slice<0,0,N,N>(0,0,n,n)=a; ab.template slice<0,Dyn,N,N>(0,n,n,n)=T::Identity; T::gauss_jordan(ab); W("gj/inverse",ab); }
	W("det/elimination",T::determinant_gaussian_elimination(a)); 
	T::Cholesky<N,P> ch(s); W("chol/vector",ch.backsub(b)); W("chol/matrix",ch.backsub(B)); W("chol/inverse",ch.get_inverse()); W("chol/determinant",ch.determinant()); W("chol/L",ch.get_unscaled_L()); W("chol/D",ch.get_D()); W("chol/rank",ch.rank()); W("chol/mahalanobis",ch.mahalanobis(b)); W("chol/LL",ch.get_L()); s(0,0)+=2; ch.compute(s); W("chol/again",ch.backsub(BD));
	T::QR<N,N,P> qr(a); W("qr/Q",qr.get_Q()); W("qr/R",qr.get_R());
}
template<int N,class P> void lapack(Rng&g,Rec&d,int n=N){
	T::Matrix<N,N,P> a=reg<N,P>(g,n),s=spd<N,P>(g,n); T::Vector<N,P> b=rv<N,P>(g,n); T::Matrix<N,2,P> B=rm<N,2,P>(g,n,2);
	W("det/auto",T::determinant(a));
#ifdef TOON_USE_LAPACK
	W("det/lu",T::determinant_LU(a));
#endif
	T::LU<N,P> lu(a); W("lu/vector",lu.backsub(b)); W("lu/matrix",lu.backsub(B)); W("lu/inverse",lu.get_inverse()); W("lu/determinant",lu.determinant()); W("lu/packed",lu.get_lu()); W("lu/info",lu.get_info()); a(0,0)+=1; lu.compute(a); W("lu/again",lu.backsub(b)); a=T::Zeros(n,n); lu.compute(a); W("lu/singular",lu.get_info()); a=reg<N,P>(g,n);
	T::Lapack_Cholesky<N,P> lc(s); W("lchol/vector",lc.backsub(b)); W("lchol/matrix",lc.backsub(B)); W("lchol/inverse",lc.get_inverse()); W("lchol/determinant",lc.determinant()); W("lchol/rank",lc.rank()); W("lchol/L",lc.get_L()); W("lchol/mahalanobis",lc.mahalanobis(b));
	T::SymEigen<N,P> se(s); W("sym/values",se.get_evalues()); W("sym/vectors",se.get_evectors()); W("sym/backsub",se.backsub(b)); W("sym/backsub_matrix",se.backsub(B)); W("sym/pinv",se.get_pinv(1e6)); W("sym/sqrtm",se.get_sqrtm()); W("sym/isqrtm",se.get_isqrtm(1e6)); W("sym/determinant",se.get_determinant()); W("sym/posdef",se.is_posdef()); W("sym/negdef",se.is_negdef()); T::Matrix<N,N,P> neg=-s; se.compute(neg); W("sym/again",se.get_evalues());
	T::SVD<N,N,P> sv(a); W("svd/U",sv.get_U()); W("svd/values",sv.get_diagonal()); W("svd/VT",sv.get_VT()); W("svd/vector",sv.backsub(b)); W("svd/matrix",sv.backsub(B,1e4)); W("svd/pinv",sv.get_pinv()); W("svd/rank",sv.rank()); W("svd/determinant",sv.determinant()); T::SQSVD<N,P> sq(s); W("svd/square",sq.get_diagonal());
}
// singular problems, and objects that are constructed first and computed later
template<int N,class P> void deficient(Rng&g,Rec&d,int n=N){
	T::Matrix<N,N,P> a=rm<N,N,P>(g,n,n),q(n,n); const int k=g.range(0,n-1); for(int j=k;j<n;j++) a[j]=n>1&&k>0?T::Vector<N,P>(a[0]*P(2)):T::Vector<N,P>(T::Zeros(n)); q=a*a.T(); for(int i=0;i<n;i++) for(int j=0;j<i;j++) q(i,j)=q(j,i); T::Vector<N,P> b=rv<N,P>(g,n); T::Matrix<N,2,P> B=rm<N,2,P>(g,n,2); const P c=P(1e3);
	{ T::SVD<N,N,P> s(a); W("deficient/svd_pinv",s.get_pinv(c)); W("deficient/svd_vector",s.backsub(b,c)); W("deficient/svd_matrix",s.backsub(B,c)); W("deficient/svd_rank",s.rank(c)); T::Vector<N,double> z(n); s.get_inv_diag(z,c); W("deficient/svd_inverse_diagonal",z); s.compute(a.T()); W("deficient/svd_transposed",s.get_pinv(c)); }
	{ T::SQSVD<N,P> s(q); W("deficient/sqsvd",s.backsub(b,c)); }
	{ T::SymEigen<N,P> s(q); W("deficient/sym_pinv",s.get_pinv(c)); W("deficient/sym_vector",s.backsub(b)); W("deficient/sym_matrix",s.backsub(B)); W("deficient/sym_inverse_diagonal",s.get_inv_diag(c)); W("deficient/sym_isqrtm",s.get_isqrtm(c)); W("deficient/sym_posdef",s.is_posdef()); }
	{ T::Cholesky<N,P> s(q); W("deficient/cholesky_rank",s.rank()); T::Lapack_Cholesky<N,P> l(q); W("deficient/lapack_rank",l.rank()); }
	{ T::LU<N,P> l(a); W("deficient/lu_determinant",l.determinant()); W("deficient/lu_packed",l.get_lu()); W("deficient/determinant",T::determinant(a)); W("deficient/determinant_ge",T::determinant_gaussian_elimination(a)); }
	{ T::QR_Lapack<N,N,P> l(a,true); W("deficient/qr_R",l.get_R()); W("deficient/qr_P",l.get_P()); W("deficient/qr_Q",l.get_Q()); T::QR<N,N,P> r(a); W("deficient/qr_plain",r.get_R()); W("deficient/qr_plain_Q",r.get_Q()); }
	T::Matrix<N,N,P> s=spd<N,P>(g,n); auto later=[&](auto&c1,auto&c2,auto&c3,auto&c4){
		c1.compute(s); W("later/lapack_cholesky_L",c1.get_L()); W("later/lapack_cholesky_inverse",c1.get_inverse()); W("later/lapack_cholesky_vector",c1.backsub(b)); W("later/lapack_cholesky_rank",c1.rank());
		c2.compute(s); W("later/cholesky_L",c2.get_L()); W("later/cholesky_D",c2.get_D()); W("later/cholesky_inverse",c2.get_inverse()); W("later/cholesky_vector",c2.backsub(b)); W("later/cholesky_matrix",c2.backsub(B)); W("later/cholesky_rank",c2.rank()); W("later/cholesky_unscaled",c2.get_unscaled_L());
		c3.compute(s); W("later/sym_values",c3.get_evalues()); W("later/sym_pinv",c3.get_pinv(c)); W("later/sym_vector",c3.backsub(b));
		c4.compute(s); W("later/svd_values",c4.get_diagonal()); W("later/svd_pinv",c4.get_pinv(c)); W("later/svd_vector",c4.backsub(b)); W("later/svd_U",c4.get_U()); W("later/svd_VT",c4.get_VT()); };
	if constexpr(N<0){ T::Lapack_Cholesky<N,P> c1(n); T::Cholesky<N,P> c2(n); T::SymEigen<N,P> c3(n); T::SVD<N,N,P> c4(n,n); later(c1,c2,c3,c4); } else { T::Lapack_Cholesky<N,P> c1; T::Cholesky<N,P> c2; T::SymEigen<N,P> c3; T::SVD<N,N,P> c4; later(c1,c2,c3,c4); }
}
template<int M,int N,class P> void rectangular(Rng&g,Rec&d,int m=M,int n=N){
	T::Matrix<M,N,P> a=rm<M,N,P>(g,m,n); T::Vector<M,P> b=rv<M,P>(g,m); T::Matrix<M,2,P> B=rm<M,2,P>(g,m,2); a[m-1]=a[0]*P(2);
	T::SVD<M,N,P> sv(a); W("rsvd/U",sv.get_U()); W("rsvd/values",sv.get_diagonal()); W("rsvd/VT",sv.get_VT()); W("rsvd/vector",sv.backsub(b,P(1e4))); W("rsvd/matrix",sv.backsub(B,P(1e4))); W("rsvd/pinv",sv.get_pinv(P(1e4))); W("rsvd/rank",sv.rank(P(1e4))); { T::Vector<(M<0||N<0?Dyn:(M<N?M:N)),P> z(std::min(m,n)); sv.get_inv_diag(z,P(1e4)); W("rsvd/inverse_diagonal",z); }
	T::Matrix<N,M,P> at(n,m); at=a.T(); T::QR_Lapack<N,M,P> ql(at); W("qrl/Q",ql.get_Q()); W("qrl/R",ql.get_R()); W("qrl/P",ql.get_P()); T::QR_Lapack<N,M,P> q2(at,true); W("qrl/pivoted_R",q2.get_R()); W("qrl/pivoted_P",q2.get_P()); W("qrl/pivoted_Q",q2.get_Q()); T::QR<N,M,P> qr(at); W("qr/rectangular_Q",qr.get_Q()); W("qr/rectangular_R",qr.get_R());
}
template<int M,int N,class P> void grsvd(Rng&g,Rec&d){ T::Matrix<M,N,P> a=rm<M,N,P>(g); if(g.chance(.3)) a[M-1]=a[0]; if(N>1&&g.chance(.3)) a.T()[N-1]=a.T()[0]; T::Vector<M,P> b=rv<M,P>(g); T::GR_SVD<M,N,P> s(a); W("gr/values",s.get_diagonal()); W("gr/U",s.get_U()); W("gr/V",s.get_V()); W("gr/vector",s.backsub(b)); W("gr/pinv",s.get_pinv()); s.reorder(); W("gr/ordered",s.get_diagonal()); W("gr/ordered_backsub",s.backsub(b)); T::GR_SVD<M,N,P,0,0> v(a); W("gr/values_only",v.get_diagonal()); }
template<int N,class P> void functions(Rng&g,Rec&d,int n=N){ T::Matrix<N,N,P> a=rm<N,N,P>(g,n,n),s=spd<N,P>(g,n); a*=P(.02); W("fn/exp",T::exp(a)); W("fn/exp_big",T::exp(T::Matrix<N,N,P>(a*P(9)))); W("fn/sqrt",T::sqrt(s)); W("fn/log",T::log(s)); W("fn/exp_log",T::log(T::exp(T::Matrix<N,N,P>(a*P(.1))))); }
// ------------------------------------------------------------------ estimation
template<int N,class P,template<int,class> class D> void wls(Rng&g,Rec&d,int n=N){ T::WLS<N,P,D> w(n),x(n); w.add_prior(P(.5)); w.add_prior(spd<N,P>(g,n)); for(int i=0;i<n+2;i++){ P m=val<P>(g); T::Vector<N,P> J=rv<N,P>(g,n); P q=(P)g.unif(.1,2); w.add_mJ(m,J,q); } { T::Vector<2,P> m=rv<2,P>(g); T::Matrix<N,2,P> J=rm<N,2,P>(g,n,2); T::Matrix<2,2,P> q=spd<2,P>(g); w.add_mJ(m,J,q); T::Matrix<2,N,P> Jr(2,n); Jr=J.T(); x.add_mJ_rows(m,Jr,q); } { P m=val<P>(g); T::Vector<1,P> J=rv<1,P>(g); x.add_sparse_mJ(m,J,n-1,P(2)); T::Vector<2,P> mm=rv<2,P>(g); T::Matrix<2,1,P> JJ=rm<2,1,P>(g); T::Matrix<2,2,P> q=spd<2,P>(g); x.add_sparse_mJ_rows(mm,JJ,0,q); }
	w+=x; w.compute(); W("wls/mu",w.get_mu()); W("wls/information",w.get_C_inv()); W("wls/vector",w.get_vector()); w.clear(); W("wls/cleared",w.get_C_inv()); w.add_prior(P(2)); w.add_mJ(P(1),rv<N,P>(g,n)); w.compute(); W("wls/again",w.get_mu()); x.add_prior(P(3)); x.compute(); W("wls/second",x.get_mu()); T::WLS<N,P,D> y(x); y.compute(); W("wls/copy",y.get_mu()); }
template<int N,class P> void irls(Rng&g,Rec&d,int n=N){ uint64_t seed=g.u64();
	auto run=[&](auto&w,const char*l){ Rng q(seed); w.add_prior(P(1)); for(int i=0;i<n+4;i++){ P m=val<P>(q); T::Vector<N,P> J=rv<N,P>(q,n); w.add_mJ(m,J); } w.compute(); d.l=l; d.put(w.get_mu()); d.put(w.get_C_inv()); d.put(w.get_residual()); d.put(w.get_true_C_inv()); w.clear(); w.add_prior(P(2)); w.add_mJ(P(3),rv<N,P>(q,n)); w.compute(); d.put(w.get_mu()); d.put(w.get_residual()); };
	{ T::IRLS<N,P,T::RobustI> w(n); w.sd_inlier=(P)1.5; run(w,"irls/I"); } { T::IRLS<N,P,T::RobustII> w(n); w.sd_inlier=(P).5; run(w,"irls/II"); } { T::IRLS<N,P,T::ILinear> w(n); run(w,"irls/linear"); } }
// ------------------------------------------------------------------ groups
template<class P> void so(Rng&g,Rec&d){ T::Vector<3,P> a=rv<3,P>(g),b=rv<3,P>(g)*P(.01); if(g.chance(.2)) b*=P(1e-6); T::SO3<P> x(a),y(b),i; W("so3/exp",x); W("so3/small",y); W("so3/ln",x.ln()); W("so3/ln_small",y.ln()); W("so3/product",T::SO3<P>(x*y)); W("so3/inverse",x.inverse()); W("so3/act",T::Vector<3,P>(x*a)); W("so3/act_left",T::Vector<3,P>(a*x)); W("so3/matrix",T::Matrix<3,3,P>(x*T::Matrix<3,3,P>(T::Identity))); W("so3/adjoint",x.adjoint(b)); x*=y; W("so3/in_place",x); W("so3/identity",i); for(int k=0;k<3;k++){ W("so3/generator",T::SO3<P>::generator(k)); W("so3/generator_field",T::SO3<P>::generator_field(k,a)); } T::Vector<3,P> u=T::unit(T::Vector<3,P>(a+T::Ones*P(9))),v=T::unit(T::Vector<3,P>(b-T::Ones*P(9))); W("so3/two_vectors",T::SO3<P>(u,v)); x=T::Matrix<3,3,P>(x.get_matrix()*P(1.01)); W("so3/coerced",x);
	P t=val<P>(g); T::SO2<P> r(t),q(P(.5)); W("so2/exp",r); W("so2/ln",r.ln()); W("so2/product",T::SO2<P>(r*q)); W("so2/inverse",r.inverse()); W("so2/act",T::Vector<2,P>(r*T::makeVector<P>(a[0],a[1]))); W("so2/generator",T::SO2<P>::generator()); std::ostringstream o; o.precision(21); o<<r<<x; W("so/text",o.str()); std::istringstream is(o.str()); T::SO2<P> r2; T::SO3<P> x2; is>>r2>>x2; W("so/read",r2); W("so/read3",x2); }
template<class P> void se(Rng&g,Rec&d){ T::Vector<6,P> a=rv<6,P>(g),b=rv<6,P>(g)*P(.01); if(g.chance(.3)) b.template slice<3,3>()*=P(1e-7); T::SE3<P> x(a),y(b),i; W("se3/exp",x); W("se3/small",y); W("se3/ln",x.ln()); W("se3/ln_small",y.ln()); W("se3/product",T::SE3<P>(x*y)); W("se3/inverse",x.inverse()); W("se3/act",T::Vector<3,P>(x*a.template slice<0,3>())); W("se3/act4",T::Vector<4,P>(x*T::unproject(a.template slice<0,3>()))); W("se3/left",T::Vector<4,P>(T::unproject(b.template slice<0,3>())*x)); W("se3/adjoint",x.adjoint(b)); W("se3/trinv",x.trinvadjoint(b)); W("se3/adjoint_matrix",x.adjoint(T::Matrix<6,6,P>(T::Identity))); W("se3/trinv_matrix",x.trinvadjoint(spd<6,P>(g))); x*=y; W("se3/in_place",x); x.left_multiply_by(y); W("se3/left_multiply",x); W("se3/identity",i); for(int k=0;k<6;k++){ W("se3/generator",T::SE3<P>::generator_field(k,T::unproject(a.template slice<0,3>()))); } W("se3/rotation_product",T::SE3<P>(x.get_rotation()*y)); W("se3/matrix",T::Matrix<4,4,P>(x*T::Matrix<4,4,P>(T::Identity)));
	T::Vector<3,P> c=rv<3,P>(g),e=rv<3,P>(g)*P(.001); T::SE2<P> p(c),q(e); W("se2/exp",p); W("se2/ln",p.ln()); W("se2/ln_small",q.ln()); W("se2/product",T::SE2<P>(p*q)); W("se2/inverse",p.inverse()); W("se2/act",T::Vector<2,P>(p*T::makeVector<P>(a[0],a[1]))); W("se2/adjoint",p.adjoint(e)); W("se2/act3",T::Vector<3,P>(p*e)); std::ostringstream o; o.precision(21); o<<p<<x; W("se/text",o.str()); std::istringstream is(o.str()); T::SE2<P> p2; T::SE3<P> x2; is>>p2>>x2; W("se/read",p2); W("se/read3",x2); }
template<class P> void sim(Rng&g,Rec&d){ T::Vector<7,P> a=rv<7,P>(g),b=rv<7,P>(g)*P(.01); for(int k=0;k<7;k++) a[k]/=P(100); if(g.chance(.5)) b[6]*=P(1e-7); T::SIM3<P> x(a),y(b),i; W("sim3/exp",x); W("sim3/small",y); W("sim3/ln",x.ln()); W("sim3/ln_small",y.ln()); W("sim3/product",T::SIM3<P>(x*y)); W("sim3/inverse",x.inverse()); W("sim3/act",T::Vector<3,P>(x*a.template slice<0,3>())); W("sim3/act4",T::Vector<4,P>(x*T::unproject(a.template slice<0,3>()))); W("sim3/adjoint",x.adjoint(b)); W("sim3/trinv",x.trinvadjoint(b)); W("sim3/adjoint_matrix",x.adjoint(T::Matrix<7,7,P>(T::Identity))); x*=y; W("sim3/in_place",x); x.left_multiply_by(y); W("sim3/left_multiply",x); W("sim3/identity",i); 
	T::Vector<4,P> c=rv<4,P>(g)/P(100),e=rv<4,P>(g)*P(.001); T::SIM2<P> p(c),q(e); W("sim2/exp",p); W("sim2/ln",p.ln()); W("sim2/ln_small",q.ln()); W("sim2/product",T::SIM2<P>(p*q)); W("sim2/inverse",p.inverse()); W("sim2/act",T::Vector<2,P>(p*T::makeVector<P>(a[0],a[1]))); W("sim2/adjoint",p.adjoint(e)); std::ostringstream o; o.precision(21); o<<p<<x; W("sim/text",o.str()); }
template<int N,class P> void sl(Rng&g,Rec&d){ T::Vector<N*N-1,P> a=rv<N*N-1,P>(g)*P(.01),b=rv<N*N-1,P>(g)*P(.002); T::SL<N,P> x(a),y(b); W("sl/exp",x); W("sl/ln",x.ln()); W("sl/product",T::SL<N,P>(x*y)); W("sl/inverse",x.inverse()); W("sl/act",T::Vector<N,P>(x*rv<N,P>(g))); for(int k=0;k<N*N-1;k++) W("sl/generator",T::SL<N,P>::generator(k)); T::Matrix<N,N,P> m=spd<N,P>(g); T::SL<N,P> z(m); W("sl/matrix",z); x*=z; W("sl/in_place",x); }
// ------------------------------------------------------------------ functions and optimisers
template<class P> struct Fun { T::Vector<Dyn,P> k,m; Fun(Rng&g,int n):k(n),m(n){ for(int i=0;i<n;i++){ k[i]=(P)g.unif(.5,3); m[i]=(P)g.normal(); } } 
	template<int N,class Q,class B> P operator()(const T::Vector<N,Q,B>&x)const{ P s=0; for(int i=0;i<x.size();i++){ P e=x[i]-m[i]; s+=k[i]*e*e+(i?P(.1)*e*(x[i-1]-m[i-1]):P(0)); } return s; }
	P operator()(P x)const{ P e=x-m[0]; return k[0]*e*e+P(.1)*e*e*e*e; } };
template<class P> struct FunGrad { const Fun<P>&f; template<int N,class Q,class B> T::Vector<N,P> operator()(const T::Vector<N,Q,B>&x)const{ T::Vector<N,P> r(x.size()); const int n=x.size(); for(int i=0;i<n;i++){ r[i]=2*f.k[i]*(x[i]-f.m[i]); if(i) r[i]+=P(.1)*(x[i-1]-f.m[i-1]); if(i+1<n) r[i]+=P(.1)*(x[i+1]-f.m[i+1]); } return r; } };
template<int N,class P> void optimise(Rng&g,Rec&d,int n=N){ Fun<P> f(g,n); FunGrad<P> df{f}; T::Vector<N,P> x=rv<N,P>(g,n);
	{ T::DownhillSimplex<N,P> s(f,x,P(.7)); int k=0; while(k++<200&&s.iterate(f)); W("simplex/points",s.get_simplex()); W("simplex/values",s.get_values()); W("simplex/best",s.get_best()); W("simplex/count",k); s.restart(f,s.get_simplex()[s.get_best()],P(.1)); W("simplex/restart",s.get_simplex()); T::Vector<N,P> spread(n); spread=T::Ones*P(.3); s.restart(f,x,P(.3)); W("simplex/restart2",s.get_values()); }
	{ T::ConjugateGradient<N,P> c(x,f,df); int k=0; while(k++<40&&c.iterate(f,df)); W("cg/x",c.x); W("cg/y",c.y); W("cg/iterations",c.iterations); W("cg/g",c.g); W("cg/h",c.h); }
	{ P m=f.m[0],a=m-P(g.unif(1,5)),b=m+P(g.unif(1,5)),c=m+P(g.unif(-.5,.5)); W("line/brent",T::brent_line_search(a,c,b,f(c),f,100)); W("line/golden",T::golden_section_search(a,c,b,f,100)); W("line/golden_value",T::golden_section_search(a,c,b,f(c),f,100)); } }
template<int N> void derivatives(Rng&g,Rec&d,int n=N){ Fun<double> f(g,n); T::Vector<N,double> x=rv<N,double>(g,n); x/=10; W("deriv/gradient",T::numerical_gradient(f,x)); W("deriv/gradient_errors",T::numerical_gradient_with_errors(f,x)); W("deriv/hessian",T::numerical_hessian(f,x)); auto h=T::numerical_hessian_with_errors(f,x); W("deriv/hessian_value",h.first); W("deriv/hessian_errors",h.second); }

typedef void(*Fn)(Rng&,Rec&);
struct Item { const char* name; Fn f; };
#define I1(n,...) {n,[](Rng&g,Rec&d){ __VA_ARGS__; }}
inline const std::vector<Item>& items(){ static const std::vector<Item> v={
	I1("vectors",vectors<4,double>(g,d)), I1("vectors_dyn",vectors<Dyn,double>(g,d,g.range(2,20))), I1("vectors_float",vectors<3,float>(g,d)), I1("vectors_big",vectors<200,double>(g,d)), I1("vectors_ld",vectors<3,long double>(g,d)),
	I1("named",named<double>(g,d);named<float>(g,d)), I1("matrices",matrices<3,4,double>(g,d)), I1("matrices_dyn",int r=g.range(1,7),c=g.range(1,7); matrices<Dyn,Dyn,double>(g,d,r,c)), I1("matrices_half",matrices<Dyn,3,double>(g,d,g.range(2,5),3)), I1("matrices_float",matrices<2,2,float>(g,d)), I1("matrices_big",matrices<13,12,double>(g,d)), I1("filled",filled<double>(g,d);filled<float>(g,d)), I1("complex",complexes(g,d)),
	I1("solvers",solvers<3,double>(g,d)), I1("solvers_dyn",solvers<Dyn,double>(g,d,g.range(1,9))), I1("solvers_float",solvers<4,float>(g,d)), I1("solvers_ld",solvers<3,long double>(g,d)),
	I1("lapack",lapack<4,double>(g,d)), I1("lapack3",lapack<3,double>(g,d)), I1("lapack2",lapack<2,double>(g,d)), I1("lapack_dyn",lapack<Dyn,double>(g,d,g.range(1,12))), I1("lapack_float",lapack<4,float>(g,d)), I1("rectangular",rectangular<5,3,double>(g,d)), I1("rectangular_dyn",rectangular<Dyn,Dyn,double>(g,d,7,g.range(1,6))), I1("rectangular_float",rectangular<4,2,float>(g,d)),
	I1("deficient",deficient<4,double>(g,d)), I1("deficient3",deficient<3,double>(g,d)), I1("deficient_dyn",deficient<Dyn,double>(g,d,g.range(1,7))), I1("deficient_float",deficient<4,float>(g,d)),
	I1("grsvd",grsvd<5,3,double>(g,d)), I1("grsvd_float",grsvd<3,3,float>(g,d)), I1("functions",functions<3,double>(g,d)), I1("functions_dyn",functions<Dyn,double>(g,d,g.range(1,6))),
	I1("wls",wls<4,double,T::Cholesky>(g,d)), I1("wls_dyn",wls<Dyn,double,T::Cholesky>(g,d,g.range(2,6))), I1("wls_svd",wls<3,double,T::SQSVD>(g,d)), I1("wls_float",wls<3,float,T::Cholesky>(g,d)), I1("irls",irls<3,double>(g,d)), I1("irls_dyn",irls<Dyn,double>(g,d,g.range(2,5))),
	I1("so",so<double>(g,d)), I1("so_float",so<float>(g,d)), I1("se",se<double>(g,d)), I1("se_float",se<float>(g,d)), I1("sim",sim<double>(g,d)), I1("sl3",sl<3,double>(g,d)), I1("sl2",sl<2,double>(g,d)), I1("sl4_float",sl<4,float>(g,d)),
	I1("optimise",optimise<3,double>(g,d)), I1("optimise_dyn",optimise<Dyn,double>(g,d,g.range(1,5))), I1("optimise_float",optimise<2,float>(g,d)), I1("derivatives",derivatives<3>(g,d)), I1("derivatives_dyn",derivatives<Dyn>(g,d,g.range(1,5))) };
	return v; }
#undef I1
}
