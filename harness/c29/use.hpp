// One small program per public header. Included after that header alone (-DUSE_HDR=k -DUSE_FN=name) or after all of
// them; reads numbers from `in`, writes numbers to `out`. VPP/VPQ make the element type explicit (", float" / "float").
#ifndef VPP
#define VPP
#define VPQ
#define VPD TooN::DefaultPrecision
#else
#define VPD VPQ
#endif
namespace USE_NS {
typedef VPD DP;
struct Out { double* o; int n; Out(double*p):o(p),n(0){}
	void operator()(double x){ o[n++]=x; }
	template<int N,class P,class B> void operator()(const TooN::Vector<N,P,B>&v){ o[n++]=sizeof(P); for(int i=0;i<v.size();i++) o[n++]=(double)v[i]; }
	template<int R,int C,class P,class B> void operator()(const TooN::Matrix<R,C,P,B>&m){ o[n++]=sizeof(P); for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) o[n++]=(double)m(i,j); }
};
template<class V> void fillv(V&v,const double*in){ for(int i=0;i<v.size();i++) v[i]=(int)(in[i]*64)/64.0; }
template<class M> void fillm(M&m,const double*in){ for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) m(i,j)=(int)(in[i*m.num_cols()+j]*64)/64.0; }
template<class M> void fills(M&m,const double*in){ fillm(m,in); for(int i=0;i<m.num_rows();i++){ for(int j=0;j<i;j++) m(i,j)=m(j,i); m(i,i)+=9+i; } }
#if USE_HDR==0 || USE_HDR==1   /* TooN.h */
inline int toon(const double*in,double*out){ Out o(out); TooN::Vector<3 VPP> a,b; fillv(a,in); fillv(b,in+3); TooN::Matrix<3,3 VPP> m; fillm(m,in+6); TooN::Matrix<TooN::Dynamic,TooN::Dynamic VPP> d(2,3); fillm(d,in+15); TooN::Vector<TooN::Dynamic VPP> v(4); fillv(v,in);
	TooN::Vector<TooN::Resizable VPP> r; r.resize(3); r=a; m+=TooN::Identity; o(m); o(a+b); o(a*b); o(a^b); o(d*m); o(d.T()); o(m*a); o(v.slice(1,2)); o(TooN::makeVector((DP)1,(DP)(int)(in[1]*8),(DP)2)*(DP)1); o(r); TooN::Matrix<2,2 VPP> f=TooN::Data(1,2,3,4); o(f); TooN::DiagonalMatrix<3 VPP> g(a); o(g*b); m=TooN::Zeros; m[1]=b; o(m); TooN::Fill(a)=1,2,3; o(a); o(TooN::determinant(f)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==2   /* helpers.h */
inline int helpers(const double*in,double*out){ Out o(out); TooN::Vector<3 VPP> a; fillv(a,in); TooN::Matrix<3,3 VPP> m; fillm(m,in+3); o(TooN::norm(a)); o(TooN::norm_sq(a)); o(TooN::norm_1(a)); o(TooN::norm_inf(a)); o(TooN::unit(a)); o(TooN::project(a)); o(TooN::unproject(a)); m/=8; o(TooN::exp(m)); o(TooN::trace(m)); o(TooN::norm_fro(m)); o(TooN::norm_1(m)); o(TooN::sqrt(TooN::exp(m))); o(TooN::log(TooN::exp(m))); o(TooN::cross_product_matrix(a)); TooN::Symmetrize(m); o(m); o(TooN::min_value(a)); o(TooN::max_value(m)); o(TooN::isnan(a)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==3   /* Cholesky.h */
inline int cholesky(const double*in,double*out){ Out o(out); TooN::Matrix<3,3 VPP> m; fills(m,in); TooN::Vector<3 VPP> a; fillv(a,in+9); TooN::Cholesky<3 VPP> c(m); o(c.backsub(a)); o(c.determinant()); o(c.get_inverse()); o(c.get_L()); o(c.get_D()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==4   /* Lapack_Cholesky.h */
inline int lapack_cholesky(const double*in,double*out){ Out o(out); TooN::Matrix<3,3 VPP> m; fills(m,in); TooN::Vector<3 VPP> a; fillv(a,in+9); TooN::Lapack_Cholesky<3 VPP> c(m); o(c.backsub(a)); o(c.determinant()); o(c.get_inverse()); o(c.get_L()); o(c.rank()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==5   /* LU.h */
inline int lu(const double*in,double*out){ Out o(out); TooN::Matrix<3,3 VPP> m; fills(m,in); TooN::Vector<3 VPP> a; fillv(a,in+9); TooN::LU<3 VPP> c(m); o(c.backsub(a)); o(c.determinant()); o(c.get_inverse()); o(c.get_lu()); o(c.get_info()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==6   /* QR.h */
inline int qr(const double*in,double*out){ Out o(out); TooN::Matrix<3,3 VPP> m; fillm(m,in); TooN::QR<3,3 VPP> c(m); o(c.get_Q()); o(c.get_R()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==7   /* QR_Lapack.h */
inline int qr_lapack(const double*in,double*out){ Out o(out); TooN::Matrix<3,3 VPP> m; fillm(m,in); TooN::QR_Lapack<3,3 VPP> c(m); o(c.get_Q()); o(c.get_R()); o(c.get_P()[0]); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==8   /* SVD.h */
inline int svd(const double*in,double*out){ Out o(out); TooN::Matrix<4,3 VPP> m; fillm(m,in); TooN::Vector<4 VPP> a; fillv(a,in+12); TooN::SVD<4,3 VPP> c(m); o(c.backsub(a)); o(c.get_pinv()); o(c.get_diagonal()); o(c.get_U()); o(c.get_VT()); o(c.rank()); TooN::Matrix<3,3 VPP> q; fills(q,in); TooN::SQSVD<3,DP> e(q); o(e.get_diagonal());  return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==9   /* GR_SVD.h */
inline int gr_svd(const double*in,double*out){ Out o(out); TooN::Matrix<4,3 VPP> m; fillm(m,in); TooN::Vector<4 VPP> a; fillv(a,in+12); TooN::GR_SVD<4,3 VPP> c(m); o(c.backsub(a)); o(c.get_pinv()); o(c.get_diagonal()); o(c.get_U()); o(c.get_V()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==10  /* SymEigen.h */
inline int symeigen(const double*in,double*out){ Out o(out); TooN::Matrix<4,4 VPP> m; fills(m,in); TooN::Vector<4 VPP> a; fillv(a,in+16); TooN::SymEigen<4 VPP> c(m); o(c.backsub(a)); o(c.get_pinv()); o(c.get_evalues()); o(c.get_evectors()); o(c.is_posdef()); o(c.get_sqrtm()); TooN::Matrix<3,3 VPP> q; fills(q,in); TooN::SymEigen<3 VPP> e(q); o(e.get_evalues()); TooN::Matrix<2,2 VPP> r; fills(r,in); TooN::SymEigen<2 VPP> h(r); o(h.get_evectors()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==11  /* determinant.h */
inline int determinants(const double*in,double*out){ Out o(out); TooN::Matrix<3,3 VPP> m; fillm(m,in); o(TooN::determinant(m)); o(TooN::determinant_gaussian_elimination(m)); TooN::Matrix<2,2 VPP> n; fillm(n,in); o(TooN::determinant(n)); TooN::Matrix<TooN::Dynamic,TooN::Dynamic VPP> d(5,5); fills(d,in); o(TooN::determinant(d)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==12  /* gauss_jordan.h */
inline int gauss_jordan(const double*in,double*out){ Out o(out); TooN::Matrix<2,4 VPP> m; fillm(m,in); m(0,0)+=9; m(1,1)+=9; TooN::gauss_jordan(m); o(m); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==13  /* gaussian_elimination.h */
inline int gaussian_elimination(const double*in,double*out){ Out o(out); TooN::Matrix<3,3 VPP> m; fills(m,in); TooN::Vector<3 VPP> a; fillv(a,in+9); TooN::Matrix<3,2 VPP> b; fillm(b,in+12); o(TooN::gaussian_elimination(m,a)); o(TooN::gaussian_elimination(m,b)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==14  /* wls.h */
inline int wls(const double*in,double*out){ Out o(out); TooN::WLS<3 VPP> w; w.add_prior(1); for(int i=0;i<5;i++){ TooN::Vector<3 VPP> j; fillv(j,in+3*i); w.add_mJ(in[i+20],j,.5); } w.compute(); o(w.get_mu()); o(w.get_C_inv()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==15  /* irls.h */
inline int irls(const double*in,double*out){ Out o(out); TooN::IRLS<3,DP,TooN::RobustI> w; w.add_prior(1); w.sd_inlier=1; for(int i=0;i<5;i++){ TooN::Vector<3 VPP> j; fillv(j,in+3*i); w.add_mJ((DP)(int)(in[i+20]*64)/64.0,j); } w.compute(); o(w.get_mu()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==16  /* so2.h */
inline int so2(const double*in,double*out){ Out o(out); TooN::SO2<VPQ> a((DP)(int)(in[0]*64)/64),b; b=a*a; TooN::Vector<2 VPP> v; fillv(v,in); o(a.get_matrix()); o(b*v); o(v*b); o(b.ln()); o(b.inverse().get_matrix()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==17  /* se2.h */
inline int se2(const double*in,double*out){ Out o(out); TooN::Vector<3 VPP> x; fillv(x,in); TooN::SE2<VPQ> a(x),b; b=a*a; TooN::Vector<2 VPP> v; fillv(v,in+3); o(a.get_rotation().get_matrix()); o(b*v); o(b.ln()); o(b.inverse().get_translation()); o(a.adjoint(x)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==18  /* so3.h */
inline int so3(const double*in,double*out){ Out o(out); TooN::Vector<3 VPP> x,y; fillv(x,in); fillv(y,in+3); TooN::SO3<VPQ> a(x),b(x,y); b=a*b; o(a.get_matrix()); o(b*x); o(b.ln()); o(b.inverse().get_matrix()); o(a.adjoint(y)); o(TooN::SO3<VPQ>::generator_field(1,x)); o(TooN::SO3<VPQ>::exp(y).get_matrix()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==19  /* se3.h */
inline int se3(const double*in,double*out){ Out o(out); TooN::Vector<6 VPP> x; fillv(x,in); x/=4; TooN::SE3<VPQ> a(x),b; b=a*a; TooN::Vector<3 VPP> v; fillv(v,in+6); TooN::Vector<4 VPP> h; fillv(h,in+6); o(a.get_rotation().get_matrix()); o(b*v); o(b*h); o(b.ln()); o(b.inverse().get_translation()); o(a.adjoint(x)); o(a.trinvadjoint(x)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==20  /* sim2.h */
inline int sim2(const double*in,double*out){ Out o(out); TooN::Vector<4 VPP> x; fillv(x,in); x/=4; TooN::SIM2<VPQ> a(x),b; b=a*a; TooN::Vector<2 VPP> v; fillv(v,in+6); o(a.get_rotation().get_matrix()); o(b*v); o(b.ln()); o(b.inverse().get_translation()); o(b.get_scale()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==21  /* sim3.h */
inline int sim3(const double*in,double*out){ Out o(out); TooN::Vector<7 VPP> x; fillv(x,in); x/=4; TooN::SIM3<VPQ> a(x),b; b=a*a; TooN::Vector<3 VPP> v; fillv(v,in+6); o(a.get_rotation().get_matrix()); o(b*v); o(b.ln()); o(b.inverse().get_translation()); o(b.get_scale()); o(a.adjoint(x)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==22  /* sl.h */
inline int sl(const double*in,double*out){ Out o(out); TooN::Vector<8 VPP> x; fillv(x,in); x/=8; TooN::SL<3 VPP> a(x),b; b=a*a; TooN::Vector<3 VPP> v; fillv(v,in+8); o(a.get_matrix()); o(b*v); o(b.inverse().get_matrix()); o(TooN::SL<3 VPP>::generator(4)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==23  /* functions/derivatives.h */
struct Quad { const double*in; template<int N,class P,class B> P operator()(const TooN::Vector<N,P,B>&x)const{ P s=0; for(int i=0;i<x.size();i++) s+=x[i]*x[i]*(P)(1+i)+x[i]*x[(i+1)%x.size()]+x[i]; return s; } };
inline int derivatives(const double*in,double*out){ Out o(out); TooN::Vector<3 VPP> x; fillv(x,in); Quad f={in}; o(TooN::numerical_gradient(f,x)); o(TooN::numerical_gradient_with_errors(f,x)); o(TooN::numerical_hessian(f,x)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==24  /* optimization/brent.h */
struct Par { DP c; DP operator()(DP x)const{ return (x-c)*(x-c)+1; } };
inline int brent(const double*in,double*out){ Out o(out); Par f={(DP)((int)(in[0]*64)/64.0)}; o(TooN::brent_line_search((DP)-20,(DP).5,(DP)20,f((DP).5),f,(int)100)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==25  /* optimization/golden_section.h */
struct Par2 { DP c; DP operator()(DP x)const{ return (x-c)*(x-c)+1; } };
inline int golden(const double*in,double*out){ Out o(out); Par2 f={(DP)((int)(in[0]*64)/64.0)}; o(TooN::golden_section_search((DP)-20,(DP).5,(DP)20,f,(int)100)); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==26  /* optimization/conjugate_gradient.h */
struct Bowl { template<int N,class P,class B> P operator()(const TooN::Vector<N,P,B>&x)const{ P s=0; for(int i=0;i<x.size();i++) s+=(x[i]-1)*(x[i]-1)*(P)(1+i); return s; } };
struct DBowl { template<int N,class P,class B> TooN::Vector<N,P> operator()(const TooN::Vector<N,P,B>&x)const{ TooN::Vector<N,P> r(x.size()); for(int i=0;i<x.size();i++) r[i]=2*(x[i]-1)*(P)(1+i); return r; } };
inline int conjugate(const double*in,double*out){ Out o(out); TooN::Vector<3 VPP> x; fillv(x,in); Bowl f; DBowl d; TooN::ConjugateGradient<3 VPP> c(x,f,d); int k=0; while(k++<5&&c.iterate(f,d)); o(c.x); o(c.iterations); o(c.y); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==27  /* optimization/downhill_simplex.h */
struct Bowl2 { template<int N,class P,class B> P operator()(const TooN::Vector<N,P,B>&x)const{ P s=0; for(int i=0;i<x.size();i++) s+=(x[i]-1)*(x[i]-1)*(P)(1+i); return s; } };
inline int simplex(const double*in,double*out){ Out o(out); TooN::Vector<2 VPP> x; fillv(x,in); Bowl2 f; TooN::DownhillSimplex<2 VPP> c(f,x,1); int k=0; while(k++<30&&c.iterate(f)); o(c.get_simplex()[c.get_best()]); o(c.get_values()); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==28  /* named_elements.h */
}
TOON_MAKE_NAMED_ELEMENT_VECTOR(USE_NAMED, ux, uy, uz)
namespace USE_NS {
inline int named(const double*in,double*out){ Out o(out); USE_NAMED<VPQ> v; fillv(v,in); o(v); v.uy=3; o(v.ux); o(v+v); return o.n; }
#endif
#if USE_HDR==0 || USE_HDR==29  /* lapack.h */
inline int lapack(const double*in,double*out){ Out o(out); TooN::Matrix<3,3 VPP> m; fills(m,in); int n=3,lda=3,info=0; int piv[3]; TooN::getrf_(&n,&n,m.get_data_ptr(),&lda,piv,&info); o(m); o(info); return o.n; }
#endif
}
