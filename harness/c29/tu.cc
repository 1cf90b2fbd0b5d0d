// One translation unit of the mixed programs of C29 (-DVTU=number, header order given by -include).
#define VP_CAT2(a,b) a##b
#define VP_CAT(a,b) VP_CAT2(a,b)
#define USE_HDR 0
#define USE_NS VP_CAT(use_all_,VTU)
#define USE_NAMED VP_CAT(UsePoint,VTU)
#include "use.hpp"
#include "api.hpp"
#ifndef VOPT
#define VOPT ""
#endif
namespace VP_CAT(unit_,VTU) {
using namespace c29;
#ifndef USE_ONLY
typedef T::Matrix<> M; typedef T::Vector<> V;
// objects at namespace scope: computed before main() starts
static const T::Vector<3> g_list=T::makeVector(1.5,-2,3); static const T::Matrix<3> g_identity=T::Identity; static const V g_ones=T::Ones(5); static V g_zeros=T::Zeros(4); static const T::Matrix<> g_scaled=T::Identity(4)*2.5;
static const T::SO3<> g_so3(T::makeVector(.1,.2,-.3)); static const T::SE3<> g_se3(T::makeVector(1.,2.,3.,.1,.2,-.3)); static const T::SIM3<> g_sim3(T::makeVector(1.,2.,3.,.1,.2,-.3,.5)); static const T::SE2<> g_se2(T::makeVector(1.,2.,.5)); static const T::SL<3> g_sl(T::makeVector(.1,.2,.3,.1,.2,-.3,.5,-.4));
static const T::Matrix<3> g_gen=T::SO3<>::generator(1); static const T::Matrix<3> g_slgen=T::SL<3>::generator(5); static const T::Vector<4> g_segen=T::SE3<>::generator_field(3,T::makeVector(1.,2.,3.,1.)); static const T::Matrix<3> g_exp=T::exp(T::Matrix<3>(T::Data(0,1,.5, -1,0,.25, -.5,-.25,0)));
static const T::Matrix<> g_sum=g_scaled+T::Identity; static T::SVD<3> g_svd(g_exp); static const T::Vector<3> g_solved=g_svd.backsub(g_list); static const double g_det=T::determinant(g_exp); static const T::Vector<T::Resizable> g_resizable(g_ones);
struct Early { T::WLS<3> w; T::Vector<3> mu; Early(){ w.add_prior(2.0); w.add_mJ(1.0,T::makeVector(1.,2.,3.)); w.compute(); mu=w.get_mu(); } }; static const Early g_early;
struct Put { std::vector<double>&o; void operator()(double x){ o.push_back(x); } template<int N,class P,class B> void operator()(const T::Vector<N,P,B>&v){ for(int i=0;i<v.size();i++) o.push_back(v[i]); } template<int R,int C,class P,class B> void operator()(const T::Matrix<R,C,P,B>&m){ for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) o.push_back(m(i,j)); } };
static void globals(std::vector<double>&start,std::vector<double>&now){
	Put a={start},b={now};
	a(g_list); b(T::makeVector(1.5,-2,3)); { T::Matrix<3> t=T::Identity; a(g_identity); b(t); } { V t=T::Ones(5); a(g_ones); b(t); } { V t=T::Zeros(4); a(g_zeros); b(t); } { M t=T::Identity(4)*2.5; a(g_scaled); b(t); M u=t+T::Identity; a(g_sum); b(u); }
	{ T::SO3<> t(T::makeVector(.1,.2,-.3)); a(g_so3.get_matrix()); b(t.get_matrix()); } { T::SE3<> t(T::makeVector(1.,2.,3.,.1,.2,-.3)); a(g_se3.get_rotation().get_matrix()); a(g_se3.get_translation()); b(t.get_rotation().get_matrix()); b(t.get_translation()); }
	{ T::SIM3<> t(T::makeVector(1.,2.,3.,.1,.2,-.3,.5)); a(g_sim3.get_translation()); a(g_sim3.get_scale()); b(t.get_translation()); b(t.get_scale()); } { T::SE2<> t(T::makeVector(1.,2.,.5)); a(g_se2.get_translation()); b(t.get_translation()); } { T::SL<3> t(T::makeVector(.1,.2,.3,.1,.2,-.3,.5,-.4)); a(g_sl.get_matrix()); b(t.get_matrix()); }
	a(g_gen); b(T::SO3<>::generator(1)); a(g_slgen); b(T::SL<3>::generator(5)); a(g_segen); b(T::SE3<>::generator_field(3,T::makeVector(1.,2.,3.,1.)));
	{ T::Matrix<3> t=T::exp(T::Matrix<3>(T::Data(0,1,.5, -1,0,.25, -.5,-.25,0))); a(g_exp); b(t); T::SVD<3> s(t); a(g_solved); b(s.backsub(g_list)); a(g_det); b(T::determinant(t)); } { V t=T::Ones(5); a(g_resizable); b(t); } { Early e; a(g_early.mu); b(e.mu); }
}
template<class X> void lay(std::vector<size_t>&o){ o.push_back(sizeof(X)); o.push_back(alignof(X)); }
static std::vector<size_t> layout(){ std::vector<size_t> o; using namespace T;
	lay<Vector<1> >(o); lay<Vector<3> >(o); lay<Vector<4,float> >(o); lay<Vector<150> >(o); lay<Vector<> >(o); lay<Vector<Resizable> >(o); lay<Vector<Dynamic,int> >(o); lay<Matrix<2,3> >(o); lay<Matrix<> >(o); lay<Matrix<Dynamic,3> >(o); lay<Matrix<3,Dynamic,float> >(o); lay<Matrix<40,40> >(o); lay<HalfC>(o); lay<DiagonalMatrix<3> >(o); lay<DiagonalMatrix<> >(o);
	lay<RowView>(o); lay<TView>(o); lay<BlockView>(o); lay<SliceView>(o); lay<SO2<> >(o); lay<SO3<> >(o); lay<SE2<> >(o); lay<SE3<> >(o); lay<SIM2<> >(o); lay<SIM3<float> >(o); lay<SL<3> >(o); lay<SVD<3> >(o); lay<SVD<> >(o); lay<GR_SVD<4,3> >(o); lay<LU<> >(o); lay<LU<4> >(o); lay<Cholesky<3> >(o); lay<Cholesky<> >(o); lay<Lapack_Cholesky<3> >(o); lay<QR<3> >(o); lay<QR_Lapack<3> >(o); lay<SymEigen<3> >(o); lay<SymEigen<> >(o); lay<WLS<3> >(o); lay<WLS<> >(o); lay<IRLS<3,double,RobustI> >(o); lay<ConjugateGradient<3> >(o); lay<DownhillSimplex<3> >(o); lay<Boxed>(o); lay<decltype(Identity)>(o); lay<decltype(Zeros)>(o); lay<decltype(Ones)>(o); lay<decltype(Identity(3))>(o);
	{ Boxed b; o.push_back((char*)&b.b-(char*)&b); o.push_back((char*)&b.c-(char*)&b); o.push_back((char*)&b.tag-(char*)&b); } return o; }
#endif
typedef int(*Use)(const double*,double*);
static int use(int k,const double*in,double*out){ using namespace USE_NS; static const Use f[]={0,toon,helpers,cholesky,lapack_cholesky,lu,qr,qr_lapack,svd,gr_svd,symeigen,determinants,gauss_jordan,gaussian_elimination,wls,irls,so2,se2,so3,se3,sim2,sim3,sl,derivatives,brent,golden,conjugate,simplex,named,lapack}; return f[k](in,out); }
#ifdef USE_ONLY
static const Api api={VOPT,VTU,0,0,use};
#else
static V make_v(const double*p,int n){ V v(n); for(int i=0;i<n;i++) v[i]=p[i]; return v; }
static M make_m(const double*p,int r,int c){ M m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m[i][j]=p[i*c+j]; return m; }
template<class X> double sumv(const X&v){ double s=0; for(int i=0;i<v.size();i++) s+=v[i]; return s; }
template<class X> double summ(const X&m){ double s=0; for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) s+=m(i,j); return s; }
static void do_raise(const double*p,int n){ throw make_v(p,n); }
static const Api api={VOPT,VTU,layout,globals,use,
	make_v,[](const double*p){ T::Vector<4> v; for(int i=0;i<4;i++) v[i]=p[i]; return v; },[](const double*p){ T::Vector<150> v; for(int i=0;i<150;i++) v[i]=p[i%97]; return v; },[](const double*p,int n){ T::Vector<Rsz> v; v.resize(n); for(int i=0;i<n;i++) v[i]=p[i]; return v; },
	[](V v){ return sumv(v); },[](T::Vector<4> v){ return sumv(v); },[](T::Vector<150> v){ return sumv(v); },[](T::Vector<Rsz> v){ return sumv(v); },
	[](V&a,const V&b){ a+=b; },[](T::Vector<4>&a,const V&b){ a+=b; },[](T::Vector<150>&a,const T::Vector<150>&b){ a=a+b; },
	[](T::Vector<Rsz>&a,const V&b){ a=b; },[](T::Vector<Rsz>&a,int n){ const int k=a.size(); a.resize(n); for(int i=k;i<n;i++) a[i]=i; },[](V&a,V&b){ swap(a,b); },[](T::Vector<150>&a,T::Vector<150>&b){ swap(a,b); },
	[](V&&a){ V b(std::move(a)); return b; },[](const V&a,const V&b){ return V(a+b); },[](const V&a,const V&b){ return a*b; },
	[](SliceView v,const double*p){ for(int i=0;i<v.size();i++) v[i]=p[i]; },[](const double*p,int n){ return new V(make_v(p,n)); },[](V*v){ delete v; },
	make_m,[](const double*p){ T::Matrix<2,3> m; for(int i=0;i<2;i++) for(int j=0;j<3;j++) m(i,j)=p[i*3+j]; return m; },[](const double*p,int r){ HalfC m(r,3); for(int i=0;i<r;i++) for(int j=0;j<3;j++) m(i,j)=p[i*3+j]; return m; },
	[](M m){ return summ(m); },[](T::Matrix<2,3> m){ return summ(m); },[](HalfC m){ return summ(m); },
	[](M&a,const M&b){ a=b; },[](const M&a,const M&b){ return M(a*b); },[](M&&a){ M b(std::move(a)); return b; },[](M&a,const HalfC&b){ a=b; },
	[](RowView v,const double*p){ for(int i=0;i<v.size();i++) v[i]=p[i]; },[](TView m,double s){ m*=s; },[](BlockView m,const double*p){ for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) m[i][j]=p[i*m.num_cols()+j]; },[](const M&m,const V&v){ return V(m*v); },
	[](const double*p,int tag){ Boxed b; for(int i=0;i<3;i++) b.a[i]=p[i]; b.b=T::Data(p[3],p[4],p[5],p[6]); b.c=T::SE3<>(T::makeVector(p[0],p[1],p[2],.25,.5,-.125)); b.tag=tag; return b; },
	[](Boxed b){ std::vector<double> o; Put p={o}; p(b.a); p(b.b); p(b.c.get_rotation().get_matrix()); p(b.c.get_translation()); p(b.tag); return o; },
	[](std::vector<V>&v,const double*p,int n){ v.push_back(make_v(p,n)); },[](std::vector<V>&v,int i){ v.erase(v.begin()+i); },
	do_raise,[](void(*f)(const double*,int),const double*p,int n){ try{ f(p,n); }catch(const V&v){ return V(v*2); } return V(0); },
	[](std::ostream&o,const M&m){ o.precision(17); o<<m; },[](std::istream&i,M&m){ i>>m; },
	[](const M&m){ return new T::SVD<>(m); },[](T::SVD<>&s,const V&v){ return V(s.backsub(v)); },[](T::SVD<>*s){ delete s; },
	[](T::WLS<3>&w,const double*p){ w.add_mJ(p[0],T::makeVector(p[1],p[2],p[3]),2.0); },[](T::WLS<3>&w){ w.compute(); return T::Vector<3>(w.get_mu()); },[](){ T::WLS<3> w; w.clear(); w.add_prior(1.0); return w; },
	[](T::SE3<> a,const T::SE3<>&b){ return a*b; }
};
#endif
struct Register { Register(){ c29::registry().push_back(&api); } }; static Register reg_;
}
