// C30: automatic differentiation. TooN/functions/fadbad.h against the derivatives written out, and TooN's generic algorithms on fadbad types against
// numerical derivatives of the same computation in extended precision. FADBAD++ itself is the stand-in in fad/FADBAD++.
#include "num.hpp"
#include <TooN/functions/fadbad.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/Cholesky.h>
#include <TooN/determinant.h>
#include <TooN/gauss_jordan.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/helpers.h>
#include <TooN/wls.h>
#include <sstream>
using namespace TooN;
#define K(s) vp::key(pre+s)

// ------------------------------------------------------------------ vectors of variables
// a F<P,D> (D = 0: with a run-time number of directions) whose every derivative must be that of variable v of n
template<class P,unsigned D> bool is_variable(const fadbad::F<P,D>& f,P value,int v,int n){
	if(!(f.val()==value)) return false;
	for(int i=0;i<n;i++) if(!(f.deriv(i)==P(i==v?1:0))) return false;
	return true; }
template<class X,class P> void judge_vector(const std::string& pre,const X& v,const std::vector<P>& val,int start,int n){
	VP_CHECK(v.size()==(int)val.size(),K("make_fad_vector_size"),"%d elements became %d",(int)val.size(),v.size());
	if(v.size()!=(int)val.size()) return;
	for(int i=0;i<v.size();i++){ const int dir=start+i<n?start+i:-1; VP_CHECK(is_variable(v[i],val[i],dir,n),K("make_fad_vector"),"element %d of %d from direction %d of %d: value %g expected %g, derivative along %d is %g",i,v.size(),start,n,(double)v[i].val(),(double)val[i],dir,(double)v[i].deriv(dir<0?0:dir)); }
	const auto back=get_value(v);
	VP_CHECK(back.size()==v.size(),K("get_value_size"),"%d elements became %d",v.size(),back.size());
	for(int i=0;i<v.size()&&i<back.size();i++) VP_CHECK(back[i]==val[i],K("get_value"),"element %d: %g instead of %g",i,(double)back[i],(double)val[i]); }
// all the ways of holding the same values: owned, within a longer vector, strided, dynamic
template<int N,class P,unsigned D> void vectors(vp::Rng& g,const std::string& pre){
	std::vector<P> val(N); for(auto& x:val) x=P(g.value());
	Vector<N,P> own; for(int i=0;i<N;i++) own[i]=val[i];
	Vector<N+4,P> wide; for(int i=0;i<N+4;i++) wide[i]=P(g.value()); const int at=g.range(0,4);
	wide.slice(at,N)=own;
	Matrix<N,3,P> m; for(int i=0;i<N;i++) for(int j=0;j<3;j++) m(i,j)=P(100*i+j); m.T()[1]=own;
	Vector<Dynamic,P> dyn(N); dyn=own;
	const int start=g.range(0,(int)D), s2=g.range(0,6), n2=s2+g.range(1,N+3);
	vp::describe(vp::fmt("%d elements, directions from %d of %d, or from %d of %d",N,start,(int)D,s2,n2)); vp::sig(vp::hbytes(val.data(),N)^vp::mix(start*100+s2*10+n2));
	judge_vector(pre+"static/",make_fad_vector<D>(own,start),val,start,D);
	judge_vector(pre+"static/",make_fad_vector<D>(own),val,0,D);
	judge_vector(pre+"static/",make_fad_vector<D>(wide.template slice<2,N>(),start),std::vector<P>(&wide[2],&wide[2]+N),start,D);
	judge_vector(pre+"static/",make_fad_vector<D>(m.T()[1],start),val,start,D);
	judge_vector(pre+"static/",make_fad_vector<D>(dyn,start),val,start,D);
	judge_vector(pre+"dynamic/",make_fad_vector(own),val,0,N);
	judge_vector(pre+"dynamic/",make_fad_vector(dyn),val,0,N);
	judge_vector(pre+"dynamic/",make_fad_vector(own,s2,n2),val,s2,n2);
	judge_vector(pre+"dynamic/",make_fad_vector(dyn,s2,n2),val,s2,n2);
	judge_vector(pre+"dynamic/",make_fad_vector(m.T()[1],s2,n2),val,s2,n2);
	judge_vector(pre+"dynamic/",make_fad_vector(wide.slice(at,N),s2,n2),val,s2,n2); }
VP_UNIT(vectors,12000,960000){ switch(rng.range(0,4)){ case 0: vectors<1,double,1>(rng,"vec/"); break; case 1: vectors<2,double,6>(rng,"vec/"); break; case 2: vectors<3,float,5>(rng,"vec/"); break; case 3: vectors<6,double,4>(rng,"vec/"); break; default: vectors<5,double,9>(rng,"vec/"); } }

// ------------------------------------------------------------------ reading derivatives and Jacobians
// y_i = a_i + sum_j M_ij x_j + q_i x_(i mod n)^2, so that the Jacobian is known
template<int R,class P,unsigned D,class X> void judge_jacobian(const std::string& pre,const X& y,const M& J,int n){
	const auto got=get_jacobian(y);
	VP_CHECK(got.num_rows()==y.size()&&got.num_cols()==n,K("jacobian_shape"),"%d x %d, expected %d x %d",got.num_rows(),got.num_cols(),y.size(),n);
	if(got.num_rows()!=y.size()||got.num_cols()!=n) return;
	for(int i=0;i<y.size();i++) for(int j=0;j<n;j++) VP_CLOSE(fabsl((L)got(i,j)-J(i,j)),8*epsP<P>()*(1+fabsl(J(i,j)))*16,K("jacobian"),"entry (%d,%d): %.9g instead of %.9Lg",i,j,(double)got(i,j),J(i,j));
	for(int j=0;j<n;j++){ const auto d=get_derivative(y,j); VP_CHECK(d.size()==y.size(),K("derivative_size"),"%d, expected %d",d.size(),y.size()); for(int i=0;i<y.size()&&i<d.size();i++) VP_CHECK(d[i]==y[i].deriv(j),K("derivative"),"element %d along %d",i,j); } }
template<int R,int N,class P,unsigned D> void jacobians(vp::Rng& g,const std::string& pre){
	typedef fadbad::F<P,D> F; typedef fadbad::F<P> G;
	Vector<N,P> x; M A(R,N); V a(R),q(R); std::vector<bool> constant(R); bool any=false;
	for(int j=0;j<N;j++) x[j]=P(g.normal());
	for(int i=0;i<R;i++){ a[i]=g.normal(); q[i]=g.range(0,1)?g.normal():0; constant[i]=g.chance(.25); for(int j=0;j<N;j++) A(i,j)=g.chance(.3)?0:g.normal(); }
	for(int i=0;i<R;i++) any|=!constant[i];
	if(!any) constant[g.range(0,R-1)]=false;
	vp::describe(vp::fmt("%d functions of %d variables, first is %sconstant",R,N,constant[0]?"":"not ")); vp::sig(vp::hbytes(&x[0],N));
	M J(R,N); for(int i=0;i<R;i++) if(!constant[i]) for(int j=0;j<N;j++) J(i,j)=(P)A(i,j)+(j==i%N?2*(P)q[i]*(L)x[j]:0);
	auto fill=[&](auto& y,const auto& v){ for(int i=0;i<R;i++){ y[i]=P(a[i]); if(constant[i]) continue; for(int j=0;j<N;j++) y[i]=y[i]+P(A(i,j))*v[j]; y[i]+=P(q[i])*v[i%N]*v[i%N]; } };
	const auto vs=make_fad_vector<D>(x); const auto vd=make_fad_vector(x);
	static_assert(D>=N,"");
	M JD(R,D); for(int i=0;i<R;i++) for(int j=0;j<N;j++) JD(i,j)=J(i,j);
	{ Vector<R,F> y; fill(y,vs); judge_jacobian<R,P,D>(pre+"static/",y,JD,D); judge_jacobian<R,P,D>(pre+"static/",y.template slice<0,R>(),JD,D); static_assert(std::is_same<decltype(get_jacobian(y)),Matrix<R,(int)D,P> >::value,""); }
	{ Matrix<2,R,F> y; y=Zeros; Vector<R,F> t; fill(t,vs); y[1]=t; judge_jacobian<R,P,D>(pre+"static/row_",y[1],JD,D); Matrix<R,2,F> z; z=Zeros; z.T()[1]=t; judge_jacobian<R,P,D>(pre+"static/column_",z.T()[1],JD,D); }
	{ Vector<Dynamic,F> y(R); fill(y,vs); judge_jacobian<R,P,D>(pre+"static/dynamic_",y,JD,D); }
	{ Vector<R,G> y; fill(y,vd); judge_jacobian<R,P,0>(pre+"dynamic/",y,J,N); }
	{ Vector<Dynamic,G> y(R); fill(y,vd); judge_jacobian<R,P,0>(pre+"dynamic/dynamic_",y,J,N); }
	// matrices
	{ Vector<R,F> t; fill(t,vs); Matrix<R,3,F> m; Matrix<Dynamic,Dynamic,F> md(R,3); for(int i=0;i<R;i++) for(int c=0;c<3;c++) md(i,c)=m(i,c)=t[i]*P(c-1);
	  for(int j=0;j<(int)D;j++){ const auto d=get_derivative(m,j); const auto dt=get_derivative(m.T(),j); const auto dd=get_derivative(md,j); const auto ds=get_derivative(md.slice(0,1,R,2),j);
		bool ok=d.num_rows()==R&&d.num_cols()==3&&dt.num_rows()==3&&dt.num_cols()==R&&dd.num_rows()==R&&dd.num_cols()==3&&ds.num_rows()==R&&ds.num_cols()==2;
		VP_CHECK(ok,K("matrix_derivative_shape"),"along %d",j); if(!ok) continue;
		for(int i=0;i<R;i++) for(int c=0;c<3;c++){ const P e=m(i,c).deriv(j); VP_CHECK(d(i,c)==e&&dt(c,i)==e&&dd(i,c)==e&&(c==0||ds(i,c-1)==e),K("matrix_derivative"),"entry (%d,%d) along %d: %g",i,c,j,(double)d(i,c)); } } } }
VP_UNIT(jacobians,8000,640000){ switch(rng.range(0,4)){ case 0: jacobians<1,1,double,1>(rng,"jac/"); break; case 1: jacobians<2,3,double,3>(rng,"jac/"); break; case 2: jacobians<4,2,float,5>(rng,"jac/"); break; case 3: jacobians<6,5,double,6>(rng,"jac/"); break; default: jacobians<3,3,double,7>(rng,"jac/"); } }

// ------------------------------------------------------------------ transformations
inline M gen_so(int d,int i){ M g(d,d); if(d==2){ g(0,1)=-1; g(1,0)=1; } else { const int a=(i+1)%3,b=(i+2)%3; g(a,b)=-1; g(b,a)=1; } return g; }
// generator i of the rotations (or rigid motions) of d dimensions as a matrix of d rows and d+1 columns: linear part and translation
inline M generator(int d,bool rigid,int i){ M g(d+1,d+1); if(rigid&&i<d){ g(i,d)=1; return g; } const M r=gen_so(d,rigid?i-d:i); for(int a=0;a<d;a++) for(int b=0;b<d;b++) g(a,b)=r(a,b); return g; }
template<class G> struct Parts;
template<class P> struct Parts<SO3<P>>{ static const int d=3; static const bool rigid=false; template<class X> static const auto& rot(const X& g){ return g.get_matrix(); } };
template<class P> struct Parts<SO2<P>>{ static const int d=2; static const bool rigid=false; template<class X> static const auto& rot(const X& g){ return g.get_matrix(); } };
template<class P> struct Parts<SE3<P>>{ static const int d=3; static const bool rigid=true; template<class X> static const auto& rot(const X& g){ return g.get_rotation().get_matrix(); } };
template<class P> struct Parts<SE2<P>>{ static const int d=2; static const bool rigid=true; template<class X> static const auto& rot(const X& g){ return g.get_rotation().get_matrix(); } };
template<bool rigid> struct Transl{ template<class G> static auto at(const G& g,int i){ return g.get_translation()[i]; } };
template<> struct Transl<false>{ template<class G> static typename std::decay<decltype(Parts<G>::rot(std::declval<const G&>())(0,0))>::type at(const G&,int){ return 0; } };
// the homogeneous matrix of values, or of derivatives along dir
template<class G> M hom(const G& g,int dir){ typedef Parts<G> Q; M m(Q::d+1,Q::d+1); for(int i=0;i<Q::d;i++){ for(int j=0;j<Q::d;j++){ const auto& e=Q::rot(g)(i,j); m(i,j)=dir<0?(L)e.val():(L)e.deriv(dir); } const auto e=Transl<Q::rigid>::at(g,i); m(i,Q::d)=dir<0?(L)e.val():(L)e.deriv(dir); } if(dir<0) m(Q::d,Q::d)=1; return m; }
template<class G> M hom_plain(const G& g){ typedef Parts<G> Q; M m(Q::d+1,Q::d+1); for(int i=0;i<Q::d;i++){ for(int j=0;j<Q::d;j++) m(i,j)=Q::rot(g)(i,j); m(i,Q::d)=Transl<Q::rigid>::at(g,i); } m(Q::d,Q::d)=1; return m; }
// AD is the identity (or base) perturbed on the left by the exponential of variables start.. of n
template<class P,class AD> void judge_group(const std::string& pre,const AD& ad,const M& base,int start,int n){
	typedef Parts<AD> Q; const int dof=Q::d==3?(Q::rigid?6:3):(Q::rigid?3:1);
	L scale=1; for(L x:base.d) scale=std::max(scale,fabsl(x)); const L tol=16*epsP<P>()*scale;
	const M v=hom(ad,-1); VP_CLOSE(maxabs(sub(v,base)),tol,K("value"),"value of the transformation");
	for(int k=0;k<n;k++){ const M want=k>=start&&k<start+dof?mul(generator(Q::d,Q::rigid,k-start),base):M(Q::d+1,Q::d+1); const M got=hom(ad,k);
		VP_CLOSE(maxabs(sub(got,want)),tol,K("derivative"),"derivative along %d of %d, parameters from %d",k,n,start); } }
template<class G> G random_group(vp::Rng& g);
template<> SO3<double> random_group(vp::Rng& g){ return SO3<double>(makeVector(g.normal(),g.normal(),g.normal())); }
template<> SO2<double> random_group(vp::Rng& g){ return SO2<double>(g.normal()*2); }
template<> SE3<double> random_group(vp::Rng& g){ const double s=g.range(0,3)?1:1000; return SE3<double>(random_group<SO3<double>>(g),makeVector(g.normal()*s,g.normal()*s,g.normal()*s)); }
template<> SE2<double> random_group(vp::Rng& g){ const double s=g.range(0,3)?1:1000; return SE2<double>(random_group<SO2<double>>(g),makeVector(g.normal()*s,g.normal()*s)); }
template<> SO3<float> random_group(vp::Rng& g){ return SO3<float>(makeVector<float>(g.normal(),g.normal(),g.normal())); }
template<> SO2<float> random_group(vp::Rng& g){ return SO2<float>(float(g.normal())); }
template<> SE3<float> random_group(vp::Rng& g){ return SE3<float>(random_group<SO3<float>>(g),makeVector<float>(g.normal(),g.normal(),g.normal())); }
template<> SE2<float> random_group(vp::Rng& g){ return SE2<float>(random_group<SO2<float>>(g),makeVector<float>(g.normal(),g.normal())); }
#define VP_GROUP(NAME,GRP,DOF) template<class P,unsigned D> void NAME##_group(vp::Rng& g,const std::string& p){ \
	const std::string pre=p+#NAME "/"; const GRP<P> base=random_group<GRP<P>>(g); const M id=eye(Parts<GRP<P>>::d+1), b=hom_plain(base); \
	const int s=g.range(0,(int)D-DOF), s2=g.range(0,5), n2=s2+DOF+g.range(0,3); \
	vp::describe(vp::fmt(#NAME ": parameters from %d of %d, or from %d of %d",s,(int)D,s2,n2)); for(L x:b.d){ const double y=x; vp::sig(vp::hbytes(&y,1)); } \
	judge_group<P>(pre+"static_",make_fad_##NAME<P,D>(s),id,s,D); judge_group<P>(pre+"static_",make_fad_##NAME<P,D>(),id,0,D); \
	judge_group<P>(pre+"dynamic_",make_fad_##NAME<P>(s2,n2),id,s2,n2); judge_group<P>(pre+"dynamic_",make_fad_##NAME<P>(),id,0,DOF); \
	judge_group<P>(pre+"left_static_",make_left_fad_##NAME<P,D>(base,s),b,s,D); judge_group<P>(pre+"left_static_",make_left_fad_##NAME<P,D>(base),b,0,D); \
	judge_group<P>(pre+"left_dynamic_",make_left_fad_##NAME<P>(base,s2,n2),b,s2,n2); judge_group<P>(pre+"left_dynamic_",make_left_fad_##NAME<P>(base),b,0,DOF); }
VP_GROUP(so3,SO3,3)
VP_GROUP(se3,SE3,6)
VP_GROUP(so2,SO2,1)
VP_GROUP(se2,SE2,3)
VP_UNIT(groups,6400,512000){ so3_group<double,3>(rng,""); so3_group<double,8>(rng,""); se3_group<double,6>(rng,""); se3_group<double,9>(rng,""); so2_group<double,1>(rng,""); so2_group<double,4>(rng,""); se2_group<double,3>(rng,""); se2_group<double,5>(rng,""); }
VP_UNIT(groups_float,1600,128000){ so3_group<float,5>(rng,"float/"); se3_group<float,7>(rng,"float/"); so2_group<float,2>(rng,"float/"); se2_group<float,4>(rng,"float/"); }

// ------------------------------------------------------------------ fadbad's scalars within TooN
VP_UNIT(scalars,3200,256000){ const std::string pre="scalar/"; typedef fadbad::F<double,3> F; Vector<3> x; for(int i=0;i<3;i++) x[i]=rng.value(); const auto v=make_fad_vector<3>(x);
	vp::describe(vp::fmt("%g %g %g",x[0],x[1],x[2])); vp::sig(vp::hbytes(&x[0],3));
	for(int i=0;i<3;i++){ const F a=abs(v[i]); VP_CHECK(a.val()==std::fabs(x[i]),K("abs"),"abs(%g) is %g",x[i],a.val()); if(x[i]!=0) for(int j=0;j<3;j++) VP_CHECK(a.deriv(j)==(i==j?(x[i]<0?-1:1):0),K("abs_derivative"),"of abs at %g along %d: %g",x[i],j,a.deriv(j)); }
	std::ostringstream a,b; a<<v; b<<x; VP_CHECK(a.str()==b.str(),K("stream"),"'%s' instead of '%s'",a.str().c_str(),b.str().c_str());
	std::ostringstream c,d; Matrix<2,3,F> m; m[0]=v; m[1]=v*2; Matrix<2,3> n; n[0]=x; n[1]=x*2; c<<m; d<<n; VP_CHECK(c.str()==d.str(),K("stream"),"'%s' instead of '%s'",c.str().c_str(),d.str().c_str()); }

// ------------------------------------------------------------------ differentiating TooN's algorithms
// Each function takes N variables and a vector of constants and appends its results. It is evaluated in extended precision (differentiated
// numerically), in double (values) and on fadbad types (derivatives).
typedef Vector<12> C;
template<class T> struct Out{ std::vector<T> v; void add(const T& t){ v.push_back(t); } template<int S,class P,class B> void add(const Vector<S,P,B>& t){ for(int i=0;i<t.size();i++) v.push_back(t[i]); } template<int R,int S,class P,class B> void add(const Matrix<R,S,P,B>& t){ for(int i=0;i<t.num_rows();i++) for(int j=0;j<t.num_cols();j++) v.push_back(t(i,j)); } };
inline Matrix<3> cmat(const C& c){ Matrix<3> m; for(int i=0;i<9;i++) m(i/3,i%3)=c[i]; return m; }
struct Arithmetic{ static const int n=6; static const char* name(){ return "arithmetic"; } template<class T> static void run(Vector<6,T> x,const C& c,Out<T>& o){
	const Vector<3,T> a=x.template slice<0,3>(), b=x.template slice<3,3>(); const Matrix<3> m=cmat(c);
	o.add(a*2-b/3); o.add(T(a*b)); o.add(a^b); o.add(m*a); o.add(b*m); o.add(a.as_col()*b.as_row()); o.add(diagmult(a,b)); o.add(a*c[0]+b*a[1]); o.add(Vector<3,T>(-a)); o.add(a+c.slice<0,3>()); o.add(c.slice<2,3>()-b); o.add(T(a*c.slice<1,3>()));
	Matrix<3,3,T> k; k=Ones; k[0]=a; k.T()[2]=b; k(1,0)=a[0]*b[1]; k(1,1)=2; k(0,1)=c[3]; o.add(k*m); o.add(m*k); o.add(k*k.T()); o.add(k+m); o.add(m-k); k+=m; k*=a[2]; k/=3; k-=m; o.add(k); k+=T(b[0])*Identity; o.add(k); o.add(diagmult(k,a)); o.add(diagmult(b,k));
	Matrix<3,3,T> i; i=a[1]*Identity; o.add(i); DiagonalMatrix<3,T> dm(a); o.add(dm*b); o.add(dm*k); o.add(k*dm);
	Vector<Dynamic,T> d(6); d=x; o.add(T(d*d)); d.slice(1,3)*=b[2]; d.slice(0,4)+=x.template slice<2,4>(); o.add(d); Matrix<Dynamic,Dynamic,T> dd(2,3); dd[0]=a; dd[1]=b; o.add(dd*m); o.add(dd.T()*dd); o.add(dd*a); } };
struct Norms{ static const int n=4; static const char* name(){ return "norms"; } template<class T> static void run(Vector<4,T> x,const C& c,Out<T>& o){
	o.add(norm(x)); o.add(T(norm_sq(x))); o.add(norm_2(x)); o.add(norm_1(x)); o.add(norm_inf(x)); o.add(unit(x)); o.add(project(x)); o.add(unproject(x)); Vector<4,T> y=x*c[0]; normalize(y); o.add(y);
	Matrix<2,2,T> m; m[0]=x.template slice<0,2>(); m[1]=x.template slice<2,2>(); o.add(trace(m)); o.add(norm_fro(m)); o.add(norm_1(m)); o.add(norm_inf(m)); o.add(determinant_gaussian_elimination(m)); o.add(cross_product_matrix(x.template slice<1,3>())); Symmetrize(m); o.add(m); o.add(max_value(x)); o.add(min_value(x)); } };
template<class T> Matrix<3,3,T> dominant(Vector<6,T> x,const C& c){ Matrix<3,3,T> a; for(int i=0;i<3;i++) for(int j=0;j<3;j++) a(i,(j+1)%3)=x[(i+2*j)%6]*c[3*i+j]/4+(i==j?(i==1?-3:4):0); return a; }
struct Solve{ static const int n=6; static const char* name(){ return "solve"; } template<class T> static void run(Vector<6,T> x,const C& c,Out<T>& o){
	Matrix<3,3,T> a=dominant(x,c); Vector<3,T> b=x.template slice<1,3>(); o.add(gaussian_elimination(a,b));
	Matrix<3,2,T> k; k.T()[0]=b; k.T()[1]=c.slice<0,3>(); o.add(gaussian_elimination(a,k));
	Matrix<Dynamic,Dynamic,T> ad(3,3); ad=a; Vector<Dynamic,T> bd(3); bd=b; o.add(gaussian_elimination(ad,bd));
	Matrix<3,6,T> j; j.template slice<0,0,3,3>()=a; j.template slice<0,3,3,3>()=Identity; gauss_jordan(j); o.add(j.template slice<0,3,3,3>()); o.add(determinant_gaussian_elimination(a)); o.add(determinant(a)); Matrix<4,4,T> e; e=Identity; e.template slice<0,1,3,3>()=a; e(3,0)=T(2)+x[0]; o.add(determinant_gaussian_elimination(e)); o.add(determinant(e)); o.add(determinant(a.template slice<0,1,2,2>())); } };
struct Symmetric{ static const int n=6; static const char* name(){ return "cholesky"; } template<class T> static void run(Vector<6,T> x,const C& c,Out<T>& o){
	const Matrix<3,3,T> d=dominant(x,c); Matrix<3,3,T> s=d*d.T(); s+=2*Identity; const Vector<3,T> b=x.template slice<2,3>(); Cholesky<3,T> h(s); o.add(h.backsub(b)); Matrix<3,2,T> k; k.T()[0]=b; k.T()[1]=c.slice<0,3>(); o.add(h.backsub(k)); o.add(h.get_inverse()); o.add(h.determinant()); o.add(h.get_L()); o.add(h.get_unscaled_L()); o.add(h.get_D()); o.add(h.mahalanobis(b));
	Matrix<Dynamic,Dynamic,T> sd(3,3); sd=s; Cholesky<Dynamic,T> hd(sd); Vector<Dynamic,T> bd(3); bd=b; o.add(hd.backsub(bd)); } };
struct LeastSquares{ static const int n=4; static const char* name(){ return "wls"; } template<class T> static void run(Vector<4,T> x,const C& c,Out<T>& o){
	WLS<3,T> w; w.add_prior(T(2)); w.add_mJ(x[0],x.template slice<1,3>(),T(1)+x[3]*x[3]); w.add_mJ(T(c[0]),Vector<3,T>(c.slice<1,3>()),T(1)); Matrix<2,3,T> J; J[0]=x.template slice<0,3>(); J[1]=c.slice<4,3>(); Matrix<2,2,T> S; S=Identity; S(0,0)=2+x[1]*x[1]; w.add_mJ_rows(x.template slice<2,2>(),J,S); w.add_prior(Vector<3,T>(c.slice<7,3>()*0+x.template slice<0,3>())*0+Vector<3,T>(Ones)); w.compute(); o.add(w.get_mu()); o.add(w.get_C_inv()); o.add(w.get_vector()); } };
struct Rotations{ static const int n=6; static const char* name(){ return "so3"; } template<class T> static void run(Vector<6,T> x,const C& c,Out<T>& o){
	const Vector<3,T> w=x.template slice<0,3>(), p=x.template slice<3,3>(); const SO3<T> r(w); const SO3<> q(c.slice<0,3>()); o.add(r.get_matrix()); o.add(r*p); o.add(p*r); o.add(r*c.slice<3,3>()); o.add(q*p); o.add(r.inverse()*p); o.add((r*SO3<T>(p*.3)).get_matrix()); o.add((q*r).get_matrix()); o.add((r*q).get_matrix()); SO3<T> s(r); s*=SO3<T>(p*.5); o.add(s*p); o.add(r*cmat(c)); o.add(cmat(c)*r); o.add(r.adjoint(p));
	const Vector<3,T> u=p+makeVector(c[3],2+c[4]*.1,c[5]); o.add(SO3<T>(u,Vector<3,T>(u^makeVector(T(5)+w[0]*w[0],T(.5),T(1)))).get_matrix()); Matrix<3,3,T> k=r.get_matrix(); k+=.01*cmat(c)*w[1]; SO3<T> z; z=k; o.add(z.get_matrix()); } };
struct RotationLog{ static const int n=3; static const char* name(){ return "so3_ln"; } template<class T> static void run(Vector<3,T> x,const C& c,Out<T>& o){ const SO3<T> r=SO3<T>(x)*SO3<>(c.slice<0,3>()*.5); o.add(r.ln()); o.add(SO3<T>(x).ln()); } };
struct Rigid{ static const int n=6; static const char* name(){ return "se3"; } template<class T> static void run(Vector<6,T> x,const C& c,Out<T>& o){
	const SE3<T> g(x); const SE3<> h(c.slice<0,6>()); const Vector<3> p=c.slice<6,3>(); o.add(g*p); o.add(h*(g*p)); o.add((g*h)*p); o.add((h*g)*p); o.add(g.inverse()*p); o.add(g*unproject(p)); o.add(unproject(p)*g); o.add(g.adjoint(x)); o.add(g.trinvadjoint(x)); SE3<T> k(g); k.left_multiply_by(SE3<T>(x*.5)); o.add(k*p); k*=g; o.add(k*p); o.add(g*Matrix<4>(Identity));
	const Vector<3,T> y=g*p; if(y[2]>.5||y[2]<-.5) o.add(project(y)); else o.add(project(Vector<3,T>(y+makeVector(0.,0,2)))); } };
struct RigidLog{ static const int n=6; static const char* name(){ return "se3_ln"; } template<class T> static void run(Vector<6,T> x,const C& c,Out<T>& o){ const SE3<T> g=SE3<T>(x)*SE3<>(c.slice<0,6>()*.4); o.add(g.ln()); o.add(SE3<T>(x).ln()); } };
struct Planar{ static const int n=4; static const char* name(){ return "se2"; } template<class T> static void run(Vector<4,T> x,const C& c,Out<T>& o){
	const SE2<T> g(x.template slice<0,3>()); const SE2<> h(c.slice<0,3>()); const Vector<2> p=c.slice<3,2>(); o.add(g*p); o.add((g*h)*p); o.add((h*g)*p); o.add(g.inverse()*p); o.add(g*unproject(p)); o.add(g.adjoint(x.template slice<1,3>())); const SO2<T> r(x[3]); o.add(r.get_matrix()); o.add(r*p); o.add(p*r); o.add((r*SO2<>(c[5])).get_matrix()); o.add((r*g)*p); o.add(r.inverse()*p); SE2<T> k(g); k*=g; o.add(k*p); } };
struct MatrixFunctions{ static const int n=4; static const char* name(){ return "matrix_log"; } template<class T> static void run(Vector<4,T> x,const C& c,Out<T>& o){ Matrix<2,2,T> m; m=Identity; for(int i=0;i<4;i++) m(i/2,i%2)+=x[i]*.2+c[i]*.05; o.add(TooN::sqrt(m)); o.add(TooN::log(m)); } };

template<class Fn> void differentiate(vp::Rng& g){
	const std::string pre=std::string("diff/")+Fn::name()+"/"; const int n=Fn::n; Vector<n> x; C c;
	for(int i=0;i<12;i++) c[i]=(g.range(0,1)?1:-1)*g.unif(.1,1.4);
	const int kind=g.range(0,5); const double scale=kind==0?g.unif(2e-3,1e-2):kind==1?1e-5:kind==2?1e-10:1;
	const bool small=kind<=2&&n!=4; // small rotations and transformations; norms need arguments away from zero
	for(;;){ for(int i=0;i<n;i++) x[i]=(g.range(0,1)?1:-1)*g.unif(.1,1.2)*(small?scale:1); bool ok=true; for(int i=0;i<n;i++) for(int j=0;j<i;j++) if(!small&&std::fabs(std::fabs(x[i])-std::fabs(x[j]))<.01) ok=false; if(ok) break; }
	if(kind==3&&n!=4) x=Zeros;
	if(kind==4&&strcmp(Fn::name(),"norms")) for(int i=0;i<n;i++) if(g.chance(.5)) x[i]=0; // a value of zero still has derivatives
	std::string d; for(int i=0;i<n;i++) d+=vp::fmt(" %.17g",x[i]); vp::describe(std::string(Fn::name())+" at"+d); vp::sig(vp::hbytes(&x[0],n));
	auto run=[&](auto X){ typedef typename std::decay<decltype(X[0])>::type T; Out<T> o; Fn::run(X,c,o); return o.v; };
	const auto plain=run(x); const auto st=run(make_fad_vector<(unsigned)Fn::n>(x)); const auto dy=run(make_fad_vector(x));
	VP_CHECK(st.size()==plain.size()&&dy.size()==plain.size(),K("results"),"%d, %d and %d results",(int)plain.size(),(int)st.size(),(int)dy.size()); if(st.size()!=plain.size()||dy.size()!=plain.size()) return;
	L big=1; for(double v:plain) big=std::max(big,(L)std::fabs(v));
	for(size_t k=0;k<plain.size();k++){ VP_CLOSE(std::max(std::fabs(st[k].val()-plain[k]),std::fabs(dy[k].val()-plain[k])),1e-12L*big,K("value"),"result %d is %.17g on fadbad types, %.17g on double",(int)k,st[k].val(),plain[k]); }
	for(int j=0;j<n;j++){ // central differences with two Richardson steps
		std::vector<std::vector<L>> D,S; Vector<n,L> z; for(int i=0;i<n;i++) z[i]=x[i]; const auto fz=run(z);
		for(int s=0;s<3;s++){ const L h=ldexpl(1,-9-s); Vector<n,L> a=z,b=z; a[j]+=h; b[j]-=h; auto fa=run(a), fb=run(b), fs=fa; for(size_t k=0;k<fa.size();k++){ fs[k]=(fa[k]-2*fz[k]+fb[k])/h; fa[k]=(fa[k]-fb[k])/(2*h); } D.push_back(fa); S.push_back(fs); }
		for(size_t k=0;k<plain.size();k++){ const L r1=(4*D[1][k]-D[0][k])/3, r2=(4*D[2][k]-D[1][k])/3, r=(16*r2-r1)/15, unsure=fabsl(r-r2)+2*fabsl(S[0][k]-2*S[1][k])+2*fabsl(S[1][k]-2*S[2][k]); // the second differences of a smooth function are proportional to the step
			if(!(unsure<1e-5L*(1+fabsl(r)))) continue; // the step crosses a corner of the function
			VP_CLOSE(fabsl(st[k].deriv(j)-r),3e-9L*(big+fabsl(r))+unsure,K("derivative"),"result %d along %d: %.17g, numerically %.12Lg",(int)k,j,st[k].deriv(j),r);
			VP_CLOSE(fabsl(dy[k].deriv(j)-st[k].deriv(j)),1e-11L*(big+fabsl(r)),K("derivative_dynamic"),"result %d along %d: %.17g with a run-time number of directions, %.17g with a static one",(int)k,j,dy[k].deriv(j),st[k].deriv(j)); } } }
VP_UNIT(arithmetic,1600,128000){ differentiate<Arithmetic>(rng); }
VP_UNIT(norms,2400,192000){ differentiate<Norms>(rng); }
VP_UNIT(solve,1600,128000){ differentiate<Solve>(rng); }
VP_UNIT(cholesky,1600,128000){ differentiate<Symmetric>(rng); }
VP_UNIT(wls,1600,128000){ differentiate<LeastSquares>(rng); }
VP_UNIT(so3,2000,160000){ differentiate<Rotations>(rng); }
VP_UNIT(so3_ln,3200,256000){ differentiate<RotationLog>(rng); }
VP_UNIT(se3,2000,160000){ differentiate<Rigid>(rng); }
VP_UNIT(se3_ln,3200,256000){ differentiate<RigidLog>(rng); }
VP_UNIT(se2,3200,256000){ differentiate<Planar>(rng); }
VP_UNIT(matrix_log,1600,128000){ differentiate<MatrixFunctions>(rng); }
