// C32: what the storage classes cost. Layouts, heap allocations and element operations are counted while
// the operations run on random operands; the documented costs are the bounds.
#include "vp.hpp"
#include "tally.hpp"
#include <TooN/TooN.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/Cholesky.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
#include <TooN/determinant.h>
#include <TooN/helpers.h>
#include <TooN/se3.h>
#include <TooN/se2.h>
#include <TooN/sim3.h>
#include <TooN/sim2.h>
#include <TooN/sl.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/named_elements.h>
#include "num.hpp"
#include <complex>
#include <memory>
#include <utility>
using vp::Rng; using tally::Counts;
typedef T::Vector<Dyn> VD; typedef T::Matrix<Dyn,Dyn> MD; typedef T::Vector<T::Resizable> VR;
TOON_MAKE_NAMED_ELEMENT_VECTOR(Named4,c,m,y,k);
template<class X> void fillv(Rng&g,X&&x){ for(int i=0;i<x.size();i++) x[i]=g.normal(); }
template<class X> void fillm(Rng&g,X&&x){ for(int i=0;i<x.num_rows();i++) for(int j=0;j<x.num_cols();j++) x(i,j)=g.normal(); }
template<class X> void fillc(Rng&g,X&&x){ for(int i=0;i<x.size();i++) x[i].v=g.normal(); }
template<class X> void fillcm(Rng&g,X&&x){ for(int i=0;i<x.num_rows();i++) for(int j=0;j<x.num_cols();j++) x(i,j).v=g.normal(); }
static volatile double sink;
template<class X> void keep(const X&x){ asm volatile(""::"r"(&x):"memory"); }
static std::string pre;
// at most `most` heap allocations while EXPR runs
#define ALLOCS(most,name,...) do{ const Counts c_=tally::of([&]{ __VA_ARGS__; }); VP_CHECK(c_.allocs<=(most),vp::key(pre+name),"%ld heap allocations (%ld bytes), %d allowed: %s",c_.allocs,c_.bytes,(int)(most),#__VA_ARGS__); }while(0)
// and none bigger than `bytes`
#define ALLOCB(most,maxbytes,name,...) do{ const Counts c_=tally::of([&]{ __VA_ARGS__; }); VP_CHECK(c_.allocs<=(most)&&c_.bytes<=(long)(maxbytes),vp::key(pre+name),"%ld heap allocations of %ld bytes, %d of %ld bytes allowed: %s",c_.allocs,c_.bytes,(int)(most),(long)(maxbytes),#__VA_ARGS__); }while(0)
#define NONE(name,...) ALLOCS(0,"none/" name,__VA_ARGS__)

// ---------------------------------------------------------------- layouts
template<class P> const char* pname(); 
#define PN(t,n) template<> const char* pname<t>(){ return n; }
PN(char,"char") PN(short,"short") PN(int,"int") PN(float,"float") PN(double,"double") PN(long double,"longdouble") PN(std::complex<double>,"complex") PN(Cnt,"user")
static bool inside(const void*o,size_t so,const void*p,size_t sp){ return (const char*)p>=(const char*)o&&(const char*)p+sp<=(const char*)o+so; }
template<int N,class P> void lay_vec(){
	typedef T::Vector<N,P> X; const bool small=sizeof(P)*N<=1000;
	std::unique_ptr<X[]> a(new X[3]); X&x=a[1];
	if(small){
		VP_CHECK(sizeof(X)==N*sizeof(P),vp::key(std::string("layout/vector_no_metadata_")+pname<P>()),"sizeof(Vector<%d>) is %zu",N,sizeof(X));
		VP_CHECK(inside(&x,sizeof x,&x[0],N*sizeof(P)),vp::key(std::string("layout/vector_inside_")+pname<P>()),"the elements of Vector<%d> are not in the object",N);
		VP_CHECK(&a[2][0]==&a[0][0]+2*N,vp::key(std::string("layout/array_contiguous_")+pname<P>()),"arrays of Vector<%d> have gaps",N);
	} else {
		VP_CHECK(sizeof(X)<=64&&!inside(&x,sizeof x,&x[0],sizeof(P)),vp::key(std::string("layout/vector_large_on_heap_")+pname<P>()),"sizeof(Vector<%d>) is %zu: it should be on the heap",N,sizeof(X));
	}
	bool ok=true; for(int i=0;i<N;i++) ok=ok&&&x[i]==&x[0]+i;
	VP_CHECK(ok&&(const P*)x.get_data_ptr()==&x[0]&&x.size()==N,vp::key(std::string("layout/vector_contiguous_")+pname<P>()),"elements of Vector<%d> are not contiguous",N);
}
template<int R,int C,class P> void lay_mat(){
	typedef T::Matrix<R,C,P> X; typedef T::Matrix<R,C,P,T::ColMajor> Y; const bool small=sizeof(P)*R*C<=1000;
	std::unique_ptr<X[]> a(new X[3]); X&x=a[1]; std::unique_ptr<Y> q(new Y); Y&y=*q;
	if(small){
		VP_CHECK(sizeof(X)==R*C*sizeof(P)&&sizeof(Y)==R*C*sizeof(P),vp::key(std::string("layout/matrix_no_metadata_")+pname<P>()),"sizeof(Matrix<%d,%d>) is %zu, %zu column-major",R,C,sizeof(X),sizeof(Y));
		VP_CHECK(inside(&x,sizeof x,&x(0,0),sizeof(P))&&inside(&y,sizeof y,&y(R-1,C-1),sizeof(P)),vp::key(std::string("layout/matrix_inside_")+pname<P>()),"the elements of Matrix<%d,%d> are not in the object",R,C);
	} else VP_CHECK(sizeof(X)<=64&&sizeof(Y)<=64&&!inside(&x,sizeof x,&x(0,0),sizeof(P)),vp::key(std::string("layout/matrix_large_on_heap_")+pname<P>()),"sizeof(Matrix<%d,%d>) is %zu",R,C,sizeof(X));
	bool ok=true,oc=true; for(int i=0;i<R;i++) for(int j=0;j<C;j++){ ok=ok&&&x(i,j)==&x(0,0)+i*C+j&&&x[i][j]==&x(i,j); oc=oc&&&y(i,j)==&y(0,0)+i+j*R; }
	VP_CHECK(ok,vp::key(std::string("layout/matrix_row_major_")+pname<P>()),"Matrix<%d,%d>",R,C); VP_CHECK(oc,vp::key(std::string("layout/matrix_col_major_")+pname<P>()),"Matrix<%d,%d>",R,C);
}
template<class P,int...I> void lay_vecs(std::integer_sequence<int,I...>){ (lay_vec<I+1,P>(),...); }
template<class P> void lay(){
	const int edge=1000/(int)sizeof(P);
	lay_vecs<P>(std::make_integer_sequence<int,17>()); lay_vec<20,P>(); lay_vec<31,P>(); lay_vec<edge-1,P>(); lay_vec<edge,P>(); lay_vec<edge+1,P>(); lay_vec<edge+2,P>(); lay_vec<2*edge+3,P>();
	lay_mat<1,1,P>(); lay_mat<2,2,P>(); lay_mat<3,3,P>(); lay_mat<2,3,P>(); lay_mat<3,2,P>(); lay_mat<1,7,P>(); lay_mat<7,1,P>(); lay_mat<4,4,P>(); lay_mat<6,6,P>(); lay_mat<5,7,P>(); lay_mat<1,edge,P>(); lay_mat<edge/2,2,P>(); lay_mat<1,edge+1,P>(); lay_mat<40,40,P>();
}
VP_UNIT(layout,1,1){
	(void)rng; vp::describe("every small size, both sides of the stack limit, eight element types"); vp::sig(1);
	lay<char>(); lay<short>(); lay<int>(); lay<float>(); lay<double>(); lay<long double>(); lay<std::complex<double>>(); lay<Cnt>();
	VP_CHECK(sizeof(Named4<>)==4*sizeof(double),"layout/named_elements","%zu",sizeof(Named4<>));
	VP_CHECK(T::Internal::max_bytes_on_stack==1000,"layout/documented_limit","%d",(int)T::Internal::max_bytes_on_stack);
}
// dynamic objects: contiguous, in the documented order, views refer to the same cells
VP_UNIT(layout_dynamic,3000,120000){
	Rng&g=rng; const int r=g.range(1,g.chance(.1)?40:8),c=g.range(1,g.chance(.1)?40:8); vp::describe(vp::fmt("%dx%d",r,c)); vp::sig(r*1000+c);
	MD A(r,c); T::Matrix<Dyn,Dyn,double,T::ColMajor> B(r,c); VD v(r); VR w(r);
	bool ok=true,oc=true,ot=true,ov=true; auto At=A.T();
	for(int i=0;i<r;i++){ ov=ov&&&v[i]==&v[0]+i&&&w[i]==&w[0]+i; for(int j=0;j<c;j++){ ok=ok&&&A(i,j)==&A(0,0)+i*c+j; oc=oc&&&B(i,j)==&B(0,0)+i+j*r; ot=ot&&&At(j,i)==&A(i,j)&&&A[i][j]==&A(i,j)&&&A.T()[j][i]==&A(i,j); } }
	VP_CHECK(ok,"layout/dynamic_row_major","%dx%d",r,c); VP_CHECK(oc,"layout/dynamic_col_major","%dx%d",r,c); VP_CHECK(ot,"layout/transpose_same_cells","%dx%d",r,c); VP_CHECK(ov,"layout/dynamic_vector","%d",r);
	VP_CHECK(A.get_data_ptr()==&A(0,0)&&B.get_data_ptr()==&B(0,0)&&v.get_data_ptr()==&v[0]&&w.get_data_ptr()==&w[0],"layout/data_pointer","%dx%d",r,c);
	const int a=g.range(0,r-1),b=g.range(0,c-1),rr=g.range(1,r-a),cc=g.range(1,c-b);
	auto s=A.slice(a,b,rr,cc); VP_CHECK(&s(0,0)==&A(a,b)&&&s(rr-1,cc-1)==&A(a+rr-1,b+cc-1)&&&s.T()(0,rr-1)==&A(a+rr-1,b),"layout/slice_same_cells","%dx%d at %d,%d",rr,cc,a,b);
	auto d=A.diagonal_slice(); const int k=std::min(r,c)-1; VP_CHECK(&d[k]==&A(k,k)&&&v.as_row()(0,a)==&v[a]&&&v.as_col()(a,0)==&v[a]&&&v.slice(a,rr)[rr-1]==&v[a+rr-1],"layout/vector_views_same_cells","%d",r);
}

// ---------------------------------------------------------------- small static objects never use the heap
template<class P,int N,int M> void no_heap(Rng&g,const char*nm){
	pre=nm; T::Vector<N,P> a,b,c; T::Vector<M,P> u,w; T::Matrix<N,M,P> A,B; T::Matrix<M,N,P> C; T::Matrix<N,N,P> S,Q; T::Matrix<N,M,P,T::ColMajor> K; P s=(P)g.unif(.5,2);
	fillv(g,a); fillv(g,b); fillv(g,u); fillm(g,A); fillm(g,B); fillm(g,C); fillm(g,S); K=A;
	NONE("vector_construct",T::Vector<N,P> x=a; T::Vector<N,P> y; y=x; T::Vector<N,P> z(std::move(x)); keep(y); keep(z));
	NONE("vector_fill",T::Vector<N,P> x=T::Zeros; x=T::Ones; x=T::Ones*3; keep(x));
	NONE("vector_add",c=a+b; T::Vector<N,P> d=a-b; c+=d; c-=a; c=c+s*T::Ones; keep(c));
	NONE("vector_scale",c=a*s; c=s*a; c=a/s; c*=s; c/=s; c=-a; keep(c));
	NONE("vector_dot",sink=(double)(a*b+norm(a)+norm_sq(b)+norm_1(a)+norm_inf(b)); c=unit(a); normalize(c); keep(c));
	NONE("vector_compare",sink=a==b; sink=a!=b);
	NONE("vector_chain",c=(a+b)*s-(a-b)/s+diagmult(a,b); keep(c));
	NONE("matrix_construct",T::Matrix<N,M,P> x=A; T::Matrix<N,M,P> y(std::move(x)); y=x; T::Matrix<N,M,P,T::ColMajor> z=A; keep(y); keep(z));
	NONE("matrix_fill",A=T::Zeros; A=B; S=T::Identity; S=T::Identity*s; S+=T::Identity; keep(A));
	NONE("matrix_add",A=B+K; A-=B; A+=B; A=A*s; A=s*A/s; A=-A; keep(A));
	NONE("matrix_vector",c=A*u; u=C*c; u=c*A; c=c*S; keep(c));
	NONE("matrix_matrix",S=A*C; S=A*B.T(); Q=K*C; Q=S*Q; keep(S));
	NONE("outer",A=a.as_col()*u.as_row(); keep(A));
	NONE("diagonal",Q=a.as_diagonal()*S; Q=S*a.as_diagonal(); c=a.as_diagonal()*b; keep(Q));
	NONE("views",sink=(double)(A[0][0]+A.T()[0][0]+A.template slice<0,0,1,1>()(0,0)+a.template slice<0,1>()[0]+S.diagonal_slice()[0]+a.slice(0,1)[0]+A.slice(0,0,1,1)(0,0)+a.as_row()(0,0)+a.as_col()(0,0)));
	NONE("view_writes",A[0]=u; A.T()[0]=a; S.diagonal_slice()=b; S[0].template slice<0,1>()*=s; A.template slice<0,0,1,1>()+=T::Ones(1,1)*s; keep(A));
	NONE("trace_norm",sink=(double)(trace(S)+norm_fro(A)+norm_1(A)+norm_inf(A)));
	S=T::Identity*P(N*3); for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(i!=j) S(i,j)=S(j,i)=(P)g.unif(-1,1);
	NONE("gaussian_elimination",c=gaussian_elimination(S,a); A=gaussian_elimination(S,B); keep(c); keep(A));
	NONE("gauss_jordan",T::Matrix<N,2*N,P> J; J.template slice<0,0,N,N>()=S; J.template slice<0,N,N,N>()=T::Identity; gauss_jordan(J); keep(J));
	NONE("determinant",sink=(double)determinant_gaussian_elimination(S));
	NONE("cholesky",T::Cholesky<N,P> ch(S); c=ch.backsub(a); A=ch.backsub(B); Q=ch.get_inverse(); sink=(double)(ch.determinant()+ch.mahalanobis(a)); Q=ch.get_L(); Q=ch.get_D(); keep(c); keep(Q); keep(A));
	NONE("wls",T::WLS<N,P> l; l.add_prior((P)1); l.add_mJ(s,a,(P)2); l.compute(); keep(l.get_mu()));
	NONE("exp",T::Matrix<N,N,P> E=exp(T::Matrix<N,N,P>(S/P(6*N))); keep(E));
	NONE("symmetrize",Symmetrize(S); sink=(double)max_value(a)+(double)min_value(A));
	NONE("transcendental",c=a; c.template slice<0,1>()=b.template slice<0,1>(); A.T()=C; swap(a,b); keep(c));
}
VP_UNIT(static_double,400,16000){ vp::describe("double 3,4"); vp::sig(rng.u64()); no_heap<double,3,4>(rng,"double/"); no_heap<double,2,5>(rng,"double/"); no_heap<double,5,3>(rng,"double/"); }
VP_UNIT(static_float,400,16000){ vp::describe("float 4,3"); vp::sig(rng.u64()); no_heap<float,4,3>(rng,"float/"); no_heap<float,6,2>(rng,"float/"); }
VP_UNIT(static_largest,100,4000){ vp::describe("the largest squares on the stack"); vp::sig(rng.u64()); no_heap<double,7,11>(rng,"largest/"); no_heap<float,11,7>(rng,"largest/"); }
VP_UNIT(static_groups,600,24000){
	Rng&g=rng; pre="groups/"; vp::sig(g.u64()); vp::describe("groups");
	T::Vector<3> a=T::makeVector(g.normal(),g.normal(),g.normal()),p=T::makeVector(g.normal(),g.normal(),g.normal()); T::Vector<6> m; fillv(g,m); T::Vector<7> m7; fillv(g,m7); m7*=.3; T::Vector<4> m4; fillv(g,m4); T::Vector<8> m8; fillv(g,m8); m8*=.2; T::Vector<2> q=T::makeVector(1,2);
	NONE("cross",T::Vector<3> c=a^p; c=T::cross_product_matrix(a)*p; keep(c));
	NONE("so3",T::SO3<> R(a); T::SO3<> S=R*R.inverse(); T::Vector<3> x=R*p; x=p*R; x=S.ln(); x=R.ln(); R*=S; x=R.adjoint(x); T::SO3<> Q(a,p); T::Matrix<3> M=R.get_matrix(); R=M; R.coerce(); keep(x); keep(R));
	NONE("se3",T::SE3<> R(m); T::SE3<> S=R*R.inverse(); T::Vector<3> x=R*p; T::Vector<6> l=R.ln(); R*=S; l=R.adjoint(l); l=R.trinvadjoint(l); T::Matrix<6> J; J=T::Identity; J=R.adjoint(J); T::Vector<4> h=R*T::unproject(p); keep(l); keep(x); keep(h); keep(J));
	NONE("so2_se2",T::SO2<> R(m[0]); T::SE2<> S(T::makeVector(m[1],m[2],m[3])); S=S*S.inverse(); q=R*q; q=S*q; T::Vector<3> l=S.ln(); sink=R.ln(); keep(l); keep(q));
	NONE("sim",T::SIM3<> R(m7); T::SIM3<> S=R*R.inverse(); T::Vector<3> x=R*p; T::Vector<7> l=R.ln(); T::SIM2<> R2(m4); R2=R2*R2.inverse(); T::Vector<4> l4=R2.ln(); keep(x); keep(l); keep(l4));
	NONE("sl",T::SL<3> R(m8); T::SL<3> S=R*R.inverse(); T::Vector<3> x=R*p; keep(x); keep(S));
	NONE("project",T::Vector<2> y=T::project(p); T::Vector<4> h=T::unproject(p); keep(y); keep(h));
	NONE("named",Named4<> n; n.c=1; n.m=2; n.y=g.normal(); n.k=3; Named4<> o=n+n; o=n*2.0; sink=o.y+n*o; keep(o));
	NONE("make_vector",T::Vector<4> v=T::makeVector(1,2.5,g.normal(),3); T::Matrix<2> M=T::Data(1.,2.,3.,4.); M=M*M; keep(v); keep(M));
	NONE("wls",T::WLS<6> w; w.add_prior(1.); w.add_mJ(.5,m,2.); w.compute(); w+=w; keep(w.get_mu()));
	double buf[12]; for(double&x:buf) x=g.normal();
	NONE("wrapped",auto v=T::wrapVector<3>(buf); auto A=T::wrapMatrix<3,4>(buf); v+=a; sink=v*p+A(1,1)+A.T()[2]*p; auto d=T::wrapVector(buf,7); d*=2; auto D=T::wrapMatrix(buf,2,6); D/=3);
}

// ---------------------------------------------------------------- dynamic objects
VP_UNIT(dynamic_views,4000,160000){
	Rng&g=rng; const int n=g.range(2,g.chance(.2)?60:9),m=g.range(2,g.chance(.2)?60:9); vp::describe(vp::fmt("%d,%d",n,m)); vp::sig(n*100+m); pre="dynamic/";
	VD v(n),w(n),u(m); MD A(n,m),B(n,m); T::Matrix<Dyn,Dyn,double,T::ColMajor> K(n,m); VR r(n); fillv(g,v); fillv(g,w); fillv(g,u); fillm(g,A); fillm(g,B); fillm(g,K); fillv(g,r);
	const int i=g.range(0,n-1),j=g.range(0,m-1),k=g.range(0,n-2),l=g.range(0,m-2); const VD&cv=v; const MD&cA=A;
	NONE("subscript",sink=A[i][j]+A.T()[j][i]+A(i,j)+v[i]+cA[i][j]+K[i][j]+cv[i]+K.T()[j][i]);
	NONE("slices",sink=v.slice(k,n-k)[0]+A.slice(k,l,n-k,m-l)(0,0)+A.slice(k,l,n-k,m-l).T()(0,0)+A[i].slice(l,m-l)[0]+cA.T().slice(l,k,m-l,n-k)[0][0]+cv.slice(k,1)[0]+(v.slice<0,2>()[1])+(A.slice<0,0,2,2>()(1,1))+A.diagonal_slice()[1]+K.diagonal_slice()[0]);
	NONE("as",sink=v.as_row()(0,i)+v.as_col()(i,0)+v.as_diagonal()[i]+v.as_slice()[i]+A.T().T()(i,j)+r.as_row()(0,i)+v.ref()[i]+A.ref()(i,j)+cv.as_row()(0,i));
	NONE("assign",v=w; A=B; A=K; K=B; v=r; A[i]=u; A.T()[j]=v; A.slice(k,l,n-k,m-l)=B.slice(k,l,n-k,m-l); K=T::Zeros; v=T::Zeros; v=T::Ones);
	NONE("compound_vector",v+=w; v-=w; v*=2.; v/=3.; v.slice(k,n-k)+=w.slice(k,n-k); A[i]-=u; A.T()[j]+=v);
	NONE("compound_matrix",A+=B; A-=K; A*=2; A/=2; A.T()+=B.T(); A.slice(k,l,n-k,m-l)*=3;);
	NONE("dot",sink=v*w+A[i]*u+v*A.T()[j]+norm(v)+norm_sq(A[i])+(v==w)+(A==B)+(A!=K)+norm_fro(A));
	NONE("move_swap",VD x(std::move(v)); swap(x,w); swap(x,w); VR y(std::move(r)); swap(y,r); VD z(std::move(x)); keep(z));
}
// the result is built in place: one allocation of just the size of the result, no temporaries
static VD build(int n){ VD x(n); for(int i=0;i<n;i++) x[i]=i; return x; }
static MD buildm(int n,int m){ MD x(n,m); x=T::Zeros; return x; }
static VD sum(const VD&a,const VD&b){ return a+b; }
VP_UNIT(dynamic_construct,4000,160000){
	Rng&g=rng; const int n=g.range(2,g.chance(.2)?60:9),m=g.range(2,g.chance(.2)?60:9); vp::describe(vp::fmt("%d,%d",n,m)); vp::sig(n*100+m); pre="construct/";
	VD v(n),w(n),u(m); MD A(n,m),B(n,m),C(m,n); fillv(g,v); fillv(g,w); fillv(g,u); fillm(g,A); fillm(g,B); fillm(g,C); const long V=n*8,M=n*m*8;
	#define ONE(name,bytes,...) ALLOCB(1,bytes,name,__VA_ARGS__)
	ONE("size",V,VD x(n); keep(x)); ONE("copy",V,VD x=v; keep(x)); ONE("copy_slice",V,VD x=A.T()[0]; keep(x)); ONE("copy_matrix",M,MD X=A; keep(X)); ONE("copy_transpose",M,MD X=A.T(); keep(X)); ONE("matrix_size",M,MD X(n,m); keep(X));
	ONE("add",V,VD x=v+w; keep(x)); ONE("subtract",V,VD x=v-w; keep(x)); ONE("scale",V,VD x=v*2.; keep(x)); ONE("scale_left",V,VD x=2.*v; keep(x)); ONE("divide",V,VD x=v/2.; keep(x)); ONE("negate",V,VD x=-v; keep(x));
	ONE("fill",V,VD x=T::Zeros(n); keep(x)); ONE("fill_ones",V,VD x=T::Ones(n); keep(x)); ONE("identity",V*n,MD X=T::Identity(n); keep(X)); ONE("zeros_matrix",M,MD X=T::Zeros(n,m); keep(X));
	ONE("matrix_vector",V,VD x=A*u; keep(x)); ONE("vector_matrix",V,VD x=u*C; keep(x)); ONE("matrix_matrix",V*n,MD X=A*C; keep(X)); ONE("matrix_add",M,MD X=A+B; keep(X)); ONE("matrix_scale",M,MD X=A*3; keep(X)); ONE("transposed_product",V*n,MD X=A*B.T(); keep(X));
	ONE("outer",M,MD X=v.as_col()*u.as_row(); keep(X)); ONE("diagonal_matrix",M,MD X=v.as_diagonal()*A; keep(X)); ONE("diagmult",V,VD x=diagmult(v,w); keep(x));
	ONE("returned",V,VD x=build(n); keep(x)); ONE("returned_matrix",M,MD x=buildm(n,m); keep(x)); ONE("returned_sum",V,VD x=sum(v,w); keep(x)); ONE("moved_through",V,VD x=build(n); VD y=std::move(x); VD z(std::move(y)); keep(z));
	ONE("initializer",3*8,VD x({1,2,3}); keep(x)); ONE("resizable",V,VR x(n); keep(x)); 
	// two allocations: the temporary and its copy (aliasing)
	ALLOCB(1,V,"assign_sum",v=v+w); ALLOCB(1,V,"assign_product",v=A*u); ALLOCB(1,M,"assign_matrix_sum",A=A+B);
	const int k=g.range(2,6); ALLOCB(k,k*V,"chain",VD x=v+w; for(int i=1;i<k;i++) x+=v*2.; keep(x));
}
// a statically sized object above the limit behaves the same, with one allocation for each object
VP_UNIT(large_static,600,24000){
	Rng&g=rng; vp::describe("1008 to 12800 bytes"); vp::sig(g.u64()); pre="large/";
	typedef T::Vector<126> X; typedef T::Matrix<40,40> Y; X a,b; Y A,B; fillv(g,a); fillv(g,b); fillm(g,A); fillm(g,B);
	ALLOCB(1,1008,"construct",X x; keep(x)); ALLOCB(1,1008,"copy",X x=a; keep(x)); ALLOCB(1,1008,"sum",X x=a+b; keep(x)); ALLOCB(1,12800,"matrix",Y y; keep(y)); ALLOCB(1,12800,"product",Y y=A*B; keep(y)); ALLOCB(1,12800,"transpose",Y y=A.T(); keep(y));
	NONE("assign",a=b; A=B; A=B.T(); a+=b; a*=2; A-=B; a=T::Zeros; A=T::Identity); NONE("views",sink=a*b+A[3]*B.T()[2]+norm(a)+A.slice<0,0,3,3>()(1,1)); X c=a; c+=b; X d=a+b; bool ok=true; for(int i=0;i<126;i++) ok=ok&&c[i]==d[i]; VP_CHECK(ok,"large/values","");
}
// growth is that of std::vector; shrinking and refilling need no memory
VP_UNIT(resizable,3000,120000){
	Rng&g=rng; const int n=g.range(1,300); vp::describe(vp::fmt("up to %d",n)); vp::sig(n); pre="resizable/";
	VR r; std::vector<double> s; const Counts c=tally::of([&]{ for(int i=1;i<=n;i++){ r.resize(i); r[i-1]=i; } }); const Counts d=tally::of([&]{ for(int i=1;i<=n;i++) s.push_back(i); });
	VP_CHECK(c.allocs<=2*d.allocs+2,"resizable/amortised_growth","%ld allocations to grow to %d one by one, std::vector %ld",c.allocs,n,d.allocs);
	bool ok=r.size()==n; for(int i=0;i<n&&ok;i++) ok=r[i]==i+1; VP_CHECK(ok,"resizable/values","%d",n);
	const int k=g.range(0,n); VD v(k); fillv(g,v); const double*p=n?&r[0]:nullptr;
	NONE("shrink",r.resize(k)); NONE("regrow",r.resize(n)); NONE("shrink_by_assignment",r=v); NONE("regrow_by_fill",r=T::Ones(n)); NONE("same_size",r=T::Zeros; r+=r; r*=2); VP_CHECK(n==0||&r[0]==p,"resizable/storage_stays","%d",n);
	VR e; ALLOCB(1,n*8,"first_assignment",e=r); VR mv; NONE("move",VR t(std::move(e)); swap(t,mv); swap(mv,r)); std::vector<VR> st; st.reserve(4); NONE("into_container",st.push_back(std::move(r)); st.emplace_back(std::move(mv)));
}

// ---------------------------------------------------------------- element operations
#define OPS(name,M,A,D,...) do{ const Counts c_=tally::of([&]{ __VA_ARGS__; }); VP_CHECK(c_.mul<=(M)&&c_.add<=(A)&&c_.div<=(D),vp::key(std::string("ops/")+name),"%ld multiplications, %ld additions, %ld divisions; allowed %ld, %ld, %ld",c_.mul,c_.add,c_.div,(long)(M),(long)(A),(long)(D)); }while(0)
// the simple operations: at most twice the textbook count
#define OPS2(name,M,A,D,...) OPS(name,2*(M)+4,2*(A)+4,2*(D)+4,__VA_ARGS__)
#define UNTOUCHED(name,...) do{ const Counts c_=tally::of([&]{ __VA_ARGS__; }); VP_CHECK(c_.copied+c_.made+c_.assigned+c_.mul+c_.add+c_.div==0&&c_.allocs==0,vp::key(std::string("elements/")+name),"a view made %ld, copied %ld, assigned %ld elements, %ld allocations",c_.made,c_.copied,c_.assigned,c_.allocs); }while(0)
VP_UNIT(views_touch_nothing,2000,80000){
	Rng&g=rng; const int n=g.range(2,9),m=g.range(2,9); vp::describe(vp::fmt("%dx%d",n,m)); vp::sig(n*10+m);
	T::Vector<Dyn,Cnt> v(n); T::Matrix<Dyn,Dyn,Cnt> A(n,m); T::Matrix<3,4,Cnt> S; T::Vector<5,Cnt> f; const auto&cv=v; const auto&cA=A; const auto&cS=S; const int i=g.range(0,n-1),j=g.range(0,m-1); Cnt raw[12];
	UNTOUCHED("row",auto x=A[i]; auto y=cA[i]; auto z=S[1]; auto w=cS[2]; keep(x); keep(y); keep(z); keep(w));
	UNTOUCHED("column",auto x=A.T()[j]; auto y=cA.T()[j]; auto z=S.T()[3]; keep(x); keep(y); keep(z));
	UNTOUCHED("transpose",auto x=A.T(); auto y=cA.T(); auto z=S.T().T(); keep(x); keep(y); keep(z));
	UNTOUCHED("slice",auto x=A.slice(0,0,i+1,j+1); auto y=v.slice(0,i+1); auto z=cS.template slice<0,1,2,2>(); auto w=f.template slice<1,3>(); auto q=cv.slice(i,1); auto t=x.slice(0,0,1,1); keep(x); keep(y); keep(z); keep(w); keep(q); keep(t));
	UNTOUCHED("diagonal",auto x=A.diagonal_slice(); auto y=cS.diagonal_slice(); keep(x); keep(y));
	UNTOUCHED("as",auto x=v.as_row(); auto y=v.as_col(); auto z=v.as_diagonal(); auto w=cv.as_slice(); auto p=f.as_row(); auto& q=v.ref(); auto& t=A.ref(); keep(x); keep(y); keep(z); keep(w); keep(p); keep(q); keep(t));
	UNTOUCHED("wrap",auto x=T::wrapVector<12>(raw); auto y=T::wrapMatrix<3,4>(raw); auto z=T::wrapMatrix(raw,2,6); auto w=T::wrapVector(raw,7); auto q=y.T()[1]; keep(x); keep(y); keep(z); keep(w); keep(q));
	UNTOUCHED("move",T::Vector<Dyn,Cnt> x(std::move(v)); T::Vector<Dyn,Cnt> y(std::move(x)); keep(y));
	T::Vector<Dyn,Cnt> a(n),b(n); UNTOUCHED("swap",swap(a,b)); T::Vector<T::Resizable,Cnt> r(n),t(m); UNTOUCHED("swap_resizable",swap(r,t));
}
VP_UNIT(operation_counts,3000,120000){
	Rng&g=rng; const int n=g.range(2,g.chance(.2)?30:9),m=g.range(2,g.chance(.2)?30:9),k=g.range(1,6); vp::describe(vp::fmt("n=%d m=%d k=%d",n,m,k)); vp::sig(n*1000+m*10+k);
	typedef T::Vector<Dyn,Cnt> V; typedef T::Matrix<Dyn,Dyn,Cnt> M; V v(n),w(n),u(m); M A(n,m),B(m,k),S(n,n),R(n,k); fillc(g,v); fillc(g,w); fillc(g,u); fillcm(g,A); fillcm(g,B); fillcm(g,S); fillcm(g,R);
	const long N=n,MM=m,K=k,N3=N*N*N;
	OPS2("add",0,N,0,V x=v+w; keep(x)); OPS2("scale",N,0,0,V x=v*Cnt(2); keep(x)); OPS2("compound",N,2*N,0,v+=w; v-=w; v*=Cnt(1)); OPS2("dot",N,N,0,Cnt d=v*w; keep(d)); OPS2("norm_sq",N,N,0,Cnt d=norm_sq(v); keep(d));
	OPS2("matrix_vector",N*MM,N*MM,0,V x=A*u; keep(x)); OPS2("vector_matrix",N*MM,N*MM,0,V x=v*A; keep(x)); OPS2("matrix_matrix",N*MM*K,N*MM*K,0,M X=A*B; keep(X)); OPS2("matrix_add",0,N*MM,0,M X=A+A; keep(X));
	OPS2("diagonal_matrix",N*MM,0,0,M X=v.as_diagonal()*A; keep(X)); OPS2("matrix_diagonal",N*MM,0,0,M X=A*u.as_diagonal(); keep(X)); OPS2("outer",N*MM,N*MM,0,M X=v.as_col()*u.as_row(); keep(X)); OPS("assign",0,0,0,A=A; v=w; A.T()=A.T(); keep(A));
	// cubic algorithms: no more than about twice the textbook count
	OPS("gaussian_elimination",2*N3/3+3*N*N+9*N,2*N3/3+3*N*N+9*N,N*N+3*N,V x=gaussian_elimination(S,v); keep(x)); OPS("gaussian_elimination_matrix",2*N3/3+3*N*N*(K+1)+9*N,2*N3/3+3*N*N*(K+1)+9*N,N*N*K+3*N*K+N*N,M X=gaussian_elimination(S,R); keep(X));
	OPS("determinant",2*N3/3+3*N*N+9*N,2*N3/3+3*N*N+9*N,N*N+3*N,Cnt d=determinant_gaussian_elimination(S); keep(d));
	M Q(n,n); for(int i=0;i<n;i++) for(int j=0;j<n;j++) Q(i,j).v=i==j?3*n:1./(1+i+j);
	OPS("cholesky",2*N3/3+3*N*N+9*N,2*N3/3+3*N*N+9*N,2*N*N+3*N,T::Cholesky<Dyn,Cnt> c(Q); keep(c)); T::Cholesky<Dyn,Cnt> c(Q); OPS("cholesky_backsub",2*N*N+3*N,2*N*N+3*N,N*N+2*N,V x=c.backsub(v); keep(x)); OPS("cholesky_backsub_matrix",(2*N*N+3*N)*K,(2*N*N+3*N)*K,(N*N+2*N)*K,M X=c.backsub(R); keep(X));
	OPS2("trace",0,N+1,0,Cnt t=trace(S); keep(t));
}
