// C05: every way of giving values to an object, element by element against the list of values.
#include "vp.hpp"
#include <TooN/TooN.h>
#include "c01.hpp"
#include <complex>
#include <utility>
#include <array>
typedef std::complex<double> CD;
static std::string show1(const CD&c);
template<class Q> std::string show1(const Q&q);
#ifndef VTY
#define VTY double
#endif
using vp::Rng;
typedef VTY P;
template<class X> struct isc { static const bool v=false; }; template<class X> struct isc<std::complex<X>> { static const bool v=true; };
// a value exactly representable in every element type used here
template<class Q> Q pickv(Rng&g){ if constexpr(isc<Q>::v) return Q(g.range(-99,99),g.range(-99,99)); else if constexpr(std::is_integral<Q>::value) return (Q)g.range(-9999,9999); else return (Q)std::ldexp((double)g.range(-99999,99999),g.range(-6,6)); }
template<class Q> Q nz(Rng&g){ Q q; do q=pickv<Q>(g); while(q==Q(0)); return q; }
template<class X,class A> bool eqlist(const X&x,const A&a,int n){ if(x.size()!=n) return false; for(int i=0;i<n;i++) if(!(x[i]==a[i])) return false; return true; }
template<class X,class A> bool eqmat(const X&x,const A&a,int r,int c){ if(x.num_rows()!=r||x.num_cols()!=c) return false; for(int i=0;i<r;i++) for(int j=0;j<c;j++) if(!(x(i,j)==a[i*c+j])) return false; return true; }
template<class X> void mark(X&x){ for(int i=0;i<x.size();i++) x[i]=typename std::decay<decltype(x[0])>::type(77); }
template<class X> void markm(X&x){ for(int i=0;i<x.num_rows();i++) for(int j=0;j<x.num_cols();j++) x(i,j)=typename std::decay<decltype(x(0,0))>::type(77); }
template<class F,int... I> void seq(F f,std::integer_sequence<int,I...>){ (f(std::integral_constant<int,I+1>()),...); }
// one full expression: the temporaries of a fill end together
template<class X,class A,size_t... I> void fillx(X&x,const A&a,std::index_sequence<I...>){ ((T::Fill(x)=a[0]) , ... , a[I+1]); }
template<int N,class X,class A> void fillx(X&x,const A&a){ fillx(x,a,std::make_index_sequence<N-1>()); }
template<class A,size_t... I> auto datax(const A&a,std::index_sequence<I...>){ return T::Data(a[I]...); }
template<int N,class A> auto datax(const A&a){ return datax(a,std::make_index_sequence<N>()); }
template<class A,size_t... I> auto mkv(const A&a,std::index_sequence<I...>){ return T::makeVector(a[I]...); }
template<int N,class A> auto mkv(const A&a){ return mkv(a,std::make_index_sequence<N>()); }
static std::string ctx;
static std::string show1(const CD&c){ return vp::fmt("(%g,%g)",c.real(),c.imag()); }
template<class Q> std::string show1(const Q&q){ return vp::fmt("%Lg",(L)q); }
template<class Q> struct later { static const bool real=!isc<Q>::v; };
template<class Q,int N> std::array<Q,N> values(Rng&g){ std::array<Q,N> a; for(auto&x:a) x=pickv<Q>(g); ctx=vp::fmt("%d values:",N); for(int i=0;i<N&&i<6;i++) ctx+=" "+show1(a[i]); vp::describe(ctx); vp::sig(vp::hbytes(a.data(),N)); return a; }
#define CC(name,cond) VP_CHECK(cond,name,"%s",ctx.c_str())
// all vector storages of size N: g(x) fills x
template<int N,class Q,class F> void vstores(Rng&g,F f){
	std::string pre; (void)pre; f("static",[&](auto fill){ std::unique_ptr<T::Vector<N,Q>> x(new T::Vector<N,Q>); fill(*x); });
	f("dynamic",[&](auto fill){ T::Vector<Dyn,Q> x(N); fill(x); });
	f("resizable",[&](auto fill){ T::Vector<T::Resizable,Q> x(N); fill(x); });
	f("slice",[&](auto fill){ T::Vector<N+3,Q> b; mark(b); auto x=b.template slice<2,N>(); fill(x); bool ok=b[0]==Q(77)&&b[1]==Q(77)&&b[N+2]==Q(77); CC("neighbours_untouched",ok); });
	f("dynslice",[&](auto fill){ T::Vector<Dyn,Q> b(N+2); mark(b); auto x=b.slice(1,N); fill(x); bool ok=b[0]==Q(77)&&b[N+1]==Q(77); CC("neighbours_untouched",ok); });
	f("row",[&](auto fill){ T::Matrix<3,N,Q> A; markm(A); auto x=A[1]; fill(x); bool ok=true; for(int j=0;j<N;j++) if(A(0,j)!=Q(77)||A(2,j)!=Q(77)) ok=false; CC("neighbours_untouched",ok); });
	f("column",[&](auto fill){ T::Matrix<Dyn,Dyn,Q> A(N,2); markm(A); auto x=A.T()[0]; fill(x); bool ok=true; for(int j=0;j<N;j++) if(A(j,1)!=Q(77)) ok=false; CC("neighbours_untouched",ok); });
	f("diagonal",[&](auto fill){ T::Matrix<N,N,Q> A; markm(A); auto x=A.diagonal_slice(); fill(x); bool ok=true; for(int i=0;i<N;i++) for(int j=0;j<N;j++) if(i!=j&&A(i,j)!=Q(77)) ok=false; CC("neighbours_untouched",ok); });
	f("wrapped",[&](auto fill){ std::unique_ptr<Q[]> p(new Q[N]); auto x=T::wrapVector<N,Q>(p.get()); fill(x); });
}
template<int R,int C,class Q,class F> void mstores(Rng&g,F f){
	f("static",[&](auto fill){ std::unique_ptr<T::Matrix<R,C,Q>> x(new T::Matrix<R,C,Q>); fill(*x); });
	f("colmajor",[&](auto fill){ T::Matrix<R,C,Q,T::ColMajor> x; fill(x); });
	f("dynamic",[&](auto fill){ T::Matrix<Dyn,Dyn,Q> x(R,C); fill(x); });
	f("dyncolmajor",[&](auto fill){ T::Matrix<Dyn,Dyn,Q,T::ColMajor> x(R,C); fill(x); });
	f("halfr",[&](auto fill){ T::Matrix<R,Dyn,Q> x(R,C); fill(x); });
	f("halfc",[&](auto fill){ T::Matrix<Dyn,C,Q,T::ColMajor> x(R,C); fill(x); });
	f("transposed",[&](auto fill){ T::Matrix<C,R,Q> b; auto x=b.T(); fill(x); });
	f("slice",[&](auto fill){ T::Matrix<R+2,C+1,Q> b; markm(b); auto x=b.template slice<1,1,R,C>(); fill(x); bool ok=true; for(int i=0;i<R+2;i++) for(int j=0;j<C+1;j++) if((i<1||i>R||j<1)&&b(i,j)!=Q(77)) ok=false; CC("neighbours_untouched",ok); });
	f("dynslice",[&](auto fill){ T::Matrix<Dyn,Dyn,Q,T::ColMajor> b(R+1,C+2); markm(b); auto x=b.slice(0,1,R,C); fill(x); bool ok=true; for(int i=0;i<R+1;i++) for(int j=0;j<C+2;j++) if((i>=R||j<1||j>C)&&b(i,j)!=Q(77)) ok=false; CC("neighbours_untouched",ok); });
	f("wrapped",[&](auto fill){ std::unique_ptr<Q[]> p(new Q[R*C]); auto x=T::wrapMatrix<R,C,Q>(p.get()); fill(x); });
}
VP_UNIT(fill_vector,300,4000){ Rng&g=rng;
	auto go=[&](auto n){ constexpr int N=decltype(n)::value; auto a=values<P,N>(g); 
		vstores<N,P>(g,[&](const char*w,auto run){ run([&](auto&x){ if(g.chance(.5)) mark(x); fillx<N>(x,a); CC(vp::key(std::string("fill_vector/")+w),eqlist(x,a,N)); }); }); };
	seq(go,std::integer_sequence<int,0,1,2,3,6,10>());
}
template<int R,int C> void fm(Rng&g){ auto a=values<P,R*C>(g); mstores<R,C,P>(g,[&](const char*w,auto run){ run([&](auto&x){ if(g.chance(.5)) markm(x); fillx<R*C>(x,a); CC(vp::key(std::string("fill_matrix/")+w),eqmat(x,a,R,C)); }); }); }
VP_UNIT(fill_matrix,250,4000){ fm<1,1>(rng); fm<1,3>(rng); fm<3,1>(rng); fm<2,2>(rng); fm<2,3>(rng); fm<4,3>(rng); fm<3,5>(rng); }
// a fill list of other number types is converted
template<class P> void fill_mixed_(Rng&g){ int i=g.range(-99,99); float f=(float)pickv<double>(g); long l=g.range(-99,99); double d=std::floor(pickv<double>(g)); short s=g.range(-9,9); long double ld=(long double)g.range(-1000,1000)/8;
	ctx=vp::fmt("%d %g %ld %g %d %Lg",i,f,l,d,s,ld); vp::sig(vp::hbytes(&d,1)^i);
	if constexpr(!isc<P>::v){ P a[6]={(P)i,(P)f,(P)l,(P)d,(P)s,(P)ld};
	T::Vector<6,P> v; T::Fill(v)=i,f,l,d,s,ld; CC("fill_mixed/vector",eqlist(v,a,6)); T::Vector<Dyn,P> vd(6); T::Fill(vd)=i,f,l,d,s,ld; CC("fill_mixed/dynamic",eqlist(vd,a,6));
	T::Matrix<2,3,P> m; T::Fill(m)=i,f,l,d,s,ld; CC("fill_mixed/matrix",eqmat(m,a,2,3)); T::Matrix<Dyn,Dyn,P,T::ColMajor> md(3,2); T::Fill(md)=i,f,l,d,s,ld; CC("fill_mixed/dynamic_matrix",eqmat(md,a,3,2)); }
	double b[6]={(double)i,f,(double)l,d,(double)s,(double)ld}; auto v=T::makeVector(b[0],b[1],b[2],b[3],b[4],b[5]); auto w=T::makeVector(i,f,l,d,s,(double)ld); constexpr bool dbl=std::is_same<decltype(w),T::Vector<6,double>>::value; CC("make_vector/mixed_is_double",dbl&&eqlist(w,b,6)&&eqlist(v,b,6));
	T::Matrix<2,3> q=T::Data(i,f,l,d,s,(double)ld); CC("data/mixed",eqmat(q,b,2,3));
}
VP_UNIT(fill_mixed,300,3000){ fill_mixed_<P>(rng); }
VP_UNIT(make_vector,200,2000){ Rng&g=rng;
	auto go=[&](auto n){ constexpr int N=decltype(n)::value; auto a=values<P,N>(g); auto v=mkv<N>(a); constexpr bool t=std::is_same<decltype(v),T::Vector<N,P>>::value; CC("make_vector/type",t); CC("make_vector/values",eqlist(v,a,N));
		T::Vector<N,P> x=mkv<N>(a); T::Vector<Dyn,P> y=mkv<N>(a),z(N); z=mkv<N>(a); T::Vector<T::Resizable,P> r; r=mkv<N>(a); CC("make_vector/assigned",eqlist(x,a,N)&&eqlist(y,a,N)&&eqlist(z,a,N)&&eqlist(r,a,N)); };
	seq(go,std::make_integer_sequence<int,30>());
	std::array<int,12> ia; for(auto&x:ia) x=g.range(-99,99); T::Vector<12,P> c=mkv<12>(ia); bool ok=true; for(int i=0;i<12;i++) if(!(c[i]==P(ia[i]))) ok=false; CC("make_vector/converted",ok);
}
template<int R,int C> void dm(Rng&g){ auto a=values<P,R*C>(g); auto d=datax<R*C>(a); mstores<R,C,P>(g,[&](const char*w,auto run){ run([&](auto&x){ if(g.chance(.5)) markm(x); x=d; CC(vp::key(std::string("data_matrix/")+w),eqmat(x,a,R,C)); }); });
	T::Matrix<R,C,P> x=d; T::Matrix<R,C,P,T::ColMajor> y(d); CC("data_matrix/constructed",eqmat(x,a,R,C)&&eqmat(y,a,R,C)); }
VP_UNIT(data_list,200,3000){ Rng&g=rng; dm<1,1>(g); dm<1,4>(g); dm<4,1>(g); dm<2,3>(g); dm<3,3>(g);
	auto big=[&](auto n){ constexpr int N=decltype(n)::value; auto a=values<P,N>(g); T::Vector<N,P> v=datax<N>(a); CC("data_vector/constructed",eqlist(v,a,N)); T::Vector<Dyn,P> w(N); w=datax<N>(a); CC("data_vector/dynamic",eqlist(w,a,N)); };
	seq(big,std::integer_sequence<int,0,2,6,11,15,24,35,63,98,99>());
	auto a=values<P,5>(g); vstores<5,P>(g,[&](const char*w,auto run){ run([&](auto&x){ x=datax<5>(a); CC(vp::key(std::string("data_vector/")+w),eqlist(x,a,5)); }); });
}
template<class P> void lists_(Rng&g){ auto a=values<P,4>(g);
	{ T::Vector<Dyn,P> x={a[0],a[1],a[2],a[3]},y{a[0],a[1]}; T::Vector<T::Resizable,P> z={a[0],a[1],a[2],a[3]},w{a[3]}; std::array<P,1> b{a[3]}; CC("list/dynamic",eqlist(x,a,4)&&eqlist(y,a,2)); CC("list/resizable",eqlist(z,a,4)&&eqlist(w,b,1)); x={a[3],a[2],a[1],a[0]}; z={a[1],a[0]}; bool ok=x.size()==4&&x[0]==a[3]&&x[1]==a[2]&&x[2]==a[1]&&x[3]==a[0]&&z.size()==2&&z[0]==a[1]&&z[1]==a[0]; CC("list/assigned",ok); }
	{ T::Vector<4,P> x={{a[0],a[1],a[2],a[3]}}; T::Vector<4,P> y({a[0],a[1],a[2],a[3]}); CC("list/static",eqlist(x,a,4)&&eqlist(y,a,4)); }
	{ const P c[4]={a[0],a[1],a[2],a[3]}; T::Vector<4,P> x(c); CC("array/same_type",eqlist(x,a,4)); }
	if constexpr(!isc<P>::v){ int c[4]; float f[4]; double d[4]; P e[4],h[4],k[4]; for(int i=0;i<4;i++){ d[i]=pickv<double>(g)+1e-3*g.range(-400,400); f[i]=(float)pickv<double>(g); c[i]=g.range(-99999,99999); e[i]=(P)c[i]; h[i]=(P)f[i]; k[i]=(P)d[i]; }
		if constexpr(!std::is_same<P,int>::value){ T::Vector<4,P> x(c); CC("array/int",eqlist(x,e,4)); } if constexpr(!std::is_same<P,float>::value){ T::Vector<4,P> x(f); CC("array/float",eqlist(x,h,4)); } if constexpr(!std::is_same<P,double>::value){ T::Vector<4,P> x(d); CC("array/double",eqlist(x,k,4)); }
		T::Vector<4,P> x={{c[0],c[1],c[2],c[3]}}; CC("list/static_of_int",eqlist(x,e,4)); }
	{ auto b=values<P,6>(g); P raw[6]; for(int i=0;i<6;i++) raw[i]=b[i]; T::Vector<6,P> x=T::wrapVector<6,P>(raw); T::Vector<Dyn,P> y=T::wrapVector(raw,6),z(6); z=T::wrapVector<6,P>((const P*)raw); T::Matrix<2,3,P> m=T::wrapMatrix<2,3,P>(raw); T::Matrix<Dyn,Dyn,P,T::ColMajor> n=T::wrapMatrix((const P*)raw,3,2); T::Matrix<3,Dyn,P> o=T::wrapMatrix<3,Dyn,P>(raw,3,2); T::Matrix<2,3,P> q=T::Matrix<2,3,P,T::Reference::ColMajor>(raw); std::array<P,6> qa{b[0],b[2],b[4],b[1],b[3],b[5]};
		CC("pointer/vector",eqlist(x,b,6)&&eqlist(y,b,6)&&eqlist(z,b,6)); CC("pointer/matrix",eqmat(m,b,2,3)&&eqmat(n,b,3,2)&&eqmat(o,b,3,2)); CC("pointer/column_major",eqmat(q,qa,2,3)); }
}
VP_UNIT(lists_and_arrays,400,5000){ lists_<P>(rng); }
// Zeros, Ones, Identity: plain, sized, scaled
template<class X,class Q> bool allv(const X&x,int n,const Q&q){ if(x.size()!=n) return false; for(int i=0;i<n;i++) if(!(x[i]==q)) return false; return true; }
template<class X,class Q> bool allm(const X&x,int r,int c,const Q&q){ if(x.num_rows()!=r||x.num_cols()!=c) return false; for(int i=0;i<r;i++) for(int j=0;j<c;j++) if(!(x(i,j)==q)) return false; return true; }
template<class X,class Q> bool diagm(const X&x,int n,const Q&q){ if(x.num_rows()!=n||x.num_cols()!=n) return false; for(int i=0;i<n;i++) for(int j=0;j<n;j++) if(!(x(i,j)==(i==j?q:Q(0)))) return false; return true; }
VP_UNIT(block_vectors,400,4000){ Rng&g=rng; P s=nz<P>(g); ctx="scale "+show1(s); vp::describe(ctx); vp::sig(vp::hbytes(&s,1)); int is=g.range(2,9)*(g.chance(.5)?1:-1);
	vstores<4,P>(g,[&](const char*w,auto run){ const std::string k=std::string("vector/")+w+"/"; run([&](auto&x){
		mark(x); x=T::Zeros; CC(vp::key(k+"zeros"),allv(x,4,P(0))); mark(x); x=T::Ones; CC(vp::key(k+"ones"),allv(x,4,P(1))); mark(x); x=T::Ones*s; CC(vp::key(k+"ones_times"),allv(x,4,s)); mark(x); x=s*T::Ones; CC(vp::key(k+"times_ones"),allv(x,4,s)); mark(x); x=-T::Ones; CC(vp::key(k+"minus_ones"),allv(x,4,P(-1)));
		mark(x); x=T::Ones*is; CC(vp::key(k+"ones_int"),allv(x,4,P(is))); mark(x); x=T::Zeros(4); CC(vp::key(k+"sized_zeros"),allv(x,4,P(0))); mark(x); x=T::Ones(4)*s; CC(vp::key(k+"sized_ones"),allv(x,4,s)); }); });
	{ int n=g.chance(.1)?g.range(13,300):g.range(0,12); T::Vector<Dyn,P> a=T::Zeros(n),b(T::Ones(n)),c=T::Ones(n)*s,d=s*T::Ones(n),e=-T::Ones(n); T::Vector<T::Resizable,P> r=T::Zeros(n),q(T::Ones(n)*s),t(g.range(0,5)),u; t=T::Ones(n)*s; u=T::Zeros(n); CC("vector/dynamic/constructed_zeros",allv(a,n,P(0))); CC("vector/dynamic/constructed_ones",allv(b,n,P(1))&&allv(c,n,s)&&allv(d,n,s)&&allv(e,n,P(-1))); CC("vector/resizable/constructed",allv(r,n,P(0))&&allv(q,n,s)); CC("vector/resizable/assigned",allv(t,n,s)&&allv(u,n,P(0))); }
	{ T::Vector<3,P> a=T::Zeros,b(T::Ones),c=T::Ones*s,d=s*T::Ones,e=-T::Ones; CC("vector/static/constructed",allv(a,3,P(0))&&allv(b,3,P(1))&&allv(c,3,s)&&allv(d,3,s)&&allv(e,3,P(-1))); }
	{ T::DiagonalMatrix<3,P> a(T::Ones*s),b(T::Zeros),c; auto v=values<P,3>(g); T::DiagonalMatrix<3,P> d(mkv<3>(v)); T::DiagonalMatrix<Dyn,P> e(mkv<3>(v)),f(T::Ones(4)); c.diagonal_slice()=mkv<3>(v); CC("diagonal/constructed",allv(a.diagonal_slice(),3,s)&&allv(b.diagonal_slice(),3,P(0))&&eqlist(c.diagonal_slice(),v,3)&&eqlist(d.diagonal_slice(),v,3)&&eqlist(e.diagonal_slice(),v,3)&&allv(f.diagonal_slice(),4,P(1)));
		bool ok=true; for(int i=0;i<3;i++) if(!(d[i]==v[i]&&e[i]==v[i])) ok=false; CC("diagonal/index",ok); T::Matrix<3,3,P> m=d; T::Matrix<Dyn,Dyn,P> n=e; bool z=true; for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(!(m(i,j)==(i==j?v[i]:P(0))&&n(i,j)==m(i,j))) z=false; CC("diagonal/to_matrix",z); }
}
VP_UNIT(block_matrices,300,4000){ Rng&g=rng; P s=nz<P>(g); ctx="scale "+show1(s); vp::describe(ctx); vp::sig(vp::hbytes(&s,1)); int is=g.range(2,9)*(g.chance(.5)?1:-1);
	mstores<3,2,P>(g,[&](const char*w,auto run){ const std::string k=std::string("matrix/")+w+"/"; run([&](auto&x){
		markm(x); x=T::Zeros; CC(vp::key(k+"zeros"),allm(x,3,2,P(0))); markm(x); x=T::Ones; CC(vp::key(k+"ones"),allm(x,3,2,P(1))); markm(x); x=T::Ones*s; CC(vp::key(k+"ones_times"),allm(x,3,2,s)); markm(x); x=s*T::Ones; CC(vp::key(k+"times_ones"),allm(x,3,2,s)); markm(x); x=-T::Ones; CC(vp::key(k+"minus_ones"),allm(x,3,2,P(-1))); markm(x); x=T::Zeros(3,2); CC(vp::key(k+"sized_zeros"),allm(x,3,2,P(0))); markm(x); x=T::Ones(3,2)*s; CC(vp::key(k+"sized_ones"),allm(x,3,2,s)); }); });
	mstores<3,3,P>(g,[&](const char*w,auto run){ const std::string k=std::string("square/")+w+"/"; run([&](auto&x){
		markm(x); x=T::Identity; CC(vp::key(k+"identity"),diagm(x,3,P(1))); markm(x); x=T::Identity*s; CC(vp::key(k+"identity_times"),diagm(x,3,s)); markm(x); x=s*T::Identity; CC(vp::key(k+"times_identity"),diagm(x,3,s)); markm(x); x=-T::Identity; CC(vp::key(k+"minus_identity"),diagm(x,3,P(-1))); markm(x); x=T::Identity(3); CC(vp::key(k+"sized_identity"),diagm(x,3,P(1))); markm(x); x=T::Identity(3)*is; CC(vp::key(k+"sized_identity_int"),diagm(x,3,P(is)));
		markm(x); x=T::Zeros(3); CC(vp::key(k+"zeros"),allm(x,3,3,P(0))); markm(x); x=T::Identity*P(is)*s; CC(vp::key(k+"identity_times_twice"),diagm(x,3,P(is)*s)); markm(x); x=-(T::Identity*s); CC(vp::key(k+"minus_scaled_identity"),diagm(x,3,-s)); }); });
	{ const bool large=g.chance(.08); int r=large?g.range(1,40):g.range(0,9),c=large?g.range(1,40):g.range(0,9); T::Matrix<Dyn,Dyn,P> a=T::Zeros(r,c),b(T::Ones(r,c)),d=s*T::Ones(r,c),e=T::Identity(r),f=T::Identity(r)*s,h=s*T::Identity(c),i=-T::Identity(c),j=T::Zeros(c),k=T::Ones(r)*s; T::Matrix<Dyn,Dyn,P,T::ColMajor> l=T::Ones(r,c)*s,m=T::Identity(c)*s,n=T::Zeros(r,c);
		CC("matrix/dynamic/constructed",allm(a,r,c,P(0))&&allm(b,r,c,P(1))&&allm(d,r,c,s)&&allm(j,c,c,P(0))&&allm(k,r,r,s)); CC("square/dynamic/constructed_identity",diagm(e,r,P(1))&&diagm(f,r,s)&&diagm(h,c,s)&&diagm(i,c,P(-1))); CC("matrix/dyncolmajor/constructed",allm(l,r,c,s)&&diagm(m,c,s)&&allm(n,r,c,P(0)));
		T::Matrix<3,Dyn,P> o=T::Ones(3,c)*s; T::Matrix<Dyn,3,P> p=T::Zeros(r,3); CC("matrix/half/constructed",allm(o,3,c,s)&&allm(p,r,3,P(0))); }
	{ T::Matrix<2,3,P> a=T::Zeros,b=T::Ones*s; T::Matrix<3,3,P> c=T::Identity,d=s*T::Identity,e=-T::Identity; T::Matrix<3,3,P,T::ColMajor> f=T::Identity*s; CC("matrix/static/constructed",allm(a,2,3,P(0))&&allm(b,2,3,s)&&diagm(c,3,P(1))&&diagm(d,3,s)&&diagm(e,3,P(-1))&&diagm(f,3,s)); }
}
// copies between element types and storage orders convert the value
template<class Q,class W> void conv(Rng&g,const char*w){ const std::string k=std::string("convert/")+w+"/";
	if constexpr(!isc<P>::v){ L a[6]; Q q[6]; W e[6]; for(int i=0;i<6;i++){ q[i]=std::is_integral<Q>::value?(Q)g.range(-99999,99999):(Q)(g.normal()*std::pow(10.0,g.range(-3,4))); e[i]=(W)q[i]; a[i]=(L)q[i]; } ctx=vp::fmt("%s %Lg %Lg %Lg",w,a[0],a[1],a[2]); vp::sig(vp::hbytes(q,6));
	T::Vector<6,Q> x; for(int i=0;i<6;i++) x[i]=q[i]; T::Vector<Dyn,Q> y(x); T::Vector<6,W> u(x),v(y); T::Vector<Dyn,W> s(x),t(6); t=y; T::Vector<T::Resizable,W> r; r=x; T::Vector<T::Resizable,W> z(y.slice(0,6)); CC(vp::key(k+"vector"),eqlist(u,e,6)&&eqlist(v,e,6)&&eqlist(s,e,6)&&eqlist(t,e,6)&&eqlist(r,e,6)&&eqlist(z,e,6));
	T::Matrix<2,3,Q> A; for(int i=0;i<6;i++) A(i/3,i%3)=q[i]; T::Matrix<Dyn,Dyn,Q,T::ColMajor> B(A); T::Matrix<2,3,W> C(A),D(B); T::Matrix<Dyn,Dyn,W> E(A),F(2,3); F=B; T::Matrix<Dyn,Dyn,W,T::ColMajor> G(A),H(B); T::Matrix<3,2,W> I(A.T()); T::Matrix<2,Dyn,W> J(B); T::Matrix<2,3,W,T::ColMajor> K; K=A.slice(0,0,2,3); CC(vp::key(k+"matrix"),eqmat(C,e,2,3)&&eqmat(D,e,2,3)&&eqmat(E,e,2,3)&&eqmat(F,e,2,3)&&eqmat(G,e,2,3)&&eqmat(H,e,2,3)&&eqmat(I.T(),e,2,3)&&eqmat(J,e,2,3)&&eqmat(K,e,2,3)); 
	T::Vector<3,W> f; T::Vector<Dyn,W> h(2); f=A[1]; h=B.T()[2]; bool ok=f[0]==e[3]&&f[1]==e[4]&&f[2]==e[5]&&h[0]==e[2]&&h[1]==e[5]; CC(vp::key(k+"row"),ok); } }
VP_UNIT(conversions,800,8000){ Rng&g=rng; if constexpr(std::is_same<P,double>::value){ conv<double,float>(g,"double_to_float"); conv<float,double>(g,"float_to_double"); conv<int,double>(g,"int_to_double"); conv<double,int>(g,"double_to_int"); conv<long double,double>(g,"longdouble_to_double"); conv<float,long double>(g,"float_to_longdouble"); conv<int,float>(g,"int_to_float"); } else vp::trivial(); }
// a scaled identity or block of ones of another type is converted
template<class P> void scaled_(Rng&g){ if constexpr(!isc<P>::v){ double s=pickv<double>(g)+0.001*g.range(-400,400); float f=(float)s; int i=g.range(-99,99); ctx=vp::fmt("scale %.17g",s); vp::sig(vp::hbytes(&s,1));
	T::Matrix<3,3,P> a=T::Identity*s,b=f*T::Identity,c=T::Identity*i; T::Vector<3,P> d=T::Ones*s,e=f*T::Ones,h=i*T::Ones; T::Matrix<Dyn,Dyn,P> k=T::Ones(2,3)*s,l=T::Identity(4)*f;
	CC("scaled/identity",diagm(a,3,(P)s)&&diagm(b,3,(P)f)&&diagm(c,3,(P)i)&&diagm(l,4,(P)f)); CC("scaled/ones",allv(d,3,(P)s)&&allv(e,3,(P)f)&&allv(h,3,(P)i)&&allm(k,2,3,(P)s)); } else vp::trivial(); }
VP_UNIT(scaled_conversions,400,4000){ scaled_<P>(rng); }

// every size of the generated lists, in both forms (all double, and any one type)
VP_UNIT(every_list_size,30,300){ Rng&g=rng;
	auto go=[&](auto n){ constexpr int N=decltype(n)::value; auto a=values<P,N>(g); T::Vector<N,P> v=datax<N>(a); CC("data_vector/every_size",eqlist(v,a,N));
		if constexpr(N<=30){ auto m=mkv<N>(a); CC("make_vector/every_size",eqlist(m,a,N)); } };
	seq(go,std::make_integer_sequence<int,100>());
}
// scaled first and given a size afterwards
VP_UNIT(scaled_then_sized,200,2000){ Rng&g=rng; P s=nz<P>(g),s2=nz<P>(g); const bool large=g.chance(.08); int n=large?g.range(1,40):g.range(0,9),r=large?g.range(1,40):g.range(0,9),c=large?g.range(1,40):g.range(0,9); ctx="scale "+show1(s)+vp::fmt(" n=%d r=%d c=%d",n,r,c); vp::describe(ctx); vp::sig(vp::hbytes(&s,1)^(n*100+r*10+c));
	{ T::Matrix<Dyn,Dyn,P> a=(T::Identity*s)(n),b=(s*T::Identity)(n),d=(-(s*T::Identity))(n),e=((T::Identity*s)*s2)(n); CC("square/scaled_then_sized",diagm(a,n,s)&&diagm(b,n,s)&&diagm(d,n,P(-s))&&diagm(e,n,s*s2)); T::Matrix<Dyn,Dyn,P,T::ColMajor> q=(T::Identity*s)(n)*s2; CC("square/scaled_sized_scaled",diagm(q,n,s*s2)); }
	{ T::Matrix<Dyn,Dyn,P> a=(T::Ones*s)(r,c),b=(s*T::Ones)(r,c)*s2,d=(T::Ones*s)(n); T::Matrix<Dyn,Dyn,P,T::ColMajor> e=(T::Ones*s)(r,c); CC("matrix/scaled_then_sized",allm(a,r,c,s)&&allm(b,r,c,s*s2)&&allm(d,n,n,s)&&allm(e,r,c,s)); }
	{ T::Vector<Dyn,P> a=(T::Ones*s)(n),b=s2*(s*T::Ones)(n),d=-(T::Ones*s)(n); T::Vector<T::Resizable,P> e; e=(T::Ones*s)(n); CC("vector/scaled_then_sized",allv(a,n,s)&&allv(b,n,s2*s)&&allv(d,n,P(-s))&&allv(e,n,s)); }
}
