// C03: an operation whose sizes do not fit terminates the program before it reads or writes a wrong element; one whose sizes fit is accepted.
// PART 1: vectors, 2: matrices, 3: slices, indices, fills and lists, 4: solvers and transformation groups.
#include "vp.hpp"
#include <TooN/TooN.h>
#include <TooN/Cholesky.h>
#include <TooN/LU.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#include <TooN/determinant.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/wls.h>
#include <TooN/irls.h>
#include <TooN/so2.h>
#include <TooN/so3.h>
#include <TooN/se2.h>
#include <TooN/se3.h>
#include <TooN/sim2.h>
#include <TooN/sim3.h>
#include <TooN/sl.h>
#include <sys/mman.h>
#include <memory>
#include <climits>
namespace T=TooN; const int Dyn=T::Dynamic; typedef double D;
// memory shared with the child and followed by an inaccessible page: whatever the child wrote outside its operand is seen afterwards
struct Arena { D*base; size_t cap; size_t page;
	Arena(){ page=sysconf(_SC_PAGESIZE); char*p=(char*)mmap(0,2*page,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) _exit(96); mprotect(p+page,page,PROT_NONE); base=(D*)p; cap=page/sizeof(D); }
	D*take(size_t n){ for(size_t i=0;i<cap;i++) base[i]=77; D*p=base+cap-n; return p; }
	template<class F> bool ok(D*p,size_t n,F inside) const { for(size_t i=0;i<cap;i++) if(base[i]!=77&&!(base+i>=p&&base+i<p+n&&inside(base+i-p))) return false; return true; } };
static Arena& arena(int i){ static Arena a[3]; return a[i]; }
static std::function<bool()> neighbours[3];
static volatile double sink;
inline void use(double x){ sink=x; }
template<int N,class P,class B> void use(const T::Vector<N,P,B>&v){ double s=0; for(int i=0;i<v.size();i++) s+=v[i]; sink=s; }
template<int R,int C,class P,class B> void use(const T::Matrix<R,C,P,B>&m){ double s=0; for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) s+=m(i,j); sink=s; }
template<class O> T::Vector<> V_(const T::Operator<O>&o){ T::Vector<> v(o); return v; }
template<class O> T::Matrix<> M_(const T::Operator<O>&o){ T::Matrix<> m(o); return m; }
template<class F> void attempt(const char*key,bool legal,F f){ vp::describe(vp::st().lastdesc+" op "+key);
	if(legal){ f(); VP_CHECK(true,vp::key(std::string("accepts/")+key)," "); return; }
	auto r=vp::in_child(f,30); bool marks=true; for(auto&n:neighbours) if(n) marks=marks&&n();
	VP_CHECK(!r.sanitizer,vp::key(std::string("touched/")+key),"touched memory outside its operands: %s",r.err.substr(0,400).c_str()); if(r.sanitizer) return;
	VP_CHECK(!r.exited&&r.sig==SIGABRT,vp::key(std::string("rejects/")+key),"was not stopped (%s %d) %s",r.exited?"exit":"signal",r.exited?r.code:r.sig,r.err.substr(0,100).c_str());
	VP_CHECK(marks,vp::key(std::string("neighbours/")+key),"changed elements outside its operands before stopping"); }
#define OP(k,legal,name,...) case k: attempt(name,legal,[&]{ __VA_ARGS__; }); break;
template<class X> void setv(X&v){ for(int i=0;i<v.size();i++) v[i]=1+i*.25; }
template<class X> void setm(X&m){ for(int i=0;i<m.num_rows();i++) for(int j=0;j<m.num_cols();j++) m(i,j)=1+i*.25+j*.125+(i==j?3:0); }
// vector of n elements in storage k (0: static 3, so only n==3); which: the arena
const int NK=6;
template<class F> void withv(int k,int n,int which,F f){ neighbours[which]=nullptr; switch(k){
	case 0: { auto v=std::make_unique<T::Vector<3>>(); setv(*v); f(*v); break; }
	case 1: { T::Vector<> v(n); setv(v); f(v); break; }
	case 2: { T::Vector<T::Resizable> v(n); setv(v); f(v); break; }
	case 3: { Arena&a=arena(which); D*p=a.take(n); T::Vector<Dyn,D,T::Reference> v(p,n); setv(v); neighbours[which]=[&a,p,n]{ return a.ok(p,n,[](long){ return true; }); }; f(v); break; }
	case 4: { Arena&a=arena(which); D*p=a.take(3*n); T::Matrix<Dyn,3,D,T::Reference::RowMajor> m(p,n,3); auto v=m.T()[2]; setv(v); neighbours[which]=[&a,p,n]{ return a.ok(p,3*n,[](long i){ return i%3==2; }); }; f(v); break; }
	case 5: { Arena&a=arena(which); D*p=a.take(3); T::Vector<3,D,T::Reference> v(p); setv(v); neighbours[which]=[&a,p,n]{ return a.ok(p,3,[](long){ return true; }); }; f(v); break; } } neighbours[which]=nullptr; }
inline bool fixedv(int k){ return k==0||k==5; }
inline int pickv(vp::Rng&g,int k,int hi=6){ return fixedv(k)?3:g.chance(.3)?3:g.range(0,hi); }
const int MK=8;
template<class F> void withm(int k,int r,int c,int which,F f){ neighbours[which]=nullptr; switch(k){
	case 0: { auto m=std::make_unique<T::Matrix<3>>(); setm(*m); f(*m); break; }
	case 1: { T::Matrix<> m(r,c); setm(m); f(m); break; }
	case 2: { T::Matrix<Dyn,Dyn,D,T::ColMajor> m(r,c); setm(m); f(m); break; }
	case 3: { T::Matrix<3,Dyn> m(3,c); setm(m); f(m); break; }
	case 4: { T::Matrix<Dyn,3> m(r,3); setm(m); f(m); break; }
	case 5: { Arena&a=arena(which); D*p=a.take(r*c); T::Matrix<Dyn,Dyn,D,T::Reference::RowMajor> m(p,r,c); setm(m); neighbours[which]=[&a,p,r,c]{ return a.ok(p,r*c,[](long){ return true; }); }; f(m); break; }
	case 6: { Arena&a=arena(which); D*p=a.take((r+1)*(c+2)); T::Matrix<Dyn,Dyn,D,T::Reference::RowMajor> b(p,r+1,c+2); auto m=b.slice(1,1,r,c); setm(m); neighbours[which]=[&a,p,r,c]{ return a.ok(p,(r+1)*(c+2),[=](long i){ long x=i/(c+2),y=i%(c+2); return x>=1&&y>=1&&y<=c; }); }; f(m); break; }
	case 7: { Arena&a=arena(which); D*p=a.take(3*(c+1)); T::Matrix<3,Dyn,D,T::Reference::RowMajor> b(p,3,c+1); auto m=b.T().slice<Dyn,Dyn,Dyn,3>(0,0,c,3); setm(m); neighbours[which]=[&a,p,c]{ return a.ok(p,3*(c+1),[=](long i){ return i%(c+1)<c; }); }; f(m); break; } } neighbours[which]=nullptr; }
// kind 7 is c x 3: rows are given by its c
inline void pickm(vp::Rng&g,int k,int&r,int&c,int hi=4){ auto s=[&]{ return g.chance(.35)?3:g.range(0,hi); }; r=s(); c=s(); if(k==0) r=c=3; if(k==3) r=3; if(k==4) c=3; if(k==7){ c=s(); r=c; } }
inline void shape(int k,int&r,int&c){ if(k==7){ r=c; c=3; } }
template<class X> struct dynv { static const bool v=false; }; template<class P> struct dynv<T::Vector<Dyn,P>> { static const bool v=true; };
#if PART==1
template<class X,class Y> void vecops(vp::Rng&g,X&x,Y&y){ const int n=x.size(),m=y.size(); const bool same=n==m; const bool rs=int(X::SizeParameter)==int(T::Resizable);
	switch(g.range(0,23)){
		OP(0,same,"add",T::Vector<> z(x+y); use(z))
		OP(1,same,"subtract",T::Vector<> z(x-y); use(z))
		OP(2,same,"dot",use(x*y))
		OP(3,same,"diagmult",T::Vector<> z(T::diagmult(x,y)); use(z))
		OP(4,same,"add_assign",x+=y)
		OP(5,same,"subtract_assign",x-=y)
		OP(6,same||rs,"assign",x=y)
		OP(7,same,"equal",use(x==y))
		OP(8,same,"not_equal",use(x!=y))
		OP(9,same,"subtract_expression",T::Vector<> z(x*2.-y/2.); use(z))
		OP(10,same||rs,"assign_expression",x=y*2.)
		OP(11,same,"add_assign_expression",x+=y/2.)
		OP(12,m==3,"construct_static",T::Vector<3> z(y); use(z))
		OP(13,m==3,"construct_static_expression",T::Vector<3> z(y*2.+y); use(z))
		OP(14,same,"assign_slice",x.as_slice()=y.as_slice())
		OP(15,same,"assign_row",x.as_row()=y.as_row())
		OP(16,same,"assign_column",x.as_col()=y.as_col())
		OP(17,true,"outer",T::Matrix<> z(x.as_col()*y.as_row()); use(z))
		OP(18,same,"row_times_column",T::Matrix<> z(x.as_row()*y.as_col()); use(z))
		OP(19,m==3,"cross_product_matrix",T::Matrix<3> z(T::cross_product_matrix(y)); use(z))
		OP(20,same,"subtract_then_assign",x=x-y)
		OP(21,same,"read_only_add",const X&a=x; const Y&b=y; T::Vector<> z(a+b); use(z))
		OP(22,same||rs,"assign_negated",x=-y)
		OP(23,same,"diagonal_times_vector",T::DiagonalMatrix<> d(x); T::Vector<> z(d*y); use(z))
	} }
VP_UNIT(vectors,20000,200000){ vp::Rng&g=rng; int k=g.range(0,NK-1),l=g.range(0,NK-1); int n=pickv(g,k),m=fixedv(l)?3:g.chance(.5)?n:g.range(0,6); if(fixedv(k)&&fixedv(l)&&0) return; vp::describe(vp::fmt("vectors: storage %d size %d, storage %d size %d",k,n,l,m)); vp::sig(vp::mix(k*6+l)^vp::mix(n*100+m)^g.u64()%97);
	withv(k,n,0,[&](auto&x){ withv(l,m,1,[&](auto&y){ if constexpr(!(std::decay<decltype(x)>::type::SizeParameter==3&&false)) vecops(g,x,y); }); }); }
template<class X> void swaps(X&a,X&b,bool legal){ attempt("swap",legal,[&]{ using std::swap; swap(a,b); }); }
VP_UNIT(swapped,600,6000){ vp::Rng&g=rng; int n=g.range(0,5),m=g.chance(.5)?n:g.range(0,5); vp::describe(vp::fmt("swap %d %d",n,m)); vp::sig(g.u64()); switch(g.range(0,3)){
	case 0: { T::Vector<> a(n),b(m); setv(a); setv(b); swaps(a,b,n==m); break; }
	case 1: { T::Vector<T::Resizable> a(n),b(m); setv(a); setv(b); swaps(a,b,true); VP_CHECK(a.size()==m&&b.size()==n,"accepts/swap_resizable"," "); break; }
	case 2: withv(3,n,0,[&](auto&a){ withv(3,m,1,[&](auto&b){ attempt("swap_views",n==m,[&]{ using std::swap; swap(a,b); }); }); }); break;
	case 3: withv(4,n,0,[&](auto&a){ withv(1,m,1,[&](auto&b){ attempt("swap_view_and_owner",n==m,[&]{ auto s=b.as_slice(); auto t=a.as_slice(); using std::swap; swap(t,s); }); }); }); break; } }
#endif
#if PART==2
template<class X,class Y> void matops(vp::Rng&g,X&x,Y&y){ const int r=x.num_rows(),c=x.num_cols(),r2=y.num_rows(),c2=y.num_cols(); const bool same=r==r2&&c==c2;
	switch(g.range(0,12)){
		OP(0,same,"matrix_add",T::Matrix<> z(x+y); use(z))
		OP(1,same,"matrix_subtract",T::Matrix<> z(x-y); use(z))
		OP(2,c==r2,"product",T::Matrix<> z(x*y); use(z))
		OP(3,same,"matrix_add_assign",x+=y)
		OP(4,same,"matrix_subtract_assign",x-=y)
		OP(5,same,"matrix_assign",x=y)
		OP(6,same,"matrix_equal",use(x==y))
		OP(7,same,"matrix_not_equal",use(x!=y))
		OP(8,r==r2&&c==c2,"assign_scaled",x=y*2.)
		OP(9,r==c2&&c==r2,"assign_transposed",x=y.T())
		OP(10,r==r2,"transposed_product",T::Matrix<> z(x.T()*y); use(z))
		OP(11,r==c2&&c==r2,"add_assign_transposed",x.T()+=y)
		OP(12,r==r2&&c==c2,"assign_matrix_slice",x.slice(0,0,r,c)=y.slice(0,0,r2,c2))
	} }
VP_UNIT(matrices,20000,200000){ vp::Rng&g=rng; int k=g.range(0,MK-1),l=g.range(0,MK-1),r,c,r2,c2; pickm(g,k,r,c); pickm(g,l,r2,c2); int ar=r,ac=c; shape(k,ar,ac); if(g.chance(.5)){ int w=g.range(0,2); int wr=w==0?ar:w==1?ac:r2, wc=w==0?ac:ar; if(l==1||l==2||l==5||l==6){ r2=wr; c2=wc; } else if(l==3) c2=wc; else if(l==4) r2=wr; else if(l==7) c2=wr; } 
	vp::describe(vp::fmt("matrices: storage %d (%d,%d), storage %d (%d,%d)",k,ar,ac,l,r2,c2)); vp::sig(g.u64()); withm(k,r,c,0,[&](auto&x){ withm(l,r2,c2,1,[&](auto&y){ matops(g,x,y); }); }); }
#endif
#if PART==5
template<class X> void mat1(vp::Rng&g,X&x){ const int r=x.num_rows(),c=x.num_cols();
	switch(g.range(0,12)){
		OP(0,r==c,"plus_identity",T::Matrix<> z(x+T::Identity); use(z))
		OP(1,r==c,"minus_identity",T::Matrix<> z(x-T::Identity*2.); use(z))
		OP(2,r==c,"identity_minus",T::Matrix<> z(T::Identity-x); use(z))
		OP(3,r==c,"assign_identity",x=T::Identity)
		OP(4,r==c,"add_assign_identity",x+=T::Identity)
		OP(5,r==c,"trace",use(T::trace(x)))
		OP(6,r==3&&c==3,"construct_static_matrix",T::Matrix<3> z(x); use(z))
		OP(7,r==3,"construct_half_static",T::Matrix<3,Dyn> z(x); use(z))
		OP(8,c==3,"construct_half_static_expression",T::Matrix<Dyn,3> z(x*2.); use(z))
		OP(9,r*c==9,"assign_data",x=T::Data(1,2,3,4,5,6,7,8,9))
		OP(10,r==c,"determinant",use(T::determinant(x)))
		OP(11,r==c,"exp",T::Matrix<> z(T::exp(x)); use(z))
		OP(12,r==3&&c==3,"static_product",T::Matrix<3> o=T::Identity; T::Matrix<3> z(o*x*o); use(z))
	} }
template<class X,class Y> void matvec(vp::Rng&g,X&x,Y&y){ const int r=x.num_rows(),c=x.num_cols(),n=y.size(); 
	switch(g.range(0,13)){
		OP(0,c==n,"matrix_times_vector",T::Vector<> z(x*y); use(z))
		OP(1,r==n,"vector_times_matrix",T::Vector<> z(y*x); use(z))
		OP(2,c==n,"diagmult_columns",T::Matrix<> z(T::diagmult(x,y)); use(z))
		OP(3,r==n,"diagmult_rows",T::Matrix<> z(T::diagmult(y,x)); use(z))
		OP(4,r==n,"diagonal_times_matrix",T::DiagonalMatrix<> d(y); T::Matrix<> z(d*x); use(z))
		OP(5,c==n,"matrix_times_diagonal",T::DiagonalMatrix<> d(y); T::Matrix<> z(x*d); use(z))
		OP(6,r==n,"transpose_times_vector",T::Vector<> z(x.T()*y); use(z))
		OP(7,r==0||c==n,"assign_row",if(x.num_rows()) x[0]=y)
		OP(8,c==0||r==n,"assign_column",if(x.num_cols()) x.T()[0]=y)
		OP(9,r==0||c==n,"add_to_row",if(x.num_rows()) x[x.num_rows()-1]+=y)
		OP(10,std::min(r,c)==n,"assign_diagonal",x.diagonal_slice()=y)
		OP(11,c==n&&r==3,"product_into_static",T::Vector<3> z(x*y); use(z))
		OP(12,c==n&&(r==n||int(Y::SizeParameter)==int(T::Resizable)),"product_into_self",y=x*y*2.)
		OP(13,c==n,"vector_column_chain",T::Vector<> z(x*y+x*y); use(z))
	} }
VP_UNIT(single,6000,60000){ vp::Rng&g=rng; int k=g.range(0,MK-1),r,c; pickm(g,k,r,c); if(g.chance(.1)&&k!=0&&k!=3&&k!=4&&k!=7){ r=2; c=3; } vp::describe(vp::fmt("matrix storage %d (%d,%d)",k,r,c)); vp::sig(g.u64()); withm(k,r,c,0,[&](auto&x){ mat1(g,x); }); }
VP_UNIT(matrix_vector,15000,150000){ vp::Rng&g=rng; int k=g.range(0,MK-1),l=g.range(0,NK-1),r,c; pickm(g,k,r,c); int ar=r,ac=c; shape(k,ar,ac); int n=fixedv(l)?3:g.chance(.6)?(g.chance(.5)?ar:ac):g.range(0,5); vp::describe(vp::fmt("matrix storage %d (%d,%d), vector storage %d size %d",k,ar,ac,l,n)); vp::sig(g.u64()); withm(k,r,c,0,[&](auto&x){ withv(l,n,1,[&](auto&y){ if(int(std::decay<decltype(y)>::type::SizeParameter)==int(T::Resizable)) {} matvec(g,x,y); }); }); }
VP_UNIT(diagonals,600,6000){ vp::Rng&g=rng; int n=g.range(0,5),m=g.chance(.5)?n:g.range(0,5); vp::describe(vp::fmt("diagonal %d %d",n,m)); vp::sig(g.u64()); T::Vector<> a(n),b(m); setv(a); setv(b); T::DiagonalMatrix<> d(a),e(b); switch(g.range(0,3)){
	OP(0,n==m,"diagonal_times_diagonal",T::DiagonalMatrix<> z(d*e); use(z.diagonal_slice()))
	OP(1,n==3,"static_diagonal",T::DiagonalMatrix<3> z(a); use(z.diagonal_slice()))
	OP(2,n==m,"diagonal_assign",d.diagonal_slice()=b)
	OP(3,n==m,"vector_times_diagonal",T::Vector<> z(b*d); use(z)) } }
#endif
#if PART==3
inline int oddint(vp::Rng&g,int n){ switch(g.range(0,6)){ case 0: return g.range(-3,n+3); case 1: return INT_MAX-g.range(0,n+1); case 2: return INT_MIN+g.range(0,n+1); case 3: return -g.range(1,n+1); default: return g.range(0,n); } }
VP_UNIT(vector_slices,15000,150000){ vp::Rng&g=rng; int k=g.range(0,NK-1),n=pickv(g,k,8); int a,l; if(g.chance(.4)){ a=g.range(0,n); l=g.range(0,n-a); } else { a=oddint(g,n); l=oddint(g,n); } bool in=a>=0&&l>=0&&(long)a+l<=n; vp::describe(vp::fmt("vector storage %d size %d slice %d+%d",k,n,a,l)); vp::sig(vp::mix(k*100+n)^vp::mix((unsigned)a)^vp::mix(7+(unsigned)l));
	withv(k,n,0,[&](auto&v){ typedef typename std::decay<decltype(v)>::type X; const X&c=v; constexpr int S=X::SizeParameter; switch(g.range(0,9)){
		OP(0,in,"slice",use(v.slice(a,l)))
		OP(1,in,"read_only_slice",use(c.slice(a,l)))
		OP(2,in,"assign_to_slice",v.slice(a,l)=T::Zeros)
		OP(3,in,"slice_of_slice",auto s=v.slice(0,v.size()); use(s.slice(a,l)))
		OP(4,a>=0&&a+3L<=n,"slice_static_length",use(v.template slice<Dyn,3>(a,3)))
		OP(5,l>=0&&1+(long)l<=n,"slice_static_start",use(v.template slice<1,Dyn>(1,l)))
		case 6: if constexpr(S==3) attempt("slice_static",true,[&]{ use(v.template slice<1,2>()); }); else attempt("slice_static",n>=4,[&]{ use(v.template slice<1,3>()); }); break;
		case 7: if constexpr(S==3) attempt("read_only_slice_static",true,[&]{ use(c.template slice<0,3>()); }); else attempt("read_only_slice_static",n>=2,[&]{ use(c.template slice<0,2>()); }); break;
		OP(8,in&&l==2,"slice_length_given_twice",if(int(S)==int(T::Resizable)&&l!=2) abort(); use(v.template slice<Dyn,2>(a,l)))
		OP(9,a>=0&&l>=0&&(long)a+l<=n&&(l==0||true),"slice_then_assign",T::Vector<> z(std::max(0,std::min(l,100))); z=T::Zeros; v.slice(a,l)=z)
	} }); }
VP_UNIT(matrix_slices,15000,150000){ vp::Rng&g=rng; int k=g.range(0,MK-1),r,c; pickm(g,k,r,c,6); int ar=r,ac=c; shape(k,ar,ac); int a,b,p,q; a=g.range(0,ar); p=g.range(0,ar-a); b=g.range(0,ac); q=g.range(0,ac-b); if(g.chance(.6)) switch(g.range(0,4)){ case 0: a=oddint(g,ar); break; case 1: b=oddint(g,ac); break; case 2: p=oddint(g,ar); break; case 3: q=oddint(g,ac); break; case 4: a=oddint(g,ar); p=oddint(g,ar); b=oddint(g,ac); q=oddint(g,ac); break; }
	bool in=a>=0&&b>=0&&p>=0&&q>=0&&(long)a+p<=ar&&(long)b+q<=ac; vp::describe(vp::fmt("matrix storage %d (%d,%d) slice %d,%d %dx%d",k,ar,ac,a,b,p,q)); vp::sig(g.u64());
	withm(k,r,c,0,[&](auto&m){ typedef typename std::decay<decltype(m)>::type X; const X&cm=m; switch(g.range(0,7)){
		OP(0,in,"matrix_slice",use(m.slice(a,b,p,q)))
		OP(1,in,"read_only_matrix_slice",use(cm.slice(a,b,p,q)))
		OP(2,in,"assign_to_matrix_slice",m.slice(a,b,p,q)=T::Zeros)
		OP(3,a>=0&&b>=0&&a+2L<=ar&&b+3L<=ac,"matrix_slice_static_size",use(m.template slice<Dyn,Dyn,2,3>(a,b,2,3)))
		OP(4,ar>=3&&ac>=2,"matrix_slice_static",use(m.template slice<1,0,2,2>()))
		OP(5,ar>=1&&ac>=3,"read_only_matrix_slice_static",use(cm.template slice<0,1,1,2>()))
		OP(6,in,"transposed_slice",use(m.T().slice(b,a,q,p)))
		OP(7,in,"slice_of_matrix_slice",auto s=m.slice(0,0,m.num_rows(),m.num_cols()); use(s.slice(a,b,p,q)))
	} }); }
#ifdef TOON_CHECK_BOUNDS
VP_UNIT(indices,12000,120000){ vp::Rng&g=rng; if(g.chance(.45)){ int k=g.range(0,NK-1),n=pickv(g,k,8),i=g.chance(.3)&&n?g.range(0,n-1):oddint(g,n); vp::describe(vp::fmt("vector storage %d size %d index %d",k,n,i)); vp::sig(vp::mix(k*10+n)^vp::mix((unsigned)i)); bool in=i>=0&&i<n; withv(k,n,0,[&](auto&v){ typedef typename std::decay<decltype(v)>::type X; const X&c=v; switch(g.range(0,4)){
		OP(0,in,"index",use(v[i]))
		OP(1,in,"read_only_index",use(c[i]))
		OP(2,in,"write_index",v[i]=3)
		OP(3,in,"slice_index",auto s=v.slice(0,n); use(s[i]))
		OP(4,in,"diagonal_index",T::DiagonalMatrix<> d(v); d[i]=1; use(d[i])) } }); }
	else { int k=g.range(0,MK-1),r,c; pickm(g,k,r,c,6); int ar=r,ac=c; shape(k,ar,ac); int i=g.chance(.6)&&ar?g.range(0,ar-1):oddint(g,ar),j=g.chance(.6)&&ac?g.range(0,ac-1):oddint(g,ac); bool in=i>=0&&i<ar&&j>=0&&j<ac; vp::describe(vp::fmt("matrix storage %d (%d,%d) index %d,%d",k,ar,ac,i,j)); vp::sig(g.u64()); withm(k,r,c,0,[&](auto&m){ typedef typename std::decay<decltype(m)>::type X; const X&cm=m; switch(g.range(0,8)){
		OP(0,in,"matrix_index",use(m(i,j)))
		OP(1,in,"read_only_matrix_index",use(cm(i,j)))
		OP(2,in,"write_matrix_index",m(i,j)=2)
		OP(3,in,"matrix_double_index",use(m[i][j]))
		OP(4,in,"read_only_matrix_double_index",use(cm[i][j]))
		OP(5,in,"matrix_pair_index",m[std::make_pair(i,j)]=4)
		OP(6,in,"read_only_matrix_pair_index",use(cm[std::make_pair(i,j)]))
		OP(7,in,"transposed_index",use(m.T()[j][i]))
		OP(8,i>=0&&i<ar,"row",auto w=m[i]; use(w)) } }); } }
#endif
VP_UNIT(fills,8000,80000){ vp::Rng&g=rng; vp::sig(g.u64()); int w=g.range(0,9); if(w<5){ int k=g.range(0,NK-1),n=pickv(g,k,5); vp::describe(vp::fmt("fill vector storage %d size %d",k,n)); withv(k,n,0,[&](auto&v){ constexpr int S=std::decay<decltype(v)>::type::SizeParameter; switch(g.range(0,5)){
		OP(0,n==1,"fill_one",T::Fill(v)=1)
		OP(1,n==2,"fill_two",T::Fill(v)=1,2)
		OP(2,n==3,"fill_three",T::Fill(v)=1,2,3)
		case 3: if constexpr(S!=3) attempt("fill_four",n==4,[&]{ T::Fill(v)=1,2,3,4; }); break;
		OP(4,n==3||S==T::Resizable,"assign_data_vector",v=T::makeVector(1,2,3))
		case 5: if constexpr(S!=3) attempt("fill_expression",n==2,[&]{ T::Fill(v)=1+1,2*3; }); break; } }); }
	else if(w<8){ int k=g.range(0,MK-1),r,c; pickm(g,k,r,c,3); int ar=r,ac=c; shape(k,ar,ac); vp::describe(vp::fmt("fill matrix storage %d (%d,%d)",k,ar,ac)); withm(k,r,c,0,[&](auto&m){ typedef typename std::decay<decltype(m)>::type X; const int e=ar*ac; switch(g.range(0,4)){
		OP(0,e==1,"fill_matrix_one",T::Fill(m)=1)
		OP(1,e==2,"fill_matrix_two",T::Fill(m)=1,2)
		OP(2,e==6,"fill_matrix_six",T::Fill(m)=1,2,3,4,5,6)
		OP(3,e==9,"fill_matrix_nine",T::Fill(m)=1,2,3,4,5,6,7,8,9)
		OP(4,e==4,"fill_matrix_four",T::Fill(m)=1,2,3,4) } }); }
	else { int n=g.range(0,4); vp::describe(vp::fmt("data vector %d",n)); T::Vector<> v(n); setv(v); switch(g.range(0,2)){
		OP(0,n==3,"assign_list",v=T::makeVector(1.,2.,3.))
		OP(1,n==2,"assign_data_dynamic",v=T::Data(1,2))
		OP(2,n==3,"row_fill",T::Matrix<> m(2,n); m=T::Zeros; auto row=m[1]; T::Fill(row)=1,2,3) } } }
// owning objects of impossible sizes, and lists that give the size
VP_UNIT(sizes,500,5000){ vp::Rng&g=rng; int n=g.range(-3,4),m=g.range(0,4); vp::describe(vp::fmt("size %d %d",n,m)); vp::sig(vp::mix(n+10)^vp::mix(m)); switch(g.range(0,3)){
	case 0: { T::Vector<> v({1,2,3}); VP_CHECK(v.size()==3&&v[2]==3,"accepts/list"," "); T::Vector<T::Resizable> r({1,2}); VP_CHECK(r.size()==2&&r[1]==2,"accepts/list_resizable"," "); break; }
	case 1: { int z=std::max(n,0); T::Vector<T::Resizable> v(m); setv(v); v.resize(z); VP_CHECK(v.size()==z,"accepts/resize"," "); break; }
	OP(2,n>=0,"vector_size",T::Vector<> v(n); use(v.size()))
	OP(3,n>=0,"resizable_size",T::Vector<T::Resizable> v(n); use(v.size())) } }
#endif
#if PART==4
VP_UNIT(solvers,8000,80000){ vp::Rng&g=rng; int r=g.range(1,4),c=g.chance(.6)?r:g.range(1,4),n=g.chance(.6)?r:g.range(1,5); T::Matrix<> A(r,c); setm(A); T::Vector<> b(n); setv(b); int nc=g.range(1,3); T::Matrix<> B(n,nc); setm(B); vp::describe(vp::fmt("system %dx%d right-hand side %d",r,c,n)); vp::sig(g.u64()); const bool sq=r==c; T::Matrix<> Q(r,r); setm(Q); Q=Q*Q.T();
	switch(g.range(0,24)){
		OP(0,sq,"cholesky",T::Cholesky<> z(A.slice(0,0,r,c)))
		OP(1,n==r,"cholesky_backsub",T::Cholesky<> z(Q); use(T::Vector<>(z.backsub(b))))
		OP(2,n==r,"cholesky_backsub_matrix",T::Cholesky<> z(Q); use(T::Matrix<>(z.backsub(B))))
		OP(3,sq,"lu",T::LU<> z(A); use(z.get_info()*1.))
		OP(4,n==r,"lu_backsub",T::LU<> z(Q); use(T::Vector<>(z.backsub(b))))
		OP(5,n==r,"lu_backsub_matrix",T::LU<> z(Q); use(T::Matrix<>(z.backsub(B))))
		OP(6,n==r,"svd_backsub",T::SVD<> z(A); use(T::Vector<>(z.backsub(b))))
		OP(7,n==r,"svd_backsub_matrix",T::SVD<> z(A); use(T::Matrix<>(z.backsub(B))))
		OP(8,sq,"symeigen",T::SymEigen<> z(A))
		OP(9,n==r,"symeigen_backsub",T::SymEigen<> z(Q); use(T::Vector<>(z.backsub(b))))
		OP(10,n==r,"symeigen_backsub_matrix",T::SymEigen<> z(Q); use(T::Matrix<>(z.backsub(B))))
		OP(11,sq&&n==r,"gaussian_elimination",use(T::Vector<>(T::gaussian_elimination(A,b))))
		OP(12,sq&&n==r,"gaussian_elimination_matrix",use(T::Matrix<>(T::gaussian_elimination(A,B))))
		OP(13,n==r,"wls_add_mJ",T::WLS<> w(r); w.add_mJ(1,b); use(w.get_vector()))
		OP(14,c==n,"wls_add_mJ_several",T::WLS<> w(nc); T::Vector<> m(c); setv(m); w.add_mJ(m,B); use(w.get_vector()))
		OP(15,n==r,"wls_add_prior",T::WLS<> w(r); w.add_prior(b); use(w.get_vector()))
		OP(16,n==r&&nc==r,"wls_add_prior_matrix",T::WLS<> w(r); w.add_prior(B); use(w.get_vector()))
		OP(17,n==r,"wls_add_mJ_covariance",T::WLS<> w(r); T::Vector<> m(nc); setv(m); T::Matrix<> ic(nc,nc); setm(ic); w.add_mJ(m,B,ic); use(w.get_vector()))
		OP(18,n==r,"wls_add_mJ_rows",T::WLS<> w(nc); T::Vector<> m(r); setv(m); T::Matrix<> ic(r,r); setm(ic); w.add_mJ_rows(m,B,ic); use(w.get_vector()))
		OP(19,n==r,"wls_add",T::WLS<> w(r),x(n); w.clear(); x.clear(); w+=x; use(w.get_vector()))
		OP(20,n+nc<=r,"wls_add_sparse_rows",T::WLS<> w(r); w.clear(); T::Vector<> m(2); setv(m); T::Matrix<> ic(2,2),J(2,n); setm(ic); setm(J); w.add_sparse_mJ_rows(m,J,nc,ic); use(w.get_vector()))
		OP(21,n==r,"irls_add_mJ",T::IRLS<Dyn,double,T::RobustI> w(r); w.add_mJ(1.,b); use(w.get_vector()))
		OP(22,n==3,"so3_from_vector",T::SO3<> s; s=T::SO3<>::exp(b); use(T::Vector<>(s.ln())))
		OP(23,r==3&&sq,"so3_from_matrix",T::SO3<> s; T::Matrix<> R(r,c); R=T::Zeros; for(int i=0;i<r&&i<c;i++) R(i,i)=1; s=R; use(T::Vector<>(s.ln())))
		OP(24,n==r,"cholesky_mahalanobis",T::Cholesky<> z(Q); use(z.mahalanobis(b)))
	} }
VP_UNIT(groups,8000,80000){ vp::Rng&g=rng; int n=g.range(0,8),c=g.range(1,4),n2=g.range(0,4); T::Vector<> v(n); setv(v); T::Matrix<> A(n,c),At(c,n),S(n,n); setm(A); setm(At); setm(S); T::SO2<> so2(.3); T::SO3<> so3(T::makeVector(.1,.2,.3)); T::SE2<> se2(T::makeVector(1,2,.3)); T::SE3<> se3(T::makeVector(1,2,3,.1,.2,.3)); T::SIM2<> sim2(T::makeVector(1,2,.3,.1)); T::SIM3<> sim3(T::makeVector(1,2,3,.1,.2,.3,.1)); T::SL<3> sl(T::makeVector(.1,.2,.3,.1,.2,.3,.1,.05)); (void)n2; vp::describe(vp::fmt("size %d x %d",n,c)); vp::sig(g.u64());
	switch(g.range(0,46)){
		OP(0,n==2,"so2_times_vector",use(T::Vector<>(so2*v)))
		OP(1,n==2,"vector_times_so2",use(T::Vector<>(v*so2)))
		OP(2,n==2,"so2_times_matrix",use(T::Matrix<>(so2*A)))
		OP(3,n==2,"matrix_times_so2",use(T::Matrix<>(At*so2)))
		OP(4,n==3,"so3_times_vector",use(T::Vector<>(so3*v)))
		OP(5,n==3,"vector_times_so3",use(T::Vector<>(v*so3)))
		OP(6,n==3,"so3_times_matrix",use(T::Matrix<>(so3*A)))
		OP(7,n==3,"matrix_times_so3",use(T::Matrix<>(At*so3)))
		OP(8,n==3,"so3_exp",use(T::Vector<>(T::SO3<>::exp(v).ln())))
		OP(9,n==3,"so3_adjoint",use(T::Vector<>(so3.adjoint(v))))
		OP(10,n==3,"se2_exp",use(T::Vector<>(T::SE2<>::exp(v).ln())))
		OP(11,n==3,"se2_times_vector",use(T::Vector<>(se2*v)))
		OP(12,n==3,"vector_times_se2",use(T::Vector<>(v*se2)))
		OP(13,n==3,"se2_times_matrix",use(T::Matrix<>(se2*A)))
		OP(14,n==3,"matrix_times_se2",use(T::Matrix<>(At*se2)))
		OP(15,n==3,"se2_adjoint",use(T::Vector<>(se2.adjoint(v))))
		OP(16,n==3,"se2_adjoint_matrix",use(T::Matrix<>(se2.adjoint(S))))
		OP(17,n==6,"se3_exp",use(T::Vector<>(T::SE3<>::exp(v).ln())))
		OP(18,n==4,"se3_times_vector",use(T::Vector<>(se3*v)))
		OP(19,n==4,"vector_times_se3",use(T::Vector<>(v*se3)))
		OP(20,n==4,"se3_times_matrix",use(T::Matrix<>(se3*A)))
		OP(21,n==4,"matrix_times_se3",use(T::Matrix<>(At*se3)))
		OP(22,n==6,"se3_adjoint",use(T::Vector<>(se3.adjoint(v))))
		OP(23,n==6,"se3_trinvadjoint",use(T::Vector<>(se3.trinvadjoint(v))))
		OP(24,n==6,"se3_adjoint_matrix",use(T::Matrix<>(se3.adjoint(S))))
		OP(25,n==6,"se3_trinvadjoint_matrix",use(T::Matrix<>(se3.trinvadjoint(S))))
		OP(26,n==4,"sim2_exp",use(T::Vector<>(T::SIM2<>::exp(v).ln())))
		OP(27,n==3,"sim2_times_vector",use(T::Vector<>(sim2*v)))
		OP(28,n==3,"vector_times_sim2",use(T::Vector<>(v*sim2)))
		OP(29,n==3,"sim2_times_matrix",use(T::Matrix<>(sim2*A)))
		OP(30,n==3,"matrix_times_sim2",use(T::Matrix<>(At*sim2)))
		OP(31,n==4,"sim2_adjoint",use(T::Vector<>(sim2.adjoint(v))))
		OP(32,n==4,"sim2_adjoint_matrix",use(T::Matrix<>(sim2.adjoint(S))))
		OP(33,n==7,"sim3_exp",use(T::Vector<>(T::SIM3<>::exp(v).ln())))
		OP(34,n==4,"sim3_times_vector",use(T::Vector<>(sim3*v)))
		OP(35,n==4,"vector_times_sim3",use(T::Vector<>(v*sim3)))
		OP(36,n==4,"sim3_times_matrix",use(T::Matrix<>(sim3*A)))
		OP(37,n==4,"matrix_times_sim3",use(T::Matrix<>(At*sim3)))
		OP(38,n==7,"sim3_adjoint",use(T::Vector<>(sim3.adjoint(v))))
		OP(39,n==7,"sim3_trinvadjoint",use(T::Vector<>(sim3.trinvadjoint(v))))
		OP(40,n==7,"sim3_adjoint_matrix",use(T::Matrix<>(sim3.adjoint(S))))
		OP(41,n==7,"sim3_trinvadjoint_matrix",use(T::Matrix<>(sim3.trinvadjoint(S))))
		OP(42,n==8,"sl_exp",T::SL<3> z(v*.01); use(z.get_matrix()))
		OP(43,n==3,"sl_times_vector",use(T::Vector<>(sl*v)))
		OP(44,n==3,"vector_times_sl",use(T::Vector<>(v*sl)))
		OP(45,n==3,"sl_times_matrix",use(T::Matrix<>(sl*A)))
		OP(46,n==3,"matrix_times_sl",use(T::Matrix<>(At*sl)))
	} }
#endif
