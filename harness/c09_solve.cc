// C09: Gaussian elimination and Gauss-Jordan against backward-error oracles.
#include "gen.hpp"
#include <TooN/TooN.h>
#include <TooN/gaussian_elimination.h>
#include <TooN/gauss_jordan.h>
using namespace ref; using std::numeric_limits;
namespace T=TooN;
template<class P> L epsP(){ return numeric_limits<P>::epsilon(); }
template<class P> L maxcondP(){ return std::min<L>(1e8L,0.01L/epsP<P>()); }

template<class P> void judge(const M&a,const M&x,const M&b,const char*who,int kind){
	L res=0; M r=sub(mul(a,x),b);
	for(int j=0;j<b.c;j++){ L nx=0,nb=0,nr=0; for(int i=0;i<a.r;i++){ nx=std::max(nx,fabsl(x(i,j))); nb=std::max(nb,fabsl(b(i,j))); if(r(i,j)!=r(i,j)||x(i,j)!=x(i,j)) nr=INFINITY; nr=std::max(nr,fabsl(r(i,j))); }
		L d=norminf(a)*nx+nb; L e=d>0?nr/d:nr; res=std::max(res,e); }
	VP_CLOSE(res,64*(a.r+1)*epsP<P>(),who,"backward error, n=%d kind=%d A=%s",a.r,kind,show(a).c_str());
}

// sometimes the whole system is of a size close to what the exponent holds; the solution stays what it is
template<class P> int resize_system(vp::Rng&g,M&a,std::vector<L>&b){ if(std::is_same<P,long double>::value||!g.chance(.15)) return 0; const int h=std::is_same<P,float>::value?60:800,ex=g.range(-h,h); for(L&x:a.d) x=ldexpl(x,ex); for(L&x:b) x=ldexpl(x,ex); return ex; }
template<int N,class P> void ge_vec(vp::Rng&g,int n,const char*key){
	int kind; L cond; M a=gen::regular(g,n,kind,cond,maxcondP<P>()); roundto<P>(a);
	V x0(n); for(auto&v:x0) v=g.normal(); V b=mul(a,x0); if(g.chance(.2)) for(auto&v:b) v=g.range(-2,2); roundto<P>(b); const int ex=resize_system<P>(g,a,b);
	vp::describe(vp::fmt("GE vector N=%d n=%d kind=%d 2^%d ",N,n,kind,ex)+show(a)); vp::sig(hash(a));
	T::Matrix<N,N,P> A(n,n); toM(A,a); T::Vector<N,P> B(n); toV(B,b);
	T::Vector<N,P> X=T::gaussian_elimination(A,B);
	VP_CHECK(X.size()==n,"ge/size","size %d",X.size());
	M x(n,1),bb(n,1); for(int i=0;i<n;i++){ x(i,0)=X[i]; bb(i,0)=b[i]; }
	judge<P>(a,x,bb,key,kind);
	bool same=true; for(int i=0;i<n;i++){ same=same&&(L)B[i]==b[i]; for(int j=0;j<n;j++) same=same&&(L)A(i,j)==a(i,j);} 
	VP_CHECK(same,"ge/inputs_unchanged","arguments modified");
}
template<int N,int K,class P> void ge_mat(vp::Rng&g,int n,int k,const char*key){
	int kind; L cond; M a=gen::regular(g,n,kind,cond,maxcondP<P>()); roundto<P>(a);
	M b=mul(a,randn(g,n,k)); if(g.chance(.3)){ b=M(n,k); for(int i=0;i<std::min(n,k);i++) b(i,i)=1; } roundto<P>(b); const int ex=resize_system<P>(g,a,b.d);
	vp::describe(vp::fmt("GE matrix N=%d n=%d k=%d kind=%d 2^%d ",N,n,k,kind,ex)+show(a)); vp::sig(hash(a));
	T::Matrix<N,N,P> A(n,n); toM(A,a); T::Matrix<N,K,P> B(n,k); toM(B,b);
	auto X=T::gaussian_elimination(A,B);
	VP_CHECK(X.num_rows()==n&&X.num_cols()==k,"ge/msize","size");
	judge<P>(a,fromM(X),b,key,kind);
	VP_CHECK(maxabs(sub(fromM(A),a))==0&&maxabs(sub(fromM(B),b))==0,"ge/minputs_unchanged","arguments modified");
}
VP_UNIT(ge_vector_double,1200,30000){ switch(rng.range(0,7)){ case 0: ge_vec<1,double>(rng,1,"ge/vec"); break; case 1: ge_vec<2,double>(rng,2,"ge/vec"); break; case 2: ge_vec<3,double>(rng,3,"ge/vec"); break; case 3: ge_vec<5,double>(rng,5,"ge/vec"); break; case 4: ge_vec<12,double>(rng,12,"ge/vec"); break; default: ge_vec<T::Dynamic,double>(rng,rng.range(1,25),"ge/vec_dyn"); } }
VP_UNIT(ge_vector_other,600,15000){ switch(rng.range(0,4)){ case 0: ge_vec<3,float>(rng,3,"ge/vec_float"); break; case 1: ge_vec<T::Dynamic,float>(rng,rng.range(1,12),"ge/vec_float"); break; case 2: ge_vec<4,long double>(rng,4,"ge/vec_longdouble"); break; case 3: ge_vec<T::Dynamic,long double>(rng,rng.range(1,12),"ge/vec_longdouble"); break; case 4: ge_vec<6,float>(rng,6,"ge/vec_float"); } }
VP_UNIT(ge_matrix,1200,30000){ switch(rng.range(0,8)){ case 0: ge_mat<1,1,double>(rng,1,1,"ge/mat"); break; case 1: ge_mat<2,3,double>(rng,2,3,"ge/mat"); break; case 2: ge_mat<3,3,double>(rng,3,3,"ge/mat"); break; case 3: ge_mat<4,T::Dynamic,double>(rng,4,rng.range(1,6),"ge/mat"); break; case 4: ge_mat<6,2,float>(rng,6,2,"ge/mat_float"); break; case 5: ge_mat<5,1,long double>(rng,5,1,"ge/mat_longdouble"); break; default: ge_mat<T::Dynamic,T::Dynamic,double>(rng,rng.range(1,20),rng.range(1,8),"ge/mat_dyn"); } }

// augmented matrices: [A|B] -> [I|A^-1 B]
template<int R,int C,class P,class Layout> void gj(vp::Rng&g,int n,int k,bool viaslice){
	int kind; L cond; M a=gen::regular(g,n,kind,cond,std::min<L>(1e6L,maxcondP<P>())); roundto<P>(a);
	M b=g.chance(.5)&&k>=n?M(n,k):randn(g,n,k); if(b.d.size()&&maxabs(b)==0) for(int i=0;i<n;i++) b(i,i)=1; roundto<P>(b); const int ex=resize_system<P>(g,a,b.d);
	vp::describe(vp::fmt("GJ R=%d C=%d n=%d k=%d kind=%d slice=%d 2^%d ",R,C,n,k,kind,(int)viaslice,ex)+show(a)); vp::sig(hash(a));
	M out(n,k); M left(n,n); bool guard=true;
	if(!viaslice){
		T::Matrix<R,C,P,Layout> m(n,n+k); for(int i=0;i<n;i++){ for(int j=0;j<n;j++) m(i,j)=a(i,j); for(int j=0;j<k;j++) m(i,n+j)=b(i,j);} 
		T::gauss_jordan(m); M f=fromM(m); for(int i=0;i<n;i++){ for(int j=0;j<n;j++) left(i,j)=f(i,j); for(int j=0;j<k;j++) out(i,j)=f(i,n+j);} 
	} else {
		T::Matrix<T::Dynamic,T::Dynamic,P,Layout> big(n+2,n+k+2); for(int i=0;i<n+2;i++) for(int j=0;j<n+k+2;j++) big(i,j)=777;
		auto m=big.slice(1,1,n,n+k); for(int i=0;i<n;i++){ for(int j=0;j<n;j++) m(i,j)=a(i,j); for(int j=0;j<k;j++) m(i,n+j)=b(i,j);} 
		T::gauss_jordan(m); for(int i=0;i<n;i++){ for(int j=0;j<n;j++) left(i,j)=m(i,j); for(int j=0;j<k;j++) out(i,j)=m(i,n+j);} 
		for(int i=0;i<n+2;i++) for(int j=0;j<n+k+2;j++) if(i==0||j==0||i==n+1||j==n+k+1) guard=guard&&big(i,j)==777;
	}
	VP_CHECK(guard,"gj/neighbours","elements outside the slice changed");
	VP_CHECK(maxabs(sub(left,eye(n)))==0,"gj/identity_block","left block is not the identity: %s",show(left).c_str());
	bool ok; M x=solve(a,b,&ok);
	L e=0; for(int j=0;j<k;j++){ L nx=0,ne=0; for(int i=0;i<n;i++){ nx=std::max(nx,fabsl(x(i,j))); L d=fabsl(out(i,j)-x(i,j)); if(d!=d) d=INFINITY; ne=std::max(ne,d);} if(nx>0) e=std::max(e,ne/nx); else e=std::max(e,ne); }
	L pe=epsP<P>();
	VP_CLOSE(e,64*(n+1)*(cond+1)*pe,(std::is_same<P,float>::value?"gj/solution_float":std::is_same<P,double>::value?"gj/solution":"gj/solution_longdouble"),"n=%d k=%d kind=%d cond=%Lg A=%s",n,k,kind,cond,show(a).c_str());
}
VP_UNIT(gauss_jordan,1500,30000){ switch(rng.range(0,8)){ case 0: gj<1,2,double,T::RowMajor>(rng,1,1,false); break; case 1: gj<2,4,double,T::RowMajor>(rng,2,2,false); break; case 2: gj<3,6,double,T::ColMajor>(rng,3,3,false); break; case 3: gj<4,5,double,T::RowMajor>(rng,4,1,false); break; case 4: gj<5,T::Dynamic,float,T::RowMajor>(rng,5,rng.range(0,6),false); break; case 6: gj<4,8,long double,T::RowMajor>(rng,4,4,false); break; case 5: gj<T::Dynamic,T::Dynamic,double,T::ColMajor>(rng,rng.range(1,10),rng.range(0,10),rng.chance(.5)); break; default: gj<T::Dynamic,T::Dynamic,double,T::RowMajor>(rng,rng.range(1,16),rng.range(0,16),rng.chance(.3)); } }
// sizes beyond those of one block or one cache line
VP_UNIT(solve_large,40,800){ using T::Dynamic; switch(rng.range(0,3)){ case 0: ge_vec<Dynamic,double>(rng,rng.range(26,80),"ge/vec_large"); break; case 1: ge_mat<Dynamic,Dynamic,double>(rng,rng.range(21,64),rng.range(1,40),"ge/mat_large"); break; case 2: { int n=rng.range(17,40); gj<Dynamic,Dynamic,double,T::RowMajor>(rng,n,rng.range(0,40),rng.chance(.3)); break; } default: ge_vec<30,double>(rng,30,"ge/vec_large"); } }
