// C10: determinants.
#include "num.hpp"
#include <TooN/determinant.h>
#ifdef TOON_DETERMINANT_LAPACK
#include <TooN/LU.h>
#endif
static M gendet(vp::Rng&g,int n,int&kind,L&ex,bool&exact,int lim){
	exact=false; kind=g.range(0,13); M m(n,n);
	switch(kind){
		case 0: case 1: m=randn(g,n,n); break;
		case 2: { std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; for(int i=n-1;i>0;i--) std::swap(p[i],p[g.range(0,i)]); for(int i=0;i<n;i++) m(i,p[i])=g.chance(.5)?1:(g.chance(.5)?-1:2); break; }
		case 3: for(int i=0;i<n;i++) for(int j=i;j<n;j++) m(i,j)=g.normal(); break;
		case 4: for(int i=0;i<n;i++) for(int j=0;j<=i;j++) m(i,j)=g.normal(); break;
		case 5: case 6: { int b=n<=8?9:(n<=20?3:1); for(auto&x:m.d) x=g.range(-b,b); break; }
		case 7: { m=randn(g,n,n); if(n>1){ int a=g.range(0,n-1),b=g.range(0,n-1); if(a!=b) for(int j=0;j<n;j++) m(a,j)=m(b,j); else for(int j=0;j<n;j++) m(a,j)=0; } break; }
		case 8: { int b=n<=8?5:1; for(auto&x:m.d) x=g.range(-b,b); if(n>1) for(int j=0;j<n;j++) m(n-1,j)=m(0,j)*(n>2?1:2)+(n>2?m(1,j):0); break; }
		case 9: { m=randn(g,n,n); L s=powl(2,g.range(-8,8)); for(auto&x:m.d) x*=s; break; }
		case 10: for(auto&x:m.d) x=g.chance(.6)?0:g.normal(); break;
		case 11: { m=randn(g,n,n); int k=g.range(0,n-1); for(int i=0;i<=k;i++) m(i,i)=0; break; }
		case 13: { m=randn(g,n,n); L s=powl(2,g.range(-lim,lim)/n); for(auto&x:m.d) x*=s; break; } // the determinant itself anywhere in the range of the type
		case 12: { m=randn(g,n,n); for(int i=0;i<n;i++) m(0,i)*=1e-9L; for(int i=0;i<n;i++) m(i,n-1)*=1e6L; break; }
	}
	bool integral=true; for(L x:m.d) if(x!=floorl(x)||fabsl(x)>1000) integral=false;
	if(integral&&n<=20){ std::vector<std::vector<__int128>> a(n,std::vector<__int128>(n)); for(int i=0;i<n;i++) for(int j=0;j<n;j++) a[i][j]=(long)m(i,j); __int128 o; bareiss(a,o); ex=(L)o; exact=true; }
	return m;
}
template<class P> L bound(const M&a){ int n=a.r; return 4*(n+4)*epsP<P>()*(sumcof(a)*maxabs(a)*n+rowprod(a)*n)+(sizeof(P)==4?1e-36L:1e-300L); }
#define SIGN(d) ((d)>0?1:(d)<0?-1:0)
template<class P,class Mat> void judge(vp::Rng&g,const M&a,const Mat&A,const char*k0,const char*kge,const char*klu){
	int kind_unused=0; (void)kind_unused; int n=a.r; L tol=bound<P>(a); L want=det(a);
	L d=0;
#if defined(TOON_DETERMINANT_LAPACK)
	if constexpr(!std::is_same<P,long double>::value){
		d=T::determinant(A); VP_CLOSE(bad(d-want),tol,k0,"n=%d det=%Lg want %Lg A=%s",n,d,want,show(a).c_str());
		L lu=T::determinant_LU(A); VP_CLOSE(bad(lu-want),tol,klu,"n=%d det=%Lg want %Lg A=%s",n,lu,want,show(a).c_str());
	}
#else
	d=T::determinant(A); VP_CLOSE(bad(d-want),tol,k0,"n=%d det=%Lg want %Lg A=%s",n,d,want,show(a).c_str());
#endif
	L ge=T::determinant_gaussian_elimination(A); VP_CLOSE(bad(ge-want),tol,kge,"n=%d det=%Lg want %Lg A=%s",n,ge,want,show(a).c_str());
	VP_CHECK(same(A,a),"det/input_unchanged","argument modified");
}
template<int N,class P> void one(vp::Rng&g,int n,const char*k0,const char*kge,const char*klu){
	int kind; L ex; bool exact; M a=gendet(g,n,kind,ex,exact,sizeof(P)==4?90:850); roundto<P>(a);
	vp::describe(vp::fmt("det N=%d n=%d kind=%d ",N,n,kind)+show(a)); vp::sig(hash(a));
	if(exact){ L w=det(a); VP_CLOSE(fabsl(w-ex),1e-6L*(fabsl(ex)+1),"det/reference_selfcheck","bareiss %Lg reference %Lg",ex,w); }
	T::Matrix<N,N,P> A(n,n); put(A,a);
	switch(g.range(0,4)){
		case 0: { T::Matrix<N,N,P,T::ColMajor> B(n,n); put(B,a); judge<P>(g,a,B,k0,kge,klu); break; }
		case 1: { M t=tr(a); put(A,t); judge<P>(g,a,A.T(),k0,kge,klu); break; }
		case 2: { T::Matrix<Dyn,Dyn,P> big(n+3,n+2); for(int i=0;i<n+3;i++) for(int j=0;j<n+2;j++) big(i,j)=1234; auto s=big.slice(2,1,n,n); put(s,a); judge<P>(g,a,s,k0,kge,klu); break; }
		default: judge<P>(g,a,A,k0,kge,klu);
	}
	// row exchange flips the sign
	if(n>1){ int x=g.range(0,n-1),y=g.range(0,n-1); if(x!=y){ M b=a; for(int j=0;j<n;j++) std::swap(b(x,j),b(y,j)); T::Matrix<N,N,P> B(n,n); put(B,b); put(A,a);
		L d1,d2;
		d1=T::determinant_gaussian_elimination(A); d2=T::determinant_gaussian_elimination(B);
		VP_CLOSE(bad(d1+d2),2*bound<P>(a),"det/row_swap_sign","det %Lg and %Lg after exchanging two rows",d1,d2); } }
}
// int(N)
VP_UNIT(det_double,1800,40000){ const char*a="det/auto",*b="det/elimination",*c="det/lu";
	switch(rng.range(0,9)){ case 0: one<1,double>(rng,1,a,b,c); break; case 1: case 2: one<2,double>(rng,2,a,b,c); break; case 3: one<3,double>(rng,3,a,b,c); break; case 4: one<4,double>(rng,4,a,b,c); break; case 5: one<6,double>(rng,6,a,b,c); break;
		default: one<Dyn,double>(rng,rng.range(1,12),a,b,c); } }
VP_UNIT(det_switch_size,60,1200){ int n=rng.range(33,37); if(rng.chance(.3)) one<36,double>(rng,36,"det/auto_large","det/elimination_large","det/lu_large"); else one<Dyn,double>(rng,n,"det/auto_large","det/elimination_large","det/lu_large"); }
VP_UNIT(det_large,30,600){ one<Dyn,double>(rng,rng.range(13,72),"det/auto_large","det/elimination_large","det/lu_large"); }
VP_UNIT(det_float,500,10000){ const char*a="det/auto_float",*b="det/elimination_float",*c="det/lu_float"; switch(rng.range(0,3)){ case 0: one<2,float>(rng,2,a,b,c); break; case 1: one<3,float>(rng,3,a,b,c); break; case 2: one<5,float>(rng,5,a,b,c); break; default: one<Dyn,float>(rng,rng.range(1,9),a,b,c);} }
VP_UNIT(det_longdouble,400,8000){ const char*a="det/auto_longdouble",*b="det/elimination_longdouble",*c="det/lu_longdouble"; switch(rng.range(0,2)){ case 0: one<2,long double>(rng,2,a,b,c); break; case 1: one<4,long double>(rng,4,a,b,c); break; default: one<Dyn,long double>(rng,rng.range(1,9),a,b,c);} }
// partly static shapes
VP_UNIT(det_mixed_static,300,6000){ int k; L e; bool x; M a=gendet(rng,4,k,e,x,850); roundto<double>(a); vp::describe("half static "+show(a)); vp::sig(hash(a));
	T::Matrix<4,Dyn,double> A(4,4); put(A,a); judge<double>(rng,a,A,"det/auto","det/elimination","det/lu");
	T::Matrix<Dyn,4,double> B(4,4); put(B,a); judge<double>(rng,a,B,"det/auto","det/elimination","det/lu"); }
