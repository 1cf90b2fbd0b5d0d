// C08: matrix exponential, square root and logarithm.
#include "num.hpp"
#include <TooN/helpers.h>
#define K(s) vp::key(pre+s)
inline L mu2(const M&a){ M s=scale(add(a,tr(a)),.5L); V w; M e; jacobi(s,w,e); return w[w.size()-1]; }
// a square matrix for exp; everything it can look like
inline M expinput(vp::Rng&g,int n,bool fl,int&kind){ kind=g.range(0,11); M m(n,n); L big=fl?20:200; switch(kind){
	case 0: break; // zero
	case 1: m=scale(eye(n),g.range(0,1)?g.normal()*5:g.unif(-(double)big,(double)big)/4); break;
	case 2: m=randn(g,n,n); m=sub(m,tr(m)); m=scale(m,powl(10,g.chance(.3)?g.unif(2,fl?3:4.5):g.unif(-8,2))); break; // skew: exp is a rotation
	case 3: { V w(n); for(auto&x:w) x=g.unif(-(double)big,10); m=symwith(g,w); break; } // large negative eigenvalues
	case 4: for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) m(i,j)=g.chance(.7)?g.normal()*powl(10,g.range(0,fl?4:12)/(n-1>0?n-1:1)):0; break; // nilpotent
	case 5: m=scale(randn(g,n,n),powl(10,-g.unif(1,20))); break; // tiny
	case 6: for(int i=0;i<n;i++) m(i,i)=g.unif(-(double)big,20); break; // diagonal
	case 7: for(auto&x:m.d) x=g.range(-2,2); break;
	case 8: m=scale(randn(g,n,n),g.unif(0,8)/n); break;
	case 9: { L s=powl(2,g.range(-3,4)); m=randn(g,n,n); L q=norminf(m); if(q>0) m=scale(m,s/q); break; } // norm at a power of two
	case 10: if(n>1){ m(0,1)=powl(10,g.range(0,fl?15:150)); } else m(0,0)=1; break; // one huge entry, nilpotent
	default: m=randn(g,n,n); } return m; }
template<int N,class P> void doexp(vp::Rng&g,const std::string&pre){
	int n=N==Dyn?g.chance(.05)?g.range(9,30):g.range(1,8):N,kind; M a=expinput(g,n,sizeof(P)==4,kind); roundto<P>(a); vp::describe(pre+vp::fmt("kind %d ",kind)+show(a)); vp::sig(hash(a)); L na=norminf(a); M E=expm(a); L mu=mu2(a); L tol=8*n*epsP<P>()*(1+na)*expl(std::max(mu,-300.L)); 
	if(!(maxabs(E)<(sizeof(P)==4?1e30L:1e250L))){ vp::trivial(); return; }
	if(kind==4||kind==10){ /* the hump of a nilpotent matrix is far below exp(norm) */ tol=64*n*epsP<P>()*(n>2?powl(1+na,n-1):1+na); if(!std::isfinite((double)tol)||tol>(sizeof(P)==4?1e25L:1e200L)) tol=INFINITY; }
	T::Matrix<N,N,P> m(n,n); put(m,a); T::Matrix<N,N,P> r(n,n); switch(g.range(0,2)){ case 0: r=T::exp(m); break; case 1: r=T::exp(m.T()).T(); break; default: { T::Matrix<Dyn,Dyn,P> b(n+2,n+2); b=T::Zeros; b.slice(1,1,n,n)=m; T::Matrix<Dyn,Dyn,P> rr=T::exp(b.slice(1,1,n,n)); r=rr; } }
	M got=fromM(r); VP_CHECK(same(m,a),K("exp_argument_unchanged"),"argument modified"); if(tol!=INFINITY) VP_CLOSE(maxbad(sub(got,E)),tol,K("exp"),"exp(%s)=%s want %s",show(a).c_str(),show(got).c_str(),show(E).c_str());
	if(kind==0||kind==5) VP_CLOSE(maxbad(sub(sub(got,eye(n)),a)),na*na+epsP<P>()*2*(1+na),K("exp_near_zero"),"exp of a tiny matrix: %s",show(got).c_str());
	// exp(-A) is the inverse
	if(na<(sizeof(P)==4?4:12)){ T::Matrix<N,N,P> q=T::exp(-m); M qi=fromM(q); VP_CLOSE(maxbad(sub(mul(got,qi),eye(n))),64*n*epsP<P>()*(1+na)*norminf(got)*norminf(qi),K("exp_inverse"),"exp(A) exp(-A) is not the identity"); }
}
// matrices with a principal root: exp of something of norm < pi, SPD, products
inline M rootinput(vp::Rng&g,int n,bool fl,int&kind,M*lg){ kind=g.range(0,7); M m; *lg=M(0,0); L span=fl?2:4; switch(kind){
	case 0: { M b=randn(g,n,n); L q=norminf(b); b=scale(b,g.unif(0,3)/(q>0?q:1)); *lg=b; m=expm(b); break; }
	case 1: { V w(n),l(n); for(int i=0;i<n;i++){ l[i]=g.unif(-(double)span,(double)span); } M q=randorth(g,n); M d(n,n),dl(n,n); for(int i=0;i<n;i++){ d(i,i)=expl(l[i]); dl(i,i)=l[i]; } m=mul(mul(q,d),tr(q)); *lg=mul(mul(q,dl),tr(q)); break; }
	case 2: m=eye(n); *lg=M(n,n); break;
	case 3: { L s=powl(10,g.range(fl?-8:-60,fl?8:60)); m=scale(eye(n),s); *lg=scale(eye(n),logl(s)); break; } // very large or small
	case 4: { M b=randn(g,n,n); b=sub(b,tr(b)); V s=svals(b); L q=s[0]; b=scale(b,g.unif(0,3.1)/(q>0?q:1)); *lg=b; m=expm(b); break; } // rotation up to nearly pi
	case 5: { m=eye(n); M b(n,n); for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) m(i,j)=g.chance(.6)?g.normal():0; *lg=M(0,0); break; } // unipotent
	case 6: { m=eye(n); for(auto&x:m.d) x+=powl(10,-g.unif(1,10))*g.unif(-1,1)/n; break; } // near the identity
	default: { M b=randn(g,n,n); b=add(mul(b,tr(b)),eye(n),.1L); m=scale(b,powl(10,g.range(-3,3))); } } return m; }
template<int N,class P> void root(vp::Rng&g,const std::string&pre){
	int n=N==Dyn?g.chance(.04)?g.range(8,20):g.range(1,7):N,kind; M lg; M a=rootinput(g,n,sizeof(P)==4,kind,&lg); roundto<P>(a); V s=svals(a); L cond=s[n-1]>0?s[0]/s[n-1]:INFINITY; if(!(cond<(sizeof(P)==4?1e3L:1e6L))){ vp::trivial(); return; }
	vp::describe(pre+vp::fmt("kind %d ",kind)+show(a)); vp::sig(hash(a)); T::Matrix<N,N,P> m(n,n); put(m,a); // near a negative eigenvalue the iteration passes close to a singular matrix
	const L theta=lg.r==n?std::min(3.1L,svals(lg)[0]):0, u=32*n*epsP<P>()*cond*n*((kind==0||kind==4)&&theta>1?1/cosl(theta/2):1);
	vp::note("sqrt"); T::Matrix<N,N,P> y=g.chance(.5)?T::Matrix<N,N,P>(T::sqrt(m)):T::Matrix<N,N,P>(T::sqrt(m.T()).T()); M Y=fromM(y); L ny=norminf(Y); L scl=std::max(norminf(a),ny*ny);
	VP_CLOSE(maxbad(sub(mul(Y,Y),a)),u*scl,K("sqrt_squares_back"),"sqrt(%s)=%s",show(a).c_str(),show(Y).c_str());
	vp::note("log"); T::Matrix<N,N,P> l=T::log(m); M Lg=fromM(l); L nl=norminf(Lg); VP_CLOSE(maxbad(sub(expm(Lg),a)),u*(1+nl)*norminf(a)*4,K("exp_log"),"log(%s)=%s",show(a).c_str(),show(Lg).c_str());
	{ T::Matrix<N,N,P> e=T::exp(l); VP_CLOSE(maxbad(sub(fromM(e),a)),u*(1+nl)*norminf(a)*8,K("toon_exp_log"),"exp(log(A)) is not A"); }
	VP_CHECK(same(m,a),K("root_argument_unchanged"),"argument modified");
	// principal branch: known logarithm, root = exp(log/2)
	if(lg.r==n){ VP_CLOSE(maxbad(sub(Lg,lg)),u*16*(1+norminf(lg))*cond,K("log_principal"),"log of exp(%s) is %s",show(lg).c_str(),show(Lg).c_str()); M h=expm(scale(lg,.5L)); VP_CLOSE(maxbad(sub(Y,h)),u*16*cond*std::max(norminf(h),ny),K("sqrt_principal"),"sqrt is not the principal root"); }
	if(n==1){ VP_CLOSE(bad((L)y(0,0)-sqrtl(a(0,0))),8*epsP<P>()*sqrtl(a(0,0)),K("scalar_sqrt"),"sqrt of a 1x1 matrix"); VP_CLOSE(bad((L)l(0,0)-logl(a(0,0))),64*epsP<P>()*(1+fabsl(logl(a(0,0)))),K("scalar_log"),"log of a 1x1 matrix"); }
}
// calls return whatever the conditioning
template<int N,class P> void returns(vp::Rng&g,const std::string&pre){
	int n=N; M a; int kind=g.range(0,5); switch(kind){ case 0: { M b=scale(randn(g,n,n),g.unif(1,6)); a=expm(b); break; } case 1: { M b=scale(randn(g,n,n),powl(10,g.range(-1,2))); a=mul(b,b); break; } case 2: { V s(n); for(int i=0;i<n;i++) s[i]=powl(10,-g.unif(0,20)); a=symwith(g,s); break; } case 3: a=mul(randn(g,n,1),randn(g,1,n)); break; case 4: a=M(n,n); break; default: a=randn(g,n,n); }
	roundto<P>(a); vp::describe(pre+show(a)); vp::sig(hash(a)); T::Matrix<N,N,P> m; put(m,a); vp::note("sqrt of an ill-conditioned matrix"); T::Matrix<N,N,P> y=T::sqrt(m); vp::note("log of an ill-conditioned matrix"); T::Matrix<N,N,P> l=T::log(m); vp::digd(y(0,0)+l(0,0)); VP_CHECK(same(m,a),K("returned"),"argument modified"); }
VP_UNIT(exp_static,1200,30000){ doexp<3,double>(rng,"s/"); doexp<2,double>(rng,"s/"); doexp<1,double>(rng,"s/"); doexp<5,double>(rng,"s/"); }
VP_UNIT(exp_dynamic,1500,30000){ doexp<Dyn,double>(rng,"dyn/"); }
VP_UNIT(exp_float,800,15000){ doexp<3,float>(rng,"float/"); doexp<Dyn,float>(rng,"float/"); }
VP_UNIT(root_static,1200,30000){ root<3,double>(rng,"s/"); root<2,double>(rng,"s/"); root<1,double>(rng,"s/"); root<6,double>(rng,"s/"); }
VP_UNIT(root_dynamic,1500,30000){ root<Dyn,double>(rng,"dyn/"); }
VP_UNIT(root_float,800,15000){ root<3,float>(rng,"float/"); root<2,float>(rng,"float/"); root<1,float>(rng,"float/"); }
VP_UNIT(returns_always,1500,20000){ returns<2,double>(rng,"s/"); returns<3,double>(rng,"s/"); returns<5,double>(rng,"s/"); returns<2,float>(rng,"float/"); returns<3,float>(rng,"float/"); }
