// C18: robust re-weighting.
#include "num.hpp"
#include <TooN/irls.h>
#define K(s) vp::key(pre+s)
// documented definitions, evaluated in extended precision
struct D1 { L s; L w(L x){ return 1/(s+fabsl(x)); } L ts(L x){ L q=s+fabsl(x); return s/(q*q); } L obj(L x){ return fabsl(x)-s*log1pl(fabsl(x)/s); } void sd(L x){ s=x; } L oscale(L x){ return fabsl(x)+s*(1+log1pl(fabsl(x)/s)); } };
struct D2 { L s; L w(L x){ return 1/(s+x*x); } L ts(L x){ L q=s+x*x; return (s-x*x)/(q*q); } L obj(L x){ return log1pl(x*x/s)/2; } void sd(L x){ s=x*x; } L oscale(L x){ return 1+obj(x); } };
struct D0 { L w(L){ return 1; } L ts(L){ return 1; } L obj(L x){ return x*x/2; } void sd(L){} L oscale(L x){ return obj(x); } };
struct D3 { L s; L w(L x){ L q=1+x*x/s; return 1/(q*q); } L obj(L x){ return x*x/(2*(1+x*x/s)); } void sd(L x){ s=x*x; } L oscale(L x){ return obj(x); } };
template<class P> L resid(vp::Rng&g){ L x; switch(g.range(0,6)){ case 0: x=0; break; case 1: x=g.normal()*powl(10,-g.range(1,8)); break; case 2: x=g.normal()*powl(10,g.range(1,5)); break; case 3: x=g.range(-3,3); break; default: x=g.normal(); } return (L)(P)x; }
template<class P,class F,class D> void fun(vp::Rng&g,const std::string&pre){
	F f; D d; P sd=g.range(0,3)?(P)powl(10,g.unif(-2,2)):(P)g.range(1,3); f.set_sd(sd); d.sd((L)sd); L e=16*epsP<P>();
	vp::describe(pre+vp::fmt("sd=%g",(double)sd));
	for(int i=0;i<20;i++){ L x=resid<P>(g); L w=d.w(x); vp::sig(vp::hbytes(&x,1)^(uint64_t)(1e6*sd));
		VP_CLOSE(bad((L)f.reweight((P)x)-w),e*w,K("weight"),"w(%Lg)=%Lg want %Lg sd=%Lg",x,(L)f.reweight((P)x),w,(L)sd);
		VP_CLOSE(bad((L)f.objective((P)x)-d.obj(x)),e*d.oscale(x)+1e-300L,K("objective"),"cost(%Lg)=%Lg want %Lg sd=%Lg",x,(L)f.objective((P)x),d.obj(x),(L)sd);
		if constexpr(!std::is_same<D,D3>::value) VP_CLOSE(bad((L)f.true_scale((P)x)-d.ts(x)),2*e*w,K("true_scale"),"true_scale(%Lg)=%Lg want %Lg sd=%Lg",x,(L)f.true_scale((P)x),d.ts(x),(L)sd);
		VP_CHECK((L)f.reweight((P)x)==(L)f.reweight((P)-x)&&(L)f.objective((P)x)==(L)f.objective((P)-x),K("even"),"weight or cost not symmetric at %Lg",x);
	}
}
VP_UNIT(robust_functions,600,12000){ switch(rng.range(0,7)){ case 0: fun<double,T::RobustI<double>,D1>(rng,"robustI/"); break; case 1: fun<double,T::RobustII<double>,D2>(rng,"robustII/"); break; case 2: fun<double,T::RobustIII<double>,D3>(rng,"robustIII/"); break; case 3: fun<double,T::ILinear<double>,D0>(rng,"linear/"); break;
	case 4: fun<float,T::RobustI<float>,D1>(rng,"robustI/float_"); break; case 5: fun<float,T::RobustII<float>,D2>(rng,"robustII/float_"); break; case 6: fun<float,T::RobustIII<float>,D3>(rng,"robustIII/float_"); break; default: fun<float,T::ILinear<float>,D0>(rng,"linear/float_"); } }

// a user supplied function, which also records how it is called
template<class P> struct Probe { static int nw,no,nt; void set_sd(P){} P reweight(P x){ nw++; return 2+x*x; } P true_scale(P x){ nt++; return 2+3*x*x; } P objective(P x){ no++; return x*x+x*x*x*x/4; } };
template<class P> int Probe<P>::nw=0; template<class P> int Probe<P>::no=0; template<class P> int Probe<P>::nt=0;
struct DP { L w(L x){ return 2+x*x; } L ts(L x){ return 2+3*x*x; } L obj(L x){ return x*x+x*x*x*x/4; } void sd(L){} L oscale(L x){ return obj(x); } };

template<int S,class P,template<class> class R,class D> struct Acc { T::IRLS<S,P,R> w; M C,W,TC,TW; V v,wv; L r=0,rw=0; int ops=0; Acc(int n):w(n),C(n,n),W(n,n),TC(n,n),TW(n,n),v(n),wv(n){} 
	void zero(){ int n=C.r; C=W=TC=TW=M(n,n); v=wv=V(n); r=rw=0; ops=0; } };
template<int S,class P,template<class> class R,class D> void check(Acc<S,P,R,D>&a,const std::string&pre){
	int n=a.C.r; L e=(32+4*a.ops)*epsP<P>(); L q=0,qt=0,qv=0;
	auto&C=a.w.get_C_inv(); auto&TC=a.w.get_true_C_inv(); auto&v=a.w.get_vector();
	VP_CHECK(C.num_rows()==n&&TC.num_rows()==n&&TC.num_cols()==n&&v.size()==n,K("sizes"),"sizes");
	for(int i=0;i<n;i++){ for(int j=0;j<n;j++){ L d=bad((L)TC(i,j)-a.TC(i,j)); qt=std::max(qt,d==0?0:d/(e*a.TW(i,j)+1e-300L)); if(j>=i){ d=bad((L)C(i,j)-a.C(i,j)); q=std::max(q,d==0?0:d/(e*a.W(i,j)+1e-300L)); } } L d=bad((L)v[i]-a.v[i]); qv=std::max(qv,d==0?0:d/(e*a.wv[i]+1e-300L)); }
	VP_CLOSE(q,1,K("information"),"information matrix is not the sum of w(m) J J^T"); VP_CLOSE(qv,1,K("vector"),"vector is not the sum of w(m) m J"); VP_CLOSE(qt,1,K("true_information"),"true information matrix is not the sum of (w+m w') J J^T");
	VP_CLOSE(bad((L)a.w.get_residual()-a.r),e*a.rw+1e-300L,K("residual"),"residual %Lg want %Lg",(L)a.w.get_residual(),a.r);
}
template<int S,class P,template<class> class R,class D> void history(vp::Rng&g,int n,const std::string&pre){
	int acc=g.range(1,3); std::vector<Acc<S,P,R,D>*> A; P sd=(P)powl(10,g.unif(-1,1)); D d; d.sd((L)sd);
	bool lin=std::is_same<D,D0>::value; T::WLS<S,P> plain(n); uint64_t h=n;
	for(int i=0;i<acc;i++){ A.push_back(new Acc<S,P,R,D>(n)); A[i]->w.set_sd(sd); check(*A[i],pre+"initial_"); }
	int steps=g.range(3,30); std::string tr_;
	for(int t=0;t<steps;t++){ int q=g.range(0,9),i=g.range(0,acc-1); auto&a=*A[i]; tr_+=(char)('a'+q);
		if(q<7){ V J=randv(g,n); if(g.chance(.2)) J[g.range(0,n-1)]=0; roundto<P>(J); if(g.chance(.2)) roundto<float>(J); L m=resid<P>(g); h=vp::mix(h^vp::hbytes(&m,1));
			int how=g.range(0,2); int w0=Probe<P>::nw,o0=Probe<P>::no,t0=Probe<P>::nt;
			if(how==0){ T::Vector<S,P> j(n); toV(j,J); a.w.add_mJ((P)m,j); VP_CHECK(samev(j,J),K("operands_unchanged"),"Jacobian modified"); if(lin) plain.add_mJ((P)m,j); }
			else if(how==1){ T::Matrix<S,S,P> q2(n,n); put(q2,randn(g,n,n)); for(int b=0;b<n;b++) q2(b,n-1)=(P)J[b]; a.w.add_mJ((P)m,q2.T()[n-1]); if(lin) plain.add_mJ((P)m,q2.T()[n-1]); }
			else { roundto<float>(J); T::Vector<S,float> j(n); toV(j,J); a.w.add_mJ((P)m,j); if(lin) plain.add_mJ((P)m,j); }
			if(std::is_same<D,DP>::value) VP_CHECK(Probe<P>::nw-w0==1&&Probe<P>::no-o0==1&&Probe<P>::nt-t0==1,K("evaluations"),"weight/cost functions called %d/%d/%d times for one measurement",Probe<P>::nw-w0,Probe<P>::no-o0,Probe<P>::nt-t0);
			L w=d.w(m),ts=d.ts(m); for(int x=0;x<n;x++){ a.v[x]+=w*m*J[x]; a.wv[x]+=fabsl(w*m*J[x]); for(int y=0;y<n;y++){ L p=J[x]*J[y]; a.C(x,y)+=w*p; a.W(x,y)+=fabsl(w*p); a.TC(x,y)+=ts*p; a.TW(x,y)+=fabsl(w*p)+fabsl(ts*p); } }
			a.r+=d.obj(m); a.rw+=d.oscale(m); a.ops++; }
		else if(q==7){ int j=g.range(0,acc-1); if(a.ops+A[j]->ops<2000){ auto&o=*A[j]; L r=o.r,rw=o.rw; M C=o.C,W=o.W,TC=o.TC,TW=o.TW; V v=o.v,wv=o.wv; int k=o.ops; a.w+=o.w; a.C=add(a.C,C); a.W=add(a.W,W); a.TC=add(a.TC,TC); a.TW=add(a.TW,TW); a.v=add(a.v,v); a.wv=add(a.wv,wv); a.r+=r; a.rw+=rw; a.ops+=k; check(a,pre+"merge_"); check(o,pre+"merge_source_"); lin=lin&&acc==1&&false; } }
		else if(q==8){ P p=(P)g.unif(.1,2); a.w.add_prior(p); if(lin) plain.add_prior(p); for(int x=0;x<n;x++){ a.C(x,x)+=p; a.W(x,x)+=p; } }
		else if(g.chance(.3)){ a.w.clear(); a.zero(); lin=false; check(a,pre+"clear_"); }
		if(acc>1) lin=false;
		if(g.chance(.4)) check(a,pre);
	}
	vp::describe(vp::fmt("IRLS S=%d n=%d sd=%g history=",S,n,(double)sd)+tr_); vp::sig(h);
	for(auto*a:A){ check(*a,pre);
		V s=svals(a->C); L lim=std::is_same<P,float>::value?1e3L:1e7L; if(n>0&&s[n-1]*lim>s[0]){ a->w.compute(); check(*a,pre);
			M Ci=fromM(a->w.get_C_inv()); V mu=fromV(a->w.get_mu()),b=fromV(a->w.get_vector()); VP_CLOSE(solveres(Ci,colM(mu),colM(b)),200*(n+2)*epsP<P>(),K("normal_equations"),"estimate"); 
			if(lin){ plain.compute(); VP_CHECK(samev(plain.get_mu(),mu)&&same(plain.get_C_inv(),Ci),K("equals_wls"),"unit weights differ from ordinary least squares"); } }
		delete a; }
}
VP_UNIT(irls,900,18000){ switch(rng.range(0,11)){
	case 0: history<3,double,T::RobustI,D1>(rng,3,"irls/I_"); break; case 1: history<Dyn,double,T::RobustI,D1>(rng,rng.chance(.06)?rng.range(7,24):rng.range(1,6),"irls/I_dyn_"); break;
	case 2: history<2,double,T::RobustII,D2>(rng,2,"irls/II_"); break; case 3: history<Dyn,double,T::RobustII,D2>(rng,rng.chance(.06)?rng.range(7,24):rng.range(1,6),"irls/II_dyn_"); break;
	case 4: history<4,double,T::ILinear,D0>(rng,4,"irls/lin_"); break; case 5: history<Dyn,double,T::ILinear,D0>(rng,rng.chance(.06)?rng.range(7,24):rng.range(1,6),"irls/lin_dyn_"); break;
	case 6: history<3,float,T::RobustI,D1>(rng,3,"irls/I_float_"); break; case 7: history<Dyn,float,T::RobustII,D2>(rng,rng.range(1,4),"irls/II_float_"); break; case 8: history<6,float,T::ILinear,D0>(rng,6,"irls/lin_float_"); break;
	case 9: history<6,double,Probe,DP>(rng,6,"irls/user_"); break; case 10: history<Dyn,double,Probe,DP>(rng,rng.range(1,5),"irls/user_"); break; default: history<1,double,T::RobustI,D1>(rng,1,"irls/I_"); } }
