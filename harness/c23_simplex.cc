// C23: downhill simplex, monitored evaluation by evaluation.
#include "num.hpp"
#include <TooN/optimization/downhill_simplex.h>
struct Ev { V x; L v; };
static std::vector<Ev> LOG;
static bool RECORD=true;
// objective functions of several shapes; deterministic in the point
struct Fn {
	int kind; int n; M A; V b; L off; L lim; L mul=1, add=0;
	template<class X> L val(const X& x)const{
		V d(n); L r=0; for(int i=0;i<n;i++){ d[i]=(L)x[i]-b[i]; r+=d[i]*d[i]; }
		L s=0;
		switch(kind){
			case 0: for(int i=0;i<n;i++) for(int j=0;j<n;j++) s+=d[i]*A(i,j)*d[j]; return s/2+off;      // convex quadratic
			case 1: for(int i=0;i<n;i++) s+=fabsl(d[i])*(i+1); return s+off;                          // l1 (kinks)
			case 2: for(int i=0;i+1<n;i++) s+=100*powl((L)x[i+1]-(L)x[i]*x[i],2)+powl(1-(L)x[i],2); if(n==1) s=powl(1-(L)x[0],4); return s;
			case 3: return off;                                                                      // constant
			case 4: for(int i=0;i<n;i++) s+=floorl(fabsl(d[i])*2); return s+off;                      // steps (ties)
			case 5: return r>lim*lim? std::numeric_limits<double>::infinity() : r+off;              // infeasible outside a ball
			case 6: for(int i=0;i<n;i++) s=std::max(s,fabsl(d[i])); return s+off;                     // max norm
			case 7: for(int i=0;i<n;i++) s+=sinl(3*(L)x[i])+0.1L*d[i]*d[i]; return s;               // many minima
			case 8: for(int i=0;i<n;i++) s+=coshl(std::min<L>(fabsl(d[i]),40))-1; return s+off;       // convex, steep
			case 9: for(int i=0;i<n;i++) s-=d[i]*d[i]; return s;                                      // unbounded below
			default: return std::max<L>(0,r-1)+off;                                                    // flat bottom
		}
	}
	template<int N,class P,class B> P operator()(const T::Vector<N,P,B>& x)const{
		V p(n); for(int i=0;i<n;i++) p[i]=x[i];
		P v=(P)(mul==1&&add==0?val(x):mul*val(x)+add); if(RECORD) LOG.push_back({p,(L)v}); return v;
	}
};
struct St { std::vector<V> S; V f; };
template<class DS> St snap(const DS& d,int n){ St s; for(int i=0;i<=n;i++){ V v(n); for(int j=0;j<n;j++) v[j]=d.get_simplex()[i][j]; s.S.push_back(v); s.f.push_back(d.get_values()[i]); } return s; }
static L dist(const V&a,const V&b){ L m=0; for(size_t i=0;i<a.size();i++){ L d=fabsl(a[i]-b[i]); if(!(d<=m)) m=d; } return m; }
static V lin(const V&a,L s,const V&b){ V r(a.size()); for(size_t i=0;i<a.size();i++) r[i]=a[i]+s*(b[i]-a[i]); return r; }   // a+s(b-a)
// is `post` reachable from `pre` by one documented move?
static bool legal(const St& a,const St& z,int n,L al,L rho,L ga,L sg,L tol,const Fn& fn,std::string& why,int& move){
	L best=a.f[0],wv=a.f[0]; for(L v: a.f){ best=std::min(best,v); wv=std::max(wv,v); }
	auto value=[&](const V& x,L& out)->bool{ const Ev* e=0; L bd=tol; for(auto&l: LOG){ L d=dist(l.x,x); if(d<=bd){ bd=d; e=&l; } } if(!e) return false; out=e->v; return true; };
	auto replaced=[&](int w,const V& x,L v){ for(int i=0;i<=n;i++) if(i!=w && !(z.S[i]==a.S[i] && z.f[i]==a.f[i])) return false; return dist(z.S[w],x)<=tol && z.f[w]==v; };
	why="";
	for(int w=0;w<=n;w++) if(a.f[w]==wv){
		L sw=-INFINITY; V x0(n); for(int i=0;i<=n;i++) if(i!=w){ sw=std::max(sw,a.f[i]); for(int j=0;j<n;j++) x0[j]+=a.S[i][j]/n; }
		V xr=lin(x0,-al,a.S[w]); L fr; if(!value(xr,fr)){ why+=" no reflection of "+std::to_string(w); continue; }
		auto shrunk=[&](){ for(int b=0;b<=n;b++) if(a.f[b]==best){ bool ok=true; for(int i=0;i<=n&&ok;i++){ if(i==b){ ok=z.S[i]==a.S[i]&&z.f[i]==a.f[i]; continue; } ok=dist(z.S[i],lin(a.S[b],sg,a.S[i]))<=tol; } if(ok) return true; } return false; };
		if(fr<best){ V xe=lin(x0,rho,xr); L fe; if(!value(xe,fe)){ why+=" no expansion"; continue; } move=fe<fr?1:2; if(fe<=fr && replaced(w,xe,fe)) return true; if(fr<=fe && replaced(w,xr,fr)) return true; why+=" expansion result"; continue; }
		if(fr>=best && fr<=sw && replaced(w,xr,fr)){ move=3; return true; }
		if(fr>=sw && fr<wv){ V xc=lin(x0,-ga,a.S[w]); L fc; if(!value(xc,fc)){ why+=" no contraction"; continue; } move=4; if(fc<=fr && replaced(w,xc,fc)) return true; if(fc>=fr && shrunk()){ move=5; return true; } why+=" contraction result"; continue; }
		if(fr>=wv && shrunk()){ move=6; return true; }
		why+=vp::fmt(" reflected value %Lg (best %Lg second worst %Lg worst %Lg) and no matching move",fr,best,sw,wv);
	}
	return false;
}
template<class DS> void consistent(const DS& d,const Fn& fn,int n,const std::string& pre,const char* when){
	RECORD=false; bool ok=true; int bad=-1; for(int i=0;i<=n;i++){ auto v=fn(d.get_simplex()[i]); if(!(v==d.get_values()[i])){ ok=false; bad=i; } } RECORD=true;
	VP_CHECK(ok,vp::key(pre+"values_match_vertices"),"%s: stored value %d differs from the function at the stored vertex",when,bad);
	int b=d.get_best(),w=d.get_worst(); bool e=b>=0&&b<=n&&w>=0&&w<=n; for(int i=0;e&&i<=n;i++) if(d.get_values()[i]<d.get_values()[b]||d.get_values()[i]>d.get_values()[w]) e=false;
	VP_CHECK(e,vp::key(pre+"best_and_worst_indices"),"%s: best %d worst %d",when,b,w);
}
template<class DS> void is_start(const DS& d,const V& c,L spread,int n,const std::string& pre,const char* key,L eps){
	// one vertex at c, the others displaced by spread along one axis each
	std::vector<int> used(n+1,0); bool ok=true;
	for(int i=0;i<=n;i++){ int hit=-1; for(int k=0;k<=n;k++){ if(used[k]) continue; bool m=true; for(int j=0;j<n;j++){ L e=c[j]+(j==k?spread:0); if(fabsl(d.get_simplex()[i][j]-e)>4*eps*(fabsl(c[j])+fabsl(spread))) m=false; } if(m){ hit=k; break; } } if(hit<0) ok=false; else used[hit]=1; }
	VP_CHECK(ok,vp::key(pre+key),"simplex is not the corner point plus one point per axis at distance %Lg",spread);
}
template<int N,class P> void one(vp::Rng& g,const std::string& pre,bool conv){
	int n=N<0?(g.chance(.06)?g.range(8,20):g.range(1,7)):N;
	Fn f; f.n=n; f.kind=conv?(g.chance(.3)&&n<=2?(g.chance(.5)?8:6):0):g.range(0,10); if(conv&&f.kind==6&&n>1) f.kind=0;
	f.b=V(n); L far=g.chance(.2)?1000:3; if(conv&&(f.kind==8||sizeof(P)==4)) far=3; for(auto&x: f.b) x=(L)(P)(g.normal()*far); if(g.chance(.15)) f.b=V(n);
	f.off=g.chance(.5)?0:g.range(-5,5); f.lim=1+3*g.unif();
	V ev(n); for(auto&e: ev) e=std::exp(g.unif(0,std::log(conv?10.0:1e3))); M Q=randorth(g,n); M D(n,n); for(int i=0;i<n;i++) D(i,i)=ev[i]; f.A=mul(mul(Q,D),tr(Q)); for(int i=0;i<n;i++) for(int j=0;j<i;j++) f.A(i,j)=f.A(j,i);
	V c0(n); for(int i=0;i<n;i++) c0[i]=(L)(P)(f.b[i]+g.normal()*(f.kind==5?0.3:3)); if(f.kind==2) for(auto&x: c0) x=(L)(P)(g.normal());
	L spread=(L)(P)(g.chance(.5)?1.0:std::exp(g.unif(-2,2))*(g.chance(.3)?-1:1)); bool defspread=spread==1&&g.chance(.5);
	T::Vector<N,P> c(n); for(int i=0;i<n;i++) c[i]=(P)c0[i];
	vp::describe(vp::fmt("%s N=%d f=%d spread=%Lg off=%Lg start[0]=%Lg",pre.c_str(),n,f.kind,spread,f.off,c0[0]));
	const L eps=epsP<P>();
	LOG.clear();
	T::DownhillSimplex<N,P>* dp=defspread?new T::DownhillSimplex<N,P>(f,c):new T::DownhillSimplex<N,P>(f,c,(P)spread); T::DownhillSimplex<N,P>& d=*dp;
	VP_CHECK(d.get_simplex().num_rows()==n+1&&d.get_simplex().num_cols()==n&&d.get_values().size()==n+1,vp::key(pre+"shape"),"n=%d",n);
	is_start(d,c0,spread,n,pre,"initial_simplex",eps); consistent(d,f,n,pre,"initially");
	bool defaults=d.alpha==1&&d.rho==2&&d.gamma==(P).5&&d.sigma==(P).5; VP_CHECK(defaults,vp::key(pre+"default_parameters"),"alpha=%g rho=%g gamma=%g sigma=%g",(double)d.alpha,(double)d.rho,(double)d.gamma,(double)d.sigma);
	VP_CLOSE(fabsl(d.epsilon-sqrtl(eps)),1e-3L*sqrtl(eps),vp::key(pre+"default_epsilon"),"epsilon=%g",(double)d.epsilon);
	if(!conv&&g.chance(.3)){ d.alpha=(P)g.unif(.6,1.4); d.rho=(P)g.unif(1.3,3); d.gamma=(P)g.unif(.2,.7); d.sigma=(P)g.unif(.2,.8); }
	if(!conv&&g.chance(.3)) d.epsilon=(P)std::exp(g.unif(-9,-1));
	if(!conv&&g.chance(.2)) d.zero_epsilon=(P)std::exp(g.unif(-9,0));
	uint64_t h=f.kind; L best=d.get_values()[d.get_best()]; L fbest0=best; int it=0,maxit=conv?20000:vp::st().thorough?600:150; bool go=true; int restarts=0;
	while(it<maxit){
		St a=snap(d,n); LOG.clear(); bool viaFind=!conv&&g.chance(.2); bool r;
		if(viaFind){ d.find_next_point(f); r=!d.finished(); } else r=d.iterate(f);
		St z=snap(d,n); it++; if(it%64==0) vp::note("iterating");
		L nb=d.get_values()[d.get_best()];
		VP_CHECK(nb<=best,vp::key(pre+"best_never_increases"),"iteration %d: %Lg -> %Lg",it,best,nb); best=nb;
		if(it<200||it%16==0){
			consistent(d,f,n,pre,"after an iteration");
			L sc=0; for(auto&s: a.S) for(L x: s) sc=std::max(sc,fabsl(x)); for(auto&l: LOG) for(L x: l.x) if(std::isfinite((double)x)) sc=std::max(sc,fabsl(x));
			bool fin=true; for(auto&s: a.S) for(L x: s) fin&=std::isfinite((double)x); for(L v: a.f) fin&=(v==v);
			std::string why; int mv=0;
			if(fin){ bool ok=legal(a,z,n,d.alpha,d.rho,d.gamma,d.sigma,40*std::max<L>(eps,2.3e-16L)*sc+1e-300L,f,why,mv); h=vp::mix(h*7+mv);
				VP_CHECK(ok,vp::key(pre+"documented_move"),"iteration %d:%s",it,why.c_str());
				static const char* mk[]={"","move_expand","move_reflect_best","move_reflect","move_contract","move_contract_shrink","move_shrink"};
				if(ok) VP_CHECK(true,vp::key(pre+mk[mv])," "); }
		}
		// termination criterion
		V vb=z.S[d.get_best()],vw=z.S[d.get_worst()]; L sp=0,scale=0; for(int j=0;j<n;j++){ sp+=(vb[j]-vw[j])*(vb[j]-vw[j]); scale+=vb[j]*vb[j]; } sp=sqrtl(sp); scale=sqrtl(scale);
		auto nearv=[](L x,L y){ return fabsl(x-y)<=1e-3L*fabsl(y)||!std::isfinite((double)x); };
		bool amb=(scale>0&&nearv(sp/scale,d.epsilon))||nearv(sp,d.zero_epsilon)||(sizeof(P)==4&&(sp<1e-15L||scale<1e-15L))||sp<1e-140L;
		bool fin=(scale>0&&sp/scale<d.epsilon)||sp<d.zero_epsilon;
		if(!amb){ VP_CHECK(r==!fin,vp::key(pre+"stops_exactly_at_criterion"),"iteration %d: iterate said %d, span %Lg scale %Lg",it,(int)r,sp,scale); VP_CHECK(d.finished()==fin,vp::key(pre+"finished"),"span %Lg scale %Lg",sp,scale); }
		if(!r){ go=false; if(conv||restarts>=2||g.chance(.5)) break; }
		if(!conv && (!r||g.chance(.01)) && restarts<3 && f.kind!=9){
			restarts++; LOG.clear(); L s2=(L)(P)std::exp(g.unif(-2,1)); V bv=snap(d,n).S[d.get_best()]; L b0=d.get_values()[d.get_best()];
			const bool changed=g.chance(.4); if(changed){ f.mul*=g.range(1,4); f.add+=g.range(-3,6); }   // continue with another function, as in annealing
			if(g.chance(.6)){ d.restart(f,(P)s2); is_start(d,bv,s2,n,pre,"restart_around_best",eps); if(changed) VP_CHECK(true,vp::key(pre+"restart_with_another_function")," "); else VP_CHECK(d.get_values()[d.get_best()]<=b0,vp::key(pre+"restart_keeps_best"),"%Lg -> %Lg",b0,(L)d.get_values()[d.get_best()]); }
			else { V cc(n); T::Vector<N,P> c2(n); for(int i=0;i<n;i++){ c2[i]=(P)(f.b[i]+g.normal()); cc[i]=c2[i]; } d.restart(f,c2,(P)s2); is_start(d,cc,s2,n,pre,"restart_at_point",eps); }
			consistent(d,f,n,pre,"after a restart"); best=d.get_values()[d.get_best()]; go=true;
		}
		if(f.kind==9&&best<-1e25L) break;
	}
	if(conv){
		VP_CHECK(!go,vp::key(pre+"terminates"),"no termination in %d iterations",maxit);
		L bn=0; for(L x: f.b) bn+=x*x; L span=d.epsilon*sqrtl(bn); L stopband=f.kind==6?30*n*span:300*span*span;   // the simplex may be that large when it stops
		L floor_=4*eps*(fabsl(f.off)+1)+ (far>100? 1e6L*eps*eps*100:0) ; L red=fbest0-f.off;
		VP_CLOSE(best-f.off, (sizeof(P)==4?0.1L:0.02L)*red+1e3L*floor_+stopband, vp::key(pre+"near_minimum"),"start %Lg end %Lg after %d iterations",fbest0,best,it);
	}
	vp::sig(h); delete dp;
}
VP_UNIT(s1,480,12000){ vp::Rng& g=rng; one<1,double>(g,"s/",false); }
VP_UNIT(s2,640,20000){ vp::Rng& g=rng; one<2,double>(g,"s/",false); }
VP_UNIT(s3,640,20000){ vp::Rng& g=rng; one<3,double>(g,"s/",false); }
VP_UNIT(s5,480,16000){ vp::Rng& g=rng; one<5,double>(g,"s/",false); }
VP_UNIT(dyn,640,20000){ vp::Rng& g=rng; one<Dyn,double>(g,"dyn/",false); }
VP_UNIT(flt,480,16000){ vp::Rng& g=rng; if(g.chance(.5)) one<2,float>(g,"float/",false); else one<Dyn,float>(g,"float/",false); }
VP_UNIT(ld,240,6400){ vp::Rng& g=rng; one<3,long double>(g,"ld/",false); }
VP_UNIT(conv,960,32000){ vp::Rng& g=rng; switch(g.range(0,4)){ case 0: one<1,double>(g,"conv/",true); break; case 1: case 2: one<2,double>(g,"conv/",true); break; case 3: one<3,double>(g,"conv/",true); break; default: one<2,float>(g,"conv/float/",true); } }
