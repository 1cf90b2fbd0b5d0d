// C24: golden section, Brent and conjugate gradient, monitored through the evaluations they make.
#include "num.hpp"
#include <TooN/optimization/golden_section.h>
#include <TooN/optimization/brent.h>
#include <TooN/optimization/conjugate_gradient.h>
struct F1 { int kind; L m,s,off; 
	// unimodal kinds 0..8 have their minimum (or one of their minima) at m
	L val(L x)const{ L d=(x-m)*s; switch(kind){
		case 0: return d*d+off; case 1: return fabsl(d)+off; case 2: return powl(fabsl(d),1.5L)+off; case 3: return d*d*d*d+off;
		case 4: return coshl(std::max<L>(-300,std::min<L>(300,d)))-1+off; case 5: return expl(std::min<L>(d,300))-d-1+off;
		case 6: return d>0?d*d+off:-20*d+off; case 7: return std::max<L>(0,fabsl(d)-.3L)+off; case 8: return fabsl(d)>2?INFINITY:-sqrtl(4-d*d)+off;
		case 9: return floorl(fabsl(d)*4)+off;              // steps: ties
		case 10: return sinl(3*d)+.05L*d*d+off;              // several minima
		case 11: return off;                               // constant
		default: return fabsl(d)>1?INFINITY:d*d+off; } } };
struct Log1 { std::vector<std::pair<L,L>> e; };
template<class P> struct Rec { const F1* f; Log1* l; P operator()(P x)const{ P v=(P)f->val(x); l->e.push_back({(L)x,(L)v}); if(l->e.size()>200000) abort(); return v; } };
template<class P> void line(vp::Rng& g,const std::string& pre){
	const L eps=epsP<P>(); F1 f; f.kind=g.range(0,12); f.off=g.chance(.5)?0:g.range(-3,3); f.s=std::exp(g.unif(-3,3));
	f.m=(L)(P)(g.chance(.2)?0:g.normal()*std::pow(10.0,g.range(-3,3))); L w=std::exp(g.unif(-4,4))*(f.kind==5||f.kind==4?1:g.chance(.1)?100:1);
	// a < b < c with f(a) > f(b) < f(c); the middle point anywhere it is admissible
	P a=0,b=0,c=0; bool ok=false; for(int t=0;t<200&&!ok;t++){ a=(P)(f.m-w*g.unif(.05,1.0)); c=(P)(f.m+w*g.unif(.05,1.0)); L q=g.chance(.3)?g.unif()*.02:g.chance(.5)?g.unif():1-g.unif()*.02; b=(P)((L)a+((L)c-a)*q); if(g.chance(.15)) b=(P)f.m; if(t>100) b=(P)f.m; if(f.kind==9||f.kind==11||f.kind==10){ ok=a<b&&b<c; break; } ok=a<b&&b<c&&(P)f.val(a)>(P)f.val(b)&&(P)f.val(c)>(P)f.val(b); if(!ok) w*=1.3; }
	if(!ok||!(a<b&&b<c)||!std::isfinite((P)f.val(b))){ vp::trivial(); return; }
	if(f.val(a)==f.val(b)||f.val(b)==f.val(c)){}
	bool def=g.chance(.3); int maxit=g.chance(.4)?g.range(0,12):g.range(60,1500); P tol=g.chance(.3)?(P)std::exp(g.unif(-8,-1)):(P)sqrtl(eps), ep=g.chance(.5)?(P)eps:g.chance(.5)?(P)1e-20:(P)std::exp(g.unif(-12,-2)); if(def){ tol=(P)sqrtl(eps); ep=(P)eps; }
	vp::describe(vp::fmt("%s kind=%d m=%Lg s=%Lg off=%Lg bracket %Lg %Lg %Lg maxit=%d tol=%Lg eps=%Lg",pre.c_str(),f.kind,f.m,f.s,f.off,(L)a,(L)b,(L)c,maxit,(L)tol,(L)ep));
	Log1 l; Rec<P> r{&f,&l}; P fb=(P)f.val(b);
	int which=g.range(0,2); T::Vector<2,P> res; int allowed=maxit; std::string k;
	switch(which){
		case 0: res=def?T::brent_line_search(a,b,c,fb,r,maxit):T::brent_line_search(a,b,c,fb,r,maxit,tol,ep); k=pre+"brent_"; break;
		case 1: res=def?T::golden_section_search(a,b,c,fb,r,maxit):T::golden_section_search(a,b,c,fb,r,maxit,tol); allowed=std::max(1,maxit); k=pre+"golden_"; break;
		default: res=def?T::golden_section_search(a,b,c,r,maxit):T::golden_section_search(a,b,c,r,maxit,tol); allowed=std::max(1,maxit)+1; k=pre+"golden_"; break; }
	VP_CHECK((int)l.e.size()<=allowed,vp::key(k+"iteration_limit"),"%d evaluations with a limit of %d",(int)l.e.size(),maxit);
	bool in=true; L out=0; for(auto&e: l.e) if(!(e.first>=a&&e.first<=c)){ in=false; out=e.first; } VP_CHECK(in,vp::key(k+"inside_bracket"),"evaluated at %Lg outside [%Lg, %Lg]",out,(L)a,(L)c);
	bool seen=(L)res[0]==(L)b&&res[1]==fb; L best=fb; for(auto&e: l.e){ if(e.first==(L)res[0]&&e.second==(L)res[1]) seen=true; best=std::min(best,e.second); }
	VP_CHECK(seen,vp::key(k+"returns_evaluated_point"),"(%Lg, %Lg) was never evaluated",(L)res[0],(L)res[1]);
	VP_CHECK((L)res[1]<=best,vp::key(k+"returns_best_seen"),"returned %Lg, seen %Lg",(L)res[1],best);
	bool uni=f.kind<=8||f.kind==12;
	if(uni&&maxit>=400){
		L d=2*(2*fabsl(f.m)*tol+(which?0:ep))+4*eps*fabsl(f.m); L band=std::max(f.val(f.m+d),f.val(f.m-d))-f.val(f.m); const bool steep=!(band<1e25L);
		L noise=eps*(fabsl(f.off)+ (f.kind==5||f.kind==4?1:0)+(f.kind==8?2:0));   // cancellation noise of the function itself
		if(!steep) VP_CLOSE((L)res[1]-f.val(f.m),band+4000*noise+(sizeof(P)==4?1e-14L:1e-40L),vp::key(k+"converges"),"minimum %Lg at %Lg, returned %Lg at %Lg after %d evaluations",f.val(f.m),f.m,(L)res[1],(L)res[0],(int)l.e.size());
		if(which==0) VP_CHECK((int)l.e.size()<400,vp::key(k+"stops_by_tolerance"),"still running after %d evaluations",(int)l.e.size());
	}
	vp::sig(vp::mix(vp::hbytes(&a,1))^l.e.size());
}
VP_UNIT(line,12000,240000){ line<double>(rng,""); }
VP_UNIT(line_float,4500,80000){ line<float>(rng,"float/"); }
VP_UNIT(line_ld,1800,30000){ line<long double>(rng,"ld/"); }

// ------------------------------------------------------------------ conjugate gradient
struct Ev { V x; L v; };
struct FN { int kind,n; M A; V m,k; L off; mutable std::vector<Ev>* log; mutable long grads;
	L val(const V& x)const{ V d(n); L r=0; for(int i=0;i<n;i++){ d[i]=x[i]-m[i]; r+=d[i]*d[i]; } L s=0;
		switch(kind){
			case 0: for(int i=0;i<n;i++) for(int j=0;j<n;j++) s+=d[i]*A(i,j)*d[j]; return s/2+off;
			case 1: for(int i=0;i<n;i++) s+=k[i]*(sqrtl(1+d[i]*d[i])-1); return s+off;
			case 2: for(int i=0;i<n;i++) s+=coshl(std::max<L>(-200,std::min<L>(200,k[i]*d[i])))-1; return s+off;
			case 3: { L q=sqrtl(r)-1; return q>0?q*q+off:off; }                      // flat bottom
			case 4: for(int i=0;i<n;i++) if(d[i]>0) s+=k[i]*d[i]*d[i]; return s+off;       // flat to infinity on one side
			case 5: return r<4? -logl(4-r)+logl(4)+s+off:std::numeric_limits<L>::quiet_NaN(); // barrier, NaN outside
			case 6: return r<4? r+.3L*d[0]+off:std::numeric_limits<L>::quiet_NaN();         // domain edge
			case 7: return r<4? -logl(4-r)+off:(L)INFINITY;                                // infinite outside
			case 8: for(int i=0;i+1<n;i++) s+=100*powl(x[i+1]-x[i]*x[i],2)+powl(1-x[i],2); if(n==1) s=powl(1-x[0],2); return s;
			case 9: for(int i=0;i<n;i++) s+=1-cosl(d[i]); return s+.01L*r+off;              // many minima and maxima
			case 10: return off;
			case 11: for(int i=0;i<n;i++) s+=d[i]*d[i]*d[i]*d[i]; return s+off;
			default: return r/(1+r*r)+off;                                                // minimum at m, but downhill to infinity far away
		} }
	V grad(const V& x)const{ V d(n),gr(n); L r=0; for(int i=0;i<n;i++){ d[i]=x[i]-m[i]; r+=d[i]*d[i]; }
		switch(kind){
			case 0: for(int i=0;i<n;i++) for(int j=0;j<n;j++) gr[i]+=A(i,j)*d[j]; break;
			case 1: for(int i=0;i<n;i++) gr[i]=k[i]*d[i]/sqrtl(1+d[i]*d[i]); break;
			case 2: for(int i=0;i<n;i++) gr[i]=fabsl(k[i]*d[i])>200?0:k[i]*sinhl(k[i]*d[i]); break;
			case 3: { L q=sqrtl(r)-1; if(q>0) for(int i=0;i<n;i++) gr[i]=2*q*d[i]/sqrtl(r); } break;
			case 4: for(int i=0;i<n;i++) gr[i]=d[i]>0?2*k[i]*d[i]:0; break;
			case 5: case 7: for(int i=0;i<n;i++) gr[i]=2*d[i]/(4-r); break;
			case 6: for(int i=0;i<n;i++) gr[i]=2*d[i]+(i==0?.3L:0); break;
			case 8: for(int i=0;i+1<n;i++){ gr[i]+=-400*(x[i+1]-x[i]*x[i])*x[i]-2*(1-x[i]); gr[i+1]+=200*(x[i+1]-x[i]*x[i]); } if(n==1) gr[0]=-2*(1-x[0]); break;
			case 9: for(int i=0;i<n;i++) gr[i]=sinl(d[i])+.02L*d[i]; break;
			case 10: break;
			case 11: for(int i=0;i<n;i++) gr[i]=4*d[i]*d[i]*d[i]; break;
			default: for(int i=0;i<n;i++) gr[i]=2*d[i]*(1-r*r)/((1+r*r)*(1+r*r)); break;
		} return gr; } };
template<int N,class P> struct FF { const FN* f; template<class B> P operator()(const T::Vector<N,P,B>& x)const{ V v(f->n); for(int i=0;i<f->n;i++) v[i]=x[i]; P r=(P)f->val(v); f->log->push_back({v,(L)r}); if(f->log->size()>400000) abort(); return r; } };
template<int N,class P> struct GG { const FN* f; template<class B> T::Vector<N,P> operator()(const T::Vector<N,P,B>& x)const{ V v(f->n); for(int i=0;i<f->n;i++) v[i]=x[i]; V gr=f->grad(v); T::Vector<N,P> r(f->n); for(int i=0;i<f->n;i++) r[i]=(P)gr[i]; f->grads++; return r; } };
template<class A> V toVV(const A& a){ V v(a.size()); for(int i=0;i<a.size();i++) v[i]=a[i]; return v; }
template<int N,class P> void cg(vp::Rng& g,const std::string& pre){
	const L eps=epsP<P>(); FN f; f.n=N<0?(g.chance(.05)?g.range(7,30):g.range(1,6)):N; int n=f.n; f.kind=g.chance(.35)?0:g.range(0,12); f.off=g.chance(.5)?0:g.range(-4,4); f.m=V(n); f.k=V(n);
	for(auto&x: f.m) x=(L)(P)(g.chance(.2)?0:g.normal()*(g.chance(.2)?30:1)); for(auto&x: f.k) x=std::exp(g.unif(-1,1.5));
	V ev(n); for(auto&e: ev) e=std::exp(g.unif(0,std::log(100.0)))*(g.chance(.1)&&sizeof(P)>4?1e3:1); if(g.chance(.2)) for(auto&e: ev) e=ev[0]; M Q=randorth(g,n),D(n,n); for(int i=0;i<n;i++) D(i,i)=ev[i]; f.A=mul(mul(Q,D),tr(Q)); for(int i=0;i<n;i++) for(int j=0;j<i;j++) f.A(i,j)=f.A(j,i);
	V s(n); bool atmin=g.chance(.05); L far=f.kind==5||f.kind==6||f.kind==7?0:g.chance(.2)?20:3; if(f.kind==2) far=2;
	if(far>0) for(int i=0;i<n;i++) s[i]=(L)(P)(f.m[i]+(atmin?0:g.chance(.3)?g.range(-3,3):g.normal()*far)); else { V u(n); L q=0; for(auto&x: u){ x=g.normal(); q+=x*x; } q=sqrtl(q); L rad=g.chance(.3)?1.99:g.unif(0,1.9); for(int i=0;i<n;i++) s[i]=(L)(P)(f.m[i]+(atmin?0:rad*u[i]/q)); if(!(f.val(s)<INFINITY)) s=f.m; }
	if(f.kind==8) for(int i=0;i<n;i++) s[i]=(L)(P)g.normal();
	std::vector<Ev> log; f.log=&log; f.grads=0; FF<N,P> F{&f}; GG<N,P> G{&f};
	T::Vector<N,P> s0(n); for(int i=0;i<n;i++) s0[i]=(P)s[i];
	vp::describe(vp::fmt("%s N=%d f=%d off=%Lg m0=%Lg start0=%Lg",pre.c_str(),n,f.kind,f.off,f.m[0],s[0]));
	bool givegrad=g.chance(.3); T::Vector<N,P> g0=G(s0); f.grads=0;
	T::ConjugateGradient<N,P>* cp=givegrad?new T::ConjugateGradient<N,P>(s0,F,g0):new T::ConjugateGradient<N,P>(s0,F,G); auto& c=*cp;
	auto eq=[&](const V&a,const V&b){ return a==b; };
	VP_CHECK(eq(toVV(c.x),s)&&(L)c.y==(L)(P)f.val(s)&&c.old_y==c.y&&c.iterations==0&&c.size==n,vp::key(pre+"initial_state"),"x[0]=%Lg y=%Lg",(L)c.x[0],(L)c.y);
	VP_CHECK(eq(toVV(c.g),toVV(g0))&&eq(toVV(c.h),toVV(g0)),vp::key(pre+"initial_direction"),"g[0]=%Lg",(L)c.g[0]);
	VP_CHECK(c.max_iterations==100*n&&c.linesearch_max_iterations==100&&c.bracket_initial_lambda==1,vp::key(pre+"defaults"),"max %d",c.max_iterations);
	VP_CLOSE(fabsl(c.tolerance-sqrtl(eps))+fabsl(c.linesearch_tolerance-sqrtl(eps)),1e-3L*sqrtl(eps),vp::key(pre+"default_tolerances"),"tolerance %Lg",(L)c.tolerance);
	bool tuned=g.chance(.3); if(tuned){ c.bracket_initial_lambda=(P)std::exp(g.unif(-5,3)); if(g.chance(.4)) c.linesearch_max_iterations=g.range(1,30); if(g.chance(.4)) c.tolerance=(P)std::exp(g.unif(-14,-4)); if(g.chance(.3)) c.max_iterations=g.range(0,8); }
	L y0=c.y; bool go=true; int it=0; uint64_t h=f.kind;
	while(go&&it<150*n+20){
		V x=toVV(c.x),hh=toVV(c.h),gg=toVV(c.g); L y=c.y; log.clear(); long gr=f.grads; vp::note("iterating");
		bool split=g.chance(.15); // the documented pieces of iterate
		if(split){ c.find_next_point(F); go=!c.finished(); if(go) c.update_vectors_PR(G(c.x)); } else go=c.iterate(F,G);
		it++; V nx=toVV(c.x); L ny=c.y;
		L xs=0,gs=0,hs=0; for(int i=0;i<n;i++){ xs=std::max({xs,fabsl(x[i]),fabsl(nx[i])}); hs=std::max(hs,fabsl(hh[i])); }
		VP_CHECK(ny<=y,vp::key(pre+"objective_never_increases"),"iteration %d: %Lg -> %Lg",it,y,ny);
		VP_CHECK(eq(toVV(c.old_x),x)&&(L)c.old_y==y&&c.iterations==it,vp::key(pre+"previous_state_kept"),"iteration %d: old_y %Lg, was %Lg, iterations %d",it,(L)c.old_y,y,c.iterations);
		// best of everything it looked at
		L best=y; const Ev* be=0; for(auto&e: log) if(e.v<best){ best=e.v; be=&e; }
		VP_CHECK(ny<=best,vp::key(pre+"best_point_seen_is_kept"),"iteration %d: value %Lg, but %Lg was evaluated",it,ny,best);
		// position and value belong together: the position is where the value was evaluated
		{ bool ok=(ny==y&&eq(nx,x)); L dm=INFINITY; for(auto&e: log) if(e.v==ny){ L d=0; for(int i=0;i<n;i++) d=std::max(d,fabsl(e.x[i]-nx[i])); dm=std::min(dm,d); } if(dm<=8*eps*xs+1e-300L) ok=true;
			VP_CHECK(ok,vp::key(pre+"position_and_value_consistent"),"iteration %d: y=%Lg, function there %Lg",it,ny,f.val(nx)); }
		// evaluations and the step lie on the search line, downhill side
		{ int j=0; for(int i=0;i<n;i++) if(fabsl(hh[i])>fabsl(hh[j])) j=i; bool on=true; if(hs>0) for(auto&e: log){ L t=(x[j]-e.x[j])/hh[j]; if(!(t>=-16*eps*xs/hs)) on=false; for(int i=0;i<n;i++){ L p=x[i]-t*hh[i]; if(!(fabsl(p-e.x[i])<=64*eps*(xs+fabsl(e.x[i])+fabsl(e.x[j])+fabsl(t)*hs))) on=false; } }
			VP_CHECK(on,vp::key(pre+"searches_along_direction"),"iteration %d left the line",it); }
		// termination and gradient update
		L lhs=2*fabsl(ny-y),rhs=c.tolerance*(fabsl(ny)+fabsl(y)+c.epsilon); bool amb=fabsl(lhs-rhs)<=1e-3L*rhs+ (sizeof(P)==4?1e-37L:0); bool fin=c.iterations>c.max_iterations||lhs<=rhs;
		if(!amb||c.iterations>c.max_iterations||lhs==0) VP_CHECK(go==!fin,vp::key(pre+"stops_exactly_at_criterion"),"iteration %d: y %Lg -> %Lg, continues %d",it,y,ny,(int)go);
		if(go){
			V ng=f.grad(nx); bool ok=true; for(int i=0;i<n;i++) if((L)c.g[i]!=(L)(P)ng[i]) ok=false; VP_CHECK(ok,vp::key(pre+"gradient_at_position"),"iteration %d g[0]=%Lg expected %Lg",it,(L)c.g[0],ng[0]);
			L gn=0,go_=0,oo=0,ab=0; for(int i=0;i<n;i++){ gn+=(L)c.g[i]*c.g[i]; go_+=gg[i]*c.g[i]; oo+=gg[i]*gg[i]; } if(oo>(sizeof(P)==4?1e-30L:1e-250L)&&gn<(sizeof(P)==4?1e30L:1e250L)){
				L ga=(gn-go_)/oo; L e=0,mag=0; L gh=0; for(int i=0;i<n;i++){ e=std::max(e,fabsl((L)c.h[i]-((L)c.g[i]+ga*hh[i]))); mag=std::max(mag,fabsl((L)c.g[i])); gh=std::max(gh,fabsl(hh[i])); }
				VP_CLOSE(e,30*(n+2)*eps*(mag+gh*(gn+sqrtl(gn*oo))/oo),vp::key(pre+"polak_ribiere"),"iteration %d",it);
				bool neg=true; for(int i=0;i<n;i++) if((L)c.minus_h[i]!=-(L)c.h[i]) neg=false; VP_CHECK(neg&&eq(toVV(c.old_g),gg)&&eq(toVV(c.old_h),hh),vp::key(pre+"vectors_kept"),"iteration %d",it); }
			VP_CHECK(f.grads==gr+1,vp::key(pre+"one_gradient"),"%ld gradient evaluations",f.grads-gr);
		}
		h=vp::mix(h*31+log.size());
	}
	VP_CHECK(!go,vp::key(pre+"terminates"),"still running after %d iterations",it);
	if(!tuned){
		bool convex=f.kind<=4||f.kind==11||f.kind==5||f.kind==7; L fmin=f.off;
		if(f.kind==5||f.kind==7) fmin=f.val(f.m);
		if(convex) VP_CLOSE((L)c.y-fmin,2e-3L*(y0-fmin)+(sizeof(P)==4?1e-1L:1e-5L)*fabsl(fmin)+100*eps*(1+fabsl(f.off)),vp::key(pre+"converges"),"f=%d start %Lg end %Lg minimum %Lg in %d iterations",f.kind,y0,(L)c.y,fmin,it);
	}
	// starting again from anywhere forgets everything about the earlier run
	if(g.chance(.4)){ T::Vector<N,P> s1(n); for(int i=0;i<n;i++) s1[i]=s0[i]; P y1=F(s1); auto g1=G(s1); c.init(s1,y1,g1); T::ConjugateGradient<N,P> d(s1,F,g1); bool same=true; vp::note("started again");
		auto all=[&]{ return toVV(c.x)==toVV(d.x)&&toVV(c.g)==toVV(d.g)&&toVV(c.h)==toVV(d.h)&&toVV(c.minus_h)==toVV(d.minus_h)&&c.y==d.y&&c.old_y==d.old_y&&c.iterations==d.iterations&&c.max_iterations==d.max_iterations&&c.tolerance==d.tolerance&&c.linesearch_tolerance==d.linesearch_tolerance&&c.linesearch_max_iterations==d.linesearch_max_iterations&&c.bracket_initial_lambda==d.bracket_initial_lambda; };
		same=all(); for(int k=0;k<20&&same;k++){ log.clear(); bool a=c.iterate(F,G); log.clear(); bool b=d.iterate(F,G); same=a==b&&all(); if(!a) break; }
		VP_CHECK(same,vp::key(pre+"init_starts_afresh"),"after init: %d iterations, a new object %d",c.iterations,d.iterations); }
	vp::sig(h^vp::hbytes(&s[0],1)); delete cp;
}
VP_UNIT(cg1,1200,16000){ cg<1,double>(rng,"cg/"); }
VP_UNIT(cg2,2100,28000){ cg<2,double>(rng,"cg/"); }
VP_UNIT(cg4,1500,20000){ cg<4,double>(rng,"cg/"); }
VP_UNIT(cgdyn,2100,28000){ cg<Dyn,double>(rng,"cgdyn/"); }
VP_UNIT(cgfloat,1500,16000){ if(rng.chance(.5)) cg<2,float>(rng,"cgfloat/"); else cg<Dyn,float>(rng,"cgfloat/"); }
