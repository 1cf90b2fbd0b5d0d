// C25: numerical gradients and Hessians against analytic ones, every evaluation point recorded.
#include "num.hpp"
#include <TooN/functions/derivatives.h>
struct Term { int kind; L w,b; V a; };
struct Ridge { int n; std::vector<Term> t; mutable std::vector<V>* log;
	static void phi(int k,L u,L& f,L& d,L& dd){ switch(k){
		case 0: f=sinl(u); d=cosl(u); dd=-f; break; case 1: f=d=dd=expl(u); break; case 2: f=u*u; d=2*u; dd=2; break; case 3: f=u*u*u; d=3*u*u; dd=6*u; break;
		case 4: f=atanl(u); d=1/(1+u*u); dd=-2*u*d*d; break; case 5: f=1/(1+u*u); d=-2*u*f*f; dd=(6*u*u-2)*f*f*f; break;
		case 6: f=sqrtl(1+u*u); d=u/f; dd=1/(f*f*f); break; case 7: f=u; d=1; dd=0; break; case 8: f=logl(2+u*u); d=2*u/(2+u*u); dd=2*(2-u*u)/((2+u*u)*(2+u*u)); break; default: f=u*u*u*u; d=4*u*u*u; dd=12*u*u; } }
	L arg(const Term&k,const V&x)const{ L u=k.b; for(int i=0;i<n;i++) u+=k.a[i]*x[i]; return u; }
	L val(const V&x,L* mag=0)const{ L s=0; if(mag) *mag=0; for(auto&k: t){ L f,d,dd; phi(k.kind,arg(k,x),f,d,dd); s+=k.w*f; if(mag) *mag+=fabsl(k.w*f); } return s; }
	template<int N,class P,class B> P operator()(const T::Vector<N,P,B>&x)const{ V v(n); for(int i=0;i<n;i++) v[i]=x[i]; if(log) log->push_back(v); return (P)val(v); } };
template<class X,class P> void run(vp::Rng& g,const X& x,Ridge& f,const V& xv,const std::string& pre){
	int n=f.n; const L eps=epsP<P>(); L mag,fx=f.val(xv,&mag); V gr(n),gm(n); M H(n,n),Hm(n,n);
	for(auto&k: f.t){ L u=f.arg(k,xv),a,d,dd; Ridge::phi(k.kind,u,a,d,dd); for(int i=0;i<n;i++){ gr[i]+=k.w*d*k.a[i]; gm[i]+=fabsl(k.w*d*k.a[i]); for(int j=0;j<n;j++){ H(i,j)+=k.w*dd*k.a[i]*k.a[j]; Hm(i,j)+=fabsl(k.w*k.a[i]*k.a[j])*(fabsl(dd)+(k.kind==2||k.kind==7?0:1)); } } }
	// magnitudes over the whole neighbourhood the differences are taken in
	for(int q=0;q<n;q++) for(int s=-1;s<=1;s+=2) for(int q2=0;q2<n;q2++){ V y=xv; y[q]+=s*1e-3L*std::max<L>(1,fabsl(y[q])); if(q2!=q) y[q2]+=1e-3L*std::max<L>(1,fabsl(y[q2])); L m2; f.val(y,&m2); mag=std::max(mag,m2); V g2(n);
		for(auto&k: f.t){ L u=f.arg(k,y),a,d,dd; Ridge::phi(k.kind,u,a,d,dd); for(int i=0;i<n;i++) g2[i]+=fabsl(k.w*d*k.a[i]); } for(int i=0;i<n;i++) gm[i]=std::max(gm[i],g2[i]); }
	std::vector<V> log; f.log=&log;
	auto points=[&](int maxc,const char* key){ bool ok=true; int worst=0; for(auto&p: log){ int c=0; for(int i=0;i<n;i++) if(p[i]!=xv[i]){ c++; if(!(fabsl(p[i]-xv[i])<=1.001e-3L*std::max<L>(1,fabsl(xv[i]))+2*eps*fabsl(xv[i]))) ok=false; } worst=std::max(worst,c); if(c>maxc) ok=false; }
		VP_CHECK(ok,vp::key(pre+key),"evaluated with %d coordinates displaced",worst); };
	auto gt=[&](int i){ L h=1e-3L*std::max<L>(1,fabsl(xv[i])); return (sizeof(P)==4?3e-3L:1e-8L)*gm[i]+(sizeof(P)==4?300:2500)*eps*(mag+gm[i]*fabsl(xv[i]))/h; };
	auto ht=[&](int i,int j){ L hi=1e-3L*std::max<L>(1,fabsl(xv[i])),hj=1e-3L*std::max<L>(1,fabsl(xv[j])),h=std::min(hi,hj); return 1e-5L*Hm(i,j)+2000*eps*(mag+gm[i]*fabsl(xv[i])+gm[j]*fabsl(xv[j]))/(h*h); };
	{ log.clear(); auto r=T::numerical_gradient(f,x); VP_CHECK(r.size()==n,vp::key(pre+"gradient_shape"),"%d",r.size()); points(1,"gradient_points");
	  for(int i=0;i<n;i++) VP_CLOSE(fabsl((L)r[i]-gr[i]),gt(i),vp::key(pre+"gradient"),"component %d: %Lg, exactly %Lg",i,(L)r[i],gr[i]);
	  bool moved=true; for(int i=0;i<n;i++){ bool p=false,m=false; for(auto&q: log){ p|=q[i]>xv[i]; m|=q[i]<xv[i]; } moved&=p&&m; } VP_CHECK(moved,vp::key(pre+"both_sides_of_every_axis")," "); }
	{ int cov=0; log.clear(); auto r=T::numerical_gradient_with_errors(f,x); VP_CHECK(r.num_rows()==n&&r.num_cols()==2,vp::key(pre+"gradient_errors_shape"),"%dx%d",r.num_rows(),r.num_cols()); points(1,"gradient_points");
	  for(int i=0;i<n;i++){ L e=fabsl((L)r(i,0)-gr[i]); cov+=e<=30*(L)r(i,1)+gt(i)*2e-3L; VP_CLOSE(e,gt(i),vp::key(pre+"gradient_with_errors"),"component %d: %Lg, exactly %Lg",i,(L)r(i,0),gr[i]);
		VP_CLOSE(e,1000*(L)r(i,1)+gt(i)*0.6L,vp::key(pre+"gradient_error_covers"),"component %d: reported error %Lg, true %Lg",i,(L)r(i,1),e); VP_CHECK((L)r(i,1)>=0&&(L)r(i,1)<=10*gt(i),vp::key(pre+"gradient_error_scale"),"component %d: reported error %Lg, bound %Lg",i,(L)r(i,1),gt(i)); }
	  if(n>=3&&sizeof(P)>4) VP_CHECK(4*cov>=n,vp::key(pre+"gradient_errors_mostly_cover"),"only %d of %d true errors are within 30 times the reported ones",cov,n); }
	if(sizeof(P)>4){
		log.clear(); auto r=T::numerical_hessian(f,x); points(2,"hessian_points"); VP_CHECK(r.num_rows()==n&&r.num_cols()==n,vp::key(pre+"hessian_shape"),"%dx%d",r.num_rows(),r.num_cols());
		bool sy=true; for(int i=0;i<n;i++) for(int j=0;j<n;j++){ sy&=r(i,j)==r(j,i); VP_CLOSE(fabsl((L)r(i,j)-H(i,j)),ht(i,j),vp::key(pre+(i==j?"hessian_diagonal":"hessian_mixed")),"(%d,%d): %Lg, exactly %Lg",i,j,(L)r(i,j),H(i,j)); }
		VP_CHECK(sy,vp::key(pre+"hessian_symmetric")," ");
		int cov=0; log.clear(); auto e=T::numerical_hessian_with_errors(f,x); points(2,"hessian_points"); sy=true;
		VP_CHECK(e.first.num_rows()==n&&e.first.num_cols()==n&&e.second.num_rows()==n&&e.second.num_cols()==n,vp::key(pre+"hessian_errors_shape")," ");
		for(int i=0;i<n;i++) for(int j=0;j<n;j++){ sy&=e.first(i,j)==e.first(j,i)&&e.second(i,j)==e.second(j,i); L d=fabsl((L)e.first(i,j)-H(i,j)),q=(L)e.second(i,j); cov+=d<=30*q+ht(i,j)*2e-3L; VP_CLOSE(d,ht(i,j),vp::key(pre+"hessian_with_errors"),"(%d,%d): %Lg, exactly %Lg",i,j,(L)e.first(i,j),H(i,j));
			VP_CLOSE(d,1000*q+ht(i,j)*0.6L,vp::key(pre+"hessian_error_covers"),"(%d,%d) reported %Lg true %Lg",i,j,q,d); VP_CHECK(q>=0&&q<=10*ht(i,j),vp::key(pre+"hessian_error_scale"),"(%d,%d) reported %Lg bound %Lg",i,j,q,ht(i,j)); }
		if(n>=2) VP_CHECK(4*cov>=n*n,vp::key(pre+"hessian_errors_mostly_cover"),"only %d of %d true errors are within 30 times the reported ones",cov,n*n);
		VP_CHECK(sy,vp::key(pre+"hessian_symmetric")," ");
	}
	VP_CHECK([&]{ for(int i=0;i<n;i++) if((L)x[i]!=xv[i]) return false; return true; }(),vp::key(pre+"argument_unchanged")," ");
}
template<int N,class P> void one(vp::Rng& g,const std::string& pre){
	int n=N<0?(g.chance(.05)?g.range(7,25):g.range(1,6)):N; Ridge f; f.n=n; f.log=0; V x(n); for(auto&v: x) v=(L)(P)(g.chance(.15)?0:g.chance(.2)?g.normal()*100:g.chance(.1)?g.normal()*1e4:g.chance(.1)?g.normal()*1e-4:g.normal());
	int m=g.range(1,4); std::string ds; for(int k=0;k<m;k++){ Term t; t.kind=g.range(0,9); t.w=g.normal(); t.b=g.normal(); t.a=V(n); for(int i=0;i<n;i++) t.a[i]=g.chance(.2)?0:g.normal()/std::max<L>(1,fabsl(x[i])); ds+=std::to_string(t.kind); f.t.push_back(t); }
	for(auto&t: f.t){ L u=f.arg(t,x); if(fabsl(u)>3) t.b-=u-g.unif(-3,3); }
	vp::describe(vp::fmt("%s N=%d terms %s x0=%Lg",pre.c_str(),n,ds.c_str(),x[0]));
	T::Vector<N,P> v(n); for(int i=0;i<n;i++) v[i]=(P)x[i];
	switch(g.range(0,3)){
		case 0: { T::Matrix<Dyn,Dyn,P> A(n,3); A=T::Zeros; A.T()[1]=v; run<decltype(A.T()[1]),P>(g,A.T()[1],f,x,pre); break; }   // a column of a matrix
		default: { const T::Vector<N,P>& c=v; run<T::Vector<N,P>,P>(g,c,f,x,pre); } }
	vp::sig(vp::hbytes(&x[0],1)^f.t[0].kind);
}
VP_UNIT(s2,300,6000){ one<2,double>(rng,""); }
VP_UNIT(s3,300,6000){ one<3,double>(rng,""); }
VP_UNIT(s1,150,3000){ one<1,double>(rng,""); }
VP_UNIT(dyn,300,6000){ one<Dyn,double>(rng,"dyn/"); }
VP_UNIT(flt,200,4000){ if(rng.chance(.5)) one<3,float>(rng,"float/"); else one<Dyn,float>(rng,"float/"); }
// Functions which are only defined on one side of a boundary closer than the first steps: those evaluations are NaN or infinite and must be passed over.
struct Edge { int n; std::vector<int> kind,side; std::vector<double> c,w; mutable long evals=0,undefined=0;
	static void phi(int k,L u,L& f,L& d,L& dd){ if(k==0){ f=logl(u); d=1/u; dd=-1/(u*u); } else if(k==1){ f=sqrtl(u); d=1/(2*f); dd=-d/(2*u); } else if(k==2){ f=1/u; d=-f*f; dd=2*f*f*f; } else { f=u*logl(u); d=logl(u)+1; dd=1/u; } }
	template<int N,class B> double operator()(const T::Vector<N,double,B>& v) const { double s=0; evals++; for(int i=0;i<n;i++){ const double u=side[i]*(v[i]-c[i]); if(u<=0&&kind[i]!=0) { undefined++; return std::numeric_limits<double>::quiet_NaN(); } double t=kind[i]==0?std::log(u):kind[i]==1?std::sqrt(u):kind[i]==2?1/u:u*std::log(u); if(u<=0) undefined++; s+=w[i]*t; } return s; } };
template<int N> void edge(vp::Rng& g,const std::string& pre){
	const int n=N<0?g.range(1,5):N; Edge f; f.n=n; T::Vector<N> x(n); std::string ds;
	for(int i=0;i<n;i++){ f.kind.push_back(g.range(0,3)); f.side.push_back(g.range(0,1)?1:-1); f.w.push_back((g.range(0,1)?1:-1)*g.unif(.2,2)); x[i]=g.chance(.25)?0:g.normal()*(g.chance(.3)?30:1); const double h=1e-3*std::max(std::fabs(x[i]),1.0); f.c.push_back(x[i]-f.side[i]*h*std::pow(10.,g.unif(-1.5,-.02))); ds+=vp::fmt(" kind %d at %g, boundary %g;",f.kind[i],(double)x[i],f.c[i]); vp::sig(vp::hbytes(&f.c[i],1)); }
	vp::describe(ds); V gr(n),dd(n),u(n); L mag=0; for(int i=0;i<n;i++){ L a; u[i]=f.side[i]*((L)x[i]-f.c[i]); Edge::phi(f.kind[i],u[i],a,gr[i],dd[i]); mag+=fabsl(f.w[i]*a); gr[i]*=f.w[i]*f.side[i]; dd[i]*=f.w[i]; }
	const L eps=epsP<double>(); auto scale=[&](int i){ const L k=f.kind[i]==0?1/u[i]:f.kind[i]==1?1/(2*sqrtl(u[i])):f.kind[i]==2?1/(u[i]*u[i]):1; return std::max(fabsl(gr[i]),fabsl((L)f.w[i])*k); };
	L wx=0; for(int i=0;i<n;i++) wx=std::max(wx,fabsl(gr[i]*(L)x[i])); auto gt=[&](int i){ return 5e-2L*scale(i)+1e5L*eps*(mag+wx)/u[i]; };
	auto r=T::numerical_gradient(f,x); auto e=T::numerical_gradient_with_errors(f,x); for(int i=0;i<n;i++){ VP_CLOSE(fabsl((L)r[i]-gr[i]),gt(i),vp::key(pre+"gradient"),"component %d: %Lg, exactly %Lg",i,(L)r[i],gr[i]); VP_CLOSE(fabsl((L)e(i,0)-gr[i]),gt(i),vp::key(pre+"gradient_with_errors"),"component %d: %Lg, exactly %Lg",i,(L)e(i,0),gr[i]); }
	if(n==1){ auto h=T::numerical_hessian(f,x); VP_CLOSE(fabsl((L)h(0,0)-dd[0]),1e-1L*fabsl(dd[0])+1e5L*eps*(mag+wx)/(u[0]*u[0]),vp::key(pre+"curvature"),"%Lg, exactly %Lg",(L)h(0,0),dd[0]); }
	VP_CHECK(f.undefined>0,vp::key(pre+"boundary_reached"),"no evaluation beyond the boundary in %ld",f.evals); }
VP_UNIT(boundary,800,16000){ if(rng.range(0,1)) edge<1>(rng,"boundary/static_"); else edge<Dyn>(rng,"boundary/dynamic_"); edge<3>(rng,"boundary/static_"); }
