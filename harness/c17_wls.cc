// C17: weighted least squares accumulators against a model of the normal equations.
#include "num.hpp"
#include <TooN/wls.h>
#include <TooN/SVD.h>
#include <TooN/SymEigen.h>
#define K(s) vp::key(pre+s)
template<int S,class P> using Chol=T::Cholesky<S,P>;
struct Model { M C,W; V v,wv; int ops=0; Model(int n=0):C(n,n),W(n,n),v(n),wv(n){}
	void blk(const M&J,const V&m,const M&ic,int off,int n,const M*Jabs=nullptr){ (void)n; const M&Q=Jabs?*Jabs:J; // J: N x k at column offset off
		for(int a=0;a<J.c;a++) for(int i=0;i<J.r;i++) for(int j=0;j<J.r;j++){
			L t=J(i,a)*ic(i,j); v[off+a]+=t*m[j]; L u=fabsl(Q(i,a)*ic(i,j)); wv[off+a]+=fabsl(u*m[j]);
			for(int b=0;b<J.c;b++){ C(off+a,off+b)+=t*J(j,b); W(off+a,off+b)+=fabsl(u*Q(j,b)); } } ops++; }
	void merge(const Model&o){ C=add(C,o.C); W=add(W,o.W); v=add(v,o.v); wv=add(wv,o.wv); ops+=o.ops; }
	void clear(){ int n=C.r; *this=Model(n); } };
template<class P> M spd(vp::Rng&g,int n){ M a=randn(g,n,n); M o=mul(a,tr(a)); for(int i=0;i<n;i++) o(i,i)+=.5L; if(g.chance(.3)){ o=M(n,n); for(int i=0;i<n;i++) o(i,i)=g.unif(.1,4); } roundto<P>(o); for(int i=0;i<n;i++) for(int j=0;j<i;j++) o(i,j)=o(j,i); return o; }
template<class P> V rv(vp::Rng&g,int n){ V v(n); for(auto&x:v) x=g.range(0,4)?g.normal():g.range(-2,2); roundto<P>(v); return v; }
template<class P> M rm(vp::Rng&g,int r,int c){ M v(r,c); for(auto&x:v.d) x=g.range(0,4)?g.normal():g.range(-2,2); roundto<P>(v); return v; }

template<int S,class P,template<int,class> class D> struct Sys {
	T::WLS<S,P,D> w; Model m; bool computed=false; M Cat; V vat; int n;
	Sys(int n_):w(n_),m(n_),n(n_){}
	L tolf(){ return (8+4*n+2*m.ops)*epsP<P>(); }
	void check(const std::string&pre){
		L e=tolf(); auto&C=w.get_C_inv(); auto&v=w.get_vector();
		VP_CHECK(C.num_rows()==n&&C.num_cols()==n&&v.size()==n,K("sizes"),"size");
		L worst=0; bool exact=true; for(int i=0;i<n;i++) for(int j=i;j<n;j++){ L d=bad((L)C(i,j)-m.C(i,j)),t=e*m.W(i,j); if(t==0) exact=exact&&d==0; else worst=std::max(worst,d/t); }
		VP_CHECK(exact,K("information_zero"),"an element of the information matrix nothing contributed to is not zero");
		VP_CLOSE(worst,1,K("information"),"n=%d ops=%d",n,m.ops);
		worst=0; exact=true; for(int i=0;i<n;i++){ L d=bad((L)v[i]-m.v[i]),t=e*m.wv[i]; if(t==0) exact=exact&&d==0; else worst=std::max(worst,d/t); }
		VP_CHECK(exact,K("vector_zero"),"an element of the vector nothing contributed to is not zero"); VP_CLOSE(worst,1,K("vector"),"n=%d ops=%d",n,m.ops);
	}
	void compute(const std::string&pre){
		M C=m.C; V s=svals(C); L lim=std::is_same<P,float>::value?2e3L:1e7L; if(!(s[n-1]*lim>s[0])) return;
		w.compute(); check(pre);
		auto&Ci=w.get_C_inv(); bool sym=true; for(int i=0;i<n;i++) for(int j=0;j<i;j++) sym=sym&&Ci(i,j)==Ci(j,i); VP_CHECK(sym,K("symmetric_after_compute"),"information matrix not symmetric after compute");
		const T::WLS<S,P,D>&cw=w; V mu=fromV(cw.get_mu()); M A=fromM(cw.get_C_inv()); V b=fromV(cw.get_vector());
		VP_CLOSE(solveres(A,colM(mu),colM(b)),200*(n+2)*epsP<P>()*(is_chol?1:s[0]/s[n-1]),K("normal_equations"),"C=%s mu=%s b=%s",show(A).c_str(),show(mu).c_str(),show(b).c_str());
		// and the estimate itself, from the model
		bool ok; M x=solve(m.C,colM(m.v),&ok); L cond=s[0]/s[n-1]; L cw2=0; for(L q:m.W.d) cw2=std::max(cw2,q); L vw=0; for(L q:m.wv) vw=std::max(vw,q); L xn=maxabs(x);
		VP_CLOSE(maxbad(sub(mu,vecM(x))),200*(n+2)*tolf()*cond*(xn*(1+cw2/s[0])+vw/s[0])+1e-290L,K("estimate"),"n=%d cond=%Lg",n,cond);
		T::Vector<S,P> bb(n); V r=rv<P>(*g_,n); toV(bb,r); V y=fromV(w.get_decomposition().backsub(bb)); VP_CLOSE(solveres(A,colM(y),colM(r)),200*(n+2)*epsP<P>()*(is_chol?1:cond),K("decomposition"),"decomposition does not belong to the information matrix");
	}
	vp::Rng*g_=nullptr; static const bool is_chol=std::is_same<D<S,P>,T::Cholesky<S,P>>::value;
};
template<int N,int S,class P,template<int,class> class D> void op_block(vp::Rng&g,Sys<S,P,D>&s,int k,const std::string&pre){
	int n=s.n; V m=rv<P>(g,k); M ic=spd<P>(g,k); T::Vector<N,P> tm(k); toV(tm,m); T::Matrix<N,N,P> ti(k,k); put(ti,ic);
	auto narrow=[](M& a){ for(auto& x: a.d) x=(L)(float)x; };
	switch(g.range(0,7)){
		case 0: { M J=rm<P>(g,n,k); T::Matrix<S,N,P> tj(n,k); put(tj,J); s.w.add_mJ(tm,tj,ti); s.m.blk(tr(J),m,ic,0,n); VP_CHECK(same(tj,J)&&samev(tm,m)&&same(ti,ic),K("operands_unchanged"),"operand modified"); break; }
		case 1: { M J=rm<P>(g,k,n); T::Matrix<N,S,P> tj(k,n); put(tj,J); s.w.add_mJ_rows(tm,tj,ti); s.m.blk(J,m,ic,0,n); break; }
		case 2: { M J=rm<P>(g,k,n); T::Matrix<N,S,P> tj(k,n); put(tj,J); P wt=g.chance(.3)?(P)1:(P)g.unif(.01,5); if(wt==1&&g.chance(.5)) s.w.add_mJ(tm,tj); else s.w.add_mJ(tm,tj,wt);
			M d(k,k); for(int i=0;i<k;i++) d(i,i)=wt; s.m.blk(J,m,d,0,n); s.m.ops+=k; break; }
		case 3: { int q=g.range(1,n), i1=g.range(0,n-q); M J=rm<P>(g,k,q); T::Matrix<N,Dyn,P> tj(k,q); put(tj,J); s.w.add_sparse_mJ_rows(tm,tj,i1,ti); s.m.blk(J,m,ic,i1,n); break; }
		case 4: { // two blocks; they may share parameters, whose columns then add up
			const bool share=g.chance(.3); if(n<2&&!share) break; int q1=g.range(1,share?n:n-1),q2=g.range(1,share?n:n-q1),a=g.range(0,share?n-q1:n-q1-q2),b=share?(g.chance(.3)?std::min(a,n-q2):g.range(0,n-q2)):g.range(a+q1,n-q2);
			M J1=rm<P>(g,k,q1),J2=rm<P>(g,k,q2); T::Matrix<N,Dyn,P> t1(k,q1),t2(k,q2); put(t1,J1); put(t2,J2);
			if(g.chance(.5)) s.w.add_sparse_mJ_rows(tm,t1,a,t2,b,ti); else s.w.add_sparse_mJ_rows(tm,t2,b,t1,a,ti);
			M J(k,n),Q(k,n); for(int i=0;i<k;i++){ for(int j=0;j<q1;j++){ J(i,a+j)+=J1(i,j); Q(i,a+j)+=fabsl(J1(i,j)); } for(int j=0;j<q2;j++){ J(i,b+j)+=J2(i,j); Q(i,b+j)+=fabsl(J2(i,j)); } } s.m.blk(J,m,ic,0,n,&Q); s.m.ops+=4; break; }
		case 5: { M J=rm<P>(g,k,n); T::Matrix<N,S,P,T::ColMajor> tj(k,n); put(tj,J); s.w.add_mJ_rows(tm,tj,ti); s.m.blk(J,m,ic,0,n); break; }
		// one of the arguments has a narrower element type than the system
		case 6: { int q=g.range(1,n), i1=g.range(0,n-q); M J=rm<P>(g,k,q); narrow(J); T::Matrix<N,Dyn,float> tj(k,q); put(tj,J); s.w.add_sparse_mJ_rows(tm,tj,i1,ti); s.m.blk(J,m,ic,i1,n); break; }
		case 7: { int q=g.range(1,n), i1=g.range(0,n-q); M J=rm<P>(g,k,q); T::Matrix<N,Dyn,P> tj(k,q); put(tj,J); const bool which=g.range(0,1); if(which){ for(auto& x: m) x=(L)(float)x; T::Vector<N,float> fm(k); toV(fm,m); s.w.add_sparse_mJ_rows(fm,tj,i1,ti); } else { narrow(ic); T::Matrix<N,N,float> fi(k,k); put(fi,ic); s.w.add_sparse_mJ_rows(tm,tj,i1,fi); } s.m.blk(J,m,ic,i1,n); break; }
	}
}
template<int S,class P,template<int,class> class D> void history(vp::Rng&g,int n,const std::string&pre){
	int acc=g.range(1,3); std::vector<Sys<S,P,D>*> A; for(int i=0;i<acc;i++){ A.push_back(new Sys<S,P,D>(n)); A[i]->g_=&g; }
	int steps=g.range(3,vp::st().thorough?60:25); std::string tr_; uint64_t h=n;
	for(auto*s:A) s->check(pre+"initial_");
	for(int t=0;t<steps;t++){
		int q=g.range(0,11),i=g.range(0,acc-1); Sys<S,P,D>&s=*A[i]; tr_+=(char)('a'+q); h=h*31+q*7+i; vp::note(tr_.c_str());
		switch(q){
			case 0: { P v=g.unif(0.01,3); s.w.add_prior(v); for(int k=0;k<n;k++){ s.m.C(k,k)+=v; s.m.W(k,k)+=v; } s.m.ops++; break; }
			case 1: { V v=rv<P>(g,n); for(auto&x:v) x=fabsl(x); T::Vector<S,P> tv(n); toV(tv,v); s.w.add_prior(tv); for(int k=0;k<n;k++){ s.m.C(k,k)+=v[k]; s.m.W(k,k)+=v[k]; } s.m.ops++; break; }
			case 2: { M m=spd<P>(g,n); T::Matrix<S,S,P> tm(n,n); put(tm,m); s.w.add_prior(tm); for(int k=0;k<n*n;k++){ s.m.C.d[k]+=m.d[k]; s.m.W.d[k]+=fabsl(m.d[k]); } s.m.ops++; break; }
			case 3: case 4: { V J=rv<P>(g,n); P m=(P)g.normal(),wt=g.chance(.3)?(P)1:(P)g.unif(.01,5); M d(1,1); d(0,0)=wt; M Jm(1,n); Jm.d.assign(J.begin(),J.end());
				int how=g.range(0,3); if(how==0){ T::Vector<S,P> j(n); toV(j,J); if(wt==1) s.w.add_mJ(m,j); else s.w.add_mJ(m,j,wt); }
				else if(how==1){ T::Matrix<Dyn,Dyn,P> big(n+1,n+2); for(int a=0;a<=n;a++) for(int b=0;b<n+2;b++) big(a,b)=9; auto c=big.T()[1].template slice<0,S>(0,n); toV(c,J); s.w.add_mJ(m,c,wt); }
				else if(how==2){ for(auto&x:J) x=(L)(float)x; Jm.d.assign(J.begin(),J.end()); T::Vector<S,float> j(n); toV(j,J); s.w.add_mJ(m,j,wt); }
				else { T::Matrix<S,S,P> q2(n,n); put(q2,rm<P>(g,n,n)); for(int b=0;b<n;b++) q2(0,b)=(P)J[b]; s.w.add_mJ(m,q2[0],wt); }
				V mv(1); mv[0]=m; s.m.blk(Jm,mv,d,0,n); break; }
			case 5: { int k=g.range(1,n),i1=g.range(0,n-k); V J=rv<P>(g,k); double m=(double)(float)g.normal(); P wt=(P)g.unif(.01,5); T::Vector<Dyn,P> j(k); toV(j,J); if(g.chance(.3)){ wt=1; s.w.add_sparse_mJ((P)m,j,i1); } else s.w.add_sparse_mJ((P)m,j,i1,wt); M d(1,1); d(0,0)=wt; M Jm(1,k); Jm.d.assign(J.begin(),J.end()); s.m.blk(Jm,V{m},d,i1,n); break; }
			case 6: op_block<1,S,P,D>(g,s,1,pre); break;
			case 7: op_block<3,S,P,D>(g,s,3,pre); break;
			case 8: op_block<Dyn,S,P,D>(g,s,g.range(1,5),pre); break;
			case 9: s.compute(pre); break;
			case 10: { int j=g.range(0,acc-1); if(s.m.ops+A[j]->m.ops>4000) break; M before=fromM(A[j]->w.get_C_inv()); s.w+=A[j]->w; Model o=A[j]->m; s.m.merge(o); if(j!=i) VP_CHECK(same(A[j]->w.get_C_inv(),before),K("merge_source"),"merge modified its source"); s.check(pre+"merge_"); break; }
			case 11: if(g.chance(.3)){ s.w.clear(); s.m.clear(); s.check(pre+"clear_"); } else if(acc>1){ // value semantics of the whole accumulator
				int j=g.range(0,acc-1); T::WLS<S,P,D> c(A[j]->w); Model cm=A[j]->m; s.w=c; s.m=cm; } break;
		}
		if(g.chance(.4)) s.check(pre);
	}
	vp::describe(vp::fmt("WLS S=%d n=%d accumulators=%d history=",S,n,acc)+tr_); vp::sig(h);
	for(auto*s:A){ s->check(pre); s->compute(pre); delete s; }
}
VP_UNIT(wls_chol,700,15000){ switch(rng.range(0,5)){ case 0: history<1,double,T::Cholesky>(rng,1,"wls/"); break; case 1: history<2,double,T::Cholesky>(rng,2,"wls/"); break; case 2: history<3,double,T::Cholesky>(rng,3,"wls/"); break; case 3: history<6,double,T::Cholesky>(rng,6,"wls/"); break; default: history<Dyn,double,T::Cholesky>(rng,rng.chance(.06)?rng.range(10,40):rng.range(1,9),"wls/dyn_"); } }
VP_UNIT(wls_other,500,9000){ switch(rng.range(0,5)){ case 0: history<3,float,T::Cholesky>(rng,3,"wls/float_"); break; case 1: history<Dyn,float,T::Cholesky>(rng,rng.range(1,6),"wls/float_"); break; case 2: history<4,double,T::SQSVD>(rng,4,"wls/svd_"); break; case 3: history<Dyn,double,T::SQSVD>(rng,rng.chance(.06)?rng.range(7,30):rng.range(1,6),"wls/svd_"); break; case 4: history<3,double,T::SymEigen>(rng,3,"wls/eigen_"); break; default: history<4,long double,T::Cholesky>(rng,4,"wls/longdouble_"); } }
