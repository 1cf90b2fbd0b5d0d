// C28: workloads on distinct objects (and on shared read-only ones) in concurrent threads.
#if defined(__SANITIZE_THREAD__)
extern "C" const char* __tsan_default_options(){ return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0"; }
#endif
#include "vp.hpp"
#include "work.hpp"
#include <thread>
#include <atomic>
#include <memory>
#include <algorithm>
using work::Rec; using vp::Rng; using work::Dyn;
struct Shared {
	T::Vector<3> v; T::Vector<> vd; T::Vector<T::Resizable> vr; T::Vector<200> big; T::Matrix<3> m; T::Matrix<> md; T::Matrix<3,3,double,T::ColMajor> cm; T::Matrix<30,30> mb; T::Matrix<3> spd; T::Vector<3,float> vf;
	T::Cholesky<3> ch; T::Cholesky<> chd; T::LU<3> lu; T::LU<> lud; T::Lapack_Cholesky<3> lc; T::QR<3> qr; T::SymEigen<3> se; T::SymEigen<> sed; T::SO2<> so2; T::SO3<> so3; T::SE2<> se2; T::SE3<> se3; T::SIM2<> sim2; T::SIM3<> sim3; T::SL<3> sl; T::WLS<3> w; T::DiagonalMatrix<3> dg; work::Fun<double> fun;
	Shared(Rng&g):v(work::rv<3,double>(g)),vd(work::rv<Dyn,double>(g,6)),vr(work::rv<Dyn,double>(g,5)),big(work::rv<200,double>(g)),m(work::reg<3,double>(g)),md(work::reg<Dyn,double>(g,6)),cm(work::rm<3,3,double>(g)),mb(work::rm<30,30,double>(g)),spd(work::spd<3,double>(g)),vf(work::rv<3,float>(g)),ch(spd),chd(work::spd<Dyn,double>(g,6)),lu(m),lud(md),lc(spd),qr(m),se(spd),sed(work::spd<Dyn,double>(g,6)),so2(.3),so3(v),se2(v),se3(work::rv<6,double>(g)),sim2(work::rv<4,double>(g)/100),sim3(work::rv<7,double>(g)/100),sl(work::rv<8,double>(g)/50),dg(v),fun(g,3){ w.add_prior(1); w.add_mJ(1,v); w.compute(); }
};
// only const access
static void read_shared(const Shared&s,int k,Rec&d){
	switch(k){
		case 0: W("ro/vec",T::Vector<3>(s.v*2+s.m*s.v)); W("ro/dyn",T::Vector<>(s.vd+s.vd)); W("ro/resizable",T::Vector<T::Resizable>(s.vr)); W("ro/big",s.big*s.big); W("ro/slice",T::Vector<>(s.vd.slice(1,3))); W("ro/row",T::Vector<3>(s.m[1])); W("ro/col",T::Vector<3>(s.m.T()[1])); W("ro/norm",T::norm(s.v)); break;
		case 1: W("ro/mat",T::Matrix<3>(s.m*s.cm)); W("ro/dynmat",T::Matrix<>(s.md*s.md.T())); W("ro/bigmat",T::Matrix<30>(s.mb*s.mb)); W("ro/diag",T::Vector<3>(s.m.diagonal_slice())); W("ro/copy",T::Matrix<>(s.md)); W("ro/text",[&]{ std::ostringstream o; o<<s.m<<s.v; return o.str(); }()); W("ro/dgm",T::Matrix<3>(s.dg*s.m)); break;
		case 2: W("ro/ge",T::gaussian_elimination(s.m,s.v)); W("ro/det",T::determinant(s.md)); W("ro/chol",s.ch.backsub(s.v)); W("ro/chold",s.chd.backsub(s.vd)); W("ro/cholinv",T::Cholesky<>(s.chd).get_inverse()); W("ro/cholm",s.ch.mahalanobis(s.v)); W("ro/lchol",s.lc.backsub(s.v)); W("ro/lchold",s.lc.determinant()); break;
		case 3: W("ro/lu",T::LU<3>(s.lu).backsub(s.v)); W("ro/lu_det",s.lu.determinant()); W("ro/lu_packed",s.lud.get_lu()); W("ro/sym",s.se.backsub(s.v)); W("ro/symd",s.sed.get_pinv(1e9)); W("ro/symv",s.sed.get_evalues()); W("ro/svd",T::SVD<3>(s.m).get_diagonal()); W("ro/svdd",T::SVD<>(s.md).get_pinv()); break;
		case 4: W("ro/so2",s.so2.ln()); W("ro/so3",s.so3.ln()); W("ro/so3v",s.so3*s.v); W("ro/se2",s.se2.ln()); W("ro/se3",s.se3.ln()); W("ro/se3p",T::SE3<>(s.se3*s.se3.inverse())); W("ro/se3adj",s.se3.adjoint(s.vd)); W("ro/sim3",s.sim3.ln()); W("ro/sim2",s.sim2.ln()); W("ro/sl",s.sl.ln()); W("ro/slv",s.sl*s.v); W("ro/sim3v",s.sim3*s.v); break;
		case 5: W("ro/exp",T::exp(s.m/500)); W("ro/sqrt",T::sqrt(s.spd)); W("ro/log",T::log(s.spd)); W("ro/wls",s.w.get_mu()); { T::WLS<3> w(s.w); w+=s.w; w.add_mJ(2,s.v); w.compute(); W("ro/wls_merge",w.get_mu()); } W("ro/grad",T::numerical_gradient(s.fun,s.v)); { T::DownhillSimplex<3> x(s.fun,s.v); for(int i=0;i<30;i++) x.iterate(s.fun); W("ro/simplex",x.get_simplex()); } break;
	}
}
struct Op { int item; uint64_t seed; int delay; };
static std::atomic<unsigned> ticket;
static std::atomic<int> waiting;
static inline void pause_(int n){ if(n>50) sched_yield(); for(volatile int i=0;i<n;i++); }
typedef std::vector<std::pair<unsigned,unsigned>> Spans;
static void thread_main(const Shared*sh,const std::vector<Op>&ops,std::vector<Rec>&out,Spans&sp,int nthreads){
	waiting.fetch_add(1,std::memory_order_relaxed); while(waiting.load(std::memory_order_relaxed)<nthreads) sched_yield();
	for(size_t i=0;i<ops.size();i++){ pause_(ops[i].delay); unsigned a=ticket.fetch_add(1,std::memory_order_relaxed); Rng g(ops[i].seed); Rec d; if(ops[i].item>=1000) read_shared(*sh,ops[i].item-1000,d); else work::items()[ops[i].item].f(g,d); out[i]=std::move(d); sp[i]={a,ticket.fetch_add(1,std::memory_order_relaxed)}; }
}
static bool same(const Rec&a,const Rec&b,const char*&l){ if(a.e.size()!=b.e.size()){ l="number of results"; return false; } for(size_t i=0;i<a.e.size();i++) if(a.e[i].bits!=b.e[i].bits){ l=a.e[i].label; return false; } return true; }
static void trial(Rng&g,int mode){
	const auto&items=work::items(); const int nt=g.range(2,7),len=g.range(1,mode==2?3:8); std::vector<std::vector<Op>> ops(nt); std::string what;
	const int focus=g.range(0,(int)items.size()-1), sfocus=g.range(0,5); const bool same_seed=g.chance(.3); const uint64_t sd=g.u64();
	for(auto&o:ops) for(int i=0;i<len;i++){ Op p; 
		switch(mode){ case 0: p.item=g.chance(.7)?focus:g.range(0,(int)items.size()-1); break; case 1: p.item=g.chance(.25)?g.range(0,(int)items.size()-1):1000+(g.chance(.6)?sfocus:g.range(0,5)); break; default: p.item=focus; }
		p.seed=same_seed?sd+i:g.u64(); p.delay=g.chance(.5)?0:g.range(0,400); o.push_back(p); }
	vp::describe(vp::fmt("%d threads, %d operations each, mostly %s",nt,len,mode==1?vp::fmt("shared%d",sfocus).c_str():items[focus].name));
	const uint64_t shseed=g.u64();
	// the child starts with fresh function-local constants: the threads are the first to use them
	auto r=vp::in_child([&]{
		std::unique_ptr<Shared> sh; if(mode==1){ Rng q(shseed); sh.reset(new Shared(q)); }
		waiting=0; ticket=0; std::vector<std::vector<Rec>> out(nt,std::vector<Rec>(len)); std::vector<Spans> sp(nt,Spans(len)); std::vector<std::thread> th;
		for(int t=0;t<nt;t++) th.emplace_back(thread_main,sh.get(),std::cref(ops[t]),std::ref(out[t]),std::ref(sp[t]),nt); for(auto&t:th) t.join();
		std::vector<std::pair<unsigned,int>> ev; long overlaps=0; for(int t=0;t<nt;t++) for(auto&s:sp[t]){ ev.push_back({s.first,t}); ev.push_back({s.second,t}); for(int u=0;u<t;u++) for(auto&q:sp[u]) if(s.first<q.second&&q.first<s.second) overlaps++; }
		std::sort(ev.begin(),ev.end()); uint64_t h=0; for(auto&e:ev) h=vp::mix(h^(unsigned)(e.second+1)); vp::sig(h^vp::mix(focus*7+mode));
		const int id=vp::rule_id("observed/overlapping_operations"); for(long i=0;i<overlaps;i++) vp::count(id);
		for(int t=0;t<nt;t++) for(int i=0;i<len;i++){ const Op&p=ops[t][i]; Rng q(p.seed); Rec d; if(p.item>=1000) read_shared(*sh,p.item-1000,d); else items[p.item].f(q,d); const char*l=""; bool ok=same(out[t][i],d,l); const char*nm=p.item>=1000?"shared":items[p.item].name; VP_CHECK(ok,vp::key(std::string("threads/")+(p.item>=1000?"shared_":"")+"same_results"),"%s (%s): different results when run concurrently with %d other threads",nm,l,nt-1); vp::note(nm); }
	},120);
	size_t p=r.err.find("WARNING: ThreadSanitizer"); std::string m=p==std::string::npos?r.err.substr(0,900):r.err.substr(p,1100);
	VP_CHECK(p==std::string::npos,mode==1?"threads/shared_no_data_race":"threads/no_data_race","%s",m.c_str());
	if(p==std::string::npos) VP_CHECK(r.exited&&r.code==0,"threads/finish","child ended with code %d signal %d%s: %s",r.code,r.sig,r.timeout?" (timeout)":"",m.c_str());
}
#ifndef VN
#define VN 1
#endif
VP_UNIT(distinct_objects,240*VN,6000*VN){ trial(rng,0); }
VP_UNIT(shared_operands,120*VN,3000*VN){ trial(rng,1); }
VP_UNIT(first_use,240*VN,6000*VN){ trial(rng,2); }
