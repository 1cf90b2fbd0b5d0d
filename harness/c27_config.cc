// C27: every result of every workload, recorded so that differently configured builds can be compared.
#include "vp.hpp"
#include "work.hpp"
static FILE* rec(){ static FILE* f=0; if(!f&&getenv("VP_REC")) f=fopen((std::string(getenv("VP_REC"))+"."+std::to_string(getpid())).c_str(),"w"); return f; }
VP_UNIT(work,1440,14400){
	auto&items=work::items(); const long i=vp::st().idx; const work::Item&it=items[i%items.size()]; vp::describe(it.name);
	work::Rec d;
#ifdef VP_MEMCHECK
	unsigned long e0=VALGRIND_COUNT_ERRORS;
#endif
	it.f(rng,d); vp::sig(d.e.empty()?0:vp::hbytes(&d.e.back().bits,1)^d.e.size());
#ifdef VP_MEMCHECK
	VP_CHECK(d.undefined==0,"memcheck/results_defined","%s: a result (%s) depends on storage nobody wrote",it.name,d.undef_label);
	VP_CHECK(VALGRIND_COUNT_ERRORS-e0==(unsigned long)d.undefined,"memcheck/no_errors","%s: %lu memory errors",it.name,(unsigned long)(VALGRIND_COUNT_ERRORS-e0));
#endif
	VP_CHECK(!d.e.empty(),"recorded","nothing");
	if(FILE*f=rec()){ fprintf(f,"%ld %s",i,it.name); const char*l=""; for(auto&e:d.e){ if(e.label!=l) fprintf(f,"\t%s",l=e.label); fprintf(f," %llx",(unsigned long long)e.bits); } fprintf(f,"\n"); fflush(f); }
}
