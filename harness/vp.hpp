// Common machinery of every monitored workload: deterministic case generator,
// oracle counters, crash/hang-isolating worker processes, JSON result file.
//
// A program registers units with VP_UNIT(name, quick_cases, thorough_cases).
// Every case gets its own RNG derived from (seed, unit, case), so a case is
// replayed by giving the three numbers back.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <limits>
#include <type_traits>
#include <sstream>
#include <set>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

#if defined(__SANITIZE_ADDRESS__) && !defined(VP_NO_MAIN)
#define VP_ASAN 1
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:abort_on_error=1:halt_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096"; }
extern "C" const char* __ubsan_default_options(){ return "print_stacktrace=0:halt_on_error=1"; }
#endif

namespace vp {

// ---------------------------------------------------------------- randomness
inline uint64_t mix(uint64_t z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
inline uint64_t hstr(const char* s){ uint64_t h=1469598103934665603ULL; for(;*s;++s){ h^=(unsigned char)*s; h*=1099511628211ULL; } return h; }
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed=1):s(mix(seed)){}
	uint64_t u64(){ s+=0x9e3779b97f4a7c15ULL; uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31); }
	// inclusive
	int range(int a,int b){ return a+(int)(u64()%(uint64_t)((long)b-a+1)); }
	double unif(){ return (u64()>>11)*(1.0/9007199254740992.0); }
	double unif(double a,double b){ return a+(b-a)*unif(); }
	bool chance(double p){ return unif()<p; }
	double normal(){ double u=unif(),v=unif(); if(u<1e-300)u=1e-300; return std::sqrt(-2*std::log(u))*std::cos(6.283185307179586*v); }
	template<class T> const T& pick(const std::vector<T>& v){ return v[u64()%v.size()]; }
	// values that mix ordinary, integral, zero, tiny and large magnitudes
	double value(){
		switch(u64()%10){
			case 0: return 0;
			case 1: return (double)range(-3,3);
			case 2: return normal()*std::pow(10.0,range(-6,6));
			case 3: return range(0,1)?1:-1;
			case 4: return std::ldexp(range(-1000,1000),range(-10,10));
			default: return normal();
		}
	}
};

// ---------------------------------------------------------------- shared state
struct RuleSlot { char name[72]; uint64_t n; double worst; };
struct Shm {
	volatile long current_case;
	volatile uint64_t heartbeat;
	long cases_done;
	long cases_trivial;
	int nrules;
	RuleSlot rules[1500];
	uint64_t sig_count;
	uint8_t bloom[1<<20];       // 8M bits: distinct case signatures
	int nsamples;
	char samples[8][600];
	volatile int finished;
	char note[256];             // what the current case is doing
};
inline Shm*& shm(){ static Shm* p=nullptr; return p; }

struct State {
	const char* unit=""; long idx=0; uint64_t seed=1; bool thorough=false;
	int vfd=-1; std::string lastdesc; bool case_trivial=false; long viol_in_case=0;
	bool replaying=false; bool digest=false;
	uint64_t dig=0; // digest of results, used for configuration comparison
};
inline State& st(){ static State s; return s; }

inline int rule_lookup(const char* key){
	Shm* s=shm();
	for(int i=0;i<s->nrules;i++) if(!strncmp(s->rules[i].name,key,71)) return i;
	if(s->nrules>=1500) return 1499;
	int i=s->nrules++; strncpy(s->rules[i].name,key,71); return i;
}
// the key may be a run-time string: a small cache keyed by address avoids the search
inline int rule_id(const char* key){
	static struct { const char* p; int id; } cache[1024];
	auto& c=cache[((uintptr_t)key*0x9e3779b97f4a7c15ULL)>>54];
	if(c.p==key && !strncmp(shm()->rules[c.id].name,key,71)) return c.id;
	c.id=rule_lookup(key); c.p=key; return c.id;
}
inline std::string fmt(const char* f,...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char* f,...){ char b[1500]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
// stable C string for a composed key
inline const char* key(const std::string& s){ static std::set<std::string>* k=new std::set<std::string>; return k->insert(s).first->c_str(); }
inline std::string jesc(const std::string& s){ std::string o; for(unsigned char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c; } return o; }

inline void emit(const char* key,const std::string& msg){
	State& s=st();
	std::string l="{\"key\":\""+jesc(key)+"\",\"unit\":\""+jesc(s.unit)+"\",\"case\":"+std::to_string(s.idx)+",\"msg\":\""+jesc(msg.substr(0,1200))+"\",\"desc\":\""+jesc(s.lastdesc.substr(0,600))+"\"}\n";
	if(s.vfd>=0){ ssize_t r=write(s.vfd,l.data(),l.size()); (void)r; }
	if(s.replaying) fprintf(stdout,"VIOLATED %s unit=%s case=%ld: %s [%s]\n",key,s.unit,s.idx,msg.c_str(),s.lastdesc.c_str());
	s.viol_in_case++;
}
// describe the current case (kept for messages, samples, crash reports)
inline void describe(const std::string& d){
	st().lastdesc=d; strncpy(shm()->note,d.c_str(),255);
	if(shm()->nsamples<4 && (st().idx%7==0 || shm()->nsamples==0)){ strncpy(shm()->samples[shm()->nsamples],(std::string(st().unit)+"#"+std::to_string(st().idx)+": "+d).c_str(),599); shm()->nsamples++; }
}
inline void note(const char* d){ strncpy(shm()->note,d,255); shm()->heartbeat++; }
// signature of a non-trivial case: counted once per distinct value
inline void sig(uint64_t h){
	h=mix(h^hstr(st().unit)); uint64_t b=h&((8u<<20)-1); uint8_t m=1u<<(b&7);
	if(!(shm()->bloom[b>>3]&m)){ shm()->bloom[b>>3]|=m; shm()->sig_count++; }
}
template<class T> inline uint64_t hbytes(const T* p,size_t n){ uint64_t h=1469598103934665603ULL; const unsigned char* c=(const unsigned char*)p; for(size_t i=0;i<n*sizeof(T);i++){ h^=c[i]; h*=1099511628211ULL; } return h; }
inline void trivial(){ st().case_trivial=true; }
inline void dig(uint64_t v){ st().dig=mix(st().dig^v); }
inline void digd(double v){ uint64_t u; if(v!=v) u=0x7ff8000000000000ULL; else memcpy(&u,&v,8); dig(u); }

inline void count(int id){ shm()->rules[id].n++; }
inline void worst(int id,double r){ if(r>shm()->rules[id].worst) shm()->rules[id].worst=r; }

} // namespace vp

// VP_CHECK: boolean oracle. VP_CLOSE: error against a bound (ratio err/tol is recorded).
#define VP_CHECK(cond,key,...) do{ const char* const vp_k_=(key); vp::count(vp::rule_id(vp_k_)); if(!(cond)) vp::emit(vp_k_,vp::fmt(__VA_ARGS__)); }while(0)
#define VP_CLOSE(err,tol,key,...) do{ const char* const vp_k_=(key); const int vp_i_=vp::rule_id(vp_k_); vp::count(vp_i_); const double vp_e_=(double)(err), vp_t_=(double)(tol); \
	if(vp_t_>0 && vp_e_==vp_e_) vp::worst(vp_i_,vp_e_/vp_t_); \
	if(!(vp_e_<=vp_t_)) vp::emit(vp_k_,vp::fmt("error %.6g exceeds bound %.6g: ",vp_e_,vp_t_)+vp::fmt(__VA_ARGS__)); }while(0)

namespace vp {
struct Unit { const char* name; long quick, thorough; void(*fn)(Rng&); };
inline std::vector<Unit>& units(){ static std::vector<Unit> u; return u; }
struct Reg { Reg(const char* n,long q,long t,void(*f)(Rng&)){ units().push_back({n,q,t,f}); } };
}
#define VP_UNIT(name,q,t) static void vp_unit_##name(vp::Rng&); static vp::Reg vp_reg_##name(#name,q,t,vp_unit_##name); static void vp_unit_##name(vp::Rng& rng)

namespace vp {
// Runs fn in a child process. Result: exit status classification + captured stderr.
struct ChildResult { bool exited=false; int code=0; int sig=0; bool sanitizer=false; bool timeout=false; std::string err; };
template<class F> inline ChildResult in_child(F fn,double limit_s=60){
	ChildResult r; int fds[2]; if(pipe(fds)) _exit(97);
	fflush(stdout); fflush(stderr);
	pid_t p=fork();
	if(p==0){
		close(fds[0]); dup2(fds[1],2); int dn=open("/dev/null",O_WRONLY); dup2(dn,1);
		struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
		alarm((unsigned)limit_s);
		fn();
		_exit(0);
	}
	close(fds[1]);
	char b[4096]; ssize_t n;
	while((n=read(fds[0],b,sizeof b))>0){ if(r.err.size()<16384) r.err.append(b,n); }
	close(fds[0]);
	int status; waitpid(p,&status,0);
	if(WIFEXITED(status)){ r.exited=true; r.code=WEXITSTATUS(status);} else { r.sig=WTERMSIG(status); if(r.sig==SIGALRM) r.timeout=true; }
	r.sanitizer = r.err.find("AddressSanitizer")!=std::string::npos || r.err.find("runtime error:")!=std::string::npos;
	return r;
}

inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

inline std::string crash_key(const std::string& err,int sig){
	size_t p=err.find("AddressSanitizer: ");
	if(p!=std::string::npos){ size_t e=err.find_first_of(" \n",p+18); return "asan:"+err.substr(p+18,e-p-18); }
	p=err.find("runtime error: ");
	if(p!=std::string::npos){ size_t e=err.find('\n',p); std::string m=err.substr(p+15,std::min<size_t>(e-p-15,60)); std::string o; for(char c: m) o+=(isdigit((unsigned char)c)?'#':c); return "ubsan:"+o; }
	p=err.find("Assertion `"); if(p!=std::string::npos) return "assertion";
	return sig?("signal:"+std::to_string(sig)):"exit";
}

inline void run_case(const Unit& u,uint64_t seed,long i){
	State& s=st(); s.unit=u.name; s.idx=i; s.lastdesc.clear(); s.case_trivial=false; s.viol_in_case=0;
	shm()->current_case=i; shm()->heartbeat++; shm()->note[0]=0;
	Rng r(mix(seed*0x100000001b3ULL ^ hstr(u.name)) ^ mix((uint64_t)i+77));
	u.fn(r);
	shm()->cases_done++; if(s.case_trivial) shm()->cases_trivial++;
}

inline int main_(int argc,char** argv){
	uint64_t seed=1; bool thorough=false; const char* out="/dev/null"; const char* unit=nullptr; long from=-1,to=-1; bool list=false,one=false; double hang=30; bool digest=false;
	for(int i=1;i<argc;i++){ std::string a=argv[i];
		if(a=="--seed") seed=strtoull(argv[++i],0,10); else if(a=="--tier") thorough=!strcmp(argv[++i],"thorough");
		else if(a=="--out") out=argv[++i]; else if(a=="--unit") unit=argv[++i]; else if(a=="--from") from=atol(argv[++i]); else if(a=="--to") to=atol(argv[++i]);
		else if(a=="--list") list=true; else if(a=="--case"){ from=atol(argv[++i]); to=from+1; one=true; } else if(a=="--hang") hang=atof(argv[++i]); else if(a=="--digest") digest=true; }
	if(list){ for(auto&u:units()) printf("%s %ld\n",u.name,thorough?u.thorough:u.quick); return 0; }
	struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
	shm()=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	st().seed=seed; st().thorough=thorough; st().digest=digest;
	const Unit* U=nullptr; for(auto&u:units()) if(unit&&!strcmp(u.name,unit)) U=&u;
	if(!U){ fprintf(stderr,"no unit\n"); return 3; }
	if(from<0){ from=0; to=thorough?U->thorough:U->quick; }
	if(one && getenv("VP_INPROC")){ st().replaying=true; st().vfd=1; run_case(*U,seed,from); printf("digest %llx\n",(unsigned long long)st().dig); return st().viol_in_case?1:0; }
	std::string vfile=std::string(out)+".viol", efile=std::string(out)+".err", dfile=std::string(out)+".dig";
	int vfd=open(vfile.c_str(),O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644); st().vfd=vfd;
	int dfd=digest?open(dfile.c_str(),O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644):-1;
	long next=from; int crashes=0, hangs=0; bool retry=false; double lim=hang;
	while(next<to && crashes<12 && hangs<1){
		fflush(stdout); fflush(stderr);
		pid_t p=fork();
		if(p==0){
			int fd=open(efile.c_str(),O_CREAT|O_TRUNC|O_WRONLY|O_APPEND,0644); dup2(fd,2); dup2(fd,1); close(fd);
			long lastv=0; int vcases=0;
			for(long i=next;i<to;i++){ st().dig=0; run_case(*U,seed,i); if(dfd>=0){ std::string l=std::to_string(i)+" "+std::to_string(st().dig)+"\n"; ssize_t r=write(dfd,l.data(),l.size()); (void)r; }
				if(st().viol_in_case) vcases++; if(vcases>=25) break; (void)lastv; }
			shm()->finished=1; _exit(0);
		}
		int status=0; uint64_t hb=shm()->heartbeat; double t0=now(); bool killed=false;
		for(;;){
			pid_t w=waitpid(p,&status,WNOHANG); if(w==p) break;
			usleep(3000);
			if(shm()->heartbeat!=hb){ hb=shm()->heartbeat; t0=now(); }
			if(now()-t0>lim){ kill(p,SIGKILL); waitpid(p,&status,0); killed=true; break; }
		}
		if(!killed && WIFEXITED(status) && WEXITSTATUS(status)==0 && shm()->finished) break;
		long c=shm()->current_case; st().unit=U->name; st().idx=c; st().lastdesc=shm()->note;
		if(killed){
			if(!retry){ retry=true; lim=hang*2; next=c; continue; }   // first time: inconclusive, try once more
			emit("hang","case did not finish within the watchdog limit on two attempts"); hangs++; retry=false; lim=hang; next=c+1; continue;
		}
		retry=false; lim=hang;
		std::string err; { int fd=open(efile.c_str(),O_RDONLY); char b[8192]; ssize_t n; while(fd>=0&&(n=read(fd,b,sizeof b))>0 && err.size()<200000) err.append(b,n); if(fd>=0) close(fd); }
		int sg=WIFSIGNALED(status)?WTERMSIG(status):0;
		if(sg==SIGKILL){ fprintf(stderr,"worker killed by SIGKILL (memory?)\n"); return 4; }
		std::string k=crash_key(err,sg);
		size_t p0=err.find("ERROR: AddressSanitizer"); if(p0==std::string::npos) p0=err.find("runtime error:"); if(p0==std::string::npos) p0=err.size()>900?err.size()-900:0; else p0=p0>200?p0-200:0;
		emit(("crash/"+k).c_str(), vp::fmt("worker ended with status 0x%x: ",status)+err.substr(p0,900));
		crashes++; next=c+1;
	}
	Shm*s=shm();
	FILE* f=fopen(out,"w"); if(!f) return 5;
	fprintf(f,"{\"unit\":\"%s\",\"from\":%ld,\"to\":%ld,\"cases\":%ld,\"trivial\":%ld,\"distinct\":%llu,\"crashes\":%d,\"hangs\":%d,\"rules\":{",U->name,from,to,s->cases_done,s->cases_trivial,(unsigned long long)s->sig_count,crashes,hangs);
	for(int i=0;i<s->nrules;i++) fprintf(f,"%s\"%s\":[%llu,%.4g]",i?",":"",jesc(s->rules[i].name).c_str(),(unsigned long long)s->rules[i].n,std::isfinite(s->rules[i].worst)?s->rules[i].worst:1e300);
	fprintf(f,"},\"samples\":["); for(int i=0;i<s->nsamples;i++) fprintf(f,"%s\"%s\"",i?",":"",jesc(s->samples[i]).c_str());
	fprintf(f,"]}\n"); fclose(f);
	f=fopen((std::string(out)+".bloom").c_str(),"w"); if(f){ fwrite(s->bloom,1,sizeof s->bloom,f); fclose(f); }
	return 0;
}
} // namespace vp
#ifndef VP_NO_MAIN
int main(int c,char**v){ return vp::main_(c,v); }
#endif
