// C04: histories of constructions, copies, moves, swaps, assignments and resizes over a pool of owning
// objects, each with a plain array as its model; element type Tracked counts constructions and destructions.
#include "vp.hpp"
#include <TooN/TooN.h>
#include "store.hpp"
#include <variant>
#include <memory>
#include <algorithm>
#include <optional>
#include <map>
#include <deque>
#include <list>
#ifndef VTY
#define VTY double
#endif
using vp::Rng;
static long live_elements=0, element_faults=0;
// an element which knows whether it is alive
struct Tracked {
	unsigned tag; int v; const Tracked*self; // an element that was duplicated byte by byte does not know itself
	static const unsigned LIVE=0x11feb10cu, DEAD=0xdeadbeefu;
	void alive() const { if(tag!=LIVE||self!=this) element_faults++; }
	Tracked():tag(LIVE),v(-999),self(this){ live_elements++; }
	Tracked(int x):tag(LIVE),v(x),self(this){ live_elements++; }
	Tracked(const Tracked&o):tag(LIVE),v(o.v),self(this){ o.alive(); live_elements++; }
	Tracked& operator=(const Tracked&o){ alive(); o.alive(); v=o.v; return *this; }
	~Tracked(){ alive(); tag=DEAD; live_elements--; }
	bool operator==(const Tracked&o) const { alive(); o.alive(); return v==o.v; }
	bool operator!=(const Tracked&o) const { return !(*this==o); }
};
typedef VTY P;
static const bool tracked=std::is_same<P,Tracked>::value;
static int raw(const Tracked&t){ t.alive(); return t.v; }
template<class X> int raw(const X&x){ return (int)x; }
typedef std::vector<int> Model;
static const int BIG=1000/(int)sizeof(P)+5;
typedef T::Vector<Dyn,P> VD; typedef T::Vector<T::Resizable,P> VR; typedef T::Vector<5,P> V5; typedef T::Vector<BIG,P> VB; typedef T::Vector<1,P> V1;
template<class X> struct stsz { static const int n=X::SizeParameter<0?-1:X::SizeParameter; };
template<class X> X make(int n){ if constexpr(stsz<X>::n>=0) return X(); else return X(n); }
struct Slot {
	std::variant<std::monostate,std::unique_ptr<VD>,std::unique_ptr<VR>,std::unique_ptr<V5>,std::unique_ptr<VB>,std::unique_ptr<V1>> o; Model m; bool moved=false;
};
static int counter;
static std::string trace;
static void log(const char*f,int a=-1,int b=-1){ trace+=vp::fmt("%s",f); if(a>=0) trace+=vp::fmt("(%d",a); if(b>=0) trace+=vp::fmt(",%d",b); if(a>=0) trace+=")"; trace+=" "; vp::note(trace.size()>200?trace.c_str()+trace.size()-200:trace.c_str()); }
template<class X> void fresh(X&x,Model&m){ m.resize(x.size()); for(int i=0;i<x.size();i++){ m[i]=++counter; x[i]=P(m[i]); } }
template<class X> bool same(const X&x,const Model&m){ if(x.size()!=(int)m.size()) return false; for(int i=0;i<x.size();i++) if(raw(x[i])!=m[i]) return false; return true; }
template<class F> void on(Slot&s,F f){ std::visit([&](auto&p){ if constexpr(!std::is_same<typename std::decay<decltype(p)>::type,std::monostate>::value) f(*p); },s.o); }
template<class X> void put_in(Slot&s,X*p,const Model&m){ s.o=std::unique_ptr<X>(p); s.m=m; s.moved=false; }
static bool full(const Slot&s){ return s.o.index()!=0; }
// may x be assigned from something of size n (static or run-time)?
template<class X,class Y> constexpr bool static_ok(){ return stsz<X>::n<0||stsz<Y>::n<0||stsz<X>::n==stsz<Y>::n; }
template<class X> bool takes(const X&x,int n){ return std::is_same<X,VR>::value||x.size()==n; }
static const char* ctx(){ return trace.size()>600?trace.c_str()+trace.size()-600:trace.c_str(); }
static void audit(std::vector<Slot>&s,const char*key){
	long expect=0; std::vector<std::pair<const char*,const char*>> rg; bool ok=true,addr=true;
	for(auto&sl:s) on(sl,[&](auto&x){ 
		typedef typename std::decay<decltype(x)>::type X;
		const bool gone=sl.moved&&std::is_same<X,VD>::value; if(!gone) expect+=x.size();
		if(!sl.moved){ if(!same(x,sl.m)) ok=false; if(x.size()) rg.push_back({(const char*)&x[0],(const char*)(&x[0]+x.size())}); } });
	VP_CHECK(ok,vp::key(std::string("values/")+key),"an object differs from its model after: %s",ctx());
	std::sort(rg.begin(),rg.end()); for(size_t i=1;i<rg.size();i++) if(rg[i].first<rg[i-1].second) addr=false;
	VP_CHECK(addr,"storage/distinct","two owning objects share storage: %s",ctx());
	if(tracked){ VP_CHECK(live_elements==expect,vp::key(std::string("elements/live_")+key),"%ld live elements, %ld expected after %s",live_elements,expect,ctx()); VP_CHECK(element_faults==0,"elements/only_live_ones_used","%ld uses of dead elements: %s",element_faults,ctx()); }
}
template<class X> X by_value(X x,Model&m){ for(int i=0;i<x.size();i++){ m[i]=raw(x[i])+1; x[i]=P(m[i]); } return x; }
template<class X> X factory(int n,Model&m,int kind){ X x=make<X>(n); fresh(x,m); if(kind==1){ X y(x); return y; } return x; }
struct Holder { VD a; VR b; V5 c; VB d; };
template<class X> void create(Slot&s,int n){ X*p=new X(make<X>(n)); Model m; fresh(*p,m); put_in(s,p,m); }
static void new_object(Rng&g,Slot&s){
	int n=g.chance(.15)?0:g.chance(.1)?(g.chance(.5)?BIG:g.range(8,300)):g.range(1,7); if(g.chance(.3)) n=5;
	switch(g.range(0,6)){ case 0: case 1: case 5: create<VD>(s,n); break; case 2: case 6: create<VR>(s,n); break; case 3: create<V5>(s,n); break; default: if(g.chance(.5)) create<VB>(s,n); else create<V1>(s,n); }
}
VP_UNIT(vector_history,4000,60000){
	Rng&g=rng; live_elements=0; element_faults=0; counter=0; trace.clear();
	{
	std::vector<Slot> s(6); const int steps=g.range(8,40);
	for(int st=0;st<steps;st++){
		int i=g.range(0,5),j=g.range(0,5); Slot&a=s[i],&b=s[j]; int op=g.range(0,19); const char*name="none";
		if(!full(a)){ log("new",i); new_object(g,a); audit(s,"construct"); continue; }
		if(a.moved && op>3 && op!=4 && op!=9){ // only destruction, assignment and swap are allowed on it
			if(g.chance(.5)) op=0; else { log("reassign",i); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; const int n=std::is_same<X,VR>::value?g.range(0,9):x.size(); Model m; X y=make<X>(n); fresh(y,m);
				switch(g.range(0,tracked?3:7)){ case 0: x=y; break; case 1: { T::Vector<Dyn,P> z(y); x=z; break; } case 2: x=y.slice(0,n); break; case 3: x=std::move(y); break;
					default: if constexpr(!tracked) switch(g.range(0,3)){ // from an object which only knows how to fill a vector
						case 0: if(std::is_same<X,VR>::value) x.slice(0,x.size())=T::Zeros; else x=T::Zeros; m.assign(x.size(),0); break; case 1: x=T::Zeros(n); m.assign(n,0); break;
						case 2: for(int&e:m) e%=1000; for(int e=0;e<n;e++) y[e]=P(m[e]); x=y+y; for(int&e:m) e*=2; break; case 3: if(std::is_same<X,VR>::value) x=T::Ones(n)*P(3); else x=T::Ones*P(3); m.assign(n,3); break; } else x=y; break; } a.m=m; a.moved=false; }); audit(s,"reassign_moved"); continue; } }
		if(op==4||op==9){ if(a.moved||b.moved) op=a.moved?9:0; }
		switch(op){
		case 0: name="destroy"; log(name,i); a.o=std::monostate(); a.m.clear(); a.moved=false; break;
		case 1: name="copy_construct"; if(i==j||a.moved) break; log(name,i,j); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; X*p=g.chance(.5)?new X(x):new X(static_cast<const X&>(x)); Model m=a.m; put_in(b,p,m); }); break;
		case 2: name="convert_construct"; if(i==j||a.moved) break; log(name,i,j); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; const int n=x.size(); Model m=a.m;
				switch(g.range(0,4)){ case 0: put_in(b,new VD(x),m); break; case 1: put_in(b,new VR(x),m); break; case 2: if constexpr(static_ok<V5,X>()) if(n==5) put_in(b,new V5(x),m); break; case 3: if constexpr(static_ok<VB,X>()) if(n==BIG) put_in(b,new VB(x),m); break;
				case 4: { int k=g.range(0,n),l=g.range(0,n-k); Model q(m.begin()+k,m.begin()+k+l); auto v=x.slice(k,l); if(g.chance(.5)) put_in(b,new VD(v),q); else put_in(b,new VR(v),q); break; } } }); break;
		case 3: name="move_construct"; if(i==j||a.moved) break; log(name,i,j); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; X*p=new X(std::move(x)); Model m=a.m; a.moved=true; if(std::is_same<X,VR>::value){ a.moved=false; a.m.assign(x.size(),0); for(int q=0;q<x.size();q++){ a.m[q]=raw(x[q]); } } put_in(b,p,m); }); break;
		case 4: name="assign"; if(!full(b)) break; log(name,i,j); on(a,[&](auto&x){ on(b,[&](auto&y){ typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(y)>::type Y; if constexpr(static_ok<X,Y>()) if(takes(x,y.size())){ const Y&cy=y; if(g.chance(.5)) x=cy; else x=y; a.m=b.m; } }); }); break;
		case 5: name="self_assign"; log(name,i); on(a,[&](auto&x){ auto&y=x; typedef typename std::decay<decltype(x)>::type X; const X&c=x; switch(g.range(0,4)){ case 0: x=y; break; case 1: x=c; break; case 2: x=x.slice(0,x.size()); break; case 3: x=c.slice(0,x.size()); break; case 4: { if(x.size()==0) break; auto M=x.as_row(); x=M[0]; auto C=x.as_col(); x=C.T()[0]; break; } }
				if constexpr(std::is_same<X,VR>::value) for(int rep=g.range(0,2);rep>0;rep--){ // a vector which becomes a part of itself
					const int n=x.size(),l=g.range(0,n),k=g.range(0,n-l); Model m(a.m.begin()+k,a.m.begin()+k+l);
					switch(g.range(0,4)){ case 0: x=x.slice(k,l); break; case 1: x=c.slice(k,l); break; case 2: { auto v=x.slice(k,n-k); x=v.slice(0,l); break; } case 3: { auto M=x.as_row(); x=M[0].slice(k,l); break; }
						case 4: if constexpr(!tracked){ x=x.slice(k,l)+x.slice(n-l,l); for(int q=0;q<l;q++) m[q]+=a.m[n-l+q]; } else x=x.slice(k,l).ref(); break; }
					a.m=m; } }); break;
		case 6: name="assign_slice"; if(!full(b)||b.moved||i==j) break; log(name,i,j); on(a,[&](auto&x){ on(b,[&](auto&y){ typedef typename std::decay<decltype(x)>::type X; const int ny=y.size(); int l=std::is_same<X,VR>::value?g.range(0,ny):x.size(); if(l>ny) return; int k=g.range(0,ny-l); x=y.slice(k,l); a.m.assign(b.m.begin()+k,b.m.begin()+k+l); }); }); break;
		case 7: name="write_into_slice"; if(!full(b)||b.moved||i==j) break; log(name,i,j); on(a,[&](auto&x){ on(b,[&](auto&y){ const int l=std::min(x.size(),y.size()); int n=g.range(0,l),k=g.range(0,x.size()-n),q=g.range(0,y.size()-n); x.slice(k,n)=y.slice(q,n); std::copy(b.m.begin()+q,b.m.begin()+q+n,a.m.begin()+k); }); }); break;
		case 8: name="resize"; log(name,i); on(a,[&](auto&x){ if constexpr(std::is_same<typename std::decay<decltype(x)>::type,VR>::value){ const int k=g.range(1,3); for(int q=0;q<k;q++){ int n=g.chance(.2)?BIG:g.range(0,12),o=x.size(); x.resize(n); VP_CHECK(x.size()==n,"resize/size","%d instead of %d",x.size(),n); bool kept=true; for(int e=0;e<std::min(n,o);e++) if(raw(x[e])!=a.m[e]) kept=false; VP_CHECK(kept,"resize/keeps_elements","%d to %d: %s",o,n,ctx()); a.m.resize(n); for(int e=o;e<n;e++){ a.m[e]=++counter; x[e]=P(a.m[e]); } } } }); break;
		case 9: name="swap"; if(!full(b)||i==j) break; log(name,i,j); on(a,[&](auto&x){ on(b,[&](auto&y){ typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(y)>::type Y;
				if constexpr(std::is_same<X,Y>::value){ if(!std::is_same<X,VR>::value&&x.size()!=y.size()) return; 
					int k=g.range(0,2); if constexpr(std::is_same<X,VD>::value||std::is_same<X,VR>::value){ if(k==0) x.swap(y); else if(k==1) T::swap(x,y); else { using std::swap; swap(x,y); } } else { if(a.moved||b.moved) return; if(k==0) T::swap(x,y); else { using std::swap; swap(x,y); } }
					std::swap(a.m,b.m); std::swap(a.moved,b.moved); }
				else if constexpr(static_ok<X,Y>()){ if(a.moved||b.moved||x.size()!=y.size()) return; using std::swap; swap(x,y); std::swap(a.m,b.m); } }); }); break;
		case 10: name="swap_slices"; if(!full(b)||b.moved||i==j) break; log(name,i,j); on(a,[&](auto&x){ on(b,[&](auto&y){ const int l=std::min(x.size(),y.size()); int n=g.range(0,l),k=g.range(0,x.size()-n),q=g.range(0,y.size()-n); auto u=x.slice(k,n); auto v=y.slice(q,n); T::swap(u,v); for(int e=0;e<n;e++) std::swap(a.m[k+e],b.m[q+e]); }); }); break;
		case 11: name="by_value"; log(name,i); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; Model m=a.m; X r=by_value(x,m); bool ok=same(r,m); VP_CHECK(ok,"by_value/result","%s",ctx()); if(g.chance(.5)){ x=r; a.m=m; } if(g.chance(.5)){ x=by_value(r,m); a.m=m; } }); break;
		case 12: name="factory"; log(name,i); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; Model m; const int n=std::is_same<X,VR>::value?g.range(0,9):x.size(); x=factory<X>(n,m,g.range(0,1)); a.m=m; }); break;
		case 13: name="container"; log(name,i); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; const int n=x.size(); std::vector<X> c; std::vector<Model> cm; const int k=g.range(1,6); for(int q=0;q<k;q++){ Model m; X y=make<X>(n); fresh(y,m); switch(g.range(0,2)){ case 0: c.push_back(y); break; case 1: c.push_back(std::move(y)); break; case 2: c.emplace_back(y); break; } cm.push_back(m); }
				for(int r=g.range(1,5);r>0;r--) switch(g.range(0,5)){
					case 0: { int p=g.range(0,(int)c.size()); c.insert(c.begin()+p,x); cm.insert(cm.begin()+p,a.m); break; }
					case 1: if(c.size()>1){ int p=g.range(0,(int)c.size()-1); c.erase(c.begin()+p); cm.erase(cm.begin()+p); } break;
					case 2: std::reverse(c.begin(),c.end()); std::reverse(cm.begin(),cm.end()); break;
					case 3: { int p=g.range(0,(int)c.size()-1); std::rotate(c.begin(),c.begin()+p,c.end()); std::rotate(cm.begin(),cm.begin()+p,cm.end()); break; }
					case 4: if(n>0){ std::sort(c.begin(),c.end(),[](const X&p,const X&q){ return raw(p[0])>raw(q[0]); }); std::sort(cm.begin(),cm.end(),[](const Model&p,const Model&q){ return p[0]>q[0]; }); } break;
					case 5: { std::vector<X> d(c); std::deque<X> e(d.begin(),d.end()); std::list<X> f(e.begin(),e.end()); c.assign(f.begin(),f.end()); break; } }
				bool ok=c.size()==cm.size(); for(size_t q=0;q<c.size()&&ok;q++) ok=same(c[q],cm[q]); VP_CHECK(ok,"container/values","%s",ctx()); 
				if(ok&&c.size()){ x=c.back(); a.m=cm.back(); } }); break;
		case 14: name="initializer_list"; log(name,i); { Model m={++counter,counter+100,counter+200}; if(g.chance(.5)) put_in(a,new VD{P(m[0]),P(m[1]),P(m[2])},m); else if(g.chance(.5)) put_in(a,new VR{P(m[0]),P(m[1]),P(m[2])},m); else { VR r(g.range(0,5)); r=VR{P(m[0]),P(m[1]),P(m[2])}; put_in(a,new VR(r),m); } } break;
		case 15: name="holder"; log(name,i); { Model m[4]; int n=g.range(0,6); Holder h{VD(n),VR(n+1),V5(),VB()}; fresh(h.a,m[0]); fresh(h.b,m[1]); fresh(h.c,m[2]); fresh(h.d,m[3]); Holder k(h); fresh(h.a,m[0]); Holder l(std::move(h)); std::optional<Holder> o; o=l; o.emplace(k); bool ok=same(l.a,m[0])&&same(l.b,m[1])&&same(l.c,m[2])&&same(l.d,m[3])&&!(n>0&&same(o->a,m[0]))&&same(o->b,m[1])&&same(o->c,m[2])&&same(o->d,m[3]); k=l; ok=ok&&same(k.a,m[0])&&same(k.d,m[3]); std::map<int,VD> mp; mp.emplace(1,l.a); mp.insert({2,k.a}); auto mq=mp; ok=ok&&same(mq.at(1),m[0])&&same(mq.at(2),m[0]); std::pair<VD,V5> pr(l.a,l.c),ps(pr); auto lam=[pr]{ return pr; }; ps=lam(); ok=ok&&same(ps.first,m[0])&&same(ps.second,m[2]); VP_CHECK(ok,"holder/values","%s",ctx()); } break;
		case 16: name="move_assign"; if(!full(b)||b.moved||i==j) break; log(name,i,j); on(a,[&](auto&x){ on(b,[&](auto&y){ typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(y)>::type Y; if constexpr(std::is_same<X,Y>::value) if(takes(x,y.size())){ x=std::move(y); a.m=b.m; b.moved=true; if(std::is_same<Y,VR>::value){ b.moved=false; b.m.clear(); for(int q=0;q<y.size();q++) b.m.push_back(raw(y[q])); } else { Model m; Y z=make<Y>(y.size()); fresh(z,m); y=z; b.m=m; b.moved=false; } } }); }); break;
		case 17: name="assign_row"; log(name,i); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; const int n=std::is_same<X,VR>::value?g.range(0,8):x.size(); T::Matrix<Dyn,Dyn,P> A(3,n); Model m(n); for(int q=0;q<n;q++) for(int r=0;r<3;r++){ int z=++counter; A(r,q)=P(z); if(r==1) m[q]=z; } if(g.chance(.5)) x=A[1]; else { T::Matrix<Dyn,Dyn,P> B(n,3); B=A.T(); x=B.T()[1]; } a.m=m; }); break;
		case 18: name="expression"; log(name,i,j);
			if constexpr(!std::is_same<P,Tracked>::value) on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; Model m=a.m; const int n=x.size(); for(int&z:m) z%=1000; for(int q=0;q<n;q++) x[q]=P(m[q]); X y=make<X>(n); Model my; fresh(y,my);
				switch(g.range(0,9)){
				case 0: x=x+y; for(int q=0;q<n;q++) m[q]+=my[q]; break; case 1: x=y-x; for(int q=0;q<n;q++) m[q]=my[q]-m[q]; break; case 2: x=-x; for(int&z:m) z=-z; break; case 3: x=P(2)*x; for(int&z:m) z*=2; break;
				case 4: x+=x; for(int&z:m) z*=2; break; case 5: x-=x; for(int&z:m) z=0; break; case 6: x=T::Zeros; for(int&z:m) z=0; break; case 7: if constexpr(std::is_same<X,VR>::value){ const int k=g.range(0,8); x=T::Zeros(k); m.assign(k,0); } else { x=T::Zeros(n); for(int&z:m) z=0; } break;
				case 8: if constexpr(std::is_same<X,VR>::value){ VD u(g.range(0,8)),v(u.size()); Model mu,mv; fresh(u,mu); fresh(v,mv); x=u+v; m=mu; for(size_t q=0;q<m.size();q++) m[q]+=mv[q]; } else { X z(x+y); x=z; for(int q=0;q<n;q++) m[q]+=my[q]; } break;
				case 9: x=x+x*P(2); for(int&z:m) z*=3; break; }
				a.m=m; });
			break;
		case 19: name="fill"; log(name,i); on(a,[&](auto&x){ fresh(x,a.m); }); break;
		}
		audit(s,name);
	}
	vp::describe(trace.substr(0,400)); vp::sig(vp::hstr(trace.c_str()));
	}
	if(tracked) VP_CHECK(live_elements==0,"elements/all_destroyed","%ld elements left: %s",live_elements,ctx());
	// values seen are part of the comparison between configurations
	vp::dig(vp::hstr(trace.c_str())+counter);
}
// ---------------------------------------------------------------- matrices
typedef T::Matrix<Dyn,Dyn,P> MD; typedef T::Matrix<Dyn,Dyn,P,T::ColMajor> MC; typedef T::Matrix<3,4,P> MS; typedef T::Matrix<3,4,P,T::ColMajor> MSC; typedef T::Matrix<3,Dyn,P> MH; typedef T::Matrix<Dyn,4,P,T::ColMajor> MHC; static const int BR=BIG/6+1; typedef T::Matrix<BR,6,P> MB;
template<class X> struct dims { static const int r=-1,c=-1; };
template<int R,int C,class Q,class B> struct dims<T::Matrix<R,C,Q,B>> { static const int r=R,c=C; };
struct MM { int r=0,c=0; std::vector<int> d; MM(){} MM(int a,int b):r(a),c(b),d(a*b){} int& operator()(int i,int j){ return d[i*c+j]; } int operator()(int i,int j) const { return d[i*c+j]; } };
struct MSlot { std::variant<std::monostate,std::unique_ptr<MD>,std::unique_ptr<MC>,std::unique_ptr<MS>,std::unique_ptr<MSC>,std::unique_ptr<MH>,std::unique_ptr<MHC>,std::unique_ptr<MB>> o; MM m; };
template<class F> void on(MSlot&s,F f){ std::visit([&](auto&p){ if constexpr(!std::is_same<typename std::decay<decltype(p)>::type,std::monostate>::value) f(*p); },s.o); }
template<class X> X makem(int r,int c){ if constexpr(dims<X>::r>=0&&dims<X>::c>=0) return X(); else return X(r,c); }
template<class X> void fresh(X&x,MM&m){ m=MM(x.num_rows(),x.num_cols()); for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++){ m(i,j)=++counter; x(i,j)=P(m(i,j)); } }
template<class X> bool same(const X&x,const MM&m){ if(x.num_rows()!=m.r||x.num_cols()!=m.c) return false; for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) if(raw(x(i,j))!=m(i,j)) return false; return true; }
template<class X,class Y> constexpr bool static_okm(){ return (dims<X>::r<0||dims<Y>::r<0||dims<X>::r==dims<Y>::r)&&(dims<X>::c<0||dims<Y>::c<0||dims<X>::c==dims<Y>::c); }
template<class X> X by_value(X x,MM&m){ for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++){ m(i,j)=raw(x(i,j))+1; x(i,j)=P(m(i,j)); } return x; }
template<class X> X factorym(int r,int c,MM&m,int kind){ X x=makem<X>(r,c); fresh(x,m); if(kind==1){ X y(x); return y; } return x; }
template<class X> void put_in(MSlot&s,X*p,const MM&m){ s.o=std::unique_ptr<X>(p); s.m=m; }
template<class X> void createm(MSlot&s,int r,int c){ X*p=new X(makem<X>(r,c)); MM m; fresh(*p,m); put_in(s,p,m); }
static void new_matrix(Rng&g,MSlot&s){ int r=g.chance(.1)?0:g.range(1,5),c=g.chance(.1)?0:g.range(1,5); if(g.chance(.5)) r=3,c=4; else if(g.chance(.06)) r=g.range(6,33),c=g.range(6,33);
	switch(g.range(0,6)){ case 0: createm<MD>(s,r,c); break; case 1: createm<MC>(s,r,c); break; case 2: createm<MS>(s,3,4); break; case 3: createm<MSC>(s,3,4); break; case 4: createm<MH>(s,3,c); break; case 5: createm<MHC>(s,r,4); break; case 6: if(g.chance(.3)) createm<MD>(s,BR,6); else createm<MB>(s,BR,6); break; } }
static void audit(std::vector<MSlot>&s,const char*key){
	long expect=0; std::vector<std::pair<const char*,const char*>> rg; bool ok=true,addr=true;
	for(auto&sl:s) on(sl,[&](auto&x){ const int n=x.num_rows()*x.num_cols(); expect+=n; if(!same(x,sl.m)) ok=false; if(n) rg.push_back({(const char*)x.get_data_ptr(),(const char*)(x.get_data_ptr()+n)}); });
	VP_CHECK(ok,vp::key(std::string("matrix/values/")+key),"a matrix differs from its model after: %s",ctx());
	std::sort(rg.begin(),rg.end()); for(size_t i=1;i<rg.size();i++) if(rg[i].first<rg[i-1].second) addr=false;
	VP_CHECK(addr,"matrix/storage/distinct","two owning matrices share storage: %s",ctx());
	if(tracked){ VP_CHECK(live_elements==expect,vp::key(std::string("matrix/elements/live_")+key),"%ld live elements, %ld expected after %s",live_elements,expect,ctx()); VP_CHECK(element_faults==0,"matrix/elements/only_live_ones_used","%ld uses of dead elements: %s",element_faults,ctx()); }
}
VP_UNIT(matrix_history,3000,40000){
	Rng&g=rng; live_elements=0; element_faults=0; counter=0; trace.clear();
	{
	std::vector<MSlot> s(5); const int steps=g.range(8,30);
	for(int st=0;st<steps;st++){
		int i=g.range(0,4),j=g.range(0,4); MSlot&a=s[i],&b=s[j]; int op=g.range(0,12); const char*name="none";
		if(a.o.index()==0){ log("new",i); new_matrix(g,a); audit(s,"construct"); continue; }
		const bool have=b.o.index()!=0&&i!=j;
		switch(op){
		case 0: name="destroy"; log(name,i); a.o=std::monostate(); a.m=MM(); break;
		case 1: name="copy_construct"; if(i==j) break; log(name,i,j); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; MM m=a.m; X*p=g.chance(.5)?new X(x):new X(static_cast<const X&>(x)); put_in(b,p,m); }); break;
		case 2: name="convert_construct"; if(i==j) break; log(name,i,j); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; MM m=a.m; const bool t34=m.r==3&&m.c==4;
				switch(g.range(0,6)){ case 0: put_in(b,new MD(x),m); break; case 1: put_in(b,new MC(x),m); break; case 2: if constexpr(static_okm<MS,X>()) if(t34) put_in(b,new MS(x),m); break; case 3: if constexpr(static_okm<MSC,X>()) if(t34) put_in(b,new MSC(x),m); break; case 4: if constexpr(static_okm<MH,X>()) if(m.r==3) put_in(b,new MH(x),m); break;
				case 5: { int k=g.range(0,m.r),l=g.range(0,m.c),p=g.range(0,m.r-k),q=g.range(0,m.c-l); MM z(p,q); for(int e=0;e<p;e++) for(int f=0;f<q;f++) z(e,f)=m(k+e,l+f); put_in(b,new MD(x.slice(k,l,p,q)),z); break; }
				case 6: { MM z(m.c,m.r); for(int e=0;e<m.r;e++) for(int f=0;f<m.c;f++) z(f,e)=m(e,f); if(g.chance(.5)) put_in(b,new MC(x.T()),z); else put_in(b,new MD(x.T()),z); break; } } }); break;
		case 3: name="move_construct"; if(i==j) break; log(name,i,j); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; MM m=a.m; X*p=new X(std::move(x)); put_in(b,p,m); X y=makem<X>(m.r,m.c); fresh(y,a.m); x=y; }); break;
		case 4: case 5: name="assign"; if(!have) break; log(name,i,j); on(a,[&](auto&x){ on(b,[&](auto&y){ typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(y)>::type Y; if constexpr(static_okm<X,Y>()) if(a.m.r==b.m.r&&a.m.c==b.m.c){ switch(g.range(0,3)){ case 0: x=y; break; case 1: x=static_cast<const Y&>(y); break; case 2: x=y.slice(0,0,b.m.r,b.m.c); break; case 3: x.T()=y.T(); break; } a.m=b.m; } }); }); break;
		case 6: name="self_assign"; log(name,i); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; const X&c=x; const int r=a.m.r,q=a.m.c; switch(g.range(0,5)){ case 0: { auto&y=x; x=y; break; } case 1: x=c; break; case 2: x=x.slice(0,0,r,q); break; case 3: x=c.slice(0,0,r,q); break; case 4: x=x.T().T(); break; case 5: x.T()=c.T(); break; } }); break;
		case 7: name="swap"; if(!have) break; log(name,i,j); on(a,[&](auto&x){ on(b,[&](auto&y){ typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(y)>::type Y; if constexpr(std::is_same<X,Y>::value) if(a.m.r==b.m.r&&a.m.c==b.m.c){ using std::swap; swap(x,y); std::swap(a.m,b.m); } }); }); break;
		case 8: name="by_value"; log(name,i); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; MM m=a.m; X r=by_value(x,m); bool ok=same(r,m); VP_CHECK(ok,"matrix/by_value/result","%s",ctx()); x=by_value(r,m); a.m=m; }); break;
		case 9: name="factory"; log(name,i); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; MM m; x=factorym<X>(a.m.r,a.m.c,m,g.range(0,1)); a.m=m; }); break;
		case 10: name="container"; log(name,i); on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; std::vector<X> c; std::vector<MM> cm; const int k=g.range(1,5); for(int q=0;q<k;q++){ MM m; X y=makem<X>(a.m.r,a.m.c); fresh(y,m); if(g.chance(.5)) c.push_back(y); else c.push_back(std::move(y)); cm.push_back(m); }
				for(int r=g.range(1,4);r>0;r--) switch(g.range(0,3)){ case 0: { int p=g.range(0,(int)c.size()); c.insert(c.begin()+p,x); cm.insert(cm.begin()+p,a.m); break; } case 1: if(c.size()>1){ int p=g.range(0,(int)c.size()-1); c.erase(c.begin()+p); cm.erase(cm.begin()+p); } break; case 2: std::reverse(c.begin(),c.end()); std::reverse(cm.begin(),cm.end()); break; case 3: { std::deque<X> e(c.begin(),c.end()); c.assign(e.begin(),e.end()); break; } }
				bool ok=true; for(size_t q=0;q<c.size()&&ok;q++) ok=same(c[q],cm[q]); VP_CHECK(ok,"matrix/container/values","%s",ctx()); x=c.front(); a.m=cm.front(); }); break;
		case 11: name="rows"; if(!have) break; log(name,i,j); on(a,[&](auto&x){ on(b,[&](auto&y){ typedef typename std::decay<decltype(x)>::type X; typedef typename std::decay<decltype(y)>::type Y; if constexpr(dims<X>::c<0||dims<Y>::c<0||dims<X>::c==dims<Y>::c) if(a.m.c==b.m.c&&a.m.r&&b.m.r){ int p=g.range(0,a.m.r-1),q=g.range(0,b.m.r-1); if(g.chance(.5)){ x[p]=y[q]; for(int e=0;e<a.m.c;e++) a.m(p,e)=b.m(q,e); } else { auto u=x[p]; auto v=y[q]; T::swap(u,v); for(int e=0;e<a.m.c;e++) std::swap(a.m(p,e),b.m(q,e)); } } }); }); break;
		case 12: name="expression"; log(name,i);
			if constexpr(!std::is_same<P,Tracked>::value) on(a,[&](auto&x){ typedef typename std::decay<decltype(x)>::type X; MM m=a.m,my; for(int&z:m.d) z%=1000; for(int e=0;e<m.r;e++) for(int f=0;f<m.c;f++) x(e,f)=P(m(e,f)); X y=makem<X>(m.r,m.c); fresh(y,my); const size_t n=m.d.size();
				switch(g.range(0,6)){ case 0: x=x+y; for(size_t q=0;q<n;q++) m.d[q]+=my.d[q]; break; case 1: x=y-x; for(size_t q=0;q<n;q++) m.d[q]=my.d[q]-m.d[q]; break; case 2: x=-x; for(int&z:m.d) z=-z; break; case 3: x+=x; for(int&z:m.d) z*=2; break; case 4: x=T::Zeros; for(int&z:m.d) z=0; break; case 5: x=T::Zeros(m.r,m.c); for(int&z:m.d) z=0; break; case 6: { X z(x+y); x=z; for(size_t q=0;q<n;q++) m.d[q]+=my.d[q]; break; } }
				a.m=m; });
			break;
		}
		audit(s,name);
	}
	vp::describe(trace.substr(0,400)); vp::sig(vp::hstr(trace.c_str()));
	}
	if(tracked) VP_CHECK(live_elements==0,"matrix/elements/all_destroyed","%ld elements left: %s",live_elements,ctx());
}
