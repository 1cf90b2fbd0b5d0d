// C06: text written by << contains exactly the elements in row-major order and reads back to the same object.
#include "vp.hpp"
#include <TooN/TooN.h>
#include "c01.hpp"
#include "rigid.hpp"
#include <sstream>
#include <iomanip>
#include <complex>
using vp::Rng;
typedef std::complex<double> CD; typedef std::complex<float> CF;
template<class Q> struct isc { static const bool v=false; }; template<class X> struct isc<std::complex<X>> { static const bool v=true; };
template<class Q> Q oneval(Rng&g){
	if constexpr(isc<Q>::v){ typedef typename Q::value_type W; return Q(oneval<W>(g),oneval<W>(g)); }
	else if constexpr(std::is_integral<Q>::value){ switch(g.range(0,4)){ case 0: return std::numeric_limits<Q>::max(); case 1: return std::numeric_limits<Q>::min(); case 2: return 0; default: return (Q)g.range(-99999,99999); } }
	else { typedef std::numeric_limits<Q> NL; switch(g.range(0,9)){ case 0: return 0; case 1: return -Q(0); case 2: return NL::max()*(Q)(g.chance(.5)?1:-1); case 3: return NL::min(); case 4: return NL::denorm_min()*(Q)g.range(1,1000); case 5: return (Q)g.range(-9,9); case 6: return Q(1)/3*(Q)g.normal(); case 7: return std::ldexp((Q)g.normal(),g.range(-100,100)); case 8: return 1+NL::epsilon()*(Q)g.range(-3,3); default: return (Q)g.normal(); } }
}
// element types small enough for long runs of ordinary text
template<class Q> bool same_bits(const Q&a,const Q&b){ if constexpr(isc<Q>::v) return same_bits(a.real(),b.real())&&same_bits(a.imag(),b.imag()); else if constexpr(std::is_integral<Q>::value) return a==b; else return a==b&&std::signbit(a)==std::signbit(b); }
template<class Q> int digits(){ if constexpr(isc<Q>::v) return std::numeric_limits<typename Q::value_type>::max_digits10; else return std::max(6,(int)std::numeric_limits<Q>::max_digits10); }
struct Fmt { int fl,prec,width; char fill; };
static Fmt pickfmt(Rng&g,int d){ return Fmt{g.range(0,3),d+(g.chance(.2)?g.range(0,5):0),g.chance(.3)?g.range(1,40):0,' '}; }
static void apply(std::ostream&o,const Fmt&f,bool huge){ o<<std::setprecision(f.prec); if(f.fl==1) o<<std::scientific; if(f.fl==2) o<<std::showpos; if(f.fl==3){ if(huge) o<<std::showpoint; else o<<std::scientific<<std::uppercase; } }
static std::vector<std::string> words(const std::string&s){ std::istringstream i(s); std::vector<std::string> w; std::string x; while(i>>x) w.push_back(x); return w; }
template<class Q> std::vector<std::string> expected(const std::vector<Q>&e,const Fmt&f){ std::vector<std::string> w; for(auto&x:e){ std::ostringstream o; apply(o,f,true); o<<x; w.push_back(o.str()); } return w; }
static std::string join(const std::vector<std::string>&w){ std::string s; for(size_t i=0;i<w.size()&&i<30;i++) s+=w[i]+" "; return s; }
// the same numbers with other white space between them
static std::string reflow(Rng&g,const std::vector<std::string>&w){ static const char*const ws[]={" ","\n","\t","  \n ","\r\n","\n\n\n"}; std::string s=g.chance(.5)?ws[g.range(0,5)]:""; for(auto&x:w) s+=x+ws[g.range(0,5)]; return s; }
template<class X,class Q> void roundtrip(Rng&g,const std::string&pre,const X&x,const std::vector<Q>&e,std::function<void(std::istream&)> readback,std::function<bool()> check){
	Fmt f=pickfmt(g,digits<Q>()); std::ostringstream o; apply(o,f,true); if(f.width) o<<std::setw(f.width); const auto fl=o.flags(); o<<x; VP_CHECK(o.good()&&o.flags()==fl&&o.precision()==f.prec,vp::key(pre+"stream_state"),"stream changed");
	std::vector<std::string> w=words(o.str()),want=expected(e,f);
	// a width larger than the text must not split or lose elements either
	VP_CHECK(w==want,vp::key(pre+"text"),"wrote \"%s\", elements are \"%s\"",join(w).c_str(),join(want).c_str());
	if(w!=want) return;
	std::string t=g.chance(.5)?o.str():reflow(g,w); const bool sentinel=g.chance(.7); if(sentinel) t+=" 4711 rest"; std::istringstream i(t); readback(i);
	VP_CHECK(!i.fail(),vp::key(pre+"read_succeeds"),"reading \"%s\" failed",t.substr(0,300).c_str()); if(i.fail()) return;
	bool ok=check(); VP_CHECK(ok,vp::key(pre+"same_elements"),"reading \"%s\" gave other elements",t.substr(0,400).c_str());
	if(sentinel){ int n=0; std::string r; i>>n>>r; VP_CHECK(n==4711&&r=="rest",vp::key(pre+"consumes_exactly"),"after reading \"%s\" the stream is at %d %s",t.substr(0,300).c_str(),n,r.c_str()); } else { std::string r; i>>r; VP_CHECK(r.empty(),vp::key(pre+"consumes_all"),"left \"%s\"",r.substr(0,100).c_str()); }
}
template<class Q> std::vector<Q> list(Rng&g,int n){ std::vector<Q> e(n); for(auto&x:e) x=oneval<Q>(g); return e; }
template<class Q> const char* qname(){ if(std::is_same<Q,double>::value) return ""; if(std::is_same<Q,float>::value) return "float/"; if(std::is_same<Q,int>::value) return "int/"; if(std::is_same<Q,long double>::value) return "longdouble/"; return "complex/"; }
template<class Q> bool special(Q){ return false; }
template<int N,class Q> void vec(Rng&g,int n){
	std::string pre=std::string(qname<Q>())+"vector/"; std::vector<Q> e=list<Q>(g,n); vp::sig(vp::hbytes(e.data(),n)); std::ostringstream d; for(int i=0;i<n&&i<8;i++) d<<e[i]<<" "; vp::describe(pre+d.str());
	// real values of type double fit the shared storages; others use owned objects
	if constexpr(!isc<Q>::v){ V v(n); for(int i=0;i<n;i++) v[i]=e[i];
		with_vec<N,Q>(g,v,[&](auto&x){ for(int i=0;i<n;i++) x[i]=e[i]; 
			V back(n); with_vec<(N<0?N:N),Q>(g,back,[&](auto&y){ const auto&cx=x; roundtrip(g,pre,cx,e,[&](std::istream&i){ i>>y; },[&]{ for(int k=0;k<n;k++) if(!same_bits<Q>(y[k],e[k])) return false; return true; }); }); }); }
	else { T::Vector<N,Q> x(n); for(int i=0;i<n;i++) x[i]=e[i]; T::Matrix<3,N,Q> B(3,n); B=T::Zeros; auto y=B[1]; roundtrip(g,pre,x,e,[&](std::istream&i){ i>>y; },[&]{ for(int k=0;k<n;k++) if(!same_bits<Q>(y[k],e[k])||B(0,k)!=Q(0)||B(2,k)!=Q(0)) return false; return true; }); }
}
template<int R,int C,class Q> void mat(Rng&g,int r,int c){
	std::string pre=std::string(qname<Q>())+"matrix/"; std::vector<Q> e=list<Q>(g,r*c); vp::sig(vp::hbytes(e.data(),r*c)); std::ostringstream d; d<<r<<"x"<<c<<": "; for(int i=0;i<r*c&&i<8;i++) d<<e[i]<<" "; vp::describe(pre+d.str());
	if constexpr(!isc<Q>::v){ M m(r,c); for(int i=0;i<r*c;i++) m.d[i]=0;
		with_mat<R,C,Q>(g,m,[&](auto&x){ for(int i=0;i<r;i++) for(int j=0;j<c;j++) x(i,j)=e[i*c+j];
			with_mat<R,C,Q>(g,m,[&](auto&y){ const auto&cx=x; roundtrip(g,pre,cx,e,[&](std::istream&i){ i>>y; },[&]{ for(int i=0;i<r;i++) for(int j=0;j<c;j++) if(!same_bits<Q>(y(i,j),e[i*c+j])) return false; return true; }); }); }); }
	else { T::Matrix<R,C,Q,T::ColMajor> x(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) x(i,j)=e[i*c+j]; T::Matrix<C,R,Q> B(c,r); auto y=B.T(); roundtrip(g,pre,x,e,[&](std::istream&i){ i>>y; },[&]{ for(int i=0;i<r;i++) for(int j=0;j<c;j++) if(!same_bits<Q>(B(j,i),e[i*c+j])) return false; return true; }); }
}
VP_UNIT(vectors,4000,60000){ Rng&g=rng; switch(g.range(0,6)){ case 0: vec<3,double>(g,3); break; case 1: vec<Dyn,double>(g,g.chance(.05)?g.range(31,400):g.range(0,30)); break; case 2: vec<4,float>(g,4); break; case 3: vec<Dyn,int>(g,g.range(0,9)); break; case 4: vec<Dyn,long double>(g,g.range(1,5)); break; case 5: vec<3,CD>(g,3); break; case 6: vec<Dyn,CF>(g,g.range(0,6)); break; } }
VP_UNIT(matrices,4000,60000){ Rng&g=rng; switch(g.range(0,6)){ case 0: mat<2,3,double>(g,2,3); break; case 1: mat<Dyn,Dyn,double>(g,g.chance(.04)?g.range(10,40):g.range(0,9),g.chance(.04)?g.range(10,40):g.range(1,9)); break; case 2: mat<3,3,float>(g,3,3); break; case 3: mat<Dyn,2,int>(g,g.range(1,6),2); break; case 4: mat<4,1,double>(g,4,1); break; case 5: mat<2,2,CD>(g,2,2); break; case 6: mat<1,Dyn,long double>(g,1,g.range(0,6)); break; } }
// several objects in one stream
VP_UNIT(sequences,2000,30000){ Rng&g=rng; std::vector<double> e=list<double>(g,3+4+6+5+4); int n=g.range(0,7); std::vector<double> e2=list<double>(g,n*2); vp::sig(vp::hbytes(e.data(),22)); vp::describe(vp::fmt("%g %g %g %g n=%d",e[0],e[1],e[2],e[3],n));
	T::Vector<3> a; T::Vector<Dyn> b(4); T::Matrix<2,3> c; T::Matrix<2,2,double,T::ColMajor> f; T::Vector<T::Resizable> d(5); T::Matrix<Dyn,Dyn> h(n,2); int k=0; for(int i=0;i<3;i++) a[i]=e[k++]; for(int i=0;i<4;i++) b[i]=e[k++]; for(int i=0;i<6;i++) c(i/3,i%3)=e[k++]; for(int i=0;i<5;i++) d[i]=e[k++]; for(int i=0;i<4;i++) f(i/2,i%2)=e[k++]; for(int i=0;i<2*n;i++) h(i/2,i%2)=e2[i];
	std::stringstream s; s<<std::setprecision(17)<<a<<b<<c<<d<<h<<f<<99; T::Vector<3> a2; T::Vector<Dyn> b2(4); T::Matrix<2,3> c2; T::Matrix<2,2,double,T::ColMajor> f2; T::Vector<T::Resizable> d2(5); T::Matrix<Dyn,Dyn> h2(n,2); int end=0; s>>a2>>b2>>c2>>d2>>h2>>f2>>end;
	bool ok=!s.fail()&&end==99&&d2.size()==5&&a==a2&&b==b2&&c==c2&&d==d2&&h==h2&&f==f2; VP_CHECK(ok,"sequence/same_objects","text %s",s.str().substr(0,400).c_str());
	// into parts of larger objects
	std::stringstream t; t<<std::setprecision(17)<<c.T()<<f.diagonal_slice()<<b.slice(1,2)<<c[1]; T::Matrix<4,5> M4; M4=T::Ones*77; auto sl=M4.slice<1,2,3,2>(); t>>sl; T::Vector<2> dg; t>>dg; T::Vector<6> big=T::Ones*77; auto bs=big.slice<3,2>(); t>>bs; T::Matrix<3,3> R=T::Ones*77; auto col=R.T()[2]; t>>col; ok=!t.fail();
	for(int i=0;i<4;i++) for(int j=0;j<5;j++){ bool in=i>=1&&j>=2&&j<4; if(M4(i,j)!=(in?c(j-2,i-1):77)) ok=false; } for(int i=0;i<6;i++) if(big[i]!=(i==3||i==4?b[i-2]:77)) ok=false; for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(R(i,j)!=(j==2?c(1,i):77)) ok=false; ok=ok&&dg[0]==f(0,0)&&dg[1]==f(1,1); VP_CHECK(ok,"sequence/views","text %s",t.str().substr(0,400).c_str());
}
// groups
template<class P> std::vector<double> numbers(const std::string&s){ std::vector<double> v; for(auto&w:words(s)) v.push_back(strtod(w.c_str(),0)); return v; }
template<class P,class F> void text_is(const std::string&pre,const std::string&txt,const M&want,int cols,L scale,F){ auto w=words(txt); bool ok=(int)w.size()==want.r*cols; for(int i=0;ok&&i<want.r;i++) for(int j=0;j<cols;j++) if(!(fabsl(strtold(w[i*cols+j].c_str(),0)-want(i,j))<=4*epsP<P>()*std::max(fabsl(want(i,j)),scale*1e-3L)+1e-40L)) ok=false; VP_CHECK(ok,vp::key(pre+"text"),"wrote %s for %s",txt.substr(0,400).c_str(),show(want).c_str()); }
template<int D,bool SIM,class P> void rigid(Rng&g,const char*name){
	typedef Suite<D,SIM,P> S; typedef typename S::G G; std::string pre=std::string(name)+(isflt<P>()?"/float/":"/"); V v=S::params(g,100); vp::describe(pre+show(v)); vp::sig(vp::hbytes(v.data(),v.size())); G x=S::make(g,v); if(g.chance(.3)) x=x*S::make(g,S::params(g,3)); M h=hom<D,SIM>(x);
	if(!isflt<P>()||tnorm(h)<1e30L){ } std::ostringstream o; o<<std::setprecision(std::numeric_limits<P>::max_digits10); if(g.chance(.3)) o<<std::scientific; const int width=g.chance(.3)?g.range(1,30):0; if(width) o<<std::setw(width); o<<x; M top(D,D+1); for(int i=0;i<D;i++) for(int j=0;j<=D;j++) top(i,j)=h(i,j); text_is<P>(pre,o.str(),top,D+1,0,0);
	std::string t=g.chance(.5)?o.str():reflow(g,words(o.str())); std::istringstream i(t+" 4711 rest"); G y; if(g.chance(.5)) y=S::make(g,S::params(g,3)); i>>y; int n=0; std::string r; i>>n>>r; VP_CHECK(n==4711&&r=="rest",vp::key(pre+"consumes_exactly"),"stream at %d %s after %s",n,r.c_str(),t.substr(0,300).c_str());
	M k=hom<D,SIM>(y); L er,et; blockerr(k,h,er,et); VP_CLOSE(er,24*epsP<P>()*snorm(h),vp::key(pre+"linear_part"),"read %s for %s",show(k).c_str(),show(h).c_str()); VP_CHECK(et==0,vp::key(pre+"translation"),"read %s for %s",show(k).c_str(),show(h).c_str()); S::validG(y,tolR<P>(),pre+"read");
	if(SIM) VP_CLOSE(fabsl(getscale(y,S::sim)-getscale(x,S::sim)),16*epsP<P>()*getscale(x,S::sim),vp::key(pre+"scale"),"scale %Lg read as %Lg",getscale(x,S::sim),getscale(y,S::sim));
	std::stringstream q; q<<std::setprecision(std::numeric_limits<P>::max_digits10)<<x<<y<<5; G a,b; int e=0; q>>a>>b>>e; M ka=hom<D,SIM>(a),kb=hom<D,SIM>(b); L e1,t1,e2,t2; blockerr(ka,h,e1,t1); blockerr(kb,k,e2,t2); VP_CHECK(e==5&&t1==0&&t2==0&&e1<=24*epsP<P>()*snorm(h)&&e2<=24*epsP<P>()*snorm(h),vp::key(pre+"sequence"),"two elements in one stream");
}
template<class R,int D,class P> void rot(Rng&g,const char*name){ std::string pre=std::string(name)+(isflt<P>()?"/float/":"/"); V w(D==2?1:3); { L a=angle(g,100); V x=axis(g); if(D==2) w[0]=a; else for(int i=0;i<3;i++) w[i]=a*x[i]; } roundto<P>(w); vp::describe(pre+show(w)); vp::sig(vp::hbytes(w.data(),w.size()));
	R x; if constexpr(D==2) x=R((P)w[0]); else { T::Vector<3,P> t; toV(t,w); x=R(t); } M h=fromM(x.get_matrix()); std::ostringstream o; o<<std::setprecision(std::numeric_limits<P>::max_digits10)<<x; text_is<P>(pre,o.str(),h,D,0,0); std::string t=g.chance(.5)?o.str():reflow(g,words(o.str())); std::istringstream i(t+" 4711 rest"); R y; i>>y; int n=0; std::string r; i>>n>>r; VP_CHECK(n==4711&&r=="rest",vp::key(pre+"consumes_exactly"),"stream at %d %s",n,r.c_str()); M k=fromM(y.get_matrix()); VP_CLOSE(maxbad(sub(k,h)),24*epsP<P>(),vp::key(pre+"same_rotation"),"read %s for %s",show(k).c_str(),show(h).c_str()); VP_CHECK(validrot(k,tolR<P>()),vp::key(pre+"rotation_valid"),"%s",show(k).c_str()); }
template<int N,class P> void slN(Rng&g){ std::string pre=vp::fmt("sl%d%s/",N,isflt<P>()?"/float":""); V v(N*N-1); for(auto&x:v) x=g.normal()*.4; roundto<P>(v); vp::describe(pre+show(v)); vp::sig(vp::hbytes(v.data(),v.size())); T::Vector<N*N-1,P> tv; toV(tv,v); T::SL<N,P> x(tv); M h=fromM(x.get_matrix()); std::ostringstream o; o<<std::setprecision(std::numeric_limits<P>::max_digits10)<<x; text_is<P>(pre,o.str(),h,N,0,0); std::istringstream i((g.chance(.5)?o.str():reflow(g,words(o.str())))+" 4711 rest"); T::SL<N,P> y; i>>y; int n=0; std::string r; i>>n>>r; VP_CHECK(n==4711&&r=="rest",vp::key(pre+"consumes_exactly"),"stream at %d %s",n,r.c_str()); M k=fromM(y.get_matrix()); L rn=1; for(int q=0;q<N;q++) rn*=norm(rowof(h,q)); VP_CLOSE(maxbad(sub(k,h)),64*epsP<P>()*std::max<L>(1,rn)*fro(h),vp::key(pre+"same_element"),"read %s for %s",show(k).c_str(),show(h).c_str()); }
VP_UNIT(groups,4000,60000){ Rng&g=rng; switch(g.range(0,11)){ case 0: rigid<2,false,double>(g,"se2"); break; case 1: rigid<3,false,double>(g,"se3"); break; case 2: rigid<2,true,double>(g,"sim2"); break; case 3: rigid<3,true,double>(g,"sim3"); break; case 4: rigid<3,false,float>(g,"se3"); break; case 5: rigid<3,true,float>(g,"sim3"); break; case 6: rigid<2,false,float>(g,"se2"); break; case 7: rot<T::SO2<double>,2,double>(g,"so2"); break; case 8: rot<T::SO3<double>,3,double>(g,"so3"); break; case 9: rot<T::SO3<float>,3,float>(g,"so3"); break; case 10: slN<2,double>(g); break; case 11: if(g.chance(.5)) slN<3,double>(g); else slN<4,float>(g); break; } }
// text with fewer digits still lists the elements in order; a text that ends early is reported by the stream
VP_UNIT(short_text,3000,40000){ Rng&g=rng; const int r=g.range(1,5),c=g.range(1,5); std::vector<double> e=list<double>(g,r*c); vp::sig(vp::hbytes(e.data(),r*c)); vp::describe(vp::fmt("%dx%d %g %g",r,c,e[0],e.back()));
	T::Matrix<Dyn,Dyn> m(r,c); T::Matrix<Dyn,Dyn,double,T::ColMajor> cm(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=cm(i,j)=e[i*c+j]; Fmt f{g.range(0,3),g.range(0,9),0,' '}; std::vector<std::string> want=expected(e,f),wt; for(int j=0;j<c;j++) for(int i=0;i<r;i++) wt.push_back(want[i*c+j]);
	{ std::ostringstream o; apply(o,f,true); switch(g.range(0,3)){ case 0: o<<m; VP_CHECK(words(o.str())==want,"short/matrix","%s",o.str().c_str()); break; case 1: o<<cm; VP_CHECK(words(o.str())==want,"short/matrix_colmajor","%s",o.str().c_str()); break; case 2: o<<m.T(); VP_CHECK(words(o.str())==wt,"short/matrix_transposed","%s",o.str().c_str()); break; case 3: { int k=g.range(0,r-1); o<<cm[k]; VP_CHECK(words(o.str())==std::vector<std::string>(want.begin()+k*c,want.begin()+(k+1)*c),"short/row","%s",o.str().c_str()); break; } } }
	{ std::ostringstream o; apply(o,f,true); o<<m; std::vector<std::string> lines; std::istringstream i(o.str()); std::string l; while(std::getline(i,l)) if(!words(l).empty()) lines.push_back(l); bool ok=(int)lines.size()==r; for(int k=0;ok&&k<r;k++) ok=words(lines[k])==std::vector<std::string>(want.begin()+k*c,want.begin()+(k+1)*c); VP_CHECK(ok,"short/one_line_per_row","%s",o.str().c_str()); }
	{ int have=g.range(0,r*c-1); std::string t; for(int k=0;k<have;k++) t+=want[k]+" "; if(g.chance(.3)) t+="xyz 1 2 3"; std::istringstream i(t); T::Matrix<Dyn,Dyn> q(r,c); q=T::Zeros; i>>q; VP_CHECK(i.fail(),"short/truncated_matrix_reported","\"%s\" accepted as %dx%d",t.c_str(),r,c); std::istringstream i2(t); T::Vector<> v(r*c); v=T::Zeros; i2>>v; VP_CHECK(i2.fail(),"short/truncated_vector_reported","\"%s\" accepted as %d elements",t.c_str(),r*c); }
}
