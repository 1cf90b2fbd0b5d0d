// Shared by C20 and C21: the transformation groups SE2, SE3, SIM2, SIM3 against homogeneous matrices.
#pragma once
#include "groups.hpp"
template<int D,bool SIM,class P> struct Traits;
template<class P> struct Traits<2,false,P>{ typedef T::SE2<P> G; typedef T::SO2<P> R; };
template<class P> struct Traits<3,false,P>{ typedef T::SE3<P> G; typedef T::SO3<P> R; };
template<class P> struct Traits<2,true,P>{ typedef T::SIM2<P> G; typedef T::SO2<P> R; };
template<class P> struct Traits<3,true,P>{ typedef T::SIM3<P> G; typedef T::SO3<P> R; };
template<class G> L getscale(const G&g,std::true_type){ return g.get_scale(); }
template<class G> L getscale(const G&,std::false_type){ return 1; }
template<int D,bool SIM,class G> M hom(const G&g){ M h(D+1,D+1); L s=getscale(g,std::integral_constant<bool,SIM>()); const auto&R=g.get_rotation().get_matrix(); const auto&t=g.get_translation(); for(int i=0;i<D;i++){ for(int j=0;j<D;j++) h(i,j)=s*(L)R(i,j); h(i,D)=t[i]; } h(D,D)=1; return h; }
inline L tnorm(const M&h){ int d=h.r-1; L s=0; for(int i=0;i<d;i++) s=std::max(s,bad(h(i,d))); return s; }
inline L snorm(const M&h){ int d=h.r-1; L s=0; for(int i=0;i<d;i++) for(int j=0;j<d;j++) s=std::max(s,bad(h(i,j))); return s; }
// largest errors in the linear and in the translation block
inline void blockerr(const M&a,const M&b,L&er,L&et){ int d=a.r-1; er=et=0; for(int i=0;i<d;i++){ for(int j=0;j<d;j++) er=std::max(er,bad(a(i,j)-b(i,j))); et=std::max(et,bad(a(i,d)-b(i,d))); } }
// 'from' is the transformation the parts of which fix the scale of the rounding errors
template<class P> void closeH(const M&got,const M&want,L srel,L tscale,const std::string&key,const char*what){ L er,et; blockerr(got,want,er,et); VP_CLOSE(er,tolR<P>()*srel,vp::key(key+"_linear"),"%s got %s want %s",what,show(got).c_str(),show(want).c_str()); VP_CLOSE(et,tolR<P>()*tscale,vp::key(key+"_translation"),"%s got %s want %s",what,show(got).c_str(),show(want).c_str()); }
inline M inverseH(const M&h){ bool ok; return solve(h,eye(h.r),&ok); }
// reference exponential: it is linear in the translation, which is taken out because a large one would spoil scaling and squaring
inline M expH(int d,V v){ L n=0; for(int i=0;i<d;i++) n=std::max(n,fabsl(v[i])); if(!(n>0)) n=1; for(int i=0;i<d;i++) v[i]/=n; M e=expm(hatd(d,v)); for(int i=0;i<d;i++) e(i,d)*=n; return e; }
template<int D,bool SIM,class P> struct Suite {
	typedef typename Traits<D,SIM,P>::G G; typedef typename Traits<D,SIM,P>::R SO; static const int NP=(D==2?3:6)+(SIM?1:0); static const int A0=D; static const int NA=D==2?1:3;
	static constexpr std::integral_constant<bool,SIM> sim{};
	static V params(vp::Rng&g,L maxang,L maxt=0){ (void)maxt; V v(NP); V t=transl(g,D,isflt<P>()); for(int i=0;i<D;i++) v[i]=t[i]; L a=angle(g,maxang); if(D==2) v[2]=g.range(0,1)?a:-a; else { V x=axis(g); for(int i=0;i<3;i++) v[3+i]=a*x[i]; } if(SIM) v[NP-1]=logscale(g); roundto<P>(v); return v; }
	static L ang(const V&v){ L s=0; for(int i=0;i<NA;i++) s+=v[A0+i]*v[A0+i]; return sqrtl(s); }
	static L tn(const V&v){ L s=0; for(int i=0;i<D;i++) s+=v[i]*v[i]; return sqrtl(s); }
	static G make(vp::Rng&g,const V&v){ T::Vector<NP,P> s; toV(s,v); switch(g.range(0,4)){ case 0: return G::exp(s); case 1: return G(s); case 2: { T::Vector<Dyn,P> d(NP); toV(d,v); return G::exp(d); } case 3: { T::Vector<NP+3,P> b; b=T::Zeros; b.template slice<2,NP>()=s; return G(b.template slice<2,NP>()); } default: { T::Matrix<NP,2,P> b; b=T::Zeros; b.T()[1]=s; return G::exp(b.T()[1]); } } }
	static bool differs(const G&a,const G&b){ M x=hom<D,SIM>(a),y=hom<D,SIM>(b); return !(maxbad(sub(x,y))==0); }
	static void validG(const G&g,L tol,const std::string&key){ M r=fromM(g.get_rotation().get_matrix()); VP_CHECK(validrot(r,tol),vp::key(key+"_rotation_valid"),"rotation part is not a rotation: %s",show(r).c_str()); if(SIM) VP_CHECK(getscale(g,sim)>0,vp::key(key+"_scale_positive"),"scale %Lg",getscale(g,sim)); }
	static void extras3(vp::Rng&g,const std::string&pre,const G&X,const G&Y,const M&h,const M&k,std::true_type){
		// left multiplication in place, covectors
		G Z=Y; Z.left_multiply_by(X); M hk=mul(h,k); closeH<P>(hom<D,SIM>(Z),hk,8*snorm(h)*snorm(k),8*(tnorm(h)+snorm(h)*tnorm(k)),K("left_multiply_by"),"left_multiply_by"); VP_CHECK(returned_itself(Z.left_multiply_by(X),Z),K("left_multiply_by_returns"),"left_multiply_by does not return the object it changed"); Z=X; Z.left_multiply_by(Z); closeH<P>(hom<D,SIM>(Z),mul(h,h),8*snorm(h)*snorm(h),8*(tnorm(h)+snorm(h)*tnorm(h)),K("left_multiply_by_self"),"left_multiply_by itself");
		V a=randv(g,NP),b=randv(g,NP); roundto<P>(a); roundto<P>(b); T::Vector<NP,P> ta,tb; toV(ta,a); toV(tb,b); M hi=inverseH(h); L amp=(1+tnorm(h)+snorm(h))*(1+tnorm(hi)+snorm(hi));
		V ad=fromV(X.adjoint(ta)),tb_=fromV(X.trinvadjoint(tb)); VP_CLOSE(fabsl(dot(ad,tb_)-dot(a,b)),16*tolR<P>()*amp*norm(a)*norm(b)*(1+tnorm(h)*tnorm(hi)),K("trinvadjoint"),"trinvadjoint(b) adjoint(a) = %Lg, a b = %Lg",dot(ad,tb_),dot(a,b));
		M A(NP,NP); for(int j=0;j<NP;j++){ V e(NP); e[j]=1; V c=vee(D,mul(mul(h,hatd(D,e)),hi),SIM); for(int i=0;i<NP;i++) A(i,j)=c[i]; } bool ok; M Ai=solve(A,eye(NP),&ok); 
		{ V want=mul(tr(Ai),b); VP_CLOSE(maxbad(sub(tb_,want)),16*tolR<P>()*(fro(Ai)*norm(b)+1),K("trinvadjoint_value"),"trinvadjoint"); T::Vector<Dyn,P> d(NP); toV(d,b); VP_CLOSE(maxbad(sub(fromV(X.trinvadjoint(d)),want)),16*tolR<P>()*(fro(Ai)*norm(b)+1),K("trinvadjoint_value"),"trinvadjoint of a dynamic vector"); }
		M mm=randn(g,NP,NP); roundto<P>(mm); T::Matrix<NP,NP,P> tm; put(tm,mm); M wt=mul(mul(tr(Ai),mm),Ai); VP_CLOSE(maxbad(sub(fromM(X.trinvadjoint(tm)),wt)),16*tolR<P>()*(fro(Ai)*fro(Ai)*fro(mm)+1),K("trinvadjoint_matrix"),"trinvadjoint of a matrix");
		{ T::Matrix<Dyn,Dyn,P> d(NP,NP); put(d,mm); M wa=mul(mul(A,mm),tr(A)); VP_CLOSE(maxbad(sub(fromM(X.adjoint(d)),wa)),16*tolR<P>()*(fro(A)*fro(A)*fro(mm)+1),K("adjoint_matrix"),"adjoint of a dynamic matrix"); VP_CLOSE(maxbad(sub(fromM(X.adjoint(d.T())),mul(mul(A,tr(mm)),tr(A)))),16*tolR<P>()*(fro(A)*fro(A)*fro(mm)+1),K("adjoint_matrix"),"adjoint of a transposed matrix"); T::Vector<Dyn,P> dv(NP); toV(dv,a); VP_CLOSE(maxbad(sub(fromV(X.adjoint(dv)),ad)),0,K("adjoint_dynamic"),"adjoint of a dynamic vector"); }
		V x=randv(g,4); if(g.chance(.5)) x[3]=1; roundto<P>(x); T::Vector<4,P> tx; toV(tx,x); for(int i=0;i<NP;i++){ V f=fromV(G::generator_field(i,tx)),w=mul(gen3(i),x); VP_CHECK(maxbad(sub(f,w))==0,K("generator_field"),"generator_field(%d,%s)=%s",i,show(x).c_str(),show(f).c_str()); }
		T::Vector<6,P> bx; bx=T::Zeros; bx.template slice<1,4>()=tx; V f=fromV(G::generator_field(4,bx.template slice<1,4>())); VP_CHECK(maxbad(sub(f,mul(gen3(4),x)))==0,K("generator_field"),"generator_field of a slice");
	}
	static void extras3(vp::Rng&,const std::string&,const G&,const G&,const M&,const M&,std::false_type){}
	static void run(vp::Rng&g,const std::string&pre){
		// SE2, SE3 and their logarithms approximate within 1e-5 of no rotation, the others are accurate
		const L eT=isflt<P>()?tolT<P>():SIM?5e-14L:5e-13L, eR=tolR<P>(); const auto eTl=[&](L a){ return isflt<P>()||SIM||a>1.2e-5L?eT:tolT<P>(); }; V v=params(g,1e9L); vp::describe(pre+"v="+show(v)); vp::sig(hash(v)); L th=ang(v); L es=SIM?expl(v[NP-1]):1, smax=std::max((L)1,es);
		G X=make(g,v); M h=hom<D,SIM>(X),E=expH(D,v); L er,et; blockerr(h,E,er,et);
		validG(X,eR,K("exp")); VP_CLOSE(er,eR*(1+th)*es*(SIM?1+fabsl(v[NP-1]):1),K("exp_linear"),"exp(%s)=%s want %s",show(v).c_str(),show(h).c_str(),show(E).c_str()); VP_CLOSE(et,eT*tn(v)*smax*(isflt<P>()?1+th/4:1),K("exp_translation"),"exp(%s)=%s want %s",show(v).c_str(),show(h).c_str(),show(E).c_str());
		// logarithm: exp(ln X)=X, principal; ln(exp v)=v below pi
		V l=fromV(X.ln()), l2=fromV(G::ln(X)); VP_CHECK(l==l2||maxbad(sub(l,l2))==0,K("ln_static"),"the two forms of ln differ"); VP_CLOSE(ang(l),PIL*(1+8*epsP<P>()),K("ln_principal"),"angle of ln: %Lg",ang(l)); M EL=expH(D,l); blockerr(EL,h,er,et); L ts=tnorm(h)+tn(l)*smax;
		VP_CLOSE(er,8*eR*es*(SIM?1+fabsl(v[NP-1]):1),K("exp_ln_linear"),"ln=%s of %s",show(l).c_str(),show(h).c_str()); VP_CLOSE(et,eTl(ang(l))*ts,K("exp_ln_translation"),"ln=%s of %s, exp of that %s",show(l).c_str(),show(h).c_str(),show(EL).c_str());
		if(th<PIL-(isflt<P>()?3e-2L:1e-4L)){ L e=0,e2=0; for(int i=0;i<D;i++) e=std::max(e,bad(l[i]-v[i])); for(int i=D;i<NP;i++) e2=std::max(e2,bad(l[i]-v[i])); VP_CLOSE(e,eTl(th)*4*tn(v)*smax/std::min((L)1,es),K("ln_exp_translation"),"ln(exp(v))=%s v=%s",show(l).c_str(),show(v).c_str()); VP_CLOSE(e2,8*eR*(1+th+(SIM?fabsl(v[NP-1]):0)),K("ln_exp_rotation"),"ln(exp(v))=%s v=%s",show(l).c_str(),show(v).c_str()); }
		// composition
		V w=params(g,10); G Y=make(g,w); M k=hom<D,SIM>(Y),hk=mul(h,k); L sh=snorm(h),sk=snorm(k),th_=tnorm(h),tk=tnorm(k);
		G XY=X*Y; closeH<P>(hom<D,SIM>(XY),hk,8*sh*sk,8*(th_+sh*tk),K("product"),"X*Y"); validG(XY,3*eR,K("product")); G Q=X; Q*=Y; closeH<P>(hom<D,SIM>(Q),hk,8*sh*sk,8*(th_+sh*tk),K("product_assign"),"X*=Y"); Q=X; Q*=Q; closeH<P>(hom<D,SIM>(Q),mul(h,h),8*sh*sh,8*(th_+sh*th_),K("self_product"),"X*=X"); VP_CHECK(returned_itself(Q*=Y,Q),K("product_assign_returns"),"*= does not return the object it changed");
		VP_CHECK(maxbad(sub(hom<D,SIM>(X),h))==0&&maxbad(sub(hom<D,SIM>(Y),k))==0,K("operands_unchanged"),"an operand was modified");
		G I=X.inverse(); M hi=inverseH(h); L si=snorm(hi),ti=tnorm(hi); closeH<P>(hom<D,SIM>(I),hi,8*si,8*(ti+si*th_),K("inverse"),"inverse"); closeH<P>(hom<D,SIM>(X*I),eye(D+1),16,16*(th_+sh*ti),K("inverse_undoes"),"X*X^-1"); closeH<P>(hom<D,SIM>(I*X),eye(D+1),16,16*(ti+si*th_),K("inverse_undoes"),"X^-1*X"); VP_CHECK(maxbad(sub(hom<D,SIM>(X),h))==0,K("operands_unchanged"),"inverse modified its operand");
		// a rotation times a transformation
		if(!SIM) rotleft(g,pre,X,h,std::integral_constant<bool,!SIM>());
		// chain of operations against the model
		if(g.chance(.3)){ G Z; M z=eye(D+1); L acc=0,accS=1,accT=0; int n=g.range(3,25); for(int i=0;i<n;i++){ switch(g.range(0,3)){ case 0: Z=Z*Y; z=mul(z,k); break; case 1: Z*=X; z=mul(z,h); break; case 2: Z=I*Z; z=mul(hom<D,SIM>(I),z); break; default: Z=Z.inverse(); z=inverseH(z); } accS=std::max(accS,std::max(snorm(z),1/std::max(snorm(z),1e-30L))); accT=std::max(accT,tnorm(z)); acc++; if(accS>1e4L) break; } closeH<P>(hom<D,SIM>(Z),z,16*(acc+1)*accS*accS,32*(acc+1)*accS*accS*(accT+th_+tk+1)*std::max((L)1,sh*si*sk),K("chain"),"chain of operations"); validG(Z,(acc+3)*eR,K("chain")); }
		// actions
		V x=transl(g,D,isflt<P>()); roundto<P>(x); V xh(D+1); for(int i=0;i<D;i++) xh[i]=x[i]; xh[D]=1; T::Vector<D,P> tx; toV(tx,x); V yh=mul(h,xh); { V y=fromV(X*tx); V want=yh; want.resize(D); VP_CLOSE(maxbad(sub(y,want)),eR*(sh*norm(x)+th_),K("times_point"),"X*%s=%s want %s",show(x).c_str(),show(y).c_str(),show(want).c_str()); T::Vector<D+2,P> bx; bx=T::Zeros; bx.template slice<1,D>()=tx; VP_CLOSE(maxbad(sub(fromV(X*bx.template slice<1,D>()),want)),eR*(sh*norm(x)+th_),K("times_point"),"X*slice"); }
		xh[D]=g.chance(.3)?0:g.normal(); if(g.chance(.2)) xh[D]=1; roundto<P>(xh); T::Vector<D+1,P> th4; toV(th4,xh); T::Vector<Dyn,P> dh(D+1); toV(dh,xh); V left=mul(h,xh),right=mul(xh,h); L sc=eR*((sh+th_+1)*norm(xh));
		VP_CLOSE(maxbad(sub(fromV(X*th4),left)),sc,K("times_homogeneous"),"X*%s",show(xh).c_str()); VP_CLOSE(maxbad(sub(fromV(X*dh),left)),sc,K("times_homogeneous"),"X*dynamic %s",show(xh).c_str()); VP_CLOSE(maxbad(sub(fromV(th4*X),right)),sc,K("homogeneous_times"),"%s*X=%s want %s",show(xh).c_str(),show(fromV(th4*X)).c_str(),show(right).c_str()); VP_CLOSE(maxbad(sub(fromV(dh*X),right)),sc,K("homogeneous_times"),"dynamic %s*X",show(xh).c_str());
		int n=g.range(1,5); M B=randn(g,D+1,n); roundto<P>(B); M hb=mul(h,B),bh=mul(tr(B),h); L sm=eR*(sh+th_+1)*fro(B); T::Matrix<D+1,Dyn,P> b1(D+1,n); put(b1,B); T::Matrix<Dyn,Dyn,P,T::ColMajor> b2(D+1,n); put(b2,B); T::Matrix<Dyn,D+1,P> c1(n,D+1); put(c1,tr(B)); T::Matrix<D+1,3,P> b3; M B3=randn(g,D+1,3); roundto<P>(B3); put(b3,B3);
		VP_CLOSE(maxbad(sub(fromM(X*b1),hb)),sm,K("times_matrix"),"X*M"); VP_CLOSE(maxbad(sub(fromM(X*b2),hb)),sm,K("times_matrix"),"X*column major M"); VP_CLOSE(maxbad(sub(fromM(X*b3),mul(h,B3))),eR*(sh+th_+1)*fro(B3),K("times_matrix"),"X*static M"); VP_CLOSE(maxbad(sub(fromM(c1*X),bh)),sm,K("matrix_times"),"M*X"); VP_CLOSE(maxbad(sub(fromM(b2.T()*X),bh)),sm,K("matrix_times"),"M.T()*X"); VP_CLOSE(maxbad(sub(fromM(b3.T()*X),mul(tr(B3),h))),eR*(sh+th_+1)*fro(B3),K("matrix_times"),"static M.T()*X");
		// adjoint
		{ V a=randv(g,NP); if(g.chance(.3)) for(auto&q:a) if(g.chance(.5)) q=0; roundto<P>(a); T::Vector<NP,P> ta; toV(ta,a); V want=vee(D,mul(mul(h,hatd(D,a)),hi),SIM); V ad=fromV(X.adjoint(ta)); L amp=(sh+th_+1)*norm(a)*(1+th_); VP_CLOSE(maxbad(sub(ad,want)),eR*amp*8,K("adjoint"),"adjoint(%s)=%s want %s for %s",show(a).c_str(),show(ad).c_str(),show(want).c_str(),show(h).c_str()); 
			M A(NP,NP); for(int j=0;j<NP;j++){ V e(NP); e[j]=1; V c=vee(D,mul(mul(h,hatd(D,e)),hi),SIM); for(int i=0;i<NP;i++) A(i,j)=c[i]; } M mm=randn(g,NP,NP); roundto<P>(mm); T::Matrix<NP,NP,P> tm; put(tm,mm); M wa=mul(mul(A,mm),tr(A)); VP_CLOSE(maxbad(sub(fromM(X.adjoint(tm)),wa)),16*eR*(fro(A)*fro(A)*fro(mm)+1),K("adjoint_matrix"),"adjoint of a matrix"); }
		for(int i=0;i<NP;i++){ M gi=D==2?gen2(i):gen3(i); VP_CHECK(maxbad(sub(fromM(G::generator(i)),gi))==0,K("generator"),"generator(%d)",i); }
		extras3(g,pre,X,Y,h,k,std::integral_constant<bool,D==3>());
		// read from text whose rotation is only approximately one: the result is a transformation close to it
		{ L p=powl(10,-g.unif(1.5L,isflt<P>()?5:12)); M q=h; for(int i=0;i<D;i++) for(int j=0;j<D;j++) q(i,j)+=p*sh*g.unif(-1,1)*.3L; for(auto&e:q.d) e=(L)(P)e; G Z; VP_CHECK(readtext(g,Z,q,D),K("read"),"reading %s",show(q).c_str()); validG(Z,eR,K("read")); M z=hom<D,SIM>(Z); L er_,et_; blockerr(z,q,er_,et_); VP_CLOSE(er_,(4*p+8*eR)*sh,K("read_linear"),"read %s as %s",show(q).c_str(),show(z).c_str()); VP_CHECK(et_==0,K("read_translation"),"read %s as %s",show(q).c_str(),show(z).c_str()); }
		// construction from parts, access to parts, identity
		{ G Dflt; VP_CHECK(maxbad(sub(hom<D,SIM>(Dflt),eye(D+1)))==0,K("default_identity"),"default constructor: %s",show(hom<D,SIM>(Dflt)).c_str()); G C(X); VP_CHECK(maxbad(sub(hom<D,SIM>(C),h))==0,K("copy"),"copy"); C=Y; VP_CHECK(maxbad(sub(hom<D,SIM>(C),k))==0,K("copy"),"assignment"); parts(g,pre,X,tx,std::integral_constant<bool,SIM>()); }
	}
	static void rotleft(vp::Rng&g,const std::string&pre,const G&X,const M&h,std::true_type){ V w(NA); for(auto&q:w) q=g.normal(); roundto<P>(w); SO R=rot(w,std::integral_constant<int,D>()); G Z=R*X; M r=embed(fromM(R.get_matrix()),D+1); r(D,D)=1; closeH<P>(hom<D,SIM>(Z),mul(r,h),8,8*tnorm(h),K("rotation_times"),"R*X"); }
	static void rotleft(vp::Rng&,const std::string&,const G&,const M&,std::false_type){}
	static SO rot(const V&w,std::integral_constant<int,2>){ return SO((P)w[0]); }
	static SO rot(const V&w,std::integral_constant<int,3>){ T::Vector<3,P> t; toV(t,w); return SO(t); }
	static void parts(vp::Rng&g,const std::string&pre,const G&X,const T::Vector<D,P>&t,std::false_type){ (void)g; G C(X.get_rotation(),t); M want=hom<D,SIM>(X); for(int i=0;i<D;i++) want(i,D)=t[i]; VP_CHECK(maxbad(sub(hom<D,SIM>(C),want))==0,K("from_parts"),"constructor from rotation and translation"); G E; E.get_translation()=t; E.get_rotation()=X.get_rotation(); VP_CHECK(maxbad(sub(hom<D,SIM>(E),want))==0,K("mutable_parts"),"writing through the accessors"); identity3(pre,t,std::integral_constant<int,D>()); }
	static void parts(vp::Rng&g,const std::string&pre,const G&X,const T::Vector<D,P>&t,std::true_type){ P s=(P)expl(g.unif(-2,2)); G C(X.get_rotation(),t,s); M r=fromM(X.get_rotation().get_matrix()); M want(D+1,D+1); for(int i=0;i<D;i++){ for(int j=0;j<D;j++) want(i,j)=r(i,j)*(L)s; want(i,D)=t[i]; } want(D,D)=1; VP_CHECK(maxbad(sub(hom<D,SIM>(C),want))==0,K("from_parts"),"constructor from rotation, translation and scale"); G E; E.get_translation()=t; E.get_rotation()=X.get_rotation(); E.get_scale()=s; VP_CHECK(maxbad(sub(hom<D,SIM>(E),want))==0,K("mutable_parts"),"writing through the accessors"); simextra(pre,C,want,X,t,std::integral_constant<int,D>()); }
	static void identity3(const std::string&pre,const T::Vector<D,P>&t,std::integral_constant<int,3>){ G C(T::Identity,t); M want=eye(4); for(int i=0;i<3;i++) want(i,3)=t[i]; VP_CHECK(maxbad(sub(hom<D,SIM>(C),want))==0,K("from_identity"),"SE3(Identity, t)"); }
	static void identity3(const std::string&,const T::Vector<D,P>&,std::integral_constant<int,2>){}
	template<class GG> static void simextra(const std::string&pre,const GG&C,const M&hc,const GG&X,const T::Vector<D,P>&t,std::integral_constant<int,3>){ T::SE3<P> S(X.get_rotation(),t); M hs=hom<3,false>(S); closeH<P>(hom<D,SIM>(C*S),mul(hc,hs),8*snorm(hc),8*(tnorm(hc)+snorm(hc)*tnorm(hs)),K("times_se3"),"SIM3*SE3"); GG I(C); I=T::Identity; VP_CHECK(maxbad(sub(hom<D,SIM>(I),eye(4)))==0,K("assign_identity"),"SIM3=Identity"); }
	template<class GG> static void simextra(const std::string&,const GG&,const M&,const GG&,const T::Vector<D,P>&,std::integral_constant<int,2>){}
};
// float and double operands in one expression
template<int D,bool SIM> void mixedG(vp::Rng&g,const std::string&pre){
	typedef Suite<D,SIM,float> F; typedef Suite<D,SIM,double> W; V a=F::params(g,3),b=W::params(g,3); vp::sig(hash(a)^hash(b)); vp::describe(pre+show(a)+" "+show(b)); typename F::G X=F::make(g,a); typename W::G Y=W::make(g,b); M h=hom<D,SIM>(X),k=hom<D,SIM>(Y); auto p=X*Y; auto q=Y*X; VP_CHECK((std::is_same<decltype(p),typename W::G>::value&&std::is_same<decltype(q),typename W::G>::value),K("type"),"type of the product");
	// the rotation of the float operand is orthonormal to float accuracy only; double arithmetic must not lose more
	L sh=snorm(h),sk=snorm(k),th=tnorm(h),tk=tnorm(k); closeH<double>(hom<D,SIM>(p),mul(h,k),16*sh*sk,16*(th+sh*tk),K("product"),"float*double"); closeH<double>(hom<D,SIM>(q),mul(k,h),16*sh*sk,16*(tk+sk*th),K("product"),"double*float");
	V x=randv(g,D+1); roundto<double>(x); T::Vector<D+1> tx; toV(tx,x); L sc=tolR<double>()*(sh+th+1)*norm(x); VP_CLOSE(maxbad(sub(fromV(X*tx),mul(h,x))),sc,K("times_vector"),"float X * double vector"); VP_CLOSE(maxbad(sub(fromV(tx*X),mul(x,h))),sc,K("vector_times"),"double vector * float X"); T::Vector<D> tp; V xp(D); for(int i=0;i<D;i++){ tp[i]=tx[i]; xp[i]=x[i]; } V x1=x; x1[D]=1; V y=mul(h,x1); y.resize(D); VP_CLOSE(maxbad(sub(fromV(X*tp),y)),sc,K("times_point"),"float X * double point");
	M B=randn(g,D+1,3); T::Matrix<D+1,3> tb; put(tb,B); roundto<double>(B); VP_CLOSE(maxbad(sub(fromM(X*tb),mul(h,B))),tolR<double>()*(sh+th+1)*fro(B),K("times_matrix"),"float X * double matrix");
	T::Vector<F::NP,float> fv; toV(fv,a); typename W::G Z=W::G::exp(fv); M E=expH(D,a); L er,et; blockerr(hom<D,SIM>(Z),E,er,et); L es=SIM?expl(fabsl(a[F::NP-1])):1; VP_CLOSE(er,tolR<double>()*8*es*8,K("exp_linear"),"double exp of a float vector"); VP_CLOSE(et,1e-10L*F::tn(a)*es+1e-30L,K("exp_translation"),"double exp of a float vector");
}
