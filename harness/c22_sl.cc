// C22: SL(N).
#include "groups.hpp"
template<class G> M mat(const G&x){ return fromM(x.get_matrix()); }
inline L cnd(const M&m){ V s=svals(m); int n=s.size(); return s[n-1]>0?s[0]/s[n-1]:(L)INFINITY; }
inline M structuredreg(vp::Rng&g,int n){ int k; for(int t=0;t<20;t++){ M m=structured(g,n,n,k); if(cnd(m)<1e5L) return m; } return eye(n); }
template<int N,class P> void gens(vp::Rng&,const std::string&pre){ const int D=N*N-1; M all(D,N*N); for(int i=0;i<D;i++){ M g=fromM(T::SL<N,P>::generator(i)); L t=0,sym=0,asy=0,dg=0; for(int r=0;r<N;r++){ t+=g(r,r); dg=std::max(dg,fabsl(g(r,r))); for(int c=0;c<N;c++){ all(i,r*N+c)=g(r,c); if(r!=c){ sym=std::max(sym,fabsl(g(r,c)+g(c,r))); asy=std::max(asy,fabsl(g(r,c)-g(c,r))); } } }
		VP_CHECK(t==0,K("trace_free"),"generator %d has trace %Lg",i,t); int k=(dg>0)+(sym>0)+(asy>0); VP_CHECK(k==1&&maxabs(g)==1,K("documented_kind"),"generator %d is not diagonal, symmetric or antisymmetric: %s",i,show(g).c_str()); VP_CHECK(i<N-1?dg>0:i<N-1+N*(N-1)/2?sym>0:asy>0,K("documented_order"),"generator %d: %s",i,show(g).c_str()); }
	V s=svals(all); VP_CHECK(s[D-1]>1e-3L*s[0],K("independent"),"generators of SL(%d) are linearly dependent",N); VP_CHECK((T::SL<N,P>::dim==D&&T::SL<N,P>::size==N),K("dim"),"dim"); vp::sig(N); }
template<int N,class P> void sl(vp::Rng&g,const std::string&pre){
	const int D=N*N-1; typedef T::SL<N,P> G; V v(D); L amp=g.range(0,3)==0?powl(10,-g.unif(1,12)):g.unif(0,isflt<P>()?1.5:3)/sqrtl(D); for(auto&x:v) x=amp*(g.range(0,5)?g.normal():0); if(g.chance(.1)){ for(auto&x:v) x=0; v[g.range(0,D-1)]=g.normal(); } roundto<P>(v);
	vp::describe(pre+show(v)); vp::sig(hash(v)); M A(N,N); for(int i=0;i<D;i++) A=add(A,fromM(G::generator(i)),v[i]); M E=expm(A); L nA=norminf(A); const L u=32*N*epsP<P>();
	T::Vector<D,P> tv; toV(tv,v); G X; switch(g.range(0,3)){ case 0: X=G::exp(tv); break; case 1: X=G(tv); break; case 2: { T::Vector<Dyn,P> d(D); toV(d,v); X=G::exp(d); break; } default: { T::Vector<D+2,P> b; b=T::Zeros; b.template slice<1,D>()=tv; X=G(b.template slice<1,D>()); } }
	M x=mat(X); L c=cnd(x); L te=u*(1+nA)*norminf(E)*(1+nA); VP_CLOSE(maxbad(sub(x,E)),te,K("exp"),"exp(%s)=%s want %s",show(v).c_str(),show(x).c_str(),show(E).c_str()); VP_CLOSE(fabsl(det(x)-1),u*(1+nA)*c*4,K("exp_determinant"),"det exp(%s) = %.18Lg",show(v).c_str(),det(x));
	// logarithm
	if(nA<2 && c<1e3L){ V l=fromV(X.ln()); L tl=u*16*(1+nA)*c; VP_CLOSE(maxbad(sub(l,v)),tl,K("ln_exp"),"ln(exp(v))=%s v=%s",show(l).c_str(),show(v).c_str()); M B(N,N); for(int i=0;i<D;i++) B=add(B,fromM(G::generator(i)),l[i]); VP_CLOSE(maxbad(sub(expm(B),x)),tl*norminf(x)*2,K("exp_ln"),"exp(ln(X)) is not X"); }
	// composition
	V w(D); for(auto&q:w) q=g.normal()*.7/sqrt(D); T::Vector<D,P> tw; toV(tw,w); G Y(tw); M y=mat(Y); G XY=X*Y; M xy=mul(x,y); L nxy=norminf(x)*norminf(y); VP_CLOSE(maxbad(sub(mat(XY),xy)),u*nxy,K("product"),"X*Y"); G Q=X; Q*=Y; VP_CLOSE(maxbad(sub(mat(Q),xy)),u*nxy,K("product_assign"),"X*=Y"); Q=X; Q*=Q; VP_CLOSE(maxbad(sub(mat(Q),mul(x,x))),u*norminf(x)*norminf(x),K("self_product"),"X*=X"); VP_CHECK(returned_itself(Q*=Y,Q),K("product_assign_returns"),"*= does not return the object it changed"); VP_CLOSE(fabsl(det(mat(XY))-1),u*8*(1+nA)*c*cnd(y),K("product_determinant"),"determinant of the product %Lg",det(mat(XY)));
	G XYc(X,Y); VP_CLOSE(maxbad(sub(mat(XYc),xy)),u*nxy,K("product_constructor"),"SL(X,Y)");
	G I=X.inverse(); M xi=inv(x); VP_CLOSE(maxbad(sub(mat(I),xi)),u*4*c*norminf(xi),K("inverse"),"inverse of %s is %s",show(x).c_str(),show(mat(I)).c_str()); VP_CLOSE(maxbad(sub(mat(X*I),eye(N))),u*8*c*norminf(x)*norminf(xi),K("inverse_undoes"),"X X^-1"); VP_CLOSE(fabsl(det(mat(I))-1),u*16*(1+nA)*c*c,K("inverse_determinant"),"determinant of the inverse %Lg",det(mat(I)));
	VP_CHECK(maxbad(sub(mat(X),x))==0&&maxbad(sub(mat(Y),y))==0,K("operands_unchanged"),"operand modified");
	// action
	V p=randv(g,N); roundto<P>(p); T::Vector<N,P> tp; toV(tp,p); T::Vector<Dyn,P> dp(N); toV(dp,p); L sp=u*norminf(x)*norm(p); VP_CLOSE(maxbad(sub(fromV(X*tp),mul(x,p))),sp,K("times_vector"),"X*p"); VP_CLOSE(maxbad(sub(fromV(X*dp),mul(x,p))),sp,K("times_vector"),"X*dynamic p"); VP_CLOSE(maxbad(sub(fromV(tp*X),mul(p,x))),sp*N,K("vector_times"),"p*X"); VP_CLOSE(maxbad(sub(fromV(dp*X),mul(p,x))),sp*N,K("vector_times"),"dynamic p*X");
	int k=g.range(1,4); M Z=randn(g,N,k); roundto<P>(Z); T::Matrix<N,Dyn,P> tz(N,k); put(tz,Z); T::Matrix<Dyn,N,P> ty(k,N); put(ty,tr(Z)); L sz=u*fro(x)*fro(Z); VP_CLOSE(maxbad(sub(fromM(X*tz),mul(x,Z))),sz,K("times_matrix"),"X*M"); VP_CLOSE(maxbad(sub(fromM(ty*X),mul(tr(Z),x))),sz,K("matrix_times"),"M*X"); M Z3=randn(g,N,3); roundto<P>(Z3); T::Matrix<N,3,P> t3; put(t3,Z3); VP_CLOSE(maxbad(sub(fromM(X*t3),mul(x,Z3))),u*fro(x)*fro(Z3),K("times_matrix"),"X*static M"); VP_CLOSE(maxbad(sub(fromM(t3.T()*X),mul(tr(Z3),x))),u*fro(x)*fro(Z3),K("matrix_times"),"static M.T()*X");
	// from a matrix of any (admissible) determinant
	M m=g.chance(.5)?randn(g,N,N):structuredreg(g,N); if(g.chance(.3)) m=scale(m,powl(10,g.range(-4,4))); roundto<P>(m); L dm=det(m),cm=cnd(m); if(dm<0&&N%2==0){ for(int j=0;j<N;j++) std::swap(m(0,j),m(1,j)); dm=-dm; }
	if(cm<(isflt<P>()?1e2L:1e5L) && rowprod(m)<(isflt<P>()?1e30L:1e250L) && fabsl(dm)>(isflt<P>()?1e-28L:1e-250L)){ T::Matrix<N,N,P> tm; put(tm,m); T::Matrix<Dyn,Dyn,P> dd(N,N); put(dd,m); G C; switch(g.range(0,2)){ case 0: C=G(tm); break; case 1: C=G(dd); break; default: C=G(tm.T()); m=tr(m); } M cm_=mat(C); VP_CLOSE(fabsl(det(cm_)-1),u*8*cm,K("from_matrix_determinant"),"determinant %.18Lg from %s",det(cm_),show(m).c_str()); L f=(dm<0?-1:1)*powl(fabsl(dm),-1.0L/N); VP_CLOSE(maxbad(sub(cm_,scale(m,f))),u*8*cm*fabsl(f)*norminf(m),K("from_matrix"),"SL(%s)=%s",show(m).c_str(),show(cm_).c_str()); M near_=x; bool rd=g.chance(.5); if(rd){ L d=powl(10,-g.unif(1,10)); near_=scale(x,1+d*g.unif(-1,1)); roundto<P>(near_); } else near_=m; G Z; VP_CHECK(readtext(g,Z,near_,N),K("read"),"reading %s",show(near_).c_str()); M z=mat(Z); L dn=det(near_),cn=cnd(near_),fn=(dn<0?-1:1)*powl(fabsl(dn),-1.0L/N); VP_CLOSE(fabsl(det(z)-1),u*8*cn*(1+(rd?nA:0)),K("read_determinant"),"determinant %.18Lg read from %s",det(z),show(near_).c_str()); VP_CLOSE(maxbad(sub(z,scale(near_,fn))),u*8*cn*fabsl(fn)*norminf(near_),K("read_near"),"read %s as %s",show(near_).c_str(),show(z).c_str()); }
	// long product
	if(g.chance(.2)){ G A_; M a=eye(N); int n=g.range(3,12); L cc=1; for(int i=0;i<n&&cc<1e4L;i++){ if(g.chance(.5)){ A_*=Y; a=mul(a,y); } else { A_=A_*Y.inverse(); a=mul(a,inv(y)); } cc=std::max(cc,cnd(a)); } VP_CLOSE(maxbad(sub(mat(A_),a)),u*64*n*cc*norminf(a)*cnd(y),K("chain"),"chain of products"); }
	G Dflt; VP_CHECK(maxbad(sub(mat(Dflt),eye(N)))==0,K("default_identity"),"default constructor");
}
template<int N> void mixedsl(vp::Rng&g,const std::string&pre){ const int D=N*N-1; T::Vector<D,float> a; T::Vector<D> b; for(int i=0;i<D;i++){ a[i]=g.normal()*.3; b[i]=g.normal()*.3; } T::SL<N,float> F(a); T::SL<N> W(b); M f=mat(F),w=mat(W); L t=64*N*epsP<double>()*norminf(f)*norminf(w); auto p=F*W; auto q=W*F; VP_CHECK((std::is_same<decltype(p),T::SL<N,double>>::value),K("type"),"type"); VP_CLOSE(maxbad(sub(mat(p),mul(f,w))),t,K("product"),"float*double"); VP_CLOSE(maxbad(sub(mat(q),mul(w,f))),t,K("product"),"double*float"); T::SL<N> e=T::SL<N>::exp(a); M A(N,N); for(int i=0;i<D;i++) A=add(A,fromM(T::SL<N>::generator(i)),a[i]); VP_CLOSE(maxbad(sub(mat(e),expm(A))),256*N*epsP<double>()*(1+norminf(A))*expl(norminf(A)),K("exp"),"double exp of a float vector"); V x=randv(g,N); T::Vector<N> tx; toV(tx,x); x=fromV(tx); VP_CLOSE(maxbad(sub(fromV(F*tx),mul(f,x))),t*norm(x),K("vector"),"float X*double vector"); vp::sig(hash(f)); }
VP_UNIT(generators,1,1){ gens<2,double>(rng,"gen/2_"); gens<3,double>(rng,"gen/3_"); gens<4,double>(rng,"gen/4_"); gens<5,double>(rng,"gen/5_"); gens<6,double>(rng,"gen/6_"); gens<7,double>(rng,"gen/7_"); gens<3,float>(rng,"gen/3_float_"); gens<10,double>(rng,"gen/10_"); }
VP_UNIT(sl_2_3,1000,20000){ sl<2,double>(rng,"sl2/"); sl<3,double>(rng,"sl3/"); }
VP_UNIT(sl_4_5_6,500,10000){ sl<4,double>(rng,"sl4/"); sl<5,double>(rng,"sl5/"); sl<6,double>(rng,"sl6/"); }
VP_UNIT(sl_float,400,8000){ sl<2,float>(rng,"sl2/float_"); sl<3,float>(rng,"sl3/float_"); sl<4,float>(rng,"sl4/float_"); }
VP_UNIT(sl_mixed,200,4000){ mixedsl<2>(rng,"sl2/mixed_"); mixedsl<3>(rng,"sl3/mixed_"); }
