// C19: rotations.
#include "groups.hpp"
template<class P> M mat(const T::SO3<P>&r){ return fromM(r.get_matrix()); }
template<class P> M mat(const T::SO2<P>&r){ return fromM(r.get_matrix()); }
template<class R> void valid(const R&r,L tol,const std::string&pre){ M m=mat(r); L e=maxbad(sub(mul(m,tr(m)),eye(m.r))); VP_CLOSE(e,tol,K("orthonormal"),"%s",show(m).c_str()); L d=det(m); VP_CHECK(d>0.5L&&fabsl(d-1)<=4*tol,K("det_plus_one"),"det %Lg",d); }
inline V rod(const M&m){ (void)m; return V(); }

template<class P> void so3(vp::Rng&g,const std::string&pre){
	L eR=tolR<P>(); L th=angle(g); V w=axis(g); for(auto&x:w) x*=th; roundto<P>(w); th=norm(w); L et=eR*(1+th);
	M G(3,3); for(int i=0;i<3;i++) G=add(G,gen_so3(i),w[i]); M E=expm(G);
	vp::describe(pre+"w="+show(w)); vp::sig(hash(w));
	T::Vector<3,P> tw; toV(tw,w); T::SO3<P> R; switch(g.range(0,3)){ case 0: R=T::SO3<P>::exp(tw); break; case 1: R=T::SO3<P>(tw); break; case 2: { T::Vector<Dyn,P> d(3); toV(d,w); R=T::SO3<P>::exp(d); break; } default: { T::Vector<5,P> b; b=T::Zeros; auto s=b.template slice<1,3>(); toV(s,w); R=T::SO3<P>(s); } }
	valid(R,eR,pre+"exp_"); VP_CLOSE(maxbad(sub(mat(R),E)),et,K("exp"),"exp(%s) is not the matrix exponential",show(w).c_str());
	// logarithm: inverse of exp, principal
	V l=fromV(R.ln()); M GL(3,3); for(int i=0;i<3;i++) GL=add(GL,gen_so3(i),l[i]);
	VP_CLOSE(norm(l),PIL*(1+8*epsP<P>()),K("ln_principal"),"|ln|=%Lg",norm(l)); VP_CLOSE(maxbad(sub(expm(GL),mat(R))),8*eR,K("exp_ln"),"ln=%s of R=%s",show(l).c_str(),show(mat(R)).c_str());
	if(th<PIL-(isflt<P>()?1e-2L:1e-4L)) VP_CLOSE(maxbad(sub(l,w)),8*eR*(1+th),K("ln_exp"),"ln(exp(w))=%s w=%s",show(l).c_str(),show(w).c_str());
	// second element, products, inverse
	V w2=axis(g); L t2=angle(g,10); for(auto&x:w2) x*=t2; T::Vector<3,P> tw2; toV(tw2,w2); T::SO3<P> S(tw2); M m1=mat(R),m2=mat(S); M pr=mul(m1,m2);
	T::SO3<P> RS=R*S; valid(RS,3*eR,pre+"product_"); VP_CLOSE(maxbad(sub(mat(RS),pr)),eR,K("product"),"product"); T::SO3<P> Q=R; Q*=S; VP_CLOSE(maxbad(sub(mat(Q),pr)),eR,K("product_assign"),"product"); Q=R; Q*=Q; VP_CLOSE(maxbad(sub(mat(Q),mul(m1,m1))),eR,K("self_product"),"R*=R"); VP_CHECK(returned_itself(Q*=S,Q),K("product_assign_returns"),"*= does not return the object it changed");
	T::SO3<P> I=R.inverse(); valid(I,2*eR,pre+"inverse_"); VP_CHECK(maxbad(sub(mat(I),tr(m1)))<=eR,K("inverse"),"inverse is not the transpose"); VP_CLOSE(maxbad(sub(mat(R*I),eye(3))),2*eR,K("inverse_undoes"),"R R^-1"); VP_CLOSE(maxbad(sub(mat(I*R),eye(3))),2*eR,K("inverse_undoes"),"R^-1 R");
	VP_CHECK(same(R.get_matrix(),m1),K("operands_unchanged"),"operand modified");
	// long product: stays a rotation
	if(g.chance(.3)){ T::SO3<P> A; int n=g.range(5,60); for(int i=0;i<n;i++){ if(g.chance(.5)) A*=R; else A*=(g.chance(.5)?S:S.inverse()); } valid(A,(n+2)*eR,pre+"long_product_"); }
	// action
	V x=transl(g,3,isflt<P>()); roundto<P>(x); T::Vector<3,P> tx; toV(tx,x); L nx=norm(x); T::Vector<Dyn,P> dx(3); toV(dx,x);
	VP_CLOSE(maxbad(sub(fromV(R*tx),mul(m1,x))),eR*nx,K("times_vector"),"R*x"); VP_CLOSE(maxbad(sub(fromV(tx*R),mul(x,m1))),eR*nx,K("vector_times"),"x*R"); VP_CLOSE(maxbad(sub(fromV(R*dx),mul(m1,x))),eR*nx,K("times_dynamic"),"R*x"); VP_CLOSE(maxbad(sub(fromV(dx*R),mul(x,m1))),eR*nx,K("times_dynamic"),"x*R");
	int k=g.range(1,5); M X=randn(g,3,k); roundto<P>(X); T::Matrix<3,Dyn,P> tX(3,k); put(tX,X); T::Matrix<Dyn,3,P> tY(k,3); put(tY,tr(X)); VP_CLOSE(maxbad(sub(fromM(R*tX),mul(m1,X))),eR*fro(X),K("times_matrix"),"R*X"); VP_CLOSE(maxbad(sub(fromM(tY*R),mul(tr(X),m1))),eR*fro(X),K("matrix_times"),"X*R");
	// adjoint: R exp(v) R^-1 = exp(Ad v)
	V ad=fromV(R.adjoint(tw2)); M GV(3,3),GA(3,3); V w2r=fromV(tw2); for(int i=0;i<3;i++){ GV=add(GV,gen_so3(i),w2r[i]); GA=add(GA,gen_so3(i),ad[i]); } VP_CLOSE(maxbad(sub(GA,mul(mul(m1,GV),tr(m1)))),4*eR*(1+norm(w2r)),K("adjoint"),"adjoint"); 
	for(int i=0;i<3;i++){ VP_CHECK(maxbad(sub(fromM(T::SO3<P>::generator(i)),gen_so3(i)))==0,K("generator"),"generator %d",i); V f=fromV(T::SO3<P>::generator_field(i,tx)); VP_CHECK(maxbad(sub(f,mul(gen_so3(i),x)))==0,K("generator_field"),"generator_field %d",i); }
	// from a matrix: an exact rotation is kept, a perturbed one becomes a rotation nearby
	T::SO3<P> C(R.get_matrix()); VP_CLOSE(maxbad(sub(mat(C),m1)),3*eR,K("from_matrix"),"rotation changed by coercion"); L p=powl(10,-g.unif(1,isflt<P>()?5:12)); M pm=m1; for(auto&q:pm.d) q+=p*g.unif(-1,1)*.3L; if(g.chance(.3)) pm=scale(pm,g.unif(.2,5)); roundto<P>(pm); M n_=pm; L sc=cbrtl(det(pm)); n_=scale(pm,1/sc);
	T::Matrix<3,3,P> tp; put(tp,pm); switch(g.range(0,2)){ case 0: C=tp; break; case 1: C=T::SO3<P>(tp.T()); C=C.inverse(); break; default: { T::Matrix<Dyn,Dyn,P> d(3,3); put(d,pm); C=d; } } valid(C,eR,pre+"coerce_"); VP_CLOSE(maxbad(sub(mat(C),n_)),4*p+8*eR,K("coerce_near"),"coerced matrix is far from its source"); { T::SO3<P> Z; VP_CHECK(readtext(g,Z,pm,3),K("read"),"reading %s",show(pm).c_str()); valid(Z,eR,pre+"read_"); VP_CLOSE(maxbad(sub(mat(Z),n_)),4*p+8*eR,K("read_near"),"read %s as %s",show(pm).c_str(),show(mat(Z)).c_str()); }
	T::SO3<P> D; VP_CHECK(maxbad(sub(mat(D),eye(3)))==0,K("default_identity"),"default constructor");
}
template<class P> void twovec(vp::Rng&g,const std::string&pre){
	L eR=tolR<P>(); V a=axis(g),b; int kind=g.range(0,6); V n=axis(g); M R; 
	L th= kind==0?0: kind==1?powl(10,-g.unif(1,isflt<P>()?6:14)): kind==2?PIL-powl(10,-g.unif(0,isflt<P>()?3:6)): kind==3?PIL/2: g.unif(0,PIL-.1L);
	V u=add(n,a,-dot(n,a)); L un=norm(u); if(un<1e-3L){ n=V{0.3,-0.7,0.2}; u=add(n,a,-dot(n,a)); un=norm(u); if(un<1e-3L){ n=V{1,2,-1}; u=add(n,a,-dot(n,a)); un=norm(u);} } for(auto&x:u) x/=un;
	b=V(3); for(int i=0;i<3;i++) b[i]=cosl(th)*a[i]+sinl(th)*u[i]; L s1=powl(10,g.unif(-3,3)),s2=powl(10,g.unif(-3,3)); if(g.chance(.3)) s1=s2=1; for(int i=0;i<3;i++){ a[i]*=s1; b[i]*=s2; } roundto<P>(a); roundto<P>(b); if(kind==0&&g.chance(.5)) for(int i=0;i<3;i++) b[i]=2*a[i];
	L ab=dot(a,b); V c(3); for(int i=0;i<3;i++) c[i]=a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3];
	if(ab<0 && norm(c)<1e-5L*norm(a)*norm(b)*(isflt<P>()?100:1)){ vp::trivial(); return; } // (nearly) opposite: ambiguous, documented to assert
	vp::describe(pre+"a="+show(a)+" b="+show(b)); vp::sig(hash(a)^hash(b)); T::Vector<3,P> ta,tb; toV(ta,a); toV(tb,b);
	T::SO3<P> r; if(g.chance(.5)) r=T::SO3<P>(ta,tb); else { T::Vector<Dyn,P> da(3),db(3); toV(da,a); toV(db,b); r=T::SO3<P>(da,db); }
	valid(r,eR,pre); M m=mat(r); V ua=a,ub=b; L na=norm(a),nb=norm(b); for(int i=0;i<3;i++){ ua[i]/=na; ub[i]/=nb; }
	VP_CLOSE(maxbad(sub(mul(m,ua),ub)),2*eR,K("maps"),"R a = %s, b=%s",show(mul(m,ua)).c_str(),show(ub).c_str());
	// least rotation: axis along a x b, i.e. the angle of the rotation is the angle between a and b
	L cosab=dot(ua,ub); L tr3=m(0,0)+m(1,1)+m(2,2); VP_CLOSE(fabsl((tr3-1)/2-cosab),4*eR,K("angle"),"rotation angle is not the angle between the vectors"); L nc=norm(c)/(na*nb); if(nc>(isflt<P>()?1e-2L:1e-5L)){ V ax=c; for(auto&x:ax) x/=na*nb*nc; VP_CLOSE(maxbad(sub(mul(m,ax),ax)),8*eR/nc,K("axis"),"axis is not a x b"); }
}
template<class P> void so2(vp::Rng&g,const std::string&pre){
	L eR=tolR<P>(); P a=(P)(angle(g)*(g.range(0,1)?1:-1)); L th=a; vp::describe(pre+vp::fmt("angle=%.20Lg",th)); vp::sig(vp::hbytes(&a,1));
	M E(2,2); E(0,0)=E(1,1)=cosl(th); E(1,0)=sinl(th); E(0,1)=-E(1,0); T::SO2<P> R=g.chance(.5)?T::SO2<P>(a):T::SO2<P>::exp(a); valid(R,eR,pre+"exp_"); VP_CLOSE(maxbad(sub(mat(R),E)),eR,K("exp"),"exp"); 
	L l=R.ln(); VP_CHECK(fabsl(l)<=PIL*(1+4*epsP<P>()),K("ln_principal"),"ln=%Lg",l); L d=fabsl(wrap(l-th)); VP_CLOSE(d,eR*(1+fabsl(th)),K("ln_exp"),"ln(exp(%Lg))=%Lg",th,l);
	P b=(P)(angle(g)*(g.range(0,1)?1:-1)); T::SO2<P> S(b); M m1=mat(R),m2=mat(S),pr=mul(m1,m2); T::SO2<P> RS=R*S,Q=R; Q*=S; valid(RS,2*eR,pre+"product_"); VP_CLOSE(maxbad(sub(mat(RS),pr)),eR,K("product"),"product"); VP_CLOSE(maxbad(sub(mat(Q),pr)),eR,K("product_assign"),"product"); Q=R; Q*=Q; VP_CLOSE(maxbad(sub(mat(Q),mul(m1,m1))),eR,K("self_product"),"R*=R"); VP_CHECK(returned_itself(Q*=S,Q),K("product_assign_returns"),"*= does not return the object it changed");
	T::SO2<P> I=R.inverse(); VP_CHECK(same(I.get_matrix(),tr(m1)),K("inverse"),"inverse"); VP_CLOSE(maxbad(sub(mat(R*I),eye(2))),2*eR,K("inverse_undoes"),"R R^-1");
	V x=transl(g,2,isflt<P>()); roundto<P>(x); T::Vector<2,P> tx; toV(tx,x); T::Vector<Dyn,P> dx(2); toV(dx,x); L nx=norm(x); VP_CLOSE(maxbad(sub(fromV(R*tx),mul(m1,x))),eR*nx,K("times_vector"),"R*x"); VP_CLOSE(maxbad(sub(fromV(tx*R),mul(x,m1))),eR*nx,K("vector_times"),"x*R"); VP_CLOSE(maxbad(sub(fromV(R*dx),mul(m1,x))),eR*nx,K("times_dynamic"),"R*x");
	int k=g.range(1,5); M X=randn(g,2,k); roundto<P>(X); T::Matrix<2,Dyn,P> tX(2,k); put(tX,X); T::Matrix<Dyn,2,P> tY(k,2); put(tY,tr(X)); VP_CLOSE(maxbad(sub(fromM(R*tX),mul(m1,X))),eR*fro(X),K("times_matrix"),"R*X"); VP_CLOSE(maxbad(sub(fromM(tY*R),mul(tr(X),m1))),eR*fro(X),K("matrix_times"),"X*R");
	VP_CHECK(maxbad(sub(fromM(T::SO2<P>::generator()),gen_so2()))==0,K("generator"),"generator");
	T::SO2<P> C(R.get_matrix()); VP_CLOSE(maxbad(sub(mat(C),m1)),3*eR,K("from_matrix"),"rotation changed"); L p=powl(10,-g.unif(1,5)); M pm=m1; for(auto&q:pm.d) q+=p*g.unif(-1,1)*.3L; if(g.chance(.3)) pm=scale(pm,g.unif(.2,5)); roundto<P>(pm); T::Matrix<2,2,P> tp; put(tp,pm); if(g.chance(.5)) C=tp; else { T::Matrix<Dyn,Dyn,P> dp(2,2); put(dp,pm); C=dp; } valid(C,eR,pre+"coerce_"); VP_CLOSE(maxbad(sub(mat(C),scale(pm,1/sqrtl(det(pm))))),4*p+8*eR,K("coerce_near"),"coerced matrix is far from its source"); { T::SO2<P> Z; VP_CHECK(readtext(g,Z,pm,2),K("read"),"reading %s",show(pm).c_str()); valid(Z,eR,pre+"read_"); VP_CLOSE(maxbad(sub(mat(Z),scale(pm,1/sqrtl(det(pm))))),4*p+8*eR,K("read_near"),"read %s as %s",show(pm).c_str(),show(mat(Z)).c_str()); }
	T::SO2<P> D,D2=T::SO2<P>(T::Identity); VP_CHECK(maxbad(sub(mat(D),eye(2)))==0&&maxbad(sub(mat(D2),eye(2)))==0,K("default_identity"),"default constructor");
}
void mixed(vp::Rng&g){ const std::string pre="mixed/"; V w=axis(g),v=axis(g); for(auto&x:w) x*=g.unif(0,3); T::Vector<3,float> fw; toV(fw,w); T::Vector<3> dv; toV(dv,v); T::SO3<float> F(fw); T::SO3<double> D(dv); vp::sig(hash(w)); M f=mat(F),d=mat(D); L e=32*epsP<double>();
	auto a=F*D; auto b=D*F; VP_CHECK((std::is_same<decltype(a),T::SO3<double>>::value&&std::is_same<decltype(b),T::SO3<double>>::value),K("so3_type"),"type"); VP_CLOSE(maxbad(sub(mat(a),mul(f,d))),e,K("so3_product"),"float*double"); VP_CLOSE(maxbad(sub(mat(b),mul(d,f))),e,K("so3_product"),"double*float"); T::SO3<double> c=D; c*=F; VP_CLOSE(maxbad(sub(mat(c),mul(d,f))),e,K("so3_product"),"double*=float");
	V x=randv(g,3); T::Vector<3> dx; toV(dx,x); x=fromV(dx); VP_CLOSE(maxbad(sub(fromV(F*dx),mul(f,x))),e*norm(x),K("so3_vector"),"float*double vector");
	T::SO3<double> ex=T::SO3<double>::exp(fw); M G(3,3); V wf=fromV(fw); for(int i=0;i<3;i++) G=add(G,gen_so3(i),wf[i]); VP_CLOSE(maxbad(sub(mat(ex),expm(G))),isflt<float>()?tolR<float>()*4:e,K("so3_exp"),"exp of a float vector");
	T::SO2<float> f2((float)g.unif(-3,3)); T::SO2<double> d2(g.unif(-3,3)); VP_CLOSE(maxbad(sub(mat(f2*d2),mul(mat(f2),mat(d2)))),e,K("so2_product"),"float*double"); VP_CLOSE(maxbad(sub(mat(d2*f2),mul(mat(d2),mat(f2)))),e,K("so2_product"),"double*float"); }
VP_UNIT(so3_double,2500,50000){ so3<double>(rng,"so3/"); }
VP_UNIT(so3_float,800,15000){ so3<float>(rng,"so3/float_"); }
VP_UNIT(so3_from_two_vectors,2000,40000){ if(rng.chance(.8)) twovec<double>(rng,"so3/two_vectors_"); else twovec<float>(rng,"so3/float_two_vectors_"); }
VP_UNIT(so2,1500,30000){ if(rng.chance(.7)) so2<double>(rng,"so2/"); else so2<float>(rng,"so2/float_"); }
VP_UNIT(so_mixed,200,4000){ mixed(rng); }
