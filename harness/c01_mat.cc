// Matrix arithmetic over every pair of storages.  -DR1 -DC1 sizes of the left, -DR2 -DC2 of the right operand (-1: dynamic); product: R1xC1 times C1xR1
#include "c01.hpp"
#ifndef VR1
#define VR1 2
#define VC1 3
#define VR2 2
#define VC2 3
#endif
#ifndef VTY
#define VTY double
#endif
typedef VTY P;
static const std::string base_=std::is_same<P,double>::value?std::string():std::string(pname<P>::s())+"/";
template<class A> static void unaryops(vp::Rng&g,const A&a,const M&ma,P s,int k,const std::string&pre,const std::string&ctx){
	const int r=ma.r,c=ma.c; auto e=[&](int i,int j){ return (P)ma(i,j); };
	CK("negate",okm<P>(-a,r,c,[&](int i,int j){ return -e(i,j); }));
	CK("scale_right",okm<P>(a*s,r,c,[&](int i,int j){ return e(i,j)*s; }));
	CK("scale_left",okm<P>(s*a,r,c,[&](int i,int j){ return s*e(i,j); }));
	CK("scale_int",okm<P>(k*a,r,c,[&](int i,int j){ return e(i,j)*k; }));
	if(s!=0) CK("divide",okm<P>(a/s,r,c,[&](int i,int j){ return e(i,j)/s; }));
	if(k!=0) CK("divide_int",okm<P>(a/k,r,c,[&](int i,int j){ return e(i,j)/k; }));
	CK("plus_ones",okm<P>(a+T::Ones,r,c,[&](int i,int j){ return e(i,j)+1; }));
	CK("ones_plus_scaled",okm<P>(T::Ones*s+a,r,c,[&](int i,int j){ return e(i,j)+s; }));
	CK("minus_scaled_ones",okm<P>(a-s*T::Ones,r,c,[&](int i,int j){ return e(i,j)-s; }));
	CK("ones_minus",okm<P>(T::Ones-a,r,c,[&](int i,int j){ return 1-e(i,j); }));
	CK("minus_ones",okm<P>(a-T::Ones,r,c,[&](int i,int j){ return e(i,j)-1; }));
	CK("scaled_ones_minus",okm<P>(T::Ones*s-a,r,c,[&](int i,int j){ return s-e(i,j); }));
	if constexpr((int)VR1==(int)VC1) { if(r==c){
		CK("plus_identity",okm<P>(a+T::Identity,r,c,[&](int i,int j){ return e(i,j)+(i==j); }));
		CK("identity_plus_scaled",okm<P>(T::Identity*s+a,r,c,[&](int i,int j){ return e(i,j)+(i==j?s:P(0)); }));
		CK("minus_identity",okm<P>(a-T::Identity,r,c,[&](int i,int j){ return e(i,j)-(i==j); }));
		CK("minus_scaled_identity",okm<P>(a-s*T::Identity,r,c,[&](int i,int j){ return e(i,j)-(i==j?s:P(0)); }));
		CK("identity_minus",okm<P>(T::Identity-a,r,c,[&](int i,int j){ return (i==j)-e(i,j); }));
		CK("scaled_identity_minus",okm<P>(T::Identity*s-a,r,c,[&](int i,int j){ return (i==j?s:P(0))-e(i,j); }));
	} }
	bool nz=false; for(L x:ma.d) if(x!=0) nz=true;
	CK("not_equal_zeros",(a!=T::Zeros)==nz);
	CK("operand_unchanged",same(a,ma));
}
template<class A,class B> static void pairops(const A&a,const B&b,const M&ma,const M&mb,const std::string&pre,const std::string&ctx){
	const int r=ma.r,c=ma.c;
	CK("sum",okm<P>(a+b,r,c,[&](int i,int j){ return (P)ma(i,j)+(P)mb(i,j); }));
	CK("difference",okm<P>(a-b,r,c,[&](int i,int j){ return (P)ma(i,j)-(P)mb(i,j); }));
	CK("equal",(a==b)==eqm(ma,mb)); CK("not_equal",(a!=b)==!eqm(ma,mb));
	CK("product_transposed",okprod<P>(a*b.T(),ma,tr(mb)));
	CK("transposed_product",okprod<P>(a.T()*b,tr(ma),mb));
	CK("operands_unchanged",same(a,ma)&&same(b,mb));
}
template<class A,class B> static void compound(vp::Rng&g,A&a,const B&b,const M&ma,const M&mb,P s,const std::string&pre,const std::string&ctx){
	const int r=ma.r,c=ma.c; auto e=[&](int i,int j){ return (P)ma(i,j); }; auto f=[&](int i,int j){ return (P)mb(i,j); };
	auto reset=[&]{ for(int i=0;i<r;i++) for(int j=0;j<c;j++) a(i,j)=(P)ma(i,j); };
	a+=b; CK("plus_assign",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)+f(i,j); })); reset();
	a-=b; CK("minus_assign",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)-f(i,j); })); reset();
	a*=s; CK("times_assign",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)*s; })); reset();
	if(s!=0){ a/=s; CK("divide_assign",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)/s; })); reset(); }
	a=b; CK("assign",same(a,mb)); reset();
	a+=T::Ones*s; CK("plus_assign_ones",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)+s; })); reset();
	a-=T::Ones*s; CK("minus_assign_ones",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)-s; })); reset();
	a=T::Ones*s; CK("assign_ones",okm<P>(a,r,c,[&](int,int){ return s; })); a=T::Zeros; CK("assign_zeros",okm<P>(a,r,c,[&](int,int){ return P(0); })); reset();
	if constexpr((int)VR1==(int)VC1) { if(r==c){ a+=T::Identity*s; CK("plus_assign_identity",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)+(i==j?s:P(0)); })); reset();
		a-=T::Identity*s; CK("minus_assign_identity",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)-(i==j?s:P(0)); })); reset();
		a-=T::Identity; CK("minus_assign_identity",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)-(i==j?P(1):P(0)); })); reset(); a+=T::Identity; CK("plus_assign_identity",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)+(i==j?P(1):P(0)); })); reset();
		if(r){ int q=g.range(0,r-1); P x=e(q,q); a+=T::Identity*a(q,q); CK("identity_times_own_element",okm<P>(a,r,c,[&](int i,int j){ return i==j?e(i,j)+x:e(i,j); })); reset(); a=a-T::Identity*a(q,q); CK("identity_times_own_element",okm<P>(a,r,c,[&](int i,int j){ return i==j?e(i,j)-x:e(i,j); })); reset(); a=T::Identity*a(q,q); CK("identity_times_own_element",okm<P>(a,r,c,[&](int i,int j){ return i==j?x:P(0); })); reset(); }
		a=T::Identity*s; CK("assign_identity",okm<P>(a,r,c,[&](int i,int j){ return i==j?s:P(0); })); reset();
		a=T::Identity*s-a; CK("assign_identity_minus_self",okm<P>(a,r,c,[&](int i,int j){ return (i==j?s:P(0))-e(i,j); })); reset();
		a=a*b; CK("assign_product_with_self",okprod<P>(a,ma,mb)); reset(); a=b*a; CK("assign_product_with_self",okprod<P>(a,mb,ma)); reset(); a=a*a; CK("assign_square",okprod<P>(a,ma,ma)); reset(); a=a*a.T(); CK("assign_gram",okprod<P>(a,ma,tr(ma))); reset(); } }
	a+=a; CK("plus_self",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)+e(i,j); })); reset();
	a-=a; CK("minus_self",okm<P>(a,r,c,[&](int,int){ return P(0); })); reset();
	a=a+b; CK("assign_sum_with_self",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)+f(i,j); })); reset();
	a=b-a; CK("assign_difference_with_self",okm<P>(a,r,c,[&](int i,int j){ return f(i,j)-e(i,j); })); reset();
	a=-a; CK("assign_negated_self",okm<P>(a,r,c,[&](int i,int j){ return -e(i,j); })); reset();
	a=T::Ones*s-a; CK("assign_ones_minus_self",okm<P>(a,r,c,[&](int i,int j){ return s-e(i,j); })); reset();
	CK("assignments_return_the_object",returned_itself(a=b,a)&&returned_itself(a+=b,a)&&returned_itself(a-=b,a)&&returned_itself(a*=s,a)&&(s==0||returned_itself(a/=s,a))&&returned_itself(a+=T::Ones*s,a)&&returned_itself(a-=T::Ones*s,a)&&returned_itself(a=T::Ones*s,a)&&returned_itself(a=T::Zeros,a)); reset();
	a=a; CK("self_assign",same(a,ma));
	if(r&&c){ int i=g.range(0,r-1),j=g.range(0,c-1); P x=(P)ma(i,j);
		a*=a(i,j); CK("times_own_element",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)*x; })); reset();
		if(x!=0){ a/=a[i][j]; CK("divide_by_own_element",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)/x; })); reset(); }
		a=a*a(i,j); CK("assign_scaled_by_own_element",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)*x; })); reset(); a=a(i,j)*a; CK("assign_scaled_by_own_element",okm<P>(a,r,c,[&](int i,int j){ return x*e(i,j); })); reset(); if(x!=0){ a=a/a(i,j); CK("assign_divided_by_own_element",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)/x; })); reset(); }
		a+=T::Ones*a(i,j); CK("ones_times_own_element",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)+x; })); reset(); a-=T::Ones*a(i,j); CK("ones_times_own_element",okm<P>(a,r,c,[&](int i,int j){ return e(i,j)-x; })); reset(); a=T::Ones*a(i,j); CK("ones_times_own_element",okm<P>(a,r,c,[&](int,int){ return x; })); reset();
		// rows and columns as operands
		a[i]+=b[g.range(0,0)]; CK("row_plus_assign",okm<P>(a,r,c,[&](int p,int q){ return p==i?e(p,q)+f(0,q):e(p,q); })); reset();
		a.T()[j]-=b.T()[j]; CK("column_minus_assign",okm<P>(a,r,c,[&](int p,int q){ return q==j?e(p,q)-f(p,q):e(p,q); })); reset();
		a[i]*=s; CK("row_times_assign",okm<P>(a,r,c,[&](int p,int q){ return p==i?e(p,q)*s:e(p,q); })); reset();
		CK("row_dot",okdot<P>((L)(a[i]*b[0]),rowof(ma,i),rowof(mb,0))); CK("column_dot",okdot<P>((L)(a.T()[j]*b.T()[0]),colof(ma,j),colof(mb,0))); }
	CK("other_operand_unchanged",same(b,mb));
}
static void run(vp::Rng&g){
	int r=VR1>=0?VR1:VR2>=0?VR2:(g.chance(.08)?g.range(6,20):g.range(0,5)), c=VC1>=0?VC1:VC2>=0?VC2:(g.chance(.3)?r:g.range(0,5)); int kind=std::is_integral<P>::value?0:g.range(0,3);
	M ma=valm<P>(g,r,c,kind),mb=valm<P>(g,r,c,kind); if(g.chance(.15)) mb=ma; else if(r*c&&g.chance(.15)){ mb=ma; L&x=mb.d[g.range(0,r*c-1)]; x=rnd<P>(x+1); }
	if(g.chance(.05)) for(auto&x:ma.d) x=0;
	P s=val<P>(g,kind); int k=g.range(-4,4);
	vp::sig(vp::hbytes(ma.d.data(),r*c)^vp::mix(vp::hbytes(mb.d.data(),r*c)+r));
	int sa=g.range(0,NMAT-1),sb=g.range(0,NMAT-1); const std::string&pre=base_;
	std::string ctx=vp::fmt("<%d,%d>[%s] op <%d,%d>[%s] s=%Lg a=",VR1,VC1,MN[sa],VR2,VC2,MN[sb],(L)s)+shows(ma)+" b="+shows(mb);
	vp::describe(std::string(pname<P>::s())+ctx);
	with_mat<VR1,VC1,P>(g,ma,[&](auto&a){
		unaryops(g,a,ma,s,k,pre,ctx);
		{ const auto&ca=a; unaryops(g,ca.template slice<0,0,VR1,VC1>(0,0,r,c),ma,s,k,vp::key(pre+"readonly/"),ctx); }
		with_mat<VR2,VC2,P>(g,mb,[&](auto&b){
			pairops(a,b,ma,mb,pre,ctx);
			compound(g,a,b,ma,mb,s,pre,ctx);
			const auto&cb=b; auto rb=cb.template slice<0,0,VR2,VC2>(0,0,r,c);
			CK("readonly/sum",okm<P>(a+rb,r,c,[&](int i,int j){ return (P)ma(i,j)+(P)mb(i,j); }));
			CK("readonly/product",okprod<P>(rb.T()*a,tr(mb),ma));
			a+=rb; CK("readonly/plus_assign",okm<P>(a,r,c,[&](int i,int j){ return (P)ma(i,j)+(P)mb(i,j); })); a=rb; CK("readonly/assign",same(a,mb)); put(a,ma);
			CK("operands_unchanged",same(a,ma)&&same(b,mb));
		},sb);
	},sa);
}
VP_UNIT(mat,3000,60000){ run(rng); }
