// Vector arithmetic over every pair of storages, against the scalar definition.  -DN1=.. -DN2=.. choose static sizes (-1: dynamic)
#include "c01.hpp"
#ifndef VN1
#define VN1 3
#define VN2 3
#endif
template<class P,class A,class B> static void pairops(const A&a,const B&b,const V&va,const V&vb,const std::string&pre,const std::string&ctx){
	const int n=va.size();
	CK("sum",okv<P>(a+b,n,[&](int i){ return (P)va[i]+(P)vb[i]; }));
	CK("difference",okv<P>(a-b,n,[&](int i){ return (P)va[i]-(P)vb[i]; }));
	CK("diagmult",okv<P>(diagmult(a,b),n,[&](int i){ return (P)va[i]*(P)vb[i]; }));
	CK("dot",okdot<P>((L)(a*b),va,vb));
	CK("dot_commutes",okdot<P>((L)(b*a),va,vb));
	CK("equal",(a==b)==eqv(va,vb)); CK("not_equal",(a!=b)==!eqv(va,vb));
	{ M r=mul(colM(va),tr(colM(vb))); CK("outer",okprod<P>(a.as_col()*b.as_row(),colM(va),tr(colM(vb)))); (void)r; }
	CK("row_times_col",okprod<P>(a.as_row()*b.as_col(),tr(colM(va)),colM(vb)));
	CK("diagonal_times_vector",okv<P>(a.as_diagonal()*b,n,[&](int i){ return (P)va[i]*(P)vb[i]; }));
	CK("vector_times_diagonal",okv<P>(a*b.as_diagonal(),n,[&](int i){ return (P)va[i]*(P)vb[i]; }));
	CK("diagonal_times_diagonal",okv<P>((a.as_diagonal()*b.as_diagonal()).my_vector,n,[&](int i){ return (P)va[i]*(P)vb[i]; }));
	CK("operands_unchanged",samev(a,va)&&samev(b,vb));
}
template<class P,class A> static void unaryops(vp::Rng&g,const A&a,const V&va,P s,int k,const std::string&pre,const std::string&ctx){
	const int n=va.size();
	CK("negate",okv<P>(-a,n,[&](int i){ return -(P)va[i]; }));
	CK("scale_right",okv<P>(a*s,n,[&](int i){ return (P)va[i]*s; }));
	CK("scale_left",okv<P>(s*a,n,[&](int i){ return s*(P)va[i]; }));
	CK("scale_int",okv<P>(a*k,n,[&](int i){ return (P)va[i]*k; }));
	if(s!=0) CK("divide",okv<P>(a/s,n,[&](int i){ return (P)va[i]/s; }));
	if(k!=0) CK("divide_int",okv<P>(a/k,n,[&](int i){ return (P)va[i]/k; }));
	CK("plus_ones",okv<P>(a+T::Ones,n,[&](int i){ return (P)va[i]+1; }));
	CK("ones_plus",okv<P>(T::Ones+a,n,[&](int i){ return (P)va[i]+1; }));
	CK("minus_ones",okv<P>(a-T::Ones,n,[&](int i){ return (P)va[i]-1; }));
	CK("ones_minus",okv<P>(T::Ones-a,n,[&](int i){ return 1-(P)va[i]; }));
	CK("plus_scaled_ones",okv<P>(a+T::Ones*s,n,[&](int i){ return (P)va[i]+s; }));
	CK("scaled_ones_plus",okv<P>(s*T::Ones+a,n,[&](int i){ return (P)va[i]+s; }));
	CK("minus_scaled_ones",okv<P>(a-s*T::Ones,n,[&](int i){ return (P)va[i]-s; }));
	CK("scaled_ones_minus",okv<P>(T::Ones*s-a,n,[&](int i){ return s-(P)va[i]; }));
	bool nz=false; for(L x:va) if(x!=0) nz=true;
	CK("not_equal_zeros",(a!=T::Zeros)==nz);
	CK("operand_unchanged",samev(a,va));
}
template<class P,class A,class B> static void compound(vp::Rng&g,A&a,const B&b,const V&va,const V&vb,P s,const std::string&pre,const std::string&ctx){
	const int n=va.size();
	auto reset=[&]{ for(int i=0;i<n;i++) a[i]=(P)va[i]; };
	a+=b; CK("plus_assign",okv<P>(a,n,[&](int i){ return (P)va[i]+(P)vb[i]; })); reset();
	a-=b; CK("minus_assign",okv<P>(a,n,[&](int i){ return (P)va[i]-(P)vb[i]; })); reset();
	a*=s; CK("times_assign",okv<P>(a,n,[&](int i){ return (P)va[i]*s; })); reset();
	if(s!=0){ a/=s; CK("divide_assign",okv<P>(a,n,[&](int i){ return (P)va[i]/s; })); reset(); }
	a=b; CK("assign",samev(a,vb)); reset();
	a+=T::Ones*s; CK("plus_assign_ones",okv<P>(a,n,[&](int i){ return (P)va[i]+s; })); reset();
	a-=T::Ones*s; CK("minus_assign_ones",okv<P>(a,n,[&](int i){ return (P)va[i]-s; })); reset();
	a=T::Ones*s; CK("assign_ones",okv<P>(a,n,[&](int){ return s; })); a=T::Zeros; CK("assign_zeros",okv<P>(a,n,[&](int){ return P(0); })); reset();
	// the assigned object is also an operand
	a+=a; CK("plus_self",okv<P>(a,n,[&](int i){ return (P)va[i]+(P)va[i]; })); reset();
	a-=a; CK("minus_self",okv<P>(a,n,[&](int i){ return P(0); })); reset();
	a=a+b; CK("assign_sum_with_self",okv<P>(a,n,[&](int i){ return (P)va[i]+(P)vb[i]; })); reset();
	a=b-a; CK("assign_difference_with_self",okv<P>(a,n,[&](int i){ return (P)vb[i]-(P)va[i]; })); reset();
	a=-a; CK("assign_negated_self",okv<P>(a,n,[&](int i){ return -(P)va[i]; })); reset();
	a=diagmult(a,b); CK("assign_diagmult_with_self",okv<P>(a,n,[&](int i){ return (P)va[i]*(P)vb[i]; })); reset();
	a=T::Ones*s-a; CK("assign_ones_minus_self",okv<P>(a,n,[&](int i){ return s-(P)va[i]; })); reset();
	CK("assignments_return_the_object",returned_itself(a=b,a)&&returned_itself(a+=b,a)&&returned_itself(a-=b,a)&&returned_itself(a*=s,a)&&(s==0||returned_itself(a/=s,a))&&returned_itself(a+=T::Ones*s,a)&&returned_itself(a-=T::Ones*s,a)&&returned_itself(a=T::Ones*s,a)&&returned_itself(a=T::Zeros,a)); reset();
	a=a; CK("self_assign",samev(a,va));
	if(n){ int k=g.range(0,n-1); P e=(P)va[k];
		a*=a[k]; CK("times_own_element",okv<P>(a,n,[&](int i){ return (P)va[i]*e; })); reset();
		if(e!=0){ a/=a[k]; CK("divide_by_own_element",okv<P>(a,n,[&](int i){ return (P)va[i]/e; })); reset(); }
		a=a*a[k]; CK("assign_scaled_by_own_element",okv<P>(a,n,[&](int i){ return (P)va[i]*e; })); reset();
		a=a[k]*a; CK("assign_scaled_by_own_element",okv<P>(a,n,[&](int i){ return e*(P)va[i]; })); reset(); if(e!=0){ a=a/a[k]; CK("assign_divided_by_own_element",okv<P>(a,n,[&](int i){ return (P)va[i]/e; })); reset(); }
		a+=T::Ones*a[k]; CK("ones_times_own_element",okv<P>(a,n,[&](int i){ return (P)va[i]+e; })); reset(); a-=T::Ones*a[k]; CK("ones_times_own_element",okv<P>(a,n,[&](int i){ return (P)va[i]-e; })); reset(); a=a+T::Ones*a[k]; CK("ones_times_own_element",okv<P>(a,n,[&](int i){ return (P)va[i]+e; })); reset(); a=T::Ones*a[k]; CK("ones_times_own_element",okv<P>(a,n,[&](int){ return e; })); reset(); }
	CK("other_operand_unchanged",samev(b,vb));
}
template<class A,class B> static auto cross(const A&a,const B&b)->decltype(a^b){ return a^b; }
template<class P> static void run(vp::Rng&g){
	int n=VN1>=0?VN1:VN2>=0?VN2:(g.chance(.1)?g.range(9,70):g.range(0,8)); int kind=std::is_integral<P>::value?0:g.range(0,3);
	V va=vals<P>(g,n,kind),vb=vals<P>(g,n,kind); if(g.chance(.15)) vb=va; else if(n&&g.chance(.15)){ vb=va; vb[g.range(0,n-1)]+=1; for(auto&x:vb) x=rnd<P>(x); }
	if(g.chance(.05)) for(auto&x:va) x=0;
	P s=val<P>(g,kind); int k=g.range(-4,4); std::string pre=std::is_same<P,double>::value?std::string():std::string(pname<P>::s())+"/";
	vp::sig(vp::hbytes(va.data(),n)^vp::mix(vp::hbytes(vb.data(),n)));
	int sa=g.range(0,NVEC-1),sb=g.range(0,NVEC-1);
	std::string ctx=vp::fmt("<%d>[%s] op <%d>[%s] n=%d s=%Lg a=",VN1,VN[sa],VN2,VN[sb],n,(L)s)+shows(va)+" b="+shows(vb);
	vp::describe(std::string(pname<P>::s())+ctx);
	with_vec<VN1,P>(g,va,[&](auto&a){
		unaryops<P>(g,a,va,s,k,pre,ctx);
		{ const auto&ca=a; unaryops<P>(g,ca.template slice<0,VN1>(0,n),va,s,k,vp::key(pre+"readonly/"),ctx); }
		with_vec<VN2,P>(g,vb,[&](auto&b){
			pairops<P>(a,b,va,vb,pre,ctx);
			compound<P>(g,a,b,va,vb,s,pre,ctx);
			const auto&cb=b; auto rb=cb.template slice<0,VN2>(0,n);
			pairops<P>(a,rb,va,vb,pre+"readonly/",ctx);
			a+=rb; CK("readonly/plus_assign",okv<P>(a,n,[&](int i){ return (P)va[i]+(P)vb[i]; })); a=rb; CK("readonly/assign",samev(a,vb)); for(int i=0;i<n;i++) a[i]=(P)va[i];
#if VN1==3 && VN2==3
			{ auto c=a^b; bool ok=true; for(int i=0;i<3;i++){ int j=(i+1)%3,l=(i+2)%3; ok&=near<P>((L)c[i],va[j]*vb[l]-va[l]*vb[j],8*(fabsl(va[j]*vb[l])+fabsl(va[l]*vb[j]))); } CK("cross",ok); }
#endif
			CK("operands_unchanged",samev(a,va)&&samev(b,vb));
		},sb);
	},sa);
}
#ifndef VTY
#define VTY double
#endif
VP_UNIT(vec,3000,60000){ vp::Rng&g=rng; run<VTY>(g); }
