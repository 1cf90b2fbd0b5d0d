// Matrix times vector, vector times matrix, matrix times matrix, diagonal products: every storage, rectangular shapes
#include "c01.hpp"
#ifndef VRR
#define VRR 3
#define VCC 4
#define VNV 4
#endif
#ifndef VTY
#define VTY double
#endif
typedef VTY P;
static const std::string base_=std::is_same<P,double>::value?std::string():std::string(pname<P>::s())+"/";
static int pick(vp::Rng&g,int st){ return st>=0?st:(g.chance(.08)?g.range(9,40):g.range(0,6)); }
// the right operand has VNV rows (static) or dynamic ones
static const int NL=VNV<0?-1:VRR<0?-1:VRR;
VP_UNIT(mv,4000,80000){ vp::Rng&g=rng;
	int r=pick(g,VRR),c=VCC>=0?VCC:VNV>=0?VNV:pick(g,-1); if(VNV<0&&VRR<0&&VCC<0&&g.chance(.3)) c=r; int kind=std::is_integral<P>::value?0:g.range(0,3);
	M m=valm<P>(g,r,c,kind); V x=vals<P>(g,c,kind),y=vals<P>(g,r,kind); const std::string&pre=base_;
	int sm=g.range(0,NMAT-1),sx=g.range(0,NVEC-1),sy=g.range(0,NVEC-1);
	vp::sig(vp::hbytes(m.d.data(),r*c)^vp::mix(vp::hbytes(x.data(),c)+sm*8+sx)); 
	std::string ctx=vp::fmt("<%d,%d>[%s] with <%d>[%s] ",VRR,VCC,MN[sm],VNV,VN[sx])+shows(m)+" x="+shows(x)+" y="+shows(y); vp::describe(std::string(pname<P>::s())+ctx);
	auto dm=[&](int i,int j){ return (P)m(i,j)*(P)x[j]; }; auto dl=[&](int i,int j){ return (P)y[i]*(P)m(i,j); };
	with_mat<VRR,VCC,P>(g,m,[&](auto&A){
		const auto&cA=A; auto rA=cA.template slice<0,0,VRR,VCC>(0,0,r,c);
		with_vec<VNV,P>(g,x,[&](auto&X){
			CK("matrix_times_vector",okmv<P>(A*X,m,x)); CK("readonly/matrix_times_vector",okmv<P>(rA*X,m,x));
			CK("vector_times_transposed",okmv<P>(X*A.T(),m,x));
			CK("diagmult_right",okm<P>(diagmult(A,X),r,c,dm)); CK("readonly/diagmult_right",okm<P>(diagmult(rA,X),r,c,dm));
			CK("times_diagonal",okm<P>(A*X.as_diagonal(),r,c,dm));
			CK("times_column",okprod<P>(A*X.as_col(),m,colM(x)));
			const auto&cX=X; auto rX=cX.template slice<0,VNV>(0,c); CK("readonly/times_readonly_vector",okmv<P>(A*rX,m,x)); CK("readonly/times_diagonal",okm<P>(A*cX.as_diagonal(),r,c,dm));
			{ T::Vector<VRR,P> o(r); o=A*X; CK("assigned_product",okmv<P>(o,m,x)); o+=A*X; CK("accumulated_product",okv<P>(o,r,[&](int i){ return (P)(A[i]*X)*2; })); }
			if(r==c){ if constexpr(VRR==VCC&&VRR==VNV){ X=A*X; CK("assign_matrix_times_self",okmv<P>(X,m,x)); fillv<P>(X,x); X=X*A; CK("assign_self_times_matrix",okmv<P>(X,tr(m),x)); fillv<P>(X,x);
				X+=A*X; { V e=mul(m,x); bool ok=true; for(int i=0;i<c;i++){ L t=fabsl(x[i]); for(int j=0;j<c;j++) t+=fabsl(m(i,j)*x[j]); ok&=fabsl((L)X[i]-(x[i]+e[i]))<=(2*c+6)*(std::is_integral<P>::value?0:epsP<P>()+EPSL)*t; } CK("plus_assign_matrix_times_self",ok); } fillv<P>(X,x); } }
			CK("operands_unchanged",same(A,m)&&samev(X,x));
		},sx);
		with_vec<NL,P>(g,y,[&](auto&Y){
			CK("vector_times_matrix",okmv<P>(Y*A,tr(m),y)); CK("readonly/vector_times_matrix",okmv<P>(Y*rA,tr(m),y));
			CK("transposed_times_vector",okmv<P>(A.T()*Y,tr(m),y));
			CK("diagmult_left",okm<P>(diagmult(Y,A),r,c,dl)); CK("readonly/diagmult_left",okm<P>(diagmult(Y,rA),r,c,dl));
			CK("diagonal_times",okm<P>(Y.as_diagonal()*A,r,c,dl));
			CK("row_times",okprod<P>(Y.as_row()*A,tr(colM(y)),m));
			CK("operands_unchanged",same(A,m)&&samev(Y,y));
		},sy);
	},sm);
}
// chained and rectangular matrix products
VP_UNIT(mm,2500,50000){ vp::Rng&g=rng;
	int r=pick(g,VRR),c=VCC>=0?VCC:pick(g,-1),k=g.range(0,5); int kind=std::is_integral<P>::value?0:g.range(0,3); M a=valm<P>(g,r,c,kind),b=valm<P>(g,c,k,kind); V y=vals<P>(g,r,kind);
	const std::string&pre=base_; int sa=g.range(0,NMAT-1),sb=g.range(0,NMAT-1); std::string ctx=vp::fmt("<%d,%d>[%s] * %dx%d[%s] ",VRR,VCC,MN[sa],c,k,MN[sb])+shows(a)+" b="+shows(b); vp::describe(std::string(pname<P>::s())+ctx);
	vp::sig(vp::hbytes(a.d.data(),r*c)^vp::mix(vp::hbytes(b.d.data(),c*k)+sa*9+sb));
	with_mat<VRR,VCC,P>(g,a,[&](auto&A){ with_mat<(VNV<0?-1:VCC),-1,P>(g,b,[&](auto&B){
		CK("product",okprod<P>(A*B,a,b)); CK("product_of_transposes",okprod<P>(B.T()*A.T(),tr(b),tr(a)));
		const auto&cA=A; const auto&cB=B; CK("readonly/product",okprod<P>(cA.template slice<0,0,VRR,VCC>(0,0,r,c)*cB.T().T(),a,b));
		{ T::Matrix<VRR,Dyn,P,T::ColMajor> o(r,k); o=A*B; CK("assigned_product",okprod<P>(o,a,b)); }
		CK("operands_unchanged",same(A,a)&&same(B,b));
	},sb); },sa);
	(void)y;
}
#if VRR<0 && VCC<0 && VNV<0
// sizes beyond one block, one cache line or one page: run-time sized operands, and static ones kept on the heap
VP_UNIT(large,24,500){ vp::Rng&g=rng; int kind=std::is_integral<P>::value?0:g.range(0,3); const std::string&pre=base_; bool st=g.chance(.3);
	int r=st?19:g.range(17,110),c=st?23:g.range(17,110),k=st?18:g.range(1,70); M a=valm<P>(g,r,c,kind),b=valm<P>(g,c,k,kind),a2=valm<P>(g,r,c,kind); V x=vals<P>(g,c,kind),y=vals<P>(g,r,kind); int sa=g.range(0,NMAT-1),sb=g.range(0,NMAT-1),sx=g.range(0,NVEC-1);
	std::string ctx=vp::fmt("%dx%d[%s] * %dx%d[%s] static=%d ",r,c,MN[sa],c,k,MN[sb],(int)st)+shows(a); vp::describe(std::string(pname<P>::s())+ctx); vp::sig(vp::hbytes(a.d.data(),r*c)^vp::mix(vp::hbytes(b.d.data(),c*k)+sa*9+sb));
	auto go=[&](auto R,auto C,auto K){ constexpr int r_=decltype(R)::value,c_=decltype(C)::value,k_=decltype(K)::value;
		with_mat<r_,c_,P>(g,a,[&](auto&A){
			with_mat<c_,k_,P>(g,b,[&](auto&B){ CK("large/product",okprod<P>(A*B,a,b)); CK("large/product_of_transposes",okprod<P>(B.T()*A.T(),tr(b),tr(a))); T::Matrix<r_,k_,P> o(r,k); o=A*B; CK("large/assigned_product",okprod<P>(o,a,b)); CK("large/operands_unchanged",same(A,a)&&same(B,b)); },sb);
			with_mat<r_,c_,P>(g,a2,[&](auto&B){ CK("large/sum",okm<P>(A+B,r,c,[&](int i,int j){ return (P)a(i,j)+(P)a2(i,j); })); CK("large/difference",okm<P>(A-B,r,c,[&](int i,int j){ return (P)a(i,j)-(P)a2(i,j); })); bool eq=true; for(int i=0;i<r;i++) for(int j=0;j<c;j++) eq&=a(i,j)==a2(i,j); CK("large/compare",(A==B)==eq&&(A!=B)!=eq); A+=B; CK("large/plus_assign",okm<P>(A,r,c,[&](int i,int j){ return (P)a(i,j)+(P)a2(i,j); })); A=B; CK("large/assign",same(A,a2)); CK("large/equal",A==B&&!(A!=B)); A(r-1,c-1)=A(r-1,c-1)+P(1); if(A(r-1,c-1)!=B(r-1,c-1)) CK("large/last_differs",A!=B&&!(A==B)); put(A,a); },sb);
			with_vec<c_,P>(g,x,[&](auto&X){ CK("large/matrix_times_vector",okmv<P>(A*X,a,x)); CK("large/vector_times_transposed",okmv<P>(X*A.T(),a,x)); CK("large/diagmult",okm<P>(diagmult(A,X),r,c,[&](int i,int j){ return (P)a(i,j)*(P)x[j]; })); CK("large/outer",okprod<P>(X.as_col()*X.as_row(),colM(x),tr(colM(x)))); CK("large/dot",okdot<P>((L)(X*X),x,x)); CK("large/row_dot",okdot<P>((L)(A[r-1]*X),rowof(a,r-1),x)); CK("large/vector_operand_unchanged",samev(X,x)); },sx);
			with_vec<r_,P>(g,y,[&](auto&Y){ CK("large/vector_times_matrix",okmv<P>(Y*A,tr(a),y)); CK("large/vector_sum",okv<P>(Y+Y*P(2),r,[&](int i){ return (P)y[i]+(P)((P)y[i]*P(2)); })); },sx);
		},sa); };
	if(st) go(std::integral_constant<int,19>(),std::integral_constant<int,23>(),std::integral_constant<int,18>()); else go(std::integral_constant<int,-1>(),std::integral_constant<int,-1>(),std::integral_constant<int,-1>());
}
#endif
