// C07: every function of helpers.h against its definition, over every storage, with ties, empties, NaN and infinities.
#include "store.hpp"
template<class P> struct IsF { static const bool v=!std::numeric_limits<P>::is_integer; };
template<class P> V gvals(vp::Rng&g,int n,bool ints){ V v(n); L s=g.chance(.2)?ldexpl(1,g.range(sizeof(P)==4?-20:-100,sizeof(P)==4?20:100)):1; int mode=g.range(0,5);
	for(auto&x: v){ if(ints||!IsF<P>::v) x=mode==0?g.range(0,1):g.range(-9,9); else switch(mode){ case 0: x=g.range(-2,2); break; case 1: x=-fabsl(g.normal())*s; break; case 2: x=g.chance(.5)?0:s*g.normal(); break; default: x=s*g.normal(); } x=rnd<P>(x); }
	if(n>1&&g.chance(.3)) v[g.range(0,n-1)]=v[g.range(0,n-1)];
	//lengths at and very near 1 (or another round number), and nearly one-hot vectors
	if(IsF<P>::v&&!ints&&n&&g.chance(.25)){ if(g.chance(.3)){ const L e=powl(10,-g.range(1,18)); const int h=g.range(0,n-1); for(int i=0;i<n;i++) v[i]=i==h?1:v[i]/s*e; }
		L q=0; for(L x: v) q+=x*x; if(q>0){ const int mode2=g.range(0,4); L t=mode2==0?1:1+(g.range(0,1)?1:-1)*powl(10,-g.range(1,18)); if(mode2==4) t*=ldexpl(1,g.range(-2,2)); for(auto&x: v) x=rnd<P>(x*t/sqrtl(q)); } }
	return v; }
// floating-point functions of a vector
template<int N,class P> void vecf(vp::Rng&g,const std::string& pre){
	const int n=N<0?g.range(0,6):N; const L eps=epsP<P>(); V v=gvals<P>(g,n,false); int w;
	vp::describe(pre+vp::fmt(" n=%d v0=%Lg",n,n?v[0]:0));
	L s2=0,s1=0,si=0; for(L x: v){ s2+=x*x; s1+=fabsl(x); si=std::max(si,fabsl(x)); }
	w=with_vec<N,P>(g,v,[&](auto& y){ const auto& x=y;
		VP_CLOSE(bad((L)T::norm(x)-sqrtl(s2)),(n+4)*eps*sqrtl(s2),vp::key(pre+"norm"),"%s",where());
		VP_CLOSE(bad((L)T::norm_2(x)-sqrtl(s2)),(n+4)*eps*sqrtl(s2),vp::key(pre+"norm_2"),"%s",where());
		VP_CLOSE(bad((L)T::norm_sq(x)-s2),(n+4)*eps*s2,vp::key(pre+"norm_sq"),"%s",where());
		VP_CLOSE(bad((L)T::norm_1(x)-s1),(n+2)*eps*s1,vp::key(pre+"norm_1"),"%s",where());
		VP_CHECK((L)T::norm_inf(x)==si,vp::key(pre+"norm_inf"),"%Lg should be %Lg (%s)",(L)T::norm_inf(x),si,where());
		if(s2>0){ auto u=T::unit(x); L e=0; for(int i=0;i<n;i++) e=nanmax(e,bad((L)u[i]-v[i]/sqrtl(s2))); VP_CHECK(u.size()==n,vp::key(pre+"unit_size"),"%d",u.size()); VP_CLOSE(e,(n+8)*eps,vp::key(pre+"unit"),"%s",where()); }
		if(n>=1&&v[n-1]!=0){ auto p=T::project(x); L e=0; for(int i=0;i<n-1;i++) e=nanmax(e,bad((L)p[i]-v[i]/v[n-1])/(fabsl(v[i]/v[n-1])+std::numeric_limits<P>::min())); VP_CHECK(p.size()==n-1,vp::key(pre+"project_size"),"%d",p.size()); VP_CLOSE(e,4*eps,vp::key(pre+"project"),"%s",where()); }
		{ auto p=T::unproject(x); bool ok=p.size()==n+1; for(int i=0;i<n;i++) ok=ok&&(L)p[i]==v[i]; ok=ok&&(L)p[n]==1; VP_CHECK(ok,vp::key(pre+"unproject"),"%s",where()); }
		VP_CHECK(eqv(getv(x),v),vp::key(pre+"argument_unchanged"),"%s",where()); });
	
	if(s2>0) with_vec<N,P>(g,v,[&](auto& x){ T::normalize(std::move(x)); L e=0; for(int i=0;i<n;i++) e=nanmax(e,bad((L)x[i]-v[i]/sqrtl(s2))); VP_CLOSE(e,(n+8)*eps,vp::key(pre+"normalize"),"%s",where()); });
	if(s2>0){ T::Vector<N,P> x(n); fillv<P>(x,v); T::normalize(x); L e=0; for(int i=0;i<n;i++) e=nanmax(e,bad((L)x[i]-v[i]/sqrtl(s2))); VP_CLOSE(e,(n+8)*eps,vp::key(pre+"normalize_object")," "); }
	vp::sig(vp::hbytes(v.data(),v.size())^w);
}
template<class P> bool isf(P x){ return std::isfinite(x); }
// finiteness, positions, extrema; also integers
template<int N,class P> void vecx(vp::Rng&g,const std::string& pre){
	const int n=N<0?g.range(0,7):N; V v=gvals<P>(g,n,g.chance(.6)); int w; bool inf=false,nan=false;
	if(IsF<P>::v&&n&&g.chance(.25)){ v[g.range(0,n-1)]=g.range(0,1)?INFINITY:-INFINITY; inf=true; }
	vp::describe(pre+vp::fmt(" n=%d v0=%Lg",n,n?v[0]:0));
	w=with_vec<N,P>(g,v,[&](auto& y){ const auto& x=y;
		if(n){ L mn=*std::min_element(v.begin(),v.end()),mx=*std::max_element(v.begin(),v.end());
		VP_CHECK((L)T::min_value(x)==mn,vp::key(pre+"min_value"),"%Lg not %Lg (%s)",(L)T::min_value(x),mn,where());
		VP_CHECK((L)T::max_value(x)==mx,vp::key(pre+"max_value"),"%Lg not %Lg (%s)",(L)T::max_value(x),mx,where());
		auto a=T::min_element(x),b=T::max_element(x);
		VP_CHECK((L)a.first==mn&&a.second>=0&&a.second<n&&v[a.second]==mn,vp::key(pre+"min_element"),"(%Lg,%d) (%s)",(L)a.first,a.second,where());
		VP_CHECK((L)b.first==mx&&b.second>=0&&b.second<n&&v[b.second]==mx,vp::key(pre+"max_element"),"(%Lg,%d) (%s)",(L)b.first,b.second,where()); }
		else { VP_CHECK((L)T::min_value(x)==0&&(L)T::max_value(x)==0&&T::min_element(x).second==0&&T::max_element(x).second==0,vp::key(pre+"extrema_of_nothing")," "); } 
		VP_CHECK(eqv(getv(x),v),vp::key(pre+"argument_unchanged"),"%s",where()); });
	if constexpr(IsF<P>::v){ if(n&&g.chance(.5)){ v[g.range(0,n-1)]=NAN; nan=true; }
		with_vec<N,P>(g,v,[&](auto& y){ const auto& x=y; VP_CHECK(T::isfinite(x)==!(inf||nan),vp::key(pre+"isfinite"),"%d inf %d nan %d (%s)",T::isfinite(x),inf,nan,where()); VP_CHECK(T::isnan(x)==nan,vp::key(pre+"isnan"),"%d inf %d nan %d (%s)",T::isnan(x),inf,nan,where()); }); }
	vp::sig(vp::hbytes(v.data(),v.size())^w);
}
template<class P> void cross(vp::Rng&g,const std::string& pre){
	V a=gvals<P>(g,3,!IsF<P>::v),b=gvals<P>(g,3,!IsF<P>::v); const L eps=IsF<P>::v?epsP<P>():0; vp::describe(pre+vp::fmt(" %Lg %Lg",a[0],b[0]));
	V c={0,0,0}; c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; L s=maxabs(a)*maxabs(b);
	with_vec<3,P>(g,a,[&](auto& x){ const auto& cx=x;
		auto C=T::cross_product_matrix(cx); L e=0; bool ex=true; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ L r=i==j?0:((j-i+3)%3==1?-1:1)*a[3-i-j]; ex=ex&&(L)C(i,j)==r; } VP_CHECK(ex,vp::key(pre+"cross_product_matrix"),"%s",where());
		with_vec<3,P>(g,b,[&](auto& y){ const auto& cy=y; auto r=cx^cy; L e=0; for(int i=0;i<3;i++) e=nanmax(e,bad((L)r[i]-c[i])); VP_CLOSE(e,8*eps*s,vp::key(pre+"cross_product"),"%s",where());
			auto q=C*cy; e=0; for(int i=0;i<3;i++) e=nanmax(e,bad((L)q[i]-c[i])); VP_CLOSE(e,8*eps*s,vp::key(pre+"cross_product_matrix_product"),"%s",where()); }); });
	with_vec<Dyn,P>(g,a,[&](auto& x){ const auto& cx=x; auto C=T::cross_product_matrix(cx); bool ex=true; for(int i=0;i<3;i++) for(int j=0;j<3;j++){ L r=i==j?0:((j-i+3)%3==1?-1:1)*a[3-i-j]; ex=ex&&(L)C(i,j)==r; } VP_CHECK(ex,vp::key(pre+"cross_product_matrix_dynamic"),"%s",where()); });
	vp::sig(vp::hbytes(a.data(),3)^vp::hbytes(b.data(),3));
}
template<int R,int C,class P> void matf(vp::Rng&g,const std::string& pre){
	const int r=R<0?g.range(0,6):R,c=C<0?g.range(0,6):C; const L eps=epsP<P>(); M m(r,c); { V v=gvals<P>(g,r*c,false); std::copy(v.begin(),v.end(),m.d.begin()); } bool hasnan=false; int w;
	vp::describe(pre+vp::fmt(" %dx%d m0=%Lg",r,c,r*c?m.d[0]:0));
	w=with_mat<R,C,P>(g,m,[&](auto& B){ const auto& A=B;
		L f=fro(m),ni=norminf(m),n1=norm1(m);
		VP_CLOSE(bad((L)T::norm_fro(A)-f),(r*c+4)*eps*f,vp::key(pre+"norm_fro"),"%s",where());
		VP_CLOSE(bad((L)T::norm_inf(A)-ni),(c+2)*eps*ni,vp::key(pre+"mat_norm_inf"),"%s",where());
		VP_CLOSE(bad((L)T::norm_1(A)-n1),(r+2)*eps*n1,vp::key(pre+"mat_norm_1"),"%s",where());
		VP_CHECK(!T::isnan(A),vp::key(pre+"mat_isnan"),"%s",where());
		bool last=r>0; for(int j=0;j<c;j++) last=last&&m(r-1,j)!=0;
		if(last){ auto p=T::project(A); L e=0; VP_CHECK(p.num_rows()==r-1&&p.num_cols()==c,vp::key(pre+"mat_project_size"),"%dx%d",p.num_rows(),p.num_cols()); for(int i=0;i<r-1;i++) for(int j=0;j<c;j++) e=nanmax(e,bad((L)p(i,j)-m(i,j)/m(r-1,j))/(fabsl(m(i,j)/m(r-1,j))+std::numeric_limits<P>::min())); VP_CLOSE(e,4*eps,vp::key(pre+"mat_project"),"%s",where()); }
		{ auto p=T::unproject(A); bool ok=p.num_rows()==r+1&&p.num_cols()==c; for(int j=0;j<c&&ok;j++){ for(int i=0;i<r;i++) ok=ok&&(L)p(i,j)==m(i,j); ok=ok&&(L)p(r,j)==1; } VP_CHECK(ok,vp::key(pre+"mat_unproject"),"%s",where()); }
		VP_CHECK(eqm(getm(A),m),vp::key(pre+"mat_argument_unchanged"),"%s",where()); });
	if(r*c){ M q=m; q.d[g.range(0,r*c-1)]=NAN; with_mat<R,C,P>(g,q,[&](auto& B){ const auto& A=B; VP_CHECK(T::isnan(A),vp::key(pre+"mat_isnan_true"),"%s",where()); }); }
	(void)hasnan; vp::sig(vp::hbytes(m.d.data(),m.d.size())^w);
}
template<int N,class P> void sqf(vp::Rng&g,const std::string& pre){
	const int n=N<0?g.range(0,6):N; const L eps=IsF<P>::v?epsP<P>():0; M m(n,n); { V v=gvals<P>(g,n*n,!IsF<P>::v); std::copy(v.begin(),v.end(),m.d.begin()); if(!IsF<P>::v) for(auto&x: m.d) x=2*x; }
	L t=0,ta=0; for(int i=0;i<n;i++){ t+=m(i,i); ta+=fabsl(m(i,i)); } vp::describe(pre+vp::fmt(" n=%d",n));
	int w=with_mat<N,N,P>(g,m,[&](auto& A){ const auto& K=A; VP_CLOSE(bad((L)T::trace(K)-t),(n+1)*eps*ta,vp::key(pre+"trace"),"%s",where()); VP_CHECK(eqm(getm(K),m),vp::key(pre+"mat_argument_unchanged"),"%s",where());
		T::Symmetrize(A); bool sy=true,dg=true; L e=0; for(int i=0;i<n;i++){ dg=dg&&(L)A(i,i)==m(i,i); for(int j=0;j<n;j++){ sy=sy&&A(i,j)==A(j,i); e=nanmax(e,bad((L)A(i,j)-(m(i,j)+m(j,i))/2)/(fabsl(m(i,j))+fabsl(m(j,i))+std::numeric_limits<P>::min())); } }
		VP_CHECK(sy,vp::key(pre+"symmetrize_symmetric"),"%s",where()); VP_CHECK(dg,vp::key(pre+"symmetrize_diagonal"),"%s",where()); VP_CLOSE(e,2*eps,vp::key(pre+"symmetrize"),"%s",where()); });
	vp::sig(vp::hbytes(m.d.data(),m.d.size())^w);
}
template<int R,int C,class P> void matx(vp::Rng&g,const std::string& pre){
	const int r=R<0?g.range(0,6):R,c=C<0?g.range(0,6):C; M m(r,c); { V v=gvals<P>(g,r*c,g.chance(.7)); std::copy(v.begin(),v.end(),m.d.begin()); }
	if(IsF<P>::v&&r*c&&g.chance(.2)) m.d[g.range(0,r*c-1)]=g.range(0,1)?INFINITY:-INFINITY;
	vp::describe(pre+vp::fmt(" %dx%d m0=%Lg",r,c,r*c?m.d[0]:0));
	int w=with_mat<R,C,P>(g,m,[&](auto& B){ const auto& A=B;
		if(r*c==0){
			VP_CHECK((L)T::min_value(A)==0&&(L)T::max_value(A)==0,vp::key(pre+"extrema_of_nothing")," ");
			int s[8]={T::min_value_vertical(A).size(),T::max_value_vertical(A).size(),T::min_value_horizontal(A).size(),T::max_value_horizontal(A).size(),T::min_element_vertical(A).first.size(),T::max_element_vertical(A).second.size(),T::min_element_horizontal(A).first.size(),T::max_element_horizontal(A).second.size()};
			for(int i=0;i<8;i++) VP_CHECK(s[i]==0,vp::key(pre+"extrema_of_nothing"),"%d gives %d",i,s[i]);
			return; }
		L mn=*std::min_element(m.d.begin(),m.d.end()),mx=*std::max_element(m.d.begin(),m.d.end());
		VP_CHECK((L)T::min_value(A)==mn,vp::key(pre+"mat_min_value"),"%s",where()); VP_CHECK((L)T::max_value(A)==mx,vp::key(pre+"mat_max_value"),"%s",where());
		auto a=T::min_element(A),b=T::max_element(A); auto in=[&](std::pair<int,int> p){ return p.first>=0&&p.first<r&&p.second>=0&&p.second<c; };
		VP_CHECK((L)a.first==mn&&in(a.second)&&m(a.second.first,a.second.second)==mn,vp::key(pre+"mat_min_element"),"(%d,%d) %s",a.second.first,a.second.second,where());
		VP_CHECK((L)b.first==mx&&in(b.second)&&m(b.second.first,b.second.second)==mx,vp::key(pre+"mat_max_element"),"(%d,%d) %s",b.second.first,b.second.second,where());
		V vmin(c),vmax(c),hmin(r),hmax(r); for(int j=0;j<c;j++){ vmin[j]=vmax[j]=m(0,j); for(int i=0;i<r;i++){ vmin[j]=std::min(vmin[j],m(i,j)); vmax[j]=std::max(vmax[j],m(i,j)); } } for(int i=0;i<r;i++){ hmin[i]=hmax[i]=m(i,0); for(int j=0;j<c;j++){ hmin[i]=std::min(hmin[i],m(i,j)); hmax[i]=std::max(hmax[i],m(i,j)); } }
		VP_CHECK(eqv(getv(T::min_value_vertical(A)),vmin),vp::key(pre+"min_value_vertical"),"%s",where()); VP_CHECK(eqv(getv(T::max_value_vertical(A)),vmax),vp::key(pre+"max_value_vertical"),"%s",where());
		VP_CHECK(eqv(getv(T::min_value_horizontal(A)),hmin),vp::key(pre+"min_value_horizontal"),"%s",where()); VP_CHECK(eqv(getv(T::max_value_horizontal(A)),hmax),vp::key(pre+"max_value_horizontal"),"%s",where());
		auto el=[&](const auto& q,const V& want,bool vert,const char* key){ V x=getv(q.first),ix=getv(q.second); bool ok=eqv(x,want)&&ix.size()==want.size(); for(size_t i=0;i<want.size()&&ok;i++){ L k=ix[i]; ok=k==floorl(k)&&k>=0&&k<(vert?r:c)&&(vert?m((int)k,i):m(i,(int)k))==want[i]; } VP_CHECK(ok,vp::key(pre+key),"%s",where()); };
		el(T::min_element_vertical(A),vmin,true,"min_element_vertical"); el(T::max_element_vertical(A),vmax,true,"max_element_vertical"); el(T::min_element_horizontal(A),hmin,false,"min_element_horizontal"); el(T::max_element_horizontal(A),hmax,false,"max_element_horizontal");
		VP_CHECK(eqm(getm(A),m),vp::key(pre+"mat_argument_unchanged"),"%s",where()); });
	vp::sig(vp::hbytes(m.d.data(),m.d.size())^w);
}
VP_UNIT(vec_static,1200,30000){ switch(rng.range(0,2)){ case 0: vecf<3,double>(rng,""); break; case 1: vecf<1,double>(rng,"one/"); break; default: vecf<4,float>(rng,"float/"); } }
VP_UNIT(vec_dynamic,1200,30000){ if(rng.chance(.6)) vecf<Dyn,double>(rng,"dyn/"); else vecf<Dyn,float>(rng,"dynfloat/"); }
VP_UNIT(vec_longdouble,300,6000){ vecf<3,long double>(rng,"ld/"); }
VP_UNIT(extrema_vec,1600,40000){ switch(rng.range(0,3)){ case 0: vecx<4,double>(rng,""); break; case 1: vecx<Dyn,double>(rng,"dyn/"); break; case 2: vecx<Dyn,int>(rng,"int/"); break; default: vecx<3,float>(rng,"float/"); } }
VP_UNIT(cross3,800,20000){ switch(rng.range(0,2)){ case 0: cross<double>(rng,""); break; case 1: cross<float>(rng,"float/"); break; default: cross<int>(rng,"int/"); } }
VP_UNIT(mat,1600,40000){ switch(rng.range(0,3)){ case 0: matf<3,4,double>(rng,""); break; case 1: matf<Dyn,Dyn,double>(rng,"dyn/"); break; case 2: matf<2,Dyn,double>(rng,"half/"); break; default: matf<Dyn,3,float>(rng,"halffloat/"); } }
VP_UNIT(square,1200,30000){ switch(rng.range(0,3)){ case 0: sqf<3,double>(rng,""); break; case 1: sqf<Dyn,double>(rng,"dyn/"); break; case 2: sqf<4,float>(rng,"float/"); break; default: sqf<3,int>(rng,"int/"); } }
VP_UNIT(extrema_mat,1600,40000){ switch(rng.range(0,3)){ case 0: matx<3,4,double>(rng,""); break; case 1: matx<Dyn,Dyn,double>(rng,"dyn/"); break; case 2: matx<2,Dyn,float>(rng,"half/"); break; default: matx<Dyn,2,int>(rng,"int/"); } }
VP_UNIT(inv2,800,20000){ vp::Rng&g=rng; M m(2,2); L c=0; for(int t=0;t<50;t++){ V v=gvals<double>(g,4,g.chance(.3)); std::copy(v.begin(),v.end(),m.d.begin()); L s0,d=fabsl(m(0,0)*m(1,1)-m(0,1)*m(1,0)); s0=fro(m); c=d>0?s0*s0/d:INFINITY; if(c<1e6) break; m=eye(2); c=2; }
	vp::describe(vp::fmt("[%Lg %Lg;%Lg %Lg]",m(0,0),m(0,1),m(1,0),m(1,1))); M r=ref::inv(m);
	T::Matrix<2> A; put(A,m); const T::Matrix<2>& K=A; T::Matrix<2> I=T::inv(K); L e=0; for(int i=0;i<2;i++) for(int j=0;j<2;j++) e=nanmax(e,bad((L)I(i,j)-r(i,j))/(fabsl(r(i,j))+0)); L e2=0; for(int i=0;i<2;i++) for(int j=0;j<2;j++) e2=nanmax(e2,bad((L)I(i,j)-r(i,j))/maxabs(r));
	(void)e; VP_CLOSE(e2,8*c*epsP<double>(),"inv2"," "); VP_CHECK(eqm(getm(K),m),"inv2_argument_unchanged"," "); vp::sig(vp::hbytes(m.d.data(),4)); }
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
VP_UNIT(fill,200,4000){ vp::Rng&g=rng; int n=g.range(0,5),r=g.range(0,4); double p=g.normal(); vp::describe(vp::fmt("%d %d %g",n,r,p)); with_vec<Dyn,double>(g,V(n),[&](auto& x){ T::Fill(x,p); bool ok=true; for(int i=0;i<n;i++) ok=ok&&x[i]==p; VP_CHECK(ok,"fill_vector","%s",where()); }); with_mat<Dyn,Dyn,double>(g,M(r,n),[&](auto& x){ T::Fill(x,p); bool ok=true; for(int i=0;i<r;i++) for(int j=0;j<n;j++) ok=ok&&x(i,j)==p; VP_CHECK(ok,"fill_matrix","%s",where()); }); vp::sig(vp::hbytes(&p,1)); }
