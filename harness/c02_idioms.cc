// Views as function arguments and results, the way the documentation shows it.
#include "num.hpp"
#ifndef VTY
#define VTY double
#endif
typedef VTY P; typedef std::vector<int> Ix; using namespace TooN;
static P rv(vp::Rng&g){ return (P)g.range(-500,500); }
namespace idiom {
template<int S,class B> Vector<2,P,typename Vector<S,P,B>::SliceBase> part(Vector<S,P,B>& v){ return v.template slice<1,2>(); }
template<int S,class B> const Vector<2,const P,typename Vector<S,P,B>::ConstSliceBase> cpart(const Vector<S,P,B>& v){ return v.template slice<1,2>(); }
template<int S,class B> Vector<Dynamic,P,typename Vector<S,P,B>::SliceBase> dpart(Vector<S,P,B>& v,int a,int n){ return v.slice(a,n); }
template<int S,class PP,class B> void set_v(Vector<S,PP,B>& v,int i,PP x){ v[i]=x; }
template<class B> void set_3(Vector<3,P,B>& v,int i,P x){ v[i]=x; }
template<int R,int C,class B> void set_m(Matrix<R,C,P,B>& m,int i,int j,P x){ m(i,j)=x; }
template<int S,class B> P sum(const Vector<S,P,B>& v){ P s=0; for(int i=0;i<v.size();i++) s+=v[i]; return s; }
inline Vector<2,P,Vector<4,P>::SliceBase> part4(Vector<4,P>& v){ return v.slice<1,2>(); }
// v denotes the elements at[0..n-1] of raw
template<class V> void vec(vp::Rng& g,V& v,P* raw,int total,const Ix& at,const char* what){ const int n=(int)at.size(); std::vector<P> model(raw,raw+total); auto ok=[&]{ for(int i=0;i<total;i++) if(!(raw[i]==model[i])) return false; return true; }; int i; P x;
	i=g.range(0,n-1); x=rv(g); set_v(v.ref(),i,x); model[at[i]]=x; VP_CHECK(ok(),"idiom_ref","%s ref",what);
	if(n>=3){ i=g.range(0,1); x=rv(g); { auto s=part(v); s[i]=x; } model[at[1+i]]=x; VP_CHECK(ok(),"idiom_slice_type","%s static slice by type",what); const auto c=cpart(v); VP_CHECK(c[0]==model[at[1]]&&c[1]==model[at[2]]&&c.size()==2,"idiom_slice_type","%s constant static slice by type",what); x=rv(g); i=g.range(0,1); set_v(part(v).ref(),i,x); model[at[1+i]]=x; VP_CHECK(ok(),"idiom_ref","%s ref of a returned slice",what);
		const int a=g.range(0,n-3); i=g.range(0,2); x=rv(g); set_3(v.template slice<0,3>().ref(),i,x); model[at[i]]=x; x=rv(g); set_v(v.slice(a,3).ref(),i,x); model[at[a+i]]=x; VP_CHECK(ok(),"idiom_ref","%s ref of slices",what);
		auto d=dpart(v,a,3); VP_CHECK(d.size()==3&&d[i]==model[at[a+i]],"idiom_slice_type","%s dynamic slice by type",what); x=rv(g); d=makeVector<P>(x,x+1,x+2); for(int k=0;k<3;k++) model[at[a+k]]=x+k; VP_CHECK(ok(),"idiom_slice_type","%s writing through a dynamic slice by type",what);
		auto dd=dpart(d,1,2); x=rv(g); dd[1]=x; model[at[a+2]]=x; VP_CHECK(ok(),"idiom_slice_type","%s slice of a slice by type",what); }
	P s=0; for(int k=0;k<n;k++) s+=model[at[k]]; VP_CHECK(sum(v)==s,"idiom_generic","%s sum",what); }
template<class M> void mat(vp::Rng& g,M& m,P* raw,int total,const char* what){ const int r=m.num_rows(),c=m.num_cols(); std::vector<P> model(raw,raw+total); auto cell=[&](int i,int j){ return (int)(&m(i,j)-raw); }; auto ok=[&]{ for(int i=0;i<total;i++) if(!(raw[i]==model[i])) return false; return true; };
	int i=g.range(0,r-1),j=g.range(0,c-1); P x=rv(g); set_m(m.ref(),i,j,x); model[cell(i,j)]=x; VP_CHECK(ok(),"idiom_ref","%s ref",what); x=rv(g); set_m(m.T().ref(),j,i,x); model[cell(i,j)]=x; VP_CHECK(ok(),"idiom_ref","%s transpose ref",what); x=rv(g); set_v(m[i].ref(),j,x); model[cell(i,j)]=x; VP_CHECK(ok(),"idiom_ref","%s row ref",what); x=rv(g); set_v(m.T()[j].ref(),i,x); model[cell(i,j)]=x; VP_CHECK(ok(),"idiom_ref","%s column ref",what);
	x=rv(g); set_m(m.slice(i,j,r-i,c-j).ref(),0,0,x); model[cell(i,j)]=x; VP_CHECK(ok(),"idiom_ref","%s slice ref",what); x=rv(g); set_m(m.template slice<0,0,1,1>().ref(),0,0,x); model[cell(0,0)]=x; VP_CHECK(ok(),"idiom_ref","%s static slice ref",what); const int q=std::min(r,c); i=g.range(0,q-1); x=rv(g); if(r==c){ set_v(m.diagonal_slice().ref(),i,x); model[cell(i,i)]=x; VP_CHECK(ok(),"idiom_ref","%s diagonal ref",what); }
	for(i=0;i<r;i++){ Ix at; for(j=0;j<c;j++) at.push_back(cell(i,j)); vec(g,m[i].ref(),raw,total,at,what); } for(j=0;j<c;j++){ Ix at; for(i=0;i<r;i++) at.push_back(cell(i,j)); vec(g,m.T()[j].ref(),raw,total,at,what); } }
}
VP_UNIT(idioms,1500,30000){ vp::Rng&g=rng; using namespace idiom; P arr[36]; for(P& x:arr) x=rv(g); const int n=g.range(1,7),r=g.range(1,5),c=g.range(1,5); vp::describe(vp::fmt("n=%d, %dx%d",n,r,c)); for(P x:arr) vp::sig((uint64_t)(int64_t)x); Ix id; for(int i=0;i<7;i++) id.push_back(i); const Ix in(id.begin(),id.begin()+n);
	{ Vector<4,P> v; for(int i=0;i<4;i++) v[i]=arr[i]; vec(g,v,&v[0],4,Ix(id.begin(),id.begin()+4),"Vector<4>"); auto s=part4(v); const P x=rv(g); s[1]=x; VP_CHECK(v[2]==x&&&s[0]==&v[1],"idiom_slice_type","Vector<4>::SliceBase"); }
	{ Vector<Dynamic,P> v(n); for(int i=0;i<n;i++) v[i]=arr[i]; vec(g,v,&v[0],n,in,"Vector<>"); } { Vector<Resizable,P> v(n); for(int i=0;i<n;i++) v[i]=arr[i]; vec(g,v,&v[0],n,in,"Vector<Resizable>"); }
	{ auto w=wrapVector(arr,n); vec(g,w,arr,36,in,"wrapVector"); } { auto w=wrapVector<6>(arr+3); vec(g,w,arr+3,6,Ix(id.begin(),id.begin()+6),"wrapVector<6>"); }
	{ Matrix<3,4,P> m; for(int i=0;i<3;i++) for(int j=0;j<4;j++) m(i,j)=arr[i*4+j]; mat(g,m,&m(0,0),12,"Matrix<3,4>"); } { Matrix<4,4,P,ColMajor> m; for(int i=0;i<4;i++) for(int j=0;j<4;j++) m(i,j)=arr[i*4+j]; mat(g,m,&m(0,0),16,"Matrix<4,4,ColMajor>"); }
	{ Matrix<Dynamic,Dynamic,P> m(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) m(i,j)=arr[i*c+j]; mat(g,m,&m(0,0),r*c,"Matrix<>"); } { Matrix<Dynamic,3,P,ColMajor> m(r,3); for(int i=0;i<r;i++) for(int j=0;j<3;j++) m(i,j)=arr[i*3+j]; mat(g,m,&m(0,0),r*3,"Matrix<Dynamic,3,ColMajor>"); }
	{ auto w=wrapMatrix<3,4>(arr); mat(g,w,arr,36,"wrapMatrix<3,4>"); } { auto w=wrapMatrix(arr,r,c); mat(g,w,arr,36,"wrapMatrix"); } }
