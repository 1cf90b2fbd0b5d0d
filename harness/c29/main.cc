// C29: histories in which objects travel between translation units that were compiled with different options, by
// different compilers and with the headers in different orders; and the same small programs run from each of them.
#include "../vp.hpp"
#include <TooN/TooN.h>
#include <TooN/SVD.h>
#include <TooN/wls.h>
#include <TooN/se3.h>
#include "api.hpp"
std::vector<const c29::Api*>& c29::registry(){ static std::vector<const Api*> v; return v; }
using namespace c29;
#ifndef VKEY
#define VKEY ""
#endif
#ifndef SOLE_LIST
#define SOLE_LIST(X)
#endif
#define X(fn,k,h) extern "C" int fn(const double*,double*);
SOLE_LIST(X)
#undef X
struct Sole { int(*f)(const double*,double*); int k; const char* name; };
static const Sole soles[]={
#define X(fn,k,h) {fn,k,h},
SOLE_LIST(X)
{0,0,0}};
static const char* hdr[]={"","TooN.h","helpers.h","Cholesky.h","Lapack_Cholesky.h","LU.h","QR.h","QR_Lapack.h","SVD.h","GR_SVD.h","SymEigen.h","determinant.h","gauss_jordan.h","gaussian_elimination.h","wls.h","irls.h","so2.h","se2.h","so3.h","se3.h","sim2.h","sim3.h","sl.h","derivatives.h","brent.h","golden_section.h","conjugate_gradient.h","downhill_simplex.h","named_elements.h","lapack.h"};
static const int NH=29;
#ifndef VTOL
#define VTOL 0
#endif
static bool near_(double a,double b){ return VTOL&&std::fabs(a-b)<=VTOL*(1+std::fabs(a)); }
static bool same(double a,double b){ return (a!=a&&b!=b)||!memcmp(&a,&b,8); }
static std::vector<double> numbers(vp::Rng&g,int n){ std::vector<double> v(n); for(auto&x:v) x=g.chance(.3)?g.range(-3,3):g.normal(); return v; }
VP_UNIT(programs,600,6000){   // every small program, from every unit that contains it
	const std::vector<double> in=numbers(rng,64); const int k=1+vp::st().idx%NH; vp::describe(hdr[k]); vp::sig(vp::hbytes(in.data(),64)^k);
	std::vector<double> ref(600),o(600); auto&R=registry(); const int n=R[0]->use(k,in.data(),ref.data());
	auto cmp=[&](int m,const char*who,const char*key){ int bad=-1; if(m==n) for(int i=0;i<n;i++) if(!same(ref[i],o[i])&&!near_(ref[i],o[i])){ bad=i; break; }
		VP_CHECK(m==n&&bad<0,vp::key(std::string(key)+hdr[k]),"value %d of %d is %.17g in the unit compiled with '%s' and %.17g in the one compiled with '%s'",bad,n,bad<0?0.0:ref[bad],R[0]->options,bad<0?0.0:o[bad],who); };
	for(size_t a=1;a<R.size();a++) cmp(R[a]->use(k,in.data(),o.data()),R[a]->options,VKEY "same_in_every_unit/");
	for(const Sole*s=soles;s->f;s++) if(s->k==k) cmp(s->f(in.data(),o.data()),s->name,"sole_header/");
}
#ifndef USE_ONLY
VP_UNIT(startup,1,1){
	for(auto a:registry()){ std::vector<double> s,n; a->globals(s,n); bool ok=s.size()==n.size(); size_t i=0; for(;ok&&i<s.size();i++) if(!same(s[i],n[i])){ ok=false; break; }
		VP_CHECK(ok,"startup/globals","unit %d (%s): value %zu of the objects at namespace scope is %.17g, the same expression now gives %.17g",a->id,a->options,i,i<s.size()?s[i]:0.0,i<n.size()?n[i]:0.0); vp::sig(a->id); }
	auto l=registry()[0]->layout(); for(auto a:registry()){ auto m=a->layout(); size_t i=0; while(i<l.size()&&i<m.size()&&l[i]==m[i]) i++; VP_CHECK(l==m,"startup/layout","entry %zu of the layouts differs: %zu in unit compiled with '%s', %zu with '%s'",i,i<l.size()?l[i]:0,registry()[0]->options,i<m.size()?m[i]:0,a->options); }
	VP_CHECK(registry().size()>=3,"startup/units","%zu units",registry().size());
}
// ---------------------------------------------------------------- histories
typedef std::vector<double> D;
struct Mat { int r,c; D d; };
VP_UNIT(history,2000,30000){
	auto&R=registry(); const D pool=numbers(rng,400); const double*p=pool.data();
	auto A=[&]()->const Api&{ return *R[rng.u64()%R.size()]; }; auto at=[&]{ return p+rng.range(0,200); };
	std::vector<T::Vector<> > v; std::vector<D> mv; std::vector<T::Vector<Rsz> > rz; std::vector<D> mr; T::Vector<4> s=A().make_s(p); D ms(p,p+4); std::vector<T::Vector<150> > big; std::vector<D> mb;
	std::vector<T::Matrix<> > m; std::vector<Mat> mm; std::vector<T::Vector<>*> heap; std::vector<D> mh; std::string trace;
	for(int i=0;i<2;i++){ const double*q=at(); big.push_back(A().make_l(q)); D d(150); for(int k=0;k<150;k++) d[k]=q[k%97]; mb.push_back(d); }
	auto tot=[](const D&d){ double t=0; for(double x:d) t+=x; return t; };
	auto close=[](double a,double b,double sc){ return std::fabs(a-b)<=1e-12*(sc+1); }; auto mag=[](const D&d){ double t=0; for(double x:d) t+=std::fabs(x); return t; };
	const int n=rng.range(20,60);
	for(int st=0;st<n;st++){
		const Api&a=A(),&b=A(); const int op=rng.range(0,27); trace+=char('a'+op%26); const double*q=at(); vp::note(trace.c_str());
		auto pv=[&]{ return rng.u64()%v.size(); }; auto pm=[&]{ return rng.u64()%m.size(); };
		switch(op){
		case 0: case 1: if(v.size()<8){ int k=rng.range(0,3); v.push_back(a.make_v(q,k)); mv.push_back(D(q,q+k)); } break;
		case 2: case 3: if(m.size()<8){ int r=rng.range(1,3),c=rng.range(1,3); m.push_back(a.make_m(q,r,c)); mm.push_back({r,c,D(q,q+r*c)}); } break;
		case 4: if(v.size()>1){ size_t i=pv(),j=pv(); if(mv[i].size()==mv[j].size()){ a.add_v(v[i],v[j]); D t=mv[j]; for(size_t k=0;k<t.size();k++) mv[i][k]+=t[k]; } } break;
		case 5: if(v.size()>1){ size_t i=pv(),j=pv(); if(i!=j&&mv[i].size()==mv[j].size()){ a.swap_v(v[i],v[j]); std::swap(mv[i],mv[j]); } } break;
		case 6: if(v.size()){ size_t i=pv(); T::Vector<> t=a.pass_v(std::move(v[i])); v[i].~Vector(); new(&v[i]) T::Vector<>(b.pass_v(std::move(t))); } break;
		case 7: if(rz.size()<4){ int k=rng.range(0,9); rz.push_back(a.make_r(q,k)); mr.push_back(D(q,q+k)); } break;
		case 8: if(rz.size()){ size_t i=rng.u64()%rz.size(); int k=rng.range(0,40); a.resize_r(rz[i],k); D&d=mr[i]; size_t o=d.size(); d.resize(k); for(size_t z=o;z<d.size();z++) d[z]=(double)z; } break;
		case 9: if(rz.size()&&v.size()){ size_t i=rng.u64()%rz.size(),j=pv(); a.assign_r(rz[i],v[j]); mr[i]=mv[j]; } break;
		case 10: if(rz.size()){ size_t i=rng.u64()%rz.size(); VP_CHECK(close(a.sum_r(rz[i]),tot(mr[i]),mag(mr[i])),"passed/resizable","%s",a.options); } break;
		case 11: a.add_l(big[0],big[1]); for(int k=0;k<150;k++) mb[0][k]+=mb[1][k]; if(st%3==0){ b.swap_l(big[0],big[1]); std::swap(mb[0],mb[1]); } break;
		case 12: VP_CHECK(close(a.sum_l(big[0]),tot(mb[0]),mag(mb[0])),"passed/large","%s",a.options); break;
		case 13: { int k=4; T::Vector<> t=b.make_v(q,k); a.add_s(s,t); for(int z=0;z<4;z++) ms[z]+=q[z]; VP_CHECK(close(b.sum_s(s),tot(ms),mag(ms)),"passed/static","%s",a.options); } break;
		case 14: if(v.size()){ size_t i=pv(); VP_CHECK(close(a.sum_v(v[i]),tot(mv[i]),mag(mv[i])),"passed/vector","%s",a.options); } break;
		case 15: if(m.size()){ size_t i=pm(); int r=rng.range(0,mm[i].r-1); a.write_row(m[i][r],q); for(int c=0;c<mm[i].c;c++) mm[i].d[r*mm[i].c+c]=q[c]; } break;
		case 16: if(m.size()){ size_t i=pm(); a.scale_t(m[i].T(),-1); for(auto&x:mm[i].d) x=-x; } break;
		case 17: if(m.size()){ size_t i=pm(); Mat&M=mm[i]; int r0=rng.range(0,M.r-1),c0=rng.range(0,M.c-1),rr=rng.range(1,M.r-r0),cc=rng.range(1,M.c-c0); a.write_block(m[i].slice(r0,c0,rr,cc),q); for(int r=0;r<rr;r++) for(int c=0;c<cc;c++) M.d[(r0+r)*M.c+c0+c]=q[r*cc+c]; } break;
		case 18: if(m.size()>1){ size_t i=pm(),j=pm(); if(mm[i].r==mm[j].r&&mm[i].c==mm[j].c){ a.assign_m(m[i],m[j]); mm[i].d=mm[j].d; } } break;
		case 19: if(m.size()>1){ size_t i=pm(),j=pm(); if(mm[i].c==mm[j].r){ T::Matrix<> t=b.pass_m(a.product(m[i],m[j])); bool ok=t.num_rows()==mm[i].r&&t.num_cols()==mm[j].c; for(int r=0;ok&&r<mm[i].r;r++) for(int c=0;c<mm[j].c;c++){ double e=0,g=0; for(int k=0;k<mm[i].c;k++){ double z=mm[i].d[r*mm[i].c+k]*mm[j].d[k*mm[j].c+c]; e+=z; g+=std::fabs(z); } if(!close(t(r,c),e,g)) ok=false; } VP_CHECK(ok,"returned/product","%s / %s",a.options,b.options); } } break;
		case 20: if(m.size()&&v.size()){ size_t i=pm(),j=pv(); if((int)mv[j].size()==mm[i].c){ T::Vector<> t=a.times(m[i],v[j]); bool ok=t.size()==mm[i].r; for(int r=0;ok&&r<mm[i].r;r++){ double e=0,g=0; for(int c=0;c<mm[i].c;c++){ double z=mm[i].d[r*mm[i].c+c]*mv[j][c]; e+=z; g+=std::fabs(z); } if(!close(t[r],e,g)) ok=false; } VP_CHECK(ok,"returned/matrix_times_vector","%s",a.options); } } break;
		case 21: { Boxed x=a.make_box(q,st); Boxed y=x; D e=b.open_box(y),f=A().open_box(x); VP_CHECK(e==f&&e[0]==q[0]&&e[3]==q[3]&&e[6]==q[6]&&e.back()==st,"passed/structure","%s / %s",a.options,b.options); } break;
		case 22: if(v.size()<8) { int k=rng.range(0,3); a.push(v,q,k); mv.push_back(D(q,q+k)); } else { int i=rng.range(0,(int)v.size()-1); bool eq=true; for(size_t z=i;z+1<mv.size();z++) if(mv[z].size()!=mv[z+1].size()) eq=false; if(eq){ a.erase(v,i); mv.erase(mv.begin()+i); } } break;
		case 23: { int k=rng.range(0,5); T::Vector<> t=a.catch_(b.raise,q,k); bool ok=t.size()==k; for(int z=0;ok&&z<k;z++) ok=t[z]==2*q[z]; VP_CHECK(ok,"thrown/vector","%s / %s",a.options,b.options); } break;
		case 24: if(m.size()){ size_t i=pm(); std::stringstream ss; a.print(ss,m[i]); T::Matrix<> t(mm[i].r,mm[i].c); b.read(ss,t); bool ok=true; for(int r=0;r<mm[i].r;r++) for(int c=0;c<mm[i].c;c++) if(t(r,c)!=mm[i].d[r*mm[i].c+c]) ok=false; VP_CHECK(ok,"printed/matrix","%s / %s",a.options,b.options); } break;
		case 25: { int k=rng.range(1,5); T::Matrix<> t=a.make_m(q,k,k); for(int z=0;z<k;z++) t(z,z)+=8; T::SVD<>*d=b.new_svd(t); T::Vector<> y=A().make_v(q+30,k),x=a.svd_backsub(*d,y); A().delete_svd(d); bool ok=true; for(int r=0;r<k;r++){ double e=-y[r],g=1; for(int c=0;c<k;c++){ e+=t(r,c)*x[c]; g+=std::fabs(t(r,c)*x[c]); } if(!(std::fabs(e)<=1e-9*g)) ok=false; } VP_CHECK(ok,"shared/svd","%s / %s",a.options,b.options); } break;
		case 26: { T::WLS<3> w=a.wls_new(); T::WLS<3> w2=b.wls_new(); for(int z=0;z<5;z++){ A().wls_add(w,q+4*z); R[0]->wls_add(w2,q+4*z); } T::Vector<3> x=b.wls_solve(w),y=a.wls_solve(w2); VP_CHECK(same(x[0],y[0])&&same(x[1],y[1])&&same(x[2],y[2]),"shared/wls","%s / %s: %.17g %.17g",a.options,b.options,x[0],y[0]); } break;
		case 27: if(heap.size()<1){ int k=rng.range(0,6); heap.push_back(a.new_v(q,k)); mh.push_back(D(q,q+k)); } else { a.write_slice(heap[0]->slice(0,heap[0]->size()),q); for(size_t z=0;z<mh[0].size();z++) mh[0][z]=q[z]; b.add_v(*heap[0],*heap[0]); for(auto&x:mh[0]) x+=x; bool ok=true; for(size_t z=0;z<mh[0].size();z++) ok&=(*heap[0])[z]==mh[0][z]; VP_CHECK(ok,"passed/slice","%s / %s",a.options,b.options); A().delete_v(heap[0]); heap.erase(heap.begin()); mh.erase(mh.begin()); } break;
		}
		bool ok=v.size()==mv.size(); const char*w="vector";
		for(size_t i=0;ok&&i<v.size();i++){ ok=v[i].size()==(int)mv[i].size(); for(int k=0;ok&&k<v[i].size();k++) ok=v[i][k]==mv[i][k]; }
		for(size_t i=0;ok&&i<m.size();i++){ w="matrix"; ok=m[i].num_rows()==mm[i].r&&m[i].num_cols()==mm[i].c; for(int r=0;ok&&r<mm[i].r;r++) for(int c=0;c<mm[i].c;c++) ok&=m[i](r,c)==mm[i].d[r*mm[i].c+c]; }
		for(size_t i=0;ok&&i<rz.size();i++){ w="resizable"; ok=rz[i].size()==(int)mr[i].size(); for(int k=0;ok&&k<rz[i].size();k++) ok=rz[i][k]==mr[i][k]; }
		for(int i=0;ok&&i<2;i++){ w="large"; for(int k=0;ok&&k<150;k++) ok=big[i][k]==mb[i][k]; }
		if(ok){ w="static"; for(int k=0;k<4;k++) ok&=s[k]==ms[k]; }
		VP_CHECK(ok,"history/values","after step %d (operation %d, units '%s' and '%s') a %s does not hold its values",st,op,a.options,b.options,w); if(!ok) break;
	}
	for(auto h:heap) A().delete_v(h);
	vp::describe("operations "+trace); vp::sig(vp::hstr(trace.c_str())^vp::hbytes(p,400));
}
#endif
