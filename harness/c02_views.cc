// Views: a random walk through nested views of one object. The raw storage is compared with a plain array model after every access.
#include "num.hpp"
#include <TooN/internal/config.hh>
#include <TooN/named_elements.h>
#include <complex>
TOON_MAKE_NAMED_ELEMENT_VECTOR(CvPoint, x, y)
TOON_MAKE_NAMED_ELEMENT_VECTOR(CvPose, tx, ty, tz, rx, ry, rz)
#ifndef VTY
#define VTY double
#endif
typedef VTY P;
struct Mem {
	P*raw; int n; std::vector<P> model; std::string path; int depth=0; uint64_t h=0;
	Mem(P*r,int n_):raw(r),n(n_),model(r,r+n_){}
	bool ok()const{ for(int i=0;i<n;i++) if(!(raw[i]==model[i])) return false; return true; }
	void say(const char*s){ path+=s; h=vp::mix(h^vp::hstr(s)); }
};
typedef std::vector<int> Ix;
struct Ix2 { int r,c; std::vector<int> d; int operator()(int i,int j)const{ return d[(size_t)i*c+j]; } };
#define CKV(name,cond) VP_CHECK(cond,name,"%s",m.path.c_str())
static P rv(vp::Rng&g){ return (P)g.range(-500,500); }
template<class X> void readv(const X&x,const Ix&ix,Mem&m){
	bool ok=x.size()==(int)ix.size(); if(ok) for(size_t i=0;i<ix.size();i++) ok&=(x[(int)i]==m.model[ix[i]]); CKV("read",ok);
	constexpr bool ro=!std::is_assignable<decltype(x[0]),P>::value; VP_CHECK(ro,"const_not_assignable","%s",m.path.c_str());
}
template<class X> void readm(const X&x,const Ix2&ix,Mem&m){
	bool ok=x.num_rows()==ix.r&&x.num_cols()==ix.c; if(ok) for(int i=0;i<ix.r;i++) for(int j=0;j<ix.c;j++) ok&=(x(i,j)==m.model[ix(i,j)])&&(x[i][j]==x(i,j))&&(x[std::make_pair(i,j)]==x(i,j)); CKV("read",ok);
	constexpr bool ro=!std::is_assignable<decltype(x(0,0)),P>::value&&!std::is_assignable<decltype(x[0][0]),P>::value&&!std::is_assignable<decltype(x[std::make_pair(0,0)]),P>::value; VP_CHECK(ro,"const_not_assignable","%s",m.path.c_str());
}
template<class X> void writev(vp::Rng&g,X&x,const Ix&ix,Mem&m){
	int n=ix.size(),how=g.range(0,7);
	switch(how){
		case 0: if(n){ int i=g.range(0,n-1); P v=rv(g); x[i]=v; m.model[ix[i]]=v; m.say("[i]= "); } break;
		case 1: { T::Vector<Dyn,P> v(n); for(int i=0;i<n;i++) v[i]=rv(g); x=v; for(int i=0;i<n;i++) m.model[ix[i]]=v[i]; m.say("=v "); break; }
		case 2: { P s=g.range(-2,2); x*=s; for(int i:ix) m.model[i]*=s; m.say("*=s "); break; }
		case 3: { x=T::Zeros; for(int i:ix) m.model[i]=0; m.say("=Zeros "); break; }
		case 4: { P s=g.range(-9,9); x+=T::Ones*s; for(int i:ix) m.model[i]+=s; m.say("+=Ones "); break; }
		case 5: { T::Vector<Dyn,P> v(n); for(int i=0;i<n;i++) v[i]=g.range(-9,9); x-=v; for(int i=0;i<n;i++) m.model[ix[i]]-=v[i]; m.say("-=v "); break; }
		case 6: { std::stringstream s; std::vector<int> z(n); for(int i=0;i<n;i++){ z[i]=g.range(-99,99); s<<z[i]<<" "; } s>>x; for(int i=0;i<n;i++) m.model[ix[i]]=(P)z[i]; m.say(">> "); break; }
		case 7: { for(int i=0;i<n;i++) if(g.chance(.5)){ P v=rv(g); x.slice(i,1)[0]=v; m.model[ix[i]]=v; } m.say("slice(i,1)= "); break; }
	}
	CKV("write_exact",m.ok());
}
template<class X> void writem(vp::Rng&g,X&x,const Ix2&ix,Mem&m){
	int how=g.range(0,9); bool some=ix.r&&ix.c; int i=some?g.range(0,ix.r-1):0,j=some?g.range(0,ix.c-1):0; P v=rv(g);
	switch(how){
		case 0: if(some){ x(i,j)=v; m.model[ix(i,j)]=v; m.say("(i,j)= "); } break;
		case 1: if(some){ x[i][j]=v; m.model[ix(i,j)]=v; m.say("[i][j]= "); } break;
		case 2: if(some){ x[std::make_pair(i,j)]=v; m.model[ix(i,j)]=v; m.say("[{i,j}]= "); } break;
		case 3: { T::Matrix<Dyn,Dyn,P> b(ix.r,ix.c); for(int p=0;p<ix.r;p++) for(int q=0;q<ix.c;q++) m.model[ix(p,q)]=b(p,q)=rv(g); x=b; m.say("=m "); break; }
		case 4: { P s=g.range(-2,2); x*=s; for(int k:ix.d) m.model[k]*=s; m.say("*=s "); break; }
		case 5: { x=T::Zeros; for(int k:ix.d) m.model[k]=0; m.say("=Zeros "); break; }
		case 6: { x-=T::Ones*v; for(int k:ix.d) m.model[k]-=v; m.say("-=Ones "); break; }
		case 7: { T::Matrix<Dyn,Dyn,P,T::ColMajor> b(ix.r,ix.c); for(int p=0;p<ix.r;p++) for(int q=0;q<ix.c;q++) m.model[ix(p,q)]+=(b(p,q)=g.range(-9,9)); x+=b; m.say("+=m "); break; }
		case 8: { std::stringstream s; for(int p=0;p<ix.r;p++) for(int q=0;q<ix.c;q++){ int z=g.range(-99,99); s<<z<<" "; m.model[ix(p,q)]=(P)z; } s>>x; m.say(">> "); break; }
		case 9: if(some){ x.T()(j,i)=v; m.model[ix(i,j)]=v; m.say("T()(j,i)= "); } break;
	}
	CKV("write_exact",m.ok());
}
inline Ix sub(const Ix&a,int s,int n){ return Ix(a.begin()+s,a.begin()+s+n); }
inline Ix2 sub2(const Ix2&a,int r,int c,int nr,int nc){ Ix2 o{nr,nc,{}}; for(int i=0;i<nr;i++) for(int j=0;j<nc;j++) o.d.push_back(a(r+i,c+j)); return o; }
inline Ix2 trx(const Ix2&a){ Ix2 o{a.c,a.r,{}}; for(int j=0;j<a.c;j++) for(int i=0;i<a.r;i++) o.d.push_back(a(i,j)); return o; }
inline Ix rowx(const Ix2&a,int i){ return Ix(a.d.begin()+(size_t)i*a.c,a.d.begin()+(size_t)(i+1)*a.c); }
inline Ix diagx(const Ix2&a){ Ix o; for(int i=0;i<std::min(a.r,a.c);i++) o.push_back(a(i,i)); return o; }
inline Ix2 rowm(const Ix&a){ return Ix2{1,(int)a.size(),a}; }
inline Ix2 colm(const Ix&a){ return Ix2{(int)a.size(),1,a}; }
template<int K,class X> void walkm(vp::Rng&g,X&x,const Ix2&ix,Mem&m,int depth);
template<int K,class X> void cwalkm(vp::Rng&g,const X&x,const Ix2&ix,Mem&m,int depth);
// ---- vectors of run-time size
template<int K,class X> void cwalkv(vp::Rng&g,const X&x,const Ix&ix,Mem&m,int depth){
	m.depth++; readv(x,ix,m); if(!depth) return; int n=ix.size();
	switch(g.range(0,6)){
		case 0: case 1: { int s=g.range(0,n),l=g.range(0,n-s); m.say(".slice(s,l)c"); cwalkv<K>(g,x.slice(s,l),sub(ix,s,l),m,depth-1); break; }
		case 2: if constexpr(K>0){ m.say(".as_row()c"); cwalkm<K-1>(g,x.as_row(),rowm(ix),m,depth-1); } break;
		case 3: if constexpr(K>0){ m.say(".as_col()c"); cwalkm<K-1>(g,x.as_col(),colm(ix),m,depth-1); } break;
		case 4: m.say(".as_slice()c"); cwalkv<K>(g,x.as_slice(),ix,m,depth-1); break;
		case 5: { m.say(".as_diagonal().diagonal_slice()c"); const auto d=x.as_diagonal(); cwalkv<K>(g,d.diagonal_slice(),ix,m,depth-1); break; }
		case 6: if(n>=2){ m.say(".slice<1,Dyn>c"); cwalkv<K>(g,x.template slice<1,Dyn>(1,n-1),sub(ix,1,n-1),m,depth-1); } break;
	}
}
template<int K,class X> void walkv(vp::Rng&g,X&x,const Ix&ix,Mem&m,int depth){
	m.depth++; readv(x,ix,m); int n=ix.size();
	for(int k=g.range(0,2);k--;) writev(g,x,ix,m);
	readv(x,ix,m); if(!depth) return;
	switch(g.range(0,8)){
		case 0: case 1: { int s=g.range(0,n),l=g.range(0,n-s); m.say(".slice(s,l)"); auto y=x.slice(s,l); walkv<K>(g,y,sub(ix,s,l),m,depth-1); break; }
		case 2: if constexpr(K>0){ m.say(".as_row()"); auto y=x.as_row(); walkm<K-1>(g,y,rowm(ix),m,depth-1); } break;
		case 3: if constexpr(K>0){ m.say(".as_col()"); auto y=x.as_col(); walkm<K-1>(g,y,colm(ix),m,depth-1); } break;
		case 4: { m.say(".as_slice()"); auto y=x.as_slice(); walkv<K>(g,y,ix,m,depth-1); break; }
		case 5: { m.say(".as_diagonal().diagonal_slice()"); auto d=x.as_diagonal(); auto y=d.diagonal_slice(); if(n){ int i=g.range(0,n-1); P v=rv(g); d[i]=v; m.model[ix[i]]=v; CKV("write_exact",m.ok()); } walkv<K>(g,y,ix,m,depth-1); break; }
		case 6: if(n>=2){ m.say(".slice<1,Dyn>"); auto y=x.template slice<1,Dyn>(1,n-1); walkv<K>(g,y,sub(ix,1,n-1),m,depth-1); } break;
		case 7: if(n>=3){ m.say(".slice<Dyn,Dyn>"); auto y=x.template slice<Dyn,Dyn>(1,2); walkv<K>(g,y,sub(ix,1,2),m,depth-1); } break;
		case 8: { m.say(".const"); cwalkv<K>(g,x,ix,m,depth-1); break; }
	}
	readv(x,ix,m); // writes through the nested views are seen here
}
// ---- matrices of run-time size
template<int K,class X> void cwalkm(vp::Rng&g,const X&x,const Ix2&ix,Mem&m,int depth){
	m.depth++; readm(x,ix,m); if(!depth) return;
	switch(g.range(0,5)){
		case 0: case 1: { int r=g.range(0,ix.r),c=g.range(0,ix.c),nr=g.range(0,ix.r-r),nc=g.range(0,ix.c-c); m.say(".slice(r,c,nr,nc)c"); cwalkm<K>(g,x.slice(r,c,nr,nc),sub2(ix,r,c,nr,nc),m,depth-1); break; }
		case 2: m.say(".T()c"); cwalkm<K>(g,x.T(),trx(ix),m,depth-1); break;
		case 3: if(ix.r){ int i=g.range(0,ix.r-1); m.say("[i]c"); cwalkv<K>(g,x[i],rowx(ix,i),m,depth-1); } break;
		case 4: if(ix.c){ int i=g.range(0,ix.c-1); m.say(".T()[i]c"); cwalkv<K>(g,x.T()[i],rowx(trx(ix),i),m,depth-1); } break;
		case 5: m.say(".diagonal_slice()c"); cwalkv<K>(g,x.diagonal_slice(),diagx(ix),m,depth-1); break;
	}
}
template<int K,class X> void walkm(vp::Rng&g,X&x,const Ix2&ix,Mem&m,int depth){
	m.depth++; readm(x,ix,m);
	for(int k=g.range(0,2);k--;) writem(g,x,ix,m);
	readm(x,ix,m); if(!depth) return;
	switch(g.range(0,7)){
		case 0: case 1: { int r=g.range(0,ix.r),c=g.range(0,ix.c),nr=g.range(0,ix.r-r),nc=g.range(0,ix.c-c); m.say(".slice(r,c,nr,nc)"); auto y=x.slice(r,c,nr,nc); walkm<K>(g,y,sub2(ix,r,c,nr,nc),m,depth-1); break; }
		case 2: { m.say(".T()"); auto y=x.T(); walkm<K>(g,y,trx(ix),m,depth-1); break; }
		case 3: if(ix.r){ int i=g.range(0,ix.r-1); m.say("[i]"); auto y=x[i]; walkv<K>(g,y,rowx(ix,i),m,depth-1); } break;
		case 4: if(ix.c){ int i=g.range(0,ix.c-1); m.say(".T()[i]"); auto t=x.T(); auto y=t[i]; walkv<K>(g,y,rowx(trx(ix),i),m,depth-1); } break;
		case 5: { m.say(".diagonal_slice()"); auto y=x.diagonal_slice(); walkv<K>(g,y,diagx(ix),m,depth-1); break; }
		case 6: if(ix.r>=2&&ix.c>=1){ m.say(".slice<1,0,Dyn,Dyn>"); auto y=x.template slice<1,0,Dyn,Dyn>(1,0,ix.r-1,ix.c); walkm<K>(g,y,sub2(ix,1,0,ix.r-1,ix.c),m,depth-1); } break;
		case 7: { m.say(".const"); cwalkm<K>(g,x,ix,m,depth-1); break; }
	}
	readm(x,ix,m);
}
template<class A> static P* rawptr(A&a){ return a.get_data_ptr(); }
static Ix2 rowmajor(int r,int c,int off=0){ Ix2 o{r,c,{}}; for(int i=0;i<r*c;i++) o.d.push_back(off+i); return o; }
static Ix2 colmajor(int r,int c,int off=0){ Ix2 o{r,c,{}}; for(int i=0;i<r;i++) for(int j=0;j<c;j++) o.d.push_back(off+j*r+i); return o; }
static Ix iota(int n,int off=0){ Ix o; for(int i=0;i<n;i++) o.push_back(off+i); return o; }
static void fillraw(vp::Rng&g,P*p,int n){ for(int i=0;i<n;i++) p[i]=rv(g); }
#define DONE do{ vp::describe(m.path); vp::sig(m.h+n0); CKV("final_storage",m.ok()); if(m.depth<2) vp::trivial(); }while(0)
// Roots of run-time size. wrapped roots lie inside a larger array whose other elements are part of the model.
VP_UNIT(dynamic,4000,80000){ vp::Rng&g=rng; const bool large=g.chance(.04); int r=large?g.range(1,20):g.range(0,6),c=large?g.range(1,20):g.range(0,6),dp=g.range(1,5),n0=r*32+c; const int pad=4;
	std::vector<P> arr(r*c+2*pad); fillraw(g,arr.data(),arr.size());
	switch(g.range(0,9)){
		case 9: { // both strides chosen at run time, neither of them one
			const int cs=g.range(1,3),rs=g.chance(.5)?cs*(c?c:1)+g.range(0,3):0; const int RS=rs?rs:g.range(1,3),CS=rs?cs:RS*(r?r:1)+g.range(0,2);
			std::vector<P> w(2*pad+r*RS+c*CS+1); fillraw(g,w.data(),w.size()); Ix2 ix{r,c,{}}; for(int i=0;i<r;i++) for(int j=0;j<c;j++) ix.d.push_back(pad+i*RS+j*CS);
			T::Matrix<Dyn,Dyn,P,T::Internal::Slice<Dyn,Dyn> > A(w.data()+pad,r,c,RS,CS,T::Internal::Slicing()); Mem m(w.data(),w.size()); m.say("Matrix<Slice>"); if(g.chance(.4)){ m.say(".const"); cwalkm<1>(g,A,ix,m,dp); } else walkm<1>(g,A,ix,m,dp); DONE; break; }
		case 0: { T::Matrix<Dyn,Dyn,P> A(r,c); fillraw(g,rawptr(A),r*c); Mem m(rawptr(A),r*c); m.say("Matrix<>"); walkm<1>(g,A,rowmajor(r,c),m,dp); DONE; break; }
		case 1: { T::Matrix<Dyn,Dyn,P,T::ColMajor> A(r,c); fillraw(g,rawptr(A),r*c); Mem m(rawptr(A),r*c); m.say("Matrix<ColMajor>"); walkm<1>(g,A,colmajor(r,c),m,dp); DONE; break; }
		case 2: { auto A=T::wrapMatrix(arr.data()+pad,r,c); Mem m(arr.data(),arr.size()); m.say("wrapMatrix"); walkm<1>(g,A,rowmajor(r,c,pad),m,dp); DONE; break; }
		case 3: { T::Matrix<Dyn,Dyn,P,T::Reference::ColMajor> A(arr.data()+pad,r,c); Mem m(arr.data(),arr.size()); m.say("Matrix<Reference::ColMajor>"); walkm<1>(g,A,colmajor(r,c,pad),m,dp); DONE; break; }
		case 4: { T::Vector<Dyn,P> v(r*c); for(int i=0;i<r*c;i++) v[i]=rv(g); Mem m(rawptr(v),r*c); m.say("Vector<>"); walkv<1>(g,v,iota(r*c),m,dp); DONE; break; }
		case 5: { T::Vector<T::Resizable,P> v(r*c); for(int i=0;i<r*c;i++) v[i]=rv(g); Mem m(r*c?&v[0]:arr.data(),r*c); m.say("Vector<Resizable>"); walkv<1>(g,v,iota(r*c),m,dp); DONE; break; }
		case 6: { auto v=T::wrapVector(arr.data()+pad,r); Mem m(arr.data(),arr.size()); if(r>r*c) break; m.say("wrapVector"); walkv<1>(g,v,iota(r,pad),m,dp); DONE; break; }
		case 7: { const P*cp=arr.data()+pad; Mem m(arr.data(),arr.size()); m.say("wrapMatrix(const)"); cwalkm<1>(g,T::wrapMatrix(cp,r,c),rowmajor(r,c,pad),m,dp); m.say(" wrapVector(const)"); cwalkv<1>(g,T::wrapVector(cp,r*c),iota(r*c,pad),m,dp); DONE; break; }
		case 8: { // views stay live while the parent changes
			T::Matrix<Dyn,Dyn,P> A(r,c); fillraw(g,rawptr(A),r*c); Mem m(rawptr(A),r*c); Ix2 ix=rowmajor(r,c); m.say("live "); auto t=A.T(); auto d=A.diagonal_slice(); auto s=A.slice(0,0,r,c).T().T(); const auto&cA=A; auto ct=cA.T(); auto cd=ct.diagonal_slice();
			for(int k=0;k<4;k++){ writem(g,A,ix,m); readm(t,trx(ix),m); readv(d,diagx(ix),m); readm(s,ix,m); readm(ct,trx(ix),m); readv(cd,diagx(ix),m); writem(g,t,trx(ix),m); readm(A,ix,m); writev(g,d,diagx(ix),m); readm(A,ix,m); writem(g,s,ix,m); readm(A,ix,m); readm(ct,trx(ix),m); }
			if(r&&c){ auto row=A[r-1]; auto col=t[c-1]; const auto crow=cA[r-1]; const auto ccol=cA.T()[c-1]; for(int k=0;k<4;k++){ writem(g,A,ix,m); readv(row,rowx(ix,r-1),m); readv(col,rowx(trx(ix),c-1),m); readv(crow,rowx(ix,r-1),m); readv(ccol,rowx(trx(ix),c-1),m); } }
			m.depth=2; DONE; break; }
	}
}
// ---- static sizes: the size of every nested view is part of its type
template<int K,int R,int C,class X> void swalkm(vp::Rng&g,X&x,const Ix2&ix,Mem&m,int depth);
template<int K,int R,int C,class X> void scwalkm(vp::Rng&g,const X&x,const Ix2&ix,Mem&m,int depth);
template<int K,int N,class X> void scwalkv(vp::Rng&g,const X&x,const Ix&ix,Mem&m,int depth){
	m.depth++; readv(x,ix,m); if(!depth) return;
	switch(g.range(0,4)){
		case 0: if constexpr(N>1){ if(g.chance(.5)){ m.say(".slice<0,N-1>()c"); scwalkv<K,N-1>(g,x.template slice<0,N-1>(),sub(ix,0,N-1),m,depth-1); } else { m.say(".slice<1,N-1>()c"); scwalkv<K,N-1>(g,x.template slice<1,N-1>(),sub(ix,1,N-1),m,depth-1); } } break;
		case 1: if constexpr(N>1){ int s=g.range(0,1); m.say(".slice<Dyn,N-1>(s)c"); scwalkv<K,N-1>(g,x.template slice<Dyn,N-1>(s,N-1),sub(ix,s,N-1),m,depth-1); } break;
		case 2: if constexpr(K>0){ m.say(".as_row()c"); scwalkm<K-1,1,N>(g,x.as_row(),rowm(ix),m,depth-1); } break;
		case 3: if constexpr(K>0){ m.say(".as_col()c"); scwalkm<K-1,N,1>(g,x.as_col(),colm(ix),m,depth-1); } break;
		case 4: { m.say(".as_diagonal()c"); const auto d=x.as_diagonal(); scwalkv<K,N>(g,d.diagonal_slice(),ix,m,depth-1); break; }
	}
}
template<int K,int N,class X> void swalkv(vp::Rng&g,X&x,const Ix&ix,Mem&m,int depth){
	m.depth++; readv(x,ix,m); for(int k=g.range(0,2);k--;) writev(g,x,ix,m); if(!depth) return;
	switch(g.range(0,6)){
		case 0: if constexpr(N>1){ if(g.chance(.5)){ m.say(".slice<0,N-1>()"); auto y=x.template slice<0,N-1>(); swalkv<K,N-1>(g,y,sub(ix,0,N-1),m,depth-1); } else { m.say(".slice<1,N-1>()"); auto y=x.template slice<1,N-1>(); swalkv<K,N-1>(g,y,sub(ix,1,N-1),m,depth-1); } } break;
		case 1: if constexpr(N>1){ int s=g.range(0,1); m.say(".slice<Dyn,N-1>(s)"); auto y=x.template slice<Dyn,N-1>(s,N-1); swalkv<K,N-1>(g,y,sub(ix,s,N-1),m,depth-1); } break;
		case 2: if constexpr(K>0){ m.say(".as_row()"); auto y=x.as_row(); swalkm<K-1,1,N>(g,y,rowm(ix),m,depth-1); } break;
		case 3: if constexpr(K>0){ m.say(".as_col()"); auto y=x.as_col(); swalkm<K-1,N,1>(g,y,colm(ix),m,depth-1); } break;
		case 4: { m.say(".as_diagonal().diagonal_slice()"); auto d=x.as_diagonal(); P v=rv(g); d[N-1]=v; m.model[ix[N-1]]=v; auto y=d.diagonal_slice(); swalkv<K,N>(g,y,ix,m,depth-1); break; }
		case 5: m.say(".const"); scwalkv<K,N>(g,x,ix,m,depth-1); break;
		case 6: { int s=g.range(0,N),l=g.range(0,N-s); m.say(".slice(s,l)"); auto y=x.slice(s,l); readv(y,sub(ix,s,l),m); writev(g,y,sub(ix,s,l),m); break; }
	}
	readv(x,ix,m);
}
template<int K,int R,int C,class X> void scwalkm(vp::Rng&g,const X&x,const Ix2&ix,Mem&m,int depth){
	m.depth++; readm(x,ix,m); if(!depth) return;
	switch(g.range(0,5)){
		case 0: if constexpr(R>1&&C>1){ m.say(".slice<1,0,R-1,C-1>()c"); scwalkm<K,R-1,C-1>(g,x.template slice<1,0,R-1,C-1>(),sub2(ix,1,0,R-1,C-1),m,depth-1); } break;
		case 1: if constexpr(R>1){ int s=g.range(0,1); m.say(".slice<Dyn,0,R-1,C>c"); scwalkm<K,R-1,C>(g,x.template slice<Dyn,0,R-1,C>(s,0,R-1,C),sub2(ix,s,0,R-1,C),m,depth-1); } break;
		case 2: m.say(".T()c"); scwalkm<K,C,R>(g,x.T(),trx(ix),m,depth-1); break;
		case 3: { int i=g.range(0,R-1); m.say("[i]c"); scwalkv<K,C>(g,x[i],rowx(ix,i),m,depth-1); break; }
		case 4: { int i=g.range(0,C-1); m.say(".T()[i]c"); scwalkv<K,R>(g,x.T()[i],rowx(trx(ix),i),m,depth-1); break; }
		case 5: m.say(".diagonal_slice()c"); scwalkv<K,(R<C?R:C)>(g,x.diagonal_slice(),diagx(ix),m,depth-1); break;
	}
}
template<int K,int R,int C,class X> void swalkm(vp::Rng&g,X&x,const Ix2&ix,Mem&m,int depth){
	m.depth++; readm(x,ix,m); for(int k=g.range(0,2);k--;) writem(g,x,ix,m); if(!depth) return;
	switch(g.range(0,7)){
		case 0: if constexpr(R>1&&C>1){ if(g.chance(.5)){ m.say(".slice<1,0,R-1,C-1>()"); auto y=x.template slice<1,0,R-1,C-1>(); swalkm<K,R-1,C-1>(g,y,sub2(ix,1,0,R-1,C-1),m,depth-1); } else { m.say(".slice<0,1,R-1,C-1>()"); auto y=x.template slice<0,1,R-1,C-1>(); swalkm<K,R-1,C-1>(g,y,sub2(ix,0,1,R-1,C-1),m,depth-1); } } break;
		case 1: if constexpr(R>1){ int s=g.range(0,1); m.say(".slice<Dyn,0,R-1,C>"); auto y=x.template slice<Dyn,0,R-1,C>(s,0,R-1,C); swalkm<K,R-1,C>(g,y,sub2(ix,s,0,R-1,C),m,depth-1); } break;
		case 2: { m.say(".T()"); auto y=x.T(); swalkm<K,C,R>(g,y,trx(ix),m,depth-1); break; }
		case 3: { int i=g.range(0,R-1); m.say("[i]"); auto y=x[i]; swalkv<K,C>(g,y,rowx(ix,i),m,depth-1); break; }
		case 4: { int i=g.range(0,C-1); m.say(".T()[i]"); auto t=x.T(); auto y=t[i]; swalkv<K,R>(g,y,rowx(trx(ix),i),m,depth-1); break; }
		case 5: { m.say(".diagonal_slice()"); auto y=x.diagonal_slice(); swalkv<K,(R<C?R:C)>(g,y,diagx(ix),m,depth-1); break; }
		case 6: m.say(".const"); scwalkm<K,R,C>(g,x,ix,m,depth-1); break;
		case 7: { int r=g.range(0,R),c=g.range(0,C),nr=g.range(0,R-r),nc=g.range(0,C-c); m.say(".slice(r,c,nr,nc)"); auto y=x.slice(r,c,nr,nc); Ix2 s=sub2(ix,r,c,nr,nc); readm(y,s,m); writem(g,y,s,m); auto t=y.T(); readm(t,trx(s),m); writem(g,t,trx(s),m); break; }
	}
	readm(x,ix,m);
}
VP_UNIT(statics,4000,80000){ vp::Rng&g=rng; const int pad=4; int dp=g.range(1,5),n0=0; P arr[12+2*pad]; fillraw(g,arr,12+2*pad);
	switch(g.range(0,8)){
		case 0: { T::Matrix<3,4,P> A; fillraw(g,rawptr(A),12); Mem m(rawptr(A),12); m.say("Matrix<3,4>"); swalkm<1,3,4>(g,A,rowmajor(3,4),m,dp); DONE; break; }
		case 1: { T::Matrix<4,3,P,T::ColMajor> A; fillraw(g,rawptr(A),12); Mem m(rawptr(A),12); m.say("Matrix<4,3,ColMajor>"); swalkm<1,4,3>(g,A,colmajor(4,3),m,dp); DONE; break; }
		case 2: { T::Matrix<3,4,P,T::Reference::RowMajor> A(arr+pad); Mem m(arr,12+2*pad); m.say("Matrix<3,4,Reference::RowMajor>"); swalkm<1,3,4>(g,A,rowmajor(3,4,pad),m,dp); DONE; break; }
		case 3: { T::Matrix<3,4,P,T::Reference::ColMajor> A(arr+pad); Mem m(arr,12+2*pad); m.say("Matrix<3,4,Reference::ColMajor>"); swalkm<1,3,4>(g,A,colmajor(3,4,pad),m,dp); DONE; break; }
		case 4: { T::Vector<4,P> v; for(int i=0;i<4;i++) v[i]=rv(g); Mem m(rawptr(v),4); m.say("Vector<4>"); swalkv<1,4>(g,v,iota(4),m,dp); DONE; break; }
		case 5: { T::Vector<4,P,T::Reference> v(arr+pad); Mem m(arr,12+2*pad); m.say("Vector<4,Reference>"); swalkv<1,4>(g,v,iota(4,pad),m,dp); DONE; break; }
		case 6: { auto A=T::wrapMatrix<2,3,P>(arr+pad); Mem m(arr,12+2*pad); m.say("wrapMatrix<2,3>"); swalkm<1,2,3>(g,A,rowmajor(2,3,pad),m,dp); auto v=T::wrapVector<4,P>(arr+pad); m.say(" wrapVector<4>"); swalkv<1,4>(g,v,iota(4,pad),m,dp); DONE; break; }
		case 7: { const P*cp=arr+pad; Mem m(arr,12+2*pad); m.say("wrapMatrix<2,3>(const)"); scwalkm<1,2,3>(g,T::wrapMatrix<2,3,P>(cp),rowmajor(2,3,pad),m,dp); m.say(" wrapVector<4>(const)"); scwalkv<1,4>(g,T::wrapVector<4,P>(cp),iota(4,pad),m,dp); DONE; break; }
		case 8: { int r=g.range(0,4); n0=r; // half dynamic, both layouts, owned and wrapped
			{ T::Matrix<Dyn,3,P> A(r,3); fillraw(g,rawptr(A),r*3); Mem m(rawptr(A),r*3); m.say("Matrix<Dyn,3>"); walkm<1>(g,A,rowmajor(r,3),m,dp); DONE; }
			{ T::Matrix<3,Dyn,P> A(3,r); fillraw(g,rawptr(A),r*3); Mem m(rawptr(A),r*3); m.say("Matrix<3,Dyn>"); walkm<1>(g,A,rowmajor(3,r),m,dp); DONE; }
			{ T::Matrix<Dyn,3,P,T::ColMajor> A(r,3); fillraw(g,rawptr(A),r*3); Mem m(rawptr(A),r*3); m.say("Matrix<Dyn,3,ColMajor>"); walkm<1>(g,A,colmajor(r,3),m,dp); DONE; }
			{ T::Matrix<3,Dyn,P,T::ColMajor> A(3,r); fillraw(g,rawptr(A),r*3); Mem m(rawptr(A),r*3); m.say("Matrix<3,Dyn,ColMajor>"); walkm<1>(g,A,colmajor(3,r),m,dp); DONE; }
			{ auto A=T::wrapMatrix<3,Dyn,P>(arr+pad,3,r); Mem m(arr,12+2*pad); m.say("wrapMatrix<3,Dyn>"); walkm<1>(g,A,rowmajor(3,r,pad),m,dp); DONE; }
			{ T::Matrix<Dyn,3,P,T::Reference::ColMajor> A(arr+pad,r,3); Mem m(arr,12+2*pad); m.say("Matrix<Dyn,3,Reference::ColMajor>"); walkm<1>(g,A,colmajor(r,3,pad),m,dp); DONE; }
			break; }
	}
}
// Named elements name the element at their position
VP_UNIT(named,300,3000){ vp::Rng&g=rng; int n0=0; 
	{ CvPoint<P> p; p[0]=rv(g); p[1]=rv(g); Mem m(&p.x,2); VP_CHECK(p.x==p[0]&&p.y==p[1]&&&p.x==&p[0]&&&p.y==&p[1],"named","point"); swalkv<1,2>(g,p,iota(2),m,3); P v=rv(g); p.y=v; m.model[1]=v; readv(p,iota(2),m); CKV("named",p.x==p[0]&&p.y==p[1]); T::Vector<2,P> q=p; CKV("named",q[1]==v); CvPoint<P> p2=q+p; CKV("named",p2.x==q[0]+p.x&&p2.y==2*v); DONE; }
	{ CvPose<P> p; for(int i=0;i<6;i++) p[i]=rv(g); Mem m(&p.tx,6); m.say("pose"); const CvPose<P>&c=p; P*e[6]={&p.tx,&p.ty,&p.tz,&p.rx,&p.ry,&p.rz}; for(int i=0;i<6;i++){ CKV("named",*e[i]==p[i]&&e[i]==&p[i]); } auto s=p.template slice<3,3>(); CKV("named",s[0]==c.rx&&s[1]==c.ry&&s[2]==c.rz); s[1]=rv(g); m.model[4]=p.ry; CKV("named",p.ry==p[4]); p.tz=rv(g); m.model[2]=p.tz; m.depth=2; readv(c,iota(6),m); p=T::Vector<6,P>(p*2); for(auto&x:m.model) x*=2; CKV("named",p.tz==m.model[2]&&m.ok()); DONE; }
}
