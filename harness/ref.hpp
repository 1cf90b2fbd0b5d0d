// Independent reference linear algebra in extended precision. Nothing here uses TooN.
#pragma once
#include "vp.hpp"
#include <functional>
#include <algorithm>
namespace ref {
typedef long double L;
const L EPSL=LDBL_EPSILON;
struct V : std::vector<L> {
	V(int n=0):std::vector<L>(n,0){}
	V(std::initializer_list<double> l):std::vector<L>(l.begin(),l.end()){}
};
struct M {
	int r,c; std::vector<L> d;
	M(int r_=0,int c_=0):r(r_),c(c_),d((size_t)r_*c_,0){}
	L& operator()(int i,int j){ return d[(size_t)i*c+j]; }
	L operator()(int i,int j)const{ return d[(size_t)i*c+j]; }
};
inline M eye(int n){ M m(n,n); for(int i=0;i<n;i++) m(i,i)=1; return m; }
inline M mul(const M&a,const M&b){ M o(a.r,b.c); for(int i=0;i<a.r;i++) for(int k=0;k<a.c;k++){ L x=a(i,k); if(x!=0) for(int j=0;j<b.c;j++) o(i,j)+=x*b(k,j);} return o; }
inline V mul(const M&a,const V&b){ V o(a.r); for(int i=0;i<a.r;i++) for(int k=0;k<a.c;k++) o[i]+=a(i,k)*b[k]; return o; }
inline V mul(const V&b,const M&a){ V o(a.c); for(int i=0;i<a.r;i++) for(int k=0;k<a.c;k++) o[k]+=a(i,k)*b[i]; return o; }
inline M tr(const M&a){ M o(a.c,a.r); for(int i=0;i<a.r;i++) for(int j=0;j<a.c;j++) o(j,i)=a(i,j); return o; }
inline M add(const M&a,const M&b,L s=1){ M o=a; for(size_t i=0;i<o.d.size();i++) o.d[i]+=s*b.d[i]; return o; }
inline M sub(const M&a,const M&b){ return add(a,b,-1); }
inline M scale(const M&a,L s){ M o=a; for(auto&x:o.d) x*=s; return o; }
inline V add(const V&a,const V&b,L s=1){ V o=a; for(size_t i=0;i<o.size();i++) o[i]+=s*b[i]; return o; }
inline V sub(const V&a,const V&b){ return add(a,b,-1); }
inline L dot(const V&a,const V&b){ L s=0; for(size_t i=0;i<a.size();i++) s+=a[i]*b[i]; return s; }
inline L maxabs(const M&a){ L m=0; for(L x:a.d){ if(!(std::fabs(x)<=m)) m=std::fabs(x); if(x!=x) return NAN; } return m; }
inline L maxabs(const V&a){ L m=0; for(L x:a){ if(x!=x) return NAN; if(std::fabs(x)>m) m=std::fabs(x);} return m; }
inline L fro(const M&a){ L s=0; for(L x:a.d) s+=x*x; return sqrtl(s); }
inline L norm(const V&a){ return sqrtl(dot(a,a)); }
inline L norminf(const M&a){ L m=0; for(int i=0;i<a.r;i++){ L s=0; for(int j=0;j<a.c;j++) s+=fabsl(a(i,j)); if(s!=s) return NAN; m=std::max(m,s);} return m; }
inline L norm1(const M&a){ return norminf(tr(a)); }

// full pivoting LU; returns determinant, solves A X = B in place (ok=false when exactly singular)
inline M solve(M a,M b,bool*ok=nullptr,L*det=nullptr){
	int n=a.r; std::vector<int> q(n); for(int i=0;i<n;i++) q[i]=i; L d=1; if(ok)*ok=true;
	for(int k=0;k<n;k++){
		int pi=k,pj=k; L best=-1; for(int i=k;i<n;i++) for(int j=k;j<n;j++) if(fabsl(a(i,j))>best){best=fabsl(a(i,j));pi=i;pj=j;}
		if(!(best>0)){ if(ok)*ok=false; if(det)*det=0; return b; }
		if(pi!=k){ for(int j=0;j<n;j++) std::swap(a(pi,j),a(k,j)); for(int j=0;j<b.c;j++) std::swap(b(pi,j),b(k,j)); d=-d; }
		if(pj!=k){ for(int i=0;i<n;i++) std::swap(a(i,pj),a(i,k)); std::swap(q[pj],q[k]); d=-d; }
		d*=a(k,k);
		for(int i=k+1;i<n;i++){ L f=a(i,k)/a(k,k); if(f!=0){ for(int j=k;j<n;j++) a(i,j)-=f*a(k,j); for(int j=0;j<b.c;j++) b(i,j)-=f*b(k,j);} }
	}
	M x(n,b.c);
	for(int c=0;c<b.c;c++) for(int i=n-1;i>=0;i--){ L s=b(i,c); for(int j=i+1;j<n;j++) s-=a(i,j)*x(q[j],c); x(q[i],c)=s/a(i,i); }
	if(det)*det=d; return x;
}
inline M inv(const M&a,bool*ok=nullptr){ return solve(a,eye(a.r),ok); }
inline L det(const M&a){ if(a.r==0) return 1; L d=0; bool ok; solve(a,M(a.r,0),&ok,&d); return ok?d:0; }

// exact determinant of an integer matrix (Bareiss) with __int128
inline bool bareiss(std::vector<std::vector<__int128>> a,__int128& out){
	int n=a.size(); int sign=1; __int128 prev=1;
	for(int k=0;k<n-1;k++){
		if(a[k][k]==0){ int p=-1; for(int i=k+1;i<n;i++) if(a[i][k]!=0){p=i;break;} if(p<0){ out=0; return true;} std::swap(a[p],a[k]); sign=-sign; }
		for(int i=k+1;i<n;i++) for(int j=k+1;j<n;j++) a[i][j]=(a[i][j]*a[k][k]-a[i][k]*a[k][j])/prev;
		prev=a[k][k];
	}
	out=n?sign*a[n-1][n-1]:1; return true;
}

// matrix exponential: scaling, long Taylor, squaring, extended precision
inline M expm(const M&a){
	L n=norminf(a); int s=0; while(n>0.25L){ n/=2; s++; }
	M x=scale(a,ldexpl(1,-s)), t=eye(a.r), o=eye(a.r);
	for(int k=1;k<40;k++){ t=scale(mul(t,x),1.0L/k); o=add(o,t); if(maxabs(t)==0) break; }
	for(int i=0;i<s;i++) o=mul(o,o);
	return o;
}
// symmetric eigen decomposition by cyclic Jacobi; ascending; rows of E are eigenvectors
inline void jacobi(M a,V&w,M&E){
	int n=a.r; M v=eye(n);
	for(int sweep=0;sweep<100;sweep++){
		L off=0; for(int i=0;i<n;i++) for(int j=0;j<i;j++) off+=a(i,j)*a(i,j);
		if(off==0) break;
		for(int p=0;p<n;p++) for(int q=p+1;q<n;q++){
			if(a(p,q)==0) continue;
			if(fabsl(a(p,q))<1e-25L*sqrtl(fabsl(a(p,p))*fabsl(a(q,q)))&&sweep>3){ }
			L th=(a(q,q)-a(p,p))/(2*a(p,q)); L t=(th>=0?1:-1)/(fabsl(th)+sqrtl(th*th+1)); L c=1/sqrtl(t*t+1),s=t*c;
			for(int k=0;k<n;k++){ L x=a(k,p),y=a(k,q); a(k,p)=c*x-s*y; a(k,q)=s*x+c*y; }
			for(int k=0;k<n;k++){ L x=a(p,k),y=a(q,k); a(p,k)=c*x-s*y; a(q,k)=s*x+c*y; }
			a(p,q)=a(q,p)=0;
			for(int k=0;k<n;k++){ L x=v(k,p),y=v(k,q); v(k,p)=c*x-s*y; v(k,q)=s*x+c*y; }
		}
		if(sqrtl(off)<1e-30L*maxabs(a)) break;
	}
	std::vector<int> ix(n); for(int i=0;i<n;i++) ix[i]=i; std::sort(ix.begin(),ix.end(),[&](int x,int y){return a(x,x)<a(y,y);});
	w=V(n); E=M(n,n); for(int i=0;i<n;i++){ w[i]=a(ix[i],ix[i]); for(int k=0;k<n;k++) E(i,k)=v(k,ix[i]); }
}
// singular values (descending) by one-sided Jacobi, with factors A = U diag(s) V^T (U: r x k)
inline void svd(const M&A,V&s,M&U,M&Vt){
	bool t=A.r<A.c; M a=t?tr(A):A; int m=a.r,n=a.c; M v=eye(n);
	for(int sweep=0;sweep<120;sweep++){ bool rot=false;
		for(int p=0;p<n;p++) for(int q=p+1;q<n;q++){
			L al=0,be=0,ga=0; for(int i=0;i<m;i++){ al+=a(i,p)*a(i,p); be+=a(i,q)*a(i,q); ga+=a(i,p)*a(i,q);} 
			if(fabsl(ga)<=2e-19L*sqrtl(al*be)||ga==0) continue; rot=true;
			L z=(be-al)/(2*ga); L tt=(z>=0?1:-1)/(fabsl(z)+sqrtl(1+z*z)); L c=1/sqrtl(1+tt*tt),sn=c*tt;
			for(int i=0;i<m;i++){ L x=a(i,p),y=a(i,q); a(i,p)=c*x-sn*y; a(i,q)=sn*x+c*y; }
			for(int i=0;i<n;i++){ L x=v(i,p),y=v(i,q); v(i,p)=c*x-sn*y; v(i,q)=sn*x+c*y; }
		}
		if(!rot) break; }
	V w(n); for(int j=0;j<n;j++){ L q=0; for(int i=0;i<m;i++) q+=a(i,j)*a(i,j); w[j]=sqrtl(q);} 
	std::vector<int> ix(n); for(int i=0;i<n;i++) ix[i]=i; std::sort(ix.begin(),ix.end(),[&](int x,int y){return w[x]>w[y];});
	s=V(n); M u(m,n),vv(n,n); for(int j=0;j<n;j++){ int k=ix[j]; s[j]=w[k]; for(int i=0;i<m;i++) u(i,j)=w[k]>0?a(i,k)/w[k]:0; for(int i=0;i<n;i++) vv(i,j)=v(i,k);} 
	if(!t){ U=u; Vt=tr(vv);} else { U=vv; Vt=tr(u);} 
}
inline V svals(const M&A){ V s; M u,v; svd(A,s,u,v); return s; }

// ------------------------------------------------------------ generators
inline M randn(vp::Rng&g,int r,int c){ M m(r,c); for(auto&x:m.d) x=g.normal(); return m; }
// random orthogonal matrix: product of Householder reflections
inline M randorth(vp::Rng&g,int n){ M q=eye(n); if(n==0) return q;
	for(int k=0;k<n;k++){ V u(n); L s=0; for(int i=0;i<n;i++){u[i]=g.normal(); s+=u[i]*u[i];} if(s==0) continue;
		for(int i=0;i<n;i++){ L d=0; for(int j=0;j<n;j++) d+=q(i,j)*u[j]; d*=2/s; for(int j=0;j<n;j++) q(i,j)-=d*u[j]; } }
	return q; }
// matrix with prescribed singular values
inline M withsv(vp::Rng&g,int r,int c,const V&s){ M u=randorth(g,r),v=randorth(g,c); M d(r,c); for(int i=0;i<std::min(r,c)&&i<(int)s.size();i++) d(i,i)=s[i]; return mul(mul(u,d),v); }
inline M symwith(vp::Rng&g,const V&w){ int n=w.size(); M u=randorth(g,n); M d(n,n); for(int i=0;i<n;i++) d(i,i)=w[i]; M o=mul(mul(u,d),tr(u)); for(int i=0;i<n;i++) for(int j=0;j<i;j++) o(i,j)=o(j,i); return o; }
// structured square-or-rectangular matrices that hit special branches. kind is returned for reporting.
inline M structured(vp::Rng&g,int r,int c,int&kind){
	kind=g.range(0,11); M m(r,c);
	switch(kind){
		case 0: m=randn(g,r,c); break;
		case 1: for(int i=0;i<std::min(r,c);i++) m(i,i)=g.range(0,4)?g.normal():1; break;             // diagonal
		case 2: for(int i=0;i<r;i++) for(int j=i;j<c;j++) m(i,j)=g.normal(); break;                     // upper triangular
		case 3: for(int i=0;i<r;i++) for(int j=0;j<=i&&j<c;j++) m(i,j)=g.normal(); break;               // lower triangular
		case 4: { std::vector<int> p(r); for(int i=0;i<r;i++) p[i]=i; for(int i=r-1;i>0;i--) std::swap(p[i],p[g.range(0,i)]); for(int i=0;i<r;i++) if(p[i]<c) m(i,p[i])=g.chance(.5)?1:g.normal(); break; } // permutation-like
		case 5: for(auto&x:m.d) x=g.range(-2,2); break;                                                // small integers
		case 6: { M a=randn(g,r,1),b=randn(g,1,c); m=mul(a,b); break; }                                  // rank one
		case 7: { m=randn(g,r,c); int j=g.range(0,c-1); for(int i=0;i<r;i++) m(i,j)=0; break; }          // zero column
		case 8: { m=randn(g,r,c); for(int i=0;i<r;i++){ L s=powl(10,g.range(-8,8)); for(int j=0;j<c;j++) m(i,j)*=s; } break; } // row scaled
		case 9: { m=randn(g,r,c); L s=powl(10,g.range(-12,12)); for(auto&x:m.d) x*=s; break; }            // globally scaled
		case 10: for(auto&x:m.d) x=g.chance(.7)?0:g.normal(); break;                                    // sparse
		case 11: { m=eye(std::max(r,c)); M q(r,c); for(int i=0;i<r;i++) for(int j=0;j<c;j++) q(i,j)=m(i,j)+ (g.chance(.3)?1e-9L*g.normal():0); m=q; break; } // near identity
	}
	return m;
}
template<class T> inline void roundto(M&m){ for(auto&x:m.d) x=(L)(T)x; }
template<class T> inline void roundto(V&m){ for(auto&x:m) x=(L)(T)x; }
// conversion from anything indexable like a matrix/vector
template<class A> inline M fromM(const A&a){ M m(a.num_rows(),a.num_cols()); for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) m(i,j)=a(i,j); return m; }
template<class A> inline V fromV(const A&a){ V v(a.size()); for(int i=0;i<(int)v.size();i++) v[i]=a[i]; return v; }
template<class A> inline void toM(A&a,const M&m){ for(int i=0;i<m.r;i++) for(int j=0;j<m.c;j++) a(i,j)=m(i,j); }
template<class A> inline void toV(A&a,const V&v){ for(int i=0;i<(int)v.size();i++) a[i]=v[i]; }
inline uint64_t hash(const M&m){ uint64_t h=m.r*131+m.c; for(L x:m.d){ double d=x; h=vp::mix(h^vp::hbytes(&d,1)); } return h; }
inline uint64_t hash(const V&m){ uint64_t h=m.size(); for(L x:m){ double d=x; h=vp::mix(h^vp::hbytes(&d,1)); } return h; }
inline std::string show(const M&m){ std::string s="["; for(int i=0;i<m.r&&i<6;i++){ for(int j=0;j<m.c&&j<6;j++) s+=vp::fmt("%.17g%s",(double)m(i,j),j+1<m.c?",":""); s+=i+1<m.r?";":""; } return s+"]"+vp::fmt("(%dx%d)",m.r,m.c); }
inline std::string show(const V&m){ std::string s="("; for(size_t i=0;i<m.size()&&i<12;i++) s+=vp::fmt("%.17g%s",(double)m[i],i+1<m.size()?",":""); return s+")"; }
} // namespace ref
