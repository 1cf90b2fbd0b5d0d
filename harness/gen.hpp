// Generators of test matrices for linear systems, shared by several workloads.
#pragma once
#include "ref.hpp"
namespace gen {
using namespace ref;
// Regular square matrices covering special pivot patterns. cond gets the 2-norm condition number.
inline M regular(vp::Rng&g,int n,int&kind,L&cond,L maxcond){
	for(int tries=0;;tries++){
		M m(n,n); kind=g.range(0,9);
		switch(kind){
			case 0: m=randn(g,n,n); break;
			case 1: { V s(n); for(int i=0;i<n;i++) s[i]=powl(maxcond/4,-g.unif()); m=withsv(g,n,n,s); break; }
			case 2: { // permuted diagonal / triangular: zero leading entries
				std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; for(int i=n-1;i>0;i--) std::swap(p[i],p[g.range(0,i)]);
				for(int i=0;i<n;i++) for(int j=i;j<n;j++) m(p[i],j)=i==j?g.unif(.5,2)*(g.range(0,1)?1:-1):(g.chance(.5)?g.normal():0); break; }
			case 3: { m=randn(g,n,n); int k=g.range(0,n-1); for(int i=0;i<=k;i++) m(i,i)=0; break; }
			case 4: { m=randn(g,n,n); for(int i=0;i<n;i++) m(i,i)=1e-13L*g.normal(); break; } // tiny diagonal
			case 5: for(auto&x:m.d) x=g.range(-3,3); break;
			case 6: { m=randn(g,n,n); L s=powl(2,g.range(-20,20)); for(auto&x:m.d) x*=s; break; }
			case 7: { std::vector<int> p(n); for(int i=0;i<n;i++) p[i]=i; for(int i=n-1;i>0;i--) std::swap(p[i],p[g.range(0,i)]); for(int i=0;i<n;i++) m(i,p[i])=g.chance(.5)?1:-2; break; }
			case 8: { m=randn(g,n,n); for(auto&x:m.d) if(g.chance(.5)) x=0; break; }
			case 9: { // leading minors singular: repeat rows prefix
				m=randn(g,n,n); if(n>1){ int k=g.range(1,n-1); for(int j=0;j<k;j++) m(1%n,j)=m(0,j); } break; }
		}
		V s=svals(m); if(n==0){cond=1;return m;}
		cond=s[n-1]>0?s[0]/s[n-1]:INFINITY;
		if(cond<=maxcond) return m;
		if(tries>50){ m=eye(n); cond=1; return m; }
	}
}
}
