// Independent double precision geometry used as ground truth by the oracles.
// Nothing in here uses the library under test.
#pragma once
#include <cmath>
#include <vector>
#include <array>
#include <algorithm>
#include <cstdint>
namespace g {
struct V { double x=0,y=0,z=0; V(){} V(double a,double b,double c):x(a),y(b),z(c){}
  double operator[](int i) const { return i==0?x:i==1?y:z; } double& operator[](int i){ return i==0?x:i==1?y:z; } };
inline V operator+(V a,V b){return V(a.x+b.x,a.y+b.y,a.z+b.z);} inline V operator-(V a,V b){return V(a.x-b.x,a.y-b.y,a.z-b.z);}
inline V operator*(V a,double s){return V(a.x*s,a.y*s,a.z*s);} inline V operator*(double s,V a){return a*s;} inline V operator-(V a){return V(-a.x,-a.y,-a.z);}
inline V mul(V a,V b){return V(a.x*b.x,a.y*b.y,a.z*b.z);}
inline double dot(V a,V b){return a.x*b.x+a.y*b.y+a.z*b.z;} inline V cross(V a,V b){return V(a.y*b.z-a.z*b.y,a.z*b.x-a.x*b.z,a.x*b.y-a.y*b.x);}
inline double len2(V a){return dot(a,a);} inline double len(V a){return std::sqrt(len2(a));}
inline V norm(V a){double l=len(a); return l>0?a*(1/l):a;}
inline double dist(V a,V b){return len(a-b);}
inline bool finite(V a){return std::isfinite(a.x)&&std::isfinite(a.y)&&std::isfinite(a.z);}
struct Q { double x=0,y=0,z=0,w=1; };
inline Q qmul(Q a,Q b){ return Q{a.w*b.x+a.x*b.w+a.y*b.z-a.z*b.y, a.w*b.y-a.x*b.z+a.y*b.w+a.z*b.x, a.w*b.z+a.x*b.y-a.y*b.x+a.z*b.w, a.w*b.w-a.x*b.x-a.y*b.y-a.z*b.z}; }
inline Q qconj(Q a){return Q{-a.x,-a.y,-a.z,a.w};}
inline Q qnorm(Q a){double l=std::sqrt(a.x*a.x+a.y*a.y+a.z*a.z+a.w*a.w); if(l==0) return Q{}; return Q{a.x/l,a.y/l,a.z/l,a.w/l};}
inline V rot(Q q,V v){ V u(q.x,q.y,q.z); return v + 2.0*q.w*cross(u,v) + 2.0*cross(u,cross(u,v)); }
struct X { V p; Q q; };
inline V app(const X&x,V v){return rot(x.q,v)+x.p;}
inline X comp(const X&a,const X&b){ X r; r.p=app(a,b.p); r.q=qmul(a.q,b.q); return r; }
inline X inv(const X&a){ X r; r.q=qconj(a.q); r.p=rot(r.q,-a.p); return r; }
inline double qdiff(Q a,Q b){ // rotation angle-like distance, sign insensitive
  double d=std::fabs(a.x*b.x+a.y*b.y+a.z*b.z+a.w*b.w); double l=std::sqrt((a.x*a.x+a.y*a.y+a.z*a.z+a.w*a.w)*(b.x*b.x+b.y*b.y+b.z*b.z+b.w*b.w)); d=l>0?d/l:0;
  Q e=qmul(qconj(a),b); double s=std::sqrt(e.x*e.x+e.y*e.y+e.z*e.z); (void)d; return 2*std::atan2(s,std::fabs(e.w)); }

// ---- rounded convex polytope: convex hull of vertices, inflated by r -------------------------------------------------
struct Face { std::vector<int> v; V n; double d=0; };       // dot(n,x)<=d inside
struct Conv { std::vector<V> v; double r=0; std::vector<Face> f; std::vector<std::array<int,2>> e; };
struct Tri { V a,b,c; };
struct Geo { bool concave=false; Conv c; std::vector<Tri> t; bool ok=true; };
struct Box3 { V lo,hi; };

inline void finish(Conv& c) { // compute plane data from face loops, orient outward, collect unique edge pairs
  V cen; for (auto&p:c.v) cen=cen+p; cen=cen*(1.0/c.v.size());
  c.e.clear();
  for (auto&f:c.f) {
    V n; size_t k=f.v.size(); for (size_t i=0;i<k;i++) n=n+cross(c.v[f.v[i]],c.v[f.v[(i+1)%k]]);
    n=norm(n); double d=0; for (int i:f.v) d+=dot(n,c.v[i]); d/=k;
    if (dot(n,cen)>d) { n=-n; d=-d; }
    f.n=n; f.d=d;
    for (size_t i=0;i<k;i++) { int a=f.v[i],b=f.v[(i+1)%k]; if (a>b) std::swap(a,b); std::array<int,2> ed{a,b}; if (std::find(c.e.begin(),c.e.end(),ed)==c.e.end()) c.e.push_back(ed); }
  }
}
inline Conv xform(const Conv& c,const X& x){ Conv o; o.r=c.r; o.e=c.e; o.v.reserve(c.v.size()); for (auto&p:c.v) o.v.push_back(app(x,p)); o.f=c.f; for (auto&f:o.f){ f.n=rot(x.q,f.n); f.d+=dot(f.n,x.p);} return o; }
inline Geo xform(const Geo& c,const X& x){ Geo o; o.concave=c.concave; o.ok=c.ok; if(!c.concave) o.c=xform(c.c,x); else { o.t.reserve(c.t.size()); for(auto&t:c.t) o.t.push_back(Tri{app(x,t.a),app(x,t.b),app(x,t.c)}); } return o; }
inline Conv triConv(const Tri& t){ Conv c; c.v={t.a,t.b,t.c}; c.f.resize(1); c.f[0].v={0,1,2}; c.f[0].n=norm(cross(t.b-t.a,t.c-t.a)); c.f[0].d=dot(c.f[0].n,t.a); c.e={{0,1},{1,2},{0,2}}; return c; }
inline Box3 bounds(const Conv& c){ Box3 b; b.lo=b.hi=c.v[0]; for(auto&p:c.v) for(int k=0;k<3;k++){ b.lo[k]=std::min(b.lo[k],p[k]); b.hi[k]=std::max(b.hi[k],p[k]); } for(int k=0;k<3;k++){ b.lo[k]-=c.r; b.hi[k]+=c.r; } return b; }
inline Box3 bounds(const Tri& t){ return bounds(triConv(t)); }
inline Box3 bounds(const Geo& gg){ if(!gg.concave) return bounds(gg.c); Box3 b=bounds(gg.t[0]); for(auto&t:gg.t){ Box3 c=bounds(t); for(int k=0;k<3;k++){ b.lo[k]=std::min(b.lo[k],c.lo[k]); b.hi[k]=std::max(b.hi[k],c.hi[k]); } } return b; }
inline double boxgap(const Box3&a,const Box3&b){ double m=-1e300; for(int k=0;k<3;k++) m=std::max(m,std::max(a.lo[k]-b.hi[k],b.lo[k]-a.hi[k])); return m; }

inline V closestTri(V p,V a,V b,V c){ // Ericson
  V ab=b-a,ac=c-a,ap=p-a; double d1=dot(ab,ap),d2=dot(ac,ap); if(d1<=0&&d2<=0) return a;
  V bp=p-b; double d3=dot(ab,bp),d4=dot(ac,bp); if(d3>=0&&d4<=d3) return b;
  double vc=d1*d4-d3*d2; if(vc<=0&&d1>=0&&d3<=0){ double t=d1-d3!=0?d1/(d1-d3):0; return a+ab*t; }
  V cp=p-c; double d5=dot(ab,cp),d6=dot(ac,cp); if(d6>=0&&d5<=d6) return c;
  double vb=d5*d2-d1*d6; if(vb<=0&&d2>=0&&d6<=0){ double t=d2-d6!=0?d2/(d2-d6):0; return a+ac*t; }
  double va=d3*d6-d5*d4; if(va<=0&&(d4-d3)>=0&&(d5-d6)>=0){ double den=(d4-d3)+(d5-d6); double t=den!=0?(d4-d3)/den:0; return b+(c-b)*t; }
  double den=va+vb+vc; if (den==0) return a; return a+ab*(vb/den)+ac*(vc/den);
}
// distance between the cores (hulls of v). 0 when they intersect. GJK on the Minkowski difference.
inline double coreDist(const Conv&A,const Conv&B){
  auto sup=[&](V d){ const V*ba=&A.v[0]; double m=-1e300; for(auto&p:A.v){double q=dot(p,d); if(q>m){m=q;ba=&p;}} const V*bb=&B.v[0]; m=-1e300; for(auto&p:B.v){double q=-dot(p,d); if(q>m){m=q;bb=&p;}} return *ba-*bb; };
  std::vector<V> s; V v=A.v[0]-B.v[0]; double scale=1; for(auto&p:A.v) scale=std::max(scale,len(p-B.v[0]));
  if (len2(v)==0) return 0;
  s.push_back(v);
  for(int it=0;it<200;it++){
    V w=sup(-v); double vv=len2(v);
    if (vv<1e-22*scale*scale) return 0;
    if (vv-dot(v,w)<=1e-12*vv) return std::sqrt(vv);
    bool dup=false; for(auto&p:s) if(len2(p-w)<1e-26*scale*scale) dup=true; if(dup) return std::sqrt(vv);
    s.push_back(w);
    // closest point of simplex to the origin; keep minimal sub-simplex
    V best; double bd=1e300; std::vector<V> bs;
    size_t n=s.size();
    if(n==4){ // origin inside the tetrahedron?
      V a=s[0],b=s[1],c=s[2],d=s[3]; auto side=[&](V p,V q,V r,V o){ V nn=cross(q-p,r-p); double so=dot(nn,o-p), s0=dot(nn,-p); return std::make_pair(so,s0); };
      bool in=true; double vol=std::fabs(dot(cross(b-a,c-a),d-a));
      std::pair<double,double> t[4]={side(a,b,c,d),side(a,b,d,c),side(a,c,d,b),side(b,c,d,a)};
      for(auto&q:t) if(q.first*q.second<0) in=false;
      if(in&&vol>1e-9*scale*scale*scale) return 0; } // a flatter tetrahedron is left to its faces
    for(size_t i=0;i<n;i++) for(size_t j=i;j<n;j++) for(size_t k=j;k<n;k++){
      if (n==4 && i==j && j==k) { double d=len2(s[i]); if(d<bd){bd=d;best=s[i];bs={s[i]};} continue; }
      std::vector<V> c={s[i]}; V p;
      if(i==j&&j==k) p=s[i];
      else if (j==k){ V ab=s[j]-s[i]; double l=len2(ab); double tt=l>0?-dot(s[i],ab)/l:0; if(tt<=0||tt>=1) continue; p=s[i]+ab*tt; c={s[i],s[j]}; }
      else if (i==j) continue;
      else { p=closestTri(V(),s[i],s[j],s[k]); c={s[i],s[j],s[k]}; }
      double d=len2(p); if(d<bd-1e-15*bd){bd=d;best=p;bs=c;}
    }
    if (bs.size()==3){ // drop unused vertices of the triangle
      V p=best; double tol=1e-14*scale*scale; 
      for(int i=0;i<3;i++) for(int j=i+1;j<3;j++){ V ab=bs[j]-bs[i]; double l=len2(ab); double tt=l>0?dot(p-bs[i],ab)/l:0; tt=std::min(1.0,std::max(0.0,tt)); if(len2(bs[i]+ab*tt-p)<tol*1e-6){ std::vector<V> c={bs[i],bs[j]}; if(bs.size()==3){ bs=c; goto done; } } }
      done:; }
    if (bd>=vv*(1-1e-14)) return std::sqrt(std::min(bd,vv));
    v=best; s=bs;
  }
  return len(v);
}
// signed separation of cores when they intersect: - penetration depth (SAT over all axes)
inline double coreSat(const Conv&A,const Conv&B){
  double best=-1e300;
  auto test=[&](V n){ double l=len(n); if(l<1e-9) return; n=n*(1/l); double amin=1e300,amax=-1e300,bmin=1e300,bmax=-1e300; for(auto&p:A.v){double d=dot(p,n);amin=std::min(amin,d);amax=std::max(amax,d);} for(auto&p:B.v){double d=dot(p,n);bmin=std::min(bmin,d);bmax=std::max(bmax,d);} best=std::max(best,std::max(amin-bmax,bmin-amax)); };
  for(auto&f:A.f) test(f.n); for(auto&f:B.f) test(f.n);
  for(auto&e:A.e) for(auto&k:B.e) { V a=A.v[e[1]]-A.v[e[0]], b=B.v[k[1]]-B.v[k[0]]; double la=len(a),lb=len(b); if (la<1e-12||lb<1e-12) continue; V c=cross(a*(1/la),b*(1/lb)); if (len(c)>1e-6) test(c); }
  // degenerate cores (point, segment): add axes that are missing from the lists above
  if (A.f.empty()||B.f.empty()) {
    const Conv& P=A.f.empty()?A:B; const Conv& O=A.f.empty()?B:A;
    if (O.f.empty()) return std::max(best,-0.0)<0&&best>-1e299?best:0; // two segments/points: penetration of cores is zero
    (void)P;
  }
  return best;
}
// signed separation of two rounded convex objects (>0 apart, <0 overlap depth)
inline double sep(const Conv&A,const Conv&B){
  double d=coreDist(A,B);
  if (d>1e-7) return d-A.r-B.r;
  double s=coreSat(A,B); if (s>0) s=0; if (A.f.empty()&&B.f.empty()) s=0;
  return s-A.r-B.r;
}
inline double sep(const Geo&A,const Geo&B){
  if (A.concave&&B.concave) return 1e300;
  if (!A.concave&&!B.concave) { double gap=boxgap(bounds(A.c),bounds(B.c)); if (gap>1) return gap; return sep(A.c,B.c); }
  const Geo& C=A.concave?B:A; const Geo& M=A.concave?A:B; Box3 cb=bounds(C.c); double best=1e300;
  for(auto&t:M.t){ double gap=boxgap(cb,bounds(t)); if(gap>best||gap>1){ best=std::min(best,std::max(gap,0.0)); continue;} best=std::min(best,sep(C.c,triConv(t))); }
  return best;
}
// distance from point to surface/solid: signed (negative inside) for convex
inline double pointSep(const Conv&A,V p){ Conv P; P.v={p}; double d=coreDist(A,P); if(d>0) return d-A.r; if (A.f.empty()) return -A.r; double s=-1e300; for(auto&f:A.f) s=std::max(s,dot(f.n,p)-f.d); return std::min(s,0.0)-A.r; }
inline double pointSurfaceDist(const Geo&G,V p){ if(!G.concave) return std::fabs(pointSep(G.c,p)); double b=1e300; for(auto&t:G.t) b=std::min(b,dist(p,closestTri(p,t.a,t.b,t.c))); return b; }
// ---- ray casts: returns fraction in [0,maxf] or -1. "eps" inflates (>0) or deflates (<0) the object --------------------
inline double raySphere(V o,V d,V c,double r,double maxf){ if(r<=0) return -1; V m=o-c; double a=len2(d),b=dot(m,d),cc=len2(m)-r*r; if(cc<0) return -2; double disc=b*b-a*cc; if(disc<0||b>0||a==0) return -1; double t=(-b-std::sqrt(disc))/a; return (t>=0&&t<=maxf)?t:-1; }
// -2 means: the ray starts inside
inline double rayConv(const Conv&C,V o,V d,double maxf,double eps){
  double r=C.r+eps;
  if (C.v.size()==1) return raySphere(o,d,C.v[0],r,maxf);
  if (C.v.size()==2) { // capsule
    if (r<=0) return -1; V a=C.v[0],b=C.v[1]; V ab=b-a; double L2=len2(ab); V ao=o-a; double t0=L2>0?dot(ao,ab)/L2:0; double tc=std::min(1.0,std::max(0.0,t0)); if(dist(o,a+ab*tc)<r) return -2;
    double best=-1; auto upd=[&](double t){ if(t>=0&&t<=maxf&&(best<0||t<best)) best=t; };
    double t=raySphere(o,d,a,r,maxf); upd(t); t=raySphere(o,d,b,r,maxf); upd(t);
    V u=norm(ab); V dp=d-u*dot(d,u), op=ao-u*dot(ao,u); double A2=len2(dp),B=dot(dp,op),Cc=len2(op)-r*r; if(A2>0){ double disc=B*B-A2*Cc; if(disc>=0){ double tt=(-B-std::sqrt(disc))/A2; if(tt>=0&&tt<=maxf){ double s=dot(ao+d*tt,u); if(s>=0&&s*s<=L2) upd(tt); } } }
    return best; }
  double t0=0,t1=maxf; bool startIn=true; bool ent=false;
  for(auto&f:C.f){ double dd=f.d+eps-dot(f.n,o), den=dot(f.n,d); if(dd<0) startIn=false; if(den==0){ if(dd<0) return -1; continue;} double t=dd/den; if(den<0){ if(t>t0){t0=t;ent=true;} } else if(t<t1) t1=t; if(t0>t1) return startIn?-2:-1; }
  if(startIn) return -2; (void)ent; return t0; }
// side: 0 front, 1 back, 2 both (front = counter clockwise seen from the ray origin). margin>0 shrinks the triangle
inline double rayTri(const Tri&T,V o,V d,double maxf,int side,double margin){
  V ab=T.b-T.a,ac=T.c-T.a; V n=cross(ab,ac); double L=len(n); if(L<=0) return -1; double den=dot(n,d); if(den==0) return -1; if(side==0&&den>0) return -1; if(side==1&&den<0) return -1;
  double t=dot(n,T.a-o)/den; if(t<0||t>maxf) return -1; V p=o+d*t; V nn=n*(1/L);
  auto ed=[&](V a,V b){ V e=norm(b-a); return dot(cross(nn,e),p-a); };
  if(ed(T.a,T.b)<margin||ed(T.b,T.c)<margin||ed(T.c,T.a)<margin) return -1; return t; }
}
