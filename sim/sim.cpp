#include "sim.h"
#include <set>
#include <tuple>
#include <algorithm>
#include <cmath>
namespace sim {
using namespace g;
static void sideSafe(double) {}
void Lst::onContact(const rp::CollisionCallback::CallbackData& d){
  for(rp::uint32 i=0;i<d.getNbContactPairs();i++){ auto p=d.getContactPair(i); Ev e; e.trig=false; e.kind=(int)p.getEventType()==(int)rp::CollisionCallback::ContactPair::EventType::ContactStart?0:p.getEventType()==rp::CollisionCallback::ContactPair::EventType::ContactStay?1:2;
    auto id=[&](std::map<const void*,int>&m,const void*q){ auto it=m.find(q); if(it==m.end()){ if(s->pending.empty()) s->pending="contact event refers to an object that does not exist any more"; return -1;} return it->second; };
    e.c1=id(s->pCol,p.getCollider1()); e.c2=id(s->pCol,p.getCollider2()); e.b1=id(s->pBody,p.getBody1()); e.b2=id(s->pBody,p.getBody2());
    for(rp::uint32 k=0;k<p.getNbContactPoints();k++){ auto c=p.getContactPoint(k); e.pts.push_back(CP{GV(c.getLocalPointOnCollider1()),GV(c.getLocalPointOnCollider2()),GV(c.getWorldNormal()),(double)c.getPenetrationDepth()}); }
    s->events.push_back(e); } }
void Lst::onTrigger(const rp::OverlapCallback::CallbackData& d){
  for(rp::uint32 i=0;i<d.getNbOverlappingPairs();i++){ auto p=d.getOverlappingPair(i); Ev e; e.trig=true; auto k=p.getEventType(); e.kind=k==rp::OverlapCallback::OverlapPair::EventType::OverlapStart?0:k==rp::OverlapCallback::OverlapPair::EventType::OverlapStay?1:2;
    auto id=[&](std::map<const void*,int>&m,const void*q){ auto it=m.find(q); if(it==m.end()){ if(s->pending.empty()) s->pending="trigger event refers to an object that does not exist any more"; return -1;} return it->second; };
    e.c1=id(s->pCol,p.getCollider1()); e.c2=id(s->pCol,p.getCollider2()); e.b1=id(s->pBody,p.getBody1()); e.b2=id(s->pBody,p.getBody2()); s->events.push_back(e); } }

// ---------------------------------------------------------------------------------------------------------------- meshes
static void putV(std::vector<char>& buf,size_t off,bool dbl,V v){ if(dbl){ double d[3]={v.x,v.y,v.z}; memcpy(&buf[off],d,24);} else { float f[3]={(float)v.x,(float)v.y,(float)v.z}; memcpy(&buf[off],f,12);} }
static void putI(std::vector<char>& buf,size_t off,bool sh,int v){ if(sh){ unsigned short s=(unsigned short)v; memcpy(&buf[off],&s,2);} else { unsigned u=(unsigned)v; memcpy(&buf[off],&u,4);} }
static Conv bruteHull(const std::vector<V>& pts){ Conv c; c.v=pts; int n=(int)pts.size(); std::set<std::vector<int>> done; double sc=0; for(auto&p:pts) sc=std::max(sc,len(p)); double tol=1e-7*sc;
  for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) for(int k=j+1;k<n;k++){ V nn=cross(pts[j]-pts[i],pts[k]-pts[i]); double l=len(nn); if(l<1e-12) continue; nn=nn*(1/l); double d=dot(nn,pts[i]); int pos=0,neg=0; std::vector<int> on; for(int m=0;m<n;m++){ double q=dot(nn,pts[m])-d; if(q>tol) pos++; else if(q<-tol) neg++; else on.push_back(m);} if(pos&&neg) continue; if(pos) nn=-nn; if(!done.insert(on).second) continue;
    // order the coplanar vertices around their centre
    V cen; for(int m:on) cen=cen+pts[m]; cen=cen*(1.0/on.size()); V ux=norm(pts[on[0]]-cen), uy=cross(nn,ux); std::sort(on.begin(),on.end(),[&](int a,int b){ V p=pts[a]-cen,q=pts[b]-cen; return std::atan2(dot(p,uy),dot(p,ux))<std::atan2(dot(q,uy),dot(q,ux)); }); Face f; f.v=on; c.f.push_back(f); }
  finish(c); return c; }
#include "meshcheck.h"
static void triGrid(int nx,int ny,double cell,const std::vector<double>& h,std::vector<V>& v,std::vector<std::array<int,3>>& t){
  for(int j=0;j<ny;j++) for(int i=0;i<nx;i++) v.push_back(V((i-(nx-1)*0.5)*cell,h[j*nx+i],(j-(ny-1)*0.5)*cell));
  for(int j=0;j+1<ny;j++) for(int i=0;i+1<nx;i++){ int a=j*nx+i,b=a+1,c=a+nx,d=c+1; t.push_back({a,c,b}); t.push_back({b,c,d}); } }
// MESH id kind variant seed nx ny layout fault | scale
// layout bits: 1 double vertices, 2 short indices, 4 padded vertex stride, 8 user normals (tri), 16 padded index stride, 32 double normals / int heights
bool Sim::buildMesh(const Op& o){
  int id=(int)o.I(0); if(meshes.count(id)) return false; MeshRec m; m.kind=(int)o.I(1); int variant=(int)o.I(2); Rng r((u64)o.I(3)*7919+13); int nx=(int)o.I(4),ny=(int)o.I(5),lay=(int)o.I(6),fault=(int)o.I(7); double sc=o.D(0)>0?o.D(0):1;
  bool dbl=lay&1, sh=lay&2; size_t vs=(dbl?24:12)+((lay&4)?(dbl?8:4):0), is=sh?2:4; std::vector<rp::Message> msgs;
  auto fillV=[&](const std::vector<V>& pts){ m.bufV.assign(vs*pts.size()+8,0x33); for(size_t k=0;k<pts.size();k++) putV(m.bufV,k*vs,dbl,pts[k]); };
  auto rnd=[&](V v){ return dbl&&!(lay&64)?V((dec)v.x,(dec)v.y,(dec)v.z):V((float)v.x,(float)v.y,(float)v.z); };
  if(m.kind==0){ int n=std::max(4,std::min(nx,14)); std::vector<V> pts; for(int k=0;k<n;k++){ double z=1-2*(k+0.5)/n, ph=k*2.39996+r.u(-0.25,0.25), q=std::sqrt(std::max(0.0,1-z*z)); double a=sc*(variant?r.u(0.85,1.0):1.0); pts.push_back(rnd(V(q*std::cos(ph)*a,z*a,q*std::sin(ph)*a))); }
    if(variant==3){ pts.clear(); for(int q=0;q<27;q++) if(q!=13) pts.push_back(rnd(V((q%3-1)*sc,(q/3%3-1)*sc,(q/9-1)*sc))); } // a box with points in its faces and edges
    if(variant==4) for(int k=0;k<6;k++) pts.push_back(rnd(V(r.u(-.3,.3)*sc,r.u(-.3,.3)*sc,r.u(-.3,.3)*sc)));      // points inside
    if(variant==5){ size_t q=pts.size(); for(size_t k=0;k<q;k++) if(r.p(0.5)) pts.push_back(pts[k]); }                // repeated points
    if(variant==6) for(auto&p:pts) p=rnd(p+V(20,-10,5));                                                               // far from the origin
    if(variant==7){ pts.clear(); int q=5+nx; for(int k=0;k<q;k++) pts.push_back(rnd(V(r.u(-1,1)*sc,r.u(-1,1)*sc,r.u(-1,1)*sc))); } // any points
    if(fault==1) for(auto&p:pts) p.z=0; // degenerate: flat point cloud
    if(fault==2) pts.resize(1+r.n(3));  // too few points
    if(fault==3) for(auto&p:pts) p=pts[0]; // all at one place
    if(fault==4) for(size_t k=0;k<pts.size();k++) pts[k]=V(0.25*k,0.5*k,0); // on a line
    m.pts=pts;
    fillV(pts); rp::VertexArray va(m.bufV.data(),(rp::uint32)vs,(rp::uint32)pts.size(),dbl?rp::VertexArray::DataType::VERTEX_DOUBLE_TYPE:rp::VertexArray::DataType::VERTEX_FLOAT_TYPE); m.cm=pc->createConvexMesh(va,msgs); if(!fault) m.truth.c=bruteHull(pts); if(!m.cm){ st["mesh_rejected"]++; if(!fault) check(false,"C15","a valid convex point cloud was rejected"); if(want("C15")&&fault) check(!msgs.empty(),"C15","a malformed point cloud was rejected without any message"); return false; } }
  else if(m.kind==1){ int n=std::max(3,std::min(nx,8)); double h=sc*r.u(0.4,1.0); std::vector<V> pts; for(int t=0;t<2;t++) for(int k=0;k<n;k++){ double a=2*M_PI*k/n; pts.push_back(rnd(V(sc*std::cos(a),t?h:-h,sc*std::sin(a)))); }
    std::vector<std::vector<int>> fs; std::vector<int> bot,top; for(int k=0;k<n;k++){ bot.push_back(k); top.push_back(n+n-1-k); } fs.push_back(bot); fs.push_back(top); for(int k=0;k<n;k++){ int q=(k+1)%n; fs.push_back({k,n+k,n+q,q}); }
    fillV(pts); std::vector<int> idx; for(auto&f:fs){ rp::PolygonVertexArray::PolygonFace pf; pf.nbVertices=(rp::uint32)f.size(); pf.indexBase=(rp::uint32)idx.size(); m.faces.push_back(pf); for(int q:f) idx.push_back(q); }
    if(fault==1) idx[1]=idx[0]; 
    if(fault==2) { m.faces[0].nbVertices=2; }
    if(fault==3) idx[r.n((int)idx.size())]=(int)pts.size()+r.n(50); // no such vertex
    if(fault==4) m.faces.pop_back();                                 // a hole
    if(fault==5) m.faces.push_back(m.faces[0]);                      // a face given twice
    if(fault==6) for(size_t a=m.faces[1].indexBase,b=a+m.faces[1].nbVertices-1;a<b;a++,b--) std::swap(idx[a],idx[b]); // one face inside out
    m.pts=pts; m.polys=fs;
    m.bufI.assign(is*idx.size()+8,0); for(size_t k=0;k<idx.size();k++) putI(m.bufI,k*is,sh,idx[k]);
    rp::PolygonVertexArray pa((rp::uint32)pts.size(),m.bufV.data(),(rp::uint32)vs,m.bufI.data(),(rp::uint32)is,(rp::uint32)m.faces.size(),m.faces.data(),dbl?rp::PolygonVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE:rp::PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE,sh?rp::PolygonVertexArray::IndexDataType::INDEX_SHORT_TYPE:rp::PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
    m.cm=pc->createConvexMesh(pa,msgs); m.truth.c.v=pts; for(auto&f:fs){ Face q; q.v=f; m.truth.c.f.push_back(q);} finish(m.truth.c); if(!m.cm){ st["mesh_rejected"]++; if(!fault) check(false,"C15","a valid convex polygon mesh was rejected"); if(want("C15")&&fault) check(!msgs.empty(),"C15","a malformed convex mesh was rejected without any message"); return false; } }
  else if(m.kind==2){ std::vector<V> pts; std::vector<std::array<int,3>> tr;
    if(variant==0){ nx=std::max(2,std::min(nx,8)); ny=std::max(2,std::min(ny,8)); std::vector<double> h; for(int k=0;k<nx*ny;k++) h.push_back(r.u(-0.25,0.25)*sc); triGrid(nx,ny,2.0*sc,h,pts,tr); }
    else if(variant==1){ for(int k=0;k<8;k++) pts.push_back(V((k&1?1:-1)*sc,(k&2?1:-1)*sc,(k&4?1:-1)*sc)); int q[6][4]={{0,1,5,4},{2,6,7,3},{0,4,6,2},{1,3,7,5},{0,2,3,1},{4,5,7,6}}; for(auto&f:q){ tr.push_back({f[0],f[1],f[2]}); tr.push_back({f[0],f[2],f[3]}); } }
    else if(variant==3){ nx=std::max(2,std::min(nx,8)); std::vector<double> h(nx*nx,0.0); triGrid(nx,nx,2.0*sc,h,pts,tr); size_t q=tr.size(); for(size_t k=0;k<q;k++) tr.push_back({tr[k][0],tr[k][2],tr[k][1]}); } // both sides
    else if(variant==4){ nx=std::max(3,std::min(nx,8)); std::vector<double> h; for(int k=0;k<nx*nx;k++) h.push_back(r.u(-0.25,0.25)*sc); triGrid(nx,nx,2.0*sc,h,pts,tr); std::vector<std::array<int,3>> keep; for(auto&t:tr) if(r.p(0.4)) keep.push_back(t); if(keep.size()<2) keep=tr; tr=keep; } // vertices nobody uses
    else { nx=std::max(2,std::min(nx,8)); std::vector<double> h(nx*nx,0.0); triGrid(nx,nx,2.0*sc,h,pts,tr); }
    for(auto&p:pts) p=rnd(p); if(fault==4) for(auto&p:pts) p=V(0,0,0); fillV(pts); size_t is3=3*is+((lay&16)?(sh?4:8):0); m.bufI.assign(is3*tr.size()+8,0x11); std::vector<V> nrm(pts.size()); for(auto&t:tr){ V n=cross(pts[t[1]]-pts[t[0]],pts[t[2]]-pts[t[0]]); for(int q:t) nrm[q]=nrm[q]+n; } for(auto&n:nrm) n=len(n)>1e-9?norm(n):V(0,1,0); if(lay&64) for(auto&n:nrm) n=V((float)n.x,(float)n.y,(float)n.z);
    m.pts=pts; m.tris=tr; if(fault==2) m.tris.erase(m.tris.begin()); if(lay&8) for(auto&n:nrm) m.nrms.push_back((lay&32)?n:V((float)n.x,(float)n.y,(float)n.z));
    if(fault==5&&(lay&8)) for(auto&n:nrm) n=V(0,0,0); // normals without direction
    for(size_t k=0;k<tr.size();k++) for(int q=0;q<3;q++) putI(m.bufI,k*is3+q*is,sh,tr[k][q]);
    if(fault==1) putI(m.bufI,is3+is,sh,(int)pts.size()+1000); // out of range index
    if(fault==2) putI(m.bufI,is,sh,tr[0][0]);                 // degenerate triangle
    if(fault==3) for(size_t k=0;k<tr.size();k++) putI(m.bufI,k*is3+2*is,sh,tr[k][0]); // nothing but degenerate triangles
    auto vt=dbl?rp::TriangleVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE:rp::TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE; auto it=sh?rp::TriangleVertexArray::IndexDataType::INDEX_SHORT_TYPE:rp::TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE;
    if(lay&8){ bool nd=lay&32; size_t ns=nd?24:12; m.bufN.assign(ns*nrm.size()+8,0); for(size_t k=0;k<nrm.size();k++) putV(m.bufN,k*ns,nd,nrm[k]);
      rp::TriangleVertexArray ta((rp::uint32)pts.size(),m.bufV.data(),(rp::uint32)vs,m.bufN.data(),(rp::uint32)ns,(rp::uint32)tr.size(),m.bufI.data(),(rp::uint32)is3,vt,nd?rp::TriangleVertexArray::NormalDataType::NORMAL_DOUBLE_TYPE:rp::TriangleVertexArray::NormalDataType::NORMAL_FLOAT_TYPE,it); m.tm=pc->createTriangleMesh(ta,msgs); }
    else { rp::TriangleVertexArray ta((rp::uint32)pts.size(),m.bufV.data(),(rp::uint32)vs,(rp::uint32)tr.size(),m.bufI.data(),(rp::uint32)is3,vt,it); m.tm=pc->createTriangleMesh(ta,msgs); }
    m.truth.concave=true; for(auto&t:tr) m.truth.t.push_back(Tri{pts[t[0]],pts[t[1]],pts[t[2]]});
    if(fault==2) m.truth.t.erase(m.truth.t.begin());
    if(!m.tm){ st["mesh_rejected"]++; if(!fault) check(false,"C15","a valid triangle mesh was rejected"); if(want("C15")&&fault) check(!msgs.empty(),"C15","a malformed triangle mesh was rejected without any message"); return false; } }
  else { nx=std::max(2,std::min(nx,9)); ny=std::max(2,std::min(ny,9)); std::vector<double> h; for(int k=0;k<nx*ny;k++) h.push_back(variant==1?0.0:variant==2?std::floor(r.u(-3,4)):r.u(-0.3,0.3)); bool ints=lay&32; double iscale=ints?0.125:1; if(lay&64) for(auto&q:h) q=std::lround(q/0.125)*0.125;
    if(ints){ m.bufV.assign(4*h.size()+8,0); for(size_t k=0;k<h.size();k++){ int q=(int)std::lround(h[k]/iscale); h[k]=q*iscale; memcpy(&m.bufV[4*k],&q,4);} }
    else if(dbl){ m.bufV.assign(8*h.size()+8,0); for(size_t k=0;k<h.size();k++){ h[k]=(dec)h[k]; memcpy(&m.bufV[8*k],&h[k],8);} }
    else { m.bufV.assign(4*h.size()+8,0); for(size_t k=0;k<h.size();k++){ float q=(float)h[k]; h[k]=q; memcpy(&m.bufV[4*k],&q,4);} }
    m.hts=h; m.nx=nx; m.ny=ny; int cx=nx,cy=ny; if(fault==1) cx=1; if(fault==2) cy=1; if(fault==3) cx=0; if(fault>=4) cy=-3;
    m.hf=pc->createHeightField(cx,cy,m.bufV.data(),ints?rp::HeightField::HeightDataType::HEIGHT_INT_TYPE:dbl?rp::HeightField::HeightDataType::HEIGHT_DOUBLE_TYPE:rp::HeightField::HeightDataType::HEIGHT_FLOAT_TYPE,msgs,(dec)iscale);
    if(!m.hf){ st["mesh_rejected"]++; if(!fault) check(false,"C15","a valid height field was rejected"); if(want("C15")&&fault) check(!msgs.empty(),"C15","a malformed height field was rejected without any message"); return false; }
    double mn=1e300,mx=-1e300; for(double q:h){ mn=std::min(mn,q); mx=std::max(mx,q);} double org=-(mx-mn)*0.5-mn; auto vx=[&](int i,int j){ return V(-(nx-1)*0.5+i,org+h[j*nx+i],-(ny-1)*0.5+j); };
    m.truth.concave=true; for(int i=0;i+1<nx;i++) for(int j=0;j+1<ny;j++){ V p1=vx(i,j),p2=vx(i,j+1),p3=vx(i+1,j),p4=vx(i+1,j+1); m.truth.t.push_back(Tri{p1,p2,p3}); m.truth.t.push_back(Tri{p3,p2,p4}); } }
  if(fault==5&&m.kind==2&&!(lay&8)) fault=0;
  if(fault) { m.truth.ok=false; st["mesh_fault_accepted"]++; if(want("C15")){ bool must=(m.kind==0&&fault<=4)||(m.kind==1&&fault<=6)||(m.kind==2&&fault!=2&&(fault!=5||(lay&8)))||m.kind==3; check(!must,"C15",fmt("a malformed mesh (kind %d, fault %d) was accepted",m.kind,fault)); if(fault==2&&m.kind==2) check(!msgs.empty(),"C15","a degenerate triangle was dropped without any message"); } }
  if(want("C15")&&(!fault||(m.kind==2&&fault==2))){ std::string e=checkMesh(m); check(e.empty(),"C15",e+" (at creation)"); st["mesh_checked"]++; }
  meshes[id]=std::move(m); // moving keeps the buffers the library saw at their addresses until SCRIBBLE overwrites or frees them
  return true; }

static Geo scaled(const Geo& a,V s){ Geo o=a; if(!a.concave){ for(auto&p:o.c.v) p=mul(p,s); finish(o.c);} else for(auto&t:o.t){ t.a=mul(t.a,s); t.b=mul(t.b,s); t.c=mul(t.c,s);} return o; }
Geo Sim::shapeGeo(int sid) const { const ShapeRec& s=shapes.at(sid); Geo o; auto F=[&](size_t k){ return (double)(dec)s.p[k]; };
  switch(s.kind){ case SPHERE: o.c.v={V()}; o.c.r=F(0); break; case CAPSULE: o.c.v={V(0,-F(1)*0.5,0),V(0,F(1)*0.5,0)}; o.c.e={{0,1}}; o.c.r=F(0); break;
    case BOX: { for(int k=0;k<8;k++) o.c.v.push_back(V((k&1?1:-1)*F(0),(k&2?1:-1)*F(1),(k&4?1:-1)*F(2))); int q[6][4]={{0,1,5,4},{2,6,7,3},{0,4,6,2},{1,3,7,5},{0,2,3,1},{4,5,7,6}}; for(auto&f:q){ Face ff; ff.v={f[0],f[1],f[2],f[3]}; o.c.f.push_back(ff);} finish(o.c); break; }
    default: o=scaled(meshes.at(s.mesh).truth,V(F(0),F(1),F(2))); }
  return o; }
Geo Sim::colGeo(int c) const { return xform(shapeGeo(cols.at(c).shape),colX(c)); }

// ---------------------------------------------------------------------------------------------------------------- joints
bool Sim::makeJoint(const Op& o){ // JOINT id type b1 b2 collide space corr lim motor | anchor1(3) anchor2(3) axis1(3) axis2(3) lo hi speed maxf
  int id=(int)o.I(0),type=(int)o.I(1),b1=(int)o.I(2),b2=(int)o.I(3); if(joints.count(id)||!bodies.count(b1)||!bodies.count(b2)||b1==b2) return false; BodyRec&A=bodies[b1]; BodyRec&B=bodies[b2]; if(A.world!=B.world) return false; bool local=o.I(5); bool lim=o.I(7),mot=o.I(8);
  JointRec j; j.world=A.world; j.type=type; j.b1=b1; j.b2=b2; j.collide=o.I(4); j.baum=o.I(6); X xa=GX(A.xf),xb=GX(B.xf); V p1(o.D(0),o.D(1),o.D(2)),p2(o.D(3),o.D(4),o.D(5)),u1=norm(V(o.D(6),o.D(7),o.D(8))),u2=norm(V(o.D(9),o.D(10),o.D(11)));
  if(o.I(5)==2){ local=false; p1=(xa.p+xb.p)*0.5+p1; }
  double lo=o.D(12),hi=o.D(13); j.lo=(dec)lo; j.hi=(dec)hi; j.speed=(dec)o.D(14); j.maxf=(dec)o.D(15);
  if(local){ j.a1=p1; j.a2=p2; j.ax1=u1; j.ax2=u2; } else { j.a1=app(inv(xa),p1); j.a2=app(inv(xb),p1); j.ax1=rot(qconj(xa.q),u1); j.ax2=rot(qconj(xb.q),u1); }
  j.q0=qmul(qconj(xa.q),xb.q);
  auto fin=[&](rp::JointInfo& i){ i.isCollisionEnabled=j.collide; i.positionCorrectionTechnique=o.I(6)?rp::JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS:rp::JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL; j.j=worlds[j.world].w->createJoint(i); };
  rp::RigidBody*ra=A.b,*rb=B.b;
  if(type==J_BALL){ if(local){ rp::BallAndSocketJointInfo i(ra,rb,RV(p1),RV(p2)); fin(i);} else { rp::BallAndSocketJointInfo i(ra,rb,RV(p1)); fin(i);} auto*bj=(rp::BallAndSocketJoint*)j.j; j.hi=(dec)std::fabs(hi); bj->setConeLimitHalfAngle((dec)j.hi); if(lim) bj->enableConeLimit(true); wake(A); wake(B); j.lim=lim; }
  else if(type==J_FIXED){ if(local){ rp::FixedJointInfo i(ra,rb,RV(p1),RV(p2)); fin(i);} else { rp::FixedJointInfo i(ra,rb,RV(p1)); fin(i);} }
  else if(type==J_HINGE){ if(local){ if(lim){ rp::HingeJointInfo i(ra,rb,RV(p1),RV(p2),RV(u1),RV(u2),(dec)lo,(dec)hi); i.isMotorEnabled=mot; i.motorSpeed=(dec)j.speed; i.maxMotorTorque=(dec)j.maxf; fin(i);} else { rp::HingeJointInfo i(ra,rb,RV(p1),RV(p2),RV(u1),RV(u2)); i.minAngleLimit=(dec)lo; i.maxAngleLimit=(dec)hi; i.isMotorEnabled=mot; i.motorSpeed=(dec)j.speed; i.maxMotorTorque=(dec)j.maxf; fin(i);} }
    else { rp::HingeJointInfo i(ra,rb,RV(p1),RV(u1)); i.isLimitEnabled=lim; i.minAngleLimit=(dec)lo; i.maxAngleLimit=(dec)hi; i.isMotorEnabled=mot; i.motorSpeed=(dec)j.speed; i.maxMotorTorque=(dec)j.maxf; fin(i);} j.lim=lim; j.motor=mot; }
  else { if(local){ rp::SliderJointInfo i(ra,rb,RV(p1),RV(p2),RV(u1)); i.isLimitEnabled=lim; i.minTranslationLimit=(dec)lo; i.maxTranslationLimit=(dec)hi; i.isMotorEnabled=mot; i.motorSpeed=(dec)j.speed; i.maxMotorForce=(dec)j.maxf; fin(i);} else { rp::SliderJointInfo i(ra,rb,RV(p1),RV(u1)); i.isLimitEnabled=lim; i.minTranslationLimit=(dec)lo; i.maxTranslationLimit=(dec)hi; i.isMotorEnabled=mot; i.motorSpeed=(dec)j.speed; i.maxMotorForce=(dec)j.maxf; fin(i);} j.lim=lim; j.motor=mot; }
  A.wakeMaybe=B.wakeMaybe=true; // creating a joint may wake its bodies
  joints[id]=j; pJoint[j.j]=id; A.joints.push_back(id); B.joints.push_back(id); return true; }

void Sim::removeCol(int id){ ColRec&c=cols[id]; pCol.erase(c.c); shapes[c.shape].uses--; auto&v=bodies[c.body].cols; v.erase(std::find(v.begin(),v.end(),id)); cols.erase(id); }
void Sim::removeJoint(int id){ JointRec&j=joints[id]; pJoint.erase(j.j); for(int b:{j.b1,j.b2}){ auto&v=bodies[b].joints; v.erase(std::find(v.begin(),v.end(),id)); } wake(bodies[j.b1]); wake(bodies[j.b2]); joints.erase(id); }
void Sim::removeBody(int id){ while(!bodies[id].cols.empty()) removeCol(bodies[id].cols.back()); while(!bodies[id].joints.empty()) removeJoint(bodies[id].joints.back()); pBody.erase(bodies[id].b); bodies.erase(id); }

// ---------------------------------------------------------------------------------------------------------------- queries
struct RC : public rp::RaycastCallback { Sim*s; int mode; rp::decimal notifyRaycastHit(const rp::RaycastInfo& i) override { Sim::Hit h; auto a=s->pCol.find(i.collider); auto b=s->pBody.find(i.body); h.col=a==s->pCol.end()?-1:a->second; h.body=b==s->pBody.end()?-1:b->second; h.f=i.hitFraction; h.p=GV(i.worldPoint); h.n=GV(i.worldNormal); h.tri=i.triangleIndex; s->hits.push_back(h); switch(mode){ case 0: return 1; case 1: return i.hitFraction; case 2: return 0; case 3: return -1; default: return (h.col%2)?dec(-1):i.hitFraction; } } };
struct OC : public rp::OverlapCallback { Sim*s; void onOverlap(CallbackData& d) override { for(rp::uint32 i=0;i<d.getNbOverlappingPairs();i++){ auto p=d.getOverlappingPair(i); Ev e; e.trig=true; e.kind=0; auto id=[&](std::map<const void*,int>&m,const void*q){ auto it=m.find(q); return it==m.end()?-1:it->second; }; e.c1=id(s->pCol,p.getCollider1()); e.c2=id(s->pCol,p.getCollider2()); e.b1=id(s->pBody,p.getBody1()); e.b2=id(s->pBody,p.getBody2()); s->qev.push_back(e);} } };
struct CC : public rp::CollisionCallback { Sim*s; void onContact(const CallbackData& d) override { for(rp::uint32 i=0;i<d.getNbContactPairs();i++){ auto p=d.getContactPair(i); Ev e; e.trig=false; e.kind=0; auto id=[&](std::map<const void*,int>&m,const void*q){ auto it=m.find(q); return it==m.end()?-1:it->second; }; e.c1=id(s->pCol,p.getCollider1()); e.c2=id(s->pCol,p.getCollider2()); e.b1=id(s->pBody,p.getBody1()); e.b2=id(s->pBody,p.getBody2()); for(rp::uint32 k=0;k<p.getNbContactPoints();k++){ auto c=p.getContactPoint(k); e.pts.push_back(CP{GV(c.getLocalPointOnCollider1()),GV(c.getLocalPointOnCollider2()),GV(c.getWorldNormal()),(double)c.getPenetrationDepth()}); } s->qev.push_back(e);} } };
void Sim::doQuery(const Op& o){ hits.clear(); qev.clear(); qres=false;
  rp::Vector3 base(0,0,0); auto relB=[&](int b){ auto it=bodies.find(b); if(it!=bodies.end()) base=it->second.xf.getPosition(); };
  if(o.k==RAY){ if(o.I(3)>0) relB((int)o.I(3)-1); } else if(o.k==BRAY||o.k==PTIN||o.k==AABBQ){ if(o.I(1)) relB((int)o.I(0)); } else if(o.k==CRAY||o.k==CPTIN){ if(o.I(1)) base=(bodies.at(cols.at((int)o.I(0)).body).xf*cols.at((int)o.I(0)).xf).getPosition(); }
  // rays aimed exactly at a vertex or at the middle of an edge of a mesh
  { long vs=o.k==RAY?o.I(4):(o.k==BRAY||o.k==CRAY)?o.I(2):0; if(vs>0){ std::vector<int> cs; if(o.k==CRAY) cs={(int)o.I(0)}; else { auto it=bodies.find(o.k==BRAY?(int)o.I(0):(int)o.I(3)-1); if(it!=bodies.end()) cs=it->second.cols; }
    for(int c:cs){ g::Geo gg=shapeGeo(cols.at(c).shape); if(!gg.concave||gg.t.empty()) continue; const g::Tri& t=gg.t[(vs/4)%gg.t.size()]; g::V a=vs%4==0?t.a:vs%4==1?t.b:vs%4==2?(t.a+t.b)*0.5:(t.b+t.c)*0.5; base=bodies.at(cols.at(c).body).xf*(cols.at(c).xf*RV(a)); break; } } }
  qbase=base; auto ray=[&](size_t k){ return rp::Ray(RV(o,k)+base,RV(o,k+3)+base,(dec)(o.D(k+6)>0?o.D(k+6):1)); };
  auto put=[&](bool h,const rp::RaycastInfo& i){ qres=h; if(h){ Hit x; auto a=pCol.find(i.collider); auto b=pBody.find(i.body); x.col=a==pCol.end()?-1:a->second; x.body=b==pBody.end()?-1:b->second; x.f=i.hitFraction; x.p=GV(i.worldPoint); x.n=GV(i.worldNormal); x.tri=i.triangleIndex; hits.push_back(x);} };
  struct AtEnd { Sim*s; ~AtEnd(){ for(auto&h:s->hits){ s->qh.i(h.col); s->qh.i(h.body); s->qh.f(h.f); s->qh.b(&h.p,24); s->qh.b(&h.n,24); s->qh.i(h.tri);} for(auto&e:s->qev){ s->qh.i(e.c1); s->qh.i(e.c2); for(auto&p:e.pts){ s->qh.b(&p.l1,24); s->qh.b(&p.n,24); s->qh.f(p.depth);} } s->qh.i(s->qres); } } atEnd{this};
  switch(o.k){
   case RAY: { RC c; c.s=this; c.mode=(int)o.I(2); worlds[o.I(0)].w->raycast(ray(0),&c,(unsigned short)o.I(1)); break; }
   case BRAY: { rp::RaycastInfo i; bool h=bodies[o.I(0)].b->raycast(ray(0),i); put(h,i); break; }
   case CRAY: { rp::RaycastInfo i; bool h=cols[o.I(0)].c->raycast(ray(0),i); put(h,i); break; }
   case PTIN: qres=bodies[o.I(0)].b->testPointInside(RV(o,0)+base); break;
   case CPTIN: qres=cols[o.I(0)].c->testPointInside(RV(o,0)+base); break;
   case OVL: { OC c; c.s=this; auto*w=worlds[o.I(0)].w; if(o.I(1)==0) qres=w->testOverlap(bodies[o.I(2)].b,bodies[o.I(3)].b); else if(o.I(1)==1) w->testOverlap(bodies[o.I(2)].b,c); else w->testOverlap(c); break; }
   case COLLQ: { CC c; c.s=this; auto*w=worlds[o.I(0)].w; if(o.I(1)==0) w->testCollision(bodies[o.I(2)].b,bodies[o.I(3)].b,c); else if(o.I(1)==1) w->testCollision(bodies[o.I(2)].b,c); else w->testCollision(c); break; }
   case AABBQ: { rp::AABB bb(RV(o,0)+base,RV(o,3)+base); qres=bodies[o.I(0)].b->testAABBOverlap(bb); break; }
  } }
struct HashView { Hash h; };
// C22: one hash per group of objects (ids c*10000 ...). A group is tainted from the moment on where the order in which the solver handles its constraints can depend on other groups.
void Sim::hashCells(){ std::map<int,Hash> hs,os; std::map<int,std::map<std::array<int,4>,double>> evs; std::map<int,std::set<std::pair<int,int>>> solved; std::map<int,std::map<int,int>> jt; auto v3=[](Hash&h,const rp::Vector3& v){ h.f(v.x);h.f(v.y);h.f(v.z); };
  for(auto&k:bodies){ Hash&h=hs[k.first/10000]; rp::RigidBody*b=k.second.b; h.i(k.first); const rp::Transform& t=b->getTransform(); v3(h,t.getPosition()); h.f(t.getOrientation().x);h.f(t.getOrientation().y);h.f(t.getOrientation().z);h.f(t.getOrientation().w); v3(h,b->getLinearVelocity()); v3(h,b->getAngularVelocity()); h.i(b->isSleeping()); h.i(b->isActive()); h.i((int)b->getType()); h.i(b->isGravityEnabled()); h.i(b->isAllowedToSleep()); v3(h,b->getForce()); v3(h,b->getTorque()); h.f(b->getMass()); h.f(b->getLinearDamping()); h.f(b->getAngularDamping()); v3(h,b->getLinearLockAxisFactor()); v3(h,b->getAngularLockAxisFactor()); v3(h,b->getLocalInertiaTensor()); v3(h,b->getLocalCenterOfMass()); h.i(b->getNbColliders()); rp::AABB bb=b->getAABB(); v3(h,bb.getMin()); v3(h,bb.getMax()); }
  for(auto&k:cols){ Hash&h=hs[k.first/10000]; rp::Collider*c=k.second.c; h.i(k.first); h.i(c->getIsTrigger()); h.i(c->getCollisionCategoryBits()); h.i(c->getCollideWithMaskBits()); h.f(c->getMaterial().getFrictionCoefficient()); h.f(c->getMaterial().getBounciness()); const rp::Transform& t=c->getLocalToWorldTransform(); v3(h,t.getPosition()); h.f(t.getOrientation().x);h.f(t.getOrientation().w); }
  for(auto&k:joints){ Hash&h=hs[k.first/10000]; h.i(k.first); v3(h,k.second.j->getReactionForce(dec(0.01))); v3(h,k.second.j->getReactionTorque(dec(0.01))); switch(k.second.type){ case J_BALL: { auto*j=static_cast<rp::BallAndSocketJoint*>(k.second.j); h.i(j->isConeLimitEnabled()); h.f(j->getConeLimitHalfAngle()); h.f(j->getConeHalfAngle()); break; } case J_HINGE: { auto*j=static_cast<rp::HingeJoint*>(k.second.j); h.i(j->isLimitEnabled()); h.i(j->isMotorEnabled()); h.f(j->getMinAngleLimit()); h.f(j->getMaxAngleLimit()); h.f(j->getMotorSpeed()); h.f(j->getMaxMotorTorque()); h.f(j->getMotorTorque(dec(0.01))); h.f(j->getAngle()); break; } case J_SLIDER: { auto*j=static_cast<rp::SliderJoint*>(k.second.j); h.i(j->isLimitEnabled()); h.i(j->isMotorEnabled()); h.f(j->getMinTranslationLimit()); h.f(j->getMaxTranslationLimit()); h.f(j->getMotorSpeed()); h.f(j->getMaxMotorForce()); h.f(j->getMotorForce(dec(0.01))); h.f(j->getTranslation()); break; } default: break; } if(++jt[k.first/10000][k.second.type]>1) solved[k.first/10000].insert({-1,-1}), solved[k.first/10000].insert({-2,-2}); }
  std::vector<Ev*> ev; for(auto&e:events) ev.push_back(&e); std::stable_sort(ev.begin(),ev.end(),[](Ev*a,Ev*b){ return std::make_tuple(a->trig,std::min(a->c1,a->c2),std::max(a->c1,a->c2))<std::make_tuple(b->trig,std::min(b->c1,b->c2),std::max(b->c1,b->c2)); });
  for(Ev* e:ev){ int c=e->c1/10000,d=e->c2/10000; if(c!=d){ for(int q:{c,d}){ solved[q].insert({-1,-1}); solved[q].insert({-2,-2}); } continue; } Hash&h=hs[c]; h.i(e->trig*8+e->kind); h.i(std::min(e->c1,e->c2)); h.i(std::max(e->c1,e->c2)); double&dp=evs[c][{(int)e->trig,(int)e->kind,std::min(e->c1,e->c2),std::max(e->c1,e->c2)}]; dp=0; for(auto&p:e->pts) dp=std::max(dp,(double)p.depth); if(!e->trig){ os[c].i(e->c1); os[c].i(e->c2); solved[c].insert({e->c1,e->c2}); for(auto&p:e->pts){ h.b(&p.l1,24);h.b(&p.l2,24);h.b(&p.n,24);h.f(p.depth);} } }
  for(auto&k:cells){ CellRec r; r.ev=evs[k.first]; r.h=hs[k.first].h; r.ord=os[k.first].h; r.taint=solved[k.first].size()>1||(!k.second.empty()&&k.second.back().taint); k.second.push_back(r); } }
void Sim::hashWorld(int wid){ Hash h; WorldRec& w=worlds[wid]; auto v3=[&](const rp::Vector3& v){ h.f(v.x);h.f(v.y);h.f(v.z); };
  for(auto&k:bodies) if(k.second.world==wid){ rp::RigidBody*b=k.second.b; h.i(k.first); const rp::Transform& t=b->getTransform(); v3(t.getPosition()); h.f(t.getOrientation().x);h.f(t.getOrientation().y);h.f(t.getOrientation().z);h.f(t.getOrientation().w); v3(b->getLinearVelocity()); v3(b->getAngularVelocity()); h.i(b->isSleeping()); h.i(b->isActive()); v3(b->getForce()); v3(b->getTorque()); h.f(b->getMass()); v3(b->getLocalInertiaTensor()); v3(b->getLocalCenterOfMass()); }
  for(auto&k:joints) if(k.second.world==wid){ h.i(k.first); v3(k.second.j->getReactionForce(dec(0.01))); v3(k.second.j->getReactionTorque(dec(0.01))); }
  if(hashQueries) h.i((long long)qh.h);
  if(w.listening&&keepListener&&hashEvents) for(auto&e:events){ h.i(e.trig*8+e.kind); h.i(e.c1);h.i(e.c2);h.i(e.b1);h.i(e.b2); for(auto&p:e.pts){ h.b(&p.l1,24);h.b(&p.l2,24);h.b(&p.n,24);h.f(p.depth);} }
  w.hashes.push_back(h.h); }
void Sim::syncAfterUpdate(int wid){ for(auto&k:bodies) if(k.second.world==wid){ BodyRec&b=k.second; b.F=b.T=rp::Vector3(0,0,0); b.fFuzzy=false; b.xf=b.b->getTransform(); b.v=b.b->getLinearVelocity(); b.w=b.b->getAngularVelocity(); b.vtol=0; b.sleeping=b.b->isSleeping(); b.wakeMaybe=false; } }
void Sim::teardown(){ checkers.clear(); if(logger){ pc->destroyDefaultLogger(logger); logger=nullptr; rp::PhysicsCommon::setLogger(nullptr);} pc.reset(); }

thread_local Hash gHist;
bool gDirect=false; long long gDirectBytes=0, gFrameBlocks=0; std::string gDirectErr;
bool Sim::exec(const Op& o){ for(auto&c:checkers) c->preOp(o); events.clear(); pending.clear(); bool ok=false; if(!(gate&&step<(int)gate->size()&&!(*gate)[step]&&(o.k==DELSHAPE||o.k==DELMESH))&&!(onlyWorld>=0&&(o.k==WORLD||o.k==DELWORLD)&&o.I(0)!=onlyWorld)) ok=apply(o); done.resize(step+1); done[step]=ok; if(ok){ st[std::string("op_")+kindName(o.k)]++; gHist.i(o.k); if(o.k==UPDATE){ for(auto&e:events){ gHist.i(e.trig*8+e.kind); gHist.i(e.c1*1000+e.c2); } for(auto&k:bodies) gHist.i(k.second.b->isSleeping()); } for(auto&c:checkers) c->postOp(o); if(mem&&!mem->error.empty()) check(false,"C04",mem->error); if(!gDirectErr.empty()) check(false,"C04",gDirectErr); } return ok; }
#define NEEDB(id) auto bi=bodies.find((int)o.I(id)); if(bi==bodies.end()) return false; BodyRec& b=bi->second; (void)b
#define NEEDC(id) auto ci=cols.find((int)o.I(id)); if(ci==cols.end()) return false; ColRec& c=ci->second; (void)c
#define NEEDW(id) auto wi=worlds.find((int)o.I(id)); if(wi==worlds.end()) return false; WorldRec& w=wi->second; (void)w
#define NEEDJ(id) auto ji=joints.find((int)o.I(id)); if(ji==joints.end()) return false; JointRec& j=ji->second; (void)j
void Sim::run(const Trace& t){ size_t mark=0; try { for(size_t k=0;k<t.size();k++){ step=(int)k; if(t[k].k==MARK) mark=k+1; if(t[k].k==CYCLE) cycle(t,mark,k,(int)t[k].I(0)); else exec(t[k]); } } catch(Quiet&){ return; } finishAll(); }
// repeats a self-contained piece of history; once the working set has been seen often enough the memory in use must not grow any more
void Sim::cycle(const Trace& t,size_t from,size_t to,int n){ std::vector<long long> b, base; for(int c=0;c<n;c++){ for(size_t k=from;k<to;k++){ step=(int)k; exec(t[k]); } b.push_back(gDirectBytes); base.push_back((long long)mem->liveBytes); } step=(int)to; st["cycles"]+=n; if(n<30) return;
  auto mx=[&](std::vector<long long>& v,int a,int e){ long long m=0; for(int k=a;k<e;k++) m=std::max(m,v[k]); return m; };
  long long m1=mx(b,n/3,2*n/3), m2=mx(b,2*n/3,n), a1=mx(base,n/3,2*n/3), a2=mx(base,2*n/3,n); st["max_cycle_bytes"]=std::max(st["max_cycle_bytes"],m2); st["max_base_growth"]=std::max(st["max_base_growth"],a2-a1);
  check(!(gDirect&&m2>m1),"C04",fmt("the memory in use keeps growing although the same objects are created and destroyed again and again: %lld bytes after cycle %d, %lld bytes after cycle %d",m1,2*n/3,m2,n)); }
bool Sim::apply(const Op& o){
  switch(o.k){
  case CLEAR: { Rng r((u64)o.I(1)+1); int mode=(int)o.I(0); auto keys=[&](auto& m){ std::vector<int> v; for(auto&k:m) v.push_back(k.first); for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[r.n((int)i)]); return v; };
    if(mode&1) for(int x:keys(joints)) if(joints.count(x)&&r.p(0.7)) apply(Op(DELJOINT,{x})); if(mode&2) for(int x:keys(cols)) if(cols.count(x)&&r.p(0.5)) apply(Op(DELCOLL,{x}));
    if(!(mode&8)) for(int x:keys(bodies)) apply(Op(DELBODY,{x})); if(mode&8) for(int x:keys(worlds)) apply(Op(DELWORLD,{x}));
    if(mode&4){ for(int x:keys(shapes)) apply(Op(DELSHAPE,{x})); for(int x:keys(meshes)) apply(Op(DELMESH,{x})); } return true; }
  case WORLD: { int id=(int)o.I(0); if(worlds.count(id)) return false; rp::PhysicsWorld::WorldSettings s; s.gravity=RV(o,0); s.defaultFrictionCoefficient=(dec)o.D(3); s.defaultBounciness=(dec)o.D(4); s.restitutionVelocityThreshold=(dec)o.D(5); s.isSleepingEnabled=o.I(1); s.defaultVelocitySolverNbIterations=(rp::uint16)o.I(2); s.defaultPositionSolverNbIterations=(rp::uint16)o.I(3); s.defaultSleepLinearVelocity=(dec)o.D(6); s.defaultSleepAngularVelocity=(dec)o.D(7); s.defaultTimeBeforeSleep=(dec)o.D(8);
    WorldRec w; w.w=pc->createPhysicsWorld(s); w.lst.reset(new Lst); w.lst->s=this; w.lst->world=id; w.sleepEn=o.I(1); w.g=s.gravity; w.sl=s.defaultSleepLinearVelocity; w.sa=s.defaultSleepAngularVelocity; w.ts=s.defaultTimeBeforeSleep; w.itv=(int)o.I(2); w.itp=(int)o.I(3); w.dfric=s.defaultFrictionCoefficient; w.dbounce=s.defaultBounciness; w.restThr=s.restitutionVelocityThreshold; w.listening=true; if(keepListener) w.w->setEventListener(w.lst.get()); worlds.emplace(id,std::move(w)); return true; }
  case DELWORLD: { NEEDW(0); std::vector<int> bs; for(auto&k:bodies) if(k.second.world==(int)o.I(0)) bs.push_back(k.first); pc->destroyPhysicsWorld(w.w); for(int x:bs) removeBody(x); worlds.erase(wi); return true; }
  case WGRAV: { NEEDW(0); w.g=RV(o,0); w.w->setGravity(w.g); return true; }
  case WGRAVEN: { NEEDW(0); w.grav=o.I(1); w.w->setIsGravityEnabled(w.grav); return true; }
  case WSLEEPEN: { NEEDW(0); w.sleepEn=o.I(1); w.w->enableSleeping(w.sleepEn); if(!w.sleepEn) for(auto&k:bodies) if(k.second.world==(int)o.I(0)) wake(k.second); return true; }
  case WSLEEPLIN: { NEEDW(0); w.sl=(dec)o.D(0); w.w->setSleepLinearVelocity(w.sl); return true; }
  case WSLEEPANG: { NEEDW(0); w.sa=(dec)o.D(0); w.w->setSleepAngularVelocity(w.sa); return true; }
  case WTIMESLEEP: { NEEDW(0); w.ts=(dec)o.D(0); w.w->setTimeBeforeSleep(w.ts); return true; }
  case WITV: { NEEDW(0); w.itv=(int)o.I(1); w.w->setNbIterationsVelocitySolver((rp::uint16)w.itv); return true; }
  case WITP: { NEEDW(0); w.itp=(int)o.I(1); w.w->setNbIterationsPositionSolver((rp::uint16)w.itp); return true; }
  case WCORR: { NEEDW(0); w.split=o.I(1); w.w->setContactsPositionCorrectionTechnique(o.I(1)?rp::ContactsPositionCorrectionTechnique::SPLIT_IMPULSES:rp::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS); return true; }
  case LISTENER: { if(!observe) return false; NEEDW(0); w.listening=o.I(1); if(keepListener) w.w->setEventListener(w.listening?w.lst.get():nullptr); return true; }
  case DEBUG: { if(!observe) return false; NEEDW(0); w.debug=o.I(1); w.w->setIsDebugRenderingEnabled(w.debug); auto&d=w.w->getDebugRenderer(); long dm=o.i.size()>2?o.I(2):63; for(int k=0;k<6;k++) d.setIsDebugItemDisplayed((rp::DebugRenderer::DebugItem)(1<<k),w.debug&&(dm>>k&1)); if(o.d.size()>1){ d.setContactPointSphereRadius((dec)o.D(0)); d.setContactNormalLength((dec)o.D(1)); } if(o.i.size()>3) return true; for(auto&k:bodies) if(k.second.world==(int)o.I(0)){ k.second.debug=w.debug; k.second.b->setIsDebugEnabled(w.debug);} return true; }
  case UPDATE: { NEEDW(0); double dt=o.D(0); if(!(dt>0)) return false; int wid=(int)o.I(0); for(auto&c:checkers) c->preUpdate(wid,dt); events.clear(); pending.clear(); w.w->update((dec)dt); w.updates++; if(FILE* tf=getenv("SIMTRACE")?fopen(getenv("SIMTRACE"),"a"):nullptr) { for(auto&k:bodies) if(k.second.world==wid){ auto q=k.second.b->getTransform(); auto v=k.second.b->getLinearVelocity(); auto a=k.second.b->getAngularVelocity(); fprintf(tf,"%d b%d p %g %g %g v %g %g %g w %g %g %g\n",step,k.first,q.getPosition().x,q.getPosition().y,q.getPosition().z,v.x,v.y,v.z,a.x,a.y,a.z); } if(getenv("SIMTRACE_C")) for(auto&e:events) for(auto&q:e.pts) fprintf(tf,"%d C %d-%d kind %d depth %g n %g %g %g l1 %g %g %g l2 %g %g %g\n",step,e.b1,e.b2,e.kind,q.depth,q.n.x,q.n.y,q.n.z,q.l1.x,q.l1.y,q.l1.z,q.l2.x,q.l2.y,q.l2.z); for(auto&k:joints) if(k.second.world==wid){ if(k.second.type==J_HINGE) fprintf(tf,"%d j%d angle %g\n",step,k.first,(double)((rp::HingeJoint*)k.second.j)->getAngle()); if(k.second.type==J_SLIDER) fprintf(tf,"%d j%d translation %g\n",step,k.first,(double)((rp::SliderJoint*)k.second.j)->getTranslation()); } fclose(tf); }  w.time+=dt; simTime+=dt; st["updates"]++; if(guardDiverged){ for(auto&k:bodies) if(k.second.world==wid){ V v=GV(k.second.b->getLinearVelocity()),a=GV(k.second.b->getAngularVelocity()); if(!(len(v)<500)||!(len(a)<500)){ st["diverged_runs"]++; throw Quiet(); } } } st["events"]+=(long long)events.size(); if(!pending.empty()) { if(want("C06")) fail("C06",pending); }
    for(auto&c:checkers) c->postUpdate(wid,dt); syncAfterUpdate(wid); if(hashing) hashWorld(wid); if(!cells.empty()) hashCells(); return true; }
  case MESH: return buildMesh(o);
  case DELMESH: { auto mi=meshes.find((int)o.I(0)); if(mi==meshes.end()||mi->second.uses) return false; if(mi->second.cm) pc->destroyConvexMesh(mi->second.cm); if(mi->second.tm) pc->destroyTriangleMesh(mi->second.tm); if(mi->second.hf) pc->destroyHeightField(mi->second.hf); meshes.erase(mi); return true; }
  case SHAPE: { int id=(int)o.I(0); if(shapes.count(id)) return false; ShapeRec s; s.kind=(int)o.I(1); s.mesh=(int)o.I(2); s.p=o.d; if(s.p.size()<3) s.p.resize(3,1.0); auto mesh=[&]()->MeshRec*{ auto m=meshes.find(s.mesh); return m==meshes.end()?nullptr:&m->second; };
    switch(s.kind){ case SPHERE: s.s=pc->createSphereShape((dec)s.p[0]); break; case CAPSULE: s.s=pc->createCapsuleShape((dec)s.p[0],(dec)s.p[1]); break; case BOX: s.s=pc->createBoxShape(RV(o,0)); break;
      case CONVEX: { auto*m=mesh(); if(!m||!m->cm||!m->truth.ok) return false; s.s=pc->createConvexMeshShape(m->cm,RV(s.p[0],s.p[1],s.p[2])); m->uses++; break; }
      case TRIMESH: { auto*m=mesh(); if(!m||!m->tm) return false; s.s=pc->createConcaveMeshShape(m->tm,RV(s.p[0],s.p[1],s.p[2])); m->uses++; break; }
      case HFIELD: { auto*m=mesh(); if(!m||!m->hf) return false; s.s=pc->createHeightFieldShape(m->hf,RV(s.p[0],s.p[1],s.p[2])); m->uses++; break; } default: return false; }
    shapes[id]=s; return true; }
  case DELSHAPE: { auto si=shapes.find((int)o.I(0)); if(si==shapes.end()||si->second.uses) return false; auto*s=si->second.s; switch(si->second.kind){ case SPHERE: pc->destroySphereShape((rp::SphereShape*)s); break; case CAPSULE: pc->destroyCapsuleShape((rp::CapsuleShape*)s); break; case BOX: pc->destroyBoxShape((rp::BoxShape*)s); break; case CONVEX: pc->destroyConvexMeshShape((rp::ConvexMeshShape*)s); break; case TRIMESH: pc->destroyConcaveMeshShape((rp::ConcaveMeshShape*)s); break; default: pc->destroyHeightFieldShape((rp::HeightFieldShape*)s);} if(si->second.mesh>=0&&si->second.kind>=CONVEX) meshes[si->second.mesh].uses--; shapes.erase(si); return true; }
  case RESIZE: { auto si=shapes.find((int)o.I(0)); if(si==shapes.end()) return false; ShapeRec&s=si->second; s.p=o.d; if(s.p.size()<3) s.p.resize(3,1.0); rp::Vector3 v=RV(s.p[0],s.p[1],s.p[2]); switch(s.kind){ case SPHERE: ((rp::SphereShape*)s.s)->setRadius(v.x); break; case CAPSULE: ((rp::CapsuleShape*)s.s)->setRadius(v.x); ((rp::CapsuleShape*)s.s)->setHeight(v.y); break; case BOX: ((rp::BoxShape*)s.s)->setHalfExtents(v); break; case CONVEX: ((rp::ConvexMeshShape*)s.s)->setScale(v); break; case TRIMESH: ((rp::ConcaveMeshShape*)s.s)->setScale(v); break; default: ((rp::HeightFieldShape*)s.s)->setScale(v);} return true; }
  case RAYSIDE: { auto si=shapes.find((int)o.I(0)); if(si==shapes.end()||si->second.convex()) return false; int k=(int)o.I(1); si->second.side=k; ((rp::ConcaveShape*)si->second.s)->setRaycastTestType(k==0?rp::TriangleRaycastSide::FRONT:k==1?rp::TriangleRaycastSide::BACK:rp::TriangleRaycastSide::FRONT_AND_BACK); return true; }
  case BODY: { NEEDW(1); int id=(int)o.I(0); if(bodies.count(id)) return false; BodyRec r; r.world=(int)o.I(1); r.xf=RX(o,0); r.b=w.w->createRigidBody(r.xf); r.v=r.w=r.F=r.T=rp::Vector3(0,0,0); r.I=rp::Vector3(1,1,1); r.com=rp::Vector3(0,0,0); r.ll=r.al=rp::Vector3(1,1,1); int t=(int)o.I(2); if(t!=T_DYN){ r.b->setType(BT(t)); r.type=t; } pBody[r.b]=id; bodies[id]=r; return true; }
  case DELBODY: { NEEDB(0); neighbours((int)o.I(0)); worlds[b.world].w->destroyRigidBody(b.b); removeBody((int)o.I(0)); return true; }
  case COLL: { NEEDB(1); int id=(int)o.I(0); auto si=shapes.find((int)o.I(2)); if(cols.count(id)||si==shapes.end()) return false; if(!si->second.convex()&&b.type==T_DYN) return false; ColRec c; c.body=(int)o.I(1); c.shape=(int)o.I(2); c.xf=RX(o,0); c.fric=worlds[b.world].dfric; c.bounce=worlds[b.world].dbounce; c.c=b.b->addCollider(si->second.s,c.xf); si->second.uses++; b.cols.push_back(id); pCol[c.c]=id; cols[id]=c; return true; }
  case DELCOLL: { NEEDC(0); BodyRec&b=bodies[c.body]; neighbours(c.body); b.b->removeCollider(c.c); removeCol((int)o.I(0)); return true; }
  case SETXF: { NEEDB(0); rp::Transform t=RX(o,1-1); V oc=app(GX(b.xf),GV(b.com)); b.b->setTransform(t); b.xf=t; shiftVel(b,oc,app(GX(t),GV(b.com))); wake(b); return true; }
  case SETVEL: { NEEDB(0); rp::Vector3 v=RV(o,0); b.b->setLinearVelocity(v); if(b.type!=T_STATIC){ b.v=v; b.vtol=0; if(v.lengthSquare()>dec(0)) wake(b);} return true; }
  case SETANG: { NEEDB(0); rp::Vector3 v=RV(o,0); b.b->setAngularVelocity(v); if(b.type!=T_STATIC){ b.w=v; if(v.lengthSquare()>dec(0)) wake(b);} return true; }
  case SETTYPE: { NEEDB(0); int t=(int)o.I(1); if(t==T_DYN&&hasConcave((int)o.I(0))) return false; b.b->setType(BT(t)); if(t!=b.type){ bool wasStatic=b.type==T_STATIC; b.type=t; if(t==T_STATIC){ b.v=b.w=rp::Vector3(0,0,0); b.vtol=0; b.sleeping=false; } else if(b.active) b.sleeping=false; else b.sleeping=true; (void)wasStatic; b.F=b.T=rp::Vector3(0,0,0); b.fFuzzy=false; } return true; }
  case ACTIVE: { NEEDB(0); bool on=o.I(1); if(on!=b.active){ if(!on) neighbours((int)o.I(0)); } b.b->setIsActive(on); if(on!=b.active){ if(!on){ if(b.type!=T_STATIC){ b.sleeping=true; b.v=b.w=b.F=b.T=rp::Vector3(0,0,0); b.vtol=0; b.fFuzzy=false; } b.active=false; } else { b.active=true; b.sleeping=false; } } return true; }
  case SLEEP: { NEEDB(0); bool on=o.I(1); if(!b.active) return false; b.b->setIsSleeping(on); if(on) sleep(b); else wake(b); return true; }
  case ALLOWSLEEP: { NEEDB(0); b.allow=o.I(1); b.b->setIsAllowedToSleep(b.allow); if(!b.allow) wake(b); return true; }
  case GRAVEN: { NEEDB(0); b.grav=o.I(1); b.b->enableGravity(b.grav); return true; }
  case LDAMP: { NEEDB(0); b.ld=(dec)o.D(0); b.b->setLinearDamping(b.ld); return true; }
  case ADAMP: { NEEDB(0); b.ad=(dec)o.D(0); b.b->setAngularDamping(b.ad); return true; }
  case LLOCK: { NEEDB(0); b.ll=RV(o,0); b.b->setLinearLockAxisFactor(b.ll); return true; }
  case ALOCK: { NEEDB(0); b.al=RV(o,0); b.b->setAngularLockAxisFactor(b.al); return true; }
  case MASS: { NEEDB(0); dec m=(dec)o.D(0); b.b->setMass(m); if(m>=dec(0)){ b.mass=m; b.massFuzzy=false; } return true; }
  case INERTIA: { NEEDB(0); b.I=RV(o,0); b.inertFuzzy=false; b.b->setLocalInertiaTensor(b.I); return true; }
  case COM: { NEEDB(0); V oc=app(GX(b.xf),GV(b.com)); b.com=RV(o,0); b.comFuzzy=false; b.b->setLocalCenterOfMass(b.com); shiftVel(b,oc,app(GX(b.xf),GV(b.com))); return true; }
  case UPDMASS: { NEEDB(0); int which=(int)o.I(1); if(b.cols.empty()&&prop!="C05") return false; // a body without mass is outside what the other properties speak about
      V oc=app(GX(b.xf),GV(b.com));
      double tm=0; V cm; for(int c:b.cols){ double m=(double)shapes[cols[c].shape].s->getVolume()*(double)cols[c].dens; tm+=m; cm=cm+m*GV(cols[c].xf.getPosition()); } if(tm>0) cm=cm*(1/tm);
      if(which==0||which==1){ b.com=RV(cm); b.comFuzzy=true; }
      V in; { double T[3]={0,0,0}; V lc=GV(b.com); for(int c:b.cols){ double m=(double)shapes[cols[c].shape].s->getVolume()*(double)cols[c].dens; V li=GV(shapes[cols[c].shape].s->getLocalInertiaTensor((dec)m)); X x=GX(cols[c].xf); V ax[3]={rot(x.q,V(1,0,0)),rot(x.q,V(0,1,0)),rot(x.q,V(0,0,1))}; V off=x.p-lc; for(int k=0;k<3;k++){ double s=0; for(int q=0;q<3;q++) s+=ax[q][k]*ax[q][k]*li[q]; T[k]+=s+m*(len2(off)-off[k]*off[k]); } } in=V(T[0],T[1],T[2]); }
      switch(which){ case 0: b.b->updateMassPropertiesFromColliders(); b.mass=(dec)tm; b.I=RV(in); b.massFuzzy=b.inertFuzzy=true; if(b.type==T_DYN) shiftVel(b,oc,app(GX(b.xf),GV(b.com))); break; case 1: b.b->updateLocalCenterOfMassFromColliders(); shiftVel(b,oc,app(GX(b.xf),GV(b.com))); break; case 2: b.b->updateLocalInertiaTensorFromColliders(); b.I=RV(in); b.inertFuzzy=true; break; default: b.b->updateMassFromColliders(); b.mass=(dec)tm; b.massFuzzy=true; } return true; }
  case FORCE: { NEEDB(0); rp::Vector3 f=RV(o,0),p=RV(o,3); int m=(int)o.I(1); if(m>=4&&o.I(2)) p=p+b.xf.getPosition(); switch(m){ case 0: b.b->applyLocalForceAtCenterOfMass(f); break; case 1: b.b->applyWorldForceAtCenterOfMass(f); break; case 2: b.b->applyLocalForceAtLocalPosition(f,p); break; case 3: b.b->applyWorldForceAtLocalPosition(f,p); break; case 4: b.b->applyLocalForceAtWorldPosition(f,p); break; default: b.b->applyWorldForceAtWorldPosition(f,p);} 
      if(b.type==T_DYN){ wake(b); X x=GX(b.xf); V F=GV(f); if(m==0||m==2||m==4) F=rot(x.q,F); V com=app(x,GV(b.com)); V pt=com; if(m==2||m==3) pt=app(x,GV(p)); if(m>=4) pt=GV(p); b.F=RV(GV(b.F)+F); b.T=RV(GV(b.T)+cross(pt-com,F)); b.fFuzzy=true; } return true; }
  case TORQUE: { NEEDB(0); rp::Vector3 f=RV(o,0); if(o.I(1)) b.b->applyLocalTorque(f); else b.b->applyWorldTorque(f); if(b.type==T_DYN){ wake(b); V t=GV(f); if(o.I(1)) t=rot(GX(b.xf).q,t); b.T=RV(GV(b.T)+t); b.fFuzzy=true; } return true; }
  case RESETF: { NEEDB(0); if(o.I(1)){ b.b->resetTorque(); if(b.type==T_DYN) b.T=rp::Vector3(0,0,0);} else { b.b->resetForce(); if(b.type==T_DYN) b.F=rp::Vector3(0,0,0);} return true; }
  case BDEBUG: { if(!observe) return false; NEEDB(0); b.debug=o.I(1); b.b->setIsDebugEnabled(b.debug); return true; }
  case BUDATA: { NEEDB(0); b.udata=o.I(1); b.b->setUserData((void*)b.udata); return true; }
  case MASK: { NEEDC(0); if(bodies[c.body].active==false) return false; c.mask=(unsigned short)o.I(1); c.c->setCollideWithMaskBits(c.mask); return true; }
  case CAT: { NEEDC(0); if(bodies[c.body].active==false) return false; c.cat=(unsigned short)o.I(1); c.c->setCollisionCategoryBits(c.cat); return true; }
  case TRIGGER: { NEEDC(0); c.trig=o.I(1); c.c->setIsTrigger(c.trig); if(c.trig) c.simf=false; return true; }
  case SIMF: { NEEDC(0); c.simf=o.I(1); c.c->setIsSimulationCollider(c.simf); if(c.simf) c.trig=false; return true; }
  case QUERYF: { NEEDC(0); c.query=o.I(1); c.c->setIsWorldQueryCollider(c.query); return true; }
  case CXF: { NEEDC(0); c.xf=RX(o,0); c.c->setLocalToBodyTransform(c.xf); wake(bodies[c.body]); return true; }
  case MAT: { NEEDC(0); c.fric=(dec)o.D(0); c.bounce=(dec)o.D(1); c.dens=(dec)o.D(2); if(o.I(1)) { auto&m=c.c->getMaterial(); m.setFrictionCoefficient(c.fric); m.setBounciness(c.bounce); m.setMassDensity(c.dens);} else { rp::Material m=c.c->getMaterial(); m.setFrictionCoefficient(c.fric); m.setBounciness(c.bounce); m.setMassDensity(c.dens); c.c->setMaterial(m);} return true; }
  case CUDATA: { NEEDC(0); c.udata=o.I(1); c.c->setUserData((void*)c.udata); return true; }
  case JOINT: return makeJoint(o);
  case DELJOINT: { NEEDJ(0); worlds[j.world].w->destroyJoint(j.j); removeJoint((int)o.I(0)); return true; }
  case JLIM: { NEEDJ(0); bool on=o.I(1); if(j.type==J_FIXED) return false; if(j.type==J_BALL) ((rp::BallAndSocketJoint*)j.j)->enableConeLimit(on); else if(j.type==J_HINGE) ((rp::HingeJoint*)j.j)->enableLimit(on); else ((rp::SliderJoint*)j.j)->enableLimit(on); j.lim=on; bodies[j.b1].wakeMaybe=bodies[j.b2].wakeMaybe=true; return true; }
  case JMOTOR: { NEEDJ(0); bool on=o.I(1); if(j.type==J_FIXED||j.type==J_BALL) return false; if(j.type==J_HINGE) ((rp::HingeJoint*)j.j)->enableMotor(on); else ((rp::SliderJoint*)j.j)->enableMotor(on); j.motor=on; wake(bodies[j.b1]); wake(bodies[j.b2]); return true; }
  case JLIMVAL: { NEEDJ(0); if(j.type==J_FIXED) return false; double lo=o.D(0),hi=o.D(1); if(j.type==J_BALL){ ((rp::BallAndSocketJoint*)j.j)->setConeLimitHalfAngle((dec)std::fabs(hi)); j.hi=(dec)std::fabs(hi);} else if(j.type==J_HINGE){ auto*h=(rp::HingeJoint*)j.j; h->setMinAngleLimit((dec)lo); h->setMaxAngleLimit((dec)hi); j.lo=(dec)lo; j.hi=(dec)hi;} else { auto*h=(rp::SliderJoint*)j.j; h->setMinTranslationLimit((dec)lo); h->setMaxTranslationLimit((dec)hi); j.lo=(dec)lo; j.hi=(dec)hi;} bodies[j.b1].wakeMaybe=bodies[j.b2].wakeMaybe=true; return true; }
  case JMOTORV: { NEEDJ(0); if(j.type==J_FIXED||j.type==J_BALL) return false; if(j.type==J_HINGE){ auto*h=(rp::HingeJoint*)j.j; h->setMotorSpeed((dec)o.D(0)); h->setMaxMotorTorque((dec)o.D(1)); } else { auto*h=(rp::SliderJoint*)j.j; h->setMotorSpeed((dec)o.D(0)); h->setMaxMotorForce((dec)o.D(1)); } j.speed=(dec)o.D(0); j.maxf=(dec)o.D(1); bodies[j.b1].wakeMaybe=bodies[j.b2].wakeMaybe=true; return true; }
  case RAY: { if(!observe) return false; NEEDW(0); doQuery(o); return true; }
  case BRAY: case PTIN: case AABBQ: { if(!observe) return false; NEEDB(0); doQuery(o); return true; }
  case CRAY: case CPTIN: { if(!observe) return false; NEEDC(0); doQuery(o); return true; }
  case OVL: case COLLQ: { NEEDW(0); if(o.I(1)<2){ auto a=bodies.find((int)o.I(2)); if(a==bodies.end()||a->second.world!=(int)o.I(0)) return false; } if(o.I(1)==0){ auto a=bodies.find((int)o.I(3)); if(a==bodies.end()||a->second.world!=(int)o.I(0)||o.I(2)==o.I(3)) return false; } doQuery(o); return true; }
  case GETALL: { if(!observe) return false; NEEDW(0); Hash h; for(auto&k:bodies) if(k.second.world==(int)o.I(0)){ auto*b=k.second.b; h.f(b->getMass()); h.f(b->getLocalInertiaTensor().x); h.f(b->getLocalCenterOfMass().x); auto bb=b->getAABB(); h.f(bb.getMin().x); h.f(b->getWorldPoint(rp::Vector3(1,2,3)).x); h.f(b->getLocalVector(rp::Vector3(1,2,3)).y); h.i(b->getNbColliders()); for(rp::uint32 q=0;q<b->getNbColliders();q++){ auto*c=b->getCollider(q); auto a=c->getWorldAABB(); h.f(a.getMin().x); auto a2=w.w->getWorldAABB(c); (void)a2; h.f(c->getLocalToWorldTransform().getPosition().x); h.i(c->getBroadPhaseId()); c->getMaterial().to_string(); } b->getForce(); b->isSleeping(); } for(auto&k:joints) if(k.second.world==(int)o.I(0)){ k.second.j->getReactionForce(dec(0.02)); k.second.j->to_string(); if(k.second.type==J_HINGE) ((rp::HingeJoint*)k.second.j)->getAngle(); if(k.second.type==J_SLIDER) ((rp::SliderJoint*)k.second.j)->getTranslation(); if(k.second.type==J_BALL) ((rp::BallAndSocketJoint*)k.second.j)->getConeHalfAngle(); } auto&d=w.w->getDebugRenderer(); h.i(d.getNbLines()); h.i(d.getNbTriangles()); w.w->getName(); w.w->getGravity(); return true; }
  case LOGGER: { if(!observe) return false; if(o.I(0)&&!logger){ logger=pc->createDefaultLogger(); logger->addStreamDestination(logSink,(rp::uint)7,o.I(0)==2?rp::DefaultLogger::Format::HTML:rp::DefaultLogger::Format::Text); rp::PhysicsCommon::setLogger(logger);} else if(!o.I(0)&&logger){ rp::PhysicsCommon::setLogger(nullptr); pc->destroyDefaultLogger(logger); logger=nullptr; logSink.str(""); } return true; }
  case SCRIBBLE: { if(noScribble) return false; auto mi=meshes.find((int)o.I(0)); if(mi==meshes.end()) return false; for(auto*b:{&mi->second.bufV,&mi->second.bufI,&mi->second.bufN}) { for(auto&c:*b) c=(char)0x7B; if(o.I(1)) std::vector<char>().swap(*b); } for(auto&f:mi->second.faces){ f.nbVertices=77; f.indexBase=99999; } if(o.I(1)) std::vector<rp::PolygonVertexArray::PolygonFace>().swap(mi->second.faces); mi->second.scribbled=true; if(want("C15")){ std::string e=checkMesh(mi->second); check(e.empty(),"C15",e+" (after the caller reused the buffers)"); st["mesh_scribble_checked"]++; } return true; }
  case MARK: return true;
  }
  return false; }
}
