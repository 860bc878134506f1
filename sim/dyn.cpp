// Dynamics oracles. Every condition is evaluated on the records of the run itself (not on what the
// generator meant to build), so they stay sound on any trace, in particular on minimised ones.
#include "dyn.h"
#include "gen.h"
#include <cmath>
#include <cstdio>
namespace sim {
using namespace g;
namespace {

// ---------------------------------------------------------------- state of one body around one update
struct Pre { X xf; V v,w; bool asleep=false; V vFree,wFree; V com; Q q; double m=0; V I; bool ok=false; };

struct DynBase : Checker {
  Sim& s; std::string prop; std::map<int,Pre> pre;
  DynBase(Sim& q,const char* p):s(q),prop(p){}
  void bad(const std::string& m){ s.fail(prop.c_str(),m); }

  // residuals in millionths, to choose tolerances (SIMMAX=1)
  void mx(const char* name,double v){ static bool on=getenv("SIMMAX")!=nullptr; if(on){ long long q=v<0?0:v<9e12?(long long)(v*1e6):9000000000000000000ll; long long& m=s.st[std::string("max_")+name]; m=std::max(m,q); } }

  // worlds in which nothing but UPDATE happened for some time
  std::map<int,int> calmN; std::map<int,double> calmT;
  static bool harmless(int k){ switch(k){ case UPDATE: case RAY: case BRAY: case CRAY: case PTIN: case CPTIN: case OVL: case COLLQ: case AABBQ: case GETALL: case DECOY: case LOGGER: case SCRIBBLE: case FREEBUF: case MARK: case LISTENER: case DEBUG: case BDEBUG: case BUDATA: case CUDATA: case MESH: case RAYSIDE: return true; } return false; }
  void postOp(const Op& o) override { if(!harmless(o.k)){ for(auto&w:s.worlds){ calmN[w.first]=0; calmT[w.first]=0; } } }

  void snapshot(int w,double dt){ pre.clear(); WorldRec& W=s.worlds.at(w); double h=(double)(dec)dt;
    for(auto&k:s.bodies){ BodyRec& b=k.second; if(b.world!=w) continue; Pre p; p.xf=GX(b.b->getTransform()); p.q=p.xf.q; p.v=GV(b.b->getLinearVelocity()); p.w=GV(b.b->getAngularVelocity()); p.asleep=b.b->isSleeping();
      p.com=app(p.xf,GV(b.b->getLocalCenterOfMass())); p.m=(double)b.b->getMass(); p.I=GV(b.b->getLocalInertiaTensor());
      p.ok=b.active&&b.type==T_DYN&&!p.asleep&&p.m>0&&p.I.x>0&&p.I.y>0&&p.I.z>0&&eq(b.ll,rp::Vector3(1,1,1))&&eq(b.al,rp::Vector3(1,1,1));
      p.vFree=p.v; p.wFree=p.w;
      if(p.ok){ V v=p.v+GV(b.b->getForce())*(h/p.m); if(W.grav&&b.grav) v=v+GV(W.g)*h; p.vFree=v*(1/(1+h*(double)b.ld));
        V tl=rot(qconj(p.q),GV(b.b->getTorque())); V a(tl.x/p.I.x,tl.y/p.I.y,tl.z/p.I.z); p.wFree=(p.w+rot(p.q,a)*h)*(1/(1+h*(double)b.ad)); }
      pre[k.first]=p; } }
  void preUpdate(int w,double dt) override { snapshot(w,dt); }
  void tick(int w,double dt){ calmN[w]++; calmT[w]+=dt; }

  V inertia(const Pre& p,V x) const { return rot(p.q,mul(p.I,rot(qconj(p.q),x))); }
  V invInertia(const Pre& p,V x) const { V l=rot(qconj(p.q),x); return rot(p.q,V(l.x/p.I.x,l.y/p.I.y,l.z/p.I.z)); }
  double energy(const Pre& p,V v,V w) const { return 0.5*p.m*dot(v,v)+0.5*dot(w,inertia(p,w)); }
  V velNow(int b) const { return GV(s.bodies.at(b).b->getLinearVelocity()); }
  V angNow(int b) const { return GV(s.bodies.at(b).b->getAngularVelocity()); }
  V comNow(int b) const { const BodyRec& r=s.bodies.at(b); return app(GX(r.b->getTransform()),GV(r.b->getLocalCenterOfMass())); }
  double friction(const Ev& e) const { return std::sqrt((double)s.cols.at(e.c1).fric*(double)s.cols.at(e.c2).fric); }
  double bounce(const Ev& e) const { return std::max((double)s.cols.at(e.c1).bounce,(double)s.cols.at(e.c2).bounce); }
  bool solved(const Ev& e) const { return !e.trig&&e.kind<2&&e.c1>=0&&e.c2>=0&&s.cols.at(e.c1).simf&&s.cols.at(e.c2).simf; }
  V colPoint(int c,V l,bool now) const { const ColRec& r=s.cols.at(c); X b=now?GX(s.bodies.at(r.body).b->getTransform()):pre.at(r.body).xf; return app(b,app(GX(r.xf),l)); }
};

// ---------------------------------------------------------------- C11: conservation laws of isolated groups
struct C11 : DynBase { explicit C11(Sim& q):DynBase(q,"C11"){}
  std::map<int,int> parent; int find(int a){ while(parent[a]!=a) a=parent[a]=parent[parent[a]]; return a; }
  void postUpdate(int w,double dt) override {
    WorldRec& W=s.worlds.at(w); tick(w,dt); if(!W.listening) return; double h=(double)(dec)dt;
    parent.clear(); std::map<int,bool> iso; for(auto&k:pre){ parent[k.first]=k.first; }
    auto join=[&](int a,int b){ parent[find(a)]=find(b); };
    std::vector<const Ev*> con; for(auto&e:s.events) if(solved(e)){ con.push_back(&e); join(e.b1,e.b2); }
    std::vector<const JointRec*> js; for(auto&k:s.joints) if(k.second.world==w){ js.push_back(&k.second); join(k.second.b1,k.second.b2); }
    std::map<int,std::vector<int>> comp; for(auto&k:pre) comp[find(k.first)].push_back(k.first);
    for(auto&g:comp){ bool ok=true; for(int b:g.second) if(!pre[b].ok||s.bodies[b].b->isSleeping()) ok=false; if(!ok||g.second.size()<2) continue;
      // ---- linear and angular momentum received through contacts and joints sums to zero
      V dp,dl,pos0,pos1; double M=0,sp=0,sl=0,e0=0,e1=0,sv=0,pabs=0,spin=0; V org=pre[g.second[0]].com;
      for(int b:g.second){ Pre& p=pre[b]; V v=velNow(b),a=angNow(b); V P=(v-p.vFree)*p.m,S=inertia(p,a-p.wFree); dp=dp+P; V L=cross(p.com-org,P)+S; dl=dl+L; M+=p.m; sp+=len(P); sl+=len(p.com-org)*len(P)+len(S); pabs+=p.m*(len(v)+len(p.vFree)); spin+=len(inertia(p,a))+len(inertia(p,p.wFree))+len(p.com-org)*p.m*(len(v)+len(p.vFree));
        e0+=energy(p,p.vFree,p.wFree); e1+=energy(p,v,a); pos0=pos0+p.com*p.m; pos1=pos1+(comNow(b)-v*h)*p.m; sv+=p.m*(len(v)*h+len(p.com)); }
      int nl=0; double gap=0; int edges=0; bool energyOk=true,hasJoint=false; double maxBounce=0; std::set<int> in(g.second.begin(),g.second.end());
      for(auto*e:con) if(in.count(e->b1)){ nl++; for(auto&c:e->pts){ gap=std::max(gap,dist(colPoint(e->c1,c.l1,false),colPoint(e->c2,c.l2,false))); edges++; } maxBounce=std::max(maxBounce,bounce(*e)); }
      for(auto*j:js) if(in.count(j->b1)){ nl++; gap=std::max(gap,j->type==J_SLIDER?0.0:dist(app(pre[j->b1].xf,j->a1),app(pre[j->b2].xf,j->a2))); edges++; hasJoint=true; if(j->motor||j->baum) energyOk=false;
        // warm starting with the impulses of the previous step creates energy where the solver is far from convergence: long levers, unequal masses
        Pre& q1=pre[j->b1]; Pre& q2=pre[j->b2]; if(q1.m>10*q2.m||q2.m>10*q1.m) energyOk=false; for(int q=0;q<2;q++){ Pre& p=q?q2:q1; double L=q?dist(j->a2,GV(s.bodies.at(j->b2).b->getLocalCenterOfMass())):dist(j->a1,GV(s.bodies.at(j->b1).b->getLocalCenterOfMass())); if(p.m*L*L>20*std::min({p.I.x,p.I.y,p.I.z})) energyOk=false; } }
      bool tree=nl<(int)g.second.size(); // no loop of constraints: internal impulses are bounded by the changes of velocity
      if(sp<1e-9&&sl<1e-9) continue;
      s.st["conservation_checked"]++;
      const double E=sizeof(dec)==8?1e-5:1; /* rounding errors; without a tree of constraints the internal impulses can be large */ double tolP=E*(tree?1e-4:5e-4)*(pabs+sp); mx("dp/pabs",len(dp)/(pabs+1e-9)); if(len(dp)>tolP+E*1e-6) bad(fmt("bodies that touch only each other changed their total momentum by %.6g kg.m/s in one step (they hold %.6g)",len(dp),pabs));
      double tolL=5e-5*spin+5e-5*sl+2*(gap+1e-4)*sp*(1+edges); if(tree) mx("dl/tol",len(dl)/(tolL+1e-7)); if(tree&&len(dl)>tolL+1e-6) bad(fmt("bodies that touch only each other changed their total angular momentum by %.6g in one step (they hold %.6g, tolerance %.3g)",len(dl),spin,tolL));
      double drift=len(pos1-pos0)/M, tolX=2e-5*sv/M+1e-6; mx("drift/tol",drift/tolX); if(drift>tolX) bad(fmt("the centre of mass of bodies that touch only each other moved by %.6g m more than its velocity explains",drift));
      if(tree&&energyOk&&maxBounce==0&&W.split){ mx("energy_gain",(e1-e0)/(e0+1e-3)); s.st["energy_checked"]++; if((!hasJoint||W.itv>=6)&&e1>e0*(hasJoint?2.0:1.10)+1e-3*M) bad(fmt("a group of bodies without bounciness or motor gained energy in one step: %.6g J -> %.6g J",e0,e1)); }
    }
  } };

// ---------------------------------------------------------------- C13: joints
struct C13 : DynBase { explicit C13(Sim& q):DynBase(q,"C13"){}
  std::map<int,int> lastTouch; std::map<int,double> maxDt, sinceFree; // body -> calm count at its last contact; world -> largest step of the calm window; joint -> calm time away from its limits
  std::map<int,int> parent; int find(int a){ while(parent[a]!=a) a=parent[a]=parent[parent[a]]; return a; }
  struct Angle { double v=0; bool known=false; };
  // relative rotation of body 2 seen from body 1 since the creation of the joint
  Q relRot(const JointRec& j,Q qa,Q qb) const { Q d=qmul(qmul(qconj(qa),qb),qconj(j.q0)); if(d.w<0) d=Q{-d.x,-d.y,-d.z,-d.w}; return d; }
  double hingeAngle(const JointRec& j,Q qa,Q qb) const { Q d=relRot(j,qa,qb); double k=dot(V(d.x,d.y,d.z),j.ax1); double a=2*std::atan2(k,d.w); while(a>M_PI) a-=2*M_PI; while(a<-M_PI) a+=2*M_PI; return a; }
  bool aligned(const JointRec& j) const { return dist(rot(j.q0,j.ax2),j.ax1)<1e-3; } // hinge axes agreed when the joint was created
  double lever(const JointRec& j,int which) const { const BodyRec& b=s.bodies.at(which==1?j.b1:j.b2); return dist(which==1?j.a1:j.a2,GV(b.b->getLocalCenterOfMass())); }
  double effInertia(const Pre& p,V axis,V r) const { return dot(axis,inertia(p,axis))+p.m*len2(cross(axis,r)); }
  void postUpdate(int w,double dt) override {
    WorldRec& W=s.worlds.at(w); double h=(double)(dec)dt;
    if(calmN[w]==0){ maxDt[w]=0; for(auto&k:s.joints) if(k.second.world==w) sinceFree[k.first]=0; for(auto&k:s.bodies) if(k.second.world==w) lastTouch.erase(k.first); }
    maxDt[w]=std::max(maxDt[w],dt); tick(w,dt); if(!W.listening) return;
    for(auto&e:s.events) if(solved(e)){ lastTouch[e.b1]=calmN[w]; lastTouch[e.b2]=calmN[w]; }
    // joint graph, all bodies that constraints cannot move merged into one node (-1)
    parent.clear(); parent[-1]=-1; std::map<int,int> nJoints; bool loop=false; std::set<int> loopy; auto node=[&](int b){ return s.bodies.at(b).type==T_DYN?b:-1; };
    for(auto&k:pre) parent[k.first]=k.first;
    for(auto&k:s.joints) if(k.second.world==w){ JointRec& j=k.second; nJoints[j.b1]++; nJoints[j.b2]++; int a=node(j.b1),b=node(j.b2); if(a==-1||b==-1) continue; int ra=find(a),rb=find(b); if(ra==rb) loopy.insert(ra); else { parent[ra]=rb; if(loopy.count(ra)) loopy.insert(rb); } }
    std::map<int,int> grounded,size; for(auto&k:pre) if(s.bodies.at(k.first).type==T_DYN) size[find(k.first)]++;
    for(auto&k:s.joints) if(k.second.world==w){ JointRec& j=k.second; int a=node(j.b1),b=node(j.b2); if((a==-1)!=(b==-1)) grounded[find(a==-1?b:a)]++; }
    // groups whose constraints have all been satisfied at some moment since the last intervention, and groups the solver can be expected to handle
    settled.clear(); conditioned.clear(); std::map<int,double> lightest,heaviest; for(auto&k:pre) if(s.bodies.at(k.first).type==T_DYN){ int r=find(k.first); if(!settled.count(r)){ settled[r]=true; conditioned[r]=true; lightest[r]=1e300; heaviest[r]=0; } Pre& p=k.second; lightest[r]=std::min(lightest[r],p.m); heaviest[r]=std::max(heaviest[r],p.m); double lo=std::min({p.I.x,p.I.y,p.I.z}),hi=std::max({p.I.x,p.I.y,p.I.z}); if(!(lo>0)||hi>20*lo) conditioned[r]=false; }
    for(auto&k:lightest) if(heaviest[k.first]>10*k.second) conditioned[k.first]=false;
    for(auto&k:s.joints) if(k.second.world==w){ JointRec& j=k.second; if(calmN[w]<=1) jointSettled[k.first]=false; BodyRec& A=s.bodies.at(j.b1); BodyRec& B=s.bodies.at(j.b2); if(A.type!=T_DYN&&B.type!=T_DYN) continue; Err e=measure(j); if(calmN[w]<=1) nearStart[k.first]=e.gap<0.5&&e.rot<0.5&&e.lim<0.5&&!(j.type==J_HINGE&&dot(rot(GX(A.b->getTransform()).q,j.ax1),rot(GX(B.b->getTransform()).q,j.ax2))<0); if(e.gap<0.01&&!(j.type==J_HINGE&&dot(rot(GX(A.b->getTransform()).q,j.ax1),rot(GX(B.b->getTransform()).q,j.ax2))<0)&&e.rot<0.01&&e.lim<0.01) jointSettled[k.first]=true;
      if(j.type==J_SLIDER&&len(app(GX(B.b->getTransform()),j.a2)-app(GX(A.b->getTransform()),j.a1))>2) jointSettled[k.first]=nearStart[k.first]=false; int root=find(A.type==T_DYN?j.b1:j.b2); if(!jointSettled[k.first]) settled[root]=false; if(j.type==J_HINGE&&!aligned(j)&&(j.lim||j.motor)) conditioned[root]=false; /* its angle has no meaning */
      for(int q=0;q<2;q++){ int b=q?j.b2:j.b1; BodyRec& X=q?B:A; Pre& p=pre[b]; if(X.type!=T_DYN){ if(len(p.w)>6||len(p.v)>8) conditioned[root]=false; continue; } double lo=std::min({p.I.x,p.I.y,p.I.z}),L=lever(j,q+1); if(L>2||p.m*L*L>30*lo) conditioned[root]=false; } }
    slowSince.clear(); for(auto&k:pre) if(s.bodies.at(k.first).type==T_DYN){ Pre& p=k.second; int& n=bodySlow[k.first]; n=len(p.v)<0.6&&len(p.w)<0.6&&calmN[w]>0?n+1:0; int r=find(k.first); auto i=slowSince.find(r); if(i==slowSince.end()) slowSince[r]=n; else i->second=std::min(i->second,n); }
    for(auto&k:s.joints) if(k.second.world==w) checkJoint(w,dt,h,k.first,k.second,W,loopy,grounded,size,nJoints); }
  struct Err { double gap=0,rot=0,lim=0; }; std::set<int> seenJoint;
  // distance of the joint from the configurations that it allows
  Err measure(const JointRec& j){ Err e; BodyRec& A=s.bodies.at(j.b1); BodyRec& B=s.bodies.at(j.b2); X xa=GX(A.b->getTransform()),xb=GX(B.b->getTransform());
    if(j.type==J_SLIDER){ V ax=norm(rot(xa.q,j.ax1)); V d=app(xb,j.a2)-app(xa,j.a1); double t=dot(d,ax); e.gap=len(d-ax*t); if(j.lim&&j.lo<j.hi) e.lim=std::max({0.0,j.lo-t,t-j.hi}); } else e.gap=dist(app(xa,j.a1),app(xb,j.a2));
    if(j.type==J_FIXED||j.type==J_SLIDER) e.rot=qdiff(qmul(qconj(xa.q),xb.q),j.q0);
    if(j.type==J_HINGE){ V u=norm(rot(xa.q,j.ax1)),v=norm(rot(xb.q,j.ax2)); e.rot=len(cross(u,v)); /* antiparallel axes also satisfy the constraint; only a teleportation gets there */ if(dot(u,v)<0) { e.rot=0; return e; } if(j.lim&&aligned(j)&&j.lo<j.hi){ double a=hingeAngle(j,xa.q,xb.q); e.lim=std::max(j.lo-a,a-j.hi); e.lim=std::max(0.0,std::min(e.lim,std::min(std::fabs(a+2*M_PI-j.lo),std::fabs(a-2*M_PI-j.hi)))); } }
    if(j.type==J_BALL&&j.lim&&lever(j,1)>0.05&&lever(j,2)>0.05){ V r1=rot(xa.q,j.a1-GV(A.b->getLocalCenterOfMass())),r2=rot(xb.q,j.a2-GV(B.b->getLocalCenterOfMass())); e.lim=std::max(0.0,std::acos(std::max(-1.0,std::min(1.0,-dot(norm(r1),norm(r2)))))-j.hi); }
    return e; }
  std::map<int,bool> settled,conditioned; std::map<int,bool> jointSettled,nearStart; std::map<int,double> lastImp; std::map<int,int> slowSince,bodySlow; // steps since which every body of the group (the body) was slow
  int touchedAt(int b) const { auto i=lastTouch.find(b); return i==lastTouch.end()?-1:i->second; }
  // rotation given by the position correction at the end of the step
  double corrected(int b,double h) const { const Pre& p=pre.at(b); V a=angNow(b); Q d=p.q; Q o{a.x,a.y,a.z,0}; Q q=qmul(o,p.q); d.x+=0.5*h*q.x; d.y+=0.5*h*q.y; d.z+=0.5*h*q.z; d.w+=0.5*h*q.w; double n=std::sqrt(d.x*d.x+d.y*d.y+d.z*d.z+d.w*d.w); d=Q{d.x/n,d.y/n,d.z/n,d.w/n}; return qdiff(d,GX(s.bodies.at(b).b->getTransform()).q); }
  void checkJoint(int w,double dt,double h,int id,JointRec& j,WorldRec& W,std::set<int>& loopy,std::map<int,int>& grounded,std::map<int,int>& size,std::map<int,int>& nJoints){
    BodyRec& A=s.bodies.at(j.b1); BodyRec& B=s.bodies.at(j.b2); if(!A.active||!B.active) return; if(A.type!=T_DYN&&B.type!=T_DYN) return; int root=find(A.type==T_DYN?j.b1:j.b2);
    bool tree=!loopy.count(root)&&grounded[root]<=1; Pre& pa=pre[j.b1]; Pre& pb=pre[j.b2];
    X xa=GX(A.b->getTransform()),xb=GX(B.b->getTransform()); bool simple=nJoints[j.b1]==1&&nJoints[j.b2]==1;
    bool alone1=A.type==T_DYN&&pa.ok&&nJoints[j.b1]==1&&!A.b->isSleeping()&&touchedAt(j.b1)!=calmN[w], alone2=B.type==T_DYN&&pb.ok&&nJoints[j.b2]==1&&!B.b->isSleeping()&&touchedAt(j.b2)!=calmN[w];
    // ---- velocities of a lone joint: what the joint blocks is (nearly) stopped, and solving it from scratch cannot create kinetic energy
    { bool n1=A.type!=T_DYN,n2=B.type!=T_DYN; auto rest=[&](int b){ return len(velNow(b))==0&&len(angNow(b))==0; }; bool fresh=seenJoint.insert(id).second; 
      if((alone1||n1)&&(alone2||n2)&&!j.baum){ V c1=pa.com,c2=pb.com,p1=app(pa.xf,j.a1),p2=app(pb.xf,j.a2); V f1=n1?velNow(j.b1):pa.vFree,f2=n2?velNow(j.b2):pb.vFree,g1=n1?angNow(j.b1):pa.wFree,g2=n2?angNow(j.b2):pb.wFree; if(j.type==J_SLIDER) p1=p2; V u1=velNow(j.b1),u2=velNow(j.b2),o1=angNow(j.b1),o2=angNow(j.b2);
        auto at=[&](V v,V w,V c,V q){ return v+cross(w,q-c); }; V before=at(f2,g2,c2,p2)-at(f1,g1,c1,p1),after=at(u2,o2,c2,p2)-at(u1,o1,c1,p1); double scale=len(f1)+len(f2)+len(u1)+len(u2)+(len(g1)+len(o1))*dist(p1,c1)+(len(g2)+len(o2))*dist(p2,c2); if(j.type==J_SLIDER){ V ax=norm(rot(pa.xf.q,j.ax1)); after=after-ax*dot(ax,after); before=before-ax*dot(ax,before); }
        double tr=len(after)/(1e-3*scale+1e-4),ws=len(g1)+len(g2)+len(o1)+len(o2),ro=1e300; if(j.type==J_FIXED||j.type==J_SLIDER) ro=len(o2-o1)/(1e-3*ws+1e-4); if(j.type==J_HINGE){ V ax=norm(rot(pa.xf.q,j.ax1)),d=o2-o1; ro=len(d-ax*dot(ax,d))/(1e-3*ws+1e-4); } double best=std::min(tr,ro); mx(fmt("rowres%d",j.type).c_str(),best); s.st["joint_rows_checked"]++;
        if(best>15) bad(fmt("after an update the bodies of joint %d (type %d) move against each other in every direction that it blocks: %.4g m/s at the anchor, %.4g rad/s",id,j.type,len(after),len(o2-o1)));
        if(fresh&&!j.motor&&(!n1||rest(j.b1))&&(!n2||rest(j.b2))){ double e0=0,e1=0; for(int q=0;q<2;q++){ if(q?n2:n1) continue; Pre& p=q?pb:pa; e0+=energy(p,p.vFree,p.wFree); e1+=energy(p,velNow(q?j.b2:j.b1),angNow(q?j.b2:j.b1)); } s.st["joint_energy_checked"]++; double tol=1e-3*(e0+e1)+1e-6; mx(fmt("jointE%d",j.type).c_str(),(e1-e0)/tol); if(e1-e0>tol) bad(fmt("the first update with joint %d (type %d, limits %d) increased the kinetic energy of its bodies from %.5g to %.5g",id,j.type,(int)j.lim,e0,e1)); } } }
    // ---- reported reaction force and torque are the impulses the bodies really received
    if(alone1||alone2){ int me=alone2?2:1; Pre& p=alone2?pb:pa; double sg=alone2?1:-1; int body=alone2?j.b2:j.b1; V f=GV(j.j->getReactionForce((dec)dt)),t=GV(j.j->getReactionTorque((dec)dt)); V J=(velNow(body)-p.vFree)*p.m, H=inertia(p,angNow(body)-p.wFree); V anchor=app(pre[j.b2].xf,j.a2); V r=(me==2||j.type==J_SLIDER)?anchor-p.com:app(pre[j.b1].xf,j.a1)-p.com;
      double warm=lastImp[id]; lastImp[id]=(len(f)+len(t))*h; warm=1e-5*(warm+lastImp[id]); /* rounding of the impulses the solver starts with and takes back */ V ej=f*(sg*h); double tol=warm+2e-3*(len(J)+len(ej))+2e-5*p.m*(1+len(p.vFree)+len(velNow(body))); if(j.type!=J_SLIDER) mx("reactF/tol",dist(J,ej)/tol); s.st["reaction_checked"]++; if(j.type==J_SLIDER){ double e=std::fabs(len(J)-len(ej)); mx("reactF_slider",e/(10*tol)); if(e>10*tol) bad(fmt("joint %d reports a reaction impulse of %.5g but the momentum of body %d changed by %.5g",id,len(ej),body,len(J))); } else if(dist(J,ej)>tol) bad(fmt("joint %d type %d lim %d motor %d reports a reaction impulse (%.5g %.5g %.5g) on body %d but its momentum changed by (%.5g %.5g %.5g)",id,j.type,(int)j.lim,(int)j.motor,ej.x,ej.y,ej.z,body,J.x,J.y,J.z));
      if(j.type==J_HINGE){ if(dist(rot(pa.xf.q,j.ax1),rot(pb.xf.q,j.ax2))<0.02&&(len(pa.w)+len(pb.w))*h<0.3&&corrected(j.b1,h)<0.01&&corrected(j.b2,h)<0.01){ V own=H-cross(r,J); double tt=(2+len(r))*warm+0.1*(len(own)+len(t)*h)+5e-3*(len(H)+len(r)*len(J))+5e-5*len(p.I)*(1+len(p.wFree))+2e-5*p.m*(0.1+len(r))*(1+len(p.vFree)+len(velNow(body))),e=std::fabs(len(own)-len(t)*h); mx("reactT_hinge",e/tt); if(e>tt) bad(fmt("hinge joint %d lim %d motor %d reports a reaction torque impulse of %.5g but body %d received %.5g",id,(int)j.lim,(int)j.motor,len(t)*h,body,len(own))); } }
      if((j.type==J_HINGE&&corrected(j.b1,h)<0.01&&corrected(j.b2,h)<0.01)||j.type==J_SLIDER){ // along its free direction a joint only pushes with its motor, and never harder than the motor can
        bool hinge=j.type==J_HINGE; X p1=pre[j.b1].xf,p2=pre[j.b2].xf; V ax=norm(rot(p1.q,j.ax1)); double pos=hinge?hingeAngle(j,p1.q,p2.q):dot(app(p2,j.a2)-app(p1,j.a1),ax); if((!hinge||(aligned(j)&&dist(rot(p1.q,j.ax1),rot(p2.q,j.ax2))<0.02))&&(!j.lim||(pos>j.lo+0.01&&pos<j.hi-0.01))){
          double push=hinge?std::fabs(dot(H-cross(r,J),ax)):std::fabs(dot(J,ax)),most=(j.motor?(double)j.maxf*h:0); double tol=(hinge?0.03:2e-3)*(hinge?len(H)+len(r)*len(J):len(J))+(hinge?2e-4*len(p.I)*(1+len(p.wFree)):1e-4*p.m*(1+len(p.vFree))); mx(hinge?"axial_hinge":"axial_slider",(push-most)/tol); s.st["axial_checked"]++; if(push>most+tol) bad(fmt("joint %d pushed along its free direction with an impulse of %.5g, its motor can give %.5g",id,push,most)); } }
      if(j.type!=J_HINGE&&!(j.type==J_BALL&&j.lim)&&j.type!=J_SLIDER){ V eh=cross(r,J)+t*(sg*h); double tt=(2+len(r))*warm+1e-2*(len(H)+len(t)*h+len(r)*len(J))+2e-4*len(p.I)*(1+len(p.wFree))+2e-5*p.m*(0.1+len(r))*(1+len(p.vFree)+len(velNow(body))); mx("reactT/tol",dist(H,eh)/tt); if(dist(H,eh)>tt) bad(fmt("joint %d type %d lim %d motor %d reports a reaction torque that gives the angular impulse (%.5g %.5g %.5g) on body %d but it received (%.5g %.5g %.5g)",id,j.type,(int)j.lim,(int)j.motor,eh.x,eh.y,eh.z,body,H.x,H.y,H.z)); } }
    // ---- along its free direction the bodies move with their velocities; correcting the blocked directions or an inactive limit does not move them there
    if((alone1||A.type!=T_DYN)&&(alone2||B.type!=T_DYN)&&(j.type==J_HINGE||j.type==J_SLIDER)){ X q[2]; for(int k=0;k<2;k++){ int b=k?j.b2:j.b1; Pre& p=k?pb:pa; V a=angNow(b),c=p.com+velNow(b)*h; Q o{a.x,a.y,a.z,0},d=qmul(o,p.q); Q e{p.q.x+0.5*h*d.x,p.q.y+0.5*h*d.y,p.q.z+0.5*h*d.z,p.q.w+0.5*h*d.w}; double n=std::sqrt(e.x*e.x+e.y*e.y+e.z*e.z+e.w*e.w); q[k].q=Q{e.x/n,e.y/n,e.z/n,e.w/n}; q[k].p=c-rot(q[k].q,GV(s.bodies.at(b).b->getLocalCenterOfMass())); }
      double r1=qdiff(q[0].q,xa.q),r2=qdiff(q[1].q,xb.q),turn=r1+r2,t1=0,t0=0,side=0; bool ok=true; if(j.type==J_SLIDER){ V a0=norm(rot(q[0].q,j.ax1)),a1=norm(rot(xa.q,j.ax1)),d0=app(q[1],j.a2)-app(q[0],j.a1),d1=app(xb,j.a2)-app(xa,j.a1); t0=dot(d0,a0); t1=dot(d1,a1); side=len(d0-a0*t0)+turn*(len(d0)+dist(q[0].p,app(q[0],j.a1))+dist(q[1].p,app(q[1],j.a2))); ok=len(d0)<2; }
      else { ok=aligned(j)&&dist(rot(pa.xf.q,j.ax1),rot(pb.xf.q,j.ax2))<0.1; t0=hingeAngle(j,q[0].q,q[1].q); t1=hingeAngle(j,xa.q,xb.q); double d=t1-t0; if(d>M_PI) t1-=2*M_PI; if(d<-M_PI) t1+=2*M_PI; V u=norm(rot(q[0].q,j.ax1)),v=norm(rot(q[1].q,j.ax2)); side=len(cross(u,v))+dist(app(q[0],j.a1),app(q[1],j.a2))/std::max(0.2,std::min(dist(q[0].p,app(q[0],j.a1)),dist(q[1].p,app(q[1],j.a2)))); }
      if(ok&&j.type==J_HINGE&&j.lim&&j.lo<j.hi&&j.hi-j.lo<5&&side<0.1){ auto viol=[&](double x){ return std::max(0.0,std::max(j.lo-x,x-j.hi)); }; double k0=0,e0=viol(t0),o0=1e300; for(double k:{-2*M_PI,2*M_PI}){ double e=viol(t0+k); if(e<e0){ o0=e0; e0=e; k0=k; } else o0=std::min(o0,e); } if(o0>e0+0.5){ double e1=viol(t1+k0); mx("hingeback",e1-e0); s.st["limit_return_checked"]++; if(e1>e0+0.1+4*side) bad(fmt("correcting hinge joint %d, %.4g rad beyond one of its limits [%.4g, %.4g], left it %.4g rad beyond",id,e0,j.lo,j.hi,e1)); } }
      double m=0.02; if(ok&&(!j.lim||(t0>j.lo+m&&t0<j.hi-m))){ double tol=2e-3+side; mx(j.type==J_HINGE?"freeaxis_hinge":"freeaxis_slider",std::fabs(t1-t0)/tol); s.st["free_axis_checked"]++; if(std::fabs(t1-t0)>4*tol) bad(fmt("joint %d moved along its free direction by %.4g %s more in one step than the velocities of its bodies explain, away from its limits",id,t1-t0,j.type==J_SLIDER?"m":"rad")); } }
    double angle=0,trans=0; V axisW; if(j.type==J_HINGE){ angle=hingeAngle(j,xa.q,xb.q); axisW=rot(xa.q,j.ax1); } if(j.type==J_SLIDER){ axisW=norm(rot(xa.q,j.ax1)); trans=dot(app(xb,j.a2)-app(xa,j.a1),axisW); double got=((rp::SliderJoint*)j.j)->getTranslation(); if(std::fabs(got-trans)>1e-3*(1+std::fabs(trans)+len(xa.p)+len(xb.p))) bad(fmt("slider joint %d reports a translation of %.6g instead of %.6g",id,got,trans)); }
    // ---- motors never exceed their maximum torque
    bool still=!W.grav||(GV(W.g).x==0&&GV(W.g).y==0&&GV(W.g).z==0); bool free1=A.type!=T_DYN||(pa.ok&&A.F.lengthSquare()==0&&A.T.lengthSquare()==0&&A.ld==0&&A.ad==0), free2=B.type!=T_DYN||(pb.ok&&B.ld==0&&B.ad==0);
    if((A.type==T_DYN&&A.b->isSleeping())||(B.type==T_DYN&&B.b->isSleeping())) return; // nothing corrects a sleeping group when the immovable body it hangs on is moved away
    if(calmN[w]<20||maxDt[w]>1.0/55||!tree||size[root]>4||(j.baum&&!(simple&&size[root]<=2))||W.itv<6||W.itp<3) return;
    for(auto&k:pre) if(s.bodies.at(k.first).type==T_DYN&&find(k.first)==root){ BodyRec& b=s.bodies.at(k.first); if(lastTouch.count(k.first)||!b.active||!eq(b.ll,rp::Vector3(1,1,1))||!eq(b.al,rp::Vector3(1,1,1))||!(b.b->getMass()>0)||k.second.I.x<=0||k.second.I.y<=0||k.second.I.z<=0) return; if(len(k.second.v)>8||len(k.second.w)>6) { s.st["joint_fast_n"]++; return; } }
    if(!conditioned[root]){ s.st["joint_illcond_n"]++; return; }
    bool single=simple&&size[root]<=2; if(!settled[root]&&!(single&&calmN[w]>=200&&nearStart[id]&&(j.type!=J_HINGE||!j.lim||aligned(j)))){ s.st["joint_unsettled_n"]++; return; }
    if(j.type==J_HINGE&&!aligned(j)&&(j.lim||j.motor)) return; // its angle has no meaning
    if(j.type==J_SLIDER&&std::fabs(trans)>(j.baum?0.7:2)) return; // long levers
    s.st["joint_checked"]++; s.st["joint_baum_checked"]+=j.baum; Err e=measure(j); double fast=(len(pa.w)+len(pb.w))*h, quick=(len(pa.v)+len(pb.v))*h; bool slow=slowSince[root]>=60; if(!single&&!slow){ s.st["joint_multifast_n"]++; return; }
    // the iterative solver leaves a large error in fast chains, so those are only judged when they have calmed down; a lone joint always, but loosely while it is fast
    double soft=slow?(single?1:10):2.5; if(j.type==J_HINGE&&j.motor&&j.lim&&(angle<j.lo+0.3||angle>j.hi-0.3)) soft=6; /* motor against limit stop */ std::string suf=(single?"1":"n"); suf+=slow?"s":"f";
    mx(((j.type==J_SLIDER?"gap_slider":j.type==J_HINGE?"gap_hinge":j.type==J_BALL?"gap_ball":"gap_fixed")+suf).c_str(),e.gap-0.3*quick);
    if(e.gap>0.06*soft+0.3*quick) bad(fmt("the anchor points of joint %d are %.4g m apart after %d undisturbed steps",id,e.gap,calmN[w]));
    mx(((j.type==J_HINGE?"axis_hinge":"rot_fixed_slider")+suf).c_str(),e.rot-0.3*fast); if(e.rot>0.08*soft+0.3*fast) bad(fmt("joint %d lets its bodies turn by %.4g rad in a direction that it blocks",id,e.rot));
    mx(((j.type==J_HINGE?"lim_hinge":j.type==J_SLIDER?"lim_slider":"lim_cone")+suf).c_str(),e.lim-1.1*(j.type==J_SLIDER?quick+fast:fast)); if(!(j.baum&&j.motor)/* a motor pressing against a soft stop */&&e.lim>0.08*soft+1.1*(j.type==J_SLIDER?quick+fast:fast)) bad(fmt("joint %d is %.4g %s outside of its limits [%.4g, %.4g] after %d undisturbed steps",id,e.lim,j.type==J_SLIDER?"m":"rad",j.lo,j.hi,calmN[w]));
    // ---- motors
    if(j.motor&&simple&&still&&free1&&free2&&(j.type==J_HINGE||j.type==J_SLIDER)){ double pos=j.type==J_HINGE?angle:trans; bool away=!j.lim||(pos>j.lo+0.15&&pos<j.hi-0.15); sinceFree[id]=away?sinceFree[id]+h:0; }
    else sinceFree[id]=0;
    if(j.motor&&sinceFree[id]>0.5&&still&&simple&&settled[root]&&!(A.type==T_DYN&&A.b->isSleeping())&&!(B.type==T_DYN&&B.b->isSleeping())){ double rel,eff=1e300; if(j.type==J_HINGE){ rel=dot(angNow(j.b2)-angNow(j.b1),axisW); if(A.type==T_DYN) eff=std::min(eff,effInertia(pa,axisW,app(xa,j.a1)-pa.com)); if(B.type==T_DYN) eff=std::min(eff,effInertia(pb,axisW,app(xb,j.a2)-pb.com)); }
      else { V pa2=app(xb,j.a2); rel=dot(velNow(j.b2)+cross(angNow(j.b2),pa2-comNow(j.b2))-velNow(j.b1)-cross(angNow(j.b1),pa2-comNow(j.b1)),axisW); if(A.type==T_DYN) eff=std::min(eff,pa.m*(1+2)); if(B.type==T_DYN) eff=std::min(eff,pb.m*(1+2)); }
      bool enough=j.maxf*sinceFree[id]>3*eff*(std::fabs(j.speed)+8); if(enough){ s.st["motor_checked"]++; mx(j.type==J_HINGE?"motor_hinge":"motor_slider",std::fabs(rel-j.speed)); double spin=std::max(len(pa.w),len(pb.w)); /* the axis turns during the step */ if(std::fabs(rel-j.speed)>0.05+0.03*std::fabs(j.speed)+(j.type==J_SLIDER?2*spin*spin*h:0)) bad(fmt("the motor of joint %d does not reach its speed: %.4g instead of %.4g",id,rel,j.speed)); } }
  } };
#include "contact.h"
} // namespace

bool isDyn(const std::string& p){ return p=="C11"||p=="C13"||p=="C14"; }
void addDynCheckers(Sim& s,const std::string& p){ if(p=="C11") s.checkers.emplace_back(new C11(s)); if(p=="C13") s.checkers.emplace_back(new C13(s)); if(p=="C14") s.checkers.emplace_back(new C14(s)); }


// ---------------------------------------------------------------- generators
struct Builder { Rng& r; Trace t; int nid=1; explicit Builder(Rng& q):r(q){}
  double f(double a,double b){ return (double)(float)r.u(a,b); }
  void add(int k,std::vector<long> i={},std::vector<double> d={}){ t.push_back(Op(k,std::move(i),std::move(d))); }
  std::vector<double> v3(double s){ return {f(-s,s),f(-s,s),f(-s,s)}; }
  std::vector<double> quat(double pr=0.7){ if(!r.p(pr)) return {0,0,0,1}; double a=r.u(0,6.2832),z=r.u(-1,1),w=r.u(0,6.2832),q=std::sqrt(1-z*z),s=std::sin(a/2); return {q*std::cos(w)*s,q*std::sin(w)*s,z*s,std::cos(a/2)}; }
  std::vector<double> cat(std::vector<double> a,const std::vector<double>& b){ a.insert(a.end(),b.begin(),b.end()); return a; } };

Trace jointScene(Rng& r){ Builder b(r); int W=0; double dt[]={1.0/60,1.0/60,1.0/75,1.0/120}; double step=dt[r.n(4)]; int grav=r.n(2); bool sleep=r.p(0.2),baum=r.p(0.12);
  b.add(WORLD,{W,sleep?1:0,r.p(0.6)?6:r.in(8,16),r.p(0.6)?3:r.in(4,8)},{0,grav?-9.81:0,0,0.3,0,0.5,0.02,0.05,1});
  struct Link { int id,type; std::vector<double> pos; }; struct Jt { int id,type; }; std::vector<Link> links; std::vector<Jt> joints; std::vector<std::pair<int,std::vector<double>>> wide; int chains=r.in(1,3);
  for(int c=0;c<chains;c++){ int n=baum?1:r.in(1,3); double scale=r.p(0.6)?1:r.p(0.5)?200:r.p(0.5)?5000:0.02; std::vector<double> dir=b.v3(1); double l=std::sqrt(dir[0]*dir[0]+dir[1]*dir[1]+dir[2]*dir[2])+1e-3; for(auto&x:dir) x=x/l*b.f(0.7,1.3); std::vector<double> base={8.0*c,r.p(0.3)?0.0:b.f(0,3),0};
    int prev=-1; for(int k=0;k<=n;k++){ int id=b.nid++; int type=k==0?(r.p(0.5)?T_STATIC:r.p(0.3)?T_KIN:T_DYN):T_DYN; std::vector<double> p={base[0]+k*dir[0],base[1]+k*dir[1],base[2]+k*dir[2]}; b.add(BODY,{id,W,type},b.cat(p,b.quat())); links.push_back({id,type,p});
      if(r.p(0.75)){ int sh=b.nid++,kind=r.n(3); b.add(SHAPE,{sh,kind,-1},kind==SPHERE?std::vector<double>{b.f(0.3,0.6)}:kind==CAPSULE?std::vector<double>{b.f(0.3,0.5),b.f(0.3,0.8)}:std::vector<double>{b.f(0.3,0.6),b.f(0.3,0.6),b.f(0.3,0.6)}); int co=b.nid++; b.add(COLL,{co,id,sh},r.p(0.7)?std::vector<double>{0,0,0,0,0,0,1}:b.cat(b.v3(0.2),b.quat())); b.add(MASK,{co,0}); b.add(MAT,{co,0},{0.3,0,scale*b.f(0.5,2)}); b.add(UPDMASS,{id,0}); }
      else if(type==T_DYN){ double m=scale*b.f(0.5,2); b.add(MASS,{id},{m}); double i=m*b.f(0.1,0.3); b.add(INERTIA,{id},{i,i*(r.p(0.5)?1:b.f(0.6,1.5)),i*(r.p(0.5)?1:b.f(0.6,1.5))}); if(r.p(0.3)) b.add(COM,{id},b.v3(0.2)); }
      if(k>0){ int j=b.nid++; int jt=r.n(4); bool lim=r.p(0.5),mot=r.p(0.4); std::vector<double> d; int an=r.n(4); /* middle, near the middle, centre of one of the bodies */ std::vector<double> off={0,0,0}; if(an==1) off=b.v3(0.25); if(an>=2) for(int q=0;q<3;q++) off[q]=(an==2?-0.5:0.5)*dir[q]; int space=2; if(r.p(0.15)){ space=1; d=b.cat(b.v3(0.5),b.v3(0.5)); } else d=b.cat(off,{0,0,0}); auto ax=b.v3(1); if(r.p(0.3)) ax=dir; if(r.p(0.2)) ax={0,0,0}, ax[r.n(3)]=1; d=b.cat(b.cat(d,ax),space==1?(r.p(0.5)?ax:b.v3(1)):ax);
        double motF=(r.p(0.5)?b.f(20,200):b.f(0,20))*scale; int stop=r.p(0.25)?1+r.n(2):0; /* starts at one of its limits */ if(jt==J_SLIDER) d=b.cat(d,{stop==1?0:b.f(-0.8,-0.05),stop==2?0:b.f(0.05,0.8),b.f(-1.5,1.5),motF}); else if(jt==J_BALL) d=b.cat(d,{0,b.f(0.3,1.4),0,0}); else d=b.cat(d,{stop==1?0:b.f(-2.5,-0.1),stop==2?0:b.f(0.1,2.5),b.f(-3,3),motF});
        if(jt==J_HINGE&&lim&&space==2&&r.p(0.25)){ d[12]=stop==1?0:b.f(-3.1,-2.4); d[13]=stop==2?0:r.p(0.5)?b.f(2.4,3.1):b.f(0.1,0.5); double al=std::sqrt(ax[0]*ax[0]+ax[1]*ax[1]+ax[2]*ax[2])+1e-6; wide.push_back({id,{ax[0]/al,ax[1]/al,ax[2]/al}}); } // spun fast against limits near half a turn
        bool swap=r.p(0.3); b.add(JOINT,{j,jt,swap?id:prev,swap?prev:id,r.n(2),space,baum,lim,mot},d); joints.push_back({j,jt}); }
      if(type!=T_STATIC&&r.p(0.6)){ if(type==T_DYN||r.p(0.3)){ b.add(SETVEL,{id},b.v3(1.5)); if(r.p(0.6)) b.add(SETANG,{id},b.v3(2)); } } if(r.p(0.3)) b.add(LDAMP,{id},{b.f(0,0.5)}); if(r.p(0.3)) b.add(ADAMP,{id},{b.f(0,1)});
      prev=id; } }
  auto rest=[&](int n){ for(int k=0;k<n;k++) b.add(UPDATE,{W},{step}); };
  auto spin=[&]{ for(auto&q:wide) if(r.p(0.7)){ double sp=(r.p(0.5)?1:-1)*b.f(3,25); int n=r.in(5,40); for(int k=0;k<n;k++){ b.add(SETANG,{q.first},{sp*q.second[0],sp*q.second[1],sp*q.second[2]}); rest(1); } } };
  spin(); int phases=r.in(2,4); for(int p=0;p<phases;p++){ rest(r.in(100,180)); spin(); int nops=r.in(1,3); for(int k=0;k<nops;k++){ auto& L=links[r.n((int)links.size())]; auto& J=joints[r.n((int)joints.size())]; switch(r.n(14)){ case 0: case 1: if(L.type==T_DYN) b.add(SETVEL,{L.id},b.v3(2)); break; case 2: if(L.type!=T_STATIC) b.add(SETANG,{L.id},b.v3(3)); break; case 3: b.add(JLIM,{J.id,r.n(2)}); break; case 4: b.add(JMOTOR,{J.id,r.n(2)}); break; case 5: if(J.type==J_SLIDER) b.add(JLIMVAL,{J.id},{b.f(-0.8,-0.05),b.f(0.05,0.8)}); else if(J.type==J_BALL) b.add(JLIMVAL,{J.id},{0,b.f(0.3,1.4)}); else b.add(JLIMVAL,{J.id},{b.f(-2.5,-0.1),b.f(0.1,2.5)}); break; case 6: b.add(JMOTORV,{J.id},{b.f(-2,2),b.f(1,200)}); break;
      case 7: if(L.type==T_DYN){ b.add(SETTYPE,{L.id,T_STATIC}); rest(r.in(1,10)); b.add(SETTYPE,{L.id,T_DYN}); } break; case 8: b.add(ACTIVE,{L.id,0}); rest(r.in(1,20)); b.add(ACTIVE,{L.id,1}); break; case 9: b.add(SLEEP,{L.id,1}); break; case 10: b.add(SETXF,{L.id},b.cat({L.pos[0]+b.f(-0.5,0.5),L.pos[1]+b.f(-0.5,0.5),L.pos[2]+b.f(-0.5,0.5)},b.quat())); break; case 11: b.add(DELJOINT,{J.id}); break; case 12: b.add(UPDMASS,{L.id,r.n(4)}); break; default: b.add(WGRAV,{W},{b.f(-4,4),b.f(-9.8,0),b.f(-4,4)}); } } }
  rest(r.in(100,200)); return b.t; }
Trace contactScene(Rng& r){ Builder b(r); int W=0; double dts[]={1.0/60,1.0/60,1.0/75,1.0/120}; double step=dts[r.n(4)]; bool mixed=r.p(0.15); bool sleep=r.p(0.3); int kind=r.n(6); bool weightless=kind==5;
  b.add(WORLD,{W,sleep?1:0,r.p(0.4)?6:r.in(8,14),r.p(0.6)?3:r.in(4,8)},{0,weightless?0:-9.81,0,0.3,0,r.p(0.8)?0.5:b.f(0.2,1.0),0.02,0.05,1});
  auto mass=[&](int co,double fr,double bo,double de){ b.add(MAT,{co,0},{fr,bo,de}); };
  struct It { int id,col; std::vector<double> p; double h; }; std::vector<It> its; int sup=-1,supCol=-1; std::vector<double> sq={0,0,0,1}; double theta=0; double supFr=b.f(0.1,1.5),supBo=r.p(0.7)?0:b.f(0,1); int sk=r.p(0.6)?BOX:r.p(0.5)?TRIMESH:HFIELD;
  if(!weightless){ sup=b.nid++; if(kind==3){ theta=b.f(0.05,0.75); double yaw=r.u(0,6.28); double ax=std::cos(yaw),az=std::sin(yaw); sq={ax*std::sin(theta/2),0,az*std::sin(theta/2),std::cos(theta/2)}; } else if(r.p(0.3)){ double yaw=r.u(0,6.28); sq={0,std::sin(yaw/2),0,std::cos(yaw/2)}; }
    b.add(BODY,{sup,W,T_STATIC},b.cat({0,0,0},sq)); int sh=b.nid++; supCol=b.nid++;
    if(sk==BOX){ b.add(SHAPE,{sh,BOX,-1},{12,0.5,12}); b.add(COLL,{supCol,sup,sh},{0,-0.5,0,0,0,0,1}); } else { int m=b.nid++; if(sk==TRIMESH){ b.add(MESH,{m,2,2,r.n(100),r.in(3,8),8,r.n(64),0},{b.f(1.2,2.5)}); b.add(SHAPE,{sh,TRIMESH,m},{1,1,1}); } else { b.add(MESH,{m,3,1,r.n(100),9,9,r.n(64),0},{1.0}); b.add(SHAPE,{sh,HFIELD,m},{2,1,2}); } b.add(COLL,{supCol,sup,sh},{0,0,0,0,0,0,1}); }
    mass(supCol,supFr,supBo,1); }
  g::Q SQ=g::qnorm(g::Q{sq[0],sq[1],sq[2],sq[3]}); auto world=[&](double x,double y,double z){ g::V v=g::rot(SQ,g::V(x,y,z)); return std::vector<double>{v.x,v.y,v.z}; };
  auto shape=[&](int k,std::vector<double> d){ int sh=b.nid++; if(k==CONVEX){ int m=b.nid++; int mk=r.n(2); b.add(MESH,{m,mk,mk?0:1,r.n(1000),mk?r.in(4,8):r.in(8,14),0,r.n(8),0},{b.f(0.4,0.8)}); b.add(SHAPE,{sh,CONVEX,m},{1,1,1}); } else b.add(SHAPE,{sh,k,-1},d); return sh; };
  auto box=[&](std::vector<double>& h){ h={b.f(0.3,0.7),b.f(0.3,0.7),b.f(0.3,0.7)}; return shape(BOX,h); };
  auto body=[&](int sh,std::vector<double> p,std::vector<double> q,double fr,double bo,double de,double h){ int id=b.nid++; b.add(BODY,{id,W,T_DYN},b.cat(p,q)); int co=b.nid++; b.add(COLL,{co,id,sh},{0,0,0,0,0,0,1}); mass(co,fr,bo,de); b.add(UPDMASS,{id,0}); its.push_back({id,co,p,h}); return id; };
  double scale=r.p(0.7)?1:r.p(0.5)?100:0.05; int n=r.in(1,4);
  auto any=[&](double& up){ int k=r.n(4); if(k==SPHERE){ double q=b.f(0.3,0.6); up=q; return shape(SPHERE,{q}); } if(k==CAPSULE){ double q=b.f(0.25,0.5),h=b.f(0.2,0.8); up=q+h/2; return shape(CAPSULE,{q,h}); } if(k==BOX){ std::vector<double> h; int sh=box(h); up=std::sqrt(h[0]*h[0]+h[1]*h[1]+h[2]*h[2]); return sh; } up=0.9; return shape(CONVEX,{}); };
  if(kind==0) for(int k=0;k<n;k++){ double up; int sh=any(up); body(sh,{-4.5+3.0*k,up+b.f(0.02,2),b.f(-2,2)},b.quat(0.8),b.f(0.1,1.3),r.p(0.7)?0:b.f(0,0.45),scale*b.f(0.5,2),up); if(r.p(0.4)) b.add(SETVEL,{its.back().id},b.v3(1.5)); if(r.p(0.4)) b.add(SETANG,{its.back().id},b.v3(3)); }
  else if(kind==1) for(int k=0;k<n;k++){ double q=b.f(0.3,0.7); int sh=shape(SPHERE,{q}); body(sh,{-4.5+3.0*k,q+b.f(0.1,3),b.f(-2,2)},b.quat(),r.p(0.3)?0:b.f(0,1.2),b.f(0,1),scale*b.f(0.5,2),q); if(r.p(0.6)) b.add(SETVEL,{its.back().id},b.v3(2)); if(r.p(0.5)) b.add(SETANG,{its.back().id},b.v3(6)); }
  else if(kind==2||kind==3) for(int k=0;k<n;k++){ std::vector<double> h; int sh=box(h); double z=b.f(-2,2); auto p=world(-4.5+3.0*k,h[1]+b.f(-0.005,0.01),z); g::Q q=SQ; if(r.p(0.5)){ double y=r.u(0,6.28); q=g::qmul(SQ,g::Q{0,std::sin(y/2),0,std::cos(y/2)}); } body(sh,p,{q.x,q.y,q.z,q.w},r.p(0.1)?0:b.f(0.02,1.5),0,scale*b.f(0.5,2),h[1]); if(r.p(0.7)) b.add(SETVEL,{its.back().id},world(b.f(-3,3),0,b.f(-3,3))); if(r.p(0.2)) b.add(SETANG,{its.back().id},world(0,b.f(-4,4),0)); }
  else if(kind==4) for(int k=0;k<2;k++){ double y=0; int high=r.in(1,4); double x=-3+6*k+b.f(-0.5,0.5),z=b.f(-2,2); std::vector<double> h={b.f(0.4,0.7),b.f(0.3,0.6),b.f(0.4,0.7)}; double de=scale*b.f(0.5,2); for(int q=0;q<high;q++){ int sh=shape(BOX,h); body(sh,{x,y+h[1]+b.f(0,0.01),z},{0,0,0,1},b.f(0.3,1.2),r.p(0.8)?0:b.f(0,0.25),de,h[1]); y+=2*h[1]+0.005; x+=b.f(-0.05,0.05); z+=b.f(-0.05,0.05); if(r.p(0.5)){ h[0]*=b.f(0.8,1.0); h[2]*=b.f(0.8,1.0); h[1]=b.f(0.3,0.6); de*=b.f(0.7,1.1); } } }
  else for(int k=0;k<n;k++){ double up; int sh=any(up); body(sh,{4.0*k,0,0},b.quat(),b.f(0,1.2),r.p(0.4)?0:b.f(0,1),scale*b.f(0.5,2),up); b.add(SETVEL,{its.back().id},{-1.5*k+b.f(-0.5,0.5),b.f(-0.2,0.2),b.f(-0.2,0.2)}); if(r.p(0.6)) b.add(SETANG,{its.back().id},b.v3(3)); }
  auto rest=[&](int m){ for(int k=0;k<m;k++) b.add(UPDATE,{W},{mixed&&r.p(0.3)?b.f(0.008,0.02):step}); };
  int phases=r.in(1,3); rest(r.in(60,200)); for(int ph=0;ph<phases;ph++){ if(its.empty()) break; int ops=r.in(1,3); for(int k=0;k<ops;k++){ auto& I=its[r.n((int)its.size())]; if(r.p(0.15)){ /* frozen while it moves, the others come to lie on it */ if(r.p(0.7)){ b.add(SETVEL,{I.id},world(b.f(-3,3),b.f(-1,3),b.f(-3,3))); b.add(SETANG,{I.id},b.v3(4)); rest(r.in(1,12)); } b.add(SETTYPE,{I.id,T_STATIC}); for(auto&O:its) if(O.id!=I.id&&r.p(0.5)) b.add(SETXF,{O.id},b.cat({I.p[0]+b.f(-0.3,0.3),I.p[1]+b.f(0.8,2),I.p[2]+b.f(-0.3,0.3)},b.quat())); rest(r.in(60,200)); if(r.p(0.6)) b.add(SETTYPE,{I.id,T_DYN}); continue; } switch(r.n(12)){ case 0: case 1: b.add(SETVEL,{I.id},world(b.f(-2,2),b.f(0,1.5),b.f(-2,2))); break; case 2: b.add(SETANG,{I.id},b.v3(3)); break; case 3: b.add(MAT,{I.col,0},{b.f(0,1.5),r.p(0.7)?0:b.f(0,1),scale*b.f(0.5,2)}); break; case 4: b.add(ACTIVE,{I.id,0}); rest(r.in(1,10)); b.add(ACTIVE,{I.id,1}); break; case 5: b.add(SLEEP,{I.id,1}); break; case 6: case 7: b.add(SETXF,{I.id},b.cat({I.p[0]+b.f(-0.5,0.5),I.p[1]+b.f(0.2,1.5),I.p[2]+b.f(-0.5,0.5)},b.quat())); break; case 8: if(supCol>=0) b.add(MAT,{supCol,0},{b.f(0,1.5),r.p(0.6)?0:b.f(0,1),1}); break; case 9: b.add(UPDMASS,{I.id,0}); break; case 10: b.add(FORCE,{I.id,0},b.v3(5)); break; default: b.add(SETTYPE,{I.id,T_KIN}); rest(r.in(1,6)); b.add(SETTYPE,{I.id,T_DYN}); } } rest(r.in(60,200)); }
  rest(r.p(0.5)?700:100); return b.t; }
Trace generateDyn(const std::string& prop,u64 seed){ Rng r(mix(seed,0xD7)); for(char c:prop) r=Rng(mix(r.next(),(u64)c));
  if(prop=="C11"){ Prof p; p.ground=0; p.gravity=r.p(0.3); p.pKin=p.pStatic=0; p.locks=false; p.types=false; p.sleeping=false; p.region=r.u(0.8,2.0); p.bodies0=r.in(3,10); p.steps=r.in(20,60); p.opsPerStep=r.u(0.1,1.2); p.damping=r.p(0.3); p.pJoint=r.p(0.5)?0:0.4; p.motors=r.p(0.4); p.baum=r.p(0.3); p.bounceMax=r.p(0.6)?0:1; p.pTrigger=0.03; p.dt=r.p(0.7)?0:1; p.speed=r.p(0.3)?8:3; p.filters=false; p.touchFlags=false; p.queries=false; p.destroy=r.p(0.5); return generateWith(r,p); }
  if(prop=="C13") return jointScene(r);
  if(prop=="C14") return contactScene(r);
  return Trace(); }
}
