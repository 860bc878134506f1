// C14: contacts hold bodies apart, settle and obey friction and bounciness. Included by dyn.cpp.
struct C14 : DynBase { explicit C14(Sim& q):DynBase(q,"C14"){}
  struct Mem { double gapDepth=0; double quietT=0; bool above=false; int support=-1,base=-1; V p0; Q q0; bool stacked=false; };
  std::map<int,Mem> mem; std::map<int,bool> slowG; std::map<int,double> maxDt;
  struct Plane { bool ok=false; V n,c,ax,az; double hx=0,hz=0; };
  // flat top of an immovable support
  Plane top(int body,V up) const { Plane P; const BodyRec& b=s.bodies.at(body); if(!b.active||b.type!=T_STATIC||b.cols.size()!=1) return P; const ColRec& c=s.cols.at(b.cols[0]); if(c.trig||!c.simf||!c.c) return P; const ShapeRec& S=s.shapes.at(c.shape); X x=comp(GX(b.b->getTransform()),GX(c.xf));
    if(S.kind==BOX){ V ax[3]={rot(x.q,V(1,0,0)),rot(x.q,V(0,1,0)),rot(x.q,V(0,0,1))}; int k=0; for(int q=1;q<3;q++) if(std::fabs(dot(ax[q],up))>std::fabs(dot(ax[k],up))) k=q; double sg=dot(ax[k],up)<0?-1:1; P.n=ax[k]*sg; P.c=x.p+P.n*S.p[k]; P.ax=ax[(k+1)%3]; P.az=ax[(k+2)%3]; P.hx=S.p[(k+1)%3]; P.hz=S.p[(k+2)%3]; P.ok=true; return P; }
    if(S.convex()) return P; Geo G=s.colGeo(b.cols[0]); if(G.t.empty()) return P; P.n=rot(x.q,V(0,1,0)); V o=G.t[0].a; P.ax=rot(x.q,V(1,0,0)); P.az=rot(x.q,V(0,0,1)); double lo[2]={1e300,1e300},hi[2]={-1e300,-1e300};
    for(auto&t:G.t) for(V v:{t.a,t.b,t.c}){ V d=v-o; if(std::fabs(dot(d,P.n))>1e-4) return P; double u[2]={dot(d,P.ax),dot(d,P.az)}; for(int q=0;q<2;q++){ lo[q]=std::min(lo[q],u[q]); hi[q]=std::max(hi[q],u[q]); } }
    for(auto&t:G.t) if(dot(cross(t.b-t.a,t.c-t.a),P.n)<=0) return P;
    P.c=o+P.ax*((lo[0]+hi[0])/2)+P.az*((lo[1]+hi[1])/2); P.hx=(hi[0]-lo[0])/2; P.hz=(hi[1]-lo[1])/2; P.ok=true; return P; }
  bool inside(const Plane& P,V p,double margin) const { V d=p-P.c; return std::fabs(dot(d,P.ax))<P.hx-margin&&std::fabs(dot(d,P.az))<P.hz-margin; }
  double radius(int body,bool inner) const { const BodyRec& b=s.bodies.at(body); double R=inner?1e300:0; if(b.cols.empty()) return 0; for(int c:b.cols){ const ShapeRec& S=s.shapes.at(s.cols.at(c).shape); double o=0,i=0; switch(S.kind){ case SPHERE: o=i=S.p[0]; break; case CAPSULE: i=S.p[0]; o=S.p[0]+S.p[1]/2; break; case BOX: i=std::min({S.p[0],S.p[1],S.p[2]}); o=std::sqrt(S.p[0]*S.p[0]+S.p[1]*S.p[1]+S.p[2]*S.p[2]); break; default: { Geo G=s.shapeGeo(s.cols.at(c).shape); i=1e300; for(auto&f:G.c.f){ V n=norm(cross(G.c.v[f.v[1]]-G.c.v[f.v[0]],G.c.v[f.v[2]]-G.c.v[f.v[0]])); i=std::min(i,std::fabs(dot(n,G.c.v[f.v[0]]))); } for(auto&v:G.c.v) o=std::max(o,len(v)); } } double off=dist(GV(s.cols.at(c).xf.getPosition()),GV(b.b->getLocalCenterOfMass())); if(inner) R=std::min(R,i); else R=std::max(R,o+off); } return R; }
  // one collider centred on its body, no joint, nothing locked or damped away, inertia as its shape has it
  bool plain(int body) const { const BodyRec& b=s.bodies.at(body); if(!b.active||b.type!=T_DYN||b.cols.size()!=1||!b.joints.empty()) return false; const ColRec& c=s.cols.at(b.cols[0]); if(c.trig||!c.simf) return false; const ShapeRec& S=s.shapes.at(c.shape); if(len(GV(b.b->getLocalCenterOfMass())-GV(c.xf.getPosition()))>0.25*radius(body,true)) return false; (void)S; return eq(b.ll,rp::Vector3(1,1,1))&&eq(b.al,rp::Vector3(1,1,1))&&(double)b.b->getMass()>0; }
  bool sane(const Pre& p,double R) const { double lo=std::min({p.I.x,p.I.y,p.I.z}),hi=std::max({p.I.x,p.I.y,p.I.z}); return lo>0.05*p.m*R*R*0.2&&hi<3*p.m*R*R; }
  void postUpdate(int w,double dt) override { WorldRec& W=s.worlds.at(w); double h=(double)(dec)dt; if(calmN[w]==0){ maxDt[w]=0; begin(w); } maxDt[w]=std::max(maxDt[w],dt); tick(w,dt); if(!W.listening) return;
    std::map<int,int> n; for(auto&e:s.events) if(solved(e)){ n[e.b1]++; n[e.b2]++; }
    for(auto&e:s.events) if(solved(e)) impulse(w,h,e,n,W);
    history(w,dt,n,W); }
  // ---- per update: the impulse through one contact pair
  void impulse(int w,double h,const Ev& e,std::map<int,int>& n,WorldRec& W){
    for(int side=0;side<2;side++){ int b=side?e.b2:e.b1,o=side?e.b1:e.b2; auto pi=pre.find(b),po=pre.find(o); if(pi==pre.end()||po==pre.end()) continue; Pre& p=pi->second; BodyRec& B=s.bodies.at(b); BodyRec& O=s.bodies.at(o); if(!p.ok||n[b]!=1||!B.joints.empty()||e.pts.empty()||B.b->isSleeping()) continue; // a body put to sleep by this update has had its velocity taken away
      int cb=side?e.c2:e.c1; double sg=side?1:-1; V nn=e.pts[0].n; bool same=true; for(auto&c:e.pts) if(dot(c.n,nn)<0.9998) same=false; if(!same){ s.st["contact_curved_n"]++; continue; }
      V dirn=nn*sg; V J=(velNow(b)-p.vFree)*p.m, H=inertia(p,angNow(b)-p.wFree); double Jn=dot(J,dirn); V Jt=J-dirn*Jn; double mu=friction(e);
      double tol=3e-5*p.m*(1+len(p.vFree)+len(velNow(b)))+2e-3*len(J); s.st["impulse_checked"]++; mx("pull",(-Jn)/tol); if(-Jn>tol) bad(fmt("the contact of colliders %d and %d pulls body %d with an impulse of %.4g",e.c1,e.c2,b,-Jn));
      mx("friction_excess",(len(Jt)-1.4143*mu*Jn)/tol); if(len(Jt)>1.4143*mu*std::max(0.0,Jn)+tol+0.03*std::fabs(Jn)) bad(fmt("the friction impulse %.4g on body %d exceeds the normal impulse %.4g times the coefficient %.4g",len(Jt),b,Jn,mu));
      V r(0,0,0); for(auto&c:e.pts) r=r+colPoint(cb,side?c.l2:c.l1,false); r=r*(1.0/e.pts.size())-p.com; bool single=e.pts.size()==1;
      if(single){ V d=H-cross(r,J); V dp=d-dirn*dot(d,dirn); double tt=1e-3*(len(H)+len(r)*len(J))+5e-5*(len(p.I)*(1+len(p.wFree)+len(angNow(b)))+p.m*(0.05+len(r))*(1+len(p.vFree)+len(velNow(b)))); mx("lever",len(dp)/tt); s.st["lever_checked"]++; if(len(dp)>tt) bad(fmt("the impulse of the only contact point of body %d does not act at this point (angular impulse %.4g away from %.4g)",b,len(dp),len(H))); }
      // relative velocity at the contact: the other body must have its final velocity determined by this contact alone
      Pre& q=po->second; bool fixedO=O.type!=T_DYN; if(!fixedO&&(!q.ok||n[o]!=1||!O.joints.empty()||side==0)) continue; if(!W.split||W.itv<6||!s.bodies.at(b).active||!O.active) continue;
      int co=side?e.c1:e.c2; auto relAt=[&](V pb,V po2,bool before){ V vb=before?p.v:velNow(b),wb=before?p.w:angNow(b),vo=before?q.v:velNow(o),wo=before?q.w:angNow(o); if(O.type==T_STATIC) vo=wo=V(0,0,0); return vb+cross(wb,pb-p.com)-vo-cross(wo,po2-q.com); };
      double worst=0,speed=len(p.vFree)+len(p.wFree)*len(r)+(fixedO?len(q.v)+len(q.w)*2:len(q.vFree)+len(q.wFree)*2); int cnt=0; V pb0,po0; for(auto&c:e.pts){ V pb=colPoint(cb,side?c.l2:c.l1,false),po2=colPoint(co,side?c.l1:c.l2,false); if(cnt++==0){ pb0=pb; po0=po2; } worst=std::max(worst,-dot(relAt(pb,po2,false),dirn)); }
      double R=radius(b,false); bool cond=sane(p,R)&&(fixedO||(sane(q,radius(o,false))&&q.m<10*p.m&&p.m<10*q.m)); if(!cond) continue;
      mx("approach",worst-0.1*speed); s.st["approach_checked"]++; /* strong friction couples the directions and slows the solver down */ if(worst>0.1+(0.35+0.5*std::max(0.0,mu-0.6))*speed) bad(fmt("body %d still moves into body %d with %.4g m/s at their contact after the contacts have been solved",b,o,worst));
      if(single){ double r1=len(cross(r,dirn)); double r2=fixedO?0:len(cross(colPoint(co,side?e.pts[0].l1:e.pts[0].l2,false)-q.com,dirn)); double vb=dot(relAt(pb0,po0,true),dirn),va=dot(relAt(pb0,po0,false),dirn); 
        // velocity without the contact
        V fb=p.vFree+cross(p.wFree,pb0-p.com),fo=fixedO?(O.type==T_STATIC?V(0,0,0):q.v+cross(q.w,po0-q.com)):q.vFree+cross(q.wFree,po0-q.com); double vf=dot(fb-fo,dirn); double reb=(vb<-(double)W.restThr)?-bounce(e)*vb:0; double want=std::max(vf,reb); double vt=1e-4*(1+speed)+2e-3*std::fabs(vb);
        if(r1<2e-3*R&&r2<2e-3*R&&(fixedO||q.ok)){ if(std::fabs(vb+(double)W.restThr)>1e-3){ mx("rebound",std::fabs(va-want)-vt); s.st["rebound_checked"]++; if(std::fabs(va-want)>vt+2e-3*speed) bad(fmt("bodies %d and %d separate with %.5g m/s after an approach with %.5g m/s, bounciness %.4g asks for %.5g",b,o,va,vb,bounce(e),want)); } }
        else { double lim=std::max({vf,reb,0.0}); mx("rebound_off",(va-lim)-0.1*speed); s.st["rebound_off_checked"]++; if(va>lim+0.05+0.3*speed) bad(fmt("bodies %d and %d separate with %.5g m/s after an approach with %.5g m/s and bounciness %.4g",b,o,va,vb,bounce(e))); } }
      // Coulomb: slipping means friction at its limit and against the slip
      bool oneManifold=single||(s.shapes.at(s.cols.at(e.c1).shape).convex()&&s.shapes.at(s.cols.at(e.c2).shape).convex()&&e.pts.size()<=4);
      if(oneManifold&&Jn>tol*5){ V mb(0,0,0),mo(0,0,0); for(auto&c:e.pts){ mb=mb+colPoint(cb,side?c.l2:c.l1,false); mo=mo+colPoint(co,side?c.l1:c.l2,false); } mb=mb*(1.0/e.pts.size()); mo=mo*(1.0/e.pts.size()); V v=relAt(mb,mo,false); V vt=v-dirn*dot(v,dirn); double slip=len(vt); s.st["coulomb_checked"]++;
        if(slip>0.05+0.1*speed){ s.st["slip_checked"]++; mx("slip_lack",(0.95*mu*Jn-len(Jt))/tol); if(len(Jt)<0.9*mu*Jn-tol) bad(fmt("body %d slips with %.4g m/s over body %d with a friction impulse of only %.4g (coefficient %.4g, normal impulse %.4g)",b,slip,o,len(Jt),mu,Jn)); mx("slip_drive",dot(Jt,vt)/(tol*slip)); if(dot(Jt,vt)>tol*slip*2+0.02*len(Jt)*slip) bad(fmt("friction accelerates the slip of body %d over body %d",b,o)); } } } }
  // ---- over the calm history
  void begin(int w){ for(auto&k:s.bodies) if(k.second.world==w){ Mem& m=mem[k.first]; m=Mem(); BodyRec& b=k.second; if(!plain(k.first)) continue; auto pi=pre.find(k.first); if(pi==pre.end()) continue; V up=norm(GV(s.worlds.at(w).g)*-1); if(!s.worlds.at(w).grav||len(GV(s.worlds.at(w).g))<1||!b.grav) continue;
      for(auto&q:s.bodies) if(q.second.world==w&&q.first!=k.first){ Plane P=top(q.first,up); if(!P.ok||dot(P.n,up)<0.5) continue; double hgt=dot(pi->second.com-P.c,P.n); if(inside(P,pi->second.com,0)&&hgt>0.3*radius(k.first,true)){ m.above=true; m.support=q.first; } } }
    stacks(w); }
  // boxes piled on a horizontal support at rest, upright and well centred
  void stacks(int w){ V g=GV(s.worlds.at(w).g); if(!s.worlds.at(w).grav||g.y>-5||std::fabs(g.x)+std::fabs(g.z)>1e-6) return; std::map<int,V> he; for(auto&k:s.bodies) if(k.second.world==w){ int b=k.first; BodyRec& B=k.second; if(!plain(b)||!B.grav) continue; ColRec& c=s.cols.at(B.cols[0]); ShapeRec& S=s.shapes.at(c.shape); Pre& p=pre[b]; if(S.kind!=BOX||len(GV(c.xf.getPosition()))>1e-6||std::fabs(c.xf.getOrientation().w)<0.999999) continue; if(std::hypot(p.vFree.x,p.vFree.z)>1e-4||p.vFree.y>1e-4||len(p.wFree)>1e-4) continue; if(len(p.v)>1e-6||len(p.w)>1e-6||len(GV(B.b->getForce()))+len(GV(B.b->getTorque()))>0) continue; if(std::fabs(p.q.x)+std::fabs(p.q.z)>1e-4||std::fabs(p.q.y)>1e-4) continue; double m=p.m,hx=S.p[0],hy=S.p[1],hz=S.p[2]; double Ix=m*(hy*hy+hz*hz)/3; if(std::fabs(p.I.x-Ix)>0.05*Ix||dist(p.com,p.xf.p)>1e-4||c.fric<0.25||c.bounce>0.3) continue; he[b]=V(hx,hy,hz); }
    for(auto&k:he){ // supported directly by a static plane or by another candidate, nobody else near
      int b=k.first; V p=pre[b].com,H=k.second; int below=0,other=0; int on=-1; for(auto&q:s.bodies) if(q.second.world==w&&q.first!=b){ if(q.second.type==T_STATIC){ Plane P=top(q.first,V(0,1,0)); if(P.ok&&dot(P.n,V(0,1,0))>0.9999&&inside(P,p,std::max(H.x,H.z)*1.5)){ double gap=p.y-H.y-P.c.y; if(std::fabs(gap)<0.02){ below++; on=q.first; auto&C=s.cols.at(q.second.cols[0]); if(C.fric<0.25||C.bounce>0.3) other++; } else if(gap<0) other++; } else if(!P.ok&&q.second.active) other++; if(q.first!=on&&q.second.active&&q.second.b->getNbColliders()>0){ rp::AABB z=s.bodies.at(b).b->getAABB(),y=q.second.b->getAABB(); V zl=GV(z.getMin()),zh=GV(z.getMax()),yl=GV(y.getMin()),yh=GV(y.getMax()); if(zl.x<yh.x+0.1&&yl.x<zh.x+0.1&&zl.y<yh.y+0.1&&yl.y<zh.y+0.1&&zl.z<yh.z+0.1&&yl.z<zh.z+0.1) other++; } /* beside or inside something immovable */ }
        else if(he.count(q.first)){ V r=pre[q.first].com; V K=he[q.first]; double gap=p.y-H.y-(r.y+K.y); bool over=std::fabs(p.x-r.x)<H.x+K.x+0.3&&std::fabs(p.z-r.z)<H.z+K.z+0.3; if(!over) continue; if(std::fabs(gap)<0.02&&std::fabs(p.x-r.x)<0.25*std::min(H.x,K.x)&&std::fabs(p.z-r.z)<0.25*std::min(H.z,K.z)&&H.x<1.25*K.x&&H.z<1.25*K.z){ below++; on=q.first; double ra=pre[b].m/pre[q.first].m; if(ra>2||ra<0.2) other++; } else if(p.y>r.y-0.01&&std::fabs(gap)<1.5&&gap<0.02) other++; }
        else if(dist(pre[q.first].com,p)<3+radius(q.first,false)) other++; }
      Mem& m=mem[b]; m.stacked=below==1&&other==0; m.base=on; m.p0=p; m.q0=pre[b].q; }
    bool ch=true; while(ch){ ch=false; for(auto&k:he) if(mem[k.first].stacked&&s.bodies.at(mem[k.first].base).type==T_DYN&&!mem[mem[k.first].base].stacked){ mem[k.first].stacked=false; ch=true; } for(auto&k:he) if(mem[k.first].stacked) for(auto&q:he) if(q.first!=k.first&&!mem[q.first].stacked&&dist(pre[q.first].com,pre[k.first].com)<3) { mem[k.first].stacked=false; ch=true; } }
    std::map<int,int> high; for(auto&k:he) if(mem[k.first].stacked){ int d=0,b=k.first; while(s.bodies.at(b).type==T_DYN&&d<10){ d++; b=mem[b].base; } if(d>3){ for(b=k.first;he.count(b)&&s.bodies.at(b).type==T_DYN;b=mem[b].base) mem[b].stacked=false; } } }
  void history(int w,double dt,std::map<int,int>& n,WorldRec& W){ V up=norm(GV(W.g)*-1); std::map<int,std::set<int>> on; for(auto&e:s.events) if(solved(e)){ on[e.b1].insert(e.b2); on[e.b2].insert(e.b1); }
    bool hit=true; while(hit){ hit=false; for(auto&k:on) if(mem.count(k.first)&&mem[k.first].stacked) for(int o:k.second) if(s.bodies.at(o).type!=T_STATIC&&!mem[o].stacked){ mem[k.first].stacked=false; hit=true; break; } } // struck by something else
    for(auto&k:s.bodies) if(k.second.world==w){ int b=k.first; BodyRec& B=k.second; Mem& m=mem[b]; if(maxDt[w]>1.0/45||W.itv<6||W.itp<3||!W.grav||!W.split) continue;
      if(m.stacked){ V d=comNow(b)-m.p0; double a=qdiff(GX(B.b->getTransform()).q,m.q0); mx("stack_move",len(d)); mx("stack_turn",a); s.st["stack_checked"]++; if(len(d)>0.2||a>0.1) bad(fmt("body %d of a stack at rest moved by %.4g m and turned by %.4g rad in %.3g s",b,len(d),a,calmT[w])); }
      if(!m.above||!plain(b)||!s.bodies.count(m.support)) continue; Plane P=top(m.support,up); if(!P.ok) continue; V c=comNow(b); double R=radius(b,true),hgt=dot(c-P.c,P.n); Pre& p=pre[b];
      if(!inside(P,c,0)||len(p.v)*dt>0.4*R||!sane(p,radius(b,false))){ m.above=false; continue; } // walked over the edge or flies so fast that discrete steps can jump
      // anything pressing from above voids the bound
      bool onlySupport=true; for(int o:on[b]) if(o!=m.support) onlySupport=false; if(!onlySupport){ m.quietT=0; if(hgt<0) m.above=false; continue; }
      if(s.cols.at(s.bodies.at(m.support).cols[0]).mask==0) continue; ColRec& cb=s.cols.at(B.cols[0]); ColRec& cs=s.cols.at(s.bodies.at(m.support).cols[0]); if(!(cb.cat&cs.mask)||!(cs.cat&cb.mask)){ m.above=false; continue; }
      s.st["through_checked"]++; mx("under",0.5*R-hgt); if(hgt<0) bad(fmt("body %d went through its support %d",b,m.support));
      if(calmT[w]<1) continue; double depth=0; for(auto&e:s.events) if(solved(e)&&(e.b1==b||e.b2==b)) for(auto&q:e.pts) depth=std::max(depth,q.depth); if(len(velNow(b))<0.5){ mx("depth",depth); s.st["depth_checked"]++; if(depth>0.2) bad(fmt("body %d is %.4g m deep in its support %d",b,depth,m.support)); }
      // comes to rest
      ShapeRec& S=s.shapes.at(cb.shape); double mu=std::sqrt((double)cb.fric*(double)cs.fric),e=std::max((double)cb.bounce,(double)cs.bounce); bool flat=S.kind==BOX||S.kind==CONVEX; double v0=len(p.v); (void)v0;
      if(flat&&dot(P.n,up)>0.9999&&mu>0.15&&e<0.5&&std::fabs(len(GV(W.g))-9.81)<3&&inside(P,c,radius(b,false))){ m.quietT+=dt; if(m.quietT>8){ double v=len(velNow(b)),a=len(angNow(b)); s.st["rest_checked"]++; mx("rest_v",v); mx("rest_w",a); if(v>0.1||a>0.3) bad(fmt("body %d still moves with %.4g m/s and %.4g rad/s after %.3g undisturbed seconds on a level support",b,v,a,m.quietT)); } } else m.quietT=0; } }
};
