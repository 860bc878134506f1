// C23: the debug renderer shows exactly what is in the world. Included by checks.cpp.
struct C23 : Checker { Sim& s; explicit C23(Sim& q):s(q){} std::map<int,std::pair<rp::Transform,double>> pre;
  typedef rp::DebugRenderer DR; struct T3 { V a,b,c; }; struct L2 { V a,b; };
  void F(const std::string& m){ s.fail("C23",m); }
  static double tolAt(V p){ return 2e-6+64*EPS*(1+len(p)); }
  void preUpdate(int,double) override { pre.clear(); for(auto&k:s.cols) pre[k.first]={k.second.c->getLocalToWorldTransform(),0}; }
  // takes triangles from position "at" until they form a closed surface, every corner of which satisfies "on"
  template<class P> size_t closed(const std::vector<T3>& t,size_t at,double vt,const std::string& what,P on,double* volume,V ref){ std::vector<V> u; std::map<std::pair<int,int>,int> cnt; long open=0; double vol=0; size_t k=at;
    auto id=[&](V p){ for(size_t q=u.size();q-->0;) if(dist(u[q],p)<vt) return (int)q; on(p); u.push_back(p); return (int)u.size()-1; };
    for(;k<t.size();){ int i[3]={id(t[k].a),id(t[k].b),id(t[k].c)}; vol+=std::fabs(dot(t[k].a-ref,cross(t[k].b-ref,t[k].c-ref)))/6; k++; if(i[0]==i[1]||i[1]==i[2]||i[0]==i[2]) F(fmt("a triangle of %s has no area",what.c_str()));
      for(int q=0;q<3;q++){ int a=i[q],b=i[(q+1)%3]; int&n=cnt[{std::min(a,b),std::max(a,b)}]; n++; if(n==1) open++; else if(n==2) open--; else F(fmt("the triangles drawn for %s overlap",what.c_str())); } if(open==0){ if(volume) *volume=vol; return k-at; } }
    F(fmt("the triangles drawn for %s leave a hole",what.c_str())); return 0; }
  static const char* kn(int k){ static const char* n[]={"sphere","capsule","box","convex mesh","triangle mesh","height field"}; return n[k]; }
  void postUpdate(int wi,double) override { WorldRec& w=s.worlds.at(wi); if(!w.debug) return; DR& d=w.w->getDebugRenderer(); auto shown=[&](DR::DebugItem i){ return d.getIsDebugItemDisplayed(i); };
    std::map<unsigned,std::vector<T3>> tri; std::map<unsigned,std::vector<L2>> lin; for(auto&k:s.bodies) if(k.second.world==wi&&!(len(GV(k.second.b->getTransform().getPosition()))<2000)) return; s.st["debug_updates"]++;
    for(rp::uint32 k=0;k<d.getNbTriangles();k++){ auto&t=d.getTriangles()[k]; if(t.color1!=t.color2||t.color1!=t.color3) F("a debug triangle has corners of different colours"); T3 q{GV(t.point1),GV(t.point2),GV(t.point3)}; if(!finite(q.a)||!finite(q.b)||!finite(q.c)) F("a debug triangle is not finite"); tri[t.color1].push_back(q); }
    for(rp::uint32 k=0;k<d.getNbLines();k++){ auto&t=d.getLines()[k]; if(t.color1!=t.color2) F("a debug line has ends of different colours"); L2 q{GV(t.point1),GV(t.point2)}; if(!finite(q.a)||!finite(q.b)) F("a debug line is not finite"); lin[t.color1].push_back(q); }
    const unsigned MAG=(unsigned)DR::DebugColor::MAGENTA,YEL=(unsigned)DR::DebugColor::YELLOW,GRE=(unsigned)DR::DebugColor::GREEN,RED=(unsigned)DR::DebugColor::RED,WHI=(unsigned)DR::DebugColor::WHITE,BLU=(unsigned)DR::DebugColor::BLUE;
    for(auto&k:tri) if(k.first!=GRE&&k.first!=RED) F(fmt("a debug triangle has the colour %06x of no item",k.first)); for(auto&k:lin) if(k.first!=MAG&&k.first!=YEL&&k.first!=WHI&&k.first!=BLU) F(fmt("a debug line has the colour %06x of no item",k.first));
    // contacts of this update
    if(w.listening){ std::vector<std::pair<V,V>> pts; bool known=true; for(auto&e:s.events) if(!e.trig&&e.kind<2){ if(!pre.count(e.c1)){ known=false; break; } X x=GX(pre[e.c1].first); for(auto&p:e.pts) pts.push_back({app(x,p.l1),p.n}); }
      if(known){ double r=(double)d.getContactPointSphereRadius(),nl=(double)d.getContactNormalLength(); auto& R=tri[RED]; auto& N=lin[WHI];
        if(!shown(DR::DebugItem::CONTACT_POINT)){ if(R.size()) F("contact points are drawn although they are not displayed"); }
        else { size_t at=0,per=0; if(pts.size()&&R.size()>=pts.size()) per=R.size()/pts.size(); if(per*pts.size()!=R.size()) F(fmt("%zu triangles are drawn for %zu contact points",R.size(),pts.size())); for(size_t q=0;q<pts.size();q++){ V c=pts[q].first; if(q<2){ size_t n=closed(R,at,1e-3*r+2*tolAt(c),"a contact point",[&](V p){ double e=std::fabs(dist(p,c)-r); if(e>1e-3*r+2*tolAt(c)) F(fmt("a contact point is drawn %.4g away from where it is",e)); },nullptr,c); if(n!=per) F("contact points are drawn differently"); at+=n; }
            else { for(size_t z=0;z<per;z++,at++) for(V p:{R[at].a,R[at].b,R[at].c}){ double e=std::fabs(dist(p,c)-r); if(e>1e-3*r+2*tolAt(c)) F(fmt("a contact point is drawn %.4g away from where it is",e)); } } s.st["debug_contacts"]++; } }
        if(!shown(DR::DebugItem::CONTACT_NORMAL)){ if(N.size()) F("contact normals are drawn although they are not displayed"); }
        else { if(N.size()!=pts.size()) F(fmt("%zu contact normals are drawn for %zu contact points",N.size(),pts.size())); for(size_t q=0;q<pts.size();q++){ V c=pts[q].first,e=c+pts[q].second*nl; if(dist(N[q].a,c)>2*tolAt(c)||dist(N[q].b,e)>2*tolAt(e)) F(fmt("a contact normal is drawn %.4g / %.4g away from where it is",dist(N[q].a,c),dist(N[q].b,e))); } } } }
    // bodies
    size_t tg=0,lm=0,ly=0,lb=0; auto& G=tri[GRE]; auto& M=lin[MAG]; auto& Y=lin[YEL]; auto& B=lin[BLU];
    auto boxOf=[&](const std::vector<L2>& L,size_t at,const char* what){ if(L.size()<at+12) F(fmt("the %s box of a collider is not drawn",what)); Box3 b; b.lo=V(1e300,1e300,1e300); b.hi=b.lo*-1; for(size_t q=at;q<at+12;q++) for(V p:{L[q].a,L[q].b}){ b.lo=V(std::min(b.lo.x,p.x),std::min(b.lo.y,p.y),std::min(b.lo.z,p.z)); b.hi=V(std::max(b.hi.x,p.x),std::max(b.hi.y,p.y),std::max(b.hi.z,p.z)); }
      std::set<std::pair<int,int>> es; for(size_t q=at;q<at+12;q++){ int c[2]; V pp[2]={L[q].a,L[q].b}; for(int z=0;z<2;z++){ c[z]=0; double p3[3]={pp[z].x,pp[z].y,pp[z].z},l3[3]={b.lo.x,b.lo.y,b.lo.z},h3[3]={b.hi.x,b.hi.y,b.hi.z}; for(int i=0;i<3;i++){ if(p3[i]==h3[i]) c[z]|=1<<i; else if(p3[i]!=l3[i]) F(fmt("a line of the %s box of a collider does not run along the box",what)); } } bool flat=b.lo.x==b.hi.x||b.lo.y==b.hi.y||b.lo.z==b.hi.z; int x=c[0]^c[1]; if(!flat&&x!=1&&x!=2&&x!=4) F(fmt("a line of the %s box of a collider is no edge of the box",what)); if(!flat) es.insert({std::min(c[0],c[1]),std::max(c[0],c[1])}); else es.insert({(int)q,0}); }
      if(es.size()!=12) F(fmt("an edge of the %s box of a collider is missing",what)); return b; };
    for(rp::uint32 bi=0;bi<w.w->getNbRigidBodies();bi++){ const rp::RigidBody* rb=w.w->getRigidBody(bi); auto it=s.pBody.find(rb); if(it==s.pBody.end()) F("the world lists a body that does not exist"); BodyRec& br=s.bodies.at(it->second); if(!br.active||!br.debug) continue;
      for(rp::uint32 ci=0;ci<rb->getNbColliders();ci++){ const rp::Collider* c=rb->getCollider(ci); auto ic=s.pCol.find(c); if(ic==s.pCol.end()) F("a body lists a collider that does not exist"); ColRec& cr=s.cols.at(ic->second); ShapeRec& sh=s.shapes.at(cr.shape); X x=GX(c->getLocalToWorldTransform()); double tp=tolAt(x.p); s.st["debug_colliders"]++;
        rp::AABB ab=c->getWorldAABB(); V lo=GV(ab.getMin()),hi=GV(ab.getMax());
        if(shown(DR::DebugItem::COLLIDER_AABB)){ Box3 b=boxOf(M,lm,"bounding"); lm+=12; if(dist(b.lo,lo)>tp||dist(b.hi,hi)>tp) F(fmt("the bounding box of collider %d is drawn somewhere else",ic->second)); }
        if(shown(DR::DebugItem::COLLIDER_BROADPHASE_AABB)){ Box3 b=boxOf(Y,ly,"broad-phase"); ly+=12; double e=tp; if(b.lo.x>lo.x+e||b.lo.y>lo.y+e||b.lo.z>lo.z+e||b.hi.x<hi.x-e||b.hi.y<hi.y-e||b.hi.z<hi.z-e) F(fmt("the broad-phase box drawn for collider %d does not contain its bounds",ic->second)); }
        Geo gg=s.shapeGeo(cr.shape); for(auto&v:gg.c.v) v=app(x,v); for(auto&f:gg.c.f){ V o=app(x,V(0,0,0)); f.n=app(x,f.n)-o; f.d+=dot(f.n,o); } for(auto&t:gg.t){ t.a=app(x,t.a); t.b=app(x,t.b); t.c=app(x,t.c); } double sz=geoScale(bounds(gg)); double tol=tp+1e-5*sz+64*EPS*sz;
        std::string nm=fmt("collider %d (%s)",ic->second,kn(sh.kind));
        if(shown(DR::DebugItem::COLLISION_SHAPE)){ if(!sh.convex()){ if(G.size()<tg+gg.t.size()) F(fmt("%s is not drawn completely",nm.c_str())); for(size_t q=0;q<gg.t.size();q++){ const T3& t=G[tg+q]; auto same=[&](const Tri& m){ V a[3]={t.a,t.b,t.c},b[3]={m.a,m.b,m.c}; static const int P[6][3]={{0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2}}; for(auto&p:P) if(dist(a[0],b[p[0]])<=tol&&dist(a[1],b[p[1]])<=tol&&dist(a[2],b[p[2]])<=tol) return true; return false; };
              if(!same(gg.t[q])){ bool any=false; for(auto&m:gg.t) if(same(m)){ any=true; break; } if(!any) F(fmt("a triangle drawn for %s is none of its triangles",nm.c_str())); } else s.st["debug_triangles"]++; } tg+=gg.t.size(); }
          else if(gg.ok||sh.kind!=CONVEX){ double minE=1e300; if(sh.kind==BOX||sh.kind==CONVEX){ for(auto&e:gg.c.e) minE=std::min(minE,dist(gg.c.v[e[0]],gg.c.v[e[1]])); } else minE=0.1*gg.c.r; if(minE<8*tol){ s.st["debug_skipped_tiny"]++; return; } double vol=0; size_t n=closed(G,tg,0.25*minE,nm,[&](V p){ double e=std::fabs(sh.kind==BOX||sh.kind==CONVEX?nearestVertex(gg,p):pointSep(gg.c,p)); double lim=(sh.kind==BOX||sh.kind==CONVEX)?4*tol+1e-4*sz:tol+1e-4*gg.c.r; if(e>lim) F(fmt("a corner of a triangle drawn for %s is %.4g away from its surface",nm.c_str(),e)); },&vol,sh.kind==CONVEX?centre(gg):x.p); tg+=n; s.st["debug_triangles"]+=n;
            double V0=(double)sh.s->getVolume(); double low=(sh.kind==BOX||sh.kind==CONVEX)?0.998:0.85; if(V0>1e-9&&!(vol>low*V0-40*tol*sz*sz&&vol<1.002*V0+40*tol*sz*sz)) F(fmt("the triangles drawn for %s enclose %.6g instead of %.6g",nm.c_str(),vol,V0)); }
          else return; }
        if(shown(DR::DebugItem::COLLISION_SHAPE_NORMAL)){ double L=1.0; size_t n=0; if(sh.kind==BOX) n=6; else if(sh.kind==CONVEX) n=static_cast<const rp::ConvexMeshShape*>(sh.s)->getNbFaces(); else if(sh.kind==TRIMESH) n=static_cast<const rp::ConcaveMeshShape*>(sh.s)->getNbVertices(); else if(sh.kind==HFIELD) n=2*gg.t.size();
          if(B.size()<lb+n) F(fmt("the normals of %s are not drawn completely",nm.c_str())); std::vector<V> starts; for(size_t q=0;q<n;q++){ L2 l=B[lb+q]; V v=l.b-l.a; double ll=len(v); bool dead=sh.kind==TRIMESH||sh.kind==HFIELD; if(std::fabs(ll-L)>1e-3+4*tol&&!(dead&&sh.kind==TRIMESH)) F(fmt("a normal of %s is drawn with length %.6g",nm.c_str(),ll));
            if(sh.kind==BOX||sh.kind==CONVEX){ if(gg.ok){ double e=std::fabs(pointSep(gg.c,l.a)); if(e>4*tol+1e-4*sz) F(fmt("a normal of %s starts %.4g away from its surface",nm.c_str(),e)); double best=1e300; for(auto&f:gg.c.f) if(std::fabs(dot(f.n,l.a)-f.d)<4*tol+1e-3*sz) best=std::min(best,len(f.n-v*(1/ll))); if(best>0.05) F(fmt("a normal of %s is drawn in the direction of no face there",nm.c_str())); for(V o:starts) if(dist(o,l.a)<1e-7*sz) F(fmt("two normals of %s start at the same point",nm.c_str())); starts.push_back(l.a); } }
            else { double best=1e300; for(auto&t:gg.t) best=std::min(best,std::min(dist(t.a,l.a),std::min(dist(t.b,l.a),dist(t.c,l.a)))); if(best>4*tol) { bool used=sh.kind==HFIELD; if(used) F(fmt("a normal of %s starts at none of its vertices",nm.c_str())); } if(sh.kind==HFIELD){ const Tri& t=gg.t[2*(q/4)]; V nn=norm(cross(t.b-t.a,t.c-t.a)); (void)nn; } }
            s.st["debug_normals"]++; } lb+=n; } } }
    if(tg!=G.size()) F(fmt("%zu triangles are drawn that belong to no displayed collider",G.size()-tg)); if(lm!=M.size()||ly!=Y.size()||lb!=B.size()) F(fmt("%zu bounding, %zu broad-phase and %zu normal lines are drawn that belong to no displayed collider",M.size()-lm,Y.size()-ly,B.size()-lb)); }
  static V centre(const Geo& g){ V c(0,0,0); for(auto&v:g.c.v) c=c+v*(1.0/g.c.v.size()); return c; }
  static double nearestVertex(const Geo& g,V p){ double b=1e300; for(auto&v:g.c.v) b=std::min(b,dist(v,p)); return b; } };
