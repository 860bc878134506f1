// C15: what a created mesh must still say about itself, compared with the caller's data as it was at creation.
// Included by sim.cpp. Nothing here reads the caller's buffers, which may be overwritten or freed by now.
static rp::Vector3 decV(V v){ return rp::Vector3((dec)v.x,(dec)v.y,(dec)v.z); }
static bool sameV(const rp::Vector3& a,V b){ rp::Vector3 c=decV(b); return a.x==c.x&&a.y==c.y&&a.z==c.z; }
static std::string checkMesh(const MeshRec& m){
  if(m.cm){ const rp::ConvexMesh& c=*m.cm; double sc=1e-3; for(auto&p:m.pts) sc=std::max(sc,len(p)); const auto& he=c.getHalfEdgeStructure();
    if(m.kind==1){ if(c.getNbVertices()!=m.pts.size()||c.getNbFaces()!=m.polys.size()) return fmt("a convex mesh of %zu vertices and %zu faces has %u vertices and %u faces",m.pts.size(),m.polys.size(),c.getNbVertices(),c.getNbFaces());
      for(size_t k=0;k<m.pts.size();k++) if(!sameV(c.getVertex((rp::uint32)k),m.pts[k])) return fmt("vertex %zu of a convex mesh is not the vertex given",k);
      for(size_t k=0;k<m.polys.size();k++){ auto& f=he.getFace((rp::uint32)k); if(f.faceVertices.size()!=m.polys[k].size()) return fmt("face %zu of a convex mesh has another number of vertices",k); for(size_t q=0;q<m.polys[k].size();q++) if((int)f.faceVertices[q]!=m.polys[k][q]) return fmt("face %zu of a convex mesh does not have the vertices given",k); } }
    else for(rp::uint32 k=0;k<c.getNbVertices();k++){ V v=GV(c.getVertex(k)); double best=1e300; for(auto&p:m.pts) best=std::min(best,dist(p,v)); if(best>1e-6*sc) return fmt("vertex %u of a convex hull is none of the points given",k); }
    if((long)c.getNbVertices()-(long)he.getNbHalfEdges()/2+(long)c.getNbFaces()!=2) return fmt("a convex mesh with %u vertices, %u half edges and %u faces is not a closed surface",c.getNbVertices(),he.getNbHalfEdges(),c.getNbFaces());
    for(rp::uint32 f=0;f<c.getNbFaces();f++){ V n=GV(c.getFaceNormal(f)),o=GV(c.getVertex(he.getFace(f).faceVertices[0])); if(!(std::fabs(len(n)-1)<1e-4)) return fmt("the normal of face %u of a convex mesh has length %.6g",f,len(n));
      for(size_t k=0;k<m.pts.size();k++) if(dot(n,m.pts[k]-o)>2e-4*sc) return fmt("point %zu lies %.4g outside face %u of its convex mesh",k,dot(n,m.pts[k]-o),f);
      for(rp::uint32 q=0;q<he.getFace(f).faceVertices.size();q++) if(std::fabs(dot(n,GV(c.getVertex(he.getFace(f).faceVertices[q]))-o))>2e-4*sc) return fmt("face %u of a convex mesh is not planar",f); }
    auto b=c.getBounds(); V lo=GV(b.getMin()),hi=GV(b.getMax()); for(auto&p:m.pts) if(p.x<lo.x-1e-5*sc||p.y<lo.y-1e-5*sc||p.z<lo.z-1e-5*sc||p.x>hi.x+1e-5*sc||p.y>hi.y+1e-5*sc||p.z>hi.z+1e-5*sc) return "a point lies outside the bounds of its convex mesh"; }
  if(m.tm){ const rp::TriangleMesh& t=*m.tm; if(t.getNbTriangles()!=m.tris.size()) return fmt("a triangle mesh of %zu valid triangles has %u",m.tris.size(),t.getNbTriangles());
    for(size_t k=0;k<m.tris.size();k++){ rp::Vector3 a,b,c; t.getTriangleVertices((rp::uint32)k,a,b,c); if(!sameV(a,m.pts[m.tris[k][0]])||!sameV(b,m.pts[m.tris[k][1]])||!sameV(c,m.pts[m.tris[k][2]])) return fmt("triangle %zu of a triangle mesh does not have the corners given",k);
      rp::uint32 i[3]; t.getTriangleVerticesIndices((rp::uint32)k,i[0],i[1],i[2]); for(int q=0;q<3;q++){ if(i[q]>=t.getNbVertices()) return "a triangle refers to a vertex the mesh does not have"; V n=GV(t.getVertexNormal(i[q])); if(!(std::fabs(len(n)-1)<1e-3)) return fmt("a vertex normal of a triangle mesh has length %.6g",len(n)); if(!m.nrms.empty()&&!sameV(t.getVertexNormal(i[q]),m.nrms[m.tris[k][q]])) return "a vertex normal of a triangle mesh is not the one given"; } } }
  if(m.hf){ const rp::HeightField& f=*m.hf; if((int)f.getNbColumns()!=m.nx||(int)f.getNbRows()!=m.ny) return fmt("a height field of %d x %d has %u columns and %u rows",m.nx,m.ny,f.getNbColumns(),f.getNbRows());
    double lo=1e300,hi=-1e300; for(double q:m.hts){ lo=std::min(lo,q); hi=std::max(hi,q); } double o=-(hi-lo)*0.5-lo;
    for(int i=0;i<m.nx;i++) for(int j=0;j<m.ny;j++){ double h=(double)(dec)m.hts[j*m.nx+i]; if(std::fabs((double)f.getHeightAt(i,j)-h)>1e-6*(1+std::fabs(h))) return fmt("height (%d,%d) of a height field is %.9g and not %.9g",i,j,(double)f.getHeightAt(i,j),h); if(dist(GV(f.getVertexAt(i,j)),V(-(m.nx-1)*0.5+i,o+h,-(m.ny-1)*0.5+j))>1e-5*(1+std::fabs(h)+hi-lo)) return fmt("vertex (%d,%d) of a height field is misplaced",i,j); }
    if(std::fabs((double)f.getMinHeight()-lo)>1e-5*(1+std::fabs(lo))||std::fabs((double)f.getMaxHeight()-hi)>1e-5*(1+std::fabs(hi))) return "the height range of a height field is wrong"; }
  return ""; }
