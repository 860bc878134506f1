// Seeded generation of API histories (schedules) for one property profile.
#pragma once
#include "core.h"
namespace sim {
struct Prof {
  int worlds=1, steps=60, bodies0=8, bodiesMax=16; double opsPerStep=1.2; bool gravity=true; int ground=-1; // -1 random, 0 none, 1 box, 2 trimesh, 3 height field
  int dt=0;            // 0 fixed, 1 mild mix, 2 wild
  double pKin=0.1,pStatic=0.15; double pJoint=0.25; double pMulti=0.25; double pTrigger=0.1; double region=2.6; double speed=3; bool sleepFast=true; bool sleeping=true; bool meshes=true; bool queries=true; bool locks=true; bool filters=true; bool types=true; bool violent=false; bool damping=true; bool observe=true; bool iso=false; double bounceMax=1.0; bool baum=true; double pCollideJoint=0.5; bool destroy=true; double jlim=0.4; bool motors=true; int meshFault=0; int jtype=-1; /* most joints are of this type */ bool recreateWorld=false; bool touchFlags=true; bool quietTail=false; bool shifted=false; bool userMass=true; bool resize=true; bool delmesh=true; };
Trace generate(const std::string& prop,u64 seed);
Trace generateWith(Rng& r,const Prof& p);
Prof profileFor(const std::string& prop,Rng& r);
}
