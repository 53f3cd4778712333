// Shared set-ups (schemes, alignments, boundaries)
#pragma once
#include "simlib.hpp"
namespace mc {
static const T FLIP[] = {0, 0.3, 1, -0.95, -1, -1e-14, -1.5, -0.4};
inline TV off(int a){ TV o; static const T X[] = {0,0.5,0.25,0.371,0.9}, Y[] = {0,0.25,0.5,0.613,0.07}, Z[]={0,0.75,0.5,0.177,0.41}; o(0)=X[a]; o(1)=Y[a]; if (D==3) o(D-1)=Z[a]; return o; }
struct Slope : ObjectGeneral { TV n; T c; Slope(BC b, T f, TV n, T c) : ObjectGeneral(b,f,"slope"), n(n.normalized()), c(c) {} bool inside(const TV& X) const override { return n.dot(X) < c; } TV normal(const TV&) const override { return n; } };
inline void plate(Simulation& s, T pos, PlateType t, BC bc, T f, T lo=-1e15, T hi=1e15, T vx=0, T vy=0, T vz=0){
  #ifdef THREEDIM
  s.plates.push_back(std::make_unique<ObjectPlate>(pos,t,bc,f,lo,hi,vx,vy,vz));
  #else
  s.plates.push_back(std::make_unique<ObjectPlate>(pos,t,bc,f,lo,hi,vx,vy));
  #endif
}
static const int NBC = 9;
inline void setbc(Simulation& s, int b, T u=1){ T h=s.dx; TV n=TV::Zero(); n(0)=-0.3; n(1)=1; if (D==3) n(D-1)=0.2;
  switch (b){ case 0: break;
   case 1: plate(s,3.4*h,PlateType::bottom,BC::NoSlip,0,-1e15,1e15,0.1*u,-0.05*u,0.2*u); break;
   case 2: plate(s,3.4*h,PlateType::left,BC::SlipFree,0.4); break;
   case 3: plate(s,3.4*h,PlateType::bottom,BC::SlipStick,0.2,-1e15,3.6*h,0,0.3*u,0); plate(s,4.0*h,PlateType::right,BC::SlipFree,0,-1e15,1e15,-0.2*u,0,0); break;
   case 4: s.objects.push_back(std::make_unique<Slope>(BC::SlipFree,0.3,n,2.6*h)); break;
   case 5: s.objects.push_back(std::make_unique<Slope>(BC::SlipStick,0.3,n,2.6*h)); plate(s,4.2*h,PlateType::top,BC::NoSlip,0); break;
   case 6: s.objects.push_back(std::make_unique<Slope>(BC::NoSlip,0,n,2.6*h)); break;
   case 7: plate(s,3.5*h,D==3?PlateType::back:PlateType::bottom,BC::SlipFree,0.5,-1e15,1e15,0.1*u,0.2*u,0.1*u); plate(s,4.1*h,D==3?PlateType::front:PlateType::top,BC::SlipStick,0.1); break;
   case 8: // a box of plates and two objects
     for (int k=0;k<2;k++) s.objects.push_back(std::make_unique<Slope>(k?BC::SlipFree:BC::SlipStick,0.2+0.1*k,k?n:TV(-n),k?2.3*h:-6.1*h)); plate(s,2.6*h,PlateType::left,BC::SlipFree,0.2,-1e15,1e15,0.1*u,0,0); plate(s,5.2*h,PlateType::right,BC::SlipStick,0.1); plate(s,2.8*h,PlateType::bottom,BC::SlipFree,0.3,-1e15,4.1*h); plate(s,5.0*h,PlateType::top,BC::NoSlip,0,3.1*h,1e15,0,-0.1*u,0);
     #ifdef THREEDIM
     plate(s,2.5*h,PlateType::back,BC::SlipFree,0.1); plate(s,5.1*h,PlateType::front,BC::SlipStick,0.3,-1e15,1e15,0,0.05*u,0);
     #endif
     break; } }
inline void prep(Simulation& s, int k, bool stress){ size_t n=s.Np; for (size_t p=0;p<n;p++){ s.particles.v[p]=gvec(p,20+k,0.8); s.particles.Bmat[p]=gmat(p,30+k,0.5*s.dx*s.dx); TM F = TM::Identity()+gmat(p,40+k,stress?0.1:0.0); s.particles.F[p]=F; s.particles.tau[p]= stress ? gsym(p,50+k,900) : TM(TM::Zero()); } }
}
