// Contact experiments: a boundary that covers all grid nodes and a uniform velocity, so that with PIC the particle velocity after the step is the contact map of the velocity before it.
#pragma once
#include "setups.hpp"
namespace mc {
static const T VL[]={-1.5,-0.4,0,0.3,1.2}; static const int NVL=5; inline int nvel(){ return D==3?125:25; }
inline TV vlat(int k){ TV v; for (int d=0;d<D;d++){ v(d)=VL[k%5]*(1+0.07*d); k/=5; } return v; }
static const PlateType PT[]={PlateType::left,PlateType::right,PlateType::bottom,PlateType::top,
  #ifdef THREEDIM
  PlateType::back,PlateType::front
  #endif
  }; static const int NPT=2*D;
static const char* PTN[]={"left","right","bottom","top","back","front"};
static const BC BCS[]={BC::NoSlip,BC::SlipStick,BC::SlipFree}; static const char* BCN[]={"NoSlip","SlipStick","SlipFree"};
static const T FR[]={0,0.15,0.5,2.5};
// plate velocities: at rest, in normal direction (both), tangential, generic
inline TV pvel(int k,const TV& n){ TV t=TV::Zero(); TV g; for (int d=0;d<D;d++) g(d)=0.31-0.23*d; switch(k){ case 0: return t; case 1: return 0.6*n; case 2: return -0.35*n; case 3: { TV u=g-g.dot(n)*n; return u; } default: return g; } } static const int NPV=5;
inline TV onormal(int k){ TV n; static const T A[][3]={{0,1,0},{-0.3,1,0.2},{1,0,0},{0.6,-0.8,0.1},{-1,-1,1},{0.2,0.1,-1},{0,-1,0}}; for (int d=0;d<D;d++) n(d)=A[k][d]; if (n.norm()<1e-9) n(0)=1; return n.normalized(); } static const int NON=7;
struct Bnd { bool obj; PlateType t; BC bc; T fr; TV n, pv; };
inline Bnd bplate(int t,int bc,T fr,int pv){ Bnd b; b.obj=false; b.t=PT[t]; b.bc=BCS[bc]; b.fr=fr; b.n=plate_normal(b.t); b.pv=pvel(pv,b.n); return b; }
inline Bnd bobj(int n,int bc,T fr){ Bnd b; b.obj=true; b.bc=BCS[bc]; b.fr=fr; b.n=onormal(n); b.pv=TV::Zero(); return b; }
inline void add_bnd(Simulation& s,const Bnd& b){ if (b.obj) s.objects.push_back(std::make_unique<Slope>(b.bc,b.fr,b.n,1e6)); else { int a=0; for (int d=0;d<D;d++) if (b.n(d)!=0) a=d; plate(s,1e6*b.n(a),b.t,b.bc,b.fr,-1e15,1e15,b.pv(0),b.pv(1),D==3?b.pv(D-1):0); } }
// velocity after one step in full contact with all the boundaries of s
inline TV after(Simulation& s,const TV& v,T dt,T sc=1){ for (auto& x:s.particles.v) x=v; one_step(s,dt); TV r=s.particles.v[0]; for (auto& x:s.particles.v) if (maxabs(TV(x-r))>1e-9*sc) return TV(TV::Constant(NAN)); return r; }
inline SimP contact_sim(int cl,int o,T flip=0){ auto s=make(scaled(cloud(cl,off(o)),0.5),0.5); s->flip_ratio=flip; s->gravity=TV::Zero(); return s; }
inline std::string bname(const Bnd& b){ char t[200]; snprintf(t,200,"%s n=%s bc=%d friction=%g v=%s",b.obj?"object":"plate",str(b.n).c_str(),(int)b.bc,b.fr,str(b.pv).c_str()); return t; }
// ---- the same contact in different surroundings
static const int NCX=18; static const char* CXN[]={"3 threads","MUSL","far boundaries listed before","far boundaries listed after","gravity","far from the origin","periodic","millimetres","PIC/FLIP","FLIP","AFLIP","APIC","Cam-Clay","Drucker-Prager","second run","output","40th step","300 particles"};
inline void far_bnds(Simulation& s){ TV n=TV::Zero(); n(1)=1; T P=1e3; for (int k=0;k<2;k++){ s.objects.push_back(std::make_unique<Slope>(k?BC::SlipFree:BC::NoSlip,0.7,n,-P)); plate(s,k?P:-P,k?PlateType::right:PlateType::left,k?BC::NoSlip:BC::SlipStick,1.1,-P,P,0.3,0.1,0.2); plate(s,k?P:-P,k?PlateType::top:PlateType::bottom,BC::SlipFree,0.9,-P,P,-0.2,0.4,0.1); } }
inline SimP cx_make(int k,int o){ T h=k==7?1e-3:0.5; auto x=cloud(k==7?2:0,off(o)); if (k==17){ x.clear(); for (int p=0;p<300;p++){ TV q; for (int d=0;d<D;d++) q(d)=3+5*gen(p,d+30); x.push_back(q); } } x=scaled(x,h); if (k==5) for (auto& q:x){ q(0)-=40.3; q(1)+=101.7; if (D==3) q(D-1)-=63.1; } auto s=make(x,h); s->flip_ratio=k==8?0.3:k==9?1:k==10?-0.95:k==11?-1:0; s->gravity=TV::Zero(); if (k==0) s->n_threads=3; if (k==1) s->use_musl=true; if (k==4){ s->gravity(0)=3; s->gravity(1)=-9; if (D==3) s->gravity(D-1)=1.5; }
  if (k==6){ s->pbc=true; s->Lx=12*h; s->Ly=12*h;
  #ifdef THREEDIM
  s->Lz=12*h;
  #endif
  } if (k==12){ s->plastic_model=PlasticModel::MCC; s->p0=1000; s->beta=0.3; s->xi=1; s->M=1; s->hardening_law=HardeningLaw::ExpoExpl; } if (k==13){ s->plastic_model=PlasticModel::DP; s->q_cohesion=500; s->M=0.8; } return s; }
inline std::string cx_dir(){ std::string d=scratch()+"/cxscratch"; mkdir(d.c_str(),0777); return d; }
// velocity after the contact step; v becomes the velocity the contact law acts on
inline TV cx_after(int k,Simulation& s,TV& v,T dt){ auto all=[&](){ TV r=s.particles.v[0]; for (auto& x:s.particles.v) if (!(maxabs(TV(x-r))<=1e-9)) return TV(TV::Constant(NAN)); return r; }; if (k==15) s.initialize(true,cx_dir()+"/","r");
  if (k==14){ auto x0=s.particles.x; for (auto& x:s.particles.v) x=-v; one_step(s,dt); s.particles=Particles(s.Np); s.particles.x=x0; }
  if (k==16){ // the boundary (first in its list) comes into contact in the 40th step
    int n=0; ObjectPlate* pl=s.plates.empty()?nullptr:s.plates[0].get(); Slope* ob=pl?nullptr:static_cast<Slope*>(s.objects[0].get()); if (pl) pl->pos_object*=-1; else ob->c*=-1; observe(s,[&n,pl,ob](T){ if (n++==39){ if (pl) pl->pos_object*=-1; else ob->c*=-1; } }); std::rotate(s.objects.begin(),s.objects.end()-1,s.objects.end()); for (auto& x:s.particles.v) x=v; s.fps=1/dt; s.end_frame=40; s.cfl_elastic=1.25*dt*std::sqrt(s.E/s.rho)/s.dx; s.simulate(); return n==40?all():TV(TV::Constant(NAN)); }
  for (auto& x:s.particles.v) x=v; one_step(s,dt); if (k==4) v+=step_dt(dt)*s.gravity; return all(); }
}
