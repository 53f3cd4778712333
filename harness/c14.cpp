// C14: one step = the textbook MPM update, at every step of a run
#include "setups.hpp"
using namespace mc;
static void check(Ctx& c, Simulation& s, const RefRes& r, int step, T dt, bool neo, T vs=1){
  Lame L=lame(s.E,s.nu); Cmp q; const Particles& P=s.particles; T h=s.dx;
  if (P.x.size()!=r.s.x.size()) c.fail("number of particles changed");
  for (size_t p=0;p<P.x.size();p++){ q.v("x",p,P.x[p],r.s.x[p],1e-9*h); q.v("v",p,P.v[p],r.s.v[p],1e-8*vs); q.m("Bmat",p,P.Bmat[p],r.s.B[p],1e-8*h*vs); q.m("F",p,P.F[p],r.s.F[p],1e-9);
    TM tau = neo ? ref_tau_nh(r.s.F[p],L) : ref_tau_hencky(r.s.F[p],L); q.m("tau",p,P.tau[p],tau,1e-8*s.E); }
  if (!q.what.empty()) c.fail("step %d: %s",step,q.what.c_str()); }
namespace mc { void families(std::vector<Family>& F){
  auto run = [](Ctx& c, int cl, int al, T dx, T flip, bool musl, int bc, bool stress, int refp, bool neo, const std::vector<T>& dts, bool onerun, bool grav, bool dy, int big=0, T Ls=1, T Ms=1, T Ts=1, T fast=1){ dx*=Ls; T vs=Ls/Ts;
    auto x = scaled(cloud(cl,off(al)),dx); if (big){ x.clear(); for (int k=0;k<big;k++){ TV q; for (int i=0;i<D;i++) q(i)=2+(big==24?(i==0?37.3:i==1?26.1:19.7):big>60?5.2:3.1)*gen(k,60+i+al); x.push_back(q*dx); } } auto s = make(x,dx); s->flip_ratio=flip; s->use_musl=musl; if (neo) s->elastic_model=ElasticModel::NeoHookean; prep(*s,cl+10*al,stress); setbc(*s,bc,vs); { T ss=Ms/(Ls*Ts*Ts); if (D==2) ss*=1; s->E*=ss; s->rho*=Ms/(Ls*Ls*Ls); s->particle_mass=s->rho*s->particle_volume; for (size_t p=0;p<s->Np;p++){ s->particles.v[p]*=vs*fast; s->particles.Bmat[p]*=vs/Ls*fast; s->particles.tau[p]*=ss; } }
    if (grav){ s->gravity = TV::Zero(); s->gravity(1)=-3; s->gravity(0)=1.5; if (D==3) s->gravity(D-1)=0.7; s->gravity*=vs/Ts; }
    if (refp==1) s->grid_reference_point = TV::Zero(); else if (refp==2) s->grid_reference_point = TV::Constant(15.3*dx);
    TV lat; { TV mn=x[0]; for (auto& p : x) mn = mn.cwiseMin(p); if (refp==1) mn = mn.cwiseMin(TV(TV::Zero())); lat = mn - 2*dx*TV::Ones(); }
    Snap cur = snap(*s); RefCfg rc; rc.dx=dx; rc.vol=s->particle_volume; rc.mass=s->particle_mass; rc.flip=flip; rc.g=s->gravity; rc.lat=lat; rc.musl=musl; rc.plates=&s->plates; rc.objects=&s->objects;
    c.state(hash(cur));
    if (!onerun){ int k=0; for (T dt0 : dts){ dt0*=Ts; T dt=step_dt(dt0); rc.dt=dt; RefRes r = ref_step(rc,cur); if (fast>1) for (auto& f:r.s.F) if (f.determinant()<0.02) return c.skip(); one_step(*s,dt0); c.trans(); check(c,*s,r,k++,dt,neo,vs*fast); cur=snap(*s); c.state(hash(cur)); } }
    else { // a run of several steps: one frame each
      T dt=step_dt(dts[0]); rc.dt=dt; RefRes r; Lame L=lame(s->E,s->nu); // plates move between the steps: replay on copies
      std::vector<std::unique_ptr<ObjectPlate>> pl; for (auto& p : s->plates) pl.push_back(std::make_unique<ObjectPlate>(*p)); rc.plates=&pl;
      for (size_t k=0;k<dts.size();k++){ r=ref_step(rc,cur); for (size_t p=0;p<cur.n();p++) r.s.tau[p]= neo?ref_tau_nh(r.s.F[p],L):ref_tau_hencky(r.s.F[p],L); cur=r.s;
        for (auto& p : pl){ TV v; v(0)=p->vx_object; v(1)=p->vy_object;
          #ifdef THREEDIM
          v(2)=p->vz_object;
          #endif
          TV nn=plate_normal(p->plate_type); int a=0; for (int d=0;d<D;d++) if (nn(d)!=0) a=d; p->pos_object += dt*v(a); if (a<2){ p->pos_lower += dt*v(1-a); p->pos_upper += dt*v(1-a); } } }
      s->fps=1.0/dts[0]; s->end_frame=dts.size(); s->simulate(); c.trans(dts.size()); check(c,*s,r,(int)dts.size(),dt,neo); c.state(hash(snap(*s))); }
    c.note("cloud %d, %zu particles: x0=%s v0=%s",cl,x.size(),str(s->particles.x[0]).c_str(),str(s->particles.v[0]).c_str());
  };
  int NS = 8;
  F.push_back({"step", {{"cloud",NCLOUD},{"align",5},{"flip",NS},{"musl",2},{"bc",NBC},{"stress",2}}, [run](Ctx& c, const Dig& d){ run(c,d[0],d[1],0.5,FLIP[d[2]],d[3],d[4],d[5],d[1]%3,false,{0.01},false,true,true); }});
  F.push_back({"histories", {{"cloud",NCLOUD},{"align",5},{"flip",tier()?NS:4},{"musl",2},{"bc",4},{"s1",2},{"s2",2},{"s3",2}}, [run](Ctx& c, const Dig& d){ static const T S[]={0.001,0.006}; static const int B[]={0,2,4,3}; static const int FL[]={1,2,3,6,0,4,5,7}; run(c,d[0],d[1],0.1,FLIP[FL[d[2]]],d[3],B[d[4]],true,(d[1]+d[0])%3,d[5],{S[d[5]],S[d[6]],S[d[7]],S[d[5]]},false,d[6],false); }});
  F.push_back({"runs", {{"cloud",NCLOUD},{"align",5},{"flip",NS},{"musl",2},{"bc",NBC},{"len",tier()?6:3},{"neo",2}}, [run](Ctx& c, const Dig& d){ run(c,d[0],d[1],0.25,FLIP[d[2]],d[3],d[4],true,d[1]%3,d[6],std::vector<T>(d[5]+1,0.008),true,true,true); }});
  F.push_back({"crowd", {{"n",4},{"align",3},{"flip",NS},{"musl",2},{"bc",NBC}}, [run](Ctx& c, const Dig& d){ static const int N[]={40,64,150,300}; run(c,0,1+d[1],0.25,FLIP[d[2]],d[3],d[4],true,d[1]%3,false,{0.004,0.002},false,true,true,N[d[0]]); }});
  F.push_back({"units", {{"cloud",NCLOUD},{"L",5},{"M",4},{"T",4},{"flip",4},{"musl",2},{"bc",4}}, [run](Ctx& c, const Dig& d){ static const T L[]={1e-3,0.02,1,40,1e3}, M[]={1e-6,1e-3,1,1e4}, TT[]={1e-4,1e-2,1,1e3}; static const int B[]={0,3,4,1}; run(c,d[0],1+d[0]%4,0.5,FLIP[d[4]==3?6:1+d[4]],d[5],B[d[6]],true,d[0]%3,false,{0.01,0.003},false,true,true,0,L[d[1]],M[d[2]],TT[d[3]]); }});
  // sparse particles over a large grid (many cells in every direction)
  F.push_back({"wide", {{"align",D==2||tier()?4:2},{"flip",NS},{"musl",2},{"bc",NBC}}, [run](Ctx& c, const Dig& d){ run(c,0,1+d[0],0.25,FLIP[d[1]],d[2],d[3],true,d[0]%3,false,{0.004,0.002},false,true,true,24); }});
  // particles that cross up to half a cell per step (the CFL limit) in different directions
  F.push_back({"fast", {{"cloud",NCLOUD},{"align",5},{"flip",NS},{"musl",2},{"bc",NBC},{"speed",tier()?4:2}}, [run](Ctx& c, const Dig& d){ static const T SP[]={24,12,6,18}; run(c,d[0],d[1],0.5,FLIP[d[2]],d[3],d[4],true,d[1]%3,d[5]%2,{0.01,0.004},false,true,true,0,1,1,1,SP[d[5]]); }});
  F.push_back({"long", {{"cloud",D==2?4:2},{"align",2},{"flip",NS},{"musl",2},{"bc",4},{"len",tier()?4:2}}, [run](Ctx& c, const Dig& d){ static const int LEN[]={130,280,520,1100}; static const int B[]={0,2,4,1}; static const int CL[]={1,2,0,4}; run(c,CL[d[0]],3+d[1],0.25,FLIP[d[2]],d[3],B[d[4]],true,d[1]%3,false,std::vector<T>(LEN[d[5]],0.004),true,true,true); }});
  contexts(F,{DC_THREADS3,DC_THREADS8,DC_FAR,DC_OUTPUT,DC_AFTER,DC_LENGTHS,DC_UNUSED},2);
  contexts(F,{DC_VM,DC_DPVISC,DC_MCC},3,{"step","crowd"});
}}
MC_MAIN
