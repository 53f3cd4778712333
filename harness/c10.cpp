// C10: the stress is the chosen hyperelastic law at the stored deformation gradient; frame indifference; Piola functions
#include "material.hpp"
using namespace mc;
static const T EE[]={1e4,1e6,3.7,2e9}; static const T NU[]={0.3,0.0,0.45,-0.2,0.1};
static const T VV[]={0,-0.3,-0.05,-1e-6,1e-3,0.2,-1.5,-4,-9,1.2,4}; static const T DD[]={0,1e-7,0.01,0.2,0.6,1.5,4};
namespace mc { void families(std::vector<Family>& F){
  // all stretches x rotations as trial states of one step at rest; every elastic modulus pair
  F.push_back({"law", {{"law",2},{"E",4},{"nu",5},{"musl",2},{"dir",5},{"u",6},{"w",6}}, [](Ctx& c,const Dig& d){ if (D==2&&d[4]>1) return c.skip();
    bool neo=d[0]; std::vector<TM> Fs; for (T v:VV) for (T e:DD) Fs.push_back(trialF(v,e,d[4],d[5],d[6]));
    T dx=0.5; auto s=make(cluster(Fs.size(),dx),dx); s->E=EE[d[1]]; s->nu=NU[d[2]]; s->use_musl=d[3]; if (neo) s->elastic_model=ElasticModel::NeoHookean; Lame L=lame(s->E,s->nu);
    auto e=mp_step(*s,Fs,1e-3); c.trans(); c.state(hash(e.out)); if (e.exit) c.fail("exit flag set");
    T sc=s->E; for (size_t p=0;p<Fs.size();p++){ if (!(maxabs(TM(e.out.F[p]-Fs[p]))<=1e-12*(1+maxabs(Fs[p])))) c.fail("F changed without motion: %s -> %s",str(Fs[p]).c_str(),str(e.out.F[p]).c_str());
      TM t=neo?ref_tau_nh(Fs[p],L):ref_tau_hencky(Fs[p],L); sc=s->E*(1+maxabs(TM(t))/s->E); if (!(maxabs(TM(e.out.tau[p]-t))<=1e-8*sc)) c.fail("tau=%s expected %s for F=%s",str(e.out.tau[p]).c_str(),str(t).c_str(),str(Fs[p]).c_str());
      if (!(maxabs(TM(e.out.tau[p]-e.out.tau[p].transpose()))<=1e-9*sc)) c.fail("stress not symmetric");
      // library functions for the first Piola stress: P F^T = tau
      TM Fp=Fs[p]; TM P=neo?s->NeoHookeanPiola(Fp):s->HenckyPiola(Fp); TM tt=P*Fp.transpose(); if (!(maxabs(TM(tt-t))<=1e-8*sc)) c.fail("Piola stress times F^T = %s, Kirchhoff stress = %s",str(tt).c_str(),str(t).c_str()); c.trans(); }
    c.note("E %g nu %g: %zu trial states",s->E,s->nu,Fs.size()); }});
  // rotated copies of a moving stressed body: stress rotates with the material (grid-aligned rotations keep the lattice)
  F.push_back({"objective", {{"law",2},{"cloud",NCLOUD},{"rot",D==3?6:3},{"flip",8},{"musl",2},{"steps",tier()?5:2}}, [](Ctx& c,const Dig& d){
    TM Q=TM::Zero();
    #ifdef THREEDIM
    static const int pr[6][3]={{1,2,0},{2,0,1},{0,1,2},{0,1,2},{1,0,2},{0,2,1}}; static const int sg[6][3]={{1,1,1},{1,1,1},{-1,-1,1},{1,-1,-1},{-1,1,1},{1,-1,1}}; for (int i=0;i<3;i++) Q(i,pr[d[2]][i])=sg[d[2]][i];
    #else
    if (d[2]==0) Q<<0,-1,1,0; else if (d[2]==1) Q<<-1,0,0,-1; else Q<<0,1,-1,0;
    #endif
    T dx=0.25; auto x=scaled(cloud(d[1],off(3)),dx); for (auto& p:x) p-=3*dx*TV::Ones(); auto y=x; for (auto& p:y) p=Q*p; auto a=make(x,dx), b=make(y,dx); for (auto* s:{a.get(),b.get()}){ s->flip_ratio=FLIP[d[3]]; s->use_musl=d[4]; if (d[0]) s->elastic_model=ElasticModel::NeoHookean; }
    // the reference point lies below both bodies, so both lattices are the multiples of dx
    a->grid_reference_point=TV::Constant(-9*dx); b->grid_reference_point=TV::Constant(-9*dx);
    prep(*a,d[1],true); for (size_t p=0;p<x.size();p++){ b->particles.v[p]=Q*a->particles.v[p]; b->particles.Bmat[p]=Q*a->particles.Bmat[p]*Q.transpose(); b->particles.F[p]=Q*a->particles.F[p]; b->particles.tau[p]=Q*a->particles.tau[p]*Q.transpose(); }
    for (int k=0;k<=d[5];k++){
      one_step(*a,0.004); one_step(*b,0.004); c.trans(2); c.state(hash(snap(*b)));
      for (size_t p=0;p<x.size();p++){ TM t=Q*a->particles.tau[p]*Q.transpose(); if (!(maxabs(TM(b->particles.tau[p]-t))<=1e-8*a->E)) c.fail("step %d: stress of the rotated body %s, rotated stress %s",k,str(b->particles.tau[p]).c_str(),str(t).c_str());
        TM f=Q*a->particles.F[p]; if (!(maxabs(TM(b->particles.F[p]-f))<=1e-9)) c.fail("step %d: F of the rotated body %s, rotated F %s",k,str(b->particles.F[p]).c_str(),str(f).c_str()); } } }});
  // histories: prescribed affine velocity, F follows (I + dt grad) F and the stress follows F
  F.push_back({"history", {{"law",2},{"a1",5},{"a2",5},{"a3",5},{"a4",tier()?5:1},{"musl",2},{"size",3}}, [](Ctx& c,const Dig& d){ T dx=0.5, dt=0.01; auto x=scaled(cloud(5,off(3)),dx); auto s=make(x,dx); s->E=1e-3; s->flip_ratio=-2; s->use_musl=d[5]; s->flip_ratio=-1; if (d[0]) s->elastic_model=ElasticModel::NeoHookean; Lame L=lame(s->E,s->nu); T Di=SPLINEDEG==3?3/(dx*dx):4/(dx*dx);
    std::vector<TM> Fx(x.size(),TM::Identity()); for (size_t p=0;p<x.size();p++){ Fx[p]=TM::Identity()+gmat(p,3,0.2); s->particles.F[p]=Fx[p]; }
    for (int k=0;k<4;k++){ static const T SZ[]={1,3,5}; TM A=TM::Zero(); switch(d[1+k]){ case 0: A=-8*TM::Identity(); break; case 1: A(0,1)=12; A(1,0)=-12; break; case 2: A(0,1)=15; break; case 3: A=gmat(7,5,10); break; case 4: A(0,0)=10; A(1,1)=-6; if (D==3) A(D-1,0)=5; break; } A*=SZ[d[6]]; if ((TM::Identity()+dt*A).determinant()<0.1) return c.skip();
      T dtt=step_dt(dt); for (size_t p=0;p<x.size();p++){ s->particles.v[p]=A*s->particles.x[p]; s->particles.Bmat[p]=A/Di; s->particles.tau[p].setZero(); Fx[p]=Fx[p]+dtt*A*Fx[p]; }
      one_step(*s,dt); c.trans(); for (size_t p=0;p<x.size();p++){ if (!(maxabs(TM(s->particles.F[p]-Fx[p]))<=1e-8)) c.fail("step %d: F=%s expected %s",k,str(s->particles.F[p]).c_str(),str(Fx[p]).c_str()); TM t=d[0]?ref_tau_nh(s->particles.F[p],L):ref_tau_hencky(s->particles.F[p],L); if (!(maxabs(TM(s->particles.tau[p]-t))<=1e-8*s->E)) c.fail("step %d: tau=%s expected %s",k,str(s->particles.tau[p]).c_str(),str(t).c_str()); } c.state(hash(snap(*s))); } }});
  contexts(F,{DC_THREADS3,DC_FAR,DC_OUTPUT,DC_AFTER,DC_LENGTHS,DC_UNUSED},3);
}}
MC_MAIN
