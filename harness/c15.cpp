// C15: periodic boundaries are a ring
#include "matcheck.hpp"
using namespace mc;
static const int NRC = 6;
static std::vector<TV> ringcloud(int id){ std::vector<TV> r; auto add=[&](T a,T b,T c){ TV p; p(0)=a; p(1)=b; if(D==3) p(D-1)=c; r.push_back(p); };
  switch(id){ case 0: add(0,2.25,2.5); break; case 1: add(-0.6,2.3,2.2); add(0.4,2.8,2.9); break; case 2: add(0,2,2); add(0.5,2.5,2.25); add(-0.5,2.25,2.5); add(-1,3,2); break;
   case 3: for(int k=0;k<7;k++) add(-1.8+3.6*gen(k,1),1.2+2.5*gen(k,2),1.2+2*gen(k,3)); break;
   case 4: for(int k=0;k<12;k++) add(k,2+0.5*(k%3),2+0.25*(k%4)); break;      // one particle on every node column (including the seam)
   case 5: for(int k=0;k<30;k++) add(k*0.4+0.1*gen(k,4),1.5+gen(k,5),1.5+gen(k,6)); break; }
  return r; }
static void setup(Simulation& s, int N){ s.pbc=true; s.Lx=N*s.dx; s.Ly=7*s.dx;
  #ifdef THREEDIM
  s.Lz=6*s.dx;
  #endif
}
static std::vector<TV> place(int id, T shift, int N, T dx, bool atend){ auto x=ringcloud(id); T L=N*dx; for (auto& p : x){ p*=dx; p(0)+=shift*dx; p(0)-=L*std::floor(p(0)/L); if (p(0)>=L) p(0)=0; if (atend && p(0)==0) p(0)=L; } return x; }
namespace mc { void families(std::vector<Family>& F){
  auto run=[](Ctx& c,int cl,T shift,int N,T dx,T flip,bool musl,int bc,bool stress,bool mibf,bool atend,int steps,int thr,bool onerun){
    auto x=place(cl,shift,N,dx,atend); auto s=make(x,dx); setup(*s,N); s->n_threads=thr; s->flip_ratio=flip; s->use_musl=musl; s->use_mibf=mibf; s->M=0.35; prep(*s,3+cl,stress); 
    s->gravity=TV::Zero(); s->gravity(1)=-5; s->gravity(0)=2;
    if (bc==1) plate(*s,1.7*dx,PlateType::bottom,BC::SlipFree,0.25); if (bc==2) plate(*s,1.7*dx,PlateType::bottom,BC::NoSlip,0,-1e15,1e15,0.3,0,0);
    size_t n=x.size(); for (size_t p=0;p<n;p++){ s->particles.eps_pl_dev[p]=0.01*(p+1); s->particles.eps_pl_vol[p]=-0.02*(p+1); s->particles.eps_pl_vol_pradhana[p]=0.5+p; s->particles.viscosity[p]=7+p; }
    Lame L=lame(s->E,s->nu); RefCfg rc; rc.dx=dx; rc.vol=s->particle_volume; rc.mass=s->particle_mass; rc.flip=flip; rc.g=s->gravity; rc.lat=TV::Zero(); rc.musl=musl; rc.pbc=true; rc.Lx=s->Lx; rc.mibf=mibf; rc.plates=&s->plates;
    Snap cur=snap(*s); if (mibf) std::fill(cur.muI.begin(),cur.muI.end(),s->M); T dt0=0.004,dt=step_dt(dt0); rc.dt=dt;
    auto cmp=[&](const Snap& r,int k){ const Particles& P=s->particles; if (s->Np!=n||P.x.size()!=n||P.v.size()!=n||P.F.size()!=n||P.Bmat.size()!=n||P.tau.size()!=n||P.eps_pl_dev.size()!=n||P.eps_pl_vol.size()!=n||P.muI.size()!=n||P.delta_gamma.size()!=n||P.viscosity.size()!=n||P.eps_pl_vol_pradhana.size()!=n) c.fail("step %d: particle data resized (Np=%u, x %zu, v %zu, F %zu, muI %zu, expected %zu)",k,s->Np,P.x.size(),P.v.size(),P.F.size(),P.muI.size(),n);
      Cmp q; for (size_t p=0;p<n;p++){ TV xr=r.x[p]; T dxx=P.x[p](0)-xr(0); if (std::abs(std::abs(dxx)-s->Lx)<1e-8*dx) xr(0)=P.x[p](0); if (!(P.x[p](0)>=0&&P.x[p](0)<=s->Lx)) c.fail("step %d: particle %zu at x=%.12g outside [0,%g]",k,p,P.x[p](0),s->Lx);
        q.v("x",p,P.x[p],xr,1e-9*dx); q.v("v",p,P.v[p],r.v[p],1e-8); q.m("Bmat",p,P.Bmat[p],r.B[p],1e-8*dx); q.m("F",p,P.F[p],r.F[p],1e-9); q.m("tau",p,P.tau[p],r.tau[p],1e-8*s->E);
        if (P.eps_pl_dev[p]!=0.01*(p+1)||P.eps_pl_vol[p]!=-0.02*(p+1)||P.eps_pl_vol_pradhana[p]!=0.5+p||P.viscosity[p]!=7+p) c.fail("step %d: history of particle %zu changed",k,p); if (mibf) q.s("muI",p,P.muI[p],s->M,1e-12); }
      if (!q.what.empty()) c.fail("step %d: %s",k,q.what.c_str()); };
    c.state(hash(cur)); RefRes r; 
    if (onerun){ for (int k=0;k<steps;k++){ r=ref_step(rc,cur); for(size_t p=0;p<n;p++) r.s.tau[p]=ref_tau_hencky(r.s.F[p],L); cur=r.s; } s->fps=1.0/dt0; s->end_frame=steps; s->simulate(); c.trans(steps); cmp(cur,steps); c.state(hash(snap(*s))); }
    else for (int k=0;k<steps;k++){ r=ref_step(rc,cur); for(size_t p=0;p<n;p++) r.s.tau[p]=ref_tau_hencky(r.s.F[p],L); one_step(*s,dt0); c.trans(); cmp(r.s,k); cur=snap(*s); c.state(hash(cur)); }
    c.note("%zu particles, shift %g: x0=%s",n,shift,str(s->particles.x[0]).c_str()); };
  F.push_back({"seam", {{"cloud",NRC},{"shift",D==2||tier()?24:6},{"scheme",8},{"musl",2},{"bc",3},{"end",2},{"mibf",2}}, [run](Ctx& c,const Dig& d){ run(c,d[0],d[1]*(D==2||tier()?0.5:2.0),12,0.25,FLIP[d[2]],d[3],d[4],true,d[6],d[5],2,1,false); }});
  // short rings, down to four cells: a particle may then need an image at both ends
  F.push_back({"short", {{"cloud",NRC},{"shift",D==2||tier()?16:8},{"scheme",D==2||tier()?8:4},{"musl",2},{"N",7},{"bc",2},{"mibf",2}}, [run](Ctx& c,const Dig& d){ static const int NN[]={4,5,6,7,8,9,10}; int N=NN[d[4]]; run(c,d[0],d[1]*N/(D==2||tier()?16.0:8.0),N,0.25,FLIP[d[2]],d[3],d[5],true,d[6],false,2,1,false); }});
  F.push_back({"runs", {{"cloud",NRC},{"shift",D==2||tier()?12:4},{"scheme",8},{"musl",2},{"stress",2},{"N",2},{"len",tier()?8:(D==2?4:2)},{"thr",2}}, [run](Ctx& c,const Dig& d){ run(c,d[0],d[1]*(D==2||tier()?1:3)+0.37,d[5]?9:12,0.1,FLIP[d[2]],d[3],d[2]%3,d[4],false,false,1+2*d[6],d[7]?3:1,true); }});
  // uniform motion round the ring for ever
  F.push_back({"orbit", {{"cloud",NRC},{"speed",8},{"scheme",8},{"musl",2},{"dx",2}}, [](Ctx& c,const Dig& d){ static const T SP[]={1,-1,0.5,-0.5,0.25,0.3,-0.7,-0.1}; T dx=d[4]?0.1:0.25; int N=12; auto x=place(d[0],0,N,dx,false); auto s=make(x,dx); setup(*s,N); s->E=1e-6; s->flip_ratio=FLIP[d[2]]; s->use_musl=d[3]; T dt=step_dt(0.01); TV v=TV::Zero(); v(0)=SP[d[1]]*dx/dt; for (auto& w:s->particles.v) w=v; int steps=40; s->fps=1.0/0.01; s->end_frame=steps; s->simulate(); c.trans(steps); c.state(hash(snap(*s)));
    if (s->Np!=x.size()||s->particles.x.size()!=x.size()) c.fail("%u particles, expected %zu",s->Np,x.size());
    for (size_t p=0;p<x.size();p++){ TV e=x[p]; e(0)+=steps*dt*v(0); TV a=s->particles.x[p]; T r=(a(0)-e(0))/s->Lx; a(0)-=s->Lx*std::round(r); if (!(maxabs(TV(a-e))<1e-8)) c.fail("orbit: x[%zu]=%s expected %s",p,str(a).c_str(),str(e).c_str()); if (!(s->particles.x[p](0)>=0&&s->particles.x[p](0)<=s->Lx)) c.fail("x outside the period"); if (!(maxabs(TV(s->particles.v[p]-v))<1e-7)) c.fail("orbit: v[%zu]=%s expected %s",p,str(s->particles.v[p]).c_str(),str(v).c_str()); if (!(maxabs(TM(s->particles.F[p]-TM::Identity()))<1e-7)) c.fail("orbit: F[%zu]=%s",p,str(s->particles.F[p]).c_str()); }
    c.note("speed %g cells per step",SP[d[1]]); }});
  // every material model: a run shifted along the ring by whole cells is the same run, wherever its particles cross the seam
  F.push_back({"models", {{"model",9},{"set",4},{"mibf",2},{"shift",D==2||tier()?11:4},{"scheme",3},{"speed",3}}, [](Ctx& c,const Dig& d){ static const T SP[]={9,-6,0.5}; static const T FL[]={-0.95,0.95,0}; T dx=0.25; int N=12, steps=16; T sh=D==2||tier()?1+d[3]:1+3*d[3]; Snap e; 
    for (int w=0;w<2;w++){ auto x=place(3,6+(w?sh:0),N,dx,false); auto s=make(x,dx); setup(*s,N); if (d[0]<4) cfg_ri(*s,d[0],1+d[1]); else cfg_vi(*s,d[0]-4,1+d[1]); s->particle_mass=s->rho*s->particle_volume; s->use_mibf=d[2]; s->flip_ratio=FL[d[4]]; s->gravity=TV::Zero(); s->gravity(1)=-5; size_t n=x.size(); T cw=std::sqrt(s->E/s->rho), dt=0.1*dx/cw; 
      for (size_t p=0;p<n;p++){ TV v=gvec(p,13,0.02*cw); v(0)+=SP[d[5]]*N*dx/(steps*dt)*0.08*(d[5]==2?0:1); s->particles.v[p]=v; s->particles.F[p]=trialF(-0.003,0.004*gen(p,8),1,p,p+2); } 
      plate(*s,1.1*dx,PlateType::bottom,BC::SlipFree,0.25); s->cfl=1; s->cfl_elastic=0.5; s->fps=1/dt; s->end_frame=steps; s->simulate(); c.trans(steps); Snap q=snap(*s); c.state(hash(q)); if (q.x.size()!=n) c.fail("%zu particles, expected %zu",q.x.size(),n); if (!w){ e=q; continue; }
      T L=s->Lx; Cmp m; for (size_t p=0;p<n;p++){ TV xe=e.x[p]; xe(0)+=sh*dx; xe(0)-=L*std::round((xe(0)-q.x[p](0))/L); m.v("x",p,q.x[p],xe,1e-7*dx); m.v("v",p,q.v[p],e.v[p],1e-6*cw); m.m("F",p,q.F[p],e.F[p],1e-7); m.m("tau",p,q.tau[p],e.tau[p],1e-7*s->E); m.s("eps_pl_dev",p,q.epd[p],e.epd[p],1e-7); m.s("eps_pl_vol",p,q.epv[p],e.epv[p],1e-7); m.s("muI",p,q.muI[p],e.muI[p],1e-5); m.s("viscosity",p,q.visc[p],e.visc[p],1e-5*(1+std::abs(e.visc[p]))); m.s("delta_gamma",p,q.dg[p],e.dg[p],1e-6); }
      if (!m.what.empty()) c.fail("%d steps, shifted by %g cells: %s",steps,sh,m.what.c_str()); c.note("shift %g: x0 %s, eps %g, muI %g",sh,str(q.x[0]).c_str(),q.epd[0],q.muI[0]); } }});
  contexts(F,{DC_THREADS3,DC_THREADS8,DC_FAR,DC_OUTPUT,DC_AFTER,DC_UNUSED},2);
}}
MC_MAIN
