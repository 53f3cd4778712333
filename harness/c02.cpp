// C02: every step is as long as the limits allow
#include "matcheck.hpp"
using namespace mc;
static void watch(Ctx& c, SimP& s, int tag){ T dx=s->dx, lim_el=s->cfl_elastic*dx/std::sqrt(s->E/s->rho);
    std::vector<std::pair<T,T>> tr; ObjectPlate* cl=observe(*s,[&](T t){ T m=0; for(auto& w:s->particles.v) m=std::max(m,w.norm()); tr.push_back({t,m}); });
    s->simulate(); tr.push_back({cl->pos_object,0}); c.trans(tr.size()-1); T fdt=1/s->fps; int frame=0; T md=s->min_dt;
    for (size_t k=0;k+1<tr.size();k++){ T t=tr[k].first, dt=tr[k+1].first-t, vm=tr[k].second; T lim=lim_el; if (vm>0) lim=std::min(lim,s->cfl*dx/vm); T left=(frame+1)*fdt-t; T e=std::max(std::min(lim,left),md); c.state(mixd(mixd(mixd(tag,t),dt),vm));
      if (!(std::abs(dt-e)<=1e-9*e+1e-13*std::min<T>(1,fdt)+1e-15*t)) c.fail("step %zu at t=%.12g: dt=%.12g, expected %.12g (CFL %.6g, wave %.6g, frame left %.6g, minimum %g)",k,t,dt,e,vm>0?s->cfl*dx/vm:1e99,lim_el,left,md);
      if ((frame+1)*fdt-tr[k+1].first < 1.1*md+1e-12*std::min<T>(1,fdt)+4e-15*tr[k+1].first) frame++; }
    c.note("%zu steps, first dt %.9g, largest speed %g",tr.size()-1,tr[1].first-tr[0].first,tr[0].second);
    if (frame!=(int)s->end_frame) c.fail("run ended at t=%g in frame %d",tr.back().first,frame);
}
namespace mc { void families(std::vector<Family>& F){
  // one fastest particle (which, in which direction) and gravity changing the speed during the run
  F.push_back({"limits", {{"fast",D==2||tier()?4:2},{"dir",2*D+1},{"speed",7},{"cfl",4},{"cfle",4},{"dx",D==2||tier()?2:1},{"fps",4},{"g",2},{"mindt",3}}, [](Ctx& c,const Dig& d){
    static const T SP[]={0,1e-12,0.01,0.4,1,3,25}, CF[]={0.5,0.1,0.9,0.01}, CE[]={0.5,0.05,1e6,0.9}, FPS[]={10,30,3,1000}, MD[]={1e-14,1e-8,2e-3}; T dx=d[5]?0.1:0.25;
    T E=(d[3]%2?1e4:4e3)*(d[4]==2?1e-9:1), rho=d[4]%2?1000:2000; auto x=scaled(cloud(4,off(1)),dx); x.resize(4);
    auto s=make(x,dx); s->E=E; { static const T NU[]={0.3,0,0.15}; s->nu=NU[(d[0]+d[6])%3]; } s->rho=rho; s->particle_mass=rho*s->particle_volume; s->cfl=CF[d[3]]; s->cfl_elastic=CE[d[4]]; s->fps=FPS[d[6]]; s->min_dt=MD[d[8]]; s->flip_ratio=d[2]%2?-0.95:1; s->end_frame=2;
    if (d[7]){ s->gravity=TV::Zero(); s->gravity(1)=-8; }
    for (int p=0;p<4;p++) s->particles.v[p]=gvec(p,3,0.3*SP[d[2]]/2); TV v=TV::Zero(); if (d[1]<2*D) v(d[1]/2)=d[1]%2?-1:1; else v=TV::Constant(-1/std::sqrt(T(D))); s->particles.v[D==2||tier()?d[0]:3*d[0]]=SP[d[2]]*v;
    if (2*s->min_dt*s->fps>1){ c.skip(); return; } T lim_el=s->cfl_elastic*dx/std::sqrt(E/rho); 
    { T dmin=std::min(lim_el, SP[d[2]]>1e-10 ? s->cfl*dx/(SP[d[2]]+1) : 1e9); dmin=std::max(dmin,s->min_dt); if (s->end_frame/s->fps/dmin > (tier()?5000:D==2?500:150)){ c.skip(); return; } }
    watch(c,s,d[3]*10+d[4]);
  }});
  // the same law in every system of units: length, time and mass scales over many decades
  F.push_back({"units", {{"L",5},{"T",5},{"rho",3},{"mode",3},{"dir",3},{"flip",2},{"n",3}}, [](Ctx& c,const Dig& d){
    static const T L[]={1e-3,0.04,1,50,1e4}, TT[]={1e-4,1e-2,1,60,1e4}, R[]={1e-3,1,3000}, FR[]={3.3,1.7,9.2}; T dx=0.25*L[d[0]], fdt=TT[d[1]]; static const int N[]={1,4,24};
    std::vector<TV> x; for (int p=0;p<N[d[6]];p++){ TV q; for (int i=0;i<D;i++) q(i)=3+2.4*gen(p,5+i); x.push_back(q*dx); }
    auto s=make(x,dx); s->rho=R[d[2]]; s->particle_mass=s->rho*s->particle_volume; s->fps=1/fdt; s->end_frame=3; s->min_dt=1e-9*fdt; s->flip_ratio=d[5]?-0.95:1; s->cfl=0.5; s->cfl_elastic=0.5;
    T fr=FR[d[4]], ws=0.5*dx*fr/fdt*(d[3]==0?1:1e-3), vm=0.5*dx*fr/fdt*(d[3]==1?1:0.2); if (vm<1e-8){ c.skip(); return; } s->E=ws*ws*s->rho; 
    for (int p=0;p<N[d[6]];p++){ TV v=gvec(p,9+d[4],1); s->particles.v[p]=v*(vm*0.6/std::sqrt(T(D))); } TV v=TV::Zero(); if (d[4]<2) v(d[4])=d[4]?1:-1; else v=TV::Constant(1/std::sqrt(T(D))); s->particles.v[N[d[6]]-1]=vm*v; 
    if (d[3]==2){ s->gravity=TV::Zero(); s->gravity(1)=-2*vm/fdt; }
    watch(c,s,100+d[0]*5+d[1]);
  }});
  // the limits do not depend on the material model, the elastic law, Poisson's ratio, the scheme, periodicity, material-induced friction or the number of threads
  F.push_back({"context", {{"model",10},{"law",2},{"nu",5},{"scheme",4},{"musl",2},{"pbc",2},{"mibf",2},{"thr",2},{"tight",2}}, [](Ctx& c,const Dig& d){ if (d[1]&&d[0]) return c.skip(); static const T NU[]={0.3,0,0.45,-0.3,0.4}; T dx=0.25; std::vector<TV> x; for (int p=0;p<6;p++){ TV q; for (int i=0;i<D;i++) q(i)=(d[5]&&i==0?0.2:3)+2.4*gen(p,5+i); x.push_back(q*dx); } auto s=make(x,dx);
    if (d[0]==0){ common_mat(*s); s->plastic_model=PlasticModel::NoPlasticity; if (d[1]) s->elastic_model=ElasticModel::NeoHookean; } else if (d[0]<5) cfg_ri(*s,d[0]-1,1); else cfg_vi(*s,d[0]-5,1);
    s->E=4e5; s->rho=1200; s->particle_mass=s->rho*s->particle_volume; s->nu=NU[d[2]]; s->flip_ratio=FLIP[d[3]*2]; s->use_musl=d[4]; if (d[5]){ s->pbc=true; s->Lx=10*dx; s->Ly=9*dx;
     #ifdef THREEDIM
     s->Lz=9*dx;
     #endif
    } s->use_mibf=d[6]; s->n_threads=1+2*d[7]; s->cfl=0.1; s->cfl_elastic=d[8]?0.1:0.07; s->min_dt=1e-12; T cw=std::sqrt(s->E/s->rho); T h=s->cfl_elastic*dx/cw; s->fps=1/(3.4*h); s->end_frame=2; T vm=d[8]?0.1*dx/h*1.8:0.06*dx/h; for(size_t p=0;p<x.size();p++) s->particles.v[p]=gvec(p,9,1)*(0.02*vm); s->particles.v[3].setZero(); s->particles.v[3](1)=vm;
    if (d[8]==0&&d[2]==1) s->gravity(0)=-4;
    watch(c,s,1000+d[0]); }});
  // flow speed and wave speed orders of magnitude apart, either coefficient tiny or huge: the smaller limit still decides
  F.push_back({"ratios", {{"mach",9},{"cfl",6},{"cfle",6},{"n",2},{"dir",2},{"flip",2}}, [](Ctx& c,const Dig& d){ static const T M[]={1e-9,1e-6,1e-4,1e-2,1,30,1e3,1e5,1e8}, CF[]={0.5,1e-7,1e-5,1e-3,1,40}; T dx=0.25; auto x=scaled(cloud(4,off(1)),dx); x.resize(d[3]?4:1); auto s=make(x,dx); s->rho=1000; s->particle_mass=s->rho*s->particle_volume; s->cfl=CF[d[1]]; s->cfl_elastic=CF[d[2]]; s->flip_ratio=d[5]?-0.95:1; s->end_frame=2;
    T vm=M[d[0]]>1?3:3*M[d[0]], cw=vm/M[d[0]]; s->E=cw*cw*s->rho; T lim=std::min(s->cfl*dx/vm,s->cfl_elastic*dx/cw); s->fps=1/(3.4*lim); s->min_dt=1e-9*lim; if (vm<1e-8||lim*cw>1.5*dx||lim*vm>1.5*dx) return c.skip(); // beyond: no stable run
    for (size_t p=0;p<x.size();p++) s->particles.v[p]=gvec(p,3,0.1*vm); TV v=TV::Zero(); v(d[4])=d[4]?-1:1; s->particles.v[x.size()-1]=vm*v; watch(c,s,5000+d[0]); }});
  contexts(F,{DC_FAR,DC_OUTPUT,DC_AFTER,DC_LENGTHS,DC_UNUSED},2,{"limits"});
}}
MC_MAIN
