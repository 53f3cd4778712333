// C25: results do not depend on the system of units (lengths, times and masses rescaled together)
#include "matcheck.hpp"
using namespace mc;
struct Un { T L=1,T_=1,R=1; T v() const { return L/T_; } T s() const { return R*v()*v(); } };
static const int NM=10;
static const char* MN[NM]={"NoPlasticity","VM","DP","DPSoft","MCC","VMVisc","DPVisc","MCCVisc","DPMui","MCCMui"};
static void setmodel(Simulation& s,int m,int k){ if (m==0){ common_mat(s); s.plastic_model=PlasticModel::NoPlasticity; s.elastic_model=k%2?ElasticModel::NeoHookean:ElasticModel::Hencky; } else if (m<5) cfg_ri(s,m-1,k%NCFG_RI[m-1]); else cfg_vi(s,m-5,k%NCFG_VI[m-5]); }
static void units(Simulation& s,const Un& u){ T S=u.s(); s.E*=S; s.rho*=u.R; s.q_max*=S; s.q_min*=S; s.p_min*=S; s.q_cohesion*=S; s.p0*=S; s.stress_tolerance*=S; s.visc_time*=u.T_; s.rho_s*=u.R; s.grain_diameter*=u.L; }
static bool absolute_tolerance(const Simulation& s){  if (s.plastic_model==PlasticModel::MCC||s.plastic_model==PlasticModel::MCCVisc||s.plastic_model==PlasticModel::MCCMui) return true; if (s.plastic_model==PlasticModel::VMVisc) return !(s.visc_exponent==1&&s.xi==0); if (s.plastic_model==PlasticModel::DPVisc||s.plastic_model==PlasticModel::MCCVisc) return s.visc_exponent!=1; return false; }
struct Sc { int cl,al,model,k,bc; T flip; bool musl; int mode; bool ramp; };
static SimP build(const Sc& g,const Un& u){ T dx=0.25*u.L; auto x=scaled(cloud(g.cl,off(g.al)),dx); bool pbc=g.bc>=NBC; if (pbc) for (auto& p:x){ p(0)-=3.2*dx; p(0)-=10*dx*std::floor(p(0)/(10*dx)); }
  auto s=make(x,dx); setmodel(*s,g.model,g.k); units(*s,u); s->particle_mass=s->rho*s->particle_volume; s->flip_ratio=g.flip; s->use_musl=g.musl; s->gravity=TV::Zero(); s->gravity(1)=-9*u.v()/u.T_; s->gravity(0)=2*u.v()/u.T_; s->min_dt=1e-8*u.T_; if (g.ramp){ s->gravity_special=true; s->gravity_time=0.02*u.T_; }
  for (size_t p=0;p<s->Np;p++){ s->particles.v[p]=gvec(p,21,0.8)*u.v(); s->particles.Bmat[p]=gmat(p,31,0.4*0.0625)*u.v()*u.L; s->particles.F[p]=trialF(-0.03+0.04*gens(p,5),0.04*gen(p,6),p,p,p+1); s->particles.tau[p]=gsym(p,51,200)*u.s(); s->particles.muI[p]=0.2+0.3*gen(p,8); s->particles.eps_pl_dev[p]=0.01*gen(p,9); }
  if (!pbc) setbc(*s,g.bc,u.v()); else { s->pbc=true; s->Lx=10*dx; s->Ly=8*dx; s->use_mibf=true;
    #ifdef THREEDIM
    s->Lz=7*dx;
    #endif
    plate(*s,2.7*dx,PlateType::bottom,BC::SlipFree,0.25); }
  s->cfl=0.4; s->cfl_elastic=0.4; s->fps=90/u.T_; s->end_frame=2; if (g.mode==1){ s->cfl_elastic=1e30; s->cfl=0.02; } if (g.mode==2){ s->cfl=s->cfl_elastic=1e30; s->fps=200/u.T_; s->end_frame=3; }
  return s; }
namespace mc { void families(std::vector<Family>& F){
  auto body=[](Ctx& c,const Sc& g,const Un& u){ auto a=build(g,Un()); if (absolute_tolerance(*a)&&u.s()!=1){ c.skip(); return; } if (u.s()<1e-5||u.s()>1e7){ c.skip(); return; } auto b=build(g,u); a->simulate(); b->simulate(); long n=nsteps(*a); c.trans(n+nsteps(*b)); Snap A=snap(*a),B=snap(*b); c.state(hash(A)); c.state(hash(B));
    const char* nm=MN[g.model]; if (a->exit!=b->exit) c.fail("%s: exit flag %d, in the other units %d",nm,(int)a->exit,(int)b->exit); if (nsteps(*a)!=nsteps(*b)) c.fail("%s: %ld steps, in units L=%g T=%g rho=%g %ld steps",nm,n,u.L,u.T_,u.R,nsteps(*b)); if (A.n()!=B.n()) c.fail("number of particles");
    Cmp q; T dx=a->dx,E=a->E; for (size_t p=0;p<A.n();p++){ q.v("x",p,TV(B.x[p]/u.L),A.x[p],1e-9*dx); q.v("v",p,TV(B.v[p]/u.v()),A.v[p],1e-8); q.m("B",p,TM(B.B[p]/(u.v()*u.L)),A.B[p],1e-8*dx); q.m("F",p,B.F[p],A.F[p],1e-8); q.m("tau",p,TM(B.tau[p]/u.s()),A.tau[p],1e-8*E); q.s("eps_pl_dev",p,B.epd[p],A.epd[p],1e-8); q.s("eps_pl_vol",p,B.epv[p],A.epv[p],1e-8); q.s("eps_pl_vol_pradhana",p,B.prad[p],A.prad[p],1e-8); q.s("delta_gamma",p,B.dg[p]*u.T_,A.dg[p],1e-6*(1+std::abs(A.dg[p]))); q.s("muI",p,B.muI[p],A.muI[p],1e-6); q.s("viscosity",p,B.visc[p]/(u.s()*u.T_),A.visc[p],1e-6*(1+std::abs(A.visc[p]))); }
    if (!q.what.empty()) c.fail("%s in units L=%g T=%g rho=%g after %ld steps: %s",nm,u.L,u.T_,u.R,n,q.what.c_str()); c.note("%s, units L=%g T=%g rho=%g: %ld steps agree",nm,u.L,u.T_,u.R,n); };
  static const T P[]={1.0/1024,1.0/16,1,64,1024};
  F.push_back({"models", {{"model",NM},{"cfg",tier()?12:4},{"L",5},{"T",5},{"rho",5},{"mode",2},{"musl",2}}, [body](Ctx& c,const Dig& d){ Sc g{2,3,d[0],d[1]*7+1,d[1]%2?4:1,-0.95,(bool)d[6],d[5],false}; if (d[2]==2&&d[3]==2&&d[4]==2){ c.skip(); return; } Un u; u.L=P[d[2]]; u.T_=P[d[3]]; u.R=P[d[4]]; body(c,g,u); }});
  // the stress unit is kept, so that models with a stress tolerance of their own are covered too
  F.push_back({"same-stress", {{"model",NM},{"cfg",tier()?40:12},{"L",5},{"T",5},{"musl",2}}, [body](Ctx& c,const Dig& d){ Sc g{2,3,d[0],d[1]*5+2,d[1]%2?2:4,0.9,(bool)d[4],2,false}; Un u; u.L=P[d[2]]; u.T_=P[d[3]]; u.R=(u.T_/u.L)*(u.T_/u.L); if (d[2]==2&&d[3]==2){ c.skip(); return; } body(c,g,u); }});
  F.push_back({"schemes", {{"scheme",8},{"bc",NBC+1},{"musl",2},{"mode",3},{"unit",8},{"model",2},{"ramp",2}}, [body](Ctx& c,const Dig& d){ Sc g{D==2?5:2,1+d[1]%4,d[5]?8:2,d[5]?5:1,d[1],FLIP[d[0]],(bool)d[2],d[3],(bool)d[6]}; Un u; static const T U[][3]={{1.0/1024,1,1},{1024,1,1},{1,1.0/1024,1},{1,1024,1},{1,1,1.0/4096},{1,1,4096},{1.0/1024,1.0/64,4096},{1.0/64,1.0/1024,64}}; u.L=U[d[4]][0]; u.T_=U[d[4]][1]; u.R=U[d[4]][2]; body(c,g,u); }});
  contexts(F,{DC_THREADS3,DC_FAR,DC_OUTPUT,DC_AFTER},2);
}}
MC_MAIN
