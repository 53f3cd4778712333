// C12: viscoplastic and mu(I) models obey their overstress laws
#include "matcheck.hpp"
using namespace mc;
static bool is_mcc(const Simulation& s){ return s.plastic_model==PlasticModel::MCCVisc||s.plastic_model==PlasticModel::MCCMui; }
static void check(Ctx& c,Simulation& s,const std::vector<TM>& F,const Exper& e,T dt){ MatPar m=matpar(s); if (e.exit) c.fail("exit flag set"); int cs=0;
  bool mui=s.plastic_model==PlasticModel::DPMui||s.plastic_model==PlasticModel::MCCMui;
  for (size_t p=0;p<F.size();p++){ if (e.stopped.size()&&e.stopped[p]) continue; St st=state_of(e.in,p); Ref r=ref_plastic(s,m,dt,F[p],st); PQ o=pq(e.out.F[p],m), t=pq(F[p],m); check_consistent(c,s,m,F[p],e.out,p,"particle");
    if (mui&&!(e.out.muI[p]>=s.mu_1*(1-1e-9)&&e.out.muI[p]<=s.mu_2*(1+1e-9))) c.fail("reported friction %.9g outside [mu_1,mu_2]=[%.9g,%.9g] for trial p=%.9g q=%.9g",e.out.muI[p],s.mu_1,s.mu_2,t.p,t.q);
    if (r.band){ sh()->extra[0]++; continue; }
    char w[300]; snprintf(w,300,"trial p=%.9g q=%.9g (epd=%g epv=%g prad=%g, dt=%g, visc_time=%g, exponent=%g)",t.p,t.q,st.epd,st.epv,st.prad,dt,s.visc_time,s.visc_exponent);
    if (r.elastic){ if (!(maxabs(TM(e.out.F[p]-F[p]))<=1e-12)) c.fail("%s is inside the static yield surface but F changed (p=%.9g q=%.9g)",w,o.p,o.q); if (mui&&(std::abs(e.out.muI[p]-s.mu_1)>1e-12||e.out.visc[p]!=0)) c.fail("%s: elastic particle reports friction %.9g",w,e.out.muI[p]); continue; }
    if (is_mcc(s)){ T M=s.plastic_model==PlasticModel::MCCMui?s.mu_1:s.M; T b=(s.plastic_model==PlasticModel::MCCVisc&&s.use_duvaut_lions_formulation)?1/(1+s.visc_time/dt):1; T prma=t.p-(t.p-o.p)/b; // pressure of the return mapping
      bool conv=mcc_implicit(s)&&std::abs(mcc_flow_residual(s,m,M,t.p,t.q,st.epv,prma))<=1.2e-4; bool okp=std::abs(o.p-r.p)<=r.tp; if (!okp&&!conv){ if (centre_stop(s,m,M,t.p,st.epv,prma)&&++cs<=2){ sh()->extra[2]++; continue; } c.fail("%s: pressure after the step %.9g, expected %.9g",w,o.p,r.p); }
      if (!okp){ sh()->extra[2]++; continue; } }
    else if (!(std::abs(o.p-r.p)<=r.tp)) c.fail("%s: pressure after the step %.9g, expected %.9g",w,o.p,r.p);
    if (!(std::abs(o.q-r.q)<=r.tq)) c.fail("%s: q after the step %.9g, expected %.9g (tolerance %g)",w,o.q,r.q,r.tq);
    if (r.viscous&&!(o.q<=t.q+r.tq&&o.q>=r.qlo-std::max(r.tq*1e-3,is_mcc(s)?r.tq:1.1e-2+1e-9*s.E))) c.fail("%s: q after the step %.9g is not between the static yield stress %.9g and the trial stress",w,o.q,r.qlo);
    if (r.resid){ T g=(t.q-o.q)/m.fm; T res=r.resid(g); if (!(std::abs(res)<=r.rtol*1.01+1e-8*s.E)) c.fail("%s: shear increment %.9g does not solve the rate equation: residual %g",w,g,res); }
    if (mui&&r.muI>=0&&!is_mcc(s)){ if (!(std::abs(e.out.muI[p]-r.muI)<=1e-4)) c.fail("%s: reported friction %.9g expected %.9g",w,e.out.muI[p],r.muI); if (r.viscous&&!(std::abs(e.out.visc[p]-r.visc)<=1e-3*std::abs(r.visc)+1e-6)) c.fail("%s: reported viscosity %.9g expected %.9g",w,e.out.visc[p],r.visc); }
    if (s.plastic_model==PlasticModel::MCCMui&&r.viscous&&r.muI>=0&&!mcc_implicit(s)){ if (!(std::abs(e.out.muI[p]-r.muI)<=1e-3)) c.fail("%s: reported friction %.9g expected %.9g",w,e.out.muI[p],r.muI); if (!(std::abs(e.out.visc[p]-r.visc)<=1e-2*std::abs(r.visc)+1e-3)) c.fail("%s: reported viscosity %.9g expected %.9g",w,e.out.visc[p],r.visc); }
    sh()->extra[1]++; } }
namespace mc { void families(std::vector<Family>& F){
  static const char* NM[]={"VMVisc","DPVisc","MCCVisc","DPMui","MCCMui"}; static const T DT[]={1e-3,1e-4,0.1};
  for (int mo=0;mo<NVI;mo++){
    F.push_back({std::string("rate-")+NM[mo], {{"cfg",NCFG_VI[mo]},{"u",3},{"dt",3},{"musl",2},{"pre",4},{"mibf",2}}, [mo](Ctx& c,const Dig& d){ auto Fs=trials(d[1]*2,d[1]+1,d[0]+d[1],mo==3||(mo<2&&(d[0]/4)%3==0&&(mo==1||!((d[0]/24)&1)))); if (mo==0){ /* on both sides of the softened and of the hardened cap */ Lame l=lame(1e5,0.3); T K=l.K; for (T p:{330.,375.,385.,420.,440.,460.,560.}) for (T q:{1e-4,2e-3,2e-2}) Fs.push_back(trialF(p/K,q,d[0],d[1],d[1]+2)); } T dx=0.5; auto s=make(cluster(Fs.size(),dx),dx); cfg_vi(*s,mo,d[0]); s->use_musl=d[3]; s->use_mibf=d[5]; T dt=DT[d[2]];
      for (size_t p=0;p<Fs.size();p++)preset(*s,p,p,d[4]);
      auto e=mp_step(*s,Fs,dt); c.trans(Fs.size()); if (e.exit&&may_refuse(*s)) find_refused(e,Fs,dt,dx,[&](Simulation& z){ cfg_vi(z,mo,d[0]); z.use_musl=d[3]; z.use_mibf=d[5]; }); c.state(hash(e.out)); check(c,*s,Fs,e,step_dt(dt)); c.note("%zu trial states, dt %g, first result tau=%s",Fs.size(),dt,str(e.out.tau[0]).c_str()); }});
    F.push_back({std::string("near-")+NM[mo], {{"cfg",NCFG_VI[mo]},{"u",2},{"dt",3},{"pre",4}}, [mo](Ctx& c,const Dig& d){ T dx=0.5, dt=DT[d[2]]; auto s=make(cluster(NNEAR,dx),dx); if (!cfg_vi(*s,mo,d[0])) return c.skip(); s->use_musl=d[1]; MatPar m=matpar(*s); std::vector<TM> Fs; for (int p=0;p<NNEAR;p++){ preset(*s,p,p/8,d[3]); Fs.push_back(near_trial(*s,m,p,p,p+d[0],d[1]*2,d[1]+1)); }
      auto e=mp_step(*s,Fs,dt); c.trans(Fs.size()); if (e.exit&&may_refuse(*s)) find_refused(e,Fs,dt,dx,[&](Simulation& z){ cfg_vi(z,mo,d[0]); z.use_musl=d[1]; }); if (e.exit&&may_refuse(*s)) return c.skip(); c.state(hash(e.out)); check(c,*s,Fs,e,step_dt(dt)); c.note("%zu trial states at the static yield surface",Fs.size()); }});
    F.push_back({std::string("history-")+NM[mo], {{"cfg",std::min(NCFG_VI[mo],tier()?240:24)},{"o1",7},{"o2",7},{"o3",7},{"o4",tier()?7:1},{"musl",2}}, [mo](Ctx& c,const Dig& d){ T dx=0.5; int n=NCFG_VI[mo]; int cf=n<=24||tier()?d[0]:(d[0]*(n/24)+d[0]%(n/24))%n; auto s=make(cluster(4,dx),dx); if (!cfg_vi(*s,mo,cf)) return c.skip(); s->use_musl=d[5];
      std::vector<TM> Fs(4); for (int p=0;p<4;p++) Fs[p]=trialF(p==0?0:-0.006*p,0.001*p,p,p,p+1);
      for (int k=0;k<(tier()?4:3);k++){ for (auto& f:Fs) f=incr(d[1+k])*f; T dt=k%2?1e-3:4e-3; auto e=mp_step(*s,Fs,dt); c.trans(); if (e.exit&&may_refuse(*s)) return; check(c,*s,Fs,e,step_dt(dt)); c.state(hash(e.out)); Fs=e.out.F; } }}); }
  // zero viscous time: exactly the rate-independent counterpart
  F.push_back({"zero-time", {{"model",3},{"cfg",40},{"expo",3},{"dl",2},{"u",3},{"pre",2}}, [](Ctx& c,const Dig& d){ auto Fs=trials(d[4],d[4]+2,d[1]); T dx=0.5; auto a=make(cluster(Fs.size(),dx),dx), b=make(cluster(Fs.size(),dx),dx); static const int MO[]={0,1,3}; int mo=MO[d[0]]; if (d[1]>=NCFG_RI[mo]) return c.skip(); if (d[0]==2&&d[3]&&d[2]) return c.skip(); int cf=mo==3?d[1]*3:d[1]; cfg_ri(*a,mo,cf); cfg_ri(*b,mo,cf); b->plastic_model=d[0]==0?PlasticModel::VMVisc:d[0]==1?PlasticModel::DPVisc:PlasticModel::MCCVisc; b->q_min=b->q_max; b->visc_time=0; static const T EX[]={1,2,0.5}; b->visc_exponent=EX[d[2]]; b->use_duvaut_lions_formulation=d[3]; b->use_pradhana=false; 
    if (d[5]) for (size_t p=0;p<Fs.size();p++){ T v=(a->hardening_law==HardeningLaw::SinhImpl||a->hardening_law==HardeningLaw::SinhExpl?1e-4:0.01); a->particles.eps_pl_vol[p]=b->particles.eps_pl_vol[p]=v*(p%2); }
    auto e=mp_step(*a,Fs,1e-3), f=mp_step(*b,Fs,1e-3); c.trans(2); if (may_refuse(*a)&&(e.exit||f.exit)) return; if (f.exit) c.fail("exit flag set"); c.state(hash(f.out)); MatPar m=matpar(*a); T tol=(d[2]?1.1e-2:1e-7*a->E);
    for (size_t p=0;p<Fs.size();p++){ PQ x=pq(e.out.F[p],m), y=pq(f.out.F[p],m); if (!(std::abs(x.p-y.p)<=tol&&std::abs(x.q-y.q)<=tol)) c.fail("zero viscous time: p=%.9g q=%.9g, rate-independent model: p=%.9g q=%.9g",y.p,y.q,x.p,x.q); } }});
  // slow softening: the surface still changes after large accumulated strains
  F.push_back({"slow-VMVisc", {{"cfg",NCFG_VI[0]},{"xi",3},{"u",3},{"dt",3},{"pre",2}}, [](Ctx& c,const Dig& d){ static const T XI[]={0.3,1.2,4}; int cf=d[0]; if (!((cf/24)&1)) return c.skip(); auto Fs=trials(d[2]*2,d[2]+1,d[0]+d[2],false); T dx=0.5; auto cfg=[&](Simulation& z){ cfg_vi(z,0,cf); z.xi=XI[d[1]]; z.use_musl=d[2]%2; }; auto s=make(cluster(Fs.size(),dx),dx); cfg(*s); T dt=DT[d[3]]; for (size_t p=0;p<Fs.size();p++) preset(*s,p,p,2+d[4]);
    auto e=mp_step(*s,Fs,dt); c.trans(Fs.size()); if (e.exit&&may_refuse(*s)) find_refused(e,Fs,dt,dx,cfg); c.state(hash(e.out)); check(c,*s,Fs,e,step_dt(dt)); c.note("%zu trial states, xi %g",Fs.size(),s->xi); }});
  contexts(F,{DC_THREADS3,DC_FAR,DC_OUTPUT,DC_AFTER,DC_LENGTHS},2);
}}
MC_MAIN
