// C11: rate-independent plasticity returns the stress to the yield surface
#include "matcheck.hpp"
using namespace mc;
static void check(Ctx& c,Simulation& s,const std::vector<TM>& F,const Exper& e,T dt,bool strict=false){ MatPar m=matpar(s); int cs=0; if (e.exit) c.fail("exit flag set");
  for (size_t p=0;p<F.size();p++){ if (e.stopped.size()&&e.stopped[p]) continue; Ref r=ref_plastic(s,m,dt,F[p],state_of(e.in,p)); PQ o=pq(e.out.F[p],m), t=pq(F[p],m); check_consistent(c,s,m,F[p],e.out,p,"particle"); if (r.band){ sh()->extra[0]++; continue; }
    if (r.elastic){ if (!(maxabs(TM(e.out.F[p]-F[p]))<=1e-12)) c.fail("trial state p=%.9g q=%.9g is inside the yield surface but F changed (p=%.9g q=%.9g, epv=%g epd=%g)",t.p,t.q,o.p,o.q,e.in.epv[p],e.in.epd[p]); continue; }
    bool conv = s.plastic_model==PlasticModel::MCC&&mcc_implicit(s)&&std::abs(mcc_flow_residual(s,m,s.M,t.p,t.q,e.in.epv[p],o.p))<=1.2e-4;
    if (!conv) if (!(std::abs(o.p-r.p)<=r.tp)||!(std::abs(o.q-r.q)<=r.tq)){ bool known=s.plastic_model==PlasticModel::MCC&&centre_stop(s,m,s.M,t.p,e.in.epv[p],o.p); if (known&&!strict&&++cs<=2){ sh()->extra[2]++; } else { if (known&&strict) c.fkey="centre-stop"; c.fail("trial p=%.9g q=%.9g (epd=%g epv=%g prad=%g) returned to p=%.9g q=%.9g, expected p=%.9g q=%.9g",t.p,t.q,e.in.epd[p],e.in.epv[p],e.in.prad[p],o.p,o.q,r.p,r.q); } }
    if (s.plastic_model==PlasticModel::MCC){ T pc=mcc_pc(s,m,mcc_implicit(s)?e.out.epv[p]:e.in.epv[p]); T y=mcc_y(s.M,s.beta,pc,o.p,o.q); if (!(std::abs(y)<=(mcc_implicit(s)?3e-4:1e-6)*std::pow(std::max(pc,mcc_pc(s,m,e.in.epv[p])),2)+1e-6*s.E)) c.fail("returned stress p=%.9g q=%.9g is off the yield surface: y/pc^2=%g (pc=%g)",o.p,o.q,y/pc/pc,pc); }
    sh()->extra[1]++; } }
namespace mc { void families(std::vector<Family>& F){
  // the recorded finding: trial state whose implicit return stops at the centre of the surface instead of along the flow direction
  F.push_back({"centre-stop", {{"k",1}}, [](Ctx& c,const Dig& d){ std::vector<TM> Fs; MatPar m; { auto s=make(cluster(1,0.5),0.5); cfg_ri(*s,3,83); m=matpar(*s); } T K=m.K; Fs.push_back(trialF(-1250/K,4351.426347/m.em,0,0,0)); auto s=make(cluster(1,0.5),0.5); cfg_ri(*s,3,83); s->particles.eps_pl_vol[0]=0.022; auto e=mp_step(*s,Fs,1e-3); c.trans(); check(c,*s,Fs,e,step_dt(1e-3),true); }});
  static const char* NM[]={"VM","DP","DPSoft","MCC"};
  for (int mo=0;mo<NRI;mo++){
    F.push_back({std::string("return-")+NM[mo], {{"cfg",NCFG_RI[mo]},{"u",6},{"w",3},{"musl",2},{"pre",4}}, [mo](Ctx& c,const Dig& d){ auto Fs=trials(d[1],d[2]*2,d[0]+d[1],mo<3); T dx=0.5; auto s=make(cluster(Fs.size(),dx),dx); if (!cfg_ri(*s,mo,d[0])) return c.skip(); s->use_musl=d[3];
      for (size_t p=0;p<Fs.size();p++)preset(*s,p,p,d[4]);
      auto e=mp_step(*s,Fs,1e-3); c.trans(Fs.size()); if (e.exit&&may_refuse(*s)) find_refused(e,Fs,1e-3,dx,[&](Simulation& z){ cfg_ri(z,mo,d[0]); z.use_musl=d[3]; }); c.state(hash(e.out)); check(c,*s,Fs,e,step_dt(1e-3)); c.note("%zu trial states, first result tau=%s",Fs.size(),str(e.out.tau[0]).c_str()); }});
    F.push_back({std::string("near-")+NM[mo], {{"cfg",NCFG_RI[mo]},{"u",3},{"musl",2},{"pre",4}}, [mo](Ctx& c,const Dig& d){ T dx=0.5; auto s=make(cluster(NNEAR,dx),dx); if (!cfg_ri(*s,mo,d[0])) return c.skip(); s->use_musl=d[2]; MatPar m=matpar(*s); std::vector<TM> Fs; for (int p=0;p<NNEAR;p++){ preset(*s,p,p/8,d[3]); Fs.push_back(near_trial(*s,m,p,p,p+d[0],d[1]*2,d[1]+1)); }
      auto e=mp_step(*s,Fs,1e-3); c.trans(Fs.size()); if (e.exit&&may_refuse(*s)) find_refused(e,Fs,1e-3,dx,[&](Simulation& z){ cfg_ri(z,mo,d[0]); z.use_musl=d[2]; }); c.state(hash(e.out)); check(c,*s,Fs,e,step_dt(1e-3)); c.note("%zu trial states at the yield surface",Fs.size()); }});
    F.push_back({std::string("history-")+NM[mo], {{"cfg",std::min(NCFG_RI[mo],tier()?120:24)},{"o1",7},{"o2",7},{"o3",7},{"o4",tier()?7:2},{"musl",2}}, [mo](Ctx& c,const Dig& d){ T dx=0.5; int cf=d[0]; if (!tier()&&mo==3) cf=(d[0]*5+d[0]/24)%120; auto s=make(cluster(4,dx),dx); if (!cfg_ri(*s,mo,cf)) return c.skip(); s->use_musl=d[5];
      std::vector<TM> Fs(4); for (int p=0;p<4;p++) Fs[p]=trialF(p==0?0:-0.006*p,0.001*p,p,p,p+1);
      for (int k=0;k<4;k++){ for (auto& f:Fs) f=incr(k==3&&!tier()?d[4]*6:d[1+k])*f; T dt=k%2?1e-3:4e-3; auto e=mp_step(*s,Fs,dt); c.trans(); if (e.exit&&may_refuse(*s)) return; check(c,*s,Fs,e,step_dt(dt)); c.state(hash(e.out)); Fs=e.out.F; } }}); }
  // slow softening: the surface still changes after large accumulated strains
  F.push_back({"slow-DPSoft", {{"cfg",NCFG_RI[2]},{"xi",3},{"u",6},{"musl",2},{"pre",2}}, [](Ctx& c,const Dig& d){ static const T XI[]={0.3,1.2,4}; auto Fs=trials(d[2],(d[2]*2)%6,d[0]+d[2],true); T dx=0.5; auto s=make(cluster(Fs.size(),dx),dx); if (!(d[0]&2)||!cfg_ri(*s,2,d[0])) return c.skip(); s->xi=XI[d[1]]; s->use_musl=d[3]; for (size_t p=0;p<Fs.size();p++) preset(*s,p,p,2+d[4]);
    auto e=mp_step(*s,Fs,1e-3); c.trans(Fs.size()); c.state(hash(e.out)); check(c,*s,Fs,e,step_dt(1e-3)); c.note("%zu trial states, xi %g",Fs.size(),s->xi); }});
  contexts(F,{DC_THREADS3,DC_FAR,DC_OUTPUT,DC_AFTER,DC_LENGTHS},2);
}}
MC_MAIN
