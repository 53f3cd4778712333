// C13: plastic strain bookkeeping
#include "matcheck.hpp"
using namespace mc;
static void check(Ctx& c,Simulation& s,const std::vector<TM>& F,const Exper& e,T dt){ MatPar m=matpar(s); if (e.exit) c.fail("exit flag set");
  for (size_t p=0;p<F.size();p++){ if (e.stopped.size()&&e.stopped[p]) continue; St st=state_of(e.in,p); Dec a=decomp(F[p]), b=decomp(e.out.F[p]); T dv=e.out.epv[p]-e.in.epv[p], dd=e.out.epd[p]-e.in.epd[p]; T it=s.plastic_model==PlasticModel::MCCMui?2*s.stress_tolerance/m.em:0; // (MCCMui ignores overstress below the stress tolerance)
    char w[260]; snprintf(w,260,"trial p=%.9g q=%.9g (epd=%g epv=%g prad=%g dt=%g)",-m.K*a.tr,m.em*a.dn,st.epd,st.epv,st.prad,dt);
    if (!std::isfinite(dv)||!std::isfinite(dd)||!std::isfinite(e.out.dg[p])||!std::isfinite(e.out.prad[p])) c.fail("%s: accumulated quantities are not finite",w);
    if (!(std::abs(b.tr+dv-a.tr)<=1e-9)) c.fail("%s: volumetric strain: elastic %.12g + plastic increment %.12g != trial %.12g",w,b.tr,dv,a.tr);
    if (!(std::abs(b.dn+dd-a.dn)<=1e-9+it)) c.fail("%s: deviatoric strain: elastic %.12g + plastic increment %.12g != trial %.12g",w,b.dn,dd,a.dn);
    if (!(dd>=-1e-12)) c.fail("%s: accumulated plastic shear strain decreased by %g",w,-dd);
    bool el=maxabs(TM(e.out.F[p]-F[p]))<=1e-14; Ref r=ref_plastic(s,m,dt,F[p],st); if (!r.band&&r.elastic!=el&&r.elastic) c.fail("%s: elastic state changed",w);
    if (el&&r.elastic&&!r.band){ sh()->extra[0]++; if (dv!=0||dd!=0) c.fail("%s: elastic step changed accumulated strains by %g (shear) and %g (volume)",w,dd,dv); if (e.out.dg[p]!=0) c.fail("%s: elastic step reports plastic shear rate %g",w,e.out.dg[p]); }
    else { sh()->extra[1]++; T ex=m.dp*dd/dt; if (!(std::abs(e.out.dg[p]-ex)<=1e-7*std::abs(ex)+m.dp/dt*(1e-11+it*0))) c.fail("%s: reported plastic shear rate %.9g, increment over step length %.9g",w,e.out.dg[p],ex); }
    if (!r.band&&r.has_prad&&std::abs(e.out.prad[p]-r.prad)>1e-9) c.fail("%s: volume correction %.9g expected %.9g",w,e.out.prad[p],r.prad);
    if (!s.use_pradhana&&s.plastic_model!=PlasticModel::DPMui&&e.out.prad[p]!=e.in.prad[p]) c.fail("%s: volume correction changed although it is not used",w); } }
template <class Cfg> static void batch(Ctx& c,const Dig& d,Cfg cfg,T dt){ T dx=0.5; auto Fs=trials(d[1]*2,d[1]+1,d[0]+d[1]); size_t n=Fs.size(); std::vector<Snap> ref;
  for (int ord=0;ord<3;ord++){ std::vector<size_t> ix(n); for (size_t p=0;p<n;p++) ix[p]=ord==0?p:ord==1?n-1-p:(p*23+5)%n; std::vector<TM> G(n); for (size_t p=0;p<n;p++) G[p]=Fs[ix[p]]; auto s=make(cluster(n,dx),dx); cfg(*s); s->use_musl=d[2]; s->use_mibf=d[4];
    for (size_t q=0;q<n;q++){ size_t p=ix[q]; preset(*s,q,p,d[3]); s->particles.delta_gamma[q]=d[3]?0.7*(p%2):0; }
    auto e=mp_step(*s,G,dt); c.trans(n); if (e.exit&&may_refuse(*s)) find_refused(e,G,dt,dx,[&](Simulation& z){ cfg(z); z.use_musl=d[2]; z.use_mibf=d[4]; }); c.state(hash(e.out)); check(c,*s,G,e,step_dt(dt));
    Snap o=e.out; Snap z=o; for (size_t q=0;q<n;q++){ size_t p=ix[q]; z.F[p]=o.F[q]; z.tau[p]=o.tau[q]; z.epd[p]=o.epd[q]; z.epv[p]=o.epv[q]; z.prad[p]=o.prad[q]; z.dg[p]=o.dg[q]; z.muI[p]=o.muI[q]; z.visc[p]=o.visc[q]; }
    if (ref.size()) for (size_t p=0;p<n;p++){ const Snap& y=ref[0]; if (maxabs(TM(y.F[p]-z.F[p]))>1e-12||maxabs(TM(y.tau[p]-z.tau[p]))>1e-6||std::abs(y.epd[p]-z.epd[p])>1e-12||std::abs(y.epv[p]-z.epv[p])>1e-12||std::abs(y.prad[p]-z.prad[p])>1e-12||std::abs(y.dg[p]-z.dg[p])>1e-9*(1+std::abs(y.dg[p]))||!(std::abs(y.muI[p]-z.muI[p])<=1e-9*(1+std::abs(y.muI[p])))) c.fail("particle with trial F %s is updated differently when the other particles are in another order (order %d)",str(Fs[p]).c_str(),ord); }
    ref.push_back(z); } c.note("%zu trial states in three orders",n); }
template <class Cfg> static void history(Ctx& c,const Dig& d,Cfg cfg){ T dx=0.5; auto s=make(cluster(4,dx),dx); cfg(*s); s->use_musl=d[5]; std::vector<TM> Fs(4); for (int p=0;p<4;p++) Fs[p]=trialF(p==0?0:-0.006*p,0.001*p,p,p,p+1);
  for (int k=0;k<4;k++){ int op=k==3?d[4]:d[1+k]; for (auto& f:Fs) f=incr(op)*f; T dt=k%2?1e-3:4e-3; auto e=mp_step(*s,Fs,dt); c.trans(); if (e.exit&&may_refuse(*s)) return; c.state(hash(e.out)); check(c,*s,Fs,e,step_dt(dt)); Fs=e.out.F; } }
namespace mc { void families(std::vector<Family>& F){
  static const char* NR[]={"VM","DP","DPSoft","MCC"}; static const char* NV[]={"VMVisc","DPVisc","MCCVisc","DPMui","MCCMui"};
  F.push_back({"batch-NoPlasticity", {{"cfg",2},{"u",3},{"musl",2},{"pre",4},{"mibf",1}}, [](Ctx& c,const Dig& d){ batch(c,d,[&](Simulation& s){ common_mat(s); s.plastic_model=PlasticModel::NoPlasticity; s.elastic_model=d[0]?ElasticModel::NeoHookean:ElasticModel::Hencky; },1e-3); }});
  for (int mo=0;mo<NRI;mo++){ F.push_back({std::string("batch-")+NR[mo], {{"cfg",NCFG_RI[mo]},{"u",3},{"musl",2},{"pre",4},{"mibf",2}}, [mo](Ctx& c,const Dig& d){ batch(c,d,[&](Simulation& s){ cfg_ri(s,mo,d[0]); },d[1]%2?1e-4:1e-3); }});
    F.push_back({std::string("history-")+NR[mo], {{"cfg",std::min(NCFG_RI[mo],tier()?120:12)},{"o1",7},{"o2",7},{"o3",7},{"o4",tier()?7:1},{"musl",2}}, [mo](Ctx& c,const Dig& d){ int n=NCFG_RI[mo]; int cf=n<=12||tier()?d[0]:(d[0]*(n/12)+d[0]%(n/12))%n; history(c,d,[&](Simulation& s){ cfg_ri(s,mo,cf); }); }}); }
  for (int mo=0;mo<NVI;mo++){ F.push_back({std::string("batch-")+NV[mo], {{"cfg",NCFG_VI[mo]},{"u",tier()?3:2},{"musl",2},{"pre",4},{"mibf",2}}, [mo](Ctx& c,const Dig& d){ batch(c,d,[&](Simulation& s){ cfg_vi(s,mo,d[0]); },d[1]%2?1e-4:1e-3); }});
    F.push_back({std::string("history-")+NV[mo], {{"cfg",std::min(NCFG_VI[mo],tier()?240:12)},{"o1",7},{"o2",7},{"o3",7},{"o4",tier()?7:1},{"musl",2}}, [mo](Ctx& c,const Dig& d){ int n=NCFG_VI[mo]; int cf=n<=12||tier()?d[0]:(d[0]*(n/12)+d[0]%(n/12))%n; history(c,d,[&](Simulation& s){ cfg_vi(s,mo,cf); }); }}); }
  contexts(F,{DC_THREADS3,DC_FAR,DC_OUTPUT,DC_AFTER,DC_LENGTHS},2);
}}
MC_MAIN
