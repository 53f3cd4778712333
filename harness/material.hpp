// Material-point experiments on the real step: particles at rest, stress free on entry, so that the trial state of the step is the prescribed F.
#pragma once
#include "setups.hpp"
namespace mc {
struct MatPar { T K, mu, c, em, fm, dp; Lame L; }; // c = q prefactor, em: q = em |dev e|, fm: dq = fm dgamma, dp: gamma = dp |dev e|
inline MatPar matpar(const Simulation& s){ MatPar m; m.L=lame(s.E,s.nu); m.K=m.L.K; m.mu=m.L.mu; m.c=s.q_prefac; m.em=2*m.c*m.mu; m.fm=2*m.c*m.c*m.mu; m.dp=1/m.c; return m; }
inline TV pdir(int k){ TV n; // unit deviatoric directions
  #ifdef THREEDIM
  T th = (k%5)*M_PI/7 + 0.0; n << std::cos(th), std::cos(th-2*M_PI/3), std::cos(th+2*M_PI/3); 
  #else
  n << (k%2?-1:1), (k%2?1:-1);
  #endif
  return n/n.norm(); }
inline TM trialF(T v, T d, int k, int u, int w){ TV e = (v/D)*TV::Ones() + d*pdir(k); TV x; for (int i=0;i<D;i++) x(i)=std::exp(e(i)); return rot(u)*x.asDiagonal()*rot(w).transpose(); }
struct PQ { T p,q; };
struct Dec { TM e, R, n; T tr, dn; }; // F = exp(e) R
inline Dec decomp(const TM& F){ Dec r; TM b=F*F.transpose(); Eigen::SelfAdjointEigenSolver<TM> es(b); TV l=es.eigenvalues(), li=l; for (int i=0;i<D;i++){ li(i)=1/std::sqrt(l(i)); l(i)=0.5*std::log(l(i)); }
  TM Q=es.eigenvectors(); r.e=Q*l.asDiagonal()*Q.transpose(); r.R=Q*li.asDiagonal()*Q.transpose()*F; r.tr=r.e.trace(); r.n=r.e-(r.tr/D)*TM::Identity(); r.dn=r.n.norm(); if (r.dn>0) r.n/=r.dn; return r; }
inline TM symexp(const TM& e){ Eigen::SelfAdjointEigenSolver<TM> es(TM(0.5*(e+e.transpose()))); TV l=es.eigenvalues(); for (int i=0;i<D;i++) l(i)=std::exp(l(i)); return es.eigenvectors()*l.asDiagonal()*es.eigenvectors().transpose(); }
inline PQ pq(const TM& F, const MatPar& m){ Dec d=decomp(F); return {-m.K*d.tr, m.em*d.dn}; }

struct St { T epd,epv,prad; };
// what the model prescribes for one trial state. band: the state is too close to a switching surface to decide by rounding (skip)
struct Ref { bool elastic=false, band=false, viscous=false, fatal=false; T p=0,q=0; T tp=0,tq=0; bool has_prad=false; T prad=0; T qlo=0,qhi=0; T muI=-1, visc=-1; std::function<T(T dgam)> resid; T rtol=0; T pc=0; bool tip=false; };
template <class Fn> T bisect(Fn f, T a, T b){ T fa=f(a); for (int i=0;i<200;i++){ T m=0.5*(a+b); T fmid=f(m); if ((fa<=0)==(fmid<=0)){ a=m; fa=fmid; } else b=m; } return 0.5*(a+b); }

// hardened consolidation pressure
inline T mcc_pc(const Simulation& s, const MatPar& m, T epv){ switch (s.hardening_law){ case HardeningLaw::NoHard: return s.p0;
   case HardeningLaw::ExpoExpl: return std::max(s.stress_tolerance,s.p0*std::exp(-s.xi*epv)); case HardeningLaw::ExpoImpl: return s.p0*std::exp(-s.xi*epv);
   case HardeningLaw::SinhExpl: return std::max(s.stress_tolerance,m.K*std::sinh(-s.xi*epv+std::asinh(s.p0/m.K))); default: return std::max<T>(0.01,m.K*std::sinh(-s.xi*epv+std::asinh(s.p0/m.K))); } }
inline bool mcc_implicit(const Simulation& s){ return s.hardening_law==HardeningLaw::ExpoImpl||s.hardening_law==HardeningLaw::SinhImpl; }
inline T mcc_y(T M, T beta, T pc, T p, T q){ return M*M*(p-pc)*(p+beta*pc)+q*q; }
// associated return mapping, solved by scanning and bisection in p
inline bool mcc_return(const Simulation& s, const MatPar& m, T M, T pt, T qt, T epv, T& p, T& q, T& pc){
  bool imp=mcc_implicit(s); T pcn=mcc_pc(s,m,epv), b=s.beta; T y0=mcc_y(M,b,pcn,pt,qt); if (y0<=0) return false;
  auto pcf=[&](T pp){ return imp?mcc_pc(s,m,epv+(pp-pt)/m.K):pcn; };
  auto qf=[&](T pp){ T k=M*M*(2*pp+(b-1)*pcf(pp)); T dg=(pt-pp)/(m.K*k); return qt/(1+2*m.fm*dg); };
  auto g=[&](T pp){ return mcc_y(M,b,pcf(pp),pp,qf(pp)); };
  // p moves from pt towards the centre (1-b)pc/2 ; the centre itself moves with hardening
  T side = pt-(1-b)*pcn/2; if (std::abs(side)<1e-12*pcn){ p=pt; pc=pcn; q=M*std::sqrt(std::max<T>(0,(pc-p)*(b*pc+p))); return true; }
  auto h=[&](T pp){ return pp-(1-b)*pcf(pp)/2; }; // sign change = centre
  T lim; { T a=pt, step=(side>0?-1:1)*std::max(std::abs(side),pcn); T c=a+step; int it=0; while ((h(c)>0)==(side>0)&&it++<200){ c+=step; } lim=bisect([&](T x){ return h(x)*(side>0?-1:1); },a,c); }
  // on (lim,pt]: g(pt)>0 ; at the centre q_flow->0, so g<0
  T a=pt, c=lim+(pt-lim)*1e-13; if (g(c)>0){ // the return ends at the centre (numerically)
    c=lim; }
  p=bisect([&](T x){ return -g(x); },a,c); pc=pcf(p); q=M*std::sqrt(std::max<T>(0,(pc-p)*(b*pc+p))); return true; }

// residual of the yield condition along the flow direction at a returned pressure, relative to pc^2 (the implementation iterates until it is below 1e-4)
inline T mcc_flow_residual(const Simulation& s, const MatPar& m, T M, T pt, T qt, T epv, T p){ bool imp=mcc_implicit(s); T pcn=mcc_pc(s,m,epv), pc=imp?mcc_pc(s,m,epv+(p-pt)/m.K):pcn, b=s.beta; T k=M*M*(2*p+(b-1)*pc), dg=(pt-p)/(m.K*k); T q=qt/(1+2*m.fm*dg); return mcc_y(M,b,pc,p,q)/(pcn*pcn); }
// known finding C11/centre-stop: the implicit return mappings stop as soon as an iterate comes within 1e-4 of the centre of the surface and then return the top of the surface
inline bool centre_stop(const Simulation& s, const MatPar& m, T M, T pt, T epv, T p){ if (!mcc_implicit(s)) return false; T pcn=mcc_pc(s,m,epv), pc=mcc_pc(s,m,epv+(p-pt)/m.K); return std::abs(p-(1-s.beta)*pc/2)<=2.5e-4*pcn; }
inline Ref ref_plastic(const Simulation& s, const MatPar& m, T dt, const TM& Ftrial, const St& st){
  Ref r; PQ t=pq(Ftrial,m); T pt=t.p, qt=t.q, sc=1e-9*s.E; r.p=pt; r.q=qt; r.qlo=r.qhi=qt; r.tp=r.tq=1e-9*s.E;
  auto near=[&](T a,T b){ return std::abs(a-b)<sc; };
  auto rate=[&](std::function<T(T)> qy,bool nr){ // overstress law: viscous shear increment
    T n=s.visc_exponent, eta=s.visc_time, f=m.fm; bool dl=s.use_duvaut_lions_formulation; r.viscous=true;
    r.resid=[=](T g)->T{ if (dl) return qt-qy(g)-f*(std::pow(eta/dt*g,n)+g); return (qt-f*g)*std::pow(dt/(eta*g+dt),n)-qy(g); };
    r.rtol = nr ? 1.02e-2 : 1e-8*(qt+1)*(1+eta/dt); 
    auto R=r.resid; T g=bisect([=](T x){ return -R(x); },0,qt/f); r.q=qt-f*g; 
    // tolerance on q from the residual tolerance: slope by finite differences around the root
    T dg=1e-4*g+1e-12; T sl=std::abs(R(g+dg)-R(std::max<T>(0,g-dg)))/(g+dg-std::max<T>(0,g-dg)); r.tq=std::max(r.tq, 3*f*r.rtol/std::max(sl,1e-6*f)); r.qlo=std::max<T>(0,qy(g)); r.qhi=qt; };
  switch (s.plastic_model){
  case PlasticModel::NoPlasticity: r.elastic=true; return r;
  case PlasticModel::VM: if (near(qt,s.q_max)) r.band=true; if (qt<=s.q_max) r.elastic=true; else { r.q=s.q_max; r.qlo=r.qhi=r.q; } return r;
  case PlasticModel::DP: { T tip=-s.q_cohesion/s.M, qy=s.M*pt+s.q_cohesion; if (near(qt,qy)&&!near(pt,tip)) r.band=true; if (near(pt,tip)&&qt<sc) r.band=true; if (pt<=tip+1e-10/s.M){ r.p=tip; r.q=0; r.tip=true; } else if (qt<=qy) r.elastic=true; else r.q=qy; return r; }
  case PlasticModel::DPSoft: { T tip0=-s.q_cohesion/s.M, tip=tip0*std::exp(-s.xi*st.epd), sh=s.use_pradhana?-m.K*st.prad:0, qy=s.M*(pt+sh-tip); r.has_prad=s.use_pradhana;
    bool at_tip=near(pt+sh,tip); if (at_tip?(sh!=0||qt<sc||(s.xi!=0&&s.q_cohesion!=0)):near(qt,qy)) r.band=true; if (at_tip) r.has_prad=false;
    if (pt+sh<=tip){ r.p=tip; r.q=0; r.tip=true; r.prad=st.prad+(r.p-pt)/m.K; }
    else if (qt<=qy){ r.elastic=true; r.prad=0; }
    else { T e1=st.epd+(qt-qy)/m.em, tip1=tip0*std::exp(-s.xi*e1); if (near(pt+sh,tip1)) r.band=true; if (pt+sh<tip1){ r.p=tip1; r.q=0; r.tip=true; r.prad=st.prad+(r.p-pt)/m.K; } else { r.q=s.M*(pt+sh-tip1); r.prad=0; } }
    return r; }
  case PlasticModel::VMVisc: { T cap=s.p_min*std::exp(-s.xi*st.epv); auto qy=[&s,st,m](T g){ return s.q_min+(s.q_max-s.q_min)*std::exp(-s.xi*(st.epd+g/m.dp)); };
    if (near(pt,cap)||near(qt,qy(0))) r.band=true; if (pt<cap){ r.p=0; r.q=0; r.tip=true; return r; } if (qt<=qy(0)){ r.elastic=true; return r; } rate(qy, !(s.visc_exponent==1&&s.xi==0)); r.qhi=qt; return r; }
  case PlasticModel::DPVisc: { T tip=-s.q_cohesion/s.M, sh=s.use_pradhana?-m.K*st.prad:0, qyv=s.M*(pt+sh)+s.q_cohesion; r.has_prad=s.use_pradhana; bool at_tip=near(pt+sh,tip); if (at_tip?(sh!=0||qt<sc||(s.visc_time>0&&pt+sh!=tip)):near(qt,qyv)) r.band=true; if (at_tip) r.has_prad=false;
    if (pt+sh<tip||(pt+sh==tip&&qt>0)){ r.p=tip; r.q=0; r.tip=true; r.prad=st.prad+(tip-pt)/m.K; if (pt+sh==tip&&sh!=0) r.band=true; if (pt+sh==tip) r.has_prad=false; return r; }
    r.prad=0; if (qt<=qyv){ r.elastic=true; return r; } rate([qyv](T){ return qyv; }, s.visc_exponent!=1); return r; }
  case PlasticModel::DPMui: { T tip=-s.q_cohesion/s.mu_1, sh=s.use_pradhana?-m.K*st.prad:0, qy=s.mu_1*(pt+sh)+s.q_cohesion; r.has_prad=s.use_pradhana; r.muI=s.mu_1; r.visc=0; bool at_tip=near(pt+sh,tip); if (at_tip?(sh!=0||qt<2*s.stress_tolerance+sc):std::abs(qt-qy)<2*s.stress_tolerance+sc) r.band=true; if (at_tip){ r.has_prad=false; r.muI=r.visc=-1; }
    if (pt+sh<tip||(pt+sh==tip&&qt>0)){ r.p=tip; r.q=0; r.tip=true; r.prad=st.prad+(tip-pt)/m.K; if (pt+sh==tip&&sh!=0) r.band=true; if (pt+sh==tip) r.has_prad=false; return r; }
    r.prad=0; if (qt<=qy){ r.elastic=true; return r; }
    T ps=pt+sh-tip, Q=s.I_ref/(s.grain_diameter*std::sqrt(s.rho_s)); T f=m.fm; r.viscous=true; T dmu=s.mu_2-s.mu_1;
    auto R=[=](T g){ T gd=g/dt; return qt-f*g-qy-ps*dmu*gd/(gd+Q*std::sqrt(ps)); }; r.resid=R; T g=bisect([=](T x){ return -R(x); },0,(qt-qy)/f); r.q=qt-f*g; r.tq=1e-7*s.E+20*s.stress_tolerance; r.rtol=r.tq; r.qlo=qy; r.qhi=qt; r.muI=s.mu_1+dmu*(g/dt)/(g/dt+Q*std::sqrt(ps)); r.visc=(r.muI-s.mu_1)*ps/(g/dt); if (ps<1e3*s.stress_tolerance) r.muI=r.visc=-1; /* the pressure is regularised by the stress tolerance */ return r; }
  default: break; }
  bool mui=s.plastic_model==PlasticModel::MCCMui; T M=mui?s.mu_1:s.M; T p,q,pc=0; if (mui){ r.muI=M; r.visc=0; }
  { T pcn=mcc_pc(s,m,st.epv), y=mcc_y(M,s.beta,pcn,pt,qt); if (std::abs(y)<1e-7*(pcn*pcn+pt*pt)+sc*(pcn+std::abs(pt)+qt+sc)) r.band=true; }
  if (!mcc_return(s,m,M,pt,qt,st.epv,p,q,pc)){ r.elastic=true; return r; }
  r.p=p; r.q=q; r.pc=pc; T pcn=mcc_pc(s,m,st.epv), tol=mcc_implicit(s)?2e-3:1e-5; r.tp=tol*pcn+2e-3; { T dy=(mcc_implicit(s)?2e-4:1e-7)*pcn*pcn+2e-3; r.tq=std::max(q-std::sqrt(std::max<T>(0,q*q-dy)),std::sqrt(q*q+dy)-q)+M*r.tp; if (mcc_implicit(s)&&std::abs(p-(1-s.beta)*pc/2)<0.02*pc){ r.tp+=5e-3*pcn; r.tq+=5e-3*pcn; } } r.qlo=q; r.qhi=qt; // (close to the centre the implementation stops early)
  if (mui){ if (qt>q+s.stress_tolerance){ T pcc = mcc_implicit(s)?std::max(mcc_pc(s,m,st.epv+(p-pt)/m.K),p+s.stress_tolerance):mcc_pc(s,m,st.epv); T ps=p+s.beta*pcc+s.stress_tolerance, Q=s.I_ref/(s.grain_diameter*std::sqrt(s.rho_s)), dmu=s.mu_2-s.mu_1, f=m.fm, A=std::sqrt(std::max<T>(0,(pcc-p)*ps));
      auto R=[=](T g){ T gd=g/dt; return qt-f*g-q-A*dmu*gd/(gd+Q*std::sqrt(std::max<T>(0,ps))); }; T g=bisect([=](T x){ return -R(x); },0,(qt-q)/f); r.q=std::max(q,qt-f*g); r.viscous=true; r.tq*=1+s.mu_2/s.mu_1; /* q ~ mu(I) A and the tolerance of A is that of the static return over mu_1 */ r.muI=s.mu_1+dmu*(g/dt)/(g/dt+Q*std::sqrt(ps)); r.visc=(r.muI-s.mu_1)*A/(g/dt); if (ps<0.02*pcc||pcc-p<0.02*pcc) r.muI=r.visc=-1; /* at the tips friction follows the small difference between two pressures */ } else r.band=true; }
  if (s.plastic_model==PlasticModel::MCCVisc){ r.viscous=true; if (s.use_duvaut_lions_formulation){ T b=1/(1+s.visc_time/dt); r.p=pt-b*(pt-p); r.q=qt-b*(qt-q); }
    else { T qy=q; T tq=r.tq; T qs[3]; for (int k=0;k<3;k++){ T y=std::min(qt,std::max<T>(0,qy+(k==0?-tq:k==1?tq:0))); rate([y](T){ return y; }, s.visc_exponent!=1); qs[k]=r.q; } /* spread of the result over the tolerance of the static return */ r.tq=std::max(r.tq,tq)+tq+std::max(std::abs(qs[0]-qs[2]),std::abs(qs[1]-qs[2])); r.q=std::max(qy,r.q); r.qlo=qy-tq; r.resid=nullptr; } }
  return r; }

// configurations of each model; returns number available
struct MCfg { PlasticModel m; const char* name; int n; };
inline void common_mat(Simulation& s){ s.E=1e5; s.nu=0.3; s.rho=1000; s.elastic_model=ElasticModel::Hencky; s.flip_ratio=-0.95; }
inline std::vector<TV> cluster(int n, T dx){ std::vector<TV> x; for (int k=0;k<n;k++){ TV p; for (int d=0;d<D;d++) p(d)=dx*(3+2.5*gen(k*D+d,70+d)); x.push_back(p); } return x; }
// set the trial states, run one step of length dt, snapshots in/out
struct Exper { Snap in,out; int exit; std::vector<char> stopped; };
inline Exper mp_step(Simulation& s, const std::vector<TM>& F, T dt){ for (size_t p=0;p<F.size();p++){ s.particles.F[p]=F[p]; s.particles.v[p].setZero(); s.particles.Bmat[p].setZero(); s.particles.tau[p].setZero(); }
  Exper e; e.in=snap(s); one_step(s,dt); e.out=snap(s); e.exit=s.exit; return e; }
// The implicit sinh hardening law is allowed to refuse a state (fatal non-convergence stops the run): find out which ones refuse when stepped alone
// Newton on the Duvaut-Lions law with an exponent below one is not convergent for every state either
inline bool may_refuse(const Simulation& s){ if ((s.plastic_model==PlasticModel::VMVisc||s.plastic_model==PlasticModel::DPVisc)&&s.use_duvaut_lions_formulation&&s.visc_exponent<1&&s.visc_time>0) return true; return s.hardening_law==HardeningLaw::SinhImpl&&(s.plastic_model==PlasticModel::MCC||s.plastic_model==PlasticModel::MCCVisc||s.plastic_model==PlasticModel::MCCMui); }
template <class Cfg> inline void find_refused(Exper& e, const std::vector<TM>& F, T dt, T dx, Cfg cfg){ e.stopped.assign(F.size(),0); int n=0; for (size_t p=0;p<F.size();p++){ auto s=make(cluster(1,dx),dx); cfg(*s); s->particles.F[0]=F[p]; s->particles.eps_pl_dev[0]=e.in.epd[p]; s->particles.eps_pl_vol[0]=e.in.epv[p]; s->particles.eps_pl_vol_pradhana[0]=e.in.prad[p]; one_step(*s,dt); if (s->exit){ e.stopped[p]=1; n++; } } if (n&&3*n<=(int)F.size()) e.exit=0; }
inline St state_of(const Snap& s, size_t p){ return {s.epd[p],s.epv[p],s.prad[p]}; }
}
