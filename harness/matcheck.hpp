// Checks shared by C11, C12, C13: model configurations, trial lattices, histories
#pragma once
#include "material.hpp"
namespace mc {
static const T TV_[]={-0.12,-0.04,-0.015,-0.004,-0.0005,0.0,0.001,0.01,0.06}; static const T TD_[]={0.0,1e-6,0.0015,0.006,0.02,0.08};
static const int NTV=9,NTD=6;
inline std::vector<TM> trials(int u,int w,int dir0,bool wide=false){ std::vector<TM> F; int k=dir0; for (T v:TV_) for (T e:TD_) F.push_back(trialF(v,e,k++,u,w));
  TM X=TM::Identity(); X(0,0)=2; X(1,1)=0.5; F.push_back(X); X(0,0)=0.5; X(1,1)=2; F.push_back(X); F.push_back(TM(TM::Identity())); if (wide) for (T v:{-4.0,-0.9,0.7,2.5}) for (T e:{0.0,0.3,2.0}) F.push_back(trialF(v,e,k++,u,w)); return F; }
// rate independent: 0 VM(2) 1 DP(3) 2 DPSoft(6) 3.. MCC(hardening 5 x beta 3 x xi 2 x prefac 2)
inline bool cfg_ri(Simulation& s,int model,int k){ common_mat(s); s.M=0.8;
  switch (model){
  case 0: s.plastic_model=PlasticModel::VM; if (k>=6) return false; s.q_max=(k%3==0?300:k%3==1?1:2000); s.q_prefac=k>=3?std::sqrt(1.5):1/std::sqrt(2.0); return true;
  case 1: s.plastic_model=PlasticModel::DP; if (k>=8) return false; s.q_cohesion=(k%4==0?0:k%4==1?200:k%4==2?1e-3:0); s.M=k%4==3?0.1:0.8; s.q_prefac=k>=4?1:1/std::sqrt(2.0); return true;
  case 2: s.plastic_model=PlasticModel::DPSoft; if (k>=16) return false; s.q_cohesion=(k&1)?300:0; s.xi=(k&2)?20:0; s.use_pradhana=(k&4); s.q_prefac=(k&8)?std::sqrt(1.5):1/std::sqrt(2.0); return true;
  case 3: { s.plastic_model=PlasticModel::MCC; static const HardeningLaw H[]={HardeningLaw::NoHard,HardeningLaw::ExpoExpl,HardeningLaw::SinhExpl,HardeningLaw::ExpoImpl,HardeningLaw::SinhImpl}; if (k>=5*3*2*2*2) return false; s.hardening_law=H[k%5]; k/=5; s.beta=k%3==0?0:k%3==1?0.3:1.0; k/=3; s.xi=k%2?30:5; k/=2; s.q_prefac=k%2?std::sqrt(1.5):1/std::sqrt(2.0); k/=2; s.p0=k%2?5000:800; if (k%2&&s.xi==30) s.xi=12; /* xi p0 < K: no snap-back */ s.M=k%2?1.2:0.8; return true; }
  } return false; }
static const int NRI=4; static const int NCFG_RI[]={6,8,16,120};
// viscous: 0 VMVisc 1 DPVisc 2 MCCVisc 3 DPMui 4 MCCMui
inline bool cfg_vi(Simulation& s,int model,int k){ common_mat(s); s.M=0.8; static const T ETA[]={0,1e-3,0.02,0.5}; static const T EX[]={1,2,0.5};
  switch (model){
  case 0: if (k>=4*3*2*4) return false; s.plastic_model=PlasticModel::VMVisc; s.visc_time=ETA[k%4]; k/=4; s.visc_exponent=EX[k%3]; k/=3; s.use_duvaut_lions_formulation=k%2; k/=2; s.q_max=300; s.q_min=k&1?100:300; s.xi=k&1?10:0; s.p_min=k&2?-400:-1e20; s.q_prefac=k&2?std::sqrt(1.5):1/std::sqrt(2.0); return true;
  case 1: if (k>=4*3*2*4) return false; s.plastic_model=PlasticModel::DPVisc; s.visc_time=ETA[k%4]; k/=4; s.visc_exponent=EX[k%3]; k/=3; s.use_duvaut_lions_formulation=k%2; k/=2; s.q_cohesion=k&1?200:0; s.use_pradhana=k&2; s.q_prefac=k&2?1:1/std::sqrt(2.0); return true;
  case 2: { if (k>=4*3*5*2*2) return false; s.plastic_model=PlasticModel::MCCVisc; static const HardeningLaw H[]={HardeningLaw::NoHard,HardeningLaw::ExpoExpl,HardeningLaw::SinhExpl,HardeningLaw::ExpoImpl,HardeningLaw::SinhImpl}; s.visc_time=ETA[k%4]; k/=4; int v=k%3; k/=3; s.use_duvaut_lions_formulation=v==2; s.visc_exponent=v==1?2:1; s.hardening_law=H[k%5]; k/=5; s.beta=k%2?0.4:0; k/=2; s.q_prefac=k%2?std::sqrt(1.5):1/std::sqrt(2.0); s.xi=15; s.p0=1000; return true; }
  case 3: if (k>=16) return false; s.plastic_model=PlasticModel::DPMui; s.q_cohesion=k&1?150:0; s.use_pradhana=k&2; s.grain_diameter=k&4?0.05:1e-3; s.q_prefac=k&8?1:1/std::sqrt(2.0); return true;
  case 4: { if (k>=4*2*2*2*2) return false; s.plastic_model=PlasticModel::MCCMui; static const HardeningLaw H[]={HardeningLaw::ExpoExpl,HardeningLaw::SinhExpl,HardeningLaw::ExpoImpl,HardeningLaw::SinhImpl}; s.hardening_law=H[k%4]; k/=4; s.beta=k%2?0.4:0; k/=2; s.grain_diameter=k%2?0.05:1e-3; k/=2; s.q_prefac=k%2?std::sqrt(1.5):1/std::sqrt(2.0); k/=2; s.xi=k%2?40:10; s.p0=1000; return true; }
  } return false; }
static const int NVI=5; static const int NCFG_VI[]={96,96,240,16,64};
// what a particle may have accumulated before the step (k=3: long histories)
inline void preset(Simulation& s,size_t q,size_t p,int k){ bool sh=s.hardening_law==HardeningLaw::SinhImpl||s.hardening_law==HardeningLaw::SinhExpl; static const T LD[]={0.2,0.7,1.6,4.5}; s.particles.eps_pl_dev[q]=k==3?LD[p%4]:k*0.013*(p%3);
  bool mcc=s.plastic_model==PlasticModel::MCC||s.plastic_model==PlasticModel::MCCVisc||s.plastic_model==PlasticModel::MCCMui; s.particles.eps_pl_vol[q]=k==0?0:k==3?(mcc?(sh?-0.02:p%2?-0.006:0.04):p%2?-0.5:1.5)*(1+p%3):(k==1?(sh?1e-4:0.011):-0.017)*(1+p%2); s.particles.eps_pl_vol_pradhana[q]=k==2?0.003*(p%4):k==3?0.02*(p%4):0; }
// trial states just inside and just outside the static yield surface of particle q's current state (all of them on a relative lattice)
static const T NEAR_[]={-1e-2,-1e-3,-1e-4,-1e-5,1e-5,1e-4,1e-3,1e-2}; static const int NNEAR=8*7;
inline TM near_trial(const Simulation& s,const MatPar& m,size_t q,int k,int dir,int u,int w){ T de=NEAR_[k%8]; int i=(k/8)%7; St st{s.particles.eps_pl_dev[q],s.particles.eps_pl_vol[q],s.particles.eps_pl_vol_pradhana[q]}; T p=0,y=0; auto cone=[&](T M,T tip,T sh){ static const T A[]={0.5,20,300,3000,15000,1,1}; if (i==5){ p=tip-sh+de*100; y=0; } else if (i==6){ p=tip-sh+de*100; y=30; } else { p=tip-sh+A[i]; y=M*A[i]*(1+de); } };
  switch(s.plastic_model){ case PlasticModel::VM: case PlasticModel::VMVisc: { static const T A[]={-300,-3,0,1,200,4000,-90}; p=A[i]; T qy=s.plastic_model==PlasticModel::VM?s.q_max:s.q_min+(s.q_max-s.q_min)*std::exp(-s.xi*st.epd); y=qy*(1+de); break; }
  case PlasticModel::DP: cone(s.M,-s.q_cohesion/s.M,0); break; case PlasticModel::DPVisc: cone(s.M,-s.q_cohesion/s.M,s.use_pradhana?-m.K*st.prad:0); break; case PlasticModel::DPMui: cone(s.mu_1,-s.q_cohesion/s.mu_1,s.use_pradhana?-m.K*st.prad:0); break;
  case PlasticModel::DPSoft: cone(s.M,-s.q_cohesion/s.M*std::exp(-s.xi*st.epd),s.use_pradhana?-m.K*st.prad:0); break;
  default: { T pc=mcc_pc(s,m,st.epv), M=s.plastic_model==PlasticModel::MCCMui?s.mu_1:s.M; if (s.xi*pc>0.85*m.K||(s.plastic_model!=PlasticModel::MCC&&mcc_implicit(s))) de=-std::abs(de); /* close to snap-back, or below the tolerance of the iteration: elastic states only */ static const T A[]={0.03,0.25,0.45,0.5,0.7,0.95,1}; if (i==6){ p=pc*(1+de); y=0; } else { p=-s.beta*pc+A[i]*(1+s.beta)*pc; y=M*std::sqrt((pc-p)*(p+s.beta*pc))*(1+de); } } }
  return trialF(-p/m.K,y/m.em,dir,u,w); }
// strain increments of histories
inline TM incr(int op){ TM A=TM::Identity(); T a=0.004; switch(op){ case 0: A*=1-a; break; case 1: A*=1+a; break; case 2: A(0,1)=2.5*a; break; case 3: A(0,0)=1-2*a; A(1,1)=1/(1-2*a); break; case 4: A(0,1)=-2.5*a; if (D==3) A(1,D-1)=a; break; case 5: break; case 6: A(0,0)=1+8*a; A(1,1)=1-2*a; break; } return A; }
// the stored F and tau belong together; the update is coaxial with the trial state and keeps its rotation
inline void check_consistent(Ctx& c,const Simulation& s,const MatPar& m,const TM& Ft,const Snap& o,size_t p,const char* w){ TM t=ref_tau_hencky(o.F[p],m.L); if (!(maxabs(TM(o.tau[p]-t))<=1e-8*s.E)) c.fail("%s: stored stress %s is not the elastic stress %s of the stored F (trial F %s)",w,str(o.tau[p]).c_str(),str(t).c_str(),str(Ft).c_str());
  Dec a=decomp(Ft), b=decomp(o.F[p]); if (!(maxabs(TM(a.R-b.R))<=1e-8)) c.fail("%s: rotation of F changed by the return mapping: %s -> %s",w,str(Ft).c_str(),str(o.F[p]).c_str());
  TM dv=b.dn*b.n; T pr=(dv.array()*a.n.array()).sum(); if (a.dn>1e-9&&(!(maxabs(TM(dv-pr*a.n))<=1e-8)||!(pr>=-1e-9))) c.fail("%s: deviatoric strain after the return %s is not along the trial direction %s",w,str(dv).c_str(),str(a.n).c_str()); }
}
