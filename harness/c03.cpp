// C03: mass and linear momentum
#include "setups.hpp"
using namespace mc;
namespace mc { void families(std::vector<Family>& F){
  auto run = [](Ctx& c, int cl, int al, T dx, T flip, bool musl, int stress, int pbc, int thr, int g, const std::vector<T>& dts, bool mibf, int big=0, T mscale=1, T tscale=1, bool units=false){
    auto x = scaled(cloud(cl,off(al)),dx); if (big){ x.clear(); for (int k=0;k<big;k++){ TV q; for (int i=0;i<D;i++) q(i)=2+(big>60?5.2:3.1)*gen(k,60+i+al); x.push_back(q*dx); } } T Lx = 12*dx; 
    if (pbc) for (auto& p : x){ static const T SH[]={0,3,6,9,8.5,7.9,8.7,9.5}; p(0) += SH[pbc-1]*dx; p(0) -= Lx*std::floor(p(0)/Lx); }
    auto s = make(x,dx); s->n_threads = thr; s->flip_ratio=flip; s->use_musl=musl; prep(*s,cl+10*al,stress); s->rho*=mscale; s->particle_mass*=mscale; { T vs=dx/tscale/0.25; if (units){ T ss=mscale*vs*vs; s->E*=ss; for (auto& v : s->particles.v) v*=vs; for (auto& B : s->particles.Bmat) B*=vs/dx*0.25; for (auto& t : s->particles.tau) t*=ss; } } s->use_mibf = mibf;
    if (stress==2){ s->plastic_model = PlasticModel::DP; s->M=0.6; s->q_cohesion=20; } if (stress==3){ s->plastic_model = PlasticModel::MCC; s->p0=300; s->beta=0.2; s->xi=2; s->hardening_law=HardeningLaw::ExpoExpl; }
    static const T G[][3] = {{0,0,0},{0,-9.81,0},{3,-2,1}}; for (int d=0;d<D;d++) s->gravity(d)=G[g][d];
    if (pbc){ s->pbc=true; s->Lx=Lx; s->Ly=8*dx;
      #ifdef THREEDIM
      s->Lz=8*dx;
      #endif
    }
    T M = s->particle_mass*x.size();
    for (size_t k=0;k<dts.size();k++){
      T dt=step_dt(dts[k]*tscale); TV P0=TV::Zero(); T scale=units?0:1e-3; for (auto& v : s->particles.v){ P0 += s->particle_mass*v; scale += s->particle_mass*v.norm(); } scale += dt*M*s->gravity.norm(); for (auto& t : s->particles.tau) scale += dt*s->particle_volume*maxabs(t)/dx;
      TV G0 = s->gravity; one_step(*s,dts[k]*tscale); c.trans(); c.state(hash(snap(*s)));
      if (s->Np != x.size() || s->particles.v.size() != x.size() || s->particles.x.size() != x.size()) c.fail("step %zu: %u particles left of %zu",k,s->Np,x.size());
      TV P1=TV::Zero(); for (auto& v : s->particles.v) P1 += s->particle_mass*v;
      TV E = P0 + dt*M*G0; T e = maxabs(TV(P1-E));
      c.note("P %s -> %s",str(P0).c_str(),str(P1).c_str());
      if (!(e <= 1e-9*scale)) c.fail("step %zu: momentum %s expected %s",k,str(P1).c_str(),str(E).c_str());
      GridView g = gridv(*s); if (g.mass && g.v && !pbc){ T m=0; TV Pg=TV::Zero(); for (size_t i=0;i<g.mass->size();i++){ T gm=(*g.mass)[i]; m += gm; Pg += gm*(*g.v)[i]; if (!(gm>=0)) c.fail("negative nodal mass"); }
        if (!(std::abs(m-M) <= 1e-10*M)) c.fail("step %zu: grid mass %.15g, particle mass %.15g",k,m,M);
        T eg = maxabs(TV(Pg-E)); if (!(eg <= 1e-9*scale)) c.fail("step %zu: grid momentum %s expected %s",k,str(Pg).c_str(),str(E).c_str()); }
    } };
  F.push_back({"free", {{"cloud",NCLOUD},{"align",5},{"flip",8},{"musl",2},{"stress",4},{"g",3},{"thr",2}}, [run](Ctx& c, const Dig& d){ run(c,d[0],d[1],d[1]%2?0.1:0.5,FLIP[d[2]],d[3],d[4],0,d[6]?3:1,d[5],{0.002,0.0005,0.002},false); }});
  F.push_back({"periodic", {{"cloud",NCLOUD},{"align",5},{"flip",8},{"musl",2},{"stress",3},{"shift",8},{"thr",2},{"mibf",2}}, [run](Ctx& c, const Dig& d){ run(c,d[0],d[1],0.25,FLIP[d[2]],d[3],d[4],1+d[5],d[6]?3:1,2,{0.002,0.0005},d[7]); }});
  F.push_back({"threads", {{"cloud",NCLOUD},{"flip",3},{"musl",2},{"stress",2},{"g",2},{"thr",9},{"pbc",2}}, [run](Ctx& c, const Dig& d){ static const int TH[]={2,4,5,6,7,8,9,12,16}; run(c,d[0],3,0.25,FLIP[2+d[1]],d[2],d[3],d[6]?5:0,TH[d[5]],d[4],{0.002,0.0005},false); }});
  // many particles, and the same physics in other systems of units
  F.push_back({"crowd", {{"n",4},{"align",3},{"flip",4},{"musl",2},{"stress",4},{"thr",2},{"pbc",2}}, [run](Ctx& c, const Dig& d){ static const int N[]={40,64,150,300}; run(c,0,1+d[1],0.25,FLIP[1+d[2]],d[3],d[4],d[6]?6:0,d[5]?3:1,1,{0.002,0.001},false,N[d[0]]); }});
  F.push_back({"units", {{"cloud",NCLOUD},{"L",5},{"M",4},{"T",4},{"flip",3},{"stress",2},{"pbc",2}}, [run](Ctx& c, const Dig& d){ static const T L[]={1e-3,0.02,1,40,1e3}, M[]={1e-6,1e-3,1,1e4}, TT[]={1e-4,1e-2,1,1e3}; run(c,d[0],3,L[d[1]],FLIP[2+d[4]],d[4]==1,d[5],d[6]?5:0,1,0,{0.002,0.001},false,0,M[d[2]],TT[d[3]],true); }});
  if (tier()) F.push_back({"long", {{"cloud",NCLOUD},{"align",5},{"flip",8},{"musl",2},{"stress",4},{"dx",2},{"n",3}}, [run](Ctx& c, const Dig& d){ run(c,d[0],d[1],d[5]?0.1:0.5,FLIP[d[2]],d[3],d[4],0,1,1,std::vector<T>(5+10*d[6],0.001),false); }});
  contexts(F,{DC_THREADS3,DC_THREADS8,DC_FAR,DC_OUTPUT,DC_VM,DC_DPVISC,DC_MCC,DC_AFTER,DC_LENGTHS,DC_UNUSED},2);
}}
MC_MAIN
