// C24: gravity
#include "setups.hpp"
using namespace mc;
namespace mc { void families(std::vector<Family>& F){
  static const T G[][3]={{0,-9.81,0},{4,-3,1.5},{-2,0,0},{0,0,7},{1e-3,20,-5}};
  F.push_back({"fall", {{"cloud",3},{"scheme",8},{"musl",2},{"g",5},{"ramp",8},{"fps",4},{"cfl",3},{"v0",2}}, [](Ctx& c,const Dig& d){
    static const int CL[]={0,2,4}; static const T RT[]={-1,0,0.013,0.05,0.1,0.11,0.2,1}; static const T FPS[]={10,30,40,7}; T dx=0.25; auto x=scaled(cloud(CL[d[0]],off(d[0]+1)),dx); auto s=make(x,dx); s->flip_ratio=FLIP[d[1]]; s->use_musl=d[2]; 
    s->E=d[6]==2?1e-3:1e5; s->cfl=0.3; static const T CE[]={0.2,0.05,1e9}; s->cfl_elastic=CE[d[6]]; TV g; for(int i=0;i<D;i++) g(i)=G[d[3]][i]; s->gravity=g; if (d[4]>0){ s->gravity_special=true; s->gravity_time=RT[d[4]]; }
    TV v0=TV::Zero(); if (d[7]) for(int i=0;i<D;i++) v0(i)=0.5-0.7*i; for(auto& v:s->particles.v) v=v0;
    s->fps=FPS[d[5]]; s->end_frame=2+d[5]; std::vector<std::pair<T,TV>> tr; ObjectPlate* cl=observe(*s,[&](T t){ tr.push_back({t,s->particles.v[0]}); });
    s->simulate(); tr.push_back({cl->pos_object,s->particles.v[0]}); c.trans(tr.size()-1); TV pos=x[0];
    for (size_t k=0;k+1<tr.size();k++){ T t=tr[k].first, dt=tr[k+1].first-t; T f = d[4]>0 ? (RT[d[4]]>0?std::min<T>(1,t/RT[d[4]]):1) : 1; TV e=tr[k].second+dt*f*g; c.state(mixd(mixd(mixd(d[3]*100+d[4],t),dt),tr[k+1].second.norm()));
      if (!(maxabs(TV(tr[k+1].second-e))<=1e-9*(1+g.norm()))) c.fail("step at t=%.9g, dt=%.9g: velocity %s -> %s, expected %s",t,dt,str(tr[k].second).c_str(),str(tr[k+1].second).c_str(),str(e).c_str()); pos += dt*e; }
    c.note("%zu steps, final v=%s",tr.size()-1,str(tr.back().second).c_str());
    if (tr.size()<2) c.fail("no step was made");
    T end=s->end_frame/s->fps; if (!(std::abs(tr.back().first-end)<1e-9)) c.fail("run ended at %.12g instead of %.12g",tr.back().first,end);
    const Particles& P=s->particles; Cmp q; for (size_t p=0;p<x.size();p++){ q.v("v",p,P.v[p],tr.back().second,1e-9*(1+g.norm())); q.m("F",p,P.F[p],TM(TM::Identity()),1e-8); q.v("x",p,P.x[p],TV(x[p]+pos-x[0]),1e-8); q.m("tau",p,P.tau[p],TM(TM::Zero()),1e-2); }
    if (!q.what.empty()) c.fail("falling body: %s",q.what.c_str());
    if (d[4]>0 && RT[d[4]]<end-0.2 && !(maxabs(TV(s->gravity-g))<1e-12)) c.fail("gravity after the ramp is %s",str(s->gravity).c_str());
  }});
  // free fall in other systems of units, larger bodies, longer runs
  F.push_back({"units", {{"L",5},{"M",4},{"T",4},{"scheme",3},{"musl",2},{"n",3},{"ramp",3},{"fr",2}}, [](Ctx& c,const Dig& d){ static const T L[]={1e-3,0.02,1,40,1e3}, M[]={1e-6,1e-3,1,1e4}, TT[]={1e-3,1e-2,1,1e3}, FL[]={1,-0.95,-3}; static const int N[]={1,17,80}; T Ls=L[d[0]], Ts=TT[d[2]], dx=0.25*Ls;
    std::vector<TV> x; for (int k=0;k<N[d[5]];k++){ TV q; for (int i=0;i<D;i++) q(i)=2+3.1*gen(k,60+i); x.push_back(q*dx); } auto s=make(x,dx); s->rho*=M[d[1]]; s->particle_mass*=M[d[1]]; s->E=1e-6*s->rho*(Ls/Ts)*(Ls/Ts); s->flip_ratio=FL[d[3]]; s->use_musl=d[4]; TV g; for (int i=0;i<D;i++) g(i)=(i==1?-9:2.5*i+1)*Ls/Ts/Ts; s->gravity=g; int nf=d[7]?24:6; T fdt=0.02*Ts; s->fps=1/fdt; s->end_frame=nf; s->min_dt=1e-9*Ts; T RT=d[6]*0.05*Ts; if (d[6]){ s->gravity_special=true; s->gravity_time=RT; }
    s->simulate(); c.trans(nf); c.state(hash(snap(*s))); TV v=TV::Zero(), r=TV::Zero(); for (int k=0;k<nf;k++){ T t=k*fdt, f=d[6]?std::min<T>(1,t/RT):1; v+=fdt*f*g; r+=fdt*v; } T sc=(fdt*nf)*g.norm(); Cmp q; for (size_t p=0;p<x.size();p++){ q.v("v",p,s->particles.v[p],v,1e-8*sc); q.v("x",p,s->particles.x[p],TV(x[p]+r),1e-8*dx); q.m("F",p,s->particles.F[p],TM(TM::Identity()),1e-7); } if (!q.what.empty()) c.fail("falling body in units L=%g M=%g T=%g, %d steps: %s",Ls,M[d[1]],Ts,nf,q.what.c_str()); c.note("v=%s",str(v).c_str()); }});
  contexts(F,{DC_THREADS3,DC_THREADS8,DC_FAR,DC_OUTPUT,DC_VM,DC_DPVISC,DC_MCC,DC_AFTER,DC_LENGTHS,DC_UNUSED},2);
}}
MC_MAIN
