// C05: the adaptive grid covers every stencil, for every history of displacements
#include "setups.hpp"
using namespace mc;
static const T DISP[] = {0,0.25,-0.25,0.5,-0.5,1,-1};
static void grid_ok(Ctx& c, Simulation& s, const std::vector<TV>& X, const TV& lat, int k){
  GridView g=gridv(s); if(!g.x||!g.y||(D==3&&!g.z)) return; T r=0.5*(SPLINEDEG+1)*s.dx; // X: positions at the start of the step, for which the grid was made
  const std::vector<T>* ax[3]={g.x,g.y,g.z};
  for (int d=0;d<D;d++){ const auto& a=*ax[d]; if (a.size()<4) c.fail("step %d: grid has %zu nodes along axis %d",k,a.size(),d);
    for (size_t i=0;i<a.size();i++){ T u=(a[i]-lat(d))/s.dx; if (!(std::abs(u-std::round(u))<1e-6)) c.fail("step %d: node %zu of axis %d at %.12g is off the lattice by %g cells",k,i,d,a[i],u-std::round(u)); if (i && !(std::abs(a[i]-a[i-1]-s.dx)<1e-6*s.dx)) c.fail("nodes not equidistant"); }
    for (auto& x : X) if (!(a.front() <= x(d)-r+1.01*s.dx && a.back() >= x(d)+r-1.01*s.dx)) c.fail("step %d: grid axis %d [%g,%g] does not cover the stencil of %g",k,d,a.front(),a.back(),x(d)); } }
struct Sim5 { SimP s; std::vector<TV> X; TV lat; };
static Sim5 setup(const std::vector<TV>& x, T dx, int ref, T flip, bool musl){ Sim5 r; r.s=make(x,dx); r.X=x; r.s->flip_ratio=flip; r.s->use_musl=musl; TV mn=x[0], mx=x[0]; for (auto& p : x){ mn=mn.cwiseMin(p); mx=mx.cwiseMax(p); }
  if (ref==1) r.s->grid_reference_point = mn - 1.5*dx*TV::Ones(); if (ref==2) r.s->grid_reference_point = mx + 2.3*dx*TV::Ones(); if (ref==3) r.s->grid_reference_point = 0.5*(mn+mx);
  if (ref==1) mn -= 1.5*dx*TV::Ones(); r.lat = mn; return r; }
static void step(Ctx& c, Sim5& q, const std::vector<TV>& disp, int k){ // disp in cells
  Simulation& s=*q.s; T dt0=0.125, dt=step_dt(dt0); std::vector<TV> X0=q.X, V(q.X.size());
  for (size_t p=0;p<q.X.size();p++){ V[p]=disp[p]*s.dx/dt; s.particles.v[p]=V[p]; q.X[p]+=dt*V[p]; }
  one_step(s,dt0); c.trans(); c.state(hash(snap(s)));
  Cmp m; for (size_t p=0;p<q.X.size();p++){ m.v("x",p,s.particles.x[p],q.X[p],1e-9*s.dx); m.v("v",p,s.particles.v[p],V[p],1e-9); m.m("F",p,s.particles.F[p],TM(TM::Identity()),1e-8); }
  if (!m.what.empty()) c.fail("free flight, step %d: %s",k,m.what.c_str());
  q.X = s.particles.x; grid_ok(c,s,X0,q.lat,k);
  for (size_t p=0;p<q.X.size();p++){ s.particles.F[p]=TM::Identity(); s.particles.tau[p].setZero(); s.particles.Bmat[p].setZero(); } }
namespace mc { void families(std::vector<Family>& F){
  int dep = tier()?5:(D==2?4:3); int n7=1; for(int i=0;i<dep;i++) n7*=7;
  F.push_back({"translate", {{"seq",n7},{"axis",D+1},{"dx",2},{"ref",4},{"cloud",2}}, [dep](Ctx& c, const Dig& d){
    T dx=d[2]?0.1:0.25; auto q=setup(scaled(cloud(d[4]?4:2,off(d[4]?0:3)),dx),dx,d[3],d[4]?-0.95:0.3,d[4]&&d[2]); int z=d[0];
    for (int k=0;k<dep;k++){ TV v=TV::Zero(); T a=DISP[z%7]; z/=7; if (d[1]<D) v(d[1])=a; else for(int i=0;i<D;i++) v(i)=(i==1?-a:a); step(c,q,std::vector<TV>(q.X.size(),v),k); }
    c.note("seq %d ends at %s",d[0],str(q.X[0]).c_str()); }});
  // two or three separate bodies moving independently: spreading, contraction, overtaking of the extremal particle
  int dp2 = D==2 ? (tier()?4:3) : (tier()?3:2); int n25=1; for(int i=0;i<dp2;i++) n25*=25;
  F.push_back({"spread", {{"seq",n25},{"axis",D},{"ref",4},{"dx",2}}, [dp2](Ctx& c, const Dig& d){
    T dx=d[3]?0.1:0.5; std::vector<TV> x; int a=d[1], b=(a+1)%D; for (int i=0;i<3;i++){ TV p=TV::Constant(3.0); p(a)+= i==0?0:(i==1?14:7.3); p(b)+= i==2?9:0.25*i; x.push_back(p*dx); } auto q=setup(x,dx,d[2],-1e-14,false); int z=d[0];
    for (int k=0;k<dp2;k++){ std::vector<TV> v(3,TV(TV::Zero())); v[0](a)=DISP[z%5]*2; z/=5; v[1](a)=DISP[z%5]*2; z/=5; v[2](b)=DISP[(k+d[0])%7]; step(c,q,v,k); } 
    c.note("seq %d ends at %s %s",d[0],str(q.X[0]).c_str(),str(q.X[1]).c_str()); }});
  // long runs: displacement per step a fraction of the cell, all directions
  F.push_back({"run", {{"frac",10},{"dir",2*D+2},{"dx",6},{"ref",4},{"scheme",4},{"cloud",3}}, [](Ctx& c, const Dig& d){
    static const T FR[]={1,0.5,0.25,0.125,0.1,1.0/3,0.3,0.2,0.05,0.999}; static const T DX[]={0.1,0.25,0.07,1,1e-3,60}; T dx=DX[d[2]], fr=FR[d[0]]; static const int CL[]={0,4,2}; auto x=scaled(cloud(CL[d[5]],TV(TV::Zero())),dx); static const T FL[]={0,1,-0.95,-1e-14};
    auto q=setup(x,dx,d[3],FL[d[4]],d[4]%2); Simulation& s=*q.s; s.E=1e-6; TV v=TV::Zero(); if (d[1]<2*D) v(d[1]/2)=d[1]%2?-1:1; else for(int i=0;i<D;i++) v(i)=(i+d[1])%2?-1:1; 
    int steps=tier()?400:(d[0]==0||d[0]==3)&&d[2]<2?300:60; T dt=step_dt(0.02); v *= fr*dx/dt; for (auto& w : s.particles.v) w=v; s.fps=1.0/0.02; s.end_frame=steps; s.simulate(); c.trans(steps); c.state(hash(snap(s)));
    Cmp m; for (size_t p=0;p<x.size();p++){ m.v("x",p,s.particles.x[p],TV(x[p]+steps*dt*v),1e-8*dx*steps); m.v("v",p,s.particles.v[p],v,1e-7*v.norm()); m.m("F",p,s.particles.F[p],TM(TM::Identity()),1e-6); }
    if (!m.what.empty()) c.fail("free flight of %d steps of %g cells: %s",steps,fr,m.what.c_str()); c.note("%d steps of %g cells to %s",steps,fr,str(s.particles.x[0]).c_str()); }});
  // long journeys: a cluster far from where it began, from the first step on or little by little
  F.push_back({"journey", {{"cells",5},{"hops",3},{"dir",2*D},{"ref",3},{"dx",2}}, [](Ctx& c, const Dig& d){
    static const T CE[]={300,1500,5000,20000,70000}; static const int H[]={1,7,40}; if (d[3]&&CE[d[0]]>20000) return c.skip(); if (D==3&&CE[d[0]]>5000) return c.skip(); T dx=d[4]?0.1:0.25; auto q=setup(scaled(cloud(4,off(1)),dx),dx,d[3],d[2]%2?-0.95:0.3,false); TV v=TV::Zero(); v(d[2]/2)=(d[2]%2?-1:1)*CE[d[0]]/H[d[1]];
    Simulation& s=*q.s; s.E=1e-6; T dt=step_dt(0.125), tot=CE[d[0]]; int n=H[d[1]]; std::vector<TV> x=q.X; for (auto& w : s.particles.v) w=v*dx/dt; s.cfl=2*tot; s.fps=1/0.125; s.end_frame=n+2; s.simulate(); c.trans(n+2); c.state(hash(snap(s)));
    Cmp m; for (size_t p=0;p<x.size();p++){ m.v("x",p,s.particles.x[p],TV(x[p]+(n+2)*v*dx),1e-9*dx*tot); m.v("v",p,s.particles.v[p],TV(v*dx/dt),1e-7*v.norm()*dx/dt); }
    if (!m.what.empty()) c.fail("journey of %g cells in %d hops: %s",tot,n,m.what.c_str()); c.note("%d hops to %s",n+2,str(s.particles.x[0]).c_str()); }});
  contexts(F,{DC_THREADS3,DC_THREADS8,DC_FAR,DC_OUTPUT,DC_VM,DC_DPVISC,DC_MCC,DC_AFTER,DC_LENGTHS,DC_UNUSED},3);
}}
MC_MAIN
