// C06: any schedule of any team gives the one-thread result, without data races.
// Controlled OpenMP run time (gomp_mc): every decision at the synchronisation operations of one parallel region is enumerated
// depth first while the others follow the default order; a happens-before race detector watches every access of every run.
#include "matcheck.hpp"
#include "ply.hpp"
#include <sstream>
using namespace mc;
struct Dfs { std::vector<std::pair<int,int>> path; size_t pos=0; long runs=0; bool capped=false;
  int pick(int n){ if (pos<path.size()) return path[pos++].first; path.push_back({0,n}); pos++; return 0; }
  bool next(){ runs++; pos=0; while (!path.empty()){ if (++path.back().first<path.back().second) return true; path.pop_back(); } return false; } };
struct Out { Snap s; std::vector<T> gm; std::vector<TV> gv; std::vector<T> gf; unsigned np; int steps; int exit; std::string proj; std::vector<std::string> files; std::string bytes; };
struct Cfg { int model=0,k=0,bc=0,cl=2; T flip=-0.95; bool musl=false,pbc=false,mibf=false,save=false; int crowd=0, sort=0; };
static const int NM=10;
static const char* MN[NM]={"NoPlasticity","VM","DP","DPSoft","MCC","VMVisc","DPVisc","MCCVisc","DPMui","MCCMui"};
static void setmodel(Simulation& s,int m,int k){ if (m==0){ common_mat(s); s.plastic_model=PlasticModel::NoPlasticity; s.elastic_model=k%2?ElasticModel::NeoHookean:ElasticModel::Hencky; } else if (m<5) cfg_ri(s,m-1,k%NCFG_RI[m-1]); else cfg_vi(s,m-5,k%NCFG_VI[m-5]); }
static SimP build(const Cfg& g){ T dx=0.25; auto x=scaled(cloud(g.cl,off(3)),dx); if (g.crowd){ x.clear(); for(int i=0;i<g.crowd;i++){ TV p; for(int d=0;d<D;d++) p(d)=(3.1+(D==2?5:3)*gen(i,d+1))*dx; x.push_back(p); } } if (g.sort){ int a=(g.sort-1)/2, m=(g.sort-1)%2; std::sort(x.begin(),x.end(),[&](const TV& u,const TV& v){ return m?u(a)>v(a):u(a)<v(a); }); } if (g.pbc) for (auto& p:x){ p(0)-=3.2*dx; p(0)-=10*dx*std::floor(p(0)/(10*dx)); }
  auto s=make(x,dx); setmodel(*s,g.model,g.k); s->flip_ratio=g.flip; s->use_musl=g.musl; s->use_mibf=g.mibf; s->gravity=TV::Zero(); s->gravity(1)=-3;
  if (g.pbc){ s->pbc=true; s->Lx=10*dx; s->Ly=8*dx;
    #ifdef THREEDIM
    s->Lz=7*dx;
    #endif
  }
  for (size_t p=0;p<s->Np;p++){ s->particles.v[p]=gvec(p,21,0.5); s->particles.Bmat[p]=gmat(p,31,0.2*dx*dx); s->particles.F[p]=trialF(-0.03+0.02*gens(p,5),0.03*gen(p,6),p,p,p+1); s->particles.tau[p]=gsym(p,51,200); s->particles.muI[p]=0.2+0.3*gen(p,8); s->particles.eps_pl_dev[p]=0.01*gen(p,9); }
  if (!g.pbc) setbc(*s,g.bc); else if (g.bc) plate(*s,2.7*dx,PlateType::bottom,BC::SlipFree,0.25);
  return s; }
static Out run(const Cfg& g,int thr,int ord,std::function<int(int,int,bool)> ch){ auto s=build(g); s->n_threads=thr; s->reduce_verbose=false; mc::order=ord;
  if (g.save){ wipe(scratch()+"/o/"); s->initialize(true,scratch()+"/","o"); s->save_grid=true; }
  int reg=-1; hooks.region_begin=[&](int){ reg++; }; hooks.region_end={}; if (ch) hooks.choose=[&](const std::vector<int>& en,bool ce){ return ch(reg,(int)en.size(),ce); }; else hooks.choose={};
  std::ostringstream o; auto* old=std::cout.rdbuf(o.rdbuf()); races.clear(); detect=thr>1; s->fps=500; s->end_frame=D==3&&!tier()?1:2; s->simulate(); detect=false; std::cout.rdbuf(old); hooks.choose={}; hooks.region_begin={};
  Out r; r.s=snap(*s); GridView G=gridv(*s); if (G.mass) r.gm=*G.mass; if (G.v) r.gv=*G.v; if (G.friction&&g.mibf) r.gf=*G.friction; r.np=s->Np; r.steps=nsteps(*s); r.exit=s->exit; std::istringstream is(o.str()); std::string l; while (std::getline(is,l)) if (l.find("Proj")!=std::string::npos) r.proj+=l+"|";
  if (g.save){ for (auto& f:listdir(scratch()+"/o")){ if (f=="info_timing.txt") continue; r.files.push_back(f); std::string b; slurp(scratch()+"/o/"+f,b); r.files.back()+=":"+std::to_string(b.size()); } }
  sh()->extra[1]+=n_regions; n_regions=0; sh()->extra[2]+=n_access; n_access=0; return r; }
static std::string cmp(const Out& a,const Out& b,T E){ char t[300]; if (a.np!=b.np||a.s.n()!=b.s.n()){ snprintf(t,300,"%u particles, one thread %u",a.np,b.np); return t; } if (a.steps!=b.steps) return "number of steps"; if (a.exit!=b.exit) return "exit flag"; if (a.proj!=b.proj) return "reported counters: "+a.proj.substr(0,80)+" one thread "+b.proj.substr(0,80); if (a.files!=b.files) return "files written differ";
  Cmp q; size_t n=b.s.n(); auto sz=[&](const char* w,size_t x,size_t y){ if (x!=y&&q.what.empty()) q.what=std::string("size of ")+w; }; sz("v",a.s.v.size(),b.s.v.size()); sz("F",a.s.F.size(),b.s.F.size()); sz("B",a.s.B.size(),b.s.B.size()); sz("tau",a.s.tau.size(),b.s.tau.size()); sz("muI",a.s.muI.size(),b.s.muI.size()); sz("grid",a.gm.size(),b.gm.size()); if (!q.what.empty()) return q.what;
  for (size_t p=0;p<n;p++){ q.v("x",p,a.s.x[p],b.s.x[p],1e-10); q.v("v",p,a.s.v[p],b.s.v[p],1e-8); q.m("B",p,a.s.B[p],b.s.B[p],1e-9); q.m("F",p,a.s.F[p],b.s.F[p],1e-8); q.m("tau",p,a.s.tau[p],b.s.tau[p],1e-6*E); q.s("eps_pl_dev",p,a.s.epd[p],b.s.epd[p],1e-7); q.s("eps_pl_vol",p,a.s.epv[p],b.s.epv[p],1e-7); q.s("delta_gamma",p,a.s.dg[p],b.s.dg[p],1e-5*(1+std::abs(b.s.dg[p]))); q.s("muI",p,a.s.muI[p],b.s.muI[p],1e-6); q.s("viscosity",p,a.s.visc[p],b.s.visc[p],1e-5*(1+std::abs(b.s.visc[p]))); }
  for (size_t i=0;i<b.gm.size();i++){ q.s("grid mass",i,a.gm[i],b.gm[i],1e-9*(1+b.gm[i])); if (b.gm[i]>1e-9) q.v("grid v",i,a.gv[i],b.gv[i],1e-7*(1+maxabs(b.gv[i]))); if (i<b.gf.size()&&b.gm[i]>1e-9) q.s("grid friction",i,a.gf[i],b.gf[i],1e-8); }
  return q.what; }
static void explore(Ctx& c,const Cfg& g,int thr){ Out ref=run(g,1,0,{}); c.trans(ref.steps); c.state(hash(ref.s)); int regions=0;
  auto judge=[&](const Out& o,const char* how){ sh()->extra[0]++; c.trans(o.steps); if (!races.empty()) c.fail("%d threads, %s: data race: %s",thr,how,races[0].what.c_str()); std::string w=cmp(o,ref,1e5); if (!w.empty()) c.fail("%d threads, %s: %s differs from one thread",thr,how,w.c_str()); };
  for (int ord=0;ord<2;ord++){ int mx=0; Out o=run(g,thr,ord,[&](int r,int,bool){ if (r+1>mx) mx=r+1; return 0; }); regions=mx; judge(o,ord?"descending order":"ascending order"); }
  { Out o=run(g,thr,0,[&](int,int n,bool ce){ return ce&&n>1?1:0; }); judge(o,"round robin"); }
  const int CAP=20000, PB=tier()?(thr==2?3:2):(thr==2&&D==2?2:1); long capped=0;
  for (int r=0;r<regions;r++){ Dfs d; do { int pre=0; Out o=run(g,thr,0,[&](int rg,int n,bool ce){ if (rg!=r||n<2) return 0; if (ce&&pre>=PB) return 0; int k=d.pick(n); if (ce&&k) pre++; return k; }); char h[80]; snprintf(h,80,"schedule %ld of region %d",d.runs,r); judge(o,h); c.state(mix(hash(o.s),d.runs*1000+r)); if (d.runs>=CAP){ capped++; break; } } while (d.next()); }
  sh()->extra[3]+=capped; c.note("%s: %d regions, all schedules (preemption bound %d) of each equal the one-thread run; %zu particles",MN[g.model],regions,PB,ref.s.n()); }
namespace mc { void families(std::vector<Family>& F){ case_limit(240);
  F.push_back({"models", {{"model",NM},{"musl",2},{"threads",D==2||tier()?2:1},{"cfg",tier()?3:1}}, [](Ctx& c,const Dig& d){ Cfg g; g.model=d[0]; g.musl=d[1]; g.k=d[3]*7+1; g.cl=D==2?2:1; explore(c,g,2+d[2]); }});
  F.push_back({"schemes", {{"scheme",8},{"musl",2},{"bc",D==2||tier()?4:2},{"threads",tier()?2:1}}, [](Ctx& c,const Dig& d){ Cfg g; g.flip=FLIP[d[0]]; g.musl=d[1]; g.bc=1+d[2]*2; g.cl=1; g.model=d[0]%2?2:0; explore(c,g,2+d[3]); }});
  F.push_back({"periodic", {{"model",3},{"scheme",2},{"musl",2},{"mibf",2},{"bc",D==2||tier()?2:1},{"threads",D==2||tier()?2:1}}, [](Ctx& c,const Dig& d){ static const int MO[]={0,6,8}; Cfg g; g.pbc=true; g.model=MO[d[0]]; g.flip=d[1]?-0.95:0.5; g.musl=d[2]; g.mibf=d[3]; g.bc=d[4]; g.cl=2; explore(c,g,2+d[5]); }});
  F.push_back({"output", {{"model",3},{"mibf",2},{"musl",2}}, [](Ctx& c,const Dig& d){ static const int MO[]={0,6,8}; Cfg g; g.save=true; g.model=MO[d[0]]; g.mibf=d[1]; g.musl=d[2]; g.bc=1; g.cl=1; explore(c,g,2); }});
  // many threads (more than particles), default orders and round robin only
  F.push_back({"many", {{"model",NM},{"musl",2},{"pbc",2},{"threads",4},{"cloud",4}}, [](Ctx& c,const Dig& d){ static const int TH[]={4,5,8,16}; if (D==3&&!tier()&&(d[4]==3||d[3]%2)) { c.skip(); return; } Cfg g; g.model=d[0]; g.musl=d[1]; g.pbc=d[2]; g.cl=d[4]==3?5:d[4]; g.bc=d[0]%2; g.k=d[4]; Out ref=run(g,1,0,{}); c.state(hash(ref.s)); int thr=TH[d[3]];
    for (int m=0;m<3;m++){ Out o=run(g,thr,m&1,[&](int,int n,bool ce){ return m==2&&ce&&n>1?1:0; }); sh()->extra[0]++; c.trans(o.steps); if (!races.empty()) c.fail("%d threads: data race: %s",thr,races[0].what.c_str()); std::string w=cmp(o,ref,1e5); if (!w.empty()) c.fail("%d threads, order %d: %s differs from one thread",thr,m,w.c_str()); } c.note("%d threads, %zu particles",thr,ref.s.n()); }});
  // many particles: more than any small-size special case is likely to look at
  F.push_back({"crowd", {{"model",NM},{"musl",2},{"pbc",2},{"n",tier()?4:2},{"threads",2}}, [](Ctx& c,const Dig& d){ static const int NP[]={48,D==2?150:80,300,700}; Cfg g; g.model=d[0]; g.musl=d[1]; g.pbc=d[2]; g.crowd=NP[d[3]]; g.bc=d[0]%2; g.mibf=d[0]>5; g.k=1; Out ref=run(g,1,0,{}); c.state(hash(ref.s)); int thr=2+d[4];
    for (int m=0;m<3;m++){ Out o=run(g,thr,m&1,[&](int,int n,bool ce){ return m==2&&ce&&n>1?1:0; }); sh()->extra[0]++; c.trans(o.steps); if (!races.empty()) c.fail("%d threads: data race: %s",thr,races[0].what.c_str()); std::string w=cmp(o,ref,1e5); if (!w.empty()) c.fail("%d threads, order %d: %s differs from one thread",thr,m,w.c_str()); } c.note("%d threads, %zu particles",thr,ref.s.n()); }});
  // particles sorted along an axis, large teams: every thread is the only one to reach some nodes
  F.push_back({"sorted", {{"axis",2*D},{"n",2},{"threads",4},{"musl",2},{"pbc",2},{"scheme",2}}, [](Ctx& c,const Dig& d){ static const int NP[]={20,48}, TH[]={4,8,13,16}; if (D==3&&!tier()&&(d[1]||d[5])) return c.skip(); Cfg g; g.model=d[5]?6:0; g.sort=1+d[0]; g.crowd=NP[d[1]]; g.musl=d[3]; g.pbc=d[4]; g.mibf=d[5]; g.bc=1; g.flip=d[5]?0.7:-0.95; g.k=1; Out ref=run(g,1,0,{}); c.state(hash(ref.s)); int thr=TH[d[2]];
    for (int m=0;m<2;m++){ Out o=run(g,thr,m&1,{}); sh()->extra[0]++; c.trans(o.steps); if (!races.empty()) c.fail("%d threads: data race: %s",thr,races[0].what.c_str()); std::string w=cmp(o,ref,1e5); if (!w.empty()) c.fail("%d threads, particles sorted along %d, order %d: %s differs from one thread",thr,d[0],m,w.c_str()); } c.note("%d threads, %zu particles",thr,ref.s.n()); }});
}}
MC_MAIN
