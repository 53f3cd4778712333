// C26: a particle's fate depends on the physics only: not on its index, on what is written or printed, on bodies out of reach, on the length of the run or on earlier runs
#include "matcheck.hpp"
#include "ply.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
using namespace mc;
static const int NM=10;
static const char* MN[NM]={"NoPlasticity","VM","DP","DPSoft","MCC","VMVisc","DPVisc","MCCVisc","DPMui","MCCMui"};
static void setmodel(Simulation& s,int m,int k){ if (m==0){ common_mat(s); s.plastic_model=PlasticModel::NoPlasticity; s.elastic_model=k%2?ElasticModel::NeoHookean:ElasticModel::Hencky; } else if (m<5) cfg_ri(s,m-1,k%NCFG_RI[m-1]); else cfg_vi(s,m-5,k%NCFG_VI[m-5]); }
struct Pt { TV x; int id; }; // id: generic number that fixes the particle's initial state
struct Sc { int model=0,k=0,bc=0; T flip=-0.95; bool musl=false,pbc=false,mibf=false; int frames=2; T dx=0.25, sc=1; int cl=2,al=4,id0=0; bool fast=false; };
static SimP build(const Sc& g,const std::vector<Pt>& P){ T dx=g.dx; std::vector<TV> x; for (auto& p:P){ TV y=p.x*dx; if (g.pbc) y(0)-=10*dx*std::floor(y(0)/(10*dx)); x.push_back(y); } auto s=make(x,dx); setmodel(*s,g.model,g.k); s->flip_ratio=g.flip; s->use_musl=g.musl; s->use_mibf=g.mibf; s->gravity=TV::Zero(); s->gravity(1)=-4; s->gravity(0)=1; s->grid_reference_point=TV::Zero();
  if (g.pbc){ s->pbc=true; s->Lx=10*dx; s->Ly=8*dx;
    #ifdef THREEDIM
    s->Lz=7*dx;
    #endif
    if (g.bc) plate(*s,2.7*dx,PlateType::bottom,BC::SlipFree,0.25); } else setbc(*s,g.bc);
  for (size_t i=0;i<P.size();i++){ int p=P[i].id; s->particles.v[i]=gvec(p,21,0.5); s->particles.Bmat[i]=gmat(p,31,0.2*dx*dx); s->particles.F[i]=trialF(-0.03+0.03*gens(p,5),0.03*gen(p,6),p,p,p+1); s->particles.tau[i]=gsym(p,51,200); s->particles.muI[i]=0.2+0.3*gen(p,8); s->particles.eps_pl_dev[i]=0.01*gen(p,9); s->particles.eps_pl_vol[i]=0.002*gens(p,10); }
  if (g.sc!=1){ s->E*=g.sc; s->rho*=1.7; s->particle_mass*=1.7; s->nu=0.2; s->gravity*=0.5; s->gravity_special=true; s->gravity_time=0.004; s->rho_s*=1.3; s->mu_1*=0.9; s->mu_2*=1.1; s->I_ref*=1.4; } s->fps=400*std::sqrt(g.sc); s->end_frame=g.frames; if (g.fast) s->cfl=0.002; return s; }
static std::vector<Pt> pts(int cl,int al,int id0=0){ std::vector<Pt> r; for (auto& x:cloud(cl,off(al))) r.push_back({x,id0+(int)r.size()}); return r; }
static std::string diff(const Snap& a,size_t i,const Snap& b,size_t j,T tol=1){ Cmp q; q.v("x",i,a.x[i],b.x[j],1e-10*tol); q.v("v",i,a.v[i],b.v[j],1e-9*tol); q.m("B",i,a.B[i],b.B[j],1e-9*tol); q.m("F",i,a.F[i],b.F[j],1e-9*tol); q.m("tau",i,a.tau[i],b.tau[j],1e-4*tol); q.s("eps_pl_dev",i,a.epd[i],b.epd[j],1e-9*tol); q.s("eps_pl_vol",i,a.epv[i],b.epv[j],1e-9*tol); q.s("eps_pl_vol_pradhana",i,a.prad[i],b.prad[j],1e-9*tol); q.s("delta_gamma",i,a.dg[i],b.dg[j],1e-6*(1+std::abs(b.dg[j]))); q.s("muI",i,a.muI[i],b.muI[j],1e-7); q.s("viscosity",i,a.visc[i],b.visc[j],1e-6*(1+std::abs(b.visc[j]))); return q.what; }
// one simulation, after another one if wanted, in a process of its own (nothing at all has run before in it); the constructor below runs before main
static void hist(const Dig& d,bool after,std::vector<double>& out){ Sc g; g.model=d[0]; g.k=5; g.flip=d[2]?-0.95:0.8; g.pbc=d[3]; g.mibf=d[3]; g.bc=d[3]?1:5; auto P=pts(2,4);
  if (after){ Sc h; h.model=d[1]; h.k=d[1]==d[0]?10:9; h.pbc=d[4]; h.mibf=d[4]; h.bc=d[4]?0:3; h.musl=true; h.flip=-1e-14; h.frames=3; h.dx=0.4; h.sc=2.5; auto o=build(h,pts(4,1,7)); o->simulate(); }
  auto b=build(g,P); b->simulate(); Snap B=snap(*b); out.push_back(nsteps(*b)); for (size_t i=0;i<B.n();i++){ for (int k=0;k<D;k++) out.push_back(B.x[i](k)); for (int k=0;k<D;k++) out.push_back(B.v[i](k)); for (int k=0;k<D*D;k++) out.push_back(B.B[i].data()[k]); for (int k=0;k<D*D;k++) out.push_back(B.F[i].data()[k]); for (int k=0;k<D*D;k++) out.push_back(B.tau[i].data()[k]*1e-5); out.push_back(B.epd[i]); out.push_back(B.epv[i]); out.push_back(B.prad[i]); out.push_back(B.dg[i]); out.push_back(B.muI[i]); out.push_back(B.visc[i]); } }
struct Early { Early(){ const char* e=getenv("MC_C26_HIST"); if (!e) return; Dig d(5); int after=0,fd=-1; if (sscanf(e,"%d,%d,%d,%d,%d,%d,%d",&d[0],&d[1],&d[2],&d[3],&d[4],&after,&fd)!=7) _exit(9); int nul=open("/dev/null",O_WRONLY); dup2(nul,1); dup2(nul,2); std::vector<double> o; hist(d,after,o); const char* p=(const char*)o.data(); size_t n=o.size()*8; while (n){ ssize_t w=write(fd,p,n); if (w<=0) _exit(8); p+=w; n-=w; } _exit(0); } };
static Early early_;
static std::vector<double> child(Ctx& c,const Dig& d,int after){ int fd[2]; if (pipe(fd)) c.fail("pipe"); char e[120]; snprintf(e,sizeof e,"MC_C26_HIST=%d,%d,%d,%d,%d,%d,%d",d[0],d[1],d[2],d[3],d[4],after,fd[1]); std::vector<char*> env; for (char** q=environ;*q;q++) env.push_back(*q); env.push_back(e); env.push_back(nullptr); char exe[]="/proc/self/exe"; char* av[]={exe,nullptr}; pid_t k=fork(); if (k==0){ ::close(fd[0]); execve(exe,av,env.data()); _exit(7); } ::close(fd[1]); std::vector<double> r; std::vector<char> b; char t[65536]; ssize_t n; while ((n=read(fd[0],t,sizeof t))>0||(n<0&&errno==EINTR)) if (n>0) b.insert(b.end(),t,t+n); ::close(fd[0]); int st=0; while (waitpid(k,&st,0)<0&&errno==EINTR); if (!WIFEXITED(st)||WEXITSTATUS(st)) c.fail("the simulation %s ended with status %d",after?"after another one":"alone",st); r.resize(b.size()/8); memcpy(r.data(),b.data(),r.size()*8); return r; }
namespace mc { void families(std::vector<Family>& F){
  // every order of the particles
  F.push_back({"order", {{"perm",D==2||tier()?120:24},{"model",NM},{"scheme",3},{"pbc",2},{"cfg",tier()?3:1},{"limit",2}}, [](Ctx& c,const Dig& d){ Sc g; g.model=d[1]; g.k=d[4]*3+1; if (d[5]&&d[2]) return c.skip(); g.fast=d[5]; static const T FL[]={-0.95,0.9,-1e-14}; g.flip=FL[d[2]]; g.musl=d[2]==1; g.pbc=d[3]; g.mibf=d[3]; g.bc=d[3]?1:4; auto P=pts(2,3); int n=P.size(); if (D==3&&!tier()){ P.pop_back(); n--; } std::vector<int> perm; { std::vector<int> pool; for (int i=0;i<n;i++) pool.push_back(i); int z=d[0]; for (int i=n;i>0;i--){ perm.push_back(pool[z%i]); pool.erase(pool.begin()+z%i); z/=i; } }
    std::vector<Pt> Q; for (int i:perm) Q.push_back(P[i]); auto a=build(g,P),b=build(g,Q); a->simulate(); b->simulate(); c.trans(nsteps(*a)+nsteps(*b)); Snap A=snap(*a),B=snap(*b); c.state(mix(hash(B),d[0])); if (A.n()!=B.n()) c.fail("number of particles"); for (int i=0;i<n;i++){ std::string w=diff(B,i,A,perm[i]); if (!w.empty()) c.fail("%s: particle stored at %d instead of %d: %s",MN[g.model],i,perm[i],w.c_str()); } c.note("%s: order %d agrees",MN[g.model],d[0]); }});
  // long lists: rotations of larger sets
  F.push_back({"rotate", {{"n",4},{"rot",6},{"model",NM},{"pbc",2},{"limit",2}}, [](Ctx& c,const Dig& d){ static const int N[]={17,33,70,160}; int n=N[d[0]]; Sc g; g.model=d[2]; g.fast=d[4]; g.k=2; g.pbc=d[3]; g.mibf=d[3]; g.bc=d[3]?1:2; std::vector<Pt> P; for (int k=0;k<n;k++){ TV x; for (int i=0;i<D;i++) x(i)=2+4.1*gen(k,60+i); P.push_back({x,k}); } int r=1+d[1]*(n-1)/6; std::vector<Pt> Q; for (int i=0;i<n;i++) Q.push_back(P[(i+r)%n]); if (d[1]==5) std::reverse(Q.begin(),Q.end()); auto a=build(g,P),b=build(g,Q); a->simulate(); b->simulate(); c.trans(nsteps(*a)+nsteps(*b)); Snap A=snap(*a),B=snap(*b); c.state(hash(B)); if (A.n()!=B.n()) c.fail("number of particles"); for (int i=0;i<n;i++){ int j=Q[i].id; std::string w=diff(B,i,A,j); if (!w.empty()) c.fail("%s, %d particles: particle stored at %d instead of %d: %s",MN[g.model],n,i,j,w.c_str()); } }});
  // what is saved and printed
  F.push_back({"output", {{"save",4},{"verbose",2},{"threads",3},{"model",NM},{"scheme",2},{"pbc",2}}, [](Ctx& c,const Dig& d){ Sc g; g.model=d[3]; g.k=3; g.flip=d[4]?-0.95:0.6; g.musl=!d[4]; g.pbc=d[5]; g.mibf=d[5]; g.bc=d[5]?1:3; g.frames=3; auto P=pts(2,1); auto a=build(g,P),b=build(g,P); a->simulate(); if (d[0]){ wipe(scratch()+"/o/"); b->initialize(d[0]!=2,scratch()+"/","o"); b->save_grid=d[0]&2; } b->reduce_verbose=!d[1]; static const int TH[]={1,2,5}; b->n_threads=TH[d[2]]; b->simulate(); c.trans(nsteps(*a)+nsteps(*b)); Snap A=snap(*a),B=snap(*b); c.state(hash(B)); if (A.n()!=B.n()) c.fail("number of particles"); if (nsteps(*a)!=nsteps(*b)) c.fail("number of steps"); for (size_t i=0;i<A.n();i++){ std::string w=diff(B,i,A,i); if (!w.empty()) c.fail("%s: output options change the simulation: %s",MN[g.model],w.c_str()); } }});
  // a body out of reach
  F.push_back({"far", {{"model",NM},{"scheme",4},{"axis",D},{"dist",4},{"first",2},{"bc",4},{"cloud",3}}, [](Ctx& c,const Dig& d){ Sc g; g.model=d[0]; g.k=1+d[3]; static const T FL[]={-0.95,0.9,-1e-14,0}; g.flip=FL[d[1]]; g.musl=d[1]%2; static const int BB[]={0,1,4,2}; g.bc=BB[d[5]]; g.mibf=false; static const int CL[]={1,2,4}; static const T DI[]={7,9.5,23,41.25}; auto P=pts(CL[d[6]],3), Q=pts(2,1,40); for (auto& q:Q) q.x(d[2])+=DI[d[3]]; std::vector<Pt> R=d[4]?Q:P; auto& S=d[4]?P:Q; R.insert(R.end(),S.begin(),S.end()); size_t o1=d[4]?Q.size():0,o2=d[4]?0:P.size(); auto a=build(g,P),b=build(g,Q),r=build(g,R); a->simulate(); b->simulate(); r->simulate(); c.trans(nsteps(*a)+nsteps(*b)+nsteps(*r)); Snap A=snap(*a),B=snap(*b),C=snap(*r); c.state(hash(C)); for (size_t i=0;i<P.size();i++){ std::string w=diff(C,o1+i,A,i); if (!w.empty()) c.fail("%s: a body %g cells away changes the first body: %s",MN[g.model],DI[d[3]],w.c_str()); } for (size_t i=0;i<Q.size();i++){ std::string w=diff(C,o2+i,B,i); if (!w.empty()) c.fail("%s: a body %g cells away changes the second body: %s",MN[g.model],DI[d[3]],w.c_str()); } }});
  // the number of frames asked for only truncates the run; earlier runs in the process leave nothing behind
  F.push_back({"prefix", {{"model",NM},{"scheme",2},{"short",4},{"extra",4},{"pbc",2}}, [](Ctx& c,const Dig& d){ Sc g; g.model=d[0]; g.k=4; g.flip=d[1]?-0.95:0.8; g.musl=!d[1]; g.pbc=d[4]; g.mibf=d[4]; g.bc=d[4]?1:4; auto P=pts(2,2); g.frames=1+d[2]; auto a=build(g,P); a->simulate(); Snap A=snap(*a); static const int EX[]={1,2,5,30}; g.frames=1+d[2]+EX[d[3]]; auto b=build(g,P); T at=(1+d[2])/b->fps; Snap B; bool got=false; std::vector<T> ts; observe(*b,[&](T t){ ts.push_back(t); if (!got&&std::abs(t-at)<1e-9){ got=true; B=snap(*b); } }); b->simulate(); c.trans(nsteps(*a)+nsteps(*b)); c.state(hash(A)); if (!got) c.fail("the longer run has no step starting at %g",at);
    // (with periodic copies present the first Np entries are the particles; within the step positions still belong to its start)
    for (size_t i=0;i<A.n();i++){ std::string w=diff(B,i,A,i); if (!w.empty()) c.fail("%s: state after %d frames differs in a run of %d frames: %s",MN[g.model],1+d[2],g.frames,w.c_str()); } }});
  F.push_back({"history", {{"model",NM},{"prev",NM},{"scheme",2},{"pbc",2},{"prevpbc",2}}, [](Ctx& c,const Dig& d){ auto A=child(c,d,0),B=child(c,d,1); c.trans(8); uint64_t h=0; for (double v:B) h=mixd(h,v); c.state(h); if (A.size()!=B.size()) c.fail("number of particles"); for (size_t i=0;i<A.size();i++) if (!(std::abs(A[i]-B[i])<=1e-9*(1+std::abs(A[i])))) c.fail("%s after a %s run in the same process: value %zu is %.12g instead of %.12g",MN[d[0]],MN[d[1]],i,B[i],A[i]); }});
  contexts(F,{DC_FAR,DC_AFTER,DC_LENGTHS},2,{"order","rotate","far","prefix"});
}}
MC_MAIN
