// C23: axis permutations, mirror images, shifts and relabellings
#include "matcheck.hpp"
#include "contact.hpp"
using namespace mc;
static const int NM=10;
static void setmodel(Simulation& s,int m,int k){ if (m==0){ common_mat(s); s.plastic_model=PlasticModel::NoPlasticity; s.elastic_model=k%2?ElasticModel::NeoHookean:ElasticModel::Hencky; } else if (m<5) cfg_ri(s,m-1,k%NCFG_RI[m-1]); else cfg_vi(s,m-5,k%NCFG_VI[m-5]); }
static const int NQ=D==3?48:8;
static TM sym(int k){ static const int P2[][3]={{0,1,2},{1,0,2}}, P3[][3]={{0,1,2},{1,2,0},{2,0,1},{0,2,1},{1,0,2},{2,1,0}}; TM Q=TM::Zero(); int ns=1<<D; const int* p=D==3?P3[k/ns]:P2[k/ns]; for(int d=0;d<D;d++) Q(d,p[d])=(k%ns)>>d&1?-1:1; return Q; }
// a plate or slope in vector form; moved by X -> Q X + o
struct Pl { TV n; T pos; BC bc; T fr; T lo,hi; TV v; T vmin=1,load=0; };
struct Sl { TV n; T c; BC bc; T fr; };
struct Cfg { T dx=0.25; std::vector<TV> x; std::vector<Pl> pl; std::vector<Sl> sl; TV g=TV::Zero(); T flip=-0.95; bool musl=false,mibf=false,pbc=false,neo=false; int model=0,k=0,steps=4,salt=0,thr=1; T fps=400; bool ramp=false; bool ref=false,tang=false; int along=0; TV refp=TV::Zero(); T ratio=0; };
static int axis(const TV& n){ for(int d=0;d<D;d++) if (std::abs(n(d))>0.5) return d; return 0; }
static PlateType type_of(const TV& n){ for(int i=0;i<NPT;i++) if (maxabs(TV(plate_normal(PT[i])-n))<1e-9) return PT[i]; return PT[0]; }
static bool build(const Cfg& g,const TM& Q,const TV& o,const std::vector<int>& ord,SimP& s){ size_t n=g.x.size(); std::vector<TV> x(n); for(size_t i=0;i<n;i++) x[i]=Q*g.x[ord[i]]+o; s=make(x,g.dx); setmodel(*s,g.model,g.k); s->rho=1000; s->flip_ratio=g.flip; s->use_musl=g.musl; s->use_mibf=g.mibf; s->n_threads=g.thr; s->gravity=Q*g.g; if (g.neo) s->elastic_model=ElasticModel::NeoHookean; if (g.ramp){ s->gravity_special=true; s->gravity_time=0.006; } if (g.ref) s->grid_reference_point=Q*g.refp+o;
  for(size_t i=0;i<n;i++){ int p=ord[i]; s->particles.v[i]=Q*gvec(p,61+g.salt,0.9); s->particles.Bmat[i]=Q*gmat(p,31+g.salt,0.2*g.dx*g.dx)*Q.transpose(); s->particles.F[i]=Q*trialF(-0.02+0.015*gens(p,5),g.model?0.03*gen(p,6):0.02,p,p,p+1)*Q.transpose(); s->particles.tau[i]=Q*gsym(p,51,300)*Q.transpose(); if (g.tang){ TV v=gvec(p,61,0.9); v(g.along)=0; s->particles.v[i]=Q*v; s->particles.Bmat[i].setZero(); s->particles.F[i].setIdentity(); s->particles.tau[i].setZero(); } s->particles.eps_pl_dev[i]=0.01*gen(p,9); s->particles.eps_pl_vol[i]=0.001*gens(p,11); }
  for(auto& q:g.sl){ TV nn=Q*q.n; s->objects.push_back(std::make_unique<Slope>(q.bc,q.fr,nn,q.c+nn.normalized().dot(o))); }
  for(auto& q:g.pl){ TV nn=Q*q.n; int a=axis(q.n), b=axis(nn); T pos=(Q*(q.pos*TV::Unit(a))+o)(b); T lo=-1e15,hi=1e15; if (q.lo>-1e14||q.hi<1e14){ if (a>1||b>1) return false; TV e=TV::Unit(1-a); if (axis(TV(Q*e))!=1-b) return false; T u=(Q*(q.lo*e)+o)(1-b), w=(Q*(q.hi*e)+o)(1-b); lo=std::min(u,w); hi=std::max(u,w); } TV v=Q*q.v; plate(*s,pos,type_of(nn),q.bc,q.fr,lo,hi,v(0),v(1),D==3?v(D-1):0); s->plates.back()->vmin_factor=q.vmin; s->plates.back()->load_factor=q.load; }
  s->fps=g.fps; s->end_frame=g.steps; if (g.ratio>0) s->cfl_elastic=std::sqrt(s->E/s->rho)/g.dx/g.fps/g.ratio*1.0001; return true; }
static void cmp(Ctx& c,const Cfg& g,const TM& Q,const TV& o,const std::vector<int>& ord,const char* what){ std::vector<int> id(g.x.size()); for(size_t i=0;i<id.size();i++) id[i]=i; SimP a,b; build(g,TM(TM::Identity()),TV(TV::Zero()),id,a); if (!build(g,Q,o,ord,b)) return c.skip(); 
  if (g.pbc) for(int q=0;q<2;q++){ Simulation& s=q?*b:*a; s.pbc=true; s.Lx=10*g.dx; s.Ly=9*g.dx;
   #ifdef THREEDIM
   s.Lz=9*g.dx;
   #endif
  }
  a->simulate(); b->simulate(); c.trans(2*g.steps); c.state(hash(snap(*b))); if (a->exit||b->exit){ if (may_refuse(*a)) return c.skip(); if ((a->exit!=0)!=(b->exit!=0)) c.fail("%s: one of the runs stopped",what); return c.skip(); }
  const Particles &A=a->particles,&B=b->particles; T sc=a->E, tol=1e-7; if (A.x.size()!=B.x.size()) c.fail("%s: number of particles",what); if (nsteps(*a)!=nsteps(*b)) c.fail("%s: %d and %d steps",what,(int)nsteps(*a),(int)nsteps(*b)); Cmp q; T mv=0;
  for(size_t i=0;i<ord.size();i++){ int p=ord[i]; q.v("v",p,B.v[i],TV(Q*A.v[p]),tol*10); TV ex=Q*A.x[p]+o; if (g.pbc){ T d=B.x[i](0)-ex(0); ex(0)+=a->Lx*std::round(d/a->Lx); } q.v("x",p,B.x[i],ex,tol); q.m("F",p,B.F[i],TM(Q*A.F[p]*Q.transpose()),tol); q.m("tau",p,B.tau[i],TM(Q*A.tau[p]*Q.transpose()),tol*10*sc); q.m("Bmat",p,B.Bmat[i],TM(Q*A.Bmat[p]*Q.transpose()),tol); q.s("eps_pl_dev",p,B.eps_pl_dev[i],A.eps_pl_dev[p],tol*10); q.s("eps_pl_vol",p,B.eps_pl_vol[i],A.eps_pl_vol[p],tol*10); if (g.mibf) q.s("muI",p,std::min<T>(B.muI[i],1e3),std::min<T>(A.muI[p],1e3),1e-3*(1+std::min<T>(std::abs(A.muI[p]),1e3))); mv=std::max(mv,maxabs(A.v[p])); }
  for(size_t i=0;i<g.pl.size();i++){ int ax=axis(g.pl[i].n), bx=axis(TV(Q*g.pl[i].n)); q.s("plate position",i,b->plates[i]->pos_object,(Q*(a->plates[i]->pos_object*TV::Unit(ax))+o)(bx),1e-9); }
  if (!q.what.empty()) c.fail("%s, after %d steps: %s",what,(int)nsteps(*a),q.what.c_str()); c.note("%d steps, %zu particles: v0=%s -> %s",(int)nsteps(*a),ord.size(),str(A.v[0]).c_str(),str(B.v[0]).c_str()); }
// clouds whose extent is a whole number of cells along every axis (the grid of the mirror image is then the mirrored grid)
static std::vector<TV> mcloud(int k,T dx){ std::vector<TV> x; TV lo=TV::Zero(),hi; for(int d=0;d<D;d++) hi(d)=(k==0?2:k==1?3:2+d)*1.0; if (k==0){ x.push_back(lo); x.push_back(hi); } else { x.push_back(lo); x.push_back(hi); int m=k==1?4:9; for(int i=0;i<m;i++){ TV p; for(int d=0;d<D;d++) p(d)=hi(d)*(0.05+0.9*gen(i,d+2)); x.push_back(p); } } for(auto& p:x){ for(int d=0;d<D;d++) p(d)=(p(d)+0.37*(d+1))*dx; } return x; }
static const int NBD=14;
static void bnds(Cfg& g,int b){ T dx=g.dx; TV mid=TV::Zero(); for(auto& p:g.x) mid+=p; mid/=g.x.size(); mid+=TV::Constant(0.0413*dx); TV e; auto pl=[&](int a,int sg,BC bc,T fr,T shift,int vel,T lo=-1e15,T hi=1e15){ Pl p; p.n=sg*TV::Unit(a); p.pos=mid(a)+shift*dx; p.bc=bc; p.fr=fr; p.lo=lo; p.hi=hi; p.v=TV::Zero(); if (vel) for(int d=0;d<D;d++) p.v(d)=0.25-0.31*d; g.pl.push_back(p); };
  TV n; for(int d=0;d<D;d++) n(d)=d==0?-0.3:d==1?1:0.2; switch(b){ case 0: break; case 1: pl(0,1,BC::NoSlip,0,0,1); break; case 2: pl(1,1,BC::SlipFree,0.4,0,1); break; case 3: pl(0,-1,BC::SlipStick,0.3,0,1); break; case 4: pl(D-1,1,BC::SlipFree,0.2,0,1); break; case 5: pl(D-1,-1,BC::SlipStick,0.5,0,0); break;
   case 6: pl(0,1,BC::SlipFree,0.4,0,0,mid(1)-0.7*dx,mid(1)+1.3*dx); break; case 7: pl(1,-1,BC::SlipStick,0.4,0,1,mid(0)-0.7*dx,1e15); break; case 8: pl(0,1,BC::SlipFree,0.1,-0.4,0); pl(1,1,BC::SlipFree,0.4,-0.5,1); break; case 9: pl(0,-1,BC::NoSlip,0,0.6,1); pl(D-1,1,BC::SlipStick,0.7,-0.4,1); break;
   case 10: g.sl.push_back({n,n.normalized().dot(mid),BC::SlipFree,0.3}); break; case 11: g.sl.push_back({n,n.normalized().dot(mid),BC::SlipStick,0.3}); pl(1,-1,BC::SlipFree,0.2,0.7,1); break; case 12: g.sl.push_back({TV(-n),-n.normalized().dot(mid),BC::NoSlip,0}); break; default: pl(1,1,BC::SlipFree,0.4,-0.3,1); g.pl.back().vmin=4; g.pl.back().load=2; pl(0,1,BC::SlipStick,0,-0.4,1); } }
static std::vector<int> ordr(size_t n,int k){ std::vector<int> r(n); for(size_t i=0;i<n;i++) r[i]=k==0?i:k==1?n-1-i:(i*7+3)%n; if (k==2){ std::set<int> u(r.begin(),r.end()); if (u.size()!=n) return ordr(n,1); } return r; }
namespace mc { void families(std::vector<Family>& F){
  F.push_back({"boundaries", {{"sym",NQ},{"bnd",NBD},{"scheme",D==2||tier()?8:3},{"musl",2},{"cloud",D==2||tier()?3:1},{"mibf",2}}, [](Ctx& c,const Dig& d){ Cfg g; static const int FS[]={3,2,0}; g.flip=FLIP[D==2||tier()?d[2]:FS[d[2]]]; g.musl=d[3]; g.mibf=d[5]; g.x=mcloud(D==2||tier()?d[4]:1,g.dx); for(int i=0;i<D;i++) g.g(i)=1.5-4*i+i*i; bnds(g,d[1]); if (g.mibf&&(d[1]==0||d[1]==1||d[1]==12)) return c.skip(); cmp(c,g,sym(d[0]),TV(TV::Zero()),ordr(g.x.size(),0),"transformed set-up"); }});
  F.push_back({"models", {{"sym",NQ},{"model",NM},{"cfg",tier()?16:4},{"musl",2},{"bnd",2},{"mibf",D==2||tier()?2:1}}, [](Ctx& c,const Dig& d){ Cfg g; g.model=d[1]; g.k=d[2]*7+1; g.musl=d[3]; g.mibf=d[5]; g.x=mcloud(D==2?2:1,g.dx); for(int i=0;i<D;i++) g.g(i)=1.5-4*i+i*i; bnds(g,d[4]?8:0); cmp(c,g,sym(d[0]),TV(TV::Zero()),ordr(g.x.size(),0),"transformed set-up"); }});
  F.push_back({"runs", {{"sym",NQ},{"bnd",NBD},{"len",tier()?4:2},{"cfl",2},{"ramp",2}}, [](Ctx& c,const Dig& d){ Cfg g; g.x=mcloud(1,g.dx); static const int LN[]={12,30,60,100}; g.steps=LN[d[2]]; if (D==3&&!tier()) g.steps=LN[d[2]]/2; g.ratio=d[3]?2:0; g.ramp=d[4]; for(int i=0;i<D;i++) g.g(i)=1.5-4*i+i*i; bnds(g,d[1]); cmp(c,g,sym(d[0]),TV(TV::Zero()),ordr(g.x.size(),0),"transformed run"); }});
  F.push_back({"reference-point", {{"sym",NQ},{"where",D==3?6:8},{"scheme",2},{"musl",2}}, [](Ctx& c,const Dig& d){ Cfg g; g.x=mcloud(1,g.dx); g.ref=true; TV lo=g.x[0]; for(int i=0;i<D;i++){ int w=(d[1]>>i)&1; g.refp(i)=lo(i)+(w?9:-4)*g.dx+(d[1]>=4&&D==2?0:0); } if (d[1]==5) g.refp=lo+TV::Constant(1.0*g.dx); g.flip=d[2]?0.3:-0.95; g.musl=d[3]; bnds(g,2); cmp(c,g,sym(d[0]),TV(TV::Zero()),ordr(g.x.size(),0),"transformed set-up with a grid reference point"); }});
  // a grid reference point close to the particles, at a distance that is no whole number of cells, on either side along each axis
  F.push_back({"reference-near", {{"sym",NQ},{"side",1<<D},{"off",4},{"scheme",2},{"bnd",2}}, [](Ctx& c,const Dig& d){ static const T OF[]={0.4,0.8,1.3,0.05}; Cfg g; T f=OF[d[2]]; for(int i=0;i<7;i++){ TV p; for(int k=0;k<D;k++){ T u=i==0?0:i==1?1:0.05+0.9*gen(i,k+3); int w=(d[1]>>k)&1; p(k)=g.dx*((w?0:f)+u*(4-f)+0.37*(k+1)); } g.x.push_back(p); } g.ref=true; for(int k=0;k<D;k++) g.refp(k)=g.dx*(((d[1]>>k)&1?4:0)+0.37*(k+1)); g.flip=d[3]?0.3:-0.95; g.musl=d[3]; bnds(g,d[4]?8:2); for(int i=0;i<D;i++) g.g(i)=1.5-4*i+i*i; cmp(c,g,sym(d[0]),TV(TV::Zero()),ordr(g.x.size(),0),"transformed set-up with a near grid reference point"); }});
  // plates exactly on grid lines, motion along the plate only: mirror images must agree on who touches
  F.push_back({"touch", {{"sym",NQ},{"plate",NPT},{"bc",3},{"line",3},{"scheme",D==2||tier()?8:3},{"musl",2}}, [](Ctx& c,const Dig& d){ Cfg g; static const int FS[]={3,2,0}; g.flip=FLIP[D==2||tier()?d[4]:FS[d[4]]]; g.musl=d[5]; g.tang=true; g.ref=true; TV n=plate_normal(PT[d[1]]); g.along=axis(n); for(int i=0;i<6;i++){ TV p; for(int k=0;k<D;k++) p(k)=g.dx*(i<2?(i?6:2):2+4*(1+(i*5+k*3)%15)/16.0); g.x.push_back(p); } g.refp=TV::Constant(0); Pl p; p.n=n; p.pos=g.dx*(3+d[3]); p.bc=BCS[d[2]]; p.fr=0.4; p.lo=-1e15; p.hi=1e15; p.v=TV::Zero(); g.pl.push_back(p); cmp(c,g,sym(d[0]),TV(TV::Zero()),ordr(g.x.size(),0),"transformed set-up with a plate on a grid line"); }});
  F.push_back({"shift", {{"off",9},{"bnd",NBD},{"scheme",8},{"musl",2},{"order",3},{"thr",2}}, [](Ctx& c,const Dig& d){ Cfg g; g.flip=FLIP[d[2]]; g.musl=d[3]; g.thr=d[5]?3:1; if (D==3&&!tier()&&(d[2]%3)) return c.skip(); g.x=mcloud(2,g.dx); for(int i=0;i<D;i++) g.g(i)=1.5-4*i+i*i; bnds(g,d[1]); TV o; for(int i=0;i<D;i++){ static const T O[]={0,1,-1,0.37,-5.21,13,1000,-77.3,0.5}; o(i)=O[(d[0]+(d[0]>2?i:0))%9]*g.dx; } cmp(c,g,TM(TM::Identity()),o,ordr(g.x.size(),d[4]),"shifted and relabelled set-up"); }});
  F.push_back({"periodic", {{"sym",D==3?16:4},{"bnd",6},{"scheme",8},{"musl",2},{"mibf",2},{"shift",4}}, [](Ctx& c,const Dig& d){ Cfg g; g.pbc=true; g.flip=FLIP[d[2]]; g.musl=d[3]; g.mibf=d[4]; if (D==3&&!tier()&&(d[2]%3||d[5]%2)) return c.skip(); TM Q=TM::Zero(); int k=d[0]; for(int i=0;i<D;i++) Q(i,i)=k>>i&1?-1:1; if (D==3&&k>=8){ TM R=TM::Zero(); R(0,0)=1; R(1,D-1)=1; R(D-1,1)=1; Q=Q*R; } T L[3]={10*g.dx,9*g.dx,9*g.dx}; TV o=TV::Zero(); for(int i=0;i<D;i++) if (k>>i&1) o(i)=L[i]; 
    for(int i=0;i<11;i++){ TV p; p(0)=(-1.5+3*gen(i,1)+d[5]*2.5)*g.dx; p(0)-=L[0]*std::floor(p(0)/L[0]); p(1)=(3+3*gen(i,2))*g.dx; if (D==3) p(D-1)=(3+3*gen(i,3))*g.dx; g.x.push_back(p); } for(int i=0;i<D;i++) g.g(i)=1.5-4*i+i*i; Pl p; p.bc=BCS[d[1]/2]; p.fr=0.3; p.lo=-1e15; p.hi=1e15; p.n=(d[1]%2?-1:1)*TV::Unit(D==3&&d[1]>2?D-1:1); p.pos=4.4141*g.dx; p.v=TV::Zero(); p.v(0)=0.2; g.pl.push_back(p); cmp(c,g,Q,o,ordr(g.x.size(),d[5]%3),"transformed periodic set-up"); }});
  contexts(F,{DC_THREADS3,DC_OUTPUT,DC_AFTER},2);
}}
MC_MAIN
