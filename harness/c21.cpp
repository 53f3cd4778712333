// C21: material-induced boundary friction
#include "matcheck.hpp"
#include "contact.hpp"
using namespace mc;
static const int NM=10;
static void setmodel(Simulation& s,int m,int k){ if (m==0){ common_mat(s); s.plastic_model=PlasticModel::NoPlasticity; } else if (m<5) cfg_ri(s,m-1,k%NCFG_RI[m-1]); else cfg_vi(s,m-5,k%NCFG_VI[m-5]); }
static int NB(){ return 2*(NPT+NON)+2; }
// boundary b through the middle of the cloud; own = the coefficient of the boundary itself
struct Bs { std::vector<std::unique_ptr<ObjectPlate>> pl; std::vector<std::unique_ptr<ObjectGeneral>> ob; };
static void bound(std::vector<std::unique_ptr<ObjectPlate>>& P,std::vector<std::unique_ptr<ObjectGeneral>>& O,int b,T own,const TV& mid,int pv){ Simulation s; auto one=[&](int k){ Bnd q=k<2*NPT?bplate(k/2,1+k%2,own,pv):bobj((k-2*NPT)/2,1+k%2,own); if (q.obj) O.push_back(std::make_unique<Slope>(q.bc,q.fr,q.n,q.n.dot(mid))); else { int a=0; for(int d=0;d<D;d++) if(q.n(d)!=0) a=d; Simulation z; plate(z,mid(a),q.t,q.bc,q.fr,-1e15,1e15,q.pv(0),q.pv(1),D==3?q.pv(D-1):0); P.push_back(std::move(z.plates[0])); } };
  int n=2*(NPT+NON); if (b<n) one(b); else if (b==n){ one(5); one(2*NPT+3); } else { one(1); one(4); } }
static T mu_of(int pat,size_t p,T t){ switch(pat){ case 0: return 0.4; case 1: return p==0?1.3:0.1; case 2: return 0.15*(1+p%5); case 3: return p%2?0:0.7; default: return std::fabs(std::sin(1.7*p+40*t))*0.9; } }
static Snap cut(const Snap& a,size_t n){ Snap s=a; s.x.resize(n); s.v.resize(n); s.F.resize(n); s.B.resize(n); s.tau.resize(n); s.epd.resize(n); s.epv.resize(n); s.prad.resize(n); s.dg.resize(n); s.visc.resize(n); s.muI.resize(n); return s; }
struct Cf { int b=0,cl=2,al=3,pat=2,model=0,k=0,pv=0,thr=1,steps=4; T flip=-0.95,own=0.9; bool musl=false,pbc=false; };
static void go(Ctx& c,const Cf& g){ T dx=0.25; auto x=scaled(cloud(g.cl,off(g.al)),dx); TV mid=TV::Zero(); for(auto& p:x) mid+=p; mid/=x.size(); mid+=TV::Constant(0.03*dx); 
  if (g.pbc){ for(auto& p:x){ p(0)-=3.9*dx; p(0)-=10*dx*std::floor(p(0)/(10*dx)); } } size_t n=x.size(); auto s=make(x,dx); setmodel(*s,g.model,g.k); s->rho=1000; s->n_threads=g.thr; s->flip_ratio=g.flip; s->use_musl=g.musl; s->use_mibf=true; s->gravity=TV::Zero(); s->gravity(1)=-4; s->gravity(0)=1.5; if (g.pbc){ s->pbc=true; s->Lx=10*dx; s->Ly=9*dx;
   #ifdef THREEDIM
   s->Lz=9*dx;
   #endif
  }
  for(size_t p=0;p<n;p++){ s->particles.v[p]=gvec(p,61,1.1); s->particles.Bmat[p]=gmat(p,31,0.2*dx*dx); if (g.model) s->particles.F[p]=trialF(-0.02+0.015*gens(p,5),0.03*gen(p,6),p,p,p+1); }
  anchor(*s); Bs B; bound(s->plates,s->objects,g.b,g.own,mid,g.pv); std::vector<std::pair<T,Snap>> tr; T latx=0; (void)latx; std::vector<TV> lats; std::vector<std::vector<T>> ppos;
  Simulation* S=s.get(); int nplates=s->plates.size(); observe(*s,[&](T t){ tr.push_back({t,cut(snap(*S),n)}); lats.push_back(lattice(*S)); std::vector<T> q; for(int i=0;i<nplates;i++) q.push_back(S->plates[i]->pos_object); ppos.push_back(q); if (g.model==0) for(size_t p=0;p<n;p++) S->particles.muI[p]=mu_of(g.pat,p,t); });
  T fps=300; s->fps=fps; s->end_frame=g.steps; s->simulate(); if (s->exit&&(g.model>=5||may_refuse(*s))) return c.skip(); if (s->exit) c.fail("run stopped"); tr.push_back({s->plates.back()->pos_object,cut(snap(*s),n)}); c.trans(tr.size()-1); if ((int)tr.size()!=g.steps+1) c.fail("%zu steps",tr.size()-1);
  std::vector<std::unique_ptr<ObjectPlate>> P; std::vector<std::unique_ptr<ObjectGeneral>> O; bound(P,O,g.b,g.own,mid,g.pv);
  RefCfg rc; rc.dx=dx; rc.vol=s->particle_volume; rc.mass=s->particle_mass; rc.flip=g.flip; rc.g=s->gravity; rc.musl=g.musl; rc.pbc=g.pbc; rc.Lx=s->Lx; rc.mibf=true; rc.plates=&P; rc.objects=&O; long touched=0;
  for(size_t k=0;k+1<tr.size();k++){ rc.dt=tr[k+1].first-tr[k].first; rc.lat=lats[k]; if (g.pbc) rc.lat(0)=0; for(size_t i=0;i<P.size();i++) P[i]->pos_object=ppos[k][i]; std::string why; c.state(hash(tr[k].second)); bool fr=false;
    for(int both=1;both>=0;both--){ rc.stick_both=both; RefRes r=ref_step(rc,tr[k].second); Cmp q; for(size_t p=0;p<n;p++){ q.v("v",p,tr[k+1].second.v[p],r.s.v[p],1e-7); if (!g.pbc) q.v("x",p,tr[k+1].second.x[p],r.s.x[p],1e-8); q.m("Bmat",p,tr[k+1].second.B[p],r.s.B[p],1e-7); } if (q.what.empty()){ why=""; break; } if (both) why=q.what; }
    if (!why.empty()){ (void)fr; c.fail("step %zu: %s",k,why.c_str()); } 
    rc.mibf=false; for(auto& o:O) o->friction=0; for(auto& o:P) o->friction=0; RefRes r0=ref_step(rc,tr[k].second); rc.mibf=true; for(size_t p=0;p<n;p++) if (maxabs(TV(r0.s.v[p]-tr[k+1].second.v[p]))>1e-4){ touched++; break; } }
  sh()->extra[0]+=touched; c.note("%zu steps, friction acted in %ld, v0=%s",tr.size()-1,touched,str(s->particles.v[0]).c_str()); }
namespace mc { void families(std::vector<Family>& F){
  F.push_back({"average", {{"bnd",NB()},{"pattern",5},{"cloud",3},{"scheme",D==2||tier()?8:4},{"musl",2},{"own",2},{"pv",2}}, [](Ctx& c,const Dig& d){ static const int CL[]={1,2,4}; Cf g; g.b=d[0]; g.pat=d[1]; g.cl=CL[d[2]]; g.flip=FLIP[D==2||tier()?d[3]:d[3]*2]; g.musl=d[4]; g.own=d[5]?0.9:0; g.pv=d[6]?4:0; if (d[0]>=2*NPT&&d[0]<2*(NPT+NON)&&d[6]) return c.skip(); if (D==3&&!tier()&&(d[2]==2||g.pv)&&d[1]%2) return c.skip(); go(c,g); }});
  F.push_back({"periodic", {{"bnd",4},{"pattern",5},{"cloud",4},{"align",5},{"scheme",4},{"musl",2},{"thr",2}}, [](Ctx& c,const Dig& d){ static const int BB[]={4,5,6,7}; static const int CL[]={0,1,2,5}; Cf g; g.pbc=true; g.b=BB[d[0]]; g.pat=d[1]; g.cl=CL[d[2]]; g.al=d[3]; g.flip=FLIP[d[4]*2]; g.musl=d[5]; g.thr=1+2*d[6]; if (D==3&&!tier()&&d[2]==3&&(d[1]||d[6])) return c.skip(); go(c,g); }});
  F.push_back({"threads", {{"bnd",NB()},{"thr",4},{"pattern",2}}, [](Ctx& c,const Dig& d){ Cf g; g.b=d[0]; g.thr=2+d[1]; g.pat=2+2*d[2]; g.cl=5; go(c,g); }});
  F.push_back({"models", {{"model",NM},{"cfg",tier()?16:5},{"bnd",D==2?6:4},{"musl",2},{"scheme",2}}, [](Ctx& c,const Dig& d){ static const int BB[]={4,5,1,2*NPT+3,6,2*NPT}; Cf g; g.model=d[0]; g.k=d[1]*3; g.b=BB[d[2]]; g.musl=d[3]; g.flip=d[4]?0.3:-0.95; g.cl=2; go(c,g); }});
  // same friction everywhere: as an ordinary boundary
  F.push_back({"uniform", {{"bnd",NB()},{"mu",4},{"scheme",4},{"musl",2},{"cloud",2},{"own",2}}, [](Ctx& c,const Dig& d){ T m=FR[d[1]]; Snap R[2]; for(int q=0;q<2;q++){ T dx=0.25; auto x=scaled(cloud(d[4]?5:2,off(2)),dx); TV mid=TV::Zero(); for(auto& p:x) mid+=p; mid/=x.size(); auto s=make(x,dx); s->flip_ratio=FLIP[d[2]*2]; s->use_musl=d[3]; s->M=m; s->use_mibf=q; s->gravity=TV::Zero(); s->gravity(1)=-4; for(size_t p=0;p<x.size();p++){ s->particles.v[p]=gvec(p,61,1.1); s->particles.muI[p]=7; } bound(s->plates,s->objects,d[0],q?(d[5]?1.7:0):m,mid,d[5]?4:0); s->fps=300; s->end_frame=5; s->simulate(); c.trans(5); R[q]=snap(*s); c.state(hash(R[q])); if (q&&m>0) for(T z:R[q].muI) if (!(z==m)) c.fail("friction of an elastic particle became %g (internal friction %g)",z,m); }
    Cmp q; for(size_t p=0;p<R[0].n();p++){ q.v("v",p,R[1].v[p],R[0].v[p],1e-7); q.v("x",p,R[1].x[p],R[0].x[p],1e-8); q.m("F",p,R[1].F[p],R[0].F[p],1e-7); q.m("tau",p,R[1].tau[p],R[0].tau[p],1e-4); } if(!q.what.empty()) c.fail("material-induced friction %g, compared with an ordinary boundary: %s",m,q.what.c_str()); c.note("mu=%g v0=%s",m,str(R[1].v[0]).c_str()); }});
  // the friction every particle carries through a run: trial states of several kinds follow each other in all orders
  F.push_back({"mobilised", {{"model",NM},{"cfg",240},{"dir",tier()?4:1},{"musl",2}}, [](Ctx& c,const Dig& d){ static const int NC[]={1,6,8,16,120,96,96,240,16,64}; if (d[1]>=NC[d[0]]) return c.skip(); if (!tier()&&d[3]!=(d[1]&1)) return c.skip(); const int K=6, NST=3; int n=K*K*K; T dx=0.25; auto s=make(cluster(n,dx),dx); setmodel(*s,d[0],d[1]); s->initialize(false); s->use_mibf=true; s->use_musl=d[3]; s->rho=1e10; s->particle_mass=s->rho*s->particle_volume; s->gravity=TV::Zero(); MatPar m=matpar(*s); bool mcc=s->plastic_model==PlasticModel::MCC||s->plastic_model==PlasticModel::MCCVisc||s->plastic_model==PlasticModel::MCCMui, mui=d[0]==8||d[0]==9; T stat=mui?s->mu_1:s->M;
    auto trial=[&](int kind,int p){ T pc=mcc?s->p0:1000; T P[]={0.4*pc,0.5*pc,1.15*pc,-0.8*pc,-0.02*pc-30,0}, Q[]={0.05*pc,1.3*pc,0.4*pc,0.3*pc,0.9*pc,0}; return trialF(-P[kind]/m.K,Q[kind]/m.em,d[2]+p%3,p%6,(p/6)%6); };
    struct Rec { Snap in; std::vector<TM> F; }; std::vector<Rec> R; Simulation* S=s.get(); observe(*s,[&](T){ int k=R.size(); Rec r; r.in=snap(*S); for(int p=0;p<n;p++){ int q=p; for(int i=0;i<k%NST;i++) q/=K; r.F.push_back(trial(q%K,p)); S->particles.F[p]=r.F.back(); S->particles.v[p].setZero(); S->particles.Bmat[p].setZero(); } R.push_back(r); });
    T dt0=2e-3; s->fps=1/dt0; T dt=step_dt(dt0); s->end_frame=NST; s->simulate(); if (s->exit){ if (may_refuse(*s)) return c.skip(); c.fail("run stopped"); } if ((int)R.size()!=NST) c.fail("%zu steps, expected %d",R.size(),NST); Rec e; e.in=snap(*s); R.push_back(e); c.trans(NST); long flow=0,stc=0;
    for(int k=0;k<NST;k++) for(int p=0;p<n;p++){ const TM& Ft=R[k].F[p]; const Snap& o=R[k+1].in; T mu=o.muI[p]; St st{R[k].in.epd[p],R[k].in.epv[p],R[k].in.prad[p]}; c.state(mixd(mix(mix(d[0],d[1]),p*NST+k),mu)); if (!(mu>=-1e-9&&std::isfinite(mu))) c.fail("step %d: friction %g of particle %d",k,mu,p); Ref r=ref_plastic(*s,m,dt,Ft,st); if (r.band) continue; PQ t=pq(Ft,m), q=pq(o.F[p],m); bool fr=d[0]>=4&&d[0]!=5; // models with a friction of their own
      if (!fr||r.elastic||r.tip){ stc++; if (!(std::abs(mu-stat)<=1e-9)) c.fail("step %d: friction %.9g of particle %d after a step %s, the static friction is %g",k,mu,p,!fr?"of a model without friction of its own":r.elastic?"in the elastic range":"to the tip",stat); continue; }
      if (mui){ if (r.muI>=0&&!(std::abs(mu-r.muI)<=(mcc_implicit(*s)&&mcc?0.06:2e-2))) c.fail("step %d: friction %.9g of particle %d, the flow rate gives %.9g",k,mu,p,r.muI); flow++; continue; }
      if (!mcc){ T sh=s->use_pradhana?-m.K*st.prad:0, pp=t.p+sh; if (pp<=1e-9){ if (!(mu>=stat*(1-1e-6))) c.fail("step %d: friction %g of particle %d that flows in tension, the static friction is %g",k,mu,p,stat); } else { T e=(q.q-s->q_cohesion)/pp; if (!(std::abs(mu-e)<=1e-6*(1+s->E/pp*1e-3))) c.fail("step %d: friction %.9g of particle %d, its stress (p=%g q=%g cohesion %g) mobilises %.9g",k,mu,p,pp,q.q,s->q_cohesion,e); } flow++; continue; }
      bool dl=s->plastic_model==PlasticModel::MCCVisc&&s->use_duvaut_lions_formulation; if (dl) continue; T pc=mcc_pc(*s,m,mcc_implicit(*s)?o.epv[p]:st.epv); T a=q.p+s->beta*pc, b=pc-q.p; if (a<0.03*pc||b<0.03*pc||pc<1) continue; T e2=q.q/std::sqrt(a*b); if (!(std::abs(mu-e2)<=1e-4*e2)) c.fail("step %d: friction %.9g of particle %d, its stress (p=%g q=%g pc=%g) mobilises %.9g",k,mu,p,q.p,q.q,pc,e2); flow++; }
    c.note("%ld flowing, %ld static",flow,stc); }});
  // initial friction of every model
  F.push_back({"initial", {{"model",NM},{"cfg",16},{"stale",2},{"bnd",4}}, [](Ctx& c,const Dig& d){ if (d[0]==1) return c.skip(); auto s=contact_sim(2,1); setmodel(*s,d[0],d[1]); s->use_mibf=true; s->M=0.61+0.01*d[1]; s->mu_1=0.37+0.01*d[1]; s->mu_2=0.95; T e=(d[0]==8||d[0]==9)?s->mu_1:s->M; if (d[2]) for(auto& m:s->particles.muI) m=9; Bnd b=d[3]==0?bplate(2,2,0.05,0):d[3]==1?bplate(0,1,0,0):d[3]==2?bobj(1,2,3):bobj(4,1,0); add_bnd(*s,b);
    std::vector<T> seen; Simulation* S=s.get(); observe(*s,[&](T){ if (seen.empty()) seen=S->particles.muI; }); TV v=TV::Constant(0.4)-1.3*b.n; v(0)+=0.5; T dt=1e-3; TV r=after(*s,v,dt); c.trans(); c.state(mixd(mix(d[0],d[1]),e)); if (seen.empty()) c.fail("no step"); for(T m:seen) if (!(m==e)) c.fail("initial friction %.6g, the static friction of the model is %.6g",m,e); TV w=contact(b.bc,b.n,e,v); if (!(maxabs(TV(r-w))<1e-8)) c.fail("%s: velocity after contact %s, expected %s with friction %g",bname(b).c_str(),str(r).c_str(),str(w).c_str(),e); c.note("friction %g: %s -> %s",e,str(v).c_str(),str(r).c_str()); }});
  contexts(F,{DC_THREADS8,DC_OUTPUT,DC_AFTER,DC_LENGTHS},2);
}}
MC_MAIN
