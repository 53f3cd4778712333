// C22: unusable set-ups are refused; fatal errors stop the run
#include "matcheck.hpp"
#include "contact.hpp"
#include "ply.hpp"
using namespace mc;
static const int NM=10;
static void setmodel(Simulation& s,int m,int k){ if (m==0){ common_mat(s); s.plastic_model=PlasticModel::NoPlasticity; s.elastic_model=k%2?ElasticModel::NeoHookean:ElasticModel::Hencky; } else if (m<5) cfg_ri(s,m-1,k%NCFG_RI[m-1]); else cfg_vi(s,m-5,k%NCFG_VI[m-5]); }
struct Full { Snap s; std::vector<TV> pic,flip; unsigned Np; std::vector<T> pl; T dx; };
static Full full(const Simulation& s){ Full f; f.s=snap(s); f.pic=s.particles.pic; f.flip=s.particles.flip; f.Np=s.Np; f.dx=s.dx; for(auto& p:s.plates){ f.pl.push_back(p->pos_object); f.pl.push_back(p->pos_lower); f.pl.push_back(p->pos_upper); } return f; }
template <class V> static bool eqv(const V& a,const V& b){ if (a.size()!=b.size()) return false; for(size_t i=0;i<a.size();i++) if (std::memcmp(&a[i],&b[i],sizeof(a[i]))!=0&&!(a[i]==b[i])) return false; return true; }
static const char* differs(const Full& a,const Full& b){ if (a.Np!=b.Np) return "number of particles"; if (!eqv(a.s.x,b.s.x)) return "x"; if (!eqv(a.s.v,b.s.v)) return "v"; if (!eqv(a.s.F,b.s.F)) return "F"; if (!eqv(a.s.B,b.s.B)) return "Bmat"; if (!eqv(a.s.tau,b.s.tau)) return "tau"; if (!eqv(a.s.epd,b.s.epd)||!eqv(a.s.epv,b.s.epv)||!eqv(a.s.prad,b.s.prad)) return "plastic strain"; if (!eqv(a.s.dg,b.s.dg)) return "delta_gamma"; if (!eqv(a.s.visc,b.s.visc)) return "viscosity"; if (!eqv(a.s.muI,b.s.muI)) return "muI"; if (!eqv(a.pic,b.pic)||!eqv(a.flip,b.flip)) return "pic/flip"; if (!eqv(a.pl,b.pl)) return "plates"; return nullptr; }
static int frames_in(const std::string& o){ int n=0; for(auto& f:listdir(o)) if (f.compare(0,11,"particles_f")==0||f.compare(0,6,"grid_f")==0) n++; return n; }
static void mkfile(const std::string& f){ std::ofstream o(f); o<<"x"; }
static void fill(Simulation& s){ for(size_t p=0;p<s.Np;p++){ s.particles.v[p]=gvec(p,21,0.6); s.particles.Bmat[p]=gmat(p,31,0.1*s.dx*s.dx); s.particles.F[p]=trialF(-0.01*gen(p,5),0.02*gen(p,6),p,p,p+1); s.particles.tau[p]=gsym(p,51,200); s.particles.eps_pl_dev[p]=0.01*gen(p,9); s.particles.muI[p]=0.1*p; s.particles.delta_gamma[p]=1+p; s.particles.viscosity[p]=2+p; s.particles.pic[p]=gvec(p,3,1); s.particles.flip[p]=gvec(p,4,1); } }
// initialise a simulation made by the harness: 0 never, 1 without output, 2 with a good folder, 3.. folders that cannot be set up
static const int NIN=7;
static bool initialise(Simulation& s,int how,const std::string& base){ s.is_initialized=false; s.save_sim=false; s.exit=0; wipe(base); mkdir(base.c_str(),0777); switch(how){ case 0: return false; case 1: s.initialize(false); return true; case 2: s.initialize(true,base+"/","out"); return true;
  case 3: { s.initialize(true,base+"/missing/deeper/","out"); struct stat st; return stat((base+"/missing/deeper/out").c_str(),&st)==0&&S_ISDIR(st.st_mode); } // parent folder does not exist: refused, unless the folder is there afterwards
  case 4: mkfile(base+"/file"); s.initialize(true,base+"/file/","out"); return false; // the folder is a file
  case 5: mkfile(base+"/out"); s.initialize(true,base+"/","out"); return false; // the simulation folder is a file
  default: mkdir((base+"/out").c_str(),0777); mkdir((base+"/out/initial_setup.cpp").c_str(),0777); s.initialize(true,base+"/","out"); return false; } }
static void boundary(Simulation& s,int b){ T dx=s.dx; if (b==1) plate(s,3.4*dx,PlateType::bottom,BC::SlipFree,0.3,-1e15,1e15,0.1,0.2,0.3); if (b==2){ TV n=TV::Zero(); n(0)=-0.3; n(1)=1; s.objects.push_back(std::make_unique<Slope>(BC::SlipFree,0.3,n,2.6*dx)); } }
namespace mc { void families(std::vector<Family>& F){
  F.push_back({"refused", {{"init",NIN},{"model",NM},{"law",2},{"mibf",2},{"musl",2},{"pbc",2},{"bnd",3}}, [](Ctx& c,const Dig& d){ std::string base=scratch()+"/c22scratch"; T dx=0.25; auto x=scaled(cloud(2,off(3)),dx); if (d[5]) for(auto& p:x) p(0)-=3*dx; auto s=make(x,dx); setmodel(*s,d[1],2); s->elastic_model=d[2]?ElasticModel::NeoHookean:ElasticModel::Hencky; s->use_mibf=d[3]; s->use_musl=d[4]; if (d[5]){ s->pbc=true; s->Lx=10*dx; s->Ly=9*dx;
     #ifdef THREEDIM
     s->Lz=9*dx;
     #endif
    } boundary(*s,d[6]); fill(*s); long steps=0; bool ok=initialise(*s,d[0],base); s->reduce_verbose=true; observe(*s,[&](T){ steps++; }); bool comp=!d[2]||d[1]==0; Full a=full(*s); s->fps=500; s->end_frame=2; 
    for(int rep=0;rep<2;rep++){ s->simulate(); c.trans(); Full b=full(*s); if (ok&&comp){ if (s->exit&&may_refuse(*s)) { c.skip(); break; } if (s->exit) c.fail("healthy run set the exit flag"); if (steps<2) c.fail("healthy run made %ld steps",steps); if (d[0]==2&&frames_in(base+"/out")!=3) c.fail("healthy run wrote %d frames, expected 3",frames_in(base+"/out")); break; }
      if (steps) c.fail("%ld steps were simulated although the set-up is unusable",steps); if (const char* w=differs(a,b)) c.fail("%s changed although the set-up is unusable",w); if (nsteps(*s)!=0) c.fail("steps were counted"); if (frames_in(base+"/out")||frames_in(base)) c.fail("frames were written although the set-up is unusable"); }
    c.state(mix(mix(mix(d[0],d[1]),d[2]*8+d[3]*4+d[4]*2+d[5]),d[6])); c.note("initialised %d, compatible %d: %ld steps",ok,comp,steps); wipe(base); }});
  // after the set-up was corrected the run is as if nothing had happened
  F.push_back({"corrected", {{"model",NM},{"error",2},{"musl",2},{"tries",3}}, [](Ctx& c,const Dig& d){ Full R[2]; for(int q=0;q<2;q++){ T dx=0.25; auto s=make(scaled(cloud(2,off(3)),dx),dx); setmodel(*s,d[0],2); s->elastic_model=ElasticModel::Hencky; s->use_musl=d[2]; boundary(*s,1); fill(*s); s->fps=500; s->end_frame=3; if (q) for(int t=0;t<=d[3];t++){ if (d[1]){ s->elastic_model=ElasticModel::NeoHookean; if (d[0]==0) return c.skip(); } else s->is_initialized=false; s->simulate(); c.trans(); } s->elastic_model=ElasticModel::Hencky; s->initialize(false); s->simulate(); c.trans(3); R[q]=full(*s); c.state(hash(R[q].s)); } if (const char* w=differs(R[0],R[1])) c.fail("%s differs from a run without the refused attempts",w); c.note("same run after %d refused attempts",d[3]+1); }});
  // a fatal error in step k
  F.push_back({"fatal", {{"kind",9},{"step",tier()?16:10},{"ratio",3},{"musl",2},{"pbc",2},{"thr",2},{"who",3},{"grid",2}}, [](Ctx& c,const Dig& d){ std::string base=scratch()+"/c22scratch"; wipe(base); int kind=d[0],kf=d[1]; T dx=0.25; auto x=scaled(cloud(2,off(3)),dx); size_t n=x.size(); if (d[4]) for(auto& p:x) p(0)-=3*dx;  if (d[7]&&d[6]) return c.skip();
    auto s=make(x,dx); static const int MO[]={0,0,4,7,9,5,6,7,7}; setmodel(*s,MO[kind],0); s->elastic_model=ElasticModel::Hencky; s->initialize(true,base+"/","out"); s->save_grid=d[7]; s->reduce_verbose=true; s->n_threads=d[5]?3:1; s->use_musl=d[3]; s->flip_ratio=-0.95; if (d[4]){ s->pbc=true; s->Lx=10*dx; s->Ly=9*dx;
     #ifdef THREEDIM
     s->Lz=9*dx;
     #endif
    } s->gravity=TV::Zero(); s->visc_exponent=1; s->use_duvaut_lions_formulation=false; if (kind>=5) { s->visc_time=1e-3; s->xi=0; }
    // only particle 'who' (or all) is stressed
    size_t who=d[6]==0?0:n-1; if (kind>=2) for(size_t p=0;p<n;p++) if (d[6]==2||p==who) s->particles.F[p]=trialF(-0.02,0.05,1,2,3);
    T xm=x[0](0),xM=xm; for(auto& p:x){ xm=std::min(xm,p(0)); xM=std::max(xM,p(0)); } // the whole width, or only the right or left end of the grid
    if (d[4]&&kind<2&&d[6]) return c.skip(); if (kind==0){ if (d[6]==0) plate(*s,4*dx,PlateType::bottom,BC::SlipFree,0.2,-1e15,1e15,0,0,0); else if (d[6]==1) plate(*s,xM+0.3*dx,PlateType::right,BC::SlipFree,0.2,-1e15,1e15,0,0,0); else plate(*s,xm-0.3*dx,PlateType::left,BC::SlipFree,0.2,-1e15,1e15,0,0,0); } if (kind==1){ TV nn=TV::Zero(); nn(d[6]?0:1)=d[6]==1?-1:1; s->objects.push_back(std::make_unique<Slope>(BC::SlipFree,0.2,nn,d[6]==0?4*dx:d[6]==1?-(xM+0.3*dx):xm-0.3*dx)); }
    long steps=0; Simulation* S=s.get(); std::vector<TM> F0; auto fault=[&](){ switch(kind){ case 0: S->plates[0]->bc=(BC)7; break; case 1: S->objects[0]->bc=(BC)7; break; case 2: case 3: case 4: S->hardening_law=(HardeningLaw)9; break; case 5: case 6: case 7: S->visc_exponent=2; S->visc_time=NAN; break; default: S->use_duvaut_lions_formulation=true; S->visc_exponent=kf%2?2:0.5; } };
    // step kf is the first one that meets the error: the stress that makes a particle yield is also put in then
    auto body=[&](T){ if (steps==kf&&kind>=2){ fault(); for(size_t p=0;p<n;p++) if (d[6]==2||p==who) S->particles.F[p]=trialF(-0.02,0.05,1,2,3); } if (steps==kf-1&&kind<2){} steps++; };
    if (kind<2){ // boundary conditions are looked at in the same sweep as the probe: the probe is the first object
      ObjectPlate* cl=add_clock(*s); s->objects.insert(s->objects.begin(),std::make_unique<Probe>(cl,[&](T){ if (steps==kf){ if (kind==0) S->plates[0]->bc=(BC)7; else S->objects[1]->bc=(BC)7; } steps++; })); }
    else observe(*s,body);
    int ratio=1+d[2]; T fps=500; s->fps=fps; s->end_frame=6; s->cfl_elastic=std::sqrt(s->E/s->rho)/dx/fps/ratio*1.0001; long total=6*ratio; s->simulate(); c.trans(steps); std::string o=base+"/out"; int np=0,ng=0,topf=-1; for(auto& f:listdir(o)){ int k; if (sscanf(f.c_str(),"particles_f%d.ply",&k)==1){ np++; topf=std::max(topf,k); } if (sscanf(f.c_str(),"grid_f%d.ply",&k)==1) ng++; }
    if (kf>=total){ if (s->exit) c.fail("healthy run set the exit flag"); if (steps!=total||np!=7) c.fail("healthy run made %ld of %ld steps and wrote %d frames",steps,total,np); wipe(base); c.note("healthy"); return; }
    if (!s->exit) c.fail("step %d met a fatal error but the exit flag is not set",kf); if (steps!=kf+1) c.fail("fatal error in step %d but %ld steps were begun",kf,steps); int want=kf/ratio+1; if (np!=want||topf!=want-1) c.fail("fatal error in step %d of %d per frame: %d frames on disk (last %d), expected %d",kf,ratio,np,topf,want); if (d[7]&&ng!=want-1) c.fail("%d grid files, expected %d",ng,want-1); std::string m; if (slurp(o+"/last_written.txt",m)&&atoi(m.c_str())!=want-1) c.fail("the marker names frame %s, last one is %d",m.c_str(),want-1);
    Full a=full(*s); long st=steps; s->simulate(); c.trans(); if (steps!=st) c.fail("the run went on after the fatal error"); if (const char* w=differs(a,full(*s))) c.fail("%s changed after the fatal error",w); c.state(mix(mix(mix(kind,kf),ratio),d[3]*32+d[4]*16+d[5]*8+d[6]*2+d[7])); c.note("error kind %d in step %d: %d frames on disk",kind,kf,np); wipe(base); }});
  // healthy runs never set the flag
  F.push_back({"healthy", {{"model",NM},{"cfg",tier()?120:24},{"bnd",3},{"musl",2},{"mibf",2},{"thr",2}}, [](Ctx& c,const Dig& d){ T dx=0.25; auto s=make(scaled(cloud(2,off(3)),dx),dx); setmodel(*s,d[0],d[1]*5+d[1]/24); s->initialize(false); s->reduce_verbose=true; boundary(*s,d[2]); s->use_musl=d[3]; s->use_mibf=d[4]; s->n_threads=d[5]?3:1; fill(*s); for(auto& m:s->particles.tau) m.setZero(); s->gravity=TV::Zero(); s->gravity(1)=-9.81; long steps=0; observe(*s,[&](T){ steps++; }); s->fps=500; s->end_frame=4; s->simulate(); c.trans(steps); c.state(hash(snap(*s))); if (s->exit){ if (may_refuse(*s)||(s->plastic_model==PlasticModel::MCCVisc&&s->use_duvaut_lions_formulation&&s->visc_exponent!=1)) return c.skip(); c.fail("healthy run of model %d stopped with the exit flag after %ld steps",d[0],steps); } if (steps<4) c.fail("run made only %ld steps",steps); c.note("%ld steps",steps); }});
  contexts(F,{DC_AFTER,DC_LENGTHS},2);
}}
MC_MAIN
