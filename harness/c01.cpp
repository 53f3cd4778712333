// C01: frames are reached at their time, in order; the run ends
#include "setups.hpp"
#include "ply.hpp"
using namespace mc;
static const T FPS[]={1,10,30,3,7,24,0.3,1000,60,333.3,12.5,1e5};
static void go(Ctx& c,T fps,int ef,T ratio,int motion,T md,int runs,int pbc){
    T dx=0.25, fdt=1/fps; auto x=scaled(cloud(4,off(1)),dx); x.resize(3); auto s=make(x,dx); std::string dir=scratch()+"/c01scratch"; wipe(dir); s->initialize(true,dir+"/","r"); s->min_dt=md; s->fps=fps; s->end_frame=ef;
    T lim=fdt*ratio; TV v=TV::Zero(); T big=1e30; s->E=1e-12*fps*fps; // negligible stiffness for any step
    T cw=std::sqrt(s->E/s->rho);
    // motion 0: at rest, wave limit; 1: uniform, CFL limit; 2: uniform with both; 3: accelerated
    T vm=0.2*dx/fdt/ef; v(0)=vm; v(1)=-0.5*vm; T sp=v.norm();
    s->cfl_elastic = motion==1 ? big : lim*cw/dx; s->cfl = motion==0 ? big : motion==2 ? 1.3*lim*sp/dx : lim*sp/dx; if (motion==0) v.setZero(); if (motion==3){ s->gravity(0)=vm/(fdt*ef)*0.5; s->cfl_elastic=big; }
    if (pbc){ s->pbc=true; s->Lx=10*dx; s->Ly=7*dx;
      #ifdef THREEDIM
      s->Lz=7*dx;
      #endif
      s->save_grid=true; }
    for (auto& w:s->particles.v) w=v;
    T tbase=0; std::vector<TV> xs=x; 
    for (int run=0;run<runs;run++){ std::vector<T> ts; ObjectPlate* cl; if (!run){ cl=observe(*s,[&](T t){ ts.push_back(t); }); } else { cl=s->plates[0].get(); ((Probe*)s->objects[0].get())->cb=[&](T t){ ts.push_back(t-tbase); }; }
      std::vector<TV> vs=s->particles.v; s->simulate(); T end=cl->pos_object-tbase; ts.push_back(end); c.trans(ts.size()-1); tbase=cl->pos_object; for (T t:ts) c.state(mixd(mixd(mix(run,ef),fps),t));
      c.note("fps %g, %d frames, limit %g of a frame: %zu steps, end %.15g",fps,ef,ratio,ts.size()-1,end);
      T tol=1.2*md+1e-12*ef*fdt+1e-13; if (!(std::abs(end-ef*fdt)<=tol)) c.fail("run ended at %.15g, expected %.15g",end,ef*fdt);
      if (s->exit) c.fail("exit flag set");
      // every frame time is the end of a step
      size_t j=0; for (int k=1;k<=ef;k++){ while (j<ts.size()&&ts[j]<k*fdt-tol) j++; if (j>=ts.size()||std::abs(ts[j]-k*fdt)>tol) c.fail("no step ends at frame %d (time %.15g); next is %.15g",k,k*fdt,j<ts.size()?ts[j]:-1); }
      // finitely many steps: limits are respected from below too
      T vmax=sp*(motion==3?1.5:1); T dtmin=std::min(s->cfl_elastic*dx/cw, motion==0?big:s->cfl*dx/vmax); T bound=ef*(std::ceil(std::min<T>(fdt/dtmin,1e7)+1e-6)+2)+2; if (ts.size()-1>bound) c.fail("%zu steps, at most %g expected",ts.size()-1,bound);
      // the files
      auto ls=listdir(dir+"/r"); std::set<std::string> have(ls.begin(),ls.end()); 
      for (int k=0;k<=ef;k++){ std::string f="particles_f"+std::to_string(k)+".ply"; if (!have.count(f)) c.fail("%s was not written",f.c_str()); have.erase(f); auto p=read_ply(dir+"/r/"+f); if(!p.ok) c.fail("%s: %s",f.c_str(),p.err.c_str());
        // position encodes the time at which the frame was written (piecewise exact for uniform motion; bounded for accelerated)
        T t=k*fdt; if (motion!=3&&motion!=0){ T ex=xs[0](0)+v(0)*t; if (pbc) ex-=s->Lx*std::floor(ex/s->Lx); T e=std::abs(p["x"][0]-ex); if (!(e<=1e-9*dx+1.2*md*sp)) c.fail("frame %d was written at time %.12g instead of %.12g",k,(p["x"][0]-xs[0](0))/v(0),t); }
        if (motion==3){ T ex=vs[0](0)+s->gravity(0)*t; if (!(std::abs(p["vx"][0]-ex)<=1e-9*sp+1.2*md*s->gravity(0))) c.fail("frame %d was written at time %.12g instead of %.12g",k,(p["vx"][0]-vs[0](0))/s->gravity(0),t); } 
        if (pbc&&k){ std::string gf="grid_f"+std::to_string(k)+".ply"; if (!have.count(gf)) c.fail("%s was not written",gf.c_str()); } }
      for (auto& f:have) if (f.compare(0,11,"particles_f")==0) c.fail("unexpected file %s",f.c_str());
      xs=s->particles.x; v=s->particles.v[0]; for (auto& f:listdir(dir+"/r")) unlink((dir+"/r/"+f).c_str()); }
    wipe(dir); }
namespace mc { void families(std::vector<Family>& F){
  static const T RA[]={5,1,1.0000001,0.9999999,0.5,1.0/3,0.3,0.0701,0.1};
  static const T MD[]={1e-14,1e-9,1e-3};
  F.push_back({"frames", {{"fps",12},{"end",tier()?40:10},{"ratio",9},{"motion",4},{"mindt",3}}, [](Ctx& c,const Dig& d){ T fps=FPS[d[0]], md=MD[d[4]]*std::min<T>(1,1/fps); go(c,fps,1+d[1],RA[d[2]],d[3],md,1,0); }});
  F.push_back({"many", {{"fps",12},{"end",tier()?6:3},{"ratio",3},{"motion",3}}, [](Ctx& c,const Dig& d){ static const int EF[]={25,50,100,150,300,1000}; go(c,FPS[d[0]],EF[d[1]],d[2]==0?1:d[2]==1?0.3:2,d[3],1e-14*std::min<T>(1,1/FPS[d[0]]),1,0); }});
  F.push_back({"long", {{"fps",4},{"end",tier()?5:3},{"ratio",2},{"motion",2}}, [](Ctx& c,const Dig& d){ static const int EF[]={257,300,1100,2500,5000}; static const T FP[]={30,7,0.3,1000}; go(c,FP[d[0]],EF[d[1]],d[2]?0.6:2,d[3],1e-14*std::min<T>(1,1/FP[d[0]]),1,0); }});
  F.push_back({"again", {{"fps",12},{"end",4},{"ratio",9},{"motion",3},{"pbc",2}}, [](Ctx& c,const Dig& d){ go(c,FPS[d[0]],1+d[1],RA[d[2]],d[3],1e-14,2,d[4]); }});
  contexts(F,{DC_THREADS3,DC_FAR,DC_VM,DC_MCC,DC_AFTER,DC_LENGTHS,DC_UNUSED},2,{"frames","many"});
}}
MC_MAIN
