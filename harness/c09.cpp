// C09: plates move exactly as prescribed, and impose their current velocity
#include "contact.hpp"
using namespace mc;
struct Rec { T t; std::vector<T> pos,lo,hi; TV v; };
static void kin(Ctx& c,SimP s,const Dig& d,int frames,int many){ static const T VM[]={1,4,0.5}, LF[]={0,0.6,1.5,2.3,1e9,1,2,0.5}, FP[]={20,7,160,16,0.5}, CF[]={1e30,0.05,0.31}; bool exact=d[3]>4; s->fps=FP[d[4]]; s->cfl=CF[d[5]]; s->end_frame=frames;
    TV n=plate_normal(PT[d[0]]); TV pv=2*pvel(d[1],n); int a=0; for (int k=0;k<D;k++) if (n(k)!=0) a=k; BC bc=d[6]==0?BC::NoSlip:d[6]==1?BC::SlipStick:BC::SlipFree;
    struct P { TV v; T vm,lf; int a; }; std::vector<P> PL; size_t main=0; auto add=[&](PlateType t,BC b,T pos,T lo,T hi,const TV& v,T vm,T lf){
      #ifdef THREEDIM
      s->plates.push_back(std::make_unique<ObjectPlate>(pos,t,b,0,lo,hi,v(0),v(1),v(2),vm,lf));
      #else
      s->plates.push_back(std::make_unique<ObjectPlate>(pos,t,b,0,lo,hi,v(0),v(1),vm,lf));
      #endif
      TV nn=plate_normal(t); int ax=0; for (int k=0;k<D;k++) if (nn(k)!=0) ax=k; PL.push_back({v,vm,lf,ax}); };
    auto crowd=[&](){ for (int k=0;k<NPT;k++){ TV nn=plate_normal(PT[k]); int ax=0; for (int j=0;j<D;j++) if (nn(j)!=0) ax=j; add(PT[k],BCS[k%3],-(300+20*k)*nn(ax),-2-k,3+k,(0.3+0.1*k)*pvel(k%5,nn),1+0.5*k,0.4*k); } };
    if (many==1) crowd(); main=PL.size();
    add(PT[d[0]],bc,500*n(a),-1000,1000,pv,VM[d[2]],LF[d[3]]); // in contact everywhere
    int o=(d[0]+3)%NPT; TV n2=plate_normal(PT[o]); int a2=0; for (int k=0;k<D;k++) if (n2(k)!=0) a2=k; TV pv2=-0.7*pvel(4,n2); add(PT[o],BC::SlipFree,-600*n2(a2),-2,3,pv2,3,0.9); if (many==2) crowd(); // never in contact
    TV v0=d[5]==2?vlat(8):TV(0.4*vlat(17)); for (auto& x:s->particles.v) x=v0; 
    std::vector<Rec> R; auto rec=[&](T t){ Rec r; r.t=t; for (size_t k=0;k<PL.size();k++){ r.pos.push_back(s->plates[k]->pos_object); r.lo.push_back(s->plates[k]->pos_lower); r.hi.push_back(s->plates[k]->pos_upper); } r.v=s->particles.v[0]; R.push_back(r); };
    ObjectPlate* ck=observe(*s,rec); s->simulate(); rec(ck->pos_object); c.trans(R.size()-1); c.state(hash(snap(*s)));
    if (s->exit) c.fail("exit flag set"); if (R.size()<(size_t)s->end_frame) c.fail("only %zu steps seen",R.size()); T fdt=1.0/s->fps;
    for (size_t k=0;k+1<R.size();k++){ T t0=R[k].t,t1=R[k+1].t,dt=t1-t0; std::vector<TV> used;
      for (size_t q=0;q<PL.size();q++){ TV nom=PL[q].v; T vm=PL[q].vm, lf=PL[q].lf*fdt; int ax=PL[q].a; T dn=(R[k+1].pos[q]-R[k].pos[q])/dt, tol=1e-9*1000/dt+1e-9; // (positions up to 1000)
        T lo=(R[k+1].lo[q]-R[k].lo[q])/dt, hi=(R[k+1].hi[q]-R[k].hi[q])/dt; TV slow=nom/vm; bool cs=t0<lf-1e-9*fdt, cn=t1>lf+1e-9*fdt; if (exact&&t0==lf){ cs=false; cn=true; } else if (t0>=lf-1e-9&&t0<lf+1e-9) cs=cn=true; bool ok=false; for (int z=0;z<2;z++){ if (z==0&&!cs) continue; if (z==1&&!cn&&cs) continue; TV x=z==0?slow:nom; T lat=ax==2?0:x(1-ax); if (std::abs(dn-x(ax))<=tol&&std::abs(lo-lat)<=tol&&std::abs(hi-lat)<=tol){ ok=true; if (q==main) used.push_back(x); } }
        if (!ok) c.fail("plate %zu (axis %d) in the step from %.9g to %.9g (loading until %.9g, factor %g): moved at %.9g, extents at %.9g and %.9g; nominal velocity %s",q,ax,t0,t1,lf,vm,dn,lo,hi,str(nom).c_str()); }
      // velocity imposed on the material in this step
      TV w=R[k+1].v; bool ok=false; for (auto& u:used){ if (bc==BC::NoSlip) ok|=maxabs(TV(w-u))<=1e-8; else { T zn=(w-u).dot(n), vn=(R[k].v+dt*s->gravity-u).dot(n); ok|=(bc==BC::SlipStick||vn<=0)?std::abs(zn)<=1e-8:zn>=-1e-8; } }
      if (!ok) c.fail("step from %.9g to %.9g: material in contact moves with %s while the plate moves with %s (nominal %s, loading until %.9g)",t0,t1,str(w).c_str(),str(used[0]).c_str(),str(pv).c_str(),LF[d[3]]*fdt); }
    c.note("%zu steps, last plate position %g",R.size()-1,R.back().pos[main]); }
namespace mc { void families(std::vector<Family>& F){
  // several plates at once, observed at every step; all nodes are inside the no-slip plate number 0
  F.push_back({"kinematics", {{"type",NPT},{"pv",NPV},{"vmin",3},{"load",5},{"fps",3},{"cfl",3},{"contact",3},{"musl",2}}, [](Ctx& c,const Dig& d){ auto s=contact_sim(2,3,0); s->use_musl=d[7]; kin(c,std::move(s),d,tier()?6:4,0); }});
  // steps and frames of dyadic length: a step starts exactly at the end of the loading phase
  F.push_back({"tie", {{"type",NPT},{"pv",NPV},{"vmin",2},{"load",3},{"fps",2},{"half",2},{"contact",3},{"musl",2}}, [](Ctx& c,const Dig& d){ if (d[3]==2&&!d[5]) return c.skip(); auto s=contact_sim(2,3,0); s->use_musl=d[7]; s->E=s->rho=1000; T fdt=d[4]?2:0.0625; s->cfl_elastic=d[5]?0.5*fdt/s->dx:1e30; Dig e=d; e[2]=1+d[2]; e[3]=5+d[3]; e[4]=3+d[4]; e[5]=0; kin(c,std::move(s),e,4,0); }});
  // other surroundings: threads, MUSL, gravity, periodic, schemes, models, output, many frames, particles and plates
  F.push_back({"context", {{"type",NPT},{"pv",NPV},{"vmin",3},{"load",5},{"fps",1},{"cfl",3},{"contact",3},{"cx",NCX}}, [](Ctx& c,const Dig& d){ int k=d[7]; if (k==14||k==7) return c.skip(); auto s=cx_make(k,3); if (k==15) s->initialize(true,cx_dir()+"/","r"); s->cfl_elastic=1e30; kin(c,std::move(s),d,k==16?60:4,k==2||k==5?1:k==3||k==4?2:0); }});
  contexts(F,{DC_THREADS8,DC_AFTER,DC_LENGTHS,DC_UNUSED},2,{"kinematics"});
}}
MC_MAIN
