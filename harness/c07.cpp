// C07: boundaries are never penetrated and act only where there is contact
#include "contact.hpp"
using namespace mc;
static void judge(Ctx& c,const Bnd& b,const TV& v,const TV& w,T sc=1){ TV r=v-b.pv, z=w-b.pv; T vn=r.dot(b.n), zn=z.dot(b.n), tol=1e-9*sc; std::string nm=bname(b);
  if (!(z.norm()<1e6*sc)) c.fail("%s: velocity %s -> %s",nm.c_str(),str(v).c_str(),str(w).c_str());
  if (b.bc==BC::NoSlip&&maxabs(z)>tol) c.fail("%s: no-slip material does not move with the boundary: %s -> %s",nm.c_str(),str(v).c_str(),str(w).c_str());
  if (b.bc==BC::SlipStick&&std::abs(zn)>tol) c.fail("%s: normal relative velocity %g at a stick boundary (%s -> %s)",nm.c_str(),zn,str(v).c_str(),str(w).c_str());
  if (b.bc==BC::SlipFree){ if (vn<=0){ if (std::abs(zn)>tol) c.fail("%s: approaching material has normal relative velocity %g after contact (%s -> %s)",nm.c_str(),zn,str(v).c_str(),str(w).c_str()); } else if (maxabs(TV(z-r))>tol) c.fail("%s: separating material is changed: %s -> %s",nm.c_str(),str(v).c_str(),str(w).c_str()); }
  if (b.bc!=BC::NoSlip&&b.fr==0){ TV t0=r-vn*b.n,t1=z-zn*b.n; if (maxabs(TV(t0-t1))>tol) c.fail("%s: tangential velocity changed without friction: %s -> %s",nm.c_str(),str(v).c_str(),str(w).c_str()); } }
namespace mc { void families(std::vector<Family>& F){
  // the same contact in other surroundings
  F.push_back({"context", {{"cx",NCX},{"b",NPT+NON},{"bc",3},{"fric",3},{"pv",3},{"vel",D==2||tier()?nvel():25}}, [](Ctx& c,const Dig& d){ static const T F3[]={0,0.3,1.4}; static const int PV[]={0,1,4}; bool ob=d[1]>=NPT; if (ob&&d[4]) return c.skip(); if (!tier()&&(d[0]>=15)&&(d[5]+d[3]+d[2])%5) return c.skip(); auto s=cx_make(d[0],1+d[5]%4); Bnd b=ob?bobj(d[1]-NPT,d[2],F3[d[3]]):bplate(d[1],d[2],F3[d[3]],PV[d[4]]); if (d[0]==2) far_bnds(*s); add_bnd(*s,b); if (d[0]==3) far_bnds(*s); TV v=vlat(D==2||tier()?d[5]:d[5]*5+d[5]%5), v0=v; TV w=cx_after(d[0],*s,v,1e-3); c.trans(); c.state(hash(snap(*s))); if (s->exit) c.fail("%s: run stopped",CXN[d[0]]); judge(c,b,v,w); c.note("%s: v %s -> %s",CXN[d[0]],str(v0).c_str(),str(w).c_str()); }});
  // slow creep and fast impact: the same law at every velocity scale
  F.push_back({"scales", {{"b",NPT+NON},{"bc",3},{"fric",3},{"pv",3},{"vel",D==2||tier()?nvel():25},{"scale",5}}, [](Ctx& c,const Dig& d){ static const T SC[]={1e-12,1e-9,1e-6,1e-3,1e4}, F3[]={0,0.3,1.4}; static const int PV[]={0,2,4}; bool ob=d[0]>=NPT; if (ob&&d[3]) return c.skip(); auto s=contact_sim(0,1+d[4]%4); Bnd b=ob?bobj(d[0]-NPT,d[1],F3[d[2]]):bplate(d[0],d[1],F3[d[2]],PV[d[3]]); T sc=SC[d[5]]; b.pv*=sc; add_bnd(*s,b); TV v=vlat(D==2||tier()?d[4]:d[4]*5+d[4]%5)*sc; TV w=after(*s,v,1e-3,sc); c.trans(); c.state(hash(snap(*s))); judge(c,b,v,w,sc); c.note("velocity scale %g: v %s -> %s",sc,str(v).c_str(),str(w).c_str()); }});
  F.push_back({"plate", {{"type",NPT},{"bc",3},{"fric",4},{"pv",NPV},{"vel",nvel()},{"align",2}}, [](Ctx& c,const Dig& d){ auto s=contact_sim(d[5]*2,d[5]*3); Bnd b=bplate(d[0],d[1],FR[d[2]],d[3]); add_bnd(*s,b); TV v=vlat(d[4]); TV w=after(*s,v,1e-3); c.trans(); c.state(hash(snap(*s))); judge(c,b,v,w); c.note("%s plate %s: v %s -> %s",PTN[d[0]],BCN[d[1]],str(v).c_str(),str(w).c_str()); }});
  F.push_back({"object", {{"n",NON},{"bc",3},{"fric",4},{"vel",nvel()},{"align",2}}, [](Ctx& c,const Dig& d){ auto s=contact_sim(d[4]*2,d[4]*3); Bnd b=bobj(d[0],d[1],FR[d[2]]); add_bnd(*s,b); TV v=vlat(d[3]); TV w=after(*s,v,1e-3); c.trans(); c.state(hash(snap(*s))); judge(c,b,v,w); c.note("object %s: v %s -> %s",BCN[d[1]],str(v).c_str(),str(w).c_str()); }});
  // several boundaries act one after the other: objects in list order, then plates in list order
  F.push_back({"pairs", {{"a",NPT+3},{"b",NPT+3},{"bca",3},{"bcb",3},{"fr",2},{"vel",nvel()}}, [](Ctx& c,const Dig& d){ auto s=contact_sim(0,3); auto mk=[&](int k,int bc,int f,int pv){ return k<NPT?bplate(k,bc,f?0.4:0,pv):bobj(1+2*(k-NPT),bc,f?0.3:0); }; Bnd b[2]={mk(d[0],d[2],d[4],4),mk(d[1],d[3],d[4],d[4]?0:1)}; add_bnd(*s,b[0]); add_bnd(*s,b[1]); if (!b[0].obj&&b[1].obj) std::swap(b[0],b[1]);
    TV v=vlat(d[5]); std::vector<TV> ex(1,v); for (auto& x:b){ std::vector<TV> n; for (auto& u:ex){ n.push_back(contact(x.bc,x.n,x.fr,u-x.pv,false)+x.pv); n.push_back(contact(x.bc,x.n,x.fr,u-x.pv,true)+x.pv); } ex=n; } // (friction of a stick boundary on separating material: either convention)
    TV w=after(*s,v,1e-3); c.trans(); c.state(hash(snap(*s))); bool ok=false; for (auto& u:ex) if (maxabs(TV(u-w))<=1e-9) ok=true; if (!ok) c.fail("[%s] then [%s]: v %s -> %s expected %s",bname(b[0]).c_str(),bname(b[1]).c_str(),str(v).c_str(),str(w).c_str(),str(ex[0]).c_str()); }});
  // where there is contact: every plate position and lateral extent on a sub-cell lattice
  F.push_back({"extent", {{"type",NPT},{"bc",3},{"pos",10},{"lo",7},{"hi",7},{"vel",4},{"far",2}}, [](Ctx& c,const Dig& d){ T h=0.5; auto s=make(scaled(cloud(2,off(3)),h),h); s->flip_ratio=0; TV n=plate_normal(PT[d[0]]); T pos=h*(1.37+0.5*d[2]), lo=d[3]==6?-1e15:h*(1.13+0.7*d[3]), hi=d[4]==6?1e15:h*(1.81+0.9*d[4]); TV pv=pvel(4,n); plate(*s,pos,PT[d[0]],BCS[d[1]],0.0,lo,hi,pv(0),pv(1),D==3?pv(D-1):0); int V[]={0,7,13,nvel()-1};
    for (auto& x:s->particles.v) x=vlat(V[d[5]]); T dt=1e-3; Snap in=snap(*s); RefCfg r; r.dx=h; r.dt=step_dt(dt); r.vol=s->particle_volume; r.mass=s->particle_mass; r.flip=0; r.g=TV::Zero(); if (d[6]){ if (!tier()&&(d[3]+d[4])%3) return c.skip(); far_bnds(*s); } ObjectPlate copy(*s->plates[0]); std::vector<std::unique_ptr<ObjectPlate>> pl; pl.push_back(std::make_unique<ObjectPlate>(copy)); r.plates=&pl; s->gravity=TV::Zero();
    anchor(*s); one_step(*s,dt); r.lat=lattice(*s); RefRes R=ref_step(r,in); Snap o=snap(*s); c.trans(); c.state(hash(o)); for (size_t p=0;p<o.n();p++) if (maxabs(TV(o.v[p]-R.s.v[p]))>1e-8) c.fail("plate %s at %g, extent %g..%g: particle at %s gets velocity %s expected %s",PTN[d[0]],pos,lo,hi,str(in.x[p]).c_str(),str(o.v[p]).c_str(),str(R.s.v[p]).c_str()); c.note("plate at %g extent %g..%g: v0 -> %s",pos,lo,hi,str(o.v[0]).c_str()); }});
  // contact is judged at the new position of the node: same for objects
  F.push_back({"surface", {{"n",NON},{"bc",3},{"c",12},{"vel",6},{"scheme",3},{"far",2}}, [](Ctx& c,const Dig& d){ T h=0.5; auto s=make(scaled(cloud(2,off(3)),h),h); static const T FL[]={0,-0.95,0.3}; s->flip_ratio=FL[d[4]]; s->gravity=TV::Zero(); TV n=onormal(d[0]); TV ctr=TV::Constant(3.9*h); T cc=n.dot(ctr)+h*(-3.03+0.55*d[2]); s->objects.push_back(std::make_unique<Slope>(BCS[d[1]],0.0,n,cc)); if (d[5]) far_bnds(*s); int V[]={0,3,7,13,19,nvel()-1}; size_t k=0; for (auto& x:s->particles.v) x=vlat(V[d[3]])*(1+0.1*k++); T dt=1e-2; Snap in=snap(*s); RefCfg r; r.dx=h; r.dt=step_dt(dt); r.vol=s->particle_volume; r.mass=s->particle_mass; r.flip=s->flip_ratio; r.g=TV::Zero(); r.objects=&s->objects;
    anchor(*s); one_step(*s,dt); r.lat=lattice(*s); RefRes R=ref_step(r,in); Snap o=snap(*s); c.trans(); c.state(hash(o)); for (size_t p=0;p<o.n();p++) if (maxabs(TV(o.v[p]-R.s.v[p]))>1e-8||maxabs(TV(o.x[p]-R.s.x[p]))>1e-9) c.fail("object surface n=%s c=%g: particle at %s gets velocity %s expected %s",str(n).c_str(),cc,str(in.x[p]).c_str(),str(o.v[p]).c_str(),str(R.s.v[p]).c_str()); }});
  // whole runs: material driven against a boundary never gets deeper than the kernel radius behind it
  F.push_back({"no-penetration", {{"b",NPT+3},{"bc",3},{"scheme",5},{"musl",2},{"speed",4},{"pv",3},{"fr",2}}, [](Ctx& c,const Dig& d){ static const T FL[]={0,0.95,1,-0.95,-1}; T h=0.5; auto s=make(scaled(cloud(2,off(3)),h),h); s->flip_ratio=FL[d[2]]; s->use_musl=d[3]; bool ob=d[0]>=NPT; TV n=ob?onormal(1+2*(d[0]-NPT)):plate_normal(PT[d[0]]); if (ob&&d[5]) return c.skip(); T fr=d[6]*0.4; TV ctr=TV::Constant(3.9*h); T lvl=n.dot(ctr)-3.0*h; TV pv=d[5]==0?TV(TV::Zero()):pvel(d[5]==1?1:4,n); ObjectPlate* pl=nullptr; if (ob) s->objects.push_back(std::make_unique<Slope>(BCS[d[1]],fr,n,lvl)); else { int a=0; for (int k=0;k<D;k++) if (n(k)!=0) a=k; plate(*s,lvl*n(a),PT[d[0]],BCS[d[1]],fr,-1e15,1e15,pv(0),pv(1),D==3?pv(D-1):0); pl=s->plates.back().get(); }
    static const T SP[]={0.3,1.5,4,9}; TV g=vlat(9); for (size_t p=0;p<s->Np;p++) s->particles.v[p]=-SP[d[4]]*n+0.3*(g-g.dot(n)*n); s->gravity=-2*n; s->E=1e4; s->cfl=0.4; s->cfl_elastic=0.4; s->fps=30; s->end_frame=tier()?40:20; 
    T rad=(SPLINEDEG==3?2.0:1.5)*h; T worst=0; long steps=0; auto depth=[&](){ T m=0; for (auto& x:s->particles.x){ T b=pl?pl->pos_object*(n(0)+n(1)+(D==3?n(D-1):0)):lvl; m=std::max(m,b-n.dot(x)); } return m; }; observe(*s,[&](T){ steps++; worst=std::max(worst,depth()); }); s->simulate(); worst=std::max(worst,depth()); c.trans(steps); c.state(hash(snap(*s))); if (s->exit) c.fail("exit flag set"); if (!(worst<=rad+0.45*h)) c.fail("material is %g behind the boundary (kernel radius %g)",worst,rad); c.note("%ld steps, deepest %g",steps,worst); }});
  contexts(F,{DC_THREADS8,DC_OUTPUT,DC_AFTER,DC_LENGTHS,DC_UNUSED},2,{"scales","plate","object","pairs","extent","surface","no-penetration"});
}}
MC_MAIN
