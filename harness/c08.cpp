// C08: boundary friction obeys Coulomb's law
#include "contact.hpp"
using namespace mc;
static void judge(Ctx& c,const Bnd& b,const TV& v,const TV& w,T sc=1){ TV r=v-b.pv, z=w-b.pv; T vn=r.dot(b.n), tol=1e-9*sc; TV t0=r-vn*b.n, t1=z-z.dot(b.n)*b.n; T m0=t0.norm(), m1=t1.norm(); std::string nm=bname(b);
  if (!(z.norm()<1e6*sc)) c.fail("%s: velocity %s -> %s",nm.c_str(),str(v).c_str(),str(w).c_str());
  if (b.bc==BC::NoSlip) return; 
  if (m1>m0+tol) c.fail("%s: tangential speed increased %g -> %g (%s -> %s)",nm.c_str(),m0,m1,str(v).c_str(),str(w).c_str());
  if (m1>tol&&(t1-t0*(m1/m0)).norm()>tol) c.fail("%s: tangential velocity turned: %s -> %s",nm.c_str(),str(t0).c_str(),str(t1).c_str());
  if (vn>0&&b.bc==BC::SlipStick) return; // friction on separating stick contact is not specified
  T app=std::max<T>(0,-vn), ex=std::max<T>(0,m0-b.fr*app); if (std::abs(m1-ex)>tol) c.fail("%s: tangential speed %.9g -> %.9g, Coulomb friction gives %.9g (normal approach %.9g; v %s -> %s)",nm.c_str(),m0,m1,ex,app,str(v).c_str(),str(w).c_str()); }
static const T FRC[]={0,1e-6,0.05,0.15,0.5,1,2.5,100};
namespace mc { void families(std::vector<Family>& F){
  // the same contact in other surroundings
  F.push_back({"context", {{"cx",NCX},{"b",NPT+NON},{"bc",3},{"fric",3},{"pv",3},{"vel",D==2||tier()?nvel():25}}, [](Ctx& c,const Dig& d){ static const T F3[]={0,0.3,1.4}; static const int PV[]={0,1,4}; bool ob=d[1]>=NPT; if (ob&&d[4]) return c.skip(); if (!tier()&&(d[0]>=15)&&(d[5]+d[3]+d[2])%5) return c.skip(); auto s=cx_make(d[0],1+d[5]%4); Bnd b=ob?bobj(d[1]-NPT,d[2],F3[d[3]]):bplate(d[1],d[2],F3[d[3]],PV[d[4]]); if (d[0]==2) far_bnds(*s); add_bnd(*s,b); if (d[0]==3) far_bnds(*s); TV v=vlat(D==2||tier()?d[5]:d[5]*5+d[5]%5), v0=v; TV w=cx_after(d[0],*s,v,1e-3); c.trans(); c.state(hash(snap(*s))); if (s->exit) c.fail("%s: run stopped",CXN[d[0]]); judge(c,b,v,w); c.note("%s: v %s -> %s",CXN[d[0]],str(v0).c_str(),str(w).c_str()); }});
  // slow creep and fast impact: the same law at every velocity scale
  F.push_back({"scales", {{"b",NPT+NON},{"bc",3},{"fric",3},{"pv",3},{"vel",D==2||tier()?nvel():25},{"scale",5}}, [](Ctx& c,const Dig& d){ static const T SC[]={1e-12,1e-9,1e-6,1e-3,1e4}, F3[]={0,0.3,1.4}; static const int PV[]={0,2,4}; bool ob=d[0]>=NPT; if (ob&&d[3]) return c.skip(); auto s=contact_sim(0,1+d[4]%4); Bnd b=ob?bobj(d[0]-NPT,d[1],F3[d[2]]):bplate(d[0],d[1],F3[d[2]],PV[d[3]]); T sc=SC[d[5]]; b.pv*=sc; add_bnd(*s,b); TV v=vlat(D==2||tier()?d[4]:d[4]*5+d[4]%5)*sc; TV w=after(*s,v,1e-3,sc); c.trans(); c.state(hash(snap(*s))); judge(c,b,v,w,sc); c.note("velocity scale %g: v %s -> %s",sc,str(v).c_str(),str(w).c_str()); }});
  F.push_back({"plate", {{"type",NPT},{"bc",3},{"fric",8},{"pv",NPV},{"vel",nvel()}}, [](Ctx& c,const Dig& d){ auto s=contact_sim(0,d[4]%5); Bnd b=bplate(d[0],d[1],FRC[d[2]],d[3]); add_bnd(*s,b); TV v=vlat(d[4]); TV w=after(*s,v,1e-3); c.trans(); c.state(hash(snap(*s))); judge(c,b,v,w); c.note("%s plate %s: v %s -> %s",PTN[d[0]],BCN[d[1]],str(v).c_str(),str(w).c_str()); }});
  F.push_back({"object", {{"n",NON},{"bc",3},{"fric",8},{"vel",nvel()}}, [](Ctx& c,const Dig& d){ auto s=contact_sim(0,d[3]%5); Bnd b=bobj(d[0],d[1],FRC[d[2]]); add_bnd(*s,b); TV v=vlat(d[3]); TV w=after(*s,v,1e-3); c.trans(); c.state(hash(snap(*s))); judge(c,b,v,w); c.note("object %s: v %s -> %s",BCN[d[1]],str(v).c_str(),str(w).c_str()); }});
  // exactly at the sliding limit, just below and just above
  F.push_back({"limit", {{"b",NPT+NON},{"bc",2},{"fric",5},{"dir",8},{"side",5}}, [](Ctx& c,const Dig& d){ static const T F5[]={0.1,0.25,0.5,1,3}; T fr=F5[d[2]]; Bnd b=d[0]<NPT?bplate(d[0],1+d[1],fr,0):bobj(d[0]-NPT,1+d[1],fr); TV g; for (int k=0;k<D;k++) g(k)=std::cos(0.7*d[3]+1.3*k); TV t=g-g.dot(b.n)*b.n; if (t.norm()<1e-3) return c.skip(); t.normalize(); static const T SD[]={0.5,0.999,1,1.001,2}; TV v=-b.n*0.8+t*(0.8*fr*SD[d[4]]); auto s=contact_sim(0,1); add_bnd(*s,b); TV w=after(*s,v,1e-3); c.trans(); c.state(hash(snap(*s))); judge(c,b,v,w); }});
  // sliding block: friction accumulates step by step as mu times the normal load
  F.push_back({"sliding", {{"type",NPT},{"bc",2},{"fric",4},{"scheme",5},{"vt",3},{"steps",3}}, [](Ctx& c,const Dig& d){ static const T FL[]={0,0.95,1,-0.95,-1}; auto s=contact_sim(0,3,FL[d[3]]); Bnd b=bplate(d[0],1+d[1],FR[d[2]],0); add_bnd(*s,b); TV t=TV::Zero(); for (int k=0;k<D;k++) t(k)=b.n(k)==0?(k==2?0.6:1):0; static const T VT[]={2,0.05,0.4}; T v0=VT[d[4]]; TV g=-9.81*b.n; s->particles.v[0]=v0*t.normalized(); s->gravity=g; T dt=2e-3; int n=d[5]==0?1:d[5]==1?5:12; s->fps=1/dt; s->end_frame=n; s->simulate(); c.trans(n); c.state(hash(snap(*s))); T ex=std::max<T>(0,v0-n*FR[d[2]]*9.81*step_dt(dt)); TV w=s->particles.v[0]; if (maxabs(TV(w-ex*t.normalized()))>1e-8) c.fail("plate %s friction %g, %d steps: velocity %s expected %s",PTN[d[0]],FR[d[2]],n,str(w).c_str(),str(TV(ex*t.normalized())).c_str()); }});
  // steep and grazing incidence: the tangential part many orders smaller or larger than the normal part
  F.push_back({"incidence", {{"b",NPT+NON},{"bc",3},{"fric",5},{"dir",4},{"ratio",7},{"out",2}}, [](Ctx& c,const Dig& d){ static const T F5[]={0,0.1,0.5,1,3}, R[]={1e-9,1e-7,1e-5,1e-3,1e2,1e4,1e6}; T fr=F5[d[2]]; Bnd b=d[0]<NPT?bplate(d[0],d[1],fr,0):bobj(d[0]-NPT,d[1],fr); TV g; for (int k=0;k<D;k++) g(k)=std::cos(0.7*d[3]+1.3*k); TV t=g-g.dot(b.n)*b.n; if (t.norm()<1e-3) return c.skip(); t.normalize(); T r=R[d[4]]; T vn=r<1?0.8:0.8/r, vt=r<1?0.8*r:0.8; TV v=(d[5]?1:-1)*b.n*vn+t*vt; auto s=contact_sim(0,1+d[3]); add_bnd(*s,b); TV w=after(*s,v,1e-3); c.trans(); c.state(hash(snap(*s))); judge(c,b,v,w); c.note("tangential/normal %g: v %s -> %s",r,str(v).c_str(),str(w).c_str()); TV wt=w-w.dot(b.n)*b.n; if (d[1]>0&&!d[5]&&r<1&&fr>0&&r<=fr&&wt.norm()>1e-12) c.fail("friction %g, tangential/normal %g: tangential velocity %.3g is left, expected none",fr,r,wt.norm()); }});
  contexts(F,{DC_THREADS8,DC_OUTPUT,DC_AFTER,DC_LENGTHS,DC_UNUSED},2,{"scales","plate","object","limit","sliding"});
}}
MC_MAIN
