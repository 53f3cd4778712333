// C19: surfaces and normals of the objects
#include "vdb.hpp"
#include "objects/object_bump.hpp"
#include "objects/object_curve.hpp"
#include "objects/object_gate.hpp"
#include "objects/object_ground.hpp"
#include "objects/object_ramp.hpp"
#ifdef THREEDIM
#include "objects/object_silo.hpp"
#endif
using namespace mc;
// documented surface of the analytic objects as y = f(x) (f' analytic); solid below (side=1) or above (side=-1)
struct Surf { const char* name; T (*f)(T,T); T (*df)(T,T); int side; };
static const Surf SF[]={
 {"ground",[](T,T p){ return p; },[](T,T){ return T(0); },1},
 {"curve",[](T x,T){ return x*x; },[](T x,T){ return 2*x; },1},
 {"bump",[](T x,T){ return T(0.0475/std::cosh(25*(x-0.43))); },[](T x,T){ T a=25*(x-0.43); return T(-0.0475*25*std::sinh(a)/(std::cosh(a)*std::cosh(a))); },1},
 {"gate",[](T x,T p){ return p+100*x*x; },[](T x,T){ return 200*x; },-1},
 {"ramp",[](T x,T){ return T(0.1*std::tanh(-100*x)); },[](T x,T){ T t=std::tanh(100*x); return T(-10*(1-t*t)); },1}};
static std::unique_ptr<ObjectGeneral> mk(int k,BC bc,T fr,int prm,T& p){ static const T PG[]={0,0.3,-1.7,12}; static const T PH[]={0.016,0.05,0.4,0};
  switch(k){ case 0: p=PG[prm]; return prm?std::unique_ptr<ObjectGeneral>(new ObjectGround(bc,fr,"n",p)):std::unique_ptr<ObjectGeneral>(new ObjectGround(bc,fr,"n")); case 1: p=0; return std::unique_ptr<ObjectGeneral>(new ObjectCurve(bc,fr,"n")); case 2: p=0; return std::unique_ptr<ObjectGeneral>(new ObjectBump(bc,fr,"n"));
   case 3: p=PH[prm]; return prm?std::unique_ptr<ObjectGeneral>(new ObjectGate(bc,fr,"n",p)):std::unique_ptr<ObjectGeneral>(new ObjectGate(bc,fr,"n")); default: p=0; return std::unique_ptr<ObjectGeneral>(new ObjectRamp(bc,fr,"n")); } }
// the returned vector is built in memory that held something else before: components that are never set show
static TV normal_at(const ObjectGeneral* volatile o,const TV& X,int fill){ struct alignas(64) B { char b[sizeof(TV)]; } mem; T junk= fill==0?3.7:fill==1?-1e5:0.25; for(int i=0;i<D;i++) std::memcpy(mem.b+i*sizeof(T),&junk,sizeof(T)); asm volatile("" : : "r"(&mem) : "memory"); TV* q=new(mem.b) TV(o->normal(X)); TV r=*q; return r; }
static const T ST[]={0,1e-9,1e-6,1e-4,1e-3,0.01,0.05,0.2,0.7,2.5,20};
namespace mc { void families(std::vector<Family>& F){
  on_worker_start()=[]{ openvdb::initialize(); };
  int NX=tier()?20001:2001, SUB=tier()?9:3;
  F.push_back({"surface", {{"object",5},{"param",4},{"x",NX},{"bc",3}}, [SUB](Ctx& c,const Dig& d){ if (d[1]&&d[0]!=0&&d[0]!=3) return c.skip(); if (d[3]&&d[2]%100) return c.skip(); T p; static const BC B[]={BC::NoSlip,BC::SlipFree,BC::SlipStick}; auto o=mk(d[0],B[d[3]],0.1*d[3],d[1],p); if (o->bc!=B[d[3]]||o->friction!=0.1*d[3]||o->name!="n") c.fail("object does not keep its boundary condition, friction or name"); const Surf& S=SF[d[0]];
    T span=d[0]==4?0.2:d[0]==3?0.6:2; int n=(tier()?20001:2001); T x=(d[2]-n/2)*span/(n/2)+ (d[0]==2?0.43:0); T y0=S.f(x,p), dy=S.df(x,p); TV en=TV::Zero(); en(0)=-dy; en(1)=1; en*=S.side; en/=std::sqrt(1+dy*dy);
    for(int sgn=-1;sgn<=1;sgn+=2) for(int k=0;k<11;k++) for(int z=0;z<(D==3?SUB:1);z++){ T y=y0+sgn*ST[k]; TV X; X(0)=x; X(1)=y; if(D==3) X(D-1)=z==0?0:(z-1.5)*1.7; c.trans();
      T h=(y-y0)*S.side; if (std::abs(h)>1e-12*(1+std::abs(y0))){ if (o->inside(X)!=(h<0)) c.fail("%s: point %s at height %.3g over the surface is %s",S.name,str(X).c_str(),(double)h,h<0?"not inside":"inside"); }
      TV m=normal_at(o.get(),X,(k+z)%3); if (!(std::abs(m.norm()-1)<1e-9)) c.fail("%s: normal %s at %s is not a unit vector",S.name,str(m).c_str(),str(X).c_str()); if (!(maxabs(TV(m-en))<1e-8)) c.fail("%s: normal %s at %s, surface normal is %s",S.name,str(m).c_str(),str(X).c_str(),str(en).c_str()); }
    if (d[0]==0){ TV X; X.setConstant(x); X(1)=p; if (!o->inside(X)) c.fail("a point exactly on the ground is not inside"); }
    c.state(mixd(mix(d[0],d[1]),x)); c.note("x=%.4g surface y=%.5g normal %s",x,y0,str(en).c_str()); }});
  F.push_back({"far", {{"object",5},{"x",41},{"y",41}}, [](Ctx& c,const Dig& d){ T p; auto o=mk(d[0],BC::NoSlip,0,0,p); const Surf& S=SF[d[0]]; auto f=[](int k){ T a=std::pow(10.0,(std::abs(k-20)-10)*0.5); return k==20?T(0):k>20?a:-a; }; TV X; X.setConstant(0.7); X(0)=f(d[1]); X(1)=f(d[2]); T y0=S.f(X(0),p), h=(X(1)-y0)*S.side; c.trans(); c.state(mix(mix(d[0],d[1]),d[2]));
    if (std::abs(h)>1e-9*(1+std::abs(y0)+std::abs(X(1))) && o->inside(X)!=(h<0)) c.fail("%s: point %s at height %.3g over the surface is %s",S.name,str(X).c_str(),(double)h,h<0?"not inside":"inside"); TV m=normal_at(o.get(),X,d[1]%3); if (!(std::abs(m.norm()-1)<1e-9)) c.fail("%s: normal %s at %s is not a unit vector",S.name,str(m).c_str(),str(X).c_str()); if (!(m(1)*S.side>0)) c.fail("%s: normal %s at %s does not point out",S.name,str(m).c_str(),str(X).c_str()); }});
#ifdef THREEDIM
  F.push_back({"silo", {{"cut",4},{"y",tier()?801:161},{"theta",tier()?144:48},{"dr",15}}, [](Ctx& c,const Dig& d){ static const T CUT[]={-1,-0.5,-3,-0.01}; T cut=CUT[d[0]]; std::unique_ptr<ObjectSilo> o(d[0]?new ObjectSilo(BC::SlipFree,0.2,"s",cut):new ObjectSilo(BC::SlipFree,0.2,"s")); int ny=tier()?801:161, nt=tier()?144:48; T y=-4+8.0*d[1]/(ny-1)+1e-4, th=2*M_PI*d[2]/nt; static const T DR[]={-10,-1,-0.3,-0.1,-0.01,-1e-4,-1e-8,1e-8,1e-4,0.01,0.1,0.3,1,10,-0.5}; T rs=std::tanh(y)+1, r=rs+DR[d[3]]; if (r<=1e-6) return c.skip();
    TV X(r*std::cos(th),y,r*std::sin(th)); bool in=y>=cut&&r>rs; c.trans(); c.state(mix(mix(mix(d[0],d[1]),d[2]),d[3])); if (std::abs(r-rs)>1e-12&&std::abs(y-cut)>1e-12&&o->inside(X)!=in) c.fail("silo: point %s (radius %.6g, wall %.6g, cut %.3g) is %s",str(X).c_str(),r,rs,cut,in?"not inside":"inside");
    T s2=1-std::tanh(y)*std::tanh(y); TV e(-std::cos(th),s2,-std::sin(th)); e/=std::sqrt(1+s2*s2); TV m=normal_at(o.get(),X,d[3]%3); if (!(maxabs(TV(m-e))<1e-8)) c.fail("silo: normal %s at %s, surface normal is %s",str(m).c_str(),str(X).c_str(),str(e).c_str()); c.note("radius %.4g wall %.4g normal %s",r,rs,str(m).c_str()); }});
#endif
  F.push_back({"plate", {{"type",D==3?6:4},{"pos",4},{"lim",7},{"h",13},{"lat",13},{"z",D==3?3:1},{"bc",3}}, [](Ctx& c,const Dig& d){ static const PlateType TY[]={PlateType::left,PlateType::right,PlateType::bottom,PlateType::top
   #ifdef THREEDIM
   ,PlateType::back,PlateType::front
   #endif
   }; static const T P[]={0,0.3,-2.7,1e3}; static const T LO[]={-1e15,-0.4,0.1,-1e15,0.25,20.3,-75}, UP[]={1e15,0.9,1e15,0.6,0.25001,25.1,-61.5}; static const T H[]={0,1e-13,1e-9,1e-5,1e-2,0.5,30,-1e-13,-1e-9,-1e-5,-1e-2,-0.5,-30}; static const BC B[]={BC::NoSlip,BC::SlipFree,BC::SlipStick};
   T pos=P[d[1]], lo=LO[d[2]], up=UP[d[2]]; if (pos==1e3&&(d[3]==1||d[3]==7)) return c.skip(); Simulation s; plate(s,pos,TY[d[0]],B[d[6]],0.25,lo,up,0.1,0.2,0.3); const ObjectPlate& o=*s.plates[0]; TV n=plate_normal(TY[d[0]]); int a=0; for(int i=0;i<D;i++) if(n(i)!=0) a=i;
   T hh=H[d[3]]; T lat; { T m=(std::max<T>(lo,-80)+std::min<T>(up,30))/2; const T LT[]={m,lo-0.1,lo-1e-9,lo+1e-9,lo+0.1,up-0.1,up-1e-9,up+1e-9,up+0.1,-100,100,0,7}; lat=LT[d[4]]; } 
   TV X; X.setConstant(d[5]==0?0.3:d[5]==1?-50:70); X(a)=pos+hh*n(a); if (a<2) X(1-a)=lat; else { X(0)=lat; }
   T h=(X(a)-pos)*n(a); bool in=h<=0; if (a<2){ if (lat==lo||lat==up||std::abs(lat)>1e14) return c.skip(); in=in&&lat>lo&&lat<up; } c.trans(); c.state(mix(mix(mix(d[0],d[1]*5+d[2]),d[3]*13+d[4]),d[5])); 
   if (o.inside(X)!=in) c.fail("plate type %d at %.4g, extent %.4g to %.4g: point %s (height %.3g) is %s",d[0],pos,lo,up,str(X).c_str(),(double)h,in?"not inside":"inside"); if (o.bc!=B[d[6]]||o.friction!=0.25||o.vx_object!=0.1||o.vy_object!=0.2) c.fail("plate does not keep its parameters"); c.note("height %.3g lateral %.3g inside %d",(double)h,(double)lat,in); }});
  F.push_back({"vdb", {{"shape",4},{"where",4},{"res",2},{"i",tier()?61:31},{"j",tier()?61:31},{"k",D==3?13:1}}, [](Ctx& c,const Dig& d){ LS q=ls(d[0],d[1],d[2]); static std::map<int,std::shared_ptr<ObjectVdb>> cache; auto& o=cache[(d[0]*4+d[1])*2+d[2]]; if(!o) o=std::make_shared<ObjectVdb>(write_vdb(q),BC::SlipStick,0.4,"v"); if (o->bc!=BC::SlipStick||o->friction!=0.4||o->name!="v") c.fail("object does not keep its boundary condition, friction or name");
   double lo[3],hi[3]; bounds(q,lo,hi); int n[3]={tier()?61:31,tier()?61:31,13}; double X[3]={0,0,0}; TV x; for(int i=0;i<D;i++){ double m=2.01*q.h; x(i)=X[i]=lo[i]+m+(hi[i]-lo[i]-2*m)*d[3+i]/(n[i]-1); } double ph=q.interp(X); c.trans(); c.state(mix(mix(mix(d[0]*6+d[1]*2+d[2],d[3]),d[4]),d[5]));
   if (std::fabs(ph)>1e-5&&o->inside(x)!=(ph<0)) c.fail("level set %d: point %s with distance %.4g is %s",d[0],str(x).c_str(),ph,ph<0?"not inside":"inside");
   TV m=normal_at(o.get(),x,d[3]%3); double g[3]; q.grad(X,g); TV e; for(int i=0;i<D;i++) e(i)=g[i]; if (!(m.norm()==0||std::abs(m.norm()-1)<1e-5)) c.fail("level set %d: normal %s at %s is not a unit vector",d[0],str(m).c_str(),str(x).c_str()); if (e.norm()<0.2) return; bool smooth; if (d[0]==2) smooth=true; else if (d[0]!=1) smooth=ph>-0.3; else { double r[3]={std::fabs(X[0]-q.c[0])-q.R,std::fabs(X[1]-q.c[1])-0.7*q.R,std::fabs(X[2]-q.c[2])-1.2*q.R}; std::sort(r,r+3); smooth=r[2]-r[1]>2.1*q.h&&r[1]<-2.1*q.h&&ph>-0.1; } if (!smooth) return; 
   if (!(std::abs(m.norm()-1)<1e-5)) c.fail("level set %d: normal %s at %s is not a unit vector",d[0],str(m).c_str(),str(x).c_str()); e.normalize(); T dev=(m-e).norm(); T tol=d[0]==2?1e-4:0.06; if (!(dev<tol)) c.fail("level set %d: normal %s at %s, surface normal is %s",d[0],str(m).c_str(),str(x).c_str(),str(e).c_str()); c.note("distance %.3g normal %s",ph,str(m).c_str()); }});
}}
MC_MAIN
