// C18: particle sampling
#include "vdb.hpp"
#include "sampling/regular_sampling_particles.hpp"
#include "sampling/regular_sampling_particles_vdb.hpp"
#include "sampling/sampling_particles.hpp"
#include "sampling/sampling_particles_vdb.hpp"
using namespace mc;
typedef std::array<T,D> AR;
typedef thinks::MCSampler<T,D> SP;
static bool same(T a,T b){ return std::abs(a-b)<=1e-11*(std::abs(a)+std::abs(b)); }
static void initial(Ctx& c,const Simulation& s){ const Particles& P=s.particles; size_t n=s.Np;
  if (P.x.size()!=n||P.v.size()!=n||P.pic.size()!=n||P.flip.size()!=n||P.eps_pl_dev.size()!=n||P.eps_pl_vol.size()!=n||P.eps_pl_vol_pradhana.size()!=n||P.delta_gamma.size()!=n||P.viscosity.size()!=n||P.muI.size()!=n||P.F.size()!=n||P.Bmat.size()!=n||P.tau.size()!=n) c.fail("particle data are not sized to Np=%zu",n);
  for(size_t p=0;p<n;p++){ bool ok=P.v[p].isZero(0)&&P.pic[p].isZero(0)&&P.flip[p].isZero(0)&&P.Bmat[p].isZero(0)&&P.tau[p].isZero(0)&&P.F[p]==TM::Identity()&&P.eps_pl_dev[p]==0&&P.eps_pl_vol[p]==0&&P.eps_pl_vol_pradhana[p]==0&&P.delta_gamma[p]==0&&P.viscosity[p]==0&&P.muI[p]==0; if(!ok) c.fail("particle %zu does not start at rest and undeformed",p); } }
static T prod(const TV& L){ T v=1; for(int d=0;d<D;d++) v*=L(d); return v; }
static T Lof(const Simulation& s,int d){
  #ifdef THREEDIM
  if (d==2) return s.Lz;
  #endif
  return d?s.Ly:s.Lx; }
static void wantL(Ctx& c,const Simulation& s,const TV& L){ for(int d=0;d<D;d++) if (!same(Lof(s,d),L(d))) c.fail("domain size %.9g in direction %d, expected %.9g",Lof(s,d),d,L(d)); }
static void setL(Simulation& s,const TV& L){ s.Lx=L(0); s.Ly=L(1);
  #ifdef THREEDIM
  s.Lz=L(2);
  #endif
}
// 1 inside the crop shape, 0 outside, -1 at rounding distance of its surface
static int crop(int shape,const TV& x,const TV& L,T dx){ T m;
  if (D==3){ T a=x(0)-L(0)/2, b=x(D-1)-L(D-1)/2, r=std::sqrt(a*a+b*b); if (shape==1) m=L(0)/2-r; else if (shape==2) m=std::tanh(x(1))+1-r; else return 1; }
  else { if (shape!=1) return 1; m=0.05+100*(x(0)-L(0))*(x(0)-L(0))-0.5*dx-x(1); }
  if (std::abs(m)<1e-10) return -1; return m>0; }
static void match(Ctx& c,const std::vector<TV>& all,const std::vector<int>& in,const Simulation& s,T dx){ // every wanted point once, nothing else
  std::vector<TV> got=s.particles.x; std::vector<char> used(got.size(),0); auto less=[](const TV& a,const TV& b){ for(int d=0;d<D;d++) if (std::abs(a(d)-b(d))>1e-9) return a(d)<b(d); return false; };
  std::vector<int> ix(got.size()); for(size_t i=0;i<ix.size();i++) ix[i]=i; std::sort(ix.begin(),ix.end(),[&](int a,int b){ return less(got[a],got[b]); });
  size_t n=0; for(size_t k=0;k<all.size();k++){ int cnt=0; auto r=std::equal_range(ix.begin(),ix.end(),-1,[&](int a,int b){ return less(a<0?all[k]:got[a],b<0?all[k]:got[b]); }); for(auto it=r.first;it!=r.second;++it) if(!used[*it]){ used[*it]=1; cnt++; if (maxabs(TV(got[*it]-all[k]))>1e-10*dx+1e-12) c.fail("particle %s is off its place %s",str(got[*it]).c_str(),str(all[k]).c_str()); }
    if (in[k]==1&&cnt!=1) c.fail("point %s of the shape has %d particles",str(all[k]).c_str(),cnt); if (in[k]==0&&cnt!=0) c.fail("point %s outside the shape has %d particles",str(all[k]).c_str(),cnt); if (cnt>1) c.fail("two particles at %s",str(all[k]).c_str()); n+=cnt; }
  if (n!=got.size()) { for(size_t i=0;i<got.size();i++) if(!used[i]) c.fail("particle at %s was not asked for",str(got[i]).c_str()); } if ((size_t)s.Np!=got.size()) c.fail("Np=%d but %zu particles",(int)s.Np,got.size()); }
static long fit(T L,T sp){ T q=L/sp; long r=std::lround(q); return std::abs(q-r)<1e-9*(1+q) ? r : (long)std::floor(q); }
static const T LEN[]={1,0.3,0.6,0.7,0.35,1.0/3,0.123,0.95,2.1,0.05,0.9,0.15};
static void regular(Ctx& c,const TV& lo,const TV& L,T dx,T ppc,const std::function<int(const TV&)>& in,const Simulation& s,T rho){
  T sp=dx/std::pow(ppc,1.0/D); TV z; std::vector<TV> all; std::vector<int> w; long n[3]={1,1,1}; for(int d=0;d<D;d++) n[d]=fit(L(d),sp);
  for(long i=0;i<n[0];i++) for(long j=0;j<n[1];j++) for(long k=0;k<(D==3?n[2]:1);k++){ TV p; p(0)=lo(0)+(i+0.5)*sp; p(1)=lo(1)+(j+0.5)*sp; if(D==3) p(D-1)=lo(D-1)+(k+0.5)*sp; all.push_back(p); w.push_back(in(p)); }
  c.trans(all.size()); c.state(mix(mix(mix(n[0],n[1]),n[2]),s.Np)); c.note("%ld x %ld x %ld spacing cells, %d particles, volume %.6g",n[0],n[1],n[2],(int)s.Np,(double)s.particle_volume);
  T vol=std::pow(dx,D)/ppc; if (!same(s.particle_volume,vol)) c.fail("particle volume %.12g, expected %.12g",s.particle_volume,vol); if (!same(s.particle_mass,rho*vol)) c.fail("particle mass %.12g, expected %.12g",s.particle_mass,rho*vol); if (s.dx!=dx) c.fail("dx changed from %g to %g",dx,s.dx);
  match(c,all,w,s,dx); initial(c,s);
  for(auto& x:s.particles.x) for(int d=0;d<D;d++) if (!(x(d)>=lo(d)&&x(d)<=lo(d)+L(d))) c.fail("particle %s is outside the domain",str(x).c_str()); }
namespace mc { void families(std::vector<Family>& F){
  on_worker_start()=[]{ openvdb::initialize(); };
  int NL=tier()?12:(D==3?7:12);
  F.push_back({"regular", {{"Lx",NL},{"Ly",NL},{"Lz",D==3?NL:1},{"dx",4},{"ppc",6},{"crop",4},{"resample",2},{"default",2}}, [](Ctx& c,const Dig& d){
    static const T DX[]={0.1,0.05,0.07,0.2}; static const T PPC2[]={4,1,6,9,2.5,16}, PPC3[]={8,1,6,27,2.5,4}; T dx=DX[d[3]], ppc=(D==3?PPC3:PPC2)[d[4]]; if (d[7]&&(d[4]||d[5])) return c.skip(); if (d[6]&&(d[3]||d[4])) return c.skip();
    TV L; L(0)=LEN[d[0]]; L(1)=LEN[d[1]]; if(D==3) L(D-1)=LEN[d[2]]; if (D==3 && dx<0.1 && (ppc>6) && prod(L)>0.3) return c.skip();
    Simulation s; T rho=1550+d[0]; s.rho=rho; s.dx=dx; setL(s,L); if (d[6]){ setL(s,L*1.7); s.dx=0.13; regularSampleParticles(s,3); for(auto& v:s.particles.v) v.setConstant(3); for(auto& f:s.particles.F) f*=2; s.dx=dx; setL(s,L); }
    if (d[7]) regularSampleParticles(s); else regularSampleParticles(s,ppc,d[5]);
    int shape=d[7]?0:d[5]; regular(c,TV(TV::Zero()),L,dx,ppc,[&](const TV& p){ return crop(shape,p,L,dx); },s,rho);
    wantL(c,s,L);
  }});
  // long and flat domains
  F.push_back({"slender", {{"axis",D},{"ratio",4},{"crop",2},{"ppc",2}}, [](Ctx& c,const Dig& d){ static const T R[]={20,60,150,700}; T dx=0.02; TV L; L.setConstant(0.05); L(d[0])=0.05*R[d[1]]; T ppc=d[3]?1:(D==3?8:4); Simulation s; s.rho=700; s.dx=dx; setL(s,L); regularSampleParticles(s,ppc,d[2]); regular(c,TV(TV::Zero()),L,dx,ppc,[&](const TV& p){ return crop(d[2],p,L,dx); },s,700); wantL(c,s,L); }});
  // fine resolutions around the curved crop shapes
  F.push_back({"shapes", {{"L",6},{"dx",5},{"crop",3},{"ratio",3}}, [](Ctx& c,const Dig& d){ static const T A[]={0.4,1,2.4,3.7,0.06,5}; T q[]={1,0.6,1.8}; TV L; L.setConstant(A[d[0]]); L(1)*=q[d[3]]; if(D==3) L(D-1)*=d[3]==2?0.7:1; T dx=A[d[0]]/(D==3?(9+d[1]*2.3):(31+d[1]*17.0)); T ppc=D==3?8:4; Simulation s; s.rho=900; s.dx=dx; setL(s,L); regularSampleParticles(s,ppc,d[2]); regular(c,TV(TV::Zero()),L,dx,ppc,[&](const TV& p){ return crop(d[2],p,L,dx); },s,900); }});
  // Poisson sampling: every subset of a set of candidate points
  const int NC=D==3?9:10;
  F.push_back({"poisson", {{"subset",1<<NC},{"L",4},{"crop",4},{"ppc",3},{"args",3}}, [](Ctx& c,const Dig& d){
    static const T PPC[]={6,8,1.7}; TV L; T a[4][3]={{1,1,1},{0.4,2.2,0.7},{3,0.5,4},{30,0.2,0.3}}; for(int i=0;i<D;i++) L(i)=a[d[1]][i]; int nc=D==3?9:10; if (!d[0]) return c.skip(); if (d[4]&&(d[3]||d[0]%5)) return c.skip();
    std::vector<AR> smp; for(int k=0;k<nc;k++) if (d[0]>>k&1){ AR p; for(int i=0;i<D;i++){ T u= k==0?0: k==1?1: k==2?0.5: gen(k,i+3); if (k==3&&i==0) u=0.999; if (k==4) u=i==1?0.02:0.5+0.3*(i==0); p[i]=u*L(i); } smp.push_back(p); }
    Simulation s; s.rho=1234; s.dx=77; setL(s,L); T ppc=PPC[d[3]]; std::string bad; int calls=0; T rad=0.0123*(1+d[1]);
    SP::fn()=[&](T r,const AR& lo,const AR& hi,std::uint32_t att,std::uint32_t seed){ calls++; if (r!=rad) bad="radius"; for(int i=0;i<D;i++){ if (lo[i]!=0) bad="lower corner"; if (hi[i]!=L(i)) bad="upper corner"; } if (d[4]==1&&(att!=17||seed!=5)) bad="attempts or seed"; return smp; };
    if (d[4]==1) sampleParticles(s,rad,ppc,d[2],17,5); else if (d[4]==2) { ppc=D==3?8:6; sampleParticles(s,rad); } else sampleParticles(s,rad,ppc,d[2]);
    int shape=d[4]==2?0:d[2]; if (!bad.empty()) c.fail("sampler called with a wrong %s",bad.c_str()); if (calls!=1) c.fail("sampler called %d times",calls);
    T vol=prod(L)/smp.size(); if (!same(s.particle_volume*smp.size(),prod(L))) c.fail("volume times count is %.12g, domain has %.12g",s.particle_volume*smp.size(),prod(L)); if (!same(s.particle_mass,1234*vol)) c.fail("mass %.12g, expected %.12g",s.particle_mass,1234*vol); T dx=std::pow(ppc*vol,1.0/D); if (!same(s.dx,dx)) c.fail("dx %.12g, expected %.12g",s.dx,dx);
    std::vector<TV> all; std::vector<int> in; for(auto& p:smp){ TV q; for(int i=0;i<D;i++) q(i)=p[i]; all.push_back(q); in.push_back(crop(shape,q,L,dx)); } match(c,all,in,s,dx); initial(c,s); c.trans(smp.size()); c.state(mix(mix(mix(d[0],d[1]),d[2]),d[3])); c.note("%zu samples, %d kept, dx=%.5g",smp.size(),(int)s.Np,(double)s.dx);
  }});
  // Poisson sampling of many points
  F.push_back({"poisson-many", {{"n",6},{"crop",4},{"vdb",2},{"shape",4}}, [](Ctx& c,const Dig& d){ static const int N[]={1000,4095,5003,17011,33000,70001}; if (d[2]?d[1]:d[3]) return c.skip(); int n=N[d[0]]; TV L,l; l.setZero(); LS q; std::shared_ptr<ObjectVdb> o; if (d[2]){ q=ls(d[3],1,0); o=std::make_shared<ObjectVdb>(write_vdb(q)); double lo[3],hi[3]; bounds(q,lo,hi); for(int i=0;i<D;i++){ l(i)=lo[i]; L(i)=hi[i]-lo[i]; } } else { L.setConstant(2.5); L(1)=1.5; }
    std::vector<AR> smp; int m=D==2?(int)std::ceil(std::sqrt(n)):(int)std::ceil(std::cbrt(n)); for (int k=0;k<n;k++){ AR p; int z=k; for (int i=0;i<D;i++){ p[i]=l(i)+L(i)*((z%m)+0.1+0.8*gen(k,i))/m; z/=m; } smp.push_back(p); }
    Simulation s; s.rho=500; setL(s,L); T ppc=D==3?8:6; SP::fn()=[&](T,const AR&,const AR&,std::uint32_t,std::uint32_t){ return smp; };
    if (d[2]) sampleParticlesFromVdb(s,*o,0.04,ppc); else sampleParticles(s,0.04,ppc,d[1]); T vol=prod(L)/n, dx=std::pow(ppc*vol,1.0/D); if (!same(s.particle_volume,vol)) c.fail("volume %.12g, expected %.12g",s.particle_volume,vol); if (!same(s.particle_mass,500*vol)) c.fail("mass"); if (!same(s.dx,dx)) c.fail("dx %.12g expected %.12g",s.dx,dx);
    std::vector<TV> all; std::vector<int> in; for(auto& p:smp){ TV v; double X[3]={0,0,0}; for(int i=0;i<D;i++) X[i]=v(i)=p[i]; all.push_back(v); if (d[2]){ double f=q.interp(X); in.push_back(std::fabs(f)<1e-5?-1:f<0); } else in.push_back(crop(d[1],v,L,dx)); } match(c,all,in,s,dx); initial(c,s); c.trans(n); c.state(mix(mix(n,d[1]),mix(d[2],d[3]))); c.note("%d samples, %d kept",n,(int)s.Np); }});
  F.push_back({"vdb-regular", {{"shape",4},{"where",4},{"res",2},{"dx",4},{"ppc",3}}, [](Ctx& c,const Dig& d){ LS q=ls(d[0],d[1],d[2]); ObjectVdb obj(write_vdb(q)); static const T DX[]={0.1,0.16,0.23,0.3}; static const T PPC[]={4,8,1}; Simulation s; T rho=2000; s.rho=rho; s.dx=DX[d[3]]; if (D==3) s.dx*=1.3; T dx=s.dx;
    double lo[3],hi[3]; bounds(q,lo,hi); TV l,L; for(int i=0;i<D;i++){ l(i)=lo[i]; L(i)=hi[i]-lo[i]; } TV a,b; obj.bounds(a,b); if (maxabs(TV(a-l))>1e-9||maxabs(TV(b-l-L))>1e-9) c.fail("bounds %s %s, the level set covers %s to %s",str(a).c_str(),str(b).c_str(),str(l).c_str(),str(TV(l+L)).c_str());
    regularSampleParticlesFromVdb(s,obj,PPC[d[4]]); regular(c,l,L,dx,PPC[d[4]],[&](const TV& p){ double X[3]={0,0,0}; for(int i=0;i<D;i++) X[i]=p(i); double v=q.interp(X); return std::fabs(v)<1e-5?-1:v<0; },s,rho);
    wantL(c,s,L); }});
  F.push_back({"vdb-poisson", {{"shape",4},{"where",4},{"subset",128},{"ppc",2}}, [](Ctx& c,const Dig& d){ LS q=ls(d[0],d[1],0); static std::map<int,std::shared_ptr<ObjectVdb>> cache; auto& o=cache[d[0]*4+d[1]]; if(!o) o=std::make_shared<ObjectVdb>(write_vdb(q)); if (!d[2]) return c.skip();
    double lo[3],hi[3]; bounds(q,lo,hi); TV L; for(int i=0;i<D;i++) L(i)=hi[i]-lo[i]; std::vector<AR> smp; for(int k=0;k<7;k++) if (d[2]>>k&1) for(int m=0;m<4;m++){ AR p; for(int i=0;i<D;i++) p[i]=lo[i]+gen(k*4+m,i)*L(i); smp.push_back(p); }
    Simulation s; s.rho=500; T ppc=d[3]?6:2.2; std::string bad; SP::fn()=[&](T r,const AR& l,const AR& h,std::uint32_t,std::uint32_t){ if (r!=0.04) bad="radius"; for(int i=0;i<D;i++){ if (std::abs(l[i]-lo[i])>1e-9) bad="lower corner"; if (std::abs(h[i]-hi[i])>1e-9) bad="upper corner"; } return smp; };
    sampleParticlesFromVdb(s,*o,0.04,ppc); if (!bad.empty()) c.fail("sampler called with a wrong %s",bad.c_str()); T vol=prod(L)/smp.size(); if (!same(s.particle_volume,vol)) c.fail("volume %.12g, expected %.12g",s.particle_volume,vol); if (!same(s.particle_mass,500*vol)) c.fail("mass"); T dx=std::pow(ppc*vol,1.0/D); if (!same(s.dx,dx)) c.fail("dx %.12g expected %.12g",s.dx,dx); wantL(c,s,L);
    std::vector<TV> all; std::vector<int> in; for(auto& p:smp){ TV v; double X[3]={0,0,0}; for(int i=0;i<D;i++) X[i]=v(i)=p[i]; all.push_back(v); double f=q.interp(X); in.push_back(std::fabs(f)<1e-5?-1:f<0); } match(c,all,in,s,dx); initial(c,s); c.trans(smp.size()); c.state(mix(mix(d[0]*3+d[1],d[2]),d[3])); c.note("%zu samples, %d inside",smp.size(),(int)s.Np); }});
}}
MC_MAIN
