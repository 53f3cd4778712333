// C20: kernel = B-spline (partition of unity, linear reproduction, exact derivatives), arange = numpy.arange
#include "common.hpp"
#include "tools.hpp"
using namespace mc;
static double bs(int deg, double u){ double t=u+0.5*(deg+1); if(t<0||t>=deg+1) return 0; double N[8]; for(int i=0;i<=deg;i++) N[i]=(t>=i&&t<i+1)?1:0; for(int p=1;p<=deg;p++) for(int i=0;i+p<=deg;i++) N[i]=((t-i)*N[i]+(i+p+1-t)*N[i+1])/p; return N[0]; }
static double dbs(int deg, double u){ return deg==0 ? 0 : bs(deg-1,u+0.5)-bs(deg-1,u-0.5); }
static double ddbs(int deg, double u){ return dbs(deg-1,u+0.5)-dbs(deg-1,u-0.5); }
const int DEG = SPLINEDEG;
static double breakdist(double u){ double t = u+0.5*(DEG+1); return std::fabs(t-std::round(t)); }
namespace mc { void families(std::vector<Family>& F){
  int NL = tier()? 1<<18 : 1<<14;
  // all offsets on a dyadic lattice over [-4,4] including every break point, and the neighbouring floating point numbers
  F.push_back({"pointwise", {{"u",NL+1},{"ulp",5}}, [NL](Ctx& c, const Dig& d){
    double u = -4.0 + 8.0*d[0]/NL; static const int U[] = {0,1,-1,3,-3}; for (int k=0;k<std::abs(U[d[1]]);k++) u = std::nextafter(u, U[d[1]]>0?1e9:-1e9);
    c.trans(); c.state(mixd(1,u)^d[1]);
    double n=N(u), dn=dNdu(u), dd=d2Ndu2(u);
    c.note("u=%.17g N=%.17g dN=%.17g d2N=%.17g",u,n,dn,dd);
    if (!(n >= 0)) c.fail("N(%.17g)=%.17g is negative",u,n);
    if (!(std::fabs(n-bs(DEG,u)) < 1e-13)) c.fail("N(%.17g)=%.17g, B-spline %.17g",u,n,bs(DEG,u));
    bool brk = breakdist(u) < 1e-12;
    if (!(DEG==1 && brk) && !(std::fabs(dn-dbs(DEG,u)) < 1e-12)) c.fail("dNdu(%.17g)=%.17g, derivative %.17g",u,dn,dbs(DEG,u));
    if (DEG==1 && brk && !(std::fabs(dn) <= 1)) c.fail("dNdu(%.17g)=%.17g",u,dn);
    if (DEG>=2 && !(DEG==2 && brk) && !(std::fabs(dd-ddbs(DEG,u)) < 1e-11)) c.fail("d2Ndu2(%.17g)=%.17g, second derivative %.17g",u,dd,ddbs(DEG,u));
    if (DEG==2 && brk){ double a=ddbs(2,u-0.25), b=ddbs(2,u+0.25); if (dd<std::min(a,b)-1e-12||dd>std::max(a,b)+1e-12) c.fail("d2Ndu2(%.17g)=%.17g outside its one-sided limits",u,dd); }
  }});
  F.push_back({"partition", {{"u",NL+1},{"ulp",5}}, [NL](Ctx& c, const Dig& d){
    double u = double(d[0])/NL; static const int U[] = {0,1,-1,3,-3}; for (int k=0;k<std::abs(U[d[1]]);k++) u = std::nextafter(u, U[d[1]]>0?1e9:-1e9);
    double s=0,m=0,g=0,h=0,s2=0; for (int i=-4;i<=5;i++){ double n=N(u-i), dn=dNdu(u-i); s+=n; m+=n*i; g+=dn; h+=dn*i; s2+=d2Ndu2(u-i); }
    c.trans(10); c.state(mixd(2,u)^d[1]);
    c.note("u=%.17g sum=%.17g mean=%.17g",u,s,m);
    if (!(std::fabs(s-1)<1e-13)) c.fail("weights at %.17g sum to %.17g",u,s);
    if (!(std::fabs(m-u)<1e-13)) c.fail("weighted mean at %.17g is %.17g",u,m);
    if (DEG==1 && breakdist(u)<1e-12) return;
    if (!(std::fabs(g)<1e-12)) c.fail("gradient weights at %.17g sum to %.17g",u,g);
    if (!(std::fabs(h-1)<1e-12)) c.fail("gradient of the position at %.17g is %.17g",u,h);
    if (!(DEG==2 && breakdist(u)<1e-12) && !(std::fabs(s2)<1e-11)) c.fail("second derivatives at %.17g sum to %.17g",u,s2);
  }});
  static const double ST[] = {0,-3,2.5,-0.75,1024,1e-3}, DX[] = {1,0.5,0.1,0.3,0.007}; 
  F.push_back({"arange", {{"start",6},{"step",5},{"n",tier()?4000:400},{"frac",3}}, [](Ctx& c, const Dig& d){
    double a=ST[d[0]], h=DX[d[1]]; double fr[] = {0.5,0.25,0.75}; double stop = a+h*(d[2]+fr[d[3]]); auto v = arange(a,stop,h); c.trans(v.size()); c.state(mix(mix(mix(3,d[0]),d[1]),d[2]*3+d[3]));
    c.note("arange(%g,%g,%g): %zu values",a,stop,h,v.size());
    if ((int)v.size() != d[2]+1) c.fail("arange(%.17g,%.17g,%.17g) has %zu values, expected %d",a,stop,h,v.size(),d[2]+1);
    for (int k=0;k<=d[2];k++) if (!(std::fabs(v[k]-(a+k*h)) < 1e-9*h+1e-12*std::fabs(a))) c.fail("arange value %d is %.17g",k,v[k]);
  }});
  F.push_back({"tools", {{"a",21},{"b",21}}, [](Ctx& c, const Dig& d){
    double a=(d[0]-10)*0.5, b=(d[1]-10)*0.3; TM m=TM::Zero(); double s=0; for (int i=0;i<DIMENSION;i++) for (int j=0;j<DIMENSION;j++){ m(i,j)=a*(1+i)+b*(j-0.3*i); s+=m(i,j)*m(i,j); }
    c.trans(); c.state(mix(mix(4,d[0]),d[1]));
    if (!(std::fabs(selfDoubleDot(m)-s)<1e-11)) c.fail("selfDoubleDot = %.15g expected %.15g",selfDoubleDot(m),s);
    if (sgn(a) != (a>0)-(a<0)) c.fail("sgn(%g)=%d",a,sgn(a));
  }});
}}
MC_MAIN
