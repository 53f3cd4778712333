// Level sets for the OpenVDB parts: sampled by the harness, written to a scratch file, read back by the code under test.
#pragma once
#include "setups.hpp"
#include "objects/object_vdb.hpp"
namespace mc {
struct LS { int shape; double R; double c[3]; double h; int half; // active voxels [-half,half] around the centre voxel
  long o[3]; // centre voxel
  double phi(double x,double y,double z) const { double d[3]={x-c[0],y-c[1],z-c[2]};
    if (shape==0) return std::sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2])-R;
    if (shape==1){ double q[3]={std::fabs(d[0])-R,std::fabs(d[1])-0.7*R,std::fabs(d[2])-1.2*R}; double m=std::max(q[0],std::max(q[1],q[2])); double s=0; for(double t:q) s+=std::max(t,0.0)*std::max(t,0.0); return m>0?std::sqrt(s):m; }
    if (shape==2) return (0.6*d[0]+0.8*d[1]); // half space
    double k=std::sqrt(d[0]*d[0]+0.5*d[1]*d[1]+d[2]*d[2]*1.3); return k-R; }
  double vox(long i,long j,long k) const { return (float)phi(i*h,j*h,k*h); }
  // tri-linear interpolation of the voxel values
  double interp(const double* X) const { long b[3]; double f[3]; for(int d=0;d<3;d++){ double u=X[d]/h; b[d]=(long)std::floor(u); f[d]=u-b[d]; } double s=0; for(int i=0;i<2;i++) for(int j=0;j<2;j++) for(int k=0;k<2;k++) s+=(i?f[0]:1-f[0])*(j?f[1]:1-f[1])*(k?f[2]:1-f[2])*vox(b[0]+i,b[1]+j,b[2]+k); return s; }
  void grad(const double* X,double* g) const { double e=1e-6; for(int d=0;d<3;d++){ double a[3]={X[0],X[1],X[2]},b[3]={X[0],X[1],X[2]}; a[d]+=e; b[d]-=e; g[d]=(phi(a[0],a[1],a[2])-phi(b[0],b[1],b[2]))/(2*e); } }
};
inline LS ls(int shape,int where,int res){ LS s; s.shape=shape; s.R=0.5; s.h=res?0.05:0.08; s.half=(int)std::ceil(s.R*1.4/s.h)+3; for(int d=0;d<3;d++){ s.o[d]=where==0?0:where==3?(d==0?130:d==1?-95:0):(where==1?(d==0?20:d==1?7:0):(d==0?-15:d==1?-4:0)); s.c[d]=s.o[d]*s.h+(where?0.013*(d+1):0); } return s; }
inline std::string write_vdb(const LS& s){ openvdb::initialize(); typedef ObjectVdb::GridT G; G::Ptr g=G::create(3.0f*s.h); g->setTransform(openvdb::math::Transform::createLinearTransform(s.h)); g->setGridClass(openvdb::GRID_LEVEL_SET); auto a=g->getAccessor();
  for(int i=-s.half;i<=s.half;i++) for(int j=-s.half;j<=s.half;j++) for(int k=-s.half;k<=s.half;k++){ openvdb::Coord q(s.o[0]+i,s.o[1]+j,s.o[2]+k); a.setValue(q,(float)s.vox(q.x(),q.y(),q.z())); }
  std::string f=scratch()+"/ls.vdb"; openvdb::GridPtrVec v; v.push_back(g); openvdb::io::File file(f); file.write(v); file.close(); return f; }
inline void bounds(const LS& s,double* lo,double* hi){ for(int d=0;d<3;d++){ lo[d]=(s.o[d]-s.half)*s.h; hi[d]=(s.o[d]+s.half)*s.h; } }
}
