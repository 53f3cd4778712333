// C04: affine motions are exact; angular momentum of the pure affine scheme
#include "setups.hpp"
using namespace mc;
static const T AFF[] = {-1e-14,-0.95,-1,-4,-0.5};
static TM field(int k){ TM A = TM::Zero(); switch(k){ case 0: return A; case 1: A=0.7*TM::Identity(); break; case 2: A(0,1)=-1.3; A(1,0)=1.3; break; case 3: A(0,1)=2; break; case 4: A(1,0)=-1.5; break;
  case 5: A(0,0)=1; A(1,1)=-1; break; case 6: A=gmat(1,3,1.5); break; case 7: A=gmat(5,8,2.5); break; case 8: if(D==3){A(D-1,0)=1.1;A(1,D-1)=-0.4;} else A=-0.5*TM::Identity(); break; } return A; }
namespace mc { void families(std::vector<Family>& F){
  F.push_back({"affine", {{"cloud",NCLOUD},{"align",5},{"scheme",5},{"field",9},{"musl",2},{"dx",3},{"steps",3},{"ref",2},{"size",2}}, [](Ctx& c, const Dig& d){ if (d[8]&&d[7]&&!tier()) return c.skip();
    static const T DX[]={0.5,0.1,0.03}; T dx=DX[d[5]]; auto x=scaled(cloud(d[0],off(d[1])),dx); auto s=make(x,dx); s->flip_ratio=AFF[d[2]]; s->use_musl=d[4]; s->E=d[8]?1e-11:1e-7; // practically stress free
    if (d[7]) s->grid_reference_point = TV::Zero();
    TM A=field(d[3]); TV v0; for (int i=0;i<D;i++) v0(i)=0.3*(i+1)-0.7*(i==1); T Dd = SPLINEDEG==3 ? dx*dx/3 : dx*dx/4;
    std::vector<TM> F0(x.size()); for (size_t p=0;p<x.size();p++){ s->particles.v[p]=v0+A*x[p]; s->particles.Bmat[p]=A*Dd; F0[p]=TM::Identity()+gmat(p,7,0.15); s->particles.F[p]=F0[p]; }
    // after a step the field seen by the particles is v(x_old); it stays affine: A' = A (I+dt A)^-1
    std::vector<TV> X=x, V(x.size()); for (size_t p=0;p<x.size();p++) V[p]=s->particles.v[p];
    for (int k=0;k<=d[6];k++){ T dt0=d[8]?0.12:0.004, dt=step_dt(dt0); one_step(*s,dt0); c.trans(); c.state(hash(snap(*s)));
      Cmp q; const Particles& P=s->particles; for (size_t p=0;p<x.size();p++){ X[p]+=dt*V[p]; F0[p]=F0[p]+dt*A*F0[p];
        q.v("x",p,P.x[p],X[p],1e-10); q.v("v",p,P.v[p],V[p],1e-9); q.m("Bmat",p,P.Bmat[p],TM(A*Dd),1e-9*dx); q.m("F",p,P.F[p],F0[p],1e-9); }
      if (!q.what.empty()) c.fail("affine field %d, step %d: %s",d[3],k,q.what.c_str());
      c.note("A=%s v0=%s",str(A).c_str(),str(P.v[0]).c_str());
      // restart the next step from the exact advected affine field
      TM J = TM::Identity()+dt*A; A = A*J.inverse(); for (size_t p=0;p<x.size();p++) s->particles.Bmat[p]=A*Dd; }
  }});
  F.push_back({"uniform", {{"cloud",NCLOUD},{"align",5},{"scheme",8},{"dir",7},{"musl",2},{"dx",3},{"steps",3}}, [](Ctx& c, const Dig& d){
    static const T DX[]={0.5,0.1,0.03}; T dx=DX[d[5]]; auto x=scaled(cloud(d[0],off(d[1])),dx); auto s=make(x,dx); s->flip_ratio=FLIP[d[2]]; s->use_musl=d[4]; 
    TV v0=TV::Zero(); static const T V[][3]={{1,0,0},{0,1,0},{0,0,1},{-1,0.5,0.2},{0.3,-2,0.7},{-0.01,-0.02,3},{0,0,0}}; for(int i=0;i<D;i++) v0(i)=V[d[3]][i];
    TM R=rot(1+d[3]%5); for (size_t p=0;p<x.size();p++){ s->particles.v[p]=v0; s->particles.F[p]=R; }
    T t=0; for (int k=0;k<=d[6];k++){ T dt0=k%2?0.001:0.006; t+=step_dt(dt0); one_step(*s,dt0); c.trans(); c.state(hash(snap(*s))); Cmp q; const Particles& P=s->particles;
      for (size_t p=0;p<x.size();p++){ q.v("x",p,P.x[p],TV(x[p]+t*v0),1e-10); q.v("v",p,P.v[p],v0,1e-9); q.m("Bmat",p,P.Bmat[p],TM(TM::Zero()),1e-9*dx); q.m("F",p,P.F[p],R,1e-9); q.m("tau",p,P.tau[p],TM(TM::Zero()),1e-5); }
      if (!q.what.empty()) c.fail("uniform motion, step %d: %s",k,q.what.c_str()); }
    c.note("v0=%s over %g",str(v0).c_str(),t);
  }});
  F.push_back({"angular", {{"cloud",NCLOUD},{"align",5},{"scheme",2},{"vel",4},{"stress",3},{"musl",2},{"steps",3}}, [](Ctx& c, const Dig& d){
    T dx=0.25; auto x=scaled(cloud(d[0],off(d[1])),dx); auto s=make(x,dx); s->flip_ratio=d[2]?-2.5:-1e-14; s->use_musl=d[5]; prep(*s,d[3]*7+1,d[4]>0);
    if (d[4]==2) for (size_t p=0;p<x.size();p++){ s->particles.F[p]=rot(2); s->particles.tau[p]=gsym(p,5,3000); }
    auto L=[&](T& sc){ TM l=TM::Zero(); const Particles& P=s->particles; sc=1e-6; for (size_t p=0;p<P.x.size();p++){ TM m=P.x[p]*P.v[p].transpose()+P.Bmat[p].transpose(); l += s->particle_mass*(m-m.transpose()); sc += s->particle_mass*maxabs(m); } return l; };
    for (int k=0;k<=d[6];k++){ T s0,s1; TM a=L(s0); one_step(*s,0.002); TM b=L(s1); c.trans(); c.state(hash(snap(*s))); c.note("L %s -> %s",str(a).c_str(),str(b).c_str());
      if (!(maxabs(TM(a-b)) <= 1e-9*(s0+s1))) c.fail("step %d: angular momentum %s -> %s",k,str(a).c_str(),str(b).c_str()); }
  }});
  contexts(F,{DC_THREADS3,DC_THREADS8,DC_FAR,DC_OUTPUT,DC_VM,DC_DPVISC,DC_MCC,DC_AFTER,DC_LENGTHS,DC_UNUSED},2);
}}
MC_MAIN
