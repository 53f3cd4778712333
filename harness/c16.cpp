// C16: the saved files are the simulated state
#include "matcheck.hpp"
#include "ply.hpp"
#include <sstream>
using namespace mc;
static const int NM=10;
static void setmodel(Simulation& s,int m,int k){ if (m==0){ common_mat(s); s.plastic_model=PlasticModel::NoPlasticity; s.elastic_model=k%2?ElasticModel::NeoHookean:ElasticModel::Hencky; } else if (m<5) cfg_ri(s,m-1,k%NCFG_RI[m-1]); else cfg_vi(s,m-5,k%NCFG_VI[m-5]); }
static bool near_(T a,T b,T rel,T abs_){ return std::abs(a-b)<=abs_+rel*std::abs(b); }
struct Cf { int model=0,k=0,bc=0,cl=2,big=0,ratio=1,frames=3,thr=1; T flip=-0.95; bool musl=false,mibf=false,pbc=false,grid=true; T dx=0.25; };
static void check_particles(Ctx& c,Simulation& s,const std::string& f,const Snap& S,size_t n,T at=1e-9){ auto p=read_ply(f); if (!p.ok) c.fail("%s: %s",f.c_str(),p.err.c_str()); if (p.n!=n) c.fail("%s has %zu entries, %zu particles",f.c_str(),p.n,n);
  MatPar m=matpar(s); static const char* X[]={"x","y","z"}; static const char* V[]={"vx","vy","vz"};
  for (int d=0;d<D;d++) if (!p.has(X[d])||!p.has(V[d])) c.fail("no %s or %s in %s",X[d],V[d],f.c_str()); for (auto w:{"p","q","Je"}) if (!p.has(w)) c.fail("no %s in %s",w,f.c_str());
  bool pl=s.plastic_model!=PlasticModel::NoPlasticity, mu=s.plastic_model==PlasticModel::DPMui||s.plastic_model==PlasticModel::MCCMui, vi=s.plastic_model==PlasticModel::DPVisc||s.plastic_model==PlasticModel::MCCVisc;
  if (pl) for (auto w:{"eps_pl_vol","eps_pl_dev","delta_gamma"}) if (!p.has(w)) c.fail("no %s in %s",w,f.c_str()); if ((mu||(vi&&s.use_mibf))&&!p.has("muI")) c.fail("no muI in %s",f.c_str()); if (mu&&!p.has("viscosity")) c.fail("no viscosity in %s",f.c_str());
  auto fld=[&](const char* w,size_t i,T v,bool exact){ if (!p.has(w)) return; T a=p[w][i]; if (exact? !(a==v) : !near_(a,v,1e-10,at)) c.fail("%s: %s of particle %zu is %.12g, state has %.12g",f.c_str(),w,i,a,v); };
  for (size_t i=0;i<n;i++){ for (int d=0;d<D;d++){ fld(X[d],i,S.x[i](d),true); fld(V[d],i,S.v[i](d),true); }
    T pr=-S.tau[i].trace()/D; TM dev=S.tau[i]+pr*TM::Identity(); fld("p",i,pr,false); fld("q",i,m.c*dev.norm(),false); fld("Je",i,S.F[i].determinant(),false);
    fld("eps_pl_vol",i,S.epv[i],true); fld("eps_pl_dev",i,S.epd[i],true); fld("delta_gamma",i,S.dg[i],true); fld("muI",i,S.muI[i],true); fld("viscosity",i,S.visc[i],true); } }
static void check_grid(Ctx& c,Simulation& s,const std::string& f,const Snap& in,RefCfg rc,bool vel){ auto p=read_ply(f); if (!p.ok) c.fail("%s: %s",f.c_str(),p.err.c_str()); static const char* X[]={"x","y","z"}; static const char* V[]={"vx","vy","vz"};
  for (int d=0;d<D;d++) if (!p.has(X[d])||!p.has(V[d])) c.fail("no %s or %s in %s",X[d],V[d],f.c_str()); if (!p.has("mass")) c.fail("no mass in %s",f.c_str()); if (s.use_mibf&&!p.has("friction")) c.fail("no friction in %s",f.c_str()); if (!p.n) c.fail("%s is empty",f.c_str());
  for (auto& nm:p.names) for (size_t i=0;i<p.n;i++) if (!std::isfinite(p[nm][i])) c.fail("%s: %s of node %zu is not a number",f.c_str(),nm.c_str(),i);
  TV lat; for (int d=0;d<D;d++) lat(d)=p[X[d]][0]; if (rc.pbc) lat(0)=rc.dx*std::round(lat(0)/rc.dx); rc.lat=lat; long ring=rc.pbc?std::lround(rc.Lx/rc.dx):0; if (rc.pbc) rc.lat(0)=0; RefRes r=ref_step(rc,in); std::set<Node> seen; Node lo{0,0,0},hi{0,0,0}; T tot=0; TV mom=TV::Zero(); size_t hits=0;
  for (size_t i=0;i<p.n;i++){ Node id{0,0,0}; for (int d=0;d<D;d++){ T u=(p[X[d]][i]-rc.lat(d))/rc.dx; id[d]=std::lround(u); if (std::abs(u-id[d])>1e-6) c.fail("%s: node %zu is off the grid",f.c_str(),i); lo[d]=std::min(lo[d],id[d]); hi[d]=std::max(hi[d],id[d]); } if (!seen.insert(id).second) c.fail("%s: node %ld,%ld,%ld twice",f.c_str(),id[0],id[1],id[2]);
    T m=p["mass"][i]; if (m<0) c.fail("%s: negative mass",f.c_str()); tot+=m; TV v; for (int d=0;d<D;d++) v(d)=p[V[d]][i]; mom+=m*v; if (ring&&(id[0]<0||id[0]>=ring)) continue; auto it=r.g.w.find(id); T w=it==r.g.w.end()?0:it->second; if (!near_(m,w*rc.mass,1e-9,1e-11*rc.mass)) c.fail("%s: mass of node (%ld,%ld,%ld) is %.10g, expected %.10g",f.c_str(),id[0],id[1],id[2],m,w*rc.mass);
    if (w>0) hits++; if (w>1e-6){ if (vel){ TV e=rc.musl?r.g.vm[id]:r.g.vn[id]; if (!(maxabs(TV(v-e))<=1e-7*(1+maxabs(e)))) c.fail("%s: velocity of node (%ld,%ld,%ld) is %s, expected %s",f.c_str(),id[0],id[1],id[2],str(v).c_str(),str(e).c_str()); } if (s.use_mibf&&!near_(p["friction"][i],r.g.fric[id],1e-9,1e-9)) c.fail("%s: friction of node (%ld,%ld,%ld) is %.10g, expected %.10g",f.c_str(),id[0],id[1],id[2],p["friction"][i],r.g.fric[id]); } }
  if (hits!=r.g.w.size()) c.fail("%s: %zu of %zu nodes with mass saved",f.c_str(),hits,r.g.w.size()); size_t box=1; for (int d=0;d<D;d++) box*=hi[d]-lo[d]+1; if (box!=p.n) c.fail("%s: %zu entries for %zu nodes",f.c_str(),p.n,box);
  if (!ring&&!near_(tot,in.n()*rc.mass,1e-9,0)) c.fail("%s: total mass %.12g",f.c_str(),tot); }
static void go(Ctx& c,const Cf& g){ T dx=g.dx; auto x=scaled(cloud(g.cl,off(3)),dx); if (g.big){ x.clear(); for (int k=0;k<g.big;k++){ TV q; for (int d=0;d<D;d++) q(d)=dx*(3+(D==2?40:12)*gen(k,d+1)); x.push_back(q); } } if (g.pbc) for (auto& p:x){ p(0)-=3.2*dx; p(0)-=10*dx*std::floor(p(0)/(10*dx)); } size_t n=x.size(); auto s=make(x,dx); setmodel(*s,g.model,g.k); std::string dir=scratch()+"/c16scratch"; wipe(dir); s->initialize(true,dir+"/","out"); s->save_grid=g.grid; s->reduce_verbose=true; s->n_threads=g.thr;
  s->flip_ratio=g.flip; s->use_musl=g.musl; s->use_mibf=g.mibf; s->gravity=TV::Zero(); s->gravity(1)=-3; std::vector<std::unique_ptr<ObjectGeneral>> objs; 
  if (g.pbc){ s->pbc=true; s->Lx=10*dx; s->Ly=8*dx;
    #ifdef THREEDIM
    s->Lz=7*dx;
    #endif
  }
  for (size_t p=0;p<n;p++){ s->particles.v[p]=gvec(p,21,0.5); s->particles.Bmat[p]=gmat(p,31,0.2*dx*dx); s->particles.F[p]=trialF(-0.03+0.02*gens(p,5),0.03*gen(p,6),p,p,p+1); s->particles.tau[p]=gsym(p,51,200); s->particles.eps_pl_dev[p]=0.01*gen(p,9); s->particles.eps_pl_vol[p]=0.001*gens(p,11); s->particles.viscosity[p]=1+p; s->particles.muI[p]=0.1*p; }
  if (!g.pbc){ if (g.bc==1) plate(*s,3.4*dx,PlateType::left,BC::SlipFree,0.4); if (g.bc==2){ TV nn=TV::Zero(); nn(0)=-0.3; nn(1)=1; s->objects.push_back(std::make_unique<Slope>(BC::SlipFree,0.3,nn,2.6*dx)); objs.push_back(std::make_unique<Slope>(BC::SlipFree,0.3,nn,2.6*dx)); } } else if (g.bc) plate(*s,2.7*dx,PlateType::bottom,BC::SlipFree,0.25);
  std::vector<std::pair<T,Snap>> tr; observe(*s,[&](T t){ Snap S=snap(*s); S.x.resize(n); S.v.resize(n); S.F.resize(n); S.B.resize(n); S.tau.resize(n); S.muI.resize(n); tr.push_back({t,S}); });
  T fps=400; s->fps=fps; s->end_frame=g.frames; if (g.ratio>1) s->cfl_elastic=std::sqrt(s->E/s->rho)/dx/fps/g.ratio*1.0001; s->simulate(); T end=s->plates.back()->pos_object; tr.push_back({end,snap(*s)}); c.trans(tr.size()-1); for (auto& t:tr) c.state(hash(t.second)); if (s->exit) c.fail("run stopped");
  RefCfg rc; rc.dx=dx; rc.vol=s->particle_volume; rc.mass=s->particle_mass; rc.flip=g.flip; rc.g=s->gravity; rc.musl=g.musl; rc.pbc=g.pbc; rc.Lx=s->Lx; rc.mibf=g.mibf; rc.plates=&s->plates; rc.objects=&objs;
  std::string o=dir+"/out/"; size_t j=0; for (int k=0;k<=g.frames;k++){ while (j<tr.size()&&tr[j].first<k/fps-1e-9) j++; if (j>=tr.size()) c.fail("no state at frame %d",k); check_particles(c,*s,o+"particles_f"+std::to_string(k)+".ply",tr[j].second,n);
    std::string gf=o+"grid_f"+std::to_string(k)+".ply"; std::string tmp; if (k&&g.grid){ rc.dt=tr[j].first-tr[j-1].first; check_grid(c,*s,gf,tr[j-1].second,rc,true); } else if (!g.grid&&slurp(gf,tmp)) c.fail("grid file written although not requested"); }
  // information files
  auto nums=[&](const std::string& f){ std::string a; if (!slurp(o+f,a)) c.fail("no %s",f.c_str()); for (char& q:a) if (q==',') q=' '; std::istringstream is(a); std::vector<T> v; T y; while (is>>y) v.push_back(y); return v; };
  auto inf=nums("info.txt"); T want[]={(T)g.frames,fps,dx,(T)n,s->particle_volume}; if (inf.size()<5) c.fail("info.txt has %zu entries",inf.size()); for (int i=0;i<5;i++) if (!near_(inf[i],want[i],1e-5,1e-300)) c.fail("info.txt entry %d is %g, expected %g",i,inf[i],want[i]);
  auto lw=nums("last_written.txt"); if (lw.size()!=1||lw[0]!=g.frames) c.fail("last_written.txt names %g, last frame is %d",lw.empty()?-1:lw[0],g.frames); auto ti=nums("info_timing.txt"); if (ti.empty()||ti[0]!=(T)(tr.size()-1)) c.fail("info_timing.txt: %g steps, %zu taken",ti.empty()?-1:ti[0],tr.size()-1);
  // averages of the final state
  TM ca=TM::Zero(),ki=TM::Zero(); T Js=0; const Snap& e=tr.back().second; for (size_t p=0;p<n;p++){ T J=e.F[p].determinant()*std::exp(e.epv[p]); Js+=J; ca+=e.tau[p]; ki+=e.tau[p]*J; } ca/=Js; ki/=Js; T Ja=Js/n; TM a1,a2; T a3; s->computeAvgData(a1,a2,a3); T sc=1e-9*s->E; if (!(maxabs(TM(a1-ca))<=sc)||!(maxabs(TM(a2-ki))<=sc)||!near_(a3,Ja,1e-12,0)) c.fail("averages: Cauchy %s expected %s, Kirchhoff %s expected %s, J %.12g expected %.12g",str(a1).c_str(),str(ca).c_str(),str(a2).c_str(),str(ki).c_str(),a3,Ja);
  s->saveAvgData(); std::string fr=std::to_string(g.frames); auto fc=nums("avg_cauchy_frame_"+fr+".csv"), fk=nums("avg_kirchh_frame_"+fr+".csv"), fj=nums("avg_J_frame_"+fr+".csv"); if (fc.size()!=D*D||fk.size()!=D*D||fj.size()!=1) c.fail("averaged-stress files have %zu, %zu, %zu entries",fc.size(),fk.size(),fj.size()); for (int i=0;i<D;i++) for (int k=0;k<D;k++) if (!near_(fc[i*D+k],ca(i,k),2e-5,sc)||!near_(fk[i*D+k],ki(i,k),2e-5,sc)) c.fail("averaged-stress file entry %d,%d: %g %g expected %g %g",i,k,fc[i*D+k],fk[i*D+k],ca(i,k),ki(i,k)); if (!near_(fj[0],Ja,2e-5,0)) c.fail("avg_J file"); auto ls=nums("last_saved_frame.txt"); if (ls.size()!=1||ls[0]!=g.frames) c.fail("last_saved_frame.txt");
  s->saveParticleData("extra_"); check_particles(c,*s,o+"particles_fextra_"+fr+".ply",e,n); if (g.grid){ s->saveGridData("extra_"); rc.dt=tr.back().first-tr[tr.size()-2].first; check_grid(c,*s,o+"grid_fextra_"+fr+".ply",tr[tr.size()-2].second,rc,true); }
  c.note("%d frames, %zu steps, %zu particles, files equal the state",g.frames,tr.size()-1,n); wipe(dir); }
namespace mc { void families(std::vector<Family>& F){
  F.push_back({"models", {{"model",NM},{"cfg",tier()?16:4},{"mibf",2},{"musl",2},{"ratio",2},{"thr",2}}, [](Ctx& c,const Dig& d){ Cf g; g.model=d[0]; g.k=d[1]*5+1; g.mibf=d[2]; g.musl=d[3]; g.ratio=d[4]?3:1; g.thr=1+d[5]; g.cl=D==2?2:1; go(c,g); }});
  F.push_back({"grids", {{"cloud",NCLOUD},{"scheme",8},{"musl",2},{"mibf",2},{"bc",3},{"dx",2}}, [](Ctx& c,const Dig& d){ if (D==3&&!tier()&&d[0]==3&&d[5]) { c.skip(); return; } Cf g; g.cl=d[0]; g.flip=FLIP[d[1]]; g.musl=d[2]; g.mibf=d[3]; g.bc=d[4]; g.dx=d[5]?0.1:0.25; g.model=d[0]%2?6:0; g.frames=2; go(c,g); }});
  F.push_back({"periodic", {{"cloud",3},{"scheme",4},{"musl",2},{"mibf",2},{"bc",2},{"model",2}}, [](Ctx& c,const Dig& d){ Cf g; g.pbc=true; g.cl=d[0]; g.flip=FLIP[d[1]*2]; g.musl=d[2]; g.mibf=d[3]; g.bc=d[4]; g.model=d[5]?8:0; g.frames=2; go(c,g); }});
  F.push_back({"frames", {{"frames",tier()?30:12},{"ratio",3},{"grid",2}}, [](Ctx& c,const Dig& d){ Cf g; g.cl=1; g.frames=1+d[0]; g.ratio=1+d[1]; g.grid=d[2]; go(c,g); }});
  // frame numbers of four digits; many particles
  F.push_back({"many", {{"what",4}}, [](Ctx& c,const Dig& d){ Cf g; g.cl=0; g.grid=false; if (d[0]==0){ g.frames=1104; g.grid=true; } else if (d[0]==1){ g.frames=D==2?2049:1001; g.model=2; } else { g.big=d[0]==2?(D==2?66000:33000):4100; g.frames=1; g.model=d[0]==2?0:2; } go(c,g); }});
  // any state the particles can be in: strong compression and expansion, all magnitudes of stress, large plastic strains
  F.push_back({"states", {{"model",NM},{"J",6},{"stress",6},{"kind",4},{"rot",3},{"mibf",2}}, [](Ctx& c,const Dig& d){ static const T JS[]={0.02,0.3,0.8,1,2.5,40}, SS[]={0,1e-6,1,1e4,1e8,1e13}; int n=9; auto s=make(scaled(cloud(4,off(2)),0.25),0.25); n=s->Np; setmodel(*s,d[0],1+d[3]); std::string dir=scratch()+"/c16scratch"; wipe(dir); s->initialize(true,dir+"/","out"); s->use_mibf=d[5]; s->reduce_verbose=true;
    for (int p=0;p<n;p++){ s->particles.x[p]*=d[4]==1?-1000:1; s->particles.v[p]=gvec(p,21,d[2]<3?1e-7:300); s->particles.F[p]=trialF(std::log(JS[d[1]])*(p%3?1:0.7),d[3]%2?1.5*gen(p,3):1e-3,d[4]*2,p,p+1); TM t=TM::Zero(); T a=SS[d[2]]; if (d[3]==0) t=-a*TM::Identity(); else if (d[3]==1) t=gsym(p,51,a); else if (d[3]==2) t=gsym(p,52,1e-3*a)+a*TM::Identity(); else { t=gsym(p,53,a); t-=(t.trace()/D)*TM::Identity(); } s->particles.tau[p]=t; s->particles.eps_pl_vol[p]=2*gens(p,5); s->particles.eps_pl_dev[p]=30*gen(p,6); s->particles.delta_gamma[p]=d[2]*1e3*gen(p,7); s->particles.viscosity[p]=a*gen(p,8); s->particles.muI[p]=p%4==3?1e10:0.3*gen(p,9); }
    Snap e=snap(*s); s->saveParticleData("s_"); std::string o=dir+"/out/"; c.trans(); c.state(hash(e)); check_particles(c,*s,o+"particles_fs_0.ply",e,n,1e-9*std::min<T>(1,SS[d[2]])+1e-14*SS[d[2]]+1e-12);
    TM ca=TM::Zero(),ki=TM::Zero(); T Js=0; for (int p=0;p<n;p++){ T J=e.F[p].determinant()*std::exp(e.epv[p]); Js+=J; ca+=e.tau[p]; ki+=e.tau[p]*J; } ca/=Js; ki/=Js; TM a1,a2; T a3; s->computeAvgData(a1,a2,a3); T sc=1e-10*(SS[d[2]]+1e-9)*(1+n/Js); if (!(maxabs(TM(a1-ca))<=sc)||!(maxabs(TM(a2-ki))<=sc)||!near_(a3,Js/n,1e-9,0)) c.fail("averages: Cauchy %s expected %s, Kirchhoff %s expected %s, J %.12g expected %.12g",str(a1).c_str(),str(ca).c_str(),str(a2).c_str(),str(ki).c_str(),a3,Js/n);
    Snap f=snap(*s); if (hash(f)!=hash(e)) c.fail("saving changed the state"); wipe(dir); }});
  contexts(F,{DC_THREADS8,DC_FAR,DC_AFTER,DC_LENGTHS},2,{"models","grids","periodic","frames"});
}}
MC_MAIN
