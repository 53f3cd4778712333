// C17: every prefix of the system calls of a run (and every torn write) leaves a consistent output directory.
// The run is a traced child; after every system call that can change the directory, and for prefixes of every write, the directory is what a kill at that moment leaves behind.
#include "matcheck.hpp"
#include "ply.hpp"
#include <fcntl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
using namespace mc;
typedef std::map<std::string,std::string> Dir;
static Dir readdir_(const std::string& d){ Dir r; for (auto& f:listdir(d)){ std::string b; struct stat st; if (lstat((d+"/"+f).c_str(),&st)==0&&S_ISREG(st.st_mode)&&slurp(d+"/"+f,b)) r[f]=b; } return r; }
static int frame_of(const std::string& f,const char* pre){ size_t n=strlen(pre); if (f.compare(0,n,pre)!=0||f.size()<n+5||f.substr(f.size()-4)!=".ply") return -1; std::string m=f.substr(n,f.size()-n-4); for (char c:m) if (!isdigit(c)) return -1; return m.empty()?-1:atoi(m.c_str()); }
static int marker(const Dir& d){ auto it=d.find("last_written.txt"); if (it==d.end()) return -1; const std::string& s=it->second; size_t i=0; while (i<s.size()&&isdigit(s[i])) i++; return i?atoi(s.c_str()):-1; }
struct Cf { int frames=2,cl=2,model=0,k=0,ratio=1; bool grid=false,pbc=false,mibf=false,musl=false; };
static void setmodel(Simulation& s,int m,int k){ if (m==0){ common_mat(s); s.plastic_model=PlasticModel::NoPlasticity; } else if (m<5) cfg_ri(s,m-1,k%NCFG_RI[m-1]); else cfg_vi(s,m-5,k%NCFG_VI[m-5]); }
static void sim(const Cf& g,const std::string& dir){ T dx=0.25; std::vector<TV> x; if (g.cl>=6){ int N=g.cl==6?150:900; for (int k=0;k<N;k++){ TV p; for (int d=0;d<D;d++) p(d)=dx*(3+4*gen(k,d+1)); x.push_back(p); } } else x=scaled(cloud(g.cl,off(3)),dx);
  auto s=make(x,dx); setmodel(*s,g.model,g.k); s->initialize(true,dir+"/","out"); s->save_grid=g.grid; s->reduce_verbose=true; s->use_mibf=g.mibf; s->use_musl=g.musl; s->gravity=TV::Zero(); s->gravity(1)=-3; if (g.pbc){ s->pbc=true; s->Lx=10*dx; s->Ly=9*dx;
    #ifdef THREEDIM
    s->Lz=9*dx;
    #endif
  } for (size_t p=0;p<x.size();p++) s->particles.v[p]=gvec(p,21,0.5); s->fps=400; s->end_frame=g.frames; if (g.ratio>1) s->cfl_elastic=std::sqrt(s->E/s->rho)/dx/s->fps/g.ratio*1.0001; s->simulate(); }
static std::string consistent(const Dir& d,const Dir& fin,int named){ // named: highest frame the marker ever named
  char t[300]; int m=marker(d); if (m>=0){ std::string f="particles_f"+std::to_string(m)+".ply"; auto it=d.find(f), jt=fin.find(f); if (it==d.end()){ snprintf(t,300,"the marker names frame %d but %s does not exist",m,f.c_str()); return t; } if (jt==fin.end()||it->second!=jt->second){ snprintf(t,300,"the marker names frame %d but %s is incomplete (%zu of %zu bytes)",m,f.c_str(),it->second.size(),jt==fin.end()?0:jt->second.size()); return t; } }
  int top=std::max(m,named); for (auto& e:d) for (auto pre:{"particles_f","grid_f"}) top=std::max(top,frame_of(e.first,pre));
  for (auto& e:fin) for (auto pre:{"particles_f","grid_f"}){ int k=frame_of(e.first,pre); if (k<0||k>=top) continue; auto it=d.find(e.first); if (it==d.end()){ snprintf(t,300,"frame %d has begun but %s does not exist",top,e.first.c_str()); return t; } if (it->second!=e.second){ snprintf(t,300,"frame %d has begun but %s is incomplete (%zu of %zu bytes)",top,e.first.c_str(),it->second.size(),e.second.size()); return t; } }
  if (named>=0){ std::string f="particles_f"+std::to_string(named)+".ply"; auto it=d.find(f), jt=fin.find(f); if (jt!=fin.end()&&(it==d.end()||it->second!=jt->second)){ snprintf(t,300,"%s was complete when the marker named frame %d and is not any more",f.c_str(),named); return t; } }
  return ""; }
static std::string peekstr(pid_t p,unsigned long a){ std::string r; char b[4096]; struct iovec l{b,sizeof b}, m{(void*)a,256}; ssize_t n=process_vm_readv(p,&l,1,&m,1,0); if (n<=0){ for (int i=0;i<256;i+=8){ long w=ptrace(PTRACE_PEEKDATA,p,(void*)(a+i),0); for (int j=0;j<8;j++){ char ch=((char*)&w)[j]; if (!ch) return r; r+=ch; } } return r; } for (ssize_t i=0;i<n&&b[i];i++) r+=b[i]; return r; }
static std::string peekbuf(pid_t p,unsigned long a,size_t n){ std::string r(n,0); size_t o=0; while (o<n){ struct iovec l{&r[o],n-o}, m{(void*)(a+o),n-o}; ssize_t k=process_vm_readv(p,&l,1,&m,1,0); if (k<=0) break; o+=k; } for (;o<n;o+=8){ long w=ptrace(PTRACE_PEEKDATA,p,(void*)(a+o),0); memcpy(&r[o],&w,std::min<size_t>(8,n-o)); } return r; }
static void go(Ctx& c,const Cf& g){ std::string base=scratch()+"/c17scratch", out=base+"/out"; Dir fin; 
  // what the finished run leaves
  { wipe(base); pid_t p=fork(); if (!p){ sim(g,base); _exit(0); } int st; waitpid(p,&st,0); if (!WIFEXITED(st)||WEXITSTATUS(st)) c.fail("run crashed"); fin=readdir_(out); wipe(base); }
  for (int k=0;k<=g.frames;k++){ std::string f="particles_f"+std::to_string(k)+".ply"; if (!fin.count(f)) c.fail("%s missing after the run",f.c_str()); auto p=parse_ply(fin[f]); if (!p.ok) c.fail("%s after the run: %s",f.c_str(),p.err.c_str()); } if (marker(fin)!=g.frames) c.fail("the marker names %d after the run",marker(fin));
  pid_t p=fork(); if (!p){ ptrace(PTRACE_TRACEME,0,0,0); raise(SIGSTOP); sim(g,base); _exit(0); }
  int st; waitpid(p,&st,0); auto bail=[&](const std::string& m){ kill(p,SIGKILL); int s2; waitpid(p,&s2,0); wipe(base); c.fail("%s",m.c_str()); };
  if (!WIFSTOPPED(st)||ptrace(PTRACE_SETOPTIONS,p,0,PTRACE_O_TRACESYSGOOD|PTRACE_O_EXITKILL)) { kill(p,SIGKILL); waitpid(p,&st,0); fprintf(stderr,"ptrace not available\n"); _exit(77); }
  bool entry=true; long calls=0,torn=0; int named=-1; std::map<std::string,int> opened; Dir cur; std::string last;
  struct Pend { long nr=0; std::string path; bool wr=false; } pe; int sig=0;
  while (true){ if (ptrace(PTRACE_SYSCALL,p,0,(void*)(long)sig)) break; sig=0; if (waitpid(p,&st,0)<0) break; if (WIFEXITED(st)||WIFSIGNALED(st)) break; if (!WIFSTOPPED(st)) continue; if (WSTOPSIG(st)!=(SIGTRAP|0x80)){ sig=WSTOPSIG(st); if (sig==SIGTRAP||sig==SIGSTOP) sig=0; continue; }
    struct user_regs_struct r; ptrace(PTRACE_GETREGS,p,0,&r); long nr=r.orig_rax;
    if (entry){ entry=false; pe=Pend(); pe.nr=nr; 
      if (nr==SYS_openat||nr==SYS_open||nr==SYS_creat||nr==SYS_openat2){ pe.path=peekstr(p,nr==SYS_openat||nr==SYS_openat2?r.rsi:r.rdi); int fl=nr==SYS_openat?r.rdx:nr==SYS_open?r.rsi:O_WRONLY|O_CREAT; pe.wr=(fl&O_ACCMODE)!=O_RDONLY||(fl&(O_CREAT|O_TRUNC)); }
      if (nr==SYS_write||nr==SYS_writev||nr==SYS_pwrite64){ char lk[64],pt[600]; snprintf(lk,64,"/proc/%d/fd/%d",p,(int)r.rdi); ssize_t k=readlink(lk,pt,599); if (k>0){ pt[k]=0; std::string f=pt; if (f.compare(0,out.size()+1,out+"/")==0){ f=f.substr(out.size()+1); std::string data; if (nr!=SYS_writev) data=peekbuf(p,r.rsi,r.rdx); else { std::string iv=peekbuf(p,r.rsi,r.rdx*sizeof(struct iovec)); for (size_t i=0;i<r.rdx;i++){ struct iovec v; memcpy(&v,&iv[i*sizeof v],sizeof v); data+=peekbuf(p,(unsigned long)v.iov_base,v.iov_len); } }
          size_t o=0; if (nr==SYS_pwrite64) o=r.r10; else { char fi[64]; snprintf(fi,64,"/proc/%d/fdinfo/%d",p,(int)r.rdi); std::string a; slurp(fi,a); size_t q=a.find("pos:"); if (q!=std::string::npos) o=atol(a.c_str()+q+4); }
          std::set<size_t> cut; for (size_t q=1;q<data.size()&&q<=4;q++) cut.insert(q); for (size_t q=4096-o%4096;q<data.size();q+=4096) cut.insert(q); for (size_t q:{data.size()/4,data.size()/2,3*data.size()/4}) if (q) cut.insert(q); for (size_t q=1;q<=8&&q<data.size();q+=(q==1?6:1)) cut.insert(data.size()-q);
          Dir d=readdir_(out); std::string old=d[f]; for (size_t q:cut){ std::string n=old; if (n.size()<o+q) n.resize(o+q); memcpy(&n[o],data.data(),q); d[f]=n; torn++; std::string w=consistent(d,fin,named); if (!w.empty()) bail("killed during a write to "+f+" (after "+std::to_string(q)+" bytes): "+w); uint64_t h=mix(q,o); for (auto& e:d) h=mix(mix(h,e.second.size()),std::hash<std::string>()(e.first)); c.state(h); } } } }
    } else { entry=true; switch (nr){ case SYS_openat: case SYS_open: case SYS_creat: case SYS_openat2: case SYS_write: case SYS_writev: case SYS_pwrite64: case SYS_close: case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_unlinkat: case SYS_ftruncate: case SYS_truncate: case SYS_mkdir: case SYS_mkdirat: case SYS_link: case SYS_linkat: case SYS_symlink: case SYS_fsync: case SYS_munmap: case SYS_msync: break; default: continue; }
      calls++; if (pe.wr&&pe.path.compare(0,out.size()+1,out+"/")==0&&(long)r.rax>=0){ std::string f=pe.path.substr(out.size()+1); for (auto pre:{"particles_f","grid_f"}){ int k=frame_of(f,pre); if (k<0) continue; if (opened[f]++&&k<=named) bail(f+" is opened again for writing after the marker named frame "+std::to_string(named)); if (k<named) bail(f+" is opened for writing after the marker named frame "+std::to_string(named)); } }
      Dir d=readdir_(out); if (d!=cur){ cur=d; uint64_t h=7; for (auto& e:d) h=mix(mix(h,e.second.size()),std::hash<std::string>()(e.first)); c.state(h); std::string w=consistent(d,fin,named); if (!w.empty()) bail("killed after system call "+std::to_string(calls)+": "+w); int m=marker(d); if (m>named) named=m; } } }
  if (!WIFEXITED(st)||WEXITSTATUS(st)){ wipe(base); c.fail("traced run ended abnormally (status %x)",st); }
  Dir d=readdir_(out); for (auto& e:fin) if (e.first!="info_timing.txt"&&d[e.first]!=e.second){ wipe(base); c.fail("two runs of the same set-up differ in %s",e.first.c_str()); }
  c.trans(calls+torn); sh()->extra[0]+=calls; sh()->extra[1]+=torn; c.note("%d frames: %ld kill points at system calls, %ld torn writes, %zu files",g.frames,calls,torn,fin.size()); wipe(base); }
namespace mc { void families(std::vector<Family>& F){ case_limit(120);
  F.push_back({"kill", {{"frames",tier()?12:4},{"grid",2},{"ratio",2},{"size",3},{"pbc",2}}, [](Ctx& c,const Dig& d){ Cf g; g.frames=1+d[0]; g.grid=d[1]; g.ratio=d[2]?3:1; g.cl=d[3]==0?2:d[3]==1?6:7; g.pbc=d[4]; if (D==3&&!tier()&&d[1]&&d[3]) { c.skip(); return; } go(c,g); }});
  F.push_back({"models", {{"model",10},{"mibf",2},{"musl",2},{"grid",2},{"size",2}}, [](Ctx& c,const Dig& d){ if (D==3&&d[3]&&d[4]&&!tier()) { c.skip(); return; } Cf g; g.model=d[0]; g.k=1; g.mibf=d[1]; g.musl=d[2]; g.grid=d[3]; g.cl=d[4]?6:1; g.frames=d[4]?1:3; go(c,g); }});
  F.push_back({"long", {{"frames",tier()?6:3},{"grid",2}}, [](Ctx& c,const Dig& d){ Cf g; g.frames=11+d[0]*(tier()?37:4); g.grid=d[1]; g.cl=1; if (D==3&&d[1]&&!tier()) { c.skip(); return; } go(c,g); }});
}}
MC_MAIN
