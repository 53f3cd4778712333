#include "gomp_mc.hpp"
#include <ucontext.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <new>
#include <unordered_map>
#include <execinfo.h>
#include <dlfcn.h>

namespace mc {
SchedHooks hooks; int order = 0; long n_regions = 0, n_switch = 0, n_sync = 0;
std::vector<Race> races; long n_access = 0; bool detect = false;

static bool busy = false, inbook = false; // run time code is not watched
struct Quiet { bool s; Quiet() : s(busy) { busy = true; } ~Quiet(){ busy = s; } };
static const size_t STK = 1 << 20;
enum St { RUN, BLOCK_LOCK, BLOCK_BARRIER, DONE };
struct Thr { ucontext_t ctx; char* stk = nullptr; St st = RUN; void* want = nullptr; long ws = 0; long singles = 0;
             std::vector<uint32_t> vc; long lo=0, hi=0; };
struct WS { bool init=false; bool up=true; long next=0,end=0,incr=1,chunk=1; int done=0; unsigned long long unext=0; long sect=0; void* copy=nullptr; };
struct Team { int n; void (*fn)(void*); void* data; std::vector<Thr> t; int cur=-1; int at_barrier=0; ucontext_t main;
              std::map<void*,int> owner; std::map<void*,std::vector<uint32_t>> lockvc; std::vector<WS> ws; std::map<long,bool> single_taken;
              void* copyprivate=nullptr; bool cancelled=false; };
static Team* team = nullptr; static int nested = 0; static int def_threads = 1;
static std::vector<char*> stacks;
bool in_region(){ return team && !nested; }
int current_thread(){ return team ? team->cur : -1; }

static char* get_stack(size_t i){
    while (stacks.size() <= i){
        char* p = (char*)mmap(nullptr, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED){ perror("mmap"); abort(); }
        stacks.push_back(p);
    }
    return stacks[i];
}
static void tramp(){
    Team* T = team; int id = T->cur; busy = false;
    T->fn(T->data);
    busy = true;
    T->t[id].st = DONE;
    swapcontext(&T->t[id].ctx, &T->main);
}
static void yield_to_sched(){ Team* T = team; n_switch++; bool b = busy; busy = true; swapcontext(&T->t[T->cur].ctx, &T->main); busy = b; }
// a scheduling point of the running thread (still enabled)
static void point(){ if (team && !nested && hooks.choose) yield_to_sched(); }
void force_yield(){ point(); }

static void join_vc(std::vector<uint32_t>& a, const std::vector<uint32_t>& b){ for (size_t i=0;i<b.size();i++) if (b[i]>a[i]) a[i]=b[i]; }
void shadow_clear();

static void run_team(Team& T){
    Quiet q_;
    team = &T; n_regions++;
    if (hooks.region_begin) hooks.region_begin(T.n);
    shadow_clear();
    for (int i=0;i<T.n;i++){
        Thr& th = T.t[i]; th.stk = get_stack(i);
        getcontext(&th.ctx); th.ctx.uc_stack.ss_sp = th.stk; th.ctx.uc_stack.ss_size = STK; th.ctx.uc_link = &T.main;
        makecontext(&th.ctx, tramp, 0);
        th.vc.assign(T.n, 0); th.vc[i] = 1;
    }
    int last = -1;
    for(;;){
        std::vector<int> en;
        bool cur_en = false;
        auto enabled = [&](int i){ Thr& th=T.t[i];
            if (th.st==RUN) return true;
            if (th.st==BLOCK_LOCK){ auto it=T.owner.find(th.want); return it==T.owner.end() || it->second<0; }
            return false; };
        if (last>=0 && enabled(last)){ en.push_back(last); cur_en=true; }
        if (order==0) for (int i=0;i<T.n;i++){ if (i!=last && enabled(i)) en.push_back(i); }
        else for (int i=T.n-1;i>=0;i--){ if (i!=last && enabled(i)) en.push_back(i); }
        if (en.empty()){
            bool all=true; for (auto& th:T.t) if (th.st!=DONE) all=false;
            if (all) break;
            fprintf(stderr,"mc: deadlock in parallel region\n"); abort();
        }
        int k = 0;
        if (hooks.choose && en.size()>1) k = hooks.choose(en, cur_en);
        if (k<0 || k>=(int)en.size()){ fprintf(stderr,"mc: bad choice\n"); _Exit(99); }
        int id = en[k];
        T.cur = id; last = id;
        if (T.t[id].st==BLOCK_LOCK) T.t[id].st=RUN;
        swapcontext(&T.main, &T.t[id].ctx);
    }
    shadow_clear();
    if (hooks.region_end) hooks.region_end(T.n);
    team = nullptr;
}
static void parallel(void (*fn)(void*), void* data, unsigned n, std::function<void(Team&)> init = {}){
    if (n==0) n = def_threads;
    if (n > 256) n = 256;
    if (team){ Quiet q0_; busy = q0_.s; nested++; Team* s=team; (void)s; fn(data); nested--; return; }
    Team T; T.n = n; T.fn = fn; T.data = data; T.t.resize(n);
    if (init) init(T);
    run_team(T);
}
static void lock_acquire(void* l){
    Quiet q_;
    if (!team || nested) return;
    n_sync++;
    Thr& me = team->t[team->cur];
    point();
    while (true){
        auto it = team->owner.find(l);
        if (it==team->owner.end() || it->second<0) break;
        me.st = BLOCK_LOCK; me.want = l; yield_to_sched();
    }
    team->owner[l] = team->cur;
    auto& lv = team->lockvc[l]; if (lv.empty()) lv.assign(team->n,0);
    join_vc(me.vc, lv);
}
static void lock_release(void* l){
    Quiet q_;
    if (!team || nested) return;
    Thr& me = team->t[team->cur];
    auto& lv = team->lockvc[l]; if (lv.empty()) lv.assign(team->n,0);
    join_vc(lv, me.vc);
    me.vc[team->cur]++;
    team->owner[l] = -1;
    point();
}
static void barrier(){
    Quiet q_;
    if (!team || nested) return;
    n_sync++;
    Team* T = team; Thr& me = T->t[T->cur];
    T->at_barrier++;
    if (T->at_barrier == T->n){
        T->at_barrier = 0;
        std::vector<uint32_t> v(T->n,0);
        for (auto& th:T->t) join_vc(v, th.vc);
        for (int i=0;i<T->n;i++){ T->t[i].vc = v; T->t[i].vc[i]++; if (T->t[i].st==BLOCK_BARRIER) T->t[i].st=RUN; }
        point();
    } else { me.st = BLOCK_BARRIER; yield_to_sched(); }
}
static WS& workshare(){ // the current work-sharing construct of this thread
    Team* T = team; Thr& me = T->t[T->cur];
    while ((long)T->ws.size() <= me.ws) T->ws.emplace_back();
    return T->ws[me.ws];
}
static char crit_default, atomic_lock;
static WS solo_ws; // work sharing outside a team
static WS& ws_cur(){ return (team && !nested) ? workshare() : solo_ws; }
static bool loop_next(long* a, long* b){
    Quiet q_;
    WS& w = ws_cur(); point();
    if (w.up ? w.next >= w.end : w.next <= w.end) return false;
    *a = w.next; long e = w.next + w.chunk*w.incr;
    if (w.up ? e > w.end : e < w.end) e = w.end;
    *b = e; w.next = e; return true;
}
static bool loop_start(long s,long e,long inc,long chunk,long* a,long* b){
    Quiet q_;
    if (team && !nested){ Thr& me=team->t[team->cur]; me.ws++; }
    else solo_ws = WS();
    WS& w = ws_cur();
    if (!w.init){ w.init=true; w.up = inc>0; w.next=s; w.end=e; w.incr=inc; w.chunk = chunk>0?chunk:1; }
    if (!a) return true;
    return loop_next(a,b);
}
}
using namespace mc;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned){ parallel(fn,data,n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned){ parallel(fn,data,n); return n?n:def_threads; }
#define PLOOP(NAME) void NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, long chunk, unsigned){ \
    parallel(fn,data,n,[=](Team& T){ T.ws.resize(1); WS& w=T.ws[0]; w.init=true; w.up=inc>0; w.next=s; w.end=e; w.incr=inc; w.chunk=chunk>0?chunk:1; }); }
PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_guided) PLOOP(GOMP_parallel_loop_static)
#define PLOOPR(NAME) void NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long inc, unsigned){ \
    parallel(fn,data,n,[=](Team& T){ T.ws.resize(1); WS& w=T.ws[0]; w.init=true; w.up=inc>0; w.next=s; w.end=e; w.incr=inc; w.chunk=1; }); }
PLOOPR(GOMP_parallel_loop_runtime) PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime) PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
#define LSTART(NAME) bool NAME(long s,long e,long inc,long chunk,long*a,long*b){ return loop_start(s,e,inc,chunk,a,b); }
LSTART(GOMP_loop_dynamic_start) LSTART(GOMP_loop_guided_start) LSTART(GOMP_loop_nonmonotonic_dynamic_start) LSTART(GOMP_loop_nonmonotonic_guided_start) LSTART(GOMP_loop_static_start)
LSTART(GOMP_loop_ordered_static_start) LSTART(GOMP_loop_ordered_dynamic_start)
#define LNEXT(NAME) bool NAME(long*a,long*b){ return loop_next(a,b); }
LNEXT(GOMP_loop_dynamic_next) LNEXT(GOMP_loop_guided_next) LNEXT(GOMP_loop_nonmonotonic_dynamic_next) LNEXT(GOMP_loop_nonmonotonic_guided_next) LNEXT(GOMP_loop_static_next)
LNEXT(GOMP_loop_runtime_next) LNEXT(GOMP_loop_maybe_nonmonotonic_runtime_next) LNEXT(GOMP_loop_nonmonotonic_runtime_next)
bool GOMP_loop_runtime_start(long s,long e,long inc,long*a,long*b){ return loop_start(s,e,inc,1,a,b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s,long e,long inc,long*a,long*b){ return loop_start(s,e,inc,1,a,b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s,long e,long inc,long*a,long*b){ return loop_start(s,e,inc,1,a,b); }
bool GOMP_loop_start(long s,long e,long inc,long,long chunk,long*a,long*b,uintptr_t*,void**){ return loop_start(s,e,inc,chunk,a,b); }
// unsigned long long versions (up/down encoded)
static bool ull_next(unsigned long long*a,unsigned long long*b){ long x,y; bool r=loop_next(&x,&y); if(r){*a=x;*b=y;} return r; }
static bool ull_start(bool up,unsigned long long s,unsigned long long e,unsigned long long inc,unsigned long long chunk,unsigned long long*a,unsigned long long*b){
    long x,y; (void)up; bool r=loop_start((long)s,(long)e,(long)inc,(long)chunk,&x,&y); if(r){*a=x;*b=y;} return r; }
#define USTART(NAME) bool NAME(bool up,unsigned long long s,unsigned long long e,unsigned long long inc,unsigned long long chunk,unsigned long long*a,unsigned long long*b){ return ull_start(up,s,e,inc,chunk,a,b); }
#define UNEXT(NAME) bool NAME(unsigned long long*a,unsigned long long*b){ return ull_next(a,b); }
USTART(GOMP_loop_ull_dynamic_start) USTART(GOMP_loop_ull_guided_start) USTART(GOMP_loop_ull_nonmonotonic_dynamic_start) USTART(GOMP_loop_ull_nonmonotonic_guided_start)
UNEXT(GOMP_loop_ull_dynamic_next) UNEXT(GOMP_loop_ull_guided_next) UNEXT(GOMP_loop_ull_nonmonotonic_dynamic_next) UNEXT(GOMP_loop_ull_nonmonotonic_guided_next)
void GOMP_loop_end(){ barrier(); }
void GOMP_loop_end_nowait(){}
bool GOMP_loop_end_cancel(){ barrier(); return false; }
void GOMP_barrier(){ barrier(); }
bool GOMP_barrier_cancel(){ barrier(); return false; }
bool GOMP_cancel(int,bool){ return false; }
bool GOMP_cancellation_point(int){ return false; }
void GOMP_critical_start(){ lock_acquire(&crit_default); }
void GOMP_critical_end(){ lock_release(&crit_default); }
void GOMP_critical_name_start(void** p){ lock_acquire(p); }
void GOMP_critical_name_end(void** p){ lock_release(p); }
void GOMP_atomic_start(){ lock_acquire(&atomic_lock); }
void GOMP_atomic_end(){ lock_release(&atomic_lock); }
void GOMP_ordered_start(){} void GOMP_ordered_end(){}
void GOMP_doacross_post(long*){} void GOMP_taskwait(){} void GOMP_taskyield(){}
void GOMP_taskgroup_start(){} void GOMP_taskgroup_end(){}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*,void*), long sz, long al, bool, unsigned, void**, int, void*){
    if (cpy){ std::vector<char> buf(sz+al); char* p=(char*)(((uintptr_t)buf.data()+al-1)/al*al); cpy(p,data); fn(p); } else fn(data); }
bool GOMP_single_start(){ Quiet q_; if (!team||nested) return true; Thr& me=team->t[team->cur]; long k=++me.singles; point(); if (team->single_taken[k]) return false; team->single_taken[k]=true; return true; }
void* GOMP_single_copy_start(){ Quiet q_; if (!team||nested) return nullptr; Thr& me=team->t[team->cur]; long k=++me.singles; if (!team->single_taken[k]){ team->single_taken[k]=true; return nullptr; } barrier(); return team->copyprivate; }
void GOMP_single_copy_end(void* d){ if (!team||nested) return; team->copyprivate=d; barrier(); }
static unsigned sect_next(){ Quiet q_; WS& w=ws_cur(); point(); if (w.next>=w.end) return 0; return ++w.next; }
unsigned GOMP_sections_start(unsigned n){ Quiet q_; if (team && !nested) team->t[team->cur].ws++; else solo_ws=WS(); WS& w=ws_cur(); if(!w.init){w.init=true;w.next=0;w.end=n;} return sect_next(); }
unsigned GOMP_sections_next(){ return sect_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned cnt, unsigned){ parallel(fn,data,n,[=](Team& T){ T.ws.resize(1); T.ws[0].init=true; T.ws[0].next=0; T.ws[0].end=cnt; }); }
void GOMP_sections_end(){ barrier(); } void GOMP_sections_end_nowait(){} bool GOMP_sections_end_cancel(){ barrier(); return false; }
int omp_get_thread_num(){ return (team&&!nested)?team->cur:0; }
int omp_get_num_threads(){ return (team&&!nested)?team->n:1; }
int omp_get_max_threads(){ return def_threads; }
void omp_set_num_threads(int n){ def_threads=n>0?n:1; }
int omp_get_num_procs(){ return 8; }
int omp_in_parallel(){ return team!=nullptr; }
void omp_set_dynamic(int){} int omp_get_dynamic(){return 0;} void omp_set_nested(int){} int omp_get_nested(){return 0;}
int omp_get_thread_limit(){return 1000;} int omp_get_level(){return team?1:0;} int omp_get_active_level(){return team?1:0;}
int omp_get_team_size(int){ return team?team->n:1; } void omp_set_schedule(int,int){} void omp_set_max_active_levels(int){}
double omp_get_wtime(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
double omp_get_wtick(){ return 1e-9; }
void omp_init_lock(void*){} void omp_destroy_lock(void*){} void omp_set_lock(void* l){ lock_acquire(l);} void omp_unset_lock(void* l){ lock_release(l);}
int omp_test_lock(void* l){ lock_acquire(l); return 1; }
}

#ifndef MC_TSAN
namespace mc { void shadow_clear(){} }
#else
// ---------------------------------------------------------------- race detector
namespace mc {
struct Acc { uint32_t clk; uint16_t tid; uint8_t mask; uint8_t flags; uintptr_t pc; }; // flags 1=write 2=atomic 4=free
struct Cell { std::vector<Acc> a; };
static std::unordered_map<uintptr_t, std::vector<Acc>>* shadow = nullptr;
void shadow_clear(){ if (shadow){ bool b=busy; busy=inbook=true; shadow->clear(); inbook=false; busy=b; } }
static bool own_stack(uintptr_t a){ int c=team->cur; uintptr_t s=(uintptr_t)team->t[c].stk; return a>=s && a<s+STK; }
static std::string sym(uintptr_t pc){ Dl_info i; char b[64]; if (dladdr((void*)pc,&i)&&i.dli_fbase) snprintf(b,sizeof b,"+0x%lx",(unsigned long)(pc-(uintptr_t)i.dli_fbase)); else snprintf(b,sizeof b,"0x%lx",(unsigned long)pc); return b; }
static void acc1(uintptr_t gran, uint8_t mask, uint8_t flags, uintptr_t pc){
    Thr& me = team->t[team->cur]; int tid = team->cur; uint32_t clk = me.vc[tid];
    auto& v = (*shadow)[gran];
    for (auto& x : v){
        if (x.tid==tid || !(x.mask & mask)) continue;
        if (!((x.flags|flags)&1)) continue;
        if ((x.flags&2)&&(flags&2)) continue;
        if (x.clk <= me.vc[x.tid]) continue; // ordered
        if (races.size()<4){
            char b[300]; snprintf(b,sizeof b,"%s by thread %d at %s conflicts with %s by thread %d at %s", (flags&4)?"free":(flags&1)?"write":"read",tid,sym(pc).c_str(),(x.flags&4)?"free":(x.flags&1)?"write":"read",x.tid,sym(x.pc).c_str());
            races.push_back({b});
        }
        return;
    }
    for (auto& x : v) if (x.tid==tid && x.flags==flags && x.mask==mask){ x.clk=clk; x.pc=pc; return; }
    v.push_back({clk,(uint16_t)tid,mask,flags,pc});
}
static void access(void* p, size_t n, uint8_t flags, uintptr_t pc){
    if (!detect || busy || !team || nested || team->cur<0) return;
    uintptr_t a=(uintptr_t)p; if (own_stack(a)) return;
    busy=inbook=true; n_access++;
    if (!shadow) shadow=new std::unordered_map<uintptr_t,std::vector<Acc>>();
    uintptr_t e=a+n;
    while (a<e){ uintptr_t g=a>>3; uintptr_t ge=(g+1)<<3; uintptr_t t=e<ge?e:ge; uint8_t m=0; for (uintptr_t q=a;q<t;q++) m|=1u<<(q&7); acc1(g,m,flags,pc); a=t; }
    busy=inbook=false;
}
static void clear_range(void* p,size_t n){
    if (!detect || busy || !team || nested || !shadow || team->cur<0) return;
    busy=inbook=true; uintptr_t a=(uintptr_t)p>>3, e=((uintptr_t)p+n+7)>>3; for (;a<e;a++) shadow->erase(a); busy=inbook=false;
}
static std::unordered_map<void*,size_t>* sizes(){ static std::unordered_map<void*,size_t>* s=nullptr; if(!s) s=new std::unordered_map<void*,size_t>(); return s; }
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(N) void __tsan_read##N(void*p){ access(p,N,0,PC);} void __tsan_write##N(void*p){ access(p,N,1,PC);} \
 void __tsan_unaligned_read##N(void*p){ access(p,N,0,PC);} void __tsan_unaligned_write##N(void*p){ access(p,N,1,PC);} \
 void __tsan_volatile_read##N(void*p){ access(p,N,0,PC);} void __tsan_volatile_write##N(void*p){ access(p,N,1,PC);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*p,unsigned long n){ access(p,n,0,PC);} void __tsan_write_range(void*p,unsigned long n){ access(p,n,1,PC);}
void __tsan_vptr_update(void**p,void*){ access(p,8,1,PC);} void __tsan_vptr_read(void**p){ access(p,8,0,PC);}
#define AT(B,TY) TY __tsan_atomic##B##_load(const volatile TY*a,int){ access((void*)a,B/8,2,PC); return *a;} \
 void __tsan_atomic##B##_store(volatile TY*a,TY v,int){ access((void*)a,B/8,3,PC); *a=v;} \
 TY __tsan_atomic##B##_exchange(volatile TY*a,TY v,int){ access((void*)a,B/8,3,PC); TY o=*a; *a=v; return o;} \
 TY __tsan_atomic##B##_fetch_add(volatile TY*a,TY v,int){ access((void*)a,B/8,3,PC); TY o=*a; *a=o+v; return o;} \
 TY __tsan_atomic##B##_fetch_sub(volatile TY*a,TY v,int){ access((void*)a,B/8,3,PC); TY o=*a; *a=o-v; return o;} \
 TY __tsan_atomic##B##_fetch_and(volatile TY*a,TY v,int){ access((void*)a,B/8,3,PC); TY o=*a; *a=o&v; return o;} \
 TY __tsan_atomic##B##_fetch_or(volatile TY*a,TY v,int){ access((void*)a,B/8,3,PC); TY o=*a; *a=o|v; return o;} \
 TY __tsan_atomic##B##_fetch_xor(volatile TY*a,TY v,int){ access((void*)a,B/8,3,PC); TY o=*a; *a=o^v; return o;} \
 int __tsan_atomic##B##_compare_exchange_strong(volatile TY*a,TY*c,TY v,int,int){ access((void*)a,B/8,3,PC); TY o=*a; if(o==*c){*a=v;return 1;} *c=o; return 0;} \
 int __tsan_atomic##B##_compare_exchange_weak(volatile TY*a,TY*c,TY v,int,int){ access((void*)a,B/8,3,PC); TY o=*a; if(o==*c){*a=v;return 1;} *c=o; return 0;} \
 TY __tsan_atomic##B##_compare_exchange_val(volatile TY*a,TY c,TY v,int,int){ access((void*)a,B/8,3,PC); TY o=*a; if(o==c)*a=v; return o;}
AT(8,unsigned char) AT(16,unsigned short) AT(32,unsigned int) AT(64,unsigned long)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
void* __real_memcpy(void*,const void*,size_t); void* __real_memmove(void*,const void*,size_t); void* __real_memset(void*,int,size_t);
void* __wrap_memcpy(void*d,const void*s,size_t n){ access((void*)s,n,0,PC); access(d,n,1,PC); return __real_memcpy(d,s,n); }
void* __wrap_memmove(void*d,const void*s,size_t n){ access((void*)s,n,0,PC); access(d,n,1,PC); return __real_memmove(d,s,n); }
void* __wrap_memset(void*d,int c,size_t n){ access(d,n,1,PC); return __real_memset(d,c,n); }
}
static void* mc_alloc(size_t n){ void* p=malloc(n?n:1); if(!p) abort(); if (detect && team && !nested && !inbook){ bool b=busy; busy=false; clear_range(p,n); busy=b; }
    if (!inbook){ bool b=busy; busy=inbook=true; (*sizes())[p]=n; inbook=false; busy=b; } return p; }
static void mc_free(void* p,uintptr_t pc){ if(!p) return; if (!inbook){ size_t n=0; bool b=busy; busy=inbook=true; auto it=sizes()->find(p); if(it!=sizes()->end()){n=it->second; sizes()->erase(it);} inbook=false; busy=b; if (n) access(p,n,5,pc); } free(p); }
void* operator new(size_t n){ return mc_alloc(n); }
void* operator new[](size_t n){ return mc_alloc(n); }
void operator delete(void* p) noexcept { mc_free(p,PC); }
void operator delete[](void* p) noexcept { mc_free(p,PC); }
void operator delete(void* p,size_t) noexcept { mc_free(p,PC); }
void operator delete[](void* p,size_t) noexcept { mc_free(p,PC); }
#endif
