// Bounded exhaustive explorer: every family is a finite mixed-radix domain that is walked completely on the real code.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>
#include <malloc.h>
#include "gomp_mc.hpp"

namespace mc {

struct Ctx;
typedef std::vector<int> Dig;
typedef std::function<void(Ctx&, const Dig&)> Body;
struct Family { std::string name; std::vector<std::pair<std::string,int>> dims; Body body; double weight = 1;
    long size() const { long n = 1; for (auto& d : dims) n *= d.second; return n; }
    Dig digits(long i) const { Dig r(dims.size()); for (int k = (int)dims.size()-1; k >= 0; k--){ r[k] = i % dims[k].second; i /= dims[k].second; } return r; } };

const long HCAP = 1L << 22;
const int MAXF = 192, MAXW = 64, MAXV = 64;
const int NHIST = 48;
struct Viol { int fam; long idx; char key[160]; char msg[700]; long hist[NHIST]; int nh; }; // hist: the cases the worker ran before (global numbers)
struct Shared {
    std::atomic<long> next, cases, skipped, transitions, traces, states, stop, nviol, obs, extra[8];
    std::atomic<long> fam_cases[MAXF], fam_trans[MAXF];
    std::atomic<long> cur[MAXW];
    long hist[MAXW][NHIST]; long nhist[MAXW];
    std::atomic<int> has_sample[MAXF];
    char sample[MAXF][600];
    Viol viol[MAXV];
    std::atomic<long> nknown; Viol known[MAXV];
    std::atomic<uint64_t> table[HCAP];
};
inline Shared*& sh(){ static Shared* s = nullptr; return s; }
inline std::vector<std::string>& known_keys(){ static std::vector<std::string> v; return v; }
inline std::string& scratch(){ static std::string s; return s; }
inline int& tier(){ static int t = 0; return t; }

inline uint64_t mix(uint64_t h, uint64_t x){ h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h; }
// canonical hash of a double: 11 significant digits (rounding noise does not split states)
inline uint64_t mixd(uint64_t h, double d){ if (d == 0) return mix(h, 0); if (!std::isfinite(d)) return mix(h, 77); int e; double m = std::frexp(d, &e); return mix(mix(h, (uint64_t)(int64_t)std::llround(m*1e11)), (uint64_t)e); }

struct Fail {};
struct Ctx {
    int fam = 0; long idx = 0; bool replay = false; long trans_ = 0; bool skipped = false; bool failed = false; std::string fkey, fmsg; std::string note_; bool sampled=false;
    void state(uint64_t h){ if (!h) h = 1; if (replay) return; Shared* s = sh(); uint64_t i = h & (HCAP-1);
        for (int k = 0; k < 64; k++, i = (i+1) & (HCAP-1)){ uint64_t e = s->table[i].load(std::memory_order_relaxed); if (e == h) return;
            if (e == 0){ uint64_t z = 0; if (s->table[i].compare_exchange_strong(z, h)){ s->states++; return; } if (z == h) return; } } }
    void trans(long n = 1){ trans_ += n; }
    void skip(){ skipped = true; }
    void note(const char* f, ...) __attribute__((format(printf,2,3))) { if (!note_.empty()) return; char b[600]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); note_ = b; }
    // report a violation; key identifies the specific failing input
    [[noreturn]] void fail(const char* f, ...) __attribute__((format(printf,2,3))) { char b[700]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); fmsg = b; failed = true; throw Fail(); }
};

inline bool close(double a, double b, double tol, double scale = 1.0){ if (a == b) return true; if (!std::isfinite(a) || !std::isfinite(b)) return false; return std::fabs(a-b) <= tol*(scale + std::max(std::fabs(a), std::fabs(b))*0) ; }

void families(std::vector<Family>& out); // defined by the harness
inline std::function<void()>& on_worker_start(){ static std::function<void()> f; return f; }

inline std::string jesc(const std::string& s){ std::string o; for (unsigned char c : s){ if (c=='"'||c=='\\'){ o+='\\'; o+=c; } else if (c<32){ char b[8]; snprintf(b,sizeof b,"\\u%04x",c); o+=b; } else o+=c; } return o; }
inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

static int g_worker = 0;
inline int case_limit(int set=0){ static int l = 60; if (set) l = set; return l; }
inline void run_case(std::vector<Family>& F, int f, long idx, Ctx& c){
    c.fam = f; c.idx = idx;
    Dig d = F[f].digits(idx);
    alarm(case_limit());
    try { F[f].body(c, d); }
    catch (Fail&) {}
    catch (std::exception& e){ c.failed = true; c.fmsg = std::string("exception: ") + e.what(); }
    alarm(0);
    if (c.fkey.empty()){ c.fkey = F[f].name + ":"; for (size_t k = 0; k < d.size(); k++) c.fkey += (k ? "," : "") + std::to_string(d[k]); }
}
inline std::string describe(const Family& F, long idx){ Dig d = F.digits(idx); std::string s = F.name + "{"; for (size_t k=0;k<d.size();k++) s += (k?" ":"") + F.dims[k].first + "=" + std::to_string(d[k]); return s + "}"; }

// fresh and freed heap memory never looks like a valid number: reads of memory that was never set give the same (wrong) result everywhere
inline void poison(){ mallopt(M_PERTURB, 0xBD); }
inline int mc_main(int argc, char** argv){
    std::string out, only, replay, known, skeys; std::vector<std::string> before; int W = 8; double deadline = 800; 
    for (int i = 1; i < argc; i++){ std::string a = argv[i];
        auto v = [&]{ return std::string(argv[++i]); };
        if (a == "--out") out = v(); else if (a == "--tier") tier() = v() == "thorough"; else if (a == "--family") only = v();
        else if (a == "--replay") replay = v(); else if (a == "--before") before.push_back(v()); else if (a == "--workers") W = atoi(v().c_str()); else if (a == "--deadline") deadline = atof(v().c_str());
        else if (a == "--scratch") scratch() = v(); else if (a == "--known") known_keys().push_back(v()); else if (a == "--limit") case_limit(atoi(v().c_str())); }
    if (const char* e = getenv("MC_VERBOSE")) { (void)e; } else { std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); }
    if (scratch().empty()) { scratch() = "/tmp/mc_scratch"; }
    mkdir(scratch().c_str(), 0777);
    std::string base = scratch();
    sh() = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    std::vector<Family> F; families(F);
    if (!only.empty()){ std::vector<Family> G; for (auto& f : F) if (f.name.find(only) != std::string::npos) G.push_back(f); F = G; }
    if ((int)F.size() > MAXF){ fprintf(stderr, "too many families\n"); return 2; }
    if (!replay.empty()){ // family:idx
        auto p = replay.rfind(':'); std::string fn = replay.substr(0,p); long idx = atol(replay.substr(p+1).c_str());
        for (size_t f = 0; f < F.size(); f++) if (F[f].name == fn){
            scratch() = base + "/r"; mkdir(scratch().c_str(), 0777); poison(); if (on_worker_start()) on_worker_start()();
            for (auto& h : before){ auto q = h.rfind(':'); for (size_t g = 0; g < F.size(); g++) if (F[g].name == h.substr(0,q)){ Ctx b; run_case(F, g, atol(h.substr(q+1).c_str()), b); } }
            Ctx c; c.replay = true; run_case(F, f, idx, c);
            printf("%s\n%s\n%s\n", describe(F[f], idx).c_str(), c.note_.c_str(), c.failed ? ("FAIL " + c.fmsg).c_str() : c.skipped ? "SKIPPED" : "OK"); return c.failed ? 1 : 0; }
        fprintf(stderr, "no family %s\n", fn.c_str()); return 2;
    }
    std::vector<long> off(1, 0); for (auto& f : F) off.push_back(off.back() + f.size());
    long total = off.back(); Shared* S = sh();
    for (int w = 0; w < MAXW; w++) S->cur[w] = -1;
    double t0 = now(); std::vector<pid_t> pid(W);
    auto known_match = [&](const std::string& k){ for (auto& x : known_keys()) if (x == k) return true; return false; };
    auto past = [&](int w, Viol& v){ long n = S->nhist[w]; v.nh = std::min<long>(n, NHIST); for (int k = 0; k < v.nh; k++) v.hist[k] = S->hist[w][(n - v.nh + k) % NHIST]; };
    auto spawn = [&](int w){ S->nhist[w] = 0;
        fflush(stdout); pid_t p = fork(); if (p) return p;
        g_worker = w; scratch() = base + "/w" + std::to_string(w); mkdir(scratch().c_str(), 0777); poison();
        if (on_worker_start()) on_worker_start()();
        while (!S->stop){
            long g = S->next++; if (g >= total) break;
            if (now() - t0 > deadline){ S->stop = 2; break; }
            int f = std::upper_bound(off.begin(), off.end(), g) - off.begin() - 1; long idx = g - off[f];
            S->cur[w] = g;
            Ctx c; run_case(F, f, idx, c);
            S->cases++; S->fam_cases[f]++; if (c.skipped && !c.failed) S->skipped++; else S->traces++;
            S->transitions += c.trans_; S->fam_trans[f] += c.trans_;
            if (!c.note_.empty() && !c.skipped && !S->has_sample[f].exchange(1)) snprintf(S->sample[f], sizeof S->sample[f], "%s: %s", describe(F[f], idx).c_str(), c.note_.c_str());
            if (c.failed){
                if (known_match(c.fkey)){ long k = S->nknown++; if (k < MAXV){ S->known[k].fam=f; S->known[k].idx=idx; snprintf(S->known[k].key,160,"%s",c.fkey.c_str()); snprintf(S->known[k].msg,700,"%s",c.fmsg.c_str()); } }
                else { long k = S->nviol++; if (k < MAXV){ S->viol[k].fam=f; S->viol[k].idx=idx; snprintf(S->viol[k].key,160,"%s",c.fkey.c_str()); snprintf(S->viol[k].msg,700,"%s",c.fmsg.c_str()); past(w,S->viol[k]); } if (!getenv("MC_KEEP_GOING")) S->stop = 1; } }
            S->hist[w][S->nhist[w]++ % NHIST] = g; S->cur[w] = -1;
        }
        _exit(0);
    };
    for (int w = 0; w < W; w++) pid[w] = spawn(w);
    int left = W;
    while (left > 0){
        int st; pid_t p = wait(&st); if (p < 0) break; int w = -1; for (int k = 0; k < W; k++) if (pid[k] == p) w = k;
        if (w < 0) continue; left--;
        long g = S->cur[w];
        if ((WIFSIGNALED(st) || WEXITSTATUS(st) != 0)){
            if (g < 0){ fprintf(stderr, "worker died outside a case\n"); return 2; }
            int f = std::upper_bound(off.begin(), off.end(), g) - off.begin() - 1;
            std::string key = F[f].name + ":"; Dig d = F[f].digits(g-off[f]); for (size_t k=0;k<d.size();k++) key += (k?",":"") + std::to_string(d[k]);
            char m[200]; int sg = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
            if (sg == SIGALRM) snprintf(m, sizeof m, "does not terminate within %d s", case_limit()); else if (sg) snprintf(m, sizeof m, "crash: signal %d (%s)", sg, strsignal(sg)); else snprintf(m, sizeof m, "process ended with status %d", WEXITSTATUS(st));
            S->cases++; S->fam_cases[f]++; S->traces++;
            bool kn = known_match(key); long k = kn ? S->nknown++ : S->nviol++; Viol* V = kn ? S->known : S->viol;
            if (k < MAXV){ V[k].fam=f; V[k].idx=g-off[f]; snprintf(V[k].key,160,"%s",key.c_str()); snprintf(V[k].msg,700,"%s",m); past(w,V[k]); }
            if (!kn && !getenv("MC_KEEP_GOING")) S->stop = 1;
            S->cur[w] = -1;
            if (!S->stop){ pid[w] = spawn(w); left++; }
        }
    }
    int rc = 0; long nv = std::min<long>(S->nviol, MAXV); int best = -1;
    for (int k = 0; k < nv; k++) if (best < 0 || S->viol[k].fam < S->viol[best].fam || (S->viol[k].fam == S->viol[best].fam && S->viol[k].idx < S->viol[best].idx)) best = k;
    bool confirmed = false, with_past = false;
    if (best >= 0){ // replay alone before reporting
        // ... or, if that passes, after the cases its process had run before
        for (bool past : {false, true}){ Viol v = S->viol[best]; fflush(stdout); pid_t p = fork();
            if (!p){ case_limit(180); scratch() = base + "/r"; mkdir(scratch().c_str(), 0777); poison(); if (on_worker_start()) on_worker_start()();
                if (past) for (int k = 0; k < v.nh; k++){ int f = std::upper_bound(off.begin(), off.end(), v.hist[k]) - off.begin() - 1; Ctx c; run_case(F, f, v.hist[k]-off[f], c); }
                Ctx c; c.replay = true; run_case(F, v.fam, v.idx, c); _exit(c.failed ? 1 : 0); }
            int st; waitpid(p, &st, 0); confirmed = WIFSIGNALED(st) || WEXITSTATUS(st) != 0; with_past = past; if (confirmed || !v.nh || strstr(v.msg, "does not terminate")) break; }
        rc = confirmed ? 1 : strstr(S->viol[best].msg, "does not terminate") ? 0 : 3; if (rc == 0){ best = -1; S->stop = 2; }
    }
    FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(o, "{\"total\":%ld,\"cases\":%ld,\"skipped\":%ld,\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"capped\":%s,\"wall\":%.3f,\"families\":[", total, S->cases.load(), S->skipped.load(), S->states.load(), S->transitions.load(), S->traces.load(), (S->stop == 2) ? "true" : "false", now()-t0);
    for (size_t f = 0; f < F.size(); f++){ fprintf(o, "%s{\"name\":\"%s\",\"size\":%ld,\"run\":%ld,\"transitions\":%ld,\"domain\":\"", f?",":"", F[f].name.c_str(), F[f].size(), S->fam_cases[f].load(), S->fam_trans[f].load()); for (size_t k=0;k<F[f].dims.size();k++) fprintf(o, "%s%s:%d", k?" ":"", F[f].dims[k].first.c_str(), F[f].dims[k].second); fprintf(o, "\"}"); }
    fprintf(o, "],\"samples\":["); bool first = true; for (size_t f = 0; f < F.size(); f++) if (S->has_sample[f]){ fprintf(o, "%s\"%s\"", first?"":",", jesc(S->sample[f]).c_str()); first = false; }
    fprintf(o, "],\"known\":["); for (int k = 0; k < std::min<long>(S->nknown, MAXV); k++) fprintf(o, "%s{\"key\":\"%s\",\"msg\":\"%s\"}", k?",":"", jesc(S->known[k].key).c_str(), jesc(S->known[k].msg).c_str());
    fprintf(o, "],\"extra\":[%ld,%ld,%ld,%ld],\"violations\":[", S->extra[0].load(), S->extra[1].load(), S->extra[2].load(), S->extra[3].load());
    if (best >= 0){ Viol& v = S->viol[best]; fprintf(o, "{\"family\":\"%s\",\"idx\":%ld,\"case\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"confirmed\":%s", F[v.fam].name.c_str(), v.idx, jesc(describe(F[v.fam], v.idx)).c_str(), jesc(v.key).c_str(), jesc(v.msg).c_str(), confirmed?"true":"false"); if (confirmed && with_past){ fprintf(o, ",\"before\":["); for (int k = 0; k < v.nh; k++){ int f = std::upper_bound(off.begin(), off.end(), v.hist[k]) - off.begin() - 1; fprintf(o, "%s\"%s:%ld\"", k?",":"", F[f].name.c_str(), v.hist[k]-off[f]); } fprintf(o, "]"); } fprintf(o, "}"); }
    if (getenv("MC_KEEP_GOING")) for (int k = 0; k < nv; k++) fprintf(stderr, "VIOL %s : %s\n", describe(F[S->viol[k].fam], S->viol[k].idx).c_str(), S->viol[k].msg);
    fprintf(o, "]}\n"); if (o != stdout) fclose(o);
    return rc;
}
} // namespace mc
#define MC_MAIN int main(int argc, char** argv){ return mc::mc_main(argc, argv); }
