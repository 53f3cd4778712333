// Driver helpers around the public API of Simulation, and the reference MPM step (textbook formulas).
#pragma once
#include "common.hpp"
#include "simulation/simulation.hpp"
#include <Eigen/Eigenvalues>
#include <array>

namespace mc {
constexpr int D = DIMENSION;
typedef std::array<long,3> Node;

// ---- optional look inside (compiled with -fno-access-control; degrades to nullptr if the member is gone)
struct GridView { const std::vector<T> *x=nullptr, *y=nullptr, *z=nullptr, *mass=nullptr, *friction=nullptr; const std::vector<TV>* v=nullptr; };
#define MC_GRID(name,V,ref) template <class S> auto grid_##name(S& s, int) -> decltype((const V*)&s.grid.ref) { return &s.grid.ref; } template <class S> const V* grid_##name(S&, ...) { return nullptr; }
MC_GRID(x,std::vector<T>,x) MC_GRID(y,std::vector<T>,y) MC_GRID(z,std::vector<T>,z) MC_GRID(mass,std::vector<T>,mass) MC_GRID(friction,std::vector<T>,friction) MC_GRID(v,std::vector<TV>,v)
inline GridView gridv(Simulation& s){ GridView g; g.x=grid_x(s,0); g.y=grid_y(s,0); g.z=grid_z(s,0); g.mass=grid_mass(s,0); g.friction=grid_friction(s,0); g.v=grid_v(s,0); return g; }
template <class S> auto steps_of(S& s, int) -> decltype((long)s.current_time_step) { return s.current_time_step; }
template <class S> long steps_of(S&, ...) { return 0; }
inline long nsteps(Simulation& s){ return steps_of(s, 0); }

struct Snap {
    std::vector<TV> x, v; std::vector<TM> F, B, tau; std::vector<T> epd, epv, prad, dg, visc, muI;
    size_t n() const { return x.size(); }
};
inline Snap snap(const Simulation& s){ const Particles& p = s.particles; return {p.x,p.v,p.F,p.Bmat,p.tau,p.eps_pl_dev,p.eps_pl_vol,p.eps_pl_vol_pradhana,p.delta_gamma,p.viscosity,p.muI}; }
inline uint64_t hash(const Snap& s){ uint64_t h = s.n();
    for (auto& a : s.x) for (int d=0;d<D;d++) h = mixd(h,a(d)); for (auto& a : s.v) for (int d=0;d<D;d++) h = mixd(h,a(d));
    for (auto& a : s.F) for (int i=0;i<D*D;i++) h = mixd(h,a.data()[i]); for (auto& a : s.tau) for (int i=0;i<D*D;i++) h = mixd(h,a.data()[i]);
    for (auto a : s.epd) h = mixd(h,a); for (auto a : s.epv) h = mixd(h,a); return h; }

typedef std::unique_ptr<Simulation> SimP;
// ---- surroundings that must not matter: applied to every simulation made while deco_k() is set (see contexts())
enum { DC_THREADS3=1, DC_THREADS8, DC_FAR, DC_OUTPUT, DC_VM, DC_DPVISC, DC_MCC, DC_AFTER, DC_LENGTHS, DC_UNUSED, DC_N };
static const char* DCN[] = {"plain","3 threads","8 threads","far boundaries","output","von Mises that never yields","viscous Drucker-Prager that never yields","Cam-Clay that never yields","after another run","other domain lengths","other unused parameters"};
inline int& deco_k(){ static int k = 0; return k; }
struct FarObj : public ObjectGeneral { FarObj(BC b) : ObjectGeneral(b, 0.7, "far") {} bool inside(const TV& X) const override { return X(0) > 1e12; } TV normal(const TV&) const override { TV n = TV::Zero(); n(0) = -1; return n; } };
inline void decorate(Simulation& s, int k){
    auto far = [&](PlateType t, T pos, BC b, T v){
        #ifdef THREEDIM
        s.plates.push_back(std::make_unique<ObjectPlate>(pos,t,b,0.9,-1e12,1e12,v,-0.3*v,0.2*v,2,1));
        #else
        s.plates.push_back(std::make_unique<ObjectPlate>(pos,t,b,0.9,-1e12,1e12,v,-0.3*v,2,1));
        #endif
    };
    switch (k){
    case DC_THREADS3: s.n_threads = 3; break;
    case DC_THREADS8: s.n_threads = 8; break;
    case DC_FAR: far(PlateType::left,-1e12,BC::NoSlip,0.5); far(PlateType::right,1e12,BC::SlipFree,-0.1); far(PlateType::bottom,-1e12,BC::SlipStick,0.2); far(PlateType::top,1e12,BC::NoSlip,0.3); s.objects.push_back(std::make_unique<FarObj>(BC::NoSlip)); s.objects.push_back(std::make_unique<FarObj>(BC::SlipFree)); break;
    case DC_OUTPUT: { std::string d = scratch()+"/deco"; mkdir(d.c_str(),0777); bool r = s.reduce_verbose; s.initialize(true,d+"/","r"); s.reduce_verbose = r; s.save_grid = true; break; }
    case DC_VM: s.plastic_model = PlasticModel::VM; s.q_max = s.q_min = 1e30; s.p_min = -1e30; break;
    case DC_DPVISC: s.plastic_model = PlasticModel::DPVisc; s.q_cohesion = 1e30; s.M = 0.8; s.visc_time = 0.1; break;
    case DC_MCC: s.plastic_model = PlasticModel::MCC; s.hardening_law = HardeningLaw::NoHard; s.p0 = 1e30; s.beta = 1; s.M = 1; break;
    case DC_AFTER: { int kk = deco_k(); deco_k() = 0; Simulation o; o.initialize(false); o.reduce_verbose = true; o.n_threads = 2; o.dx = 0.3; o.Np = 3; o.particles = Particles(3); for (int p=0;p<3;p++){ o.particles.x[p] = TV::Constant(1+0.2*p); o.particles.v[p] = TV::Constant(0.3*p-0.4); o.particles.F[p] = (1-0.1*p)*TM::Identity(); } o.plastic_model = PlasticModel::MCCMui; o.use_mibf = true; o.use_musl = true; o.particle_volume = 0.01; o.particle_mass = 10; o.E = 1e5; o.cfl = o.cfl_elastic = 1e30; o.flip_ratio = 0.7; o.gravity = TV::Constant(-3); o.gravity_special = true; o.gravity_time = 0.5; o.fps = 1000; o.end_frame = 2;
        #ifdef THREEDIM
        o.plates.push_back(std::make_unique<ObjectPlate>(0.9,PlateType::bottom,BC::SlipFree,0.5,-1e15,1e15,0.0,0.1,0.0));
        #else
        o.plates.push_back(std::make_unique<ObjectPlate>(0.9,PlateType::bottom,BC::SlipFree,0.5,-1e15,1e15,0.0,0.1));
        #endif
        o.simulate(); deco_k() = kk; break; }
    case DC_LENGTHS: s.Lx = 1.7; s.Ly = 0.3;
        #ifdef THREEDIM
        s.Lz = 5;
        #endif
        break;
    case DC_UNUSED: s.q_max = 1; s.q_min = 0.1; s.p_min = -1; s.M = 0.1; s.q_cohesion = 1; s.visc_time = 3; s.visc_exponent = 0.7; s.beta = 0.5; s.p0 = 1; s.xi = 9; s.use_pradhana = false; s.use_duvaut_lions_formulation = true; s.hardening_law = HardeningLaw::SinhImpl; s.mu_1 = 0.1; s.mu_2 = 0.9; s.I_ref = 3; s.grain_diameter = 1; s.rho_s = 1; s.stress_tolerance = 1; s.gravity_time = 0.7; break;
    } }
// for every listed family: a family over the surroundings and m values of each of its dimensions (first, last and evenly between)
inline void contexts(std::vector<Family>& F, std::vector<int> decos, int m, std::vector<std::string> only = {}){
    size_t n = F.size(); for (size_t i=0;i<n;i++){ Family& f = F[i]; if (!only.empty() && std::find(only.begin(),only.end(),f.name)==only.end()) continue;
        std::vector<int> full; std::vector<std::pair<std::string,int>> dims; dims.push_back({"surroundings",(int)decos.size()}); for (auto& d : f.dims){ full.push_back(d.second); dims.push_back({d.first,std::min(d.second,m)}); }
        Body b = f.body; F.push_back({f.name+"/surroundings", dims, [b,decos,full,m](Ctx& c, const Dig& d){ Dig e(full.size()); for (size_t k=0;k<full.size();k++){ int w = std::min(full[k],m); e[k] = w<2 ? 0 : (int)((long)d[k+1]*(full[k]-1)/(w-1)); } deco_k() = decos[d[0]]; struct G { ~G(){ deco_k() = 0; } } g; c.note("%s",DCN[decos[d[0]]]); b(c,e); }}); } }
inline SimP make(const std::vector<TV>& x, T dx, T ppc_vol = 0.25){
    SimP s(new Simulation());
    s->initialize(false);
    s->reduce_verbose = true;
    s->dx = dx; s->Np = x.size(); s->particles = Particles(s->Np); s->particles.x = x;
    T vol = 1; for (int d=0;d<D;d++) vol *= dx; s->particle_volume = vol*ppc_vol; s->rho = 1000; s->particle_mass = s->rho*s->particle_volume;
    s->E = 1e4; s->nu = 0.3; s->cfl = 1e30; s->cfl_elastic = 1e30; s->flip_ratio = -0.95;
    if (deco_k()) decorate(*s, deco_k());
    return s;
}
// one step of exactly dt (a one-frame run whose frame time is dt)
// (the elastic wave limit is set a quarter above the step, the regime of a real run)
inline void one_step(Simulation& s, T dt){ s.fps = 1.0/dt; s.end_frame = 1; T ce = s.cfl_elastic; if (ce > 1e29 && s.E > 0 && s.rho > 0) s.cfl_elastic = 1.25*dt*std::sqrt(s.E/s.rho)/s.dx; s.simulate(); s.cfl_elastic = ce; }
inline T step_dt(T dt){ T fps = 1.0/dt; return 1.0/fps; }

// deterministic "generic" numbers in [0,1): van der Corput / golden ratio sequences
inline T gen(int k, int salt = 0){ T g = 0.6180339887498949*(k+1) + 0.7548776662466927*(salt+1)*(1+0.1*k); return g - std::floor(g); }
inline T gens(int k, int salt = 0){ return 2*gen(k,salt) - 1; }
inline TV gvec(int k, int salt, T a){ TV v; for (int d=0;d<D;d++) v(d) = a*gens(k*3+d, salt); return v; }
inline TM gmat(int k, int salt, T a){ TM m; for (int i=0;i<D*D;i++) m.data()[i] = a*gens(k*9+i, salt+17); return m; }
inline TM gsym(int k, int salt, T a){ TM m = gmat(k,salt,a); TM r = 0.5*(m+m.transpose()); return r; }

// particle clouds in cell units; o = alignment offset of the cloud relative to the grid
const int NCLOUD = 7;
inline std::vector<TV> cloud(int id, TV o){
    std::vector<TV> r; auto add = [&](T a, T b, T c){ TV p; p(0) = a + o(0); p(1) = b + o(1);
        #ifdef THREEDIM
        p(2) = c + o(2);
        #endif
        r.push_back(p); };
    switch (id){
    case 0: add(3,3,3); break;
    case 1: add(3,3,3); add(3.3,4.1,2.6); break;
    case 2: for (int k=0;k<5;k++) add(3+1.9*gen(k,1), 3+1.9*gen(k,2), 3+1.9*gen(k,3)); break;
    case 3: for (int k=0;k<3;k++) add(2.2+0.9*gen(k,4), 2.3+0.9*gen(k,5), 2.1+0.9*gen(k,6)); for (int k=0;k<3;k++) add(9+0.9*gen(k,7), 4+0.9*gen(k,8), 3+0.9*gen(k,9)); break;
    case 4: for (int i=0;i<3;i++) for (int j=0;j<3;j++) add(3+0.5*i,3+0.5*j,3+0.25*((i+j)%3)); break;
    case 6: for (int k=0;k<6;k++) add(3+1.3*gen(k/2,13), 3+1.3*gen(k/2,14), 3+1.3*gen(k/2,15)); break; // coincident pairs
    case 5: for (int k=0;k<17;k++) add(2+3.7*gen(k,10), 2+3.3*gen(k,11), 2+2.9*gen(k,12)); break;
    }
    return r;
}
inline std::vector<TV> scaled(std::vector<TV> c, T dx){ for (auto& p : c) p *= dx; return c; }

// ---------------------------------------------------------------- reference: B-spline by Cox-de Boor on uniform knots
inline double bspline(int deg, double u){ // centred, support [-(deg+1)/2,(deg+1)/2]
    double t = u + 0.5*(deg+1);
    if (t < 0 || t > deg+1) return 0;
    double N[8]; for (int i=0;i<=deg;i++) N[i] = (t >= i && t < i+1) ? 1 : 0; if (t == deg+1) N[deg] = 0;
    for (int p=1;p<=deg;p++) for (int i=0;i+p<=deg;i++) N[i] = ((t-i)*N[i] + (i+p+1-t)*N[i+1])/p;
    return N[0];
}
inline double dbspline(int deg, double u){ return bspline(deg-1,u+0.5) - bspline(deg-1,u-0.5); }
inline double bspl(double u){ return bspline(SPLINEDEG,u); }
inline double dbspl(double u){ return dbspline(SPLINEDEG,u); }

// ---------------------------------------------------------------- reference contact law (vector form)
inline TV plate_normal(PlateType t){ TV n = TV::Zero(); switch (t){ case PlateType::left: n(0)=1; break; case PlateType::right: n(0)=-1; break; case PlateType::bottom: n(1)=1; break; case PlateType::top: n(1)=-1; break;
    #ifdef THREEDIM
    case PlateType::back: n(2)=1; break; case PlateType::front: n(2)=-1; break;
    #endif
    default: break; } return n; }
inline bool plate_inside(const ObjectPlate& p, const TV& X){ TV n = plate_normal(p.plate_type); int a = 0; for (int d=0;d<D;d++) if (n(d)!=0) a = d;
    if ((X(a) - p.pos_object)*n(a) > 0) return false; if (a == 2) return true; T t = X(1-a); return t > p.pos_lower && t < p.pos_upper; }
// contact map. sep_friction: SlipStick plates when separating - friction unspecified -> handled by callers
inline TV contact(BC bc, const TV& n, T mu, const TV& vrel, bool stick_friction_both = false){
    if (bc == BC::NoSlip) return TV::Zero();
    T vn = vrel.dot(n); TV vt = vrel - vn*n; T approach = -vn;
    if (bc == BC::SlipFree && approach <= 0) return vrel;
    T fr = mu*(stick_friction_both ? std::abs(approach) : std::max<T>(0, approach)); T m = vt.norm();
    if (fr > 0) { if (m <= fr) vt.setZero(); else vt *= (m-fr)/m; }
    return vt;
}

struct RefCfg { T dx, dt, vol, mass, flip; TV g; TV lat; bool musl=false, pbc=false, mibf=false; T Lx=0; bool apic_pure=false;
    const std::vector<std::unique_ptr<ObjectPlate>>* plates=nullptr; const std::vector<std::unique_ptr<ObjectGeneral>>* objects=nullptr; bool stick_both = true; };
struct RefGrid { std::map<Node,T> w; std::map<Node,TV> v, vn, f, vm; std::map<Node,T> fric; };
struct RefRes { Snap s; std::vector<TM> L; RefGrid g; std::vector<TV> pic; };

// One textbook MPM step up to the trial deformation gradient. F in the result is the trial F.
inline RefRes ref_step(const RefCfg& c, const Snap& in){
    RefRes R; R.s = in; RefGrid& G = R.g; size_t n = in.n();
    T Dinv = SPLINEDEG == 3 ? 3.0/(c.dx*c.dx) : 4.0/(c.dx*c.dx);
    bool affine = c.flip < 0; long ring = c.pbc ? std::lround(c.Lx/c.dx) : 0;
    struct E { Node id; T w; TV dw; TV r; }; std::vector<std::vector<E>> st(n);
    for (size_t p=0;p<n;p++){
        long base[3] = {0,0,0}; TV u;
        for (int d=0;d<D;d++){ u(d) = (in.x[p](d)-c.lat(d))/c.dx; base[d] = (long)std::floor(u(d)) - 2; }
        int K = 6; for (int i=0;i<K;i++) for (int j=0;j<K;j++) for (int k=0;k<(D==3?K:1);k++){
            long id[3] = {base[0]+i, base[1]+j, D==3?base[2]+k:0}; double N1[3]={1,1,1}, d1[3]={0,0,0};
            for (int d=0;d<D;d++){ N1[d] = bspl(u(d)-id[d]); d1[d] = dbspl(u(d)-id[d])/c.dx; }
            E e; e.w = N1[0]*N1[1]*N1[2]; if (e.w <= 1e-25) { // (implementation threshold: below rounding of any sum)
                continue; }
            e.dw(0) = d1[0]*N1[1]*N1[2]; e.dw(1) = N1[0]*d1[1]*N1[2]; if (D==3) e.dw(D-1) = N1[0]*N1[1]*d1[2];
            for (int d=0;d<D;d++) e.r(d) = c.lat(d) + id[d]*c.dx - in.x[p](d);
            if (ring) id[0] = ((id[0] % ring) + ring) % ring;
            e.id = Node{id[0],id[1],id[2]}; st[p].push_back(e); } }
    auto zero = [](std::map<Node,TV>& m, const Node& k) -> TV& { auto it = m.find(k); if (it == m.end()) it = m.emplace(k, TV(TV::Zero())).first; return it->second; };
    for (size_t p=0;p<n;p++) for (auto& e : st[p]){ G.w[e.id] += e.w; TV vv = in.v[p]; if (affine) vv += Dinv*(in.B[p]*e.r); zero(G.v,e.id) += e.w*vv; zero(G.f,e.id) -= c.vol*(in.tau[p]*e.dw); if (c.mibf) G.fric[e.id] += e.w*in.muI[p]; }
    for (auto& kv : G.w){ const Node& id = kv.first; T mi = kv.second*c.mass; TV v = G.v[id]/kv.second; G.v[id] = v; T fr = 0; if (c.mibf){ fr = (G.fric[id] /= kv.second); }
        TV vn = v + c.dt*(G.f[id]/mi + c.g); TV X; for (int d=0;d<D;d++) X(d) = c.lat(d) + id[d]*c.dx; X += c.dt*vn;
        if (c.objects) for (auto& o : *c.objects) if (o->inside(X)) vn = contact(o->bc, o->normal(X), c.mibf?fr:o->friction, vn, false);
        if (c.plates) for (auto& o : *c.plates) if (plate_inside(*o, X)){ TV pv; pv(0)=o->vx_object; pv(1)=o->vy_object;
            #ifdef THREEDIM
            pv(2)=o->vz_object;
            #endif
            vn = contact(o->bc, plate_normal(o->plate_type), c.mibf?fr:o->friction, vn-pv, c.stick_both) + pv; }
        zero(G.vn,id) = vn; }
    R.pic.resize(n); R.L.assign(n, TM::Zero());
    for (size_t p=0;p<n;p++){ TV pic = TV::Zero(), inc = TV::Zero(); TM B = TM::Zero();
        for (auto& e : st[p]){ const TV& v = G.vn[e.id]; pic += e.w*v; inc += e.w*(v - G.v[e.id]); B += e.w*v*e.r.transpose(); R.L[p] += v*e.dw.transpose(); }
        R.pic[p] = pic; R.s.B[p] = affine ? B : TM(TM::Zero());
        T a = std::abs(c.flip); if (c.flip < -1) a = 0; // pure affine
        R.s.v[p] = a*(in.v[p]+inc) + (1-a)*pic; R.s.x[p] = in.x[p] + c.dt*pic; }
    if (c.musl){ std::map<Node,TV> m; for (size_t p=0;p<n;p++) for (auto& e : st[p]){ TV vv = R.s.v[p]; if (affine) vv += Dinv*(R.s.B[p]*e.r); zero(m,e.id) += e.w*vv; }
        for (auto& kv : m) kv.second /= G.w[kv.first]; G.vm = m;
        for (size_t p=0;p<n;p++){ R.L[p].setZero(); for (auto& e : st[p]) R.L[p] += m[e.id]*e.dw.transpose(); } }
    for (size_t p=0;p<n;p++){ R.s.F[p] = in.F[p] + c.dt*R.L[p]*in.F[p];
        if (ring){ T& x = R.s.x[p](0); x -= c.Lx*std::floor(x/c.Lx); } }
    return R;
}
// a node of the grid (a set-up for which this is asked has the reference point on a node, see anchor())
inline TV lattice(Simulation& s){ GridView g = gridv(s); TV l; if (g.x&&g.y&&(D==2||g.z)&&!g.x->empty()&&!g.y->empty()){ l(0)=(*g.x)[0]; l(1)=(*g.y)[0]; if (D==3) l(D-1)=(*g.z)[0]; }
    else { for (int d=0;d<D;d++) l(d) = s.grid_reference_point(d); } return l; }
// the lowest particle coordinates are on nodes anyway: say so (periodic grids start at 0)
inline void anchor(Simulation& s){ TV m = s.particles.x[0]; for (auto& x : s.particles.x) m = m.cwiseMin(x); s.grid_reference_point = s.pbc ? TV(TV::Zero()) : m; }

// ---------------------------------------------------------------- elasticity (reference, by spectral decomposition of b = F F^T)
struct Lame { T mu, lam, K; };
inline Lame lame(T E, T nu){ Lame l; l.lam = nu*E/((1+nu)*(1-2*nu)); l.mu = E/(2*(1+nu)); l.K = l.lam + 2*l.mu/D; return l; }
inline TM ref_hencky_strain(const TM& F){ TM b = F*F.transpose(); Eigen::SelfAdjointEigenSolver<TM> es(b); TV l = es.eigenvalues(); for (int d=0;d<D;d++) l(d) = 0.5*std::log(l(d)); return es.eigenvectors()*l.asDiagonal()*es.eigenvectors().transpose(); }
inline TM ref_tau_hencky(const TM& F, const Lame& L){ TM e = ref_hencky_strain(F); return 2*L.mu*e + L.lam*e.trace()*TM::Identity(); }
inline TM ref_tau_nh(const TM& F, const Lame& L){ T J = F.determinant(); return L.mu*(F*F.transpose() - TM::Identity()) + L.lam*std::log(J)*TM::Identity(); }

inline T maxabs(const TV& v){ return v.cwiseAbs().maxCoeff(); }
inline T maxabs(const TM& v){ return v.cwiseAbs().maxCoeff(); }
inline std::string str(const TV& v){ char b[100]; if (D==2) snprintf(b,100,"(%.9g %.9g)",v(0),v(1)); else snprintf(b,100,"(%.9g %.9g %.9g)",v(0),v(1),v(D-1)); return b; }
inline std::string str(const TM& m){ std::string s="["; char b[40]; for (int i=0;i<D;i++){ for (int j=0;j<D;j++){ snprintf(b,40,"%s%.8g",j?" ":i?"; ":"",m(i,j)); s+=b; } } return s+"]"; }

inline TM rot(int k){ // a small set of rotations
    static const T a2[] = {0, 0.3, 1.2, M_PI/2, -2.2, M_PI/4}; TM R = TM::Identity(); T a = a2[k%6];
    #ifdef THREEDIM
    TV ax[] = { TV(0,0,1), TV(1,0,0), TV(1,1,0), TV(0,1,0), TV(1,2,3), TV(-1,2,1) }; TV u = ax[k%6].normalized(); R = Eigen::AngleAxis<T>(a + (k%6==0?0:0.1), u).toRotationMatrix();
    #else
    R << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
    #endif
    return R; }

// compare one particle field; returns "" or text
struct Cmp { T worst = 0; std::string what; void v(const char* nm, size_t p, const TV& a, const TV& b, T tol){ T e = maxabs(TV(a-b)); if (!(e <= tol) && !(what.size())){ what = std::string(nm)+"["+std::to_string(p)+"] = "+str(a)+" expected "+str(b); } if (e>worst) worst=e; }
    void m(const char* nm, size_t p, const TM& a, const TM& b, T tol){ T e = maxabs(TM(a-b)); if (!(e <= tol) && !(what.size())){ what = std::string(nm)+"["+std::to_string(p)+"] = "+str(a)+" expected "+str(b); } if (e>worst) worst=e; }
    void s(const char* nm, size_t p, T a, T b, T tol){ T e = std::abs(a-b); if (!(e <= tol) && !(what.size())){ char t[120]; snprintf(t,120,"%s[%zu] = %.10g expected %.10g",nm,p,a,b); what=t; } if (e>worst) worst=e; } };

// clock plate: far away, unit speed along its normal axis -> its position is the elapsed time
inline ObjectPlate* add_clock(Simulation& s){
    // a bottom plate far below the material moving with unit speed; its lateral range is empty so it never touches
    #ifdef THREEDIM
    s.plates.push_back(std::make_unique<ObjectPlate>(0, PlateType::bottom, BC::NoSlip, 0, 1e15, -1e15, 0.0, 1.0, 0.0));
    #else
    s.plates.push_back(std::make_unique<ObjectPlate>(0, PlateType::bottom, BC::NoSlip, 0, 1e15, -1e15, 0.0, 1.0));
    #endif
    return s.plates.back().get(); }
// observer object: no contact ever; calls back once per step (at the grid update) - detects a new step by the clock plate
struct Probe : public ObjectGeneral { mutable T last = -1e300; ObjectPlate* clock; std::function<void(T)> cb; 
    Probe(ObjectPlate* c, std::function<void(T)> f) : ObjectGeneral(BC::NoSlip, 0, "probe"), clock(c), cb(f) {}
    bool inside(const TV&) const override { if (clock->pos_object != last){ last = clock->pos_object; cb(last); } return false; }
    TV normal(const TV&) const override { TV n = TV::Zero(); n(1)=1; return n; } };
inline ObjectPlate* observe(Simulation& s, std::function<void(T)> f){ ObjectPlate* c = add_clock(s); s.objects.push_back(std::make_unique<Probe>(c, f)); return c; }
}
