// C25: radial bases: values and slopes for every size/cutoff/radius, and every build/copy/move/assign history.
#include "mc.hpp"
#include <memory>
#include <utility>
#include <cassert>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include "descriptor/mtp/include/mtpMRadial.h"
#include "descriptor/mtp/include/mtpMRadial_de.h"
#include "descriptor/mtpr/include/basis.h"
using namespace matersdk;
typedef long double ld;
struct Ref { std::vector<ld> t,dx,dr,q,dq; };
static ld sw(ld u){ return u*u*u*(-6*u*u+15*u-10)+1; }
static ld dsw(ld u){ return -30*u*u*(u-1)*(u-1); }
// T_n and n*U_{n-1}
static Ref ref(int n,ld rc,ld rs,ld r){ Ref o; ld x=(2*r-(rc+rs))/(rc-rs),u=(r-rs)/(rc-rs),c=2/(rc-rs); std::vector<ld> T(n+2),U(n+2); T[0]=1;T[1]=x;U[0]=1;U[1]=2*x; for(int i=2;i<=n;i++){ T[i]=2*x*T[i-1]-T[i-2]; U[i]=2*x*U[i-1]-U[i-2]; }
    ld s=u<0?1:u>=1?0:sw(u),d=u<0||u>=1?0:dsw(u)/(rc-rs);
    for(int i=0;i<n;i++){ ld t=T[i],dx=i?i*U[i-1]:0; o.t.push_back(t);o.dx.push_back(dx);o.dr.push_back(dx*c);o.q.push_back(t*s);o.dq.push_back(t*d+dx*c*s); } return o; }
static void zero(Ref&r){ for(auto*v:{&r.t,&r.dx,&r.dr,&r.q,&r.dq}) for(auto&x:*v) x=0; }
template<class T> static bool cmp(const char*w,const char*what,const T*g,const std::vector<ld>&e,double tol,bool exact0){ if(!e.empty()&&!g){ mc::viol(0,"%s: %s missing",w,what); return false; }
    for(size_t i=0;i<e.size();i++) if(!mc::near(g[i],(double)e[i],tol*(1+i*i*i))||(exact0&&g[i]!=0)){ mc::viol(0,"%s: %s[%zu] is %.12g, expected %.12g",w,what,i,(double)g[i],(double)e[i]); return false; } return true; }
template<class T> static double tl(){ return sizeof(T)==4?1e-5:1e-13; }

// --- the four classes under one interface -------------------------------------------------------
template<class T> struct DC { typedef mtp::ChebyshevPoly<T> O; typedef T C; static const char*name(){return "ChebyshevPoly";} static const bool inner=false;
    static bool eq(const O&o,int n,T rc,T rs,bool built,T r,const char*w){ if(o.size()!=n){ mc::viol(0,"%s: size %d, expected %d",w,o.size(),n); return false; } if(!n) return true; Ref e=ref(n,rc,rs,r); bool z=!built||r<rs||r>=rc; if(z) zero(e); double k=(double)(rc/(rc-rs));
        return cmp(w,"value",o.get_result(),e.t,tl<T>()*k,z)&&cmp(w,"slope along xi",o.get_deriv2xi(),e.dx,tl<T>()*k*8,z)&&cmp(w,"slope along r",o.get_deriv2r(),e.dr,tl<T>()*k*8,z); } };
template<class T> struct DQ { typedef mtp::MtpQ<T> O; typedef T C; static const char*name(){return "MtpQ";} static const bool inner=false;
    static bool eq(const O&o,int n,T rc,T rs,bool built,T r,const char*w){ if(o.size()!=n){ mc::viol(0,"%s: size %d, expected %d",w,o.size(),n); return false; } if(!n) return true; Ref e=ref(n,rc,rs,r); bool z=!built||r<rs||r>=rc; if(z) zero(e); double k=(double)(rc/(rc-rs));
        return cmp(w,"value",o.get_result(),e.q,tl<T>()*k,z)&&cmp(w,"slope along r",o.get_deriv2r(),e.dq,tl<T>()*k*8,z); } };
template<class T> struct DRB { typedef mtpr::RB_Chebyshev<T> O; typedef T C; static const char*name(){return "RB_Chebyshev";} static const bool inner=true;
    static bool eq(const O&o,int n,T rc,T rs,bool built,T r,const char*w){ if(o.size()!=n||(n&&(o.rmax()!=rc||o.rmin()!=rs))){ mc::viol(0,"%s: size %d range %g..%g, expected %d %g..%g",w,o.size(),(double)o.rmin(),(double)o.rmax(),n,(double)rs,(double)rc); return false; } if(!n) return true; Ref e=ref(n,rc,rs,r); if(!built) zero(e); double k=(double)(rc/(rc-rs));
        return cmp(w,"value",o.vals(),e.t,tl<T>()*k,!built)&&cmp(w,"slope along xi",o.ders2uu(),e.dx,tl<T>()*k*8,!built)&&cmp(w,"slope along r",o.ders2r(),e.dr,tl<T>()*k*8,!built); } };
template<class T> struct DRQ { typedef mtpr::RQ_Chebyshev<T> O; typedef T C; static const char*name(){return "RQ_Chebyshev";} static const bool inner=true;
    static bool eq(const O&o,int n,T rc,T rs,bool built,T r,const char*w){ if(o.size()!=n||(n&&(o.rmax()!=rc||o.rmin()!=rs))){ mc::viol(0,"%s: size %d range %g..%g, expected %d %g..%g",w,o.size(),(double)o.rmin(),(double)o.rmax(),n,(double)rs,(double)rc); return false; } if(!n) return true; Ref e=ref(n,rc,rs,r); bool z=!built||r>=rc; if(z) zero(e); double k=(double)(rc/(rc-rs));
        return cmp(w,"value",o.vals(),e.q,tl<T>()*k,z)&&cmp(w,"slope along r",o.ders2r(),e.dq,tl<T>()*k*8,z); } };

static const double CUT[][2]={{5,2},{6.5,0.5},{3.5,0},{1,0.25},{2.25,2}};
static std::vector<double> radii(double rc,double rs,int n){ std::vector<double> r; for(int i=0;i<=n;i++) r.push_back(rs+(rc-rs)*i/n); for(double t:{0.5,0.2,0.9}) for(double e:{0.,1e-2,-1e-3,1e-4,2e-5,-1e-6}) r.push_back(rs+(rc-rs)*(t+e)); for(double e:{1e-2,1e-3,1e-4}){ r.push_back(rs+(rc-rs)*e); r.push_back(rc-(rc-rs)*e); } return r; }
template<class T> static void ends(std::vector<T>&v,T rc,T rs,bool inner){ v.push_back(rs); v.push_back(std::nexttoward(rs,(ld)rc)); v.push_back(std::nexttoward(rc,(ld)0)); v.push_back(rc); if(!inner){ v.push_back(std::nexttoward(rs,(ld)-1)); v.push_back(std::nexttoward(rc,(ld)100)); v.push_back(rs*(T)0.5); v.push_back((T)0); v.push_back(rc*(T)1.5); v.push_back((T)1e6); } }
template<class D> static void grid(const char*tn){ typedef typename D::C T; typedef typename D::O O; int nmax=mc::thorough?12:8,np=mc::thorough?400:60;
    std::vector<int> ns{16,20,33,64}; for(int n=1;n<=nmax;n++) ns.push_back(n); for(int n:ns)for(auto&c:CUT){ T rc=(T)c[0],rs=(T)c[1]; if(!mc::begin("grid %s %s size=%d rcut=%g smooth=%g",D::name(),tn,n,c[0],c[1])) continue;
        size_t b0=__sanitizer_get_current_allocated_bytes(); std::vector<T> rr; for(double r:radii(c[0],c[1],np)) rr.push_back(std::min(std::max((T)r,rs),rc)); ends(rr,rc,rs,D::inner);
        { O one(n,rc,rs); if(!D::eq(one,n,rc,rs,false,0,"fresh object")) continue; char w[64]; bool ok=true;
          for(T r:rr){ if(!ok) break; snprintf(w,sizeof w,"r=%.9g",(double)r); O fresh(n,rc,rs); fresh.build(r); ok=D::eq(fresh,n,rc,rs,true,r,w); if(!ok) break; snprintf(w,sizeof w,"reused object, r=%.9g",(double)r); one.build(r); one.build(r); ok=D::eq(one,n,rc,rs,true,r,w); mc::step(3); } }
        rr.clear(); rr.shrink_to_fit(); if(__sanitizer_get_current_allocated_bytes()!=b0) mc::viol(0,"memory is not released"); mc::state_cur(); mc::validated(); } }
static const double CF[2][3]={{3,5,2},{5,4,1}};   // size, rcut, smooth
static const double RB[3]={2.5,3.75,4.5};         // 4.5 lies outside the second configuration
struct Op{int k,a,b;};
struct M{ int c=-1; int r=-1; bool known=true; };
template<class D> static void hist(std::vector<Op>&pre,int depth,int slots,const char*tn){ typedef typename D::C T; typedef typename D::O O;
    if(!pre.empty()){ std::string nm; char b[64]; const char*N[]={"new","build","copy","move","assign","move-assign","drop"}; for(auto&o:pre){ snprintf(b,sizeof b," %s(%d,%d)",N[o.k],o.a,o.b); nm+=b; }
        if(mc::begin("history %s %s slots=%d%s",D::name(),tn,slots,nm.c_str())){ size_t b0=__sanitizer_get_current_allocated_bytes(); mc::H h; 
            { std::vector<std::unique_ptr<O>> S(slots); std::vector<M> m(slots); for(auto&s:S) s.reset(new O());
              for(auto&o:pre){ mc::step(); switch(o.k){
                case 0: S[o.a].reset(new O((int)CF[o.b][0],(T)CF[o.b][1],(T)CF[o.b][2])); m[o.a]={o.b,-1,true}; break;
                case 1: if(m[o.a].known&&m[o.a].c>=0&&!(D::inner&&(RB[o.b]>CF[m[o.a].c][1]))){ S[o.a]->build((T)RB[o.b]); m[o.a].r=o.b; } break;
                case 2: S[o.a].reset(new O(*S[o.b])); m[o.a]=m[o.b]; break;
                case 3: S[o.a].reset(new O(std::move(*S[o.b]))); m[o.a]=m[o.b]; m[o.b].known=false; break;
                case 4: { O&r=(*S[o.a]=*S[o.b]); if(&r!=S[o.a].get()) mc::viol(0,"assignment does not return its target"); m[o.a]=m[o.b]; break; }
                case 5: { O&r=(*S[o.a]=std::move(*S[o.b])); if(&r!=S[o.a].get()) mc::viol(0,"move assignment does not return its target"); M t=m[o.b]; if(o.a!=o.b) m[o.b].known=false; m[o.a]=t; break; }
                case 6: S[o.a].reset(new O()); m[o.a]=M(); break; } }
              for(int i=0;i<slots;i++){ h.i(m[i].c).i(m[i].r).i(m[i].known); if(!m[i].known) continue; snprintf(b,sizeof b,"slot %d",i); int c=m[i].c; if(!D::eq(*S[i],c<0?0:(int)CF[c][0],c<0?1:(T)CF[c][1],c<0?0:(T)CF[c][2],m[i].r>=0,m[i].r<0?0:(T)RB[m[i].r],b)) break; } }
            if(__sanitizer_get_current_allocated_bytes()!=b0) mc::viol(0,"memory is not released");
            h.s(D::name()); mc::state(h); mc::validated(); } }
    if((int)pre.size()==depth) return;
    std::vector<Op> A; for(int i=0;i<slots;i++){ for(int c=0;c<2;c++) A.push_back({0,i,c}); for(int r=0;r<3;r++) A.push_back({1,i,r}); for(int j=0;j<slots;j++){ if(i!=j){ A.push_back({2,i,j}); A.push_back({3,i,j}); } A.push_back({4,i,j}); A.push_back({5,i,j}); } A.push_back({6,i,0}); }
    for(auto&o:A){ if(pre.empty()&&o.k!=0&&o.k!=4&&o.k!=2&&o.k!=5&&o.k!=3) continue; pre.push_back(o); hist<D>(pre,depth,slots,tn); pre.pop_back(); } }
template<class T> static void old(const char*tn){ // RadialBasisChebyshev: all in the constructor
    for(int hm=0;hm<=(mc::thorough?11:7);hm++)for(auto&c:CUT){ T rc=(T)c[0],rs=(T)c[1]; if(!mc::begin("grid RadialBasisChebyshev %s highest=%d rcut=%g smooth=%g",tn,hm,c[0],c[1])) continue;
        std::vector<T> rr; for(double r:radii(c[0],c[1],60)) rr.push_back((T)r); ends(rr,rc,rs,false); mtp::SwitchFunc<T> S(rc,rs);
        for(T r:rr){ if(r>1e5) continue; mtp::RadialBasisChebyshev<T> o(rc,rs,hm,r); Ref e=ref(hm+1,rc,rs,r); char w[64]; snprintf(w,sizeof w,"r=%.9g",(double)r); double k=(double)(rc/(rc-rs))*(1+std::fabs((double)(2*r-rc-rs)/(rc-rs))); mc::step();
            if(o.get_rcut()!=rc||o.get_rcut_smooth()!=rs||o.get_rji()!=r||o.get_hmju()!=hm){ mc::viol(0,"%s: parameters",w); break; }
            bool z=r>=rc; if(z) for(int i=0;i<=hm;i++) e.q[i]=e.dq[i]=0;
            bool ok=cmp(w,"polynomial",o.get_chebyshev_vals(),e.t,tl<T>()*k,false)&&cmp(w,"polynomial slope",o.get_chebyshev_ders(),e.dr,tl<T>()*k*8,false)&&cmp(w,"basis",o.get_rb_vals(),e.q,tl<T>()*k,z)&&cmp(w,"basis slope",o.get_rb_ders(),e.dq,tl<T>()*k*8,z);
            free((void*)o.get_chebyshev_vals()); free((void*)o.get_chebyshev_ders()); free((void*)o.get_rb_vals()); free((void*)o.get_rb_ders());   // the class leaves them to the caller
            if(!ok) break; }
        mc::state_cur(); mc::validated(); } }
template<class T> static void switches(const char*tn){ for(auto&c:CUT){ T rc=(T)c[0],rs=(T)c[1]; if(!mc::begin("switch %s rcut=%g smooth=%g",tn,c[0],c[1])) continue;
        mtp::MtpSwitchFunc1<T> a(rc,rs),a2,a3(a); a2=a; mtp::MtpSwitchFunc2<T> b(rc,rs),b2,b3(b); b2=b; mtpr::SwitchFunction<T> f(rc,rs); mtp::SwitchFunc<T> g(rc,rs); std::vector<T> rr; int n=mc::thorough?20000:2000; for(double r:radii(c[0],c[1],n)) rr.push_back((T)r); ends(rr,rc,rs,false); double k=tl<T>()*(double)(rc/(rc-rs))*8,last=2;
        for(T r:rr){ ld x=((ld)2*r-((ld)rc+rs))/((ld)rc-rs),u=((ld)r-rs)/((ld)rc-rs); ld s=r<rs||r>=rc?0:sw(u),d=r<rs||r>=rc?0:dsw(u)/((ld)rc-rs); mc::step();
            for(auto*p:{&a,&a2,&a3}) if(!mc::near(p->get_result(r),(double)x,k)||!mc::near(p->get_deriv2r(),(double)(2/((ld)rc-rs)),k)){ mc::viol(0,"scaled distance at %.9g is %.9g, slope %.9g",(double)r,(double)p->get_result(r),(double)p->get_deriv2r()); goto nx; }
            for(auto*p:{&b,&b2,&b3}) if(!mc::near(p->get_result(r),(double)s,k)||!mc::near(p->get_deriv2r(r),(double)d,k*4)){ mc::viol(0,"switch at %.9g is %.9g, slope %.9g; expected %.9g, %.9g",(double)r,(double)p->get_result(r),(double)p->get_deriv2r(r),(double)s,(double)d); goto nx; }
            if(r>=rs&&r<=rc&&(!mc::near(f.val(r),(double)s,k)||!mc::near(f.der2r(r),(double)d,k*4))){ mc::viol(0,"mtpr switch at %.9g is %.9g, slope %.9g; expected %.9g, %.9g",(double)r,(double)f.val(r),(double)f.der2r(r),(double)s,(double)d); goto nx; }
            ld s1=r<rs?1:s; if(!mc::near(g.get_result(r),(double)s1,k)||!mc::near(g.get_deriv2rji(r),(double)d,k*4)){ mc::viol(0,"inner switch at %.9g is %.9g, slope %.9g; expected %.9g, %.9g",(double)r,(double)g.get_result(r),(double)g.get_deriv2rji(r),(double)s1,(double)d); goto nx; }
            (void)last; }
        nx: mc::state_cur(); mc::validated(); } }
template<class D> static void hh(const char*tn,int d2,int d3){ std::vector<Op> pre; hist<D>(pre,d2,2,tn); if(d3) hist<D>(pre,d3,3,tn); }
int main(int c,char**v){ mc::init(c,v); switches<double>("double"); switches<float>("float");
    grid<DC<double>>("double"); grid<DC<float>>("float"); grid<DQ<double>>("double"); grid<DQ<float>>("float"); grid<DRB<double>>("double"); grid<DRB<float>>("float"); grid<DRQ<double>>("double"); grid<DRQ<float>>("float");
    old<double>("double"); old<float>("float"); int d=mc::thorough?5:4,e=3; 
    hh<DC<double>>("double",d,e); hh<DQ<double>>("double",d,e); hh<DRB<double>>("double",d,e); hh<DRQ<double>>("double",d,e); hh<DC<float>>("float",2,0); hh<DQ<float>>("float",2,0); hh<DRB<float>>("float",2,0); hh<DRQ<float>>("float",2,0);
    return mc::done(); }
