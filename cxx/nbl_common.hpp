// Brute-force periodic neighbours and helpers shared by the neighbour-list harnesses.
#pragma once
#include "mc.hpp"
#include "crystals.hpp"
#include <memory>
#include <set>
#include "nblist/include/structure.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static const std::vector<std::pair<const char*,M3>> XLATS = {   // extra orientations: every axis negative / permuted
  {"neg",  {{{-3.0,0,0},{0,-2.5,0},{0,0,-3.5}}}},
  {"perm", {{{0,0,6.5},{2.6,0,0.1},{0,1.7,0}}}},
};
static inline int nlat(){ return (int)(LATS.size()+XLATS.size()); }
static inline const char* latname(int l){ return l<(int)LATS.size()?LATS[l].first:XLATS[l-LATS.size()].first; }
static inline Crystal xcrystal(int l,int m){ return Crystal{l<(int)LATS.size()?LATS[l].second:XLATS[l-LATS.size()].second,MOTIFS[m].first,MOTIFS[m].second}; }
// extreme cells: one short axis, all axes short (hundreds of neighbours), heavy elements
static inline int nextreme(){ return 4; }
static inline const char* extremename(int w){ const char*n[]={"needle","dense","heavy","sheet"}; return n[w]; }
static inline Crystal extreme(int w,double&rc){ static const double R[]={6.31,5.63,4.17,5.21}; rc=R[w]; Crystal k;
    static const M3 L[]={ {{{1.03125,0.1,0},{0.2,6.0,0.3},{-0.1,0.4,7.0}}}, {{{1.25,0.1,0},{0.1,1.375,0.05},{0,-0.1,1.4375}}}, {{{3.1,0.4,-0.3},{0.7,2.9,0.5},{-0.6,0.8,3.7}}}, {{{1.5,0,0.2},{0.3,1.25,0},{0,0.2,40.0}}} };
    k.L=L[w]; if(w==1){ k.z={3}; k.f={{0.25,0.5,0.125}}; } else if(w==2){ k.z={118,92,84}; k.f={{0.125,0.25,0.0625},{0.5625,0.75,0.625},{0.25,0.8125,0.28125}}; } else { k.z={14,8}; k.f={{0.125,0.25,0.0625},{0.5625,0.75,0.09375}}; }
    return k; }
struct Nb { int j; V3 d; double r; };
static inline double height(const M3&L,int k){ return std::fabs(dot3(L[0],cross3(L[1],L[2])))/len3(cross3(L[(k+1)%3],L[(k+2)%3])); }
static inline std::vector<Nb> brute(const Crystal&k,int i,double rcut,const bool*pbc){
    int R[3]; for(int a=0;a<3;a++) R[a]=pbc[a]?(int)std::ceil(rcut/height(k.L,a))+1:0;
    std::vector<Nb> v; V3 c=k.cart(i);
    for(int j=0;j<k.n();j++)for(int a=-R[0];a<=R[0];a++)for(int b=-R[1];b<=R[1];b++)for(int e=-R[2];e<=R[2];e++){
        if(j==i&&!a&&!b&&!e) continue;
        V3 d=k.cart(j)+double(a)*k.L[0]+double(b)*k.L[1]+double(e)*k.L[2]-c; double r=len3(d);
        if(r<rcut) v.push_back({j,d,r}); }
    std::sort(v.begin(),v.end(),[](const Nb&x,const Nb&y){return x.r<y.r;});
    return v; }
// cutoffs: midpoints of gaps between shells (no atom within `gap` of the cutoff), at most `want` of them, spread over (rmin, rmax)
static inline std::vector<double> cutoffs(const Crystal&k,double rmax,int want,double gap=2e-3){
    bool all[3]={true,true,true}; std::set<double> sh; for(int i=0;i<k.n();i++) for(auto&n:brute(k,i,rmax,all)) sh.insert(n.r);
    std::vector<double> s(sh.begin(),sh.end()),c; s.push_back(rmax);
    if(!s.empty()&&s[0]>0.3) c.push_back(s[0]*0.75);
    for(size_t i=0;i+1<s.size();i++) if(s[i+1]-s[i]>2*gap) c.push_back(0.5*(s[i]+s[i+1]));
    if((int)c.size()<=want) return c;
    std::vector<double> o; for(int i=0;i<want;i++) o.push_back(c[(size_t)((double)i*(c.size()-1)/(want-1)+0.5)]);
    return o; }
template<class T> static std::unique_ptr<matersdk::Structure<T>> build(const Crystal&k){
    int n=k.n(); std::vector<int> z=k.z; T B[3][3]; for(int i=0;i<3;i++)for(int j=0;j<3;j++)B[i][j]=(T)k.L[i][j];
    std::vector<std::array<T,3>> C(n); for(int i=0;i<n;i++)for(int j=0;j<3;j++)C[i][j]=(T)k.f[i][j];
    return std::unique_ptr<matersdk::Structure<T>>(new matersdk::Structure<T>(n,B,z.data(),(T(*)[3])C.data(),false)); }
// is the multiset `got` (index, displacement) equal to `want`?
static inline bool same_set(const std::vector<Nb>&got,const std::vector<Nb>&want,double tol,std::string&why){
    char b[256]; std::vector<char> u(want.size(),0);
    for(auto&g:got){ bool ok=false; for(size_t w=0;w<want.size()&&!ok;w++) if(!u[w]&&g.j==want[w].j&&std::fabs(g.d[0]-want[w].d[0])<tol&&std::fabs(g.d[1]-want[w].d[1])<tol&&std::fabs(g.d[2]-want[w].d[2])<tol){u[w]=1;ok=true;}
        if(!ok){ snprintf(b,sizeof b,"lists atom %d at (%g %g %g), which is not a neighbour (or listed twice)",g.j,g.d[0],g.d[1],g.d[2]); why=b; return false; } }
    for(size_t w=0;w<want.size();w++) if(!u[w]){ snprintf(b,sizeof b,"misses atom %d at (%g %g %g), r=%g",want[w].j,want[w].d[0],want[w].d[1],want[w].d[2],want[w].r); why=b; return false; }
    return true; }
