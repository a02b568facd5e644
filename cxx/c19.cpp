// C19: Structure<T> under every operation sequence, against a plain-value model.
#include "mc.hpp"
#include "crystals.hpp"
#include "nblist/include/structure.h"
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
using namespace matersdk;

struct Model { bool undef=false; int n=0; M3 L{}; V3 org{{0,0,0}}; std::vector<int> z; std::vector<V3> c; int prim=0; };

static Model model_of(const Crystal& k){ Model m; m.n=k.n(); m.L=k.L; m.z=k.z; for(int i=0;i<m.n;i++) m.c.push_back(k.cart(i)); m.prim=m.n; return m; }
static void lohi(int s,int&lo,int&hi){ if(s%2==0){lo=-s/2+1;hi=s/2;} else {lo=-(s-1)/2;hi=(s-1)/2;} }
static void model_scale(Model& m,const int*s){
    Model o=m; int lo[3],hi[3]; for(int i=0;i<3;i++) lohi(s[i],lo[i],hi[i]);
    m.z.clear(); m.c.clear();
    for(int a=lo[0];a<=hi[0];a++)for(int b=lo[1];b<=hi[1];b++)for(int c=lo[2];c<=hi[2];c++)for(int i=0;i<o.n;i++){
        m.z.push_back(o.z[i]); m.c.push_back(o.c[i]+double(a)*o.L[0]+double(b)*o.L[1]+double(c)*o.L[2]); }
    m.n=(int)m.z.size();
    m.org=o.org+double(lo[0])*o.L[0]+double(lo[1])*o.L[1]+double(lo[2])*o.L[2];
    for(int i=0;i<3;i++) m.L[i]=double(s[i])*o.L[i];
}
template<class T> static double TOL(){ return sizeof(T)==4?2e-5:1e-10; }

template<class T> static std::unique_ptr<Structure<T>> make(const Crystal& k,bool array,bool cart){
    int n=k.n(); std::vector<int> z=k.z; std::unique_ptr<Structure<T>> r;
    T B[3][3]; for(int i=0;i<3;i++)for(int j=0;j<3;j++)B[i][j]=(T)k.L[i][j];
    std::vector<std::array<T,3>> C(n); for(int i=0;i<n;i++){ V3 v=cart?k.cart(i):k.f[i]; for(int j=0;j<3;j++)C[i][j]=(T)v[j]; }
    if(array){ r.reset(new Structure<T>(n,B,z.data(),(T(*)[3])C.data(),cart)); }
    else { T*bp[3]={B[0],B[1],B[2]}; std::vector<T*> cp(n); for(int i=0;i<n;i++)cp[i]=C[i].data();
        r.reset(new Structure<T>(n,bp,z.data(),cp.data(),cart)); }
    // the constructor must have copied: poison the arguments
    for(auto&c:C)c.fill((T)1e9); for(int i=0;i<3;i++)for(int j=0;j<3;j++)B[i][j]=(T)-1e9; std::fill(z.begin(),z.end(),-7);
    return r;
}

template<class T> static bool same(const Structure<T>& s,const Model& m,const char* who){
    double tol=TOL<T>();
    if(s.get_num_atoms()!=m.n){ mc::viol(0,"%s: %d atoms, expected %d",who,s.get_num_atoms(),m.n); return false; }
    if(m.n==0) { if(s.get_basis_vectors()||s.get_cart_coords()||s.get_atomic_numbers()||s.get_projected_lengths()||s.get_interplanar_distances()){ mc::viol(0,"%s: empty structure hands out data",who); return false;} return true; }
    if(m.undef) return true;
    const T**B=s.get_basis_vectors(); const T**C=s.get_cart_coords(); const int*Z=s.get_atomic_numbers(); const T*O=s.get_pseudo_origin();
    for(int i=0;i<3;i++)for(int j=0;j<3;j++) if(!mc::near(B[i][j],m.L[i][j],tol)){ mc::viol(0,"%s: lattice[%d][%d]=%g expected %g",who,i,j,(double)B[i][j],m.L[i][j]); return false; }
    for(int i=0;i<3;i++) if(!mc::near(O[i],m.org[i],tol)){ mc::viol(0,"%s: cell origin[%d]=%g expected %g",who,i,(double)O[i],m.org[i]); return false; }
    // every image once: atoms are compared as a set of (z, position); within one cell in the original order
    std::vector<std::array<double,4>> a,b;
    for(int i=0;i<m.n;i++){ a.push_back({(double)Z[i],(double)C[i][0],(double)C[i][1],(double)C[i][2]}); b.push_back({(double)m.z[i],m.c[i][0],m.c[i][1],m.c[i][2]}); }
    std::vector<char> used(m.n,0);
    for(int i=0;i<m.n;i++){ bool ok=false; for(int j=0;j<m.n&&!ok;j++) if(!used[j]&&a[i][0]==b[j][0]&&i%m.prim==j%m.prim){ bool e=true; for(int d=1;d<4;d++) if(!mc::near(a[i][d],b[j][d],tol)) e=false; if(e){used[j]=1;ok=true;} }
        if(!ok){ mc::viol(0,"%s: atom %d (z=%d, %g %g %g) is not one of the expected images (or listed twice)",who,i,Z[i],(double)C[i][0],(double)C[i][1],(double)C[i][2]); return false; } }
    // geometry
    T* pl=s.get_projected_lengths(); T* ip=s.get_interplanar_distances(); T** vx=s.get_vertexes(); T** lim=s.get_limit_xyz();
    bool ok=true; double vol=std::fabs(dot3(m.L[0],cross3(m.L[1],m.L[2])));
    double lo[3],hi[3];
    for(int j=0;j<3;j++){ double e=std::fabs(m.L[0][j])+std::fabs(m.L[1][j])+std::fabs(m.L[2][j]);
        if(ok&&!mc::near(pl[j],e,tol)){ mc::viol(0,"%s: projected length[%d]=%g expected %g",who,j,(double)pl[j],e); ok=false; }
        double h=vol/len3(cross3(m.L[(j+1)%3],m.L[(j+2)%3]));
        if(ok&&!mc::near(ip[j],h,tol*10)){ mc::viol(0,"%s: interplanar distance[%d]=%g expected %g",who,j,(double)ip[j],h); ok=false; }
        lo[j]=1e99;hi[j]=-1e99; }
    std::vector<V3> want; for(int q=0;q<8;q++){ V3 v=m.org; for(int i=0;i<3;i++) if(q>>i&1) v=v+m.L[i]; want.push_back(v); for(int j=0;j<3;j++){lo[j]=std::min(lo[j],v[j]);hi[j]=std::max(hi[j],v[j]);} }
    std::vector<char> u8(8,0);
    for(int q=0;q<8&&ok;q++){ bool f=false; for(int w=0;w<8&&!f;w++) if(!u8[w]){ bool e=true; for(int d=0;d<3;d++) if(!mc::near(vx[q][d],want[w][d],tol)) e=false; if(e){u8[w]=1;f=true;} } if(!f){ mc::viol(0,"%s: vertex %d (%g %g %g) is not a corner of the cell",who,q,(double)vx[q][0],(double)vx[q][1],(double)vx[q][2]); ok=false; } }
    for(int j=0;j<3&&ok;j++) if(!mc::near(lim[j][0],lo[j],tol)||!mc::near(lim[j][1],hi[j],tol)){ mc::viol(0,"%s: bounds of axis %d are [%g,%g], expected [%g,%g]",who,j,(double)lim[j][0],(double)lim[j][1],lo[j],hi[j]); ok=false; }
    free(pl);free(ip); for(int q=0;q<8;q++)free(vx[q]); free(vx); for(int j=0;j<3;j++)free(lim[j]); free(lim);
    return ok;
}

static const int SC[][3]={{2,1,3},{1,3,1},{1,1,1},{3,2,2},{1,2,1},{1,1,2},{4,1,1}};
struct Op{int k,a,b;};   // kinds below
static std::vector<Op> alphabet(int slots){ std::vector<Op> v;
    for(int i=0;i<slots;i++){ v.push_back({0,i,0}); v.push_back({0,i,1}); v.push_back({1,i,0}); v.push_back({4,i,0}); v.push_back({4,i,1}); v.push_back({5,i,0}); }
    for(int i=0;i<slots;i++)for(int j=0;j<slots;j++){ v.push_back({3,i,j}); if(i!=j) v.push_back({2,i,j}); }
    return v; }
static std::string opname(const Op&o){ char b[64]; const char*n[]={"new","newsized","copy","assign","scale","drop"}; snprintf(b,sizeof b,"%s(%d,%d)",n[o.k],o.a,o.b); return b; }

template<class T> static bool apply(const Op&o,std::vector<std::unique_ptr<Structure<T>>>&S,std::vector<Model>&M){
    switch(o.k){
    case 0: { Crystal k=crystal(o.b?2:3,o.b?1:0); S[o.a]=make<T>(k,o.b==1,o.b==0); M[o.a]=model_of(k); break; }
    case 1: S[o.a].reset(new Structure<T>(2)); M[o.a]=Model(); M[o.a].n=2; M[o.a].undef=true; break;
    case 2: S[o.a].reset(new Structure<T>(*S[o.b])); M[o.a]=M[o.b]; break;
    case 3: { Structure<T>&r=(*S[o.a]=*S[o.b]); if(&r!=S[o.a].get()){ mc::viol(0,"assignment does not return its target"); return false; } M[o.a]=M[o.b]; break; }
    case 4: if(M[o.a].n==0||M[o.a].undef||M[o.a].n>24) return false; S[o.a]->make_supercell(SC[o.b]); model_scale(M[o.a],SC[o.b]); break;
    case 5: S[o.a].reset(new Structure<T>()); M[o.a]=Model(); break;
    } return true; }

template<class T> static void seq(const std::vector<Op>&ops,const char*tn,int slots){
    std::string nm; for(auto&o:ops){ if(!nm.empty())nm+=" "; nm+=opname(o);} 
    if(!mc::begin("seq %s slots=%d %s",tn,slots,nm.c_str())) return;
    size_t before=__sanitizer_get_current_allocated_bytes(); mc::H h; bool ran=true;
    { std::vector<std::unique_ptr<Structure<T>>> S(slots); std::vector<Model> M(slots); for(auto&s:S)s.reset(new Structure<T>());
      for(auto&o:ops){ if(!apply<T>(o,S,M)){ran=false;break;} mc::step(); }
      if(ran) for(int i=0;i<slots;i++){ char w[32]; snprintf(w,sizeof w,"slot %d",i); if(!same<T>(*S[i],M[i],w)) break; h.i(M[i].n).i(M[i].undef); for(int j=0;j<3&&M[i].n;j++)h.d(M[i].L[j][j]); for(auto z:M[i].z)h.i(z);} }
    size_t after=__sanitizer_get_current_allocated_bytes();
    if(before!=after) mc::viol(0,"%ld bytes are not released after all structures are destroyed",(long)after-(long)before);
    if(ran){ mc::state(h); mc::validated(); }
}
template<class T> static void dfs(std::vector<Op>&pre,const std::vector<Op>&A,int depth,const char*tn,int slots){
    if(!pre.empty()) seq<T>(pre,tn,slots);
    if((int)pre.size()==depth) return;
    for(auto&o:A){ pre.push_back(o); dfs<T>(pre,A,depth,tn,slots); pre.pop_back(); } }

template<class T> static void geom(const char*tn){
    for(size_t l=0;l<LATS.size();l++)for(size_t m=0;m<MOTIFS.size();m++)for(int arr=0;arr<2;arr++)for(int cart=0;cart<2;cart++)
    for(int sx=1;sx<=4;sx++)for(int sy=1;sy<=4;sy++)for(int sz=1;sz<=(mc::thorough?5:4);sz++){
        if(!mc::begin("geom %s %s motif=%zu array=%d cart=%d scale=%d,%d,%d",tn,LATS[l].first,m,arr,cart,sx,sy,sz)) continue;
        Crystal k=crystal(l,m); auto s=make<T>(k,arr,cart); Model md=model_of(k); int sc[3]={sx,sy,sz}; int keep[3]={sx,sy,sz};
        if(!same<T>(*s,md,"as built")) continue;
        Structure<T> cp(*s);
        s->make_supercell(sc); if(memcmp(sc,keep,sizeof sc)) mc::viol(0,"make_supercell changed its argument");
        if(!same<T>(cp,md,"copy taken before scaling")) continue;
        model_scale(md,sc); mc::step(2); mc::state_cur(); mc::validated();
        same<T>(*s,md,"scaled"); } }

template<class T> static void geom_large(const char*tn){
    static const int SL[][3]={{1,1,1},{2,1,1},{1,3,1},{3,3,3},{5,1,2},{1,1,9},{12,1,1}};
    for(int w=0;w<nlarge();w++)for(int arr=0;arr<2;arr++)for(int cart=0;cart<2;cart++)for(auto&q:SL){
        if(!mc::begin("geom %s %s array=%d cart=%d scale=%d,%d,%d",tn,largename(w),arr,cart,q[0],q[1],q[2])) continue;
        Crystal k=large(w); auto s=make<T>(k,arr,cart); Model md=model_of(k); int sc[3]={q[0],q[1],q[2]};
        if(!same<T>(*s,md,"as built")) continue;
        Structure<T> cp(*s); s->make_supercell(sc);
        if(!same<T>(cp,md,"copy taken before scaling")) continue;
        model_scale(md,sc); mc::step(2); mc::state_cur(); mc::validated();
        if(same<T>(*s,md,"scaled")){ cp=*s; s.reset(); same<T>(cp,md,"assigned"); } } }

// unusual crystals: atoms outside the cell, the heaviest elements, a left-handed sheared cell, 400 atoms
template<class T> static void odds(const char*tn){ static const int SL[][3]={{1,1,1},{2,1,3},{7,1,1},{1,8,1},{1,2,6},{5,5,1}};
    for(int w=0;w<4;w++)for(int arr=0;arr<2;arr++)for(int cart=0;cart<2;cart++)for(auto&q:SL){ if(!mc::begin("geom %s odd=%d array=%d cart=%d scale=%d,%d,%d",tn,w,arr,cart,q[0],q[1],q[2])) continue;
        Crystal k=crystal(w%LATS.size(),2); if(w==0) k.f={{-3.3125,7.0625,0.5},{1.6875,-0.375,2.71875},{12.1875,0.8125,-9.28125}}; if(w==1){ k.z={118,255,300}; } if(w==2){ k.L=M3{{{-0.5,0.25,9.0},{6.0,-2.0,0.125},{8.0,7.5,-3.0}}}; }
        if(w==3){ if(q[0]*q[1]*q[2]>8) { mc::state_cur(); continue; } k.f.clear(); k.z.clear(); for(int i=0;i<400;i++){ k.z.push_back(1+(i*37)%118); k.f.push_back({(i%20)/20.0+0.0125,(i/20)/20.0,((i*7)%32)/32.0}); } }
        auto s=make<T>(k,arr,cart); Model md=model_of(k); int sc[3]={q[0],q[1],q[2]};
        if(!same<T>(*s,md,"as built")) continue; Structure<T> cp(*s); s->make_supercell(sc); if(!same<T>(cp,md,"copy taken before scaling")) continue;
        model_scale(md,sc); mc::step(2); mc::state_cur(); mc::validated(); if(same<T>(*s,md,"scaled")){ cp=*s; s.reset(); same<T>(cp,md,"assigned"); } } }

int main(int c,char**v){ mc::init(c,v);
    std::vector<Op> pre;
    dfs<double>(pre,alphabet(2),mc::thorough?5:4,"double",2);
    dfs<float>(pre,alphabet(2),mc::thorough?4:3,"float",2);
    dfs<double>(pre,alphabet(3),mc::thorough?4:3,"double",3);
    geom_large<double>("double"); geom_large<float>("float"); odds<double>("double"); odds<float>("float");
    geom<double>("double"); geom<float>("float");
    return mc::done(); }
