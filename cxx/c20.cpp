// C20: Supercell<T> and BinLinkedList<T>.
#include "nbl_common.hpp"
#include "nblist/include/binLinkedList.h"
using namespace matersdk;
template<class T> static double PT(){ return sizeof(T)==4?1e-4:1e-8; }

// ---------- supercell ----------
static void lohi(int s,int&lo,int&hi){ if(s%2==0){lo=-s/2+1;hi=s/2;} else {lo=-(s-1)/2;hi=(s-1)/2;} }
template<class T> static bool sc_same(const Supercell<T>&S,const Crystal&k,const int*s,const char*who){
    double tol=PT<T>(); int np=k.n(), tot=np*s[0]*s[1]*s[2];
    if(S.get_prim_num_atoms()!=np||S.get_num_atoms()!=tot||S.get_structure().get_num_atoms()!=tot){ mc::viol(0,"%s: atom counts %d/%d, expected %d/%d",who,S.get_prim_num_atoms(),S.get_num_atoms(),np,tot); return false; }
    for(int i=0;i<3;i++) if(S.get_scaling_matrix()[i]!=s[i]){ mc::viol(0,"%s: scaling",who); return false; }
    int hx[3]; for(int i=0;i<3;i++){int lo,hi;lohi(s[i],lo,hi);hx[i]=-lo;}
    for(int i=0;i<3;i++) if(S.get_prim_cell_idx_xyz()[i]!=hx[i]){ mc::viol(0,"%s: home cell index along axis %d is %d, expected %d",who,i,S.get_prim_cell_idx_xyz()[i],hx[i]); return false; }
    const T**C=S.get_structure().get_cart_coords(); const int*Z=S.get_structure().get_atomic_numbers();
    for(int i=0;i<np;i++){ int o=S.get_owned_atom_idxs()[i]; if(o<0||o>=tot||o!=S.get_prim_cell_idx()*np+i){ mc::viol(0,"%s: owned index %d of atom %d",who,o,i); return false; }
        V3 c=k.cart(i); for(int d=0;d<3;d++) if(!mc::near(C[o][d],c[d],tol)||Z[o]!=k.z[i]){ mc::viol(0,"%s: owned atom %d is at (%g %g %g), the primitive atom is at (%g %g %g)",who,i,(double)C[o][0],(double)C[o][1],(double)C[o][2],c[0],c[1],c[2]); return false; } }
    std::vector<Nb> got,want; int lo[3],hi[3]; for(int i=0;i<3;i++)lohi(s[i],lo[i],hi[i]);
    for(int i=0;i<tot;i++) got.push_back({Z[i]*100+i%np,{(double)C[i][0],(double)C[i][1],(double)C[i][2]},0});
    for(int i=0;i<np;i++)for(int a=lo[0];a<=hi[0];a++)for(int b=lo[1];b<=hi[1];b++)for(int c=lo[2];c<=hi[2];c++)
        want.push_back({k.z[i]*100+i,k.cart(i)+double(a)*k.L[0]+double(b)*k.L[1]+double(c)*k.L[2],0});
    std::string why; if(!same_set(got,want,tol*10,why)){ mc::viol(0,"%s: supercell %s",who,why.c_str()); return false; }
    return true; }

template<class T> static void supercells(const char*tn){
    int mx=mc::thorough?5:4;
    for(int l=0;l<nlat();l++)for(size_t m=0;m<MOTIFS.size();m++)for(int x=1;x<=mx;x++)for(int y=1;y<=mx;y++)for(int z=1;z<=mx;z++){
        if(!mc::begin("supercell %s %s motif=%zu scale=%d,%d,%d",tn,latname(l),m,x,y,z)) continue;
        Crystal k=xcrystal(l,m); int s[3]={x,y,z}; size_t before=__sanitizer_get_current_allocated_bytes();
        { auto st=build<T>(k); Supercell<T> S(*st,s); mc::step(); if(st->get_num_atoms()!=k.n()) mc::viol(0,"the caller's structure was scaled");
          if(sc_same<T>(S,k,s,"built")){ Supercell<T> c(S); Supercell<T> d; d=c; mc::step(2); sc_same<T>(c,k,s,"copy")&&sc_same<T>(d,k,s,"assigned"); } }
        if(__sanitizer_get_current_allocated_bytes()!=before) mc::viol(0,"memory is not released");
        mc::state_cur(); mc::validated(); } }

// ---------- bins ----------
template<class T> static bool bins_same(const BinLinkedList<T>&B,const Crystal&k,double rcut,const bool*pbc,const T*bs,const char*who){
    const Supercell<T>&S=B.get_supercell(); const T**C=S.get_structure().get_cart_coords(); int np=k.n();
    if(S.get_prim_num_atoms()!=np){ mc::viol(0,"%s: %d primitive atoms",who,S.get_prim_num_atoms()); return false; }
    const int*nb=B.get_num_bin_xyz(); long tot=(long)nb[0]*nb[1]*nb[2];
    for(int d=0;d<3;d++) if(!mc::near(B.get_bin_size_xyz()[d],bs[d],1e-6)){ mc::viol(0,"%s: bin size",who); return false; }
    // the bins tile the bounding box of the supercell
    T**lim=S.get_structure().get_limit_xyz(); bool ok=true;
    for(int d=0;d<3;d++){ if(!mc::near(B.get_min_limit_xyz()[d],lim[d][0],PT<T>())) ok=false; if(nb[d]*(double)bs[d] < (double)(lim[d][1]-lim[d][0])-1e-3*bs[d]) ok=false; }
    for(int d=0;d<3;d++)free(lim[d]); free(lim);
    if(!ok){ mc::viol(0,"%s: the bins do not cover the supercell's bounding box",who); return false; }
    for(int i=0;i<np;i++){
        int own=B.get_bin_idx(i); if(own<0||own>=tot){ mc::viol(0,"%s: atom %d has bin %d of %ld",who,i,own,tot); return false; }
        // the bin is the one whose box contains the atom (x fastest); on a face either side will do, beyond the last face the last bin
        { int o=S.get_owned_atom_idxs()[i]; int bx[3]={own%nb[0],own/nb[0]%nb[1],own/nb[0]/nb[1]};
          for(int d=0;d<3;d++){ double u=((double)C[o][d]-(double)B.get_min_limit_xyz()[d])/(double)bs[d],e=1e-3;
            int f0=std::max(0,std::min((int)std::floor(u-e),nb[d]-1)),f1=std::max(0,std::min((int)std::floor(u+e),nb[d]-1));
            if(bx[d]<f0||bx[d]>f1){ mc::viol(0,"%s: atom %d lies in bin %d along axis %d, not %d",who,i,f1,d,bx[d]); return false; } } }
        int*q=B.get_neigh_bins(i); int nq=B.get_num_neigh_bins(); std::set<int> seen; bool has=false;
        for(int a=0;a<nq;a++){ if(q[a]==-1) continue; if(q[a]<0||q[a]>=tot){ mc::viol(0,"%s: neighbour bin %d of %ld",who,q[a],tot); free(q); return false; }
            if(!seen.insert(q[a]).second){ mc::viol(0,"%s: bin %d is visited twice for atom %d",who,q[a],i); free(q); return false; } if(q[a]==own) has=true; }
        free(q); if(!has){ mc::viol(0,"%s: the atom's own bin is not searched",who); return false; }
        std::vector<int> nl=B.get_neigh_atoms(i); std::vector<Nb> got; int o=S.get_owned_atom_idxs()[i];
        for(int a:nl){ if(a<0||a>=S.get_num_atoms()){ mc::viol(0,"%s: neighbour index %d",who,a); return false; } got.push_back({a%np,{(double)(C[a][0]-C[o][0]),(double)(C[a][1]-C[o][1]),(double)(C[a][2]-C[o][2])},0}); }
        std::string why; if(!same_set(got,brute(k,i,rcut,pbc),PT<T>()*10,why)){ mc::viol(0,"%s: atom %d %s",who,i,why.c_str()); return false; } }
    return true; }

template<class T> static void bins(const char*tn){
    // bin sizes as multiples of the cutoff; the last is anisotropic; 0 = the default constructor
    const double BS[][3]={{0,0,0},{0.5,0.5,0.5},{1,1,1},{2.3,2.3,2.3},{0.26,0.26,0.26},{0.4,0.9,1.7},{6,0.34,0.7},{0.34,6,0.8},{0.7,0.45,6}};
    int nbs=9;
    for(int l=0;l<nlat();l++)for(size_t m=0;m<MOTIFS.size();m++){ Crystal k=xcrystal(l,m);
      std::vector<double> cs=cutoffs(k,mc::thorough?7.0:5.2,mc::thorough?6:3);
      for(double rc:cs)for(int b=0;b<nbs;b++)for(int p=0;p<8;p++){
        if(!mc::begin("bins %s %s motif=%zu rcut=%.6f bin=%d pbc=%d%d%d",tn,latname(l),m,rc,b,p&1,p>>1&1,p>>2&1)) continue;
        bool pbc[3]={!!(p&1),!!(p>>1&1),!!(p>>2&1)}; T bs[3]; for(int d=0;d<3;d++) bs[d]=(T)(b?BS[b][d]*rc:0.5*rc);
        size_t before=__sanitizer_get_current_allocated_bytes();
        { auto st=build<T>(k); std::unique_ptr<BinLinkedList<T>> B(b?new BinLinkedList<T>(*st,(T)rc,bs,pbc):new BinLinkedList<T>(*st,(T)rc,pbc)); mc::step();
          bins_same<T>(*B,k,rc,pbc,bs,"built"); }
        if(__sanitizer_get_current_allocated_bytes()!=before) mc::viol(0,"memory is not released");
        mc::state_cur(); mc::validated(); } } }

// ---------- larger crystals ----------
template<class T> static void larges(const char*tn){
    static const int SL[][3]={{1,1,1},{2,1,1},{1,3,2},{3,3,3},{1,1,7},{11,1,1}};
    for(int w=0;w<nlarge();w++){ Crystal k=large(w);
      for(auto&q:SL){ if(!mc::begin("supercell %s %s scale=%d,%d,%d",tn,largename(w),q[0],q[1],q[2])) continue;
        int s[3]={q[0],q[1],q[2]}; auto st=build<T>(k); Supercell<T> S(*st,s); mc::step(); if(sc_same<T>(S,k,s,"built")){ Supercell<T> c(S),d; d=c; mc::step(2); sc_same<T>(c,k,s,"copy")&&sc_same<T>(d,k,s,"assigned"); }
        mc::state_cur(); mc::validated(); }
      const double BS[][3]={{0,0,0},{1,1,1},{0.4,0.9,1.7}};
      std::vector<double> cs=cutoffs(k,mc::thorough?6.0:4.4,mc::thorough?4:2,3e-4); if(w==0) cs.push_back(cutoffs(k,9.6,2,3e-4).back());
      for(double rc:cs)for(int b=0;b<3;b++)for(int p:{7,0,2,5}){
        if(!mc::begin("bins %s %s rcut=%.6f bin=%d pbc=%d%d%d",tn,largename(w),rc,b,p&1,p>>1&1,p>>2&1)) continue;
        bool pbc[3]={!!(p&1),!!(p>>1&1),!!(p>>2&1)}; T bs[3]; for(int d=0;d<3;d++) bs[d]=(T)(b?BS[b][d]*rc:0.5*rc);
        auto st=build<T>(k); std::unique_ptr<BinLinkedList<T>> B(b?new BinLinkedList<T>(*st,(T)rc,bs,pbc):new BinLinkedList<T>(*st,(T)rc,pbc)); mc::step();
        bins_same<T>(*B,k,rc,pbc,bs,"built"); mc::state_cur(); mc::validated(); } } }

// ---------- extreme cells, fine bins ----------
template<class T> static void extremes(const char*tn){
    const double BS[][3]={{0,0,0},{0.12,0.14,0.11},{0.9,0.13,0.4}};
    for(int w=0;w<nextreme();w++)for(int b=0;b<3;b++)for(int p:{7,0,1,4}){ double rc; Crystal k=extreme(w,rc);
        if(!mc::begin("bins %s %s rcut=%.6f bin=%d pbc=%d%d%d",tn,extremename(w),rc,b,p&1,p>>1&1,p>>2&1)) continue;
        bool pbc[3]={!!(p&1),!!(p>>1&1),!!(p>>2&1)}; T bs[3]; for(int d=0;d<3;d++) bs[d]=(T)(b?BS[b][d]*rc:0.5*rc);
        auto st=build<T>(k); std::unique_ptr<BinLinkedList<T>> B(b?new BinLinkedList<T>(*st,(T)rc,bs,pbc):new BinLinkedList<T>(*st,(T)rc,pbc)); mc::step();
        bins_same<T>(*B,k,rc,pbc,bs,"built"); mc::state_cur(); mc::validated(); }
    static const int SL[][3]={{13,1,2},{1,12,1},{2,1,15},{6,5,7}};
    for(int w=0;w<nextreme();w++)for(auto&q:SL){ double rc; Crystal k=extreme(w,rc);
        if(!mc::begin("supercell %s %s scale=%d,%d,%d",tn,extremename(w),q[0],q[1],q[2])) continue;
        int s[3]={q[0],q[1],q[2]}; auto st=build<T>(k); Supercell<T> S(*st,s); mc::step(); sc_same<T>(S,k,s,"built"); mc::state_cur(); mc::validated(); } }

// ---------- histories of Supercell / BinLinkedList objects ----------
struct Ent { int kind=-1; };   // -1 empty, else which crystal
template<class T> struct SCdrv { typedef Supercell<T> O; static const char*name(){return "Supercell";}
    static O*make(int c){ int s[2][3]={{2,1,3},{1,2,1}}; auto st=build<T>(crystal(c?2:3,c?1:2)); return new O(*st,s[c]); }
    static bool same(const O&o,int c,const char*w){ if(c<0){ if(o.get_num_atoms()!=0){mc::viol(0,"%s: not empty",w);return false;} return true; } int s[2][3]={{2,1,3},{1,2,1}}; return sc_same<T>(o,crystal(c?2:3,c?1:2),s[c],w); } };
template<class T> struct BLdrv { typedef BinLinkedList<T> O; static const char*name(){return "BinLinkedList";}
    static O*make(int c){ bool p[2][3]={{true,false,true},{true,true,true}}; T bs[3]={(T)0.9,(T)1.3,(T)2.1}; auto st=build<T>(crystal(c?2:3,c?1:2)); return c?new O(*st,(T)2.9,p[c]):new O(*st,(T)2.9,bs,p[c]); }
    static bool same(const O&o,int c,const char*w){ if(c<0) return o.get_supercell().get_num_atoms()==0; bool p[2][3]={{true,false,true},{true,true,true}}; T bs[2][3]={{(T)0.9,(T)1.3,(T)2.1},{(T)1.45,(T)1.45,(T)1.45}}; return bins_same<T>(o,crystal(c?2:3,c?1:2),2.9,p[c],bs[c],w); } };
struct Op{int k,a,b;};
template<class D> static void hist(std::vector<Op>&pre,int depth,int slots,const char*tn){
    if(!pre.empty()){
        std::string nm; char b[48]; const char*n[]={"new","copy","assign","drop"}; for(auto&o:pre){ snprintf(b,sizeof b," %s(%d,%d)",n[o.k],o.a,o.b); nm+=b; }
        if(mc::begin("history %s %s%s",D::name(),tn,nm.c_str())){
            size_t before=__sanitizer_get_current_allocated_bytes(); mc::H h; h.s(D::name());
            { std::vector<std::unique_ptr<typename D::O>> S(slots); std::vector<int> M(slots,-1); for(auto&s:S)s.reset(new typename D::O());
              for(auto&o:pre){ mc::step(); switch(o.k){ case 0:S[o.a].reset(D::make(o.b));M[o.a]=o.b;break; case 1:S[o.a].reset(new typename D::O(*S[o.b]));M[o.a]=M[o.b];break;
                  case 2:{ auto&r=(*S[o.a]=*S[o.b]); if(&r!=S[o.a].get()) mc::viol(0,"assignment does not return its target"); M[o.a]=M[o.b];break;} case 3:S[o.a].reset(new typename D::O());M[o.a]=-1;break; } }
              for(int i=0;i<slots;i++){ snprintf(b,sizeof b,"slot %d",i); h.i(M[i]); if(!D::same(*S[i],M[i],b)) break; } }
            if(__sanitizer_get_current_allocated_bytes()!=before) mc::viol(0,"memory is not released");
            mc::state(h); mc::validated(); } }
    if((int)pre.size()==depth) return;
    std::vector<Op> A; for(int i=0;i<slots;i++){ A.push_back({0,i,0});A.push_back({0,i,1});A.push_back({3,i,0}); for(int j=0;j<slots;j++){A.push_back({2,i,j}); if(i!=j)A.push_back({1,i,j});} }
    for(auto&o:A){ pre.push_back(o); hist<D>(pre,depth,slots,tn); pre.pop_back(); } }

int main(int c,char**v){ mc::init(c,v); std::vector<Op> pre;
    hist<SCdrv<double>>(pre,mc::thorough?4:3,2,"double"); hist<BLdrv<double>>(pre,mc::thorough?4:3,2,"double");
    hist<SCdrv<float>>(pre,2,3,"float"); hist<BLdrv<float>>(pre,2,3,"float");
    extremes<double>("double"); extremes<float>("float");
    larges<double>("double"); larges<float>("float");
    supercells<double>("double"); supercells<float>("float");
    bins<double>("double"); bins<float>("float");
    return mc::done(); }
