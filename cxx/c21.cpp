// C21: NeighborList<T> against brute force, all routes, plus find_info4mlff and copy/assign histories.
#include "nbl_common.hpp"
#include "nblist/include/neighborList.h"
using namespace matersdk;
template<class T> static double PT(){ return sizeof(T)==4?1e-4:1e-8; }

template<class T> static bool nl_same(NeighborList<T>&N,const Crystal&k,double rcut,const bool*pbc,bool sorted,const char*who){
    int np=k.n(); double tol=PT<T>()*10; std::string why;
    if(N.get_num_center_atoms()!=np){ mc::viol(0,"%s: %d centres, expected %d",who,N.get_num_center_atoms(),np); return false; }
    if(!mc::near(N.get_rcut(),rcut,1e-6)){ mc::viol(0,"%s: cutoff %g, expected %g",who,(double)N.get_rcut(),rcut); return false; }
    const Supercell<T>&S=N.get_binLinkedList().get_supercell(); const T**C=S.get_structure().get_cart_coords(); const int*Z=S.get_structure().get_atomic_numbers();
    std::vector<std::vector<Nb>> want(np); int mx=0;
    for(int i=0;i<np;i++){ want[i]=brute(k,i,rcut,pbc); mx=std::max(mx,(int)want[i].size());
        const std::vector<int>&l=N.get_neighbor_lists()[i]; int o=S.get_owned_atom_idxs()[i]; std::vector<Nb> got; double last=-1;
        for(int a:l){ if(a<0||a>=S.get_num_atoms()){ mc::viol(0,"%s: atom %d has neighbour index %d",who,i,a); return false; }
            V3 d={(double)(C[a][0]-C[o][0]),(double)(C[a][1]-C[o][1]),(double)(C[a][2]-C[o][2])}; double r=len3(d);
            if(sorted&&r<last-tol){ mc::viol(0,"%s: neighbours of atom %d are not in increasing distance (%g after %g)",who,i,r,last); return false; } last=r;
            if(Z[a]!=k.z[a%np]){ mc::viol(0,"%s: neighbour %d has atomic number %d, its owner %d has %d",who,a,Z[a],a%np,k.z[a%np]); return false; }
            got.push_back({a%np,d,r}); }
        if(!same_set(got,want[i],tol,why)){ mc::viol(0,"%s: atom %d %s",who,i,why.c_str()); return false; } }
    if(N.get_max_num_neigh_atoms()!=mx){ mc::viol(0,"%s: maximum neighbour count %d, expected %d",who,N.get_max_num_neigh_atoms(),mx); return false; }
    std::vector<int> zs={1,6,8,14,29,42,16,3,84,92,118};
    for(int a:zs)for(int b:zs){ int m=0; for(int i=0;i<np;i++) if(k.z[i]==a){ int c=0; for(auto&n:want[i]) if(k.z[n.j]==b)c++; m=std::max(m,c);} 
        if(N.get_max_num_neigh_atoms_ssss(a,b)!=m){ mc::viol(0,"%s: maximum count of %d around %d is %d, expected %d",who,b,a,N.get_max_num_neigh_atoms_ssss(a,b),m); return false; } }
    for(int extra=0;extra<3;extra++){ int u=mx+extra; if(!u) continue;
        int inum=-5,ng=-5; std::vector<int> il(np,-9),nn(np,-9),ty(np,-9),fn((size_t)np*u,-9); std::vector<T> rc((size_t)np*u*3,(T)77);
        N.find_info4mlff(inum,il.data(),nn.data(),fn.data(),rc.data(),ty.data(),ng,u);
        if(inum!=np||ng!=0){ mc::viol(0,"%s: info inum=%d nghost=%d",who,inum,ng); return false; }
        for(int i=0;i<np;i++){ if(il[i]!=i||ty[i]!=k.z[i]||nn[i]!=(int)want[i].size()){ mc::viol(0,"%s: info row %d: centre %d type %d count %d, expected %d %d %zu",who,i,il[i],ty[i],nn[i],i,k.z[i],want[i].size()); return false; }
            std::vector<Nb> got; double last=-1; for(int a=0;a<u;a++){ int j=fn[(size_t)i*u+a]; T*q=&rc[((size_t)i*u+a)*3];
                if(a<nn[i]){ V3 d={(double)q[0],(double)q[1],(double)q[2]}; got.push_back({j,d,0}); double r=len3(d); if(sorted&&r<last-tol){ mc::viol(0,"%s: info rows not in increasing distance",who); return false; } last=r; }
                else if(j!=-1||q[0]!=0||q[1]!=0||q[2]!=0){ mc::viol(0,"%s: padding of row %d holds (%d; %g %g %g)",who,i,j,(double)q[0],(double)q[1],(double)q[2]); return false; } }
            if(!same_set(got,want[i],tol,why)){ mc::viol(0,"%s: info row %d %s",who,i,why.c_str()); return false; } } }
    return true; }

template<class T> static void one(const Crystal&k,double rc,int b,int p,int sort,const double (*BS)[3]){
    bool pbc[3]={!!(p&1),!!(p>>1&1),!!(p>>2&1)}; T bs[3]; for(int d=0;d<3;d++) bs[d]=(T)(BS[b][d]*rc);
    size_t before=__sanitizer_get_current_allocated_bytes();
    { auto st=build<T>(k); std::unique_ptr<NeighborList<T>> N(b?new NeighborList<T>(*st,(T)rc,bs,pbc,sort):new NeighborList<T>(*st,(T)rc,pbc,sort)); mc::step();
      st.reset();                                     // the list must not depend on the caller's structure
      if(nl_same<T>(*N,k,rc,pbc,sort,"built")&&p==7&&b<2){ NeighborList<T> c(*N),d; d=*N; N.reset(); nl_same<T>(c,k,rc,pbc,sort,"copy")&&nl_same<T>(d,k,rc,pbc,sort,"assigned"); mc::step(2);} }
    if(__sanitizer_get_current_allocated_bytes()!=before) mc::viol(0,"memory is not released");
    mc::state_cur(); mc::validated(); }

template<class T> static void all(const char*tn){
    static const double BS[][3]={{0,0,0},{1,1,1},{0.3,0.3,0.3},{2.2,0.6,1.1},{0.6,5,0.4}};
    for(int l=0;l<nlat();l++)for(size_t m=0;m<MOTIFS.size();m++){ Crystal k=xcrystal(l,m);
      std::vector<double> cs=cutoffs(k,mc::thorough?7.5:5.6,mc::thorough?8:4);
      for(double rc:cs)for(int b=0;b<5;b++)for(int p=0;p<8;p++)for(int sort=0;sort<2;sort++){ if(sort&&b>2) continue;
        if(!mc::begin("list %s %s motif=%zu rcut=%.6f bin=%d pbc=%d%d%d sort=%d",tn,latname(l),m,rc,b,p&1,p>>1&1,p>>2&1,sort)) continue;
        one<T>(k,rc,b,p,sort,BS); } }
    // cutoffs exactly on a shell: "closer than" is strict. All numbers below are exact in binary, so is the distance.
    for(int l=0;l<2;l++)for(double rc:{2.5,3.0,3.5,4.5,5.0,6.0})for(int p=0;p<8;p++)for(int b=0;b<4;b++){
        if(!mc::begin("shell %s %s rcut=%.3f pbc=%d%d%d bin=%d",tn,latname(l),rc,p&1,p>>1&1,p>>2&1,b)) continue;
        one<T>(xcrystal(l,0),rc,b,p,0,BS); }
    // one atom moved over a grid of positions in a small cell, incl. the faces
    const double G[]={0,0.125,0.5,0.96875}; int ng=4;
    for(int l=0;l<nlat();l++)for(int g=0;g<ng*ng*ng;g++)for(int p=0;p<8;p+=7){
        if(!mc::begin("grid %s %s pos=%d pbc=%d",tn,latname(l),g,p)) continue;
        Crystal k=xcrystal(l,0); k.z.push_back(8); k.f.push_back({G[g%ng]+1.0/64,G[g/ng%ng],G[g/ng/ng]});
        bool ok=false; double rc=3.37; bool all3[3]={true,true,true};
        for(;!ok;rc+=0.003){ ok=true; for(int i=0;i<2;i++)for(auto&n:brute(k,i,rc+0.1,all3)) if(std::fabs(n.r-rc)<1e-3) ok=false; if(ok)break; }
        one<T>(k,rc,0,p,1,BS); one<T>(k,rc,1,p,0,BS); }
}

// larger crystals
template<class T> static void larges(const char*tn){
    static const double BS[][3]={{0,0,0},{1,1,1},{2.2,0.6,1.1}};
    for(int w=0;w<nlarge();w++){ Crystal k=large(w); std::vector<double> cs=cutoffs(k,mc::thorough?6.0:4.4,mc::thorough?4:2,3e-4); if(w==0) cs.push_back(cutoffs(k,7.6,2,3e-4).back());
      for(double rc:cs)for(int b=0;b<3;b++)for(int p:{7,0,3})for(int sort=0;sort<2;sort++){ if(sort&&b) continue;
        if(!mc::begin("list %s %s rcut=%.6f bin=%d pbc=%d%d%d sort=%d",tn,largename(w),rc,b,p&1,p>>1&1,p>>2&1,sort)) continue;
        one<T>(k,rc,b,p,sort,BS); } } }

// extreme cells, fine bins; cutoffs a hair below and above a shell (the arithmetic is good to 1e-14)
template<class T> static void extremes(const char*tn){
    static const double BS[][3]={{0,0,0},{0.12,0.14,0.11},{0.9,0.13,0.4}};
    for(int w=0;w<nextreme();w++)for(int b=0;b<3;b++)for(int p:{7,0,1,4})for(int sort=0;sort<2;sort++){ double rc; Crystal k=extreme(w,rc); if(sort&&b) continue;
        if(!mc::begin("list %s %s rcut=%.6f bin=%d pbc=%d%d%d sort=%d",tn,extremename(w),rc,b,p&1,p>>1&1,p>>2&1,sort)) continue;
        one<T>(k,rc,b,p,sort,BS); }
    if(sizeof(T)==8) for(int l=0;l<nlat();l++)for(size_t m=0;m<MOTIFS.size();m++){ Crystal k=xcrystal(l,m); bool pbc[3]={true,true,true};
        std::vector<double> sh; for(int i=0;i<k.n();i++) for(auto&n:brute(k,i,4.6,pbc)) if(n.r>0.5) sh.push_back(n.r);
        std::sort(sh.begin(),sh.end()); std::vector<double> u; for(double r:sh) if(u.empty()||r-u.back()>1e-12) u.push_back(r);
        for(size_t q=0;q<u.size();q+=mc::thorough?1:1+u.size()/5){ bool ok=true; for(double r:u) if(r!=u[q]&&std::fabs(r-u[q])<1e-5) ok=false; if(!ok) continue;
            for(int sgn=-1;sgn<2;sgn+=2)for(int b=0;b<3;b+=2){ double rc=u[q]*(1+sgn*1e-9);
                if(!mc::begin("near shell %s motif=%zu r=%.9f side=%d bin=%d",latname(l),m,u[q],sgn,b)) continue;
                one<T>(k,rc,b,7,0,BS); } } } }

// histories
template<class T> struct D { typedef NeighborList<T> O;
    static const bool* P(int c){ static bool p[2][3]={{true,false,true},{true,true,true}}; return p[c]; }
    static Crystal K(int c){ return crystal(c?2:3,c?1:2); }
    static O*make(int c){ T bs[3]={(T)0.9,(T)1.3,(T)2.1}; bool p[3]={P(c)[0],P(c)[1],P(c)[2]}; auto st=build<T>(K(c)); return c?new O(*st,(T)2.9,p,true):new O(*st,(T)2.9,bs,p,false); }
    static bool same(O&o,int c,const char*w){ if(c<0){ if(o.get_num_center_atoms()!=0){ mc::viol(0,"%s: not empty",w); return false;} return true; } return nl_same<T>(o,K(c),2.9,P(c),c==1,w); } };
struct Op{int k,a,b;};
template<class T> static void hist(std::vector<Op>&pre,int depth,int slots,const char*tn){
    if(!pre.empty()){
        std::string nm; char b[48]; const char*n[]={"new","copy","assign","drop"}; for(auto&o:pre){ snprintf(b,sizeof b," %s(%d,%d)",n[o.k],o.a,o.b); nm+=b; }
        if(mc::begin("history %s slots=%d%s",tn,slots,nm.c_str())){
            size_t before=__sanitizer_get_current_allocated_bytes(); mc::H h;
            { std::vector<std::unique_ptr<NeighborList<T>>> S(slots); std::vector<int> M(slots,-1); for(auto&s:S)s.reset(new NeighborList<T>());
              for(auto&o:pre){ mc::step(); switch(o.k){ case 0:S[o.a].reset(D<T>::make(o.b));M[o.a]=o.b;break; case 1:S[o.a].reset(new NeighborList<T>(*S[o.b]));M[o.a]=M[o.b];break;
                  case 2:{ auto&r=(*S[o.a]=*S[o.b]); if(&r!=S[o.a].get()) mc::viol(0,"assignment does not return its target"); M[o.a]=M[o.b];break;} case 3:S[o.a].reset(new NeighborList<T>());M[o.a]=-1;break; } }
              for(int i=0;i<slots;i++){ snprintf(b,sizeof b,"slot %d",i); h.i(M[i]); if(!D<T>::same(*S[i],M[i],b)) break; } }
            if(__sanitizer_get_current_allocated_bytes()!=before) mc::viol(0,"memory is not released");
            mc::state(h); mc::validated(); } }
    if((int)pre.size()==depth) return;
    std::vector<Op> A; for(int i=0;i<slots;i++){ A.push_back({0,i,0});A.push_back({0,i,1});A.push_back({3,i,0}); for(int j=0;j<slots;j++){A.push_back({2,i,j}); if(i!=j)A.push_back({1,i,j});} }
    for(auto&o:A){ pre.push_back(o); hist<T>(pre,depth,slots,tn); pre.pop_back(); } }

int main(int c,char**v){ mc::init(c,v); std::vector<Op> pre;
    hist<double>(pre,mc::thorough?4:3,2,"double"); hist<float>(pre,2,3,"float");
    extremes<double>("double"); extremes<float>("float");
    larges<double>("double"); larges<float>("float");
    all<double>("double"); all<float>("float");
    return mc::done(); }
