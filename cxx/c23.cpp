// C23: switching function, PairTildeR and TildeR through every public route, against their definition.
#include "nbl_common.hpp"
#include "nblist/include/neighborList.h"
#include "descriptor/deepmd/include/se.h"
using namespace matersdk; using namespace matersdk::deepPotSE;
template<class T> static double PT(){ return sizeof(T)==4?3e-4:1e-9; }
static double sw(double r,double rc,double rs){ if(r<rs) return 1; if(r>=rc) return 0; double u=(r-rs)/(rc-rs); return u*u*u*(-6*u*u+15*u-10)+1; }
static double dsw(double r,double rc,double rs){ if(r<rs||r>=rc) return 0; double u=(r-rs)/(rc-rs); return (-30*u*u*u*u+60*u*u*u-30*u*u)/(rc-rs); }
struct Row { double v[4]; double d[4][3]; };
// value and gradient with respect to the position of the centre
static Row row(const V3&x,double rc,double rs){ Row o; double r=len3(x),s=sw(r,rc,rs),q=dsw(r,rc,rs); if(r==0){ memset(&o,0,sizeof o); return o; }
    o.v[0]=s/r; for(int k=0;k<3;k++) o.v[k+1]=s*x[k]/r/r;
    for(int l=0;l<3;l++){ o.d[0][l]=-(q/r-s/r/r)*x[l]/r; for(int k=0;k<3;k++) o.d[k+1][l]=-((k==l?s/r/r:0)+x[k]*x[l]*(q/r/r/r-2*s/r/r/r/r)); }
    return o; }
typedef std::vector<std::vector<Row>> Block;    // [centre][slot]
template<class T> struct Ref { std::unique_ptr<NeighborList<T>> N; int np,nt; std::vector<int> own; std::vector<V3> x; std::vector<int> z; std::vector<std::vector<int>> nb;
    Ref(const Crystal&k,double rc,const bool*p,bool sort){ bool pb[3]={p[0],p[1],p[2]}; auto st=build<T>(k); N.reset(new NeighborList<T>(*st,(T)rc,pb,sort)); np=k.n();
        const Supercell<T>&S=N->get_binLinkedList().get_supercell(); nt=S.get_num_atoms(); const T**C=S.get_structure().get_cart_coords(); const int*Z=S.get_structure().get_atomic_numbers();
        for(int i=0;i<nt;i++){ x.push_back({(double)C[i][0],(double)C[i][1],(double)C[i][2]}); z.push_back(Z[i]); }
        for(int i=0;i<np;i++){ own.push_back(S.get_owned_atom_idxs()[i]); nb.push_back(N->get_neighbor_lists()[i]); } }
    Block block(const std::vector<int>&order,int zc,int zn,double rc,double rs)const{ Block b; for(int i:order) if(z[own[i]]==zc){ b.emplace_back(); for(int a:nb[i]) if(z[a]==zn) b.back().push_back(row(x[a]-x[own[i]],rc,rs)); } return b; }
    int maxn(int zc,int zn)const{ int m=0; for(int i=0;i<np;i++) if(zc<0||z[own[i]]==zc){ int c=0; for(int a:nb[i]) if(z[a]==zn)c++; m=std::max(m,c);} return m; } };
// stacked blocks: centres of each species in turn; neighbour species in adjacent column ranges
template<class T,class R> static Block stack(const R&R_,const std::vector<int>&ord,const std::vector<int>&zc,const std::vector<int>&zn,const std::vector<int>&w,double rc,double rs){
    Block o; for(int c:zc){ size_t base=o.size(); for(size_t q=0;q<zn.size();q++){ Block b=R_.block(ord,c,zn[q],rc,rs); if(!q) o.resize(base+b.size()); for(size_t i=0;i<b.size();i++){ b[i].resize(w[q],Row{}); o[base+i].insert(o[base+i].end(),b[i].begin(),b[i].end()); } } } return o; }
template<class T> static bool vals(T***g,const Block&b,int w,const char*who){ for(size_t i=0;i<b.size();i++)for(int j=0;j<w;j++)for(int k=0;k<4;k++){ double e=j<(int)b[i].size()?b[i][j].v[k]:0; if(!mc::near(g[i][j][k],e,PT<T>())){ mc::viol(0,"%s: value of centre %zu slot %d component %d is %.9g, expected %.9g",who,i,j,k,(double)g[i][j][k],e); return false; } } return true; }
template<class T> static bool ders(T****g,const Block&b,int w,const char*who){ for(size_t i=0;i<b.size();i++)for(int j=0;j<w;j++)for(int k=0;k<4;k++)for(int l=0;l<3;l++){ double e=j<(int)b[i].size()?b[i][j].d[k][l]:0; if(!mc::near(g[i][j][k][l],e,PT<T>()*4)){ mc::viol(0,"%s: derivative of centre %zu slot %d component %d along %d is %.9g, expected %.9g",who,i,j,k,l,(double)g[i][j][k][l],e); return false; } } return true; }
template<class T> static void free3(T***g,int a,int b){ if(a&&b) arrayUtils::free3dArray(g,a,b); else { for(int i=0;i<a;i++) free(g[i]); free(g);} }
template<class T> static void free4(T****g,int a,int b){ if(a&&b) arrayUtils::free4dArray(g,a,b,4); else { for(int i=0;i<a;i++) free(g[i]); free(g);} }
template<class T> static bool chk_pair(const PairTildeR<T>&P,const Block&b,int w,int mx,const char*who){
    if(P.get_num_center_atoms()!=(int)b.size()||P.get_num_neigh_atoms()!=w||P.get_max_num_neigh_atoms()!=mx){ mc::viol(0,"%s: %d centres, %d slots, max %d; expected %zu %d %d",who,P.get_num_center_atoms(),P.get_num_neigh_atoms(),P.get_max_num_neigh_atoms(),b.size(),w,mx); return false; }
    T***g=P.generate(); bool ok=vals(g,b,w,who); free3(g,b.size(),w); if(!ok) return false;
    T****d=P.deriv(); ok=ders(d,b,w,who); free4(d,b.size(),w); mc::step(2); return ok; }
template<class T> static bool chk_til(const TildeR<T>&P,const Block&b,int w,const char*who){
    if(P.get_num_center_atoms()!=(int)b.size()||P.get_num_neigh_atoms()!=w){ mc::viol(0,"%s: %d centres, %d slots; expected %zu %d",who,P.get_num_center_atoms(),P.get_num_neigh_atoms(),b.size(),w); return false; }
    T***g=P.generate(); bool ok=vals(g,b,w,who); free3(g,b.size(),w); if(!ok) return false;
    T****d=P.deriv(); ok=ders(d,b,w,who); free4(d,b.size(),w); mc::step(2); return ok; }
template<class T> struct Flat { std::vector<std::vector<T>> xs; std::vector<T*> x; std::vector<int> ty,il,nn; std::vector<std::vector<int>> fn; std::vector<int*> f;
    Flat(const Ref<T>&R,const std::vector<int>&ord){ for(auto&v:R.x) xs.push_back({(T)v[0],(T)v[1],(T)v[2]}); for(auto&v:xs) x.push_back(v.data()); ty=R.z; for(int i:ord){ il.push_back(R.own[i]); nn.push_back(R.nb[i].size()); fn.push_back(R.nb[i]); } for(auto&v:fn) f.push_back(v.data()); } };

template<class T> static void pair_case(const Crystal&k,double rc,double rs,const bool*p,bool sort){
    size_t before=__sanitizer_get_current_allocated_bytes();
    { Ref<T> R(k,rc,p,sort); auto st=build<T>(k); bool pb[3]={p[0],p[1],p[2]}; std::vector<int> ord; for(int i=0;i<R.np;i++) ord.push_back(i);
      std::set<int> zs(k.z.begin(),k.z.end()); zs.insert(47);
      std::vector<std::vector<int>> orders={ord}; if(R.np>1){ orders.push_back(std::vector<int>(ord.rbegin(),ord.rend())); orders.push_back(std::vector<int>(ord.begin()+1,ord.end())); }
      for(int a:zs)for(int b:zs){ Block B=R.block(ord,a,b,rc,rs); int mx=R.maxn(a,b);
        NeighborList<T>&N=*R.N;
        for(int ex=0;ex<3;ex+=2){ int w=mx+ex; char nm[64]; snprintf(nm,sizeof nm,"pair %d-%d width %d",a,b,w); std::string s=nm;
          if(!chk_pair(PairTildeR<T>(N,a,b,w,(T)rs),B,w,mx,(s+" (list, width)").c_str())) return;
          if(!chk_pair(PairTildeR<T>(*st,(T)rc,pb,sort,a,b,w,(T)rs),B,w,mx,(s+" (structure, width)").c_str())) return;
          { const NeighborList<T>&CN=N; if(!chk_pair(PairTildeR<T>(CN,a,b,(int)B.size(),w,(T)rs),B,w,mx,(s+" (list, centres, width)").c_str())) return; }
          if(!ex){ if(!chk_pair(PairTildeR<T>(N,a,b,(T)rs),B,w,mx,(s+" (list)").c_str())) return;
                   if(!chk_pair(PairTildeR<T>(*st,(T)rc,pb,sort,a,b,(T)rs),B,w,mx,(s+" (structure)").c_str())) return; }
          for(auto&o:orders) for(double rcut:{rc,0.8*rc}){ if(rcut<=rs) continue; Flat<T> F(R,o); Block Bo=R.block(o,a,b,rcut,rs); std::string q=s+" (arrays)";
            T***g=PairTildeR<T>::generate(F.il.size(),F.il.data(),F.nn.data(),F.f.data(),F.x.data(),F.ty.data(),a,b,w,(T)rcut,(T)rs); bool ok=vals(g,Bo,w,q.c_str()); free3(g,Bo.size(),w); if(!ok) return;
            T****d=PairTildeR<T>::deriv(F.il.size(),F.il.data(),F.nn.data(),F.f.data(),F.x.data(),F.ty.data(),a,b,w,(T)rcut,(T)rs); ok=ders(d,Bo,w,q.c_str()); free4(d,Bo.size(),w); if(!ok) return; mc::step(2); } } } }
    if(__sanitizer_get_current_allocated_bytes()!=before) mc::viol(0,"memory is not released");
    mc::state_cur(); mc::validated(); }

static std::vector<std::vector<int>> lists(const Crystal&k){ std::set<int> s(k.z.begin(),k.z.end()); std::vector<int> z(s.begin(),s.end()); std::vector<std::vector<int>> o;
    for(int a:z) o.push_back({a}); if(z.size()>1){ o.push_back(z); o.push_back(std::vector<int>(z.rbegin(),z.rend())); } std::vector<int> e=z; e.insert(e.begin(),47); o.push_back(e); e=z; e.push_back(47); o.push_back(e); return o; }
template<class T> static void tilde_case(const Crystal&k,double rc,double rs,const bool*p,bool sort){
    size_t before=__sanitizer_get_current_allocated_bytes();
    { Ref<T> R(k,rc,p,sort); auto st=build<T>(k); bool pb[3]={p[0],p[1],p[2]}; std::vector<int> ord; for(int i=0;i<R.np;i++) ord.push_back(i);
      NeighborList<T>&N=*R.N; std::vector<int> rev(ord.rbegin(),ord.rend());
      for(auto zc:lists(k))for(auto zn:lists(k)){ std::string s="stacked"; for(int z:zc) s+=" "+std::to_string(z); s+=" /"; for(int z:zn) s+=" "+std::to_string(z);
        std::vector<int> w0,w1; int t0=0,t1=0; for(size_t i=0;i<zn.size();i++){ int m=R.maxn(-1,zn[i]); w0.push_back(m); w1.push_back(m+1+(int)i%2); t0+=w0[i]; t1+=w1[i]; }
        Block B0=stack<T>(R,ord,zc,zn,w0,rc,rs),B1=stack<T>(R,ord,zc,zn,w1,rc,rs);
        if(!chk_til(TildeR<T>(N,zc.size(),zc.data(),zn.size(),zn.data(),(T)rs),B0,t0,(s+" (list)").c_str())) return;
        if(!chk_til(TildeR<T>(*st,(T)rc,pb,sort,zc.size(),zc.data(),zn.size(),zn.data(),(T)rs),B0,t0,(s+" (structure)").c_str())) return;
        if(!chk_til(TildeR<T>(N,zc.size(),zc.data(),zn.size(),zn.data(),w1.data(),(T)rs),B1,t1,(s+" (list, widths)").c_str())) return;
        if(!chk_til(TildeR<T>(*st,(T)rc,pb,sort,zc.size(),zc.data(),zn.size(),zn.data(),w1.data(),(T)rs),B1,t1,(s+" (structure, widths)").c_str())) return;
        for(auto&o:{ord,rev}){ Flat<T> F(R,o); double rcut=&o==0?rc:rc*0.9; if(rcut<=rs) rcut=rc; Block Bo=stack<T>(R,o,zc,zn,w1,rcut,rs); std::string q=s+" (arrays)"; int n=Bo.size(); bool ok;
            T***g=TildeR<T>::generate(F.il.size(),F.il.data(),F.nn.data(),F.f.data(),F.x.data(),F.ty.data(),zc.size(),zc.data(),zn.size(),zn.data(),w1.data(),(T)rcut,(T)rs); ok=vals(g,Bo,t1,q.c_str());
            if(ok&&n){ for(int i=0;i<n;i++)for(int j=0;j<t1;j++)for(int c=0;c<4;c++) g[i][j][c]=(T)55;
                TildeR<T>::generate(g,F.il.size(),F.il.data(),F.nn.data(),F.f.data(),F.x.data(),F.ty.data(),zc.size(),zc.data(),zn.size(),zn.data(),w1.data(),(T)rcut,(T)rs); ok=vals(g,Bo,t1,(q+" in place").c_str()); }
            free3(g,n,t1); if(!ok) return;
            T****d=TildeR<T>::deriv(F.il.size(),F.il.data(),F.nn.data(),F.f.data(),F.x.data(),F.ty.data(),zc.size(),zc.data(),zn.size(),zn.data(),w1.data(),(T)rcut,(T)rs); ok=ders(d,Bo,t1,q.c_str());
            if(ok&&n){ for(int i=0;i<n;i++)for(int j=0;j<t1;j++)for(int c=0;c<4;c++)for(int l=0;l<3;l++) d[i][j][c][l]=(T)55;
                TildeR<T>::deriv(d,F.il.size(),F.il.data(),F.nn.data(),F.f.data(),F.x.data(),F.ty.data(),zc.size(),zc.data(),zn.size(),zn.data(),w1.data(),(T)rcut,(T)rs); ok=ders(d,Bo,t1,(q+" in place").c_str()); }
            free4(d,n,t1); if(!ok) return; mc::step(4); } } }
    if(__sanitizer_get_current_allocated_bytes()!=before) mc::viol(0,"memory is not released");
    mc::state_cur(); mc::validated(); }

template<class T> static void switches(const char*tn){
    for(double rc:{1.0,2.5,4.0,6.5})for(double fs:{0.0,0.1,0.5,0.9,1.0}){ double rs=fs*rc; if(!mc::begin("switch %s rcut=%g smooth=%g",tn,rc,rs)) continue;
        T c=(T)rc,s=(T)rs; SwitchFunc<T> S(c,s); double last=2; const int n=mc::thorough?20000:2000; double tol=sizeof(T)==4?2e-5:1e-12;
        std::vector<double> rr; for(int i=0;i<=n;i++) rr.push_back(1.3*rc*i/n); rr.push_back((T)rs); rr.push_back((T)rc); rr.push_back(std::nexttoward(c,(T)0)); rr.push_back(std::nexttoward(s,(T)0)); rr.push_back(std::nexttoward(c,(T)9)); std::sort(rr.begin(),rr.end());
        for(double r0:rr){ T r=(T)r0; double v=S.get_result(r),d=S.get_deriv2r(r),m=smooth_func<T>(r,c,s),e=sw(r,c,s); mc::step(3);
            if(!mc::near(v,e,tol)||!mc::near(d,dsw(r,c,s),tol*50/(fs<1?rc-rs:1))){ mc::viol(0,"switch at %.9g: %.9g, slope %.9g; expected %.9g, %.9g",r0,v,d,e,dsw(r,c,s)); break; }
            if(v>last+tol||v<-tol||v>1+tol||(r>=c&&(v!=0||d!=0))||(r<s&&(v!=1||d!=0))){ mc::viol(0,"switch at %.9g is %.9g after %.9g",r0,v,last); break; } last=v;
            double w=r==0?0:e/r; if(!(std::fabs(m-w)<=tol*(1+std::fabs(w)))||(r>=c&&m!=0)){ mc::viol(0,"smooth function at %.9g is %.9g, expected %.9g",r0,m,w); break; }
            if(!mc::near(recip<T>(r),r==0?0:1.0/r,tol)){ mc::viol(0,"reciprocal of %.9g is %.9g",r0,(double)recip<T>(r)); break; } }
        mc::state_cur(); mc::validated(); } }

template<class T> static void all(const char*tn){
    for(int l=0;l<nlat();l++)for(size_t m=0;m<MOTIFS.size();m++){ Crystal k=xcrystal(l,m);
      std::vector<double> cs=cutoffs(k,mc::thorough?5.6:4.6,mc::thorough?5:3);
      for(double rc:cs)for(int p:{7,3,0})for(int sort=0;sort<2;sort++)for(double fs:{0.0,0.55,0.9}){ if(p!=7&&(sort||fs==0.9)) continue; if(!mc::thorough&&sizeof(T)==4&&(l+m+sort)%2) continue; bool pbc[3]={!!(p&1),!!(p>>1&1),!!(p>>2&1)};
        if(mc::begin("pair %s %s motif=%zu rcut=%.6f smooth=%.2f pbc=%d%d%d sort=%d",tn,latname(l),m,rc,fs,p&1,p>>1&1,p>>2&1,sort)) pair_case<T>(k,rc,fs*rc,pbc,sort);
        if(p==7&&fs>0.5&&fs<0.6&&(mc::thorough||rc!=cs.back())&&(mc::thorough||(sizeof(T)==8?(l+m+sort)%2==0:(l+m+sort)%6==0))) if(mc::begin("stack %s %s motif=%zu rcut=%.6f smooth=%.2f pbc=%d%d%d sort=%d",tn,latname(l),m,rc,fs,p&1,p>>1&1,p>>2&1,sort)) tilde_case<T>(k,rc,fs*rc,pbc,sort); } } }

template<class T> static void larges(const char*tn){ bool p[3]={true,true,true},q[3]={true,false,true};
    for(int w=0;w<nlarge();w++){ Crystal k=large(w); for(double rc:cutoffs(k,4.4,2,3e-4)){
        if(mc::begin("pair %s %s rcut=%.6f",tn,largename(w),rc)) pair_case<T>(k,rc,0.5*rc,w==1?q:p,w!=2);
        if(sizeof(T)==8&&mc::begin("stack %s %s rcut=%.6f",tn,largename(w),rc)) tilde_case<T>(k,rc,0.5*rc,w==1?q:p,w!=2); } } }

// extreme cells: hundreds of neighbours of one species, a needle and a sheet, the heaviest elements, a close pair, nine species
static Crystal odd(int w,double&rc){ if(w<nextreme()) { Crystal k=extreme(w,rc); if(w==1) rc=4.63; return k; } Crystal k; k.L=M3{{{5.1,0.4,-0.3},{0.7,4.9,0.5},{-0.6,0.8,5.7}}}; rc=3.97;
    if(w==nextreme()){ k.z={92,1,1}; k.f={{0.125,0.25,0.0625},{0.125,0.25,0.078125},{0.140625,0.265625,0.0625}}; }
    else { k.z={118,1,83,26,7,94,51,8,14,1,94}; for(int i=0;i<11;i++) k.f.push_back({((i*5)%11+0.25)/11,((i*3)%11+0.5)/11,(i+0.125)/11}); }
    return k; }
template<class T> static void odds(const char*tn){ bool p[3]={true,true,true};
    for(int w=0;w<nextreme()+2;w++)for(int sort=0;sort<2;sort++)for(double fs:{0.1,0.7}){ double rc; Crystal k=odd(w,rc); if(sizeof(T)==4&&sort) continue;
        if(mc::begin("pair %s odd=%d rcut=%.6f smooth=%.2f sort=%d",tn,w,rc,fs,sort)) pair_case<T>(k,rc,fs*rc,p,sort);
        if(fs<0.5&&mc::begin("stack %s odd=%d rcut=%.6f smooth=%.2f sort=%d",tn,w,rc,fs,sort)) tilde_case<T>(k,rc,fs*rc,p,sort); } }

// histories of copies and assignments
template<class T> struct DP { typedef PairTildeR<T> O; static const char*name(){return "pair";}
    static O*make(int c){ Crystal k=crystal(c?3:1,c?2:1); bool p[3]={true,true,true}; auto st=build<T>(k); return c?new O(*st,(T)2.9,p,true,42,16,40,(T)1.5):new O(*st,(T)2.6,p,false,8,14,(T)0.7); }
    static bool same(O&o,int c,const char*w){ if(c<0) return o.get_num_center_atoms()==0&&o.get_num_neigh_atoms()==0||(mc::viol(0,"%s: not empty",w),false); Crystal k=crystal(c?3:1,c?2:1); bool p[3]={true,true,true}; Ref<T> R(k,c?2.9:2.6,p,c); std::vector<int> ord; for(int i=0;i<R.np;i++) ord.push_back(i);
        return c?chk_pair(o,R.block(ord,42,16,2.9,1.5),40,R.maxn(42,16),w):chk_pair(o,R.block(ord,8,14,2.6,0.7),R.maxn(8,14),R.maxn(8,14),w); } };
template<class T> struct DT { typedef TildeR<T> O; static const char*name(){return "stack";}
    static O*make(int c){ Crystal k=crystal(c?3:1,c?2:3); bool p[3]={true,true,true}; auto st=build<T>(k); int za[]={16,42,47},zb[]={42,16,47,1},zc[]={8,1},zd[]={1},w[]={40,50,1,2}; return c?new O(*st,(T)2.9,p,true,3,za,4,zb,w,(T)1.5):new O(*st,(T)2.6,p,false,2,zc,1,zd,(T)0.7); }
    static bool same(O&o,int c,const char*w){ if(c<0) return o.get_num_center_atoms()==0&&o.get_num_neigh_atoms()==0||(mc::viol(0,"%s: not empty",w),false); Crystal k=crystal(c?3:1,c?2:3); bool p[3]={true,true,true}; Ref<T> R(k,c?2.9:2.6,p,c); std::vector<int> ord; for(int i=0;i<R.np;i++) ord.push_back(i);
        if(c) return chk_til(o,stack<T>(R,ord,{16,42,47},{42,16,47,1},{40,50,1,2},2.9,1.5),93,w); int m=R.maxn(-1,1); return chk_til(o,stack<T>(R,ord,{8,1},{1},{m},2.6,0.7),m,w); } };
struct Op{int k,a,b;};
template<class D> static void hist(std::vector<Op>&pre,int depth,int slots,const char*tn){ typedef typename D::O O;
    if(!pre.empty()){
        std::string nm; char b[48]; const char*n[]={"new","copy","assign","drop"}; for(auto&o:pre){ snprintf(b,sizeof b," %s(%d,%d)",n[o.k],o.a,o.b); nm+=b; }
        if(mc::begin("history %s %s slots=%d%s",D::name(),tn,slots,nm.c_str())){
            size_t before=__sanitizer_get_current_allocated_bytes(); mc::H h; bool empty_copy=false;
            { std::vector<std::unique_ptr<O>> S(slots); std::vector<int> M(slots,-1); for(auto&s:S)s.reset(new O());
              for(auto&o:pre){ mc::step(); switch(o.k){ case 0:S[o.a].reset(D::make(o.b));M[o.a]=o.b;break; case 1:if(M[o.b]<0)empty_copy=true; S[o.a].reset(new O(*S[o.b]));M[o.a]=M[o.b];break;
                  case 2:{ auto&r=(*S[o.a]=*S[o.b]); if(&r!=S[o.a].get()) mc::viol(0,"assignment does not return its target"); M[o.a]=M[o.b];break;} case 3:S[o.a].reset(new O());M[o.a]=-1;break; } }
              for(int i=0;i<slots;i++){ snprintf(b,sizeof b,"slot %d",i); h.i(M[i]); if(!D::same(*S[i],M[i],b)) break; } }
            if(!empty_copy&&__sanitizer_get_current_allocated_bytes()!=before) mc::viol(0,"memory is not released");
            mc::state(h); mc::validated(); } }
    if((int)pre.size()==depth) return;
    std::vector<Op> A; for(int i=0;i<slots;i++){ A.push_back({0,i,0});A.push_back({0,i,1});A.push_back({3,i,0}); for(int j=0;j<slots;j++){A.push_back({2,i,j}); if(i!=j)A.push_back({1,i,j});} }
    for(auto&o:A){ pre.push_back(o); hist<D>(pre,depth,slots,tn); pre.pop_back(); } }
int main(int c,char**v){ mc::init(c,v); std::vector<Op> pre; int d=mc::thorough?4:3;
    switches<double>("double"); switches<float>("float");
    hist<DP<double>>(pre,d,2,"double"); hist<DT<double>>(pre,d,2,"double"); hist<DT<float>>(pre,2,2,"float");
    larges<double>("double"); larges<float>("float"); odds<double>("double"); odds<float>("float");
    all<double>("double"); all<float>("float");
    return mc::done(); }
