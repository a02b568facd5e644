// C24 (plain C++ part): EnvMatrix and Se4pw on every neighbour table within the bounds.
#include "nbl_common.hpp"
#include "nblist/include/neighborList.h"
#include "descriptor/deepmd/include/envMatrix.h"
#include "descriptor/deepmd/include/se4pw.h"
using namespace matersdk; using namespace matersdk::deepPotSE;
static double sw(double r,double rc,double rs){ if(r<rs) return 1; if(r>=rc) return 0; double u=(r-rs)/(rc-rs); return u*u*u*(-6*u*u+15*u-10)+1; }
static double dsw(double r,double rc,double rs){ if(r<rs||r>=rc) return 0; double u=(r-rs)/(rc-rs); return (-30*u*u*u*u+60*u*u*u-30*u*u)/(rc-rs); }
struct Row { double v[4]; double d[4][3]; };   // derivative with respect to the relative position
static Row row(const V3&x,double rc,double rs){ Row o; double r=len3(x),s=sw(r,rc,rs),q=dsw(r,rc,rs); if(r==0){ memset(&o,0,sizeof o); return o; }
    o.v[0]=s/r; for(int k=0;k<3;k++) o.v[k+1]=s*x[k]/r/r;
    for(int l=0;l<3;l++){ o.d[0][l]=(q/r-s/r/r)*x[l]/r; for(int k=0;k<3;k++) o.d[k+1][l]=(k==l?s/r/r:0)+x[k]*x[l]*(q/r/r/r-2*s/r/r/r/r); }
    return o; }
static double RC=2.5,RS=1.0;   // one() runs every table with each cutoff pair
static const double CUTS[][2]={{2.5,1.0},{3.25,0.0},{1.75,1.5}};
static const std::vector<V3> POS={{0.5,0.25,-0.75},{-1.25,0.5,1.0},{0,0,-1.0},{2.0,-1.5,0},{3.0,0.5,0.5},{1.5,1.25,-1.0},{0.0625,0,0},{0,-0.03125,0.015625}};   // r = 0.94, 1.68, 1.0 (= smooth), 2.5 (= cut), 3.08, 2.19
struct Nbr { int t,p; };
typedef std::vector<std::vector<Nbr>> Table;
template<class T> static double tol(){ return sizeof(T)==4?2e-4:1e-11; }
template<class T> static bool same(const char*who,const T*v,const T*d,double sign,const Table&tb,const std::vector<int>&w,const std::vector<V3>&P){
    int tot=0; std::vector<int> st; for(int x:w){ st.push_back(tot); tot+=x; }
    for(size_t i=0;i<tb.size();i++){ std::vector<const V3*> slot(tot,nullptr); std::vector<int> n(w.size(),0); for(auto&q:tb[i]) slot[st[q.t]+n[q.t]++]=&P[q.p];
        for(int j=0;j<tot;j++){ Row r; memset(&r,0,sizeof r); if(slot[j]) r=row(*slot[j],RC,RS);
            for(int k=0;k<4;k++){ double g=v[(i*tot+j)*4+k]; if(slot[j]?!mc::near(g,r.v[k],tol<T>()):g!=0){ mc::viol(0,"%s: centre %zu slot %d component %d is %.9g, expected %.9g",who,i,j,k,g,r.v[k]); return false; }
                for(int l=0;l<3;l++){ double h=d[((i*tot+j)*4+k)*3+l]; if(slot[j]?!mc::near(h,sign*r.d[k][l],4*tol<T>()):h!=0){ mc::viol(0,"%s: centre %zu slot %d derivative %d,%d is %.9g, expected %.9g",who,i,j,k,l,h,sign*r.d[k][l]); return false; } } } } }
    return true; }
template<class T> static bool env(const Table&tb,std::vector<int> w,const std::vector<V3>&P){
    int inum=tb.size(),nt=w.size(),tot=0; for(int x:w) tot+=x;
    // atoms of the table: three of every type, used in turn, so that several indices share a type
    std::vector<int> ty; for(int q=0;q<3;q++)for(int t=0;t<nt;t++) ty.push_back((t+q)%nt);
    std::vector<int> il,nn,fn((size_t)inum*tot,-1); std::vector<T> rc((size_t)inum*tot*3,(T)0);
    for(int i=0;i<inum;i++){ il.push_back(i); nn.push_back(tb[i].size()); int c=i; for(size_t j=0;j<tb[i].size();j++){ int a=-1; for(int k=0;k<3*nt;k++) if(ty[(k+c)%(3*nt)]==tb[i][j].t){ a=(k+c)%(3*nt); break; } c=a+1; fn[i*tot+j]=a; for(int l=0;l<3;l++) rc[(i*tot+j)*3+l]=(T)P[tb[i][j].p][l]; } }
    std::vector<T> v((size_t)inum*tot*4,(T)99),d((size_t)inum*tot*12,(T)99); auto il0=il,nn0=nn,fn0=fn,ty0=ty,w0=w; auto rc0=rc;
    EnvMatrix<T>::find_value_deriv(v.data(),d.data(),inum,il.data(),nn.data(),fn.data(),rc.data(),ty.data(),nt,w.data(),(T)RC,(T)RS); mc::step();
    if(il0!=il||nn0!=nn||fn0!=fn||ty0!=ty||w0!=w||rc0!=rc){ mc::viol(0,"environment matrix: the inputs were modified"); return false; }
    return same("environment matrix",v.data(),d.data(),1,tb,w,P); }
template<class T> static bool s4(const Table&tb,std::vector<int> w,const std::vector<V3>&P,int shift){
    int inum=tb.size(),nt=w.size(),tot=0; for(int x:w) tot+=x;
    // atoms: centres (not at the origin), then one atom per (centre, neighbour); `shift` rotates the index of the home atoms within the supercell
    std::vector<int> ty; std::vector<V3> X; for(int i=0;i<inum*shift;i++){ X.push_back({9.,9.,9.}); ty.push_back(0); }
    for(int i=0;i<inum;i++){ X.push_back({0.5*i,-0.25*i,0.125*i}); ty.push_back(i%nt); }
    std::vector<int> il,nn,fn((size_t)inum*tot,-1),pr((size_t)inum*tot,-7); std::vector<std::vector<int>> id(inum);
    for(int i=0;i<inum;i++){ il.push_back(inum*shift+i); nn.push_back(tb[i].size()); for(size_t j=0;j<tb[i].size();j++){ fn[i*tot+j]=X.size(); id[i].push_back(X.size()); X.push_back(X[inum*shift+i]+P[tb[i][j].p]); ty.push_back(tb[i][j].t); } }
    std::vector<T> x; for(auto&q:X)for(int l=0;l<3;l++) x.push_back((T)q[l]);
    std::vector<T> v((size_t)inum*tot*4,(T)99),d((size_t)inum*tot*12,(T)99),r((size_t)inum*tot*3,(T)99);
    Se4pw<T>::generate(v.data(),d.data(),r.data(),inum,il.data(),nn.data(),fn.data(),x.data(),ty.data(),nt,w.data(),(T)RC,(T)RS);
    Se4pw<T>::get_prim_indices_from_matersdk(pr.data(),inum,il.data(),nn.data(),fn.data(),ty.data(),nt,w.data()); mc::step(2);
    if(!same("se4pw",v.data(),d.data(),-1,tb,w,P)) return false;
    std::vector<int> st; int t=0; for(int q:w){ st.push_back(t); t+=q; }
    for(int i=0;i<inum;i++){ std::vector<int> n(nt,0),slot(tot,-1); for(size_t j=0;j<tb[i].size();j++) slot[st[tb[i][j].t]+n[tb[i][j].t]++]=j;
        for(int j=0;j<tot;j++){ int e=slot[j]<0?-1:id[i][slot[j]]%inum; if(pr[i*tot+j]!=e){ mc::viol(0,"se4pw: centre %d slot %d holds neighbour %d, expected %d",i,j,pr[i*tot+j],e); return false; }
            for(int l=0;l<3;l++){ double g=r[(i*tot+j)*3+l],q=slot[j]<0?0:P[tb[i][slot[j]].p][l]; if(!(std::fabs(g-q)<tol<T>())||(slot[j]<0&&g!=0)){ mc::viol(0,"se4pw: relative position of centre %d slot %d is %.9g along %d, expected %.9g",i,j,g,l,q); return false; } } } }
    return true; }
static std::string show(const Table&t){ std::string s; for(auto&r:t){ s+="["; for(auto&q:r) s+=std::to_string(q.t)+"@"+std::to_string(q.p)+" "; s+="]"; } return s; }
static void one(const Table&tb,int nt,int extra){
    std::vector<int> w(nt,0); for(auto&r:tb){ std::vector<int> n(nt,0); for(auto&q:r) n[q.t]++; for(int t=0;t<nt;t++) w[t]=std::max(w[t],n[t]); }
    if(extra==1) for(int t=0;t<nt;t++) w[t]+=1+t; if(extra==2) w[0]+=2;
    int tot=0; for(int x:w) tot+=x; if(!tot) return;
    size_t mx=0; for(auto&r:tb) mx=std::max(mx,r.size()); if((int)mx>tot) return;
    if(!mc::begin("table nt=%d widths=%d %s",nt,extra,show(tb).c_str())) return;
    for(auto&q:CUTS){ RC=q[0]; RS=q[1]; if(!(env<double>(tb,w,POS)&&env<float>(tb,w,POS)&&s4<double>(tb,w,POS,0)&&s4<float>(tb,w,POS,1))) break; }
    mc::state_cur(); mc::validated(); }
static void rows(int len,int nt,int np,std::vector<std::vector<Nbr>>&out){ std::vector<std::vector<Nbr>> cur={{}}; out=cur; for(int k=0;k<len;k++){ std::vector<std::vector<Nbr>> nx; for(auto&r:cur)for(int t=0;t<nt;t++)for(int p=0;p<np;p++){ auto q=r; q.push_back({t,p}); nx.push_back(q); } out.insert(out.end(),nx.begin(),nx.end()); cur=nx; } }
int main(int c,char**v){ mc::init(c,v); std::vector<std::vector<Nbr>> R;
    int np=POS.size();
    for(int nt=1;nt<=3;nt++){
        rows(nt==1?4:nt==2?(mc::thorough?4:3):(mc::thorough?3:2),nt,np,R); for(auto&a:R) for(int e=0;e<3;e++) one({a},nt,e);
        rows(mc::thorough?2:2,nt,nt==1?np:mc::thorough?4:3,R); for(auto&a:R)for(auto&b:R) one({a,b},nt,(int)((a.size()+b.size())%3));
        rows(1,nt,np,R); for(auto&a:R)for(auto&b:R)for(auto&d:R) one({a,b,d},nt,(int)(a.size()+2*b.size())%3);
    }
    { std::vector<Nbr> z; for(int n=0;n<40;n++){ z.push_back({(n*7%5)%2,n%np}); one({z,{z.rbegin(),z.rend()},{}},2,n%3); } }
    for(int n:{127,128,129,255,256,257,300,700})for(int nt=1;nt<=9;nt+=4){ std::vector<Nbr> z; for(int j=0;j<n;j++) z.push_back({(j*j+j/3)%nt,j%np}); one({z,{},{z.begin()+n/2,z.end()}},nt,n%3); }
    for(int n:{5,12,33,101,260}){ Table tb; for(int i=0;i<n;i++){ std::vector<Nbr> z; for(int j=0;j<(i*5+n)%9;j++) z.push_back({(i+j*j)%3,(i*3+j)%np}); tb.push_back(z); } for(int e=0;e<3;e++) one(tb,3,e); }
    return mc::done(); }
