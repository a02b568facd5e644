// C29: core array and vector utilities.
#include "mc.hpp"
#include <memory>
#include <sstream>
#include <algorithm>
#include "core/include/AlignedArray.h"
#include "core/include/arrayUtils.h"
#include "core/include/vec3Operation.h"
#include "core/include/vecx.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace matersdk;
static size_t bytes(){ return __sanitizer_get_current_allocated_bytes(); }
std::string other_unit(double);   // a second translation unit that includes the same headers
static const int BIG[][5]={{17,33,9,5,7},{65,3,2,4,3},{2,70,3,5,2},{3,2,130,2,9},{1,5,4,3,260},{9,11,8,10,12}};
// every cell gets its own value, written in order and read back afterwards: extents and disjointness
template<class T> static void arr(const char*tn,int N3,int N4,int N5){
    struct E{int n[5];}; std::vector<E> L3,L4,L5; for(int a=0;a<=N3;a++)for(int b=0;b<=N3;b++)for(int c=0;c<=N3;c++) L3.push_back({{a,b,c,0,0}}); for(int a=0;a<=N4;a++)for(int b=0;b<=N4;b++)for(int c=0;c<=N4;c++)for(int d=0;d<=N4;d++) L4.push_back({{a,b,c,d,0}}); for(int a=0;a<=N5;a++)for(int b=0;b<=N5;b++)for(int c=0;c<=N5;c++)for(int d=0;d<=N5;d++)for(int e=0;e<=N5;e++) L5.push_back({{a,b,c,d,e}}); for(auto&g:BIG) for(auto*v:{&L3,&L4,&L5}) v->push_back({{g[0],g[1],g[2],g[3],g[4]}});
    for(auto&q:L3)for(int z=0;z<2;z++){ int a=q.n[0],b=q.n[1],c=q.n[2]; if(!mc::begin("3d %s %dx%dx%d init=%d",tn,a,b,c,z)) continue; size_t b0=bytes(); T***p=arrayUtils::allocate3dArray<T>(a,b,c,z); bool ok=true; long k=0;
        if(z) for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++) ok=ok&&p[i][j][l]==(T)0; if(!ok) mc::viol(0,"not initialised to zero");
        for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++) p[i][j][l]=(T)(++k); k=0; for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++) ok=ok&&p[i][j][l]==(T)(++k); if(!ok) mc::viol(0,"cells overlap");
        arrayUtils::free3dArray<T>(p,a,b); if(bytes()!=b0) mc::viol(0,"memory is not released"); mc::step(k); mc::state_cur(); mc::validated(); }
    for(auto&q:L4)for(int z=0;z<2;z++){ int a=q.n[0],b=q.n[1],c=q.n[2],d=q.n[3]; if(!mc::begin("4d %s %dx%dx%dx%d init=%d",tn,a,b,c,d,z)) continue; size_t b0=bytes(); T****p=arrayUtils::allocate4dArray<T>(a,b,c,d,z); bool ok=true; long k=0;
        if(z) for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++)for(int m=0;m<d;m++) ok=ok&&p[i][j][l][m]==(T)0; if(!ok) mc::viol(0,"not initialised to zero");
        for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++)for(int m=0;m<d;m++) p[i][j][l][m]=(T)(++k); k=0; for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++)for(int m=0;m<d;m++) ok=ok&&p[i][j][l][m]==(T)(++k); if(!ok) mc::viol(0,"cells overlap");
        arrayUtils::free4dArray<T>(p,a,b,c); if(bytes()!=b0) mc::viol(0,"memory is not released"); mc::step(k); mc::state_cur(); mc::validated(); }
    for(auto&q:L5)for(int z=0;z<2;z++){ int a=q.n[0],b=q.n[1],c=q.n[2],d=q.n[3],e=q.n[4]; if(!mc::begin("5d %s %dx%dx%dx%dx%d init=%d",tn,a,b,c,d,e,z)) continue; size_t b0=bytes(); T*****p=arrayUtils::allocate5dArray<T>(a,b,c,d,e,z); bool ok=true; long k=0;
        if(z) for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++)for(int m=0;m<d;m++)for(int n=0;n<e;n++) ok=ok&&p[i][j][l][m][n]==(T)0; if(!ok) mc::viol(0,"not initialised to zero");
        for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++)for(int m=0;m<d;m++)for(int n=0;n<e;n++) p[i][j][l][m][n]=(T)(++k); k=0; for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++)for(int m=0;m<d;m++)for(int n=0;n<e;n++) ok=ok&&p[i][j][l][m][n]==(T)(++k); if(!ok) mc::viol(0,"cells overlap");
        arrayUtils::free5dArray<T>(p,a,b,c,d); if(bytes()!=b0) mc::viol(0,"memory is not released"); mc::step(k); mc::state_cur(); mc::validated(); } }
// two arrays alive at once, released in either order, never share a cell
static void pairs(){ for(int s=0;s<4*4*4;s++)for(int ord=0;ord<2;ord++){ int a=s&3,b=(s>>2)&3,c=s>>4; if(!mc::begin("two 3d arrays %dx%dx%d, release order %d",a,b,c,ord)) continue; size_t b0=bytes(); double***p=arrayUtils::allocate3dArray<double>(a,b,c,true),***q=arrayUtils::allocate3dArray<double>(a,b,c,true); bool ok=true;
        for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++) p[i][j][l]=1; for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++){ ok=ok&&q[i][j][l]==0; q[i][j][l]=2; } arrayUtils::free3dArray(ord?q:p,a,b); double***r=ord?p:q; for(int i=0;i<a;i++)for(int j=0;j<b;j++)for(int l=0;l<c;l++) ok=ok&&r[i][j][l]==(ord?1:2); arrayUtils::free3dArray(r,a,b);
        if(!ok) mc::viol(0,"two arrays share cells"); if(bytes()!=b0) mc::viol(0,"memory is not released"); mc::step(2); mc::state_cur(); mc::validated(); } }

// aligned arrays: contents model = vector of known/unknown values
struct Op{int k,a,b;};
static const int SZ[]={0,1,3,4,7,100};
template<class T> static void ahist(const char*tn,std::vector<Op>&pre,int depth,int slots){
    if(!pre.empty()){ std::string nm; char b[64]; const char*N[]={"new","resize","fill","copy","assign","grow-collection","drop"}; for(auto&o:pre){ snprintf(b,sizeof b," %s(%d,%d)",N[o.k],o.a,o.b); nm+=b; }
        if(mc::begin("aligned %s slots=%d%s",tn,slots,nm.c_str())){ size_t b0=bytes(); mc::H h;
            { typedef AlignedArray<T> A; std::vector<A> S(slots); std::vector<int> n(slots,0); std::vector<int> tag(slots,0); int next=1;   // tag 0: contents unspecified
              auto val=[](int t,int i){ return (T)(t*100+i); };
              for(auto&o:pre){ mc::step(); switch(o.k){
                case 0: { A t(SZ[o.b]); if(t.size()!=SZ[o.b]) mc::viol(0,"size after construction"); for(int i=0;i<SZ[o.b];i++) t[i]=val(next,i); S[o.a]=t; n[o.a]=SZ[o.b]; tag[o.a]=next++; break; }
                case 1: if(n[o.a]!=SZ[o.b]) tag[o.a]=0; S[o.a].resize(SZ[o.b]); n[o.a]=SZ[o.b]; break;
                case 2: for(int i=0;i<n[o.a];i++) S[o.a][i]=val(next,i); tag[o.a]=next++; break;
                case 3: { A t(S[o.b]); S[o.a]=t; n[o.a]=n[o.b]; tag[o.a]=tag[o.b]; break; }
                case 4: { A&r=(S[o.a]=S[o.b]); if(&r!=&S[o.a]) mc::viol(0,"assignment does not return its target"); n[o.a]=n[o.b]; tag[o.a]=tag[o.b]; break; }
                case 5: { std::vector<A> G; for(int i=0;i<slots;i++) G.push_back(S[i]); G.push_back(A()); G.erase(G.begin()+slots); S=G; break; }
                case 6: S[o.a]=A(); n[o.a]=0; tag[o.a]=0; break; }
                for(int i=0;i<slots;i++){ const A&x=S[i]; if(x.size()!=n[i]){ mc::viol(0,"array %d has %d elements, expected %d",i,x.size(),n[i]); break; } if(n[i]&&((uintptr_t)&x[0]&15)){ mc::viol(0,"array %d is not aligned",i); break; } if(tag[i]) for(int k=0;k<n[i];k++) if(x[k]!=val(tag[i],k)){ mc::viol(0,"array %d element %d is %g, expected %g",i,k,(double)x[k],(double)val(tag[i],k)); k=n[i]; i=slots; } } }
              for(int i=0;i<slots;i++) h.i(n[i]).i(tag[i]); }
            nm.clear(); nm.shrink_to_fit(); if(bytes()>b0) mc::viol(0,"memory is not released"); h.s(tn); mc::state(h); mc::validated(); } }
    if((int)pre.size()==depth) return;
    std::vector<Op> O; for(int i=0;i<slots;i++){ for(int s=0;s<(int)(sizeof SZ/sizeof*SZ);s++){ O.push_back({0,i,s}); O.push_back({1,i,s}); } O.push_back({2,i,0}); for(int j=0;j<slots;j++){ O.push_back({3,i,j}); O.push_back({4,i,j}); } O.push_back({6,i,0}); } O.push_back({5,0,0});
    for(auto&o:O){ pre.push_back(o); ahist<T>(tn,pre,depth,slots); pre.pop_back(); } }

static const double V[]={0,1,-1,2,0.5,-3.25};
template<class T> static bool eq3(const T*g,const T*e){ return g[0]==e[0]&&g[1]==e[1]&&g[2]==e[2]; }
template<class T> static void vec(const char*tn){ const int n=6; 
    for(int i=0;i<n*n*n;i++){ if(!mc::begin("vector %s first=%d, all second",tn,i)) continue; T a[3]={(T)V[i%n],(T)V[i/n%n],(T)V[i/n/n]}; size_t b0=bytes(); bool ok=true; double tol=sizeof(T)==4?1e-6:1e-15;
        for(int j=0;j<n*n*n&&ok;j++){ T b[3]={(T)V[j%n],(T)V[j/n%n],(T)V[j/n/n]}; T ca[3]={a[0],a[1],a[2]},cb[3]={b[0],b[1],b[2]}; T d=a[0]*b[0]+a[1]*b[1]+a[2]*b[2],x[3]={a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]};
            if(vec3Operation::dot(a,b)!=d){ mc::viol(0,"dot product of (%g,%g,%g) and (%g,%g,%g)",(double)a[0],(double)a[1],(double)a[2],(double)b[0],(double)b[1],(double)b[2]); ok=false; }
            T*c=vec3Operation::cross(a,b); if(!eq3(c,x)){ mc::viol(0,"cross product of (%g,%g,%g) and (%g,%g,%g)",(double)a[0],(double)a[1],(double)a[2],(double)b[0],(double)b[1],(double)b[2]); ok=false; } free(c);
            if(!eq3(a,ca)||!eq3(b,cb)){ mc::viol(0,"an argument was changed"); ok=false; } mc::step(2); }
        double l=std::sqrt((double)a[0]*a[0]+(double)a[1]*a[1]+(double)a[2]*a[2]); if(!mc::near(vec3Operation::norm(a),l,tol*4)) mc::viol(0,"norm");
        if(l>0){ T*u=vec3Operation::normalize(a); for(int k=0;k<3;k++) if(!mc::near(u[k],a[k]/l,tol*4)) mc::viol(0,"normalised vector"); free(u); }
        if(l>0) for(double sc:{1e-12,1e-8,1e-4,1e-2,1e3,1e7,1e11}){ T s[3]={(T)(a[0]*sc),(T)(a[1]*sc),(T)(a[2]*sc)}; double ls=std::sqrt((double)s[0]*s[0]+(double)s[1]*s[1]+(double)s[2]*s[2]); if(std::fabs(vec3Operation::norm(s)/ls-1)>tol*8){ mc::viol(0,"norm of (%g,%g,%g)",(double)s[0],(double)s[1],(double)s[2]); break; } T*u=vec3Operation::normalize(s); for(int k=0;k<3;k++) if(!mc::near(u[k],s[k]/ls,tol*8)){ mc::viol(0,"normalised (%g,%g,%g)",(double)s[0],(double)s[1],(double)s[2]); break; } free(u); mc::step(); }
        for(int nu=1;nu<=(mc::thorough||i%43==7?8:5)&&ok;nu++){ int rows=1; for(int k=1;k<nu;k++) rows*=3; T**r=vec3Operation::RecursionOuterProduct(nu,a); for(int row=0;row<rows&&ok;row++)for(int col=0;col<3&&ok;col++){ double e=a[col]; int q=row; for(int k=1;k<nu;k++){ e*=a[q%3]; q/=3; } if(!mc::near(r[row][col],e,tol*16)){ mc::viol(0,"outer power %d at [%d][%d] is %g, expected %g",nu,row,col,(double)r[row][col],e); ok=false; } } for(int row=0;row<rows;row++) free(r[row]); free(r); mc::step(); }
        if(bytes()!=b0) mc::viol(0,"memory is not released"); mc::state_cur(); mc::validated(); } }
static bool is(const Vec3&v,double x,double y,double z){ return v[0]==x&&v[1]==y&&v[2]==z; }
static bool nr(const Vec3&v,double x,double y,double z){ return mc::near(v[0],x,4e-16)&&mc::near(v[1],y,4e-16)&&mc::near(v[2],z,4e-16); }
static void vec3(){ const int n=6; if(mc::begin("Vec3 default")){ Vec3 z; if(!is(z,0,0,0)) mc::viol(0,"default vector is not zero"); mc::state_cur(); mc::step(); }
    for(int i=0;i<n*n*n;i++){ if(!mc::begin("Vec3 first=%d, all second and scalars",i)) continue; double x=V[i%n],y=V[i/n%n],z=V[i/n/n]; bool ok=true; const Vec3 a(x,y,z);
#define X(c,m) if(ok&&!(c)){ mc::viol(0,"%s at (%g,%g,%g)",m,x,y,z); ok=false; }
        X(is(a,x,y,z),"components") X(is(+a,x,y,z),"unary plus") X(is(-a,-x,-y,-z),"negation") { Vec3 c(a); c[0]=7; c[1]=8; c[2]=9; X(is(c,7,8,9)&&is(a,x,y,z),"element assignment and copy") c=a; X(is(c,x,y,z),"assignment") }
        { std::ostringstream o,e; o<<a; e<<"["<<x<<", "<<y<<", "<<z<<"]"; X(o.str()==e.str(),"printed form") }
        for(double s:V){ Vec3 c(a); X(is(a*s,x*s,y*s,z*s)&&is(s*a,x*s,y*s,z*s),"product with a scalar") { Vec3&r=(c*=s); X(&r==&c&&is(c,x*s,y*s,z*s),"in-place product") } if(s!=0){ X(nr(a/s,x/s,y/s,z/s),"quotient") c=a; Vec3&r=(c/=s); X(&r==&c&&nr(c,x/s,y/s,z/s),"in-place quotient") } mc::step(); }
        for(int j=0;j<n*n*n&&ok;j++){ double u=V[j%n],v=V[j/n%n],w=V[j/n/n]; const Vec3 b(u,v,w); Vec3 c(a); X(is(a+b,x+u,y+v,z+w)&&is(a-b,x-u,y-v,z-w),"sum or difference") { Vec3&r=(c+=b); X(&r==&c&&is(c,x+u,y+v,z+w),"in-place sum") } c=a; { Vec3&r=(c-=b); X(&r==&c&&is(c,x-u,y-v,z-w),"in-place difference") }
            X(a.dot(b)==x*u+y*v+z*w,"dot product") X(is(a.cross(b),y*w-z*v,z*u-x*w,x*v-y*u),"cross product") bool e=x==u&&y==v&&z==w; X((a==b)==e&&(a!=b)==!e,"equality") mc::step(); }
        { Vec3 c(a); c+=c; X(is(c,2*x,2*y,2*z),"sum with itself") c=a; c-=c; X(is(c,0,0,0),"difference with itself") c=a; c=c; X(is(c,x,y,z),"self-assignment") }
        mc::state_cur(); mc::validated(); }
    if(mc::begin("headers used from a second file")){ if(other_unit(2)!="[2, 4, 6]") mc::viol(0,"second file: %s",other_unit(2).c_str()); mc::state_cur(); mc::step(); } }
int main(int c,char**v){ mc::init(c,v); bool t=mc::thorough; arr<double>("double",t?5:4,t?4:3,t?3:2); arr<float>("float",3,2,2); arr<int>("int",3,2,2); pairs(); vec<double>("double"); vec<float>("float"); vec3();
    std::vector<Op> pre; ahist<double>("double",pre,t?4:3,2); ahist<float>("float",pre,2,3); ahist<int>("int",pre,2,2); ahist<char>("char",pre,t?3:2,2); return mc::done(); }
