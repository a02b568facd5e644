// C27: radial values, angular tensors, moments and basis functions against their definitions, with gradients.
#include <torch/torch.h>
#include "mc.hpp"
#include "descriptor/mtp/include/mtpMRadialOp.h"
#include "descriptor/mtp/include/mtpMAngularOp.h"
#include "descriptor/mtp/include/mtpMModule.h"
#include "descriptor/mtp/include/mtpBModule.h"
using namespace matersdk::mtp;
typedef long double ld;
struct D { ld v,d; D(ld a=0,ld b=0):v(a),d(b){} };
static D operator+(D a,D b){ return D(a.v+b.v,a.d+b.d); } static D operator-(D a,D b){ return D(a.v-b.v,a.d-b.d); } static D operator*(D a,D b){ return D(a.v*b.v,a.d*b.v+a.v*b.d); } static D operator/(D a,D b){ return D(a.v/b.v,(a.d*b.v-a.v*b.d)/(b.v*b.v)); }
static D root(D a){ ld s=sqrtl(a.v); return D(s,s>0?a.d/(2*s):0); }
struct P3 { D x[3]; };
// q_n(r): zero outside [rs, rc)
static std::vector<D> radial(int n,ld rc,ld rs,const P3&p){ D r=root(p.x[0]*p.x[0]+p.x[1]*p.x[1]+p.x[2]*p.x[2]); std::vector<D> q(n); if(!(r.v>=rs&&r.v<rc)) return q; D x=(D(2)*r-D(rc+rs))/D(rc-rs),u=(r-D(rs))/D(rc-rs),s=u*u*u*(D(-6)*u*u+D(15)*u-D(10))+D(1); D a(1),b=x; for(int i=0;i<n;i++){ q[i]=a*s; D c=D(2)*x*b-a; a=b; b=c; } return q; }
static std::vector<D> outer(const P3&p,int nu){ std::vector<D> o{D(1)}; for(int k=0;k<nu;k++){ std::vector<D> t; for(D a:o) for(int i=0;i<3;i++) t.push_back(a*p.x[i]); o=t; } return o; }
typedef std::vector<std::vector<double>> Co;   // [mu*nt*nt+zi*nt+zj][n]
struct Nb { double x[3]; int z; };
// a moment; dj/da: the position differentiated, cm/cn: the coefficient differentiated
static std::vector<D> moment(const Co&co,int nt,int size,ld rc,ld rs,int mu,int nu,int zi,const std::vector<Nb>&nb,int dj,int da,int cm=-1,int cn=-1){ std::vector<D> m((size_t)pow(3,nu)+0); int L=1; for(int i=0;i<nu;i++) L*=3; m.assign(L,D(0));
    for(size_t j=0;j<nb.size();j++){ P3 p; for(int a=0;a<3;a++) p.x[a]=D(nb[j].x[a],((int)j==dj&&a==da)?1:0); auto q=radial(size,rc,rs,p); D f(0); int row=mu*nt*nt+zi*nt+nb[j].z; for(int n=0;n<size;n++) f=f+D(co[row][n],(row==cm&&n==cn)?1:0)*q[n]; auto o=outer(p,nu); for(int i=0;i<L;i++) m[i]=m[i]+f*o[i]; } return m; }
static at::Tensor layout(const at::Tensor&t,int how){ // the same values behind different strides
    if(how==0||t.dim()==0) return t.clone(); if(how==1){ std::vector<int64_t> s=t.sizes().vec(); s.back()*=2; at::Tensor b=at::full(s,77,t.options()); at::Tensor v=b.slice(-1,0,s.back(),2); v.copy_(t); return v; }
    at::Tensor v=at::empty(0); std::vector<int64_t> p; for(int64_t i=t.dim()-1;i>=0;i--) p.push_back(i); return t.permute(p).contiguous().permute(p); }
static double get(const at::Tensor&t,int64_t i){ at::Tensor c=t.detach().reshape({-1}).to(at::kDouble).contiguous(); return c.data_ptr<double>()[i]; }
static std::vector<double> flat(const at::Tensor&t){ at::Tensor c=t.detach().to(at::kDouble).contiguous().reshape({-1}); return std::vector<double>(c.data_ptr<double>(),c.data_ptr<double>()+c.numel()); }
static bool near(double a,double b,double tol){ return std::isfinite(a)&&std::fabs(a-b)<=tol*(1+std::fabs(b)); }
static const double CUT[][2]={{5,2},{6.5,0.5},{3.5,0},{2.25,2}};
static const double DIR[][3]={{1,0,0},{0,-1,0},{0,0,1},{0.6,0.8,0},{-0.48,0.6,0.64},{2./3,-2./3,1./3}};
static at::Tensor rcuts(const double*c){ return at::tensor({c[0],c[1]},at::TensorOptions().dtype(at::kDouble)); }
static std::string shp(const at::Tensor&t){ std::string s; for(auto x:t.sizes()) s+=std::to_string(x)+","; return s; }

static void radialop(){ for(int size:(mc::thorough?std::vector<int>{1,2,3,4,5,6,7,12,20}:std::vector<int>{1,2,3,4,5,12}))for(auto&c:CUT)for(int dt=0;dt<2;dt++)for(int lay=0;lay<3;lay++)for(int set=0;set<3;set++){ if(!mc::begin("radial size=%d rcut=%g smooth=%g %s layout=%d set=%d",size,c[0],c[1],dt?"float":"double",lay,set)) continue;
        std::vector<std::array<double,3>> pos; if(set==1) pos.push_back({0,0,0}); if(set<2){ double w=c[0]-c[1]; for(double r:{c[1]+w*0.03,c[1]+w*0.25,c[1]+w*0.5,c[1]+w*0.77,c[1]+w*0.96,c[0]+0.1,c[1]*0.5,c[1]*0.97}) for(auto&d:DIR){ if(set==1&&d[0]!=0.6) continue; pos.push_back({r*d[0],r*d[1],r*d[2]}); } }
        int n=pos.size(); at::TensorOptions op=at::TensorOptions().dtype(dt?at::kFloat:at::kDouble); at::Tensor x=at::zeros({n,3},at::kDouble); for(int i=0;i<n;i++)for(int a=0;a<3;a++) x[i][a]=pos[i][a]; x=x.to(op.dtype()); for(int i=0;i<n;i++)for(int a=0;a<3;a++) pos[i][a]=get(x,i*3+a);
        x=layout(x,lay).requires_grad_(true); at::Tensor rt=rcuts(c); auto q=MtpQOp(size,rt,x); double tol=dt?2e-4:1e-11; double k=c[0]/(c[0]-c[1]); tol*=k*k;
        if(q.size()!=1||q[0].sizes()!=at::IntArrayRef({n,size})||q[0].scalar_type()!=x.scalar_type()){ mc::viol(0,"shape %s",shp(q[0]).c_str()); continue; } auto v=flat(q[0]); bool ok=true; mc::state_cur();
        auto ref=[&](int i,int a){ P3 p; for(int b=0;b<3;b++) p.x[b]=D(pos[i][b],b==a); return radial(size,c[0],c[1],p); };
        for(int i=0;i<n&&ok;i++){ auto e=ref(i,0); for(int s=0;s<size;s++) if(!near(v[i*size+s],e[s].v,tol*(1+s*s))||(e[s].v==0&&e[s].d==0&&fabsl(e[0].v)==0&&v[i*size+s]!=0)){ mc::viol(0,"radial value %d at (%g,%g,%g) is %.10g, expected %.10Lg",s,pos[i][0],pos[i][1],pos[i][2],v[i*size+s],e[s].v); ok=false; break; } mc::step(); }
        for(int rep=0;rep<5&&ok&&n;rep++){ std::vector<double> w(n*size); for(size_t i=0;i<w.size();i++) w[i]=rep==3?0.75:rep==4?((int)((i%size*7)%11)-5)*0.25:((int)((i*7+rep*3)%11)-5)*0.25; at::Tensor wt=at::tensor(w,at::kDouble).reshape({n,size}).to(op.dtype()); wt=rep<3?layout(wt,rep):rep==3?wt[0][0].clone().expand({n,size}):wt[0].clone().expand({n,size}); // contiguous, strided, transposed, one value or one row expanded
            auto g=torch::autograd::grad({q[0]},{x},{wt},true)[0]; if(g.sizes()!=x.sizes()){ mc::viol(0,"gradient shape %s",shp(g).c_str()); ok=false; break; } auto gv=flat(g);
            for(int i=0;i<n&&ok;i++)for(int a=0;a<3&&ok;a++){ auto e=ref(i,a); ld s=0; for(int t=0;t<size;t++) s+=e[t].d*w[i*size+t]; if(!near(gv[i*3+a],s,tol*size*size*8)){ mc::viol(0,"gradient along %d at (%g,%g,%g) is %.10g, expected %.10Lg",a,pos[i][0],pos[i][1],pos[i][2],gv[i*3+a],s); ok=false; } mc::step(); } }
        if(flat(x)!=[&]{ std::vector<double> z; for(auto&p:pos) for(double t:p) z.push_back(t); return z; }()) mc::viol(0,"the input was changed"); mc::validated(); } }

static void angularop(){ for(int n:{0,1,2,3,12,70})for(int nu=0;nu<=(n==1||n==2?(mc::thorough?8:7):mc::thorough?5:4);nu++)for(int dt=0;dt<2;dt++)for(int lay=0;lay<3;lay++)for(int s=0;s<6;s++){ if(!mc::begin("angular neighbours=%d nu=%d %s layout=%d set=%d",n,nu,dt?"float":"double",lay,s)) continue; at::TensorOptions op=at::TensorOptions().dtype(dt?at::kFloat:at::kDouble);
        std::vector<double> p(n*3); for(int i=0;i<n*3;i++) p[i]=s==0?0:(DIR[(s+i/3)%6][i%3]*(s<3?1.5:0.75)); at::Tensor x=at::zeros({n,3},at::kDouble); for(int i=0;i<n*3;i++) x[i/3][i%3]=p[i]; x=x.to(op.dtype()); p=flat(x); x=layout(x,lay).requires_grad_(true); at::Tensor y=MtpMAngularOp(x,nu); std::vector<int64_t> sh{n}; for(int i=0;i<nu;i++) sh.push_back(3); int L=1; for(int i=0;i<nu;i++) L*=3;
        if(y.sizes()!=at::IntArrayRef(sh)||y.scalar_type()!=x.scalar_type()){ mc::viol(0,"shape %s",shp(y).c_str()); continue; } auto v=flat(y); bool ok=true; double tol=dt?1e-5:1e-13; mc::state_cur();
        auto ref=[&](int i,int a){ P3 q; for(int b=0;b<3;b++) q.x[b]=D(p[i*3+b],a==b); return outer(q,nu); };
        for(int i=0;i<n&&ok;i++){ auto e=ref(i,0); for(int k=0;k<L;k++) if(!near(v[i*L+k],e[k].v,tol)){ mc::viol(0,"component %d of neighbour %d is %.10g, expected %.10Lg",k,i,v[i*L+k],e[k].v); ok=false; break; } mc::step(); }
        if(ok&&n){ std::vector<double> w(n*L); for(size_t i=0;i<w.size();i++) w[i]=((int)((i*5)%7)-3)*0.5; auto gs=torch::autograd::grad({y},{x},{at::tensor(w,at::kDouble).reshape(sh).to(op.dtype())},c10::nullopt,false,true); std::vector<double> g=gs[0].defined()?flat(gs[0]):std::vector<double>(n*3,0); for(int i=0;i<n&&ok;i++)for(int a=0;a<3&&ok;a++){ auto e=ref(i,a); ld s2=0; for(int k=0;k<L;k++) s2+=e[k].d*w[i*L+k]; if(!near(g[i*3+a],s2,tol*10)){ mc::viol(0,"gradient of neighbour %d along %d is %.10g, expected %.10Lg",i,a,g[i*3+a],s2); ok=false; } mc::step(); } }
        mc::validated(); } }

static Co setpar(torch::nn::Module&m,int rows,int size,at::ScalarType t){ // known coefficients, set through the module's parameters
    Co co(rows,std::vector<double>(size,NAN)); torch::NoGradGuard g; for(auto&p:m.named_parameters()){ std::string k=p.key(); int r=atoi(k.substr(k.rfind('.')+1).c_str()); if(r<0||r>=rows||p.value().numel()!=size) return Co(); std::vector<double> v(size); for(int n=0;n<size;n++) v[n]=((r*5+n*3)%13-6)*0.125+0.0625*(r+1); co[r]=v; p.value().copy_(at::tensor(v,at::kDouble).to(t)); } for(auto&c:co) if(std::isnan(c[0])) return Co(); return co; }
static at::Tensor par(torch::nn::Module&m,int r){ for(auto&p:m.named_parameters()){ std::string k=p.key(); if(atoi(k.substr(k.rfind('.')+1).c_str())==r) return p.value(); } return at::Tensor(); }
// relative positions: two inside the support, one beyond the cutoff, one nearer than the smoothing radius
static const double SITE[4][3]={{1.9,-1.2,0.8},{-0.7,2.1,1.9},{3.6,3.1,2.2},{0.2,-0.3,0.25}};

static void momentmod(){ const int nt=2,size=3,nmu=3; const double MC[3][2]={{5,2},{5,0.4},{4.5,0}};
    std::vector<std::vector<int>> sets; sets.push_back({}); for(int a=0;a<8;a++){ sets.push_back({a}); for(int b=0;b<8;b++){ sets.push_back({a,b}); for(int c=b;c<8;c++) if(b>=a||mc::thorough) sets.push_back({a,b,c}); } } for(int n:{8,17,40}){ std::vector<int> b; for(int i=0;i<n;i++) b.push_back((i*5+i/8)%8); sets.push_back(b); }
    for(int cu=0;cu<3;cu++)for(size_t s=0;s<sets.size();s++)for(int zi=0;zi<nt;zi++)for(int pad=0;pad<=2;pad++){ if(!mc::thorough&&((int)s+zi+cu)%3!=pad&&sets[s].size()>1) continue; int dt=sets[s].size()==1&&pad==1,lay=(s+pad)%3;
        if(!mc::begin("moment rcut=%g smooth=%g neighbours=%s centre=%d padding=%d %s layout=%d",MC[cu][0],MC[cu][1],[&]{ std::string t="["; for(int x:sets[s]) t+=std::to_string(x); return t+"]"; }().c_str(),zi,pad,dt?"float":"double",lay)) continue;
        at::ScalarType st=dt?at::kFloat:at::kDouble; at::Tensor rt=rcuts(MC[cu]); MtpMModule m(nmu,nt,size,rt); m->to(st); Co co=setpar(*m,nmu*nt*nt,size,st); if(co.empty()){ mc::viol(0,"the module does not have one coefficient vector per moment and pair of species"); continue; }
        std::vector<Nb> nb; for(int q:sets[s]){ Nb b; for(int a=0;a<3;a++) b.x[a]=SITE[q%4][(a+nb.size()/8)%3]*(1-0.011*(nb.size()/4)); b.z=q/4; nb.push_back(b); } int n=nb.size(),N=n+pad;
        // atoms: 0,1 of types zi and 1-zi as centres, 2.. one atom per species; the last atom is what an index of -1 would reach
        std::vector<int64_t> ty{zi,1-zi,0,1,1-zi}; at::Tensor types=at::tensor(ty,at::kLong),fn=at::full({N},-1,at::kLong),x=at::zeros({N,3},at::kDouble); for(int j=0;j<n;j++){ fn[j]=2+nb[j].z; for(int a=0;a<3;a++) x[j][a]=nb[j].x[a]; } x=x.to(st); for(int j=0;j<n;j++)for(int a=0;a<3;a++) nb[j].x[a]=get(x,j*3+a);
        x=layout(x,lay).requires_grad_(true); at::Tensor f2=layout(fn,lay); double tol=dt?3e-4:1e-10; bool ok=true; mc::state_cur();
        for(int mu=0;mu<nmu&&ok;mu++)for(int nu=0;nu<=3&&ok;nu++){ int L=1; std::vector<int64_t> sh; for(int i=0;i<nu;i++){ L*=3; sh.push_back(3); } at::Tensor y; for(auto&p:m->parameters()) if(p.grad().defined()) p.mutable_grad()=at::Tensor(); try{ y=m->forward(mu,nu,0,f2,types,x); }catch(const std::exception&e){ mc::viol(0,"mu=%d nu=%d: %.200s",mu,nu,e.what()); ok=false; break; }
            if(y.sizes()!=at::IntArrayRef(sh)||y.scalar_type()!=st){ mc::viol(0,"mu=%d nu=%d: shape %s",mu,nu,shp(y).c_str()); ok=false; break; } auto v=flat(y); auto e=moment(co,nt,size,MC[cu][0],MC[cu][1],mu,nu,zi,nb,-1,0); for(int i=0;i<L;i++) if(!near(v[i],e[i].v,tol)){ mc::viol(0,"mu=%d nu=%d: component %d is %.10g, expected %.10Lg",mu,nu,i,v[i],e[i].v); ok=false; break; }
            mc::step(); if(!ok||!y.requires_grad()) { if(ok&&n){ mc::viol(0,"mu=%d nu=%d: the result carries no gradient",mu,nu); ok=false; } continue; }
            std::vector<double> w(L); for(int i=0;i<L;i++) w[i]=((i*5+mu)%7-3)*0.5+0.125; if(x.grad().defined()) x.mutable_grad()=at::Tensor(); y.backward(at::tensor(w,at::kDouble).reshape(sh).to(st)); std::vector<double> g=x.grad().defined()?flat(x.grad()):std::vector<double>(N*3,0);
            for(int j=0;j<N&&ok;j++)for(int a=0;a<3&&ok;a++){ ld want=0; if(j<n){ auto d=moment(co,nt,size,MC[cu][0],MC[cu][1],mu,nu,zi,nb,j,a); for(int i=0;i<L;i++) want+=d[i].d*w[i]; } if(!near(g[j*3+a],want,tol*20)){ mc::viol(0,"mu=%d nu=%d: gradient of neighbour %d along %d is %.10g, expected %.10Lg",mu,nu,j,a,g[j*3+a],want); ok=false; } }
            for(int r=0;r<nmu*nt*nt&&ok;r++){ at::Tensor p=par(*m,r); std::vector<double> pg=p.grad().defined()?flat(p.grad()):std::vector<double>(size,0); for(int k=0;k<size&&ok;k++){ auto d=moment(co,nt,size,MC[cu][0],MC[cu][1],mu,nu,zi,nb,-1,0,r,k); ld want=0; for(int i=0;i<L;i++) want+=d[i].d*w[i]; if(!near(pg[k],want,tol*20)){ mc::viol(0,"mu=%d nu=%d: gradient of coefficient %d,%d is %.10g, expected %.10Lg",mu,nu,r,k,pg[k],want); ok=false; } } }
            at::Tensor again=m->forward(mu,nu,0,f2,types,x); if(ok&&flat(again)!=v){ mc::viol(0,"mu=%d nu=%d: a second evaluation differs",mu,nu); ok=false; } }
        mc::validated(); } }

// every table of L slots: each slot padding (with or without left-over coordinates) or a neighbour of each species; every species of the centre, which stands anywhere among the atoms; 1..3 species
static void slots(){ const int size=2,nmu=2; const double c[2]={5,0.5}; for(int nt=1;nt<=3;nt++)for(int L=1;L<=(mc::thorough?5:4);L++)for(int zi=0;zi<nt;zi++){ int tot=1; for(int i=0;i<L;i++) tot*=nt+2; at::Tensor rt=rcuts(c); if(L%2) rt=rt.to(at::kFloat); MtpMModule m(nmu,nt,size,rt); m->to(at::kDouble); Co co=setpar(*m,nmu*nt*nt,size,at::kDouble);
        for(int code=0;code<tot;code++){ std::vector<int> k; for(int i=0,x=code;i<L;i++){ k.push_back(x%(nt+2)-2); x/=nt+2; } int dt=code%5==3; if(!mc::begin("slots types=%d centre=%d table=%s %s",nt,zi,[&]{ std::string t; for(int x:k) t+=x==-2?'-':x==-1?'x':(char)('0'+x); return t; }().c_str(),dt?"float":"double")) continue;
            if(co.empty()){ mc::viol(0,"the module does not have one coefficient vector per moment and pair of species"); continue; } MtpMModule w(nmu,nt,size,rt); MtpMModule&mm=dt?w:m; at::ScalarType st=dt?at::kFloat:at::kDouble; if(dt){ w->to(st); setpar(*w,nmu*nt*nt,size,st); }
            // atoms: the centre is atom 'ce', the neighbours are spread over the other atoms; the last atom has a species no padding may count as
            int na=2*nt+2,ce=code%na; std::vector<int64_t> ty(na); for(int a=0;a<na;a++) ty[a]=(a+1)%nt; ty[ce]=zi; std::vector<std::vector<int>> of(nt); for(int a=0;a<na;a++) if(a!=ce) of[ty[a]].push_back(a);
            at::Tensor types=at::tensor(ty,at::kLong),fn=at::full({L},-1,at::kLong),x=at::zeros({L,3},at::kDouble); std::vector<Nb> nb; std::vector<int> at_(L,-1); for(int i=0;i<L;i++){ if(k[i]==-2) continue; for(int a=0;a<3;a++) x[i][a]=SITE[i%2][(a+i/2)%3]*(1+0.07*i); if(k[i]>=0) fn[i]=of[k[i]][(i+code)%of[k[i]].size()]; }
            x=x.to(st); for(int i=0;i<L;i++) if(k[i]>=0){ Nb b; b.z=k[i]; for(int a=0;a<3;a++) b.x[a]=get(x,i*3+a); at_[i]=nb.size(); nb.push_back(b); } x.requires_grad_(true); bool ok=true; double tol=dt?3e-4:1e-10; mc::state_cur();
            for(int mu=0;mu<nmu&&ok;mu++)for(int nu=0;nu<=2&&ok;nu++){ if((mu+nu+code)%2&&!mc::thorough) continue; int T=1; std::vector<int64_t> sh; for(int i=0;i<nu;i++){ T*=3; sh.push_back(3); } at::Tensor y; try{ y=mm->forward(mu,nu,ce,fn,types,x); }catch(const std::exception&e){ mc::viol(0,"mu=%d nu=%d: %.200s",mu,nu,e.what()); ok=false; break; }
                if(y.sizes()!=at::IntArrayRef(sh)||y.scalar_type()!=st){ mc::viol(0,"mu=%d nu=%d: shape %s",mu,nu,shp(y).c_str()); ok=false; break; } auto v=flat(y); auto e=moment(co,nt,size,c[0],c[1],mu,nu,zi,nb,-1,0); for(int i=0;i<T;i++) if(!near(v[i],e[i].v,tol)){ mc::viol(0,"mu=%d nu=%d: component %d is %.10g, expected %.10Lg",mu,nu,i,v[i],e[i].v); ok=false; break; } mc::step(); if(!ok) break;
                std::vector<double> wt(T); for(int i=0;i<T;i++) wt[i]=((i*5+mu)%7-3)*0.5+0.125; std::vector<double> g(L*3,0); if(x.grad().defined()) x.mutable_grad()=at::Tensor(); if(y.requires_grad()) y.backward(at::tensor(wt,at::kDouble).reshape(sh).to(st)); if(x.grad().defined()) g=flat(x.grad());
                for(int i=0;i<L&&ok;i++)for(int a=0;a<3&&ok;a++){ ld want=0; if(at_[i]>=0){ auto d=moment(co,nt,size,c[0],c[1],mu,nu,zi,nb,at_[i],a); for(int t=0;t<T;t++) want+=d[t].d*wt[t]; } if(!near(g[i*3+a],want,tol*20)){ mc::viol(0,"mu=%d nu=%d: gradient of slot %d along %d is %.10g, expected %.10Lg",mu,nu,i,a,g[i*3+a],want); ok=false; } } }
            mc::validated(); } } }
// several evaluations alive at once: gradients taken in every order are those of each evaluation alone
static void alive(){ for(int size=1;size<=3;size++)for(int k=1;k<=3;k++){ std::vector<int> perm(k); for(int i=0;i<k;i++) perm[i]=i; do{ if(!mc::begin("alive size=%d order=%s",size,[&]{ std::string t; for(int x:perm) t+=(char)('0'+x); return t; }().c_str())) continue; mc::state_cur(); std::vector<at::Tensor> xs,qs; std::vector<std::vector<std::array<double,3>>> ps; for(int i=0;i<k;i++){ int n=i+1; std::vector<std::array<double,3>> p; at::Tensor x=at::zeros({n,3},at::kDouble); for(int j=0;j<n;j++){ double r=CUT[i][1]+(CUT[i][0]-CUT[i][1])*(0.2+0.3*j); p.push_back({}); for(int a=0;a<3;a++){ p[j][a]=r*DIR[3+i][a]; x[j][a]=p[j][a]; } } x.requires_grad_(true); at::Tensor rt=rcuts(CUT[i]); xs.push_back(x); ps.push_back(p); qs.push_back(MtpQOp(size+i,rt,x)[0]); }
            bool ok=true; for(int i:perm){ if(!ok) break; auto g=flat(torch::autograd::grad({qs[i].sum()},{xs[i]})[0]); for(size_t j=0;j<ps[i].size()&&ok;j++)for(int a=0;a<3&&ok;a++){ P3 p; for(int b=0;b<3;b++) p.x[b]=D(ps[i][j][b],a==b); auto e=radial(size+i,CUT[i][0],CUT[i][1],p); ld s=0; for(auto&d:e) s+=d.d; if(!near(g[j*3+a],s,1e-9)){ mc::viol(0,"evaluation %d: gradient of %d along %d is %.10g, expected %.10Lg",i,(int)j,a,g[j*3+a],s); ok=false; } mc::step(); } } mc::validated(); }while(std::next_permutation(perm.begin(),perm.end())); } }

// basis functions: product of moments, contracted from the back in decreasing rank
static D basis(const std::vector<std::pair<int,int>>&s,std::function<std::vector<D>(int,int)> M){ std::vector<D> p{D(1)}; for(auto&c:s){ auto t=M(c.first,c.second); size_t a=p.size(),b=t.size(); if(a>=b){ std::vector<D> o(a/b); for(size_t i=0;i<a/b;i++) for(size_t k=0;k<b;k++) o[i]=o[i]+p[i*b+k]*t[k]; p=o; } else { std::vector<D> o(b); for(size_t k=0;k<b;k++) o[k]=p[0]*t[k]; p=o; } } return p[0]; }
static void basismod(){ const int size=2; std::vector<std::array<int,6>> F; for(int lev=2;lev<=(mc::thorough?14:10);lev+=2)for(int nb_=1;nb_<=2;nb_++)for(int nc=1;nc<=2;nc++)for(int nn=0;nn<=3;nn++)for(int td=1;td<=2;td++)for(int v=0;v<4;v++) F.push_back({lev,nb_,nc,nn,td,v}); F.push_back({8,3,5,12,2,0}); F.push_back({6,5,3,30,1,0}); F.push_back({4,1,2,65,2,1});
    for(auto&q_:F){ int lev=q_[0],nb_=q_[1],nc=q_[2],nn=q_[3],td=q_[4],v=q_[5]; int dt=v==1,lay=v==2?1:v==3?2:0; if(lev>8&&(v||nc==2&&nb_==2)) continue;
        if(!mc::begin("basis level=%d frames=%d centres=%d neighbours=%d types-rank=%d %s layout=%d",lev,nb_,nc,nn,td,dt?"float":"double",lay)) continue; const int nt=2; double cut[2]={5,nn%2?0.4:0.0}; at::ScalarType st=dt?at::kFloat:at::kDouble; at::Tensor rt=rcuts(cut);
        MtpMCoeffPairCombs combs(lev); int nmu=combs.nmus(),B=combs.size(); MtpBModule m(lev,nt,size,rt); m->to(st); Co co=setpar(*m,nmu*nt*nt,size,st); if(co.empty()){ mc::viol(0,"the module does not have one coefficient vector per moment and pair of species"); continue; }
        int na=4; int64_t W=nn+1; at::Tensor il=at::zeros({nb_,nc},at::kLong),fn=at::full({nb_,nc,W},-1,at::kLong),x=at::zeros({nb_,nc,W,3},at::kDouble),ty=at::zeros({nb_,na},at::kLong); for(int f=0;f<nb_;f++) for(int a=0;a<na;a++) ty[f][a]=td==2?(a+f+(a==3))%2:(a+(a==3))%2;
        for(int f=0;f<nb_;f++)for(int c=0;c<nc;c++){ il[f][c]=(c+f)%2; for(int j=0;j<nn;j++){ fn[f][c][j]=(j+c+f*2)%na; for(int a=0;a<3;a++) x[f][c][j][a]=SITE[(j*2+c+f)%4][(a+f)%3]*(nn>3?0.9-0.011*j:1+0.1*j)*(j==2?-0.6:1); } } x=x.to(st); auto xv=flat(x); auto fv=flat(fn); auto tv=flat(ty); auto iv=flat(il);
        at::Tensor il2=layout(il,lay),fn2=layout(fn,lay),ty2=layout(td==2?ty:ty[0],lay); x=layout(x,lay).requires_grad_(true); at::Tensor y; try{ y=m->forward(il2,fn2,x,ty2); }catch(const std::exception&e){ mc::viol(0,"%.300s",e.what()); continue; } mc::state_cur();
        if(y.sizes()!=at::IntArrayRef({nb_,nc,B})||y.scalar_type()!=st){ mc::viol(0,"shape %s",shp(y).c_str()); continue; } auto yv=flat(y); bool ok=true; double tol=dt?5e-4:1e-9;
        std::vector<double> w(yv.size()); for(size_t i=0;i<w.size();i++) w[i]=((int)((i*5)%7)-3)*0.5+0.125; std::vector<double> g(xv.size(),0); std::vector<std::vector<double>> pg; if(y.requires_grad()){ y.backward(at::tensor(w,at::kDouble).reshape(y.sizes()).to(st)); if(x.grad().defined()) g=flat(x.grad()); }
        for(int f=0;f<nb_&&ok;f++)for(int c=0;c<nc&&ok;c++){ int q=f*nc+c; std::vector<Nb> nb; for(int j=0;j<nn;j++){ Nb b; for(int a=0;a<3;a++) b.x[a]=xv[(q*W+j)*3+a]; int t=(int)fv[q*W+j]; b.z=(int)tv[(td==2?f:0)*na+t]; nb.push_back(b); } int zi=(int)tv[(td==2?f:0)*na+(int)iv[q]];
            auto eval=[&](int dj,int da){ std::map<std::pair<int,int>,std::vector<D>> cache; std::vector<D> o; for(auto&cb:combs.coeff_pair_combs()){ std::vector<std::pair<int,int>> s; for(auto&p:cb) s.push_back(p.coeff_pair()); o.push_back(basis(s,[&](int mu,int nu){ auto&z=cache[{mu,nu}]; if(z.empty()) z=moment(co,nt,size,cut[0],cut[1],mu,nu,zi,nb,dj,da); return z; })); } return o; };
            auto e=eval(-1,0); for(int k=0;k<B&&ok;k++) if(!near(yv[q*B+k],e[k].v,tol)){ mc::viol(0,"frame %d centre %d: basis function %d is %.10g, expected %.10Lg",f,c,k,yv[q*B+k],e[k].v); ok=false; } mc::step(B);
            for(int j=0;j<W&&ok;j++)for(int a=0;a<3&&ok;a++){ ld want=0,sc=0; if(j<nn){ auto d=eval(j,a); for(int k=0;k<B;k++){ want+=d[k].d*w[q*B+k]; sc+=fabsl(d[k].d*w[q*B+k]); } } if(!(std::fabs(g[(q*W+j)*3+a]-want)<=tol*20*(1+sc))){ mc::viol(0,"frame %d centre %d: gradient of neighbour %d along %d is %.10g, expected %.10Lg",f,c,j,a,g[(q*W+j)*3+a],want); ok=false; } } }
        // coefficient gradients of the whole batch
        for(int r=0;r<nmu*nt*nt&&ok&&lev<=8;r++){ at::Tensor p=par(*m,r); std::vector<double> gg=p.grad().defined()?flat(p.grad()):std::vector<double>(size,0); for(int n=0;n<size&&ok;n++){ ld want=0,sc=0; for(int f=0;f<nb_;f++)for(int c=0;c<nc;c++){ int q=f*nc+c; std::vector<Nb> nb; for(int j=0;j<nn;j++){ Nb b; for(int a=0;a<3;a++) b.x[a]=xv[(q*W+j)*3+a]; b.z=(int)tv[(td==2?f:0)*na+(int)fv[q*W+j]]; nb.push_back(b); } int zi=(int)tv[(td==2?f:0)*na+(int)iv[q]]; int k=0; std::map<std::pair<int,int>,std::vector<D>> cache; for(auto&cb:combs.coeff_pair_combs()){ std::vector<std::pair<int,int>> s; for(auto&pp:cb) s.push_back(pp.coeff_pair()); D d=basis(s,[&](int mu,int nu){ auto&z=cache[{mu,nu}]; if(z.empty()) z=moment(co,nt,size,cut[0],cut[1],mu,nu,zi,nb,-1,0,r,n); return z; }); want+=d.d*w[q*B+k]; sc+=fabsl(d.d*w[q*B+k]); k++; } }
                if(!(std::fabs(gg[n]-want)<=tol*20*(1+sc))){ mc::viol(0,"gradient of coefficient %d,%d is %.10g, expected %.10Lg",r,n,gg[n],want); ok=false; } } }
        if(flat(x)!=xv||flat(fn2)!=fv||flat(il2)!=iv) mc::viol(0,"an input was changed"); mc::validated(); } }
int main(int c,char**v){ at::set_num_threads(1); mc::init(c,v); radialop(); angularop(); momentmod(); slots(); alive(); basismod(); return mc::done(); }
