// C28: moment-tensor potential files: complete loading, refusal of truncated files, value semantics.
#include "mc.hpp"
#include <memory>
#include <array>
#include <utility>
#include <fstream>
#include <sstream>
#include "descriptor/mtpr/include/mtpParam.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace matersdk::mtpr;
typedef std::array<int,4> Q;
struct Tab { int moments=0; std::vector<Q> basic,times; std::vector<int> map; int nb=0,nt=0,ns=0; };
// independent reader: one "name = value" per line
static std::vector<int> ints(const std::string&s){ std::vector<int> v; const char*p=s.c_str(); while(*p){ if((*p>='0'&&*p<='9')||(*p=='-'&&p[1]>='0'&&p[1]<='9')){ char*e; v.push_back((int)strtol(p,&e,10)); p=e; } else p++; } return v; }
static Tab parse(const std::string&text){ Tab t; std::istringstream is(text); std::string l; while(std::getline(is,l)){ size_t e=l.find(" = "); if(e==std::string::npos) continue; size_t a=l.find_first_not_of(" \t"); std::string k=l.substr(a,e-a); std::vector<int> v=ints(l.substr(e+3));
        auto quad=[&](std::vector<Q>&o){ for(size_t i=0;i+3<v.size();i+=4) o.push_back({v[i],v[i+1],v[i+2],v[i+3]}); };
        if(k=="alpha_moments_count") t.moments=v[0]; else if(k=="alpha_index_basic_count") t.nb=v[0]; else if(k=="alpha_index_times_count") t.nt=v[0]; else if(k=="alpha_scalar_moments") t.ns=v[0];
        else if(k=="alpha_index_basic") quad(t.basic); else if(k=="alpha_index_times") quad(t.times); else if(k=="alpha_moment_mapping") t.map=v; } return t; }
static bool same(const MtpParam&p,const Tab&t,const char*w){
    if(p.alpha_moments_count()!=t.moments||p.alpha_index_basic_count()!=(int)t.basic.size()||p.alpha_index_times_count()!=(int)t.times.size()||p.alpha_scalar_moments()!=(int)t.map.size()){ mc::viol(0,"%s: counts %d %d %d %d, expected %d %zu %zu %zu",w,p.alpha_moments_count(),p.alpha_index_basic_count(),p.alpha_index_times_count(),p.alpha_scalar_moments(),t.moments,t.basic.size(),t.times.size(),t.map.size()); return false; }
    for(size_t i=0;i<t.basic.size();i++) for(int k=0;k<4;k++) if(p.alpha_index_basic()[i][k]!=t.basic[i][k]){ mc::viol(0,"%s: basic[%zu][%d] is %d, expected %d",w,i,k,p.alpha_index_basic()[i][k],t.basic[i][k]); return false; }
    for(size_t i=0;i<t.times.size();i++) for(int k=0;k<4;k++) if(p.alpha_index_times()[i][k]!=t.times[i][k]){ mc::viol(0,"%s: times[%zu][%d] is %d, expected %d",w,i,k,p.alpha_index_times()[i][k],t.times[i][k]); return false; }
    for(size_t i=0;i<t.map.size();i++) if(p.alpha_moment_mapping()[i]!=t.map[i]){ mc::viol(0,"%s: mapping[%zu] is %d, expected %d",w,i,p.alpha_moment_mapping()[i],t.map[i]); return false; }
    return true; }
static std::string dir;
static std::string put(const std::string&name,const std::string&text){ std::string p=dir+"/"+name; FILE*f=fopen(p.c_str(),"wb"); fwrite(text.data(),1,text.size(),f); fclose(f); return p; }
// values coded by position so that any mix-up shows; v selects magnitude / sign
static Tab synth(int nb,int nt,int ns,int v){ Tab t; t.moments=1+nb+nt+100*v; auto x=[&](int a,int i,int k){ int q=a*1000+i*10+k; if(v==3) return q*7919+100000*k; return v==0?q:v==1?(k==2?-q:q):(i+k)%10; }; for(int i=0;i<nb;i++) t.basic.push_back({x(1,i,0),x(1,i,1),x(1,i,2),x(1,i,3)}); for(int i=0;i<nt;i++) t.times.push_back({x(2,i,0),x(2,i,1),x(2,i,2),x(2,i,3)}); for(int i=0;i<ns;i++) t.map.push_back(x(3,i,2)); return t; }
static std::string text(const Tab&t,const char*nl,int tail,int hdr=0){ std::ostringstream o; std::string big(hdr==1?900:hdr==2?4970:0,'x');
    o<<"MTP"<<nl<<"version = 1.1.0"<<nl<<"potential_name = MTP1m"<<big<<nl<<"species_count = 1"<<nl<<"potential_tag = "<<nl<<"radial_basis_type = RBChebyshev"<<nl<<"\tmin_dist = 2"<<nl<<"\tmax_dist = 5"<<nl<<"\tradial_basis_size = 8"<<nl<<"\tradial_funcs_count = 2"<<nl;
    auto quads=[&](const std::vector<Q>&v){ o<<"{"; for(size_t i=0;i<v.size();i++) o<<(i?", ":"")<<"{"<<v[i][0]<<", "<<v[i][1]<<", "<<v[i][2]<<", "<<v[i][3]<<"}"; o<<"}"<<nl; };
    o<<"alpha_moments_count = "<<t.moments<<nl<<"alpha_index_basic_count = "<<t.basic.size()<<nl<<"alpha_index_basic = "; quads(t.basic); o<<"alpha_index_times_count = "<<t.times.size()<<nl<<"alpha_index_times = "; quads(t.times); o<<"alpha_scalar_moments = "<<t.map.size()<<nl<<"alpha_moment_mapping = {"; for(size_t i=0;i<t.map.size();i++) o<<(i?", ":"")<<t.map[i]; o<<"}"; if(tail>=1) o<<nl; if(tail>=2) o<<"species_coeffs = {0, 1, 2}"<<nl; return o.str(); }
static size_t bytes(){ return __sanitizer_get_current_allocated_bytes(); }
static int bare_files=0;
static void shipped(){ for(const char*f:{"depreciated-02","depreciated-04","06","08","10","12","14","16","18","20","22","24","26","28"}){ if(!mc::begin("shipped %s",f)) continue; std::string p=std::string(MTP_DIR)+"/"+f+".almtp"; std::ifstream is(p); std::stringstream ss; ss<<is.rdbuf(); Tab t=parse(ss.str());
        if(t.nb!=(int)t.basic.size()||t.nt!=(int)t.times.size()||t.ns!=(int)t.map.size()||t.nb==0||t.ns==0){ mc::viol(0,"shipped potential file %s states counts that do not match its tables",f); continue; }
        // the tables refer only to moments that exist and are computed before they are used
        for(auto&q:t.times) if(q[0]<0||q[1]<0||q[3]<t.nb||q[3]>=t.moments||q[0]>=q[3]||q[1]>=q[3]){ mc::viol(0,"shipped potential file %s: product {%d,%d,%d,%d} refers to a moment that is not available",f,q[0],q[1],q[2],q[3]); break; }
        for(int m:t.map) if(m<0||m>=t.moments){ mc::viol(0,"shipped potential file %s: mapping to moment %d of %d",f,m,t.moments); break; }
        MtpParam a(p),b; b._load(p); bool ok=same(a,t,"constructor")&&same(b,t,"_load"); if(ok){ MtpParam c(a); ok=same(c,t,"copy")&&same(a,t,"source of the copy"); b=a; ok=ok&&same(b,t,"assigned"); MtpParam d(std::move(c)); ok=ok&&same(d,t,"moved"); b=std::move(d); ok=ok&&same(b,t,"move-assigned"); }
        mc::step(7); mc::state_cur(); mc::validated(); } }
static void synthetic(){ int N=mc::thorough?6:4; int big[]={1,40,300};
    for(int nb=0;nb<=N;nb++)for(int nt=0;nt<=N;nt++)for(int ns=0;ns<=N;ns++)for(int v=0;v<4;v++)for(int tail=0;tail<3;tail++){ if(!mc::begin("synthetic basic=%d times=%d scalar=%d values=%d tail=%d",nb,nt,ns,v,tail)) continue;
        Tab t=synth(nb,nt,ns,v); std::string s=text(t,"\n",tail,(nb+nt+ns)%3); Tab r=parse(s); std::string p=put("s"+std::to_string(mc::shard),s); if(r.basic!=t.basic||r.times!=t.times||r.map!=t.map) mc::viol(0,"reference parser"); size_t b0=bytes();
        { MtpParam a(p); if(same(a,t,"constructor")){ MtpParam b; b._load(p); same(b,t,"_load"); } } if(bytes()!=b0) mc::viol(0,"memory is not released"); mc::step(2); mc::state_cur(); mc::validated(); }
    for(int nb:big)for(int nt:big)for(int ns:big){ if(!mc::begin("large basic=%d times=%d scalar=%d",nb,nt,ns)) continue; Tab t=synth(nb,nt,ns,0); std::string p=put("s"+std::to_string(mc::shard),text(t,"\n",1)); MtpParam a(p); same(a,t,"constructor"); mc::step(); mc::state_cur(); mc::validated(); } }
static void truncated(){ for(int nb=0;nb<=3;nb++)for(int nt=0;nt<=3;nt++)for(int ns=0;ns<=2;ns++){ Tab t=synth(nb,nt,ns,0); std::string s=text(t,"\n",1); size_t full=s.rfind('}');
        if(!mc::begin("truncated basic=%d times=%d scalar=%d, every prefix",nb,nt,ns)) continue; std::string name="t"+std::to_string(mc::shard); bool ok=true;
        for(size_t n=0;n<=s.size()&&ok;n++){ std::string p=put(name,s.substr(0,n)); size_t b0=bytes(); int how=0; try{ MtpParam a(p); how=1; ok=n>=full?same(a,t,"complete file"):true; if(n<full){ // what was accepted must be all that the file states
                    bool empty_tail=(ns==0&&n+4>=full); if(!empty_tail){ mc::viol(0,"a file cut off after %zu of %zu bytes was accepted",n,s.size()); ok=false; } } }catch(const MtpException&e){ how=2; if(n>full){ mc::viol(0,"a complete file (%zu bytes) was refused: %.80s",n,e.what()); ok=false; } if(!e.what()||!*e.what()){ mc::viol(0,"refused without a reason"); ok=false; } }
            if(ok&&bytes()!=b0){ mc::viol(0,"memory is not released (file cut off after %zu bytes, %s)",n,how==1?"accepted":"refused"); ok=false; } mc::step(); mc::H h; h.s(mc::cur).i(n); mc::state(h); }
        mc::validated(); }
    if(mc::begin("missing file")){ size_t b0=bytes(); bool thrown=false; try{ MtpParam a(dir+"/nowhere"); }catch(const MtpException&e){ thrown=std::string(e.what()).find("nowhere")!=std::string::npos; } if(!thrown) mc::viol(0,"a missing file is not refused by name"); if(bytes()!=b0) mc::viol(0,"memory is not released"); mc::state_cur(); mc::step(); }
    const char*K[]={"alpha_moments_count","alpha_index_basic_count","alpha_index_basic","alpha_index_times_count","alpha_index_times","alpha_scalar_moments","alpha_moment_mapping"};
    for(int k=0;k<7;k++)for(int how=0;how<5;how++){ if(!mc::begin("damaged line=%s how=%d",K[k],how)) continue; Tab t=synth(2,how>2?0:2,2,0); std::istringstream is(text(t,"\n",1)); std::string l,o; while(std::getline(is,l)){ if(l.rfind(std::string(K[k])+" ",0)==0){ if(how==0||how==3) l[0]='b'; if(how==1||how==4) continue; if(how==2){ size_t e=l.find(" = "); std::string v=l.substr(e+3); if(v[0]=='{'){ size_t c=v.rfind(','); v=v.substr(0,c+1)+" x}"; } else v="x"; l=l.substr(0,e+3)+v; } } o+=l+"\n"; }
        std::string p=put("d"+std::to_string(mc::shard),o); size_t b0=bytes(); try{ MtpParam a(p); mc::viol(0,"a file with a damaged line was accepted"); }catch(const MtpException&e){} if(bytes()!=b0) mc::viol(0,"memory is not released"); mc::step(); mc::state_cur(); mc::validated(); } }
struct Op{int k,a,b;};
static const int CF[4][3]={{2,3,2},{3,0,1},{1,2,0},{0,0,0}}; // the second has no products, the third no scalars
static std::vector<Tab> T; static std::vector<std::string> F; static std::string BAD;
static void hist(std::vector<Op>&pre,int depth,int slots){ const int NC=3;
    if(!pre.empty()){ std::string nm; char b[64]; const char*N[]={"load","reload","copy","move","assign","move-assign","drop","reload-cut-off"}; for(auto&o:pre){ snprintf(b,sizeof b," %s(%d,%d)",N[o.k],o.a,o.b); nm+=b; }
        if(mc::begin("history slots=%d%s",slots,nm.c_str())){ size_t b0=bytes(); mc::H h;
            { std::vector<std::unique_ptr<MtpParam>> S(slots); std::vector<int> m(slots,-1); Tab none; for(auto&s:S) s.reset(new MtpParam());
              for(auto&o:pre){ mc::step(); switch(o.k){
                case 0: S[o.a].reset(new MtpParam(F[o.b])); m[o.a]=o.b; break;
                case 1: S[o.a]->_load(F[o.b]); m[o.a]=o.b; break;
                case 2: S[o.a].reset(new MtpParam(*S[o.b])); m[o.a]=m[o.b]; break;
                case 3: S[o.a].reset(new MtpParam(std::move(*S[o.b]))); m[o.a]=m[o.b]; m[o.b]=-2; break;
                case 4: { MtpParam&r=(*S[o.a]=*S[o.b]); if(&r!=S[o.a].get()) mc::viol(0,"assignment does not return its target"); m[o.a]=m[o.b]; break; }
                case 5: { MtpParam&r=(*S[o.a]=std::move(*S[o.b])); if(&r!=S[o.a].get()) mc::viol(0,"move assignment does not return its target"); int t=m[o.b]; if(o.a!=o.b) m[o.b]=-2; m[o.a]=t; break; }
                case 6: S[o.a].reset(new MtpParam()); m[o.a]=-1; break;
                case 7: try{ S[o.a]->_load(BAD); mc::viol(0,"a file cut off was accepted"); }catch(const MtpException&){} m[o.a]=-2; break; } }
              for(int i=0;i<slots;i++){ h.i(m[i]); if(m[i]==-2) continue; snprintf(b,sizeof b,"slot %d",i); if(!same(*S[i],m[i]<0?none:T[m[i]],b)) break; for(int j=0;j<i;j++) if((S[i]->alpha_index_basic_count()&&S[i]->alpha_index_basic()==S[j]->alpha_index_basic())||(S[i]->alpha_index_times_count()&&S[i]->alpha_index_times()==S[j]->alpha_index_times())||(S[i]->alpha_scalar_moments()&&S[i]->alpha_moment_mapping()==S[j]->alpha_moment_mapping())) mc::viol(0,"slots %d and %d share a table",j,i); } }
            nm.clear(); nm.shrink_to_fit(); if(bytes()>b0) mc::viol(0,"memory is not released"); mc::state(h); mc::validated(); } }
    if((int)pre.size()==depth) return;
    std::vector<Op> A; for(int i=0;i<slots;i++){ for(int c=0;c<NC;c++){ A.push_back({0,i,c}); A.push_back({1,i,c}); } for(int j=0;j<slots;j++){ if(i!=j){ A.push_back({2,i,j}); A.push_back({3,i,j}); } A.push_back({4,i,j}); A.push_back({5,i,j}); } A.push_back({6,i,0}); A.push_back({7,i,0}); }
    for(auto&o:A){ if(pre.empty()&&o.a!=0&&slots>2) continue; pre.push_back(o); hist(pre,depth,slots); pre.pop_back(); } }
int main(int c,char**v){ mc::init(c,v); char t[]="mtpXXXXXX"; dir=mkdtemp(t); for(int i=0;i<4;i++){ T.push_back(synth(CF[i][0],CF[i][1],CF[i][2],i%3)); F.push_back(put("h"+std::to_string(i),text(T[i],"\n",1))); } { std::string s=text(synth(3,2,3,0),"\n",1); BAD=put("bad",s.substr(0,s.size()-5)); }
    { MtpParam warm(F[0]); }   // lets the stream library allocate what it keeps
    shipped(); synthetic(); truncated(); std::vector<Op> pre; hist(pre,mc::thorough?5:4,2); if(!mc::thorough) {} hist(pre,mc::thorough?4:3,3); return mc::done(); }
