// C26: contraction schemes of the moment tensor potential for every maximum level.
#include "mc.hpp"
#include <memory>
#include <map>
#include <set>
#include <algorithm>
#include <cstdlib>
#include "descriptor/mtp/include/mtpLevel.h"
#include "descriptor/mtp/include/level.h"
using namespace matersdk::mtp;
typedef std::pair<int,int> Pr; typedef std::vector<Pr> Ms; typedef std::vector<std::vector<MtpMCoeffPair>> Cs;
static int lev(const Pr&p){ return 2+4*p.first+p.second; }
// every multiset of pairs with total level exactly L and every pair at least `lo`
static void rec(const Ms&ps,size_t i,int left,Ms&cur,std::vector<Ms>&out){ if(!left){ Ms c=cur; std::sort(c.begin(),c.end()); out.push_back(c); return; } for(size_t j=i;j<ps.size();j++) if(lev(ps[j])<=left){ cur.push_back(ps[j]); rec(ps,j,left-lev(ps[j]),cur,out); cur.pop_back(); } }
static std::vector<Ms> all(int L,int lo){ Ms ps; for(int m=0;2+4*m<=L;m++)for(int n=0;2+4*m+n<=L;n++) if(2+4*m+n>=lo) ps.push_back({m,n}); std::vector<Ms> o; Ms c; rec(ps,0,L,c,o); return o; }
static bool scalar(const Ms&c){ if(c.empty()) return false; int mx=0,sum=0; std::map<int,int> n; for(auto&p:c){ mx=std::max(mx,p.second); sum+=p.second; n[p.second]++; } if(c.size()==1) return c[0].second==0; if(sum-mx==mx) return true; for(auto&k:n) if(k.first&&k.second%2) return false; return true; }
static std::string show(const Ms&c){ std::string s="{"; for(auto&p:c) s+="("+std::to_string(p.first)+","+std::to_string(p.second)+")"; return s+"}"; }
static bool conv(const std::vector<MtpMCoeffPair>&v,Ms&o,int&L){ o.clear(); L=0; int last=1<<30; for(auto&p:v){ o.push_back(p.coeff_pair()); if(p.level()!=lev(p.coeff_pair())){ mc::viol(0,"level of (%d,%d) is %d",p.coeff_pair().first,p.coeff_pair().second,p.level()); return false; } L+=p.level(); if(p.coeff_pair().second>last){ mc::viol(0,"ranks are not in decreasing order"); return false; } last=p.coeff_pair().second; } std::sort(o.begin(),o.end()); return true; }
static std::vector<std::set<Ms>> REF; static void need(int L){ while((int)REF.size()<=L){ std::set<Ms> s; for(auto&m:all(REF.size(),0)) if(scalar(m)) s.insert(m); REF.push_back(s); } }
static bool same(const MtpMCoeffPairCombs&o,int L){ if(L<0){ if(o.size()||o.max_level()||o.coeff_pair_combs().size()){ mc::viol(0,"the empty object is not empty"); return false; } return true; }
    need(L); size_t n=0; for(int k=0;k<=L;k++) n+=REF[k].size(); if(o.max_level()!=L||(size_t)o.size()!=n||o.coeff_pair_combs().size()!=n){ mc::viol(0,"maximum level %d: %d schemes (size() %d) for level %d, expected %zu",L,(int)o.coeff_pair_combs().size(),o.size(),o.max_level(),n); return false; }
    std::set<Ms> seen; Ms m; int t; int mumax=-1; for(auto&c:o.coeff_pair_combs()){ if(!conv(c,m,t)) return false; if(!seen.insert(m).second){ mc::viol(0,"maximum level %d: scheme %s listed twice",L,show(m).c_str()); return false; } if(t>L||!REF[t].count(m)){ mc::viol(0,"maximum level %d: %s (level %d) is no scalar contraction within the level",L,show(m).c_str(),t); return false; } for(auto&p:m) mumax=std::max(mumax,p.first); }
    if(L>=2&&(o.nmus()!=mumax+1||o.nmus_check()!=mumax+1)){ mc::viol(0,"maximum level %d: %d radial functions reported (%d counted), expected %d",L,o.nmus(),o.nmus_check(),mumax+1); return false; } return true; }
static Cs mk(const std::vector<Ms>&v){ Cs o; for(auto m:v){ std::sort(m.begin(),m.end(),[](const Pr&a,const Pr&b){return a.second>b.second;}); std::vector<MtpMCoeffPair> r; for(auto&p:m) r.push_back(MtpMCoeffPair(p)); o.push_back(r); } return o; }
struct Op{int k,a,b;};
static const int LV[2]={6,9};
static void hist(std::vector<Op>&pre,int depth,int slots){
    if(!pre.empty()){ std::string nm; char b[48]; const char*N[]={"new","copy","assign","drop","build"}; for(auto&o:pre){ snprintf(b,sizeof b," %s(%d,%d)",N[o.k],o.a,o.b); nm+=b; }
        if(mc::begin("history%s",nm.c_str())){ std::vector<std::unique_ptr<MtpMCoeffPairCombs>> S(slots); std::vector<int> m(slots,-1); for(auto&s:S) s.reset(new MtpMCoeffPairCombs()); mc::H h;
            for(auto&o:pre){ mc::step(); switch(o.k){ case 0:S[o.a].reset(new MtpMCoeffPairCombs(LV[o.b]));m[o.a]=LV[o.b];break; case 1:S[o.a].reset(new MtpMCoeffPairCombs(*S[o.b]));m[o.a]=m[o.b];break; case 2:{ auto&r=(*S[o.a]=*S[o.b]); if(&r!=S[o.a].get()) mc::viol(0,"assignment does not return its target"); m[o.a]=m[o.b]; break;} case 3:S[o.a].reset(new MtpMCoeffPairCombs());m[o.a]=-1;break; case 4: S[o.a]->_build(); break; } }
            for(int i=0;i<slots;i++){ h.i(m[i]); if(!same(*S[i],m[i])) break; } mc::state(h); mc::validated(); } }
    if((int)pre.size()==depth) return; std::vector<Op> A; for(int i=0;i<slots;i++){ A.push_back({0,i,0});A.push_back({0,i,1});A.push_back({3,i,0});A.push_back({4,i,0}); for(int j=0;j<slots;j++){ A.push_back({2,i,j}); if(i!=j) A.push_back({1,i,j}); } } for(auto&o:A){ pre.push_back(o); hist(pre,depth,slots); pre.pop_back(); } }
// --- the older enumeration: ordered tuples of moments within a level, reduced to multisets, filtered, sorted by level
static void tup(const Ms&ps,int k,int left,Ms&cur,std::vector<Ms>&out){ if(!k){ out.push_back(cur); return; } for(auto&p:ps) if(lev(p)<=left){ cur.push_back(p); tup(ps,k-1,left-lev(p),cur,out); cur.pop_back(); } }
static std::vector<Ms> tuples(int k,int L,Ms pre=Ms()){ Ms ps; for(int m=0;2+4*m<=L;m++)for(int n=0;2+4*m+n<=L;n++) ps.push_back({m,n}); std::vector<Ms> o; int u=0; for(auto&p:pre) u+=lev(p); tup(ps,k,L-u,pre,o); return o; }
static bool even(const Ms&c){ std::map<int,int> n; for(auto&p:c) n[p.second]++; for(auto&k:n) if(k.first&&k.second%2) return false; return true; }
static std::vector<Ms> sorted(std::vector<Ms> v){ std::sort(v.begin(),v.end()); return v; }
static std::vector<Ms> keys(const std::vector<Ms>&v){ std::vector<Ms> o; for(auto m:v){ std::sort(m.begin(),m.end()); o.push_back(m); } return sorted(o); }
static bool diff(const char*w,const std::vector<Ms>&g,const std::vector<Ms>&e){ if(g==e) return false; std::set<Ms> G(g.begin(),g.end()),E(e.begin(),e.end()); if(G.size()!=g.size()) mc::viol(0,"%s: a combination is listed twice (%zu entries, %zu different)",w,g.size(),G.size()); for(auto&x:E) if(!G.count(x)){ mc::viol(0,"%s: %s is missing",w,show(x).c_str()); return true; } for(auto&x:G) if(!E.count(x)){ mc::viol(0,"%s: %s does not belong",w,show(x).c_str()); return true; } if(G.size()==g.size()) mc::viol(0,"%s: a combination is listed twice",w); return true; }
static int total(const Ms&c){ int t=0; for(auto&p:c) t+=lev(p); return t; }
static void older(){ int LM=mc::thorough?17:14;
    for(int L=0;L<=LM;L++) if(mc::begin("older: all tuples of level %d",L)){ MTPLevel o(L); mc::step(); if(o.get_max_num_M()!=L/2){ mc::viol(0,"level %d: %d moments at most, expected %d",L,o.get_max_num_M(),L/2); continue; } if(o.get_redundant_combinaions().size()) mc::viol(0,"a new object is not empty"); Ms e; o.calc_redundant_combinations(L,e); std::vector<Ms> w; for(int k=1;k<=L/2;k++){ auto t=tuples(k,L); w.insert(w.end(),t.begin(),t.end()); } auto g=o.get_redundant_combinaions(); if(diff("all tuples",sorted(g),sorted(w))) continue; mc::step(g.size());
        // reduced: each multiset once, those with even ranks only
        std::vector<Ms> k=keys(w); k.erase(std::unique(k.begin(),k.end()),k.end()); std::vector<Ms> f; for(auto&x:k) if(even(x)) f.push_back(x); Combinations c(g),n(g,false); if(n.get_num_combinations()!=(int)g.size()||n.get_combinations()!=g){ mc::viol(0,"unreduced combinations differ from what was given"); continue; } if(c.get_num_combinations()!=(int)c.get_combinations().size()){ mc::viol(0,"count"); continue; } if(diff("reduced combinations",keys(c.get_combinations()),f)) continue;
        { Combinations d(g,false); d.remove_duplicates(); if(diff("combinations without duplicates",keys(d.get_combinations()),k)) continue; d.remove_cannot_contract(); if(diff("then filtered",keys(d.get_combinations()),f)) continue; d.remove_duplicates(); d.remove_cannot_contract(); if(diff("reduced twice",keys(d.get_combinations()),f)) continue; Combinations h(g,false); h.remove_cannot_contract(); std::vector<Ms> hw; for(auto&x:g) if(even(x)) hw.push_back(x); if(h.get_combinations()!=hw){ mc::viol(0,"the filter keeps %d of %zu, expected %zu in the same order",h.get_num_combinations(),g.size(),hw.size()); continue; } }
        int N=c.get_num_combinations(); std::vector<int> ix(N); for(int i=0;i<N;i++) ix[i]=N-1-i; CombinationsSortBasis sb(c); auto cc=c.get_combinations(); bool ok=true; if(N<=60) for(int i=0;i<N&&ok;i++)for(int j=0;j<N&&ok;j++){ mc::step(); if(sb(i,j)!=(total(cc[i])<total(cc[j]))){ mc::viol(0,"order of %s and %s",show(cc[i]).c_str(),show(cc[j]).c_str()); ok=false; } } if(!ok) continue;
        std::stable_sort(ix.begin(),ix.end(),[&](int a,int b){ return total(cc[a])<total(cc[b]); }); auto a=CombinationsArrangement(c,ix.data()).arrange().get_combinations(); if((int)a.size()!=N){ mc::viol(0,"arrangement has %zu of %d combinations",a.size(),N); continue; } for(int i=0;i<N;i++) if(a[i]!=cc[ix[i]]){ mc::viol(0,"arranged combination %d is %s, expected %s",i,show(a[i]).c_str(),show(cc[ix[i]]).c_str()); break; }
        mc::state_cur(); mc::validated(g.size()); }
    for(int L=0;L<=LM;L++)for(int k=0;k<=L/2+1;k++)for(int p=0;p<3;p++){ Ms pre; if(p>=1) pre.push_back({0,1}); if(p==2) pre.push_back({1,0}); int u=total(pre); if(u>L) continue; if(!mc::begin("older: tuples of %d moments within level %d after %s",k,L,show(pre).c_str())) continue; MTPLevel o(L); o.calc_redundant_combination(k,L,u,pre); diff("tuples",sorted(o.get_redundant_combinaions()),sorted(tuples(k,L,pre))); mc::step(); mc::state_cur(); mc::validated(); }
    for(int L:{14,17,18,21,22,26,30,34})for(int k=1;k<=(mc::thorough&&L<=22?3:2);k++){ if(!mc::begin("older: tuples of %d moments within level %d",k,L)) continue; MTPLevel o(L); if(o.get_max_num_M()!=L/2) mc::viol(0,"level %d: %d moments at most",L,o.get_max_num_M()); Ms e; o.calc_redundant_combination(k,L,0,e); auto w=tuples(k,L); auto g=o.get_redundant_combinaions(); if(diff("tuples",sorted(g),sorted(w))) continue; std::vector<Ms> q=keys(w); q.erase(std::unique(q.begin(),q.end()),q.end()); std::vector<Ms> f; for(auto&x:q) if(even(x)) f.push_back(x); Combinations c(g); diff("reduced combinations",keys(c.get_combinations()),f); mc::step(g.size()); mc::state_cur(); mc::validated(g.size()); }
    // every permutation of up to 4 reduced combinations is arranged as asked
    std::vector<Ms> base{{{0,0}},{{0,1},{0,1}},{{0,2},{0,0},{0,2}},{{2,0}}}; for(int n=0;n<=4;n++){ std::vector<int> q(n); for(int i=0;i<n;i++) q[i]=i; do{ if(!mc::begin("older: arrangement %s",[&]{ std::string t; for(int x:q) t+=(char)('0'+x); return t; }().c_str())) continue; std::vector<Ms> in(base.begin(),base.begin()+n); Combinations c(in); if(c.get_combinations()!=in){ mc::viol(0,"reduced combinations are reduced again"); continue; } auto a=CombinationsArrangement(c,q.data()).arrange().get_combinations(); bool ok=(int)a.size()==n; for(int i=0;ok&&i<n;i++) ok=a[i]==in[q[i]]; if(!ok) mc::viol(0,"the arrangement does not follow the indices"); mc::step(); mc::state_cur(); mc::validated(); }while(std::next_permutation(q.begin(),q.end())); }
    if(mc::begin("older: levels")){ for(int m=0;m<20;m++)for(int n=0;n<40;n++){ mc::step(); if(Combinations::get_level(m,n)!=2+4*m+n){ mc::viol(0,"level of (%d,%d)",m,n); n=40; m=20; } } mc::state_cur(); mc::validated(); } }
int main(int c,char**v){ mc::init(c,v); older(); int LM=mc::thorough?44:34;
    for(int L=LM;L>=0;L--) if(mc::begin("schemes up to level %d",L)){ MtpMCoeffPairCombs o(L); mc::step(); if(same(o,L)){ for(int i=0;i<o.size();i++){ Ms a,b; int t; conv(o[i],a,t); conv(o.coeff_pair_combs()[i],b,t); if(a!=b){ mc::viol(0,"scheme %d by index differs",i); break; } mc::step(); mc::state(mc::H().s(show(a))); } } mc::validated(o.size()+1); }
    int LS=mc::thorough?28:20; for(int L=0;L<=LS;L++)for(int m=0;m<5;m++)for(int n=0;n<6;n++) if(mc::begin("schemes of level %d from (%d,%d)",L,m,n)){ auto e=all(L,2+4*m+n); std::set<Ms> E(e.begin(),e.end()),G; Ms x; int t; for(auto&q:MtpMCoeffPairCombs::get_all_schemes4lev(L,m,n)){ if(!conv(q,x,t)) break; if(t!=L){ mc::viol(0,"%s has level %d, not %d",show(x).c_str(),t,L); break; } G.insert(x); }
        mc::step(); if(G!=E){ for(auto&q:E) if(!G.count(q)){ mc::viol(0,"level %d from (%d,%d): %s is missing",L,m,n,show(q).c_str()); break; } for(auto&q:G) if(!E.count(q)){ mc::viol(0,"level %d from (%d,%d): %s does not belong",L,m,n,show(q).c_str()); break; } } mc::state_cur(); mc::validated(); }
    for(int L=0;L<=(mc::thorough?30:24);L++) if(mc::begin("contraction filter at level %d",L)){ auto e=all(L,0); auto g=MtpMCoeffPairCombs::get_contracted_combs(mk(e)); std::vector<Ms> w,h; for(auto&m:e) if(scalar(m)) w.push_back(m); Ms x; int t; for(auto&q:g){ conv(q,x,t); h.push_back(x); } mc::step(e.size()); if(w!=h) mc::viol(0,"level %d: the filter keeps %zu of %zu schemes, expected %zu",L,h.size(),e.size(),w.size()); mc::state_cur(); mc::validated(); }
    if(mc::begin("pairs")){ for(int m=0;m<12;m++)for(int n=0;n<24;n++){ MtpMCoeffPair a(m,n),b(Pr(m,n)),d(a),e,f; e=a; MtpMCoeffPair k(f); MtpMCoeffPair&r=(d=d); mc::step(4); for(auto*p:{&a,&b,&d,&e}) if(p->coeff_pair()!=Pr(m,n)||p->level()!=2+4*m+n) mc::viol(0,"pair (%d,%d) is (%d,%d) of level %d",m,n,p->coeff_pair().first,p->coeff_pair().second,p->level()); if(&r!=&d||k.level()!=f.level()) mc::viol(0,"copy of an empty pair"); CoeffPairSortFunction s; for(int q=0;q<24;q++) if(n!=q&&s(a,MtpMCoeffPair(1,q))!=(n>q)) mc::viol(0,"order of pairs"); } mc::state_cur(); mc::validated(); }
    std::vector<Op> pre; hist(pre,mc::thorough?4:3,2); 
    return mc::done(); }
