// The crystal alphabet shared by the C++ harnesses, and plain-vector geometry used as the oracle.
#pragma once
#include <array>
#include <vector>
#include <cmath>
#include <algorithm>
typedef std::array<double,3> V3;
typedef std::array<V3,3> M3;
static inline V3 operator+(const V3&a,const V3&b){return {a[0]+b[0],a[1]+b[1],a[2]+b[2]};}
static inline V3 operator-(const V3&a,const V3&b){return {a[0]-b[0],a[1]-b[1],a[2]-b[2]};}
static inline V3 operator*(double s,const V3&a){return {s*a[0],s*a[1],s*a[2]};}
static inline double dot3(const V3&a,const V3&b){return a[0]*b[0]+a[1]*b[1]+a[2]*b[2];}
static inline V3 cross3(const V3&a,const V3&b){return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]};}
static inline double len3(const V3&a){return std::sqrt(dot3(a,a));}
static inline V3 f2c(const M3&L,const V3&f){return f[0]*L[0]+f[1]*L[1]+f[2]*L[2];}
struct Crystal { M3 L; std::vector<int> z; std::vector<V3> f;
    int n() const { return (int)z.size(); }
    V3 cart(int i) const { return f2c(L,f[i]); } };
static const std::vector<std::pair<const char*,M3>> LATS = {
  {"cubic",   {{{3.0,0,0},{0,3.0,0},{0,0,3.0}}}},
  {"ortho",   {{{2.5,0,0},{0,3.5,0},{0,0,4.5}}}},
  {"hex",     {{{3.19,0,0},{-1.595,2.7626210,0},{0,0,6.0}}}},
  {"tri",     {{{3.1,0.4,-0.3},{0.7,2.9,0.5},{-0.6,0.8,3.7}}}},
  {"shear",   {{{3.0,0,0},{2.4,2.0,0},{0.3,1.1,3.3}}}},
  {"left",    {{{0,3.2,0.2},{2.8,0.1,0},{0.4,-0.3,4.1}}}},
  {"fcc",     {{{0,2.0,2.0},{2.0,0,2.0},{2.0,2.0,0}}}},
  {"flat",    {{{7.0,0.5,0},{-0.2,1.6,0.1},{0.3,0,5.2}}}},
};
static const std::vector<std::pair<std::vector<int>,std::vector<V3>>> MOTIFS = {
  {{6},       {{0,0,0}}},
  {{14,8},    {{0.125,0.25,0.0625},{0.5625,0.75,0.625}}},
  {{42,16,16},{{0.3125,0.0625,0.5},{0.6875,0.375,0.71875},{0.1875,0.8125,0.28125}}},
  {{8,1,1},   {{0,0,0},{0.90625,0.03125,0.96875},{0.25,0.21875,0.0}}},
  {{3,3},     {{0.4375,0.4375,0.4375},{0.53125,0.53125,0.53125}}},
  {{29,8,29,8},{{0,0,0},{0.5,0.5,0},{0.5,0,0.5},{0,0.5,0.5}}},
};
// larger cells: a jittered grid of atoms, positions exact in binary, four elements in an irregular order
static inline int nlarge(){ return 3; }
static inline const char* largename(int w){ const char*n[]={"wide36","long40","slab27"}; return n[w]; }
static inline Crystal large(int w){
    static const M3 L[]={ {{{9.3,0.5,-0.8},{1.1,8.4,0.7},{-0.9,1.3,10.2}}}, {{{2.9,0,0},{0.4,3.1,0},{0.2,-0.5,52.0}}}, {{{-7.1,0.3,0},{0.2,0.4,30.5},{0.6,8.9,1.1}}} };
    static const int G[][3]={{3,4,3},{1,1,40},{3,3,3}}; static const int Z[]={14,8,3,8,42,14,16};
    Crystal k; k.L=L[w]; int q=0;
    for(int a=0;a<G[w][0];a++)for(int b=0;b<G[w][1];b++)for(int c=0;c<G[w][2];c++,q++){
        int j[3]={(q*37+11)%29,(q*53+7)%31,(q*71+3)%23}; int g[3]={a,b,c}; V3 f;
        for(int d=0;d<3;d++) f[d]=std::floor(1024.0*(g[d]+0.1+j[d]/64.0)/G[w][d])/1024.0;
        k.f.push_back(f); k.z.push_back(Z[(q*q+q/3)%7]); }
    return k; }
static inline Crystal crystal(int lat,int mot){ return Crystal{LATS[lat].second,MOTIFS[mot].first,MOTIFS[mot].second}; }
