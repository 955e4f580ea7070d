// Replay of C01 cases against the real header, with an independent 128-bit oracle.
#include "ekat_rational_constant.hpp"
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <random>
#include <chrono>
#include <string>
using R = ekat::RationalConstant; using L = long long; using H = __int128;
static const H MAXV = ((H)1<<63)-1;
static H habs(H x){ return x<0?-x:x; }
static H hgcd(H a,H b){ while(b){ H t=a%b; a=b; b=t;} return a; }
static bool fits(H x){ return x>=-MAXV && x<=MAXV; }
static std::string why;
static bool canon_ok(const R& r){ if(r.den<1){ why="denominator not positive"; return false;} if(hgcd(habs(r.num),r.den)!=1){ why="not in lowest terms"; return false;} return true; }
static std::string S(L x){ return std::to_string(x); }
// returns 0 ok, 1 violation, 2 precondition not met
int one(const std::string& op, L an, L ad, L bn, L bd){
  why.clear();
  if(op=="ctor"){ 
    if(an==-MAXV-1||ad==-MAXV-1) return 2;
    try { R r(an,ad); if(ad==0){why="0 denominator accepted"; return 1;} if(!canon_ok(r)) return 1; if((H)r.num*ad!=(H)an*r.den){ why="value "+S(r.num)+"/"+S(r.den); return 1;} }
    catch(std::exception& e){ if(ad!=0){why=e.what(); return 1;} }
    if(an==(int)an&&ad==(int)ad&&an!=-2147483648LL&&ad!=-2147483648LL&&ad!=0){ R r((int)an,(int)ad); if(!canon_ok(r)) return 1; if((H)r.num*ad!=(H)an*r.den){ why="int ctor"; return 1; } }
    if(ad==1){ R r(an); if(r.num!=an||r.den!=1){why="one-arg ctor";return 1;} }
    return 0; }
  // operands must be canonical
  if(ad<1||hgcd(habs(an),ad)!=1||an<-MAXV) return 2;
  auto mk=[](L n,L d){ R r=R::one(); r.num=n; r.den=d; return r; };
  R a=mk(an,ad);
  if(op.substr(0,3)=="pow"){
    L p=bn; L ap=p<0?-p:p; H xn=1,xd=1; bool ok=true;
    if(ap>200 && !(habs(an)<=1 && ad==1)) return 2;
    if(ap>100000) return 2;
    for(L i=0;i<ap&&ok;++i){ xn*=an; xd*=ad; ok=fits(xn)&&fits(xd);} if(!ok) return 2;
    bool bad=(an==0&&p<=0);
    for(int k=0;k<2;++k) try { if(k==0 && p!=(int)p) continue; R r = k==0? pow(a,(int)p) : pow(a,p); if(bad){why="0^p accepted";return 1;}
      if(!canon_ok(r)) return 1; H N=p<0?xd:xn, D=p<0?xn:xd; if((H)r.num*D!=N*(H)r.den){why="value "+S(r.num)+"/"+S(r.den);return 1;} }
    catch(std::exception& e){ if(!bad){why=e.what();return 1;} }
    return 0; }
  if(op=="neg"){ R r=-a; if(!canon_ok(r)) return 1; if(r.num!=-an||r.den!=ad){why="value";return 1;} return 0; }
  if(bd<1||hgcd(habs(bn),bd)!=1||bn<-MAXV) return 2;
  R b=mk(bn,bd); H N,D;
  if(op=="eq"||op=="ne"){ if(!fits((H)an*bd)||!fits((H)ad*bn)) return 2; bool e=(an==bn&&ad==bd); if((a==b)!=e||(a!=b)==e){why="comparison";return 1;} return 0; }
  if(op=="add"||op=="sub"){ H x=(H)an*bd,y=(H)ad*bn; if(op=="sub") N=x-y; else N=x+y; D=(H)ad*bd; if(!fits(x)||!fits(y)) return 2; }
  else if(op=="mul"){ N=(H)an*bn; D=(H)ad*bd; } else if(op=="div"){ N=(H)an*bd; D=(H)ad*bn; } else return 2;
  if(!fits(N)||!fits(D)) return 2;
  try { R r = op=="add"?a+b: op=="sub"?a-b: op=="mul"?a*b: a/b; if(D==0){why="division by zero accepted";return 1;} if(!canon_ok(r)) return 1; if((H)r.num*D!=N*(H)r.den){why="value "+S(r.num)+"/"+S(r.den);return 1;} }
  catch(std::exception& e){ if(D!=0){why=e.what();return 1;} }
  return 0;
}
int main(int argc,char**argv){
  std::string mode=argv[1];
  const char* ops[]={"ctor","neg","add","sub","mul","div","eq","ne","pow"};
  if(mode=="case"){ int r=one(argv[2],atoll(argv[3]),atoll(argv[4]),argc>5?atoll(argv[5]):1,argc>6?atoll(argv[6]):1);
    if(r==1) std::cout<<"FAIL "<<argv[2]<<" "<<argv[3]<<"/"<<argv[4]<<" "<<(argc>5?argv[5]:"")<<" "<<(argc>6?argv[6]:"")<<": "<<why<<"\n"; return r==1; }
  double secs=atof(argv[2]); std::mt19937_64 g(atoll(argv[3])); long n=0; auto t0=std::chrono::steady_clock::now();
  auto chk=[&](const char* op,L a,L b,L c,L d){ int r=one(op,a,b,c,d); if(r!=2) ++n; if(r==1){ std::cout<<"FAIL "<<op<<" "<<a<<" "<<b<<" "<<c<<" "<<d<<": "<<why<<std::endl; exit(1);} };
  for(auto op:ops) for(L a=-6;a<=6;++a) for(L b=-4;b<=4;++b) for(L c=-6;c<=6;++c) for(L d=(op[0]=='c'||op[0]=='p')?1:-1;d<=((op[0]=='c'||op[0]=='p'||op[0]=='n')?1:4);++d) { chk(op,a,b,c,d); }
  while(std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()<secs) for(int k=0;k<2000;++k){
    const char* op=ops[g()%9]; int sh=1+g()%62, sh2=1+g()%62; auto rnd=[&](int s){ L v=(L)(g()>>(64-s)); return (g()&1)?v:-v; };
    L a=rnd(sh),b=rnd(sh2),c=rnd(1+g()%62),d=rnd(1+g()%31);
    if((op[0]=='e'||op[0]=='n'&&op[1]=='e'&&op[2]==0) && (g()&1)) { c=a+(L)(g()%5)-2; d=b+(g()%3==0?(L)(g()%5)-2:0); if(g()%3==0){ b=1; d=1; } }
    if(op[0]=='p') c=(L)(g()%90)-45;
    if(op[0]!='c'){ if(b<0)b=-b; if(!b)b=1; if(d<0)d=-d; if(!d)d=1; H q=hgcd(habs(a),b); a/=(L)q; b/=(L)q; if(op[0]!='p'){ q=hgcd(habs(c),d); c/=(L)q; d/=(L)q; } }
    chk(op,a,b,c,d); }
  std::cout<<"CASES "<<n<<std::endl; return 0; }
