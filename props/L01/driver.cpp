// ParameterList: what each operation does to an arbitrary list, seen at two arbitrary names.
#ifndef VP_MAP_KEYS
#define VP_MAP_KEYS 2
#endif
#include "vp.hpp"
#include <string>
#include <sstream>
#include <iostream>
#include <typeinfo>
#include <vector>
#include <any>
#include <map>
#include <ekat_parameter_list.hpp>
using PL=ekat::ParameterList;
static char name_[2];
#ifndef VP_NATIVE
template<> int vp_key_index(const std::string& k) { if (k.size()==1 && k[0]==name_[0]) return 0; vp_check(k.size()==1 && k[0]==name_[1],"only the names that are given are looked up"); return 1; }
#endif
enum T { ABSENT, INT, DOUBLE, BOOL };
struct St { T t[2]; int i[2]; double d[2]; bool b[2]; bool s[2]; int si[2]; };
static std::string nm(int k) { return std::string(1,name_[k]); }
static void names() { for (int k=0;k<2;++k) name_[k]=(char)vp_inti("name",k,33,126); vp_assume(name_[0]!=name_[1]); }
static int V_, W_;   // the types under the two names, of the first and of the second list
// any list: parameters of any of three types and sublists under the two names
static St any(PL& p, const char* tag, int v=V_) { St s; for (int k=0;k<2;++k) { s.t[k]=(T)(k==0 ? v&3 : (v>>2)&3); s.i[k]=(int)vp_inti(tag,10*k+1,-2147483647l,2147483647l); s.d[k]=vp_real(tag,10*k+2); s.b[k]=vp_inti(tag,10*k+3,0,1)!=0; s.s[k]=((v>>(4+k))&1)!=0; s.si[k]=(int)vp_inti(tag,10*k+5,-2147483647l,2147483647l);
    if (s.t[k]==INT) p.set<int>(nm(k),s.i[k]); else if (s.t[k]==DOUBLE) p.set<double>(nm(k),s.d[k]); else if (s.t[k]==BOOL) p.set<bool>(nm(k),s.b[k]);
    if (s.s[k]) p.sublist(nm(k)).set<int>(nm(1),s.si[k]); } return s; }
static void is(const PL& p, const St& s, int k) { vp_check(p.isParameter(nm(k))==(s.t[k]!=ABSENT),"the parameter is there exactly when it was set"); if (s.t[k]!=ABSENT) { vp_check(p.isType<int>(nm(k))==(s.t[k]==INT) && p.isType<double>(nm(k))==(s.t[k]==DOUBLE) && p.isType<bool>(nm(k))==(s.t[k]==BOOL),"of the type it was set with");
    if (s.t[k]==INT) vp_check(p.get<int>(nm(k))==s.i[k],"with the value it was set to"); if (s.t[k]==DOUBLE) vp_check(vp_same(p.get<double>(nm(k)),s.d[k]),"with the value it was set to"); if (s.t[k]==BOOL) vp_check(p.get<bool>(nm(k))==s.b[k],"with the value it was set to"); } }
static void subs(const PL& p, const St& s, int k) { vp_check(p.isSublist(nm(k))==s.s[k],"the sublist is there exactly when it was made"); }
template<class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static bool named(const PL& p, char c) { return p.name().size()==1 && p.name()[0]==c; }
static void e_set_int() { names(); PL p("x"); St s=any(p,"s"); int v=(int)vp_int("v",-2147483647l,2147483647l); p.set<int>(nm(0),v); s.t[0]=INT; s.i[0]=v; for (int k=0;k<2;++k) { is(p,s,k); subs(p,s,k); } }
static void e_set_double() { names(); PL p("x"); St s=any(p,"s"); double v=vp_real("v"); p.set<double>(nm(0),v); s.t[0]=DOUBLE; s.d[0]=v; for (int k=0;k<2;++k) { is(p,s,k); subs(p,s,k); } }
static void e_get_int() { names(); PL p("x"); St s=any(p,"s"); int v=7; bool t=throws([&]{ v=p.get<int>(nm(0)); }); vp_check(t==(s.t[0]!=INT),"throws exactly when absent or of another type"); if (!t) vp_check(v==s.i[0],"the stored value"); for (int k=0;k<2;++k) { is(p,s,k); subs(p,s,k); } }
static void e_get_const() { names(); PL p("x"); St s=any(p,"s"); const PL& q=p; double v=7; bool t=throws([&]{ v=q.get<double>(nm(0)); }); vp_check(t==(s.t[0]!=DOUBLE),"throws exactly when absent or of another type"); if (!t) vp_check(vp_same(v,s.d[0]),"the stored value"); }
static void e_get_default() { names(); PL p("x"); St s=any(p,"s"); int d=(int)vp_int("d",-2147483647l,2147483647l), v=7; bool t=throws([&]{ v=p.get<int>(nm(0),d); }); vp_check(t==(s.t[0]!=INT && s.t[0]!=ABSENT),"throws exactly when of another type"); if (!t) vp_check(v==(s.t[0]==INT?s.i[0]:d),"the stored value, or the default"); if (s.t[0]==ABSENT) { s.t[0]=INT; s.i[0]=d; } for (int k=0;k<2;++k) { is(p,s,k); subs(p,s,k); } }
static void e_get_ref() { names(); PL p("x"); St s=any(p,"s"); vp_assume(s.t[0]==INT); int& r=p.get<int>(nm(0)); int v=(int)vp_int("v",-2147483647l,2147483647l); r=v; s.i[0]=v; for (int k=0;k<2;++k) is(p,s,k); }
static void e_is_type() { names(); PL p("x"); St s=any(p,"s"); bool r=false; bool t=throws([&]{ r=p.isType<bool>(nm(0)); }); vp_check(t==(s.t[0]==ABSENT),"throws exactly when absent"); if (!t) vp_check(r==(s.t[0]==BOOL),"the type it was set with"); }
static void e_sublist() { names(); PL p("x"); St s=any(p,"s"); PL& q=p.sublist(nm(0)); vp_check(q.isParameter(nm(1))==s.s[0],"an existing sublist is returned, a new one is empty"); if (s.s[0]) vp_check(q.get<int>(nm(1))==s.si[0],"with its contents"); vp_check(named(q,name_[0]),"under its name"); vp_check(&p.sublist(nm(0))==&q,"the same sublist again"); s.s[0]=true; for (int k=0;k<2;++k) { is(p,s,k); subs(p,s,k); } }
static void e_sublist_const() { names(); PL p("x"); St s=any(p,"s"); const PL& c=p; bool t=throws([&]{ c.sublist(nm(0)); }); vp_check(t==!s.s[0],"throws exactly when absent"); for (int k=0;k<2;++k) subs(p,s,k); }
static void e_copy() { names(); PL p("x"); St s=any(p,"s"); PL q(p); vp_check(named(q,'x') && named(p,'x'),"the name of the list"); p.rename("z"); vp_check(named(p,'z') && named(q,'x'),"the name it was given"); for (int k=0;k<2;++k) { is(q,s,k); subs(q,s,k); } q.set<int>(nm(0),5); for (int k=0;k<2;++k) is(p,s,k); }
static void e_import() { names(); PL p("x"), q("y"); St s=any(p,"s"), t=any(q,"t",W_); p.import(q); vp_check(named(p,'x') && named(q,'y'),"the names of the lists"); for (int k=0;k<2;++k) { is(p,t.t[k]!=ABSENT?t:s,k); vp_check(p.isSublist(nm(k))==(s.s[k]||t.s[k]),"sublists of both"); is(q,t,k); subs(q,t,k); } }
static void e_assign() { names(); PL p("x"), q("y"); St s=any(p,"s"); q=p; vp_check(named(q,'x') && named(p,'x'),"the name of the list"); for (int k=0;k<2;++k) { is(q,s,k); subs(q,s,k); } q.set<double>(nm(0),5); for (int k=0;k<2;++k) { is(p,s,k); subs(p,s,k); } PL& r=(p=p); vp_check(&r==&p,"the list itself"); for (int k=0;k<2;++k) { is(p,s,k); subs(p,s,k); } }
static void e_get_bool() { names(); PL p("x"); St s=any(p,"s"); bool v=true; bool t=throws([&]{ v=p.get<bool>(nm(0)); }); vp_check(t==(s.t[0]!=BOOL),"throws exactly when absent or of another type"); if (!t) vp_check(v==s.b[0],"the stored value"); bool d=vp_int("d",0,1)!=0; t=throws([&]{ v=p.get<bool>(nm(1),d); }); vp_check(t==(s.t[1]!=BOOL && s.t[1]!=ABSENT),"throws exactly when of another type"); if (!t) vp_check(v==(s.t[1]==BOOL?s.b[1]:d),"the stored value, or the default"); for (int k=0;k<2;++k) subs(p,s,k); is(p,s,0); }
static void e_strings() { names(); PL p("x"); St s=any(p,"s"); std::string v(1,(char)vp_int("c",33,126)); p.set<std::string>(nm(0),v); vp_check(p.get<std::string>(nm(0))[0]==v[0] && p.get<std::string>(nm(0)).size()==1,"the stored text"); vp_check(p.isType<std::string>(nm(0)) && !p.isType<int>(nm(0)),"of the type it was set with"); vp_check(throws([&]{ p.get<double>(nm(0)); }),"throws when of another type"); is(p,s,1); PL q(p); vp_check(q.get<std::string>(nm(0))[0]==v[0],"the stored text"); p.get<std::string>(nm(0))[0]='!'; vp_check(q.get<std::string>(nm(0))[0]==v[0],"the copy is independent"); for (int k=0;k<2;++k) { subs(p,s,k); subs(q,s,k); } }
static void e_empty_seq() { names(); PL p("x"); St s=any(p,"s"); p.set(nm(0),PL::EmptySeq()); const PL& c=p; vp_check(c.get<std::vector<int>>(nm(0)).size()==0 && c.get<std::vector<double>>(nm(0)).size()==0,"an empty sequence reads as an empty vector of any type"); vp_check(p.isType<PL::EmptySeq>(nm(0)),"reading a constant list does not change it"); vp_check(throws([&]{ p.get<int>(nm(0)); }),"but not as a number"); vp_check(p.get<std::vector<int>>(nm(0)).size()==0,"an empty sequence reads as an empty vector"); vp_check(throws([&]{ p.get<std::vector<double>>(nm(0)); }),"whose type is then settled"); is(p,s,1); for (int k=0;k<2;++k) subs(p,s,k); }
static void e_listing() { names(); vp_assume(name_[0]<name_[1]); PL p("x"); St s=any(p,"s"); auto a=p.param_names(); size_t n=(s.t[0]!=ABSENT)+(s.t[1]!=ABSENT); vp_check(a.size()==n,"every parameter is listed once"); size_t j=0; for (int k=0;k<2;++k) if (s.t[k]!=ABSENT) { vp_check(a[j].size()==1 && a[j][0]==name_[k],"by its name"); ++j; } auto b=p.sublist_names(); n=s.s[0]+s.s[1]; vp_check(b.size()==n,"every sublist is listed once"); j=0; for (int k=0;k<2;++k) if (s.s[k]) { vp_check(b[j].size()==1 && b[j][0]==name_[k],"by its name"); ++j; } }
#define E1(N,V) VP_HARNESS(N##_##V) { V_=V; W_=0; e_##N(); }
#define E2(N,V,W) VP_HARNESS(N##_##V##_##W) { V_=V; W_=W; e_##N(); }
#define ALL(M,N) M(N,0) M(N,3) M(N,6) M(N,7) M(N,9) M(N,10) M(N,12) M(N,13) M(N,17) M(N,18) M(N,20) M(N,21) M(N,24) M(N,27) M(N,30) M(N,31) M(N,33) M(N,34) M(N,36) M(N,37) M(N,40) M(N,43) M(N,46) M(N,47) M(N,48) M(N,51) M(N,54) M(N,55) M(N,57) M(N,58) M(N,60) M(N,61)
ALL(E1,set_int) ALL(E1,set_double) ALL(E1,get_int) ALL(E1,get_const) ALL(E1,get_default) ALL(E1,get_ref) ALL(E1,is_type) ALL(E1,sublist) ALL(E1,sublist_const) ALL(E1,copy) ALL(E1,assign) ALL(E1,get_bool) ALL(E1,strings) ALL(E1,empty_seq) ALL(E1,listing)
#define E(N,V) E2(N,V,0) E2(N,V,21) E2(N,V,34) E2(N,V,56)
E(import,0) E(import,6) E(import,9) E(import,12) E(import,17) E(import,20) E(import,24) E(import,30) E(import,33) E(import,36) E(import,40) E(import,46) E(import,48) E(import,54) E(import,57) E(import,60)
#include <ekat_parameter_list.cpp>
