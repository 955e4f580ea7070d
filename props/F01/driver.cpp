// Factory: what register_product, create, has_product and clean_up do to any register.
#include "vp.hpp"
#include <string>
#include <sstream>
#include <iostream>
#include <memory>
#include <typeinfo>
#include <map>
#define private public
#include <ekat_factory.hpp>
#undef private
struct Key { int v; bool operator<(const Key& o) const { return v<o.v; } bool operator==(const Key& o) const { return v==o.v; } };
static std::string operator+(const std::string& a, const Key&) { return a; }
static int keys_[3];
#ifndef VP_NATIVE
template<> int vp_key_index(const Key& k) { if (k.v==keys_[0]) return 0; if (k.v==keys_[1]) return 1; vp_check(k.v==keys_[2],"only the keys that are given are looked up"); return 2; }
#endif
struct P { int id; };
static P objs_[3]; static int calls_[3]; static int arg_; static const double* ref_;
using Fac=ekat::Factory<P,Key,P*,int,const double&>; using Cr=Fac::creator_type;
template<int I> P* cr(const int a, const double& x) { ++calls_[I]; arg_=a; ref_=&x; return &objs_[I]; }
static Cr pickc(int k) { return k==0 ? &cr<0> : k==1 ? &cr<1> : &cr<2>; }
static int others_; static bool in0_[3]; static int c0_[3];
#ifndef VP_NATIVE
template<class F> void begin_() { new (&F::m_factory_name) std::string(); }   // dynamic initialization of the static member
#else
template<class F> void begin_() {}
#endif
// any register: three keys of interest, whatever else it holds
static Fac& any() { for (int i=0;i<3;++i) { keys_[i]=(int)vp_inti("key",i,-2147483647l,2147483647l); calls_[i]=0; } vp_assume(keys_[0]!=keys_[1] && keys_[0]!=keys_[2] && keys_[1]!=keys_[2]);
  begin_<Fac>(); Fac& f=Fac::instance(); f.m_register.clear(); for (int i=0;i<3;++i) { in0_[i]=vp_inti("in",i,0,1)!=0; c0_[i]=(int)vp_inti("creator",i,0,2); f.m_register[Key{keys_[i]}]=pickc(c0_[i]); if (!in0_[i]) f.m_register.erase(Key{keys_[i]}); }
#ifndef VP_NATIVE
  f.m_register.others=vp_int("others",0,1l<<40);
#else
  others_=0; for (int i=0,n=(int)vp_int("others",0,5);i<n;++i) { int k=(int)vp_inti("other",i,-2147483647l,2147483647l); if (k!=keys_[0]&&k!=keys_[1]&&k!=keys_[2]) { f.m_register[Key{k}]=pickc(i%3); ++others_; } }
#endif
  return f; }
static bool empty(Fac& f) {
#ifndef VP_NATIVE
  return f.m_register.others==0 && !in0_[0] && !in0_[1] && !in0_[2];
#else
  return others_==0 && !in0_[0] && !in0_[1] && !in0_[2];
#endif
}
static void is(Fac& f, int i, bool in, int c) { vp_check(f.has_product(Key{keys_[i]})==in,"the key is registered exactly when it should be"); if (in) { auto p=f.m_register.find(Key{keys_[i]}); vp_check(p->second==pickc(c),"under the creator it was registered with"); } }
static void nocalls() { vp_check(calls_[0]+calls_[1]+calls_[2]==0,"no creator is called"); }
VP_HARNESS(registering) { Fac& f=any(); size_t n=f.register_size(); int c=(int)vp_int("new",0,2); bool rep=vp_int("replace",0,1)!=0; bool r=f.register_product(Key{keys_[0]},pickc(c),rep); vp_check(r==(!in0_[0]||rep),"registered exactly when the key is new or replacement was asked for"); is(f,0,true,r?c:c0_[0]); is(f,1,in0_[1],c0_[1]); is(f,2,in0_[2],c0_[2]); vp_check(f.register_size()==n+(in0_[0]?0:1),"one more product exactly when the key is new"); nocalls(); }
VP_HARNESS(registering_default) { Fac& f=any(); int c=(int)vp_int("new",0,2); bool r=f.register_product(Key{keys_[0]},pickc(c)); vp_check(r==!in0_[0],"an existing product is not replaced unless asked for"); is(f,0,true,r?c:c0_[0]); is(f,1,in0_[1],c0_[1]); nocalls(); }
VP_HARNESS(creating) { Fac& f=any(); size_t n=f.register_size(); int a=(int)vp_int("arg",-2147483647l,2147483647l); double x=vp_f64("x"); bool thrown=false; P* p=nullptr; try { p=f.create(Key{keys_[0]},std::move(a),x); } catch (std::runtime_error&) { thrown=true; }
  vp_check(thrown==!in0_[0],"throws exactly when the key is not registered"); if (thrown) nocalls(); else { vp_check(p==&objs_[c0_[0]],"the object of the creator of the key"); vp_check(calls_[c0_[0]]==1 && calls_[0]+calls_[1]+calls_[2]==1,"that creator is called once"); vp_check(arg_==a && ref_==&x,"with the arguments given"); }
  for (int i=0;i<3;++i) is(f,i,in0_[i],c0_[i]); vp_check(f.register_size()==n,"the register is kept"); }
VP_HARNESS(asking) { Fac& f=any(); const Fac& g=f; vp_check(g.has_product(Key{keys_[0]})==in0_[0],"has_product exactly when registered"); vp_check((g.register_size()==0)==empty(f),"the size counts the products"); for (int i=0;i<3;++i) is(f,i,in0_[i],c0_[i]); nocalls(); vp_check(&Fac::instance()==&f,"one factory"); is(f,0,in0_[0],c0_[0]); }
VP_HARNESS(cleaning) { Fac& f=any(); f.clean_up(); vp_check(f.register_size()==0,"empty"); for (int i=0;i<3;++i) is(f,i,false,0); int c=(int)vp_int("new",0,2); vp_check(f.register_product(Key{keys_[1]},pickc(c)),"registers again"); is(f,1,true,c); is(f,0,false,0); }
// two factories of different products do not share a register
struct Q { int id; }; using Fac2=ekat::Factory<Q,Key,Q*,int,const double&>; static Q qobj_; static Q* crq(const int, const double&) { return &qobj_; }
VP_HARNESS(separate) { Fac& f=any(); begin_<Fac2>(); Fac2& g=Fac2::instance(); g.m_register.clear(); g.register_product(Key{keys_[0]},&crq); for (int i=0;i<3;++i) is(f,i,in0_[i],c0_[i]); vp_check(!g.has_product(Key{keys_[1]}),"registers are separate"); }
