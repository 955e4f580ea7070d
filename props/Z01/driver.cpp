// zip iterators, container utilities and key iterators.
#ifndef VP_MAP_KEYS
#define VP_MAP_KEYS 3
#endif
#include "vp.hpp"
#include <map>
#include <tuple>
#include <vector>
#include <iterator>
#include <algorithm>
#include <string>
#include <set>
#include <ostream>
static const long N=1l<<28;
// a container of any length; finding and counting by the contract of the standard library
struct It { int* p; long i; using iterator_category=std::forward_iterator_tag; using value_type=int; using difference_type=long; using pointer=int*; using reference=int&;
  int& operator*() const { return p[i]; } It& operator++() { ++i; return *this; } It operator++(int) { It r=*this; ++i; return r; } bool operator==(const It& o) const { return i==o.i; } bool operator!=(const It& o) const { return i!=o.i; } };
static long first_, count_, n_; static int value_; static int* base_;
namespace std { inline It find(It b, It e, const int& v) { vp_check(b.p==base_ && e.p==base_ && b.i==0 && e.i==n_,"searches the whole container"); vp_check(v==value_,"for the value"); return It{b.p,first_}; }
  inline long count(It b, It e, const int& v) { vp_check(b.p==base_ && e.p==base_ && b.i==0 && e.i==n_,"counts in the whole container"); vp_check(v==value_,"the value"); return count_; } }
#include <ekat_std_utils.hpp>
#include <ekat_zip.hpp>
#include <ekat_std_map_key_iterator.hpp>
struct Con { int* p; long n; long erased=0, at=-1; It begin() const { return It{p,0}; } It end() const { return It{p,n}; } size_t size() const { return n; } bool empty() const { return n==0; } It erase(It i) { ++erased; at=i.i; return i; } It erase(It a, It b) { erased+=b.i-a.i; at=a.i; return a; } };
template<class T> struct Seq { T* p; long n; T* begin() { return p; } T* end() { return p+n; } const T* begin() const { return p; } const T* end() const { return p+n; } const T* cbegin() const { return p; } const T* cend() const { return p+n; } size_t size() const { return n; } bool empty() const { return n==0; } };
template<class F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static Con con() { Con c; c.n=n_=vp_size("n",0,N,6); c.p=base_=(int*)vp_arr("c",n_,2); value_=(int)vp_int("v",-2147483647l,2147483647l); first_=vp_int("first",0,n_); count_=vp_int("count",0,n_); if (first_<n_) base_[first_]=value_; return c; }
VP_HARNESS(find) { Con c=con(); int v=value_; vp_check(ekat::find(c,v).i==first_ && ekat::find(c,v).p==c.p,"the first occurrence, or the end"); vp_check(ekat::find(c,(int)value_).i==first_,"the first occurrence, or the end"); }
VP_HARNESS(contains) { Con c=con(); vp_check(ekat::contains(c,value_)==(first_<n_),"whether the value occurs"); }
VP_HARNESS(erase) { Con c=con(); bool r=ekat::erase(c,value_); vp_check(r==(first_<n_),"whether the value occurred"); vp_check(c.erased==(r?1:0),"one element is erased exactly when the value occurred"); if (r) vp_check(c.at==first_,"the first occurrence"); }
VP_HARNESS(count) { Con c=con(); vp_check(ekat::count(c,value_)==count_,"the number of occurrences"); }
using D=Seq<double>; using I=Seq<int>;
static D dseq(const char* nm, long n) { return D{(double*)vp_arr(nm,n,0),n}; }
static I iseq(const char* nm, long n) { return I{(int*)vp_arr(nm,n,2),n}; }
VP_HARNESS(zip_sizes) { long n=vp_size("n",0,N,6), m=vp_size("m",0,N,6), k=vp_size("k",0,N,6); I a=iseq("a",n); D b=dseq("b",m); const D c=dseq("c",k);
  vp_check(throws([&]{ ekat::zip(a,b,c); })==!(n==m && n==k),"throws exactly when the sizes differ"); vp_check(throws([&]{ ekat::zip(b,a); })==(n!=m),"throws exactly when the sizes differ"); vp_check(!throws([&]{ ekat::zip(a); }),"one container is fine"); }
template<class Z, class R> void ends(Z& z, const I& a, const D& b, const D& c, long n) { auto p=z.begin(), q=z.end(); vp_check((p!=q)==(n>0),"there is something to visit exactly when the containers are not empty"); vp_check((z.cbegin()!=z.cend())==(n>0),"there is something to visit exactly when the containers are not empty");
  if (n>0) { auto t=*p; vp_check(&std::get<0>(t)==a.p && &std::get<1>(t)==b.p && &std::get<2>(t)==c.p,"starts with the first elements"); auto u=*z.cbegin(); vp_check(&std::get<0>(u)==a.p && &std::get<1>(u)==b.p && &std::get<2>(u)==c.p,"starts with the first elements"); } 
  for (long s=0;s<2 && s<n;++s) ++p; vp_check((p!=q)==(n>2),"ends after as many steps as there are elements"); }
VP_HARNESS(zip_ends) { long n=vp_size("n",0,N,6); I a=iseq("a",n); D b=dseq("b",n); const D c=dseq("c",n); auto z=ekat::zip(a,b,c); ends<decltype(z),int>(z,a,b,c,n); }
using T3=std::tuple<int*,double*,const double*>;
static T3 at(I& a, D& b, const D& c, long i) { return T3(a.p+i,b.p+i,c.p+i); }
VP_HARNESS(zip_step) { long n=vp_size("n",1,N,6); I a=iseq("a",n); D b=dseq("b",n); const D c=dseq("c",n); long i=vp_int("i",0,n-1), j=vp_int("j",0,n);
  auto z=ekat::zip(a,b,c); static_assert(std::is_same<decltype(z.begin()),ekat::ZipIterator<T3>>::value,""); ekat::ZipIterator<T3> it(at(a,b,c,i)), jt(at(a,b,c,j));
  vp_check(it!=z.end(),"a position before the end is not the end"); vp_check((it!=jt)==(i!=j),"different exactly at different positions");
  auto t=*it; vp_check(&std::get<0>(t)==a.p+i && &std::get<1>(t)==b.p+i && &std::get<2>(t)==c.p+i,"the elements at the position");
  static_assert(std::is_same<decltype(t),std::tuple<int&,double&,const double&>>::value,"");
  auto& r=++it; vp_check(&r==&it,"the iterator itself"); ekat::ZipIterator<T3> next(at(a,b,c,i+1)); vp_check(!(it!=next),"moves to the next position in every container"); vp_check((it!=z.end())==(i+1<n),"and reaches the end exactly after the last"); }
VP_HARNESS(zip_write) { long n=vp_size("n",1,N,6); I a=iseq("a",n); D b=dseq("b",n); long i=vp_int("i",0,n-1), j=vp_int("j",0,n-1); int aj=a.p[j]; double bj=b.p[j], bi=b.p[i]; int v=(int)vp_int("v",-1000,1000);
  ekat::ZipIterator<std::tuple<int*,double*>> it(std::tuple<int*,double*>(a.p+i,b.p+i)); auto [x,y]=*it; x=v; vp_check(vp_same(y,bi),"reads the element"); y=vp_real("w"); vp_check(a.p[i]==v && vp_same(b.p[i],vp_real("w")),"writes the elements"); if (j!=i) vp_check(a.p[j]==aj && vp_same(b.p[j],bj),"and no others"); }
template<long M> void loops() { I a=iseq("a",M); D b=dseq("b",M); long k=0; for (auto [x,y] : ekat::zip(a,b)) { vp_check(k<M && &x==a.p+k && &y==b.p+k,"the positions in order"); ++k; } vp_check(k==M,"every position once"); }
VP_HARNESS(zip_loop) { loops<0>(); loops<1>(); loops<2>(); loops<5>(); int u[3]={1,2,3}; double w[3]={4,5,6}; int k=0; for (auto [x,y] : ekat::zip(u,w)) { vp_check(&x==&u[k] && &y==&w[k],"arrays"); ++k; } vp_check(k==3,"every position once"); }
VP_HARNESS(zip_vector) { std::vector<int> u; std::vector<double> w; for (int i=0;i<3;++i) { u.push_back((int)vp_inti("u",i,-9,9)); w.push_back(vp_real("w",i)); } int k=0; for (auto [x,y] : ekat::zip(u,w)) { vp_check(&x==&u[k] && &y==&w[k],"vectors"); y=x; ++k; } vp_check(k==3,"every position once"); for (k=0;k<3;++k) vp_check(vp_same(w[k],(double)u[k]),"writes through"); u.pop_back(); vp_check(throws([&]{ ekat::zip(u,w); }),"throws when the sizes differ"); }
// ---------------------------------------------------------------- keys
static int key_[VP_MAP_KEYS];
#ifndef VP_NATIVE
template<> int vp_key_index(const int& k) { for (int i=0;i<VP_MAP_KEYS;++i) if (k==key_[i]) return i; vp_check(false,"only keys of the map are looked up"); return 0; }
#endif
template<class KI, class M> void walk(M& m, bool* in) { KI it(m.begin()), e(m.end()); KI prev=it; bool have=false; for (int k=0;k<VP_MAP_KEYS;++k) if (in[k]) { vp_check(it!=e && !(it==e),"not at the end while keys are left"); vp_check(*it==key_[k] && &*it==&m.find(key_[k])->first,"the keys in order"); vp_check(it.operator->()==&*it,"the key"); if (have) { KI b=it; KI& r=--b; vp_check(&r==&b && b==prev && !(b!=prev),"back to the previous key"); KI c=it; KI o=c--; vp_check(o==it && c==prev,"back to the previous key"); }
    prev=it; have=true; if (k==1) { KI o=it++; vp_check(o==prev,"the position before the step"); } else { KI& r=++it; vp_check(&r==&it,"the iterator itself"); } vp_check(it!=prev && !(it==prev),"moves on"); } vp_check(it==e && !(it!=e),"then the end"); }
template<class KI, class M> void keys(int mask) { std::map<int,double> m; bool in[VP_MAP_KEYS]; for (int k=0;k<VP_MAP_KEYS;++k) { key_[k]=(int)vp_inti("k",k,-1000,1000); if (k) vp_assume(key_[k-1]<key_[k]); } for (int k=0;k<VP_MAP_KEYS;++k) { in[k]=((mask>>k)&1)!=0; if (in[k]) m[key_[k]]=vp_real("v",k); } M& c=m; walk<KI,M>(c,in); for (int k=0;k<VP_MAP_KEYS;++k) if (in[k]) vp_check(vp_same(m.at(key_[k]),vp_real("v",k)),"the map is not changed"); }
using MP=std::map<int,double>;
VP_HARNESS(const_keys) { for (int m=0;m<8;++m) keys<ekat::map_key_const_iterator<MP>,const MP>(m); }
VP_HARNESS(const_keys_of_map) { for (int m=0;m<8;++m) keys<ekat::map_key_const_iterator<MP>,MP>(m); }
VP_HARNESS(keys) { for (int m=0;m<8;++m) keys<ekat::map_key_iterator<MP>,MP>(m); }
