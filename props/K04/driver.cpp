// WorkspaceManager: blocks handed out are valid, disjoint, and never in use; each operation's effect on the pool of free blocks
#include "vp.hpp"
#include <cassert>
#include <string>
#include <iostream>
#include <chrono>
#include <ekat_pack.hpp>
#include <ekat_workspace.hpp>
using namespace ekat;
#ifndef VP_NATIVE
extern "C" int vp_set_thread(long t);
#else
inline void vp_set_thread(long t) { vp::vals()["omp_thread"]=std::to_string(t); }
#endif
constexpr int MX=1<<10;
using Dev=Kokkos::Device<Kokkos::OpenMP,Kokkos::HostSpace>;
namespace unit_test { struct UnitWrap {
  template<class WS> static int& head(const WS& ws) { return ws.m_next_slot; }           // head of the free list
#ifndef NDEBUG
  template<class WS> static int& num_used(const WS& ws) { return ws.m_parent.m_num_used(ws.m_ws_idx); }
  template<class WS> static int& high_water(const WS& ws) { return ws.m_parent.m_high_water(ws.m_ws_idx); }
  template<class WS> static auto* active(const WS& ws) { return &ws.m_parent.m_active(ws.m_ws_idx,0); }
  template<class WS> static auto* all_active(const WS& ws) { return &ws.m_parent.m_active(0,0); }
  template<class WS> static auto* names(const WS& ws) { return &ws.m_parent.m_curr_names(0,0,0); }
  template<class WS> static auto* counts(const WS& ws) { return &ws.m_parent.m_counts(0,0,0); }
#endif
  template<class WSM> static int& head_of(const WSM& w, int i, int pad) { return w.m_next_slot(pad*i); }
}; }
using unit_test::UnitWrap;
constexpr int PAD=32;
template<class T> struct Pool {
  using WSM=WorkspaceManager<T,Dev>; using V=Unmanaged<typename KokkosTypes<Dev>::template view_1d<T>>;
  static constexpr long IP=sizeof(T)/sizeof(int), RES= sizeof(T)>8 ? 1 : 8/sizeof(T);
  long M,size,W,w,total; int* data; WSM wsm; long k; int *seq, *pos; Kokkos::TeamMember tm; int P;
  // blocks and metadata of the user-provided array
  long meta(long ws, long s) const { return (ws*M*total+s*total)*IP; }
  int& idx(long s) { return data[meta(w,s)]; } int& next(long s) { return data[meta(w,s)+1]; }
  T* block(long ws, long s) { return reinterpret_cast<T*>(data+meta(ws,s)+RES*IP); }
  Pool() {
    P=vp_concurrency(); const int league=(int)vp_int("league",1,MX); vp_assume(P<=MX);
    M=vp_size("max_used",1,MX,6); size=vp_size("size",1,MX,4); total=size+RES; W=P<league?P:league;
    data=vp_array<int>("data",W*M*total*IP);
    w=vp_size("w",0,MX,8); vp_assume(w<W); 
    Kokkos::TeamPolicy<Kokkos::OpenMP> pol(league,1); 
    vp_focus2(w,vp_size("s0",0,MX,6));
    wsm.setup(reinterpret_cast<T*>(data),(int)size,(int)M,pol);
    vp_unfocus();
    tm=Kokkos::TeamMember{(int)w,league,0,1}; vp_set_thread(w);
  }
  typename WSM::Workspace ws() { vp_set_thread(w); return wsm.get_workspace(tm,"ws"); }
  // an arbitrary state of the pool: a free list seq[0..k) of distinct blocks, the other blocks in use (pos<0)
  int hw0=0; bool* act=nullptr;
  template<class WS> void state(const WS& x) {
    k=vp_size("free",0,MX,6); vp_assume(k<=M);
#ifndef NDEBUG
    // debug bookkeeping: a number of blocks in use, and flags that are off for the free blocks
    act=UnitWrap::active(x); UnitWrap::num_used(x)=M-k; hw0=(int)vp_int("high_water",0,MX); vp_assume(hw0>=M-k); vp_assume(hw0<=M); UnitWrap::high_water(x)=hw0;
#ifndef VP_NATIVE
    havoc((int*)UnitWrap::all_active(x)); 
#endif
#endif
#ifndef VP_NATIVE
    data=havoc(); 
    seq=vp_array<int>("seq",k+1); pos=vp_array<int>("pos",M);
#else
    static std::vector<int> sq,ps; sq.assign(M+1,0); ps.assign(M,-1); std::vector<int> perm(M); for (long i=0;i<M;++i) perm[i]=i; 
    const bool sorted=vp_int("sorted",0,1); if (!sorted) for (long i=M-1;i>0;--i) std::swap(perm[i],perm[vp_inti("perm",i,0,i)]);
    else { long rot=vp_int("rot",0,M-1); std::rotate(perm.begin(),perm.begin()+rot,perm.end()); }
    for (long i=0;i<k;++i) { sq[i]=perm[i]; ps[perm[i]]=i; } sq[k]=(int)vp_int("terminal",0,M); seq=sq.data(); pos=ps.data();
    for (long s=0;s<M;++s) { idx(s)=s; next(s)=(int)vp_inti("stale",s,0,M); } for (long i=0;i<k;++i) next(seq[i])=seq[i+1];
#endif
    UnitWrap::head(x)=seq[0];
#if !defined(NDEBUG) && defined(VP_NATIVE)
    for (long s=0;s<M;++s) act[s]= pos[s]<0;
#endif
  }
#ifndef VP_NATIVE
  int* havoc() { return havoc(data); }
  int* havoc(int* q) { extern int* vp_havoc_arr(int*,long) __asm__("vp_havoc_arr"); return vp_havoc_arr(q,0); }
#endif
  // instances of the invariant
  void free_at(long i) { if (i>=0 && i<k) { vp_assume(seq[i]>=0); vp_assume(seq[i]<M); vp_assume(pos[seq[i]]==i); vp_assume(next(seq[i])==seq[i+1]); vp_assume(idx(seq[i])==seq[i]); watch(seq[i]); flag(seq[i],false); } }
  void flag(long s, bool a) {
#ifndef NDEBUG
    vp_assume(act[s]==a);
#endif
  }
  // block s is one of n in use
  void inuse(long s, long n) { vp_assume(pos[s]<0); vp_assume(k+n<=M); flag(s,true); }
  // metadata that the debug fill of a block must not touch
  void watch(long s) {
#ifndef NDEBUG
    vp_watch(&next(s)); vp_watch(&idx(s));
#endif
  }
  template<class WS> void used(const WS& x, long n, long s, bool a) {
#ifndef NDEBUG
    vp_check(UnitWrap::num_used(x)==n && UnitWrap::high_water(x)==(n>hw0?n:hw0),"debug: number of blocks in use, and its maximum"); vp_check(act[s]==a,"debug: block marked (not) in use");
#endif
  }
  void slot_at(long s) { vp_assume(idx(s)==s); watch(s); vp_assume(pos[s]<k); if (pos[s]>=0) vp_assume(seq[pos[s]]==s); }
  template<class VV> void is_block(const VV& v, long s, const char* what) { vp_check((T*)v.data()==block(w,s) && (long)v.extent(0)==size,what); }
};
#define ALLN(F,...) F<__VA_ARGS__,1>(); 
template<class T> void h_bytes() {
  const int P=vp_concurrency(); const int league=(int)vp_int("league",1,MX), ts=(int)vp_int("team_size",1,MX); vp_assume(ts<=P); const long M=vp_size("max_used",1,MX,6), size=vp_size("size",1,MX,4);
  Kokkos::TeamPolicy<Kokkos::OpenMP> pol(league,ts); const long W=P/ts<league?P/ts:league; const long bytes=W*M*(size+Pool<T>::RES)*(long)sizeof(T); vp_assume(bytes<=2147483647);
  vp_check(WorkspaceManager<T,Dev>::get_total_bytes_needed((int)size,(int)M,pol)==bytes,"get_total_bytes_needed: exactly the memory the manager uses");
}
// --- after setup every block is free, in order, in every workspace
template<class T> void h_setup() {
  Pool<T> p; long s=vp_size("s0",0,MX,6); vp_assume(s<p.M);
  vp_check(p.idx(s)==s && p.next(s)==s+1,"setup: every block knows its index and the next free one");
  auto ws=p.ws(); vp_check(UnitWrap::head(ws)==0,"setup: first block is the head of the free list");
}
// --- blocks: in bounds, disjoint from each other and from all metadata, also between workspaces
template<class T> void h_geometry() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); vp_assume(p.k>0); p.free_at(0);
  auto v=ws.template take<T>("a"); const long s=p.seq[0];
  p.is_block(v,s,"take: block of the head of the free list, of the requested size");
  const long e=vp_size("e",0,MX,4), w2=vp_size("w2",0,MX,8), s2=vp_size("s2",0,MX,6), e2=vp_size("e2",0,MX*8,6); vp_assume(e<p.size); vp_assume(w2<p.W); vp_assume(s2<p.M); 
  T* x=&v(e); T* lo=reinterpret_cast<T*>(p.data); 
  vp_check(x>=lo && x<lo+p.W*p.M*p.total,"block within the memory of the manager");
  // entry e2 of the memory of block (w2,s2), metadata included (e2<RES)
  vp_assume(e2<p.total); T* y=lo+w2*p.M*p.total+s2*p.total+e2;
  if (w2!=p.w || s2!=s || e2<p.RES) vp_check(x!=y,"a block overlaps no other block and no metadata");
}
template<class T> struct Frame { Pool<T>& p; long j; int old; long w2; int h2; 
  Frame(Pool<T>& q) : p(q) { j=vp_size("j",0,1l<<40,200); vp_assume(j<p.W*p.M*p.total*p.IP); old=p.data[j]; w2=vp_size("w2",0,MX,8); vp_assume(w2<p.W); vp_assume(w2!=p.w); h2=UnitWrap::head_of(p.wsm,(int)w2,PAD); }
  bool is_next(long s) const { return j==p.meta(p.w,s)+1; }
  bool in_block(long s) const { const long b=p.meta(p.w,s)+p.RES*p.IP; return j>=b && j<b+p.size*p.IP; }
  void same() { vp_check(p.data[j]==old,"memory of the manager (metadata and block contents) unchanged elsewhere"); vp_check(UnitWrap::head_of(p.wsm,(int)w2,PAD)==h2,"other workspaces unaffected"); } };
struct NoFrame2 {};
// --- take: the head of the list, which is free; the rest of the list stays
template<class T> void h_take() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); vp_assume(p.k>0); p.free_at(0); 
  const long i=vp_size("i",0,MX,6); vp_assume(i<p.k-1); p.free_at(i+1);
  auto v=ws.template take<T>("a");
  p.is_block(v,p.seq[0],"take: block of the head of the free list, of the requested size"); vp_check(p.pos[p.seq[0]]>=0,"take: the block was free");
  vp_check(UnitWrap::head(ws)==p.seq[1],"take: the head moves to the next free block");
  vp_check(p.next(p.seq[i+1])==p.seq[i+2],"take: the rest of the free list stays linked"); vp_check(p.seq[i+1]!=p.seq[0],"take: the block leaves the free list");
  p.used(ws,p.M-p.k+1,p.seq[0],true);
}
template<class T> void h_take_frame() { Pool<T> p; vp_assume(p.W>1); auto ws=p.ws(); p.state(ws); vp_assume(p.k>0); p.free_at(0); Frame<T> f(p);
#ifndef NDEBUG
  vp_assume(!f.in_block(p.seq[0])); vp_watch(p.data+f.j);   // debug builds fill the block with invalid values
#endif
  ws.template take<T>("a"); f.same(); }
// --- release: the block becomes the head, linked to the old list
template<class T> typename Pool<T>::V block_view(Pool<T>& p, long s) { return typename Pool<T>::V(p.block(p.w,s),p.size); }
template<class T> void h_release() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); const long s=vp_size("s",0,MX,6); vp_assume(s<p.M); p.slot_at(s); p.inuse(s,1);
  const long i=vp_size("i",0,MX,6); vp_assume(i<p.k); p.free_at(i); p.free_at(0);
  ws.release(block_view(p,s));
  vp_check(UnitWrap::head(ws)==s,"release: the block is the head of the free list"); vp_check(p.next(s)==p.seq[0],"release: the old list follows"); 
  vp_check(p.next(p.seq[i])==p.seq[i+1],"release: the old list stays linked"); vp_check(p.idx(s)==s,"release: block index kept");
  p.used(ws,p.M-p.k-1,s,false);
}
template<class T> void h_release_frame() { Pool<T> p; vp_assume(p.W>1); auto ws=p.ws(); p.state(ws); const long s=vp_size("s",0,MX,6); vp_assume(s<p.M); p.slot_at(s); p.inuse(s,1); Frame<T> f(p); vp_assume(!f.is_next(s)); ws.release(block_view(p,s)); f.same(); }
// --- take_many
template<class T,int N> void h_many() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); vp_assume(p.k>=N); for (int n=0;n<N;++n) p.free_at(n);
  const long i=vp_size("i",N,MX,6); p.free_at(i);
  using V=typename Pool<T>::V; V v[N]; Kokkos::Array<const char*,N> nm; Kokkos::Array<V*,N> ptr; for (int n=0;n<N;++n) { nm[n]="x"; ptr[n]=&v[n]; }
  Frame<T>* fr=nullptr; (void)fr;
  ws.template take_many<N,T>(nm,ptr);
  for (int n=0;n<N;++n) { p.is_block(v[n],p.seq[n],"take_many: the first N blocks of the free list"); for (int m=0;m<n;++m) vp_check(p.seq[m]!=p.seq[n],"take_many: different blocks"); }
  vp_check(UnitWrap::head(ws)==p.seq[N],"take_many: the head moves behind the taken blocks");
  for (int n=0;n<N;++n) p.used(ws,p.M-p.k+N,p.seq[n],true);
  if (i<p.k) vp_check(p.next(p.seq[i])==p.seq[i+1],"take_many: the rest of the free list stays linked");
}
template<class T> void h_refs() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); vp_assume(p.k>=3); for (int n=0;n<3;++n) p.free_at(n);
  typename Pool<T>::V a,b,c; ws.take_many_refs({"a","b","c"},a,b,c);
  p.is_block(a,p.seq[0],"take_many_refs: first"); p.is_block(b,p.seq[1],"take_many_refs: second"); p.is_block(c,p.seq[2],"take_many_refs: third"); vp_check(UnitWrap::head(ws)==p.seq[3],"take_many_refs: head");
}
// --- take_many_contiguous_unsafe, take_macro_block: the first N free blocks are contiguous
template<class T,int N> void h_contig() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); vp_assume(p.k>=N); for (int n=0;n<N;++n) p.free_at(n); for (int n=1;n<N;++n) vp_assume(p.seq[n]==p.seq[0]+n);
  const long i=vp_size("i",N,MX,6); p.free_at(i);
  using V=typename Pool<T>::V; V v[N]; Kokkos::Array<const char*,N> nm; Kokkos::Array<V*,N> ptr; for (int n=0;n<N;++n) { nm[n]="x"; ptr[n]=&v[n]; }
  ws.template take_many_contiguous_unsafe<N,T>(nm,ptr);
  for (int n=0;n<N;++n) p.is_block(v[n],p.seq[0]+n,"take_many_contiguous_unsafe: the first N blocks of the free list");
  vp_check(UnitWrap::head(ws)==p.seq[N],"take_many_contiguous_unsafe: the head moves to the next free block");
  for (int n=0;n<N;++n) p.used(ws,p.M-p.k+N,p.seq[n],true);
  if (i<p.k) vp_check(p.next(p.seq[i])==p.seq[i+1],"take_many_contiguous_unsafe: the rest of the free list stays linked");
}
template<class T> void h_macro() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); const long n=vp_size("n",1,MX,6); vp_assume(n<=p.k); p.free_at(0); p.free_at(n-1); vp_assume(p.seq[n-1]==p.seq[0]+n-1);
  const long i=vp_size("i",1,MX,6); vp_assume(i<n); p.free_at(i); vp_assume(p.seq[i]==p.seq[0]+i);   // (every i)
#ifdef VP_NATIVE
  for (long q=0;q<n;++q) vp_assume(p.seq[q]==p.seq[0]+q);
#endif
  auto v=ws.template take_macro_block<T>("a",(int)n);
  p.is_block(v,p.seq[0],"take_macro_block: starts at the head of the free list"); vp_check(UnitWrap::head(ws)==p.seq[n],"take_macro_block: the head moves to the next free block");
  const long q=vp_size("q",0,MX,6); if (q>=n && q<p.k) { p.free_at(q); vp_check(p.next(p.seq[q])==p.seq[q+1],"take_macro_block: the rest of the free list stays linked"); }
}
// --- releasing contiguous blocks: they become the first ones of the list, the old list follows
template<class T,int N> void h_relmany() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); const long s=vp_size("s",0,MX,6); vp_assume(s+N<=p.M); for (int n=0;n<N;++n) { p.slot_at(s+n); p.inuse(s+n,N); }
  for (int n=0;n<N-1;++n) { 
#ifdef VP_NATIVE
    p.next(s+n)=s+n+1;
#endif
    vp_assume(p.next(s+n)==s+n+1); } // as left by the functions that take contiguous blocks
  const long i=vp_size("i",0,MX,6); vp_assume(i<p.k); p.free_at(i); p.free_at(0);
  using V=typename Pool<T>::V; V v[N]; Kokkos::Array<V*,N> ptr; for (int n=0;n<N;++n) { v[n]=block_view(p,s+n); ptr[n]=&v[n]; }
  ws.template release_many_contiguous<N,T>(ptr);
  vp_check(UnitWrap::head(ws)==s,"release_many_contiguous: the first block is the head of the free list");
  for (int n=0;n<N;++n) { vp_check(p.next(s+n)==(n<N-1?s+n+1:p.seq[0]),"release_many_contiguous: blocks linked in order, then the old list"); vp_check(p.idx(s+n)==s+n,"block index kept"); }
  vp_check(p.next(p.seq[i])==p.seq[i+1],"release_many_contiguous: the old list stays linked");
  for (int n=0;n<N;++n) p.used(ws,p.M-p.k-N,s+n,false);
}
template<class T> void h_relmacro() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); const long s=vp_size("s",0,MX,6), n=vp_size("n",1,MX,6); vp_assume(s+n<=p.M); p.slot_at(s);
  const long m=vp_size("m",0,MX,6); vp_assume(m<n); p.slot_at(s+m); p.inuse(s,n); vp_assume(p.pos[s+m]<0); 
#ifdef VP_NATIVE
  for (long q=0;q<n;++q) vp_assume(p.pos[s+q]<0);
#endif
  const long i=vp_size("i",0,MX,6); vp_assume(i<p.k); p.free_at(i); p.free_at(0);
  vp_assume(p.seq[i]<s || p.seq[i]>=s+n);            // instance of: released blocks are not in the free list
  vp_focus(m);
  ws.template release_macro_block<T>(block_view(p,s),(int)n);
  vp_check(UnitWrap::head(ws)==s,"release_macro_block: the first block is the head of the free list");
  vp_check(p.idx(s+m)==s+m && p.next(s+m)==(m<n-1?s+m+1:p.seq[0]),"release_macro_block: blocks linked in order, then the old list");
}
// --- reset and take_many_and_reset
template<class T> void h_reset() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); const long s=vp_size("s",0,MX,6); vp_assume(s<p.M);
  vp_focus(s); ws.reset(); vp_check(UnitWrap::head(ws)==0,"reset: all blocks free"); vp_check(p.idx(s)==s && p.next(s)==s+1,"reset: blocks linked in order");
}
template<class T,int N> void h_manyreset() {
  Pool<T> p; vp_assume(p.M>=N); auto ws=p.ws(); p.state(ws); const long s=vp_size("s",0,MX,6); vp_assume(s<p.M);
  using V=typename Pool<T>::V; V v[N]; Kokkos::Array<const char*,N> nm; Kokkos::Array<V*,N> ptr; for (int n=0;n<N;++n) { nm[n]="x"; ptr[n]=&v[n]; }
  vp_focus(s);
  ws.template take_many_and_reset<N,T>(nm,ptr);
  for (int n=0;n<N;++n) p.is_block(v[n],n,"take_many_and_reset: the first N blocks");
  vp_check(UnitWrap::head(ws)==N,"take_many_and_reset: block N is the head of the free list"); vp_check(p.idx(s)==s && p.next(s)==s+1,"take_many_and_reset: all blocks linked in order, as after reset");
}
// --- reset_internals: every workspace as after setup
template<class T> void h_wsmreset() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); const long s=vp_size("s",0,MX,6), w2=vp_size("w2",0,MX,8); vp_assume(s<p.M); vp_assume(w2<p.W);
  vp_focus3(w2,s,PAD*w2);
  p.wsm.reset_internals(); 
  vp_check(UnitWrap::head_of(p.wsm,(int)w2,PAD)==0,"reset_internals: all blocks free in every workspace"); vp_check(p.data[p.meta(w2,s)]==s && p.data[p.meta(w2,s)+1]==s+1,"reset_internals: blocks linked in order");
}
#ifndef NDEBUG
VP_HARNESS(dbgreset_i) {
  Pool<int> p; auto ws=p.ws(); p.state(ws); const long s=vp_size("s",0,MX,6); vp_assume(s<p.M);
  vp_focus2(p.w,p.w*p.M+s); p.wsm.reset_internals(); vp_check(UnitWrap::num_used(ws)==0 && UnitWrap::high_water(ws)==0,"reset_internals: no block counted as in use"); vp_check(!p.act[s],"reset_internals: no block marked in use"); 
}
#endif
// --- a block taken as another type: same memory, as many entries as fit; released to the right place
template<class T,class S> void h_other() {
  Pool<T> p; auto ws=p.ws(); p.state(ws); vp_assume(p.k>0); p.free_at(0); 
  auto v=ws.template take<S>("a"); const long s=p.seq[0];
  vp_check((void*)v.data()==(void*)p.block(p.w,s) && (long)v.extent(0)==p.size*(long)sizeof(T)/(long)sizeof(S),"take<S>: the block at the head of the free list, as many entries as fit");
  p.slot_at(s); const int h=UnitWrap::head(ws); vp_check(h==p.seq[1],"take<S>: the head moves to the next free block");
  ws.release(v); vp_check(UnitWrap::head(ws)==s && p.next(s)==h && p.idx(s)==s,"release of a block taken as another type");
}
#define INST(T,t) VP_HARNESS(bytes_##t) { h_bytes<T>(); } VP_HARNESS(setup_##t) { h_setup<T>(); } VP_HARNESS(geometry_##t) { h_geometry<T>(); } VP_HARNESS(take_##t) { h_take<T>(); } VP_HARNESS(take_frame_##t) { h_take_frame<T>(); } \
 VP_HARNESS(release_##t) { h_release<T>(); } VP_HARNESS(release_frame_##t) { h_release_frame<T>(); } VP_HARNESS(many1_##t) { h_many<T,1>(); } VP_HARNESS(many3_##t) { h_many<T,3>(); } VP_HARNESS(refs_##t) { h_refs<T>(); } \
 VP_HARNESS(contig1_##t) { h_contig<T,1>(); } VP_HARNESS(contig3_##t) { h_contig<T,3>(); } VP_HARNESS(macro_##t) { h_macro<T>(); } VP_HARNESS(relmany1_##t) { h_relmany<T,1>(); } VP_HARNESS(relmany3_##t) { h_relmany<T,3>(); } \
 VP_HARNESS(relmacro_##t) { h_relmacro<T>(); } VP_HARNESS(reset_##t) { h_reset<T>(); } VP_HARNESS(manyreset2_##t) { h_manyreset<T,2>(); } VP_HARNESS(wsmreset_##t) { h_wsmreset<T>(); }
using PI4=Pack<int,4>;
INST(int,i) INST(PI4,p)
VP_HARNESS(bytes_d) { h_bytes<double>(); } VP_HARNESS(bytes_c) { h_bytes<char>(); }
VP_HARNESS(other_id) { h_other<int,double>(); } VP_HARNESS(other_pd) { h_other<PI4,double>(); } VP_HARNESS(other_pi) { h_other<PI4,int>(); } VP_HARNESS(other_ic) { h_other<int,char>(); }
VP_HARNESS(many2_i) { h_many<int,2>(); } VP_HARNESS(contig2_i) { h_contig<int,2>(); }
// memory allocated by the manager: every block of every workspace lies in it
template<class T> void h_own() {
  const int P=vp_concurrency(), league=(int)vp_int("league",1,MX); vp_assume(P<=MX); const long M=vp_size("max_used",1,MX,6), size=vp_size("size",1,MX,4), w=vp_size("w",0,MX,8), s=vp_size("s",0,MX,6), e=vp_size("e",0,MX,4); const long W=P<league?P:league; vp_assume(w<W); vp_assume(s<M); vp_assume(e<size);
  vp_focus2(w,s); WorkspaceManager<T,Dev> wsm((int)size,(int)M,Kokkos::TeamPolicy<Kokkos::OpenMP>(league,1)); vp_unfocus();
  Kokkos::TeamMember tm{(int)w,league,0,1}; vp_set_thread(w); auto ws=wsm.get_workspace(tm,"ws"); UnitWrap::head(ws)=(int)s;
  auto v=ws.template take<T>("a"); vp_check((long)v.extent(0)==size,"own memory: block of the requested size"); *reinterpret_cast<int*>(&v(e))=7; vp_check(UnitWrap::head(ws)==s+1,"own memory: metadata not overwritten by block contents");
}
VP_HARNESS(own_i) { h_own<int>(); } VP_HARNESS(own_p) { h_own<PI4>(); }
