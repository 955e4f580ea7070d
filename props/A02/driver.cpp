// cyclic reduction for tridiagonal systems
#ifdef VP_NATIVE
#include <vector>
#endif
#include "vp_pack.hpp"
#include <ekat_tridiag.hpp>
using namespace ekat;
static const int MX=1<<28;
// SD numbers per row of the diagonals, SX per row of the right hand sides; column c of X belongs to column c%SD of the diagonals; x: a solution
template<class T,int SD,int SX> struct Sys {
  int n,i; T *dl,*d,*du,*X,*x; T b[SX];
#ifdef VP_NATIVE
  std::vector<T> sol;
  Sys() {
    static int calls=0; const long nh=++calls%16==0?3000:40;
    n=vp_size("n",1,MX/SX,nh); i=vp_int("i",0,MX)%n;
    for (T** q : {&dl,&d,&du}) { *q=(T*)malloc(sizeof(T)*(n*SD)); vp::heap().push_back(*q); } X=(T*)malloc(sizeof(T)*(n*SX)); vp::heap().push_back(X);
    unsigned long z=vp_int("values",0,1<<20)*2654435761ul+12345; auto rnd=[&]() { z=z*6364136223846793005ul+1442695040888963407ul; return (long)(z>>40); };
    for (int k=0;k<n*SD;++k) { dl[k]=rnd()%9-4; du[k]=rnd()%9-4; d[k]=(rnd()%2?-1:1)*(std::abs(dl[k])+std::abs(du[k])+1+(T)(rnd()%16)/8); }
    sol.resize(n*SX); for (T& v : sol) v=(T)(rnd()%33-16);
    for (int r=0;r<n;++r) for (int c=0;c<SX;++c) { const int q=r*SD+c%SD, k=r*SX+c; X[k]=d[q]*sol[k]; if (r>0) X[k]+=dl[q]*sol[k-SX]; if (r<n-1) X[k]+=du[q]*sol[k+SX]; }
    for (int c=0;c<SX;++c) b[c]=X[i*SX+c];
  }
  template<class F> void solved(const F& mine) const { for (int k=0;k<n*SX;++k) if (mine(k%SX)) vp_check(std::abs(X[k]-sol[k])<=1e-3*(1+std::abs(sol[k])),"the solution"); }
#else
  Sys() {
    n=vp_size("n",1,MX/SX,9); i=vp_int("i",0,MX); vp_assume(i<n);
    dl=vp_array<T>("dl",n*SD); d=vp_array<T>("d",n*SD); du=vp_array<T>("du",n*SD); X=vp_array<T>("X",n*SX); x=vp_array<T>("x",n*SX);
    for (int c=0;c<SX;++c) { const int q=i*SD+c%SD, k=i*SX+c;  // row i (any row) of the system that x solves
      if (n==1) vp_assume(X[k]==d[q]*x[k]); else if (i==0) vp_assume(X[k]==d[q]*x[k]+du[q]*x[k+SX]); else if (i==n-1) vp_assume(X[k]==dl[q]*x[k-SX]+d[q]*x[k]); else vp_assume(X[k]==dl[q]*x[k-SX]+d[q]*x[k]+du[q]*x[k+SX]); b[c]=X[k]; }
  }
  template<class F> void solved(const F& mine) const { for (int c=0;c<SX;++c) if (mine(c)) vp_check(X[i*SX+c]==x[i*SX+c],"the solution"); }
#endif
  template<class F> void kept(const F& mine) const { for (int c=0;c<SX;++c) if (!mine(c)) vp_check(X[i*SX+c]==b[c],"the columns of other threads are left alone"); }
};
template<class V> using UV=Kokkos::View<V,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged>;
template<class S,int R> struct VT; template<class S> struct VT<S,1> { using t=UV<S*>; template<class T> static t mk(T* p, int n, int) { return t((S*)p,n); } }; template<class S> struct VT<S,2> { using t=UV<S**>; template<class T> static t mk(T* p, int n, int m) { return t((S*)p,n,m); } };
// RD, RX ranks, M right hand sides
template<class T,int RD,int RX,int M,int TID,int NTHR> void cr() {
  constexpr int SD=RD==2?M:1; Sys<T,SD,M> s; Kokkos::TeamMember t{0,1,TID,NTHR};
  tridiag::cr(t,VT<T,RD>::mk(s.dl,s.n,M),VT<T,RD>::mk(s.d,s.n,M),VT<T,RD>::mk(s.du,s.n,M),VT<T,RX>::mk(s.X,s.n,M));
  auto mine=[](int c) { return c%NTHR==TID; };
  s.solved(mine); s.kept(mine); }
// names end in the numbers per row: diagonals, right hand sides
VP_HARNESS(one_d_1_1) { cr<double,1,1,1,0,1>(); }
VP_HARNESS(one_f_1_1) { cr<float,1,1,1,0,1>(); }
VP_HARNESS(each_d_1_1) { cr<double,2,2,1,0,1>(); }
VP_HARNESS(each_d_2_2) { cr<double,2,2,2,0,1>(); }
VP_HARNESS(each_f_3_3) { cr<float,2,2,3,0,1>(); }
VP_HARNESS(eachA_d_3_3) { cr<double,2,2,3,0,2>(); }
VP_HARNESS(eachB_d_3_3) { cr<double,2,2,3,1,2>(); }
VP_HARNESS(many_d_1_1) { cr<double,1,2,1,0,1>(); }
VP_HARNESS(many_d_1_2) { cr<double,1,2,2,0,1>(); }
VP_HARNESS(many_f_1_3) { cr<float,1,2,3,0,1>(); }
