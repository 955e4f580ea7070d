// the Thomas algorithm for tridiagonal systems
#include "vp_pack.hpp"
#ifdef VP_NATIVE
#include <vector>
#endif
#include <ekat_tridiag.hpp>
using namespace ekat;
static const int MX=1<<28;
template<class T,class S> using V1=Kokkos::View<T*,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged>;
// SD numbers per row of the diagonals, SX per row of the right hand sides; column c of X belongs to column c%SD of the diagonals
template<class T,int SD,int SX> struct Sys {
  int n,i,c; T *dl,*d,*du,*X,*m,*p,*e,*x; T a[4]; T keep;
  Sys() {
#ifdef VP_NATIVE
    static int calls=0; const long nh=++calls%16==0?20000:40;
#else
    const long nh=0;
#endif
    n=vp_size("n",1,MX/SX,nh); i=vp_int("i",0,MX); c=vp_int("c",0,SX-1);
#ifdef VP_NATIVE
    i%=n;
#endif
    vp_assume(i<n);
#ifdef VP_NATIVE
    for (T** q : {&dl,&d,&du}) { *q=(T*)malloc(sizeof(T)*(n*SD)); vp::heap().push_back(*q); } X=(T*)malloc(sizeof(T)*(n*SX)); vp::heap().push_back(X);
#else
    dl=vp_array<T>("dl",n*SD); d=vp_array<T>("d",n*SD); du=vp_array<T>("du",n*SD); X=vp_array<T>("X",n*SX);
    m=vp_array<T>("m",n*SD); p=vp_array<T>("p",n*SD); e=vp_array<T>("e",n*SX); x=vp_array<T>("x",n*SX);
#endif
    const int q=c%SD; (void)q;
#ifdef VP_NATIVE
    unsigned long z=vp_int("values",0,1<<20)*2654435761ul+12345; auto rnd=[&]() { z=z*6364136223846793005ul+1442695040888963407ul; return (long)(z>>40); };
    for (int k=0;k<n*SD;++k) { dl[k]=rnd()%9-4; du[k]=rnd()%9-4; d[k]=(rnd()%2?-1:1)*(std::abs(dl[k])+std::abs(du[k])+1+(T)(rnd()%16)/8); } for (int k=0;k<n*SX;++k) X[k]=rnd()%33-16;
    odl.assign(dl,dl+n*SD); od.assign(d,d+n*SD); odu.assign(du,du+n*SD); oX.assign(X,X+n*SX);
#else
    cases([&](int q) { if (i>0) facts(i-1,q); facts(i,q); if (i<n-1) facts(i+1,q); });
#endif
    a[0]=dl[i*SD+q]; a[1]=d[i*SD+q]; a[2]=du[i*SD+q]; a[3]=X[i*SX+c];
  }
  void facts(int r, int c) const { const int q=r*SD+c%SD, k=r*SX+c; // elimination factors m, pivots p, eliminated right hand sides e, solution x
    vp_assume(p[q]!=0);
    if (r>0) { vp_assume(dl[q]==m[q]*p[q-SD]); vp_assume(d[q]==p[q]+m[q]*du[q-SD]); vp_assume(X[k]==e[k]+m[q]*e[k-SX]); } else { vp_assume(d[q]==p[q]); vp_assume(X[k]==e[k]); }
    if (r==n-1) vp_assume(x[k]==e[k]/p[q]); else vp_assume(x[k]==(e[k]-du[q]*x[k+SX])/p[q]); }
  template<class F> void cases(const F& f) const { for (int q=0;q<SX;++q) if (c==q) f(q); }
#ifdef VP_NATIVE
  std::vector<T> odl,od,odu,oX;
  void one(int i, int c) const { const int q=i*SD+c%SD, k=i*SX+c; T s=od[q]*X[k]; if (i>0) s+=odl[q]*X[k-SX]; if (i<n-1) s+=odu[q]*X[k+SX]; vp_check(std::abs(s-oX[k])<=1e-3*(1+std::abs(oX[k])),"every equation is satisfied"); }
  void solved() const { for (int r=0;r<n;++r) one(r,c); }
#else
  void solved() const { cases([&](int q) { solved(q); }); }
  void solved(int c) const {
    const int k=i*SX+c;
    if (n==1) vp_check(a[1]*X[k]==a[3],"a system of one equation is solved");
    else if (i==0) vp_check(a[1]*X[k]+a[2]*X[k+SX]==a[3],"the first equation is satisfied");
    else if (i==n-1) vp_check(a[0]*X[k-SX]+a[1]*X[k]==a[3],"the last equation is satisfied");
    else vp_check(a[0]*X[k-SX]+a[1]*X[k]+a[2]*X[k+SX]==a[3],"every equation is satisfied");
  }
#endif
  void kept() const { vp_check(X[i*SX+c]==a[3],"the columns of other threads are left alone"); }
};
template<class V> using UV=Kokkos::View<V,Kokkos::LayoutRight,Kokkos::HostSpace,Kokkos::MemoryUnmanaged>;
template<class S,int R> struct VT; template<class S> struct VT<S,1> { using t=UV<S*>; template<class T> static t mk(T* p, int n, int) { return t((S*)p,n); } }; template<class S> struct VT<S,2> { using t=UV<S**>; template<class T> static t mk(T* p, int n, int m) { return t((S*)p,n,m); } };
template<class T> T mul(T a, T b) { return a*b; }
// serial forms: RD, RX ranks, M right hand sides, D and S value types of lengths ND and N
template<class T,int RD,int RX,int M,class D,int ND,class S,int N> void serial() {
  constexpr int SD=ND*(RD==2?M:1), SX=N*M; Sys<T,SD,SX> s;
  tridiag::thomas(VT<D,RD>::mk(s.dl,s.n,M),VT<D,RD>::mk(s.d,s.n,M),VT<D,RD>::mk(s.du,s.n,M),VT<S,RX>::mk(s.X,s.n,M));
  s.solved(); }
template<class T,int M,class D,int ND,class S,int N,int TID,int NTHR> void team() {
  Sys<T,ND,N*M> s; Kokkos::TeamMember t{0,1,TID,NTHR};
  tridiag::thomas(t,VT<D,1>::mk(s.dl,s.n,M),VT<D,1>::mk(s.d,s.n,M),VT<D,1>::mk(s.du,s.n,M),VT<S,2>::mk(s.X,s.n,M));
  if (s.c/N%NTHR==TID) s.solved(); else s.kept(); }
template<class T,int RD,int M,class D,int ND,class S,int N> void repro() {
  constexpr int SD=ND*(RD==2?M:1), SX=N*M; Sys<T,SD,SX> s; Kokkos::TeamMember t{0,1,0,1};
  tridiag::bfb(t,VT<D,RD>::mk(s.dl,s.n,M),VT<D,RD>::mk(s.d,s.n,M),VT<D,RD>::mk(s.du,s.n,M),VT<S,2>::mk(s.X,s.n,M));
  s.solved(); }
template<class T,int M> void repro1() { // one matrix of rank 2
  Sys<T,1,M> s; Kokkos::TeamMember t{0,1,0,1};
  tridiag::bfb(t,VT<T,2>::mk(s.dl,s.n,1),VT<T,2>::mk(s.d,s.n,1),VT<T,2>::mk(s.du,s.n,1),VT<T,2>::mk(s.X,s.n,M));
  s.solved(); }
#define P(T,N) Pack<T,N>
#define COMMA ,
// names end in the numbers per row: diagonals, right hand sides
VP_HARNESS(one_d_1_1) { serial<double,1,1,1,double,1,double,1>(); }
VP_HARNESS(one_f_1_1) { serial<float,1,1,1,float,1,float,1>(); }
VP_HARNESS(one_d_4_4) { serial<double,1,1,1,Pack<double,4>,4,Pack<double,4>,4>(); }
VP_HARNESS(one_d_1_2) { serial<double,1,1,1,double,1,Pack<double,2>,2>(); }
VP_HARNESS(many_d_1_1) { serial<double,1,2,1,double,1,double,1>(); }
VP_HARNESS(many_d_1_3) { serial<double,1,2,3,double,1,double,1>(); }
VP_HARNESS(many_f_1_2) { serial<float,1,2,2,float,1,float,1>(); }
VP_HARNESS(many_d_1_4) { serial<double,1,2,2,double,1,Pack<double,2>,2>(); }
VP_HARNESS(each_d_1_1) { serial<double,2,2,1,double,1,double,1>(); }
VP_HARNESS(each_d_3_3) { serial<double,2,2,3,double,1,double,1>(); }
VP_HARNESS(each_f_2_2) { serial<float,2,2,2,float,1,float,1>(); }
VP_HARNESS(each_d_4_4) { serial<double,2,2,2,Pack<double,2>,2,Pack<double,2>,2>(); }
VP_HARNESS(team_d_1_1) { team<double,1,double,1,double,1,0,1>(); }
VP_HARNESS(team_d_1_3) { team<double,3,double,1,double,1,0,1>(); }
VP_HARNESS(teamA_d_1_3) { team<double,3,double,1,double,1,0,2>(); }
VP_HARNESS(teamB_d_1_3) { team<double,3,double,1,double,1,1,2>(); }
VP_HARNESS(teamC_f_1_2) { team<float,2,float,1,float,1,2,4>(); }
VP_HARNESS(teamP_d_1_4) { team<double,2,double,1,Pack<double,2>,2,0,1>(); }
VP_HARNESS(bfb_d_1_2) { repro<double,1,2,double,1,double,1>(); }
VP_HARNESS(bfb_f_3_3) { repro<float,2,3,float,1,float,1>(); }
VP_HARNESS(bfb_d_1_1) { repro<double,2,1,double,1,double,1>(); }
VP_HARNESS(bfb1_d_1_3) { repro1<double,3>(); }
