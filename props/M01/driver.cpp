// Comm: which MPI operation, on which data, of which type, over which communicator.
#include "vp.hpp"
#include <stdexcept>
#include <string>
#include <ekat_comm.hpp>
#include <ekat_log_mpi_policy.hpp>
using namespace ekat;
#ifdef EKAT_ENABLE_MPI
// MPI replaced by a record of the calls
enum Op { NONE, BCAST, SCAN, REDUCE, GATHER, BARRIER, SPLIT };
static Op op_; static int calls_, count_, count2_, root_, color_, key_, inited_, ninit_, handlers_, rank_, size_; static const void *in_; static void *out_; static MPI_Datatype type_, type2_; static MPI_Op mop_; static MPI_Comm comm_, hcomm_, ncomm_; static MPI_Errhandler handler_; static int grank_, gsize_;
static MPI_Comm cs_, cr_;   // communicators asked for size and rank
static bool ready_;          // MPI was asked whether it is initialized before the operation
static char aux_[64];
static int rec(Op o) { op_=o; ++calls_; ready_=ninit_>0; return MPI_SUCCESS; }
extern "C" {
int MPI_Initialized(int* f) { ++ninit_; *f=inited_; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* n) { cs_=c; *n = c==ncomm_ ? gsize_ : size_; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int* n) { cr_=c; *n = c==ncomm_ ? grank_ : rank_; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler h) { hcomm_=c; handler_=h; ++handlers_; return MPI_SUCCESS; }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int r, MPI_Comm c) { out_=b; count_=n; type_=t; root_=r; comm_=c; return rec(BCAST); }
int MPI_Scan(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { in_=a; out_=b; count_=n; type_=t; mop_=o; comm_=c; return rec(SCAN); }
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { in_=a; out_=b; count_=n; type_=t; mop_=o; comm_=c; return rec(REDUCE); }
int MPI_Allgather(const void* a, int n, MPI_Datatype t, void* b, int m, MPI_Datatype u, MPI_Comm c) { in_=a; out_=b; count_=n; type_=t; count2_=m; type2_=u; comm_=c; return rec(GATHER); }
int MPI_Barrier(MPI_Comm c) { comm_=c; return rec(BARRIER); }
int MPI_Comm_split(MPI_Comm c, int col, int key, MPI_Comm* n) { comm_=c; color_=col; key_=key; *n=ncomm_; return rec(SPLIT); }
}
template<class T> MPI_Datatype want();
#define TY(T,M) template<> MPI_Datatype want<T>() { return M; }
TY(char,MPI_CHAR) TY(short,MPI_SHORT) TY(int,MPI_INT) TY(long,MPI_LONG) TY(long long,MPI_LONG_LONG) TY(float,MPI_FLOAT) TY(double,MPI_DOUBLE) TY(bool,MPI_CXX_BOOL)
static void world() { op_=NONE; calls_=ninit_=handlers_=0; inited_=1; ncomm_=(MPI_Comm)(void*)aux_;
  size_=vp_int("size",1,1<<30); rank_=vp_int("rank",0,(1<<30)-1); vp_assume(rank_<size_); gsize_=vp_int("gsize",1,1<<30); grank_=vp_int("grank",0,(1<<30)-1); vp_assume(grank_<gsize_); }
static MPI_Comm given() { return vp_int("which",0,1) ? MPI_COMM_WORLD : MPI_COMM_SELF; }
static void is(const Comm& c, MPI_Comm m, int n, int r) { vp_check(c.mpi_comm()==m,"the communicator"); vp_check(c.size()==n && c.rank()==r,"size and rank of the communicator"); vp_check(c.am_i_root()==(r==c.root_rank()),"the root"); vp_check(c.root_rank()==0,"the root is rank 0");
  vp_check(cs_==m && cr_==m,"size and rank are those of this communicator"); vp_check(handlers_>0 && hcomm_==m && handler_==MPI_ERRORS_ARE_FATAL,"errors of this communicator are fatal"); }
VP_HARNESS(construct) { world(); MPI_Comm m=given(); Comm c(m); is(c,m,size_,rank_); vp_check(calls_==0,"no communication"); }
VP_HARNESS(construct_default) { world(); Comm c; is(c,MPI_COMM_SELF,size_,rank_); vp_check(calls_==0,"no communication"); }
VP_HARNESS(reset) { world(); Comm c(given()); c.reset_mpi_comm(ncomm_); is(c,ncomm_,gsize_,grank_); vp_check(calls_==0,"no communication"); }
VP_HARNESS(null) { world(); bool thrown=false; try { Comm c(MPI_COMM_NULL); } catch (std::runtime_error&) { thrown=true; } vp_check(thrown,"a null communicator is refused"); }
VP_HARNESS(reset_null) { world(); MPI_Comm m=given(); Comm c(m); bool thrown=false; try { c.reset_mpi_comm(MPI_COMM_NULL); } catch (std::runtime_error&) { thrown=true; } vp_check(thrown,"a null communicator is refused"); is(c,m,size_,rank_); }
VP_HARNESS(barrier) { world(); MPI_Comm m=given(); Comm c(m); ninit_=0; c.barrier(); vp_check(op_==BARRIER && calls_==1 && comm_==m && ready_,"one barrier over the communicator"); }
VP_HARNESS(split) { world(); MPI_Comm m=given(); Comm c(m); ninit_=0; int col=vp_int("color",-2147483647l,2147483647); Comm s=c.split(col); vp_check(op_==SPLIT && calls_==1 && comm_==m && ready_,"one split of the communicator"); vp_check(color_==col,"the color"); is(s,ncomm_,gsize_,grank_); vp_check(c.mpi_comm()==m && c.size()==size_ && c.rank()==rank_,"the original is left alone"); }
VP_HARNESS(split_order) { world(); MPI_Comm m=given(); Comm c(m); c.split(0); int k=key_, r=rank_; rank_=vp_int("rank2",0,(1<<30)-1); vp_assume(r<rank_ && rank_<size_); Comm d(m); d.split(0); vp_check(k<=key_,"ranks keep their order"); }
static char uop_[64];
static MPI_Op any_op() { const MPI_Op os[]={MPI_SUM,MPI_MAX,MPI_MIN,MPI_PROD,MPI_LAND,MPI_BAND,MPI_LOR,MPI_BOR,MPI_LXOR,MPI_BXOR,MPI_MINLOC,MPI_MAXLOC,MPI_REPLACE,(MPI_Op)(void*)uop_}; int k=vp_int("op",0,13); MPI_Op r=os[0]; for (int j=1;j<14;++j) if (k==j) r=os[j]; return r; }
// any communicator: of world, or reset
template<class T> struct S { MPI_Comm m; Comm c; T a[4], b[4]; int n, root; MPI_Op o; S():c(pre()) { m=c.mpi_comm(); if (vp_int("reset",0,1)) { c.reset_mpi_comm(ncomm_); m=ncomm_; } ninit_=0; n=vp_int("count",0,2147483647); root=vp_int("root",0,2147483647); o=any_op(); for (int i=0;i<4;++i) a[i]=b[i]=(T)1; }
  static Comm pre() { world(); return Comm(given()); }
  void one(Op w) { vp_check(calls_==1 && op_==w,"one operation of the right kind"); vp_check(comm_==m,"over the communicator"); vp_check(type_==want<T>(),"the type of the data"); vp_check(ready_,"only after asking whether MPI is initialized"); } };
template<class T> void bcast() { S<T> s; s.c.broadcast(s.a,s.n,s.root); s.one(BCAST); vp_check(out_==s.a && count_==s.n && root_==s.root,"the data, its amount and the root"); }
template<class T> void scan() { S<T> s; s.c.scan((const T*)s.a,s.b,s.n,s.o); s.one(SCAN); vp_check(in_==s.a && out_==s.b && count_==s.n && mop_==s.o,"the data, its amount and the operation"); }
template<class T> void scan_in() { S<T> s; s.c.scan(s.b,s.n,s.o); s.one(SCAN); vp_check(in_==MPI_IN_PLACE && out_==s.b && count_==s.n && mop_==s.o,"the data, its amount and the operation"); }
template<class T> void reduce() { S<T> s; s.c.all_reduce((const T*)s.a,s.b,s.n,s.o); s.one(REDUCE); vp_check(in_==s.a && out_==s.b && count_==s.n && mop_==s.o,"the data, its amount and the operation"); }
template<class T> void reduce_in() { S<T> s; s.c.all_reduce(s.b,s.n,s.o); s.one(REDUCE); vp_check(in_==MPI_IN_PLACE && out_==s.b && count_==s.n && mop_==s.o,"the data, its amount and the operation"); }
template<class T> void gather() { S<T> s; s.c.all_gather((const T*)s.a,s.b,s.n); s.one(GATHER); vp_check(in_==s.a && out_==s.b && count_==s.n && count2_==s.n && type2_==want<T>(),"the data and its amount per rank"); }
template<class T> void gather_in() { S<T> s; s.c.all_gather(s.b,s.n); vp_check(calls_==1 && op_==GATHER && comm_==s.m && ready_,"one operation of the right kind over the communicator"); vp_check(in_==MPI_IN_PLACE && out_==s.b && count2_==s.n && type2_==want<T>(),"the data and its amount per rank"); }
#define ALL(T,N) VP_HARNESS(bcast_##N) { bcast<T>(); } VP_HARNESS(scan_##N) { scan<T>(); } VP_HARNESS(scan_in_##N) { scan_in<T>(); } VP_HARNESS(reduce_##N) { reduce<T>(); } VP_HARNESS(reduce_in_##N) { reduce_in<T>(); } VP_HARNESS(gather_##N) { gather<T>(); } VP_HARNESS(gather_in_##N) { gather_in<T>(); }
ALL(char,c) ALL(short,s) ALL(int,i) ALL(long,l) ALL(long long,ll) ALL(float,f) ALL(double,d) ALL(bool,b)
VP_HARNESS(log_policy) { world(); Comm c(given()); vp_check(logger::LogAllRanks::should_log(c),"all ranks log"); vp_check(logger::LogRootRank::should_log(c)==(rank_==0),"only the root logs"); }
#include <ekat_comm.cpp>
#else
#include <ekat_comm_serial.cpp>
template<class T> struct S { Comm c; long n, i; T *a, *b; T a0, b0; S() { n=vp_size("n",1,1<<20,9); i=vp_int("i",0,(1<<20)-1)%n; a=vp_array<T>("a",n); b=vp_array<T>("b",n); a0=a[i]; b0=b[i]; } void is(T r) { vp_check(vp_same(b[i],r),"the result over the only rank"); vp_check(vp_same(a[i],a0),"the input is kept"); } };
#define ALL(T,N) VP_HARNESS(ser_##N) { S<T> s; int k=vp_int("k",0,6); if (k==0) { s.c.broadcast(s.b,(int)s.n,0); s.is(s.b0); } else if (k==1) { s.c.scan((const T*)s.a,s.b,(int)s.n,MPI_SUM); s.is(s.a0); } else if (k==2) { s.c.all_reduce((const T*)s.a,s.b,(int)s.n,MPI_MAX); s.is(s.a0); } else if (k==3) { s.c.all_gather((const T*)s.a,s.b,(int)s.n); s.is(s.a0); } else if (k==4) { s.c.scan(s.b,(int)s.n,MPI_SUM); s.is(s.b0); } else if (k==5) { s.c.all_reduce(s.b,(int)s.n,MPI_MAX); s.is(s.b0); } else { s.c.all_gather(s.b,(int)s.n); s.is(s.b0); } vp_check(s.c.rank()==0 && s.c.size()==1 && s.c.am_i_root(),"one rank"); }
ALL(int,i) ALL(long,l) ALL(float,f) ALL(double,d)
#endif
