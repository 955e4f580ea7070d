// Assumed contract of the Kokkos dependency, as executable specification read by the obligation generator
// (never linked into a native run: native replays use the installed Kokkos).
#ifndef VP_KOKKOS_CORE_HPP
#define VP_KOKKOS_CORE_HPP
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <limits>
#include <string>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=,*this]
#define KOKKOS_COMPILER_GNU 1
#define KOKKOS_VERSION 40400
#ifndef VP_NO_OPENMP
#define KOKKOS_ENABLE_OPENMP
#endif
#define KOKKOS_ENABLE_SERIAL

#ifndef VP_NATIVE
extern "C" {
int  omp_get_thread_num();
int  vp_concurrency();
void vp_kokkos_abort();
void vp_bounds(bool c, const char* what);
void vp_assume(bool c);
void vp_lemma(bool c);                                      // assumed fact about the dependency's own data structure
void* vp_alloc(long nelem, long bytes, int kind);           // zero initialised
void vp_parfor(long lo, long hi, void (*f)(void*, long), void* ctx);
void vp_parfor_md(int rank, const long* lo, const long* hi, void (*f)(void*, long, long, long, long, long, long, long, long), void* ctx);
void vp_barrier();
void vp_single_begin(); void vp_single_end();
}
#endif
namespace Kokkos {
namespace Impl {
template<class T, class=void> struct elem_kind { static constexpr int kind = 99; static constexpr long per = 1; };
template<> struct elem_kind<double> { static constexpr int kind=0; static constexpr long per=1; };
template<> struct elem_kind<float>  { static constexpr int kind=1; static constexpr long per=1; };
template<> struct elem_kind<int>    { static constexpr int kind=2; static constexpr long per=1; };
template<> struct elem_kind<unsigned> { static constexpr int kind=2; static constexpr long per=1; };
template<> struct elem_kind<long>   { static constexpr int kind=3; static constexpr long per=1; };
template<> struct elem_kind<unsigned long> { static constexpr int kind=3; static constexpr long per=1; };
template<> struct elem_kind<long long>   { static constexpr int kind=3; static constexpr long per=1; };
template<> struct elem_kind<char>   { static constexpr int kind=4; static constexpr long per=1; };
template<> struct elem_kind<bool>   { static constexpr int kind=4; static constexpr long per=1; };
template<class T> struct elem_kind<T,std::void_t<typename T::scalar, decltype(T::packtag)>> { static constexpr int kind=elem_kind<typename T::scalar>::kind; static constexpr long per=T::n; };
}

struct HostSpace {};
struct LayoutRight; struct LayoutLeft; struct LayoutStride;
template<class E, class M> struct Device { using execution_space=E; using memory_space=M; using device_type=Device; };
struct Serial { using memory_space=HostSpace; using execution_space=Serial; using device_type=Device<Serial,HostSpace>; using array_layout=LayoutRight; int concurrency() const { return 1; } void fence() const {} static const char* name() { return "Serial"; } };
struct OpenMP { using memory_space=HostSpace; using execution_space=OpenMP; using device_type=Device<OpenMP,HostSpace>; using array_layout=LayoutRight; int concurrency() const { return vp_concurrency(); } void fence() const {} static const char* name() { return "OpenMP"; } };
#ifndef VP_NO_OPENMP
using DefaultExecutionSpace = OpenMP; using DefaultHostExecutionSpace = OpenMP;
#else
using DefaultExecutionSpace = Serial; using DefaultHostExecutionSpace = Serial;
#endif
enum MemoryTraitsFlags { Unmanaged=1, RandomAccess=2, Atomic=4, Restrict=8, Aligned=16 };
template<unsigned T> struct MemoryTraits {
  using memory_traits=MemoryTraits;
  static constexpr bool is_unmanaged=(T&unsigned(Unmanaged))!=0, is_random_access=(T&unsigned(RandomAccess))!=0, is_atomic=(T&unsigned(Atomic))!=0, is_restrict=(T&unsigned(Restrict))!=0, is_aligned=(T&unsigned(Aligned))!=0;
};
using MemoryUnmanaged=MemoryTraits<Unmanaged>;
using MemoryManaged=MemoryTraits<0>;

static constexpr size_t KOKKOS_INVALID = ~size_t(0);
struct LayoutRight { size_t dimension[8]={1,1,1,1,1,1,1,1}; using array_layout=LayoutRight; LayoutRight()=default;
  template<class... I> explicit LayoutRight(size_t a, I... r) { size_t t[]={a,(size_t)r...}; for (size_t i=0;i<sizeof...(r)+1;++i) dimension[i]=t[i]; } };
struct LayoutLeft { size_t dimension[8]={1,1,1,1,1,1,1,1}; using array_layout=LayoutLeft; LayoutLeft()=default;
  template<class... I> explicit LayoutLeft(size_t a, I... r) { size_t t[]={a,(size_t)r...}; for (size_t i=0;i<sizeof...(r)+1;++i) dimension[i]=t[i]; } };
struct LayoutStride { size_t dimension[8]={1,1,1,1,1,1,1,1}; size_t stride[8]={0,0,0,0,0,0,0,0}; using array_layout=LayoutStride; LayoutStride()=default; };

template<class T> struct is_layout : std::false_type {};
template<> struct is_layout<LayoutRight> : std::true_type {}; template<> struct is_layout<LayoutLeft> : std::true_type {}; template<> struct is_layout<LayoutStride> : std::true_type {};
template<class T> struct is_memtraits : std::false_type {}; template<unsigned T> struct is_memtraits<MemoryTraits<T>> : std::true_type {};

template<class A, class B> struct pair { using first_type=A; using second_type=B; A first; B second; constexpr pair():first(),second(){} constexpr pair(const A&a,const B&b):first(a),second(b){}
  template<class C, class D> constexpr pair(const pair<C,D>& o):first(o.first),second(o.second){} };
template<class A, class B> constexpr pair<std::decay_t<A>,std::decay_t<B>> make_pair(A a, B b) { return pair<std::decay_t<A>,std::decay_t<B>>(a,b); }
template<class T, size_t N=KOKKOS_INVALID, class P=void> struct Array { T m[N]; T& operator[](size_t i) { vp_bounds(i<N,"array index"); return m[i]; } const T& operator[](size_t i) const { vp_bounds(i<N,"array index"); return m[i]; } static constexpr size_t size() { return N; } T* data() { return m; } const T* data() const { return m; } };

struct ALL_t { constexpr const ALL_t& operator()() const { return *this; } };
inline constexpr ALL_t ALL{};
#ifndef VP_KOKKOS_SESSION
struct InitializationSettings { InitializationSettings& set_num_threads(int) { return *this; } InitializationSettings& set_device_id(int) { return *this; } InitializationSettings& set_disable_warnings(bool) { return *this; } };
inline bool is_initialized() { return true; }
#else
// starting and stopping: given by the driver
struct InitializationSettings { int threads=-1, device=-1; bool quiet=false, has_quiet=false; std::string map; bool has_map=false; InitializationSettings& set_num_threads(int n) { threads=n; return *this; } InitializationSettings& set_device_id(int n) { device=n; return *this; } InitializationSettings& set_disable_warnings(bool b) { quiet=b; has_quiet=true; return *this; } InitializationSettings& set_map_device_id_by(const std::string& s) { map=s; has_map=true; return *this; } };
bool is_initialized(); bool is_finalized(); void initialize(const InitializationSettings& s=InitializationSettings()); void initialize(int& argc, char** argv); void finalize();
#endif
[[noreturn]] inline void abort(const char*) { vp_kokkos_abort(); __builtin_unreachable(); }
inline void fence() {} inline void fence(const std::string&) {} inline void memory_fence() {}
struct WithoutInit { std::string label; };
inline WithoutInit ViewAllocateWithoutInitializing(const std::string& s) { return WithoutInit{s}; }
struct ViewWrap {};

// ---- data type analysis
namespace Impl {
template<class T> struct DT { using scalar=T; using nc=std::remove_const_t<T>; static constexpr int dyn=0, stat=0; static constexpr size_t ext(int) { return 0; } using const_t=const T; using nonconst_t=std::remove_const_t<T>; };
template<class T> struct DT<T*> { using scalar=typename DT<T>::scalar; static constexpr int dyn=DT<T>::dyn+1, stat=DT<T>::stat; static constexpr size_t ext(int i) { return DT<T>::ext(i); } using const_t=typename DT<T>::const_t*; using nonconst_t=typename DT<T>::nonconst_t*; };
template<class T, size_t N> struct DT<T[N]> { using scalar=typename DT<T>::scalar; static constexpr int dyn=DT<T>::dyn, stat=DT<T>::stat+1; static constexpr size_t ext(int i) { return i==0?N:DT<T>::ext(i-1); } using const_t=typename DT<T>::const_t[N]; using nonconst_t=typename DT<T>::nonconst_t[N]; };
template<class T,int R> struct ND { using type=typename ND<T,R-1>::type*; }; template<class T> struct ND<T,0> { using type=T; };
template<class... P> struct pick_layout { using type=LayoutRight; };
template<class H, class... P> struct pick_layout<H,P...> { using type=std::conditional_t<is_layout<H>::value,H,typename pick_layout<P...>::type>; };
template<class... P> struct pick_mt { using type=MemoryTraits<0>; };
template<class H, class... P> struct pick_mt<H,P...> { using type=std::conditional_t<is_memtraits<H>::value,H,typename pick_mt<P...>::type>; };
template<class T,class=void> struct dev_of { using type=void; };
template<class T> struct dev_of<T,std::void_t<typename T::execution_space,typename T::memory_space>> { using type=Device<typename T::execution_space,typename T::memory_space>; };
template<> struct dev_of<HostSpace,void> { using type=Device<DefaultHostExecutionSpace,HostSpace>; };
template<class... P> struct pick_dev { using type=DefaultExecutionSpace::device_type; };
template<class H, class... P> struct pick_dev<H,P...> { using type=std::conditional_t<!std::is_void_v<typename dev_of<H>::type>,typename dev_of<H>::type,typename pick_dev<P...>::type>; };
}
template<class D, class... P> struct ViewTraits {
  using data_type=D; using dt=Impl::DT<D>; using value_type=typename dt::scalar; using const_value_type=const value_type; using non_const_value_type=std::remove_const_t<value_type>;
  using scalar_array_type=D; using const_data_type=typename dt::const_t; using non_const_data_type=typename dt::nonconst_t; using const_scalar_array_type=const_data_type; using non_const_scalar_array_type=non_const_data_type;
  using array_layout=typename Impl::pick_layout<P...>::type; using memory_traits=typename Impl::pick_mt<P...>::type; using device_type=typename Impl::pick_dev<P...>::type;
  using execution_space=typename device_type::execution_space; using memory_space=typename device_type::memory_space; using size_type=size_t; using specialize=void;
  using host_mirror_space=HostSpace;
  static constexpr int rank_dynamic=dt::dyn;
  static constexpr bool is_managed=!memory_traits::is_unmanaged;
};
template<class D, class... P> class View;
namespace Impl {
// index map: dim, stride (in elements)
template<class L, int R> struct OffsetMap {
  size_t d[R?R:1]; size_t m_stride; size_t s[R?R:1];
  template<class... I> size_t operator()(I... i) const {
    long ii[]={(long)i...,0}; size_t o=0;
    for (int k=0;k<R;++k) o += (size_t)ii[k]*str(k);
    return o; }
  size_t str(int k) const { return (k==0 && std::is_same<L,LayoutRight>::value && R>1) ? m_stride : s[k]; }
  void pack() { // packed strides for the layout
    if constexpr (std::is_same<L,LayoutLeft>::value) { size_t p=1; for (int k=0;k<R;++k) { s[k]=p; p*=d[k]; } m_stride=p; }
    else { size_t p=1; for (int k=R-1;k>=0;--k) { s[k]=p; p*=d[k]; } m_stride=s[0]; }
  }
};
template<class T, class L, int R> struct Map {
  T* m_impl_handle; OffsetMap<L,R> m_impl_offset;
  template<class... I> T& reference(I... i) const { return m_impl_handle[m_impl_offset(i...)]; }
  size_t stride_0() const { return m_impl_offset.str(0); }
  size_t stride_1() const { return m_impl_offset.str(1); }
};
struct Tracker {};
}
template<class V> struct is_view : std::false_type {};
template<class D, class... P> struct is_view<View<D,P...>> : std::true_type {};
template<class D, class... P> struct is_view<const View<D,P...>> : std::true_type {};
template<class V> inline constexpr bool is_view_v = is_view<V>::value;
template<int R> struct rank_const { };

template<class D, class... P> class View {
public:
  using traits=ViewTraits<D,P...>; using dt=typename traits::dt;
  using data_type=D; using value_type=typename traits::value_type; using const_value_type=typename traits::const_value_type; using non_const_value_type=typename traits::non_const_value_type;
  using array_layout=typename traits::array_layout; using memory_space=typename traits::memory_space; using memory_traits=typename traits::memory_traits; using device_type=typename traits::device_type; using execution_space=typename traits::execution_space;
  using scalar_array_type=D; using element_type=value_type; using reference_type=value_type&; using pointer_type=value_type*; using size_type=size_t;
  using const_data_type=typename traits::const_data_type; using non_const_data_type=typename traits::non_const_data_type;
  using const_type=View<const_data_type,array_layout,device_type,memory_traits>; using non_const_type=View<non_const_data_type,array_layout,device_type,memory_traits>;
  using HostMirror=View<non_const_data_type,array_layout,Device<DefaultHostExecutionSpace,HostSpace>>; using host_mirror_type=HostMirror;
  static constexpr int R=dt::dyn+dt::stat;
  static constexpr std::integral_constant<size_t,R> rank{}; static constexpr std::integral_constant<size_t,dt::dyn> rank_dynamic{};
  static constexpr int Rank=R;
  Impl::Map<value_type,array_layout,R> m;
  View() { m.m_impl_handle=nullptr; for (int k=0;k<R;++k) m.m_impl_offset.d[k]= k<dt::dyn?0:dt::ext(k-dt::dyn); m.m_impl_offset.pack(); }
  View(const View&)=default; View& operator=(const View&)=default;
  // conversions: same elements
  template<class E, class... Q, std::enable_if_t<(View<E,Q...>::R==R) && std::is_convertible<typename View<E,Q...>::value_type*,value_type*>::value && !std::is_same<View<E,Q...>,View>::value,int> =0>
  View(const View<E,Q...>& o) { conv(o); }
  template<class E, class... Q, std::enable_if_t<(View<E,Q...>::R==R) && std::is_convertible<typename View<E,Q...>::value_type*,value_type*>::value && !std::is_same<View<E,Q...>,View>::value,int> =0>
  View& operator=(const View<E,Q...>& o) { conv(o); return *this; }
  template<class V> void conv(const V& o) {
    using OL=typename V::array_layout;
    m.m_impl_handle=o.data();
    for (int k=0;k<R;++k) { m.m_impl_offset.d[k]=o.extent(k); if (k>=dt::dyn) vp_bounds(o.extent(k)==dt::ext(k-dt::dyn),"view assignment: static extents agree"); }
    if constexpr (std::is_same<OL,array_layout>::value) { for (int k=0;k<R;++k) m.m_impl_offset.s[k]=o.m.m_impl_offset.s[k]; m.m_impl_offset.m_stride=o.m.m_impl_offset.m_stride; }
    else if constexpr (std::is_same<array_layout,LayoutStride>::value) { for (int k=0;k<R;++k) m.m_impl_offset.s[k]=o.stride(k); m.m_impl_offset.m_stride=R?o.stride(0):1; }
    else { // strided to regular layout: Kokkos requires matching strides (it throws otherwise)
      m.m_impl_offset.pack();
      for (int k=(R>1 && std::is_same<array_layout,LayoutRight>::value)?1:0;k<R;++k) vp_bounds(o.stride(k)==m.m_impl_offset.s[k],"view assignment: strides agree with the layout");
      if (R) m.m_impl_offset.m_stride=o.stride(0);
    } }
  void setdims(const size_t* e, int n) { for (int k=0;k<R;++k) m.m_impl_offset.d[k]= k<n?e[k]:(k<dt::dyn?1:dt::ext(k-dt::dyn)); m.m_impl_offset.pack(); }
  // unmanaged
  template<class... I, std::enable_if_t<(std::is_convertible<I,size_t>::value && ...) && (sizeof...(I)==R || sizeof...(I)==dt::dyn),int> =0>
  explicit View(value_type* p, I... n) { m.m_impl_handle=p; size_t e[]={(size_t)n...,0}; setdims(e,sizeof...(n)); }
  View(value_type* p, const array_layout& l) { m.m_impl_handle=p; setdims(l.dimension,R);
    if constexpr (std::is_same<array_layout,LayoutStride>::value) { for (int k=0;k<R;++k) m.m_impl_offset.s[k]=l.stride[k]; } }
  View(const Impl::Tracker&, const Impl::Map<value_type,array_layout,R>& mm) : m(mm) {}
  // managed
  template<class... I, std::enable_if_t<(std::is_convertible<I,size_t>::value && ...) && (sizeof...(I)==R || sizeof...(I)==dt::dyn),int> =0>
  explicit View(const std::string&, I... n) { size_t e[]={(size_t)n...,0}; setdims(e,sizeof...(n)); alloc(); }
  template<class... I, std::enable_if_t<(std::is_convertible<I,size_t>::value && ...) && (sizeof...(I)==R || sizeof...(I)==dt::dyn),int> =0>
  explicit View(const char*, I... n) { size_t e[]={(size_t)n...,0}; setdims(e,sizeof...(n)); alloc(); }
  View(const std::string&, const array_layout& l) { setdims(l.dimension,R); alloc(); }
  template<class... I, std::enable_if_t<(std::is_convertible<I,size_t>::value && ...),int> =0>
  explicit View(const WithoutInit&, I... n) { size_t e[]={(size_t)n...,0}; setdims(e,sizeof...(n)); alloc(); }
  void alloc() { size_t s=size(); using K=Impl::elem_kind<non_const_value_type>; m.m_impl_handle=(value_type*) vp_alloc((long)(s*K::per),(long)(s*sizeof(value_type)),K::kind); }

  template<class I> constexpr size_t extent(const I& k) const { return (int)k<R ? m.m_impl_offset.d[k] : 1; }
  template<class I> constexpr int extent_int(const I& k) const { return (int)extent(k); }
  static constexpr size_t static_extent(unsigned r) { return dt::ext(r-dt::dyn); }
  size_t size() const { size_t p=1; for (int k=0;k<R;++k) p*=m.m_impl_offset.d[k]; return p; }
  size_t span() const { return size(); }
  template<class I> size_t stride(I k) const { return m.m_impl_offset.str((int)k); }
  template<class I> void stride(I* const s) const { for (int k=0;k<R;++k) s[k]=(I)m.m_impl_offset.str(k); }
  size_t stride_0() const { return m.stride_0(); }
  value_type* data() const { return m.m_impl_handle; }
  std::string label() const { return std::string(); }
  bool is_allocated() const { return data()!=nullptr; }
  bool span_is_contiguous() const { return true; }
  array_layout layout() const { array_layout l; for (int k=0;k<R;++k) { l.dimension[k]=extent(k); if constexpr (std::is_same<array_layout,LayoutStride>::value) l.stride[k]=m.m_impl_offset.s[k]; } return l; }
  const Impl::Map<value_type,array_layout,R>& impl_map() const { return m; }
  Impl::Tracker impl_track() const { return Impl::Tracker(); }
  template<class... I> std::enable_if_t<(std::is_convertible<I,size_t>::value && ...) && sizeof...(I)==R,value_type&> operator()(I... i) const {
    long ii[]={(long)i...,0}; 
    for (int k=0;k<R;++k) vp_bounds(ii[k]>=0 && ii[k]<(long)m.m_impl_offset.d[k],"view index in bounds");
    return m.m_impl_handle[m.m_impl_offset(i...)]; }
  template<class I, int RR=R> std::enable_if_t<RR==1 && std::is_convertible<I,size_t>::value,value_type&> operator[](I i) const { return (*this)(i); }
  template<class... I> value_type& access(I... i) const { return (*this)(i...); }
};

// ---- subview: int drops a dimension, ALL keeps it, pair restricts it
namespace Impl {
template<class S, class=void> struct is_range : std::false_type {};
template<> struct is_range<ALL_t,void> : std::true_type {};
template<class A,class B> struct is_range<pair<A,B>,void> : std::true_type {};
template<class A,class B> struct is_range<std::pair<A,B>,void> : std::true_type {};
inline void slice(const ALL_t&, size_t ext, size_t& b, size_t& n) { b=0; n=ext; }
template<class A,class B> inline void slice(const pair<A,B>& p, size_t ext, size_t& b, size_t& n) { vp_bounds(p.first>=0 && p.first<=p.second && (size_t)p.second<=ext,"subview range in bounds"); b=p.first; n=p.second-p.first; }
template<class A,class B> inline void slice(const std::pair<A,B>& p, size_t ext, size_t& b, size_t& n) { vp_bounds(p.first>=0 && p.first<=p.second && (size_t)p.second<=ext,"subview range in bounds"); b=p.first; n=p.second-p.first; }
template<class I> inline std::enable_if_t<std::is_integral<I>::value> slice(I i, size_t ext, size_t& b, size_t& n) { vp_bounds((long)i>=0 && (size_t)i<ext,"subview index in bounds"); b=i; n=1; }
template<class V, class... S> struct SubT {
  static constexpr bool rg[sizeof...(S)]={is_range<std::decay_t<S>>::value...};
  static constexpr int R=(int(is_range<std::decay_t<S>>::value)+...+0);
  static constexpr int N=sizeof...(S);
  // LayoutRight is retained when the leading dimensions are dropped by integers and (for the rest) ranges beyond the first are ALL (rank <=2 rule of Kokkos, conservatively strided otherwise)
  static constexpr bool lead() { int k=0; while (k<N && !rg[k]) ++k; for (int j=k;j<N;++j) if (!rg[j]) return false; return true; }
  static constexpr bool isall[sizeof...(S)]={std::is_same<std::decay_t<S>,ALL_t>::value...};
  static constexpr bool tail_all() { int k=0; while (k<N && !rg[k]) ++k; for (int j=k+1;j<N;++j) if (!isall[j]) return false; return true; }
  // Kokkos also keeps LayoutRight for rank<=2 results whose last dimension is kept
  static constexpr bool right = std::is_same<typename V::array_layout,LayoutRight>::value && R>0 && rg[N-1] && ((lead() && tail_all()) || R==1 || R==2 || R==3);
  using layout=std::conditional_t<R==0,LayoutRight,std::conditional_t<right,LayoutRight,LayoutStride>>;
  using type=View<typename ND<typename V::value_type,R>::type,layout,typename V::device_type,typename V::memory_traits>;
};
}
template<class V, class... S> using Subview = typename Impl::SubT<V,S...>::type;
template<class D, class... P, class... S>
typename Impl::SubT<View<D,P...>,S...>::type subview(const View<D,P...>& v, S... sl) {
  using T=Impl::SubT<View<D,P...>,S...>; using RV=typename T::type;
  static_assert(sizeof...(S)==View<D,P...>::R,"subview arity");
  RV r; size_t off=0; int k=0, o=0;
  auto one=[&](const auto& s) { size_t b,n; Impl::slice(s,v.extent(k),b,n); off+=b*v.stride(k);
    if (T::rg[k]) { r.m.m_impl_offset.d[o]=n; r.m.m_impl_offset.s[o]=v.stride(k); if (o==0) r.m.m_impl_offset.m_stride=v.stride(k); ++o; } ++k; };
  (one(sl),...);
  r.m.m_impl_handle=v.data()+off;
  return r;
}
template<class D, class... P> inline View<D,P...> create_mirror_view(const View<D,P...>& v) { return v; }
template<class D, class... P> inline View<D,P...> create_mirror_view(const HostSpace&, const View<D,P...>& v) { return v; }
template<class D, class... P> inline View<D,P...> create_mirror_view_and_copy(const HostSpace&, const View<D,P...>& v) { return v; }
template<class D, class... P, class E, class... Q> inline void deep_copy(const View<D,P...>& a, const View<E,Q...>& b) {
  vp_bounds((const void*)a.data()==(const void*)b.data(),"deep_copy between a view and its own mirror (host space: same memory)"); }
template<class D, class... P> void deep_copy(const View<D,P...>& a, const typename View<D,P...>::non_const_value_type& val);

// ---- execution
template<class F> struct Thunk { static void run(void* c, long i) { (*(const F*)c)((int)i); } };
struct TeamMember {
  int lr, ls, tr, ts;
  using execution_space=DefaultExecutionSpace; using scratch_memory_space=HostSpace; using team_handle=TeamMember;
  int league_rank() const { return lr; } int league_size() const { return ls; } int team_rank() const { return tr; } int team_size() const { return ts; }
  void team_barrier() const { vp_barrier(); }
  template<class T> void team_broadcast(T&, int) const {}
  template<class F, class T> void team_broadcast(const F&, T&, int) const {}
};
template<class... P> struct TeamPolicy {
  using member_type=TeamMember; using execution_space=DefaultExecutionSpace;
  int ls=0, ts=1;
  TeamPolicy()=default; TeamPolicy(int l, int t) : ls(l), ts(t) {} TeamPolicy(int l, int t, int) : ls(l), ts(t) {}
  int league_size() const { return ls; } int team_size() const { return ts; }
};
template<class... P> struct RangePolicy { using member_type=int; long b,e; RangePolicy(long x, long y):b(x),e(y){} template<class S> RangePolicy(const S&, long x, long y):b(x),e(y){} long begin() const { return b; } long end() const { return e; } };
template<int N> struct Rank { static constexpr int rank=N; };
template<class... P> struct mdrank { static constexpr int v=2; };
template<int N, class... P> struct mdrank<Rank<N>,P...> { static constexpr int v=N; };
template<class H, class... P> struct mdrank<H,P...> { static constexpr int v=mdrank<P...>::v; };
template<class... P> struct MDRangePolicy { static constexpr int R=mdrank<P...>::v; long lo[R], hi[R];
  template<class A, class B> MDRangePolicy(const A (&l)[R], const B (&h)[R]) { for (int k=0;k<R;++k) { lo[k]=l[k]; hi[k]=h[k]; } }
  MDRangePolicy(const Array<long,R>& l, const Array<long,R>& h) { for (int k=0;k<R;++k) { lo[k]=l.m[k]; hi[k]=h.m[k]; } } };
struct TeamRange { const TeamMember* t; long b, e; };
struct ThreadVectorR { long b,e; };
template<class I> TeamRange TeamThreadRange(const TeamMember& t, I n) { return {&t,0,(long)n}; }
template<class I, class J> TeamRange TeamThreadRange(const TeamMember& t, I b, J n) { return {&t,(long)b,(long)n}; }
template<class I> TeamRange TeamVectorRange(const TeamMember& t, I n) { return {&t,0,(long)n}; }
template<class I, class J> TeamRange TeamVectorRange(const TeamMember& t, I b, J n) { return {&t,(long)b,(long)n}; }
template<class I> ThreadVectorR ThreadVectorRange(const TeamMember&, I n) { return {0,(long)n}; }
template<class F> void parallel_for(const TeamRange& r, const F& f) { vp_parfor(r.b,r.e,&Thunk<F>::run,(void*)&f); }
template<class F> void parallel_for(const ThreadVectorR& r, const F& f) { vp_parfor(r.b,r.e,&Thunk<F>::run,(void*)&f); }
template<class F, class... P> void parallel_for(const RangePolicy<P...>& r, const F& f) { vp_parfor(r.b,r.e,&Thunk<F>::run,(void*)&f); }
template<class F, class... P> void parallel_for(const std::string&, const RangePolicy<P...>& r, const F& f) { vp_parfor(r.b,r.e,&Thunk<F>::run,(void*)&f); }
template<class F> void parallel_for(int n, const F& f) { vp_parfor(0,n,&Thunk<F>::run,(void*)&f); }
template<class F> void parallel_for(const std::string&, int n, const F& f) { vp_parfor(0,n,&Thunk<F>::run,(void*)&f); }
template<class F> struct TeamCtx { const F* f; int ls, ts; static void run(void* c, long i) { auto x=(TeamCtx*)c; TeamMember t{(int)i,x->ls,0,x->ts}; (*x->f)(t); } };
template<class F, class... P> void parallel_for(const TeamPolicy<P...>& p, const F& f) { TeamCtx<F> c{&f,p.ls,p.ts}; vp_parfor(0,p.ls,&TeamCtx<F>::run,(void*)&c); }
template<class F, class... P> void parallel_for(const std::string&, const TeamPolicy<P...>& p, const F& f) { parallel_for(p,f); }
// multi dimensional ranges: one loop over all index tuples
template<int R, class F> struct MD {
  static void run(void* c, long a, long b, long d, long e, long g, long h, long i, long j) { const long idx[8]={a,b,d,e,g,h,i,j}; call(*(const F*)c,idx,std::make_index_sequence<R>()); }
  template<size_t... I> static void call(const F& f, const long* idx, std::index_sequence<I...>) { f((int)idx[I]...); }
};
template<class F, class... P> void parallel_for(const MDRangePolicy<P...>& p, const F& f) { constexpr int R=MDRangePolicy<P...>::R; vp_parfor_md(R,p.lo,p.hi,&MD<R,F>::run,(void*)&f); }
template<class F, class... P> void parallel_for(const std::string&, const MDRangePolicy<P...>& p, const F& f) { parallel_for(p,f); }
// reductions: the combination of every contribution exactly once, starting from the reduction identity
template<class T> struct reduction_identity { static constexpr T sum() { return T(0); } };
template<class F, class T> void parallel_reduce(const TeamRange& r, const F& f, T& out) { T acc=reduction_identity<T>::sum(); for (long i=r.b;i<r.e;++i) f((int)i,acc); out=acc; }
template<class F, class T, class... P> void parallel_reduce(const RangePolicy<P...>& r, const F& f, T& out) { T acc=reduction_identity<T>::sum(); for (long i=r.b;i<r.e;++i) f((int)i,acc); out=acc; }
template<class F, class T> void parallel_reduce(int n, const F& f, T& out) { T acc=reduction_identity<T>::sum(); for (long i=0;i<n;++i) f((int)i,acc); out=acc; }
struct PerTeamT { const TeamMember* t; }; struct PerThreadT { const TeamMember* t; };
inline PerTeamT PerTeam(const TeamMember& t) { return {&t}; } inline PerThreadT PerThread(const TeamMember& t) { return {&t}; }
template<class F> auto single(const PerTeamT&, const F& f) -> decltype(f()) { vp_single_begin(); f(); vp_single_end(); }
template<class F, class T> auto single(const PerTeamT&, const F& f, T& v) -> decltype(f(v)) { vp_single_begin(); f(v); vp_single_end(); }
template<class F> auto single(const PerThreadT&, const F& f) -> decltype(f()) { f(); }
template<class T> inline T atomic_compare_exchange(volatile T* p, T c, T v) { T o=*p; if (o==c) *p=v; return o; }
template<class T> inline T atomic_fetch_add(T* p, T v) { T o=*p; *p=o+v; return o; }
template<class T> inline void atomic_add(T* p, T v) { *p=*p+v; }

template<class T> struct DCFill { T* p; T v; static void run(void* c, long i) { auto x=(DCFill*)c; x->p[i]=x->v; } };
template<class D, class... P> void deep_copy(const View<D,P...>& a, const typename View<D,P...>::non_const_value_type& val) {
  using T=typename View<D,P...>::non_const_value_type; DCFill<T> c{a.data(),val}; vp_parfor(0,(long)a.size(),&DCFill<T>::run,(void*)&c); }
}
#include "Kokkos_MathematicalFunctions.hpp"
#endif
