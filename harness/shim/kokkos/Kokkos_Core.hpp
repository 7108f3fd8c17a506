// Stand-in for the Kokkos library (not available offline): the part of its documented semantics
// that libsymmetrix and its bindings rely on, executed sequentially, with
//   * every View access bounds-checked,
//   * memory that Kokkos leaves uninitialised filled with junk (NaN, 0x5a5a5a5a),
//   * the iterations of a parallel construct performed in an order chosen at run time
//     (a program that depends on the order is wrong on real back ends),
//   * optionally a device with memory of its own: mirrors are separate allocations, and host
//     code that touches device memory (or a kernel that touches host memory) is reported,
//   * parallel_scan's two passes,
//   * teams of a size chosen at run time whose members run as coroutines, switched only where Kokkos
//     synchronises them (barriers, reductions): one of the schedules a real back end may take,
//   * optionally a watch for updates that parallel iterations make to the same element without
//     atomics: two iterations that both change an element are not ordered, one update may be lost.
#pragma once
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <ucontext.h>
#include <unordered_map>
#include <utility>
#include <vector>

#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_INLINE_FUNCTION_DELETED
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_IMPL_FORCEINLINE inline
#define KOKKOS_RESTRICT __restrict__
#define KOKKOS_ASSERT(x) assert(x)
#define KOKKOS_EXPECTS(x) assert(x)
#define KOKKOS_ENSURES(x) assert(x)
#ifndef KOKKOS_VERSION
#define KOKKOS_VERSION 40500
#define KOKKOS_VERSION_GREATER_EQUAL(a, b, c) (KOKKOS_VERSION >= (a) * 10000 + (b) * 100 + (c))
#endif

namespace Kokkos {

namespace __attribute__((visibility("default"))) verif {
enum class Space { host, device, shared };
struct __attribute__((visibility("default"))) State {
    bool initialized = false;
    int order = 0;           // 0 ascending, 1 descending, otherwise a seed for a stride walk
    bool separate = false;   // the device has memory of its own
    int team = 1;            // members of a team whose size Kokkos may choose
    bool watch = false;      // look for unordered updates
    std::atomic<long> kernels{0};
};
// who is running: an iteration of the kernel, a member of its team, an iteration of a vector loop
struct Strand { long iteration = 0; int member = 0; long epoch = 0, loop = 0, lane = 0; };
struct Touch { unsigned char size; int plain = 0, atomic = 0; unsigned char was[8]; std::string name; };
struct Update { Strand by; bool atomic; };
struct Here {                // of one thread (several only where MPI ranks are threads)
    int depth = 0;           // > 0 inside a kernel
    size_t scratch_bytes = 0;
    Strand strand;
    std::unordered_map<const void*, Touch> touched;       // by the running strand
    std::unordered_map<const void*, Update> updated;      // in this kernel
    std::vector<std::shared_ptr<void>> alive;             // scratch memory of this kernel: addresses are not reused
};
inline Here& here() { static thread_local Here h; return h; }
// one instance in the whole process, whichever module asks
__attribute__((visibility("default"))) inline State& state() { static State s; return s; }
[[noreturn]] inline void fail(const std::string& what) { throw std::out_of_range("kokkos stand-in: " + what); }
inline void reset() { here() = Here(); }
inline bool watching() { return state().watch && here().depth > 0; }
inline void touch(const void* p, size_t size, const std::string& name, bool atomic = false) {
    if (size > 8) return;
    auto [it, fresh] = here().touched.try_emplace(p);
    auto& t = it->second;
    if (fresh) { t.size = (unsigned char)size; std::memcpy(t.was, p, size); t.name = name; }
    (atomic ? t.atomic : t.plain)++;
}
inline void atomic_access(const void* p, size_t size) { if (watching()) touch(p, size, "", true); }
// the running strand pauses or ends: what has it changed, and who else changed that?
inline void settle() {
    auto& h = here();
    if (!watching()) return;
    std::string found;
    for (auto& [p, t] : h.touched) {
        if (std::memcmp(p, t.was, t.size) == 0) continue;
        const bool atomic = t.atomic > 0;
        auto [it, fresh] = h.updated.try_emplace(p, Update{h.strand, atomic});
        if (fresh) continue;
        const Strand &a = it->second.by, &b = h.strand;
        const bool unordered = a.iteration != b.iteration ||
            (a.epoch == b.epoch && (a.member != b.member || (a.loop != 0 && a.loop == b.loop && a.lane != b.lane)));
        if (unordered && !(atomic && it->second.atomic))
            found = "element of view '" + t.name + "' updated without atomics by parallel iterations (" + std::to_string(a.iteration) + " and " +
                std::to_string(b.iteration) + ", team members " + std::to_string(a.member) + " and " + std::to_string(b.member) + ")";
        it->second = Update{h.strand, atomic};
    }
    h.touched.clear();
    if (!found.empty()) { h.updated.clear(); fail(found); }
}
struct Kernel {
    Kernel() { auto& h = here(); h.depth++; state().kernels++; if (h.depth == 1) clear(); }
    ~Kernel() { auto& h = here(); if (h.depth == 1) clear(); h.depth--; }
    static void clear() { auto& h = here(); h.strand = {}; h.touched.clear(); h.updated.clear(); h.alive.clear(); }
};
// calls f for every element of 0..n-1, in the configured order
template <class F> inline void iterate(long n, F&& f) {
    const int o = state().order;
    if (o == 0) { for (long i = 0; i < n; ++i) f(i); return; }
    if (o == 1) { for (long i = n - 1; i >= 0; --i) f(i); return; }
    if (n <= 0) return;
    unsigned long h = 2654435761UL * (unsigned long)o + 40503UL * (unsigned long)n;
    long step = 1 + (long)((h >> 7) % (unsigned long)n);
    auto gcd = [](long a, long b) { while (b) { long t = a % b; a = b; b = t; } return a; };
    while (gcd(step, n) != 1) ++step;
    long i = (long)((h >> 3) % (unsigned long)n);
    for (long k = 0; k < n; ++k) { f(i); i = (i + step) % n; }
}
template <class T> inline void junk(T* p, size_t n) {
    if constexpr (std::is_floating_point_v<T>) for (size_t i = 0; i < n; ++i) p[i] = std::numeric_limits<T>::quiet_NaN();
    else if constexpr (std::is_integral_v<T>) std::memset((void*)p, 0x5a, n * sizeof(T));
}
}  // namespace verif

// ---- spaces, layouts, tags -------------------------------------------------------------------
struct LayoutRight {}; struct LayoutLeft {}; struct LayoutStride {};
struct HostSpace { using memory_space = HostSpace; static constexpr verif::Space space = verif::Space::host; };
struct DeviceSpace { using memory_space = DeviceSpace; static constexpr verif::Space space = verif::Space::device; };
struct SharedSpace { using memory_space = SharedSpace; static constexpr verif::Space space = verif::Space::shared; };
struct Serial {
    using memory_space = DeviceSpace; using execution_space = Serial; using array_layout = LayoutRight;
    static constexpr verif::Space space = verif::Space::device;
    void fence(const std::string& = "") const {}
    int concurrency() const { return 1; }
};
struct DefaultHostExecutionSpaceImpl {
    using memory_space = HostSpace; using execution_space = DefaultHostExecutionSpaceImpl; using array_layout = LayoutRight;
    static constexpr verif::Space space = verif::Space::host;
};
using DefaultExecutionSpace = Serial;
using DefaultHostExecutionSpace = DefaultHostExecutionSpaceImpl;
enum MemoryTraitsFlags { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8 };
template <unsigned F> struct MemoryTraits { static constexpr unsigned flags = F; };
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
struct WithoutInitializing_t {}; inline constexpr WithoutInitializing_t WithoutInitializing{};
struct SequentialHostInit_t {}; inline constexpr SequentialHostInit_t SequentialHostInit{};
struct ALL_t {}; inline constexpr ALL_t ALL{};
struct AUTO_t {}; inline constexpr AUTO_t AUTO{};
template <class T, size_t N> struct Array {
    using value_type = T; using size_type = size_t;
    T values[N ? N : 1];
    T& operator[](size_t i) { if (i >= N) verif::fail("index of a Kokkos::Array"); return values[i]; }
    const T& operator[](size_t i) const { if (i >= N) verif::fail("index of a Kokkos::Array"); return values[i]; }
    static constexpr size_t size() { return N; }
    static constexpr size_t max_size() { return N; }
    static constexpr bool empty() { return N == 0; }
    T* data() { return values; }
    const T* data() const { return values; }
    T* begin() { return values; }
    T* end() { return values + N; }
    const T* begin() const { return values; }
    const T* end() const { return values + N; }
};
template <class T, class... U> Array(T, U...) -> Array<T, 1 + sizeof...(U)>;
template <class A, class B> using pair = std::pair<A, B>;
template <class A, class B> inline std::pair<A, B> make_pair(A a, B b) { return {a, b}; }

struct ViewCtorProp { std::string label; bool init = true; };
namespace Impl {
inline void prop(ViewCtorProp& p, const std::string& s) { p.label = s; }
inline void prop(ViewCtorProp& p, const char* s) { p.label = s; }
inline void prop(ViewCtorProp& p, WithoutInitializing_t) { p.init = false; }
inline void prop(ViewCtorProp&, SequentialHostInit_t) {}
template <class S> requires requires { typename S::memory_space; } inline void prop(ViewCtorProp&, const S&) {}
template <class D> struct Data { using value = D; static constexpr int rank = 0, dynamic = 0; static constexpr size_t fixed(int) { return 0; } static constexpr size_t at(int) { return 0; } };
template <class D> struct Data<D*> {
    using value = typename Data<D>::value;
    static constexpr int rank = Data<D>::rank + 1, dynamic = Data<D>::dynamic + 1;
    static constexpr size_t fixed(int) { return 0; }
    static constexpr size_t at(int) { return 0; }
};
template <class D, size_t N> struct Data<D[N]> {          // the run-time extents come first
    using value = typename Data<D>::value;
    static constexpr int rank = Data<D>::rank + 1, dynamic = Data<D>::dynamic;
    static constexpr size_t fixed(int i) { return i == 0 ? N : Data<D>::fixed(i - 1); }
    static constexpr size_t at(int i) { return i < dynamic ? 0 : fixed(i - dynamic); }
};
template <class T, int R> struct Stars { using type = typename Stars<T*, R - 1>::type; };
template <class T> struct Stars<T, 0> { using type = T; };
template <class P, class = void> struct SpaceOf { static constexpr bool has = false; static constexpr verif::Space space = verif::Space::device; };
template <class P> struct SpaceOf<P, std::void_t<typename P::memory_space>> { static constexpr bool has = true; static constexpr verif::Space space = P::space; };
template <class... P> struct Spaces { static constexpr verif::Space space = verif::Space::device; };
template <class P, class... R> struct Spaces<P, R...> {
    static constexpr verif::Space space = SpaceOf<P>::has ? SpaceOf<P>::space : Spaces<R...>::space;
};
template <class T> struct Storage {
    T* p; size_t n;
    Storage(size_t n, bool init) : n(n) {
        p = n ? new T[n]() : nullptr;
        if (!init) verif::junk(p, n);
    }
    ~Storage() { delete[] p; }
    Storage(const Storage&) = delete;
};
struct Scratch { std::vector<std::shared_ptr<void>>* team; size_t* next; };
template <class P> struct IsAtomic { static constexpr bool value = false; };
template <unsigned F> struct IsAtomic<MemoryTraits<F>> { static constexpr bool value = (F & (unsigned)Kokkos::Atomic) != 0; };
}  // namespace Impl
template <class... A> inline ViewCtorProp view_alloc(const A&... a) { ViewCtorProp p; (Impl::prop(p, a), ...); return p; }

template <class D, class... P> class View {
public:
    using data_type = D;
    using value_type = typename Impl::Data<D>::value;
    using non_const_value_type = std::remove_const_t<value_type>;
    using non_const_data_type = typename Impl::Stars<non_const_value_type, Impl::Data<D>::rank>::type;
    using const_data_type = typename Impl::Stars<const non_const_value_type, Impl::Data<D>::rank>::type;
    using reference_type = value_type&;
    using pointer_type = value_type*;
    using size_type = size_t;
    using array_layout = LayoutRight;
    using execution_space = DefaultExecutionSpace;
    using memory_space = DeviceSpace;
    using HostMirror = View<non_const_data_type, HostSpace>;
    using host_mirror_type = HostMirror;
    using const_type = View<const_data_type, P...>;
    using non_const_type = View<non_const_data_type, P...>;
    struct traits { using execution_space = DefaultExecutionSpace; using value_type = View::value_type; };
    static constexpr std::integral_constant<int, Impl::Data<D>::rank> rank{};
    static constexpr int Rank = Impl::Data<D>::rank;
    static constexpr size_t static_extent(int i) { return Impl::Data<D>::at(i); }
    template <class... N> static size_t shmem_size(N... n) { size_t s = sizeof(value_type); ((s *= (size_t)n), ...); return s; }
    static constexpr size_t required_allocation_size(size_t a = 1, size_t b = 1, size_t c = 1, size_t d = 1) { return a * b * c * d * sizeof(value_type); }
    int use_count() const { return (int)hold.use_count(); }
    long stride_0() const { return (long)stride[0]; }
    long stride_1() const { return (long)stride[1]; }
    size_t extent_0() const { return extent(0); }
    template <class... I> value_type& access(I... i) const { return (*this)(i...); }
    bool operator==(const View& o) const { return ptr == o.ptr && ext == o.ext && stride == o.stride; }
    template <class D2, class... P2> friend class View;

    std::shared_ptr<void> hold;
    value_type* ptr = nullptr;
    std::array<size_t, 8> ext{}, stride{};
    verif::Space space = Impl::Spaces<P...>::space;
    bool watched = true;     // not for memory of a running kernel
    std::string name;

    View() = default;
    View(const View&) = default;
    View(View&&) = default;
    View& operator=(const View&) = default;
    View& operator=(View&&) = default;
    template <class D2, class... P2>
        requires(Impl::Data<D2>::rank == rank && std::is_convertible_v<typename Impl::Data<D2>::value (*)[], value_type (*)[]>)
    View(const View<D2, P2...>& o) : hold(o.hold), ptr(o.ptr), ext(o.ext), stride(o.stride), space(o.space), watched(o.watched), name(o.name) {}
    template <class... N> requires(std::is_convertible_v<N, size_t> && ...)
    explicit View(const std::string& label, N... n) { allocate({label, true}, {(size_t)n...}); }
    template <class... N> requires(std::is_convertible_v<N, size_t> && ...)
    explicit View(const char* label, N... n) { allocate({label, true}, {(size_t)n...}); }
    template <class... N> requires(std::is_convertible_v<N, size_t> && ...)
    explicit View(const ViewCtorProp& prop, N... n) { allocate(prop, {(size_t)n...}); }
    template <class... N> requires(std::is_convertible_v<N, size_t> && ...)
    explicit View(value_type* p, N... n) { name = "unmanaged"; shape({(size_t)n...}); ptr = p; if (unmanaged_shared) space = verif::Space::host; watched = verif::here().depth == 0; }
    template <class... N> requires(std::is_convertible_v<N, size_t> && ...)
    explicit View(const Impl::Scratch& from, N... n) {
        shape({(size_t)n...});
        if (count() * sizeof(value_type) > verif::here().scratch_bytes) verif::fail("scratch view larger than the scratch space asked for");
        const size_t k = from.next ? (*from.next)++ : 0;
        if (from.team && k < from.team->size()) hold = (*from.team)[k];     // another member of the team came first
        else {
            hold = std::make_shared<Impl::Storage<non_const_value_type>>(count(), false);
            if (from.team) from.team->push_back(hold);
            verif::here().alive.push_back(hold);
        }
        auto* a = static_cast<Impl::Storage<non_const_value_type>*>(hold.get());
        if (a->n != count()) verif::fail("members of a team ask for different scratch memory");
        ptr = a->p; name = "scratch"; space = verif::Space::device;
    }
    void allocate(const ViewCtorProp& prop, const std::vector<size_t>& n) {
        shape(n);
        auto a = std::make_shared<Impl::Storage<non_const_value_type>>(count(), prop.init);
        ptr = a->p; hold = a; name = prop.label;
        space = Impl::Spaces<P...>::space;
    }
    void shape(const std::vector<size_t>& n) {
        ext.fill(0); stride.fill(0);
        for (int i = 0; i < rank; ++i) ext[i] = i < (int)n.size() ? n[i] : Impl::Data<D>::at(i);
        size_t s = 1;
        for (int i = rank - 1; i >= 0; --i) { stride[i] = s; s *= ext[i]; }
    }
    size_t count() const { size_t s = 1; for (int i = 0; i < rank; ++i) s *= ext[i]; return s; }
    size_t size() const { return ptr || hold ? count() : (rank ? count() : 0); }
    size_t span() const { return size(); }
    size_t extent(int i) const { return i < rank ? ext[i] : 1; }
    int extent_int(int i) const { return (int)extent(i); }
    value_type* data() const { return ptr; }
    bool is_allocated() const { return ptr != nullptr; }
    bool span_is_contiguous() const { return true; }
    std::string label() const { return name; }
    template <class... I> value_type& operator()(I... i) const {
        static_assert(sizeof...(I) == rank, "number of indices");
        auto& s = verif::state();
        if (s.separate) {
            if (space == verif::Space::device && verif::here().depth == 0) verif::fail("host code touches device memory of view '" + name + "'");
            if (space == verif::Space::host && verif::here().depth > 0) verif::fail("a kernel touches host memory of view '" + name + "'");
        }
        const long long idx[] = {(long long)i..., 0};
        size_t o = 0;
        for (int d = 0; d < rank; ++d) {
            if (idx[d] < 0 || (unsigned long long)idx[d] >= ext[d])
                verif::fail("view '" + name + "': index " + std::to_string(idx[d]) + " of dimension " + std::to_string(d) + " outside 0.." + std::to_string((long long)ext[d] - 1));
            o += stride[d] * (size_t)idx[d];
        }
        if constexpr (std::is_arithmetic_v<value_type> && !std::is_const_v<value_type>)
            if (s.watch && watched && verif::here().depth > 0) verif::touch(ptr + o, sizeof(value_type), name, atomic);
        return ptr[o];
    }
    template <class I> value_type& operator[](I i) const { return (*this)(i); }
    // unchecked element by flat (row-major) number
    value_type& flat(size_t f) const {
        size_t o = 0;
        for (int d = rank - 1; d >= 0; --d) { o += stride[d] * (f % ext[d]); f /= ext[d]; }
        return ptr[o];
    }
private:
    static constexpr bool atomic = (Impl::IsAtomic<P>::value || ... || false);
    static constexpr bool unmanaged_shared = Impl::Spaces<P...>::space == verif::Space::host;
};

// ---- memory operations -----------------------------------------------------------------------
template <class V> struct is_view : std::false_type {};
template <class D, class... P> struct is_view<View<D, P...>> : std::true_type {};

template <class D, class... P> inline void deep_copy(const View<D, P...>& v, const std::type_identity_t<typename View<D, P...>::value_type>& x) {
    const size_t n = v.size();
    for (size_t i = 0; i < n; ++i) v.flat(i) = x;
}
template <class D, class... P, class D2, class... P2> inline void deep_copy(const View<D, P...>& a, const View<D2, P2...>& b) {
    static_assert(View<D, P...>::rank == View<D2, P2...>::rank, "deep_copy between ranks");
    for (int d = 0; d < a.rank; ++d)
        if (a.extent(d) != b.extent(d))
            throw std::runtime_error("kokkos stand-in: deep_copy of views with different extents: '" + a.label() + "' and '" + b.label() + "'");
    const size_t n = a.size();
    if ((const void*)a.ptr == (const void*)b.ptr && a.stride == b.stride) return;
    for (size_t i = 0; i < n; ++i) a.flat(i) = b.flat(i);
}
template <class S, class A, class B> requires requires { typename S::execution_space; } && (!is_view<S>::value)
inline void deep_copy(const S&, const A& a, const B& b) { deep_copy(a, b); }
namespace Impl {
template <class V> inline void remake(V& v, const std::vector<size_t>& n, bool init, bool keep) {
    bool same = v.is_allocated();
    for (int d = 0; d < v.rank; ++d) same = same && v.ext[d] == (d < (int)n.size() ? n[d] : 0);
    if (same) {
        if (!keep && init) for (size_t i = 0; i < v.size(); ++i) v.flat(i) = typename V::value_type();
        return;
    }
    V old = v, fresh;
    fresh.allocate({v.name, init}, n);
    if (keep && old.size() > 0 && fresh.size() > 0) {
        std::array<size_t, 8> idx{};
        while (true) {
            size_t a = 0, b = 0; bool in = true;
            for (int d = 0; d < v.rank; ++d) { in = in && idx[d] < fresh.ext[d]; a += idx[d] * fresh.stride[d]; b += idx[d] * old.stride[d]; }
            if (in) fresh.ptr[a] = old.ptr[b];
            int d = v.rank - 1;
            while (d >= 0 && ++idx[d] == old.ext[d]) idx[d--] = 0;
            if (d < 0) break;
        }
    }
    v = fresh;
}
}  // namespace Impl
template <class D, class... P, class... N> inline void realloc(View<D, P...>& v, N... n) { Impl::remake(v, {(size_t)n...}, true, false); }
template <class D, class... P, class... N> inline void realloc(WithoutInitializing_t, View<D, P...>& v, N... n) { Impl::remake(v, {(size_t)n...}, false, false); }
template <class D, class... P, class... N> inline void resize(View<D, P...>& v, N... n) { Impl::remake(v, {(size_t)n...}, true, true); }
template <class D, class... P, class... N> inline void resize(WithoutInitializing_t, View<D, P...>& v, N... n) { Impl::remake(v, {(size_t)n...}, false, true); }
template <class D, class... P, class... N> inline void realloc(const ViewCtorProp& p, View<D, P...>& v, N... n) { Impl::remake(v, {(size_t)n...}, p.init, false); }
template <class D, class... P, class... N> inline void resize(const ViewCtorProp& p, View<D, P...>& v, N... n) { Impl::remake(v, {(size_t)n...}, p.init, true); }

namespace Impl {
template <class To, class D, class... P> inline View<D, To> mirror(const View<D, P...>& v, const std::string& label, bool init, bool copy, bool always) {
    using V = View<D, P...>;
    const verif::Space to = SpaceOf<To>::space;
    const bool reachable = !verif::state().separate || v.space == to || v.space == verif::Space::shared;
    if (reachable && !always) { View<D, To> w = v; return w; }
    View<typename V::non_const_data_type, To> w;
    std::vector<size_t> n(v.ext.begin(), v.ext.begin() + V::rank);
    w.allocate({label.empty() ? v.name : label, init}, n);
    if (copy) for (size_t i = 0; i < v.size(); ++i) w.flat(i) = v.flat(i);
    return w;
}
}  // namespace Impl
template <class D, class... P> inline View<D, HostSpace> create_mirror_view(const View<D, P...>& v) { return Impl::mirror<HostSpace>(v, "", true, false, false); }
template <class D, class... P> inline View<D, HostSpace> create_mirror(const View<D, P...>& v) { return Impl::mirror<HostSpace>(v, "", true, false, true); }
template <class S, class D, class... P> requires requires { typename S::memory_space; }
inline View<D, typename S::memory_space> create_mirror_view(const S&, const View<D, P...>& v) { return Impl::mirror<typename S::memory_space>(v, "", true, false, false); }
template <class D, class... P> inline View<D, HostSpace> create_mirror_view(WithoutInitializing_t, const View<D, P...>& v) { return Impl::mirror<HostSpace>(v, "", false, false, false); }
template <class S, class D, class... P> requires requires { typename S::memory_space; }
inline View<D, typename S::memory_space> create_mirror_view_and_copy(const S&, const View<D, P...>& v, const std::string& label = "") { return Impl::mirror<typename S::memory_space>(v, label, false, true, false); }

namespace Impl {
template <class A> struct Keeps { static constexpr int n = std::is_integral_v<A> ? 0 : 1; };
template <class V, class W, class A> inline void slice(const V& v, W& w, int& d, int& k, size_t& o, const A& a) {
    if constexpr (std::is_integral_v<A>) {
        if ((long long)a < 0 || (size_t)a >= v.ext[d]) verif::fail("subview of '" + v.name + "': index outside the view");
        o += (size_t)a * v.stride[d];
    } else if constexpr (std::is_same_v<A, ALL_t>) {
        w.ext[k] = v.ext[d]; w.stride[k++] = v.stride[d];
    } else {
        if ((long long)a.first < 0 || (long long)a.second < (long long)a.first || (size_t)a.second > v.ext[d]) verif::fail("subview of '" + v.name + "': range outside the view");
        o += (size_t)a.first * v.stride[d];
        w.ext[k] = (size_t)(a.second - a.first); w.stride[k++] = v.stride[d];
    }
    ++d;
}
}  // namespace Impl
template <class D, class... P, class... A> inline auto subview(const View<D, P...>& v, A... a) {
    static_assert(sizeof...(A) == View<D, P...>::rank);
    constexpr int R = (Impl::Keeps<A>::n + ...);
    View<typename Impl::Stars<typename View<D, P...>::value_type, R>::type, LayoutStride> w;
    int d = 0, k = 0; size_t o = 0;
    (Impl::slice(v, w, d, k, o, a), ...);
    w.ptr = v.ptr ? v.ptr + o : nullptr; w.hold = v.hold; w.space = v.space; w.watched = v.watched; w.name = v.name;
    return w;
}

// ---- execution -------------------------------------------------------------------------------
template <class... A> struct RangePolicy {
    long begin_, end_;
    RangePolicy(long b, long e) : begin_(b), end_(e) {}
    long begin() const { return begin_; }
    long end() const { return end_; }
    template <class S> requires requires { typename S::memory_space; } RangePolicy(const S&, long b, long e) : begin_(b), end_(e) {}
};
enum class Iterate { Default, Left, Right };
template <int N, Iterate O = Iterate::Default, Iterate I = Iterate::Default> struct Rank { static constexpr int n = N; };
template <class R, class... A> struct MDRangePolicy {
    std::array<long, R::n> lo, hi;
    MDRangePolicy(const std::array<long, R::n>& a, const std::array<long, R::n>& b) : lo(a), hi(b) {}
};
struct ParallelForTag {}; struct ParallelReduceTag {}; struct ParallelScanTag {};
struct IndexTypeAny {};
template <class T> struct IndexType {}; template <class T> struct Schedule {}; struct Dynamic {}; struct Static {};
template <unsigned T, unsigned B = 0> struct LaunchBounds {};
struct PerTeamValue { size_t bytes; };
namespace verif {
// The members of one team, as coroutines.  A member runs until Kokkos would make it wait for the others.
struct Team {
    struct Member { ucontext_t context; std::unique_ptr<char[]> stack; bool done = false, waiting = false; size_t scratches = 0; };
    int size; long epoch = 0, iteration = 0; int running = 0;
    std::vector<std::unique_ptr<Member>> members;
    std::vector<std::shared_ptr<void>> scratch;
    std::vector<std::shared_ptr<void>> exchange;       // partial results of a reduction
    ucontext_t main;
    std::exception_ptr error;
    std::function<void(int)> body;
    explicit Team(int n) : size(n) {
        for (int i = 0; i < n; ++i) members.push_back(std::make_unique<Member>());
        exchange.resize(n);
    }
    static void entry(unsigned hi, unsigned lo) {
        auto* t = (Team*)(((uintptr_t)hi << 32) | (uintptr_t)lo);
        const int me = t->running;
        try { t->body(me); } catch (...) { t->error = std::current_exception(); }
        t->members[me]->done = true;
        swapcontext(&t->members[me]->context, &t->main);
    }
    void wait() {                                       // called by a member
        auto& m = *members[running];
        m.waiting = true;
        swapcontext(&m.context, &main);
    }
    void run(long it) {
        iteration = it; scratch.clear(); epoch = 0; error = nullptr;
        for (auto& m : members) {
            m->done = m->waiting = false; m->scratches = 0;
            if (size == 1) continue;
            if (!m->stack) m->stack.reset(new char[STACK]);
            getcontext(&m->context);
            m->context.uc_stack.ss_sp = m->stack.get(); m->context.uc_stack.ss_size = STACK; m->context.uc_link = nullptr;
            makecontext(&m->context, (void (*)())entry, 2, (unsigned)((uintptr_t)this >> 32), (unsigned)(uintptr_t)this);
        }
        auto& h = here();
        if (size == 1) {
            running = 0;
            h.strand = Strand{iteration, 0, 0, 0, 0};
            body(0);
            settle();
            return;
        }
        while (true) {
            int done = 0;
            iterate(size, [&](long k) {
                running = (int)k;
                members[k]->waiting = false;
                h.strand = Strand{iteration, (int)k, epoch, 0, 0};
                swapcontext(&main, &members[k]->context);
                if (error) std::rethrow_exception(error);
                settle();
                done += members[k]->done;
            });
            if (done == size) return;
            if (done > 0) fail("some members of a team end while others wait at a barrier");
            ++epoch;
        }
    }
    static constexpr size_t STACK = 1 << 18;
};
}  // namespace verif
struct TeamMember {
    int league, league_n;
    verif::Team* team;
    int me;
    int league_rank() const { return league; }
    int league_size() const { return league_n; }
    int team_rank() const { return me; }
    int team_size() const { return team->size; }
    void team_barrier() const {
        if (team->size > 1) team->wait();
        else { verif::settle(); verif::here().strand.epoch = ++team->epoch; }
    }
    Impl::Scratch team_scratch(int) const { return {&team->scratch, &team->members[me]->scratches}; }
    Impl::Scratch thread_scratch(int) const { return {nullptr, nullptr}; }
    // f on the member's share of 0..n-1
    template <class F> void share(long n, F&& f) const {
        const long t = team->size;
        if (t == 1) { verif::iterate(n, f); return; }
        if (verif::state().order % 2 == 0) {            // every t-th, as on a GPU
            verif::iterate(n > me ? (n - me + t - 1) / t : 0, [&](long i) { f(me + i * t); });
        } else {                                        // blocks, as with host threads
            const long size = (n + t - 1) / t, lo = std::min(n, me * size), hi = std::min(n, lo + size);
            verif::iterate(hi - lo, [&](long i) { f(lo + i); });
        }
    }
    // the members' partial results, combined
    template <class T, class J> void combine(T& mine, const J& join) const {
        if (team->size == 1) return;
        team->exchange[me] = std::make_shared<T>(mine);
        team_barrier();
        T all = *static_cast<T*>(team->exchange[0].get());
        for (int i = 1; i < team->size; ++i) join(all, *static_cast<T*>(team->exchange[i].get()));
        team_barrier();
        mine = all;
    }
    template <class T> void team_broadcast(T& x, int from) const {
        if (team->size == 1) return;
        if (me == from) team->exchange[0] = std::make_shared<T>(x);
        team_barrier();
        const T y = *static_cast<T*>(team->exchange[0].get());
        team_barrier();
        x = y;
    }
    template <class R> requires requires { typename R::is_reducer; } void team_reduce(const R& r) const {
        auto x = r.reference();
        combine(x, [&](auto& a, const auto& b) { r.join(a, b); });
        r.reference() = x;
    }
};
struct PerTeamMember { int me; const TeamMember* team; };
template <class T> requires std::is_integral_v<T> inline PerTeamValue PerTeam(T n) { return {(size_t)n}; }
inline PerTeamMember PerTeam(const TeamMember& m) { return {m.me, &m}; }
template <class T> requires std::is_integral_v<T> inline PerTeamValue PerThread(T n) { return {(size_t)n}; }
inline PerTeamMember PerThread(const TeamMember&) { return {0, nullptr}; }
template <class... A> struct TeamPolicy {
    using member_type = TeamMember;
    long league; int size; size_t scratch = 0;
    template <class T> TeamPolicy(long n, T t) : league(n), size(members(t)) {}
    template <class T, class V> requires std::is_integral_v<T> || std::is_same_v<T, AUTO_t> TeamPolicy(long n, T t, V) : league(n), size(members(t)) {}
    template <class S, class T> requires requires { typename S::memory_space; } TeamPolicy(const S&, long n, T t) : league(n), size(members(t)) {}
    template <class S, class T, class V> requires requires { typename S::memory_space; } TeamPolicy(const S&, long n, T t, V) : league(n), size(members(t)) {}
    int league_size() const { return (int)league; }
    int team_size() const { return size; }
    TeamPolicy& set_scratch_size(int, PerTeamValue v, PerTeamValue w) { scratch += v.bytes + w.bytes; return *this; }
    TeamPolicy& set_chunk_size(int) { return *this; }
    static int vector_length_max() { return 32; }
    static int scratch_size_max(int) { return 1 << 20; }
    template <class F, class Tag> int team_size_max(const F&, const Tag&) const { return 128; }
    template <class F, class Tag> int team_size_recommended(const F&, const Tag&) const { return verif::state().team; }
    TeamPolicy& set_scratch_size(int, PerTeamValue v) { scratch += v.bytes; return *this; }
    static int members(AUTO_t) { return verif::state().team; }
    template <class T> requires std::is_integral_v<T> static int members(T t) { return (int)t; }
};
template <class T> struct Reducer {
    using value_type = T; using is_reducer = void;
    T* to;
    explicit Reducer(T& x) : to(&x) {}
    T& reference() const { return *to; }
};
template <class T, class S = void> struct Sum : Reducer<T> { using Reducer<T>::Reducer; T identity() const { return T(0); } void join(T& a, const T& b) const { a += b; } void init(T& a) const { a = T(0); } };
template <class T, class S = void> struct Prod : Reducer<T> { using Reducer<T>::Reducer; T identity() const { return T(1); } void join(T& a, const T& b) const { a *= b; } void init(T& a) const { a = T(1); } };
template <class T, class S = void> struct Max : Reducer<T> { using Reducer<T>::Reducer; T identity() const { return std::numeric_limits<T>::lowest(); } void join(T& a, const T& b) const { if (a < b) a = b; } void init(T& a) const { a = identity(); } };
template <class T, class S = void> struct Min : Reducer<T> { using Reducer<T>::Reducer; T identity() const { return std::numeric_limits<T>::max(); } void join(T& a, const T& b) const { if (b < a) a = b; } void init(T& a) const { a = identity(); } };
template <class T, class S = void> struct LOr : Reducer<T> { using Reducer<T>::Reducer; T identity() const { return T(0); } void join(T& a, const T& b) const { a = a || b; } void init(T& a) const { a = T(0); } };
template <class T, class S = void> struct LAnd : Reducer<T> { using Reducer<T>::Reducer; T identity() const { return T(1); } void join(T& a, const T& b) const { a = a && b; } void init(T& a) const { a = T(1); } };
enum class Level { thread, vector, both };
template <Level L> struct Loop { TeamMember member; long begin, end; };
template <class N> inline Loop<Level::thread> TeamThreadRange(const TeamMember& m, N n) { return {m, 0, (long)n}; }
template <class N> inline Loop<Level::thread> TeamThreadRange(const TeamMember& m, N a, N b) { return {m, (long)a, (long)b}; }
template <class N> inline Loop<Level::both> TeamVectorRange(const TeamMember& m, N n) { return {m, 0, (long)n}; }
template <class N> inline Loop<Level::both> TeamVectorRange(const TeamMember& m, N a, N b) { return {m, (long)a, (long)b}; }
template <class N> inline Loop<Level::vector> ThreadVectorRange(const TeamMember& m, N n) { return {m, 0, (long)n}; }
template <class N> inline Loop<Level::vector> ThreadVectorRange(const TeamMember& m, N a, N b) { return {m, (long)a, (long)b}; }
template <Level L, int N> struct Box { TeamMember member; std::array<long, N> n; };
template <class R, class M> struct TeamVectorMDRange : Box<Level::both, R::n> {
    template <class... N> TeamVectorMDRange(const M& m, N... n_) : Box<Level::both, R::n>{m, {(long)n_...}} {}
};
template <class R, class M> struct TeamThreadMDRange : Box<Level::thread, R::n> {
    template <class... N> TeamThreadMDRange(const M& m, N... n_) : Box<Level::thread, R::n>{m, {(long)n_...}} {}
};
template <class R, class M> struct ThreadVectorMDRange : Box<Level::vector, R::n> {
    template <class... N> ThreadVectorMDRange(const M& m, N... n_) : Box<Level::vector, R::n>{m, {(long)n_...}} {}
};

namespace Impl {
template <size_t N, class F> inline auto unpack(const std::array<long, N>& lo, const std::array<long, N>& hi, const F& f) {
    return [&](long t) {
        std::array<long, N> i;
        for (int d = (int)N - 1; d >= 0; --d) { const long n = hi[d] - lo[d]; i[d] = lo[d] + t % n; t /= n; }
        std::apply([&](auto... x) { f((int)x...); }, i);
    };
}
template <size_t N> inline long total(const std::array<long, N>& lo, const std::array<long, N>& hi) {
    long total = 1;
    for (size_t d = 0; d < N; ++d) total *= hi[d] > lo[d] ? hi[d] - lo[d] : 0;
    return total;
}
// the iterations of a kernel
template <class F> inline void top(long n, const F& f) {
    verif::iterate(n, [&](long i) { verif::here().strand = verif::Strand{i, 0, 0, 0, 0}; f(i); verif::settle(); });
}
// the iterations of a vector loop
inline long loop_number() { static thread_local long n = 0; return ++n; }
template <class F> inline auto lanes(const F& f) {
    return [&f, k = loop_number()](long i) {
        if (!verif::watching()) { f(i); return; }
        auto& s = verif::here().strand;
        verif::settle();
        const auto before = s;
        s.loop = k; s.lane = i;
        f(i);
        verif::settle();
        verif::here().strand = before;
    };
}
template <class F> inline void team(long league, int size, size_t scratch, const F& f) {
    if (league <= 0) return;
    if (size < 1) verif::fail("a team without members");
    auto& s = verif::here();
    const size_t before = s.scratch_bytes;
    s.scratch_bytes = scratch;
    auto t = std::make_unique<verif::Team>(size);
    verif::iterate(league, [&](long i) {
        t->body = [&](int me) { f(TeamMember{(int)i, (int)league, t.get(), me}); };
        t->run(i);
    });
    s.scratch_bytes = before;
}
template <Level L, class F> inline void nested(const Loop<L>& r, const F& f) {
    auto g = [&](long i) { f((int)(r.begin + i)); };
    const long n = r.end - r.begin;
    if constexpr (L == Level::thread) r.member.share(n, g);
    else if constexpr (L == Level::both) r.member.share(n, lanes(g));
    else verif::iterate(n, lanes(g));
}
template <class X> inline auto reducer(X& x) {
    if constexpr (requires { typename X::is_reducer; }) return x;
    else if constexpr (is_view<X>::value) return Sum<typename X::value_type>(*x.data());
    else return Sum<X>(x);
}
// run(g, combine): g(i) for the iterations of the caller; combine joins partial results held by others
template <class R, class F, class... Red> inline void reduce_into(const R& run, const F& f, const Red&... red) {
    std::tuple<Red...> rs(red...);
    std::tuple<typename Red::value_type...> acc(red.identity()...);
    auto join = [&](auto& a, const auto& b) {
        [&]<size_t... I>(std::index_sequence<I...>) { (std::get<I>(rs).join(std::get<I>(a), std::get<I>(b)), ...); }(std::index_sequence_for<Red...>());
    };
    run([&](auto... i) { std::apply([&](auto&... a) { f(i..., a...); }, acc); }, [&](const TeamMember& m) { m.combine(acc, join); });
    [&]<size_t... I>(std::index_sequence<I...>) { ((std::get<I>(rs).reference() = std::get<I>(acc)), ...); }(std::index_sequence_for<Red...>());
}
template <class R, class F, class... X> inline void reduce(const R& run, const F& f, X&... out) { reduce_into(run, f, reducer(out)...); }
}  // namespace Impl

// nested
template <Level L, class F> inline void parallel_for(const Loop<L>& r, const F& f) { Impl::nested(r, f); }
namespace Impl {
template <Level L, int N, class F> inline void nested(const Box<L, N>& r, const F& f) {
    const std::array<long, N> zero{};
    auto g = unpack(zero, r.n, f);
    const long n = total(zero, r.n);
    if constexpr (L == Level::thread) r.member.share(n, g);
    else if constexpr (L == Level::both) r.member.share(n, lanes(g));
    else verif::iterate(n, lanes(g));
}
}  // namespace Impl
template <Level L, int N, class F> inline void parallel_for(const Box<L, N>& r, const F& f) { Impl::nested(r, f); }
template <Level L, class F, class... X> inline void parallel_reduce(const Loop<L>& r, const F& f, X&&... out) {
    Impl::reduce([&](auto&& g, auto&& combine) { Impl::nested(r, g); if constexpr (L != Level::vector) combine(r.member); }, f, out...);
}
template <Level L, int N, class F, class... X> inline void parallel_reduce(const Box<L, N>& r, const F& f, X&&... out) {
    Impl::reduce([&](auto&& g, auto&& combine) { Impl::nested(r, g); if constexpr (L != Level::vector) combine(r.member); }, f, out...);
}
template <class F> inline void single(const PerTeamMember& m, const F& f) { if (m.me == 0) f(); }
template <class F, class T> inline void single(const PerTeamMember& m, const F& f, T& x) {
    if (m.me == 0) f(x);
    if (m.team) m.team->team_broadcast(x, 0);
}
// kernels
template <class I, class F> requires std::is_integral_v<I> inline void parallel_for(I n, const F& f) { verif::Kernel k; Impl::top((long)n, [&](long i) { f((int)i); }); }
template <class... A, class F> inline void parallel_for(const RangePolicy<A...>& p, const F& f) { verif::Kernel k; Impl::top(p.end_ - p.begin_, [&](long i) { f((int)(p.begin_ + i)); }); }
template <class R, class... A, class F> inline void parallel_for(const MDRangePolicy<R, A...>& p, const F& f) { verif::Kernel k; Impl::top(Impl::total(p.lo, p.hi), Impl::unpack(p.lo, p.hi, f)); }
template <class... A, class F> inline void parallel_for(const TeamPolicy<A...>& p, const F& f) { verif::Kernel k; Impl::team(p.league, p.size, p.scratch, f); }
template <class P, class F> inline void parallel_for(const std::string&, const P& p, const F& f) { parallel_for(p, f); }
template <class I, class F, class... X> requires std::is_integral_v<I> inline void parallel_reduce(I n, const F& f, X&&... out) {
    verif::Kernel k;
    Impl::reduce([&](auto&& g, auto&&) { Impl::top((long)n, [&](long i) { g((int)i); }); }, f, out...);
}
template <class... A, class F, class... X> inline void parallel_reduce(const RangePolicy<A...>& p, const F& f, X&&... out) {
    verif::Kernel k;
    Impl::reduce([&](auto&& g, auto&&) { Impl::top(p.end_ - p.begin_, [&](long i) { g((int)(p.begin_ + i)); }); }, f, out...);
}
template <class R, class... A, class F, class... X> inline void parallel_reduce(const MDRangePolicy<R, A...>& p, const F& f, X&&... out) {
    verif::Kernel k;
    Impl::reduce([&](auto&& g, auto&&) { Impl::top(Impl::total(p.lo, p.hi), Impl::unpack(p.lo, p.hi, g)); }, f, out...);
}
template <class... A, class F, class... X> inline void parallel_reduce(const TeamPolicy<A...>& p, const F& f, X&&... out) {
    verif::Kernel k;
    Impl::reduce([&](auto&& g, auto&&) { Impl::team(p.league, p.size, p.scratch, g); }, f, out...);
}
template <class P, class F, class... X> inline void parallel_reduce(const std::string&, const P& p, const F& f, X&&... out) { parallel_reduce(p, f, out...); }
template <class I, class F> requires std::is_integral_v<I> inline void parallel_scan(const std::string&, I n, const F& f) {
    verif::Kernel k;
    const int mid = (int)n / 2;
    auto call = [&](int i, int& part, bool final) { verif::here().strand = verif::Strand{i, 0, 0, 0, 0}; f(i, part, final); if (final) verif::settle(); else verif::here().touched.clear(); };
    int part = 0;
    for (int i = 0; i < mid; ++i) call(i, part, false);
    const int total = part;
    part = 0;
    for (int i = mid; i < (int)n; ++i) call(i, part, false);
    part = total;
    for (int i = mid; i < (int)n; ++i) call(i, part, true);
    part = 0;
    for (int i = 0; i < mid; ++i) call(i, part, true);
}
template <class I, class F, class T> requires std::is_integral_v<I> inline void parallel_scan(const std::string& s, I n, const F& f, T& out) {
    parallel_scan(s, n, f);
    T part = 0;
    verif::Kernel k;
    for (int i = 0; i < (int)n; ++i) f(i, part, false);
    out = part;
}
template <class... A, class F, class... X> inline void parallel_scan(const RangePolicy<A...>& p, const F& f, X&... out) {
    parallel_scan(std::string(), p.end_ - p.begin_, [&](int i, auto& part, bool final) { f((int)(p.begin_ + i), part, final); }, out...);
}
template <class... A, class F, class... X> inline void parallel_scan(const std::string&, const RangePolicy<A...>& p, const F& f, X&... out) { parallel_scan(p, f, out...); }
template <class I, class F> requires std::is_integral_v<I> inline void parallel_scan(I n, const F& f) { parallel_scan(std::string(), n, f); }
template <class I, class F, class T> requires std::is_integral_v<I> inline void parallel_scan(I n, const F& f, T& out) { parallel_scan(std::string(), n, f, out); }

namespace Impl {
template <class T, class F> inline T atomically(T* p, const F& f) { verif::atomic_access(p, sizeof(T)); const T old = *p; *p = f(old); return old; }
template <class T> using Just = std::type_identity_t<T>;
}
template <class T> inline void atomic_add(T* p, const Impl::Just<T> x) { Impl::atomically(p, [&](T o) { return T(o + x); }); }
template <class T> inline void atomic_sub(T* p, const Impl::Just<T> x) { Impl::atomically(p, [&](T o) { return T(o - x); }); }
template <class T> inline void atomic_inc(T* p) { Impl::atomically(p, [&](T o) { return T(o + 1); }); }
template <class T> inline void atomic_increment(T* p) { atomic_inc(p); }
template <class T> inline void atomic_dec(T* p) { Impl::atomically(p, [&](T o) { return T(o - 1); }); }
template <class T> inline void atomic_decrement(T* p) { atomic_dec(p); }
template <class T> inline void atomic_max(T* p, const Impl::Just<T> x) { Impl::atomically(p, [&](T o) { return o < x ? x : o; }); }
template <class T> inline void atomic_min(T* p, const Impl::Just<T> x) { Impl::atomically(p, [&](T o) { return x < o ? x : o; }); }
template <class T> inline void atomic_store(T* p, const Impl::Just<T> x) { Impl::atomically(p, [&](T) { return x; }); }
template <class T> inline void atomic_assign(T* p, const Impl::Just<T> x) { atomic_store(p, x); }
template <class T> inline T atomic_load(T* p) { verif::atomic_access(p, sizeof(T)); return *p; }
template <class T> inline T atomic_exchange(T* p, const Impl::Just<T> x) { return Impl::atomically(p, [&](T) { return x; }); }
template <class T> inline T atomic_fetch_add(T* p, const Impl::Just<T> x) { return Impl::atomically(p, [&](T o) { return T(o + x); }); }
template <class T> inline T atomic_fetch_sub(T* p, const Impl::Just<T> x) { return Impl::atomically(p, [&](T o) { return T(o - x); }); }
template <class T> inline T atomic_fetch_inc(T* p) { return Impl::atomically(p, [&](T o) { return T(o + 1); }); }
template <class T> inline T atomic_add_fetch(T* p, const Impl::Just<T> x) { return (T)(atomic_fetch_add(p, x) + x); }
template <class T> inline T atomic_inc_fetch(T* p) { return (T)(atomic_fetch_inc(p) + 1); }
template <class T> inline T atomic_compare_exchange(T* p, const Impl::Just<T> want, const Impl::Just<T> x) { return Impl::atomically(p, [&](T o) { return o == want ? x : o; }); }
template <class T> inline auto sqrt(T x) { return std::sqrt(x); }
template <class T> inline auto cbrt(T x) { return std::cbrt(x); }
template <class T> inline auto exp(T x) { return std::exp(x); }
template <class T> inline auto exp2(T x) { return std::exp2(x); }
template <class T> inline auto expm1(T x) { return std::expm1(x); }
template <class T> inline auto log(T x) { return std::log(x); }
template <class T> inline auto log2(T x) { return std::log2(x); }
template <class T> inline auto log10(T x) { return std::log10(x); }
template <class T> inline auto log1p(T x) { return std::log1p(x); }
template <class T> inline auto sin(T x) { return std::sin(x); }
template <class T> inline auto cos(T x) { return std::cos(x); }
template <class T> inline auto tan(T x) { return std::tan(x); }
template <class T> inline auto asin(T x) { return std::asin(x); }
template <class T> inline auto acos(T x) { return std::acos(x); }
template <class T> inline auto atan(T x) { return std::atan(x); }
template <class T> inline auto sinh(T x) { return std::sinh(x); }
template <class T> inline auto cosh(T x) { return std::cosh(x); }
template <class T> inline auto tanh(T x) { return std::tanh(x); }
template <class T> inline auto erf(T x) { return std::erf(x); }
template <class T> inline auto erfc(T x) { return std::erfc(x); }
template <class T> inline auto tgamma(T x) { return std::tgamma(x); }
template <class T> inline auto lgamma(T x) { return std::lgamma(x); }
template <class T> inline auto floor(T x) { return std::floor(x); }
template <class T> inline auto ceil(T x) { return std::ceil(x); }
template <class T> inline auto round(T x) { return std::round(x); }
template <class T> inline auto trunc(T x) { return std::trunc(x); }
template <class T> inline auto fabs(T x) { return std::fabs(x); }
template <class T> inline auto isnan(T x) { return std::isnan(x); }
template <class T> inline auto isinf(T x) { return std::isinf(x); }
template <class T> inline auto isfinite(T x) { return std::isfinite(x); }
template <class T> inline auto signbit(T x) { return std::signbit(x); }
template <class T, class U> inline auto atan2(T x, U y) { return std::atan2(x, y); }
template <class T, class U> inline auto hypot(T x, U y) { return std::hypot(x, y); }
template <class T, class U> inline auto fmod(T x, U y) { return std::fmod(x, y); }
template <class T, class U> inline auto fmax(T x, U y) { return std::fmax(x, y); }
template <class T, class U> inline auto fmin(T x, U y) { return std::fmin(x, y); }
template <class T, class U> inline auto copysign(T x, U y) { return std::copysign(x, y); }
template <class T, class U, class V> inline auto fma(T x, U y, V z) { return std::fma(x, y, z); }
template <class T> inline const T& max(const T& a, const T& b) { return std::max(a, b); }
template <class T> inline const T& min(const T& a, const T& b) { return std::min(a, b); }
template <class T> inline const T& clamp(const T& x, const T& a, const T& b) { return std::clamp(x, a, b); }
template <class T> inline void kokkos_swap(T& a, T& b) { std::swap(a, b); }
namespace numbers { inline constexpr double pi = 3.141592653589793238462643383279502884, sqrt2 = 1.41421356237309504880168872420969808, e = 2.71828182845904523536028747135266250, inv_pi = 0.318309886183790671537767526745028724, inv_sqrtpi = 0.564189583547756286948079451560772586; }
template <class... A> inline void printf(const char* f, A... a) { std::printf(f, a...); }
[[noreturn]] inline void abort(const char* what) { throw std::runtime_error(std::string("Kokkos::abort: ") + what); }
template <class T, class U> inline auto pow(T x, U y) { return std::pow(x, y); }
template <class T> inline auto abs(T x) { return std::abs(x); }
inline void fence(const std::string& = "") {}

// ---- sets of numbers -------------------------------------------------------------------------
class Bitset {
    View<unsigned char*> bits;
    bool at(unsigned i, bool write, unsigned char x) const {
        auto& b = bits(i);
        if (write) verif::atomic_access(&b, 1);
        const bool old = b;
        if (write) b = x;
        return old;
    }
public:
    Bitset() = default;
    explicit Bitset(unsigned n) : bits("bitset", n) {}
    unsigned size() const { return (unsigned)bits.extent(0); }
    unsigned count() const { unsigned c = 0; for (size_t i = 0; i < bits.size(); ++i) c += bits.flat(i); return c; }
    void set() { deep_copy(bits, 1); }
    void reset() { deep_copy(bits, 0); }
    void clear() { reset(); }
    bool set(unsigned i) const { return !at(i, true, 1); }
    bool reset(unsigned i) const { return at(i, true, 0); }
    bool test(unsigned i) const { return at(i, false, 0); }
};

struct InitializationSettings {
    InitializationSettings& set_num_threads(int) { return *this; }
    InitializationSettings& set_disable_warnings(bool) { return *this; }
    InitializationSettings& set_map_device_id_by(const std::string&) { return *this; }
};
inline void initialize(int&, char**) { verif::state().initialized = true; }
inline void initialize(const InitializationSettings& = {}) { verif::state().initialized = true; }
inline bool is_initialized() { return verif::state().initialized; }
inline bool is_finalized() { return !verif::state().initialized; }
inline void finalize() { verif::state().initialized = false; }
struct ScopeGuard { template <class... A> ScopeGuard(A&&...) { initialize(); } ~ScopeGuard() { finalize(); } };
struct Timer {
    std::chrono::steady_clock::time_point start = std::chrono::steady_clock::now();
    void reset() { start = std::chrono::steady_clock::now(); }
    double seconds() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); }
};
namespace Profiling { inline void pushRegion(const std::string&) {} inline void popRegion() {} struct ScopedRegion { ScopedRegion(const std::string&) {} }; }
}  // namespace Kokkos
