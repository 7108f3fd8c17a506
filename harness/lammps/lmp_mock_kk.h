// The part of LAMMPS' KOKKOS package the Kokkos pair style uses (included inside namespace LAMMPS_NS).
// With a device that has memory of its own, host and device halves are separate arrays, and only
// sync() moves data between them.
typedef Kokkos::DefaultExecutionSpace LMPDeviceType;
typedef Kokkos::DefaultHostExecutionSpace LMPHostType;

// in a build for CPUs the two device types are one and the space is Host
struct SpaceOfRun { operator ExecutionSpace() const { return Kokkos::verif::state().separate ? Device : Host; } };
template <class D> struct ExecutionSpaceFromDevice { static inline const SpaceOfRun space{}; };
template <> struct ExecutionSpaceFromDevice<LMPHostType> { static constexpr ExecutionSpace space = Host; };

enum : unsigned { EMPTY_MASK = 0, X_MASK = 1, V_MASK = 2, F_MASK = 4, TAG_MASK = 8, TYPE_MASK = 16, MASK_MASK = 32, IMAGE_MASK = 64,
                  Q_MASK = 128, ENERGY_MASK = 256, VIRIAL_MASK = 512, ALL_MASK = 0xffffffffu };

template <class D> class Dual {
  struct Flags { bool host = false, device = false; };
  std::shared_ptr<Flags> mod = std::make_shared<Flags>();
 public:
  using t_dev = Kokkos::View<D, Kokkos::LayoutRight>;
  using t_host = Kokkos::View<D, Kokkos::HostSpace>;
  t_dev d_view;
  t_host h_view;
  Dual() = default;
  template <class... N> explicit Dual(const std::string &name, N... n) : d_view(name, n...) { h_view = Kokkos::create_mirror_view(d_view); }
  size_t extent(int d) const { return d_view.extent(d); }
  size_t size() const { return d_view.size(); }
  template <class Dev> auto view() const {
    if constexpr (std::is_same_v<Dev, LMPHostType>) return h_view;
    else return d_view;
  }
  t_host view_host() const { return h_view; }
  t_dev view_device() const { return d_view; }
  void modify_host() { if (shared()) return; mod->host = true; check(); }
  void modify_device() { if (shared()) return; mod->device = true; check(); }
  void sync_host() { if (shared() || !mod->device) return; Kokkos::deep_copy(h_view, d_view); mod->device = mod->host = false; }
  void sync_device() { if (shared() || !mod->host) return; Kokkos::deep_copy(d_view, h_view); mod->device = mod->host = false; }
  void sync_hostkk() { sync_host(); }
  void clear_sync_state() { mod->host = mod->device = false; }
  bool need_sync_host() const { return mod->device; }
  bool need_sync_device() const { return mod->host; }
  template <class Dev> void modify() { if constexpr (std::is_same_v<Dev, LMPHostType>) modify_host(); else modify_device(); }
  template <class Dev> void sync() { if constexpr (std::is_same_v<Dev, LMPHostType>) sync_host(); else sync_device(); }
  template <class Dev> bool need_sync() const { if constexpr (std::is_same_v<Dev, LMPHostType>) return need_sync_host(); else return need_sync_device(); }
 private:
  bool shared() const { return d_view.data() == h_view.data(); }
  void check() const { if (mod->host && mod->device) throw LAMMPSException("Kokkos::DualView: concurrent modification of host and device views"); }
};

struct DAT {
  using tdual_int_1d = Dual<int *>;
  using tdual_tagint_1d = Dual<tagint *>;
  using tdual_double_1d = Dual<double *>;
  using tdual_double_2d = Dual<double **>;
  using ttransform_kkacc_1d = Dual<double *>;
  using ttransform_kkacc_1d_3 = Dual<double **>;
  using ttransform_kkfloat_1d = Dual<double *>;
  using ttransform_kkfloat_1d_3_lr = Dual<double **>;
};
typedef double KK_FLOAT;
typedef double KK_ACC_FLOAT;

struct dual_hash_type {
  std::shared_ptr<std::vector<int>> table;
  template <class Dev> void sync() {}
  void sync_device() {}
  void sync_host() {}
};

class AtomKokkos : public Atom {
 public:
  DAT::ttransform_kkfloat_1d_3_lr k_x;
  DAT::ttransform_kkacc_1d_3 k_f;
  DAT::tdual_tagint_1d k_tag;
  DAT::tdual_int_1d k_type, k_map_array;
  dual_hash_type k_map_hash;
  void sync(ExecutionSpace s, unsigned mask) {
    auto one = [&](auto &k, unsigned m) { if (mask & m) { if (s == Device) k.sync_device(); else k.sync_host(); } };
    one(k_x, X_MASK); one(k_f, F_MASK); one(k_tag, TAG_MASK); one(k_type, TYPE_MASK);
  }
  void modified(ExecutionSpace s, unsigned mask) {
    auto one = [&](auto &k, unsigned m) { if (mask & m) { if (s == Device) k.modify_device(); else k.modify_host(); } };
    one(k_x, X_MASK); one(k_f, F_MASK); one(k_tag, TAG_MASK); one(k_type, TYPE_MASK);
  }
  template <class Dev> static int map_find_hash_kokkos(tagint t, const dual_hash_type &h) {
    return h.table && t >= 0 && t < (int) h.table->size() ? (*h.table)[t] : -1;
  }
  template <class Dev> static int map_kokkos(tagint t, int style, const DAT::tdual_int_1d &array, const dual_hash_type &hash) {
    if (style == MAP_ARRAY) return array.view<Dev>()(t);
    if (style == MAP_HASH) return map_find_hash_kokkos<Dev>(t, hash);
    return -1;
  }
};

class MemoryKokkos : public Memory {
 public:
  template <class K> void create_kokkos(K &k, double *&a, int n, const char *name) { k = K(name, n); a = k.h_view.data(); }
  template <class K> void grow_kokkos(K &k, double *&a, int n, const char *name) { create_kokkos(k, a, n, name); }
  template <class K> void destroy_kokkos(K &k, double *&a) { if (!a) return; k = K(); a = nullptr; }
  template <class K> void destroy_kokkos(K &k) { k = K(); }
};

class KokkosBase {
 public:
  virtual ~KokkosBase() = default;
  virtual int pack_forward_comm_kokkos(int, DAT::tdual_int_1d, DAT::tdual_double_1d &, int, int *) { return 0; }
  virtual void unpack_forward_comm_kokkos(int, int, DAT::tdual_double_1d &) {}
  virtual int pack_reverse_comm_kokkos(int, int, DAT::tdual_double_1d &) { return 0; }
  virtual void unpack_reverse_comm_kokkos(int, DAT::tdual_int_1d, DAT::tdual_double_1d &) {}
};

template <class Dev> class NeighListKokkos : public NeighList {
 public:
  Kokkos::View<int *> d_ilist, d_numneigh;
  Kokkos::View<int **, Kokkos::LayoutRight> d_neighbors;
  int maxneighs = 0;
};
