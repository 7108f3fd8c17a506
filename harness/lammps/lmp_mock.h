// A stand-in for the part of LAMMPS the pair style uses.  It follows LAMMPS' documented interface
// for pair styles; one instance of each class per rank, ranks are threads of one process.
#ifndef LMP_MOCK_H
#define LMP_MOCK_H
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <format>
#include <functional>
#include <memory>
#include <regex>
#include <cctype>
#include <stdexcept>
#include <string>
#include <vector>

#define FLERR __FILE__, __LINE__
#define NEIGHMASK 0x1FFFFFFF
#define SBBITS 30
#ifndef MAX
#define MAX(A, B) ((A) > (B) ? (A) : (B))
#define MIN(A, B) ((A) < (B) ? (A) : (B))
#endif

#ifdef LMP_MOCK_KOKKOS
#include "Kokkos_Core.hpp"
#endif

namespace fmt {
template <typename... A> std::string format(const std::string &s, A &&...a) { return std::vformat(s, std::make_format_args(a...)); }
}

namespace LAMMPS_NS {
typedef int tagint;
typedef int64_t bigint;
class LAMMPS;
class Pair;
class NeighList;

struct LAMMPSException : std::runtime_error { using std::runtime_error::runtime_error; };

class Error {
 public:
  [[noreturn]] void all(const std::string &f, int l, const std::string &s) { (void) f; (void) l; throw LAMMPSException(s); }
  [[noreturn]] void one(const std::string &f, int l, const std::string &s) { all(f, l, s); }
  template <typename... A> [[noreturn]] void all(const std::string &f, int l, const std::string &s, A &&...a)
  { all(f, l, std::vformat(s, std::make_format_args(a...))); }
  template <typename... A> [[noreturn]] void one(const std::string &f, int l, const std::string &s, A &&...a)
  { all(f, l, std::vformat(s, std::make_format_args(a...))); }
  void warning(const std::string &, int, const std::string &) {}
  template <typename... A> void warning(const std::string &, int, const std::string &, A &&...) {}
  void message(const std::string &, int, const std::string &) {}
};

class Memory {
 public:
  template <typename T> T *create(T *&a, int n, const char *) {
    a = (T *) std::malloc(sizeof(T) * (n > 0 ? n : 1));
    std::memset((void *) a, 0x5a, sizeof(T) * (n > 0 ? n : 1));
    return a;
  }
  void *smalloc(bigint n, const char *) { return n > 0 ? std::malloc(n) : nullptr; }
  void *srealloc(void *p, bigint n, const char *) { return std::realloc(p, n); }
  void sfree(void *p) { std::free(p); }
  template <typename T> T **create(T **&a, int n1, int n2, const char *) {
    // values of fresh memory are arbitrary
    T *data = (T *) std::malloc(sizeof(T) * (n1 * n2 > 0 ? n1 * n2 : 1));
    std::memset((void *) data, 0x5a, sizeof(T) * n1 * n2);
    a = (T **) std::malloc(sizeof(T *) * (n1 > 0 ? n1 : 1));
    for (int i = 0; i < n1; i++) a[i] = data + (size_t) i * n2;
    if (n1 <= 0) a[0] = data;
    return a;
  }
  template <typename T> T *grow(T *&a, int n, const char *) { return a = (T *) std::realloc((void *) a, sizeof(T) * (n > 0 ? n : 1)); }
  template <typename T> void destroy(T *&a) { std::free((void *) a); a = nullptr; }
  template <typename T> void destroy(T **&a) { if (a) { std::free((void *) a[0]); std::free((void *) a); } a = nullptr; }
};

enum ExecutionSpace { Host, Device };
class Atom {
 public:
  virtual ~Atom() = default;
  enum { ATOMIC = 0, MOLECULAR = 1, TEMPLATE = 2 };
  enum { MAP_NONE = 0, MAP_ARRAY = 1, MAP_HASH = 2, MAP_YES = 3 };
  int nlocal = 0, nghost = 0, nmax = 0, ntypes = 0, tag_enable = 1;
  bigint natoms = 0;
  int map_style = MAP_NONE, map_user = MAP_NONE;
  double **x = nullptr, **f = nullptr, **v = nullptr;
  int *type = nullptr, *mask = nullptr;
  tagint *tag = nullptr;
  std::vector<int> maptable;
  int map(tagint t) {
    if (map_user == MAP_NONE) throw LAMMPSException("atom->map() used without an atom map");
    return t >= 0 && t < (int) maptable.size() ? maptable[t] : -1;
  }
  int map_find_hash(tagint t) { return map(t); }
};

class Force {
 public:
  int newton = 1, newton_pair = 1, newton_bond = 1;
  Pair *pair = nullptr;
  double boltz = 1, mvv2e = 1, ftm2v = 1, nktv2p = 1;
};

class Domain {
 public:
  int dimension = 3, triclinic = 0, xperiodic = 1, yperiodic = 1, zperiodic = 1;
  int periodicity[3] = {1, 1, 1};
  double boxlo[3] = {0, 0, 0}, boxhi[3] = {1, 1, 1}, prd[3] = {1, 1, 1};
};

namespace NeighConst {
enum {
  REQ_DEFAULT = 0, REQ_FULL = 1 << 0, REQ_GHOST = 1 << 1, REQ_SIZE = 1 << 2, REQ_HISTORY = 1 << 3, REQ_OCCASIONAL = 1 << 4,
  REQ_RESPA_INOUT = 1 << 5, REQ_RESPA_ALL = 1 << 6, REQ_NEWTON_ON = 1 << 8, REQ_NEWTON_OFF = 1 << 9, REQ_SSA = 1 << 10
};
}

class NeighRequest {
 public:
  int flags = 0;
  double cut = -1;
  int get_flags() const { return flags; }
  void set_cutoff(double c) { cut = c; }
  void enable_full() { flags |= NeighConst::REQ_FULL; }
  void enable_ghost() { flags |= NeighConst::REQ_GHOST; }
  int kokkos_host = 0, kokkos_device = 0;
  void set_kokkos_host(int f) { kokkos_host = f; }
  void set_kokkos_device(int f) { kokkos_device = f; }
};

class Neighbor {
 public:
  double skin = 0, cutneighmin = 0, cutneighmax = 0;
  int ago = 0, every = 1, delay = 0;
  std::vector<NeighRequest *> requests;
  NeighRequest *add_request(Pair *, int flags = 0) { requests.push_back(new NeighRequest); requests.back()->flags = flags; return requests.back(); }
  NeighRequest *find_request(void *) { return requests.empty() ? nullptr : requests.back(); }
  void clear() { for (auto r : requests) delete r; requests.clear(); }
  ~Neighbor() { clear(); }
};

class NeighList {
 public:
  virtual ~NeighList() = default;
  int inum = 0, gnum = 0;
  int *ilist = nullptr, *numneigh = nullptr;
  int **firstneigh = nullptr;
};

class World;
class Comm {
 public:
  int me = 0, nprocs = 1;
  int mode = 0;
  double cutghostuser = 0;
  Neighbor *neighbor = nullptr;
  World *world = nullptr;
  bool legacy = false;     // messages are packed on the host
  double get_comm_cutoff() { return MAX(cutghostuser, neighbor->cutneighmax); }
  void modify_params(int narg, char **arg) {
    for (int i = 0; i < narg; i += 2) {
      if (i + 1 >= narg || std::strcmp(arg[i], "cutoff") != 0) throw LAMMPSException("Illegal comm_modify command");
      char *end = nullptr;
      cutghostuser = std::strtod(arg[i + 1], &end);
      if (*end || cutghostuser < 0) throw LAMMPSException("Invalid cutoff in comm_modify command");
    }
  }
  void forward_comm(Pair *, int size = 0);
  void reverse_comm(Pair *, int size = 0);
};

#ifdef LMP_MOCK_KOKKOS
#include "lmp_mock_kk.h"
#endif

class LAMMPS {
 public:
  Memory *memory;
  Error *error;
  Atom *atom;
  Force *force;
  Domain *domain;
  Neighbor *neighbor;
  Comm *comm;
#ifdef LMP_MOCK_KOKKOS
  AtomKokkos *atomKK;
  MemoryKokkos *memoryKK;
#endif
};

class Pointers {
 public:
  Pointers(LAMMPS *p) : lmp(p), memory(p->memory), error(p->error), atom(p->atom), force(p->force), domain(p->domain),
      neighbor(p->neighbor), comm(p->comm)
#ifdef LMP_MOCK_KOKKOS
      , atomKK(p->atomKK), memoryKK(p->memoryKK)
#endif
  {}
  virtual ~Pointers() = default;

 protected:
  LAMMPS *lmp;
  Memory *&memory;
  Error *&error;
  Atom *&atom;
  Force *&force;
  Domain *&domain;
  Neighbor *&neighbor;
  Comm *&comm;
#ifdef LMP_MOCK_KOKKOS
  AtomKokkos *&atomKK;
  MemoryKokkos *&memoryKK;
#endif
};

namespace utils {
inline void logmesg(LAMMPS *, const std::string &) {}
template <typename... A> void logmesg(LAMMPS *, const std::string &s, A &&...a) { (void) std::vformat(s, std::make_format_args(a...)); }
inline std::string strfind(const std::string &, const std::string &) { return ""; }
inline bool strmatch(const std::string &text, const std::string &pattern) { return std::regex_search(text, std::regex(pattern)); }
inline std::string uppercase(std::string s) { for (auto &c : s) c = (char) std::toupper(c); return s; }
inline std::string lowercase(std::string s) { for (auto &c : s) c = (char) std::tolower(c); return s; }
inline std::string trim(const std::string &s) { const auto a = s.find_first_not_of(" \t\r\n\f"), b = s.find_last_not_of(" \t\r\n\f"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
inline bool is_integer(const std::string &s) { return std::regex_match(s, std::regex("[-+]?[0-9]+")); }
inline bool is_double(const std::string &s) { char *e = nullptr; std::strtod(s.c_str(), &e); return !s.empty() && !*e; }
inline char *strdup(const std::string &s) { char *c = new char[s.size() + 1]; std::strcpy(c, s.c_str()); return c; }
inline double numeric(const char *, int, const std::string &s, bool, LAMMPS *) { return std::stod(s); }
inline int inumeric(const char *, int, const std::string &s, bool, LAMMPS *) { return std::stoi(s); }
inline void missing_cmd_args(const std::string &, int, const std::string &c, Error *) { throw LAMMPSException("Illegal " + c + " command: missing argument(s)"); }
}

class Pair : protected Pointers {
 public:
  double eng_vdwl = 777, eng_coul = 777;
  double virial[6] = {777, 777, 777, 777, 777, 777};
  double *eatom = nullptr, **vatom = nullptr, **cvatom = nullptr;
  double cutforce = 0;
  double **cutsq = nullptr;
  int **setflag = nullptr;
  int comm_forward = 0, comm_reverse = 0, comm_reverse_off = 0;
  int single_enable = 1, born_matrix_enable = 0, single_hessian_enable = 0, restartinfo = 1, respa_enable = 0, one_coeff = 0, manybody_flag = 0,
      unit_convert_flag = 0, no_virial_fdotr_compute = 0, writedata = 0, finitecutflag = 0, ghostneigh = 0;
  int allocated = 0, suffix_flag = 0, kokkosable = 0, reverse_comm_device = 0;
  ExecutionSpace execution_space = Host;
  unsigned datamask_read = ~0u, datamask_modify = ~0u;
  int did_mix = 0;
  int evflag = 0, eflag_either = 0, eflag_global = 0, eflag_atom = 0, vflag_either = 0, vflag_global = 0, vflag_atom = 0, cvflag_atom = 0,
      vflag_fdotr = 0, maxeatom = 0, maxvatom = 0;
  NeighList *list = nullptr;
  std::vector<double> eatom_store;

  Pair(LAMMPS *l) : Pointers(l) {}
  ~Pair() override = default;
  virtual void compute(int, int) = 0;
  virtual void settings(int, char **) = 0;
  virtual void coeff(int, char **) = 0;
  virtual void init_style();
  virtual void init_list(int, NeighList *p) { list = p; }
  virtual double init_one(int, int) { return 0; }
  virtual double single(int, int, int, int, double, double, double, double &) { return 0; }
  virtual void *extract(const char *, int &) { return nullptr; }
  virtual void *extract_peratom(const char *, int &) { return nullptr; }
  virtual int pack_forward_comm(int, int *, double *, int, int *) { return 0; }
  virtual void unpack_forward_comm(int, int, double *) {}
  virtual int pack_reverse_comm(int, int, double *) { return 0; }
  virtual void unpack_reverse_comm(int, int *, double *) {}
  virtual double memory_usage() { return 0; }
  virtual void write_restart(void *) {}
  virtual void read_restart(void *) {}
  void init();                    // LAMMPS' Pair::init

 protected:
  void ev_init(int eflag, int vflag, int alloc = 1) {
    if (eflag || vflag) ev_setup(eflag, vflag, alloc);
    else ev_unset();
  }
  void ev_setup(int eflag, int vflag, int alloc = 1);
  void ev_unset() { evflag = eflag_either = eflag_global = eflag_atom = vflag_either = vflag_global = vflag_atom = cvflag_atom = vflag_fdotr = 0; }
  void virial_fdotr_compute();
  // LAMMPS' tallies; a full neighbour list visits each pair twice
  void ev_tally_full(int i, double evdwl, double ecoul, double fpair, double dx, double dy, double dz) {
    if (eflag_either) {
      if (eflag_global) { eng_vdwl += 0.5 * evdwl; eng_coul += 0.5 * ecoul; }
      if (eflag_atom) eatom[i] += 0.5 * (evdwl + ecoul);
    }
    if (vflag_global) tally(0.5 * fpair * dx, 0.5 * fpair * dy, 0.5 * fpair * dz, dx, dy, dz);
  }
  void ev_tally_xyz_full(int i, double evdwl, double ecoul, double fx, double fy, double fz, double dx, double dy, double dz) {
    if (eflag_either) {
      if (eflag_global) { eng_vdwl += 0.5 * evdwl; eng_coul += 0.5 * ecoul; }
      if (eflag_atom) eatom[i] += 0.5 * (evdwl + ecoul);
    }
    if (vflag_global) tally(0.5 * fx, 0.5 * fy, 0.5 * fz, dx, dy, dz);
  }
  void ev_tally_xyz(int i, int j, int nlocal, int newton_pair, double evdwl, double ecoul, double fx, double fy, double fz, double dx, double dy, double dz) {
    const double share = newton_pair ? 1.0 : 0.5 * (i < nlocal) + 0.5 * (j < nlocal);
    if (eflag_either) {
      if (eflag_global) { eng_vdwl += share * evdwl; eng_coul += share * ecoul; }
      if (eflag_atom) {
        if (newton_pair || i < nlocal) eatom[i] += 0.5 * (evdwl + ecoul);
        if (newton_pair || j < nlocal) eatom[j] += 0.5 * (evdwl + ecoul);
      }
    }
    if (vflag_global) tally(share * fx, share * fy, share * fz, dx, dy, dz);
  }
  void tally(double fx, double fy, double fz, double dx, double dy, double dz) {
    virial[0] += dx * fx; virial[1] += dy * fy; virial[2] += dz * fz; virial[3] += dx * fy; virial[4] += dx * fz; virial[5] += dy * fz;
  }
};
}
#endif
