// One LAMMPS "job": ranks as threads, the pair style under test on each of them, LAMMPS' order of calls.
#include "lmp_mock.h"
#ifdef LMP_MOCK_KOKKOS
#include "pair_symmetrix_mace_kokkos.h"
#else
#include "pair_symmetrix_mace.h"
#endif

#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <set>
#include <thread>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

namespace py = pybind11;

namespace LAMMPS_NS {
struct Swap { int from, to; std::vector<int> list; int first; };
struct Aborted : std::runtime_error { using std::runtime_error::runtime_error; };

class World {
 public:
  std::vector<Swap> swaps;
  std::mutex mu;
  std::condition_variable cv;
  std::vector<std::deque<std::vector<double>>> box;     // per swap and direction
  int running = 0;
  std::multiset<int> waits;                             // the swaps ranks wait for
  bool abort = false;
  void reset(int n) { box.assign(2 * swaps.size(), {}); running = n; waits.clear(); abort = false; }
  void send(int s, std::vector<double> m) { std::lock_guard<std::mutex> l(mu); box[s].push_back(std::move(m)); cv.notify_all(); }
  std::vector<double> recv(int s) {
    std::unique_lock<std::mutex> l(mu);
    auto me = waits.insert(s);
    while (box[s].empty()) {
      if (!abort) {
        // every rank still running waits for a message, and none of those messages was sent
        bool stuck = (int) waits.size() == running;
        for (int w : waits) stuck = stuck && box[w].empty();
        if (stuck) {
          abort = true;
          waits.erase(me);
          cv.notify_all();
          throw LAMMPSException("deadlock: a rank waits for a message that no rank sends");
        }
      } else {
        waits.erase(me);
        throw Aborted("another rank stopped");
      }
      cv.wait(l);
    }
    waits.erase(me);
    auto m = std::move(box[s].front());
    box[s].pop_front();
    return m;
  }
  void done(bool failed) { std::lock_guard<std::mutex> l(mu); --running; if (failed) abort = true; cv.notify_all(); }

};

#ifdef LMP_MOCK_KOKKOS
// as CommKokkos: on the device unless the pair style runs on the host or the user asks otherwise
static DAT::tdual_int_1d sendlist(const std::vector<int> &l) {
  DAT::tdual_int_1d k("sendlist", l.size() + 3);
  for (size_t i = 0; i < l.size() + 3; i++) k.h_view(i) = i < l.size() ? l[i] : 1 << 28;
  k.modify_host();
  k.sync_device();
  return k;
}
static DAT::tdual_double_1d device_buffer(size_t n, const std::vector<double> &v = {}) {
  DAT::tdual_double_1d k("buf", n);
  for (size_t i = 0; i < n; i++) k.h_view(i) = i < v.size() ? v[i] : std::nan("");
  k.modify_host();
  k.sync_device();
  return k;
}
static std::vector<double> packed(DAT::tdual_double_1d &k, int m) {
  k.modify_device();
  k.sync_host();
  std::vector<double> v(m);
  for (int i = 0; i < m; i++) v[i] = k.h_view(i);
  return v;
}
#endif

void Comm::forward_comm(Pair *pair, int size) {
#ifdef LMP_MOCK_KOKKOS
  if (pair->execution_space == Device && !legacy) {
    auto *kk = dynamic_cast<KokkosBase *>(pair);
    const int each = size ? size : pair->comm_forward;
    for (size_t s = 0; s < world->swaps.size(); ++s) {
      auto &w = world->swaps[s];
      const int n = w.list.size();
      const size_t room = (size_t) n * (each + 4096) + 4096;
      if (w.from == me) {
        auto buf = device_buffer(room);
        int m = kk->pack_forward_comm_kokkos(n, sendlist(w.list), buf, 1, nullptr);
        if (m < 0 || m > each * n) throw LAMMPSException(std::format("forward communication: {} values packed for {} atoms, comm_forward is {}", m, n, each));
        world->send(s, packed(buf, m));
      }
      if (w.to == me) {
        auto buf = device_buffer(room, world->recv(s));
        kk->unpack_forward_comm_kokkos(n, w.first, buf);
      }
    }
    return;
  }
#endif
  const int per = size ? size : pair->comm_forward;
  for (size_t s = 0; s < world->swaps.size(); ++s) {
    auto &w = world->swaps[s];
    const int n = w.list.size();
    if (w.from == me) {
      std::vector<double> buf((size_t) n * (per + 4096) + 4096, std::nan(""));
      int m = pair->pack_forward_comm(n, w.list.data(), buf.data(), 1, nullptr);
      if (m < 0 || m > per * n) throw LAMMPSException(std::format("forward communication: {} values packed for {} atoms, comm_forward is {}", m, n, per));
      buf.resize(m);
      world->send(s, std::move(buf));
    }
    if (w.to == me) {
      auto buf = world->recv(s);
      buf.resize((size_t) n * (per + 4096) + 4096, std::nan(""));
      pair->unpack_forward_comm(n, w.first, buf.data());
    }
  }
}
void Comm::reverse_comm(Pair *pair, int size) {
#ifdef LMP_MOCK_KOKKOS
  if (pair->execution_space == Device && pair->reverse_comm_device && !legacy) {
    auto *kk = dynamic_cast<KokkosBase *>(pair);
    const int each = size ? size : pair->comm_reverse;
    for (size_t q = world->swaps.size(); q-- > 0;) {
      auto &w = world->swaps[q];
      const int n = w.list.size();
      const size_t room = (size_t) n * (each + 4096) + 4096;
      if (w.to == me) {
        auto buf = device_buffer(room);
        int m = kk->pack_reverse_comm_kokkos(n, w.first, buf);
        if (m < 0 || m > each * n) throw LAMMPSException(std::format("reverse communication: {} values packed for {} atoms, comm_reverse is {}", m, n, each));
        world->send(world->swaps.size() + q, packed(buf, m));
      }
      if (w.from == me) {
        auto buf = device_buffer(room, world->recv(world->swaps.size() + q));
        kk->unpack_reverse_comm_kokkos(n, sendlist(w.list), buf);
      }
    }
    return;
  }
#endif
  const int per = size ? size : pair->comm_reverse;
  for (size_t q = world->swaps.size(); q-- > 0;) {
    auto &w = world->swaps[q];
    const int n = w.list.size();
    if (w.to == me) {
      std::vector<double> buf((size_t) n * (per + 4096) + 4096, std::nan(""));
      int m = pair->pack_reverse_comm(n, w.first, buf.data());
      if (m < 0 || m > per * n) throw LAMMPSException(std::format("reverse communication: {} values packed for {} atoms, comm_reverse is {}", m, n, per));
      buf.resize(m);
      world->send(world->swaps.size() + q, std::move(buf));
    }
    if (w.from == me) {
      auto buf = world->recv(world->swaps.size() + q);
      buf.resize((size_t) n * (per + 4096) + 4096, std::nan(""));
      pair->unpack_reverse_comm(n, w.list.data(), buf.data());
    }
  }
}

void Pair::init_style() { neighbor->add_request(this); }
void Pair::init() {
  if (!allocated) error->all(FLERR, "Not all pair coeffs are set");
  for (int i = 1; i <= atom->ntypes; i++)
    if (setflag[i][i] == 0) error->all(FLERR, "Not all pair coeffs are set");
  init_style();
  cutforce = 0;
  for (int i = 1; i <= atom->ntypes; i++)
    for (int j = i; j <= atom->ntypes; j++) {
      const double cut = init_one(i, j);
      cutsq[i][j] = cutsq[j][i] = cut * cut;
      cutforce = MAX(cutforce, cut);
    }
}
void Pair::ev_setup(int eflag, int vflag, int alloc) {
  evflag = 1;
  eflag_either = eflag;
  eflag_global = eflag & 1;
  eflag_atom = eflag & 2;
  vflag_global = vflag & 3;
  vflag_atom = vflag & 4;
  cvflag_atom = vflag & 8;
  vflag_fdotr = 0;
  vflag_either = vflag_global || vflag_atom || cvflag_atom;
  const int n = atom->nlocal + (force->newton ? atom->nghost : 0);
  if (eflag_atom && atom->nmax > maxeatom) maxeatom = atom->nmax;
  if (eflag_atom && alloc) {
    eatom_store.assign(n + 8, 0.0);
    for (int i = n; i < n + 8; i++) eatom_store[i] = std::nan("");
    eatom = eatom_store.data();
  }
  if (eflag_global) eng_vdwl = eng_coul = 0.0;
  if (vflag_global)
    for (double &v : virial) v = 0.0;
  if ((vflag & 2) && no_virial_fdotr_compute == 0) vflag_fdotr = 1;
}
void Pair::virial_fdotr_compute() {
  for (int i = 0; i < atom->nlocal + atom->nghost; i++) {
    double *x = atom->x[i], *f = atom->f[i];
    virial[0] += x[0] * f[0]; virial[1] += x[1] * f[1]; virial[2] += x[2] * f[2];
    virial[3] += x[1] * f[0]; virial[4] += x[2] * f[0]; virial[5] += x[2] * f[1];
  }
}

#ifdef LMP_MOCK_KOKKOS
using MemoryT = MemoryKokkos;
using AtomT = AtomKokkos;
using ListT = NeighListKokkos<LMPDeviceType>;
#else
using MemoryT = Memory;
using AtomT = Atom;
using ListT = NeighList;
#endif
static std::unique_ptr<Pair> make_pair_style(const std::string &name, LAMMPS *l) {
#ifdef LMP_MOCK_KOKKOS
  if (name == "symmetrix/mace/kk") return std::make_unique<PairSymmetrixMACEKokkos<LMPDeviceType, double>>(l);
  if (name == "symmetrix/mace/float32/kk") return std::make_unique<PairSymmetrixMACEKokkos<LMPDeviceType, float>>(l);
#else
  if (name == "symmetrix/mace") return std::make_unique<PairSymmetrixMACE>(l);
#endif
  throw LAMMPSException("Unrecognized pair style '" + name + "'");
}
struct Rank {
  MemoryT memory; Error error; AtomT atom; Force force; Domain domain; Neighbor neighbor; Comm comm; LAMMPS lmp;
  std::unique_ptr<Pair> pair;
  ListT list;
  std::vector<double> x, f;
  std::vector<double *> xp, fp;
  std::vector<int> type, tag, ilist, numneigh;
  std::vector<std::vector<int>> neigh;
  std::vector<int *> firstneigh;
  std::string failure;
  Rank() {
    lmp = LAMMPS{&memory, &error, &atom, &force, &domain, &neighbor, &comm
#ifdef LMP_MOCK_KOKKOS
                 , &atom, &memory
#endif
    };
    comm.neighbor = &neighbor;
  }
#ifdef LMP_MOCK_KOKKOS
  // the host halves of fresh dual arrays; nothing is on the device yet
  template <class T> static Dual<T *> dual(const char *name, const std::vector<T> &v) {
    Dual<T *> k(name, v.size());
    for (size_t i = 0; i < v.size(); i++) k.h_view(i) = v[i];
    k.modify_host();
    return k;
  }
  static Dual<double **> dual3(const char *name, const std::vector<double> &v) {
    Dual<double **> k(name, v.size() / 3, 3);
    for (size_t i = 0; i < v.size(); i++) k.h_view(i / 3, i % 3) = v[i];
    k.modify_host();
    return k;
  }
  void to_kokkos() {
    atom.k_x = dual3("x", x);
    atom.k_f = dual3("f", f);
    atom.k_tag = dual<int>("tag", tag);
    atom.k_type = dual<int>("type", type);
    atom.k_map_array = dual<int>("map_array", atom.maptable);
    if (atom.map_style != Atom::MAP_ARRAY) atom.k_map_array = DAT::tdual_int_1d();
    atom.k_map_hash.table = atom.map_style == Atom::MAP_HASH ? std::make_shared<std::vector<int>>(atom.maptable) : nullptr;
    auto dev = [](auto &v) { auto d = dual<int>("list", std::vector<int>(v.begin(), v.end())); d.sync_device(); return d.d_view; };
    list.d_ilist = dev(ilist);
    list.d_numneigh = dev(numneigh);
    size_t most = 1;
    for (auto &l : neigh) most = MAX(most, l.size() + 2);
    Dual<int **> nb("neighbors", numneigh.size(), most);
    for (size_t i = 0; i < numneigh.size(); i++)
      for (size_t j = 0; j < most; j++) nb.h_view(i, j) = i < neigh.size() && j < neigh[i].size() ? neigh[i][j] : 0x0fffffff;
    nb.modify_host();
    nb.sync_device();
    list.d_neighbors = nb.d_view;
    list.maxneighs = most;
  }
  void run(int eflag, int vflag) {
    atom.sync(pair->execution_space, pair->datamask_read);
    pair->compute(eflag, vflag);
    atom.modified(pair->execution_space, pair->datamask_modify);
    atom.sync(Host, F_MASK);
    for (size_t i = 0; i < f.size(); i++) f[i] = atom.k_f.h_view(i / 3, i % 3);
  }
#else
  void to_kokkos() {}
  void run(int eflag, int vflag) { pair->compute(eflag, vflag); }
#endif
};
}
using namespace LAMMPS_NS;

struct RankData {
  int nlocal = 0;
  std::vector<double> x, f;
  std::vector<int> type, tag;
  std::vector<std::vector<int>> neigh;      // one list per atom (ghosts may have none)
};

class Machine {
  std::vector<std::unique_ptr<Rank>> ranks;
  World world;
  std::string each(const std::function<void(Rank &)> &fn) {
    world.reset(ranks.size());
    std::vector<std::thread> th;
    for (auto &r : ranks)
      th.emplace_back([&, rp = r.get()] {
        rp->failure.clear();
        bool bad = false;
        try { fn(*rp); }
        catch (Aborted &) { bad = true; }
        catch (std::exception &e) { rp->failure = e.what(); if (rp->failure.empty()) rp->failure = "exception"; bad = true; }
        world.done(bad);
      });
    for (auto &t : th) t.join();
    for (auto &r : ranks)
      if (!r->failure.empty()) return r->failure;
    return "";
  }
  static void args(const std::vector<std::string> &a, std::function<void(int, char **)> fn) {
    std::vector<std::string> s = a;
    std::vector<char *> p;
    for (auto &x : s) p.push_back(x.data());
    for (int i = 0; i < 4; i++) p.push_back(nullptr);
    fn(a.size(), p.data());
  }

 public:
  Machine(int n, int ntypes, int map, int newton, double skin, double comm_cutoff) {
    for (int i = 0; i < n; i++) {
      ranks.push_back(std::make_unique<Rank>());
      auto &r = *ranks.back();
      r.atom.ntypes = ntypes;
      r.atom.map_user = r.atom.map_style = map;
      r.force.newton = r.force.newton_pair = newton;
      r.comm.cutghostuser = comm_cutoff;
      r.neighbor.skin = skin;
      r.comm.me = i;
      r.comm.nprocs = n;
      r.comm.world = &world;
    }
  }
  void set_skin(double s) { for (auto &r : ranks) r->neighbor.skin = s; }
  void set_newton(int n) { for (auto &r : ranks) r->force.newton = r->force.newton_pair = n; }
  void set_comm_cutoff(double c) { for (auto &r : ranks) r->comm.cutghostuser = c; }
  void set_legacy(bool b) { for (auto &r : ranks) r->comm.legacy = b; }
  std::string pair_style(std::vector<std::string> a, std::string style) {
    py::gil_scoped_release g;
    return each([&](Rank &r) {
      // as LAMMPS' Input::pair_style: an existing pair of the same style only gets new settings
      if (!r.pair) { r.pair = make_pair_style(style, &r.lmp); r.force.pair = r.pair.get(); }
      args(a, [&](int n, char **p) { r.pair->settings(n, p); });
    });
  }
  std::string pair_coeff(std::vector<std::string> a) {
    py::gil_scoped_release g;
    return each([&](Rank &r) {
      if (!r.pair) throw LAMMPSException("Pair_coeff command without a pair style");
      if (a.size() < 2) throw LAMMPSException("Incorrect args for pair coefficients");
      if (r.pair->one_coeff && (a[0] != "*" || a[1] != "*")) throw LAMMPSException("Pair_coeff must start with * * for this pair style");
      args(a, [&](int n, char **p) { r.pair->coeff(n, p); });
    });
  }
  std::string init() {
    py::gil_scoped_release g;
    return each([&](Rank &r) {
      if (!r.pair) throw LAMMPSException("Must define pair_style before run");
      r.neighbor.clear();
      r.pair->init();
      r.neighbor.cutneighmax = r.pair->cutforce + r.neighbor.skin;
    });
  }
  py::dict info(int k) {
    auto &r = *ranks.at(k);
    py::dict d;
    std::vector<int> fl;
    for (auto q : r.neighbor.requests) fl.push_back(q->flags);
    d["requests"] = fl;
    d["cut"] = r.pair->cutforce;
    d["comm_cutoff"] = r.comm.get_comm_cutoff();
    d["comm_forward"] = r.pair->comm_forward;
    d["comm_reverse"] = r.pair->comm_reverse;
    d["no_virial_fdotr_compute"] = r.pair->no_virial_fdotr_compute;
    d["one_coeff"] = r.pair->one_coeff;
    d["single_enable"] = r.pair->single_enable;
    d["restartinfo"] = r.pair->restartinfo;
    d["manybody_flag"] = r.pair->manybody_flag;
    return d;
  }
  std::string compute(std::vector<RankData> data, std::vector<std::tuple<int, int, std::vector<int>, int>> swaps, int ghostlists, int eflag, int vflag) {
    for (size_t k = 0; k < ranks.size(); k++) {
      auto &r = *ranks[k];
      auto &d = data.at(k);
      const int n = d.type.size();
      r.x = d.x; r.f = d.f; r.type = d.type; r.tag = d.tag; r.neigh = d.neigh;
      r.x.resize(3 * n + 3); r.f.resize(3 * n + 3);
      r.xp.resize(n + 1); r.fp.resize(n + 1);
      for (int i = 0; i <= n; i++) { r.xp[i] = &r.x[3 * i]; r.fp[i] = &r.f[3 * i]; }
      r.atom.nlocal = d.nlocal; r.atom.nghost = n - d.nlocal; r.atom.nmax = MAX(r.atom.nmax, n);
      r.atom.x = r.xp.data(); r.atom.f = r.fp.data(); r.atom.type = r.type.data(); r.atom.tag = r.tag.data();
      int big = 0;
      for (int t : r.tag) big = MAX(big, t);
      // owned atoms take precedence over ghosts, as in Atom::map_set
      r.atom.maptable.assign(big + 1, -1);
      for (int i = n - 1; i >= 0; i--) r.atom.maptable[r.tag[i]] = i;
      const int have = ghostlists ? n : d.nlocal;
      r.ilist.resize(have + 1); r.numneigh.assign(n + 1, 1 << 28); r.firstneigh.assign(n + 1, nullptr);
      for (int i = 0; i < have; i++) { r.ilist[i] = i; r.numneigh[i] = r.neigh.at(i).size(); r.firstneigh[i] = r.neigh[i].data(); }
      r.list.inum = d.nlocal; r.list.gnum = ghostlists ? n - d.nlocal : 0;
      r.list.ilist = r.ilist.data(); r.list.numneigh = r.numneigh.data(); r.list.firstneigh = r.firstneigh.data();
      r.to_kokkos();
    }
    world.swaps.clear();
    for (auto &[a, b, l, fst] : swaps) world.swaps.push_back({a, b, l, fst});
    py::gil_scoped_release g;
    return each([&](Rank &r) {
      r.pair->init_list(0, &r.list);
      r.run(eflag, vflag);
    });
  }
  py::dict result(int k) {
    auto &r = *ranks.at(k);
    py::dict d;
    d["energy"] = r.pair->eng_vdwl + r.pair->eng_coul;
    d["virial"] = std::vector<double>(r.pair->virial, r.pair->virial + 6);
    const int n = r.type.size();
    d["eatom"] = r.pair->eflag_atom ? std::vector<double>(r.pair->eatom, r.pair->eatom + n) : std::vector<double>();
    d["f"] = std::vector<double>(r.f.begin(), r.f.end() - 3);
    return d;
  }
};

#ifdef LMP_MOCK_KOKKOS
PYBIND11_MODULE(verif_lmpkk, m) {
  m.attr("STYLE") = "symmetrix/mace/kk";
  m.def("configure", [](int order, bool separate, int team, bool watch) { auto &s = Kokkos::verif::state(); s.order = order; s.separate = separate; s.team = team; s.watch = watch; Kokkos::verif::reset(); });
#else
PYBIND11_MODULE(verif_lmp, m) {
  m.attr("STYLE") = "symmetrix/mace";
#endif
  py::class_<RankData>(m, "RankData", py::module_local()).def(py::init<>())
      .def_readwrite("nlocal", &RankData::nlocal).def_readwrite("x", &RankData::x).def_readwrite("f", &RankData::f)
      .def_readwrite("type", &RankData::type).def_readwrite("tag", &RankData::tag).def_readwrite("neigh", &RankData::neigh);
  py::class_<Machine>(m, "Machine", py::module_local()).def(py::init<int, int, int, int, double, double>())
      .def("set_skin", &Machine::set_skin).def("set_newton", &Machine::set_newton).def("set_comm_cutoff", &Machine::set_comm_cutoff)
      .def("set_legacy", &Machine::set_legacy)
      .def("pair_style", &Machine::pair_style, py::arg("args"), py::arg("style") = m.attr("STYLE").cast<std::string>()).def("pair_coeff", &Machine::pair_coeff).def("init", &Machine::init)
      .def("info", &Machine::info).def("compute", &Machine::compute).def("result", &Machine::result);
}
