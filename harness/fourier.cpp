// DFT plans: histories over shared buffers, and transforms of any length (C19).
#include "rasters.h"
#include "LitlTransforms/Dft.h"
#include <map>
using namespace Litl;
typedef std::complex<double> C;
static vt::Rng* rng;

static long destroyed = 0;
extern "C" void __real_fftw_destroy_plan(fftw_plan p);
extern "C" void __wrap_fftw_destroy_plan(fftw_plan p) {
  ++destroyed;
  __real_fftw_destroy_plan(p);
}

inline double re(double x) {
  return x;
}
inline double im(double) {
  return 0;
}
inline double re(const C& x) {
  return x.real();
}
inline double im(const C& x) {
  return x.imag();
}
inline void put(double& x, double r, double) {
  x = r;
}
inline void put(C& x, double r, double i) {
  x = C(r, i);
}
template <typename R>
void parts(const R& r, double scale, double eps, VI& a, VI& b) {
  a.clear();
  b.clear();
  for (const auto& e : r) {
    a.push_back(vt::fix(re(e), scale, eps));
    b.push_back(vt::fix(im(e), scale, eps));
  }
}
template <typename P>
VI vec(const P& p) {
  return VI(p.begin(), p.end());
}
static std::string js(const VI& v) {
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); ++i) {
    s += (i ? "," : "") + std::to_string(v[i]);
  }
  return s + "]";
}

const double U = 4096; // value units in histories

// Plans of any type

struct Slot {
  virtual ~Slot() {}
  virtual std::string kind() = 0;
  virtual Slot* inverse() = 0;
  virtual Slot* compose(const std::string& k, const VI& shape) = 0;
  virtual Slot* moved() = 0;
  virtual void assign(Slot* other) = 0;
  virtual void transform() = 0;
  virtual void normalize() = 0;
  virtual void fill(bool in, const VI& r, const VI& i) = 0;
  virtual void set(bool in, long k, long r, long i) = 0;
  virtual VI shape() = 0;
  virtual VI shapeOf(bool in) = 0;
  virtual const void* addr(bool in) = 0;
  virtual bool owns(bool in) = 0;
  virtual void obs(int p, const std::map<const void*, int>& ids, std::ostream& os) = 0;
};

template <typename P>
struct KindOf;
template <Index N>
struct KindOf<RealDft<N>> {
  static const char* s() {
    return "r2c";
  }
};
template <Index N>
struct KindOf<DftPlan<Internal::Inverse<Internal::RealDftTransform>, N>> {
  static const char* s() {
    return "c2r";
  }
};
template <Index N>
struct KindOf<ComplexDft<N>> {
  static const char* s() {
    return "c2c";
  }
};
template <Index N>
struct KindOf<DftPlan<Internal::Inverse<Internal::ComplexDftTransform>, N>> {
  static const char* s() {
    return "c2ci";
  }
};

template <typename P>
struct SlotOf;
template <typename In, typename Parent, Index N>
struct Composer; // composed plans must read the type their parent writes
template <typename Parent, Index N>
struct Composer<double, Parent, N> {
  static Slot* go(Parent& p, const std::string& k, const Position<N>& s);
};
template <typename Parent, Index N>
struct Composer<C, Parent, N> {
  static Slot* go(Parent& p, const std::string& k, const Position<N>& s);
};

template <typename P>
struct SlotOf : Slot {
  static constexpr Index N = P::Dimension;
  P plan;
  explicit SlotOf(const Position<N>& s) : plan(s) {}
  explicit SlotOf(P&& p) : plan(std::move(p)) {}
  std::string kind() override {
    return KindOf<P>::s();
  }
  Slot* inverse() override {
    return new SlotOf<typename P::Inverse>(plan.inverse());
  }
  Slot* compose(const std::string& k, const VI& s) override {
    return Composer<typename P::OutValue, P, N>::go(plan, k, mkpos<N>(s));
  }
  Slot* moved() override {
    return new SlotOf<P>(std::move(plan));
  }
  void assign(Slot* o) override {
    plan = std::move(static_cast<SlotOf<P>*>(o)->plan);
  }
  void transform() override {
    if (&plan.transform() != &plan) {
      std::abort();
    }
  }
  void normalize() override {
    if (&plan.normalize() != &plan) {
      std::abort();
    }
  }
  template <typename R>
  void fillIn(R& b, const VI& r, const VI& i) {
    std::size_t k = 0;
    for (auto& e : b) {
      put(e, r[k] / U, i[k] / U);
      ++k;
    }
  }
  void fill(bool in, const VI& r, const VI& i) override {
    if (in) {
      fillIn(plan.in(), r, i);
    } else {
      fillIn(plan.out(), r, i);
    }
  }
  void set(bool in, long k, long r, long i) override {
    if (in) {
      put(plan.in()[k], r / U, i / U);
    } else {
      put(plan.out()[k], r / U, i / U);
    }
  }
  VI shape() override {
    return vec(plan.logicalShape());
  }
  VI shapeOf(bool in) override {
    return in ? vec(plan.inShape()) : vec(plan.outShape());
  }
  const void* addr(bool in) override {
    return in ? (const void*)plan.in().data() : (const void*)plan.out().data();
  }
  bool owns(bool in) override {
    return in ? plan.in().owns() : plan.out().owns();
  }
  void obs(int p, const std::map<const void*, int>& ids, std::ostream& os) override {
    const P& c = plan;
    VI ir, ii, orr, oi;
    parts(c.in(), U, 1e-3, ir, ii);
    parts(c.out(), U, 1e-3, orr, oi);
    const bool consistent = vec(c.in().shape()) == vec(c.inShape()) && vec(c.out().shape()) == vec(c.outShape()) &&
        long(c.in().size()) == prod(vec(c.inShape())) && long(c.out().size()) == prod(vec(c.outShape()));
    os << "{\"p\":" << p << ",\"shape\":" << js(shape()) << ",\"factor\":" << (consistent ? vt::inum(c.normalizationFactor()) : -1)
       << ",\"iaddr\":" << ids.at(addr(true)) << ",\"oaddr\":" << ids.at(addr(false))
       << ",\"owni\":" << (owns(true) ? "true" : "false") << ",\"owno\":" << (owns(false) ? "true" : "false")
       << ",\"ish\":" << js(vec(c.inShape())) << ",\"osh\":" << js(vec(c.outShape())) << ",\"ire\":" << js(ir)
       << ",\"iim\":" << js(ii) << ",\"ore\":" << js(orr) << ",\"oim\":" << js(oi) << "}";
  }
};
template <typename Parent, Index N>
Slot* Composer<double, Parent, N>::go(Parent& p, const std::string&, const Position<N>& s) {
  return new SlotOf<RealDft<N>>(p.template compose<RealDft<N>>(s));
}
template <typename Parent, Index N>
Slot* Composer<C, Parent, N>::go(Parent& p, const std::string& k, const Position<N>& s) {
  if (k == "c2c") {
    return new SlotOf<ComplexDft<N>>(p.template compose<ComplexDft<N>>(s));
  }
  if (k == "c2ci") {
    typedef typename ComplexDft<N>::Inverse I;
    return new SlotOf<I>(p.template compose<I>(s));
  }
  typedef typename RealDft<N>::Inverse I;
  return new SlotOf<I>(p.template compose<I>(s));
}
template <Index N>
Slot* create(const std::string& k, const VI& s) {
  const auto p = mkpos<N>(s);
  if (k == "r2c") {
    return new SlotOf<RealDft<N>>(p);
  }
  if (k == "c2r") {
    return new SlotOf<typename RealDft<N>::Inverse>(p);
  }
  if (k == "c2c") {
    return new SlotOf<ComplexDft<N>>(p);
  }
  return new SlotOf<typename ComplexDft<N>::Inverse>(p);
}

static VI halved(VI s) {
  s[0] = s[0] / 2 + 1;
  return s;
}
static const char* KINDS[] = {"c2c", "c2ci", "r2c", "c2r"};

/// What the driver knows of the plans: enough to stay within preconditions
struct World {
  std::map<int, Slot*> plans;
  std::vector<Slot*> zombies; // moved-from
  int fresh() {
    for (int p = 0; p < 8; ++p) {
      if (!plans.count(p)) {
        return p;
      }
    }
    return -1;
  }
  int any() {
    auto it = plans.begin();
    std::advance(it, rng->in(0, long(plans.size()) - 1));
    return it->first;
  }
  bool lender(int p) {
    for (bool side : {true, false}) {
      if (plans[p]->owns(side)) {
        const auto a = plans[p]->addr(side);
        for (auto& q : plans) {
          if (q.first != p && (q.second->addr(true) == a || q.second->addr(false) == a)) {
            return true;
          }
        }
      }
    }
    return false;
  }
  void obs() {
    std::map<const void*, int> ids;
    for (auto& p : plans) {
      for (bool side : {true, false}) {
        const auto a = p.second->addr(side);
        if (!ids.count(a)) {
          const int n = int(ids.size());
          ids[a] = n;
        }
      }
    }
    std::ostringstream os;
    os << "[";
    const char* sep = "";
    for (auto& p : plans) {
      os << sep;
      p.second->obs(p.first, ids, os);
      sep = ",";
    }
    os << "]";
    vt::Ev("obs").n("gone", destroyed).raw("plans", os.str()).log();
  }
};

template <Index N>
void randomFill(World& w, int p, bool in) {
  auto* s = w.plans[p];
  const auto sh = s->shapeOf(in);
  const auto n = prod(sh);
  const bool real = (in && s->kind() == "r2c") || (!in && s->kind() == "c2r");
  VI r(n), i(n);
  for (long k = 0; k < n; ++k) {
    r[k] = rng->in(-4, 4) * long(U);
    i[k] = real ? 0 : rng->in(-4, 4) * long(U);
  }
  if (in && s->kind() == "c2r" && rng->coin(9, 10)) { // Hermitian data
    const auto full = s->shape();
    std::vector<C> z;
    for (long k = 0; k < prod(full); ++k) {
      z.push_back(C(rng->in(-2, 2), rng->in(-2, 2)));
    }
    long k = 0;
    positions(sh, [&](const VI& f) {
      long a = 0, b = 0;
      for (long d = long(f.size()) - 1; d >= 0; --d) {
        a = a * full[d] + f[d];
        b = b * full[d] + (full[d] - f[d]) % full[d];
      }
      const C v = z[a] + std::conj(z[b]);
      r[k] = long(v.real() * U);
      i[k] = long(v.imag() * U);
      ++k;
    });
  }
  s->fill(in, r, i);
  vt::Ev("fill").n("p", p).s("side", in ? "in" : "out").a("re", r).a("im", i).log();
}

template <Index N>
void history(const std::vector<VI>& shapes, int ops) {
  World w;
  destroyed = 0;
  vt::Ev("reset").log();
  for (int o = 0; o < ops; ++o) {
    int what = w.plans.empty() ? 0 : int(rng->in(0, 19));
    const int q = w.fresh();
    if (what <= 5 && q < 0) {
      what = 12;
    }
    if (what <= 1) {
      const std::string k = KINDS[rng->in(0, 3)];
      const auto s = shapes[rng->in(0, long(shapes.size()) - 1)];
      w.plans[q] = create<N>(k, s);
      vt::Ev("create").n("p", q).s("kind", k).a("shape", s).log();
    } else if (what <= 3) {
      const int p = w.any();
      w.plans[q] = w.plans[p]->inverse();
      vt::Ev("inverse").n("p", p).n("q", q).log();
    } else if (what <= 5) {
      const int p = w.any();
      auto sh = w.plans[p]->shapeOf(false);
      std::string k;
      const bool fromReal = w.plans[p]->kind() == "c2r";
      VI other; // The same data may be read with another shape
      if (rng->coin(1, 2)) {
        const auto c = rng->in(0, 2);
        k = fromReal ? "r2c" : c == 0 ? "c2c" : c == 1 ? "c2ci" : "c2r";
        const auto& s = shapes[rng->in(0, long(shapes.size()) - 1)];
        if (prod(k == "c2r" ? halved(s) : s) == prod(sh)) {
          other = s;
        }
      }
      if (!other.empty()) {
        sh = other;
      } else if (fromReal) {
        k = "r2c";
      } else {
        const auto c = rng->in(0, 2);
        k = c == 0 ? "c2c" : c == 1 ? "c2ci" : "c2r";
        if (k == "c2r") { // either parity, lengths 1, 2 or 4
          if (w.plans[p]->kind() == "r2c" && rng->coin(3, 4)) {
            sh = w.plans[p]->shape();
          } else if (sh[0] == 1) {
            sh[0] = 1;
          } else if (sh[0] == 2) {
            sh[0] = 2;
          } else if (sh[0] == 3) {
            sh[0] = 4;
          } else {
            continue;
          }
        } else if (sh[0] == 3) {
          continue; // not an exact length
        }
      }
      w.plans[q] = w.plans[p]->compose(k, sh);
      vt::Ev("compose").n("p", p).n("q", q).s("kind", k).a("shape", sh).log();
    } else if (what <= 8) {
      const int p = w.any();
      randomFill<N>(w, p, rng->coin(7, 8));
    } else if (what == 9) {
      const int p = w.any();
      const bool in = rng->coin();
      auto* s = w.plans[p];
      const bool real = (in && s->kind() == "r2c") || (!in && s->kind() == "c2r");
      const auto k = rng->in(0, prod(s->shapeOf(in)) - 1);
      const auto r = rng->in(-4, 4) * long(U), i = real ? 0 : rng->in(-4, 4) * long(U);
      s->set(in, k, r, i);
      vt::Ev("set").n("p", p).s("side", in ? "in" : "out").n("i", k).n("re", r).n("im", i).log();
    } else if (what <= 14) {
      const int p = w.any();
      w.plans[p]->transform();
      vt::Ev("transform").n("p", p).log();
    } else if (what <= 16) {
      const int p = w.any();
      w.plans[p]->normalize();
      vt::Ev("normalize").n("p", p).log();
    } else if (what == 17) {
      const int p = w.any();
      if (q < 0) {
        continue;
      }
      w.plans[q] = w.plans[p]->moved();
      if (rng->coin()) {
        delete w.plans[p];
      } else {
        w.zombies.push_back(w.plans[p]);
      }
      w.plans.erase(p);
      vt::Ev("move").n("p", p).n("q", q).log();
    } else if (what == 18) {
      std::vector<std::pair<int, int>> c;
      for (auto& a : w.plans) {
        for (auto& b : w.plans) {
          if (a.first != b.first && a.second->kind() == b.second->kind() && !w.lender(b.first)) {
            c.push_back({a.first, b.first});
          }
        }
      }
      if (c.empty()) {
        continue;
      }
      const auto pq = c[rng->in(0, long(c.size()) - 1)];
      w.plans[pq.second]->assign(w.plans[pq.first]);
      if (rng->coin()) {
        delete w.plans[pq.first];
      } else {
        w.zombies.push_back(w.plans[pq.first]);
      }
      w.plans.erase(pq.first);
      vt::Ev("assign").n("p", pq.first).n("q", pq.second).log();
    } else {
      const int p = w.any();
      if (w.lender(p)) {
        continue;
      }
      delete w.plans[p];
      w.plans.erase(p);
      vt::Ev("destroy").n("p", p).log();
    }
    w.obs();
  }
  for (auto* z : w.zombies) {
    delete z;
  }
  while (!w.plans.empty()) {
    for (auto it = w.plans.begin(); it != w.plans.end();) {
      const int p = it->first;
      if (w.lender(p)) {
        ++it;
        continue;
      }
      delete it->second;
      it = w.plans.erase(it);
      vt::Ev("destroy").n("p", p).log();
    }
  }
  w.obs();
}

// Transforms of any length

const double F = 100000;

template <typename T, Index N>
void fillInts(VecRaster<T, N>& r, const VI& a, const VI& b) {
  std::size_t k = 0;
  for (auto& e : r) {
    put(e, a[k], b[k]);
    ++k;
  }
}

template <typename R>
void logDft(const std::string& kind, const VI& shape, const VI& a, const VI& b, const R& out, bool norm, bool kept, bool round, const VI& ba, const VI& bb) {
  VI oa, ob;
  parts(out, F, 0.51, oa, ob);
  vt::Ev("dft").s("kind", kind).a("shape", shape).a("re", a).a("im", b).a("oshape", out.shape()).a("ore", oa).a("oim", ob).b("norm", norm).b("kept", kept).b("round", round).a("bre", ba).a("bim", bb).log();
}

template <typename P>
void viaPlan(const VI& shape, const VI& a, const VI& b, bool normInv) {
  constexpr Index N = P::Dimension;
  P plan(mkpos<N>(shape));
  auto inv = plan.inverse();
  std::size_t k = 0;
  for (auto& e : plan.in()) {
    put(e, a[k], b[k]);
    ++k;
  }
  plan.transform();
  VecRaster<typename P::OutValue, N> out(mkpos<N>(vec(plan.outShape())));
  std::copy(plan.out().begin(), plan.out().end(), out.begin());
  inv.transform();
  if (normInv) {
    inv.normalize();
  }
  VI ba, bb;
  const double n = normInv ? 1 : 1. / prod(shape);
  parts(plan.in(), n, 1e-6, ba, bb);
  const bool alias = (const void*)plan.in().data() == (const void*)inv.out().data();
  logDft(KindOf<P>::s(), shape, a, b, out, false, alias, true, ba, bb);
}

template <typename T>
bool same(const VecRaster<T, 1>& a, const VI& x, const VI& y) {
  return true;
}
template <typename R>
bool kept(const R& r, const VI& a, const VI& b) {
  std::size_t k = 0;
  for (auto& e : r) {
    if (re(e) != a[k] || im(e) != b[k]) {
      return false;
    }
    ++k;
  }
  return true;
}

template <Index N>
void lengths(const VI& shape, int pattern) {
  const auto half = halved(shape);
  const long n = prod(shape);
  VI a(n), b(n), z(n, 0);
  for (long k = 0; k < n; ++k) {
    switch (pattern) {
      case 0: // impulse
        a[k] = k == n / 2 ? 3 : 0;
        b[k] = 0;
        break;
      case 1: // constant
        a[k] = 2;
        b[k] = -1;
        break;
      default:
        a[k] = rng->in(-5, 5);
        b[k] = rng->in(-5, 5);
    }
  }
  VecRaster<C, N> c(mkpos<N>(shape));
  fillInts(c, a, b);
  VecRaster<double, N> d(mkpos<N>(shape));
  fillInts(d, a, z);
  VecRaster<int, N> i(mkpos<N>(shape));
  for (long k = 0; k < n; ++k) {
    i[k] = int(a[k]);
  }
  const VI none;
  viaPlan<ComplexDft<N>>(shape, a, b, rng->coin());
  viaPlan<typename ComplexDft<N>::Inverse>(shape, a, b, rng->coin());
  viaPlan<RealDft<N>>(shape, a, z, rng->coin());
  logDft("c2c", shape, a, b, complexDft(c), false, kept(c, a, b), false, none, none);
  logDft("c2c", shape, a, z, complexDft(d), false, kept(d, a, z), false, none, none);
  logDft("c2ci", shape, a, b, inverseComplexDft(c), true, kept(c, a, b), false, none, none);
  const auto f = realDft(d);
  logDft("r2c", shape, a, z, f, false, kept(d, a, z), false, none, none);
  logDft("r2c", shape, a, z, realDft(i), false, true, false, none, none);
  VI ba, bb;
  parts(inverseRealDft(f, mkpos<N>(shape)), 1, 1e-9, ba, bb); // round trip
  logDft("r2c", shape, a, z, f, false, true, true, ba, bb);
  // Hermitian data
  VI ha, hb;
  positions(half, [&](const VI& p) {
    long x = 0, y = 0;
    for (long k = long(p.size()) - 1; k >= 0; --k) {
      x = x * shape[k] + p[k];
      y = y * shape[k] + (shape[k] - p[k]) % shape[k];
    }
    ha.push_back(a[x] + a[y]);
    hb.push_back(b[x] - b[y]);
  });
  VecRaster<C, N> h(mkpos<N>(half));
  fillInts(h, ha, hb);
  logDft("c2r", shape, ha, hb, inverseRealDft(h, mkpos<N>(shape)), true, kept(h, ha, hb), false, none, none);
  viaPlan<typename RealDft<N>::Inverse>(shape, ha, hb, rng->coin());
}

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  vt::Rng r(args.seed * 100 + args.part);
  rng = &r;
  const int nh = args.thorough ? 60 : 12;
  for (int k = 0; k < nh; ++k) {
    history<1>({{1}, {2}, {4}}, 40);
    history<2>({{1, 2}, {2, 2}, {4, 2}, {2, 4}, {4, 1}}, 40);
    history<3>({{2, 1, 2}, {2, 2, 2}, {4, 1, 2}}, 30);
    history<-1>({{4}, {2, 2}, {1, 2, 1}}, 30);
  }
  long c = 0;
  auto mine = [&]() {
    return c++ % args.parts == args.part;
  };
  for (int pattern = 0; pattern < (args.thorough ? 5 : 3); ++pattern) {
    for (long n = 1; n <= 8; ++n) {
      if (mine()) {
        lengths<1>({n}, pattern);
        lengths<-1>({n}, pattern);
      }
    }
    vt::forAll({1, 1}, {6, 6}, [&](const VI& s) {
      if (mine() && (pattern >= 2 || s[0] % 2 != s[1] % 2)) {
        lengths<2>(s, pattern);
      }
    });
    for (auto s : {VI {3, 2, 2}, VI {2, 3, 2}, VI {2, 2, 3}, VI {5, 1, 3}, VI {4, 3, 1}, VI {1, 1, 7}}) {
      if (mine()) {
        lengths<3>(s, pattern);
        lengths<-1>(s, pattern);
      }
    }
  }
  return vt::close();
}
