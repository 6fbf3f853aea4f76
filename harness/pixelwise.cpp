// Histories of element-wise operations on small sets of containers, all observed after each operation (C09, C10).
#include "rasters.h"
#include "LitlContainer/Sequence.h"
#include <array>
#include <cstring>
#include <functional>
#include <list>
#include <valarray>

using namespace Litl;
static vt::Rng* rng;

template <typename T>
struct Kindof {
  static constexpr bool isInt = std::is_integral<T>::value;
  static const char* name() {
    return std::is_same<T, unsigned char>::value ? "u8" : std::is_same<T, unsigned short>::value ? "u16" : isInt ? "int" : "real";
  }
};
template <typename T>
std::string bits(T v) {
  if (std::isnan(v)) {
    return "nan";
  }
  std::uint64_t u = 0;
  double d = v;
  std::memcpy(&u, &d, 8);
  char b[32];
  std::snprintf(b, sizeof b, "%016llx", (unsigned long long)u);
  return b;
}
template <typename T>
std::enable_if_t<std::is_integral<T>::value, std::string> enc(T v) {
  return std::to_string(vt::inum(v));
}
template <typename T>
std::enable_if_t<std::is_floating_point<T>::value, std::string> enc(T v) {
  return "\"" + bits(v) + "\"";
}
template <typename T>
std::string enc(const std::complex<T>& v) {
  return "\"" + bits(v.real()) + "|" + bits(v.imag()) + "\"";
}
template <typename C>
std::string encAll(const C& c) {
  std::string s = "[", sep = "";
  for (auto it = c.begin(); it != c.end(); ++it) {
    s += sep + enc(*it);
    sep = ",";
  }
  return s + "]";
}

template <typename T>
struct Rand {
  static T value() {
    if (std::is_integral<T>::value) {
      return T(std::is_signed<T>::value ? rng->in(-20, 20) : rng->in(0, 255));
    }
    switch (rng->in(0, 40)) {
      case 36:
        return std::numeric_limits<T>::infinity();
      case 37:
        return -std::numeric_limits<T>::infinity();
      case 38:
        return std::numeric_limits<T>::quiet_NaN();
      case 39:
        return rng->coin() ? T(-0.) : std::numeric_limits<T>::max();
      case 40:
        return std::numeric_limits<T>::min() / (rng->coin() ? 1 : 64);
      default:
        break;
    }
    switch (rng->in(0, 9)) {
      case 0:
        return T(0);
      case 1:
        return T(rng->in(-3, 3));
      case 2:
        return T(1);
      case 3:
        return T(rng->in(-100, 100)) / T(4);
      default:
        return T(rng->in(-100000, 100000)) / T(30011);
    }
  }
};
template <typename T>
struct Rand<std::complex<T>> {
  static std::complex<T> value() {
    return {Rand<T>::value(), Rand<T>::value()};
  }
};

template <typename T>
bool wild(const T& v) {
  return std::is_integral<T>::value && (double(v) > (std::is_signed<T>::value ? 1000 : 30000) || double(v) < -1000);
}
template <typename T>
bool wild(const std::complex<T>&) {
  return false;
}
template <typename T>
bool zero(const T& v) {
  return v == T(0);
}

#if WHAT == 9

template <typename C>
struct Factory;
template <typename T, typename H>
struct Factory<Sequence<T, H>> {
  std::list<std::vector<T>> mem;
  std::unique_ptr<Sequence<T, H>> make(const std::vector<T>& v) {
    return std::make_unique<Sequence<T, H>>(v);
  }
};
template <typename T>
struct Factory<Sequence<T, PtrHolder<T>>> {
  std::list<std::vector<T>> mem;
  std::unique_ptr<Sequence<T, PtrHolder<T>>> make(const std::vector<T>& v) {
    mem.push_back(v);
    return std::make_unique<Sequence<T, PtrHolder<T>>>(v.size(), mem.back().data());
  }
};
template <typename T, Index N, typename H>
struct Factory<Raster<T, N, H>> {
  std::unique_ptr<Raster<T, N, H>> make(const std::vector<T>& v) {
    VI s(N == -1 ? 3 : N, 1);
    s[0] = v.size();
    if (s.size() > 1 && v.size() % 2 == 0) {
      s[0] = 2;
      s[1] = v.size() / 2;
    }
    return std::make_unique<Raster<T, N, H>>(mkpos<N>(s), v);
  }
};
template <typename T, Index N>
struct Factory<Vector<T, N>> {
  std::unique_ptr<Vector<T, N>> make(const std::vector<T>& v) {
    return std::make_unique<Vector<T, N>>(v);
  }
};

template <typename C, typename T>
struct Lab {
  Factory<C> factory;
  std::unique_ptr<C> c[3];
  std::size_t n;

  std::vector<T> rand() {
    std::vector<T> v;
    for (std::size_t i = 0; i < n; ++i) {
      v.push_back(Rand<T>::value());
    }
    return v;
  }
  std::vector<T> copy(int x) {
    const C& k = *c[x];
    return std::vector<T>(k.begin(), k.end());
  }
  static C same(const C& k) {
    return k;
  }
  std::string obs() {
    std::string s = "[" + encAll(*c[0]) + "," + encAll(*c[1]);
    if (c[2]) {
      s += "," + encAll(*c[2]);
    }
    return s + "]";
  }
  Lab(std::size_t size) : n(size) {
    c[0] = factory.make(rand());
    c[1] = factory.make(rand());
    vt::Ev("begin").raw("objs", obs()).log();
  }
  void put(int x) {
    const auto v = rand();
    std::copy(v.begin(), v.end(), c[x]->begin());
    vt::Ev("put").n("x", x + 1).raw("vals", encAll(v)).raw("obs", obs()).log();
  }
  void calm() {
    for (int x = 0; x < 2; ++x) {
      for (const auto& e : copy(x)) {
        if (wild(e)) {
          put(x);
          break;
        }
      }
    }
  }
  template <typename F>
  static std::string table(const std::vector<T>& a, const std::vector<T>& b, F&& f) {
    std::string s = "[", sep = "";
    for (std::size_t i = a.size(); i-- > 0;) {
      s += sep + "[" + enc(a[i]) + "," + enc(b[i]) + "," + enc(T(f(a[i], b[i]))) + "]";
      sep = ",";
    }
    return s + "]";
  }
  template <typename F>
  static std::string table1(const std::vector<T>& a, F&& f) {
    std::string s = "[", sep = "";
    for (std::size_t i = a.size(); i-- > 0;) {
      s += sep + "[" + enc(a[i]) + "," + enc(T(0)) + "," + enc(T(f(a[i]))) + "]";
      sep = ",";
    }
    return s + "]";
  }
  vt::Ev ev(const char* op, const char* f, int x, const T& xs, int y, const T& ys) {
    vt::Ev e(op);
    e.s("f", f).s("t", Kindof<T>::name()).n("x", x).raw("xs", enc(xs)).n("y", y).raw("ys", enc(ys));
    return e;
  }

  /// x f= y
  template <typename S, typename G>
  void inCC(const char* f, S&& scalar, G&& go) {
    const int x = rng->in(0, 1), y = rng->in(0, 1);
    if (*f == '/' || *f == '%') {
      for (auto& e : *c[y]) {
        if (zero(e)) {
          return;
        }
      }
    }
    auto tab = table(copy(x), copy(y), scalar);
    const bool ret = (rng->coin() ? go(*c[x], static_cast<const C&>(*c[y])) : go(*c[x], *c[y])) == (const void*)c[x].get();
    ev("in", f, x + 1, T(0), y + 1, T(0)).raw("table", tab).b("ret", ret).raw("obs", obs()).log();
  }
  template <typename S, typename G>
  void newCC(const char* f, S&& scalar, G&& go) {
    const int x = rng->in(0, 1), y = rng->in(0, 1);
    if (*f == '/' || *f == '%') {
      for (auto& e : *c[y]) {
        if (zero(e)) {
          return;
        }
      }
    }
    auto tab = table(copy(x), copy(y), scalar);
    switch (rng->in(0, 4)) {
      case 0:
        c[2] = std::make_unique<C>(go(*c[x], *c[y]));
        break;
      case 1:
        c[2] = std::make_unique<C>(go(same(*c[x]), *c[y]));
        break;
      case 2:
        c[2] = std::make_unique<C>(go(static_cast<const C&>(*c[x]), same(*c[y])));
        break;
      case 3:
        c[2] = std::make_unique<C>(go(same(*c[x]), same(*c[y])));
        break;
      default:
        c[2] = std::make_unique<C>(go(static_cast<const C&>(*c[x]), static_cast<const C&>(*c[y])));
    }
    ev("new", f, x + 1, T(0), y + 1, T(0)).raw("table", tab).n("z", 3).n("n", n).raw("obs", obs()).log();
  }
  /// The scalar may be an element of the container
  template <typename S, typename G>
  void inCS(const char* f, S&& scalar, G&& go) {
    const int x = rng->in(0, 1);
    const bool own = n && rng->coin(1, 3);
    T local = Rand<T>::value();
    const std::size_t k = n ? rng->in(0, n - 1) : 0;
    const T& s = own ? static_cast<const C&>(*c[x])[k] : local;
    if ((*f == '/' || *f == '%') && zero(s)) {
      return;
    }
    const T val = s;
    auto tab = table(copy(x), std::vector<T>(n, val), scalar);
    const bool ret = (!own && rng->coin() ? go(*c[x], local) : go(*c[x], s)) == (const void*)c[x].get();
    ev("in", f, x + 1, T(0), 0, val).raw("table", tab).b("ret", ret).raw("obs", obs()).log();
  }
  template <typename S, typename G>
  void newCS(const char* f, S&& scalar, G&& go) {
    const int x = rng->in(0, 1);
    const T s = Rand<T>::value();
    if ((*f == '/' || *f == '%') && zero(s)) {
      return;
    }
    auto tab = table(copy(x), std::vector<T>(n, s), scalar);
    switch (rng->in(0, 2)) {
      case 0:
        c[2] = std::make_unique<C>(go(*c[x], s));
        break;
      case 1:
        c[2] = std::make_unique<C>(go(same(*c[x]), T(s)));
        break;
      default:
        c[2] = std::make_unique<C>(go(static_cast<const C&>(*c[x]), s));
    }
    ev("new", f, x + 1, T(0), 0, s).raw("table", tab).n("z", 3).n("n", n).raw("obs", obs()).log();
  }
  template <typename S, typename G>
  void newSC(const char* f, S&& scalar, G&& go) {
    const int y = rng->in(0, 1);
    const T s = Rand<T>::value();
    auto tab = table(std::vector<T>(n, s), copy(y), scalar);
    switch (rng->in(0, 2)) {
      case 0:
        c[2] = std::make_unique<C>(go(s, *c[y]));
        break;
      case 1:
        c[2] = std::make_unique<C>(go(T(s), same(*c[y])));
        break;
      default:
        c[2] = std::make_unique<C>(go(s, static_cast<const C&>(*c[y])));
    }
    ev("new", f, 0, s, y + 1, T(0)).raw("table", tab).n("z", 3).n("n", n).raw("obs", obs()).log();
  }
  template <typename S, typename G>
  void inU(const char* f, S&& scalar, G&& go) {
    const int x = rng->in(0, 1);
    auto tab = table1(copy(x), scalar);
    const bool ret = go(*c[x]) == (const void*)c[x].get();
    ev("in", f, x + 1, T(0), 0, T(0)).raw("table", tab).b("ret", ret).raw("obs", obs()).log();
  }
  /// Can values be converted to the element type?
  template <typename R>
  static std::enable_if_t<std::is_floating_point<R>::value, bool> fits(R r) {
    return !std::is_integral<T>::value || std::is_same<T, bool>::value ||
        (r > double(std::is_signed<T>::value ? -1000000 : -0.9) && r < double(std::is_same<T, unsigned char>::value ? 255.9 : std::numeric_limits<T>::digits < 31 ? 30000 : 1000000));
  }
  template <typename R>
  static std::enable_if_t<!std::is_floating_point<R>::value, bool> fits(R) {
    return true;
  }
  /// The second operand has another type, which takes part in the operation
  template <typename U, typename S, typename G, typename GN>
  void mixed(const char* f, bool container, bool fresh, S&& scalar, G&& go, GN&& goNew) {
    const int x = rng->in(0, 1);
    std::vector<U> b(n, Rand<U>::value());
    if (container) {
      for (auto& e : b) {
        e = Rand<U>::value();
      }
    }
    const auto a = copy(x);
    std::string tab = "[", sep = "";
    for (std::size_t i = 0; i < n; ++i) {
      const auto r = scalar(a[i], b[i]);
      if (!fits(r)) {
        return;
      }
      tab += sep + "[" + enc(a[i]) + "," + enc(b[i]) + "," + enc(T(r)) + "]";
      sep = ",";
    }
    if (n == 0) {
      return;
    }
    vt::Ev e(fresh ? "new" : "in");
    if (fresh) {
      c[2] = std::make_unique<C>(goNew(static_cast<const C&>(*c[x]), b, container));
      e.n("z", 3).n("n", n);
    } else {
      e.b("ret", go(*c[x], b, container) == (const void*)c[x].get());
    }
    std::string all = "[";
    for (std::size_t i = 0; i < n; ++i) {
      all += (i ? "," : "") + enc(b[i]);
    }
    e.s("f", std::string("mixed ") + f).s("t", Kindof<T>::name()).n("x", x + 1).raw("xs", enc(T(0)));
    e.n("y", -1).raw("ys", all + "]").raw("table", tab + "]").raw("obs", obs()).log();
  }
  /// A function of elements which yields another type
  template <typename S, typename G, typename GN>
  void mixedU(const char* f, bool fresh, S&& scalar, G&& go, GN&& goNew) {
    const int x = rng->in(0, 1);
    for (const auto& a : copy(x)) {
      if (!fits(scalar(a))) {
        return;
      }
    }
    if (fresh) {
      return newU(f, [&](T a) { return T(scalar(a)); }, goNew);
    }
    const auto tab = table1(copy(x), [&](T a) { return T(scalar(a)); });
    const bool ret = go(*c[x]) == (const void*)c[x].get();
    ev("in", f, x + 1, T(0), 0, T(0)).raw("table", tab).b("ret", ret).raw("obs", obs()).log();
  }
  template <typename S, typename G>
  void newU(const char* f, S&& scalar, G&& go) {
    const int x = rng->in(0, 1);
    auto tab = table1(copy(x), scalar);
    c[2] = std::make_unique<C>(go(static_cast<const C&>(*c[x])));
    ev("new", f, x + 1, T(0), 0, T(0)).raw("table", tab).n("z", 3).n("n", n).raw("obs", obs()).log();
  }
  template <typename S, typename G>
  void postU(const char* f, S&& scalar, G&& go) {
    const int x = rng->in(0, 1);
    auto tab = table1(copy(x), scalar);
    c[2] = std::make_unique<C>(go(*c[x]));
    ev("post", f, x + 1, T(0), 0, T(0)).raw("table", tab).n("z", 3).raw("obs", obs()).log();
  }
};

#define SCALAR(op) \
  [](T a, T b) { \
    return T(a op b); \
  }
#define NEW(op) \
  [](auto&& a, auto&& b) { \
    return std::forward<decltype(a)>(a) op std::forward<decltype(b)>(b); \
  }
#define UNARY(name, expr, ...) \
  L.inU(name, [](T a) { return T(expr); }, [](C & a) { return (const void*)&(__VA_ARGS__); });

template <typename C, typename T, typename = void>
struct ModOps {
  static constexpr int count = 0;
  static void go(Lab<C, T>&, int) {}
};
template <typename C, typename T>
struct ModOps<C, T, std::enable_if_t<std::is_integral<T>::value>> {
  static constexpr int count = 4;
  static void go(Lab<C, T>& L, int k) {
    switch (k) {
      case 0:
        return L.inCC("%", SCALAR(%), [](C& a, auto& b) { return (const void*)&(a %= b); });
      case 1:
        return L.inCS("%", SCALAR(%), [](C& a, auto& b) { return (const void*)&(a %= b); });
      case 2:
        return L.newCC("%", SCALAR(%), NEW(%));
      default:
        return L.newCS("%", SCALAR(%), NEW(%));
    }
  }
};
// Product and quotient of containers: Euclidean arithmetic only
template <typename C, typename T>
struct EuclidOps {
  static constexpr int count = 4;
  static void go(Lab<C, T>& L, int k) {
    switch (k) {
      case 0:
        return L.inCC("*", SCALAR(*), [](C& a, auto& b) { return (const void*)&(a *= b); });
      case 1:
        return L.inCC("/", SCALAR(/), [](C& a, auto& b) { return (const void*)&(a /= b); });
      case 2:
        return L.newCC("*", SCALAR(*), NEW(*));
      default:
        return L.newCC("/", SCALAR(/), NEW(/));
    }
  }
};
template <typename U, Index N, typename T>
struct EuclidOps<Vector<U, N>, T> {
  static constexpr int count = 0;
  static void go(Lab<Vector<U, N>, T>&, int) {}
};

template <typename C, typename T>
void inPlaceOps(Lab<C, T>& L, int k) {
  switch (k) {
    case 0:
      return L.inCC("+", SCALAR(+), [](C& a, auto& b) { return (const void*)&(a += b); });
    case 1:
      return L.inCC("-", SCALAR(-), [](C& a, auto& b) { return (const void*)&(a -= b); });
    case 2:
      return L.inCS("+", SCALAR(+), [](C& a, auto& b) { return (const void*)&(a += b); });
    case 3:
      return L.inCS("-", SCALAR(-), [](C& a, auto& b) { return (const void*)&(a -= b); });
    case 4:
      return L.inCS("*", SCALAR(*), [](C& a, auto& b) { return (const void*)&(a *= b); });
    default:
      return L.inCS("/", SCALAR(/), [](C& a, auto& b) { return (const void*)&(a /= b); });
  }
}
template <typename C, typename T>
void newOps(Lab<C, T>& L, int k) {
  switch (k) {
    case 0:
      return L.newCC("+", SCALAR(+), NEW(+));
    case 1:
      return L.newCC("-", SCALAR(-), NEW(-));
    case 2:
      return L.newCS("+", SCALAR(+), NEW(+));
    case 3:
      return L.newSC("+", SCALAR(+), NEW(+));
    case 4:
      return L.newCS("-", SCALAR(-), NEW(-));
    case 5:
      return L.newSC("-", SCALAR(-), NEW(-));
    case 6:
      return L.newCS("*", SCALAR(*), NEW(*));
    case 7:
      return L.newSC("*", SCALAR(*), NEW(*));
    case 8:
      return L.newCS("/", SCALAR(/), NEW(/));
    case 9:
      return L.newU("neg", [](T a) { return T(-a); }, [](const C& a) { return -a; });
    default:
      return L.newU("pos", [](T a) { return a; }, [](const C& a) { return +a; });
  }
}
template <typename C, typename T, bool Real>
struct StepOps {
  static constexpr int count = 0;
  static void go(Lab<C, T>&, int) {}
};
template <typename C, typename T>
struct StepOps<C, T, true> { // not for complex
  static constexpr int count = 4;
  static void go(Lab<C, T>& L, int k) {
    switch (k) {
      case 0:
        return L.inU("inc", [](T a) { return T(a + 1); }, [](C& a) { return (const void*)&(++a); });
      case 1:
        return L.inU("dec", [](T a) { return T(a - 1); }, [](C& a) { return (const void*)&(--a); });
      default:
        return post(L, k, std::is_base_of<PtrHolder<T>, C>());
    }
  }
  template <typename D>
  static void post(Lab<D, T>& L, int k, std::false_type) {
    if (k == 2) {
      L.postU("inc", [](T a) { return T(a + 1); }, [](D& a) { return a++; });
    } else {
      L.postU("dec", [](T a) { return T(a - 1); }, [](D& a) { return a--; });
    }
  }
  template <typename D>
  static void post(Lab<D, T>&, int, std::true_type) {} // copies are views
};

// Mathematical functions
#define UNARIES(X) \
  X(ceil) X(floor) X(trunc) X(round) X(cos) X(sin) X(tan) X(acos) X(asin) X(atan) X(cosh) X(sinh) X(tanh) X(acosh) \
      X(asinh) X(atanh) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(logb) X(ilogb) X(log1p) X(sqrt) X(cbrt) X(erf) \
          X(erfc) X(tgamma) X(lgamma)
#define CUNARIES(X) X(cos) X(sin) X(tan) X(exp) X(log) X(log10) X(sqrt) X(cosh) X(sinh) X(tanh) X(acosh) X(asin)
#define BINARIES(X) X(fdim) X(fmod) X(atan2) X(pow) X(hypot)

#define CASE_U(f) \
  if (k-- == 0) { \
    if (in) { \
      return L.inU(#f, [](T a) { return T(std::f(a)); }, [](C& a) { return (const void*)&(a.f()); }); \
    } \
    return L.newU(#f, [](T a) { return T(std::f(a)); }, [](const C& a) { return f(a); }); \
  }
#define CASE_B(f) \
  if (k-- == 0) { \
    switch (form) { \
      case 0: \
        return L.inCC(#f, [](T a, T b) { return T(std::f(a, b)); }, [](C& a, auto& b) { return (const void*)&(a.f(b)); }); \
      case 1: \
        return L.inCS(#f, [](T a, T b) { return T(std::f(a, b)); }, [](C& a, auto& b) { return (const void*)&(a.f(b)); }); \
      case 2: \
        return L.newCC(#f, [](T a, T b) { return T(std::f(a, b)); }, [](const C& a, const C& b) { return Litl::f(a, b); }); \
      case 3: \
        return L.newCS(#f, [](T a, T b) { return T(std::f(a, b)); }, [](const C& a, const T& b) { return Litl::f(a, b); }); \
      default: /* the other operand is another kind of iterable */ \
        return L.inCC(#f, [](T a, T b) { return T(std::f(a, b)); }, [](C& a, const C& b) { \
          std::list<T> w(b.begin(), b.end()); \
          return (const void*)&(a.f(w)); \
        }); \
    } \
  }
#define CASE_BI(f) CASE_B(f)

// Functions with an operand of another type
#define CASE_M(f) \
  if (k-- == 0) { \
    return L.template mixed<U>( \
        #f, \
        rng->coin(), \
        allowNew && rng->coin(), \
        [](T a, U b) { return std::f(a, b); }, \
        [](C& a, const std::vector<U>& b, bool container) { \
          return container ? (const void*)&(a.f(b)) : (const void*)&(a.f(b[0])); \
        }, \
        [](const C& a, const std::vector<U>& b, bool container) { \
          return container ? Litl::f(a, b) : Litl::f(a, b[0]); \
        }); \
  }
#define CASE_MU(f) \
  if (k-- == 0) { \
    return L.mixedU( \
        #f, \
        allowNew && rng->coin(), \
        [](T a) { return std::f(a); }, \
        [](C& a) { return (const void*)&(a.f()); }, \
        [](const C& a) { return Litl::f(a); }); \
  }
template <typename C, typename T, typename U, bool Real>
struct Mixed {
  static void go(Lab<C, T>& L, bool allowNew) {
    int k = rng->in(0, 4);
    BINARIES(CASE_M)
  }
};
template <typename C, typename T, typename U>
struct Mixed<C, T, U, false> { // complex
  static void go(Lab<C, T>& L, bool allowNew) {
    int k = 0;
    CASE_M(pow)
  }
};
template <typename C, typename T, bool Int>
struct MixedUnary {
  static void go(Lab<C, T>&, bool) {}
};
template <typename C, typename T>
struct MixedUnary<C, T, true> {
  static void go(Lab<C, T>& L, bool allowNew) {
    int k = rng->in(0, 30);
    UNARIES(CASE_MU)
  }
};

template <typename C, typename T, int Family> // 0: integer, 1: real, 2: complex
struct MathOps;
template <typename C, typename T>
struct MathOps<C, T, 0> {
  static void go(Lab<C, T>& L, bool allowNew) {
    int k = rng->in(0, 2);
    const bool in = !allowNew || rng->coin();
    int form = rng->in(0, 4);
    if (!allowNew && (form == 2 || form == 3)) {
      form = 0;
    }
    CASE_U(abs)
    CASE_B(max)
    CASE_B(min)
  }
};
template <typename C, typename T>
struct MathOps<C, T, 1> {
  static void go(Lab<C, T>& L, bool allowNew) {
    int k = rng->in(0, 31 + 7 - 1);
    const bool in = !allowNew || rng->coin();
    int form = rng->in(0, 4);
    if (!allowNew && (form == 2 || form == 3)) {
      form = 0;
    }
    CASE_U(abs)
    UNARIES(CASE_U)
    CASE_B(max)
    CASE_B(min)
    BINARIES(CASE_B)
  }
};
template <typename C, typename T>
struct MathOps<C, T, 2> {
  static void go(Lab<C, T>& L, bool allowNew) {
    int k = rng->in(0, 12);
    const bool in = !allowNew || rng->coin();
    int form = rng->in(0, 4);
    if (!allowNew && (form == 2 || form == 3)) {
      form = 0;
    }
    CUNARIES(CASE_U)
    CASE_B(pow)
  }
};

template <typename T>
struct Family {
  static constexpr int value = std::is_integral<T>::value ? 0 : std::is_floating_point<T>::value ? 1 : 2;
};

template <typename C, typename T>
void run(std::size_t n, int steps, bool allowNew) {
  Lab<C, T> L(n);
  for (int i = 0; i < steps; ++i) {
    L.calm();
    const int what = rng->in(0, 19);
    if (what < 5) {
      inPlaceOps(L, rng->in(0, 5));
    } else if (what < 9) {
      if (allowNew) {
        newOps(L, rng->in(0, 10));
      }
    } else if (what < 11) {
      const int k = rng->in(0, 3);
      EuclidOps<C, T>::go(L, allowNew ? k : k % 2);
    } else if (what < 13) {
      const int k = rng->in(0, 3);
      ModOps<C, T>::go(L, allowNew ? k : k % 2);
    } else if (what < 14) {
      const int k = rng->in(0, 3);
      StepOps<C, T, (Family<T>::value < 2)>::go(L, allowNew ? k : k % 2);
    } else if (what < 15) {
      constexpr bool real = Family<T>::value < 2;
      switch (rng->in(0, 3)) {
        case 0:
          Mixed<C, T, std::conditional_t<real, float, double>, real>::go(L, allowNew);
          break;
        case 1:
          Mixed<C, T, std::conditional_t<real, int, double>, real>::go(L, allowNew);
          break;
        case 2:
          MixedUnary<C, T, Family<T>::value == 0>::go(L, allowNew);
          break;
        default:
          Mixed<C, T, double, real>::go(L, allowNew);
      }
    } else {
      MathOps<C, T, Family<T>::value>::go(L, allowNew);
    }
    if (Family<T>::value && rng->coin(1, 4)) {
      L.put(rng->in(0, 1));
    }
  }
}

template <typename C, typename T>
void runs(int reps, int steps, long fixed = -1, bool allowNew = true) {
  for (int r = 0; r < reps; ++r) {
    if (fixed < 0 && r % 20 == 13) { // longer containers, for a few steps
      run<C, T>(rng->coin() ? rng->in(31, 140) : (1L << rng->in(4, 7)) + rng->in(-1, 1), 3, allowNew);
      continue;
    }
    run<C, T>(fixed >= 0 ? fixed : r % 7 == 6 ? rng->in(7, 30) : rng->in(r ? 1 : 0, 6), steps, allowNew);
  }
}

// complex to real functions of rasters
#define C2R(f) \
  { \
    auto out = f(in); \
    std::string tab = "[", sep = ""; \
    for (auto it = in.begin(); it != in.end(); ++it) { \
      tab += sep + "[" + enc(*it) + "," + enc(std::complex<T>(0)) + "," + enc(T(std::f(*it))) + "]"; \
      sep = ","; \
    } \
    vt::Ev("new") \
        .s("f", #f) \
        .s("t", "real") \
        .n("x", 1) \
        .raw("xs", "\"\"") \
        .n("y", 0) \
        .raw("ys", enc(std::complex<T>(0))) \
        .raw("table", tab + "]") \
        .n("z", 2) \
        .n("n", in.size()) \
        .raw("obs", "[" + encAll(in) + "," + encAll(out) + "]") \
        .log(); \
  }
template <typename T, Index N>
void complexToReal(int reps) {
  for (int r = 0; r < reps; ++r) {
    VI s(N == -1 ? 3 : N, 2);
    s[0] = rng->in(1, 4);
    VecRaster<std::complex<T>, N> in(mkpos<N>(s));
    for (auto& e : in) {
      e = Rand<std::complex<T>>::value();
    }
    vt::Ev("begin").raw("objs", "[" + encAll(in) + "]").log();
    C2R(real)
    C2R(imag)
    C2R(abs)
    C2R(arg)
    C2R(norm)
  }
}

void what(const vt::Args& a) {
  int job = 0;
  auto mine = [&]() {
    return job++ % a.parts == a.part;
  };
  const int R = a.thorough ? 80 : 20, S = 40;
#if ONLY == 0
  if (mine()) {
    runs<Sequence<int>, int>(R, S);
    runs<Sequence<unsigned char, StdHolder<std::valarray<unsigned char>>>, unsigned char>(R, S);
    runs<Vector<int, 3>, int>(R, S, 3);
  }
#endif
#if ONLY == 1
  if (mine()) {
    runs<Raster<int, 2, AlignedBuffer<int>>, int>(R, S);
    runs<Raster<unsigned short, 3, StdHolder<std::array<unsigned short, 6>>>, unsigned short>(R, S, 6);
    runs<Vector<long, -1>, long>(R, S);
    runs<Sequence<int, PtrHolder<int>>, int>(R, S, -1, false);
  }
#endif
#if ONLY == 2
  if (mine()) {
    runs<Raster<double, 2>, double>(2 * R, S);
    runs<Vector<double, -1>, double>(R, S);
  }
#endif
#if ONLY == 3
  if (mine()) {
    runs<Raster<float, -1, StdHolder<std::valarray<float>>>, float>(2 * R, S);
    runs<Sequence<double, PtrHolder<double>>, double>(R, S, -1, false);
  }
#endif
#if ONLY == 4
  if (mine()) {
    runs<Sequence<std::complex<double>, AlignedBuffer<std::complex<double>>>, std::complex<double>>(2 * R, S);
    complexToReal<double, 2>(R);
    complexToReal<float, -1>(R);
  }
#endif
}
#else

// C10: values logged as small integers
template <typename C>
VI numbers(const C& c) {
  VI out;
  for (auto it = c.begin(); it != c.end(); ++it) {
    out.push_back(vt::inum(*it));
  }
  return out;
}

template <typename T, bool Cplx>
struct Extrema {
  template <typename C, typename F>
  static void go(const C& c, int x, F&& obs) {
    const auto* d = c.data();
    const auto mm = c.minmax();
    obs(vt::Ev("extrema")
            .n("x", x)
            .n("min", &c.min() - d)
            .n("max", &c.max() - d)
            .n("mm1", &mm.first - d)
            .n("mm2", &mm.second - d));
  }
};
template <typename T>
struct Extrema<T, true> {
  template <typename C, typename F>
  static void go(const C&, int, F&&) {}
};
template <typename T>
struct IsComplex : std::false_type {};
template <typename T>
struct IsComplex<std::complex<T>> : std::true_type {};
template <typename T>
T mk(long v) { // log = re + 1000 * im
  return Val<T>::from(v);
}
template <typename T>
T dec(long v, std::false_type) {
  return T(v);
}
template <typename T>
T dec(long v, std::true_type) {
  typedef typename TypeTraits<T>::Scalar S;
  const long im = std::lround(double(v) / 1000);
  return T(S(v - 1000 * im), S(im));
}

template <typename C, typename... A> // does not compile for complex types
bool lin(std::false_type, C& c, const A&... args) {
  return &c.linspace(args...) == &c;
}
template <typename C, typename... A>
bool lin(std::true_type, C&, const A&...) {
  return false;
}

template <typename C, typename T, typename M>
void run(std::size_t n, std::size_t m, int steps, M&& make) {
  C a = make(n), b = make(n), c = make(m); // c: same number of elements or more
  C* o[3] = {&a, &b, &c};
  auto obs = [&](vt::Ev& e) {
    e.aa("obs", std::vector<VI> {numbers(a), numbers(b), numbers(c)}).log();
  };
  const typename IsComplex<T>::type cplx {};
  auto put = [&](int x) {
    for (auto& e : *o[x]) {
      e = dec<T>(rng->in(0, rng->coin() ? 3 : 60), cplx);
    }
  };
  put(0);
  put(1);
  put(2);
  vt::Ev("begin").aa("objs", std::vector<VI> {numbers(a), numbers(b), numbers(c)}).log();
  for (int i = 0; i < steps; ++i) {
    const int x = rng->in(0, 2);
    C& t = *o[x];
    const std::size_t size = t.size();
    switch (rng->in(0, 9)) {
      case 0: {
        const bool own = size && rng->coin();
        const T local = dec<T>(rng->in(-100, 100) + (cplx.value ? 1000 * rng->in(-3, 3) : 0), cplx);
        const T& r = own ? static_cast<const C&>(t)[rng->in(0, size - 1)] : local;
        const long v = vt::inum(r);
        const bool ret = &t.fill(r) == &t;
        obs(vt::Ev("fill").n("x", x + 1).n("v", v).b("ret", ret));
        break;
      }
      case 1: {
        long min = 0, step = cplx.value ? 1001 : 1;
        bool ret;
        switch (rng->in(0, 3)) {
          case 0:
            ret = &t.range() == &t;
            break;
          case 1:
            min = rng->in(-30, 30);
            ret = &t.range(dec<T>(min, cplx)) == &t;
            break;
          case 2:
            min = rng->in(-30, 30);
            step = rng->in(-5, 5) + (cplx.value ? 1000 * rng->in(-3, 3) : 0);
            ret = &t.range(dec<T>(min, cplx), dec<T>(step, cplx)) == &t;
            break;
          default:
            if (size == 0) {
              continue;
            }
            {
              const auto& e = static_cast<const C&>(t)[rng->in(0, size - 1)];
              const auto& f = static_cast<const C&>(t)[rng->in(0, size - 1)];
              min = vt::inum(e);
              step = vt::inum(f);
              if (std::labs(min) + std::labs(step) * long(size) > 100) {
                continue;
              }
              ret = &t.range(e, f) == &t;
            }
        }
        obs(vt::Ev("range").n("x", x + 1).n("min", min).n("step", step).b("ret", ret));
        break;
      }
      case 2: {
        if (!std::is_integral<T>::value) {
          continue;
        }
        const bool own = size && rng->coin(1, 3);
        const T lo = T(rng->in(-40, 20)), hi = T(rng->in(-20, 60));
        const T& e = own ? static_cast<const C&>(t)[rng->in(0, size - 1)] : lo;
        const T& f = own ? static_cast<const C&>(t)[rng->in(0, size - 1)] : hi;
        const long min = vt::inum(e), max = vt::inum(f);
        const bool ret = lin(cplx, t, e, f);
        obs(vt::Ev("linint").n("x", x + 1).n("min", min).n("max", max).b("ret", ret));
        break;
      }
      case 3: { // scaled by n - 1
        if (std::is_integral<T>::value || cplx.value || (sizeof(T) < 8 && size > 30)) {
          continue;
        }
        C u = t;
        long min = 0, max = cplx.value ? 1001 : 1;
        bool ret;
        T lo = dec<T>(0, cplx), hi = dec<T>(max, cplx);
        if (rng->coin(1, 4)) {
          ret = lin(cplx, u);
        } else {
          min = rng->in(-40, 40);
          max = rng->in(-40, 40);
          lo = dec<T>(min, cplx);
          hi = dec<T>(max, cplx);
          if (size && rng->coin(1, 3)) {
            const std::size_t p = rng->in(0, size - 1);
            const std::size_t q = rng->in(0, size - 1);
            u[p] = lo;
            if (p != q) {
              u[q] = hi;
            } else {
              hi = lo;
              max = min;
            }
            ret = lin(cplx, u, u[p], u[q]);
          } else {
            ret = lin(cplx, u, lo, hi);
          }
        }
        VI scaled;
        for (auto& e : u) {
          const auto z = std::complex<double>(e) * double(size - 1);
          scaled.push_back(vt::fix(z.real(), 1, 1e-3) + 1000 * vt::fix(z.imag(), 1, 1e-3));
        }
        vt::Ev("linreal")
            .n("x", x + 1)
            .n("n", size)
            .n("min", min)
            .n("max", max)
            .a("scaled", scaled)
            .b("first", size && u[0] == lo)
            .b("last", size && u[size - 1] == hi)
            .b("ret", ret)
            .log();
        break;
      }
      case 4:
      case 5: { // generate
        std::vector<VI> calls;
        VI rets;
        auto answer = [&](const VI& args) {
          calls.push_back(args);
          const long r = rng->in(0, 60);
          rets.push_back(r);
          return dec<T>(r, cplx);
        };
        // a functor with its own state, given as an lvalue
        struct Counter {
          std::size_t state = 0;
          decltype(answer)& f;
          explicit Counter(decltype(answer)& g) : f(g) {}
          T operator()() {
            ++state;
            return f({});
          }
          T operator()(const T& e) {
            ++state;
            return f({vt::inum(e)});
          }
          T operator()(const T& e, const T& g) {
            ++state;
            return f({vt::inum(e), vt::inum(g)});
          }
        } counter(answer);
        const bool stateful = rng->coin(1, 3);
        VI ins;
        bool ret;
        std::vector<int> ok; // long enough inputs
        for (int k = 0; k < 3; ++k) {
          if (o[k]->size() >= size) {
            ok.push_back(k);
          }
        }
        const int p = ok[rng->in(0, ok.size() - 1)], q = ok[rng->in(0, ok.size() - 1)], s = ok[rng->in(0, ok.size() - 1)];
        const auto& P = static_cast<const C&>(*o[p]);
        const auto& Q = static_cast<const C&>(*o[q]);
        const auto& S = static_cast<const C&>(*o[s]);
        const int arity = int(rng->in(0, stateful ? 2 : 3));
        if (stateful) {
          ret = arity == 0 ? &t.generate(counter) == &t : arity == 1 ? &t.generate(counter, P) == &t : &t.generate(counter, P, Q) == &t;
          ret = ret && counter.state == size;
          ins = arity == 0 ? VI {} : arity == 1 ? VI {p + 1} : VI {p + 1, q + 1};
          vt::Ev e("gen");
          obs(e.n("x", x + 1).a("ins", ins).aa("calls", calls).a("rets", rets).b("ret", ret));
          break;
        }
        switch (arity) {
          case 0:
            ret = &t.generate([&]() { return answer({}); }) == &t;
            break;
          case 1:
            ins = {p + 1};
            ret = &t.generate([&](const T& e) { return answer({vt::inum(e)}); }, P) == &t;
            break;
          case 2:
            ins = {p + 1, q + 1};
            ret = &t.generate([&](const T& e, const T& f) { return answer({vt::inum(e), vt::inum(f)}); }, P, Q) == &t;
            break;
          default:
            ins = {p + 1, q + 1, s + 1};
            ret = &t.generate(
                      [&](T e, T f, T g) { return answer({vt::inum(e), vt::inum(f), vt::inum(g)}); }, P, Q, S) == &t;
        }
        vt::Ev e("gen");
        obs(e.n("x", x + 1).a("ins", ins).aa("calls", calls).a("rets", rets).b("ret", ret));
        break;
      }
      case 6:
      case 7: { // apply
        std::vector<VI> calls;
        VI rets;
        auto answer = [&](const VI& args) {
          calls.push_back(args);
          const long r = rng->in(0, 60);
          rets.push_back(r);
          return dec<T>(r, cplx);
        };
        struct Counter {
          std::size_t state = 0;
          decltype(answer)& f;
          explicit Counter(decltype(answer)& g) : f(g) {}
          T operator()(const T& e) {
            ++state;
            return f({vt::inum(e)});
          }
          T operator()(const T& e, const T& g) {
            ++state;
            return f({vt::inum(e), vt::inum(g)});
          }
        } counter(answer);
        const bool stateful = rng->coin(1, 3);
        VI ins {x + 1};
        bool ret;
        std::vector<int> ok;
        for (int k = 0; k < 3; ++k) {
          if (o[k]->size() >= size) {
            ok.push_back(k);
          }
        }
        const int p = ok[rng->in(0, ok.size() - 1)], q = ok[rng->in(0, ok.size() - 1)];
        const auto& P = static_cast<const C&>(*o[p]);
        const auto& Q = static_cast<const C&>(*o[q]);
        if (stateful) {
          const bool two = rng->coin();
          ret = two ? &t.apply(counter, P) == &t : &t.apply(counter) == &t;
          ret = ret && counter.state == size;
          if (two) {
            ins.push_back(p + 1);
          }
          vt::Ev e("gen");
          obs(e.n("x", x + 1).a("ins", ins).aa("calls", calls).a("rets", rets).b("ret", ret));
          break;
        }
        switch (rng->in(0, 2)) {
          case 0:
            ret = &t.apply([&](const T& e) { return answer({vt::inum(e)}); }) == &t;
            break;
          case 1:
            ins.push_back(p + 1);
            ret = &t.apply([&](const T& e, const T& f) { return answer({vt::inum(e), vt::inum(f)}); }, P) == &t;
            break;
          default:
            ins.push_back(p + 1);
            ins.push_back(q + 1);
            ret = &t.apply([&](T e, T f, T g) { return answer({vt::inum(e), vt::inum(f), vt::inum(g)}); }, P, Q) == &t;
        }
        vt::Ev e("gen");
        obs(e.n("x", x + 1).a("ins", ins).aa("calls", calls).a("rets", rets).b("ret", ret));
        break;
      }
      default:
        if (size) {
          Extrema<T, IsComplex<T>::value>::go(static_cast<const C&>(t), x + 1, obs);
        }
    }
  }
}

long medium() {
  return rng->coin() ? rng->in(13, 140) : (1L << rng->in(4, 7)) + rng->in(-1, 1);
}
template <typename T, typename H>
void seqs(int reps, int steps, long fixed = -1) {
  for (int r = 0; r < reps; ++r) {
    const long n = fixed >= 0 ? fixed : r < 10 ? r : r % 6 == 5 ? medium() : rng->in(0, 12);
    run<Sequence<T, H>, T>(n, fixed >= 0 ? fixed : n + rng->in(0, 2), n > 12 ? 8 : steps, [](std::size_t k) {
      return Sequence<T, H>(k);
    });
  }
}
template <typename T, Index N, typename H>
void rasters(int reps, int steps, long fixed = -1) {
  for (int r = 0; r < reps; ++r) {
    const long n = fixed >= 0 ? fixed : r < 10 ? r : r % 6 == 5 ? medium() : rng->in(0, 12);
    run<Raster<T, N, H>, T>(n, fixed >= 0 ? fixed : n + rng->in(0, 2), n > 12 ? 8 : steps, [](std::size_t k) {
      VI s(N == -1 ? 3 : N, 1);
      s[0] = k;
      if (s.size() > 1 && k % 2 == 0) {
        s[0] = 2;
        s[1] = k / 2;
      }
      return Raster<T, N, H>(mkpos<N>(s));
    });
  }
}
template <typename T, Index N>
void vectors(int reps, int steps) {
  for (int r = 0; r < reps; ++r) {
    const long n = N == -1 ? rng->in(0, 7) : N;
    run<Vector<T, N>, T>(n, n, steps, [](std::size_t k) {
      return Vector<T, N>(T(k));
    });
  }
}

void what(const vt::Args& a) {
  int job = 0;
  auto mine = [&]() {
    return job++ % a.parts == a.part;
  };
  const int R = a.thorough ? 120 : 24, S = 40;
  if (mine()) {
    seqs<int, StdHolder<std::vector<int>>>(R, S);
    seqs<double, StdHolder<std::valarray<double>>>(R, S);
  }
  if (mine()) {
    rasters<int, 2, AlignedBuffer<int>>(R, S);
    rasters<float, -1, StdHolder<std::vector<float>>>(R, S);
  }
  if (mine()) {
    rasters<long, 3, StdHolder<std::array<long, 6>>>(R, S, 6);
    seqs<std::complex<double>, StdHolder<std::vector<std::complex<double>>>>(R, S);
  }
  if (mine()) {
    vectors<long, 3>(R, S);
    vectors<double, -1>(R, S);
    vectors<long, 1>(R / 2, S);
    rasters<double, 1, AlignedBuffer<double>>(R, S);
  }
}
#endif

int main(int argc, char** argv) {
  auto a = vt::open(argc, argv);
  vt::Rng r(a.seed * 131 + a.part);
  rng = &r;
  what(a);
  return vt::close();
}
