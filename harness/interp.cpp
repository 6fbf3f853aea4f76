// Extrapolation (C14, WHAT=14) and interpolation (C15, WHAT=15).
#include "rasters.h"
#include "LitlTransforms/Interpolation.h"
using namespace Litl;
static vt::Rng* rng;

template <typename T>
struct Enc {
  static double real(const T& v) {
    return double(v);
  }
};
template <typename T>
struct Enc<std::complex<T>> {
  static double real(const std::complex<T>& v) {
    return v.imag() == 0 ? double(v.real()) : std::nan("");
  }
};

template <typename T, Index N, Kind K>
struct Lab {
  Maker<T, N, K> maker;
  typename Maker<T, N, K>::R in;
  VI shape;
  int dim;

  explicit Lab(const VI& s) : in(maker.make(s)), shape(s), dim(s.size()) {
    VI img;
    for (auto& e : in) {
      img.push_back(rng->in(0, 20));
      e = Val<T>::from(img.back());
    }
    vt::Ev("begin").a("shape", s).a("img", img).log();
  }
  void put() {
    const long i = rng->in(0, in.size() - 1), v = rng->in(0, 20);
    in.data()[i] = Val<T>::from(v);
    vt::Ev("put").n("i", i).n("v", v).log();
  }
  template <typename E>
  void same(const E& e) {
    vt::Ev("same")
        .a("img", std::vector<T>(in.begin(), in.end()))
        .a("shape", e.shape())
        .a("front", e.domain().front())
        .a("back", e.domain().back())
        .b("decorated", static_cast<const void*>(&e.raster()) == static_cast<const void*>(&in))
        .log();
  }
  VI position(long far) {
    VI p;
    for (auto s : shape) {
      switch (rng->in(0, 3)) {
        case 0:
          p.push_back(rng->in(-far, s + far));
          break;
        case 1:
          p.push_back(rng->coin() ? -1 : s);
          break;
        default:
          p.push_back(rng->in(0, s - 1));
      }
    }
    return p;
  }
  template <typename E>
  void ext(const E& e, const char* m, long c, const VI& p) {
    vt::Ev("ext").s("m", m).n("c", c).a("p", p).n("got", e[mkpos<N>(p)]).log();
  }
  /// Coordinates hi * 2^20 + lo
  void far(VI& hi, VI& lo, long most) {
    hi.clear();
    lo.clear();
    for (auto s : shape) {
      const bool in = rng->coin();
      const long h = rng->coin() ? (rng->coin() ? 1 : -1) * (1L << rng->in(0, most == 1L << 28 ? 27 : 30)) : rng->in(-most, most);
      hi.push_back(in ? 0 : h);
      lo.push_back(in || rng->coin() ? rng->in(4, 4 + s) : rng->in(4, 1000000));
    }
  }
  template <typename E>
  void extFar(const E& e, const char* m, long c, const VI& hi, const VI& lo) {
    VI p(dim);
    for (int k = 0; k < dim; ++k) {
      p[k] = hi[k] * (1L << 20) + lo[k];
    }
    vt::Ev("extfar").s("m", m).n("c", c).a("hi", hi).a("lo", lo).n("got", e[mkpos<N>(p)]).log();
  }
  void extrapolations(int steps) {
    const long c = rng->in(30, 50);
    const auto cst = extrapolate(static_cast<const decltype(in)&>(in), Val<T>::from(c));
    const auto zero = extrapolate<OutOfBoundsConstant<T>>(in);
    const auto near = extrapolate(in);
    const auto near2 = extrapolate<NearestNeighbor>(in);
    const auto per = extrapolate<Periodic>(in);
    const auto inter = interpolate<NearestNeighbor>(per);
    auto all = [&](const VI& p) {
      ext(cst, "const", c, p);
      ext(near, "near", 0, p);
      ext(per, "per", 0, p);
    };
    // All positions around
    VI lo(dim), hi(shape);
    long count = 1;
    for (int k = 0; k < dim; ++k) {
      lo[k] = -2;
      hi[k] = shape[k] + 1;
      count *= shape[k] + 4;
    }
    if (count < 160) {
      vt::forAll(lo, hi, all);
    }
    for (int i = 0; i < steps; ++i) {
      if (rng->coin(1, 4)) {
        put();
      }
      const VI p = position(rng->coin(1, 5) ? 100000 : 12);
      all(p);
      ext(zero, "const", 0, p);
      ext(near2, "near", 0, p);
      ext(inter, "per", 0, p);
      if (i % 2) {
        VI hi, lo;
        far(hi, lo, 2000000000L);
        extFar(cst, "const", c, hi, lo);
        extFar(near, "near", 0, hi, lo);
        extFar(per, "per", 0, hi, lo);
        extFar(inter, "per", 0, hi, lo);
      }
    }
    same(cst);
    same(per);
    same(near);
    same(inter);
  }

  template <typename I>
  void inter(const I& i, const char* method, const char* m, long c, const VI& q, long D, double scale) {
    Vector<double, N> v(N == -1 ? dim : N);
    for (int k = 0; k < dim; ++k) {
      v[k] = double(q[k]) / D;
    }
    const double got = Enc<typename TypeTraits<T>::Floating>::real(i(v));
    vt::Ev(method).s("m", m).n("c", c).n("D", D).a("q", q).n("got", vt::fix(got, scale, 0.01)).log();
  }
  template <typename I>
  void interFar(const I& i, const char* method, const char* m, long c, const VI& hi, const VI& lo, const VI& r, long D, double scale) {
    Vector<double, N> v(N == -1 ? dim : N);
    for (int k = 0; k < dim; ++k) {
      v[k] = double(hi[k] * (1L << 20) + lo[k]) + double(r[k]) / D;
    }
    const double got = Enc<typename TypeTraits<T>::Floating>::real(i(v));
    const bool near = std::string(method) == "nearest";
    vt::Ev(near ? "nearfar" : "far").s("how", method).s("m", m).n("c", c).n("D", D).a("hi", hi).a("lo", lo).a("r", r)
        .n("got", vt::fix(got, scale, 0.01)).log();
  }
  /// Positions very close to pixels, or to the middle of pixels, along one axis
  template <typename I>
  void tiny(const I& i, const char* method, const char* m, long c, const VI& p, int axis, long e, long D, double scale) {
    if (std::is_same<T, float>::value) {
      return;
    }
    Vector<double, N> v(N == -1 ? dim : N);
    for (int k = 0; k < dim; ++k) {
      v[k] = p[k];
    }
    v[axis] += double(e) / D + (scale == 1 ? 0.5 : 0);
    const double got = Enc<typename TypeTraits<T>::Floating>::real(i(v));
    vt::Ev("tiny").s("how", method).s("m", m).n("c", c).n("D", D).a("p", p).n("axis", axis).n("e", e).n("got", vt::fix(got, scale, 0.01)).log();
  }
  /// To 12 digits, at positions which are not dyadic: got = hi / 10^6 + lo / 10^12
  template <typename I>
  void fine(const I& i, const char* method, const char* m, long c, const VI& q, long D) {
    if (std::is_same<T, float>::value) {
      return;
    }
    Vector<double, N> v(N == -1 ? dim : N);
    for (int k = 0; k < dim; ++k) {
      v[k] = double(q[k]) / D;
    }
    const double got = Enc<typename TypeTraits<T>::Floating>::real(i(v)) * 1e6;
    const double hi = std::floor(got);
    vt::Ev("fine").s("how", method).s("m", m).n("c", c).n("D", D).a("q", q).n("hi", long(hi)).n("lo", long((got - hi) * 1e6)).log();
  }
};

/// Fixed dimension only
template <typename L, bool Do>
struct Poly {
  template <typename E>
  static void go(L& lab, const E& e, const char* m, long c, const VI& q, long D) {
    const auto lin = interpolate<Linear>(e);
    lab.inter(lin, "linear", m, c, q, D, std::pow(double(D), lab.dim));
    const auto cub = interpolate<Cubic>(e);
    lab.inter(cub, "cubic", m, c, q, D, std::pow(2. * D * D * D, lab.dim));
    VI fine(q);
    for (auto& e : fine) {
      e += rng->in(0, D);
    }
    lab.fine(lin, "linear", m, c, fine, 5);
    if (lab.dim < 3) {
      lab.fine(cub, "cubic", m, c, fine, 5);
    }
  }
  template <typename E>
  static void tiny(L& lab, const E& e, const char* m, long c, const VI& p, int axis, long d, long D) {
    lab.tiny(interpolate<Linear>(e), "linear", m, c, p, axis, d, D, D);
    lab.tiny(interpolate<Cubic>(e), "cubic", m, c, p, axis, d, D, 2 * D);
  }
  template <typename E>
  static void far(L& lab, const E& e, const char* m, long c, const VI& hi, const VI& lo, const VI& r, long D) {
    const auto lin = interpolate<Linear>(e);
    lab.interFar(lin, "linear", m, c, hi, lo, r, D, std::pow(double(D), lab.dim));
    const auto cub = interpolate<Cubic>(e);
    lab.interFar(cub, "cubic", m, c, hi, lo, r, D, std::pow(2. * D * D * D, lab.dim));
  }
  template <typename E>
  static void inside(L& lab, const E& e, const VI& q, long D) {
    bool lin = true, cub = true;
    for (int k = 0; k < lab.dim; ++k) {
      const long f = q[k] / D;
      lin &= q[k] >= 0 && f + 1 < lab.shape[k];
      cub &= f >= 1 && f + 2 < lab.shape[k];
    }
    if (lin) {
      const auto i = interpolate<Linear>(e);
      lab.inter(i, "linear", "none", 0, q, D, std::pow(double(D), lab.dim));
    }
    if (cub) {
      const auto i = interpolate<Cubic>(e);
      lab.inter(i, "cubic", "none", 0, q, D, std::pow(2. * D * D * D, lab.dim));
    }
  }
};
template <typename L>
struct Poly<L, false> {
  template <typename E>
  static void go(L&, const E&, const char*, long, const VI&, long) {}
  template <typename E>
  static void tiny(L&, const E&, const char*, long, const VI&, int, long, long) {}
  template <typename E>
  static void far(L&, const E&, const char*, long, const VI&, const VI&, const VI&, long) {}
  template <typename E>
  static void inside(L&, const E&, const VI&, long) {}
};

template <typename T, Index N, Kind K>
void run(const VI& shape, int steps) {
  Lab<T, N, K> lab(shape);
#if WHAT == 14
  lab.extrapolations(steps);
#else
  typedef Lab<T, N, K> L;
  typedef Poly<L, (N > 0)> P;
  auto& in = lab.in;
  const long c = rng->in(30, 50);
  const auto cst = extrapolate(static_cast<const decltype(lab.in)&>(in), Val<T>::from(c));
  const auto near = extrapolate<NearestNeighbor>(in);
  const auto per = extrapolate<Periodic>(in);
  auto one = [&](const VI& q, long D) {
    switch (rng->in(0, 2)) {
      case 0: {
        const auto i = interpolate<NearestNeighbor>(cst);
        lab.inter(i, "nearest", "const", c, q, D, 1);
        P::go(lab, cst, "const", c, q, D);
        break;
      }
      case 1: {
        const auto i = interpolate(near);
        lab.inter(i, "nearest", "near", 0, q, D, 1);
        P::go(lab, near, "near", 0, q, D);
        break;
      }
      default: {
        const auto i = interpolate<NearestNeighbor>(per);
        lab.inter(i, "nearest", "per", 0, q, D, 1);
        P::go(lab, per, "per", 0, q, D);
      }
    }
    bool inside = true;
    for (int k = 0; k < lab.dim; ++k) {
      inside &= 2 * q[k] >= -D + 1 && 2 * q[k] <= 2 * D * (shape[k] - 1) + D - 1;
    }
    if (inside) {
      const auto i = interpolate<NearestNeighbor>(in);
      lab.inter(i, "nearest", "none", 0, q, D, 1);
    }
    P::inside(lab, in, q, D);
  };
  const long D = lab.dim == 3 ? 2 : 4;
  if (lab.dim == 1) {
    for (long x = -3 * D; x <= (shape[0] + 2) * D; ++x) {
      one({x}, D);
    }
  }
  for (int i = 0; i < steps; ++i) {
    if (rng->coin(1, 4)) {
      lab.put();
    }
    VI q;
    for (auto s : shape) {
      switch (rng->in(0, 3)) {
        case 0:
          q.push_back(rng->in(-10 * D, (s + 10) * D));
          break;
        case 1:
          q.push_back(D * rng->in(-2, s + 1));
          break;
        default:
          q.push_back(rng->in(0, s * D - 1));
      }
    }
    one(q, D);
    {
      VI p;
      for (auto s : shape) {
        p.push_back(rng->coin(1, 4) ? rng->in(-3, s + 2) : rng->in(0, s - 1));
      }
      const int axis = int(rng->in(0, lab.dim - 1));
      const long big = 1L << 20, e = rng->in(1, 3) * (rng->coin() ? 1 : -1);
      const auto close = [&](const auto& x, const char* m, long c) {
        lab.tiny(interpolate(x), "nearest", m, c, p, axis, e, big, 1);
        P::tiny(lab, x, m, c, p, axis, e, big);
      };
      switch (rng->in(0, 2)) {
        case 0:
          close(cst, "const", c);
          break;
        case 1:
          close(near, "near", 0);
          break;
        default:
          close(per, "per", 0);
      }
    }
    if (i % 2) {
      VI hi, lo, r;
      lab.far(hi, lo, 1L << 28);
      for (int k = 0; k < lab.dim; ++k) {
        r.push_back(rng->in(0, D - 1));
      }
      const auto farFrom = [&](const auto& e, const char* m, long c) {
        const auto n = interpolate(e);
        lab.interFar(n, "nearest", m, c, hi, lo, r, D, 1);
        P::far(lab, e, m, c, hi, lo, r, D);
      };
      switch (rng->in(0, 2)) {
        case 0:
          farFrom(cst, "const", c);
          break;
        case 1:
          farFrom(near, "near", 0);
          break;
        default:
          farFrom(per, "per", 0);
      }
    }
  }
  lab.same(near);
#endif
}

VI rndShape(int n, long max) {
  VI s;
  for (int k = 0; k < n; ++k) {
    s.push_back(rng->in(1, max));
  }
  return s;
}

int main(int argc, char** argv) {
  auto a = vt::open(argc, argv);
  vt::Rng r(a.seed * 19 + a.part);
  rng = &r;
  int job = 0;
  auto mine = [&]() {
    return job++ % a.parts == a.part;
  };
  const int R = a.thorough ? 60 : 12, S = a.thorough ? 40 : 20;
  for (int i = 0; i < R; ++i) {
    if (mine()) {
      run<int, 1, VEC>({i % 6 + 1}, S);
      run<double, 2, ALI>(rndShape(2, 5), S);
    }
    if (mine()) {
      run<double, 1, VAL>(rndShape(1, 7), S);
      run<float, 2, VEC>(rndShape(2, 5), S);
    }
    if (mine()) {
      run<unsigned char, 2, PTR>(rndShape(2, 6), S);
      run<int, -1, VEC>(rndShape(rng->in(1, 4), 4), S);
    }
    if (mine()) {
      run<double, 3, VEC>(rndShape(3, 4), S);
    }
#if WHAT == 14
    if (mine()) {
      run<std::complex<double>, 2, VEC>(rndShape(2, 4), S);
    }
    if (mine()) {
      run<short, 4, VEC>(rndShape(4, 3), S);
      run<long, 5, VEC>(rndShape(5, 3), S);
    }
#endif
  }
  return vt::close();
}
