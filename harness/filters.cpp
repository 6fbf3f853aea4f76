// N-dimensional correlation (WHAT=16), line and separable kernels (WHAT=17), median filter (WHAT=18).
#include "rasters.h"
#include <numeric>
#include "LitlContainer/Sequence.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
using namespace Litl;
static vt::Rng* rng;

template <typename C>
VI nums(const C& c, double scale = 1) {
  VI out;
  for (auto it = c.begin(); it != c.end(); ++it) {
    out.push_back(vt::fix(double(*it), scale));
  }
  return out;
}
/// Reals which may not be numbers
const long NotANumber = 1000000;
template <typename C>
VI reals(const C& c, double scale = 1) {
  VI out;
  for (auto it = c.begin(); it != c.end(); ++it) {
    out.push_back(*it != *it ? NotANumber : vt::fix(double(*it), scale));
  }
  return out;
}
/// Values of long integers are far larger than smaller integers could be
template <typename T>
constexpr double far(int exponent) {
  return std::is_integral<T>::value && sizeof(T) == 8 ? 1. / (1L << exponent) : 1.;
}
VI rndShape(int n, long lo, long hi, long max) {
  while (true) {
    VI s;
    for (int k = 0; k < n; ++k) {
      s.push_back(rng->in(lo, hi));
    }
    if (prod(s) <= max) {
      return s;
    }
  }
}
VI rndValues(long n, long lo, long hi) {
  VI v;
  for (long i = 0; i < n; ++i) {
    v.push_back(rng->in(lo, hi));
  }
  return v;
}

/// The rank of the origin of a kernel of n values: mostly one of them, possibly before or after them
long rndOrigin(long n) {
  return rng->coin(1, 5) ? rng->in(-3, n + 2) : rng->in(0, n - 1);
}

template <typename T, Index N>
struct Image {
  Raster<T, N> in;
  VI shape;
  explicit Image(const VI& s, long lo, long hi) : in(mkpos<N>(s)), shape(s) {
    for (auto& e : in) {
      e = T(rng->in(lo, hi));
    }
    vt::Ev("begin").a("shape", s).a("img", nums(in)).log();
  }
};

#if WHAT == 16
template <typename T, typename K, Index N>
void run(const VI& s, const VI& ks, bool centered) {
  // Real values are multiples of 1/QT and 1/QK
  const double QT = std::is_integral<T>::value ? 1 : 2, QK = std::is_integral<K>::value ? far<K>(40) : 4;
  Raster<T, N> raster(mkpos<N>(s));
  for (auto& e : raster) {
    e = T(T(rng->in(std::is_signed<T>::value ? -9 : 0, 9)) / QT);
  }
  const auto& in = raster;
  vt::Ev("begin").a("shape", s).a("img", nums(in, QT)).log();
  for (int i = 0; i < 3; ++i) {
    VI k = rndValues(prod(ks), -3, 3);
    VI o;
    for (auto e : ks) {
      o.push_back(centered ? e / 2 : rndOrigin(e));
    }
    Raster<K, N> kr(mkpos<N>(ks));
    std::transform(k.begin(), k.end(), kr.begin(), [&](long v) {
      return K(K(v) / QK);
    });
    VI f, b;
    for (std::size_t d = 0; d < ks.size(); ++d) {
      f.push_back(-o[d]);
      b.push_back(ks[d] - 1 - o[d]);
    }
    auto kernel = centered ? kernelize(kr) :
        rng->coin()        ? kernelize(kr, mkpos<N>(o)) :
                             kernelize(static_cast<const Raster<K, N>&>(kr).data(), mkbox<N>(f, b));
    const auto& ck = kernel;
    if (rng->coin(1, 3)) { // edit the kernel in place
      const long i = rng->in(0, long(k.size()) - 1);
      k[i] = rng->in(-3, 3);
      kernel.raster()[i] = K(K(k[i]) / QK);
    }
    vt::Ev("kernel")
        .a("k", k)
        .a("ks", ks)
        .a("o", o)
        .a("front", kernel.window().front())
        .a("back", kernel.window().back())
        .a("shape", kernel.shape())
        .a("vals", nums(ck.raster(), QK))
        .log();
    auto log = [&](const char* m, long c, const Raster<K, N>& out) {
      vt::Ev("corr")
          .s("m", m)
          .n("c", c)
          .a("k", k)
          .a("ks", ks)
          .a("o", o)
          .a("img", nums(in, QT))
          .a("oshape", out.shape())
          .a("out", nums(out, QT * QK))
          .log();
    };
    const long c = rng->in(0, 5);
    const auto cst = extrapolate(in, T(T(c) / QT));
    const auto near = extrapolate<NearestNeighbor>(in);
    const auto per = extrapolate<Periodic>(in);
    const auto logTo = [&](const char* m, long c, const auto& out) {
      constexpr bool isInt = std::is_integral<typename std::decay_t<decltype(out)>::Value>::value;
      vt::Ev("corrto")
          .s("m", m)
          .n("c", c)
          .a("k", k)
          .a("ks", ks)
          .a("o", o)
          .n("s", long(QT * QK))
          .b("int", isInt)
          .a("img", nums(in, QT))
          .a("oshape", out.shape())
          .a("out", nums(out, isInt ? 1 : QT * QK))
          .log();
    };
    if (QK >= 1) { // Into rasters of other types
      auto to = [&](auto out) {
        if (rng->coin()) {
          kernel.correlateTo(cst, out);
          logTo("const", c, out);
        } else {
          kernel.correlateTo(per, out);
          logTo("per", 0, out);
        }
      };
      switch (rng->in(0, 4)) {
        case 0:
          to(Raster<int, N>(mkpos<N>(s)));
          break;
        case 1:
          to(Raster<long, N>(mkpos<N>(s)));
          break;
        case 2:
          to(Raster<double, N>(mkpos<N>(s)));
          break;
        case 3:
          to(Raster<short, N>(mkpos<N>(s)));
          break;
        default:
          to(AlignedRaster<float, N>(mkpos<N>(s)));
      }
    }
    switch (rng->in(0, 3)) {
      case 0:
        log("const", c, kernel * cst);
        break;
      case 1:
        log("near", 0, kernel * near);
        break;
      case 2:
        log("per", 0, kernel * per);
        break;
      default: {
        Raster<K, N> out(mkpos<N>(s));
        out.fill(K(77));
        kernel.correlateTo(near, out);
        log("near", 0, out);
      }
    }
  }
}
/// The same kernel, then copies of it, on images of other shapes, which may be the same object
template <typename K, Index N>
void reused(int n, const VI& ks) {
  VI k = rndValues(prod(ks), -3, 3), o;
  for (auto e : ks) {
    o.push_back(rndOrigin(e));
  }
  Raster<K, N> kr(mkpos<N>(ks));
  std::copy(k.begin(), k.end(), kr.begin());
  auto kernel = kernelize(kr, mkpos<N>(o));
  Raster<K, N> in(mkpos<N>(VI(n, 1)));
  const auto& image = in;
  const auto cst = extrapolate(image, K(2));
  const auto near = extrapolate<NearestNeighbor>(image);
  const auto per = extrapolate<Periodic>(image);
  VI s = rndShape(n, 1, 5, 40);
  for (int i = 0; i < 6; ++i) {
    const int how = int(rng->in(0, 3));
    if (how == 0) {
      std::reverse(s.begin(), s.end()); // same size
    } else if (how == 1) {
      s = rndShape(n, 1, 5, 40);
    }
    Raster<K, N> other(mkpos<N>(s));
    for (auto& e : other) {
      e = K(rng->in(0, 9));
    }
    if (how == 2 && other.shape() == in.shape()) {
      std::copy(other.begin(), other.end(), in.begin());
    } else if (rng->coin()) {
      in = other;
    } else {
      in = std::move(other);
    }
    vt::Ev("begin").a("shape", s).a("img", nums(in)).log();
    if (i == 3) {
      auto copy = kernel;
      const std::size_t at = rng->in(0, long(k.size()) - 1);
      copy.raster()[at] = K(7);
      auto moved = std::move(copy);
      VI kk = k;
      kk[at] = 7;
      vt::Ev("corr").s("m", "near").n("c", 0).a("k", kk).a("ks", ks).a("o", o).a("img", nums(in)).a("oshape", in.shape()).a("out", nums(moved * near)).log();
    } else if (rng->coin(1, 3)) {
      const long at = rng->in(0, long(k.size()) - 1);
      k[at] = rng->in(-3, 3);
      kernel.raster()[at] = K(k[at]);
    }
    auto log = [&](const char* m, long c, const Raster<K, N>& out) {
      vt::Ev("corr").s("m", m).n("c", c).a("k", k).a("ks", ks).a("o", o).a("img", nums(in)).a("oshape", out.shape()).a("out", nums(out)).log();
    };
    for (int j = 0; j < 2; ++j) {
      switch (rng->in(0, 3)) {
        case 0:
          log("const", 2, kernel * cst);
          break;
        case 1:
          log("near", 0, kernel * near);
          break;
        case 2:
          log("per", 0, kernel * per);
          break;
        default: {
          const auto c = rng->in(0, 5);
          log("const", c, kernel * extrapolate(image, K(c)));
        }
      }
    }
  }
}
/// Pixels which are not numbers contaminate those whose window contains them, and only those
template <typename T, Index N>
void contaminated(const VI& s, const VI& ks) {
  Raster<T, N> in(mkpos<N>(s));
  const long rate = rng->in(3, 12);
  for (auto& e : in) {
    e = rng->coin(1, int(rate)) ? std::numeric_limits<T>::quiet_NaN() : T(rng->in(-9, 9));
  }
  vt::Ev("begin").a("shape", s).a("img", reals(in)).log();
  const VI k = rndValues(prod(ks), -1, 1); // Many null coefficients
  VI o;
  for (auto e : ks) {
    o.push_back(rndOrigin(e));
  }
  Raster<T, N> kr(mkpos<N>(ks));
  std::copy(k.begin(), k.end(), kr.begin());
  const auto kernel = kernelize(kr, mkpos<N>(o));
  auto mk = kernel;
  auto log = [&](const char* m, long c, const Raster<T, N>& out) {
    vt::Ev("corrnan").s("m", m).n("c", c).a("k", k).a("ks", ks).a("o", o).a("img", reals(in)).a("out", reals(out)).log();
  };
  log("const", 3, mk * extrapolate(in, T(3)));
  log("const", NotANumber, mk * extrapolate(in, std::numeric_limits<T>::quiet_NaN()));
  log("near", 0, mk * extrapolate<NearestNeighbor>(in));
  log("per", 0, mk * extrapolate<Periodic>(in));
}
void what(const vt::Args& a) {
  int job = 0;
  auto mine = [&]() {
    return job++ % a.parts == a.part;
  };
  // Every small 1D and 2D pair of shapes
  const long M = a.thorough ? 6 : 5;
  for (long n = 1; n <= M + 2; ++n) {
    for (long k = 1; k <= M; ++k) {
      if (mine()) {
        run<int, int, 1>({n}, {k}, false);
        run<double, double, 1>({n}, {k}, true);
        run<float, double, 1>({n}, {k}, false);
      }
    }
  }
  for (long x = 1; x <= M - 1; ++x) {
    for (long y = 1; y <= M - 1; ++y) {
      for (long u = 1; u <= 3; ++u) {
        for (long v = 1; v <= 3; ++v) {
          if (mine()) {
            run<int, int, 2>({x, y}, {u, v}, (x + y + u) % 3 == 0);
          }
        }
      }
    }
  }
  for (int i = 0; i < (a.thorough ? 160 : 24); ++i) {
    if (mine()) {
      run<int, int, 3>(rndShape(3, 1, 5, 60), rndShape(3, 1, 3, 27), false);
      run<int, int, 2>(rndShape(2, 4, 8, 60), rndShape(2, 1, 5, 20), false);
      run<unsigned char, double, 2>(rndShape(2, 1, 8, 40), rndShape(2, 1, 4, 12), false);
      run<double, float, 2>(rndShape(2, 1, 6, 30), rndShape(2, 1, 4, 12), false);
      run<float, float, 3>(rndShape(3, 1, 4, 40), rndShape(3, 1, 3, 12), false);
      run<int, int, 4>(rndShape(4, 1, 4, 48), rndShape(4, 1, 3, 12), false);
      run<int, long, -1>(rndShape(3, 1, 5, 60), rndShape(3, 1, 3, 12), false);
      run<short, long, 2>(rndShape(2, 1, 6, 30), rndShape(2, 1, 4, 12), false);
      run<long, long, 1>(rndShape(1, 1, 9, 9), rndShape(1, 1, 4, 4), true);
      reused<int, 1>(1, rndShape(1, 1, 4, 4));
      reused<int, 2>(2, rndShape(2, 1, 4, 9));
      reused<double, 2>(2, rndShape(2, 1, 4, 9));
      reused<long, 3>(3, rndShape(3, 1, 3, 9));
      contaminated<double, 1>(rndShape(1, 1, 9, 9), rndShape(1, 1, 4, 4));
      contaminated<double, 2>(rndShape(2, 1, 8, 40), rndShape(2, 1, 4, 9));
      contaminated<float, 3>(rndShape(3, 1, 5, 40), rndShape(3, 1, 3, 9));
    }
  }
}
#elif WHAT == 17
template <Index... Is>
struct Axes {};

template <typename T, typename K>
void line(int reps) {
  for (int r = 0; r < reps; ++r) {
    const long n = rng->in(1, 9), kn = rng->in(1, 6), o = rndOrigin(kn);
    const VI k = rndValues(kn, -3, 3);
    const long stride = rng->in(1, 3), base = rng->in(0, 3);
    const long front = rng->in(0, n - 1), back = rng->coin(1, 3) ? n - 1 : rng->in(front, n - 1), step = rng->in(1, 4);
    const double QT = std::is_integral<T>::value ? 1 : 2, QK = std::is_integral<K>::value ? far<K>(40) : 4;
    std::vector<T> mem;
    for (long i = 0; i < base + (n - 1) * stride + 1 + rng->in(0, 2); ++i) {
      mem.push_back(T(T(rng->in(0, 9)) / QT));
    }
    const auto copy = mem;
    const long count = (back - front) / step + 1;
    const long ostride = rng->in(1, 3), obase = rng->in(0, 2), ofront = rng->in(0, 2), ostep = rng->in(1, 3);
    const long olast = ofront + (count - 1) * ostep;
    const long osize = olast + 1 + rng->in(0, 2);
    std::vector<K> out(obase + olast * ostride + 1 + rng->in(0, 2), K(99));
    const auto before = nums(out, QT * QK);
    const DataSamples<const T> ins(mem.data() + base, n, {front, back, step}, stride);
    DataSamples<K> outs(out.data() + obase, osize, {ofront, Limits<Index>::inf(), ostep}, ostride);
    std::vector<K> kv;
    for (auto e : k) {
      kv.push_back(K(K(e) / QK));
    }
    if (rng->coin()) {
      const LineKernel<K> kernel(kv, o);
      kernel.correlate(ins, outs);
    } else {
      const Kernel1d<K> kernel(kv, o);
      kernel.sparseCorrelate1dTo(ins, outs);
    }
    vt::Ev("line")
        .a("mem", nums(mem, QT))
        .n("base", base)
        .n("stride", stride)
        .n("size", n)
        .n("front", front)
        .n("back", back)
        .n("step", step)
        .a("k", k)
        .n("o", o)
        .n("obase", obase)
        .n("ostride", ostride)
        .n("ofront", ofront)
        .n("ostep", ostep)
        .a("before", before)
        .a("after", nums(out, QT * QK))
        .b("kept", mem == copy)
        .log();
  }
}

/// Lines which are not all numbers
template <typename T>
void lineNan() {
  const long n = rng->in(1, 9), kn = rng->in(1, 5), o = rndOrigin(kn);
  const VI k = rndValues(kn, -1, 1);
  std::vector<T> in(n), out(n, T(99));
  for (auto& e : in) {
    e = rng->coin(1, 5) ? std::numeric_limits<T>::quiet_NaN() : T(rng->in(-9, 9));
  }
  const std::vector<T> kv(k.begin(), k.end());
  const DataSamples<const T> ins(in.data(), n, {0, n - 1, 1}, 1);
  DataSamples<T> outs(out.data(), n, {0, n - 1, 1}, 1);
  if (rng->coin()) {
    const LineKernel<T> kernel(kv, o);
    kernel.correlate(ins, outs);
  } else {
    const Kernel1d<T> kernel(kv, o);
    kernel.sparseCorrelate1dTo(ins, outs);
  }
  vt::Ev("linenan").a("in", reals(in)).a("k", k).n("o", o).a("out", reals(out)).log();
}

struct L {
  VI k;
  long o;
};
L rndLine(bool centered = false) {
  const long n = rng->in(1, 5);
  return {rndValues(n, -3, 3), centered ? n / 2 : rndOrigin(n)};
}
/// Real coefficients are multiples of 1/2
template <typename K>
constexpr double unit() {
  return std::is_integral<K>::value ? far<K>(14) : 2;
}
template <typename K>
LineKernel<K> mk(const L& x) {
  std::vector<K> v;
  for (auto e : x.k) {
    v.push_back(K(K(e) / unit<K>()));
  }
  return x.o == long(v.size() / 2) && rng->coin() ? LineKernel<K>(std::move(v)) : LineKernel<K>(std::move(v), x.o);
}

/// What a line kernel says of itself, and the ways of making one
template <typename K>
void described(const LineKernel<K>& kernel, const L& x, long far = 0) { // The origin is `far` after what is logged
  auto w = kernel.window();
  w = Segment(w.front() + far, w.back() + far);
  vt::Ev("linewin")
      .a("k", x.k)
      .n("o", x.o)
      .n("front", w.front())
      .n("back", w.back())
      .n("size", long(kernel.size()))
      .n("origin", kernel.origin() - far)
      .n("orank", far ? x.o : kernel.originData() - kernel.data())
      .a("vals", nums(kernel, unit<K>()))
      .log();
}
template <typename K>
void makers() {
  const L x = rndLine(rng->coin());
  std::vector<K> v;
  for (auto e : x.k) {
    v.push_back(K(K(e) / unit<K>()));
  }
  const auto kernel = mk<K>(x);
  described(kernel, x);
  auto copy(kernel);
  described(copy, x);
  const long n = x.k.size();
  const Sequence<K> seq(v);
  described(kernelize(seq, x.o), x);
  described(kernelize(seq), L {x.k, n / 2});
  described(kernelize(static_cast<const K*>(v.data()), Segment(-x.o, n - 1 - x.o)), x);
  for (int e : {33, 40}) { // Origins far away from the values
    const long far = (rng->coin() ? 1 : -1) * (1L << e);
    const LineKernel<K> made(v, x.o + far);
    described(made, x, far);
    const auto segment = kernelize(static_cast<const K*>(v.data()), Segment(-x.o - far, n - 1 - x.o - far));
    described(segment, x, far);
    std::vector<K> in(5, K(3)), out(5, K(99));
    DataSamples<K> outs(out.data(), 5, {0, 4, 1}, 1);
    segment.correlate(DataSamples<const K>(in.data(), 5, {0, 4, 1}, 1), outs);
    vt::Ev("linenan").a("in", nums(in)).a("k", x.k).n("o", far > 0 ? 1000 : -1000).a("out", nums(out)).log();
  }
  const Kernel1d<K> old(v, x.o);
  vt::Ev("kernel1d").n("size", n).n("o", x.o).n("backward", old.backward()).n("forward", old.forward()).n("orank", old.originData() - old.data()).log();
}
template <typename K, Index... Is>
void sepwin(const SeparableKernel<K, Is...>& kernel, const VI& axes, const std::vector<L>& l) {
  std::vector<VI> ks;
  VI os;
  for (std::size_t i = 0; i < l.size(); ++i) {
    ks.push_back(l[i].k);
    os.push_back(l[i].o);
    described(kernel[axes[i]], l[i]);
  }
  const auto w = kernel.window();
  VI seen;
  for (const auto& k : kernel) {
    seen.push_back(k.first);
  }
  vt::Ev("sepwin").n("n", long(SeparableKernel<K, Is...>::Dimension)).a("axes", axes).aa("ks", ks).a("os", os).a("front", w.front()).a("back", w.back()).a("seen", seen).log();
}

template <typename In, typename Out>
void sep(const In& in, const Out& out, const VI& axes, const std::vector<L>& l) {
  std::vector<VI> ks;
  VI os;
  for (const auto& e : l) {
    ks.push_back(e.k);
    os.push_back(e.o);
  }
  vt::Ev("sep").a("axes", axes).aa("ks", ks).a("os", os).a("img", nums(in)).a("oshape", out.shape()).a("out", nums(out, std::pow(unit<typename Out::Value>(), l.size()))).log();
}
template <typename K>
void composed(const K& k, int n, const VI& axes, const std::vector<L>& l) {
  std::vector<VI> ks;
  VI os;
  for (const auto& e : l) {
    ks.push_back(e.k);
    os.push_back(e.o);
  }
  vt::Ev("compose")
      .n("n", n)
      .a("axes", axes)
      .aa("ks", ks)
      .a("os", os)
      .a("shape", k.shape())
      .a("front", k.window().front())
      .a("vals", nums(k.raster(), std::pow(unit<typename K::Value>(), l.size())))
      .log();
}
template <typename In, typename Out>
void named(const char* name, const In& in, const Out& out, const VI& axes, long sign) {
  vt::Ev("named").s("name", name).a("axes", axes).n("sign", sign).a("img", nums(in)).a("oshape", out.shape()).a("out", nums(out)).log();
}

template <typename K, typename In, Index... Is>
void separable(const In& in, Axes<Is...>) {
  const VI axes {Is...};
  const L l = rndLine();
  const auto kernel = mk<K>(l);
  // The same line along every axis
  const auto all = kernel.template along<Is...>();
  sep(in, all * in, axes, std::vector<L>(sizeof...(Is), l));
  auto same(kernel);
  SeparableKernel<K, Is...> ctor = rng->coin() ? SeparableKernel<K, Is...>(static_cast<const LineKernel<K>&>(kernel)) :
      rng->coin()                              ? SeparableKernel<K, Is...>(same) :
                                                 SeparableKernel<K, Is...>(mk<K>(l));
  sepwin(ctor, axes, std::vector<L>(sizeof...(Is), l));
  SeparableKernel<K, Is...> again(ctor);
  sepwin(again, axes, std::vector<L>(sizeof...(Is), l));
  makers<K>();
  const auto cref = ctor.compose();
  composed(cref, decltype(cref)::Dimension, axes, std::vector<L>(sizeof...(Is), l));
  // Usual kernels
  const long sign = rng->coin() ? 1 : -1;
  const auto lap = sign == 1 && rng->coin() ? SeparableKernel<K, Is...>::laplacian() : SeparableKernel<K, Is...>::laplacian(K(sign));
  named("laplacian", in, lap * in, axes, sign);
}
template <typename K, typename In, Index I, Index... Is>
void usual(const In& in, Axes<I, Is...>) {
  const VI axes {I, Is...};
  const long sign = rng->coin() ? 1 : -1;
  if (sign == 1 && rng->coin()) { // default sign
    switch (rng->in(0, 2)) {
      case 0:
        return named("prewitt", in, SeparableKernel<K, I, Is...>::prewitt() * in, axes, sign);
      case 1:
        return named("sobel", in, SeparableKernel<K, I, Is...>::sobel() * in, axes, sign);
      default:
        return named("scharr", in, SeparableKernel<K, I, Is...>::scharr() * in, axes, sign);
    }
  }
  switch (rng->in(0, 2)) {
    case 0:
      return named("prewitt", in, SeparableKernel<K, I, Is...>::prewitt(K(sign)) * in, axes, sign);
    case 1:
      return named("sobel", in, SeparableKernel<K, I, Is...>::sobel(K(sign)) * in, axes, sign);
    default:
      return named("scharr", in, SeparableKernel<K, I, Is...>::scharr(K(sign)) * in, axes, sign);
  }
}
template <typename K, Index A, Index B, typename In>
void product(const In& in) {
  const L l = rndLine(), m = rndLine();
  const auto a = mk<K>(l).template along<A>();
  const auto b = mk<K>(m).template along<B>();
  const auto ab = a * b;
  sep(in, ab * in, {A, B}, {l, m});
  const auto ba = b * a;
  sep(in, ba * in, {A, B}, {l, m}); // commutes
  const auto twice = b * (a * in);
  sep(in, twice, {A, B}, {l, m});
  sepwin(ab, {A, B}, {l, m});
  const auto c = ab.compose();
  composed(c, decltype(c)::Dimension, {A, B}, {l, m});
  Raster<K, In::Dimension> out(in.shape());
  out.fill(K(55));
  ab.correlateTo(in, out);
  sep(in, out, {A, B}, {l, m});
}
/// The same kernels on several images
template <typename K>
void reused() {
  const L l = rndLine(), m = rndLine();
  const auto line = mk<K>(l);
  const auto x = line.template along<0>();
  const auto y = mk<K>(m).template along<1>();
  auto xy = x * y;
  const auto xx = line.template along<1, 0>();
  const auto scharr = SeparableKernel<K, 0, 1>::scharr();
  VI s = rndShape(2, 1, 7, 40);
  Raster<K, 2> in(mkpos<2>({1, 1}));
  for (int i = 0; i < 5; ++i) {
    if (rng->coin()) {
      std::reverse(s.begin(), s.end());
    } else {
      s = rndShape(2, 1, 7, 40);
    }
    Image<K, 2> image(s, -9, 9);
    if (rng->coin()) {
      in = image.in;
    } else {
      in = std::move(image.in);
    }
    const auto& c = in;
    sep(c, xy * c, {0, 1}, {l, m});
    sep(c, xx * c, {1, 0}, {l, l});
    sep(c, x * c, {0}, {l});
    named("scharr", c, scharr * c, {0, 1}, 1);
    Raster<K, 2> out(c.shape());
    xy.correlateTo(c, out);
    sep(c, out, {0, 1}, {l, m});
    if (i == 2) {
      auto other = xy;
      xy = std::move(other);
    }
  }
}
template <typename K, Index A, Index B, Index C, typename In>
void product3(const In& in) {
  const L l = rndLine(), m = rndLine(), n = rndLine();
  const auto abc = mk<K>(l).template along<A>() * mk<K>(m).template along<B>() * mk<K>(n).template along<C>();
  sep(in, abc * in, {A, B, C}, {l, m, n});
  sepwin(abc, {A, B, C}, {l, m, n});
  const auto c = abc.compose();
  composed(c, 3, {A, B, C}, {l, m, n});
}
/// Many axes, in any order, of short line kernels
template <typename K, Index... Is>
void manyAxes(Axes<Is...>) {
  constexpr Index N = sizeof...(Is);
  VI s;
  for (Index i = 0; i < N; ++i) {
    s.push_back(rng->in(1, 2));
  }
  Image<K, N> image(s, -5, 5);
  const auto& in = image.in;
  const VI axes {Is...};
  std::vector<L> l;
  std::map<Index, LineKernel<K>> map;
  for (auto a : axes) {
    L x;
    x.k = VI(rng->in(1, N > 5 ? 2 : 3));
    for (auto& e : x.k) {
      e = rng->in(-2, 3);
    }
    x.o = rng->in(0, long(x.k.size()) - 1);
    l.push_back(x);
    map.emplace(a, mk<K>(x));
  }
  const SeparableKernel<K, Is...> kernel(map);
  sep(in, kernel * in, axes, l);
  sepwin(kernel, axes, l);
  const auto c = kernel.compose();
  composed(c, N, axes, l);
  const L one = l[rng->in(0, N - 1)];
  const auto same = mk<K>(one).template along<Is...>();
  sepwin(same, axes, std::vector<L>(N, one));
  const auto d = same.compose();
  composed(d, N, axes, std::vector<L>(N, one));
}
template <typename K, Index A, typename In>
void along(const In& in) {
  const L l = rndLine();
  constexpr long QK = std::is_integral<K>::value ? 1 : 4;
  std::vector<K> kv;
  for (auto e : l.k) {
    kv.push_back(K(K(e) / QK));
  }
  const Kernel1d<K> kernel(kv, l.o);
  const auto out = kernel.template correlateAlong<A>(in);
  vt::Ev("along").n("axis", A).a("k", l.k).n("o", l.o).a("img", nums(in)).a("oshape", out.shape()).a("out", nums(out, QK)).log();
}
template <typename K, typename In>
void grid2(const In& in) {
  const L l = rndLine();
  Kernel1d<K> kernel(std::vector<K>(l.k.begin(), l.k.end()), l.o);
  VI f, b, s, n;
  const bool whole = rng->coin(1, 4);
  for (int d = 0; d < 2; ++d) {
    f.push_back(whole ? 0 : rng->in(0, in.shape()[d] - 1));
    b.push_back(whole ? in.shape()[d] - 1 : rng->in(f[d], in.shape()[d] - 1));
    s.push_back(whole ? 1 : rng->in(1, 3));
    n.push_back((b[d] - f[d]) / s[d] + 1);
  }
  Raster<K, 2> out(mkpos<2>(n));
  if (whole) {
    kernel.correlate2dTo(in, out);
  } else {
    kernel.sparseCorrelate2dTo(in, PositionSampling<2>(mkbox<2>(f, b), mkpos<2>(s)), out);
  }
  vt::Ev("grid2").a("k", l.k).n("o", l.o).a("fs", f).a("bs", b).a("ss", s).a("img", nums(in)).a("out", nums(out)).log();
}
void what(const vt::Args& a) {
  int job = 0;
  auto mine = [&]() {
    return job++ % a.parts == a.part;
  };
  const int R = a.thorough ? 200 : 24;
  for (int i = 0; i < R; ++i) {
    if (mine()) {
      line<int, int>(12);
      line<unsigned char, long>(8);
      line<double, double>(8);
      for (int j = 0; j < 6; ++j) {
        lineNan<double>();
        lineNan<float>();
      }
    }
    if (mine()) {
      Image<int, 2> image(rndShape(2, 1, 7, 40), -9, 9);
      const auto& in = image.in;
      separable<int>(in, Axes<0, 1>());
      separable<int>(in, Axes<1>());
      usual<int>(in, Axes<1, 0>());
      usual<int>(in, Axes<0, 1>());
      product<int, 0, 1>(in);
      along<int, 0>(in);
      along<int, 1>(in);
      grid2<int>(in);
      grid2<int>(in);
      grid2<int>(in);
    }
    if (mine()) {
      reused<int>();
      reused<long>();
    }
    if (mine()) {
      Image<int, 3> image(rndShape(3, 1, 5, 48), -9, 9);
      const auto& in = image.in;
      separable<int>(in, Axes<0, 1, 2>());
      separable<int>(in, Axes<2, 0>());
      usual<int>(in, Axes<2, 0, 1>());
      product<int, 2, 1>(in);
      product<int, 0, 2>(in);
      product3<int, 1, 0, 2>(in);
      along<int, 2>(in);
      along<int, 1>(in);
    }
    if (mine()) {
      Image<double, 1> one(rndShape(1, 1, 9, 9), -9, 9);
      separable<double>(one.in, Axes<0>());
      along<double, 0>(one.in);
      Image<unsigned char, 2> image(rndShape(2, 1, 7, 40), 0, 9);
      separable<int>(image.in, Axes<1, 0>());
      product<double, 1, 0>(image.in);
      product<float, 0, 1>(image.in);
      along<double, 1>(image.in);
      along<float, 0>(image.in);
      grid2<int>(image.in);
      Image<long, 4> four(rndShape(4, 1, 4, 48), 0, 9);
      product<long, 3, 1>(four.in);
      separable<long>(four.in, Axes<0, 2, 3>());
    }
    if (mine()) {
      manyAxes<int>(Axes<0, 1, 2, 3>());
      manyAxes<int>(Axes<3, 1, 4, 2, 0>());
      manyAxes<int>(Axes<0, 1, 2, 3, 4, 5>());
    }
    if (mine()) { // no pixel
      Image<int, 2> image({rng->in(0, 1) * 3, 0}, 0, 9);
      separable<int>(image.in, Axes<0, 1>());
      product<int, 1, 0>(image.in);
      along<int, 0>(image.in);
      Image<int, 2> rows({0, rng->in(1, 3)}, 0, 9);
      separable<int>(rows.in, Axes<1>());
      product<int, 0, 1>(rows.in);
      along<int, 1>(rows.in);
    }
    if (mine()) { // longer than the range of the value type
      Image<signed char, 2> image({rng->in(130, 150), rng->in(1, 2)}, 0, 9);
      grid2<int>(image.in);
      along<int, 0>(image.in);
    }
  }
}
#else
/// Values are multiples of 1/S, added to a bias (which may be close to the bounds of T) not logged; U is the output type
template <typename T, Index N, typename U = T>
void run(const VI& s, const VI& wf, const VI& wb, int radius, long bias = 0, MedianFilter<T, N>* common = nullptr) {
  constexpr long S = std::is_integral<T>::value ? 1 : 4;
  constexpr long BG = 50;
  const auto value = [=](long v) {
    return T(bias + v / double(S));
  };
  const auto unbias = [=](const auto& c, double u) {
    VI out;
    for (const auto& e : c) {
      out.push_back(std::is_integral<std::decay_t<decltype(e)>>::value ? long(e) - bias : vt::fix(double(e) - bias, u));
    }
    return out;
  };
  Raster<T, N> in(mkpos<N>(s));
  const long hi0 = rng->coin() ? 3 : 30;
  for (auto& e : in) {
    e = value(rng->in(std::is_signed<T>::value ? -9 : 0, hi0));
  }
  vt::Ev("begin").a("shape", s).a("img", unbias(in, S)).log();
  auto mine = radius == 1 && rng->coin() ? MedianFilter<T, N>() :
      radius >= 0                        ? MedianFilter<T, N>(radius) :
                                           MedianFilter<T, N>(mkbox<N>(wf, wb));
  auto& filter = common ? *common : mine;
  VI f(wf), b(wb);
  if (radius >= 0) {
    f.assign(s.size(), -radius);
    b.assign(s.size(), radius);
  }
  auto log = [&](const char* m, long c, const VI& rf, const VI& rb, const auto& out) {
    constexpr bool isInt = std::is_integral<typename std::decay_t<decltype(out)>::Value>::value;
    const double scale = isInt ? 1 : 2 * S;
    vt::Ev("median")
        .s("m", m)
        .n("c", c)
        .a("wf", f)
        .a("wb", b)
        .a("rf", rf)
        .a("rb", rb)
        .n("bg", BG * scale)
        .n("bias", bias > 0 ? 1 : bias < 0 ? -1 : 0)
        .n("s", S)
        .b("int", isInt)
        .a("img", unbias(in, S))
        .a("oshape", out.shape())
        .a("out", unbias(out, scale))
        .log();
  };
  // Unlimited regions are those of the input, which may be smaller than the output
  const auto logIn = [&](const char* m, long c, const VI& rf, const VI& os, const auto& out) {
    constexpr bool isInt = std::is_integral<typename std::decay_t<decltype(out)>::Value>::value;
    const double scale = isInt ? 1 : 2 * S;
    vt::Ev("medianin")
        .s("m", m)
        .n("c", c)
        .a("wf", f)
        .a("wb", b)
        .a("rf", rf)
        .n("bg", BG * scale)
        .n("bias", bias > 0 ? 1 : bias < 0 ? -1 : 0)
        .n("s", S)
        .b("int", isInt)
        .a("img", unbias(in, S))
        .a("os", os)
        .a("out", unbias(out, scale))
        .log();
  };
  VI lo(s.size(), 0), hi(s);
  for (auto& e : hi) {
    --e;
  }
  const long c = rng->in(0, 12);
  const auto cst = extrapolate(in, value(c));
  const auto near = extrapolate<NearestNeighbor>(in);
  const auto per = extrapolate<Periodic>(in);
  Raster<U, N> out(mkpos<N>(s));
  out.fill(U(bias + BG));
  if (rng->coin(1, 3)) {
    VI os(s), rf;
    long size = 1;
    for (auto& e : os) {
      rf.push_back(rng->coin() ? 0 : rng->in(0, e - 1));
      e += rng->in(0, 2);
      size *= e;
    }
    if (size < 80) {
      Raster<U, N> larger(mkpos<N>(os));
      larger.fill(U(bias + BG));
      const Box<N> region(mkpos<N>(rf), mkpos<N>(VI(s.size(), Limits<Index>::inf())));
      if (rng->coin()) {
        filter.applyTo(near, larger, region);
        logIn("near", 0, rf, os, larger);
      } else {
        filter.applyTo(cst, larger, region);
        logIn("const", c, rf, os, larger);
      }
    }
  }
  switch (rng->in(0, 5)) {
    case 0:
      return log("const", c, lo, hi, filter.apply(cst));
    case 1:
      return log("near", 0, lo, hi, filter.apply(near));
    case 2:
      return log("per", 0, lo, hi, filter.apply(per));
    case 3: { // no extrapolation: inner region only
      VI rf, rb;
      for (std::size_t k = 0; k < s.size(); ++k) {
        rf.push_back(std::max(0L, -f[k]));
        rb.push_back(std::min(s[k] - 1, s[k] - 1 - b[k]));
        if (rb[k] < rf[k]) {
          filter.applyTo(per, out, mkbox<N>(lo, hi));
          return log("per", 0, lo, hi, out);
        }
      }
      filter.applyTo(in, out, mkbox<N>(rf, rb));
      return log("none", 0, rf, rb, out);
    }
    case 4:
      filter.applyTo(cst, out, mkbox<N>(lo, hi));
      return log("const", c, lo, hi, out);
    default: {
      if (rng->coin(1, 3)) {
        filter.applyTo(near, out);
        return log("near", 0, lo, hi, out);
      }
      VI rf, rb;
      for (auto e : s) {
        rf.push_back(rng->in(0, e - 1));
        rb.push_back(rng->in(rf.back(), e - 1));
      }
      filter.applyTo(near, out, mkbox<N>(rf, rb));
      return log("near", 0, rf, rb, out);
    }
  }
}
void what(const vt::Args& a) {
  int job = 0;
  auto mine = [&]() {
    return job++ % a.parts == a.part;
  };
  auto window = [&](int n, long max, VI& f, VI& b) {
    while (true) {
      f.clear();
      b.clear();
      long size = 1;
      for (int k = 0; k < n; ++k) {
        f.push_back(rng->in(-2, 1));
        b.push_back(f.back() + rng->in(0, 3));
        size *= b[k] - f[k] + 1;
      }
      if (size <= max) {
        return;
      }
    }
  };
  const int R = a.thorough ? 400 : 40;
  VI f, b;
  for (int i = 0; i < R; ++i) {
    if (mine()) {
      for (int k = 0; k < 4; ++k) {
        window(1, 9, f, b);
        run<int, 1>(rndShape(1, 1, 8, 8), f, b, -1);
        run<double, 1>(rndShape(1, 1, 8, 8), f, b, -1);
      }
      window(2, 12, f, b);
      run<int, 2>(rndShape(2, 1, 6, 24), f, b, -1);
      window(2, 12, f, b);
      run<double, 2>(rndShape(2, 1, 6, 24), f, b, -1);
      window(2, 9, f, b);
      run<unsigned char, 2>(rndShape(2, 1, 6, 24), f, b, rng->in(-1, 1));
      window(3, 12, f, b);
      run<float, 3>(rndShape(3, 1, 4, 24), f, b, -1);
      run<short, 3>(rndShape(3, 1, 3, 12), f, b, rng->in(0, 1));
      window(3, 9, f, b);
      run<int, -1>(rndShape(3, 1, 4, 24), f, b, -1);
      // the same filter on several images
      {
        window(2, 12, f, b);
        MedianFilter<int, 2> filter(mkbox<2>(f, b));
        VI s = rndShape(2, 1, 6, 24);
        for (int k = 0; k < 5; ++k) {
          if (k % 2) {
            std::reverse(s.begin(), s.end());
          } else {
            s = rndShape(2, 1, 6, 24);
          }
          run<int, 2>(s, f, b, -1, 0, &filter);
        }
        window(1, 9, f, b);
        MedianFilter<double, 1> line(mkbox<1>(f, b));
        for (int k = 0; k < 3; ++k) {
          run<double, 1>(rndShape(1, 1, 8, 8), f, b, -1, 0, &line);
        }
      }
      // values close to the bounds of their type, and other output types
      window(2, 12, f, b);
      run<int, 2>(rndShape(2, 1, 6, 24), f, b, -1, 2147483590);
      run<int, 2>(rndShape(2, 1, 6, 24), f, b, -1, -2147483630);
      window(1, 9, f, b);
      run<long, 1>(rndShape(1, 1, 8, 8), f, b, -1, 1L << 40);
      run<unsigned int, 1>(rndShape(1, 1, 8, 8), f, b, -1, 4294967240);
      run<unsigned char, 1>(rndShape(1, 1, 8, 8), f, b, -1, 200);
      run<signed char, 1>(rndShape(1, 1, 8, 8), f, b, -1, -110);
      run<double, 1, int>(rndShape(1, 1, 8, 8), f, b, -1);
      run<int, 1, double>(rndShape(1, 1, 8, 8), f, b, -1);
      window(2, 12, f, b);
      run<float, 2, short>(rndShape(2, 1, 6, 24), f, b, -1);
      run<short, 2, float>(rndShape(2, 1, 6, 24), f, b, -1);
    }
  }
}
#endif

int main(int argc, char** argv) {
  auto a = vt::open(argc, argv);
  vt::Rng r(a.seed * 23 + a.part);
  rng = &r;
  what(a);
  return vt::close();
}
