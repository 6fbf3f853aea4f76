// Large containers, where counters and indices narrower than the library's would overflow (WHAT: property).
// Contents are given by a formula, and observed at selected ranks.
#include "rasters.h"
#include <algorithm>
using namespace Litl;
using vt::Ev;
static vt::Rng* rng;

/// Value at index i: (a * i + b) % m, where m is a prime
struct Formula {
  long a, b, m;
  static Formula random() {
    static const long primes[] = {7, 11, 13};
    return {rng->in(1, 6), rng->in(0, 6), primes[rng->in(0, 2)]};
  }
  long operator()(long i) const {
    return (a * i + b) % m;
  }
  VI vec() const {
    return {a, b, m};
  }
};

/// Ranks to be observed among n
static VI ranks(long n) {
  VI out;
  for (long r : {0L, 1L, 127L, 128L, 255L, 256L, 32767L, 32768L, 65535L, 65536L, 65537L, n - 2, n - 1}) {
    if (r >= 0 && r < n && std::find(out.begin(), out.end(), r) == out.end()) {
      out.push_back(r);
    }
  }
  for (int i = 0; i < 8; ++i) {
    const long r = rng->in(0, n - 1);
    if (std::find(out.begin(), out.end(), r) == out.end()) {
      out.push_back(r);
    }
  }
  return out;
}
/// Values of wide types are multiples of some large number, so that they do not fit narrower types
template <typename T>
constexpr long unit() {
#if WHAT == 14 || WHAT == 15 || WHAT == 18
  return sizeof(T) < 4 || std::is_same<T, float>::value ? 1 : 10000020; // half of it exists
#elif WHAT == 16 || WHAT == 17 || WHAT == 20
  return sizeof(T) < 4 || std::is_same<T, float>::value ? 1 : 100003;
#else
  return 1;
#endif
}
/// x times scale over unit
static long units(double x, long unit, double scale = 1) {
  return vt::fix(x / unit, scale, 1e-7);
}
template <typename C>
VI pick(const C& c, const VI& r, double scale = 1, long unit = 1) {
  VI out;
  for (auto i : r) {
    out.push_back(unit == 1 ? vt::fix(double(*(c.begin() + i)), scale, 1e-6) : units(double(*(c.begin() + i)), unit, scale));
  }
  return out;
}
static VI posOf(const VI& shape, long i) {
  VI p;
  for (auto s : shape) {
    p.push_back(i % s);
    i /= s;
  }
  return p;
}
template <typename C>
void contents(C& c, const Formula& f) {
  long i = 0;
  for (auto& e : c) {
    using T = std::decay_t<decltype(e)>;
    e = T(T(f(i++)) * unit<T>());
  }
}
template <typename R>
void begin(const R&, const VI& shape, const Formula& f) {
  Ev("begin").a("shape", shape).a("f", f.vec()).log();
}
/// What was done gave these values at these ranks, out of n
static void values(const char* what, const VI& r, const VI& v, long n, const VI& with = {}) {
  Ev(what).a("ranks", r).a("vals", v).n("n", n).a("with", with).log();
}

template <typename F>
void shapes(F&& f) {
  f(VI {rng->in(65537, 70000)}, std::integral_constant<int, 1> {});
  f(VI {rng->in(257, 300), rng->in(256, 270)}, std::integral_constant<int, 2> {});
  f(VI {rng->in(1, 3), rng->in(65537, 70000)}, std::integral_constant<int, 2> {});
  f(VI {rng->in(65537, 70000), 1}, std::integral_constant<int, 2> {});
  f(VI {rng->in(2, 3), rng->in(2, 3), rng->in(17000, 17500)}, std::integral_constant<int, 3> {});
  f(VI {rng->in(41, 43), rng->in(41, 43), rng->in(41, 43)}, std::integral_constant<int, 3> {});
  f(VI {2, rng->in(257, 260), rng->in(129, 132)}, std::integral_constant<int, -1> {});
}
template <typename T, Index N, typename F>
void withRaster(const VI& shape, F&& f) {
  const auto w = Formula::random();
  Raster<T, N> r(mkpos<N>(shape));
  contents(r, w);
  begin(r, shape, w);
  f(r, w);
}

#if WHAT == 1 || WHAT == 2
static void run() {
  shapes([](const VI& shape, auto n) {
    constexpr Index N = decltype(n)::value;
    withRaster<int, N>(shape, [&](auto& r, const Formula&) {
      const auto& cr = r;
      const auto rk = ranks(r.size());
      std::vector<VI> ps;
      VI seen;
      for (auto i : rk) {
        auto p = posOf(shape, i);
        auto q = p;
#if WHAT == 1
        const long got = i % 3 == 0 ? cr[mkpos<N>(p)] : i % 3 == 1 ? r.data()[r.index(mkpos<N>(p))] : r[std::size_t(i)];
        if (i % 4 == 0) {
          r[mkpos<N>(p)] = int(got);
        }
#else
        for (std::size_t k = 0; k < q.size(); ++k) {
          q[k] -= rng->coin() ? shape[k] : 0;
        }
        const long got = i % 2 ? cr.at(mkpos<N>(q)) : r.at(mkpos<N>(q));
#endif
        ps.push_back(q);
        seen.push_back(got);
      }
      Ev("at").aa("ps", ps).a("vals", seen).n("n", long(r.size())).log();
#if WHAT == 2
      for (std::size_t k = 0; k < shape.size(); ++k) {
        for (long out : {shape[k], -shape[k] - 1, shape[k] + 65536, -65536 - shape[k], 65536 * 3 + shape[k], 1L << 30}) {
          VI p(shape.size(), 0);
          p[k] = out;
          bool thrown = false;
          try {
            cr.at(mkpos<N>(p));
          } catch (const OutOfBoundsError&) {
            thrown = true;
          }
          Ev("atbad").a("p", p).b("thrown", thrown).log();
        }
      }
#endif
    });
  });
}
#elif WHAT == 3
template <Index N>
void visit(const VI& f, const VI& b) {
  const auto box = mkbox<N>(f, b);
  const auto rk = ranks(box.size());
  std::vector<VI> ps(rk.size());
  long n = 0;
  for (const auto& p : box) {
    const auto it = std::find(rk.begin(), rk.end(), n);
    if (it != rk.end()) {
      ps[it - rk.begin()] = VI(p.begin(), p.end());
    }
    ++n;
  }
  Ev("visit").a("front", f).a("back", b).a("ranks", rk).aa("ps", ps).n("n", n).n("size", box.size()).log();
}
static void run() {
  shapes([](const VI& shape, auto n) {
    constexpr Index N = decltype(n)::value;
    VI f, b;
    for (auto s : shape) {
      f.push_back(rng->in(-70000, 70000));
      b.push_back(f.back() + s - 1);
    }
    visit<N>(f, b);
  });
}
#elif WHAT == 4 || WHAT == 5
#include "LitlRaster/Subraster.h"
static void run() {
  shapes([](const VI& shape, auto n) {
    constexpr Index N = decltype(n)::value;
    withRaster<int, N>(shape, [&](auto& r, const Formula&) {
#if WHAT == 4
      VI f, b;
      for (auto s : shape) {
        f.push_back(rng->in(0, s / 8));
        b.push_back(s - 1 - rng->in(0, s / 8));
      }
      auto sub = r.subraster(mkbox<N>(f, b));
      const auto rk = ranks(sub.size());
      VI seen(rk.size());
      long n = 0;
      for (auto& e : sub) {
        const auto it = std::find(rk.begin(), rk.end(), n);
        if (it != rk.end()) {
          seen[it - rk.begin()] = &e - r.data();
        }
        ++n;
      }
      Ev("sub").a("front", f).a("back", b).a("ranks", rk).a("vals", seen).n("n", n).n("size", long(sub.size())).log();
      for (auto& e : sub) {
        e = 100;
      }
      Ev("written").a("front", f).a("back", b).n("n", std::count(r.begin(), r.end(), 100)).log();
#else
      const auto& cr = r;
      const long last = shape.back();
      for (auto i : ranks(last)) {
        const auto s = r.section(i);
        const auto j = rng->in(i, last - 1);
        const auto t = cr.section(i, j);
        Ev("section").n("i", i).n("j", j).n("off", s.data() - r.data()).n("size", long(s.size())).n("offs", t.data() - r.data()).n("sizes", long(t.size())).log();
      }
#endif
    });
  });
}
#elif WHAT == 6 || WHAT == 8
#include "LitlContainer/Sequence.h"
#include <list>
#if WHAT == 8
/// Lists with more values than bytes can count
template <typename T, std::size_t... Is>
void listed(const Formula& w, std::index_sequence<Is...>) {
  const long n = sizeof...(Is);
  const auto rk = ranks(n);
  Ev("begin").a("shape", VI {n}).a("f", w.vec()).log();
  const Sequence<T> s {T(T(w(Is)) * unit<T>())...};
  values("made", rk, pick(s, rk), s.size());
  const Sequence<T, AlignedBuffer<T>> a {T(T(w(Is)) * unit<T>())...};
  values("made", rk, pick(a, rk), a.size());
  const VecRaster<T, 1> v({n}, {T(T(w(Is)) * unit<T>())...});
  values("made", rk, pick(v, rk), v.size());
  Ev("begin").a("shape", VI {n / 2, 2}).a("f", w.vec()).log();
  const AlignedRaster<T, 2> r({n / 2, 2}, {T(T(w(Is)) * unit<T>())...});
  values("made", rk, pick(r, rk), r.size());
}
#endif
template <typename R, Index N>
void copies(const VI& shape) {
  const auto w = Formula::random();
  R r(mkpos<N>(shape));
  contents(r, w);
  begin(r, shape, w);
  const auto rk = ranks(r.size());
#if WHAT == 6
  R copy(r);
  values("made", rk, pick(copy, rk), copy.size());
  R assigned(mkpos<N>(VI(shape.size(), 1)));
  assigned = r;
  values("made", rk, pick(assigned, rk), assigned.size());
  const R moved(std::move(copy));
  values("made", rk, pick(moved, rk), moved.size());
  assigned.data()[r.size() - 1] = 77;
  values("made", rk, pick(r, rk), r.size());
  auto out = std::make_unique<R>(std::move(assigned));
  out->data()[r.size() - 1] = r.data()[r.size() - 1];
  values("made", rk, pick(*out, rk), out->size());
#else
  typedef typename R::Value T;
  const std::vector<T> v(r.begin(), r.end());
  std::vector<T> tmp(v);
  const std::list<T> l(v.begin(), v.end());
  const R a(mkpos<N>(shape), v), c(mkpos<N>(shape), tmp.data()), d(mkpos<N>(shape), l);
  values("made", rk, pick(a, rk), a.size());
  values("made", rk, pick(c, rk), c.size());
  values("made", rk, pick(d, rk), d.size());
  const Sequence<T> s(v), e(v.size(), v.data());
  values("made", rk, pick(s, rk), s.size());
  values("made", rk, pick(e, rk), e.size());
  listed<T>(w, std::make_index_sequence<300>());
  begin(r, shape, w);
  for (long wrong : {long(r.size()) - 1, long(r.size()) + 1, long(r.size()) - 65536, long(r.size()) + 65536}) {
    bool thrown = false;
    std::vector<T> w(wrong);
    try {
      const R bad(mkpos<N>(shape), w);
    } catch (const std::exception&) {
      thrown = true;
    }
    Ev("wrong").n("size", wrong).b("thrown", thrown).log();
  }
#endif
}
static void run() {
  shapes([](const VI& shape, auto n) {
    constexpr Index N = decltype(n)::value;
    copies<VecRaster<short, N>, N>(shape);
    copies<ValRaster<int, N>, N>(shape);
    copies<AlignedRaster<double, N>, N>(shape);
  });
}
#elif WHAT == 7
static void run() {
  for (std::size_t n : {65537, 70001, 131072}) {
    for (std::size_t align : {0, 64, 1024}) {
      const auto w = Formula::random();
      Ev("begin").a("shape", VI {long(n)}).a("f", w.vec()).log();
      const auto rk = ranks(n);
      AlignedBuffer<int> x(n, nullptr, align);
      for (std::size_t i = 0; i < n; ++i) {
        const_cast<int*>(x.data())[i] = int(w(i));
      }
      const auto show = [&](const AlignedBuffer<int>& b) {
        VI v;
        for (auto i : rk) {
          v.push_back(b.data()[i]);
        }
        values("made", rk, v, b.size());
      };
      show(x);
      AlignedBuffer<int> copy(x);
      show(copy);
      AlignedBuffer<int> moved(std::move(copy));
      show(moved);
      AlignedBuffer<int> given(n, const_cast<int*>(x.data()), sizeof(int));
      show(given);
      given = moved;
      show(given);
    }
  }
}
#elif WHAT == 9 || WHAT == 10
#include "LitlContainer/Sequence.h"
static void run() {
  const auto body = [](const VI& shape, auto n) {
    constexpr Index N = decltype(n)::value;
    withRaster<long, N>(shape, [&](auto& r, const Formula& f) {
      const auto rk = ranks(r.size());
#if WHAT == 9
      const long k = rng->in(1, 5);
      const auto g = Formula::random();
      auto s = r;
      contents(s, g);
      const VI gk {g.a, g.b, g.m, k};
      values("sum", rk, pick(r + s, rk), r.size(), gk);
      values("difference", rk, pick(r - s, rk), r.size(), gk);
      values("scaled", rk, pick(r * k, rk), r.size(), gk);
      auto t = r;
      t += s;
      values("sum", rk, pick(t, rk), t.size(), gk);
      t -= s;
      t *= k;
      values("scaled", rk, pick(t, rk), t.size(), gk);
      values("opposite", rk, pick(-r, rk), r.size(), gk);
      auto p = r;
      p.pow(2);
      values("square", rk, pick(p, rk), p.size(), gk);
      values("square", rk, pick(pow(r, 2), rk), r.size(), gk);
      p = -r;
      p.abs();
      values("made", rk, pick(p, rk), p.size());
      values("made", rk, pick(abs(-r), rk), r.size());
      p = r;
      p.max(s);
      p.min(r);
      values("made", rk, pick(p, rk), p.size());
      values("made", rk, pick(Litl::min(Litl::max(r, s), r), rk), p.size());
#else
      const long a = rng->in(-9, 9), b = rng->in(1, 9), size = r.size();
      auto t = r;
      t.fill(a);
      values("filled", rk, pick(t, rk), std::count(t.begin(), t.end(), a), {a});
      t.range(a, b);
      values("ranged", rk, pick(t, rk), t.size(), {a, b});
      t.linspace(a, a + b * (size - 1));
      values("ranged", rk, pick(t, rk), t.size(), {a, b});
      long calls = 0;
      t.generate([&]() {
        return a + b * calls++;
      });
      values("ranged", rk, pick(t, rk), calls, {a, b});
      calls = 0;
      t = r;
      t.apply([&](long v, long w) {
        ++calls;
        return v + 10 * w;
      }, r);
      values("applied", rk, pick(t, rk), calls);
      t.fill(5);
      const long i = rk[rng->in(0, rk.size() - 1)], j = rk[rng->in(0, rk.size() - 1)];
      t.data()[i] = 2;
      t.data()[j] = i == j ? 2 : 8;
      const auto its = t.minmax();
      const auto at = [&](const long& e) {
        return long(&e - t.data());
      };
      values("extrema", {i, j}, {at(t.min()), at(t.max()), at(its.first), at(its.second)}, size);
      auto d = r.distribution();
      values("dist", {}, {d.min(), d.max()}, d.size());
      // Evenly spaced real values: at rank i, i / 10 (more or less 10 / 100000)
      const long m = rng->in(500, 3000);
      Sequence<float> s(m);
      s.linspace(0.f, (m - 1) / 10.f);
      const auto sk = ranks(m);
      VI got;
      for (auto i : sk) {
        got.push_back(std::lround(s[i] * 100000.));
      }
      values("spaced", sk, got, m);
      (void)f;
#endif
    });
  };
  shapes(body);
  // Every size modulo the usual lengths of blocks
  const long from = rng->in(48, 80);
  for (long i = 0; i < 64; ++i) {
    body(VI {from + i}, std::integral_constant<int, 1> {});
    if (i % 4 == 0) {
      body(VI {rng->in(1, 5), rng->in(30, 60), rng->in(1, 3)}, std::integral_constant<int, -1> {});
    }
  }
}
#elif WHAT == 12
#include "LitlRaster/Ball.h"
static void run() {
  for (long r : {130, 145, 150}) {
    const VI c {rng->in(-70000, 70000), rng->in(-70000, 70000)};
    const long quarter = rng->in(0, 3);
    const Ball<2, 2> ball(r + quarter / 4., mkpos<2>(c));
    long n = 0, first = 0, last = 0, inside = 0;
    VI rows;
    for (const auto& p : ball) {
      if (n == 0) {
        first = p[1];
      }
      last = p[1];
      inside += p[0] == c[0];
      ++n;
    }
    Ev("ball").n("r4", 4 * r + quarter).a("c", c).n("n", n).n("size", ball.size()).n("first", first).n("last", last).n("middle", inside).log();
  }
}
#elif WHAT == 13
#include "LitlRaster/Sampling.h"
static void run() {
  for (int k = 0; k < 12; ++k) {
    const auto w = Formula::random();
    const long stride = rng->in(1, 3), n = rng->in(140000, 150000), step = rng->in(1, 2);
    const long front = rng->in(0, 100), back = n - 1 - rng->in(0, 100);
    std::vector<int> mem((n - 1) * stride + 1);
    for (std::size_t i = 0; i < mem.size(); ++i) {
      mem[i] = int(w(i));
    }
    Ev("begin").a("shape", VI {long(mem.size())}).a("f", w.vec()).log();
    const DataSamples<const int> samples(mem.data(), n, {front, back, step}, stride);
    const IndexSampling axis {front, back, step};
    const auto v = samples.vector();
    const auto x = axis.vector();
    const auto rk = ranks(samples.count());
    const VI at {front, back, step, stride};
    values("samples", rk, pick(v, rk), samples.count(), at);
    values("axis", rk, pick(x, rk), axis.size(), at);
    VI one, two;
    for (auto i : rk) {
      auto it = samples.begin();
      it += i;
      one.push_back(*it);
      auto jt = axis.begin();
      jt += i;
      two.push_back(*jt);
    }
    values("samples", rk, one, v.size(), at);
    values("axis", rk, two, x.size(), at);
  }
}
#elif WHAT == 14 || WHAT == 15
#include "LitlTransforms/Interpolation.h"
template <Index N>
void look(const VI& shape) {
  withRaster<int, N>(shape, [&](auto& r, const Formula&) {
    for (auto i : ranks(r.size())) {
      VI p = posOf(shape, i);
#if WHAT == 14
      const long k = rng->in(0, p.size() - 1);
      p[k] += rng->coin() ? 0 : rng->coin() ? rng->in(-4, 4) * shape[k] : rng->in(-200000, 200000);
      const auto q = mkpos<N>(p);
      const long u = unit<int>();
      Ev("ext").a("p", p).n("const", units(extrapolate(r, int(99 * u))[q], u)).n("near", units(extrapolate<NearestNeighbor>(r)[q], u)).n("per", units(extrapolate<Periodic>(r)[q], u)).log();
#else
      const auto e = extrapolate<Periodic>(r);
      Vector<double, N> v(p.size());
      for (std::size_t k = 0; k < p.size(); ++k) {
        p[k] = 2 * p[k] + rng->in(0, 1);
        v[k] = p[k] / 2.;
      }
      Ev("linear").a("p2", p).n("got", units(interpolate<Linear>(e)(v), unit<int>(), double(1L << p.size()))).log();
#endif
    }
  });
}
static void run() {
  look<1>({rng->in(65537, 70000)});
  look<2>({rng->in(257, 300), rng->in(256, 270)});
  look<2>({rng->in(1, 3), rng->in(65537, 70000)});
  look<2>({rng->in(65537, 70000), 2});
  look<3>({rng->in(41, 43), rng->in(41, 43), rng->in(41, 43)});
#if WHAT == 14
  look<-1>({2, rng->in(257, 260), rng->in(129, 132)});
#endif
}
#elif WHAT == 16 || WHAT == 17 || WHAT == 18
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
static VI rnd(long n, long lo, long hi) {
  VI v;
  for (long i = 0; i < n; ++i) {
    v.push_back(rng->in(lo, hi));
  }
  return v;
}
template <typename T, typename O, Index N>
void filter(const VI& shape) {
  constexpr long U = unit<T>();
  withRaster<T, N>(shape, [&](auto& r, const Formula&) {
    const auto rk = ranks(r.size());
    const auto in = extrapolate<Periodic>(r);
#if WHAT == 16
    VI ks;
    for (std::size_t i = 0; i < shape.size(); ++i) {
      ks.push_back(rng->in(1, 3));
    }
    VI k = rnd(prod(ks), -3, 3), o;
    for (auto e : ks) {
      o.push_back(rng->in(0, e - 1));
    }
    Raster<O, N> values(mkpos<N>(ks));
    std::copy(k.begin(), k.end(), values.begin());
    auto kernel = kernelize(values, mkpos<N>(o));
    const auto out = kernel * in;
    Ev("corr").a("k", k).a("ks", ks).a("o", o).a("ranks", rk).a("vals", pick(out, rk, 1, U)).n("n", out.size()).log();
#elif WHAT == 17
    const VI k = rnd(rng->in(1, 4), -3, 3);
    const long o = rng->in(0, k.size() - 1);
    const LineKernel<O> line(std::vector<O>(k.begin(), k.end()), o);
    const auto out = line.template along<0>() * r;
    Ev("along").n("axis", 0).a("k", k).n("o", o).a("ranks", rk).a("vals", pick(out, rk, 1, U)).n("n", out.size()).log();
    const auto last = line.template along<N - 1>() * r;
    Ev("along").n("axis", N - 1).a("k", k).n("o", o).a("ranks", rk).a("vals", pick(last, rk, 1, U)).n("n", last.size()).log();
    const Kernel1d<O> old(std::vector<O>(k.begin(), k.end()), o);
    const auto kout = old.template correlateAlong<N - 1>(r);
    Ev("along").n("axis", N - 1).a("k", k).n("o", o).a("ranks", rk).a("vals", pick(kout, rk, 1, U)).n("n", kout.size()).log();
#else
    VI f, b;
    for (std::size_t i = 0; i < shape.size(); ++i) {
      f.push_back(rng->in(-1, 0));
      b.push_back(rng->in(0, 1));
    }
    MedianFilter<T, N> median(mkbox<N>(f, b));
    const auto out = median.apply(in);
    Ev("median").a("wf", f).a("wb", b).a("ranks", rk).a("vals2", pick(out, rk, 2, U)).b("real", U > 1 || std::is_floating_point<T>::value).n("n", out.size()).log();
#endif
  });
}
static void run() {
  constexpr long U = unit<int>();
  filter<int, int, 1>({rng->in(65537, 70000)});
  filter<double, double, 2>({rng->in(257, 300), rng->in(256, 270)});
  filter<short, int, 2>({rng->in(1, 3), rng->in(65537, 70000)});
  filter<int, long, 2>({rng->in(65537, 70000), 2});
  filter<unsigned char, int, 3>({2, rng->in(3, 4), rng->in(16400, 16500)});
#if WHAT == 17
  {
    // One kernel longer than 256 values
    const VI k = rnd(rng->in(257, 300), -1, 1);
    const long o = rng->in(0, k.size() - 1);
    withRaster<int, 1>({rng->in(600, 800)}, [&](auto& r, const Formula&) {
      const auto rk = ranks(r.size());
      const LineKernel<int> line(std::vector<int>(k.begin(), k.end()), o);
      const auto out = line.template along<0>() * r;
      Ev("along").n("axis", 0).a("k", k).n("o", o).a("ranks", rk).a("vals", pick(out, rk, 1, U)).n("n", out.size()).log();
    });
  }
#elif WHAT == 16
  withRaster<int, 2>({70, 40}, [&](auto& r, const Formula&) {
    const auto rk = ranks(r.size());
    const VI ks {20, 15}, o {7, 4};
    const VI k = rnd(300, -1, 1);
    Raster<int, 2> values(mkpos<2>(ks));
    std::copy(k.begin(), k.end(), values.begin());
    auto kernel = kernelize(values, mkpos<2>(o));
    const auto out = kernel * extrapolate<Periodic>(r);
    Ev("corr").a("k", k).a("ks", ks).a("o", o).a("ranks", rk).a("vals", pick(out, rk, 1, U)).n("n", out.size()).log();
  });
#else
  withRaster<int, 2>({40, 30}, [&](auto& r, const Formula&) {
    const auto rk = ranks(r.size());
    const VI f {-9, -8}, b {9, 8};
    MedianFilter<int, 2> median(mkbox<2>(f, b));
    const auto out = median.apply(extrapolate<Periodic>(r));
    Ev("median").a("wf", f).a("wb", b).a("ranks", rk).a("vals2", pick(out, rk, 2, U)).b("real", true).n("n", out.size()).log();
  });
#endif
}
#elif WHAT == 19
#include "LitlTransforms/Dft.h"
/// An impulse of value v at position p
template <typename TPlan, Index N>
void impulse(const VI& shape) {
  Ev("begin").a("shape", shape).a("f", VI {1, 0, 7}).log();
  TPlan plan(mkpos<N>(shape));
  auto inverse = plan.inverse();
  const long n = prod(shape), i = ranks(n)[rng->in(0, 8)], v = rng->in(1, 9);
  plan.in().fill(typename TPlan::InValue(0));
  plan.in().data()[i] = typename TPlan::InValue(v);
  plan.transform();
  long flat = 0;
  for (const auto& e : plan.out()) {
    flat += std::abs(std::abs(e) - v) < 1e-9 * v;
  }
  const std::complex<double> zero = plan.out().data()[0];
  Ev("impulse").b("half", !std::is_same<TPlan, ComplexDft<N>>::value).n("i", i).n("v", v).n("flat", flat).n("out", long(plan.out().size())).n("re", vt::fix(zero.real(), 1, 1e-6)).n("im", vt::fix(zero.imag(), 1, 1e-6)).log();
  inverse.transform().normalize();
  const auto rk = ranks(n);
  VI got;
  for (auto k : rk) {
    const std::complex<double> z = inverse.out().data()[k];
    got.push_back(vt::fix(z.real(), 1, 1e-6) + vt::fix(z.imag(), 1000, 1e-3));
  }
  long nonzero = 0;
  for (const auto& e : inverse.out()) {
    nonzero += std::abs(e) > 1e-6;
  }
  Ev("restored").n("i", i).n("v", v).a("ranks", rk).a("vals", got).n("nonzero", nonzero).log();
}
static void run() {
  impulse<RealDft<1>, 1>({65537 + rng->in(1, 200)});
  impulse<ComplexDft<2>, 2>({288, 256});
  impulse<RealDft<2>, 2>({2, 32770});
  impulse<ComplexDft<2>, 2>({33000, 2});
}
#elif WHAT == 20
#include "LitlContainer/DataDistribution.h"
#include "LitlContainer/Sequence.h"
template <typename T>
void stats(long n) {
  constexpr long U = unit<T>();
  const auto w = Formula::random();
  Sequence<T> s(n);
  contents(s, w);
  begin(s, {n}, w);
  DataDistribution<T> d(s);
  const auto rk = ranks(n);
  VI nth;
  for (auto i : rk) {
    nth.push_back(units(d.nth(i), U));
  }
  const VI edges {0, 2, 5, w.m};
  std::vector<T> bins;
  for (auto e : edges) {
    bins.push_back(T(e * U));
  }
  const auto h = d.histogram(bins);
  Ev("stats").n("n", long(d.size())).n("min", units(d.min(), U)).n("max", units(d.max(), U)).n("sum", units(d.sum(), U))
      .a("ranks", rk).a("nth", nth).a("edges", edges).a("hist", h).n("median2", units(d.median(), U, 2)).n("mad4", units(d.mad(), U, 4))
      .n("var", std::lround(d.variance() / U / U * 1000)).log();
}
static void run() {
  stats<int>(rng->in(65537, 70000));
  stats<double>(rng->in(65537, 70000));
  stats<long>(rng->in(65537, 70000));
  stats<unsigned char>(rng->in(65537, 200000));
  stats<float>(rng->in(65537, 70000));
}
#elif WHAT == 25
#include "LitlIo/Fits.h"
#include <unistd.h>
static std::string name;
template <typename T, Index N>
void file(const VI& shape) {
  withRaster<T, N>(shape, [&](auto& r, const Formula&) {
    ::unlink(name.c_str());
    Fits f(name);
    f.write(r);
    const auto out = f.template read<Raster<T, N>>();
    ::unlink(name.c_str());
    const auto rk = ranks(r.size());
    values("made", rk, pick(out, rk), out.size());
    Ev("shape").a("got", VI(out.shape().begin(), out.shape().end())).log();
  });
}
static void run() {
  shapes([](const VI& shape, auto n) {
    constexpr Index N = decltype(n)::value;
    file<short, N>(shape);
    file<float, N>(shape);
    file<long, N>(shape);
  });
}
#elif WHAT == 26
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Vector.h"
#include <sstream>
#include <valarray>
/// Sequences have their own comparison
template <typename S>
void sequences(long n) {
  typedef std::decay_t<decltype(*std::declval<S>().begin())> T;
  S r((std::vector<T>(n, T(3))));
  S s(r);
  S longer(std::vector<T>(n + 1, T(3)));
  Ev("differ").n("i", n).b("eq", r == longer || longer == r).b("ne", r != longer && longer != r).log();
  for (auto i : ranks(n)) {
    *(s.begin() + i) += T(65536);
    Ev("differ").n("i", i).b("eq", r == s).b("ne", r != s).log();
    *(s.begin() + i) = T(3);
    Ev("equal").b("eq", r == s).b("ne", r != s).log();
  }
}
static void run() {
  sequences<Sequence<int>>(rng->in(65537, 70000));
  sequences<Sequence<double, StdHolder<std::valarray<double>>>>(rng->in(65537, 70000));
  sequences<Sequence<float, AlignedBuffer<float>>>(rng->in(65537, 70000));
  sequences<Vector<long, -1>>(rng->in(65537, 70000));
  sequences<Sequence<int>>(rng->in(200, 2000));
  shapes([](const VI& shape, auto n) {
    constexpr Index N = decltype(n)::value;
    withRaster<int, N>(shape, [&](auto& r, const Formula&) {
      auto s = r;
      for (auto i : ranks(r.size())) {
        s.data()[i] += 65536;
        Ev("differ").n("i", i).b("eq", r == s).b("ne", r != s).log();
        s.data()[i] -= 65536;
        Ev("equal").b("eq", r == s).b("ne", r != s).log();
      }
      std::ostringstream os;
      os << static_cast<const ContiguousContainerMixin<int, std::decay_t<decltype(r)>>&>(r);
      Ev("text").s("got", os.str()).n("n", long(r.size())).log();
    });
  });
}
#elif WHAT == 31
#include "LitlRun/IterationBenchmark.h"
struct Bench : IterationBenchmark {
  explicit Bench(Index side) : IterationBenchmark(side) {}
  using IterationBenchmark::m_a;
  using IterationBenchmark::m_b;
  using IterationBenchmark::m_c;
};
static void run() {
  const long side = rng->in(41, 45);
  Bench x(side);
  const auto f = Formula::random(), g = Formula::random();
  contents(x.m_a, f);
  contents(x.m_b, g);
  begin(x.m_a, {side, side, side}, f);
  for (int way = 0; way < 8; ++way) {
    x.m_c.fill(99);
    switch (way) {
      case 0:
        x.loopOverXyz();
        break;
      case 1:
        x.loopOverZyx();
        break;
      case 2:
        x.iterateOverPositions();
        break;
      case 3:
        x.iterateOverPositionsOptimized();
        break;
      case 4:
        x.loopOverIndices();
        break;
      case 5:
        x.iterateOverValues();
        break;
      case 6:
        x.callOperator();
        break;
      default:
        x.callGenerate();
    }
    long done = 0;
    for (auto e : x.m_c) {
      done += e != 99;
    }
    const auto rk = ranks(x.m_c.size());
    values("sum", rk, pick(x.m_c, rk), done, {g.a, g.b, g.m, 1});
  }
}
#endif

int main(int argc, char** argv) {
  const auto a = vt::open(argc, argv);
  vt::Rng r(a.seed * 41 + a.part + WHAT * 1000);
  rng = &r;
#if WHAT == 25
  name = a.log + ".fits";
#endif
  const int reps = a.thorough ? 4 : 1;
  for (int i = 0; i < reps; ++i) {
    run();
  }
  return vt::close();
}
