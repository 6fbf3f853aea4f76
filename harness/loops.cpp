// Ways of looping over pixels (C31), and the benchmark of them.
#include "rasters.h"
#include "trace.h"
#include "vclock.h"

#include "LitlContainer/Sequence.h"
#include "LitlRun/IterationBenchmark.h"

#include <numeric>

using namespace Litl;
using vt::Ev;

// c = c + a + rank of the visit
template <typename R>
struct Visitor {
  R& c;
  const R& a;
  std::vector<long> order;
  void pixel(typename R::Value& e, const typename R::Value& f) {
    order.push_back(&e - c.data());
    e = typename R::Value(e + f + typename R::Value(order.size()));
  }
};

template <int K, Index N>
struct Nested { // last axis innermost
  template <typename F>
  static void run(const VI& shape, Position<N>& p, F&& f) {
    for (p[N - K] = 0; p[N - K] < shape[N - K]; ++p[N - K]) {
      Nested<K - 1, N>::run(shape, p, f);
    }
  }
  template <typename F>
  static void reverse(const VI& shape, Position<N>& p, F&& f) {
    for (p[K - 1] = 0; p[K - 1] < shape[K - 1]; ++p[K - 1]) {
      Nested<K - 1, N>::reverse(shape, p, f);
    }
  }
};
template <Index N>
struct Nested<0, N> {
  template <typename F>
  static void run(const VI&, Position<N>& p, F&& f) {
    f(p);
  }
  template <typename F>
  static void reverse(const VI&, Position<N>& p, F&& f) {
    f(p);
  }
};

template <typename R, Index N>
struct Axes {
  static void loops(int way, const VI& shape, R& c, const R& a, Visitor<R>& v) {
    auto p = Position<N>::zero();
    auto f = [&](const Position<N>& q) {
      v.pixel(c[q], a[q]);
    };
    way == 0 ? Nested<N, N>::run(shape, p, f) : Nested<N, N>::reverse(shape, p, f);
  }
};
template <typename R>
struct Axes<R, -1> { // as many loops as axes, known at run time
  static void loops(int way, const VI& shape, R& c, const R& a, Visitor<R>& v) {
    const auto d = shape.size();
    Position<-1> p(VI(d, 0));
    while (true) {
      v.pixel(c[p], a[p]);
      std::size_t k = 0;
      for (; k < d; ++k) {
        const auto axis = way == 0 ? d - 1 - k : k;
        if (++p[axis] < shape[axis]) {
          break;
        }
        p[axis] = 0;
      }
      if (k == d) {
        return;
      }
    }
  }
};

static const char* ways[] = {"x-y-z", "z-y-x", "domain", "index", "iterator", "const", "range-for", "transform", "generate", "apply", "sections", "subraster", "pointer",
                             "position-index", "reversed", "operator", "operator+", "foreach"};
static const int rankless = 15; // the last ones do not look at the rank
static const int wayCount = 18;

template <typename R>
void loop(int way, const VI& shape, R& c, const R& a, Visitor<R>& v) {
  using T = typename R::Value;
  constexpr auto N = R::Dimension;
  const std::size_t size = c.size();
  switch (way) {
    case 0:
    case 1:
      Axes<R, N>::loops(way, shape, c, a, v);
      break;
    case 2:
      for (const auto& p : c.domain()) {
        v.pixel(c[p], a[p]);
      }
      break;
    case 3:
      for (std::size_t i = 0; i < size; ++i) {
        v.pixel(c[i], a[i]);
      }
      break;
    case 4: {
      auto f = a.begin();
      for (auto it = c.begin(); it != c.end(); ++it, ++f) {
        v.pixel(*it, *f);
      }
      break;
    }
    case 5: {
      auto it = c.begin();
      for (auto f = a.cbegin(); f != a.cend(); f++) {
        v.pixel(*it++, *f);
      }
      break;
    }
    case 6: {
      std::size_t i = 0;
      for (auto& e : c) {
        v.pixel(e, a[i++]);
      }
      break;
    }
    case 7: {
      std::size_t i = 0;
      std::transform(c.begin(), c.end(), a.begin(), c.begin(), [&](T& e, const T& f) {
        T x = e;
        v.order.push_back(long(i++));
        return T(x + f + T(i));
      });
      break;
    }
    case 8: {
      long rank = 0;
      c.generate(
          [&](const T& e, const T& f) {
            v.order.push_back(&e - c.data());
            return T(e + f + T(++rank));
          },
          c,
          a);
      break;
    }
    case 9: {
      long rank = 0;
      c.apply(
          [&](const T& e, const T& f) {
            v.order.push_back(&e - c.data());
            return T(e + f + T(++rank));
          },
          a);
      break;
    }
    case 10:
      for (Index k = 0; k < shape.back(); ++k) {
        auto s = c.section(k, k);
        const auto t = a.section(k, k);
        auto f = t.begin();
        for (auto& e : s) {
          v.pixel(e, *f++);
        }
      }
      break;
    case 11: {
      auto sub = c.subraster(c.domain());
      const auto other = a.subraster(a.domain());
      auto f = begin(other);
      for (auto it = begin(sub); it != end(sub); ++it, ++f) {
        v.pixel(*it, *f);
      }
      break;
    }
    case 12: {
      auto* e = c.data();
      for (const auto* f = a.data(); f != a.data() + a.size(); ++f, ++e) {
        v.pixel(*e, *f);
      }
      break;
    }
    case 13:
      for (const auto& p : c.domain()) {
        const auto i = c.index(p);
        v.pixel(c[i], a[i]);
      }
      break;
    case 14: // backward indices
      for (Index i = -Index(size); i < 0; ++i) {
        v.pixel(c.at(i), a.at(i));
      }
      break;
    case 15:
      c += a;
      break;
    case 16:
      c = c + a;
      break;
    default: {
      std::size_t i = 0;
      seqForeach(c, [&](T& e) {
        e += a[i++];
      });
    }
  }
}

template <typename R, typename TMake>
void history(std::mt19937_64& g, const VI& shape, int steps, TMake&& make) {
  auto c = make();
  auto a = make();
  for (long i = 0; i < long(c.size()); ++i) {
    c[i] = typename R::Value(long(g() % 5));
    a[i] = typename R::Value(long(g() % 9));
  }
  Ev("rasters").a("shape", shape).a("c", c).a("a", a).log();
  for (int k = 0; k < steps; ++k) {
    const int way = k < wayCount ? (k * 5 + int(shape.size())) % wayCount : int(g() % wayCount); // every way
    Visitor<R> v {c, a, {}};
    loop(way, shape, c, a, v);
    Ev("loop").s("way", ways[way]).b("ranked", way < rankless).a("order", v.order).a("c", c).a("a", a).log();
  }
}

template <typename T, Index N>
void shapes(std::mt19937_64& g, int count, int steps) {
  for (int i = 0; i < count; ++i) {
    const std::size_t d = N < 0 ? 1 + g() % 4 : N;
    VI shape(d);
    for (auto& e : shape) {
      e = 1 + long(g() % (d > 3 ? 3 : 4));
    }
    switch (g() % 3) {
      case 0:
        history<Raster<T, N>>(g, shape, steps, [&]() {
          return Raster<T, N>(mkpos<N>(shape));
        });
        break;
      case 1:
        history<ValRaster<T, N>>(g, shape, steps, [&]() {
          return ValRaster<T, N>(mkpos<N>(shape));
        });
        break;
      default:
        history<AlignedRaster<T, N>>(g, shape, steps, [&]() {
          return AlignedRaster<T, N>(mkpos<N>(shape));
        });
    }
  }
}

struct Bench : IterationBenchmark {
  explicit Bench(Index side) : IterationBenchmark(side) {}
  using IterationBenchmark::m_a;
  using IterationBenchmark::m_b;
  using IterationBenchmark::m_c;
  using IterationBenchmark::m_chrono;
  void show(Ev& ev) {
    ev.a("a", m_a).a("b", m_b).a("c", m_c).n("count", m_chrono.count()).n("elapsed", m_chrono.elapsed().count()).b("running", m_chrono.isRunning()).log();
  }
};

static void benchmark(std::mt19937_64& g, int reps) {
  for (int i = 0; i < reps; ++i) {
    const Index side = i < 5 ? i : 1 + g() % 5;
    Bench x(side);
    {
      Ev ev("bench");
      ev.n("side", side).a("shape", x.m_c.shape());
      x.show(ev);
    }
    for (int k = 0; k < 14; ++k) {
      vc::ns += 5000000; // between the loops
      vc::reading = 1000000 * long(g() % 9); // during the loop
      const long length = vc::reading / 1000000;
      if (g() % 4 == 0) {
        for (auto* r : {&x.m_a, &x.m_b, &x.m_c}) {
          for (auto& e : *r) {
            e = char(g() % 256);
          }
        }
        Ev ev("contents");
        x.show(ev);
        continue;
      }
      IterationBenchmark::Duration d;
      static const char* names[] = {"x-y-z", "z-y-x", "position", "position-index", "index", "value", "operator", "generate"};
      const int way = g() % 8;
      switch (way) {
        case 0:
          d = x.loopOverXyz();
          break;
        case 1:
          d = x.loopOverZyx();
          break;
        case 2:
          d = x.iterateOverPositions();
          break;
        case 3:
          d = x.iterateOverPositionsOptimized();
          break;
        case 4:
          d = x.loopOverIndices();
          break;
        case 5:
          d = x.iterateOverValues();
          break;
        case 6:
          d = x.callOperator();
          break;
        default:
          d = x.callGenerate();
      }
      vc::reading = 0;
      Ev ev("bench-loop");
      ev.s("way", names[way]).n("length", length).n("duration", d.count());
      x.show(ev);
    }
  }
}

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  std::mt19937_64 g(args.seed * 1000 + args.part);
  const int count = args.thorough ? 150 : 12;
  switch (args.part) {
    case 0:
      shapes<int, 1>(g, count, 22);
      shapes<int, 2>(g, count, 22);
      shapes<long, 3>(g, count, 22);
      break;
    case 1:
      shapes<double, 4>(g, count, 22);
      shapes<short, 5>(g, count, 22);
      shapes<int, -1>(g, count * 2, 22);
      break;
    default:
      benchmark(g, args.thorough ? 300 : 30);
  }
  Ev("end").log();
  return 0;
}
