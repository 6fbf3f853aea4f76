// Random generators: histories of builds, copies and draws (C21).
#include "rasters.h"
#include "LitlContainer/Random.h"
#include "LitlContainer/Sequence.h"
#include <chrono>
#include <cstring>
#include <functional>
#include <memory>
using namespace Litl;
static vt::Rng* rng;

template <typename T>
struct Txt {
  static long scale() {
    return std::is_integral<T>::value ? 1 : 10000;
  }
  static std::string s(T v) {
    char b[64];
    if (std::is_integral<T>::value) {
      snprintf(b, sizeof b, "%ld", long(v));
    } else {
      snprintf(b, sizeof b, "%a", double(v));
    }
    return b;
  }
  static VI fixed(T v) {
    return {vt::fix(double(v), scale(), 0.5)};
  }
  static T in(const VI& x) {
    return T(x[0]);
  }
  static std::size_t parts() {
    return 1;
  }
};
template <typename S>
struct Txt<std::complex<S>> {
  static long scale() {
    return 10000;
  }
  static std::string s(std::complex<S> v) {
    return Txt<S>::s(v.real()) + "," + Txt<S>::s(v.imag());
  }
  static VI fixed(std::complex<S> v) {
    return {vt::fix(v.real(), scale(), 0.5), vt::fix(v.imag(), scale(), 0.5)};
  }
  static std::complex<S> in(const VI& x) {
    return {S(x[0]), S(x[1])};
  }
  static std::size_t parts() {
    return 2;
  }
};

struct Gen {
  virtual ~Gen() {}
  virtual Gen* copy() const = 0;
  virtual void draw(int g, bool apply, const VI& x) = 0;
  virtual void bulk(int g, bool apply, const std::vector<VI>& xs) = 0;
  virtual std::size_t parts() const = 0;
  std::string kind;
};

template <typename T>
void logDraw(int g, const VI& x, T v) {
  vt::Ev("draw").n("g", g).a("x", x).s("out", Txt<T>::s(v)).a("v", Txt<T>::fixed(v)).n("scale", Txt<T>::scale()).log();
}

template <typename T, typename G>
struct GenOf : Gen {
  G noise;
  explicit GenOf(G g) : noise(std::move(g)) {}
  Gen* copy() const override {
    auto* out = new GenOf(noise);
    out->kind = kind;
    return out;
  }
  std::size_t parts() const override {
    return Txt<T>::parts();
  }
  void draw(int g, bool apply, const VI& x) override {
    if (apply) {
      const T v = noise(Txt<T>::in(x));
      logDraw(g, x, v);
    } else {
      const T v = noise();
      logDraw(g, VI(), v);
    }
  }
  /// Same through a container
  void bulk(int g, bool apply, const std::vector<VI>& xs) override {
    Sequence<T> s(xs.size());
    for (std::size_t i = 0; i < xs.size(); ++i) {
      s[i] = Txt<T>::in(xs[i]);
    }
    if (apply) {
      s.apply(noise);
    } else {
      s.generate(noise);
    }
    for (std::size_t i = 0; i < xs.size(); ++i) {
      logDraw(g, apply ? xs[i] : VI(), T(s[i]));
    }
  }
};
template <typename T, typename G>
Gen* wrap(const char* kind, G g) {
  auto* out = new GenOf<T, G>(std::move(g));
  out->kind = kind;
  return out;
}

static std::string js2(const std::vector<VI>& p) {
  std::string s = "[";
  for (std::size_t i = 0; i < p.size(); ++i) {
    s += i ? ",[" : "[";
    for (std::size_t j = 0; j < p[i].size(); ++j) {
      s += (j ? "," : "") + std::to_string(p[i][j]);
    }
    s += "]";
  }
  return s + "]";
}

struct Recipe {
  std::string kind, type;
  std::vector<VI> params;
  long seed;
  std::function<Gen*()> make;
};

/// Parameters are small so that the same recipe appears again and again
/// 0 and values beyond 32 bits are seeds like others; only -1 is special
long anySeed() {
  return rng->coin(1, 3) ? 0 : rng->coin(1, 4) ? -2 : rng->in(3, 4);
}

template <typename T>
Recipe recipe(const std::string& type) {
  Recipe r;
  r.type = type;
  r.seed = anySeed();
  const auto seed = std::size_t(r.seed);
  switch (rng->in(0, 4)) {
    case 0: {
      const long a = std::is_unsigned<T>::value ? rng->in(0, 1) : rng->in(-2, 0), b = a + rng->in(0, 1) * 7;
      r.kind = "uniform";
      r.params = {{1000 * a}, {1000 * b}};
      r.make = [=]() { return wrap<T>("uniform", UniformNoise<T>(T(a), T(b), seed)); };
      break;
    }
    case 1: {
      const long a = std::is_unsigned<T>::value ? 60 : rng->in(-1, 0), b = rng->in(1, 3);
      r.kind = "gaussian";
      r.params = {{1000 * a}, {1000 * b}};
      r.make = [=]() { return wrap<T>("gaussian", GaussianNoise<T>(T(a), T(b), seed)); };
      break;
    }
    case 2: {
      const long m = rng->in(0, 1) * 19 + 1;
      r.kind = "poisson";
      r.params = {{1000 * m}};
      r.make = [=]() { return wrap<T>("poisson", PoissonNoise<T>(T(m), seed)); };
      break;
    }
    case 3: {
      const long m = rng->in(0, 1) * 19 + 1;
      r.kind = "stable";
      r.params = {{1000 * m}};
      r.make = [=]() { return wrap<T>("stable", StablePoissonNoise<T>(T(m), seed)); };
      break;
    }
    default: {
      r.kind = "impulse";
      const long p = rng->in(0, 4) * 250, q = rng->in(0, 4) * 250;
      const int how = int(rng->in(0, 2));
      if (how == 0) {
        r.params = {{100}, {p}};
        r.make = [=]() { return wrap<T>("impulse", ImpulseNoise<T>(T(100), p / 1000., seed)); };
      } else if (how == 1) {
        r.params = {{100, 50}, {p, q}};
        r.make = [=]() { return wrap<T>("impulse", ImpulseNoise<T>::saltAndPepper(p / 1000., q / 1000., T(100), T(50), seed)); };
      } else {
        r.params = {{3, 20, 100}, {p, q, 250}};
        r.make = [=]() {
          return wrap<T>("impulse", ImpulseNoise<T>(std::map<T, double> {{T(20), q / 1000.}, {T(3), p / 1000.}, {T(100), .25}}, seed));
        };
      }
      if (p + q == 0 && how != 2) { // something must be possible
        r.params[1][0] = 250;
        if (how == 0) {
          r.make = [=]() { return wrap<T>("impulse", ImpulseNoise<T>(T(100), .25, seed)); };
        } else {
          r.make = [=]() { return wrap<T>("impulse", ImpulseNoise<T>::saltAndPepper(.25, 0, T(100), T(50), seed)); };
        }
      }
    }
  }
  return r;
}
template <typename S>
Recipe recipeComplex(const std::string& type) {
  typedef std::complex<S> T;
  Recipe r;
  r.type = type;
  r.seed = anySeed();
  const auto seed = std::size_t(r.seed);
  const long a = rng->in(-2, 0), b = rng->in(1, 3), c = rng->in(-2, 0), d = rng->in(5, 6);
  r.params = {{1000 * a, 1000 * c}, {1000 * b, 1000 * d}};
  if (rng->coin()) {
    r.kind = "uniform";
    r.make = [=]() { return wrap<T>("uniform", UniformNoise<T>(T(a, c), T(b, d), seed)); };
  } else {
    r.kind = "gaussian";
    r.make = [=]() { return wrap<T>("gaussian", GaussianNoise<T>(T(a, c), T(b, d), seed)); };
  }
  return r;
}

void history(const std::vector<Recipe>& recipes, int ops) {
  vt::Ev("reset").log();
  std::unique_ptr<Gen> g[6];
  std::vector<int> calls(6, 0);
  auto build = [&](int k) {
    const auto& r = recipes[rng->in(0, long(recipes.size()) - 1)];
    g[k].reset(r.make());
    calls[k] = 0;
    vt::Ev("build").n("g", k).s("kind", r.kind).s("type", r.type).raw("params", js2(r.params)).n("seed", r.seed).log();
  };
  for (int k = 0; k < 6; ++k) {
    build(k);
  }
  auto input = [&](int k) {
    VI x;
    for (std::size_t i = 0; i < g[k]->parts(); ++i) {
      x.push_back(rng->coin() ? rng->in(0, 2) : rng->coin() ? 20 : 0);
    }
    return x;
  };
  for (int o = 0; o < ops; ++o) {
    const int k = int(rng->in(0, 5));
    const int what = calls[k] > 12 ? 0 : int(rng->in(0, 14));
    if (what == 0) {
      build(k);
    } else if (what == 1) {
      const int h = int(rng->in(0, 5));
      if (h != k) {
        g[h].reset(g[k]->copy());
        calls[h] = calls[k];
        vt::Ev("copy").n("from", k).n("to", h).log();
      }
    } else if (what == 2) {
      std::vector<VI> xs(rng->in(0, 4));
      for (auto& x : xs) {
        x = input(k);
      }
      const bool apply = g[k]->kind == "impulse" || rng->coin(); // impulse values have a default input
      g[k]->bulk(k, apply, xs);
      calls[k] += int(xs.size());
    } else {
      const bool apply = rng->coin();
      g[k]->draw(k, apply, input(k));
      ++calls[k];
    }
  }
}

template <typename T, typename G>
void sequence(const char* kind, const char* type, long seed, G g, bool apply) {
  std::vector<std::string> outs;
  for (int i = 0; i < 12; ++i) {
    outs.push_back(Txt<T>::s(apply ? g(T(50)) : g()));
  }
  vt::Ev("sequence").s("kind", std::string(kind) + (apply ? "+" : "")).s("type", type).raw("params", "[]").n("seed", seed).sa("outs", outs).log();
}
template <typename T>
void sequences(const char* type) {
  const long base = rng->in(2, 1000);
  for (int i = 0; i < 10; ++i) {
    // Some seeds only differ in their higher bits
    const long seed = i < 5 ? base + VI {0, 256, 65521, 65536, 16777216}[i] : rng->coin() ? i - 5 : rng->in(0, 1000000);
    const bool a = i < 5 ? std::is_integral<T>::value : rng->coin();
    sequence<T>("uniform", type, seed, UniformNoise<T>(T(0), T(100), seed), a);
    sequence<T>("gaussian", type, seed, GaussianNoise<T>(T(60), T(20), seed), a);
    sequence<T>("poisson", type, seed, PoissonNoise<T>(T(60), seed), a);
    if (!a || seed > 1) { // the seeder of noise treats 0 as 1
      sequence<T>("stable", type, seed, StablePoissonNoise<T>(T(60), seed), a);
    }
  }
}

/// A distribution which is reset starts afresh
template <typename T, typename D>
void resets(const char* type, const D& d) {
  for (int i = 0; i < 5; ++i) {
    const long seed = rng->in(0, 1000000);
    for (int used = 0; used < 3; ++used) {
      D e = d;
      std::mt19937 other(rng->in(0, 1000000)), engine(seed);
      for (int j = 0; j < used * 2 - 1; ++j) { // an odd count: normal distributions keep one value in store
        e(other);
      }
      e.reset();
      std::vector<std::string> outs;
      for (int j = 0; j < 8; ++j) {
        outs.push_back(Txt<T>::s(e(engine)));
      }
      vt::Ev("sequence").s("kind", "distribution").s("type", type).raw("params", "[]").n("seed", seed).sa("outs", outs).log();
    }
  }
}

template <typename F>
void moments(double mean, double dev, F&& f) {
  const int n = 4000;
  double s = 0, s2 = 0;
  for (int i = 0; i < n; ++i) {
    const double x = (double(f()) - mean) / dev;
    s += x;
    s2 += x * x;
  }
  vt::Ev("moments").n("mean", std::round(1000 * s / n)).n("dev", std::round(1000 * std::sqrt(s2 / n))).log();
}
/// Generators without a seed are seeded by the time
template <typename F>
void unseeded(const char* kind, F&& draws) {
  const auto pause = [](int) {
    const auto from = std::chrono::system_clock::now();
    while (std::chrono::system_clock::now() - from < std::chrono::milliseconds(2)) {
    }
  };
  const auto a = draws();
  pause(0);
  const auto b = draws();
  pause(0);
  vt::Ev("unseeded").s("kind", kind).sa("one", a).sa("two", b).sa("three", draws()).log();
}
template <typename G>
std::vector<std::string> some(G g, int n) {
  std::vector<std::string> out;
  for (int i = 0; i < n; ++i) {
    out.push_back(Txt<double>::s(double(g())));
  }
  return out;
}
template <typename T>
void unseededs() {
  unseeded("uniform", [] {
    return some(UniformNoise<T>(T(0), T(100)), 20);
  });
  unseeded("uniform", [] {
    return some(UniformNoise<T>(T(0), T(100), -1), 20);
  });
  unseeded("gaussian", [] {
    return some(GaussianNoise<T>(T(60), T(20)), 20);
  });
  unseeded("poisson", [] {
    return some(PoissonNoise<T>(T(50)), 20);
  });
  unseeded("impulse", [] {
    return some(ImpulseNoise<T>(T(100), .5), 100);
  });
  unseeded("impulse", [] {
    return some(ImpulseNoise<T>::saltAndPepper(.5, .25), 100);
  });
  unseeded("random", [] {
    const auto r = random<T>(std::size_t(30));
    auto it = r.begin();
    return some([&]() { return *it++; }, 30);
  });
  unseeded("raster", [] {
    const auto r = random<T>(Position<2> {5, 6});
    auto it = r.begin();
    return some([&]() { return *it++; }, 30);
  });
}
/// Long histories of twins, one of which is moved to a copy once
template <typename T, typename G>
void twins(const char* kind, const G& seeded, long n) {
  G a(seeded), b(seeded), other(seeded);
  long same = 0;
  const long split = rng->in(1, n - 1);
  std::unique_ptr<G> c;
  for (long i = 0; i < n; ++i) {
    if (i == split) {
      c.reset(new G(b));
    }
    const T v = i % 3 ? a() : a(T(50));
    if (i % 5 == 0) {
      other();
    }
    G& twin = c ? *c : b;
    const T w = i % 3 ? twin() : twin(T(50));
    same += std::memcmp(&v, &w, std::min<std::size_t>(sizeof(T), 10)) == 0;
  }
  vt::Ev("twins").s("kind", kind).n("n", n).n("same", same).log();
}
template <typename T>
void allTwins() {
  const long n = 70000, seed = rng->in(0, 100000);
  twins<T>("uniform", UniformNoise<T>(T(0), T(50), seed), n);
  twins<T>("gaussian", GaussianNoise<T>(T(60), T(20), seed), n);
  twins<T>("poisson", PoissonNoise<T>(T(5), seed), n);
  twins<T>("stable", StablePoissonNoise<T>(T(5), seed), n);
  twins<T>("impulse", ImpulseNoise<T>::saltAndPepper(.25, .25, T(100), T(7), seed), n);
}

/// Random containers: uniform between the half min and half max
template <typename T>
void range(const std::vector<T>& v, double lo, double hi) {
  double mn = hi, mx = lo;
  for (auto e : v) {
    mn = std::min(mn, double(e));
    mx = std::max(mx, double(e));
  }
  // in thousandths of the half max
  vt::Ev("range").n("lo", std::floor(1000 * (lo / hi))).n("hi", 1000).n("min", std::floor(1000 * (mn / hi))).n("max", std::ceil(1000 * (mx / hi))).log();
  std::size_t i = 0;
  const double width = std::is_integral<T>::value && sizeof(T) == 1 ? std::sqrt((hi - lo + 1) * (hi - lo + 1) - 1) : hi - lo;
  moments(lo + (hi - lo) / 2, width / std::sqrt(12.), [&]() {
    return double(v[i++]);
  });
}
template <typename T>
struct Parts {
  template <typename C>
  static void log(const C& c) {
    using L = std::numeric_limits<T>;
    const double hi = std::is_integral<T>::value ? std::ldexp(1., L::digits - 1) : double(L::max()) / 2;
    const double lo = std::is_integral<T>::value ? (L::is_signed ? -hi : 0) : -hi;
    range(std::vector<T>(c.begin(), c.end()), lo, hi);
  }
};
template <typename T>
struct Parts<std::complex<T>> {
  template <typename C>
  static void log(const C& c) {
    std::vector<T> re, im;
    for (const auto& e : c) {
      re.push_back(e.real());
      im.push_back(e.imag());
    }
    Parts<T>::log(re);
    Parts<T>::log(im);
  }
};
template <typename T>
void randoms() {
  const auto s = random<T>(std::size_t(4000));
  vt::Ev("random").a("shape", std::vector<long> {4000}).a("oshape", std::vector<long> {long(s.size())}).log();
  Parts<T>::log(s);
  const long w = rng->in(1, 4), h = 4000 / (5 * w) + 1;
  const auto r = random<T>(Position<3> {w, 5, h});
  vt::Ev("random").a("shape", std::vector<long> {w, 5, h}).a("oshape", r.shape()).log();
  Parts<T>::log(r);
}
/// How often draws satisfy a condition
template <typename D, typename C>
void tail(const char* law, const char* what, long n, D&& draw, C&& condition) {
  long count = 0;
  for (long i = 0; i < n; ++i) {
    count += condition(draw());
  }
  vt::Ev("tail").s("law", law).s("what", what).n("n", n).n("count", count).log();
}
template <typename T>
void tails() {
  const std::size_t seed = rng->in(0, 1000000);
  const long n = 200000;
  const bool fl = !std::is_integral<T>::value;
  if (fl) {
    GaussianNoise<T> g(T(5), T(2), seed);
    const auto in = [&]() {
      return g(T(7)) - T(12); // twice a normal variable
    };
    tail("normal", "beyond 1", n, in, [](double v) {
      return std::abs(v) > 2;
    });
    tail("normal", "above 2", n, in, [](double v) {
      return v > 4;
    });
    tail("normal", "below -2", n, in, [](double v) {
      return v < -4;
    });
    tail("normal", "beyond 3", n, in, [](double v) {
      return std::abs(v) > 6;
    });
    UniformNoise<T> u(T(-10), T(40), seed);
    tail("uniform", "first tenth", n, u, [](double v) {
      return v < -5;
    });
    tail("uniform", "last hundredth", n, u, [](double v) {
      return v > 39.5;
    });
    tail("uniform", "first thousandth", n, u, [](double v) {
      return v < -9.95;
    });
    tail("uniform", "two in first tenth", n, [&]() {
      const double a = u(), b = u();
      return a > b ? a : b;
    }, [](double v) {
      return v < -5;
    });
  } else {
    UniformNoise<T> u(T(10), T(19), seed);
    for (int k = 10; k < 20; k += 3) {
      tail("uniform", "first tenth", n, u, [&](double v) {
        return v == k;
      });
    }
    tail("uniform", "two in first tenth", n, [&]() {
      const double a = u(), b = u();
      return a > b ? a : b;
    }, [](double v) {
      return v == 10;
    });
  }
  const auto poisson = [&](auto&& draw) {
    tail("poisson 2", "none", n, draw, [](double v) {
      return v == 0;
    });
    tail("poisson 2", "over 4", n, draw, [](double v) {
      return v > 4;
    });
    tail("poisson 2", "over 7", n, draw, [](double v) {
      return v > 7;
    });
  };
  PoissonNoise<T> p(T(2), seed);
  poisson(p);
  poisson([&]() {
    return p(T(2));
  });
  StablePoissonNoise<T> q(T(2), seed);
  poisson(q);
  poisson([&]() {
    return q(T(2));
  });
  ImpulseNoise<T> often(T(100), .9999, seed), rare(T(100), .0001, seed + 1);
  auto both = ImpulseNoise<T>::saltAndPepper(.4999, .5, T(100), T(7), seed + 2);
  tail("impulse", "rarely kept", 1000000, [&]() {
    return often(T(55));
  }, [](double v) {
    return v == 55;
  });
  tail("impulse", "rarely hit", 1000000, [&]() {
    return rare(T(55));
  }, [](double v) {
    return v == 100;
  });
  tail("impulse", "rarely kept", 1000000, [&]() {
    return both(T(55));
  }, [](double v) {
    return v == 55;
  });
}
template <typename T>
void statistics() {
  const std::size_t seed = rng->in(0, 1000000);
  const bool fl = !std::is_integral<T>::value;
  UniformNoise<T> u(T(10), T(90), seed);
  moments(50, std::sqrt(fl ? 80 * 80 / 12. : (81 * 81 - 1) / 12.), u);
  GaussianNoise<T> g(T(60), T(10), seed);
  moments(fl ? 60 : 59.5, 10, g); // integers are truncated
  moments(fl ? 63 : 62.5, 10, [&]() { return g(T(3)); });
  moments(fl ? 60 : 59.5, 10, [&]() {
    g(T(90));
    return g();
  });
  moments(51, std::sqrt(fl ? 80 * 80 / 12. : (81 * 81 - 1) / 12.), [&]() {
    u();
    u(T(90));
    return u(T(1));
  });
  for (long m : {2, 30}) {
    PoissonNoise<T> p(T(m), seed);
    moments(m, std::sqrt(m), p);
    moments(5, std::sqrt(5), [&]() { return p(T(5)); });
    moments(40, std::sqrt(40), [&]() { return p(T(40)); });
    StablePoissonNoise<T> q(T(m), seed);
    moments(m, std::sqrt(m), q);
    moments(5, std::sqrt(5), [&]() { return q(T(5)); });
    moments(40, std::sqrt(40), [&]() { return q(T(40)); });
    // applications of noise do not change the values generated, nor the converse
    moments(m, std::sqrt(m), [&]() {
      p(T(70));
      return p();
    });
    moments(9, 3, [&]() {
      p();
      p(T(70));
      return p(T(9));
    });
    moments(m, std::sqrt(m), [&]() {
      q(T(70));
      return q();
    });
    moments(9, 3, [&]() {
      q();
      q(T(70));
      return q(T(9));
    });
  }
  if (sizeof(T) > 1) {
    for (long m : {200, 1000, 30000}) {
      PoissonNoise<T> p(T(m), seed);
      moments(m, std::sqrt(m), p);
      moments(m + 100, std::sqrt(m + 100), [&]() { return p(T(m + 100)); });
      StablePoissonNoise<T> q(T(m), seed);
      moments(m, std::sqrt(m), q);
      moments(m + 100, std::sqrt(m + 100), [&]() { return q(T(m + 100)); });
    }
    UniformNoise<T> w(T(-20000), T(20000), seed);
    moments(0, std::sqrt(40000. * 40000 / 12), w);
    GaussianNoise<T> h(T(20000), T(2000), seed);
    moments(20000, 2000, h);
  }
  const long p = rng->in(1, 3), q = rng->in(1, 4);
  for (int how = 0; how < 4; ++how) {
    auto noise = how == 0 ? ImpulseNoise<T>::saltAndPepper(p / 8., q / 8., T(100), T(7), seed) :
        how == 1          ? ImpulseNoise<T>(std::map<T, double> {{T(100), p / 8.}, {T(7), q / 8.}}, seed) :
        how == 3          ? ImpulseNoise<T>::saltAndPepper(p / 8., q / 8.) : // The bounds of the type, any seed
                            ImpulseNoise<T>(std::map<T, double> {{T(100), p}, {T(7), q}, {T(55), 8 - p - q}}, seed);
    long a = 0, b = 0, c = 0;
    const long n = 4000;
    for (long i = 0; i < n; ++i) {
      const T v = noise(T(55));
      a += v == (how == 3 ? std::numeric_limits<T>::max() : T(100));
      b += v == (how == 3 ? std::numeric_limits<T>::lowest() : T(7));
      c += v == T(55);
    }
    vt::Ev("frequency").n("n", n).n("p", p).n("count", a).log();
    vt::Ev("frequency").n("n", n).n("p", q).n("count", b).log();
    vt::Ev("frequency").n("n", n).n("p", 8 - p - q).n("count", c).log();
  }
}

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  vt::Rng r(args.seed * 100 + args.part);
  rng = &r;
  for (int k = 0; k < (args.thorough ? 60 : 12); ++k) {
    std::vector<Recipe> rs;
    for (int i = 0; i < 6; ++i) {
      switch (rng->in(0, 7)) {
        case 0:
          rs.push_back(recipe<double>("double"));
          break;
        case 1:
          rs.push_back(recipe<float>("float"));
          break;
        case 2:
          rs.push_back(recipe<unsigned char>("uchar"));
          break;
        case 3:
          rs.push_back(recipe<short>("short"));
          break;
        case 4:
          rs.push_back(recipe<long>("long"));
          break;
        case 5:
          rs.push_back(recipeComplex<double>("cdouble"));
          break;
        case 6:
          rs.push_back(recipeComplex<float>("cfloat"));
          break;
        default:
          rs.push_back(recipe<int>("int"));
      }
    }
    history(rs, 90);
  }
  vt::Ev("reset").log();
  sequences<int>("int");
  sequences<double>("double");
  sequences<float>("float");
  sequences<unsigned char>("uchar");
  randoms<int>();
  randoms<double>();
  randoms<float>();
  randoms<short>();
  randoms<long>();
  randoms<unsigned int>();
  randoms<std::complex<double>>();
  resets<double>("normal", ComplexDistribution<double, std::normal_distribution<double>>(10., 3.));
  resets<float>("uniform", ComplexDistribution<float, std::uniform_real_distribution<float>>(1.f, 7.f));
  resets<std::complex<double>>(
      "cnormal",
      ComplexDistribution<std::complex<double>, std::normal_distribution<double>>(std::complex<double>(10, 20), std::complex<double>(3, 1)));
  statistics<int>();
  statistics<double>();
  statistics<float>();
  statistics<unsigned char>();
  allTwins<double>();
  allTwins<int>();
  allTwins<float>();
  unseededs<int>();
  unseededs<double>();
  switch (args.part % 3) {
    case 0:
      tails<double>();
      break;
    case 1:
      tails<float>();
      break;
    default:
      tails<int>();
  }
  return vt::close();
}
