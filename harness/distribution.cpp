// Statistics: histories of queries on several distributions (C20). Values in quarters.
#include "rasters.h"
#include "LitlContainer/Sequence.h"
#include <array>
using namespace Litl;
static vt::Rng* rng;
const double Q = 4;

template <typename T>
VI quarters(const std::vector<T>& v) {
  VI out;
  for (auto e : v) {
    out.push_back(vt::fix(double(e), Q));
  }
  return out;
}

/// Values of each type: small, or spread over the range for small integers
template <typename T>
T value(int mode, long amp) {
  const bool integral = std::is_integral<T>::value;
  const bool positive = std::is_unsigned<T>::value || mode == 1;
  long q = rng->in(positive ? 0 : -amp, amp);
  return integral ? T(q) : T(q / Q);
}
template <typename T>
long bound() {
  return sizeof(T) == 1 ? (std::is_unsigned<T>::value ? 255 : 127) : sizeof(T) == 2 ? 30000 : 4000000;
}

template <typename T, typename TSource>
struct World {
  std::vector<TSource> sources;
  std::vector<VI> unused;
  std::vector<DataDistribution<T>> dists;
};

template <typename T, typename TMake>
void history(TMake&& make, const char* type, int ops) {
  typedef decltype(make(std::vector<T>())) Source;
  std::vector<Source> src;
  std::vector<int> big;
  const int n = 3;
  auto renew = [&](int s) {
    const long size = rng->coin(1, 8) ? 1 : rng->coin(1, 3) ? rng->in(2, 4) : rng->in(1, 14);
    const int mode = int(rng->in(0, 6));
    const bool large = rng->coin(1, 3);
    std::vector<T> v(size);
    for (auto& e : v) {
      e = value<T>(mode, large ? bound<T>() : rng->coin() ? 4 : 40);
    }
    if (mode == 2) {
      std::sort(v.begin(), v.end());
    } else if (mode == 3) {
      std::sort(v.begin(), v.end(), [](T a, T b) { return a > b; });
    } else if (mode == 6) { // far apart
      const T lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
      for (auto& e : v) {
        e = rng->coin() ? lo : hi;
      }
    } else if (mode == 4) {
      std::fill(v.begin(), v.end(), v[0]);
    }
    auto m = make(v);
    if (s == int(src.size())) {
      src.push_back(std::move(m));
      big.push_back(0);
    } else {
      src[s] = std::move(m);
    }
    vt::Ev("source").s("type", type).n("s", s).a("vals", quarters(std::vector<T>(src[s].begin(), src[s].end()))).log();
  };
  std::vector<DataDistribution<T>> dist;
  for (int s = 0; s < n; ++s) {
    renew(s);
    dist.push_back(src[s].distribution());
    vt::Ev("make").n("d", s).n("s", s).log();
  }
  for (int o = 0; o < ops; ++o) {
    const int s = int(rng->in(0, n - 1)), d = int(rng->in(0, n - 1));
    auto& x = dist[d];
    auto log = [&](vt::Ev& e) {
      e.n("d", d).n("s", s).a("src", quarters(std::vector<T>(src[s].begin(), src[s].end()))).log();
    };
    const double size = double(x.size());
    const double tol = std::is_same<T, float>::value ? 0.2 : 1e-3;
    auto small = [&]() {
      double m = 0;
      auto y = x;
      m = std::max(std::fabs(double(y.min())), std::fabs(double(y.max())));
      return m;
    };
    // Range where products fit the specification's 32-bit integers, and floats are accurate
    const bool fits = small() < (std::is_same<T, float>::value ? 1000 : 5e6);
    const bool fits2 = small() < (std::is_same<T, float>::value ? 30 : 500);
    switch (rng->in(0, 17)) {
      case 16: { // The same values, times as much as their type allows
        auto y = x;
        const double top = std::max({std::fabs(double(y.min())), std::fabs(double(y.max())), 1.});
        if (!fits2 || std::is_same<T, char>::value) {
          break;
        }
        const bool real = std::is_floating_point<T>::value;
        const int e = real ? std::numeric_limits<T>::max_exponent - 6 - int(std::ceil(std::log2(top))) : 0; // Sums do not overflow
        T k = real ? T(std::ldexp(1., e)) : T(std::numeric_limits<T>::max() / T(top));
        if (rng->coin(1, 4)) {
          k = real ? T(std::ldexp(1., int(rng->in(1, e)))) : std::max(T(1), T(k / T(rng->in(1, 100))));
        }
        std::vector<T> v;
        for (std::size_t j = 0; j < y.size(); ++j) {
          v.push_back(T(y.nth(j) * k)); // No overflow
        }
        std::shuffle(v.begin(), v.end(), std::minstd_rand(unsigned(o)));
        DataDistribution<T> z(v);
        log(vt::Ev("median").n("out", vt::fix(double(z.median()) / double(k) * 2, Q, tol)));
        log(vt::Ev("min").n("out", vt::fix(double(z.min()) / double(k), Q, 1e-3)));
        log(vt::Ev("max").n("out", vt::fix(double(z.max()) / double(k), Q, 1e-3)));
        log(vt::Ev("mean").n("out", vt::fix(double(z.mean()) / double(k) * size, Q, tol)));
        log(vt::Ev("sum").n("out", vt::fix(double(z.sum()) / double(k), Q, tol)));
        log(vt::Ev("mad").n("out", vt::fix(double(z.mad()) / double(k) * 4, Q, tol)));
        const long den = rng->in(1, 10), num = rng->in(0, den);
        log(vt::Ev("quantile").n("num", num).n("den", den).n("out", vt::fix(double(z.quantile(double(num) / den)) / double(k) * den, Q, 0.1)));
        if (size > 1 && double(k) < (std::is_same<T, float>::value ? 1e12 : 1e100)) {
          const bool u = rng->coin();
          const double d2 = size * (u ? size - 1 : size);
          log(vt::Ev("variance").b("unbiased", u).n("den", d2).n("out", vt::fix(double(z.variance(u)) / double(k) / double(k) * d2, Q * Q, 0.2)));
        }
        break;
      }
      case 15: { // The same values, far from zero
        const bool wide = std::is_same<T, double>::value || std::is_same<T, long>::value;
        if (!wide || !fits2 || size < 2) {
          break;
        }
        auto y = x;
        const double far = std::ldexp(rng->coin() || std::is_unsigned<T>::value ? 1. : -1., int(rng->in(25, 40)));
        std::vector<T> v;
        for (std::size_t k = 0; k < y.size(); ++k) {
          v.push_back(y.nth(k) + T(far));
        }
        std::shuffle(v.begin(), v.end(), std::minstd_rand(unsigned(o)));
        DataDistribution<T> z(v);
        const bool u = rng->coin();
        const double den = size * (u ? size - 1 : size);
        log(vt::Ev("variance").b("unbiased", u).n("den", den).n("out", vt::fix(double(z.variance(u)) * den, Q * Q, 0.2)));
        log(vt::Ev("median").n("out", vt::fix((double(z.median()) - far) * 2, Q, tol)));
        log(vt::Ev("mean").n("out", vt::fix((double(z.mean()) - far) * size, Q, 0.05)));
        log(vt::Ev("mad").n("out", vt::fix(double(z.mad()) * 4, Q, tol)));
        log(vt::Ev("min").n("out", vt::fix(double(z.min()) - far, Q)));
        break;
      }
      case 0:
        renew(s);
        break;
      case 1:
        if (rng->coin()) {
          dist[d] = src[s].distribution();
        } else {
          dist[d] = DataDistribution<T>(std::vector<T>(src[s].begin(), src[s].end()));
        }
        vt::Ev("make").n("d", d).n("s", s).log();
        break;
      case 2: {
        const auto from = rng->in(0, n - 1);
        auto c = dist[from];
        dist[d] = c;
        vt::Ev("copy").n("d", d).n("from", from).log();
        break;
      }
      case 3: {
        const auto i = rng->in(0, long(src[s].size()) - 1);
        src[s][i] = value<T>(0, 9);
        vt::Ev("write").n("s", s).n("i", i).n("v", vt::fix(double(src[s][i]), Q)).log();
        break;
      }
      case 4:
        log(vt::Ev("size").n("out", x.size()));
        break;
      case 5:
        log(vt::Ev("min").n("out", vt::fix(double(x.min()), Q)));
        break;
      case 6:
        log(vt::Ev("max").n("out", vt::fix(double(x.max()), Q)));
        break;
      case 7: {
        const auto k = rng->in(0, long(x.size()) - 1);
        log(vt::Ev("nth").n("n", k).n("out", vt::fix(double(x.nth(k)), Q)));
        break;
      }
      case 8:
        if (fits) {
          log(vt::Ev("mean").n("out", vt::fix(double(x.mean()) * size, Q, tol)));
        }
        break;
      case 9:
        if (fits) {
          log(vt::Ev("sum").n("out", vt::fix(double(x.sum()), Q, tol)));
        }
        break;
      case 10:
        if (fits) log(vt::Ev("median").n("out", vt::fix(double(x.median()) * 2, Q, tol)));
        break;
      case 11:
      case 12: {
        if (!fits) {
          break;
        }
        long den = rng->coin() ? rng->in(1, 10) : 4, num = rng->in(0, den);
        log(vt::Ev("quantile").n("num", num).n("den", den).n("out", vt::fix(double(x.quantile(double(num) / den)) * den, Q, 0.1)));
        break;
      }
      case 13:
        if (fits) {
          log(vt::Ev("mad").n("out", vt::fix(double(x.mad()) * 4, Q, tol)));
        }
        break;
      case 14:
        if (fits2 && size > 1) {
          const bool u = rng->coin();
          const double den = size * (u ? size - 1 : size);
          log(vt::Ev("variance").b("unbiased", u).n("den", den).n("out", vt::fix(double(x.variance(u)) * den, Q * Q, 0.2)));
        }
        break;
      default: {
        if (rng->coin(1, 4)) {
          x.sort();
          { vt::Ev e("sort"); log(e); }
          break;
        }
        // Edges at, around and outside the values
        std::vector<double> e;
        const long k = rng->in(2, 6);
        auto y = x;
        const double lo = y.min(), hi = y.max();
        for (long j = 0; j < k; ++j) {
          switch (rng->in(0, 3)) {
            case 0:
              e.push_back(double(y.nth(std::size_t(rng->in(0, long(y.size()) - 1)))));
              break;
            case 1:
              e.push_back(std::floor(lo - 1 + (hi - lo + 2) * double(rng->in(0, 100)) / 100.));
              break;
            case 2:
              e.push_back(rng->coin() ? lo : hi);
              break;
            default:
              e.push_back(std::floor(2 * (lo - 1 + (hi - lo + 2) * double(rng->in(0, 100)) / 100.)) / 2);
          }
        }
        std::sort(e.begin(), e.end());
        e.erase(std::unique(e.begin(), e.end()), e.end());
        if (e.size() < 2) {
          break;
        }
        const auto h = x.histogram(e);
        log(vt::Ev("histogram").a("bins", quarters(e)).a("out", h));
      }
    }
  }
}

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  vt::Rng r(args.seed * 100 + args.part);
  rng = &r;
  const int n = args.thorough ? 40 : 8, ops = 60;
  auto seq = [](const auto& v) {
    typedef typename std::decay_t<decltype(v)>::value_type T;
    return Sequence<T>(v);
  };
  auto ras = [](const auto& v) {
    typedef typename std::decay_t<decltype(v)>::value_type T;
    VecRaster<T, 2> out({Index(v.size()), 1});
    std::copy(v.begin(), v.end(), out.begin());
    return out;
  };
  for (int k = 0; k < n; ++k) {
    history<int>(seq, "int", ops);
    history<double>(seq, "double", ops);
    history<float>(seq, "float", ops);
    history<unsigned char>(seq, "uchar", ops);
    history<signed char>(seq, "schar", ops);
    history<char>(seq, "char", ops);
    history<short>(ras, "short", ops);
    history<unsigned short>(ras, "ushort", ops);
    history<unsigned int>(seq, "uint", ops);
    history<long>(ras, "long", ops);
    history<unsigned long>(seq, "ulong", ops);
    history<double>(ras, "double", ops);
  }
  return vt::close();
}
