// Key values of number types (C28): limits, scalars and functions of scalars, clamping, flooring, segments, named vectors.
#include "LitlRaster/Vector.h"
#include "LitlContainer/Math.h"
#include "LitlTypes/Segment.h"
#include "LitlTypes/TypeUtils.h"
#include "trace.h"

#include <limits>

using namespace Litl;
using vt::Ev;

// s * m * 2^e with m odd, as limbs of 12 bits, least significant first
static std::string encode(int s, unsigned long m, long e) {
  if (m == 0) {
    e = 0;
  }
  while (m && m % 2 == 0) {
    m /= 2;
    ++e;
  }
  std::ostringstream os;
  os << "{\"s\":" << s << ",\"m\":[";
  const char* sep = "";
  for (; m; m >>= 12, sep = ",") {
    os << sep << (m & 4095);
  }
  os << "],\"e\":" << e << "}";
  return os.str();
}

template <typename T>
std::enable_if_t<std::is_integral<T>::value, std::string> value(T x) {
  const bool neg = x < T(0);
  const auto u = (unsigned long)(x);
  return encode(neg ? -1 : u > 0, neg ? 0UL - u : u, 0);
}

template <typename T>
std::enable_if_t<std::is_floating_point<T>::value, std::string> value(T x) {
  if (x != x) {
    return encode(7, 7, 7); // no such value
  }
  if (x - x != 0) {
    return encode(x < 0 ? -1 : 1, 0, 0);
  }
  int e = 0;
  const auto f = std::frexp(x < 0 ? -x : x, &e);
  return encode(x < 0 ? -1 : x > 0, (unsigned long)(std::ldexp((long double)(f), 64)), e - 64);
}

template <typename T>
struct Parts {
  static std::string list(const T& x) {
    return "[" + value(x) + "]";
  }
};
template <typename T>
struct Parts<std::complex<T>> {
  static std::string list(const std::complex<T>& x) {
    return "[" + value(x.real()) + "," + value(x.imag()) + "]";
  }
};

template <typename T>
std::string traits() { // as the language has it
  using L = std::numeric_limits<T>;
  std::ostringstream os;
  if (std::is_integral<T>::value) {
    os << "{\"int\":true,\"n\":" << L::digits << ",\"signed\":" << (L::is_signed ? "true" : "false") << "}";
  } else {
    os << "{\"int\":false,\"p\":" << L::digits << ",\"x\":" << L::max_exponent - 1 << "}";
  }
  return os.str();
}

template <typename T>
struct ScalarOf {
  using Type = T;
  static constexpr int Count = 1;
};
template <typename T>
struct ScalarOf<std::complex<T>> {
  using Type = T;
  static constexpr int Count = 2;
};

template <typename T>
void key(const char* name, T (*get)()) {
  Ev("key").raw("t", traits<typename ScalarOf<T>::Type>()).n("parts", int(ScalarOf<T>::Count)).s("name", name).raw("out", Parts<T>::list(get())).log();
}

template <typename T, bool = std::is_integral<T>::value>
struct Almost {
  static void log() {}
};
template <typename T>
struct Almost<T, true> {
  static void log() { // of real numbers: rounding swallows the epsilon
    key<T>("almostMin", &Limits<T>::almostMin);
    key<T>("almostMax", &Limits<T>::almostMax);
  }
};

template <typename T, Index N>
std::string list(const Vector<T, N>& v) {
  std::string out = "[";
  for (const auto& e : v) {
    out += (out.size() > 1 ? "," : "") + Parts<T>::list(e);
  }
  return out + "]";
}

template <typename T, Index N>
void classify(const Vector<T, N>& v) {
  Ev("classify")
      .raw("t", traits<typename ScalarOf<T>::Type>())
      .n("parts", int(ScalarOf<T>::Count))
      .raw("v", list(v))
      .b("zero", v.isZero())
      .b("one", v.isOne())
      .b("inf", v.isInf())
      .log();
}

template <typename T, Index N>
void named(std::mt19937_64& g) {
  auto log = [](const char* name, const Vector<T, N>& v) {
    Ev("vector").raw("t", traits<typename ScalarOf<T>::Type>()).n("parts", int(ScalarOf<T>::Count)).s("name", name).n("dim", N < 0 ? 1 : N).raw("out", list(v)).log();
    classify(v);
  };
  log("zero", Vector<T, N>::zero());
  log("one", Vector<T, N>::one());
  log("inf", Vector<T, N>::inf());
  const T keys[] = {Limits<T>::zero(), Limits<T>::one(), Limits<T>::inf(), Limits<T>::min()};
  const std::size_t dim = N < 0 ? 4 : N;
  for (std::size_t k = 0; k < 4 && dim > 0; ++k) { // one coordinate differs
    for (std::size_t i = 0; i < dim; ++i) {
      std::vector<T> v(dim, keys[k]);
      v[i] = keys[(k + 1 + g() % 3) % 4];
      classify(Vector<T, N>(v));
    }
    classify(Vector<T, N>(std::vector<T>(dim, keys[k])));
  }
  // Close to the key values, but other values
  using Lim = std::numeric_limits<T>;
  const bool real = !Lim::is_integer;
  const T others[] = {
      real ? T(1.5) : T(2),
      real ? T(1 - Lim::epsilon()) : T(3),
      real ? T(1 + Lim::epsilon()) : T(-1),
      real ? T(.5) : T(4),
      real ? T(-.75) : T(-2),
      real ? Lim::denorm_min() : T(5),
      real ? T(-Lim::min()) : T(16),
      Lim::max(),
      T(Lim::max() / 2),
      T(Lim::max() / 2 + 1),
      T(Lim::max() - 1),
      Lim::lowest()};
  for (const auto& o : others) {
    for (std::size_t k = 0; k < 3 && dim > 0; ++k) {
      std::vector<T> v(dim, keys[k]);
      v[g() % dim] = o;
      classify(Vector<T, N>(v));
      classify(Vector<T, N>(std::vector<T>(dim, o)));
    }
  }
}
/* of coordinates (std::vector<bool> is no range of bool references) */
template <typename T>
std::enable_if_t<!std::is_same<T, bool>::value && ScalarOf<T>::Count == 1> vectors(std::mt19937_64& g) {
  named<T, 0>(g);
  named<T, 1>(g);
  named<T, 2>(g);
  named<T, 5>(g);
  named<T, -1>(g);
}
template <typename T>
std::enable_if_t<std::is_same<T, bool>::value || ScalarOf<T>::Count == 2> vectors(std::mt19937_64&) {}

template <typename T>
void type(std::mt19937_64& g) {
  using S = typename ScalarOf<T>::Type;
  key<T>("zero", &Limits<T>::zero);
  key<T>("one", &Limits<T>::one);
  key<T>("min", &Limits<T>::min);
  key<T>("max", &Limits<T>::max);
  key<T>("inf", &Limits<T>::inf);
  key<T>("halfMin", &Limits<T>::halfMin);
  key<T>("halfMax", &Limits<T>::halfMax);
  key<T>("epsilon", &Limits<T>::epsilon);
  Almost<T>::log();
  // scalars
  static_assert(std::is_same<typename TypeTraits<T>::Scalar, S>::value, "Scalar");
  static_assert(std::is_same<typename Limits<T>::Scalar, S>::value, "Scalar");
  for (int i = 0; i < 8; ++i) {
    const S in = i == 0 ? std::numeric_limits<S>::lowest() : i == 1 ? std::numeric_limits<S>::max() : S(g() % 100);
    const T out = TypeTraits<T>::fromScalar(in);
    Ev("scalar").n("parts", int(ScalarOf<T>::Count)).raw("in", value(in)).raw("out", Parts<T>::list(out)).log();
  }
  for (int i = 0; i < 4; ++i) { // a function with a state, an argument which it changes
    int calls = 0;
    int arg = int(g() % 20);
    const int start = arg;
    auto f = [&](int& x) {
      ++calls;
      x += 3;
      return S((x * 2 + calls) % 2 + (std::is_same<S, bool>::value ? 0 : x));
    };
    const T out = TypeTraits<T>::applyScalar(f, arg);
    Ev("apply").n("parts", int(ScalarOf<T>::Count)).n("start", start).b("bool", std::is_same<S, bool>::value).n("calls", calls).n("arg", arg).raw("out", Parts<T>::list(out)).log();
  }
  // corresponding floating point type
  using F = typename TypeTraits<T>::Floating;
  using FS = typename ScalarOf<F>::Type;
  Ev("floating")
      .raw("t", traits<S>())
      .n("parts", int(ScalarOf<T>::Count))
      .b("real", std::is_floating_point<FS>::value)
      .n("floatingParts", int(ScalarOf<F>::Count))
      .raw("f", traits<FS>())
      .log();
  vectors<T>(g);
}

template <typename T, typename U>
void clampOf(T x, U lo, U hi) {
  const T out = clamp<T, U>(x, lo, hi);
  Ev("clamp").n("x", x).n("lo", lo).n("hi", hi).n("out", out).log();
}

template <typename TInt, typename T>
void floorOf(long hi, long lo) { // of hi * 2^20 + lo quarters
  const auto q = (hi * 1048576L + lo);
  const T in = T(q) / 4;
  if ((long)(in * 4) != q) {
    return; // not exact
  }
  const long out = long(Litl::floor<TInt>(in));
  // out = ohi * 2^18 + olo
  long ohi = out >> 18;
  Ev("floor").n("hi", hi).n("lo", lo).n("ohi", ohi).n("olo", out - ohi * 262144L).log();
}
template <typename TInt, typename T>
void floorsOf(std::mt19937_64& g, bool far, int reps) {
  for (long q = -41; q <= 41; ++q) {
    floorOf<TInt, T>(q < 0 ? -1 : 0, q < 0 ? 1048576L + q : q);
  }
  for (int i = 0; i < reps; ++i) {
    const long lo = i % 3 ? long(g() % 1048576) : long(g() % 3) * 4; // whole numbers, too
    if (far) {
      floorOf<TInt, T>(long(g() % 2097152) - 1048576, lo);
    } else {
      floorOf<TInt, T>(i % 2 ? 0 : -1, i % 2 ? lo % 100000 : 1048575 - lo % 100000);
    }
  }
  // just below an integer, nothing left in quarters
  for (long n : {-3L, -1L, 0L, 1L, 2L}) {
    for (int side : {-1, 0, 1}) {
      const T in = side == 0 ? T(n) : std::nextafter(T(n), side < 0 ? T(-10) : T(10));
      Ev("tick").n("n", n).n("side", side).n("out", long(Litl::floor<TInt>(in))).log();
    }
  }
}

template <Index N, Index M>
void sliceOf(std::mt19937_64& g, std::size_t dim) {
  std::vector<Index> v(dim);
  for (auto& e : v) {
    e = long(g() % 41) - 20;
  }
  const Vector<Index, N> in(v);
  Ev("slice").a("in", v).n("m", M).a("out", in.template slice<M>()).a("after", in).log();
}
template <Index N, Index M>
void extendOf(std::mt19937_64& g, std::size_t dim, std::size_t to) {
  std::vector<Index> v(dim), p(to);
  for (auto& e : v) {
    e = long(g() % 41) - 20;
  }
  for (auto& e : p) {
    e = 100 + long(g() % 41) - 20;
  }
  const Vector<Index, N> in(v);
  const Vector<Index, M> padding(p);
  Ev("extend").a("in", v).a("padding", p).a("out", in.template extend<M>(padding)).a("after", in).log();
  if (M >= 0) {
    Ev("extend").a("in", v).a("padding", std::vector<Index>(to, 0)).a("out", in.template extend<M>()).a("after", in).log();
  }
}

template <typename... Ts>
void types(std::mt19937_64& g) {
  int all[] = {(type<Ts>(g), 0)...};
  (void)all;
}

/// To the precision of the type
template <typename T>
void onePi() {
  const long double want = 3.14159265358979323846264338327950288L;
  Ev("pi").n("pi", std::lround(1e8 * double(pi<T>()))).n("ulps", std::lround(std::abs((long double)(pi<T>()) - want) / std::numeric_limits<T>::epsilon())).log();
}

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  std::mt19937_64 g(args.seed * 1000 + args.part);
  const int reps = args.thorough ? 4000 : 150;
  if (args.part == 0) {
    types<LITL_SUPPORTED_INTS>(g);
  } else if (args.part == 1) {
    types<LITL_SUPPORTED_FLOATS, LITL_SUPPORTED_COMPLEXES>(g);
  } else {
    onePi<float>();
    onePi<double>();
    onePi<long double>();
    for (int lo = -3; lo <= 3; ++lo) {
      for (int hi = lo; hi <= 3; ++hi) {
        for (int x = -5; x <= 5; ++x) {
          clampOf<int, int>(x, lo, hi);
          clampOf<long, int>(x, lo, hi);
          clampOf<short, long>(x, lo, hi);
          clampOf<double, int>(x, lo, hi);
          clampOf<float, float>(x, lo, hi);
          clampOf<signed char, signed char>(x, lo, hi);
          if (x >= 0 && lo >= 0) {
            clampOf<unsigned, unsigned>(x, lo, hi);
            clampOf<unsigned char, int>(x, lo, hi);
            clampOf<std::size_t, unsigned>(x, lo, hi);
          }
        }
      }
    }
    for (int i = 0; i < reps; ++i) { // far values
      const long a = long(g() % 4000000000UL) - 2000000000L;
      const long b = long(g() % 4000000000UL) - 2000000000L;
      const long x = i % 2 ? long(g() % 4000000000UL) - 2000000000L : long(g() % 200) - 100;
      clampOf<long, long>(x, std::min(a, b), std::max(a, b));
      clampOf<long, int>(x, int(std::min(a, b)), int(std::max(a, b)));
      clampOf<double, double>(x, std::min(a, b), std::max(a, b));
      if (i % 2 == 0) { // the range of the bounds fits that of the value
        const int c = int(g() % 128), d = int(g() % 128);
        clampOf<signed char, int>((signed char)(x), -c, d);
      }
    }
    floorsOf<int, float>(g, false, reps);
    floorsOf<long, float>(g, false, reps);
    floorsOf<long, double>(g, true, reps);
    floorsOf<Index, long double>(g, true, reps);
    floorsOf<short, double>(g, false, reps);
    floorsOf<long long, long double>(g, true, reps);
    for (int i = 0; i < reps / 5; ++i) {
      sliceOf<3, 0>(g, 3);
      sliceOf<3, 1>(g, 3);
      sliceOf<3, 2>(g, 3);
      sliceOf<3, 3>(g, 3);
      sliceOf<5, 4>(g, 5);
      sliceOf<5, 5>(g, 5);
      sliceOf<7, 5>(g, 7);
      sliceOf<8, 6>(g, 8);
      sliceOf<9, 7>(g, 9);
      sliceOf<10, 8>(g, 10);
      sliceOf<20, 17>(g, 20);
      sliceOf<-1, 5>(g, 5 + g() % 6);
      sliceOf<-1, 8>(g, 8 + g() % 6);
      extendOf<3, 5>(g, 3, 5);
      extendOf<4, 7>(g, 4, 7);
      extendOf<5, 8>(g, 5, 8);
      extendOf<6, 9>(g, 6, 9);
      extendOf<7, 17>(g, 7, 17);
      extendOf<-1, 8>(g, g() % 9, 8);
      extendOf<-1, -1>(g, 5 + g() % 5, 10 + g() % 5);
      sliceOf<-1, 2>(g, 2 + g() % 3);
      sliceOf<-1, 4>(g, 4 + g() % 3);
      extendOf<0, 2>(g, 0, 2);
      extendOf<1, 3>(g, 1, 3);
      extendOf<2, 2>(g, 2, 2);
      extendOf<3, 6>(g, 3, 6);
      extendOf<-1, 4>(g, g() % 5, 4);
      const auto d = g() % 4;
      extendOf<-1, -1>(g, d, d + g() % 3);
      extendOf<2, -1>(g, 2, 2 + g() % 3);
    }
    for (long front = -4; front <= 4; ++front) {
      for (std::size_t size = 0; size <= 6; ++size) {
        const auto s = Segment::fromSize(front, size);
        Ev("segment").n("front", front).n("size", size).n("gotFront", s.front()).n("back", s.back()).n("gotSize", s.size()).log();
        const Segment t(front, s.back());
        Ev("segment").n("front", front).n("size", size).n("gotFront", t.front()).n("back", t.back()).n("gotSize", t.size()).log();
      }
    }
  }
  Ev("end").log();
  return 0;
}
