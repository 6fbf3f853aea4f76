// Constructions of containers by every route (C08); comparisons, emptiness and text (C26).
#include "rasters.h"
#include "LitlContainer/Sequence.h"
#include "LitlContainer/Random.h"
#include <array>
#include <deque>
#include <list>
#include <sstream>
#include <valarray>

using namespace Litl;
static vt::Rng* rng;
static long nextId = 1;

template <typename T, typename F>
void withList(const std::vector<T>& v, F&& f) {
  typedef std::initializer_list<T> L;
  switch (v.size()) {
    case 0:
      return f(L {});
    case 1:
      return f(L {v[0]});
    case 2:
      return f(L {v[0], v[1]});
    case 3:
      return f(L {v[0], v[1], v[2]});
    case 4:
      return f(L {v[0], v[1], v[2], v[3]});
    case 5:
      return f(L {v[0], v[1], v[2], v[3], v[4]});
    case 6:
      return f(L {v[0], v[1], v[2], v[3], v[4], v[5]});
    case 7:
      return f(L {v[0], v[1], v[2], v[3], v[4], v[5], v[6]});
    case 8:
      return f(L {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]});
    default:
      return f(L {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]});
  }
}

template <typename T>
std::vector<T> typed(const VI& v) {
  std::vector<T> out;
  for (auto e : v) {
    out.push_back(Val<T>::from(e));
  }
  return out;
}
template <typename C>
VI values(const C& c) {
  VI out;
  for (auto it = c.begin(); it != c.end(); ++it) {
    out.push_back(vt::inum(*it));
  }
  return out;
}
template <typename T, Index N, typename H>
VI shapeOf(const Raster<T, N, H>& c) {
  return VI(c.shape().begin(), c.shape().end());
}
template <typename T, typename H>
VI shapeOf(const Sequence<T, H>& c) {
  return {long(c.size())};
}
template <typename T, Index N>
VI shapeOf(const Vector<T, N>& c) {
  return {long(c.size())};
}
template <typename T, Index N, typename H>
long dimOf(const Raster<T, N, H>& c) {
  return c.dimension();
}
template <typename T, typename H>
long dimOf(const Sequence<T, H>& c) {
  return 1;
}
template <typename T, Index N>
long dimOf(const Vector<T, N>& c) {
  return 1;
}

template <typename W>
VI vt_given(const W& w) {
  VI out;
  for (const auto& e : w) {
    out.push_back(vt::inum(e));
  }
  return out;
}

VI randVals(long n, long lo = -50, long hi = 99) {
  VI v;
  for (long i = 0; i < n; ++i) {
    v.push_back(rng->in(lo, hi));
  }
  return v;
}

/// Run a construction and log it
template <typename F>
void construct(const char* route, const VI& shape, const VI& given, long cap, F&& f) {
  vt::Ev ev("ctor");
  ev.s("route", route).n("id", nextId).a("shape", shape).a("given", given).n("cap", cap);
  bool threw = false;
  try {
    f([&](const auto& c) {
      ev.a("oshape", shapeOf(c)).n("osize", c.size()).a("ovals", values(c)).n("odim", dimOf(c));
    });
  } catch (std::exception&) {
    threw = true;
  }
  ev.b("threw", threw).log();
}

template <typename T, Index N, typename H>
struct Arr {
  static constexpr long cap = -1;
};
template <typename T, std::size_t C, Index N>
struct Arr<T, N, StdHolder<std::array<T, C>>> {
  static constexpr long cap = C;
};

template <typename R, typename T, Index N>
void copies(const VI& shape, const VI& given, long cap) {
  const auto p = mkpos<N>(shape);
  const auto v = typed<T>(given);
  if (given.size() <= 9) {
    construct("list", shape, given, cap, [&](auto&& look) {
      withList(v, [&](auto l) {
        R r(p, std::initializer_list<T>(l));
        look(r);
      });
    });
  }
  construct("vector", shape, given, cap, [&](auto&& look) {
    auto w = v;
    R r(p, w);
    look(r);
  });
  construct("const vector", shape, given, cap, [&](auto&& look) {
    R r(p, v);
    look(r);
  });
  construct("list container", shape, given, cap, [&](auto&& look) {
    std::list<T> w(v.begin(), v.end());
    R r(p, w);
    look(r);
  });
  construct("deque", shape, given, cap, [&](auto&& look) {
    const std::deque<T> w(v.begin(), v.end());
    R r(p, w);
    look(r);
  });
  if (given.size()) {
    construct("sequence", shape, given, cap, [&](auto&& look) {
      Sequence<T> w(v);
      R r(p, w);
      look(r);
    });
  }
}

template <typename T, Index N>
void rasterOf(const VI& shape, const VI& given) {
  const auto p = mkpos<N>(shape);
  const auto v = typed<T>(given);
  const long n = prod(shape);
  vt::Ev("reset").log();
  copies<VecRaster<T, N>, T, N>(shape, given, -1);
  copies<ValRaster<T, N>, T, N>(shape, given, -1);
  copies<AlignedRaster<T, N>, T, N>(shape, given, -1);
  construct("moved vector", shape, given, -1, [&](auto&& look) {
    auto w = v;
    VecRaster<T, N> r(p, std::move(w));
    look(r);
  });
  construct("moved valarray", shape, given, -1, [&](auto&& look) {
    std::valarray<T> w(v.size());
    std::copy(v.begin(), v.end(), &w[0]);
    ValRaster<T, N> r(p, std::move(w));
    look(r);
  });
  if (n > 0) {
    copies<ArrRaster<T, 6, N>, T, N>(shape, given, 6);
    if (given.size() == 6) {
      construct("moved array", shape, given, 6, [&](auto&& look) {
        std::array<T, 6> w;
        std::copy(v.begin(), v.end(), w.begin());
        ArrRaster<T, 6, N> r(p, std::move(w));
        look(r);
      });
    }
  }
  if (long(given.size()) == n && n > 0) {
    construct("vec from pointer", shape, given, -1, [&](auto&& look) {
      VecRaster<T, N> r(p, v.data());
      look(r);
    });
    construct("val from pointer", shape, given, -1, [&](auto&& look) {
      ValRaster<T, N> r(p, v.data());
      look(r);
    });
    construct("pointer", shape, given, -1, [&](auto&& look) {
      PtrRaster<const T, N> r(p, v.data());
      look(r);
    });
    construct("pointer and vector", shape, given, -1, [&](auto&& look) {
      std::vector<T> w(given.size());
      PtrRaster<T, N> r(p, v, w.data());
      look(r);
      if (values(r) != vt_given(w)) {
        throw std::runtime_error("memory not filled");
      }
    });
    construct("aligned from pointer", shape, given, -1, [&](auto&& look) {
      auto w = v;
      AlignedRaster<T, N> r(p, w.data());
      look(r);
    });
    if (n == 6) {
      construct("arr from pointer", shape, given, 6, [&](auto&& look) {
        ArrRaster<T, 6, N> r(p, v.data());
        look(r);
      });
    }
    construct("container", shape, given, -1, [&](auto&& look) {
      const VecRaster<T, N> r(p, v);
      const auto& w = r.container();
      if (w.data() != r.data()) {
        throw std::runtime_error("not the container");
      }
      look(VecRaster<T, N>(p, w));
    });
    construct("valarray container", shape, given, -1, [&](auto&& look) {
      const ValRaster<T, N> r(p, v);
      const std::valarray<T>& w = r.container();
      if (&w[0] != r.data() || w.size() != r.size()) {
        throw std::runtime_error("not the container");
      }
      look(VecRaster<T, N>(p, &w[0]));
    });
    construct("raw array", shape, given, -1, [&](auto&& look) {
      T w[64];
      std::copy(v.begin(), v.end(), w);
      look(PtrRaster<T, N>(p, w));
    });
    construct("rasterize raster", shape, given, -1, [&](auto&& look) {
      const VecRaster<T, N> r(p, v);
      const auto& q = Litl::rasterize(r);
      if (static_cast<const void*>(&q) != &r) {
        throw std::runtime_error("not the raster");
      }
      look(q);
    });
    construct("copy", shape, given, -1, [&](auto&& look) {
      VecRaster<T, N> r(p, v.data());
      VecRaster<T, N> q = r;
      look(q);
    });
    construct("move", shape, given, -1, [&](auto&& look) {
      AlignedRaster<T, N> r(p, v);
      AlignedRaster<T, N> q = std::move(r);
      look(q);
    });
  }
}

/// Copies in memory obtained with further arguments (lists with further arguments are ambiguous to GCC 9)
template <typename T, Index N>
void listed(const VI& shape, const VI& given) {
  const auto p = mkpos<N>(shape);
  const auto v = typed<T>(given);
  const long n = given.size();
  if (n > 9 || n == 0) {
    return;
  }
  construct("vector in aligned sequence", {n}, given, -1, [&](auto&& look) {
    Sequence<T, AlignedBuffer<T>> r(v, nullptr, 64);
    look(r);
  });
}

template <typename R>
void defaulted(const R& c, const VI& shape) {
  vt::Ev("sized")
      .n("id", nextId)
      .a("shape", shape)
      .a("oshape", shapeOf(c))
      .n("osize", c.size())
      .a("ovals", VI(c.size(), 0))
      .n("odim", dimOf(c))
      .log();
}
template <typename T, Index N>
void defaults() {
  const VI zeros(N, 0);
  defaulted(VecRaster<T, N>(), zeros);
  defaulted(ValRaster<T, N>(), zeros);
  defaulted(AlignedRaster<T, N>(), zeros);
  defaulted(PtrRaster<T, N>(Position<N>::zero(), nullptr), zeros);
  defaulted(Vector<T, N>(), {N});
  defaulted(Vector<T, -1>(), {0});
  defaulted(Vector<T, -1>(N), {N});
  defaulted(Vector<T, N>(N), {N});
  defaulted(Sequence<T>(), {0});
  defaulted(Sequence<T, AlignedBuffer<T>>(), {0});
  defaulted(Sequence<T, StdHolder<std::valarray<T>>>(), {0});
  defaulted(Sequence<T>(std::size_t(N)), {N});
}

template <typename T, Index N>
void sized(const VI& shape) {
  auto ev = [&](const auto& c) {
    vt::Ev("sized")
        .n("id", nextId)
        .a("shape", shape)
        .a("oshape", shapeOf(c))
        .n("osize", c.size())
        .a("ovals", VI(c.size(), 0))
        .n("odim", dimOf(c))
        .log();
  };
  const auto p = mkpos<N>(shape);
  ev(VecRaster<T, N>(p));
  ev(ValRaster<T, N>(p));
  ev(AlignedRaster<T, N>(p));
  if (prod(shape) == 6) {
    ev(ArrRaster<T, 6, N>(p));
  }
}

template <typename T>
void rasterize1(const VI& shape, const VI& given) {
  auto v = typed<T>(given);
  if (shape.size() == 2) {
    construct("rasterize vector", shape, given, -1, [&](auto&& look) {
      auto w = v;
      auto r = rasterize(std::move(w), shape[0], shape[1]);
      look(r);
    });
    if (long(given.size()) == prod(shape)) {
      construct("rasterize pointer", shape, given, -1, [&](auto&& look) {
        auto r = rasterize(v.data(), shape[0], shape[1]);
        look(r);
      });
    }
  } else if (shape.size() == 3) {
    construct("rasterize vector", shape, given, -1, [&](auto&& look) {
      auto w = v;
      auto r = rasterize(std::move(w), shape[0], shape[1], shape[2]);
      look(r);
    });
    if (long(given.size()) == prod(shape)) {
      construct("rasterize pointer", shape, given, -1, [&](auto&& look) {
        auto r = rasterize((const T*)v.data(), shape[0], shape[1], shape[2]);
        look(r);
      });
    }
  }
}

template <typename T>
void sequences(const VI& given, long n) {
  const auto v = typed<T>(given);
  const VI shape {n};
  if (long(given.size()) == n) {
    if (n <= 9) {
      construct("seq list", shape, given, -1, [&](auto&& look) {
        withList(v, [&](auto l) {
          Sequence<T> r(l);
          look(r);
        });
      });
      construct("aligned seq list", shape, given, -1, [&](auto&& look) {
        withList(v, [&](auto l) {
          Sequence<T, AlignedBuffer<T>> r(l);
          look(r);
        });
      });
    }
    construct("seq vector", shape, given, -1, [&](auto&& look) {
      Sequence<T> r(v);
      look(r);
    });
    construct("valarray seq list container", shape, given, -1, [&](auto&& look) {
      std::list<T> w(v.begin(), v.end());
      Sequence<T, StdHolder<std::valarray<T>>> r(w);
      look(r);
    });
    if (n) {
      construct("seq pointer", shape, given, -1, [&](auto&& look) {
        Sequence<T> r(std::size_t(n), v.data());
        look(r);
      });
      construct("ptr seq", shape, given, -1, [&](auto&& look) {
        auto w = v;
        Sequence<T, PtrHolder<T>> r(std::size_t(n), w.data());
        look(r);
      });
    }
  }
  construct("seq moved vector", shape, given, -1, [&](auto&& look) {
    auto w = v;
    Sequence<T> r(std::size_t(n), std::move(w));
    look(r);
  });
  construct("arr seq vector", {long(given.size())}, given, given.empty() ? -2 : 5, [&](auto&& look) {
    if (given.empty()) {
      throw std::runtime_error("not applicable");
    }
    Sequence<T, StdHolder<std::array<T, 5>>> r(v);
    look(r);
  });
  if (n >= 0) {
    Sequence<T> s(static_cast<std::size_t>(n));
    vt::Ev("sized")
        .n("id", nextId)
        .a("shape", shape)
        .a("oshape", shapeOf(s))
        .n("osize", s.size())
        .a("ovals", VI(s.size(), 0))
        .n("odim", 1)
        .log();
  }
}

template <typename T, Index N>
void vectors(const VI& given) {
  const auto v = typed<T>(given);
  const VI shape {long(given.size())};
  const long cap = N;
  if (given.size() <= 9 && (N == -1 || given.size() > 0)) {
    construct("vector of list", shape, given, cap, [&](auto&& look) {
      withList(v, [&](auto l) {
        Vector<T, N> r(l);
        look(r);
      });
    });
    construct("vector of iterable", shape, given, cap, [&](auto&& look) {
      Vector<T, N> r(v);
      look(r);
    });
    construct("vector of list container", shape, given, cap, [&](auto&& look) {
      Vector<T, N> r(std::list<T>(v.begin(), v.end()));
      look(r);
    });
  }
  if (long(given.size()) == N) {
    construct("zero", {N}, VI(N, 0), N, [&](auto&& look) {
      look(Vector<T, N>::zero());
    });
    construct("one", {N}, VI(N, 1), N, [&](auto&& look) {
      look(Vector<T, N>::one());
    });
    VI ext = given;
    ext.push_back(7);
    ext.push_back(8);
    construct("extend", {N + 2}, ext, N + 2, [&](auto&& look) {
      Vector<T, N + 2> pad = Vector<T, N + 2>::zero();
      pad[N] = T(7);
      pad[N + 1] = T(8);
      look(Vector<T, N>(v).template extend<(N > 0 ? N + 2 : 1)>(pad));
    });
    construct("slice", {1}, VI(given.begin(), given.begin() + 1), 1, [&](auto&& look) {
      look(Vector<T, N>(v).template slice<1>());
    });
  }
}

template <Index N>
void what8dim(bool thorough) {
  const int D = N == -1 ? 0 : N;
  std::vector<VI> shapes;
  auto add = [&](int d) {
    const long m = d == 1 ? 7 : d == 2 ? 4 : d == 3 ? 3 : 2;
    vt::forAll(VI(d, 0), VI(d, m), [&](const VI& s) {
      if (prod(s) <= 12) {
        shapes.push_back(s);
      }
    });
  };
  if (N == -1) {
    for (int d = 1; d <= 4; ++d) {
      add(d);
    }
  } else {
    add(D);
  }
  for (const auto& s : shapes) {
    const long n = prod(s);
    std::vector<long> lens {n, n + 1, n - 1, n + 2, 0, 6, rng->in(0, 9)};
    if (!thorough) {
      lens = {n, n + rng->in(1, 3), rng->in(0, 9)};
    }
    for (auto len : lens) {
      if (len < 0) {
        continue;
      }
      typedef std::conditional_t<N == 2, double, int> T1;
      typedef std::conditional_t<N == -1, std::complex<float>, T1> T2;
      rasterOf<T2, N>(s, randVals(len));
      if (N == 2 || N == -1) {
        rasterOf<std::conditional_t<N == 2 || N == -1, short, T2>, N>(s, randVals(len));
      }
      listed<T2, N>(s, randVals(len));
      rasterize1<int>(s, randVals(len));
      rasterize1<float>(s, randVals(len));
    }
    sized<int, N>(s);
    sized<double, N>(s);
  }
}

/// Longer fixed capacities
template <typename T, std::size_t C, Index N>
void fixed(const VI& shape) {
  const long n = prod(shape);
  const auto given = randVals(n);
  const auto v = typed<T>(given);
  const auto p = mkpos<N>(shape);
  vt::Ev("reset").log();
  copies<ArrRaster<T, C, N>, T, N>(shape, given, C);
  copies<ArrRaster<T, C, N>, T, N>(shape, randVals(n + 1), C);
  construct("arr from pointer", shape, given, C, [&](auto&& look) {
    ArrRaster<T, C, N> r(p, v.data());
    look(r);
  });
  construct("copied array", shape, given, C, [&](auto&& look) {
    const ArrRaster<T, C, N> r(p, v.data());
    ArrRaster<T, C, N> q(p);
    q = r;
    look(q);
  });
  if (n == C) {
    construct("moved array", shape, given, C, [&](auto&& look) {
      std::array<T, C> w;
      std::copy(v.begin(), v.end(), w.begin());
      ArrRaster<T, C, N> r(p, std::move(w));
      look(r);
    });
    construct("sequence from pointer", {n}, given, C, [&](auto&& look) {
      Sequence<T, StdHolder<std::array<T, C>>> r(n, v.data());
      look(r);
    });
  }
}

#if WHAT == 8
void what8(const vt::Args& a) {
  int job = 0;
  auto mine = [&]() {
    return job++ % a.parts == a.part;
  };
  if (mine()) {
    what8dim<1>(a.thorough);
  }
  if (mine()) {
    what8dim<2>(a.thorough);
  }
  if (mine()) {
    what8dim<3>(a.thorough);
  }
  if (mine()) {
    what8dim<4>(a.thorough);
  }
  if (mine()) {
    what8dim<-1>(a.thorough);
  }
  if (mine()) {
    vt::Ev("reset").log();
    defaults<int, 1>();
    defaults<double, 2>();
    defaults<std::int64_t, 3>();
    defaults<float, 5>();
    fixed<int, 24, 2>({4, 6});
    fixed<int, 24, 2>({24, 1});
    fixed<double, 24, 2>({23, 1});
    fixed<float, 100, 3>({5, 4, 5});
    fixed<short, 130, -1>({13, 2, 5});
    fixed<long, 17, 1>({17});
    for (long n = 0; n <= 9; ++n) {
      for (long len = 0; len <= 9; ++len) {
        sequences<int>(randVals(len), n);
        sequences<double>(randVals(len), n);
        sequences<std::complex<double>>(randVals(len), n);
      }
      vectors<long, 1>(randVals(n));
      vectors<long, 2>(randVals(n));
      vectors<double, 3>(randVals(n));
      vectors<int, 4>(randVals(n));
      vectors<long, 6>(randVals(n));
      vectors<long, -1>(randVals(n));
      vectors<double, -1>(randVals(n));
    }
  }
}

#endif
// C26

template <typename C>
void logCtor(long id, const C& c) {
  vt::Ev("ctor")
      .n("id", id)
      .a("shape", shapeOf(c))
      .a("given", values(c))
      .n("cap", -1)
      .b("threw", false)
      .a("oshape", shapeOf(c))
      .n("osize", c.size())
      .a("ovals", values(c))
      .n("odim", dimOf(c))
      .log();
}
template <typename C>
void texts(long id, const C& c) {
  std::ostringstream os, os2;
  auto& r = (os << c);
  vt::Ev("text").n("id", id).s("out", os.str()).b("sameStream", &r == &os).log();
  vt::Ev("empty").n("id", id).b("out", c.emtpy()).log();
}
template <typename A, typename B>
void compare(const A& a, const B& b, long i, long j) {
  vt::Ev("eq")
      .n("a", i)
      .n("b", j)
      .b("eq", a == b)
      .b("ne", a != b)
      .a("avals", values(a))
      .a("bvals", values(b))
      .log();
}
/// Special values (codes: 7 is -0, 8 is not a number) are compared as numbers are
template <typename C>
void oddHistory(C& a, C& b) {
  typedef std::decay_t<decltype(*a.begin())> T;
  typedef typename TypeTraits<T>::Scalar S;
  auto val = [](long code) {
    return T(code == 7 ? -S(0) : code == 8 ? std::numeric_limits<S>::quiet_NaN() : S(code));
  };
  VI va, vb;
  auto same = rng->coin();
  for (std::size_t i = 0; i < a.size(); ++i) {
    const long c = rng->coin(1, 3) ? 0 : rng->coin(1, 5) ? 7 : rng->coin(1, 9) ? 8 : rng->in(0, 2);
    va.push_back(c);
    *(a.begin() + i) = val(c);
  }
  for (std::size_t i = 0; i < b.size(); ++i) {
    const long c = i < a.size() && (same || rng->coin()) ? (va[i] == 0 && rng->coin() ? 7 : va[i]) : rng->in(0, 1) * 7;
    vb.push_back(c);
    *(b.begin() + i) = val(c);
  }
  const C c(a);
  const C& r = a;
  auto put = [](long id, const C& x, const VI& v) {
    vt::Ev("codes").n("id", id).a("shape", shapeOf(x)).a("given", v).log();
  };
  put(1, a, va);
  put(2, b, vb);
  put(3, c, va);
  auto cmp = [](const C& x, const C& y, long i, long j) {
    vt::Ev("oddEq").n("a", i).n("b", j).b("eq", x == y).b("ne", x != y).log();
  };
  cmp(a, b, 1, 2);
  cmp(b, a, 2, 1);
  cmp(a, r, 1, 1);
  cmp(b, b, 2, 2);
  cmp(a, c, 1, 3);
  cmp(c, r, 3, 1);
  cmp(c, b, 3, 2);
}

/// The text is that of the elements with the state of the stream, which is left as it was
template <typename C>
void formatted(const C& c) {
  for (int k = 0; k < 3; ++k) {
    std::ostringstream os, es;
    const long precision = k == 0 ? 6 : rng->in(1, 15);
    for (auto* s : {&os, &es}) {
      s->precision(precision);
      if (k == 1) {
        s->setf(std::ios::fixed, std::ios::floatfield);
        s->setf(std::ios::showpos);
      } else if (k == 2) {
        s->setf(std::ios::scientific, std::ios::floatfield);
        s->setf(std::ios::hex, std::ios::basefield);
        s->fill('*');
      }
    }
    const auto flags = os.flags();
    const int times = int(rng->in(1, 3));
    std::vector<std::string> outs, words;
    for (int i = 0; i < times; ++i) {
      os.str("");
      os << c;
      outs.push_back(os.str());
    }
    for (std::size_t i = 0; i < c.size(); ++i) {
      es.str("");
      es << c[i];
      words.push_back(es.str());
    }
    vt::Ev("format")
        .sa("words", words)
        .sa("outs", outs)
        .b("flags", os.flags() == flags && os.fill() == (k == 2 ? '*' : ' '))
        .n("precision", precision)
        .n("after", os.precision())
        .n("width", os.width())
        .log();
  }
}

template <typename A, typename B>
void history(A& a, B& b, int steps) {
  logCtor(1, a);
  logCtor(2, b);
  compare(a, b, 1, 2);
  compare(b, a, 2, 1);
  compare(a, a, 1, 1);
  texts(1, a);
  texts(2, b);
  for (int i = 0; i < steps && a.size() && b.size(); ++i) {
    const long v = rng->in(0, 1);
    long k;
    if (rng->coin()) {
      k = rng->in(0, long(a.size()) - 1);
      *(a.begin() + k) = v;
      vt::Ev("put").n("id", 1).n("k", k + 1).n("v", v).log();
    } else {
      k = rng->in(0, long(b.size()) - 1);
      *(b.begin() + k) = v;
      vt::Ev("put").n("id", 2).n("k", k + 1).n("v", v).log();
    }
    compare(a, b, 1, 2);
    if (rng->coin(1, 4)) {
      texts(rng->coin() ? 1 : 1, a);
      texts(2, b);
    }
  }
}

template <typename TA, Kind KA, typename TB, Kind KB, Index N, std::size_t C>
void pairOf(const VI& s, const VI& t, const VI& va, const VI& vb, int steps) {
  Maker<TA, N, KA, C> ma;
  Maker<TB, N, KB, C> mb;
  auto a = ma.make(s);
  auto b = mb.make(t);
  for (std::size_t i = 0; i < a.size(); ++i) {
    *(a.begin() + i) = TA(va[i % va.size()]);
  }
  for (std::size_t i = 0; i < b.size(); ++i) {
    *(b.begin() + i) = TB(vb[i % vb.size()]);
  }
  history(a, b, steps);
}

template <Index N>
void what26dim(bool thorough) {
  const int reps = thorough ? 400 : 60;
  for (int r = 0; r < reps; ++r) {
    const int d = N == -1 ? int(rng->in(1, 4)) : int(N);
    VI s, t;
    for (int i = 0; i < d; ++i) {
      s.push_back(rng->in(r % 9 == 0 ? 0 : 1, d == 1 ? 9 : 4));
    }
    t = s;
    switch (r % 4) {
      case 0: // permuted shape, same size
        std::swap(t.front(), t.back());
        break;
      case 1: { // other shape
        t[rng->in(0, d - 1)] = rng->in(1, 5);
        break;
      }
      default:
        break;
    }
    if (N == -1 && r % 5 == 0) { // same size and other dimension
      t.push_back(1);
    }
    VI va = randVals(200, 0, r % 2 ? 1 : 9), vb = va;
    if (rng->coin(1, 3)) {
      vb[rng->in(0, std::min(long(vb.size()), std::max(1L, prod(t))) - 1)] ^= 1;
    }
    const int steps = thorough ? 12 : 5;
    pairOf<int, VEC, int, VEC, N, 6>(s, t, va, vb, steps);
    pairOf<int, VEC, int, VAL, N, 6>(s, t, va, vb, steps);
    pairOf<int, ALI, int, PTR, N, 6>(s, t, va, vb, steps);
    pairOf<double, PTR, double, PTR, N, 6>(s, t, va, vb, steps);
    pairOf<long, ALI, long, ALI, N, 6>(s, t, va, vb, steps);
    pairOf<int, VAL, double, VEC, N, 6>(s, t, va, vb, steps);
    if (prod(s) == 6 && prod(t) == 6) {
      pairOf<int, ARR, int, ARR, N, 6>(s, t, va, vb, steps);
      pairOf<int, ARR, int, VEC, N, 6>(s, t, va, vb, steps);
    }
  }
}

template <typename C>
void seqPair(C a, C b) {
  history(a, b, 6);
}

template <typename T>
void what26seq(bool thorough) {
  for (long n = 0; n <= 12; ++n) {
    for (long m = std::max(0L, n - 2); m <= n + 2; ++m) {
      auto v = typed<T>(randVals(n, 0, 5));
      auto w = v;
      w.resize(m);
      if (m && rng->coin()) {
        w[rng->in(0, m - 1)] = T(1);
      }
      seqPair(Sequence<T>(v), Sequence<T>(w));
      {
        Sequence<T, StdHolder<std::valarray<T>>> a(v), b(w);
        history(a, b, 4);
      }
      {
        Sequence<T, AlignedBuffer<T>> a(v), b(w);
        history(a, b, 4);
      }
      if (n == 5 && m == 5) {
        seqPair(Sequence<T, StdHolder<std::array<T, 5>>>(v), Sequence<T, StdHolder<std::array<T, 5>>>(w));
      }
      seqPair(Vector<T, -1>(v), Vector<T, -1>(w));
      if (n == 4 && m == 4) {
        seqPair(Vector<T, 4>(v), Vector<T, 4>(w));
      }
      if (n == 8 && m == 8) {
        seqPair(Vector<T, 8>(v), Vector<T, 8>(w));
      }
    }
  }
}

#if WHAT == 26
template <typename T>
void oddPair() {
  const long n = rng->in(0, 9);
  const long m = rng->coin(3, 4) ? n : rng->in(0, 9);
  auto real = [](auto& c) {
    UniformNoise<double> u(-1000, 1000, rng->in(0, 1000000));
    for (auto& e : c) {
      e = T(u());
    }
    formatted(c);
  };
  {
    Sequence<T> a(n), b(m);
    oddHistory(a, b);
    real(a);
  }
  {
    Sequence<T, AlignedBuffer<T>> a(n), b(m);
    oddHistory(a, b);
    real(a);
  }
  {
    Raster<T, 2> a({n, 2}), b({n, 2}), c({2, n});
    oddHistory(a, b);
    oddHistory(a, c);
    real(a);
  }
  {
    Raster<T, -1, StdHolder<std::valarray<T>>> a(Position<-1> {n, 1, 2}), b(Position<-1> {n, 2}), c(Position<-1> {n, 1, 2});
    oddHistory(a, b);
    oddHistory(a, c);
    real(a);
  }
  {
    Vector<T, 4> a {T(0), T(0), T(0), T(0)}, b(a);
    oddHistory(a, b);
    real(a);
  }
}

void what26(const vt::Args& a) {
  int job = 0;
  auto mine = [&]() {
    return job++ % a.parts == a.part;
  };
  if (mine()) {
    what26dim<1>(a.thorough);
  }
  if (mine()) {
    what26dim<2>(a.thorough);
  }
  if (mine()) {
    what26dim<3>(a.thorough);
  }
  if (mine()) {
    what26dim<-1>(a.thorough);
  }
  if (mine()) {
    what26seq<int>(a.thorough);
    what26seq<long>(a.thorough);
    what26seq<double>(a.thorough);
  }
  if (mine()) { // special values, states of streams
    for (int i = 0; i < (a.thorough ? 400 : 60); ++i) {
      oddPair<double>();
      oddPair<float>();
      oddPair<std::complex<double>>();
    }
  }
  if (mine()) { // long text
    for (long n : {0, 1, 2, 6, 7, 8, 9, 10, 50}) {
      Sequence<long> s(std::size_t(n), (const long*)nullptr);
      s.range(-3, 7);
      logCtor(1, s);
      texts(1, s);
      VecRaster<int, 2> r({n, 1});
      r.range(5, -2);
      logCtor(2, r);
      texts(2, r);
      VecRaster<int, -1> q(Position<-1> {n, 1, 2});
      q.range(1);
      logCtor(3, q);
      texts(3, q);
    }
  }
}

#endif
int main(int argc, char** argv) {
  auto a = vt::open(argc, argv);
  vt::Rng r(a.seed * 101 + a.part);
  rng = &r;
#if WHAT == 8
  what8(a);
#else
  what26(a);
#endif
  return vt::close();
}
