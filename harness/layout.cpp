// C01, C02: storage layout and checked access. WHAT=1 or 2 selects the emphasis.
#include "rasters.h"
#ifndef WHAT
#define WHAT 1
#endif
using namespace vt;

static Rng* rng;
static long nextId = 0;

template <typename R, int I, int N>
struct LenI {
  static void get(const R& r, VI& out) {
    out.push_back(r.template length<I>());
    LenI<R, I + 1, N>::get(r, out);
  }
};
template <typename R, int N>
struct LenI<R, N, N> {
  static void get(const R&, VI&) {}
};
template <typename R, bool Fixed>
struct Lens {
  static VI get(const R& r) {
    VI out;
    LenI<R, 0, R::Dimension>::get(r, out);
    return out;
  }
};
template <typename R>
struct Lens<R, false> {
  static VI get(const R& r) {
    VI out;
    for (Index i = 0; i < r.dimension(); ++i) {
      out.push_back(r.length(i));
    }
    return out;
  }
};

template <typename R>
long logNew(const R& r, const VI& shape, const VI& vals) {
  const long id = ++nextId;
  VI lens, strides;
  for (std::size_t i = 0; i < shape.size(); ++i) {
    lens.push_back(r.length(Index(i)));
    strides.push_back(Litl::shapeStride(r.shape(), Index(i)));
  }
  const auto d = r.domain();
  Ev("new")
      .n("id", id)
      .a("shape", shape)
      .a("vals", vals)
      .n("size", r.size())
      .a("oshape", r.shape())
      .n("dim", r.dimension())
      .a("lens", lens)
      .a("lensI", Lens<R, (R::Dimension > 0)>::get(r))
      .a("strides", strides)
      .a("domFront", d.front())
      .a("domBack", d.back())
      .log();
  return id;
}

template <typename R>
void dumps(long id, const VI& shape, R& r, int which) {
  const R& c = r;
  typedef typename R::Value T;
  constexpr Index N = R::Dimension;
  std::vector<T> v;
  auto out = [&](const char* route) {
    Ev("dump").n("id", id).s("route", route).a("vals", v).log();
    v.clear();
  };
  switch (which) {
    case 0:
      positions(shape, [&](const VI& p) {
        v.push_back(c[mkpos<N>(p)]);
      });
      return out("cpos");
    case 1:
      positions(shape, [&](const VI& p) {
        v.push_back(r[mkpos<N>(p)]);
      });
      return out("pos");
    case 2:
      for (std::size_t i = 0; i < c.size(); ++i) {
        v.push_back(c[i]);
      }
      return out("cidx");
    case 3:
      for (std::size_t i = 0; i < r.size(); ++i) {
        v.push_back(r[i]);
      }
      return out("idx");
    case 4:
      for (const auto& e : c) {
        v.push_back(e);
      }
      return out("citer");
    case 5:
      for (auto& e : r) {
        v.push_back(e);
      }
      return out("iter");
    case 6:
      v.assign(c.data(), c.data() + c.size());
      return out("cdata");
    case 7:
      v.assign(r.data(), r.data() + r.size());
      return out("data");
    case 8:
      v.assign(r.cbegin(), r.cend());
      return out("cbegin");
    case 9:
      positions(shape, [&](const VI& p) {
        v.push_back(c.at(mkpos<N>(p)));
      });
      return out("cat");
    case 10: // first and last shortcuts around the middle
      if (c.size() == 0) {
        return out("frontback");
      }
      v.push_back(c.front());
      for (std::size_t i = 1; i + 1 < c.size(); ++i) {
        v.push_back(c[i]);
      }
      if (c.size() > 1) {
        v.push_back(c.back());
      }
      return out("frontback");
    default:
      for (auto p : c.domain()) {
        v.push_back(c[p]);
      }
      return out("domain");
  }
}
static const int NDUMPS = 12;

template <typename R>
void writeOne(long id, const VI& shape, R& r) {
  typedef typename R::Value T;
  constexpr Index N = R::Dimension;
  const long n = prod(shape);
  if (n == 0) {
    return;
  }
  const long val = rng->in(0, 99);
  VI p;
  long idx = rng->in(0, n - 1);
  long rest = idx;
  for (auto s : shape) {
    p.push_back(rest % s);
    rest /= s;
  }
  switch (rng->in(0, 7)) {
    case 0:
      r[mkpos<N>(p)] = Val<T>::from(val);
      Ev("wpos").n("id", id).a("pos", p).n("val", val).log();
      break;
    case 1:
      r[idx] = Val<T>::from(val);
      Ev("widx").n("id", id).n("idx", idx).n("val", val).log();
      break;
    case 2:
      r.data()[idx] = Val<T>::from(val);
      Ev("widx").n("id", id).n("idx", idx).n("val", val).log();
      break;
    case 3:
      *(r.begin() + idx) = Val<T>::from(val);
      Ev("widx").n("id", id).n("idx", idx).n("val", val).log();
      break;
    case 4:
      r.at(mkpos<N>(p)) = Val<T>::from(val);
      Ev("wpos").n("id", id).a("pos", p).n("val", val).log();
      break;
    case 5:
      r.front() = Val<T>::from(val);
      Ev("widx").n("id", id).n("idx", 0).n("val", val).log();
      break;
    case 6:
      r.back() = Val<T>::from(val);
      Ev("widx").n("id", id).n("idx", n - 1).n("val", val).log();
      break;
    default:
      r[std::size_t(r.index(mkpos<N>(p)))] = Val<T>::from(val);
      Ev("wpos").n("id", id).a("pos", p).n("val", val).log();
      break;
  }
}

template <typename R>
void atOne(long id, const R& r, const VI& p) {
  constexpr Index N = R::Dimension;
  bool threw = false;
  long out = 0;
  try {
    out = inum(r.at(mkpos<N>(p)));
  } catch (Litl::OutOfBoundsError&) {
    threw = true;
  }
  Ev("atpos").n("id", id).a("pos", p).b("threw", threw).n("out", out).log();
}

/// Access, by each operator, at positions of another dimension than that of the raster
template <typename R>
void badDimensions(long id, const VI& shape, R& r) {
  typedef typename R::Value T;
  constexpr Index N = R::Dimension;
  const R& c = r;
  for (std::size_t d = 0; d <= shape.size() + 2; ++d) {
    if (d == shape.size()) {
      continue;
    }
    for (int route = 0; route < 5; ++route) {
      VI p(d);
      for (auto& e : p) {
        e = rng->in(route < 3 ? -1 : 0, 1);
      }
      bool threw = false;
      try {
        switch (route) {
          case 0:
            (void)inum(c.at(mkpos<N>(p)));
            break;
          case 1:
            (void)inum(r.at(mkpos<N>(p)));
            break;
          case 2:
            r.at(mkpos<N>(p)) = Val<T>::from(77);
            break;
          case 3:
            (void)inum(c[mkpos<N>(p)]);
            break;
          default:
            r[mkpos<N>(p)] = Val<T>::from(77);
        }
      } catch (Litl::Exception&) {
        threw = true;
      }
      Ev("indexBad").n("id", id).a("pos", p).b("threw", threw).log();
    }
  }
}

template <typename R>
void checked(long id, const VI& shape, R& r) {
  typedef typename R::Value T;
  constexpr Index N = R::Dimension;
  const R& c = r;
  const long n = prod(shape);
  // 1D sweeps, const and mutable
  for (int m = 0; m < 2; ++m) {
    std::vector<VI> outs;
    const long lo = -n - 3;
    for (long i = lo; i <= n + 2; ++i) {
      try {
        outs.push_back({0, m ? inum(r.at(i)) : inum(c.at(i))});
      } catch (Litl::OutOfBoundsError&) {
        outs.push_back({1, 0});
      }
    }
    Ev("atsweep").n("id", id).n("lo", lo).aa("outs", outs).log();
  }
  // Position sweeps
  VI lo, hi;
  double vol = 1;
  for (auto s : shape) {
    lo.push_back(-s - 1);
    hi.push_back(s);
    vol *= 2 * s + 2;
  }
  if (vol <= 3000) {
    const int m = int(rng->in(0, 1));
    std::vector<VI> outs;
    forAll(lo, hi, [&](const VI& p) {
      try {
        outs.push_back({0, m ? inum(r.at(mkpos<N>(p))) : inum(c.at(mkpos<N>(p)))});
      } catch (Litl::OutOfBoundsError&) {
        outs.push_back({1, 0});
      }
    });
    Ev("atpossweep").n("id", id).a("lo", lo).a("hi", hi).aa("outs", outs).log();
  }
  for (int k = 0; k < 12; ++k) {
    VI p;
    for (auto s : shape) {
      p.push_back(
          s == 0 || rng->coin(1, 6) ? (rng->coin() ? rng->in(s, s + 5) : rng->in(-s - 5, -s - 1)) : rng->in(-s, s - 1));
    }
    const long val = rng->in(0, 99);
    if (k % 2) {
      atOne(id, r, p);
    } else {
      bool threw = false;
      try {
        r.at(mkpos<N>(p)) = Val<T>::from(val);
      } catch (Litl::OutOfBoundsError&) {
        threw = true;
      }
      Ev("watpos").n("id", id).a("pos", p).n("val", val).b("threw", threw).log();
    }
  }
  for (int k = 0; k < 4; ++k) {
    const long i = rng->in(-n - 2, n + 1);
    const long val = rng->in(0, 99);
    bool threw = false;
    try {
      r.at(i) = Val<T>::from(val);
    } catch (Litl::OutOfBoundsError&) {
      threw = true;
    }
    Ev("wat").n("id", id).n("idx", i).n("val", val).b("threw", threw).log();
  }
  if (N == -1) {
    badDimensions(id, shape, r);
  }
  dumps(id, shape, r, int(rng->in(0, NDUMPS - 1)));
}

template <typename R, typename M>
void exercise(M& maker, const VI& shape) {
  typedef typename R::Value T;
  constexpr Index N = R::Dimension;
  auto r = maker.make(shape);
  const long n = prod(shape);
  VI vals;
  for (long i = 0; i < n; ++i) {
    vals.push_back((i * 7 + rng->in(0, 6)) % 100);
    r.data()[i] = Val<T>::from(vals.back());
  }
  const long id = logNew(r, shape, vals);
#if WHAT == 1
  VI idx;
  positions(shape, [&](const VI& p) {
    idx.push_back(r.index(mkpos<N>(p)));
  });
  Ev("indexAll").n("id", id).a("out", idx).log();
  for (int k = 0; k < NDUMPS; ++k) {
    dumps(id, shape, r, k);
  }
  for (int k = 0; k < 6; ++k) {
    writeOne(id, shape, r);
    if (k % 2) {
      dumps(id, shape, r, int(rng->in(0, NDUMPS - 1)));
    }
  }
  if (N == -1) {
    for (std::size_t d = 0; d <= shape.size() + 2; ++d) {
      VI p(d, 0);
      bool threw = false;
      long out = 0;
      try {
        out = r.index(mkpos<N>(p));
      } catch (Litl::Exception&) {
        threw = true;
      }
      if (d == shape.size()) {
        Ev("index").n("id", id).a("pos", p).b("threw", threw).n("out", out).log();
      } else {
        Ev("indexBad").n("id", id).a("pos", p).b("threw", threw).log();
      }
    }
    badDimensions(id, shape, r);
  }
  for (int k = 0; k < 4; ++k) {
    VI p2;
    Litl::Vector<double, N> p(N == -1 ? double(shape.size()) : double(N));
    Litl::Position<N> q(N == -1 ? long(shape.size()) : long(N));
    const bool integral = rng->coin();
    const bool inside = rng->coin();
    for (std::size_t i = 0; i < shape.size(); ++i) {
      long v = inside && shape[i] > 0 ? rng->in(0, 2 * shape[i] - 1) : rng->in(-2, 2 * shape[i] + 1);
      if (integral) {
        v = v / 2 * 2;
      }
      p2.push_back(v);
      p.data()[i] = v / 2.0;
      q.data()[i] = v / 2;
    }
    Ev("contains").n("id", id).a("pos2", p2).b("out", integral ? r.contains(q) : r.contains(p)).log();
  }
#else
  checked(id, shape, r);
#endif
  Ev("drop").n("id", id).log();
}

template <Index N>
VI limbs(unsigned long v) {
  VI out;
  while (v) {
    out.push_back(v % 4096);
    v /= 4096;
  }
  return out;
}

template <Index N>
void big(VI shape) {
  static char dummy;
  const Litl::PtrRaster<char, N> r(mkpos<N>(shape), &dummy);
  VI p;
  for (auto s : shape) {
    p.push_back(rng->coin(1, 3) ? s - 1 : rng->in(0, s - 1));
  }
  const auto idx = r.index(mkpos<N>(p));
  const char* ptr = &r[mkpos<N>(p)];
  Ev("big")
      .a("shape", shape)
      .a("pos", p)
      .a("index", limbs<N>(idx))
      .a("size", limbs<N>(r.size()))
      .a("offset", limbs<N>(std::uintptr_t(ptr) - std::uintptr_t(&dummy)))
      .log();
}

template <typename T, Index N, Kind K>
void shapes(int dim, long maxLen, int part, int parts, int keep, int& count) {
  VI lo(dim, 1), hi(dim, maxLen);
  Maker<T, N, K> m;
  forAll(lo, hi, [&](const VI& s) {
    if (prod(s) > 150) {
      return;
    }
    if (count++ % parts == part && (keep == 1 || rng->in(1, keep) == 1)) {
      exercise<typename Maker<T, N, K>::R>(m, s);
    }
  });
}

template <typename T, Index N, std::size_t C>
void arr(const VI& s) {
  Maker<T, N, ARR, C> m;
  exercise<typename Maker<T, N, ARR, C>::R>(m, s);
}

/// Rasters without pixels
template <Kind K, Index N>
void empties(const VI& s) {
  Maker<int, N, K> m;
  exercise<typename Maker<int, N, K>::R>(m, s);
}

template <Index N, Kind K, typename T>
void randoms(int count, int dim, long maxLen) {
  Maker<T, N, K> m;
  for (int k = 0; k < count; ++k) {
    VI s;
    do {
      s.clear();
      for (int i = 0; i < dim; ++i) {
        s.push_back(rng->in(1, maxLen));
      }
    } while (prod(s) > 300);
    exercise<typename Maker<T, N, K>::R>(m, s);
  }
}

int main(int argc, char** argv) {
  const auto a = open(argc, argv);
  rng = new Rng(a.seed * 100 + a.part);
  int c = 0;
  const int k = a.thorough ? 1 : 3;
  shapes<int, 1, VEC>(1, 8, a.part, a.parts, 1, c);
  shapes<int, 2, VEC>(2, 5, a.part, a.parts, 1, c);
  shapes<int, 3, VEC>(3, 4, a.part, a.parts, k, c);
  shapes<int, 4, VEC>(4, 3, a.part, a.parts, k, c);
  shapes<float, -1, VEC>(1, 6, a.part, a.parts, 1, c);
  shapes<float, -1, VEC>(2, 4, a.part, a.parts, 1, c);
  shapes<float, -1, VEC>(3, 3, a.part, a.parts, 1, c);
  shapes<float, -1, VEC>(4, 3, a.part, a.parts, k, c);
  shapes<unsigned char, 2, PTR>(2, 4, a.part, a.parts, 1, c);
  shapes<double, 3, ALI>(3, 3, a.part, a.parts, 1, c);
  shapes<long, -1, ALI>(3, 3, a.part, a.parts, k, c);
  shapes<std::complex<double>, 2, VAL>(2, 4, a.part, a.parts, 1, c);
  shapes<short, 3, VAL>(3, 3, a.part, a.parts, k, c);
  shapes<int, -1, PTR>(2, 4, a.part, a.parts, k, c);
  const int n = a.thorough ? 30 : 4;
  randoms<5, VEC, int>(n, 5, 4);
  randoms<6, VEC, float>(n, 6, 3);
  randoms<-1, VEC, int>(n, 5, 4);
  randoms<-1, PTR, double>(n, 6, 3);
  randoms<2, VEC, std::uint16_t>(n, 2, 17);
  randoms<3, ALI, float>(n, 3, 7);
  randoms<1, VAL, int>(n, 1, 300);
  empties<VEC, 1>({0});
  { // No dimension at all
    const Litl::Raster<int, -1> none(Litl::Position<-1>(0));
    logNew(none, {}, {});
    const Litl::Raster<double, -1> made(Litl::Position<-1>(std::vector<Index> {}));
    logNew(made, {}, {});
    const Litl::AlignedRaster<float, -1> aligned(Litl::Position<-1>(0));
    logNew(aligned, {}, {});
  }
  for (const VI& e : {VI {0, 0}, VI {0, 3}, VI {2, 0}}) {
    empties<VEC, 2>(e);
    empties<ALI, 2>(e);
    empties<PTR, -1>(e);
  }
  for (const VI& e : {VI {2, 0, 3}, VI {0, 1, 2}, VI {3, 2, 0}}) {
    empties<ALI, 3>(e);
    empties<VEC, -1>(e);
  }
  arr<int, 2, 12>({3, 4});
  arr<int, 2, 12>({12, 1});
  arr<int, 2, 12>({2, 6});
  arr<float, 3, 24>({4, 3, 2});
  arr<float, 3, 24>({1, 4, 6});
  arr<char, -1, 24>({2, 3, 4});
  arr<char, -1, 24>({24});
#if WHAT == 1
  for (int j = 0; j < (a.thorough ? 60 : 15); ++j) {
    big<1>({rng->in(1, 2000000000)});
    big<2>({rng->in(40000, 100000), rng->in(40000, 100000)});
    big<3>({rng->in(1000, 50000), rng->in(1000, 50000), rng->in(1, 5000)});
    big<4>({rng->in(1, 3000), rng->in(1, 3000), rng->in(1, 3000), rng->in(1, 3000)});
    big<5>({rng->in(1, 300), rng->in(1, 3000), rng->in(1, 300), rng->in(1, 300), rng->in(1, 300)});
    big<-1>({rng->in(40000, 100000), rng->in(40000, 100000)});
    big<-1>({rng->in(1000, 50000), rng->in(1000, 50000), rng->in(1, 5000)});
    big<-1>({rng->in(1, 300), rng->in(1, 300), rng->in(1, 300), rng->in(1, 300), rng->in(1, 300)});
  }
#endif
  return vt::close();
}
