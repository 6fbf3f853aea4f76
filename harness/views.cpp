// C04 (WHAT=4): subrasters; C05 (WHAT=5): slices and sections.
#include "rasters.h"
#include <functional>
using namespace vt;
#ifndef WHAT
#define WHAT 4
#endif

static Rng* rng;

template <typename P>
VI vi(const P& p) {
  return VI(p.begin(), p.end());
}
static VI rv(int dim, long lo, long hi) {
  VI v;
  for (int i = 0; i < dim; ++i) {
    v.push_back(rng->in(lo, hi));
  }
  return v;
}
static void region(const VI& shape, VI& f, VI& b, bool contigBias, long m) {
  f.clear();
  b.clear();
  for (std::size_t i = 0; i < shape.size(); ++i) {
    long x = rng->in(0, shape[i] - 1);
    long y = rng->in(0, shape[i] - 1);
    if (contigBias) {
      if (long(i) < m - 1) {
        x = 0;
        y = shape[i] - 1;
      } else if (long(i) >= m) {
        y = x;
      }
    }
    f.push_back(std::min(x, y));
    b.push_back(std::max(x, y));
  }
}

static long nextId = 1;
static const void* base;
template <typename T>
long off(const T* p) {
  return long((std::intptr_t(p) - std::intptr_t(base)) / std::intptr_t(sizeof(T)));
}
template <typename T>
bool exact(const T* p) {
  return (std::intptr_t(p) - std::intptr_t(base)) % std::intptr_t(sizeof(T)) == 0;
}

// ---- operations on subrasters --------------------------------------------------------------------------------

template <typename S>
void readSub(long id, const S& s, long size, int route) {
  std::vector<typename std::remove_cv<typename S::Value>::type> vals;
  VI offs;
  bool runaway = false;
  auto guard = [&]() {
    runaway = long(vals.size()) > 2 * size + 10;
    return not runaway;
  };
  if (route == 0) {
    for (auto& v : s) {
      if (not guard()) {
        break;
      }
      vals.push_back(v);
      offs.push_back(off(&v));
    }
  } else if (route == 1) {
    auto it = begin(s);
    const auto last = end(s);
    while (it != last && guard()) {
      vals.push_back(*it.operator->());
      offs.push_back(off(&*it));
      ++it;
    }
  } else if (route == 2) {
    auto it = begin(s);
    const auto last = end(s);
    while (not(it == last) && guard()) {
      auto jt = it++;
      vals.push_back(*jt);
      auto kt = jt;
      ++kt; // goes where the other one went
      offs.push_back(kt == it ? off(jt.operator->()) : -1);
    }
  } else { // iterator outliving the one it was copied from
    std::unique_ptr<typename S::Iterator> it(new typename S::Iterator(begin(s)));
    const auto last = end(s);
    while (*it != last && guard()) {
      it.reset(new typename S::Iterator(*std::unique_ptr<typename S::Iterator>(new typename S::Iterator(*it))));
      vals.push_back(**it);
      offs.push_back(off(&**it));
      ++*it;
    }
  }
  Ev("read").n("id", id).n("route", route).b("runaway", runaway).a("vals", vals).log();
  Ev("cells").n("id", id).b("runaway", runaway).a("offs", offs).log();
}

template <typename S>
void writeSub(long id, S& s, long size) {
  typedef typename S::Value T;
  VI vals;
  bool runaway = false;
  for (auto& v : s) {
    if (long(vals.size()) > size + 5) {
      runaway = true;
      break;
    }
    vals.push_back(rng->in(0, 99));
    v = Val<T>::from(vals.back());
  }
  Ev("write").n("id", id).b("runaway", runaway).a("vals", vals).log();
}

static VI relPos(const VI& f, const VI& b) {
  VI p;
  for (std::size_t i = 0; i < f.size(); ++i) {
    p.push_back(rng->in(0, b[i] - f[i]));
  }
  return p;
}
static long count(const VI& f, const VI& b) {
  long n = 1;
  for (std::size_t i = 0; i < f.size(); ++i) {
    n *= std::max(0L, b[i] - f[i] + 1);
  }
  return n;
}

template <typename S, typename R>
long logSub(const S& s, const R& parent, long parentId, const VI& f, const VI& b) {
  const long id = ++nextId;
  Ev("sub")
      .n("id", id)
      .n("parent", parentId)
      .a("front", f)
      .a("back", b)
      .a("shape", s.shape())
      .n("size", s.size())
      .a("rfront", s.region().front())
      .a("rback", s.region().back())
      .b("sameParent", static_cast<const void*>(&s.raster()) == static_cast<const void*>(&parent))
      .log();
  return id;
}

template <typename R>
void dumpParent(const R& r) {
  Ev("read").n("id", 1).n("route", -1).b("runaway", false).a("vals", r).log();
}

template <typename R>
void subScenario(R& r, const VI& shape, int steps) {
  typedef typename R::Value T;
  constexpr Index N = R::Dimension;
  const R& c = r;
  VI f[2], b[2];
  region(shape, f[0], b[0], false, 0);
  region(shape, f[1], b[1], rng->coin(1, 4), rng->in(1, long(shape.size())));
  if (rng->coin(1, 8)) { // empty region
    b[1][rng->in(0, long(shape.size()) - 1)] = f[1][0] - 1 < -1 ? -1 : -1;
    for (std::size_t i = 0; i < shape.size(); ++i) {
      if (b[1][i] == -1) {
        f[1][i] = 0;
      }
    }
  }
  auto s0 = r.subraster(mkbox<N>(f[0], b[0]));
  auto s1 = r.subraster(mkbox<N>(f[1], b[1]));
  const auto c0 = c.subraster(mkbox<N>(f[0], b[0]));
  const auto c1 = c.subraster(mkbox<N>(f[1], b[1]));
  const long id[2] = {logSub(s0, r, 1, f[0], b[0]), logSub(s1, r, 1, f[1], b[1])};
  const long cid[2] = {logSub(c0, r, 1, f[0], b[0]), logSub(c1, r, 1, f[1], b[1])};
  for (int k = 0; k < steps; ++k) {
    const int w = int(rng->in(0, 1));
    auto& s = w ? s1 : s0;
    auto& cs = w ? c1 : c0;
    const long n = count(f[w], b[w]);
    const auto op = rng->in(0, 8);
    if (op == 0) {
      writeSub(id[w], s, n);
    } else if (op <= 2) {
      readSub(id[w], s, n, int(rng->in(0, 3)));
    } else if (op == 3) {
      readSub(cid[w], cs, n, int(rng->in(0, 3)));
    } else if (op == 4 && n > 0) {
      const auto p = relPos(f[w], b[w]);
      const long v = rng->in(0, 99);
      s[mkpos<N>(p)] = Val<T>::from(v);
      Ev("wpos").n("id", id[w]).a("pos", p).n("val", v).log();
    } else if (op == 5 && n > 0) {
      const auto p = relPos(f[w], b[w]);
      const auto& csm = s;
      Ev("rpos").n("id", id[w]).a("pos", p).n("out", rng->coin() ? s[mkpos<N>(p)] : csm[mkpos<N>(p)]).log();
      Ev("rpos").n("id", cid[w]).a("pos", p).n("out", cs[mkpos<N>(p)]).log();
    } else if (op == 6) { // write the parent
      const auto p = relPos(VI(shape.size(), 0), [&]() {
        auto q = shape;
        for (auto& e : q) {
          --e;
        }
        return q;
      }());
      const long v = rng->in(0, 99);
      (rng->coin() ? r : s.raster())[mkpos<N>(p)] = Val<T>::from(v);
      Ev("wpos").n("id", 1).a("pos", p).n("val", v).log();
    } else if (op == 7 && n > 0) { // write at some iterator
      auto it = begin(s);
      const long at = rng->in(0, n - 1);
      for (long j = 0; j < at; ++j) {
        ++it;
      }
      const long v = rng->in(0, 99);
      *it = Val<T>::from(v);
      Ev("wk").n("id", id[w]).n("k", at).n("val", v).log();
    } else {
      dumpParent(c);
    }
  }
  dumpParent(c);
}

// ---- slices and sections -------------------------------------------------------------------------------------

template <typename V>
void readView(long id, const V& v) {
  const auto route = rng->in(0, 3);
  std::vector<typename std::remove_cv<typename V::Value>::type> vals;
  VI offs;
  if (route == 0) {
    for (const auto& e : v) {
      vals.push_back(e);
      offs.push_back(off(&e));
    }
  } else if (route == 1) {
    for (std::size_t i = 0; i < v.size(); ++i) {
      vals.push_back(v[i]);
      offs.push_back(off(&v[i]));
    }
  } else {
    positions(vi(v.shape()), [&](const VI& p) {
      const auto& e = v[mkpos<V::Dimension>(p)];
      vals.push_back(e);
      offs.push_back(off(&e));
    });
  }
  Ev("read").n("id", id).n("route", route).b("runaway", false).a("vals", vals).log();
  Ev("cells").n("id", id).b("runaway", false).a("offs", offs).log();
}

template <typename V>
void writeView(long id, V& v) {
  typedef typename V::Value T;
  if (v.size() == 0) {
    return;
  }
  const long val = rng->in(0, 99);
  if (rng->coin()) {
    VI p;
    for (auto s : v.shape()) {
      p.push_back(rng->in(0, s - 1));
    }
    v[mkpos<V::Dimension>(p)] = Val<T>::from(val);
    Ev("wpos").n("id", id).a("pos", p).n("val", val).log();
  } else if (rng->coin()) {
    const long k = rng->in(0, long(v.size()) - 1);
    v[k] = Val<T>::from(val);
    Ev("wk").n("id", id).n("k", k).n("val", val).log();
  } else {
    VI vals;
    for (auto& e : v) {
      vals.push_back(rng->in(0, 99));
      e = Val<T>::from(vals.back());
    }
    Ev("write").n("id", id).b("runaway", false).a("vals", vals).log();
  }
}

template <typename V>
void logSection(const char* op, const V& v, long id, long parent, long lo, long hi) {
  Ev(op).n("id", id).n("parent", parent).n("lo", lo).n("hi", hi).a("shape", v.shape()).n("size", v.size()).n("off", off(v.data())).log();
}

/// Recursive sections down to dimension 1, interleaved with writes
template <typename R, Index N = R::Dimension>
struct Sections {
  static void run(R& r, long parentId, int depth) {
    const R& c = r;
    const long len = r.length(r.dimension() - 1);
    const long lo = rng->in(0, len - 1);
    const long hi = rng->in(lo, len - 1);
    {
      auto s = r.section(lo, hi);
      const long id = ++nextId;
      logSection("section", s, id, parentId, lo, hi);
      readView(id, s);
      writeView(id, s);
      writeView(parentId, r);
      readView(id, s);
      readView(parentId, c);
      if (depth > 0) {
        Sections<decltype(s)>::run(s, id, depth - 1);
      }
      auto cs = c.section(lo, hi);
      const long cid = ++nextId;
      logSection("section", cs, cid, parentId, lo, hi);
      readView(cid, cs);
    }
    sub(r, c, parentId, depth, std::integral_constant<bool, (N > 1)> {}, std::integral_constant<bool, (N == -1)> {});
  }
  static void sub(R&, const R&, long, int, std::false_type, std::false_type) {}
  template <typename V>
  static void sub(R& r, const R& c, long parentId, int depth, std::false_type, V) {
    if (r.dimension() > 1) {
      sub(r, c, parentId, depth, std::true_type {}, std::false_type {});
    }
  }
  static void sub(R& r, const R& c, long parentId, int depth, std::true_type, std::false_type) {
    const long i = rng->in(0, r.length(r.dimension() - 1) - 1);
    auto s = r.section(i);
    const long id = ++nextId;
    logSection("section1", s, id, parentId, i, i);
    writeView(id, s);
    readView(id, s);
    readView(parentId, c);
    auto cs = c.section(i);
    const long cid = ++nextId;
    logSection("section1", cs, cid, parentId, i, i);
    readView(cid, cs);
    if (depth > 0) {
      Sections<decltype(s)>::run(s, id, depth - 1);
    }
  }
};
template <typename R>
struct Sections<R, 0> {
  static void run(R&, long, int) {}
};

template <Index M, typename R>
void sliceOne(R& r, long parentId, const VI& f, const VI& b, bool deep) {
  constexpr Index N = R::Dimension;
  const R& c = r;
  const auto box = mkbox<N>(f, b);
  for (int k = 0; k < 2; ++k) { // mutable then const
    bool threw = false;
    const bool contig = c.template isContiguous<M>(box);
    const long id = ++nextId;
    Ev e("slice");
    e.n("id", id).n("parent", parentId).n("m", M).a("front", f).a("back", b).b("contig", contig);
    try {
      if (k == 0) {
        auto s = r.template slice<M>(box);
        e.b("threw", false).a("shape", s.shape()).n("size", s.size()).n("off", off(s.data())).log();
        if (deep) {
          readView(id, s);
          writeView(id, s);
          readView(parentId, c);
          if (rng->coin()) {
            Sections<decltype(s)>::run(s, id, 0);
          }
        }
      } else {
        auto s = c.template slice<M>(box);
        e.b("threw", false).a("shape", s.shape()).n("size", s.size()).n("off", off(s.data())).log();
        if (deep) {
          readView(id, s);
        }
      }
    } catch (Litl::Exception&) {
      e.b("threw", true).log();
    }
  }
}

template <Index M, Index Max, typename R>
struct AllM {
  static void slices(R& r, const VI& f, const VI& b, bool deep, int m) {
    if (M <= r.dimension() && (m == -1 || m == M)) {
      sliceOne<M>(r, 1, f, b, deep);
    }
    AllM<M + 1, Max, R>::slices(r, f, b, deep, m);
  }
};
template <Index Max, typename R>
struct AllM<Max, Max, R> {
  static void slices(R& r, const VI& f, const VI& b, bool deep, int m) {
    if (Max <= r.dimension() && (m == -1 || m == Max)) {
      sliceOne<Max>(r, 1, f, b, deep);
    }
  }
};

template <typename T, Index N, Kind K, std::size_t C = 0>
struct Scenario {
  Maker<T, N, K, C> maker;
  typedef typename Maker<T, N, K, C>::R R;
  void with(const VI& shape, const std::function<void(R&)>& f) {
    auto r = maker.make(shape);
    base = r.data();
    nextId = 1;
    VI vals;
    for (long i = 0; i < prod(shape); ++i) {
      vals.push_back((i * 3 + rng->in(0, 2)) % 100);
      r.data()[i] = Val<T>::from(vals.back());
    }
    Ev("parent").n("id", 1).a("shape", shape).a("vals", vals).log();
    f(r);
  }
  void subs(const VI& shape, int steps) {
    with(shape, [&](R& r) {
      subScenario(r, shape, steps);
    });
  }
  /// Every region of the shape
  void allSubs(const VI& shape, int keep) {
    with(shape, [&](R& r) {
      forAll(VI(shape.size(), 0), maxPos(shape), [&](const VI& f) {
        forAll(f, maxPos(shape), [&](const VI& b) {
          if (keep > 1 && rng->in(1, keep) > 1) {
            return;
          }
          if (rng->coin()) {
            auto s = r.subraster(mkbox<N>(f, b));
            readSub(logSub(s, r, 1, f, b), s, count(f, b), int(rng->in(0, 3)));
          } else {
            const R& c = r;
            auto s = c.subraster(mkbox<N>(f, b));
            readSub(logSub(s, r, 1, f, b), s, count(f, b), int(rng->in(0, 3)));
          }
        });
      });
    });
  }
  static VI maxPos(VI s) {
    for (auto& e : s) {
      --e;
    }
    return s;
  }
  void allSlices(const VI& shape, int keep) {
    with(shape, [&](R& r) {
      forAll(VI(shape.size(), 0), maxPos(shape), [&](const VI& f) {
        forAll(f, maxPos(shape), [&](const VI& b) {
          if (keep > 1 && rng->in(1, keep) > 1) {
            return;
          }
          AllM<1, (N == -1 ? 4 : N), R>::slices(r, f, b, false, -1);
        });
      });
    });
  }
  void slices(const VI& shape, int n) {
    with(shape, [&](R& r) {
      for (int k = 0; k < n; ++k) {
        VI f, b;
        const long m = rng->in(1, long(shape.size()));
        region(shape, f, b, rng->coin(3, 4), m);
        AllM<1, (N == -1 ? 4 : N), R>::slices(r, f, b, true, int(m));
        if (m > 1) { // Full lengths, yet out of the domain: refused
          const auto k = rng->in(0, m - 2);
          const long by = rng->coin() ? 1 : -1;
          f[k] = by;
          b[k] = shape[k] - 1 + by;
          AllM<1, (N == -1 ? 4 : N), R>::slices(r, f, b, false, int(m));
        }
      }
      Sections<R>::run(r, 1, 3);
      readView(1, r);
    });
  }
};

int main(int argc, char** argv) {
  const auto a = open(argc, argv);
  rng = new Rng(a.seed * 100 + a.part);
  const int th = a.thorough ? 5 : 1;
#if WHAT == 4
  if (a.part == 0) {
    Scenario<int, 1, VEC>().allSubs({5}, 1);
    Scenario<int, 2, VEC>().allSubs({3, 4}, 1);
    Scenario<int, 2, VEC>().allSubs({1, 3}, 1);
  } else if (a.part == 1) {
    Scenario<float, -1, VEC>().allSubs({4}, 1);
    Scenario<float, -1, VEC>().allSubs({4, 3}, 1);
    Scenario<float, -1, VEC>().allSubs({2, 2, 2}, 1);
  } else if (a.part == 2) {
    Scenario<short, 3, ALI>().allSubs({3, 2, 3}, 1);
  } else {
    Scenario<double, 4, VEC>().allSubs({2, 3, 2, 2}, 4);
    Scenario<int, 3, VEC>().allSubs({1, 3, 1}, 1);
  }
  for (int k = 0; k < 6 * th; ++k) {
    Scenario<int, 1, VEC>().subs({rng->in(1, 9)}, 25);
    Scenario<int, 2, VEC>().subs(rv(2, 1, 6), 30);
    Scenario<float, 3, VEC>().subs(rv(3, 1, 4), 30);
    Scenario<unsigned char, 2, PTR>().subs(rv(2, 1, 6), 25);
    Scenario<double, 3, ALI>().subs(rv(3, 1, 4), 25);
    Scenario<std::complex<float>, 2, VAL>().subs(rv(2, 1, 5), 25);
    Scenario<int, 4, VEC>().subs(rv(4, 1, 3), 25);
    Scenario<int, 5, VEC>().subs(rv(5, 1, 3), 15);
    Scenario<int, -1, VEC>().subs(rv(int(rng->in(1, 4)), 1, 3), 25);
    Scenario<float, -1, PTR>().subs(rv(3, 1, 4), 25);
    Scenario<int, 2, ARR, 12>().subs({4, 3}, 25);
  }
#else
  if (a.part == 0) {
    Scenario<int, 1, VEC>().allSlices({4}, 1);
    Scenario<int, 2, VEC>().allSlices({3, 3}, 1);
    Scenario<int, 2, VEC>().allSlices({1, 3}, 1);
    Scenario<int, 2, VEC>().allSlices({3, 1}, 1);
  } else if (a.part == 1) {
    Scenario<float, 3, ALI>().allSlices({2, 3, 2}, 1);
    Scenario<float, 3, VEC>().allSlices({2, 1, 3}, 1);
  } else if (a.part == 2) {
    Scenario<int, -1, VEC>().allSlices({3, 3}, 1);
    Scenario<int, -1, VEC>().allSlices({2, 2, 3}, 1);
    Scenario<int, -1, VEC>().allSlices({5}, 1);
  } else {
    Scenario<short, 4, PTR>().allSlices({2, 2, 2, 2}, 2);
    Scenario<short, -1, VEC>().allSlices({2, 2, 2, 2}, 4);
  }
  for (int k = 0; k < 6 * th; ++k) {
    Scenario<int, 1, VEC>().slices({rng->in(1, 9)}, 6);
    Scenario<int, 2, VEC>().slices(rv(2, 1, 6), 8);
    Scenario<float, 3, VEC>().slices(rv(3, 1, 4), 8);
    Scenario<unsigned char, 2, PTR>().slices(rv(2, 1, 6), 8);
    Scenario<double, 3, ALI>().slices(rv(3, 1, 4), 8);
    Scenario<std::complex<float>, 2, VAL>().slices(rv(2, 1, 5), 8);
    Scenario<int, 4, VEC>().slices(rv(4, 1, 3), 8);
    Scenario<int, 5, VEC>().slices(rv(5, 1, 3), 8);
    Scenario<int, -1, VEC>().slices(rv(int(rng->in(1, 4)), 1, 4), 8);
    Scenario<float, -1, ALI>().slices(rv(3, 1, 4), 8);
    Scenario<int, 2, ARR, 12>().slices({4, 3}, 8);
  }
#endif
  return vt::close();
}
