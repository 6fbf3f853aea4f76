// C03 (WHAT=3): box iteration; C11 (WHAT=11): box algebra; C12 (WHAT=12): balls.
#include "LitlRaster/Ball.h"
#include "rasters.h"
using namespace vt;
#ifndef WHAT
#define WHAT 3
#endif

static Rng* rng;

/// Where regions are: positions are logged relative to an offset, which may be far beyond 32 bits and the digits of doubles
static VI offset;
template <typename P>
VI vi(const P& p) {
  VI out(p.begin(), p.end());
  for (std::size_t k = 0; k < out.size() && k < offset.size(); ++k) {
    out[k] -= offset[k];
  }
  return out;
}
template <Index N>
Litl::Position<N> there(const VI& v) {
  VI out(v);
  for (std::size_t k = 0; k < out.size() && k < offset.size(); ++k) {
    out[k] += offset[k];
  }
  return mkpos<N>(out);
}
template <Index N>
Litl::Box<N> boxThere(const VI& f, const VI& b) {
  return {there<N>(f), there<N>(b)};
}
static void goFar(int dim) {
  offset.clear();
  for (int k = 0; k < dim; ++k) {
    const long far = (1L << rng->in(8, 61)) + rng->in(-3, 3);
    offset.push_back(rng->coin(1, 4) ? 0 : rng->coin() ? far : -far);
  }
}
static void goBack() {
  offset.clear();
}

static long expectedCount(const VI& f, const VI& b) {
  long n = 1;
  for (std::size_t i = 0; i < f.size(); ++i) {
    n *= std::max(0L, b[i] - f[i] + 1);
  }
  return n;
}

template <Index N>
void iterBox(const VI& f, const VI& b, int route) {
  const auto box = boxThere<N>(f, b);
  const long limit = 3 * expectedCount(f, b) + 20;
  std::vector<VI> seq;
  bool runaway = false;
  long count = 0;
  auto guard = [&]() {
    runaway = ++count > limit;
    return not runaway;
  };
  switch (route) {
    case 0:
      for (const auto& p : box) {
        if (not guard()) {
          break;
        }
        seq.push_back(vi(p));
      }
      break;
    case 1: {
      auto it = begin(box);
      const auto last = end(box);
      while (it != last && guard()) {
        seq.push_back(vi(*it));
        ++it;
      }
      break;
    }
    case 2: {
      auto it = begin(box);
      const auto last = end(box);
      while (not(it == last) && guard()) {
        const auto p = *it++;
        seq.push_back(vi(p));
      }
      break;
    }
    case 3: { // reset half way
      auto it = begin(box);
      const auto last = end(box);
      for (int k = 0; k < 3 && it != last; ++k) {
        ++it;
      }
      it.reset();
      while (it != last && guard()) {
        seq.push_back(vi(Litl::Position<N>(*it.operator->())));
        ++it;
      }
      break;
    }
    case 4: { // what post-incrementation returns can be incremented as well
      auto it = begin(box);
      const auto last = end(box);
      while (it != last && guard()) {
        auto old = it++;
        seq.push_back(vi(*old));
        ++old;
        it = old;
      }
      break;
    }
    case 5: { // copies of iterators walk independently
      auto it = begin(box);
      const auto last = end(box);
      while (it != last && guard()) {
        auto jt = it;
        seq.push_back(vi(*jt));
        ++jt;
        it = jt;
      }
      break;
    }
    default: { // iterators taken from a temporary box
      auto it = begin(boxThere<N>(f, b));
      const auto last = end(boxThere<N>(f, b));
      for (; it != last && guard(); ++it) {
        seq.push_back(vi(*it));
      }
      break;
    }
  }
  Ev("iterBox").a("front", f).a("back", b).n("route", route).b("runaway", runaway).aa("seq", seq).n("size", box.size()).log();
}

template <Index N>
void boxes(int dim, long lo, long hi, long blo, long bhi, const vt::Args& a, int keep, int& c) {
  VI l(dim, lo), h(dim, hi), bl(dim, blo), bh(dim, bhi);
  forAll(l, h, [&](const VI& f) {
    forAll(bl, bh, [&](const VI& len) {
      if (c++ % a.parts != a.part || (keep > 1 && rng->in(1, keep) > 1)) {
        return;
      }
      VI b(f);
      for (std::size_t i = 0; i < b.size(); ++i) {
        b[i] += len[i] - 1;
      }
      iterBox<N>(f, b, int(rng->in(0, 6)));
    });
  });
}

template <Index N>
void randomBoxes(int dim, int n, long maxLen, long minLen = 1) {
  for (int k = 0; k < n; ++k) {
    VI f, b;
    do {
      f.clear();
      b.clear();
      for (int i = 0; i < dim; ++i) {
        f.push_back(rng->in(-20, 20));
        b.push_back(f.back() + rng->in(minLen, maxLen) - 1);
      }
    } while (expectedCount(f, b) > 250);
    if (k % 2) {
      goFar(dim);
    }
    iterBox<N>(f, b, int(rng->in(0, 6)));
    goBack();
  }
}

template <Index N>
void domain(const VI& shape) {
  Litl::VecRaster<int, N> r(mkpos<N>(shape));
  for (std::size_t i = 0; i < r.size(); ++i) {
    r[i] = int(i);
  }
  std::vector<VI> seq;
  VI idx;
  bool runaway = false;
  for (const auto& p : r.domain()) {
    if (long(seq.size()) > prod(shape) + 10) {
      runaway = true;
      break;
    }
    seq.push_back(vi(p));
    idx.push_back(r.index(p) >= 0 && std::size_t(r.index(p)) < r.size() ? r[p] : -1);
  }
  Ev("domainVisit").a("shape", shape).aa("seq", seq).a("idx", idx).b("runaway", runaway).b("empty", r.emtpy()).log();
}

/// Random histories over several cursors of the same region
template <typename TRegion>
void cursors(const TRegion& region, long size, int steps) {
  typedef typename TRegion::Iterator It;
  std::vector<It> it;
  std::vector<long> k; // where the cursor should be: only used to stay within bounds
  for (int c = 0; c < 3; ++c) {
    it.push_back(begin(region));
    k.push_back(0);
    Ev("begin").n("c", c).n("r", 1).log();
  }
  for (int s = 0; s < steps; ++s) {
    const int c = int(rng->in(0, 2));
    const int d = int(rng->in(0, 2));
    switch (rng->in(0, 9)) {
      case 0:
        it[c] = begin(region);
        k[c] = 0;
        Ev("begin").n("c", c).n("r", 1).log();
        break;
      case 1:
        if (rng->coin(1, 3)) {
          it[c] = end(region);
          k[c] = size;
          Ev("endc").n("c", c).n("r", 1).log();
        }
        break;
      case 2:
        it[d] = it[c];
        k[d] = k[c];
        Ev("copy").n("c", c).n("d", d).log();
        break;
      case 3:
      case 4:
      case 5:
        if (k[c] < size) {
          const auto p = *++it[c]; // dereferenceable whatever the position
          ++k[c];
          Ev("pre").n("c", c).a("at", vi(p)).log();
        }
        break;
      case 6:
      case 7:
        if (k[c] < size) {
          const auto p = *it[c]++;
          ++k[c];
          Ev("post").n("c", c).a("at", vi(p)).log();
        }
        break;
      case 8:
        if (k[c] < size) {
          Ev("deref").n("c", c).a("at", vi(*it[c])).n("x0", (*(it[c].operator->()))[0] - (offset.empty() ? 0 : offset[0])).log();
        }
        break;
      default:
        Ev("eq").n("c", c).n("d", d).b("eq", it[c] == it[d]).b("ne", it[c] != it[d]).log();
    }
  }
}

/// ++it returns the position, not the iterator: a wrapper to write *++it
template <typename TIt>
struct Pre {};

template <Index N>
struct BoxCursor : Litl::Box<N> { // gives cursors() a uniform interface
  explicit BoxCursor(const Litl::Box<N>& b) : Litl::Box<N>(b) {}
  struct Iterator : Litl::Box<N>::Iterator {
    typedef typename Litl::Box<N>::Iterator Base;
    Iterator(const Base& b) : Base(b) {}
    const Iterator& operator++() {
      Base::operator++();
      return *this;
    }
    Base operator++(int) {
      return Base::operator++(0);
    }
  };
};
template <Index N>
typename BoxCursor<N>::Iterator begin(const BoxCursor<N>& b) {
  return begin(static_cast<const Litl::Box<N>&>(b));
}
template <Index N>
typename BoxCursor<N>::Iterator end(const BoxCursor<N>& b) {
  return end(static_cast<const Litl::Box<N>&>(b));
}

template <Index N>
void boxCursors(const VI& f, const VI& b, int steps) {
  Ev("region").n("r", 1).b("ball", false).a("front", f).a("back", b).log();
  cursors(BoxCursor<N>(boxThere<N>(f, b)), expectedCount(f, b), steps);
}

// ---- algebra -------------------------------------------------------------------------------------------------

template <Index N>
void logOp(
    const char* f,
    const VI& fr,
    const VI& ba,
    const VI& af,
    const VI& ab,
    const Litl::Box<N>& out,
    const Litl::Box<N>& after,
    bool inplace,
    bool same = true) {
  Ev("boxOp")
      .s("f", f)
      .a("front", fr)
      .a("back", ba)
      .a("afront", af)
      .a("aback", ab)
      .a("ofront", vi(out.front()))
      .a("oback", vi(out.back()))
      .b("inplace", inplace)
      .b("same", same)
      .aa("after", std::vector<VI> {vi(after.front()), vi(after.back())})
      .log();
}

/// Lengths along axes known at compile time
template <Index N, std::size_t... Is>
VI lengths(const Litl::Box<N>& box, std::index_sequence<Is...>) {
  return {long(box.template length<Is>())...};
}
template <Index N>
void algebra(const VI& f, const VI& b, const VI& af, const VI& ab) {
  typedef Litl::Box<N> B;
  const auto box = boxThere<N>(f, b);
  const bool near = offset.empty();
  const auto arg = mkbox<N>(af, ab);
  const auto v = mkpos<N>(af);
  const Index s = af[0];
  const VI none;
  const VI sv {s};
  auto in = box;
#define INPLACE(name, expr, A, AB) \
  { \
    in = box; \
    const B& res = expr; \
    logOp<N>(name, f, b, A, AB, res, in, true, &res == &in); \
  }
#define NEWI(name, expr, A, AB) \
  { \
    in = box; \
    const B res = expr; \
    logOp<N>(name, f, b, A, AB, res, in, false); \
  }
  INPLACE("grow", in += arg, af, ab)
  INPLACE("shrink", in -= arg, af, ab)
  INPLACE("shift", in += v, af, none)
  INPLACE("unshift", in -= v, af, none)
  INPLACE("shiftS", in += s, sv, none)
  INPLACE("unshiftS", in -= s, sv, none)
  INPLACE("inc", ++in, none, none)
  INPLACE("dec", --in, none, none)
  NEWI("grow", in + arg, af, ab)
  NEWI("shrink", in - arg, af, ab)
  NEWI("shift", in + v, af, none)
  NEWI("shift", v + in, af, none)
  NEWI("unshift", in - v, af, none)
  NEWI("shiftS", in + s, sv, none)
  NEWI("shiftS", s + in, sv, none)
  NEWI("unshiftS", in - s, sv, none)
  NEWI("pos", +in, none, none)
  if (near) {
    NEWI("neg", -in, none, none)
  }
  NEWI("fromShape", B::fromShape(there<N>(f), v), af, none)
  NEWI("fromCenter", B::fromCenter(s, there<N>(f)), sv, none)
  for (Index i = 0; i < Index(f.size()); ++i) {
    const VI axis {i};
    INPLACE("project", in.project(i), axis, none)
    NEWI("project", Litl::project(in, i), axis, none)
  }
  if (near) {
  INPLACE("grow", in += in, f, b)
  INPLACE("shrink", in -= in, f, b)
  // the shift may be a bound of the box itself
  INPLACE("shift", in += in.front(), f, none)
  INPLACE("unshift", in -= in.front(), f, none)
  INPLACE("shift", in += in.back(), b, none)
  INPLACE("unshift", in -= in.back(), b, none)
  NEWI("unshift", in - in.front(), f, none)
  NEWI("shift", in + in.back(), b, none)
  NEWI("shiftS", in + in.front()[0], VI {f[0]}, none)
  INPLACE("unshiftS", in -= in.front()[0], VI {f[0]}, none)
  }
  // round trips through the operators only
  NEWI("pos", (in + arg) - arg, none, none)
  NEWI("pos", (in - v) + v, none, none)
  VI lens;
  for (Index i = 0; i < box.dimension(); ++i) {
    lens.push_back(box.length(i));
  }
  Ev("boxProps")
      .a("front", f)
      .a("back", b)
      .a("ofront", vi(box.front()))
      .a("oback", vi(box.back()))
      .a("shape", box.shape())
      .a("lens", lens)
      .a("tlens", lengths(box, std::make_index_sequence<N < 0 ? 0 : N>()))
      .n("dim", box.dimension())
      .n("size", box.size())
      .log();
  if (N > 0 && near) { // unlimited region
    const auto all = Litl::Box<N>::whole();
    const auto cf = Litl::clamp(box.front(), all), cb = Litl::clamp(box.back(), all);
    bool inf = true;
    for (const auto& e : all.back()) {
      inf &= e == std::numeric_limits<long>::max();
    }
    Ev("boxWhole").a("front", f).a("back", b).a("wfront", all.front()).b("inf", inf).a("cfront", cf).a("cback", cb).log();
  }
  if (near) {
    Ev("boxEq").a("front", f).a("back", b).a("afront", af).a("aback", ab).b("eq", box == arg).b("ne", box != arg).log();
  }
  const auto copy = box;
  Ev("boxEq").a("front", f).a("back", b).a("afront", f).a("aback", b).b("eq", box == copy).b("ne", box != copy).log();
  { // differ by one coordinate only
    VI f2(f), b2(b);
    const auto k = rng->in(0, long(f.size()) - 1);
    (rng->coin() ? f2 : b2)[k] += 1;
    const auto o = boxThere<N>(f2, b2);
    Ev("boxEq").a("front", f).a("back", b).a("afront", f2).a("aback", b2).b("eq", box == o).b("ne", box != o).log();
  }
}

template <Index N>
void surround(const VI& f, const VI& b, const VI& af, const VI& ab) {
  const auto box = boxThere<N>(f, b);
  const auto margin = mkbox<N>(af, ab);
  const auto out = box.surround(margin);
  std::vector<VI> fronts, backs;
  for (const auto& o : out) {
    fronts.push_back(vi(o.front()));
    backs.push_back(vi(o.back()));
  }
  Ev("surround")
      .a("front", f)
      .a("back", b)
      .a("afront", af)
      .a("aback", ab)
      .aa("fronts", fronts)
      .aa("backs", backs)
      .aa("after", std::vector<VI> {vi(box.front()), vi(box.back()), VI(margin.front().begin(), margin.front().end()), VI(margin.back().begin(), margin.back().end())})
      .log();
}

static VI rv(int dim, long lo, long hi) {
  VI v;
  for (int i = 0; i < dim; ++i) {
    v.push_back(rng->in(lo, hi));
  }
  return v;
}
static VI plus(VI a, const VI& b) {
  for (std::size_t i = 0; i < a.size(); ++i) {
    a[i] += b[i];
  }
  return a;
}

/// Vectors of other types than positions: reals are multiples of 1 / scale
template <typename T, Index N>
void clampOther(int dim, const VI& p, const VI& f, const VI& b, long scale) {
  auto make = [&](const VI& v) {
    Litl::Vector<T, N> out(dim);
    for (int d = 0; d < dim; ++d) {
      out[d] = T(v[d]) / T(scale);
    }
    return out;
  };
  auto scaled = [&](VI v, long by) {
    for (auto& e : v) {
      e *= by;
    }
    return v;
  };
  auto read = [&](const Litl::Vector<T, N>& v) {
    VI out;
    for (auto e : v) {
      out.push_back(vt::fix(double(e), scale, 1e-9));
    }
    return out;
  };
  Ev("clampBox").a("front", scaled(f, scale)).a("back", scaled(b, scale)).a("pos", p).a("out", read(Litl::clamp(make(p), mkbox<N>(f, b)))).log();
  // The limits are far beyond
  VI out = read(Litl::clamp(make(p), Litl::Box<N>(Litl::Position<N>(dim).fill(-(1L << 40)), Litl::Position<N>(dim).fill(1L << 40))));
  Ev("clampBox").a("front", p).a("back", p).a("pos", p).a("out", out).log();
  VI shape;
  for (int d = 0; d < dim; ++d) {
    shape.push_back(b[d] - f[d] + 1);
  }
  out = read(Litl::clamp(make(p), mkpos<N>(shape)));
  Ev("clampBox").a("front", VI(dim, 0)).a("back", scaled(plus(shape, VI(dim, -1)), scale)).a("pos", p).a("out", out).log();
}

template <Index N>
void clamps(int dim, int n) {
  for (int k = 0; k < n; ++k) {
    const auto shape = rv(dim, 1, 5);
    const auto pos = rv(dim, -6, 10);
    Ev("clampShape").a("shape", shape).a("pos", pos).a("out", Litl::clamp(mkpos<N>(pos), mkpos<N>(shape))).log();
    const auto f = rv(dim, -5, 5);
    const auto b = plus(f, rv(dim, 0, 4));
    const auto p = rv(dim, -12, 12);
    Ev("clampBox").a("front", f).a("back", b).a("pos", p).a("out", Litl::clamp(mkpos<N>(p), mkbox<N>(f, b))).log();
    clampOther<int, N>(dim, p, f, b, 1);
    clampOther<short, N>(dim, p, f, b, 1);
    clampOther<float, N>(dim, rv(dim, -12 * 8, 12 * 8), f, b, 8);
    clampOther<double, N>(dim, rv(dim, -12 * 8, 12 * 8), f, b, 8);
    goFar(dim);
    Ev("clampBox").a("front", f).a("back", b).a("pos", p).a("out", vi(Litl::clamp(there<N>(p), boxThere<N>(f, b)))).log();
    goBack();
    // Huge boxes: multiples of a unit
    const long unit = 1L << rng->in(20, 58);
    VI uf(f), ub(b), up(p), lens, rems;
    for (int d = 0; d < dim; ++d) {
      uf[d] *= unit;
      ub[d] *= unit;
      up[d] *= unit;
    }
    const auto box = mkbox<N>(uf, ub);
    const auto huge = box.shape();
    bool same = true;
    for (int d = 0; d < dim; ++d) {
      lens.push_back((huge[d] - 1) / unit);
      rems.push_back((huge[d] - 1) % unit);
      same &= box.length(d) == huge[d];
    }
    auto out = vi(Litl::clamp(mkpos<N>(up), box));
    for (auto& e : out) {
      e = e % unit ? -1000 : e / unit;
    }
    Ev("boxHuge").a("front", f).a("back", b).a("lens", lens).a("rems", rems).b("same", same).a("pos", p).a("out", out).log();
  }
}

template <Index N>
void algebras(int dim, int n) {
  for (int k = 0; k < n; ++k) {
    const auto f = rv(dim, -9, 9);
    algebra<N>(f, plus(f, rv(dim, -2, 6)), rv(dim, -5, 5), rv(dim, -5, 5));
    const bool far = k % 3 == 0;
    if (far) {
      goFar(dim);
      algebra<N>(f, plus(f, rv(dim, -2, 6)), rv(dim, -5, 5), rv(dim, -5, 5));
    }
    const auto g = rv(dim, -9, 9);
    auto af = rv(dim, -3, 0);
    auto ab = rv(dim, 0, 3);
    for (auto& e : af) {
      if (rng->coin(1, 3)) {
        e = 0;
      }
    }
    for (auto& e : ab) {
      if (rng->coin(1, 3)) {
        e = 0;
      }
    }
    surround<N>(g, plus(g, rv(dim, 0, 5)), af, ab);
    goBack();
  }
  clamps<N>(dim, n);
}

template <Index N>
void vecs(int n, const VI& v) {
  typedef Litl::Position<N> P;
  const auto p = mkpos<N>(v);
  Ev("vec")
      .n("n", n)
      .a("v", v)
      .a("zero", P::zero())
      .a("one", P::one())
      .b("isZero", p.isZero())
      .b("isOne", p.isOne())
      .b("infIsInf", P::inf().isInf() && not P::zero().isInf() && Litl::Vector<double, N>::inf().isInf() && not p.isInf())
      .log();
}
template <Index N, Index M, Index K>
void vecDim() {
  const auto v = rv(N, -9, 9);
  const auto pad = rv(K, -9, 9);
  const auto p = mkpos<N>(v);
  Ev("vecDim")
      .a("v", v)
      .n("m", M)
      .a("slice", p.template slice<M>())
      .a("pad", pad)
      .a("extend", p.template extend<K>(mkpos<K>(pad)))
      .a("extend0", p.template extend<K>())
      .log();
}

// ---- balls ---------------------------------------------------------------------------------------------------

template <Index N, Index P>
std::vector<VI> visit(const Litl::Ball<N, P>& ball, int route, long limit, bool& runaway) {
  std::vector<VI> seq;
  runaway = false;
  auto guard = [&]() {
    runaway = long(seq.size()) > limit;
    return not runaway;
  };
  if (route == 0) {
    for (const auto& p : ball) {
      if (not guard()) {
        break;
      }
      seq.push_back(vi(p));
    }
  } else if (route == 1) {
    auto it = begin(ball);
    const auto last = end(ball);
    while (not(it == last) && guard()) {
      if (seq.size() % 2) {
        auto old = it++;
        seq.push_back(vi(*old));
        ++old;
        it = old;
      } else {
        const auto p = *it++;
        seq.push_back(vi(p));
      }
    }
  } else if (route == 2) {
    auto it = begin(ball);
    const auto last = end(ball);
    while (it != last && guard()) {
      auto jt = it;
      seq.push_back(vi(Litl::Position<N>(*jt.operator->())));
      ++it;
    }
  } else { // iterators are assigned and outlive their region
    auto it = begin(Litl::Ball<N, P>(1));
    auto last = end(Litl::Ball<N, P>(1));
    it = begin(Litl::Ball<N, P>(ball));
    last = end(Litl::Ball<N, P>(ball));
    while (it != last && guard()) {
      auto jt = it;
      it = begin(ball);
      it = jt;
      seq.push_back(vi(*it));
      ++it;
    }
  }
  return seq;
}

template <Index N, Index P>
void iterBall(const VI& c, long r4, int route) {
  const Litl::Ball<N, P> ball(r4 / 4., there<N>(c));
  bool runaway;
  const auto seq = visit(ball, route, 5000, runaway);
  Ev("iterBall")
      .a("center", c)
      .n("p", P)
      .n("r4", r4)
      .n("route", route)
      .b("runaway", runaway)
      .aa("seq", seq)
      .n("size", ball.size())
      .a("bfront", vi(ball.box().front()))
      .a("bback", vi(ball.box().back()))
      .a("shape", ball.shape())
      .n("len0", ball.length(0) == ball.template length<0>() ? ball.length(0) : -1)
      .n("dim", ball.dimension())
      .a("ocenter", vi(ball.center()))
      .n("or4", ball.radius() * 4)
      .log();
}

/// By rows
template <Index N, Index P>
void bigBall(const VI& c, long r4) {
  const Litl::Ball<N, P> ball(r4 / 4., there<N>(c));
  std::vector<VI> starts;
  VI lens;
  VI last;
  bool runaway = false;
  for (const auto& q : ball) {
    const auto p = vi(q);
    bool follows = !last.empty() && p[0] == last[0] + 1;
    for (std::size_t i = 1; i < p.size() && follows; ++i) {
      follows = p[i] == last[i];
    }
    if (follows) {
      runaway = ++lens.back() > r4;
    } else {
      starts.push_back(p);
      lens.push_back(1);
      runaway = starts.size() > 100000;
    }
    if (runaway) {
      break;
    }
    last = p;
  }
  Ev("bigBall")
      .a("center", c)
      .n("p", P)
      .n("r4", r4)
      .b("runaway", runaway)
      .aa("starts", starts)
      .a("lens", lens)
      .n("size", ball.size())
      .a("bfront", vi(ball.box().front()))
      .a("bback", vi(ball.box().back()))
      .a("shape", ball.shape())
      .log();
}
/// Of any radius up to r
template <Index N, Index P>
void bigBalls(int n, long r, Index dim = N) {
  for (int k = 0; k < n; ++k) {
    if (k % 3 == 2) {
      goFar(dim);
    }
    bigBall<N, P>(rv(dim, -50, 50), rng->coin() ? 4 * rng->in(2, r) : rng->in(8, 4 * r));
    goBack();
  }
}

template <Index N, Index P>
void ballOps(const VI& c, long r4, const VI& v) {
  typedef Litl::Ball<N, P> B;
  const B ball(r4 / 4., there<N>(c));
  const auto vec = mkpos<N>(v);
  const Index s = v[0];
  auto out = [&](const char* f, const B& b) {
    bool runaway;
    const auto seq = visit(b, 0, 2000, runaway);
    Ev("ballOp")
        .s("f", f)
        .a("center", c)
        .n("p", P)
        .n("r4", r4)
        .a("v", v)
        .a("ocenter", vi(b.center()))
        .n("or4", b.radius() * 4)
        .b("eq", b == ball)
        .b("ne", b != ball)
        .aa("seq", seq)
        .log();
  };
  B in = ball;
  out("add", in += vec);
  out("add", ball + vec);
  in = ball;
  out("sub", in -= vec);
  out("sub", ball - vec);
  in = ball;
  out("addS", in += s);
  out("addS", ball + s);
  in = ball;
  out("subS", in -= s);
  out("subS", ball - s);
  in = ball;
  out("inc", ++in);
  in = ball;
  out("dec", --in);
  in = ball;
  if (offset.empty()) {
    out("neg", -in);
  }
  out("pos", +in);
  out("pos", in);
  // Other radii, of the same bounding box or not, and other centers
  for (long d4 : {0, 1, -1, 2, 3, 4, 8}) {
    for (long k : {-1, 0, int(c.size()) - 1}) {
      auto e = c;
      if (k >= 0) {
        e[k] += rng->coin() ? 1 : -1;
      }
      const B other(std::max(0L, r4 + d4) / 4., there<N>(e));
      Ev("ballEq").a("center", c).n("r4", r4).a("acenter", e).n("ar4", std::max(0L, r4 + d4)).b("eq", ball == other).b("ne", ball != other).log();
    }
  }
}

template <Index N>
struct BallCursorBase {};
template <Index N, Index P>
struct BallCursor : Litl::Ball<N, P> {
  explicit BallCursor(const Litl::Ball<N, P>& b) : Litl::Ball<N, P>(b) {}
};

template <Index N, Index P>
void balls(const vt::Args& a, int n, Index dim = N) {
  for (long r4 = 0; r4 <= (dim <= 2 ? 14 : dim == 3 ? 9 : 5); ++r4) {
    for (int k = 0; k < n; ++k) {
      iterBall<N, P>(rv(dim, -4, 4), r4, int(rng->in(0, 3)));
    }
    goFar(dim);
    iterBall<N, P>(rv(dim, -4, 4), r4, int(rng->in(0, 3)));
    goBack();
    if (r4 % 3 == int(a.seed % 3) || a.thorough) {
      ballOps<N, P>(rv(dim, -3, 3), r4 % 7, rv(dim, -3, 3));
      goFar(dim);
      ballOps<N, P>(rv(dim, -3, 3), r4 % 7, rv(dim, -3, 3));
      goBack();
    }
  }
}

int main(int argc, char** argv) {
  const auto a = open(argc, argv);
  rng = new Rng(a.seed * 100 + a.part);
  int c = 0;
#if WHAT == 3
  boxes<1>(1, -3, 3, -3, 5, a, 1, c);
  boxes<2>(2, -1, 1, -1, 3, a, 1, c);
  boxes<3>(3, -1, 0, 0, 3, a, a.thorough ? 1 : 2, c);
  boxes<4>(4, -1, 0, 0, 3, a, a.thorough ? 4 : 20, c);
  boxes<-1>(1, -2, 2, -1, 4, a, 1, c);
  boxes<-1>(2, -1, 0, -1, 3, a, 1, c);
  boxes<-1>(3, -1, 0, 0, 3, a, a.thorough ? 1 : 4, c);
  boxes<-1>(4, -1, 0, 0, 2, a, a.thorough ? 2 : 8, c);
  const int n = a.thorough ? 60 : 8;
  randomBoxes<1>(1, n, 200);
  randomBoxes<2>(2, n, 20);
  randomBoxes<3>(3, n, 9);
  randomBoxes<4>(4, n, 5);
  randomBoxes<5>(5, n, 4);
  randomBoxes<6>(6, n, 3);
  randomBoxes<-1>(2, n, 20);
  randomBoxes<-1>(5, n, 4);
  randomBoxes<-1>(7, n, 2);
  randomBoxes<2>(2, n, 6, -3);
  randomBoxes<3>(3, n, 4, -2);
  randomBoxes<5>(5, n, 3, 0);
  forAll(VI(2, 0), VI(2, 4), [&](const VI& s) {
    domain<2>(s);
  });
  forAll(VI(3, 0), VI(3, 3), [&](const VI& s) {
    domain<3>(s);
    domain<-1>(s);
  });
  for (long s = 0; s < 5; ++s) {
    domain<1>({s});
    domain<-1>({s});
  }
  {
    Litl::VecRaster<int, 2> r; // default-constructed
    long count = 0;
    for (const auto& p : r.domain()) {
      (void)p;
      if (++count > 10) {
        break;
      }
    }
    Ev("domainVisit").a("shape", VI {0, 0}).aa("seq", std::vector<VI>(count)).a("idx", VI(count)).b("runaway", count > 0).b("empty", r.emtpy()).log();
  }
  for (int k = 0; k < n; ++k) {
    auto f = rv(2, -3, 3);
    boxCursors<2>(f, plus(f, rv(2, 0, 3)), 60);
    f = rv(1, -3, 3);
    boxCursors<1>(f, plus(f, rv(1, 0, 5)), 40);
    f = rv(3, -3, 3);
    boxCursors<3>(f, plus(f, rv(3, 0, 2)), 60);
    f = rv(4, -3, 3);
    boxCursors<-1>(f, plus(f, rv(4, 0, 1)), 60);
    f = rv(2, -3, 3);
    boxCursors<2>(f, plus(f, rv(2, -1, 2)), 40);
    goFar(3);
    f = rv(3, -3, 3);
    boxCursors<3>(f, plus(f, rv(3, 0, 2)), 40);
    boxCursors<-1>(f, plus(f, rv(3, 0, 2)), 40);
    goBack();
  }
#elif WHAT == 11
  // every 1D and small 2D box and margin
  forAll({-1, -1, -2, 0}, {1, 2, 0, 2}, [&](const VI& v) {
    if (v[1] >= v[0] && c++ % a.parts == a.part) {
      surround<1>({v[0]}, {v[1]}, {v[2]}, {v[3]});
      surround<-1>({v[0]}, {v[1]}, {v[2]}, {v[3]});
    }
  });
  forAll({0, 0, -2, -2, 0, 0}, {2, 2, 0, 0, 2, 2}, [&](const VI& v) {
    if (c++ % a.parts == a.part) {
      surround<2>({-1, 1}, {v[0] - 1, v[1] + 1}, {v[2], v[3]}, {v[4], v[5]});
    }
  });
  forAll({-1, -1, -1, 0, 0, 0}, {0, 0, 0, 1, 1, 1}, [&](const VI& v) {
    if (c++ % a.parts == a.part) {
      const auto f = rv(3, -4, 4);
      const auto b = plus(f, rv(3, 0, 3));
      surround<3>(f, b, {v[0], v[1], v[2]}, {v[3], v[4], v[5]});
      surround<-1>(f, b, {v[0], v[1], v[2]}, {v[3], v[4], v[5]});
    }
  });
  const int n = a.thorough ? 150 : 20;
  algebras<1>(1, n);
  algebras<2>(2, n);
  algebras<3>(3, n);
  algebras<4>(4, n);
  algebras<5>(5, n);
  algebras<-1>(1, n);
  algebras<-1>(2, n);
  algebras<-1>(3, n);
  algebras<-1>(4, n);
  for (int k = 0; k < 10; ++k) {
    vecs<1>(1, rv(1, 0, 1));
    vecs<2>(2, rv(2, 0, 1));
    vecs<3>(3, rv(3, 0, 1));
    vecs<4>(4, rv(4, -1, 1));
    vecs<-1>(1, rv(int(rng->in(1, 4)), 0, 1));
    vecDim<1, 1, 1>();
    vecDim<1, 1, 4>();
    vecDim<2, 1, 3>();
    vecDim<3, 2, 3>();
    vecDim<3, 1, 5>();
    vecDim<4, 3, 6>();
  }
#else
  const int n = a.thorough ? 8 : 2;
  balls<1, 1>(a, n);
  balls<1, 2>(a, n);
  balls<2, 1>(a, n);
  balls<2, 2>(a, n);
  balls<2, 3>(a, 1);
  balls<3, 1>(a, n);
  balls<3, 2>(a, n);
  balls<3, 3>(a, 1);
  balls<3, 4>(a, 1);
  balls<4, 1>(a, 1);
  balls<4, 2>(a, 1);
  balls<5, 2>(a, 1);
  balls<-1, 1>(a, 1, 2);
  balls<-1, 2>(a, 1, 1);
  balls<-1, 2>(a, 1, 3);
  const int m = a.thorough ? 12 : 2;
  bigBalls<1, 1>(m, 40000);
  bigBalls<1, 2>(3 * m, 40000);
  bigBalls<1, 3>(m, 40000);
  bigBalls<1, 4>(m, 8000);
  bigBalls<2, 1>(m, 60);
  bigBalls<2, 2>(2 * m, 60);
  bigBalls<2, 3>(m, 60);
  bigBalls<2, 4>(m, 30);
  bigBalls<3, 1>(m, 10);
  bigBalls<3, 2>(m, 12);
  bigBalls<-1, 2>(m, 50, 2);
#endif
  return vt::close();
}
