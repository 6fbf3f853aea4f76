// Samplings of axes, grids and strided data (C13).
#include "rasters.h"
#include "LitlRaster/Sampling.h"
#include "LitlTypes/Segment.h"
using namespace Litl;
static vt::Rng* rng;

/// Axis values are logged in units of 1/U
template <typename T>
VI scaled(const std::vector<T>& v, double U) {
  VI out;
  for (const auto& e : v) {
    out.push_back(vt::fix(double(e), U));
  }
  return out;
}
template <typename T>
void axis(long f, long b, long s, double U) {
  const AxisSampling<T> a {T(f / U), T(b / U), T(s / U)};
  std::vector<T> seen, post;
  const std::size_t max = 100;
  for (auto it = a.begin(); it != a.end() && seen.size() < max; ++it) {
    seen.push_back(*it);
  }
  for (auto it = a.begin(); !(it == a.end()) && post.size() < max;) {
    auto jt = it++;
    post.push_back(*jt);
    ++jt; // goes where the other one went
    if (!(jt == it)) {
      post.push_back(*jt);
    }
  }
  std::vector<T> vec;
  if (a.size() < max) {
    vec = a.vector();
  }
  vt::Ev("axis")
      .n("front", f)
      .n("back", b)
      .n("step", s)
      .n("size", a.size())
      .a("seen", scaled(seen, U))
      .a("post", scaled(post, U))
      .a("vec", scaled(vec, U))
      .log();
  // Random walk
  auto it = a.begin();
  const auto end = a.end();
  VI at, ends;
  std::vector<T> vals;
  long k = 0;
  for (int i = 0; i < 8; ++i) {
    const long n = rng->in(-k, 4);
    switch (n == 1 ? rng->in(0, 2) : n < 0 ? 3 : 2) {
      case 0:
        ++it;
        break;
      case 1:
        it++;
        break;
      case 2:
        it += T(n);
        break;
      default:
        it -= T(-n);
    }
    k += n;
    at.push_back(k);
    vals.push_back(i % 2 ? *it : *it.operator->());
    ends.push_back(it == end);
  }
  vt::Ev("walk").n("front", f).n("back", b).n("step", s).a("at", at).a("vals", scaled(vals, U)).a("atEnd", ends).log();
}

template <Index N>
void grid(const VI& f, const VI& b, const VI& s, bool unit) {
  auto log = [&](const PositionSampling<N>& g, const std::vector<VI>& axes, const VI& step) {
    vt::Ev("grid").a("front", f).a("back", b).a("step", step).a("shape", g.shape()).aa("axes", axes).log();
  };
  const auto box = mkbox<N>(f, b);
  if (unit) {
    PositionSampling<N> g(box);
    std::vector<VI> axes;
    for (std::size_t i = 0; i < f.size(); ++i) {
      axes.push_back(g.along(Index(i)).vector());
    }
    log(g, axes, VI(f.size(), 1));
  } else {
    PositionSampling<N> g(box, mkpos<N>(s));
    std::vector<VI> axes;
    for (std::size_t i = 0; i < f.size(); ++i) {
      axes.push_back(i == 0 ? g.template along<0>().vector() : g.along(Index(i)).vector());
    }
    log(g, axes, s);
  }
}

template <typename T>
VI nums(const std::vector<T>& v) {
  VI out;
  for (const auto& e : v) {
    out.push_back(vt::inum(e));
  }
  return out;
}

template <typename T>
void data(int steps) {
  const std::size_t M = rng->in(1, 24);
  std::vector<T> mem;
  for (std::size_t i = 0; i < M; ++i) {
    mem.push_back(T(rng->in(0, 100)));
  }
  vt::Ev("begin").a("vals", nums(mem)).log();
  struct Desc {
    long base, size, front, back, step, stride;
  };
  std::unique_ptr<DataSamples<T>> s[3];
  Desc d[3];
  auto fits = [&](const Desc& e) {
    const long last = e.back < e.front ? e.front : e.back;
    return e.base >= 0 && e.base + last * e.stride < long(M) && e.base < long(M);
  };
  for (int i = 0; i < steps; ++i) {
    const int id = rng->in(0, 2);
    const int what = s[id] ? rng->in(0, 9) : 0;
    if (what <= 1) {
      for (int tries = 0; tries < 50; ++tries) {
        Desc e;
        e.base = rng->in(0, M - 1);
        e.stride = rng->in(1, 4);
        e.size = rng->in(1, (M - 1 - e.base) / e.stride + 1);
        e.front = rng->in(0, e.size - 1);
        const bool whole = rng->coin(1, 3);
        e.back = whole ? e.size - 1 : rng->in(e.front - 2, e.size - 1);
        e.step = rng->in(1, 5);
        if (whole && rng->coin(1, 4)) { // default sampling
          e.front = 0;
          e.step = 1;
          e.stride = 1;
          if (e.base + e.size > long(M)) {
            continue;
          }
        }
        if (!fits(e)) {
          continue;
        }
        d[id] = e;
        T* p = mem.data() + e.base;
        if (whole && e.front == 0 && e.step == 1 && e.stride == 1) {
          s[id] = std::make_unique<DataSamples<T>>(p, e.size);
        } else {
          s[id] = std::make_unique<DataSamples<T>>(
              p,
              e.size,
              IndexSampling {e.front, whole ? Limits<Index>::inf() : e.back, e.step},
              e.stride);
        }
        const DataSamples<T>& c = *s[id];
        const VI got {long(c.size()), c.front(), c.back(), c.step(), c.stride()};
        const VI sampling {long(c.size()), c.sampling().front, c.sampling().back, c.sampling().step, c.stride()};
        vt::Ev("make")
            .n("id", id + 1)
            .n("base", e.base)
            .n("size", e.size)
            .n("front", e.front)
            .n("back", e.back)
            .b("whole", whole)
            .n("step", e.step)
            .n("stride", e.stride)
            .a("got", got)
            .a("sampling", sampling)
            .log();
        break;
      }
      continue;
    }
    DataSamples<T>& m = *s[id];
    const DataSamples<T>& c = m;
    if (what <= 5) { // read
      std::vector<T> vals;
      VI cells;
      const std::size_t max = c.count() > 50 ? 50 : c.count() + 3;
      switch (rng->in(0, 3)) {
        case 0:
          for (auto it = c.begin(); it != c.end() && vals.size() < max; ++it) {
            vals.push_back(*it);
            cells.push_back(&*it - mem.data() + 1);
          }
          break;
        case 1:
          for (auto it = m.begin(); it != m.end() && vals.size() < max;) {
            auto jt = it++;
            if (rng->coin()) {
              vals.push_back(*jt);
            } else {
              auto kt = m.end(); // made to point elsewhere
              kt = jt.operator->();
              vals.push_back(*kt);
            }
            cells.push_back(jt.operator->() - mem.data() + 1);
            ++jt;
            cells.back() *= jt == it ? 1 : -1;
          }
          break;
        case 2:
          if (rng->coin()) {
            vals = c.vector();
          } else {
            const DataSamples<const T> read(c.data(), c.size(), c.sampling(), c.stride());
            vals = read.vector();
          }
          for (std::size_t k = 0; k < vals.size(); ++k) {
            auto it = c.begin();
            it += k;
            cells.push_back(&*it - mem.data() + 1);
          }
          break;
        default: {
          auto it = c.end();
          for (std::size_t k = c.count(); k-- > 0;) {
            it -= 1;
            vals.insert(vals.begin(), *it);
            cells.insert(cells.begin(), &*it - mem.data() + 1);
          }
        }
      }
      vt::Ev("read")
          .n("id", id + 1)
          .n("count", c.count())
          .a("vals", nums(vals))
          .a("cells", cells)
          .n("base", rng->coin() ? c.data() - mem.data() : m.data() - mem.data())
          .log();
    } else if (what <= 7) { // write
      if (c.count() == 0) {
        continue;
      }
      const long k = rng->in(0, c.count() - 1);
      const long v = rng->in(0, 100);
      auto it = m.begin();
      for (long j = 0; j < k; ++j) {
        ++it;
      }
      *it = T(v);
      vt::Ev("write").n("id", id + 1).n("k", k).n("v", v).a("mem", nums(mem)).log();
    } else { // shift
      long n = rng->in(-3, 3);
      Desc e = d[id];
      bool post = false;
      long ret;
      if (rng->coin(1, 3)) {
        n = 1;
      }
      e.base += n;
      if (!fits(e)) {
        continue;
      }
      d[id] = e;
      const int how = rng->in(0, 3);
      if (n == 1 && how == 0) {
        ret = (++m).data() - mem.data();
      } else if (n == 1 && how == 1) {
        post = true;
        ret = (m++).data() - mem.data();
      } else if (how == 2) {
        ret = (m -= -n).data() - mem.data();
      } else {
        ret = (m += n).data() - mem.data();
      }
      vt::Ev("shift").n("id", id + 1).n("n", n).b("post", post).n("ret", ret).n("base", c.data() - mem.data()).log();
    }
  }
}

/// Many samples: only their count, first and last, and whether they are regular
void wide() {
  const long n = rng->in(1, rng->coin() ? 300000 : 3000000);
  static const std::vector<char> mem(3000000, 1);
  const long front = rng->in(0, n - 1), step = rng->coin() ? rng->in(1, 100) : rng->in(1, 70000), stride = rng->in(1, 3000000 / n);
  const bool whole = rng->coin();
  const long back = whole ? n - 1 : rng->in(front, n - 1);
  const DataSamples<const char> s(mem.data(), n, IndexSampling {front, whole ? Limits<Index>::inf() : back, step}, stride);
  long count = 0, last = -1;
  bool regular = true;
  for (const auto& e : s) {
    const long at = &e - mem.data();
    regular = regular && (count == 0 ? at == front * stride : at == last + step * stride) && count < n;
    if (!regular) {
      break;
    }
    last = at;
    ++count;
  }
  long axis = 0, axisLast = -1;
  for (auto i : s.sampling()) {
    axisLast = i;
    if (++axis > n) {
      break;
    }
  }
  vt::Ev("wide").n("front", front).n("back", back).n("step", step).n("stride", stride).n("count", s.count()).n("visited", count).n("axis", axis).n("last", last).n("axisLast", axisLast).b("regular", regular).log();
}

int main(int argc, char** argv) {
  auto a = vt::open(argc, argv);
  vt::Rng r(a.seed * 71 + a.part);
  rng = &r;
  int job = 0;
  auto mine = [&]() {
    return job++ % a.parts == a.part;
  };
  const long B = a.thorough ? 9 : 5;
  for (long f = -B; f <= B; ++f) {
    if (!mine()) {
      continue;
    }
    for (long b = -B; b <= B; ++b) {
      for (long s = -2; s < 0; ++s) { // Backwards
        axis<Index>(f, b, s - rng->in(0, 3), 1);
        axis<double>(f, b, s - rng->in(0, 3), 4);
        axis<int>(f, b, s - rng->in(0, 3), 1);
      }
      for (long s = 1; s <= B + 2; ++s) {
        axis<Index>(f, b, s, 1);
        if (rng->coin(1, 4)) {
          axis<double>(f, b, s, 4);
          axis<int>(f, b, s, 1);
          axis<float>(f, b, s, 2);
        }
      }
    }
  }
  if (mine()) {
    for (int i = 0; i < (a.thorough ? 400 : 60); ++i) {
      axis<Index>(rng->in(-2000, 2000), rng->in(-2000, 2000), rng->in(45, 900), 1);
      const long f = rng->in(-50, 50), n = rng->in(0, 60);
      const auto g = Segment::fromSize(f, n);
      vt::Ev("segment").n("front", f).n("n", n).n("f", g.front()).n("back", g.back()).n("size", g.size()).log();
    }
  }
  for (int i = 0; i < (a.thorough ? 60 : 12); ++i) {
    wide();
  }
  for (int i = 0; i < (a.thorough ? 400 : 80); ++i) {
    const long n = rng->in(1, 6);
    VI f, b, s;
    for (long k = 0; k < n; ++k) {
      f.push_back(rng->in(-6, 6));
      b.push_back(f.back() + rng->in(-2, 7));
      s.push_back(rng->in(1, 5));
    }
    if (!mine()) {
      continue;
    }
    grid<-1>(f, b, s, false);
    for (bool u : {false, true}) {
      switch (n) {
        case 1:
          grid<1>(f, b, s, u);
          break;
        case 2:
          grid<2>(f, b, s, u);
          break;
        case 3:
          grid<3>(f, b, s, u);
          break;
        case 4:
          grid<4>(f, b, s, u);
          break;
        case 5:
          grid<5>(f, b, s, u);
          break;
        default:
          grid<6>(f, b, s, u);
      }
    }
  }
  for (int i = 0; i < (a.thorough ? 200 : 30); ++i) {
    if (!mine()) {
      continue;
    }
    data<int>(40);
    data<unsigned char>(40);
    data<double>(40);
    data<std::complex<float>>(40);
    data<long>(40);
  }
  return vt::close();
}
