// Several threads which use distinct objects, or share objects they only read (C27).
// Events are buffered by each thread and logged after all of them ended, one thread after the other.
#include "rasters.h"
#include "LitlContainer/Random.h"
#include "LitlContainer/Sequence.h"
#include "LitlIo/Fits.h"
#include "LitlRaster/Ball.h"
#include "LitlRaster/Sampling.h"
#include "LitlRaster/Subraster.h"
#include "LitlRun/Chronometer.h"
#include "LitlRun/ProgramOptions.h"
#include "LitlRun/StepperPipeline.h"
#include "LitlTransforms/Convolution.h"
#include "LitlTransforms/Dft.h"
#include "LitlTransforms/Interpolation.h"
#include "LitlTransforms/Kernel.h"
#include "LitlTransforms/LineKernel.h"
#include "LitlTransforms/MedianFilter.h"
#include "LitlTransforms/SeparableKernel.h"
#include <atomic>
#include <functional>
#include <memory>
#include <thread>
#include <unistd.h>
using namespace Litl;

const int T = 4;
const int FAMILIES = 16; // and mixes of them

// FFTW's planner, which must be used by one thread at a time: entries and exits are numbered
struct PlannerEvent {
  int thread;
  bool in;
};
static const long PLANNER_MAX = 200000;
static PlannerEvent planner[PLANNER_MAX];
static std::atomic<long> plannerCount(0);
static thread_local int self = 0;
struct Inside {
  Inside() {
    mark(true);
    if (self) {
      usleep(20); // let the other threads reach the planner
    }
  }
  ~Inside() {
    mark(false);
  }
  static void mark(bool in) {
    const long n = plannerCount.fetch_add(1, std::memory_order_relaxed);
    if (n < PLANNER_MAX) {
      planner[n] = {self, in};
    }
  }
};
extern "C" {
fftw_plan __real_fftw_plan_dft(int, const int*, fftw_complex*, fftw_complex*, int, unsigned);
fftw_plan __real_fftw_plan_dft_r2c(int, const int*, double*, fftw_complex*, unsigned);
fftw_plan __real_fftw_plan_dft_c2r(int, const int*, fftw_complex*, double*, unsigned);
void __real_fftw_destroy_plan(fftw_plan);
fftw_plan __wrap_fftw_plan_dft(int n, const int* s, fftw_complex* a, fftw_complex* b, int sign, unsigned flags) {
  Inside i;
  return __real_fftw_plan_dft(n, s, a, b, sign, flags);
}
fftw_plan __wrap_fftw_plan_dft_r2c(int n, const int* s, double* a, fftw_complex* b, unsigned flags) {
  Inside i;
  return __real_fftw_plan_dft_r2c(n, s, a, b, flags);
}
fftw_plan __wrap_fftw_plan_dft_c2r(int n, const int* s, fftw_complex* a, double* b, unsigned flags) {
  Inside i;
  return __real_fftw_plan_dft_c2r(n, s, a, b, flags);
}
void __wrap_fftw_destroy_plan(fftw_plan p) {
  Inside i;
  __real_fftw_destroy_plan(p);
}
}

template <typename C>
VI nums(const C& c, double scale = 1, double eps = 0) {
  VI out;
  for (auto it = c.begin(); it != c.end(); ++it) {
    out.push_back(vt::fix(double(*it), scale, eps));
  }
  return out;
}
VI rndShape(vt::Rng& r, int n, long lo, long hi, long max) {
  while (true) {
    VI s;
    for (int k = 0; k < n; ++k) {
      s.push_back(r.in(lo, hi));
    }
    if (prod(s) <= max) {
      return s;
    }
  }
}
VI rndValues(vt::Rng& r, long n, long lo, long hi) {
  VI v;
  for (long i = 0; i < n; ++i) {
    v.push_back(r.in(lo, hi));
  }
  return v;
}
template <typename U>
std::string txt(U v) {
  char b[64];
  snprintf(b, sizeof b, "%a", double(v));
  return b;
}

/// What every thread may read
struct Shared {
  typedef Raster<int, 2> Image;
  typedef decltype(extrapolate(std::declval<const Image&>(), 1)) Cst;
  typedef decltype(extrapolate<NearestNeighbor>(std::declval<const Image&>())) Near;
  typedef decltype(extrapolate<Periodic>(std::declval<const Image&>())) Per;
  typedef decltype(kernelize(std::declval<const Image&>())) Ker;
  Image in;
  VI shape, ks, k, lk;
  long c;
  Image kr;
  Cst cst;
  Near near;
  Per per;
  Ker kernel;
  decltype(std::declval<LineKernel<int>>().template along<0, 1>()) sep;
  LineKernel<int> line;
  long option;
  ProgramOptions options;
  Raster<int, 2, AlignedBuffer<int>> aligned;
  Ball<2, 2> ball;
  Shared(vt::Rng& r, const VI& s) :
      in(mkpos<2>(s)), shape(s), ks(rndShape(r, 2, 1, 3, 9)), k(rndValues(r, prod(ks), -3, 3)), lk(rndValues(r, r.in(1, 4), -3, 3)),
      c(r.in(0, 9)), kr(mkpos<2>(ks)), cst(extrapolate(cimg(), int(c))), near(extrapolate<NearestNeighbor>(cimg())),
      per(extrapolate<Periodic>(cimg())), kernel((std::copy(k.begin(), k.end(), kr.begin()), kernelize(static_cast<const Image&>(kr)))),
      sep(LineKernel<int>(std::vector<int>(lk.begin(), lk.end())).template along<0, 1>()), line(std::vector<int>(lk.begin(), lk.end())),
      option(r.in(0, 99)), aligned(mkpos<2>(s)), ball(2.) {
    for (auto& e : in) {
      e = int(r.in(0, 20));
    }
    std::copy(cimg().begin(), cimg().end(), aligned.begin());
    options.named<long>("value,v", "Some value");
    options.flag("flag", "Some flag");
    options.parse("program --value " + std::to_string(option) + " --flag");
  }
  const Image& cimg() const {
    return in;
  }
};

struct First : PipelineStep<void, long> {};
struct Second : PipelineStep<First, long> {};
struct Pipe : StepperPipeline<Pipe> {
  long start = 0, count = 0;
  long a = 0, b = 0;
  using StepperPipeline<Pipe>::reset;

protected:
  template <typename S>
  void doEvaluate();
  template <typename S>
  typename S::Return doGet();
};
template <>
inline void Pipe::doEvaluate<First>() {
  ++count;
  a = start + 1;
}
template <>
inline void Pipe::doEvaluate<Second>() {
  ++count;
  b = 2 * a;
}
template <>
inline long Pipe::doGet<First>() {
  return a;
}
template <>
inline long Pipe::doGet<Second>() {
  return b;
}

struct Worker {
  int t;
  vt::Rng rng;
  const Shared& s;
  Raster<int, 2>& board; // shared: section t is written by thread t only
  Raster<long, 2> own;
  std::vector<std::string> kept;
  int reps;
  std::string folder = "."; // of this run only

  Worker(int thread, unsigned long seed, const Shared& shared, Raster<int, 2>& b, int n) :
      t(thread), rng(seed), s(shared), board(b), own(mkpos<2>(shared.shape)), reps(n) {}

  vt::Ev ev(const char* op) {
    vt::Ev e(op);
    e.n("t", t);
    return e;
  }
  void keep(vt::Ev& e) {
    kept.push_back(e.line());
  }
  /// Any of the shared extrapolators
  template <typename F>
  void ext(F&& f) {
    switch (rng.in(0, 2)) {
      case 0:
        return f(s.cst, "const", s.c);
      case 1:
        return f(s.near, "near", 0L);
      default:
        return f(s.per, "per", 0L);
    }
  }
  VI centre(const VI& ks) {
    VI o;
    for (auto e : ks) {
      o.push_back(e / 2);
    }
    return o;
  }

  void corr() {
    const bool mine = rng.coin();
    const VI ks = mine ? rndShape(rng, 2, 1, 4, 12) : s.ks;
    const VI k = mine ? rndValues(rng, prod(ks), -3, 3) : s.k;
    ext([&](const auto& e, const char* m, long c) {
      VI out;
      if (mine) {
        Raster<int, 2> kr(mkpos<2>(ks));
        std::copy(k.begin(), k.end(), kr.begin());
        auto kernel = kernelize(kr);
        out = nums(kernel * e);
      } else {
        auto kernel = s.kernel; // correlation is not a const method
        out = nums(kernel * e);
      }
      keep(ev("corr").s("m", m).n("c", c).a("k", k).a("ks", ks).a("o", centre(ks)).a("out", out));
    });
  }
  void median() {
    const VI wf {rng.in(-2, 0), rng.in(-1, 0)}, wb {rng.in(0, 2), rng.in(0, 1)};
    MedianFilter<int, 2> filter(mkbox<2>(wf, wb));
    ext([&](const auto& e, const char* m, long c) {
      Raster<double, 2> out(s.cimg().shape());
      filter.applyTo(e, out);
      keep(ev("median").s("m", m).n("c", c).a("wf", wf).a("wb", wb).a("out", nums(out, 2)));
    });
  }
  void separable() {
    const bool mine = rng.coin();
    const VI k = mine ? rndValues(rng, rng.in(1, 5), -3, 3) : s.lk;
    const long o = mine ? rng.in(0, k.size() - 1) : k.size() / 2;
    VI out;
    if (mine) {
      const auto kernel = LineKernel<int>(std::vector<int>(k.begin(), k.end()), o).template along<0, 1>();
      out = nums(kernel * s.cimg());
    } else {
      out = nums(s.sep * s.cimg());
    }
    keep(ev("sep").a("k", k).n("o", o).a("out", out));
  }
  void interpol() {
    const long D = 4;
    ext([&](const auto& e, const char* m, long c) {
      const auto lin = interpolate<Linear>(e);
      const auto cub = interpolate<Cubic>(e);
      for (int i = 0; i < 4; ++i) {
        const VI q {rng.in(-2 * D, (s.shape[0] + 2) * D), rng.in(-2 * D, (s.shape[1] + 2) * D)};
        const Vector<double, 2> v {double(q[0]) / D, double(q[1]) / D};
        keep(ev("linear").s("m", m).n("c", c).n("D", D).a("q", q).n("out", vt::fix(lin(v), D * D, .01)));
        keep(ev("cubic").s("m", m).n("c", c).n("D", D).a("q", q).n("out", vt::fix(cub(v), 4. * D * D * D * D * D * D, .01)));
      }
    });
  }
  void arithmetic() {
    const long a = rng.in(-3, 3), b = rng.in(-3, 3);
    Raster<long, 2> in(mkpos<2>(s.shape));
    std::copy(s.cimg().begin(), s.cimg().end(), in.begin());
    own = in;
    own *= a;
    own += in;
    own.apply([=](long x) {
      return x + b;
    });
    own = own * 2L - own;
    keep(ev("own").n("a", a).n("b", b).a("out", nums(own)));
    const auto mm = std::minmax_element(own.begin(), own.end());
    keep(ev("extrema").n("min", *mm.first).n("max", *mm.second).b("equal", own == Raster<long, 2>(own)));
  }
  void write() {
    auto section = board.section(t);
    switch (rng.in(0, 2)) {
      case 0: {
        const long v = rng.in(-50, 50);
        section.fill(int(v));
        keep(ev("fill").n("v", v));
        break;
      }
      case 1: {
        const long i = rng.in(0, section.size() - 1), v = rng.in(-50, 50);
        board[{i, Index(t)}] = int(v);
        keep(ev("write").n("i", i).n("v", v));
        break;
      }
      default:
        section += int(t + 1);
        keep(ev("add").n("v", t + 1));
    }
    keep(ev("section").a("out", nums(section)));
  }
  void stats() {
    auto d = s.cimg().distribution();
    const long den = 8, num = rng.in(0, den);
    const bool first = rng.coin();
    const long q = vt::fix(d.quantile(num / double(den)), den, .001);
    const long m = vt::fix(d.median(), 2, .001);
    keep(ev("stats").n("num", num).n("den", den).n("quantile", q).n("median", m).n("min", d.min()).n("max", d.max()).n("sum", vt::fix(d.mean() * d.size(), 1, 1e-6)));
  }
  void noise() {
    const long seed = rng.in(1, 6), kind = rng.in(0, 5);
    std::vector<std::string> out;
    auto all = [&](auto&& g) {
      for (int i = 0; i < 5; ++i) {
        out.push_back(txt(g()));
      }
    };
    switch (kind) {
      case 0:
        all(UniformNoise<double>(0., 1., seed));
        break;
      case 1:
        all(GaussianNoise<double>(0., 1., seed));
        break;
      case 2:
        all(PoissonNoise<int>(7, seed));
        break;
      case 3:
        all(ImpulseNoise<int>(5, .5, seed));
        break;
      case 4:
        all(UniformNoise<int>(0, 99, seed));
        break;
      default: {
        StablePoissonNoise<int> g(7, seed);
        int x = 0;
        for (int i = 0; i < 5; ++i) {
          out.push_back(txt(g(3 + (x++ % 3))));
        }
      }
    }
    keep(ev("noise").n("kind", kind).n("seed", seed).sa("out", out));
  }
  void iterate() {
    const VI f {rng.in(0, s.shape[0] - 1), rng.in(0, s.shape[1] - 1)};
    const VI b {rng.in(f[0], s.shape[0] - 1), rng.in(f[1], s.shape[1] - 1)};
    VI index, value;
    const auto& in = s.cimg();
    const auto box = mkbox<2>(f, b);
    for (const auto& p : box) {
      index.push_back(in.index(p));
    }
    for (const auto& v : in.subraster(box)) {
      value.push_back(v);
    }
    keep(ev("iterate").a("f", f).a("b", b).a("index", index).a("value", value));
    std::ostringstream os;
    os << in;
    keep(ev("text").s("text", os.str()));
    long n = 0;
    for (const auto& p : Ball<3, 2>(2.)) {
      n += p[0] * p[0] + p[1] * p[1] + p[2] * p[2] <= 4;
    }
    keep(ev("ball").n("n", n));
    n = 0;
    for (const auto& p : s.ball) {
      n += p[0] * p[0] + p[1] * p[1] <= 4;
    }
    keep(ev("disk").n("n", n));
  }
  void says() {
    const long lo = rng.in(-9, 9), hi = rng.in(-9, 9), v = rng.in(-9, 9), indent = rng.in(0, 2);
    const std::string name = "of thread " + std::to_string(t);
    std::string what;
    try {
      OutOfBoundsError::mayThrow(name, v, std::make_pair(lo, hi));
    } catch (Exception& e) {
      what = e.append("in operation " + std::to_string(v), indent).what();
    }
    keep(ev("says").s("name", name).n("v", v).n("lo", lo).n("hi", hi).n("indent", indent).s("what", what));
    const long in = rng.in(0, 5), ref = rng.in(0, 5);
    what = "";
    try {
      SizeError::mayThrow(in, ref);
    } catch (const Exception& e) {
      what = e.what();
    }
    keep(ev("size").n("in", in).n("ref", ref).s("what", what));
  }
  void options() {
    const long v = rng.in(-99, 99), d = rng.in(0, 9);
    const bool given = rng.coin(), flag = rng.coin();
    ProgramOptions mine(name());
    mine.positional<std::string>("what", "What");
    mine.named<long>("value,v", "Some value", d);
    mine.flag("flag,f", "Some flag");
    const auto copy = mine;
    mine.parse((flag ? std::string("program -f ") : std::string("program ")) + name() + (given ? " --value=" + std::to_string(v) : ""));
    keep(ev("options")
             .n("value", mine.as<long>("value"))
             .n("expected", given ? v : d)
             .b("flag", mine.as<bool>("flag") == flag)
             .b("what", mine.as<std::string>("what") == name() && !copy.has("what"))
             .n("common", s.options.as<long>("value"))
             .n("shared", s.option)
             .b("has", s.options.has("value") && !s.options.has("what") && s.options.as<bool>("flag")));
  }
  std::string name() const {
    return "thread" + std::to_string(t);
  }
  void files() {
    const std::string path = folder + "/" + name() + ".fits";
    remove(path.c_str());
    Raster<short, 2> out(mkpos<2>({rng.in(1, 4), rng.in(1, 4)}));
    for (auto& e : out) {
      e = short(rng.in(-99, 99));
    }
    Fits file(path);
    std::string what;
    try {
      if (rng.coin(1, 3)) {
        Fits(folder + "/no" + name() + ".fits").read<Raster<int, 2>>();
      }
    } catch (const Exception& e) {
      what = e.what();
    }
    file.write(out);
    const auto in = file.read<Raster<short, 2>>();
    keep(ev("file").a("out", nums(out)).a("in", nums(in)).b("shape", in.shape() == out.shape()).b("what", what.empty() || what.find("/no" + name() + ".fits (") != std::string::npos));
    remove(path.c_str());
  }
  void buffers() {
    auto copy = s.aligned; // of a common buffer
    const long v = rng.in(-9, 9);
    copy += int(v);
    auto moved = std::move(copy);
    Sequence<long, AlignedBuffer<long>> own(std::size_t(rng.in(1, 9)), nullptr, 32);
    std::fill_n(own.data(), own.size(), v);
    const auto other = own;
    std::string what;
    long raw[3] = {v, v, v};
    try {
      const AlignedBuffer<char> shifted(2, reinterpret_cast<char*>(raw) + 1, 8);
    } catch (const Exception& e) {
      what = e.what();
    }
    keep(ev("buffer")
             .n("v", v)
             .a("out", nums(moved))
             .a("common", nums(s.aligned))
             .a("own", VI(other.data(), other.data() + other.size()))
             .b("aligned", std::size_t(other.data()) % 32 == 0 && std::size_t(moved.data()) % 16 == 0 && what.size() > 0));
  }
  void counts() {
    std::vector<int> e;
    for (long x = rng.in(-2, 10), n = rng.in(2, 5); n > 0; --n, x += rng.in(1, 6)) {
      e.push_back(int(x));
    }
    auto d = s.cimg().distribution();
    const auto out = d.histogram(e);
    keep(ev("counts").a("edges", VI(e.begin(), e.end())).a("out", VI(out.begin(), out.end())));
  }
  void lines() {
    const bool mine = rng.coin();
    const VI k = mine ? rndValues(rng, rng.in(1, 5), -3, 3) : s.lk;
    const long row = rng.in(0, s.shape[1] - 1), f = rng.in(0, s.shape[0] - 1), b = rng.in(f, s.shape[0] - 1), step = rng.in(1, 2);
    const DataSamples<const int> in(s.cimg().data() + row * s.shape[0], s.shape[0], {f, b, step});
    const long n = (b - f) / step + 1;
    std::vector<int> res(n, 99);
    DataSamples<int> out(res.data(), n);
    if (mine) {
      LineKernel<int>(std::vector<int>(k.begin(), k.end()), k.size() / 2).correlate(in, out);
    } else {
      s.line.correlate(in, out);
    }
    VI read;
    for (auto e : in) {
      read.push_back(e);
    }
    keep(ev("line").n("row", row).n("f", f).n("b", b).n("step", step).a("k", k).n("o", k.size() / 2).a("out", VI(res.begin(), res.end())).a("read", read));
  }
  void pipeline() {
    Pipe p;
    p.start = rng.in(0, 100);
    const long b = p.get<Second>(), a = p.get<First>();
    const bool timed = p.milliseconds<First>() >= 0 && p.milliseconds<Second>() >= 0;
    p.reset();
    const bool again = p.evaluated<First>() || p.evaluated<Second>();
    Chronometer<std::chrono::microseconds> chrono;
    chrono.start();
    chrono.stop();
    keep(ev("pipe").n("start", p.start).n("a", a).n("b", b).n("count", p.count).b("timed", timed && chrono.count() == 1).b("again", again));
  }
  template <typename P>
  void plan(const char* kind, const Position<2>& shape) {
    P dft(shape);
    auto idft = dft.inverse();
    VI in;
    for (auto& e : dft.in()) {
      in.push_back(rng.in(-9, 9));
      e = in.back();
    }
    dft.transform();
    const long zero = vt::fix(std::real(*dft.out().begin()), 1, 1e-6);
    idft.transform().normalize();
    VI out;
    for (auto e : idft.out()) {
      out.push_back(vt::fix(std::real(e), 1, 1e-6));
    }
    P moved(std::move(dft));
    keep(ev("dft").s("kind", kind).a("in", in).n("zero", zero).a("out", out));
  }
  void dft() {
    const auto shape = mkpos<2>({rng.in(1, 6), rng.in(1, 5)});
    if (rng.coin()) {
      plan<RealDft<2>>("real", shape);
    } else {
      plan<ComplexDft<2>>("complex", shape);
    }
  }
  void run(int phase) {
    for (int i = 0; i < reps; ++i) {
      switch (phase) {
        case 0:
          corr();
          break;
        case 1:
          median();
          break;
        case 2:
          separable();
          break;
        case 3:
          interpol();
          break;
        case 4:
          arithmetic();
          break;
        case 5:
          write();
          break;
        case 6:
          stats();
          break;
        case 7:
          noise();
          break;
        case 8:
          iterate();
          break;
        case 9:
          pipeline();
          break;
        case 10:
          dft();
          break;
        case 11:
          says();
          break;
        case 12:
          options();
          break;
        case 13:
          files();
          break;
        case 14:
          buffers();
          break;
        case 15:
          counts();
          break;
        case 16:
          lines();
          break;
        default:
          any();
      }
    }
  }
  void any() {
    const int p = int(rng.in(0, FAMILIES));
    const int n = reps;
    reps = 1;
    run(p);
    reps = n;
  }
};

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  vt::Rng rng(args.seed * 100 + args.part);
  Fits("first.fits").write(Raster<short, 1>({1})); // CFITSIO initializes itself at first use
  const int rounds = args.thorough ? 6 : 1;
  for (int round = 0; round < rounds; ++round) {
    for (int phase = 0; phase <= FAMILIES + 3; ++phase) {
      const VI shape = rndShape(rng, 2, 2, 5, 20);
      const Shared shared(rng, shape);
      Raster<int, 2> board(mkpos<2>({5, T}));
      for (auto& e : board) {
        e = int(rng.in(0, 20));
      }
      std::ostringstream os;
      os << shared.cimg();
      vt::Ev("begin").a("shape", shape).a("img", nums(shared.in)).a("board", nums(board)).s("text", os.str()).log();
      std::vector<std::unique_ptr<Worker>> workers;
      for (int t = 0; t < T; ++t) {
        workers.emplace_back(new Worker(t, args.seed * 10000 + round * 1000 + phase * 20 + t, shared, board, REPS));
      }
      plannerCount = 0;
      std::atomic<int> ready(0);
      std::vector<std::thread> threads;
      for (int t = 0; t < T; ++t) {
        threads.emplace_back([&, t]() {
          self = t + 1;
          ready.fetch_add(1, std::memory_order_relaxed);
          while (ready.load(std::memory_order_relaxed) < T) {
          }
          workers[t]->run(phase);
        });
      }
      for (auto& t : threads) {
        t.join();
      }
      for (const auto& w : workers) {
        for (const auto& line : w->kept) {
          fwrite(line.data(), 1, line.size(), vt::file());
        }
      }
      const long n = std::min(plannerCount.load(), PLANNER_MAX);
      for (long i = 0; i < n; ++i) {
        vt::Ev("planner").n("t", planner[i].thread).b("in", planner[i].in).log();
      }
      vt::Ev("after").a("img", nums(shared.in)).a("board", nums(board)).log();
    }
  }
  return vt::close();
}
