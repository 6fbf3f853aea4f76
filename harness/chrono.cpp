// Chronometers under a virtual clock (C23).
#include "trace.h"
#include "vclock.h"
#include "LitlRun/Chronometer.h"
#include <memory>
using namespace Litl;
typedef std::vector<long> VI;
static vt::Rng* rng;

struct Any {
  virtual ~Any() {}
  virtual void reset(long off, bool def) = 0;
  virtual void start() = 0;
  virtual long stop() = 0;
  virtual void obs(int s) = 0;
  virtual Any* copy() = 0;
  bool running = false;
};

/// Increments are logged in units U: TUnit, or scaled when TUnit is real
template <typename TUnit>
struct Of : Any {
  Chronometer<TUnit> c;
  double scale;
  Of(long off, bool def, double s) : c(def ? Chronometer<TUnit>() : Chronometer<TUnit>(TUnit(typename TUnit::rep(off / s)))), scale(s) {}
  long z(double v) {
    return vt::fix(v * scale, 1, 1e-4);
  }
  void reset(long off, bool def) override {
    if (def) {
      c.reset();
    } else {
      c.reset(TUnit(typename TUnit::rep(off / scale)));
    }
  }
  void start() override {
    c.start();
  }
  long stop() override {
    return z(double(c.stop().count()));
  }
  Any* copy() override {
    auto* o = new Of(*this);
    return o;
  }
  void obs(int s) override {
    const auto& k = c;
    VI incs;
    double lo = 1e300, hi = -1e300;
    for (double x : k.increments()) {
      incs.push_back(z(x));
      lo = std::min(lo, x * scale);
      hi = std::max(hi, x * scale);
    }
    vt::Ev e("obs");
    e.n("s", s).b("running", k.isRunning()).n("elapsed", z(double(k.elapsed().count()))).n("count", k.count()).a("incs", incs);
    const bool some = k.count() > 0 && !incs.empty();
    const double n = double(incs.size());
    const bool wide = !some || hi - lo > 2000;
    e.n("last", some ? z(double(k.last().count())) : 0)
        .n("min", some ? z(k.min()) : 0)
        .n("max", some ? z(k.max()) : 0)
        .n("mean", some ? vt::fix((k.mean() - k.increments()[0]) * scale * n, 1, 1e-2) : 0)
        .b("wide", wide)
        .n("var", wide ? 0 : vt::fix(k.stdev() * scale * std::fabs(k.stdev()) * scale * n * n, 1, 0.3)); // Signed square
    e.log();
  }
};

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  vt::Rng r(args.seed * 100 + args.part);
  rng = &r;
  namespace ch = std::chrono;
  typedef ch::duration<double> RealSeconds;
  typedef ch::duration<double, std::milli> RealMillis;
  typedef ch::duration<long, std::ratio<1, 60>> Frames;
  // tick length in nanoseconds, and unit of each type in ticks
  struct Mode {
    long tick;
    int kinds;
  };
  for (int h = 0; h < (args.thorough ? 300 : 80); ++h) {
    const int mode = int(rng->in(0, 3));
    const long long tick = mode == 0 ? 1 : mode == 1 ? 1000 : mode == 2 ? 1000000 : 250000000;
    vc::ns = tick * rng->in(1000, 2000);
    vt::Ev("begin").log();
    std::unique_ptr<Any> c[4];
    long total = 0;
    auto make = [&](int s) {
      const bool def = rng->coin(1, 4);
      long off = def ? 0 : rng->in(-1000, 1000); // Corrections may be negative
      long u = 1;
      const int k = int(rng->in(0, 2));
      if (mode == 0) {
        if (k == 0) {
          c[s].reset(new Of<ch::nanoseconds>(off, def, 1));
        } else if (k == 1) {
          u = 1000;
          c[s].reset(new Of<ch::microseconds>(off, def, 1));
        } else {
          c[s].reset(new Of<RealMillis>(off, def, 1e6));
        }
      } else if (mode == 1) {
        if (k == 0) {
          c[s].reset(new Of<ch::microseconds>(off, def, 1));
        } else if (k == 1) {
          u = 1000;
          c[s].reset(new Of<ch::milliseconds>(off, def, 1));
        } else {
          c[s].reset(new Of<RealSeconds>(off, def, 1e6));
        }
      } else if (mode == 2) {
        if (k == 0) {
          c[s].reset(new Of<ch::milliseconds>(off, def, 1));
        } else if (k == 1) {
          u = 1000;
          c[s].reset(new Of<ch::seconds>(off, def, 1));
        } else {
          c[s].reset(new Of<RealSeconds>(off, def, 1e3));
        }
      } else {
        if (k == 0) {
          u = 4;
          c[s].reset(new Of<ch::seconds>(off, def, 1));
        } else if (k == 1) {
          u = 240;
          c[s].reset(new Of<ch::minutes>(off, def, 1));
        } else {
          c[s].reset(new Of<ch::duration<double, std::ratio<1, 4>>>(off, def, 1));
        }
      }
      vt::Ev("make").n("s", s).n("u", u).n("off", off).log();
    };
    for (int s = 0; s < 4; ++s) {
      make(s);
    }
    const long base = rng->coin() ? 0 : 100000000; // long laps which hardly differ
    for (int o = 0; o < 60; ++o) {
      const int s = int(rng->in(0, 3));
      switch (rng->in(0, 9)) {
        case 0:
        case 1:
        case 2: {
          const long d = (rng->coin(1, 3) && total < 1000000000 ? base : 0) + rng->in(0, rng->coin() ? 30 : 1500);
          total += d;
          vc::ns += tick * d;
          vt::Ev("advance").n("d", d).log();
          break;
        }
        case 3:
        case 4:
          c[s]->start();
          c[s]->running = true;
          vt::Ev("start").n("s", s).log();
          break;
        case 5:
        case 6:
        case 7:
          if (c[s]->running) {
            const auto out = c[s]->stop();
            c[s]->running = false;
            vt::Ev("stop").n("s", s).n("out", out).log();
          } else {
            c[s]->start();
            c[s]->running = true;
            vt::Ev("start").n("s", s).log();
          }
          break;
        case 8: {
          const bool def = rng->coin(1, 3);
          const long off = def ? 0 : rng->in(-50, 50);
          c[s]->reset(off, def);
          c[s]->running = false;
          vt::Ev("reset").n("s", s).n("off", off).log();
          break;
        }
        default: {
          const int t = int(rng->in(0, 3));
          if (rng->coin(1, 3)) {
            make(s);
          } else if (t != s) {
            const bool run = c[s]->running;
            c[t].reset(c[s]->copy());
            c[t]->running = run;
            vt::Ev("copy").n("from", s).n("to", t).log();
          }
        }
      }
      c[s]->obs(s);
    }
    for (int s = 0; s < 4; ++s) {
      c[s]->obs(s);
    }
  }
  return vt::close();
}
