// Pipelines over every small graph, driven by histories which TLC generates (C22).
#include "trace.h"
#include "vclock.h"
#include "LitlRun/StepperPipeline.h"
#include <fstream>
#include <map>
#include <memory>
#include <stdexcept>
using namespace Litl;
typedef std::vector<long> VI;
static vt::Rng* rng;
const int N = 5;

// What the running test shares with the steps
static long stamp = 0;
static long failing = -1;
static VI evals;
static VI cost(N);

constexpr int pairOf(int j, int k) {
  return k * (k - 1) / 2 + j;
}
constexpr bool isPre(int mask, int j, int k) {
  return j >= 0 && j < k && ((mask >> pairOf(j, k)) & 1);
}

template <int M, int K>
struct Step;
/// Prerequisites as a pack of steps
template <typename... Ts>
struct Pack {
  template <typename T>
  using Push = Pack<Ts..., T>;
  template <typename T>
  using Front = Pack<T, Ts...>;
};
template <int M, int K, int J, typename P>
struct Collect {
  typedef typename Collect<
      M,
      K,
      J + 1,
      std::conditional_t<isPre(M, J, K), std::conditional_t<M % 2, typename P::template Front<Step<M, J>>, typename P::template Push<Step<M, J>>>, P>>::Type Type;
};
template <int M, int K, typename P>
struct Collect<M, K, K, P> {
  typedef P Type;
};
template <typename P>
struct ToPre;
template <>
struct ToPre<Pack<>> {
  typedef void Type;
};
template <typename T>
struct ToPre<Pack<T>> {
  typedef T Type;
};
template <typename T, typename U, typename... Ts>
struct ToPre<Pack<T, U, Ts...>> {
  typedef std::tuple<T, U, Ts...> Type;
};
/// Steps return their value or a reference to it
template <int K>
using Ret = std::conditional_t<K % 2, long, const long&>;
template <int M, int K>
struct Step : PipelineStep<typename ToPre<typename Collect<M, K, 0, Pack<>>::Type>::Type, Ret<K>> {
  static constexpr int Number = K;
};

struct AnyPipe {
  virtual ~AnyPipe() {}
  virtual long get(int k) = 0;
  virtual bool evaluated(int k) const = 0;
  virtual double ms(int k) const = 0;
  virtual double total() const = 0;
  virtual void restart() = 0;
  virtual AnyPipe* copy() const = 0;
};

template <int M>
class Pipe : public StepperPipeline<Pipe<M>>, public AnyPipe {
public:
  using StepperPipeline<Pipe<M>>::reset;
  long get(int k) override {
    switch (k) {
      case 0:
        return g<0>();
      case 1:
        return g<1>();
      case 2:
        return g<2>();
      case 3:
        return g<3>();
      default:
        return g<4>();
    }
  }
  bool evaluated(int k) const override {
    const StepperPipeline<Pipe>& p = *this;
    return k == 0 ? p.template evaluated<Step<M, 0>>() :
        k == 1    ? p.template evaluated<Step<M, 1>>() :
        k == 2    ? p.template evaluated<Step<M, 2>>() :
        k == 3    ? p.template evaluated<Step<M, 3>>() :
                    p.template evaluated<Step<M, 4>>();
  }
  double ms(int k) const override {
    const StepperPipeline<Pipe>& p = *this;
    return k == 0 ? p.template milliseconds<Step<M, 0>>() :
        k == 1    ? p.template milliseconds<Step<M, 1>>() :
        k == 2    ? p.template milliseconds<Step<M, 2>>() :
        k == 3    ? p.template milliseconds<Step<M, 3>>() :
                    p.template milliseconds<Step<M, 4>>();
  }
  double total() const override {
    const StepperPipeline<Pipe>& p = *this;
    return p.milliseconds();
  }
  void restart() override {
    reset();
  }
  AnyPipe* copy() const override {
    return new Pipe(*this);
  }

protected:
  template <typename S>
  void doEvaluate() {
    constexpr int K = S::Number;
    evals.push_back(K);
    ++stamp;
    vc::ns += cost[K] * 125000LL; // durations are logged in eighths of a millisecond
    long v = stamp;
    for (int j = 0; j < K; ++j) {
      if (isPre(M, j, K)) {
        v += m_val[j];
      }
    }
    m_val[K] = v;
    if (failing == K) {
      m_val[K] = -1000000;
      throw std::runtime_error("step failed");
    }
  }
  template <typename S>
  typename S::Return doGet() {
    vc::ns += 100000000LL;
    return m_val[S::Number];
  }

private:
  template <int K>
  long g() {
    return static_cast<StepperPipeline<Pipe>&>(*this).template get<Step<M, K>>();
  }
  long m_val[N] = {0, 0, 0, 0, 0};
};

#ifndef MASKS
#define MASKS 93, 117, 179, 224, 319, 325, 431, 444, 540, 606, 701, 728, 731, 771, 821, 823, 858, 878, 924, 925, 986, 1008, 1023
#endif
typedef AnyPipe* (*Factory)();
template <int M>
AnyPipe* make() {
  return new Pipe<M>();
}
template <int... Ms>
void fill(std::map<int, Factory>& f, std::integer_sequence<int, Ms...>) {
  using mock = int[];
  (void)mock {(f[Ms] = &make<Ms>, 0)...};
}

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  vt::Rng r(args.seed * 100 + args.part);
  rng = &r;
  std::map<int, Factory> factories;
  fill(factories, std::make_integer_sequence<int, 64> {});
  fill(factories, std::integer_sequence<int, MASKS> {});
  std::ifstream f(args.script);
  std::string line;
  long c = 0;
  while (std::getline(f, line)) {
    if (c++ % args.parts != args.part) {
      continue;
    }
    std::istringstream ops(line);
    std::string op;
    std::unique_ptr<AnyPipe> pipes[3];
    while (std::getline(ops, op, ';')) {
      std::istringstream is(op);
      std::string name;
      is >> name;
      int p = 0;
      if (name == "dag") {
        int m;
        is >> m;
        stamp = 0;
        for (auto& q : pipes) {
          q.reset(factories.at(m)());
        }
        vt::Ev("begin").n("dag", m).log();
        continue;
      }
      if (name == "get") {
        int k;
        is >> p >> k >> failing;
        evals.clear();
        for (auto& e : cost) {
          e = rng->in(0, rng->coin() ? 9 : 9000);
        }
        bool threw = false;
        long out = 0;
        try {
          out = pipes[p]->get(k);
        } catch (const std::runtime_error&) {
          threw = true;
        }
        vt::Ev("get").n("p", p).n("k", k).n("fail", failing).b("threw", threw).a("evals", evals).a("cost", cost).n("out", out).log();
        failing = -1;
      } else if (name == "reset") {
        is >> p;
        pipes[p]->restart();
        vt::Ev("reset").n("p", p).log();
      } else if (name == "copy") {
        int q;
        is >> p >> q;
        pipes[q].reset(pipes[p]->copy());
        vt::Ev("copy").n("p", p).n("q", q).log();
        p = q;
      }
      VI e, ms;
      for (int k = 0; k < N; ++k) {
        e.push_back(pipes[p]->evaluated(k));
        const double t = pipes[p]->ms(k);
        ms.push_back(t < 0 ? -1 : vt::inum(8 * t)); // negative if not evaluated
      }
      vt::Ev("obs").n("p", p).a("evaluated", e).a("ms", ms).n("total", 8 * pipes[p]->total()).log();
    }
  }
  return vt::close();
}
