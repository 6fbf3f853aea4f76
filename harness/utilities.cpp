// Utilities (C29): functions applied to tuples, sequences and tuples of iterators; serialization; exceptions and their messages.
#include "LitlContainer/AlignedBuffer.h"
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "LitlTypes/Exceptions.h"
#include "LitlTypes/Segment.h"
#include "LitlTypes/SeqUtils.h"
#include "trace.h"

#include <deque>
#include <list>
#include <memory>
#include <set>

using namespace Litl;
using vt::Ev;

// a function with a memory
struct Each {
  int step;
  std::vector<long> got;
  template <typename T>
  long operator()(T& x) {
    got.push_back(long(x));
    x = T(x + step);
    return 10 * long(x) + long(got.size());
  }
};
struct EachConst {
  std::vector<long> got;
  template <typename T>
  long operator()(const T& x) {
    got.push_back(long(x));
    return 10 * long(x) + long(got.size());
  }
};

template <typename TSeq>
std::vector<long> longs(const TSeq& s) {
  std::vector<long> out;
  for (const auto& e : s) {
    out.push_back(long(e));
  }
  return out;
}
template <typename... Ts, std::size_t... Is>
std::vector<long> longsImpl(const std::tuple<Ts...>& t, std::index_sequence<Is...>) {
  return {long(std::get<Is>(t))...};
}
template <typename... Ts>
std::vector<long> longs(const std::tuple<Ts...>& t) {
  return longsImpl(t, std::index_sequence_for<Ts...>());
}

struct Counter {
  std::vector<long> got;
  void operator()(long a) {
    got.push_back(a);
  }
  void operator()(long a, long b) {
    got.push_back(a);
    got.push_back(b);
  }
};
struct Record {
  long a;
  long b;
  long c;
};

static long rnd(std::mt19937_64& g) {
  return long(g() % 21);
}

template <typename TSeq>
void foreachOf(const char* what, TSeq seq, int step) { // owned copy
  const auto before = longs(seq);
  Each f {step, {}};
  seqForeach(seq, f);
  Ev("foreach").s("what", what).n("step", step).a("before", before).a("got", f.got).a("after", longs(seq)).log();
  const auto& view = seq;
  EachConst g;
  seqForeach(view, g);
  Ev("foreach").s("what", what).n("step", 0).a("before", longs(seq)).a("got", g.got).a("after", longs(view)).log();
}

template <typename TReturn, typename TSeq>
void transformOf(const char* what, const TSeq& seq) {
  EachConst f;
  std::vector<long> got;
  const auto out = seqTransform<TReturn>(seq, [&](const auto& x) {
    return f(x);
  });
  Ev("transform").s("what", what).a("before", longs(seq)).a("got", f.got).a("out", longs(out)).log();
}

template <typename TSeq>
TSeq make(std::mt19937_64& g, std::size_t n) {
  TSeq out(n);
  for (auto& e : out) {
    e = rnd(g);
  }
  return out;
}

static void sequences(std::mt19937_64& g, int reps) {
  for (int i = 0; i < reps; ++i) {
    const int step = int(g() % 7) - 3;
    // mostly short sequences; longer ones of each length, and some very long ones
    const std::size_t n = i % 3 ? g() % 7 : i % 60 == 0 ? 100 + g() % 300 : std::size_t(i / 3) % 41;
    foreachOf("vector", make<std::vector<int>>(g, n), step);
    foreachOf("deque", make<std::deque<long>>(g, n), step);
    foreachOf("list", make<std::list<short>>(g, n), step);
    foreachOf("Sequence", make<Sequence<int>>(g, n), step);
    foreachOf("array", std::array<int, 4> {{int(rnd(g)), int(rnd(g)), int(rnd(g)), int(rnd(g))}}, step);
    foreachOf("tuple", std::make_tuple(int(rnd(g)), double(rnd(g)), long(rnd(g))), step);
    foreachOf("tuple1", std::make_tuple(float(rnd(g))), step);
    foreachOf("tuple7", std::make_tuple(int(rnd(g)), double(rnd(g)), (short)(rnd(g)), (signed char)(rnd(g)), float(rnd(g)), rnd(g), int(rnd(g))), step);
    foreachOf("tuple0", std::tuple<>(), step);
    Raster<int, 2> r({long(1 + g() % 3), long(1 + g() % 3)});
    for (auto& e : r) {
      e = int(rnd(g));
    }
    foreachOf("Raster", r, step);
    foreachOf("Position", Position<3> {rnd(g), rnd(g), rnd(g)}, step);
    transformOf<std::vector<long>>("vector", make<std::vector<int>>(g, n));
    transformOf<std::deque<long>>("deque", make<std::vector<int>>(g, n));
    transformOf<std::vector<double>>("list", make<std::list<float>>(g, n));
    transformOf<Sequence<long>>("Sequence", make<Sequence<int>>(g, n));
    transformOf<std::vector<long>>("Raster", r);
    transformOf<std::array<long, 4>>("array", std::array<int, 4> {{int(rnd(g)), int(rnd(g)), int(rnd(g)), int(rnd(g))}});
    transformOf<std::vector<long>>("tuple", std::make_tuple(int(rnd(g)), double(rnd(g)), long(rnd(g))));
    transformOf<std::tuple<long, long, double>>("tuples", std::make_tuple(int(rnd(g)), double(rnd(g)), long(rnd(g))));
    { // temporaries; sequences given with their constness
      EachConst f;
      const long a = rnd(g), b = rnd(g);
      seqForeach(std::make_tuple(a, int(b)), f);
      Ev("foreach").s("what", "temporary").n("step", 0).a("before", std::vector<long> {a, b}).a("got", f.got).a("after", std::vector<long> {a, b}).log();
      EachConst h;
      seqForeach(std::vector<long> {a, b, a}, h);
      Ev("foreach").s("what", "temporary").n("step", 0).a("before", std::vector<long> {a, b, a}).a("got", h.got).a("after", std::vector<long> {a, b, a}).log();
      int x = int(a);
      double y = double(b);
      Each k {step, {}};
      seqForeach(std::tie(x, y), k); // elements of someone else
      Ev("foreach").s("what", "tied").n("step", step).a("before", std::vector<long> {a, b}).a("got", k.got).a("after", std::vector<long> {x, long(y)}).log();
    }
    { // structures
      const auto t = std::make_tuple(int(rnd(g)), rnd(g), (short)(rnd(g)));
      const auto s = tupleAs<Record>(t);
      Ev("as").a("in", longs(t)).a("out", std::vector<long> {s.a, s.b, s.c}).log();
      const auto s2 = tupleAs<Record>(std::array<long, 3> {{rnd(g), 1, 2}});
      Ev("as").a("in", std::vector<long> {s2.a, 1, 2}).a("out", std::vector<long> {s2.a, s2.b, s2.c}).log();
      const auto s3 = tupleAs<std::vector<long>>(std::make_tuple(long(s.a), long(s.b)));
      Ev("as").a("in", std::vector<long> {s.a, s.b}).a("out", s3).log();
      const auto p = std::make_tuple(rnd(g), int(rnd(g)));
      Ev("as").a("in", longs(p)).a("out", longs(tupleAs<std::tuple<long, double>>(p))).log();
    }
    { // functions which remember, of which no copy is called; elements which cannot be copied
      Counter f;
      const long a = rnd(g), b = rnd(g);
      tupleApply(std::make_tuple(a, b), f);
      tupleApply(std::make_tuple(b), f);
      Ev("remembered").a("in", std::vector<long> {a, b, b}).a("got", f.got).log();
      Counter h;
      auto its = std::make_tuple(&a, &b);
      iteratorTupleApply(its, h);
      Ev("remembered").a("in", std::vector<long> {a, b}).a("got", h.got).log();
      long c = 0;
      tupleApply(std::make_tuple(std::make_unique<long>(a)), [&](std::unique_ptr<long>& p) {
        c = *p;
      });
      Ev("as").a("in", std::vector<long> {a}).a("out", std::vector<long> {c}).log();
    }
    { // whole tuples
      auto t = std::make_tuple(int(rnd(g)), rnd(g), double(rnd(g)));
      const auto before = longs(t);
      std::vector<long> got;
      auto&& out = tupleApply(t, [&](int& a, long& b, double& c) -> long& {
        got = {long(a), b, long(c)};
        a += step;
        b += step;
        c += step;
        return b;
      });
      const bool same = &out == &std::get<1>(t);
      Ev("applied").a("before", before).a("got", got).a("after", longs(t)).n("step", step).n("out", out).b("reference", same).log();
      const auto& u = t;
      const auto sum = tupleApply(u, [](auto... e) {
        return sizeof...(e);
      });
      Ev("arity").n("in", 3).n("out", sum).log();
      const auto none = tupleApply(std::tuple<>(), [](auto... e) {
        return sizeof...(e);
      });
      Ev("arity").n("in", 0).n("out", none).log();
      const auto four = tupleApply(std::array<int, 4> {{1, 2, 3, 4}}, [](int a, int b, int c, int d) {
        return a + 10 * b + 100 * c + 1000 * d == 4321 ? 4 : -1;
      });
      Ev("arity").n("in", 4).n("out", four).log();
    }
  }
  Ev("traits")
      .b("tuple", isTuple<std::tuple<int, char>>() && isTuple<std::tuple<>>() && isTuple<std::array<int, 3>>() && isTuple<const std::tuple<int>&>() &&
             isTuple<std::array<int, 3>&&>())
      .b("notTuple", isTuple<std::vector<int>>() || isTuple<int>() || isTuple<Raster<int>>() || isTuple<const std::list<int>&>() || isTuple<Position<2>>())
      .b("iterable", isIterable<std::vector<int>>::value && isIterable<const std::list<int>&>::value && isIterable<Raster<int>>::value &&
             isIterable<Position<2>>::value && isIterable<std::array<int, 2>&>::value && isIterable<std::string>::value)
      .b("notIterable", isIterable<int>::value || isIterable<std::tuple<int, int>>::value || isIterable<double*>::value || isIterable<Segment>::value)
      .log();
}

static void iterators(std::mt19937_64& g, int reps) {
  for (int i = 0; i < reps; ++i) {
    const std::size_t n = 2 + g() % 5;
    auto a = make<std::vector<int>>(g, n);
    auto b = make<std::list<long>>(g, n + g() % 3);
    auto c = make<Sequence<double>>(g, n + g() % 2);
    const auto k0 = g() % 2;
    auto its = std::make_tuple(a.begin() + k0, b.begin(), c.begin() + 0);
    auto pos = [&]() {
      return std::vector<long> {std::get<0>(its) - a.begin(), std::distance(b.begin(), std::get<1>(its)), std::get<2>(its) - c.begin()};
    };
    auto seqs = [&]() {
      return std::vector<std::vector<long>> {longs(a), longs(b), longs(c)};
    };
    Ev("iterators").aa("seqs", seqs()).a("pos", pos()).log();
    for (std::size_t k = k0; k < n; ++k) {
      const int step = int(g() % 5) - 2;
      std::vector<long> got;
      long out = 0;
      if (g() % 3) {
        out = iteratorTupleApply(its, [&](int& x, long& y, double& z) {
          got = {long(x), y, long(z)};
          x += step;
          y += step;
          z += step;
          return x + 2 * y + 3 * long(z);
        });
      } else { // function without result
        iteratorTupleApply(its, [&](int& x, long& y, double& z) {
          got = {long(x), y, long(z)};
          x += step;
          y += step;
          z += step;
        });
        out = got[0] + 2 * got[1] + 3 * got[2] + 6 * step;
      }
      Ev("advance").n("step", step).a("got", got).n("out", out).a("pos", pos()).aa("seqs", seqs()).log();
    }
    std::array<const int*, 2> pointers {{a.data(), a.data() + 1}};
    long sum = 0;
    for (std::size_t k = 0; k + 1 < n; ++k) {
      sum = iteratorTupleApply(pointers, [](int x, int y) {
        return long(x + 100 * y);
      });
      Ev("pointers").a("seq", longs(a)).n("k", k).n("out", sum).a("pos", std::vector<long> {pointers[0] - a.data(), pointers[1] - a.data()}).log();
    }
  }
}

static std::string randomText(std::mt19937_64& g) {
  static const char* texts[] = {"", "a", "Cannot do this", "x: y", "file.fits", "[0, 1]", "  indented", "a,b"};
  if (g() % 12 == 0) { // Long texts
    return std::string(20 + g() % 500, 'a' + char(g() % 26));
  }
  return texts[g() % 8];
}

static void serialization(std::mt19937_64& g, int reps) {
  auto log = [](const std::vector<std::string>& texts, const std::string& out) {
    Ev("serialize").sa("texts", texts).s("out", out).log();
  };
  for (int i = 0; i < reps; ++i) {
    const long a = rnd(g), b = rnd(g) - 30;
    const auto s = randomText(g), t = randomText(g);
    const char* c = "str";
    {
      std::ostringstream os;
      serialize(os, a);
      log({std::to_string(a)}, os.str());
    }
    {
      std::ostringstream os;
      serialize(os, s);
      log({s}, os.str());
      serialize(os, b, t, c); // after what is there
      log({s + std::to_string(b), t, "str"}, os.str());
    }
    {
      std::ostringstream os;
      serialize(os, 1, 3.14, "str");
      log({"1", "3.14", "str"}, os.str());
    }
    {
      std::ostringstream os;
      serialize(os, std::string("tmp"), a, std::move(std::string("moved")), b, s, t, 'c');
      log({"tmp", std::to_string(a), "moved", std::to_string(b), s, t, "c"}, os.str());
    }
    {
      std::ostringstream os;
      serialize(os, a, b, s, t, c, a + 1, b + 1, t, s, 'd', a + 2, b + 2);
      const auto text = [](long i) {
        return std::to_string(i);
      };
      log({text(a), text(b), s, t, "str", text(a + 1), text(b + 1), t, s, "d", text(a + 2), text(b + 2)}, os.str());
      serialize(os, s, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, a);
      log({text(a), text(b), s, t, "str", text(a + 1), text(b + 1), t, s, "d", text(a + 2), text(b + 2) + s, "1", "2", "3", "4", "5",
           "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", text(a)}, os.str());
    }
  }
}

// --- Exceptions
using Slot = std::unique_ptr<Exception>;

static std::string what(const Exception& e) {
  const std::exception& base = e;
  return base.what();
}

static void show(const char* op, const std::vector<Slot>& slots, Ev& ev) {
  (void)op;
  std::vector<std::string> texts;
  for (const auto& s : slots) {
    texts.push_back(s ? what(*s) : std::string());
  }
  ev.sa("messages", texts).log();
}

static void exceptions(std::mt19937_64& g, int histories, int length) {
  for (int h = 0; h < histories; ++h) {
    std::vector<Slot> slots(3);
    Ev("slots").log();
    for (int k = 0; k < length; ++k) {
      const auto s = g() % 3;
      const auto r = (s + 1 + g() % 2) % 3;
      switch (slots[s] ? g() % 7 : g() % 3) {
        case 0: {
          const auto text = randomText(g);
          slots[s].reset(new Exception(text));
          Ev ev("make");
          ev.n("slot", s).s("prefix", "Litl error").s("text", text);
          show("make", slots, ev);
          break;
        }
        case 1: {
          const auto prefix = randomText(g), text = randomText(g);
          slots[s].reset(new Exception(prefix, text));
          Ev ev("make");
          ev.n("slot", s).s("prefix", prefix).s("text", text);
          show("make", slots, ev);
          break;
        }
        case 2: {
          const auto text = randomText(g);
          slots[s].reset(new NullPtrError(text));
          Ev ev("make");
          ev.n("slot", s).s("prefix", "Null pointer error").s("text", text);
          show("make", slots, ev);
          break;
        }
        case 3:
        case 4: { // several at once
          const auto line = randomText(g);
          const std::size_t indent = g() % 4 ? g() % 4 : g() % 70;
          const bool twice = g() % 2;
          Exception& e = indent == 0 ? slots[s]->append(line) : slots[s]->append(line, indent);
          if (twice) {
            e.append(line, 1);
          }
          Ev ev("append");
          ev.n("slot", s).s("line", line).n("indent", indent).b("twice", twice);
          show("append", slots, ev);
          break;
        }
        case 5: {
          slots[r].reset(new Exception(*slots[s]));
          Ev ev("copy");
          ev.n("slot", s).n("to", r);
          show("copy", slots, ev);
          break;
        }
        default: { // thrown, completed on the way, seen at the end: the original is not concerned
          std::string seen;
          const auto line = randomText(g);
          try {
            try {
              throw *slots[s];
            } catch (Exception& e) {
              e.append(line, 2);
              throw;
            }
          } catch (std::exception& e) {
            seen = e.what();
          }
          Ev ev("thrown");
          ev.n("slot", s).s("line", line).s("seen", seen);
          show("thrown", slots, ev);
        }
      }
    }
  }
}

template <typename T>
void boundsOf(const char* type, const std::string& name, T value, T lo, T hi, long v, long l, long u) {
  bool thrown = false;
  std::string text;
  try {
    OutOfBoundsError::mayThrow(name, value, std::pair<T, T>(lo, hi));
  } catch (OutOfBoundsError& e) {
    thrown = true;
    text = what(e);
  }
  Ev("bounds").s("type", type).s("name", name).n("value", v).n("lo", l).n("hi", u).b("thrown", thrown).s("text", text).log();
}

// Reals which are not finite: 1000 stands for the infinity, 1001 for not-a-number
template <typename T>
T real(long v) {
  typedef std::numeric_limits<T> Limits;
  return v == 1001 ? Limits::quiet_NaN() : v == 1000 ? Limits::infinity() : v == -1000 ? -Limits::infinity() : T(v / 4.);
}
template <typename T>
void realBounds() {
  for (long v : {-1000L, -9L, 0L, 3L, 9L, 1000L, 1001L}) {
    for (long l : {-1000L, -9L, 0L, 1000L, 1001L}) {
      for (long u : {-1000L, 0L, 9L, 1000L, 1001L}) {
        if (l <= u) {
          boundsOf<T>("real", "Real", real<T>(v), real<T>(l), real<T>(u), v, l, u);
        }
      }
    }
  }
}

static void bounds(std::mt19937_64& g, int reps) {
  realBounds<float>();
  realBounds<double>();
  realBounds<long double>();
  for (long l = -2; l <= 2; ++l) {
    for (long u = l; u <= 3; ++u) {
      for (long v = -4; v <= 5; ++v) {
        const auto name = randomText(g);
        boundsOf<int>("int", name, v, l, u, v, l, u);
        boundsOf<long>("int", name, v, l, u, v, l, u);
        boundsOf<double>("quarter", name, v / 4., l / 4., u / 4., v, l, u);
        boundsOf<float>("quarter", name, v / 4.f, l / 4.f, u / 4.f, v, l, u);
        if (v >= 0 && l >= 0) {
          boundsOf<unsigned>("int", name, v, l, u, v, l, u);
          boundsOf<std::size_t>("int", name, v, l, u, v, l, u);
        }
      }
    }
  }
  for (int i = 0; i < reps; ++i) {
    long l = long(g() % 2000000) - 1000000, u = long(g() % 2000000) - 1000000;
    if (l > u) {
      std::swap(l, u);
    }
    const long v = i % 4 == 0 ? l : i % 4 == 1 ? u + 1 : i % 4 == 2 ? l - 1 : long(g() % 2000000) - 1000000;
    boundsOf<long>("int", "Index", v, l, u, v, l, u);
    boundsOf<double>("quarter", "Index", v / 4., l / 4., u / 4., v, l, u);
  }
  for (std::size_t in = 0; in < 12; ++in) {
    for (std::size_t ref = 0; ref < 12; ++ref) {
      bool thrown = false;
      std::string text;
      try {
        SizeError::mayThrow(in, ref);
      } catch (Exception& e) {
        thrown = true;
        text = what(e);
      }
      Ev("size").n("in", in).n("ref", ref).b("thrown", thrown).s("text", text).log();
    }
  }
  int target = 0;
  for (int null = 0; null < 2; ++null) {
    for (int i = 0; i < 4; ++i) {
      const auto message = randomText(g);
      bool thrown = false;
      std::string text;
      try {
        NullPtrError::mayThrow(null ? nullptr : &target, message);
      } catch (NullPtrError& e) {
        thrown = true;
        text = what(e);
      }
      Ev("null").b("null", null).s("message", message).b("thrown", thrown).s("text", text).log();
    }
  }
  alignas(64) static char buffer[256];
  for (std::size_t as = 1; as <= 64; as *= 2) {
    for (int offset = 0; offset <= 64; offset += 1 + int(g() % 4)) {
      bool thrown = false;
      std::string text;
      const void* p = buffer + offset;
      try {
        AlignmentError::mayThrow(p, as);
      } catch (AlignmentError& e) {
        thrown = true;
        text = what(e);
      }
      char address[32];
      std::snprintf(address, sizeof(address), "%p", p);
      Ev("aligned").n("offset", offset).n("as", as).s("address", address).b("thrown", thrown).s("text", text).log();
    }
  }
  bool thrown = false;
  std::string text;
  try {
    AlignmentError::mayThrow(nullptr, 8);
  } catch (NullPtrError& e) {
    thrown = true;
  }
  Ev("nullAligned").b("thrown", thrown).log();
}

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  std::mt19937_64 g(args.seed * 1000 + args.part);
  if (args.part == 0) {
    sequences(g, args.thorough ? 600 : 125);
    iterators(g, args.thorough ? 800 : 80);
  } else {
    serialization(g, args.thorough ? 400 : 40);
    exceptions(g, args.thorough ? 600 : 60, args.thorough ? 30 : 15);
    bounds(g, args.thorough ? 4000 : 200);
  }
  Ev("end").log();
  return 0;
}
