// User-defined pixel types and data holders, channel layouts, nested rasters (C30).
#include "LitlContainer/Sequence.h"
#include "LitlRaster/Raster.h"
#include "trace.h"

#include <list>
#include <map>
#include <memory>
#include <set>

using namespace Litl;
using vt::Ev;

// --- A pixel which says how it was computed, owns memory, and knows whether it is alive

static std::set<const void*>& alive() {
  static std::set<const void*> s;
  return s;
}
static long& faults() { // objects used before or after their lives
  static long n = 0;
  return n;
}

struct Term {
  std::string* text;

  Term() : text(new std::string("?")) {
    alive().insert(this);
  }
  Term(const char* t) : text(new std::string(t)) {
    alive().insert(this);
  }
  explicit Term(const std::string& t) : text(new std::string(t)) {
    alive().insert(this);
  }
  Term(const Term& other) : text(new std::string(other.get())) {
    alive().insert(this);
  }
  Term(Term&& other) : text(new std::string(other.get())) {
    alive().insert(this);
    *other.text = "moved"; // visible if someone still uses it
  }
  Term& operator=(const Term& other) {
    const auto t = other.get();
    get();
    *text = t;
    return *this;
  }
  Term& operator=(Term&& other) {
    const auto t = other.get();
    get();
    if (this != &other) {
      *other.text = "moved";
    }
    *text = t;
    return *this;
  }
  ~Term() {
    if (!alive().erase(this)) {
      ++faults();
    }
    delete text;
  }
  const std::string& get() const {
    static const std::string dead = "dead";
    if (!alive().count(this)) {
      ++faults();
      return dead;
    }
    return *text;
  }
};

#define TERM_OPERATOR(op) \
  static Term operator op(const Term& a, const Term& b) { \
    return Term("(" + a.get() + #op + b.get() + ")"); \
  }
TERM_OPERATOR(+)
TERM_OPERATOR(-)
TERM_OPERATOR(*)
TERM_OPERATOR(/)
TERM_OPERATOR(%)
static Term operator-(const Term& a) {
  return Term("-" + a.get());
}
static Term& operator++(Term& a) {
  a = Term("++" + a.get());
  return a;
}
static Term& operator--(Term& a) {
  a = Term("--" + a.get());
  return a;
}
static bool operator==(const Term& a, const Term& b) {
  return a.get() == b.get();
}
static bool operator!=(const Term& a, const Term& b) {
  return a.get() != b.get();
}
static std::ostream& operator<<(std::ostream& os, const Term& a) {
  return os << a.get();
}

// --- A holder with the least a holder must have, and some more of its own
template <typename T>
struct UserHolder {
  explicit UserHolder(std::size_t s, const T* d = nullptr, std::string tag = "default") : m_size(s), m_data(new T[s]), m_tag(tag) {
    if (d) {
      std::copy_n(d, s, m_data.get());
    }
  }
  UserHolder(const UserHolder& o) : UserHolder(o.m_size, o.m_data.get(), o.m_tag) {}
  UserHolder(UserHolder&& o) : m_size(o.m_size), m_data(std::move(o.m_data)), m_tag(o.m_tag) {
    o.m_size = 0;
  }
  UserHolder& operator=(const UserHolder& o) {
    if (this != &o) {
      *this = UserHolder(o);
    }
    return *this;
  }
  UserHolder& operator=(UserHolder&& o) {
    std::swap(m_size, o.m_size);
    std::swap(m_data, o.m_data);
    m_tag = o.m_tag;
    o.m_data.reset();
    o.m_size = 0;
    return *this;
  }
  std::size_t size() const {
    return m_size;
  }
  const T* data() const {
    return m_data.get();
  }
  const std::string& tag() const {
    return m_tag;
  }

private:
  std::size_t m_size;
  std::unique_ptr<T[]> m_data;
  std::string m_tag;
};

template <typename TC>
std::vector<std::string> texts(const TC& c) {
  std::vector<std::string> out;
  for (const auto& e : c) {
    out.push_back(e.get());
  }
  return out;
}

static std::string quoted(const std::vector<std::string>& v) {
  std::string out = "[";
  for (const auto& e : v) {
    out += (out.size() > 1 ? ",\"" : "\"") + e + "\"";
  }
  return out + "]";
}

struct Shapes {
  Index w, h;
};

template <typename TC>
struct Make; // container of n named pixels

template <typename THolder>
struct Make<Raster<Term, 2, THolder>> {
  static Raster<Term, 2, THolder> run(Shapes s) {
    return Raster<Term, 2, THolder>({s.w, s.h});
  }
  template <typename... Ts>
  static Raster<Term, 2, THolder> from(Shapes s, Ts&&... args) {
    return Raster<Term, 2, THolder>({s.w, s.h}, std::forward<Ts>(args)...);
  }
};
template <typename THolder>
struct Make<Raster<Term, -1, THolder>> {
  static Raster<Term, -1, THolder> run(Shapes s) {
    return Raster<Term, -1, THolder>(Position<-1> {s.w, s.h});
  }
  template <typename... Ts>
  static Raster<Term, -1, THolder> from(Shapes s, Ts&&... args) {
    return Raster<Term, -1, THolder>(Position<-1> {s.w, s.h}, std::forward<Ts>(args)...);
  }
};
template <typename THolder>
struct Make<Raster<Term, 1, THolder>> {
  static Raster<Term, 1, THolder> run(Shapes s) {
    return Raster<Term, 1, THolder>(Position<1> {s.w * s.h});
  }
  template <typename... Ts>
  static Raster<Term, 1, THolder> from(Shapes s, Ts&&... args) {
    return Raster<Term, 1, THolder>(Position<1> {s.w * s.h}, std::forward<Ts>(args)...);
  }
};
template <typename THolder>
struct Make<Sequence<Term, THolder>> {
  static Sequence<Term, THolder> run(Shapes s) {
    return Sequence<Term, THolder>(s.w * s.h);
  }
  template <typename... Ts>
  static Sequence<Term, THolder> from(Shapes s, Ts&&... args) {
    return Sequence<Term, THolder>(s.w * s.h, std::forward<Ts>(args)...);
  }
};

// --- Construction from data of another type and from the underlying container, for the holders which support them
template <typename TC, typename THolder>
bool fromTexts(TC&, Shapes, const char**, THolder*) {
  return false;
}
template <typename TC, typename TU>
bool fromTexts(TC& c, Shapes s, const char** data, StdHolder<TU>*) {
  c = Make<TC>::from(s, data);
  return true;
}
template <typename TC, typename THolder>
bool fromContainer(TC&, Shapes, const TC&, THolder*) {
  return false;
}
template <typename TC, typename TU>
bool fromContainer(TC& c, Shapes s, const TC& a, StdHolder<TU>*) {
  auto container = a.container();
  c = Make<TC>::from(s, std::move(container));
  TU out;
  TC t(c);
  t.moveTo(out);
  c = Make<TC>::from(s, std::move(out));
  return true;
}

// the longest text, to start again before texts explode
template <typename TC>
std::size_t longest(const TC& c) {
  std::size_t n = 0;
  for (const auto& e : c) {
    n = std::max(n, e.get().size());
  }
  return n;
}

struct Rank {
  std::string name;
  int rank = 0;
  Term call(const std::vector<const Term*>& args) {
    std::string t = name + "(";
    for (const auto* a : args) {
      t += a->get() + ",";
    }
    return Term(t + std::to_string(++rank) + ")");
  }
  Term operator()() {
    return call({});
  }
  Term operator()(const Term& a) {
    return call({&a});
  }
  Term operator()(const Term& a, const Term& b) {
    return call({&a, &b});
  }
  Term operator()(const Term& a, const Term& b, const Term& c) {
    return call({&a, &b, &c});
  }
};

template <typename TC>
void histories(const char* type, std::mt19937_64& g, int count, int length) {
  for (int h = 0; h < count; ++h) {
    const auto aliveBefore = alive().size();
    {
      const Shapes shape {1 + long(g() % 3), 1 + long(g() % 3)};
      const long n = shape.w * shape.h;
      std::vector<TC> c;
      c.reserve(3);
      for (int k = 0; k < 3; ++k) {
        c.push_back(Make<TC>::run(shape));
        for (long i = 0; i < n; ++i) {
          c[k][i] = Term(std::string(1, char('a' + k)) + std::to_string(i));
        }
      }
      std::vector<Term> other;
      for (long i = 0; i < n; ++i) {
        other.push_back(Term("v" + std::to_string(i)));
      }
      auto show = [&](Ev& ev) {
        std::string all = "[";
        for (int k = 0; k < 3; ++k) {
          all += (k ? "," : "") + quoted(texts(c[k]));
        }
        ev.raw("after", all + "]").n("alive", long(alive().size() - aliveBefore)).n("faults", faults()).log();
      };
      {
        Ev ev("terms");
        ev.s("type", type).n("n", n);
        show(ev);
      }
      static const char* ops[] = {"+", "-", "*", "/", "%"};
      for (int k = 0; k < length; ++k) {
        const int d = g() % 3, a = g() % 3, b = g() % 3; // destination, operands
        const int o = g() % 5;
        const long i = g() % n;
        if (longest(c[a]) > 60 || longest(c[b]) > 60 || longest(c[d]) > 60) {
          const int s = longest(c[d]) > 60 ? d : longest(c[a]) > 60 ? a : b;
          c[s].fill(Term("z"));
          Ev ev("fill");
          ev.n("d", s).s("v", "z");
          show(ev);
          continue;
        }
        switch (g() % 20) {
          case 0: { // new instance, containers
            if (o == 0) c[d] = c[a] + c[b];
            if (o == 1) c[d] = c[a] - c[b];
            if (o == 2) c[d] = c[a] * c[b];
            if (o == 3) c[d] = c[a] / c[b];
            if (o == 4) c[d] = c[a] % c[b];
            Ev ev("binary");
            ev.n("d", d).n("a", a).n("b", b).s("o", ops[o]);
            show(ev);
            break;
          }
          case 1: { // in place
            if (o == 0) c[d] += c[b];
            if (o == 1) c[d] -= c[b];
            if (o == 2) c[d] *= c[b];
            if (o == 3) c[d] /= c[b];
            if (o == 4) c[d] %= c[b];
            Ev ev("binary");
            ev.n("d", d).n("a", d).n("b", b).s("o", ops[o]);
            show(ev);
            break;
          }
          case 2: { // scalar, possibly an element of the container
            const Term k0 = g() % 2 ? Term("k") : c[d][i];
            const auto text = k0.get();
            const bool own = text != "k";
            const Term& kk = own ? c[d][i] : k0;
            if (o == 0) c[d] += kk;
            if (o == 1) c[d] -= kk;
            if (o == 2) c[d] *= kk;
            if (o == 3) c[d] /= kk;
            if (o == 4) c[d] %= kk;
            Ev ev("scalar");
            ev.n("d", d).n("a", d).s("v", text).s("o", ops[o]).n("extra", 1);
            show(ev);
            break;
          }
          case 3: {
            const Term kk("k");
            if (o == 0) c[d] = c[a] + kk;
            if (o == 1) c[d] = c[a] - kk;
            if (o == 2) c[d] = c[a] * kk;
            if (o == 3) c[d] = c[a] / kk;
            if (o == 4) c[d] = c[a] % kk;
            Ev ev("scalar");
            ev.n("d", d).n("a", a).s("v", "k").s("o", ops[o]).n("extra", 1);
            show(ev);
            break;
          }
          case 4: {
            const Term kk("k");
            const int s = g() % 3;
            if (s == 0) c[d] = kk + c[a];
            if (s == 1) c[d] = kk - c[a];
            if (s == 2) c[d] = kk * c[a];
            Ev ev("left");
            ev.n("d", d).n("a", a).s("v", "k").s("o", ops[s]).n("extra", 1);
            show(ev);
            break;
          }
          case 5: {
            if (o % 2) {
              c[d] = -c[a];
            } else {
              c[d] = +c[a];
            }
            Ev ev("unary");
            ev.n("d", d).n("a", a).s("o", o % 2 ? "-" : "+");
            show(ev);
            break;
          }
          case 6: {
            const bool post = g() % 2;
            Ev ev("step");
            ev.n("d", d).s("o", o % 2 ? "++" : "--");
            if (post) {
              const auto old = o % 2 ? c[d]++ : c[d]--;
              ev.raw("old", quoted(texts(old))).n("extra", n);
              show(ev);
            } else {
              ev.raw("old", quoted(texts(c[d]))).n("extra", 0);
              o % 2 ? ++c[d] : --c[d];
              show(ev);
            }
            break;
          }
          case 7: { // a function of 0 to 3 containers
            Rank f {"f"};
            const int arity = g() % 4;
            if (arity == 0) c[d].generate(f);
            if (arity == 1) c[d].generate(f, c[a]);
            if (arity == 2) c[d].generate(f, c[a], other);
            if (arity == 3) c[d].generate(f, c[a], other, c[b]);
            Ev ev("generate");
            ev.n("d", d).n("arity", arity).n("a", a).n("b", b).n("calls", f.rank);
            show(ev);
            break;
          }
          case 8: {
            Rank f {"g"};
            const int arity = g() % 3;
            if (arity == 0) c[d].apply(f);
            if (arity == 1) c[d].apply(f, c[a]);
            if (arity == 2) c[d].apply(f, c[a], c[b]);
            Ev ev("apply");
            ev.n("d", d).n("arity", arity).n("a", a).n("b", b).n("calls", f.rank);
            show(ev);
            break;
          }
          case 9: { // copies and moves
            if (a != d) {
              if (o % 3 == 0) {
                c[d] = c[a];
              } else if (o % 3 == 1) {
                TC t(c[a]);
                c[d] = std::move(t);
              } else {
                TC t(std::move(c[a]));
                c[d] = t;
                c[a] = std::move(t);
              }
            }
            Ev ev("unary");
            ev.n("d", d).n("a", a).s("o", "+");
            show(ev);
            break;
          }
          case 10: {
            std::swap(c[d], c[a]);
            Ev ev("swap");
            ev.n("d", d).n("a", a);
            show(ev);
            break;
          }
          case 11: {
            c[d][i] = c[a][i];
            Ev ev("set");
            ev.n("d", d).n("i", i).s("v", c[a][i].get());
            show(ev);
            break;
          }
          case 12: {
            c[d].at(i - n) = Term("w");
            Ev ev("set");
            ev.n("d", d).n("i", i).s("v", "w");
            show(ev);
            break;
          }
          case 13: { // with itself as the value
            const auto text = c[d][i].get();
            c[d].fill(c[d][i]);
            Ev ev("fill");
            ev.n("d", d).s("v", text);
            show(ev);
            break;
          }
          case 14: { // the standard library's
            std::reverse(c[d].begin(), c[d].end());
            Ev ev("reverse");
            ev.n("d", d);
            show(ev);
            break;
          }
          case 16: { // from the data of another one
            const Term* data = c[a].data();
            if (o % 2) {
              c[d] = Make<TC>::from(shape, data);
            } else {
              std::vector<Term> copy(data, data + n);
              auto t = Make<TC>::from(shape, copy.data());
              c[d] = t;
            }
            Ev ev("unary");
            ev.n("d", d).n("a", a).s("o", "+");
            show(ev);
            break;
          }
          case 17: { // from data of another type
            std::vector<const char*> data(n, "typed");
            if (fromTexts(c[d], shape, data.data(), (typename TC::Holder*)nullptr)) {
              Ev ev("fill");
              ev.n("d", d).s("v", "typed");
              show(ev);
            }
            break;
          }
          case 18: { // from the underlying container, given away
            if (fromContainer(c[d], shape, c[a], (typename TC::Holder*)nullptr)) {
              Ev ev("unary");
              ev.n("d", d).n("a", a).s("o", "+");
              show(ev);
            }
            break;
          }
          case 15: {
            std::ostringstream os;
            os << c[d];
            Ev ev("compare");
            ev.n("d", d).n("a", a).b("equal", c[d] == c[a]).b("different", c[d] != c[a]).b("text", n == 0 || os.str().find(c[d][0].get()) != std::string::npos);
            show(ev);
            break;
          }
          default: {
            const TC& view = c[a];
            std::vector<Term> out(view.begin(), view.end());
            Ev ev("read");
            ev.n("a", a).raw("out", quoted(texts(out))).s("one", view[i].get()).s("at", view.at(i - n).get()).n("i", i).n("extra", n);
            show(ev);
          }
        }
      }
    }
    Ev("over").n("alive", long(alive().size() - aliveBefore)).n("faults", faults()).log();
  }
}

// --- An order by key: different pixels may be equivalent
struct Keyed {
  int key;
  int id;
  bool operator==(const Keyed& o) const {
    return key == o.key && id == o.id;
  }
  bool operator<(const Keyed& o) const {
    return key < o.key;
  }
};

template <typename TC>
void orderOf(TC& c, std::mt19937_64& g) {
  std::vector<int> keys;
  int id = 0;
  const int range = 1 + int(g() % 4);
  for (auto& e : c) {
    e = {int(g() % range), ++id};
    keys.push_back(e.key);
  }
  const auto mm = c.minmax();
  Ev("order").a("keys", keys).n("min", c.min().id).n("max", c.max().id).n("first", mm.first.id).n("second", mm.second.id).log();
}

static void order(std::mt19937_64& g, int reps) {
  for (int i = 0; i < reps; ++i) {
    Raster<Keyed> r({long(1 + g() % 4), long(1 + g() % 3)});
    orderOf(r, g);
    Raster<Keyed, -1> v(Position<-1> {2, long(1 + g() % 2), 2});
    orderOf(v, g);
    Sequence<Keyed> s(1 + g() % 9);
    orderOf(s, g);
  }
}

// --- Channels
template <int C>
struct Pixel {
  std::array<short, C> c;
  bool operator==(const Pixel& o) const {
    return c == o.c;
  }
};

template <int C>
void channelsOf(std::mt19937_64& g, int steps) {
  const long w = 1 + g() % 4, h = 1 + g() % 3, n = w * h;
  Raster<Pixel<C>> structs({w, h}); // structures
  Raster<short, 3> cxy({C, w, h}); // first axis
  Raster<short, 3> xyc({w, h, C}); // last axis
  std::vector<std::vector<long>> image(C, std::vector<long>(n));
  for (int c = 0; c < C; ++c) {
    auto plane = xyc.section(c);
    for (long y = 0; y < h; ++y) {
      for (long x = 0; x < w; ++x) {
        const short v = short(g() % 21) - 10;
        image[c][y * w + x] = v;
        structs[{x, y}].c[c] = v;
        cxy[{c, x, y}] = v;
        plane[{x, y}] = v;
      }
    }
  }
  PtrRaster<const short, 3> memory({C, w, h}, structs.data()->c.data()); // the structures as scalars
  auto show = [&](Ev& ev) {
    ev.a("structs", memory).a("cxy", cxy).a("xyc", xyc).log();
  };
  {
    Ev ev("image");
    ev.aa("channels", image).n("w", w).n("h", h);
    show(ev);
  }
  for (int k = 0; k < steps; ++k) {
    const int c = g() % C;
    const short f = short(g() % 5) - 2;
    switch (g() % 4) {
      case 0: { // one channel is multiplied
        structs.apply([&](Pixel<C> p) {
          p.c[c] *= f;
          return p;
        });
        for (auto it = cxy.begin() + c; it < cxy.end(); it += C) {
          *it *= f;
        }
        xyc.section(c) *= f;
        Ev ev("scale");
        ev.n("c", c).n("k", f);
        show(ev);
        break;
      }
      case 1: { // channels are rotated
        Raster<Pixel<C>> out(structs.shape());
        out.generate(
            [](const Pixel<C>& p) {
              Pixel<C> q;
              for (int i = 0; i < C; ++i) {
                q.c[i] = p.c[(i + 1) % C];
              }
              return q;
            },
            structs);
        std::copy(out.begin(), out.end(), structs.begin()); // same memory
        Raster<short, 3> old = cxy;
        for (const auto& p : cxy.domain()) {
          cxy[p] = old[{(p[0] + 1) % C, p[1], p[2]}];
        }
        Raster<short, 3> planes = xyc;
        for (int i = 0; i < C; ++i) {
          const auto& from = planes;
          xyc.section(i).generate(
              [](short e) {
                return e;
              },
              from.section((i + 1) % C));
        }
        Ev ev("rotate");
        show(ev);
        break;
      }
      case 2: { // weighted sums
        std::vector<int> weights(C);
        for (auto& e : weights) {
          e = int(g() % 7) - 3;
        }
        Raster<int> a({w, h}), b({w, h}), d({w, h});
        a.generate(
            [&](const Pixel<C>& p) {
              int s = 0;
              for (int i = 0; i < C; ++i) {
                s += weights[i] * p.c[i];
              }
              return s;
            },
            structs);
        auto it = cxy.begin();
        for (auto out = b.begin(); out != b.end(); ++out, it += C) {
          *out = std::inner_product(weights.begin(), weights.end(), it, 0);
        }
        d.fill(0);
        const auto& planes = xyc;
        for (int i = 0; i < C; ++i) {
          const int weight = weights[i];
          d.apply(
              [=](int s, short e) {
                return s + weight * e;
              },
              planes.section(i));
        }
        Ev ev("weighted");
        ev.a("weights", weights).a("fromStructs", a).a("fromCxy", b).a("fromXyc", d);
        show(ev);
        for (auto* r : {&a}) {
          (void)r;
        }
        if (std::max(std::labs(long(a.max())), std::labs(long(a.min()))) > 2000) { // start again from small values
          structs.apply([](Pixel<C> p) {
            p.c.fill(1);
            return p;
          });
          cxy.fill(1);
          for (int i = 0; i < C; ++i) {
            xyc.section(i).fill(1);
          }
          Ev ev2("ones");
          show(ev2);
        }
        break;
      }
      default: { // one pixel, by its position, through subrasters of one column
        const long x = g() % w, y = g() % h;
        structs.at({x - w, y}).c[c] = f;
        cxy[Position<3> {c, x, y}] = f;
        const Box<3> region({x, y, 0}, {x, y, C - 1});
        int i = 0;
        auto sub = xyc.subraster(region);
        for (auto& e : sub) {
          if (i++ == c) {
            e = f;
          }
        }
        Ev ev("pixel");
        ev.n("c", c).n("i", y * w + x).n("v", f);
        show(ev);
      }
    }
  }
}

// --- Rasters of rasters
static std::string flat(const Raster<Raster<int>>& nested) {
  std::string out = "[";
  for (const auto& r : nested) {
    out += out.size() > 1 ? ",[" : "[";
    const char* sep = "";
    for (auto e : r) {
      out += sep + std::to_string(e);
      sep = ",";
    }
    out += "]";
  }
  return out + "]";
}

static void nestedRasters(std::mt19937_64& g, int reps) {
  for (int i = 0; i < reps; ++i) {
    const long w = 1 + g() % 3, h = 1 + g() % 3;
    Raster<Raster<int>> nested({w, h});
    for (const auto& p : nested.domain()) {
      const auto shape = p + 1;
      nested[p] = Raster<int>(shape).range();
    }
    Ev("nested").n("w", w).n("h", h).raw("out", flat(nested)).log();
    const auto copy = nested;
    for (int k = 0; k < 6; ++k) {
      const int v = int(g() % 5) - 2;
      const long j = g() % (w * h);
      switch (g() % 6) {
        case 0:
          nested[j] += v;
          Ev("inner").n("j", j).n("v", v).raw("out", flat(nested)).raw("copy", flat(copy)).log();
          break;
        case 1:
          nested += copy;
          Ev("sum").raw("out", flat(nested)).raw("copy", flat(copy)).log();
          break;
        case 2:
          nested = copy - nested;
          Ev("difference").raw("out", flat(nested)).raw("copy", flat(copy)).log();
          break;
        case 3:
          nested.apply([&](Raster<int> r) {
            return r * v;
          });
          Ev("times").n("v", v).raw("out", flat(nested)).raw("copy", flat(copy)).log();
          break;
        case 4:
          nested = Raster<Raster<int>>(copy);
          Ev("again").raw("out", flat(nested)).raw("copy", flat(copy)).log();
          break;
        default: {
          Raster<int> sums(nested.shape());
          sums.generate(
              [](const Raster<int>& r) {
                return std::accumulate(r.begin(), r.end(), 0);
              },
              nested);
          Ev("sums").a("sums", sums).raw("out", flat(nested)).raw("copy", flat(copy)).log();
        }
      }
    }
  }
}

// --- The user's holder
static void holder(std::mt19937_64& g, int reps) {
  for (int i = 0; i < reps; ++i) {
    const long w = 1 + g() % 4, h = 1 + g() % 3;
    std::vector<int> data(w * h);
    for (auto& e : data) {
      e = int(g() % 100);
    }
    using R = Raster<int, 2, UserHolder<int>>;
    const R r({w, h}, data.data(), "mine");
    const R d({w, h}, data.data());
    const std::vector<int>& cdata = data;
    const R l({w, h}, cdata, nullptr, "listed");
    Sequence<int, UserHolder<int>> s(w * h, data.data(), "sequence");
    R copy = r;
    copy += 1;
    R moved = std::move(copy);
    std::vector<int> section(moved.section(h - 1).begin(), moved.section(h - 1).end());
    const auto max = moved.max();
    Ev("holder")
        .a("data", data)
        .n("w", w)
        .a("out", r)
        .a("out2", d)
        .a("out3", l)
        .a("out4", s)
        .sa("tags", {r.tag(), d.tag(), l.tag(), s.tag(), moved.tag()})
        .b("apart", r.data() != data.data() && d.data() != r.data() && moved.data() != r.data())
        .n("size", r.size())
        .a("plus", moved)
        .a("section", section)
        .n("max", max)
        .b("equal", r == d)
        .b("different", r == moved)
        .log();
  }
}

int main(int argc, char** argv) {
  const auto args = vt::open(argc, argv);
  std::mt19937_64 g(args.seed * 1000 + args.part);
  const int hs = args.thorough ? 150 : 25;
  const int len = args.thorough ? 60 : 40;
  switch (args.part) {
    case 0:
      histories<Raster<Term>>("Raster", g, hs, len);
      histories<Raster<Term, -1>>("Raster -1", g, hs, len);
      break;
    case 1:
      histories<Raster<Term, 1>>("Raster 1", g, hs, len);
      histories<Sequence<Term>>("Sequence", g, hs, len);
      histories<Raster<Term, 2, UserHolder<Term>>>("user", g, hs, len);
      break;
    case 2:
      histories<ValRaster<Term, 2>>("valarray", g, hs, len);
      histories<Sequence<Term, UserHolder<Term>>>("user sequence", g, hs, len);
      holder(g, args.thorough ? 500 : 50);
      break;
    default:
      order(g, args.thorough ? 2000 : 200);
      for (int i = 0; i < (args.thorough ? 300 : 25); ++i) {
        channelsOf<1>(g, 8);
        channelsOf<2>(g, 8);
        channelsOf<3>(g, 12);
        channelsOf<4>(g, 8);
      }
      nestedRasters(g, args.thorough ? 400 : 40);
  }
  Ev("end").log();
  return 0;
}
