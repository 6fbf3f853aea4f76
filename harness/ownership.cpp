// Replays scripts of container operations (generated by TLC from Ownership) on the real containers (C06).
#include "rasters.h"
#include "LitlContainer/Sequence.h"
#include <array>
#include <boost/align/aligned_allocator.hpp>
#include <fstream>
#include <map>
#include <valarray>

using namespace Litl;
typedef std::vector<std::vector<long>> VV;

template <typename C>
struct Shape2;
template <typename T, typename H>
struct Shape2<Sequence<T, H>> {
  static std::size_t arg(std::size_t n) {
    return n;
  }
  static VI get(const Sequence<T, H>& c) {
    return {2, long(c.size() / 2)};
  }
  static T& ref(Sequence<T, H>& c, std::size_t k, int) {
    return c.at(long(k) - long(c.size()));
  }
  template <typename I>
  static Sequence<T, H>* iter(I& v) {
    return new Sequence<T, H>(v);
  }
};
template <typename T, Index N, typename H>
struct Shape2<Raster<T, N, H>> {
  static Position<N> arg(std::size_t n) {
    return {2, Index(n / 2)};
  }
  static VI get(const Raster<T, N, H>& c) {
    return VI(c.shape().begin(), c.shape().end());
  }
  static T& ref(Raster<T, N, H>& c, std::size_t k, int route) {
    Position<N> p {Index(k % 2), Index(k / 2)};
    return route ? c.at(p) : c[p];
  }
  template <typename I>
  static Raster<T, N, H>* iter(I& v) {
    return new Raster<T, N, H>(arg(v.size()), v);
  }
};

struct NoTake {};
template <typename H>
struct Taken {
  typedef NoTake type;
};
template <typename X>
struct Taken<StdHolder<X>> {
  typedef X type;
};
template <typename X>
const void* addrOf(const X& x) {
  return x.size() ? (const void*)&x[0] : nullptr;
}
inline const void* addrOf(const NoTake&) {
  return nullptr;
}
template <typename X>
VI valsOf(const X& x) {
  VI out;
  for (std::size_t i = 0; i < x.size(); ++i) {
    out.push_back(vt::inum(x[i]));
  }
  return out;
}
inline VI valsOf(const NoTake&) {
  return {};
}

// holder-specific construction
template <typename C, typename T, typename H>
struct Build;
template <typename C, typename T, typename X>
struct Build<C, T, StdHolder<X>> {
  static C* make(std::vector<T> v, int how) {
    if (how == 0) {
      return Shape2<C>::iter(v);
    }
    return new C(Shape2<C>::arg(v.size()), (const T*)v.data());
  }
  static C* view(T*, std::size_t) {
    return nullptr;
  }
  static bool take(C& c, X& t) {
    return &c.moveTo(t) == &t;
  }
  static C* movein(X& t, std::size_t n) {
    return new C(Shape2<C>::arg(n), std::move(t));
  }
};
template <typename C, typename T>
struct Build<C, T, PtrHolder<T>> {
  static C* make(std::vector<T>, int) {
    return nullptr;
  }
  static C* view(T* p, std::size_t n) {
    return new C(Shape2<C>::arg(n), p);
  }
  static bool take(C&, NoTake&) {
    return false;
  }
  static C* movein(NoTake&, std::size_t) {
    return nullptr;
  }
};
static long counter = 0, copies = 0;

/// Alignment requirements: all met by the user memory
static std::size_t someAlign() {
  static const std::size_t as[] = {0, std::size_t(-1), 16, 64, 8, std::size_t(-1)};
  static std::size_t k = 0;
  return as[(k++ * 7 + counter) % 6];
}

template <typename C, typename T>
struct Build<C, T, AlignedBuffer<T>> {
  static C* make(std::vector<T> v, int how) {
    if (how == 0) {
      return Shape2<C>::iter(v);
    }
    auto c = new C(Shape2<C>::arg(v.size()), nullptr, someAlign());
    std::copy(v.begin(), v.end(), c->begin());
    return c;
  }
  static C* view(T* p, std::size_t n) {
    return new C(Shape2<C>::arg(n), p, someAlign());
  }
  static bool take(C&, NoTake&) {
    return false;
  }
  static C* movein(NoTake&, std::size_t) {
    return nullptr;
  }
};

template <typename C, typename T, typename H>
void replay(const std::string& holder, const std::vector<std::vector<std::string>>& ops) {
  typedef Build<C, T, H> B;
  typedef typename Taken<H>::type X;
  const int NS = 3;
  std::unique_ptr<C> c[NS];
  bool moved[NS] = {false, false, false};
  std::vector<T, boost::alignment::aligned_allocator<T, 64>> user[2] = {{T(1), T(2), T(3), T(4)}, {T(5), T(6)}};
  alignas(64) typename std::aligned_storage<sizeof(X), alignof(X)>::type dummy;
  (void)dummy;
  std::unique_ptr<X> t[2];
  t[0].reset(new X());
  t[1].reset(new X());
  bool has[2] = {false, false};
  vt::Ev("begin").s("holder", holder).n("slots", NS).aa("user", VV {valsOf(user[0]), valsOf(user[1])}).log();

  auto vals = [&](std::size_t n) {
    std::vector<T> v;
    for (std::size_t i = 0; i < n; ++i) {
      v.push_back(T(counter++ % 100000));
    }
    return v;
  };
  auto obs = [&]() {
    std::vector<const void*> seen;
    auto id = [&](const void* p) {
      for (std::size_t i = 0; i < seen.size(); ++i) {
        if (seen[i] == p) {
          return long(i + 1);
        }
      }
      seen.push_back(p);
      return long(seen.size());
    };
    std::ostringstream os;
    VV v, sh, uv, tv;
    VI sz, ad, ua, ta;
    for (int i = 0; i < NS; ++i) {
      const bool ok = c[i] && !moved[i];
      VI e;
      if (ok) {
        const C& cc = *c[i];
        for (auto it = cc.begin(); it != cc.end(); ++it) {
          e.push_back(vt::inum(*it));
        }
      }
      v.push_back(e);
      sh.push_back(ok ? Shape2<C>::get(*c[i]) : VI());
      sz.push_back(ok ? vt::inum(c[i]->size()) : -1);
      ad.push_back(ok ? id(static_cast<const C&>(*c[i]).data()) : -1);
    }
    for (int i = 0; i < 2; ++i) {
      uv.push_back(valsOf(user[i]));
      ua.push_back(id(user[i].data()));
      tv.push_back(has[i] ? valsOf(*t[i]) : VI());
      ta.push_back(has[i] ? id(addrOf(*t[i])) : -1);
    }
    std::ostringstream o;
    auto arr = [&](const char* k, const VI& x) {
      o << "\"" << k << "\":[";
      for (std::size_t i = 0; i < x.size(); ++i) {
        o << (i ? "," : "") << x[i];
      }
      o << "]";
    };
    auto arr2 = [&](const char* k, const VV& x) {
      o << "\"" << k << "\":[";
      for (std::size_t j = 0; j < x.size(); ++j) {
        o << (j ? ",[" : "[");
        for (std::size_t i = 0; i < x[j].size(); ++i) {
          o << (i ? "," : "") << x[j][i];
        }
        o << "]";
      }
      o << "]";
    };
    o << "{";
    arr2("vals", v);
    o << ",";
    arr2("shapes", sh);
    o << ",";
    arr("sizes", sz);
    o << ",";
    arr("addr", ad);
    o << ",";
    arr2("uvals", uv);
    o << ",";
    arr("uaddr", ua);
    o << ",";
    arr2("tvals", tv);
    o << ",";
    arr("taddr", ta);
    o << "}";
    return o.str();
  };
  auto ptr = [&](int s) {
    return (const void*)static_cast<const C&>(*c[s]).data();
  };

  for (const auto& op : ops) {
    const auto& name = op[0];
    auto A = [&](std::size_t i) {
      return std::atoi(op[i].c_str());
    };
    vt::Ev ev(name);
    if (name == "new") {
      auto v = vals(A(2));
      const int s = A(1) - 1;
      c[s].reset(B::make(v, A(3)));
      moved[s] = false;
      ev.n("s", A(1)).a("vals", v);
    } else if (name == "view") {
      const int s = A(1) - 1;
      auto& u = user[A(2) - 1];
      c[s].reset(B::view(u.data(), u.size()));
      moved[s] = false;
      ev.n("s", A(1)).n("u", A(2)).b("kept", ptr(s) == u.data());
    } else if (name == "copy") {
      const int d = A(1) - 1, s = A(2) - 1;
      switch (copies++ % 3) {
        case 0:
          c[d].reset(new C(static_cast<const C&>(*c[s])));
          break;
        case 1:
          c[d].reset(new C(*c[s]));
          break;
        default: {
          C k = *c[s];
          c[d].reset(new C(k));
        }
      }
      moved[d] = false;
      ev.n("d", A(1)).n("s", A(2));
    } else if (name == "move") {
      const int d = A(1) - 1, s = A(2) - 1;
      const auto before = ptr(s);
      c[d].reset(new C(std::move(*c[s])));
      moved[d] = false;
      moved[s] = true;
      ev.n("d", A(1)).n("s", A(2)).b("kept", ptr(d) == before);
    } else if (name == "assign") {
      const int d = A(1) - 1, s = A(2) - 1;
      C& r = (copies++ % 2 ? *c[d] = static_cast<const C&>(*c[s]) : *c[d] = *c[s]);
      moved[d] = false;
      ev.n("d", A(1)).n("s", A(2)).b("self", &r == c[d].get());
    } else if (name == "massign") {
      const int d = A(1) - 1, s = A(2) - 1;
      const auto before = ptr(s);
      *c[d] = std::move(*c[s]);
      moved[d] = false;
      moved[s] = true;
      ev.n("d", A(1)).n("s", A(2)).b("kept", ptr(d) == before);
    } else if (name == "swap") {
      const int d = A(1) - 1, s = A(2) - 1;
      const auto bd = ptr(d), bs = ptr(s);
      std::swap(*c[d], *c[s]);
      ev.n("d", A(1)).n("s", A(2)).b("kept", ptr(d) == bs && ptr(s) == bd);
    } else if (name == "write") {
      const int s = A(1) - 1;
      const std::size_t k = A(2) - 1;
      const long v = counter++ % 100000;
      switch (counter % 5) {
        case 0:
          (*c[s])[k] = T(v);
          break;
        case 1:
          c[s]->at(Index(k)) = T(v);
          break;
        case 2:
          *(c[s]->begin() + k) = T(v);
          break;
        case 3:
          c[s]->data()[k] = T(v);
          break;
        default:
          Shape2<C>::ref(*c[s], k, int(counter % 2)) = T(v);
      }
      ev.n("s", A(1)).n("k", A(2)).n("v", v);
    } else if (name == "uwrite") {
      const long v = counter++ % 100000;
      user[A(1) - 1][A(2) - 1] = T(v);
      ev.n("u", A(1)).n("k", A(2)).n("v", v);
    } else if (name == "take") {
      const int ti = A(1) - 1, s = A(2) - 1;
      const auto before = ptr(s);
      const bool same = B::take(*c[s], *t[ti]);
      has[ti] = true;
      moved[s] = true;
      ev.n("t", A(1)).n("s", A(2)).b("kept", same && addrOf(*t[ti]) == before);
    } else if (name == "movein") {
      const int d = A(1) - 1, ti = A(2) - 1;
      const auto before = addrOf(*t[ti]);
      bool threw = false;
      try {
        c[d].reset(B::movein(*t[ti], A(3)));
        moved[d] = false;
      } catch (std::exception&) {
        threw = true;
      }
      has[ti] = false;
      ev.n("d", A(1)).n("t", A(2)).n("n", A(3)).b("threw", threw).b("kept", !threw && ptr(d) == before);
    } else if (name == "destroy") {
      c[A(1) - 1].reset();
      ev.n("s", A(1));
    } else {
      std::exit(4);
    }
    ev.raw("obs", obs());
    ev.log();
  }
}

template <typename T, typename H>
void all(const std::string& holder, const std::vector<std::vector<std::string>>& ops, int kind) {
  switch (kind) {
    case 0:
      return replay<Sequence<T, H>, T, H>(holder, ops);
    case 1:
      return replay<Raster<T, 2, H>, T, H>(holder, ops);
    default:
      return replay<Raster<T, -1, H>, T, H>(holder, ops);
  }
}

template <typename T>
void dispatch(const std::string& h, const std::vector<std::vector<std::string>>& ops, int kind) {
  if (h == "vec") {
    all<T, StdHolder<std::vector<T>>>(h, ops, kind);
  } else if (h == "val") {
    all<T, StdHolder<std::valarray<T>>>(h, ops, kind);
  } else if (h == "arr") {
    all<T, StdHolder<std::array<T, 4>>>(h, ops, kind);
  } else if (h == "ptr") {
    all<T, PtrHolder<T>>(h, ops, kind);
  } else {
    all<T, AlignedBuffer<T>>(h, ops, kind);
  }
}

int main(int argc, char** argv) {
  auto args = vt::open(argc, argv);
  std::ifstream f(args.script);
  std::string line;
  long n = 0;
  while (std::getline(f, line)) {
    if (n++ % args.parts != args.part) {
      continue;
    }
    std::vector<std::vector<std::string>> ops;
    std::istringstream is(line);
    std::string tok, holder;
    std::getline(is, holder, ';');
    while (std::getline(is, tok, ';')) {
      std::istringstream ts(tok);
      std::vector<std::string> op;
      std::string w;
      while (ts >> w) {
        op.push_back(w);
      }
      ops.push_back(op);
    }
    for (int kind = 0; kind < 3; ++kind) {
      if ((n + kind) % 2) {
        dispatch<int>(holder, ops, kind);
      } else {
        dispatch<double>(holder, ops, kind);
      }
    }
  }
  return vt::close();
}
