// Replays histories of aligned buffers generated by TLC from Aligned (C07), with allocations tracked.
#include "rasters.h"
#include <fstream>
#include <map>

static std::map<void*, std::size_t>* g_live = nullptr; // allocated by a buffer, not freed yet
static volatile bool g_track = false; // inside a call to the library
static long g_frees = 0, g_bad = 0;

extern "C" {
void* __real_malloc(std::size_t);
void* __real_aligned_alloc(std::size_t, std::size_t);
int __real_posix_memalign(void**, std::size_t, std::size_t);
void __real_free(void*);
void* __wrap_malloc(std::size_t n) {
  void* p = __real_malloc(n);
  if (g_track) {
    g_track = false;
    (*g_live)[p] = n;
    g_track = true;
  }
  return p;
}
void* __wrap_aligned_alloc(std::size_t a, std::size_t n) {
  void* p = __real_aligned_alloc(a, n);
  if (g_track) {
    g_track = false;
    (*g_live)[p] = n;
    g_track = true;
  }
  return p;
}
int __wrap_posix_memalign(void** p, std::size_t a, std::size_t n) {
  int r = __real_posix_memalign(p, a, n);
  if (g_track && !r) {
    g_track = false;
    (*g_live)[*p] = n;
    g_track = true;
  }
  return r;
}
void __wrap_free(void* p) {
  if (g_track && p) {
    g_track = false;
    if (g_live->erase(p)) {
      ++g_frees;
    } else {
      ++g_bad;
      p = nullptr; // do not crash: the log tells
    }
    g_track = true;
  }
  __real_free(p);
}
}

struct Track {
  Track() {
    g_track = true;
  }
  ~Track() {
    g_track = false;
  }
};

using namespace Litl;
typedef std::vector<std::vector<std::string>> Ops;
static long counter = 0;
static constexpr std::size_t MAXALIGN = 1 << 17;

template <typename T>
T val(long v) {
  return Val<T>::from(v);
}

static long nextVal() {
  return 1 + counter++ % 120;
}

std::string arr(const VI& x) {
  std::ostringstream o;
  o << "[";
  for (std::size_t i = 0; i < x.size(); ++i) {
    o << (i ? "," : "") << x[i];
  }
  o << "]";
  return o.str();
}

template <typename T>
void replay(const Ops& ops) {
  typedef AlignedBuffer<T> B;
  const int NS = 3;
  std::unique_ptr<B> b[NS];
  struct Rel {
    void* p;
  };
  std::vector<void*> released;
  std::vector<void*> noise;
  char* raw = (char*)__real_malloc(2 * MAXALIGN);
  // Some histories with larger alignments than those of the script
  const long scale = counter % 3 == 1 ? 64 : counter % 3 == 2 ? 512 : 1;
  auto scaled = [&](long al) {
    return al >= 128 ? al * scale : al;
  };
  char* base = (char*)((std::uintptr_t(raw) + (MAXALIGN - 1)) & ~std::uintptr_t(MAXALIGN - 1));
  T* ext[2] = {reinterpret_cast<T*>(base), reinterpret_cast<T*>(base + 1024 + 8)};
  const int nExt[2] = {3, 2};
  VI e0, e1;
  for (int u = 0; u < 2; ++u) {
    for (int i = 0; i < nExt[u]; ++i) {
      const long v = nextVal();
      ext[u][i] = val<T>(v);
      (u ? e1 : e0).push_back(v);
    }
  }
  g_live->clear();
  g_frees = g_bad = 0;
  auto low = [](const void* p) {
    return long(std::uintptr_t(p) & 0xFFFFFFF);
  };
  vt::Ev("begin").n("slots", NS).aa("ext", std::vector<VI> {e0, e1}).a("mod", VI {low(ext[0]), low(ext[1])}).log();
  auto extVals = [&](int u) {
    VI out;
    for (int i = 0; i < nExt[u]; ++i) {
      out.push_back(vt::inum(ext[u][i]));
    }
    return out;
  };
  auto obs = [&]() {
    std::ostringstream o;
    VI sz, req, owns, null, aln, lo, isx;
    std::string vals = "[";
    for (int s = 0; s < NS; ++s) {
      VI v;
      if (b[s]) {
        const B& c = *b[s];
        for (std::size_t i = 0; i < c.size() && c.data() && i < 100; ++i) {
          v.push_back(vt::inum(c.data()[i]));
        }
        sz.push_back(vt::inum(c.size()));
        req.push_back(vt::inum(c.alignmentReq()));
        owns.push_back(c.owns());
        null.push_back(c.data() == nullptr);
        long a = -1;
        try {
          a = vt::inum(c.alignment());
        } catch (NullPtrError&) {
        }
        aln.push_back(a);
        lo.push_back(low(c.data()));
        isx.push_back(c.data() == ext[0] ? 1 : c.data() == ext[1] ? 2 : 0);
      } else {
        for (auto* x : {&sz, &req, &owns, &null, &aln, &lo, &isx}) {
          x->push_back(-1);
        }
      }
      vals += (s ? "," : "") + arr(v);
    }
    vals += "]";
    o << "{\"vals\":" << vals << ",\"sizes\":" << arr(sz) << ",\"req\":" << arr(req) << ",\"owns\":" << arr(owns)
      << ",\"null\":" << arr(null) << ",\"aln\":" << arr(aln) << ",\"low\":" << arr(lo) << ",\"isExt\":" << arr(isx)
      << ",\"ext\":[" << arr(extVals(0)) << "," << arr(extVals(1)) << "],\"outstanding\":" << g_live->size()
      << ",\"frees\":" << g_frees << ",\"bad\":" << g_bad << "}";
    return o.str();
  };
  for (const auto& op : ops) {
    const auto& name = op[0];
    auto A = [&](std::size_t i) {
      return std::atoi(op[i].c_str());
    };
    vt::Ev ev(name);
    if (counter % 3 == 0) {
      noise.push_back(__real_malloc(16 * (1 + counter % 7))); // vary the addresses
    }
    ++counter;
    if (name == "alloc") {
      const int s = A(1) - 1, n = A(2);
      long al = scaled(A(3));
      if (al == 0 && counter % 2) {
        al = -1;
      }
      {
        Track t;
        auto p = new B(n, nullptr, std::size_t(al));
        b[s].reset(p);
      }
      VI v;
      for (int i = 0; i < n; ++i) {
        v.push_back(nextVal());
        const_cast<T*>(b[s]->data())[i] = val<T>(v.back());
      }
      ev.n("s", A(1)).a("vals", v).n("align", al);
    } else if (name == "wrap") {
      const int s = A(1) - 1, u = A(2) - 1;
      long al = scaled(A(3));
      if (al == 64 && counter % 2) {
        al = -1;
      }
      bool threw = false;
      {
        Track t;
        try {
          b[s].reset(new B(nExt[u], ext[u], std::size_t(al)));
        } catch (AlignmentError&) {
          threw = true;
        }
      }
      ev.n("s", A(1)).n("u", A(2)).n("align", al).b("threw", threw);
    } else if (name == "copy") {
      {
        Track t;
        b[A(1) - 1].reset(new B(static_cast<const B&>(*b[A(2) - 1])));
      }
      ev.n("d", A(1)).n("s", A(2));
    } else if (name == "move") {
      {
        Track t;
        b[A(1) - 1].reset(new B(std::move(*b[A(2) - 1])));
      }
      ev.n("d", A(1)).n("s", A(2));
    } else if (name == "assign") {
      {
        Track t;
        *b[A(1) - 1] = static_cast<const B&>(*b[A(2) - 1]);
      }
      ev.n("d", A(1)).n("s", A(2));
    } else if (name == "massign") {
      {
        Track t;
        *b[A(1) - 1] = std::move(*b[A(2) - 1]);
      }
      ev.n("d", A(1)).n("s", A(2));
    } else if (name == "release") {
      void* p;
      {
        Track t;
        p = b[A(1) - 1]->release();
      }
      bool covers = true;
      if (p) {
        const B& c = *b[A(1) - 1];
        auto it = g_live->find(p);
        covers = it != g_live->end() && (const char*)c.data() >= (const char*)p &&
            (const char*)(c.data() + c.size()) <= (const char*)p + it->second;
        released.push_back(p);
      }
      ev.n("s", A(1)).b("got", p != nullptr).b("covers", covers);
    } else if (name == "ufree") {
      std::size_t k = 0;
      for (; k < released.size(); ++k) {
        auto it = g_live->find(released[k]);
        if (it == g_live->end()) {
          continue;
        }
        bool used = false;
        for (int s = 0; s < NS; ++s) {
          used |= b[s] && (const char*)b[s]->data() >= (const char*)it->first &&
              (const char*)b[s]->data() <= (const char*)it->first + it->second;
        }
        if (!used) {
          break;
        }
      }
      if (k == released.size()) {
        continue;
      }
      g_live->erase(released[k]);
      std::free(released[k]);
      released.erase(released.begin() + k);
    } else if (name == "reset") {
      {
        Track t;
        b[A(1) - 1]->reset();
      }
      ev.n("s", A(1));
    } else if (name == "destroy") {
      auto* p = b[A(1) - 1].release();
      {
        Track t;
        p->~B();
      }
      ::operator delete(p);
      ev.n("s", A(1));
    } else if (name == "write") {
      const long v = nextVal();
      const_cast<T*>(b[A(1) - 1]->data())[A(2) - 1] = val<T>(v);
      ev.n("s", A(1)).n("k", A(2)).n("v", v);
    } else if (name == "ewrite") {
      const long v = nextVal();
      ext[A(1) - 1][A(2) - 1] = val<T>(v);
      ev.n("u", A(1)).n("k", A(2)).n("v", v);
    } else {
      std::exit(4);
    }
    ev.raw("obs", obs()).log();
  }
  for (auto& x : b) {
    x.reset();
  }
  for (auto p : noise) {
    __real_free(p);
  }
  __real_free(raw);
}

template <typename T>
void queries() {
  char* raw = (char*)__real_malloc(1 << 14);
  for (int k = 0; k < 2000; ++k) {
    const T* p = reinterpret_cast<const T*>(raw + k);
    for (std::size_t as : {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096}) {
      if (k % 7 && as > 64) {
        continue;
      }
      vt::Ev("isal")
          .n("low", long(std::uintptr_t(p) & 0xFFFFFFF))
          .n("as", as)
          .b("out", isAligned(p, as))
          .n("aln", alignment(p))
          .log();
    }
  }
  __real_free(raw);
  bool t1 = false, t2 = false;
  try {
    isAligned((const T*)nullptr, 4);
  } catch (NullPtrError&) {
    t1 = true;
  }
  try {
    alignment((const T*)nullptr);
  } catch (NullPtrError&) {
    t2 = true;
  }
  vt::Ev("nullal").b("threw1", t1).b("threw2", t2).log();
}

int main(int argc, char** argv) {
  auto args = vt::open(argc, argv);
  g_live = new std::map<void*, std::size_t>();
  std::ifstream f(args.script);
  std::string line;
  long n = 0;
  if (args.part == 0) {
    queries<char>();
  }
  while (std::getline(f, line)) {
    if (n++ % args.parts != args.part) {
      continue;
    }
    Ops ops;
    std::istringstream is(line);
    std::string tok;
    std::getline(is, tok, ';');
    while (std::getline(is, tok, ';')) {
      std::istringstream ts(tok);
      std::vector<std::string> op;
      std::string w;
      while (ts >> w) {
        op.push_back(w);
      }
      ops.push_back(op);
    }
    switch ((n / args.parts) % 4) {
      case 0:
        replay<double>(ops);
        break;
      case 1:
        replay<char>(ops);
        break;
      case 2:
        replay<std::complex<double>>(ops);
        break;
      default:
        replay<float>(ops);
    }
  }
  return vt::close();
}
