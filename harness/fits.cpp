// Image files (C25): histories of writes, reads, removals and corruptions over four names, three sessions, three rasters.
#include "rasters.h"
#include "LitlIo/Fits.h"
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace Litl;
typedef std::vector<std::string> VS;
static vt::Rng* rng;
static const char* names[] = {"f0.fits", "f1.fits", "f2.fits", "nodir/f3.fits"};
static const VS scale {"-9223372036854775808", "-2147483648", "-32768", "-300", "-128", "-1", "0", "1", "7", "127", "128", "200",
                       "255", "300", "32767", "32768", "65535", "2147483647", "2147483648", "4294967295",
                       "9223372036854775807", "18446744073709551615"};
static const VS reals {"0", "1", "-1", "0.5", "-2.25", "1e30", "1e-30", "nan", "inf", "-inf", "16777216", "3.4e38"};

static std::string big(__int128 v) {
  if (v == 0) {
    return "0";
  }
  std::string s;
  const bool neg = v < 0;
  for (unsigned __int128 u = neg ? -(unsigned __int128)(v) : v; u; u /= 10) {
    s.insert(s.begin(), char('0' + int(u % 10)));
  }
  return neg ? "-" + s : s;
}
static std::string dtext(double v) {
  if (v != v) {
    return "nan";
  }
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
template <typename T, bool I = std::is_integral<T>::value>
struct Text {
  static std::string of(T v) {
    return big(__int128(v));
  }
  static bool parse(const std::string& s, T& out) {
    __int128 v = 0;
    for (char c : s) {
      if (c != '-') {
        v = v * 10 + (c - '0');
      }
    }
    v = s[0] == '-' ? -v : v;
    if (v < __int128(std::numeric_limits<T>::lowest()) || v > __int128(std::numeric_limits<T>::max())) {
      return false;
    }
    out = T(v);
    return true;
  }
  static T random() {
    T out;
    while (!parse(scale[rng->in(0, scale.size() - 1)], out)) {
    }
    return out;
  }
};
template <typename T>
struct Text<T, false> {
  static std::string of(T v) {
    return dtext(double(v));
  }
  static T random() {
    return T(std::strtod(reals[rng->in(0, reals.size() - 1)].c_str(), nullptr));
  }
};

struct Any {
  virtual ~Any() {}
  virtual std::string type() const = 0;
  virtual VI shape() const = 0;
  virtual VS pix() const = 0;
  virtual std::string poke(long i) = 0;
  virtual void write(Fits& f) = 0;
};
template <typename T, Index N, typename R>
struct Of : Any {
  std::string t;
  R r;
  Of(const std::string& type, R&& x) : t(type), r(std::move(x)) {}
  std::string type() const override {
    return t;
  }
  VI shape() const override {
    return VI(r.shape().begin(), r.shape().end());
  }
  VS pix() const override {
    VS out;
    positions(shape(), [&](const VI& p) {
      out.push_back(Text<T>::of(r[mkpos<N>(p)]));
    });
    return out;
  }
  std::string poke(long i) override {
    r[i] = Text<T>::random();
    return Text<T>::of(r[i]);
  }
  void write(Fits& f) override {
    f.write(r);
  }
};
struct Make {
  bool reading;
  VI shape;
  Fits* f;
  int holder;
  template <typename T, Index N>
  Any* go(const std::string& type) {
    return holder ? with<T, N, AlignedRaster<T, N>>(type) : with<T, N, Raster<T, N>>(type);
  }
  template <typename T, Index N, typename R>
  Any* with(const std::string& type) {
    if (reading) {
      return new Of<T, N, R>(type, f->template read<R>());
    }
    R r(mkpos<N>(shape));
    for (auto& e : r) {
      e = Text<T>::random();
    }
    return new Of<T, N, R>(type, std::move(r));
  }
  template <typename T>
  Any* dim(const std::string& type, int n) {
    return n == 1 ? go<T, 1>(type) : n == 2 ? go<T, 2>(type) : n == 3 ? go<T, 3>(type) : n == 4 ? go<T, 4>(type) : go<T, -1>(type);
  }
  Any* any(const std::string& t, int n) {
    return t == "char" ? dim<char>(t, n) : t == "schar" ? dim<signed char>(t, n) : t == "uchar" ? dim<unsigned char>(t, n) :
        t == "short" ? dim<short>(t, n) : t == "ushort" ? dim<unsigned short>(t, n) : t == "int" ? dim<int>(t, n) :
        t == "uint" ? dim<unsigned>(t, n) : t == "long" ? dim<long>(t, n) : t == "ulong" ? dim<unsigned long>(t, n) :
        t == "llong" ? dim<long long>(t, n) : t == "ullong" ? dim<unsigned long long>(t, n) :
        t == "float" ? dim<float>(t, n) : dim<double>(t, n);
  }
};
static const VS types {"char", "schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "llong", "ullong", "float", "double"};

static std::string quoted(const VS& v) {
  std::string s = "[";
  for (std::size_t i = 0; i < v.size(); ++i) {
    s += (i ? ",\"" : "\"") + v[i] + "\"";
  }
  return s + "]";
}
static void mem(int r, const Any& a) {
  vt::Ev("mem").n("r", r).a("shape", a.shape()).raw("pix", quoted(a.pix())).log();
}

/// A reader which knows nothing of the library
static void disk(int f, const std::string& charOf) {
  std::ifstream is(names[f], std::ios::binary);
  if (!is) {
    vt::Ev("disk").n("f", f).s("st", "none").log();
    return;
  }
  std::string all((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  if (all.size() < 2880 || all.substr(0, 6) != "SIMPLE") {
    vt::Ev("disk").n("f", f).s("st", "bad").log();
    return;
  }
  long bitpix = 0, naxis = 0;
  __int128 bzero = 0;
  VI shape;
  std::size_t k = 0;
  for (;; k += 80) {
    if (k + 80 > all.size()) {
      vt::Ev("disk").n("f", f).s("st", "bad").log();
      return;
    }
    const auto key = all.substr(k, 8);
    const auto val = all.substr(k + 10, 20);
    if (key == "BITPIX  ") {
      bitpix = std::atol(val.c_str());
    } else if (key == "NAXIS   ") {
      naxis = std::atol(val.c_str());
    } else if (key.substr(0, 5) == "NAXIS") {
      shape.push_back(std::atol(val.c_str()));
    } else if (key == "BZERO   ") {
      const auto p = val.find_first_of("-0123456789");
      bool neg = false;
      for (std::size_t i = p; i < val.size() && val[i] != '.' && val[i] != ' '; ++i) {
        if (val[i] == '-') {
          neg = true;
        } else {
          bzero = bzero * 10 + (val[i] - '0');
        }
      }
      bzero = neg ? -bzero : bzero;
    } else if (key == "END     ") {
      break;
    }
  }
  k = (k / 2880 + 1) * 2880;
  const long n = prod(shape);
  const long bytes = std::labs(bitpix) / 8;
  VS pix;
  if (long(all.size()) < long(k) + n * bytes || long(shape.size()) != naxis) {
    vt::Ev("disk").n("f", f).s("st", "bad").log();
    return;
  }
  for (long i = 0; i < n; ++i) {
    std::uint64_t u = 0;
    for (long b = 0; b < bytes; ++b) {
      u = (u << 8) | (unsigned char)(all[k + i * bytes + b]);
    }
    if (bitpix == -64) {
      double d;
      memcpy(&d, &u, 8);
      pix.push_back(dtext(d));
    } else if (bitpix == -32) {
      float d;
      const std::uint32_t w(u);
      memcpy(&d, &w, 4);
      pix.push_back(dtext(d));
    } else if (bitpix == 8) {
      pix.push_back(charOf == "char" ? big(__int128((signed char)(u)) + bzero) : big(__int128(u) + bzero));
    } else {
      const __int128 v = bitpix == 16 ? __int128(std::int16_t(u)) : bitpix == 32 ? __int128(std::int32_t(u)) : __int128(std::int64_t(u));
      pix.push_back(big(v + bzero));
    }
  }
  vt::Ev("disk").n("f", f).s("st", "image").a("shape", shape).raw("pix", quoted(pix)).log();
}

static void dir() {
  int others = 0, open = 0;
  if (DIR* d = opendir(".")) {
    while (auto* e = readdir(d)) {
      const std::string n = e->d_name;
      others += n != "." && n != ".." && n != "f0.fits" && n != "f1.fits" && n != "f2.fits";
    }
    closedir(d);
  }
  if (DIR* d = opendir("/proc/self/fd")) {
    while (auto* e = readdir(d)) {
      char b[4096];
      const auto p = std::string("/proc/self/fd/") + e->d_name;
      const auto n = readlink(p.c_str(), b, sizeof b);
      open += n > 5 && std::string(b, n).find(".fits") != std::string::npos;
    }
    closedir(d);
  }
  vt::Ev("dir").n("others", others).n("open", open).log();
}

/// The error names the file and gives a cause which CFITSIO knows
static bool tells(const std::exception& e, const std::string& file) {
  const std::string what = e.what();
  const auto i = what.rfind('('), j = what.rfind(')');
  if (!dynamic_cast<const Exception*>(&e) || what.find(file) == std::string::npos || i == std::string::npos || j == std::string::npos || j < i) {
    return false;
  }
  const auto cause = what.substr(i + 1, j - i - 1);
  for (int s = 1; s < 600; ++s) {
    char text[200];
    fits_get_errstatus(s, text);
    if (cause == text && cause != "unknown error status") {
      return true;
    }
  }
  return false;
}

/// Limit the size of files, as full disks do
struct Full {
  rlimit before;
  explicit Full(long size) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &before);
    rlimit now(before);
    now.rlim_cur = rlim_t(size);
    setrlimit(RLIMIT_FSIZE, &now);
  }
  ~Full() {
    setrlimit(RLIMIT_FSIZE, &before);
  }
};

int main(int argc, char** argv) {
  const auto a = vt::open(argc, argv);
  vt::Rng r(a.seed * 1000 + a.part);
  rng = &r;
  std::unique_ptr<Any> rs[3];
  std::unique_ptr<Fits> ss[3];
  int file[3] = {0, 0, 0};
  std::string ftype[4]; // Type of what was last written (only to choose operations and to read bytes as characters)
  int frank[4] = {0, 0, 0, 0};
  const int steps = a.thorough ? 4000 : 500;
  for (int k = 0; k < steps; ++k) {
    const int s = int(r.in(0, 2));
    const int i = int(r.in(0, 2));
    const long c = r.in(0, 99);
    if (!ss[s] || c < 4) {
      const bool first = !ss[s];
      file[s] = first && s ? s - 1 : int(r.in(0, 3));
      ss[s].reset(new Fits(names[file[s]]));
      vt::Ev("new").n("s", s).n("f", file[s]).log();
      continue;
    }
    if (c < 6) {
      const int t = int(r.in(0, 2));
      if (t != s && ss[t]) {
        *ss[s] = *ss[t];
        file[s] = file[t];
        vt::Ev("copy").n("from", t).n("to", s).log();
      }
      continue;
    }
    const int f = file[s];
    if (!rs[i] || c < 22) {
      int n = int(r.in(1, 5));
      VI shape;
      const int rank = n == 5 ? int(r.in(1, 6)) : n;
      for (int d = 0; d < rank; ++d) {
        shape.push_back(r.in(1, rank > 3 ? 2 : rank > 1 ? 3 : 6));
      }
      if (rank == 1 && r.coin(1, 12)) {
        shape[0] = 3100; // More than one block
      }
      Make m {false, shape, nullptr, int(r.in(0, 3) == 0)};
      const auto t = types[r.in(0, types.size() - 1)];
      rs[i].reset(m.any(t, n == 5 ? -1 : n));
      vt::Ev("put").n("r", i).s("type", t).a("shape", shape).raw("pix", quoted(rs[i]->pix())).log();
    } else if (c < 28) {
      const long j = r.in(0, prod(rs[i]->shape()) - 1);
      const auto v = rs[i]->poke(j);
      vt::Ev("poke").n("r", i).n("i", j + 1).s("v", v).log();
    } else if (c < 56) {
      bool threw = false, told = false;
      const bool full = f < 3 && r.coin(1, 6), exists = access(names[f], F_OK) == 0;
      try {
        std::unique_ptr<Full> limit(full ? new Full(r.in(0, 4095)) : nullptr); // CFITSIO does not see that the last few bytes are lost
        rs[i]->write(*ss[s]);
      } catch (std::exception& e) {
        threw = true;
        told = tells(e, names[f]);
      }
      if (full) { // What is left of a new file is not specified: it is removed
        vt::Ev("write-full").n("s", s).n("r", i).b("threw", threw).b("told", told).log();
        if (!exists) {
          unlink(names[f]);
          vt::Ev("rm").n("f", f).log();
        }
        mem(i, *rs[i]);
        dir();
        continue;
      }
      vt::Ev("write").n("s", s).n("r", i).b("threw", threw).b("told", told).log();
      if (!threw) {
        ftype[f] = rs[i]->type();
        frank[f] = int(rs[i]->shape().size());
      }
      mem(i, *rs[i]);
    } else if (c < 86) {
      auto t = ftype[f].empty() || r.coin(1, 20) ? std::string("int") : ftype[f];
      const bool integral = t != "char" && t != "float" && t != "double";
      if (!ftype[f].empty() && integral && r.coin(1, 3)) {
        t = types[r.in(1, 10)];
      }
      if (!ftype[f].empty() && !integral) {
        t = ftype[f]; // Nothing is said of conversions
      }
      if ((ftype[f] == "char" || ftype[f] == "float" || ftype[f] == "double") && t != ftype[f]) {
        t = ftype[f];
      }
      const int n = r.coin(1, 3) || !frank[f] ? -1 : r.coin(4, 5) && frank[f] <= 4 ? frank[f] : int(r.in(1, 4));
      Make m {true, {}, ss[s].get(), int(r.in(0, 3) == 0)};
      bool threw = false, told = false;
      Any* got = nullptr;
      try {
        got = m.any(t, n == -1 ? 5 : n);
      } catch (std::exception& e) {
        threw = true;
        told = tells(e, names[f]);
      }
      vt::Ev("read").n("s", s).s("type", t).n("dim", n).n("r", i).b("threw", threw).b("told", told).log();
      if (!threw) {
        rs[i].reset(got);
      }
      mem(i, *rs[i]);
    } else if (c < 95) {
      const int g = int(r.in(0, 2));
      unlink(names[g]);
      vt::Ev("rm").n("f", g).log();
    } else if (c < 97) {
      const int g = int(r.in(0, 2));
      struct stat st;
      if (r.coin() && stat(names[g], &st) == 0 && st.st_size >= 2880) { // An image which lacks an end
        const long least = st.st_size > 5760 ? 5760 : 2880; // More than one block of data, or not
        if (truncate(names[g], r.coin(1, 4) ? least : r.in(0, least)) == 0) {
          vt::Ev("garble").n("f", g).log();
          disk(g, ftype[g]);
        }
        continue;
      }
      std::ofstream os(names[g], std::ios::binary | std::ios::trunc);
      os << "This is not an image\n";
      if (r.coin()) {
        os << std::string(3000, 'x');
      }
      os.close();
      vt::Ev("garble").n("f", g).log();
    }
    disk(f, ftype[f]);
    if (r.coin(1, 4)) {
      for (int g = 0; g < 4; ++g) {
        disk(g, ftype[g]);
      }
      for (int g = 0; g < 3; ++g) {
        if (rs[g]) {
          mem(g, *rs[g]);
        }
      }
      dir();
    }
  }
  return vt::close();
}
