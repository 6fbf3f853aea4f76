// Event log shared by every driver: one JSON object per line, flushed as soon as it is complete,
// so that a crash or a hang leaves a log whose last event is the last completed call.
#ifndef VERIF_TRACE_H
#define VERIF_TRACE_H
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace vt {

static const long BAD = -2147000000L; // stands for any value the log cannot express as a small integer

inline FILE*& file() {
  static FILE* f = nullptr;
  return f;
}

/// Integer view of a value: exact small integers only, anything else is BAD.
inline long inum(double x) {
  if (!(x > -2.0e9 && x < 2.0e9)) {
    return BAD;
  }
  const long r = std::lround(x);
  return double(r) == x ? r : BAD;
}
inline long inum(long x) {
  return (x > -2000000000L && x < 2000000000L) ? x : BAD;
}
inline long inum(int x) {
  return inum(long(x));
}
inline long inum(long long x) {
  return inum(long(x));
}
inline long inum(unsigned long x) {
  return x < 2000000000UL ? long(x) : (x > 0xFFFFFFFF80000000UL ? inum(long(x)) : BAD);
}
inline long inum(unsigned int x) {
  return inum((unsigned long)(x));
}
inline long inum(short x) {
  return x;
}
inline long inum(unsigned short x) {
  return x;
}
inline long inum(char x) {
  return x;
}
inline long inum(signed char x) {
  return x;
}
inline long inum(unsigned char x) {
  return x;
}
inline long inum(bool x) {
  return x;
}
inline long inum(float x) {
  return inum(double(x));
}
inline long inum(long double x) {
  return inum(double(x));
}

/// Encode a complex with small integer parts as a single integer (spec: re + 1000 * im).
template <typename T>
long inum(const std::complex<T>& z) {
  const auto r = inum(z.real());
  const auto i = inum(z.imag());
  if (r == BAD || i == BAD || std::labs(r) >= 500 || std::labs(i) > 1000000) {
    return BAD;
  }
  return r + 1000 * i;
}

/// Fixed point: x * scale must be an integer within tolerance eps (in units of 1/scale).
inline long fix(double x, double scale, double eps = 0) {
  const double y = x * scale;
  if (!(y > -2.0e9 && y < 2.0e9)) {
    return BAD;
  }
  const double r = std::round(y);
  return std::fabs(y - r) <= eps ? long(r) : BAD;
}

class Ev {
public:
  explicit Ev(const std::string& op) {
    m_os << "{\"op\":\"" << op << "\"";
  }
  template <typename T>
  Ev& n(const char* k, const T& v) {
    m_os << ",\"" << k << "\":" << inum(v);
    return *this;
  }
  Ev& b(const char* k, bool v) {
    m_os << ",\"" << k << "\":" << (v ? "true" : "false");
    return *this;
  }
  Ev& s(const char* k, const std::string& v) {
    m_os << ",\"" << k << "\":\"" << esc(v) << "\"";
    return *this;
  }
  template <typename TC>
  Ev& a(const char* k, const TC& c) {
    m_os << ",\"" << k << "\":[";
    const char* sep = "";
    for (const auto& e : c) {
      m_os << sep << inum(e);
      sep = ",";
    }
    m_os << "]";
    return *this;
  }
  /// Array of strings
  Ev& sa(const char* k, const std::vector<std::string>& c) {
    m_os << ",\"" << k << "\":[";
    const char* sep = "";
    for (const auto& e : c) {
      m_os << sep << "\"" << esc(e) << "\"";
      sep = ",";
    }
    m_os << "]";
    return *this;
  }
  /// Array of arrays
  template <typename TC>
  Ev& aa(const char* k, const TC& c) {
    m_os << ",\"" << k << "\":[";
    const char* sep = "";
    for (const auto& e : c) {
      m_os << sep << "[";
      const char* sep2 = "";
      for (const auto& f : e) {
        m_os << sep2 << inum(f);
        sep2 = ",";
      }
      m_os << "]";
      sep = ",";
    }
    m_os << "]";
    return *this;
  }
  /// Raw JSON
  Ev& raw(const char* k, const std::string& v) {
    m_os << ",\"" << k << "\":" << v;
    return *this;
  }
  /// The whole line, to be logged later
  std::string line() {
    m_os << "}\n";
    return m_os.str();
  }
  void log() {
    const auto s = line();
    fwrite(s.data(), 1, s.size(), file());
    fflush(file());
  }

private:
  static std::string esc(const std::string& v) {
    std::string out;
    for (char c : v) {
      if (c == '"' || c == '\\') {
        out += '\\';
        out += c;
      } else if (c == '\n') {
        out += "\\n";
      } else if ((unsigned char)c < 32 || (unsigned char)c > 126) {
        out += '?';
      } else {
        out += c;
      }
    }
    return out;
  }
  std::ostringstream m_os;
};

struct Args {
  std::string log;
  unsigned long seed = 1;
  int part = 0;
  int parts = 1;
  bool thorough = false;
  std::string script;
};

/// driver LOG SEED PART PARTS TIER [SCRIPT]
inline Args open(int argc, char** argv) {
  Args a;
  a.log = argc > 1 ? argv[1] : "/dev/stdout";
  a.seed = argc > 2 ? std::strtoul(argv[2], nullptr, 10) : 1;
  a.part = argc > 3 ? std::atoi(argv[3]) : 0;
  a.parts = argc > 4 ? std::atoi(argv[4]) : 1;
  a.thorough = argc > 5 && std::string(argv[5]) == "thorough";
  a.script = argc > 6 ? argv[6] : "";
  file() = fopen(a.log.c_str(), "w");
  if (!file()) {
    std::perror("log");
    std::exit(3);
  }
  return a;
}
inline int close() {
  Ev("end").log();
  fclose(file());
  return 0;
}

/// Deterministic, library-independent pseudo-random source.
class Rng {
public:
  explicit Rng(unsigned long seed) : m_s(seed * 6364136223846793005ULL + 1442695040888963407ULL) {
    next();
    next();
  }
  std::uint32_t next() {
    m_s = m_s * 6364136223846793005ULL + 1442695040888963407ULL;
    return std::uint32_t(m_s >> 33);
  }
  /// Uniform in [lo, hi]
  long in(long lo, long hi) {
    return lo + long(next() % std::uint32_t(hi - lo + 1));
  }
  bool coin(int num = 1, int den = 2) {
    return in(1, den) <= num;
  }

private:
  std::uint64_t m_s;
};

/// Iterate over all vectors v with lo[i] <= v[i] <= hi[i].
template <typename F>
void forAll(const std::vector<long>& lo, const std::vector<long>& hi, F&& f) {
  for (std::size_t i = 0; i < lo.size(); ++i) {
    if (lo[i] > hi[i]) {
      return;
    }
  }
  auto v = lo;
  while (true) {
    f(v);
    std::size_t k = 0;
    for (; k < v.size(); ++k) {
      if (v[k] < hi[k]) {
        ++v[k];
        break;
      }
      v[k] = lo[k];
    }
    if (k == v.size()) {
      return;
    }
  }
}

} // namespace vt
#endif
