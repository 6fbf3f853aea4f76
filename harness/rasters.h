// Helpers to build rasters of any kind from small integers.
#ifndef VERIF_RASTERS_H
#define VERIF_RASTERS_H
#include "LitlContainer/AlignedBuffer.h"
#include "LitlRaster/Raster.h"
#include "trace.h"
#include <memory>

using Litl::Index;
typedef std::vector<long> VI;

template <Index N>
Litl::Position<N> mkpos(const VI& v) {
  Litl::Position<N> p(N == -1 ? Index(v.size()) : N);
  for (std::size_t i = 0; i < v.size(); ++i) {
    p.data()[i] = v[i];
  }
  return p;
}

template <Index N>
Litl::Box<N> mkbox(const VI& f, const VI& b) {
  return Litl::Box<N>(mkpos<N>(f), mkpos<N>(b));
}

/// Storage-order enumeration (first coordinate fastest) independent of the library
template <typename F>
void positions(const VI& shape, F&& f) {
  VI lo(shape.size(), 0), hi(shape);
  for (auto& h : hi) {
    --h;
  }
  vt::forAll(lo, hi, f);
}

inline long prod(const VI& s) {
  long out = 1;
  for (auto e : s) {
    out *= e;
  }
  return s.empty() ? 0 : out;
}

template <typename T>
struct Val {
  static T from(long v) {
    return T(v);
  }
};
template <typename T>
struct Val<std::complex<T>> {
  static std::complex<T> from(long v) { // log = re + 1000 * im
    return {T(v), T(0)};
  }
};

enum Kind { VEC, VAL, PTR, ALI, ARR };

template <typename T, Index N, Kind K, std::size_t C = 0>
struct Maker;
template <typename T, Index N, std::size_t C>
struct Maker<T, N, VEC, C> {
  typedef Litl::VecRaster<T, N> R;
  std::vector<T> ext;
  R make(const VI& shape) {
    return R(mkpos<N>(shape));
  }
};
template <typename T, Index N, std::size_t C>
struct Maker<T, N, VAL, C> {
  typedef Litl::ValRaster<T, N> R;
  R make(const VI& shape) {
    return R(mkpos<N>(shape));
  }
};
template <typename T, Index N, std::size_t C>
struct Maker<T, N, PTR, C> {
  typedef Litl::PtrRaster<T, N> R;
  std::unique_ptr<T[]> ext;
  R make(const VI& shape) {
    ext.reset(new T[std::size_t(prod(shape))]);
    return R(mkpos<N>(shape), ext.get());
  }
};
template <typename T, Index N, std::size_t C>
struct Maker<T, N, ALI, C> {
  typedef Litl::AlignedRaster<T, N> R;
  R make(const VI& shape) {
    return R(mkpos<N>(shape));
  }
};
template <typename T, Index N, std::size_t C>
struct Maker<T, N, ARR, C> {
  typedef Litl::Raster<T, N, Litl::StdHolder<std::array<T, C>>> R;
  R make(const VI& shape) {
    return R(mkpos<N>(shape));
  }
};

#endif
