From 0293ccd1d3e93612548658692303fabfc256de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 01/72] fix: domain of variable-dimension rasters has the
 raster's dimension

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 7323eb0..474573a 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -81,7 +81,9 @@ const Position<N>& Raster<T, N, THolder>::shape() const {
 
 template <typename T, Index N, typename THolder>
 Box<N> Raster<T, N, THolder>::domain() const {
-  return Box<N>::fromShape(Position<N>::zero(), m_shape);
+  auto front = m_shape; // Not Position<N>::zero(), whose dimension is 1 if N = -1
+  front.fill(0);
+  return Box<N>::fromShape(std::move(front), m_shape);
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From fa1c9d3585563b6e90705abc02d65183e0353df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 02/72] fix: box iterators own their region, so that copies of
 row or ball iterators do not dangle

---
 LitlRaster/LitlRaster/BoxIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index de8d662..3558366 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -110,7 +110,7 @@ private:
   /**
    * @brief The screened region.
    */
-  const Box<N>& m_region;
+  Box<N> m_region;
 
   /**
    * @brief The current position.
-- 
2.43.0


From 99b527b57be92fa63a61a278f197b5058e61b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 03/72] fix: iterating over an empty box yields no position

---
 LitlRaster/LitlRaster/BoxIterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index 3558366..9abb652 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -19,9 +19,14 @@ public:
   explicit Iterator(const Box<N>& region, Position<N> current) : m_region(region), m_current(current) {}
 
   /**
-   * @brief The beginning position.
+   * @brief The beginning position (or the end position if the box is empty).
    */
   static Position<N> beginPosition(const Box<N>& box) {
+    for (Index i = 0; i < box.dimension(); ++i) {
+      if (box.length(i) <= 0) {
+        return endPosition(box);
+      }
+    }
     return box.front();
   }
 
-- 
2.43.0


From 128552beba8efd87ded49c666912399312c285dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 04/72] fix: post-increment of region iterators designates the
 element before incrementing

---
 LitlRaster/LitlRaster/BallIterator.h      | 6 ++++--
 LitlRaster/LitlRaster/BoxIterator.h       | 6 ++++--
 LitlRaster/LitlRaster/SubrasterIterator.h | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index fe96843..533acd1 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -42,8 +42,10 @@ public:
     return next();
   }
 
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   bool operator==(const Iterator& rhs) const {
diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index 9abb652..74358ae 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -63,8 +63,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 3065c4a..121275c 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -48,8 +48,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  Value* operator++(int) {
-    return next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
-- 
2.43.0


From 3386d1bcef61e6ae8a7a7705d9779b7d5fd92980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 05/72] fix: Vector::inf() is infinite, not the opposite of it

---
 LitlRaster/LitlRaster/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Vector.h b/LitlRaster/LitlRaster/Vector.h
index 11c4c1b..db1d8da 100644
--- a/LitlRaster/LitlRaster/Vector.h
+++ b/LitlRaster/LitlRaster/Vector.h
@@ -105,7 +105,7 @@ public:
    */
   static Vector<T, N> inf() {
     Vector<T, N> res(std::abs(N));
-    return res.fill(-Limits<T>::inf());
+    return res.fill(Limits<T>::inf());
   }
 
   /**
-- 
2.43.0


From a790cca4da6b3aa7bc6eb90cff20c87f7cf6b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 06/72] fix: ball size is its number of positions, not that of
 its bounding box

---
 LitlRaster/LitlRaster/Ball.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 02493f3..296274c 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -99,7 +99,12 @@ public:
    * @brief Compute the ball size, i.e. number of positions.
    */
   Index size() const {
-    return box().size(); // FIXME
+    Index out = 0;
+    const auto last = end(*this);
+    for (auto it = begin(*this); it != last; ++it) {
+      ++out;
+    }
+    return out;
   }
 
   /**
-- 
2.43.0


From 878b481f2fdb8634b3bdcbbb64e799772d2e20cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 07/72] fix: clamp a position inside a box

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 7b919f0..ee060e2 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -297,9 +297,9 @@ Box<N> project(const Box<N>& in, Index axis = 0) {
  */
 template <typename T, Index N = 2>
 Vector<T, N> clamp(const Vector<T, N>& position, const Box<N>& box) {
-  Vector<T, N> out(box.size());
+  Vector<T, N> out(box.dimension());
   for (std::size_t i = 0; i < out.size(); ++i) {
-    out[i] = clamp(position[i], box.front[i], box.back[i]); // TODO transform
+    out[i] = clamp(position[i], box.front()[i], box.back()[i]); // TODO transform
   }
   return out;
 }
-- 
2.43.0


From f700f28bbf91de71373869f4ef9f29fb0f48c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:02 +0000
Subject: [PATCH 08/72] fix: sections of variable-dimension rasters

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 33 +++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 474573a..b811694 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -176,43 +176,42 @@ PtrRaster<T, M> Raster<T, N, THolder>::slice(const Box<N>& region) {
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N> Raster<T, N, THolder>::section(Index front, Index back) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
+  auto sectionShape = shape();
   f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  sectionShape[last] = back - front + 1;
+  return PtrRaster<const T, N> {sectionShape, &operator[](f)}; // Always contiguous
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N> Raster<T, N, THolder>::section(Index front, Index back) {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
+  auto sectionShape = shape();
   f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  sectionShape[last] = back - front + 1;
+  return PtrRaster<T, N> {sectionShape, &operator[](f)}; // Always contiguous
 }
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
+  Position<N == -1 ? -1 : N - 1> sectionShape(last);
+  std::copy_n(shape().begin(), last, sectionShape.begin());
+  return PtrRaster<const T, N == -1 ? -1 : N - 1> {sectionShape, &operator[](f)}; // Always contiguous
   // FIXME duplication => return section(index, index).slice<N-1>(Box<N>::whole());
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) {
-  auto region = domain();
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
+  Position<N == -1 ? -1 : N - 1> sectionShape(last);
+  std::copy_n(shape().begin(), last, sectionShape.begin());
+  return PtrRaster<T, N == -1 ? -1 : N - 1> {sectionShape, &operator[](f)}; // Always contiguous
   // FIXME duplication
 }
 
-- 
2.43.0


From b4ab4db4b54312d283a2250a8632b6807192533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 09/72] fix: subrasters of mutable rasters are iterable

---
 LitlRaster/LitlRaster/SubrasterIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 121275c..b60d760 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -21,7 +21,7 @@ public:
    * @brief Constructor.
    */
   Iterator(const Subraster<TRaster, Value>& subraster, const Position<Dimension>& position) :
-      m_raster(subraster.raster()), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
+      m_raster(subraster.m_raster), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
   /**
-- 
2.43.0


From 4084fa48a01a8f4e045bd3747bf4b043070bd5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 10/72] fix: scalar operands may be elements of the container
 they are applied to

---
 LitlContainer/LitlContainer/Arithmetic.h    |  2 +-
 LitlContainer/LitlContainer/DataContainer.h | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 3e86bba..37fcd91 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -31,7 +31,7 @@ namespace Litl {
         static_cast<TDerived*>(this)->begin(), \
         static_cast<TDerived*>(this)->end(), \
         static_cast<TDerived*>(this)->begin(), \
-        [&](auto e) { \
+        [rhs](auto e) { \
           return e op rhs; \
         }); \
     return static_cast<TDerived&>(*this); \
diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 82cf2c6..e9b1edd 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -141,10 +141,11 @@ public:
    */
   TDerived& range(const T& min = Limits<T>::zero(), const T& step = Limits<T>::one()) {
     auto v = min;
+    const auto s = step; // step might be an element of the container
     auto& t = static_cast<TDerived&>(*this);
     for (auto& e : t) {
       e = v;
-      v += step;
+      v += s;
     }
     return t;
   }
@@ -160,12 +161,14 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
-    const auto step = (max - min) / (this->size() - 1);
+    const auto first = min; // min and max might be elements of the container
+    const auto last = max;
+    const auto step = (last - first) / (this->size() - 1);
     auto it = this->begin();
     for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
-      *it = min + step * i;
+      *it = first + step * i;
     }
-    *it = max;
+    *it = last;
     return static_cast<TDerived&>(*this);
   }
 
-- 
2.43.0


From 1ce977c16a13b06990b97dedbad9581841300aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 11/72] fix: linear spaces of one element or none

---
 LitlContainer/LitlContainer/DataContainer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index e9b1edd..03ba9b9 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -161,6 +161,9 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
+    if (this->size() < 2) {
+      return fill(max);
+    }
     const auto first = min; // min and max might be elements of the container
     const auto last = max;
     const auto step = (last - first) / (this->size() - 1);
-- 
2.43.0


From 318feddfad8dbda364f543dcda99a206fb248ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 12/72] fix: subtract a container from a scalar

---
 LitlContainer/LitlContainer/Arithmetic.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 37fcd91..ef87525 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -86,7 +86,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived, T>,
     boost::modable<TDerived>,
@@ -136,6 +135,17 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     return static_cast<TDerived&>(*this);
   }
 
+  /**
+   * @brief V = a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(rhs.begin(), rhs.end(), res.begin(), [lhs](auto e) {
+      return lhs - e;
+    });
+    return res;
+  }
+
   /// @group_operations
 
   /**
@@ -169,7 +179,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived>,
     boost::multiplicative<TDerived, T>,
@@ -222,6 +231,17 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     return static_cast<TDerived&>(*this);
   }
 
+  /**
+   * @brief V = a - U
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(rhs.begin(), rhs.end(), res.begin(), [lhs](auto e) {
+      return lhs - e;
+    });
+    return res;
+  }
+
   /// @group_operations
 
   /**
-- 
2.43.0


From 9b34a2a05530524bff417ae741def7979dbcdf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 13/72] fix: unary plus of containers (did not compile)

---
 LitlContainer/LitlContainer/Arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index ef87525..1af44fb 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -152,7 +152,7 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
@@ -248,7 +248,7 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
-- 
2.43.0


From a88fa50756be8a4d8c760c09845870679a25df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 14/72] fix: construct variable-dimension rasters from lists
 and iterables

---
 LitlRaster/LitlRaster/Raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index afa80e7..ec61f9a 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -205,7 +205,7 @@ public:
   template <typename U, typename... TArgs>
   explicit Raster(Position<N> shape, std::initializer_list<U> list, TArgs&&... args) :
       Container(list, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(list.size(), shapeSize(shape));
+    SizeError::mayThrow(list.size(), shapeSize(m_shape));
   }
 
   /**
@@ -223,7 +223,7 @@ public:
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
   explicit Raster(Position<N> shape, TIterable& iterable, TArgs&&... args) :
       Container(iterable, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(shape));
+    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape));
   }
 
   /// @group_properties
-- 
2.43.0


From c328c18600e537b3aae8bd992237924135809bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 15/72] fix: moving an aligned buffer transfers ownership

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 365b410..3f53fd2 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -137,7 +137,7 @@ public:
   /**
    * @brief Move constructor.
    */
-  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(), m_data(other.m_data) {
+  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(other.m_container), m_data(other.m_data) {
     other.release();
     other.reset();
   }
-- 
2.43.0


From fcf358740780b2afa649febc32805be1470f6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 16/72] fix: assigning to an aligned buffer frees the memory it
 owned

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 3f53fd2..20e6c70 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -147,6 +147,7 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       if (other.owns()) {
@@ -166,6 +167,7 @@ public:
    */
   AlignedBuffer& operator=(AlignedBuffer&& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       m_container = other.m_container;
-- 
2.43.0


From 6fd8e192dbb6d82c4ec6b827d26a518649a24712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 17/72] fix: minmax() references the first max element, as
 documented

---
 LitlContainer/LitlContainer/DataContainer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 03ba9b9..0f5f468 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -242,8 +242,7 @@ public:
    * @see `distribution()`
    */
   std::pair<const T&, const T&> minmax() const {
-    const auto its = std::minmax_element(this->begin(), this->end());
-    return {*its.first, *its.second};
+    return {min(), max()}; // std::minmax_element() would return the last max element
   }
 
   /**
-- 
2.43.0


From 874d45cf89c39d2e041aee330f914a524d3f7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:59 +0000
Subject: [PATCH 18/72] fix: decreasing linear spaces of integers

---
 LitlContainer/LitlContainer/DataContainer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 0f5f468..4b19c64 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -166,7 +166,7 @@ public:
     }
     const auto first = min; // min and max might be elements of the container
     const auto last = max;
-    const auto step = (last - first) / (this->size() - 1);
+    const auto step = (last - first) / static_cast<Index>(this->size() - 1); // Signed: first may be greater than last
     auto it = this->begin();
     for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
       *it = first + step * i;
-- 
2.43.0


From 5a00a4ae797aa1d8fb4d9cffdbf3015a922f67b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:59 +0000
Subject: [PATCH 19/72] fix: element-wise min() and max() of containers are not
 hidden (did not compile)

---
 LitlContainer/LitlContainer/DataContainer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 4b19c64..717e6b9 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -221,6 +221,9 @@ public:
 
   /// @group_operations
 
+  using MathFunctionsMixin<T, TDerived>::min; // Not hidden by the argument-less overloads
+  using MathFunctionsMixin<T, TDerived>::max;
+
   /**
    * @brief Get a reference to the (first) min element.
    * @see `distribution()`
-- 
2.43.0


From ae9854bc1e1cbbe78b27defa29c58710b715c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 20/72] fix: floor() of negative integral values

---
 LitlTypes/LitlTypes/TypeUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index aa1d0db..e82796e 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -165,7 +165,7 @@ inline T clamp(T in, U min, U max) {
 template <typename TInt, typename TFloat>
 TInt floor(TFloat in) {
   TInt out = in;
-  return out - (in < 0);
+  return out - (in < out);
 }
 
 /**
-- 
2.43.0


From 64c8c93036a7d0050f5f5a3d7691f0243a91df2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 21/72] fix: weights of linear interpolation were swapped

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 9f2c8ba..a0e658a 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -101,7 +101,7 @@ struct Linear {
     const auto d = position.front() - f;
     const T p = raster[{f, indices...}];
     const T n = raster[{f + 1, indices...}];
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 
   template <typename T, Index N, typename TRaster, typename... TIndices>
@@ -112,7 +112,7 @@ struct Linear {
     const auto pos = position.template slice<N - 1>();
     const auto p = at<T>(raster, pos, f, indices...);
     const auto n = at<T>(raster, pos, f + 1, indices...);
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 };
 
-- 
2.43.0


From f7deda2fbb8e9f6d4fa83efdcf672e55ba37f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 22/72] fix: nearest-neighbor interpolation at negative
 positions

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index a0e658a..377ab11 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,7 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return e + .5;
+      return floor<Index>(e + .5);
     });
     return raster[integral];
   }
-- 
2.43.0


From 4b5425d0fff76c9faf8a3e244d51d2bba7d9f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 23/72] fix: the end of data samples depends on their count,
 not on the data size

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4d9094b..4c05877 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -347,7 +347,7 @@ public:
    * @brief Get an iterator to the end of the sampler.
    */
   Iterator<const DataSamples<T>, const T> end() const {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
@@ -361,7 +361,7 @@ public:
    * @copybrief end()
    */
   Iterator<DataSamples<T>, T> end() {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
-- 
2.43.0


From 86c287c9c88cc1ecfd9349f3c12eeae00f599696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 24/72] fix: data samples are moved by a number of elements,
 not by a value

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4c05877..897bd95 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -323,7 +323,7 @@ public:
   /**
    * @brief Move the data pointer forward.
    */
-  DataSamples& operator+=(T n) {
+  DataSamples& operator+=(Index n) {
     m_data += n;
     return *this;
   }
@@ -331,7 +331,7 @@ public:
   /**
    * @brief Move the data pointer backward.
    */
-  DataSamples& operator-=(T n) {
+  DataSamples& operator-=(Index n) {
     *this += -n;
     return *this;
   }
-- 
2.43.0


From 4ab8799358eabe122bcff4fbd035cc9cfc485132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 25/72] fix: post-increment of samplings, and member access of
 axis sampling iterators

---
 LitlRaster/LitlRaster/Sampling.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 897bd95..2be3357 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -31,8 +31,8 @@ public:
       return m_current;
     }
 
-    T* operator->() {
-      return *m_current;
+    const T* operator->() const {
+      return &m_current;
     }
 
     Iterator& operator++() {
@@ -41,7 +41,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(T n) {
@@ -201,7 +202,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(Index n) {
@@ -316,7 +318,7 @@ public:
    */
   DataSamples operator++(int) {
     auto res = *this;
-    ++res;
+    ++*this;
     return res;
   }
 
-- 
2.43.0


From b95415371518ad29c3712c1b59f3acadfa8b3c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 26/72] fix: shape and axes of variable-dimension position
 samplings

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 2be3357..5a69250 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -137,7 +137,7 @@ public:
    * @brief Get the number of samples along each axis.
    */
   Position<N> shape() const {
-    Position<N> res;
+    Position<N> res(m_samplings.size());
     std::transform(m_samplings.begin(), m_samplings.end(), res.begin(), [](const auto& s) {
       return s.size();
     });
@@ -156,7 +156,7 @@ public:
    * @copybrief along()
    */
   const IndexSampling& along(Index i) const {
-    return along<i>();
+    return m_samplings[i];
   }
 
 private:
-- 
2.43.0


From e9fe07c198a2c7e1048859e0185f6b0a3afd402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 27/72] fix: back of segments of given size

---
 LitlTypes/LitlTypes/Segment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Segment.h b/LitlTypes/LitlTypes/Segment.h
index 70f8e66..2cf432e 100644
--- a/LitlTypes/LitlTypes/Segment.h
+++ b/LitlTypes/LitlTypes/Segment.h
@@ -15,7 +15,7 @@ public:
   Segment(Index front, Index back) : m_front(front), m_back(back) {}
 
   static Segment fromSize(Index front, std::size_t size) {
-    return Segment(front, size - front - 1);
+    return Segment(front, front + size - 1);
   }
 
   Index front() const {
-- 
2.43.0


From ae5ff7e2d0b20b7bcfb5a990f769acc0cfabdd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 28/72] fix: median of even windows averages the two middle
 values

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 6a62f40..4c4f397 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -87,8 +87,8 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    const auto p = std::max_element(b, n); // The first half is not greater than *n
+    return (*p + *n) * .5;
   }
 
 private:
-- 
2.43.0


From a0ea74c6b40c10a106d9b44c7b0f35427a38f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:08 +0000
Subject: [PATCH 29/72] fix: input rows read by correlation inside the image

---
 LitlTransforms/LitlTransforms/Kernel.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 5741e81..d1f891a 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -99,27 +99,30 @@ private:
     // Compute constants
     auto boxWidth = box.template length<0>();
     box.project(); // Keep front hyperplane only
-    const auto inWidth = in.template length<0>();
     const auto kWidth = m_window.template length<0>();
-    const auto kRowCount = m_window.size() / kWidth;
 
-    // Prepare iterators
-    auto inIt = in.data();
-    auto outIt = &out[box.front()];
-    auto kIt = m_values.data();
-    const auto distance = outIt - inIt;
+    // Compute the offsets of the kernel rows in the input, relative to the first one
+    auto kRows = m_window;
+    kRows.project();
+    std::vector<Index> offsets;
+    for (const auto& q : kRows) {
+      offsets.push_back(in.index(q - m_window.front()));
+    }
 
     // Loop over the hyperplane
     for (const auto& p : box) {
 
       // Loop over the rows which begin in the hyperplane
-      outIt = &out[p];
-      for (Index i = boxWidth; i > 0; --i, ++outIt, inIt = outIt - distance, kIt = m_values.data()) {
+      auto inIt = &in[p + m_window.front()];
+      auto outIt = &out[p];
+      for (Index i = boxWidth; i > 0; --i, ++inIt, ++outIt) {
 
         // Compute the weighted sum row by row
         T sum {};
-        for (Index j = kRowCount; j > 0; --j, inIt += inWidth, kIt += kWidth) {
-          sum = std::inner_product(kIt, kIt + kWidth, inIt, sum);
+        auto kIt = m_values.data();
+        for (auto offset : offsets) {
+          sum = std::inner_product(kIt, kIt + kWidth, inIt + offset, sum);
+          kIt += kWidth;
         }
         *outIt = sum;
       }
-- 
2.43.0


From 738572acd2812db470e1c390c35cc4e6af8593b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:08 +0000
Subject: [PATCH 30/72] fix: correlation of images smaller than the kernel

---
 LitlTransforms/LitlTransforms/Kernel.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index d1f891a..131f768 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -78,6 +78,12 @@ public:
   template <typename TRaster, typename TMethod, typename TOut>
   void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
     const auto inner = in.domain() - m_window;
+    for (std::size_t i = 0; i < inner.dimension(); ++i) {
+      if (inner.length(i) <= 0) { // The kernel does not fit in the image
+        correlateWithExtrapolation(in, in.domain(), out);
+        return;
+      }
+    }
     const auto outers = inner.surround(m_window);
     correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
     for (const auto& o : outers) {
-- 
2.43.0


From f73d2b3d99afbd56a75837323cad671e997416cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:08 +0000
Subject: [PATCH 31/72] fix: correlation of short or sampled data by line
 kernels

---
 LitlTransforms/LitlTransforms/LineKernel.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 3b87159..9f400d1 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -94,14 +94,16 @@ public:
     auto outIt = out.begin();
     auto i = in.front();
 
+    const auto size = static_cast<Index>(in.size());
+    const auto forward = static_cast<Index>(this->size()) - m_origin - 1;
+
     // Backward-croped
-    for (; i < m_origin; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
+    for (; i < m_origin && i <= in.back(); i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(originData() - i, originData() + std::min(forward + 1, size - i), inMinIt, m_bias);
     }
 
     // Central
-    const auto forward = this->size() - m_origin - 1;
-    for (; i <= in.size() - forward - step; i += step, inIt += step, ++outIt) {
+    for (; i < size - forward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
     }
 
-- 
2.43.0


From 520385461c2f2f096eb25d37531160fb08597eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:08 +0000
Subject: [PATCH 32/72] fix: correlation of short or sampled data by 1D kernels

---
 LitlTransforms/LitlTransforms/Convolution.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 2f891fa..40aaebb 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -85,21 +85,19 @@ public:
     printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
 
     // Backward-croped
-    for (; i < m_backward; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-      printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
+    const auto size = static_cast<Index>(in.size());
+    for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, m_bias);
     }
 
     // Central
-    for (; i <= in.size() - m_forward - step; i += step, inIt += step, ++outIt) {
+    for (; i < size - m_forward && i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-      printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
     }
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
-      printf("End (<=%li): out[%li] = %i\n", in.back(), i, *outIt); // FIXME rm
     }
   }
 
-- 
2.43.0


From f8339c72e0f4cc6d8e0f7f262ed9c2629fba2610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:08 +0000
Subject: [PATCH 33/72] fix: composition of separable kernels neither reverses
 nor crops them

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 2c4acbf..be89fcd 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -146,9 +146,13 @@ public:
       shape[k.first] = k.second.size();
       origin[k.first] = k.second.origin();
     }
-    auto raster = Raster<Value, Dimension>(shape).fill(T(0));
-    raster[origin] = T(1);
-    return kernelize(*this * raster, origin);
+    auto raster = Raster<Value, Dimension>(shape).fill(T(1));
+    for (const auto& p : raster.domain()) {
+      for (const auto& k : m_kernels) {
+        raster[p] *= k.second[p[k.first]];
+      }
+    }
+    return kernelize(raster, origin);
   }
 
   /**
-- 
2.43.0


From a0cafccef2f6c84fc3dcc20b9e533231881f4f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:04 +0000
Subject: [PATCH 34/72] fix: median filtering of the whole image by default

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 4c4f397..76798cd 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -63,7 +63,8 @@ public:
   void applyTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
     std::vector<typename TIn::Value> neighbors(m_window.size());
     auto it = neighbors.begin();
-    for (const auto& p : region) {
+    const Box<N> bounded(region.front(), clamp(region.back(), in.shape())); // By default, region is unlimited
+    for (const auto& p : bounded) {
       for (const auto& q : m_window + p) {
         *it++ = in[q];
       }
-- 
2.43.0


From 204f3cc40c50648a43a97e28121e998e49a8f8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:16 +0000
Subject: [PATCH 35/72] fix: separable Laplacian kernel (did not compile)

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index be89fcd..d4cede8 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -92,7 +92,7 @@ public:
    * or `{-1, 2, -1}` if sign is -1.
    */
   static SeparableKernel laplacian(T sign = 1) {
-    return SeparableKernel(LineKernel<T>({sign, sign * -2, sign}));
+    return LineKernel<T>({sign, sign * -2, sign}).template along<I0, Is...>();
   }
 
   /// @group_properties
-- 
2.43.0


From ec269d5f724725ecb507200d8b0ede3e7b8413aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 36/72] fix: assigning to a DFT plan releases the previous one

---
 LitlTransforms/LitlTransforms/DftPlan.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/DftPlan.h b/LitlTransforms/LitlTransforms/DftPlan.h
index 9ade097..cc11413 100644
--- a/LitlTransforms/LitlTransforms/DftPlan.h
+++ b/LitlTransforms/LitlTransforms/DftPlan.h
@@ -109,7 +109,25 @@ public:
       m_plan {FftwAllocator::createPlan<Transform>(m_in, m_out)} {}
 
   LITL_DEFAULT_COPYABLE(DftPlan)
-  LITL_DEFAULT_MOVABLE(DftPlan)
+
+  /**
+   * @brief Move constructor.
+   */
+  DftPlan(DftPlan&&) = default;
+
+  /**
+   * @brief Move assignment.
+   */
+  DftPlan& operator=(DftPlan&& other) {
+    if (this != &other) {
+      FftwAllocator::destroyPlan(m_plan);
+      m_shape = std::move(other.m_shape);
+      m_in = std::move(other.m_in);
+      m_out = std::move(other.m_out);
+      m_plan = std::move(other.m_plan);
+    }
+    return *this;
+  }
 
   /**
    * @brief Destructor.
-- 
2.43.0


From 2be5b1741646884fb074c341e02e72ae905196c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 37/72] fix: weights of interpolated quantiles were swapped

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 24b9ee5..300ca76 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -151,7 +151,9 @@ public:
       return nth(f);
     }
     const auto d = n - f;
-    return nth(f) * d + nth(f + 1) * (1. - d); // FIXME linear(&nth(f), d);
+    const T low = nth(f); // By copy: nth() reorders the values
+    const T high = nth(f + 1);
+    return low * (1. - d) + high * d; // FIXME linear(&nth(f), d);
   }
 
   /**
-- 
2.43.0


From b106173d6f825505844ce611dad846856e7a6861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 38/72] fix: mean and variance of integers

---
 LitlContainer/LitlContainer/DataDistribution.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 300ca76..1e0b58b 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -45,11 +45,11 @@ public:
    * @brief Vector-move constructor.
    */
   explicit DataDistribution(std::vector<T>&& values) :
-      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()),
-      m_sum2(m_sum) {
+      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(0),
+      m_sum2(0) {
     for (const auto& v : m_values) {
       m_sum += v;
-      m_sum2 += v * v;
+      m_sum2 += Floating(v) * v;
     }
   }
 
@@ -85,7 +85,7 @@ public:
   /**
    * @brief Get the sum of all values.
    */
-  const T& sum() {
+  Floating sum() {
     return m_sum;
   }
 
@@ -121,7 +121,7 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return Floating(m_sum2 - m_sum * m_sum() / size()) / (size() - unbiased);
+    return (m_sum2 - m_sum * m_sum / size()) / (size() - unbiased);
   }
 
   /**
@@ -210,12 +210,12 @@ private:
   /**
    * @brief The cached sum.
    */
-  T m_sum;
+  Floating m_sum;
 
   /**
    * @brief The cached sum of squares.
    */
-  T m_sum2;
+  Floating m_sum2;
 };
 
 } // namespace Litl
-- 
2.43.0


From d8c93a562103dc2d7aa61623a60284b094ddf32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 39/72] fix: absolute deviations from fractional medians

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 1e0b58b..333b9d4 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -128,12 +128,12 @@ public:
    * @brief Compute the median absolute deviation.
    */
   Floating mad() {
-    std::vector<T> absdev(size());
+    std::vector<Floating> absdev(size());
     const auto m = median();
     std::transform(m_values.begin(), m_values.end(), absdev.begin(), [=](auto e) {
       return std::abs(e - m);
     });
-    return DataDistribution<T>(std::move(absdev)).median();
+    return DataDistribution<Floating>(std::move(absdev)).median();
   }
 
   /**
-- 
2.43.0


From 105e67b3e780ef3ac8b24bc0c060f625b31cfc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 40/72] fix: values at the last edge of histograms were counted
 outside

---
 LitlContainer/LitlContainer/DataDistribution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 333b9d4..81b94ee 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -178,8 +178,9 @@ public:
       }
       ++countIt;
     }
-    if (it != m_values.end() && *it == bins.back()) {
-      ++(*countIt);
+    while (it != m_values.end() && *it == bins.back()) { // The last bin is closed
+      ++out.back();
+      ++it;
     }
     return out;
   }
-- 
2.43.0


From 234e3507b645adcef0abd097458a9cd2d1e908f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:54 +0000
Subject: [PATCH 41/72] fix: standard deviation of long increments

---
 LitlRun/LitlRun/Chronometer.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/Chronometer.h b/LitlRun/LitlRun/Chronometer.h
index 74f8cac..ed5abd0 100644
--- a/LitlRun/LitlRun/Chronometer.h
+++ b/LitlRun/LitlRun/Chronometer.h
@@ -5,10 +5,10 @@
 #ifndef _LITLRUN_CHRONOMETER_H
 #define _LITLRUN_CHRONOMETER_H
 
-#include <algorithm> // accumulate, min_element, max_element
+#include <algorithm> // min_element, max_element
 #include <chrono>
 #include <cmath> // sqrt
-#include <numeric> // inner_product
+#include <numeric> // accumulate
 #include <vector>
 
 namespace Litl {
@@ -119,8 +119,10 @@ public:
    */
   double stdev() const {
     const auto m = mean();
-    const auto s2 = std::inner_product(m_container.begin(), m_container.end(), m_container.begin(), 0.);
-    return std::sqrt(s2 / count() - m * m);
+    const auto s2 = std::accumulate(m_container.begin(), m_container.end(), 0., [=](double sum, double e) {
+      return sum + (e - m) * (e - m); // Mean of squares minus square of mean would cancel out
+    });
+    return std::sqrt(s2 / count());
   }
 
   /**
-- 
2.43.0


From 8bf33093e05f31a63cd40cf6f137a9a10f001daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 42/72] fix: flags consumed the next positional argument

---
 LitlRun/LitlRun/ProgramOptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index 355700e..e78d509 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -109,7 +109,7 @@ public:
    * @brief Declare a flag option.
    */
   void flag(const char* name, const char* description) {
-    named(name, boost::program_options::value<bool>()->default_value(false)->implicit_value(true), description);
+    named(name, boost::program_options::bool_switch(), description); // Does not consume the next positional argument
   }
 
   /**
-- 
2.43.0


From cd3998341d7ed9088d4b7af237e2c9ea04ce207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 43/72] fix: values of a former command line were kept when
 parsing another one

---
 LitlRun/LitlRun/ProgramOptions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index e78d509..c8c06ef 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -123,10 +123,12 @@ public:
    * @brief Parse a command line (`main`-like).
    */
   void parse(int argc, const char* const argv[]) {
+    boost::program_options::variables_map variables; // Stored values would not be overwritten in m_variables
     boost::program_options::store(
         boost::program_options::command_line_parser(argc, argv).options(m_named).positional(m_positional).run(),
-        m_variables);
-    boost::program_options::notify(m_variables);
+        variables);
+    boost::program_options::notify(variables);
+    m_variables = std::move(variables);
   }
 
   /**
-- 
2.43.0


From d148e0310d4899fd53ea85e684c5be568b4a45c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 44/72] fix: declaring options on a copy changed the copied
 object

---
 LitlRun/LitlRun/ProgramOptions.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index c8c06ef..fb06ee6 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -49,7 +49,7 @@ public:
    * @brief Make a `ProgramOptions` with optional description string.
    */
   ProgramOptions(const std::string& description = "") :
-      m_named(describe(description)), m_add(m_named.add_options()), m_positional(), m_variables() {}
+      m_named(describe(description)), m_positional(), m_variables() {}
 
   /**
    * @brief Declare a positional option.
@@ -71,7 +71,7 @@ public:
    * @brief Declare a positional option with custom semantics.
    */
   void positional(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
     const int maxArgs = value->max_tokens();
     m_positional.add(name, maxArgs);
   }
@@ -102,7 +102,7 @@ public:
    * A short form (1-character) of the option can be provided, separated by a comma.
    */
   void named(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
   }
 
   /**
@@ -184,7 +184,6 @@ private:
   }
 
   OptionsDescription m_named;
-  boost::program_options::options_description_easy_init m_add;
   PositionalOptionsDescription m_positional;
   boost::program_options::variables_map m_variables;
 };
-- 
2.43.0


From 7b532eeae09e549dea3e9bc5d52532980eca100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:11 +0000
Subject: [PATCH 45/72] fix: failed FITS operations raise errors and do not
 prevent later ones

---
 LitlIo/LitlIo/Fits.h | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index fb743e8..d3a226c 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -6,6 +6,7 @@
 #define _LITLIO_FITS_H
 
 #include "LitlRaster/Raster.h"
+#include "LitlTypes/Exceptions.h"
 
 #include <fitsio.h>
 #include <string>
@@ -22,8 +23,13 @@ public:
     int naxis = 0;
     fits_open_file(&m_fptr, m_filename.c_str(), READONLY, &m_status);
     fits_get_img_dim(m_fptr, &naxis, &m_status);
+    if (m_status == 0 && TRaster::Dimension >= 0 && naxis != TRaster::Dimension) {
+      m_status = BAD_NAXIS;
+    }
+    mayThrow("Cannot read image: ");
     Position<TRaster::Dimension> shape(naxis);
     fits_get_img_size(m_fptr, naxis, shape.data(), &m_status);
+    mayThrow("Cannot read image: ");
     TRaster out(shape);
     fits_read_img(
         m_fptr,
@@ -34,15 +40,17 @@ public:
         out.data(),
         nullptr,
         &m_status);
+    mayThrow("Cannot read image: ");
     fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
     m_fptr = nullptr;
+    mayThrow("Cannot close file: ");
     return out;
   }
 
   template <typename TRaster>
   void write(TRaster raster) { // FIXME const
     fits_create_file(&m_fptr, m_filename.c_str(), &m_status);
+    mayThrow("Cannot create file: ");
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
@@ -57,12 +65,32 @@ public:
         raster.size(),
         raster.data(),
         &m_status);
+    mayThrow("Cannot write image: ");
     fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
     m_fptr = nullptr;
+    mayThrow("Cannot close file: ");
   }
 
 private:
+  /**
+   * @brief Throw if the status is an error; in this case, close the file and reset the status.
+   */
+  void mayThrow(const std::string& prefix) {
+    if (m_status == 0) {
+      return;
+    }
+    char text[FLEN_STATUS];
+    fits_get_errstatus(m_status, text);
+    fits_clear_errmsg();
+    if (m_fptr) {
+      int status = 0;
+      fits_close_file(m_fptr, &status);
+      m_fptr = nullptr;
+    }
+    m_status = 0;
+    throw Exception("FITS error", prefix + m_filename + " (" + text + ")");
+  }
+
   std::string m_filename;
   fitsfile* m_fptr;
   int m_status;
-- 
2.43.0


From baf4192e448ae6fbd82ab6970f9d955fca38a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:41 +0000
Subject: [PATCH 46/72] fix: pixels of FITS images other than bytes

---
 LitlIo/LitlIo/Fits.h | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index d3a226c..5a0609d 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -10,9 +10,37 @@
 
 #include <fitsio.h>
 #include <string>
+#include <type_traits> // decay
 
 namespace Litl {
 
+/**
+ * @brief CFITSIO image type (as stored) and data type (as in memory) of a pixel type.
+ */
+template <typename T>
+struct FitsType;
+#define LITL_FITS_TYPE(T, image, data) \
+  template <> \
+  struct FitsType<T> { \
+    static constexpr int Image = image; \
+    static constexpr int Data = data; \
+  };
+LITL_FITS_TYPE(bool, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE(char, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE(signed char, SBYTE_IMG, TSBYTE)
+LITL_FITS_TYPE(unsigned char, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE(short, SHORT_IMG, TSHORT)
+LITL_FITS_TYPE(unsigned short, USHORT_IMG, TUSHORT)
+LITL_FITS_TYPE(int, LONG_IMG, TINT)
+LITL_FITS_TYPE(unsigned int, ULONG_IMG, TUINT)
+LITL_FITS_TYPE(long, LONGLONG_IMG, TLONG)
+LITL_FITS_TYPE(unsigned long, ULONGLONG_IMG, TULONG)
+LITL_FITS_TYPE(long long, LONGLONG_IMG, TLONGLONG)
+LITL_FITS_TYPE(unsigned long long, ULONGLONG_IMG, TULONGLONG)
+LITL_FITS_TYPE(float, FLOAT_IMG, TFLOAT)
+LITL_FITS_TYPE(double, DOUBLE_IMG, TDOUBLE)
+#undef LITL_FITS_TYPE
+
 class Fits {
 
 public:
@@ -33,7 +61,7 @@ public:
     TRaster out(shape);
     fits_read_img(
         m_fptr,
-        TBYTE, // FIXME
+        FitsType<std::decay_t<typename TRaster::Value>>::Data,
         1,
         out.size(),
         nullptr,
@@ -54,13 +82,13 @@ public:
     auto shape = raster.shape();
     fits_create_img(
         m_fptr,
-        BYTE_IMG, // FIXME
+        FitsType<std::decay_t<typename TRaster::Value>>::Image,
         raster.dimension(),
         shape.data(),
         &m_status);
     fits_write_img(
         m_fptr,
-        TBYTE, // FIXME
+        FitsType<std::decay_t<typename TRaster::Value>>::Data,
         1,
         raster.size(),
         raster.data(),
-- 
2.43.0


From 2d712dffa204cbe9563e174c5a37644fc5ef9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:33 +0000
Subject: [PATCH 47/72] fix: boxes can be shifted by their own front

---
 LitlRaster/LitlRaster/Box.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index ee060e2..657baba 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -207,8 +207,9 @@ public:
    * @brief Shift the box by a given vector.
    */
   Box<N>& operator+=(const Position<N>& shift) {
-    m_front += shift;
-    m_back += shift;
+    const auto by = shift; // shift may be the front of this box
+    m_front += by;
+    m_back += by;
     return *this;
   }
 
@@ -216,8 +217,9 @@ public:
    * @brief Shift the box by a given vector.
    */
   Box<N>& operator-=(const Position<N>& shift) {
-    m_front -= shift;
-    m_back -= shift;
+    const auto by = shift; // shift may be the front of this box
+    m_front -= by;
+    m_back -= by;
     return *this;
   }
 
-- 
2.43.0


From e5bb4aaf492d9fbe5207b130951066243fc1e28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:30 +0000
Subject: [PATCH 48/72] fix: median of even windows of large integers

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 76798cd..1f6e1cd 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -89,7 +89,7 @@ public:
       return *n;
     }
     const auto p = std::max_element(b, n); // The first half is not greater than *n
-    return (*p + *n) * .5;
+    return *p * .5 + *n * .5; // The sum of the values may overflow
   }
 
 private:
-- 
2.43.0


From fdafcb03e41ce431eda484fcf6079785fb3b3b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:30 +0000
Subject: [PATCH 49/72] fix: no debugging message in separable correlation

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index d4cede8..58ad93a 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -205,7 +205,6 @@ private:
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
     const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
-    printf("%li: %i -> %i\n", J0, tmp[0], out[0]);
   }
 
   template <typename TRasterIn, typename TRasterOut>
-- 
2.43.0


From 7c911597e90ae75fb8d2f6b41163b2463055be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:30 +0000
Subject: [PATCH 50/72] fix: ball iterators own their center

---
 LitlRaster/LitlRaster/BallIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index 533acd1..fec7576 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -85,7 +85,7 @@ private:
   /**
    * @brief The ball center.
    */
-  const Position<N>& m_center;
+  Position<N> m_center;
 
   /**
    * @brief The bounding box.
-- 
2.43.0


From a6c24779937a485f6256dcb057b0c59e73578267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 51/72] fix: no debugging message in correlation by 1D kernels

---
 LitlTransforms/LitlTransforms/Convolution.h | 41 ---------------------
 1 file changed, 41 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 40aaebb..77a63b7 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -82,8 +82,6 @@ public:
     auto outIt = out.begin();
     Index i = in.front();
 
-    printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
-
     // Backward-croped
     const auto size = static_cast<Index>(in.size());
     for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
@@ -124,7 +122,6 @@ public:
     const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_forward);
     const auto xStep = sampling.template along<0>().step;
     const auto yStep = sampling.template along<1>().step;
-    printf("%li-%li:%li - %li-%li:%li\n", xFrom, xTo, xStep, yFrom, yTo, yStep);
 
     // Convolve along x-axis
     const Index xConvolvedWidth = (xTo - xFrom + xStep) / xStep;
@@ -134,67 +131,29 @@ public:
         &in[{0, yFrom}],
         in.template length<0>(),
         {xFrom, xTo, xStep});
-    printf("inSamples: %li-%li:%li:%li\n", inSamples.front(), inSamples.back(), inSamples.step(), inSamples.stride());
     DataSamples<typename TRasterOut::Value> xConvolvedSamples(
         xConvolved.data(),
         xConvolvedWidth,
         {0, Limits<Index>::inf()});
-    printf(
-        "xConvolvedSamples: %li-%li:%li:%li\n",
-        xConvolvedSamples.front(),
-        xConvolvedSamples.back(),
-        xConvolvedSamples.step(),
-        xConvolvedSamples.stride());
     for (Index y = yFrom; y <= yTo; ++y) {
-      printf(
-          "in: %li, xConvolved: %li\n",
-          std::distance(in.data(), inSamples.data()),
-          std::distance(xConvolved.data(), xConvolvedSamples.data()));
       sparseCorrelate1dTo(inSamples, xConvolvedSamples);
       inSamples += in.template length<0>();
       xConvolvedSamples += xConvolvedWidth;
     }
 
-    printf("xConvolved:\n%lix%li\n", xConvolvedWidth, xConvolvedHeight);
-    for (Index y = 0; y < xConvolvedHeight; ++y) {
-      for (Index x = 0; x < xConvolvedWidth; ++x) {
-        printf("%i ", xConvolved[{x, y}]);
-      }
-      printf("\n");
-    }
-
     // Convolve along y-axis
     DataSamples<typename TRasterOut::Value> ySamples(
         xConvolved.data(),
         xConvolvedHeight,
         {sampling.template along<1>().front - yFrom, sampling.template along<1>().back - yFrom, yStep},
         xConvolvedWidth);
-    printf("ySamples: %li-%li:%li:%li\n", ySamples.front(), ySamples.back(), ySamples.step(), ySamples.stride());
     DataSamples<typename TRasterOut::Value>
         outSamples(out.data(), out.template length<1>(), {0, Limits<Index>::inf()}, out.template length<0>());
-    printf(
-        "outSamples: %li-%li:%li:%li\n",
-        outSamples.front(),
-        outSamples.back(),
-        outSamples.step(),
-        outSamples.stride());
     for (Index x = xFrom; x <= xTo; x += xStep) {
-      printf(
-          "xConvolved: %li, out: %li\n",
-          std::distance(xConvolved.data(), ySamples.data()),
-          std::distance(out.data(), outSamples.data()));
       sparseCorrelate1dTo(ySamples, outSamples);
       ySamples += 1;
       outSamples += 1;
     }
-
-    printf("out:\n%lix%li\n", out.template length<0>(), out.template length<1>());
-    for (Index y = 0; y < out.template length<1>(); ++y) {
-      for (Index x = 0; x < out.template length<0>(); ++x) {
-        printf("%i ", out[{x, y}]);
-      }
-      printf("\n");
-    }
   }
 
 private:
-- 
2.43.0


From cf5efc6399d4486213623be58056f65ffcd7d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 52/72] fix: unit steps of variable-dim grid sampling

---
 LitlRaster/LitlRaster/Sampling.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 5a69250..3221b07 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -124,10 +124,15 @@ using IndexSampling = AxisSampling<Index>;
 template <Index N>
 class PositionSampling {
 public:
+  /**
+   * @brief Unit-step constructor.
+   */
+  PositionSampling(const Box<N>& box) : PositionSampling(box, Position<N>(box.dimension()).fill(1)) {}
+
   /**
    * @brief Constructor.
    */
-  PositionSampling(const Box<N>& box, const Position<N>& step = Position<N>::one()) : m_samplings(step.size()) {
+  PositionSampling(const Box<N>& box, const Position<N>& step) : m_samplings(step.size()) {
     for (std::size_t i = 0; i < m_samplings.size(); ++i) {
       m_samplings[i] = {box.front()[i], box.back()[i], step[i]};
     }
-- 
2.43.0


From a3b30c14c50cc46f0dcb49309c4c60c2a16e087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 53/72] fix: median filtering of the whole image in variable
 dimension

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 1f6e1cd..e9b8855 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -53,6 +53,16 @@ public:
     return out;
   }
 
+  /**
+   * @brief Apply the filter to the whole image into a given output raster.
+   * @param in The input raster or an extrapolator
+   * @param out The output raster
+   */
+  template <typename TIn, typename TOut>
+  void applyTo(const TIn& in, TOut& out) {
+    applyTo(in, out, in.domain());
+  }
+
   /**
    * @brief Apply the filter into a given output raster.
    * @param in The input raster or an extrapolator
@@ -60,10 +70,10 @@ public:
    * @param region The region to filter in the input raster
    */
   template <typename TIn, typename TOut>
-  void applyTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void applyTo(const TIn& in, TOut& out, const Box<N>& region) {
     std::vector<typename TIn::Value> neighbors(m_window.size());
     auto it = neighbors.begin();
-    const Box<N> bounded(region.front(), clamp(region.back(), in.shape())); // By default, region is unlimited
+    const Box<N> bounded(region.front(), clamp(region.back(), in.shape())); // The region may be unlimited
     for (const auto& p : bounded) {
       for (const auto& q : m_window + p) {
         *it++ = in[q];
-- 
2.43.0


From 93fd2ad44726bbc18371228170c7b523dcb8789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:02 +0000
Subject: [PATCH 54/72] fix: reject checked access at positions of another
 dimension

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index b811694..12e682d 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -114,6 +114,7 @@ inline T& Raster<T, N, THolder>::operator[](const Position<N>& pos) {
 
 template <typename T, Index N, typename THolder>
 inline const T& Raster<T, N, THolder>::at(const Position<N>& pos) const {
+  SizeError::mayThrow(pos.size(), dimension());
   auto boundedPos = pos;
   for (Index i = 0; i < dimension(); ++i) {
     auto& b = boundedPos[i];
-- 
2.43.0


From af8c68266ba5a3143c57681c9fd47bf124fe62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:13 +0000
Subject: [PATCH 55/72] fix: copy sequences instead of iterating over mutable
 ones

---
 LitlContainer/LitlContainer/Sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/Sequence.h b/LitlContainer/LitlContainer/Sequence.h
index 88b207a..13d3fc5 100644
--- a/LitlContainer/LitlContainer/Sequence.h
+++ b/LitlContainer/LitlContainer/Sequence.h
@@ -28,7 +28,7 @@ public:
   explicit Sequence(std::initializer_list<U> list, TArgs&&... args) : Container(list, std::forward<TArgs>(args)...) {}
 
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
-  explicit Sequence(TIterable& iterable, TArgs&&... args) : Container(iterable, std::forward<TArgs>(args)...) {}
+  explicit Sequence(const TIterable& iterable, TArgs&&... args) : Container(iterable, std::forward<TArgs>(args)...) {}
 };
 
 /**
-- 
2.43.0


From efcaa007fed0451742e78215eb647ea3f27fcda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:41 +0000
Subject: [PATCH 56/72] fix: variance of values far from zero

---
 LitlContainer/LitlContainer/DataDistribution.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 81b94ee..48a66ec 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -45,11 +45,9 @@ public:
    * @brief Vector-move constructor.
    */
   explicit DataDistribution(std::vector<T>&& values) :
-      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(0),
-      m_sum2(0) {
+      m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(0) {
     for (const auto& v : m_values) {
       m_sum += v;
-      m_sum2 += Floating(v) * v;
     }
   }
 
@@ -121,7 +119,12 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return (m_sum2 - m_sum * m_sum / size()) / (size() - unbiased);
+    const auto m = mean();
+    Floating sum2(0); // Of centered values, otherwise digits are lost when the mean is large
+    for (const auto& v : m_values) {
+      sum2 += (v - m) * (v - m);
+    }
+    return sum2 / (size() - unbiased);
   }
 
   /**
@@ -212,11 +215,6 @@ private:
    * @brief The cached sum.
    */
   Floating m_sum;
-
-  /**
-   * @brief The cached sum of squares.
-   */
-  Floating m_sum2;
 };
 
 } // namespace Litl
-- 
2.43.0


From c03c6ea9a6a7b80050c5bcacb5aef0f8b134d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:23 +0000
Subject: [PATCH 57/72] fix: concurrent creation and destruction of DFT plans

---
 LitlTransforms/LitlTransforms/DftMemory.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/DftMemory.h b/LitlTransforms/LitlTransforms/DftMemory.h
index 2117e1f..adc71a6 100644
--- a/LitlTransforms/LitlTransforms/DftMemory.h
+++ b/LitlTransforms/LitlTransforms/DftMemory.h
@@ -8,6 +8,7 @@
 #include <complex>
 #include <fftw3.h>
 #include <memory>
+#include <mutex>
 
 namespace Litl {
 
@@ -73,7 +74,7 @@ public:
    */
   template <typename TTransform, typename TIn, typename TOut>
   static Internal::FftwPlanPtr createPlan(TIn& in, TOut& out) {
-    instantiate();
+    std::lock_guard<std::mutex> lock(instantiate().m_mutex);
     return TTransform::allocateFftwPlan(in, out);
   }
 
@@ -82,9 +83,16 @@ public:
    */
   static void destroyPlan(Internal::FftwPlanPtr& plan) {
     if (plan) {
+      std::lock_guard<std::mutex> lock(instantiate().m_mutex);
       fftw_destroy_plan(*plan);
     }
   }
+
+private:
+  /**
+   * @brief The mutex of the FFTW planner, which is not thread-safe.
+   */
+  std::mutex m_mutex;
 };
 
 } // namespace Litl
-- 
2.43.0


From e50b00a987820f69fde6ef94e434dbb7c20eb880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:19 +0000
Subject: [PATCH 58/72] fix: Limits::halfMin() and halfMax() of complex types
 did not compile

---
 LitlTypes/LitlTypes/TypeUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index e82796e..195f115 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -246,14 +246,14 @@ struct Limits {
    * @brief The min over two.
    */
   static T halfMin() {
-    return min() / 2;
+    return TypeTraits<T>::fromScalar(std::numeric_limits<Scalar>::lowest() / 2);
   }
 
   /**
    * @brief The max over two in general, rounded up for integers, or `true` for Booleans.
    */
   static T halfMax() {
-    return max() / 2 + std::is_integral<T>::value;
+    return TypeTraits<T>::fromScalar(std::numeric_limits<Scalar>::max() / 2 + std::is_integral<Scalar>::value);
   }
 };
 
-- 
2.43.0


From 2ac757d0ccdd74d7c67385b36036066926844585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:19 +0000
Subject: [PATCH 59/72] fix: Limits::epsilon() of integers was 0, so that
 almostMin() and almostMax() were min() and max()

---
 LitlTypes/LitlTypes/TypeUtils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index 195f115..96ad824 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -225,7 +225,8 @@ struct Limits {
    * @brief The difference between two consecutive values.
    */
   static T epsilon() {
-    return TypeTraits<T>::fromScalar(std::numeric_limits<Scalar>::epsilon());
+    constexpr auto isInteger = std::numeric_limits<Scalar>::is_integer;
+    return TypeTraits<T>::fromScalar(isInteger ? Scalar(1) : std::numeric_limits<Scalar>::epsilon());
   }
 
   /**
-- 
2.43.0


From e1815e6f9d1e1ffa58a73ba31ce45e81321fff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:19 +0000
Subject: [PATCH 60/72] fix: NullPtrError::mayThrow() could not be called
 without an exception object

---
 LitlTypes/LitlTypes/Exceptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 0a12817..538e4bf 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -78,7 +78,7 @@ public:
   /**
    * @brief Throw if a given pointer is null.
    */
-  void mayThrow(const void* ptr, const std::string& message) {
+  static void mayThrow(const void* ptr, const std::string& message) {
     if (not ptr) {
       throw NullPtrError(message);
     }
-- 
2.43.0


From 29b6bf57eb609788c0f24db7af89b5b43f299820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:19 +0000
Subject: [PATCH 61/72] fix: OutOfBoundsError message glued the name and the
 value together

---
 LitlTypes/LitlTypes/Exceptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 538e4bf..167e825 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -102,7 +102,7 @@ public:
   OutOfBoundsError(const std::string& name, T value, std::pair<T, T> bounds) :
       Exception(
           "Out of bounds error",
-          name + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
+          name + ": " + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
               std::to_string(bounds.second) + "]") {}
 
   /**
-- 
2.43.0


From 0a6aaaff5222411d79935547da565d14e121be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:30 +0000
Subject: [PATCH 62/72] fix: cbegin() and cend() could not be called on
 constant containers

---
 LitlContainer/LitlContainer/ContiguousContainer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/ContiguousContainer.h b/LitlContainer/LitlContainer/ContiguousContainer.h
index a5b10d2..c11c857 100644
--- a/LitlContainer/LitlContainer/ContiguousContainer.h
+++ b/LitlContainer/LitlContainer/ContiguousContainer.h
@@ -165,7 +165,7 @@ struct ContiguousContainerMixin {
   /**
    * @copybrief begin()const
    */
-  const_iterator cbegin() {
+  const_iterator cbegin() const {
     return const_cast<const ContiguousContainerMixin&>(*this).begin();
   }
 
@@ -186,7 +186,7 @@ struct ContiguousContainerMixin {
   /**
    * @copybrief end()const
    */
-  const_iterator cend() {
+  const_iterator cend() const {
     return const_cast<const ContiguousContainerMixin&>(*this).end();
   }
 
-- 
2.43.0


From f53e67f7a464ecd42baf76552c69d0415a976d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:30 +0000
Subject: [PATCH 63/72] fix: the window and the line kernels of a
 SeparableKernel could not be queried

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 58ad93a..0dc6b4b 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -101,24 +101,25 @@ public:
    * @brief The logical window of the kernel.
    */
   Box<Dimension> window() const {
-    Box<Dimension> box(Position<Dimension>::zero(), Position<Dimension>::zero());
+    auto front = Position<Dimension>::zero();
+    auto back = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
       auto i = k.first;
       const auto& w = k.second.window();
-      if (w.front() < box[i]) {
-        box[i] = w.front();
+      if (w.front() < front[i]) {
+        front[i] = w.front();
       }
-      if (w.back() > box[i]) {
-        box[i] = w.back();
+      if (w.back() > back[i]) {
+        back[i] = w.back();
       }
     }
-    return box;
+    return {std::move(front), std::move(back)};
   }
 
   /**
    * @brief Get the `LineKernel` along given axis.
    */
-  const T& operator[](Index axis) const {
+  const LineKernel<T>& operator[](Index axis) const {
     return m_kernels.at(axis);
   }
 
-- 
2.43.0


From a52922543e92389d8d40f4e2573314320e5a009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:30 +0000
Subject: [PATCH 64/72] fix: kernelize() could not make a line kernel

---
 LitlTransforms/LitlTransforms/LineKernel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 9f400d1..68c8cd9 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -129,7 +129,7 @@ class Sequence;
  */
 template <typename T>
 LineKernel<T> kernelize(const T* values, Segment window) {
-  return LineKernel<T>(std::vector<T>(values, values + window.size()), std::move(window));
+  return LineKernel<T>(std::vector<T>(values, values + window.size()), -window.front());
 }
 
 /**
@@ -138,7 +138,7 @@ LineKernel<T> kernelize(const T* values, Segment window) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
-  return kernelize(values.data(), origin);
+  return LineKernel<T>(std::vector<T>(values.begin(), values.end()), origin);
 }
 
 /**
@@ -149,7 +149,7 @@ LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values) {
-  return kernelize(values.data(), values.size() / 2);
+  return kernelize(values, values.size() / 2);
 }
 
 } // namespace Litl
-- 
2.43.0


From 6693450e0015ba1b4f0a4fa15d16f0ab1871aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:03 +0000
Subject: [PATCH 65/72] fix: SeparableKernel could not be made from a variable
 or temporary LineKernel, nor directly copied

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 0dc6b4b..dae9fd5 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -41,7 +41,9 @@ public:
   /**
    * @brief Map-based constructor.
    */
-  template <typename... Ts>
+  template <
+      typename... Ts,
+      typename std::enable_if_t<std::is_constructible<std::map<Index, LineKernel<T>>, Ts&&...>::value>* = nullptr>
   explicit SeparableKernel(Ts&&... args) : m_kernels(std::forward<Ts>(args)...) {}
 
   /**
-- 
2.43.0


From 52bdeff5765b73fa14d38b5afd3b55ffc130a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:53 +0000
Subject: [PATCH 66/72] fix: correlate with kernels whose window does not
 contain the origin

---
 LitlTransforms/LitlTransforms/Kernel.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 131f768..781e8c9 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -77,14 +77,21 @@ public:
    */
   template <typename TRaster, typename TMethod, typename TOut>
   void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
-    const auto inner = in.domain() - m_window;
+    auto front = m_window.front();
+    auto back = m_window.back();
+    for (std::size_t i = 0; i < front.size(); ++i) { // The window may not contain the origin
+      front[i] = std::min(front[i], Index(0));
+      back[i] = std::max(back[i], Index(0));
+    }
+    const Box<N> margin(std::move(front), std::move(back));
+    const auto inner = in.domain() - margin;
     for (std::size_t i = 0; i < inner.dimension(); ++i) {
       if (inner.length(i) <= 0) { // The kernel does not fit in the image
         correlateWithExtrapolation(in, in.domain(), out);
         return;
       }
     }
-    const auto outers = inner.surround(m_window);
+    const auto outers = inner.surround(margin);
     correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
     for (const auto& o : outers) {
       correlateWithExtrapolation(in, o, out);
-- 
2.43.0


From d50ee98c6940a2fca08746c0def3c5a45a5277e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:53 +0000
Subject: [PATCH 67/72] fix: correlate with 1D kernels whose origin is not one
 of their values

---
 LitlTransforms/LitlTransforms/Convolution.h | 12 ++++++++----
 LitlTransforms/LitlTransforms/LineKernel.h  |  7 +++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 77a63b7..d211b0b 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -85,7 +85,9 @@ public:
     // Backward-croped
     const auto size = static_cast<Index>(in.size());
     for (; i < m_backward && i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, m_bias);
+      const auto first = originData() - i;
+      const auto last = originData() + std::min(m_forward + 1, size - i);
+      *outIt = std::inner_product(first, std::max(first, last), inMinIt, m_bias); // The origin may not be in the kernel
     }
 
     // Central
@@ -95,7 +97,8 @@ public:
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+      const auto last = originData() + (size - i);
+      *outIt = std::inner_product(this->begin(), std::max(this->begin(), last), inIt, m_bias);
     }
   }
 
@@ -117,9 +120,10 @@ public:
 
     // Set sampling
     const auto xFrom = sampling.template along<0>().front;
-    const auto yFrom = std::max(0L, sampling.template along<1>().front - m_backward);
+    const auto yFrom = std::max(0L, sampling.template along<1>().front - std::max(m_backward, Index(0)));
     const auto xTo = sampling.template along<0>().back;
-    const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_forward);
+    const auto yTo =
+        std::min(in.template length<1>() - 1, sampling.template along<1>().back + std::max(m_forward, Index(0)));
     const auto xStep = sampling.template along<0>().step;
     const auto yStep = sampling.template along<1>().step;
 
diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 68c8cd9..0663e45 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -99,7 +99,9 @@ public:
 
     // Backward-croped
     for (; i < m_origin && i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, originData() + std::min(forward + 1, size - i), inMinIt, m_bias);
+      const auto first = originData() - i;
+      const auto last = originData() + std::min(forward + 1, size - i);
+      *outIt = std::inner_product(first, std::max(first, last), inMinIt, m_bias); // The origin may not be in the kernel
     }
 
     // Central
@@ -109,7 +111,8 @@ public:
 
     // Forward-croped
     for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+      const auto last = originData() + (size - i);
+      *outIt = std::inner_product(this->begin(), std::max(this->begin(), last), inIt, m_bias);
     }
   }
 
-- 
2.43.0


From f273da7b22f1aca06cf2e38b009c195d2279bc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:31 +0000
Subject: [PATCH 68/72] fix: vector of constant data samples

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 3221b07..848670c 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -374,8 +374,8 @@ public:
   /**
    * @brief Generate a vector of the samples.
    */
-  std::vector<T> vector() const {
-    return std::vector<T>(begin(), end());
+  std::vector<std::remove_const_t<T>> vector() const {
+    return std::vector<std::remove_const_t<T>>(begin(), end());
   }
 
 private:
-- 
2.43.0


From e330c546bc488ab6addcfa9b1345c1be758424ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:32 +0000
Subject: [PATCH 69/72] fix: iteration over balls with far centers

---
 LitlRaster/LitlRaster/BallIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index fec7576..b474bde 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -71,7 +71,7 @@ private:
         m_center.begin(),
         0.,
         std::plus<double> {},
-        [](double a, double b) {
+        [](Index a, Index b) { // Exact, unlike differences of doubles
           return std::pow(std::abs(b - a), P);
         });
   }
-- 
2.43.0


From 0c89863e1da2066a3eb4e1fba4464b21a9511281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:32 +0000
Subject: [PATCH 70/72] fix: NaNs are out of bounds

---
 LitlTypes/LitlTypes/Exceptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 167e825..10463e5 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -110,7 +110,7 @@ public:
    */
   template <typename T>
   static void mayThrow(const std::string& name, T value, std::pair<T, T> bounds) {
-    if (value < bounds.first || value > bounds.second) {
+    if (not(value >= bounds.first && value <= bounds.second)) { // NaNs are out of bounds
       throw OutOfBoundsError(name, value, bounds);
     }
   }
-- 
2.43.0


From bb4cbb5aa6eaee8e3a5fd09e05bac6f114066625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:12 +0000
Subject: [PATCH 71/72] fix: shape of balls of run-time dimension

---
 LitlRaster/LitlRaster/Ball.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 296274c..a02bde8 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -85,7 +85,7 @@ public:
    * @brief Compute the bounding box shape.
    */
   Position<N> shape() const {
-    return Position<N>(N).fill(length<0>());
+    return Position<N>(dimension()).fill(length<0>());
   }
 
   /**
-- 
2.43.0


From 57ea265191f846233049a8a7395c4a5a7741e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:26 +0000
Subject: [PATCH 72/72] fix: reset of iterators over empty boxes

---
 LitlRaster/LitlRaster/BoxIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index 74358ae..c70b017 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -87,7 +87,7 @@ public:
    * @brief Reset the current and followers positions to the initial positions.
    */
   void reset() {
-    m_current = m_region.front();
+    m_current = beginPosition(m_region);
   }
 
 private:
-- 
2.43.0

