From c4acb4771c69b2ce01200bb67a19c8976df5c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 01/67] fix: domain of rasters of variable dimension

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 7323eb0..8c8f668 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -81,7 +81,9 @@ const Position<N>& Raster<T, N, THolder>::shape() const {
 
 template <typename T, Index N, typename THolder>
 Box<N> Raster<T, N, THolder>::domain() const {
-  return Box<N>::fromShape(Position<N>::zero(), m_shape);
+  auto front = m_shape; // Position<N>::zero() has only one coordinate in variable dimension
+  front.fill(0);
+  return Box<N>::fromShape(std::move(front), m_shape);
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From 4f5e30a2c9c1b9322be337d74a42679f859bf156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 02/67] fix: iteration over empty boxes ends immediately

---
 LitlRaster/LitlRaster/BoxIterator.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index de8d662..07fcc6a 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -19,9 +19,14 @@ public:
   explicit Iterator(const Box<N>& region, Position<N> current) : m_region(region), m_current(current) {}
 
   /**
-   * @brief The beginning position.
+   * @brief The beginning position, i.e. the end position if the box is empty.
    */
   static Position<N> beginPosition(const Box<N>& box) {
+    for (Index i = 0; i < box.dimension(); ++i) {
+      if (box.length(i) <= 0) { // Empty
+        return endPosition(box);
+      }
+    }
     return box.front();
   }
 
@@ -80,7 +85,7 @@ public:
    * @brief Reset the current and followers positions to the initial positions.
    */
   void reset() {
-    m_current = m_region.front();
+    m_current = beginPosition(m_region);
   }
 
 private:
-- 
2.43.0


From d0aa15de83fd52ad414b9ae590b0eef9c1f7435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 03/67] fix: post-increment and copy of position and subraster
 iterators

---
 LitlRaster/LitlRaster/BallIterator.h      | 6 ++++--
 LitlRaster/LitlRaster/BoxIterator.h       | 8 +++++---
 LitlRaster/LitlRaster/SubrasterIterator.h | 6 ++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index fe96843..533acd1 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -42,8 +42,10 @@ public:
     return next();
   }
 
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   bool operator==(const Iterator& rhs) const {
diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index 07fcc6a..fdf26ad 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -63,8 +63,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
@@ -115,7 +117,7 @@ private:
   /**
    * @brief The screened region.
    */
-  const Box<N>& m_region;
+  Box<N> m_region;
 
   /**
    * @brief The current position.
diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 3065c4a..121275c 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -48,8 +48,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  Value* operator++(int) {
-    return next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
-- 
2.43.0


From 1a4b434b13c95ef2b007fd5184ab8ba45cf6f6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:40 +0000
Subject: [PATCH 04/67] fix: clamping a position inside a box

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 7b919f0..ee060e2 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -297,9 +297,9 @@ Box<N> project(const Box<N>& in, Index axis = 0) {
  */
 template <typename T, Index N = 2>
 Vector<T, N> clamp(const Vector<T, N>& position, const Box<N>& box) {
-  Vector<T, N> out(box.size());
+  Vector<T, N> out(box.dimension());
   for (std::size_t i = 0; i < out.size(); ++i) {
-    out[i] = clamp(position[i], box.front[i], box.back[i]); // TODO transform
+    out[i] = clamp(position[i], box.front()[i], box.back()[i]); // TODO transform
   }
   return out;
 }
-- 
2.43.0


From fa151bdd1e3675eb0dc5c37049017f434a0d74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 05/67] fix: shifting a box by its own front or back

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index ee060e2..5b5d30e 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -206,7 +206,7 @@ public:
   /**
    * @brief Shift the box by a given vector.
    */
-  Box<N>& operator+=(const Position<N>& shift) {
+  Box<N>& operator+=(Position<N> shift) { // By value: shift may be m_front or m_back
     m_front += shift;
     m_back += shift;
     return *this;
@@ -215,7 +215,7 @@ public:
   /**
    * @brief Shift the box by a given vector.
    */
-  Box<N>& operator-=(const Position<N>& shift) {
+  Box<N>& operator-=(Position<N> shift) { // By value: shift may be m_front or m_back
     m_front -= shift;
     m_back -= shift;
     return *this;
-- 
2.43.0


From 4057162f2f61d9ba053a95fff87578cadca18ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 06/67] fix: size of a ball is its number of positions

---
 LitlRaster/LitlRaster/Ball.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 02493f3..d96d8c8 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -99,7 +99,7 @@ public:
    * @brief Compute the ball size, i.e. number of positions.
    */
   Index size() const {
-    return box().size(); // FIXME
+    return std::distance(begin(*this), end(*this));
   }
 
   /**
-- 
2.43.0


From 2cd617973ea451bfed5d93167af064dea124f1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 07/67] fix: sections of rasters of variable dimension

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 36 ++++++++++++++-------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 8c8f668..9611ccc 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -175,44 +175,46 @@ PtrRaster<T, M> Raster<T, N, THolder>::slice(const Box<N>& region) {
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N> Raster<T, N, THolder>::section(Index front, Index back) const {
+  // Not a slice, which cannot be of variable dimension
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto reduced = shape();
+  reduced[last] = back - front + 1;
+  return PtrRaster<const T, N> {reduced, &operator[](f)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N> Raster<T, N, THolder>::section(Index front, Index back) {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto reduced = shape();
+  reduced[last] = back - front + 1;
+  return PtrRaster<T, N> {reduced, &operator[](f)};
 }
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) const {
+  constexpr Index M = N == -1 ? -1 : N - 1;
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
+  Position<M> reduced(last);
+  std::copy_n(shape().begin(), last, reduced.begin());
+  return PtrRaster<const T, M> {reduced, &operator[](f)};
   // FIXME duplication => return section(index, index).slice<N-1>(Box<N>::whole());
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) {
-  auto region = domain();
+  constexpr Index M = N == -1 ? -1 : N - 1;
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
+  auto f = domain().front();
   f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
+  Position<M> reduced(last);
+  std::copy_n(shape().begin(), last, reduced.begin());
+  return PtrRaster<T, M> {reduced, &operator[](f)};
   // FIXME duplication
 }
 
-- 
2.43.0


From 975dd497d9b0b58287f71fa0fcc3cedb4065811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:59 +0000
Subject: [PATCH 08/67] fix: iteration over mutable subrasters

---
 LitlRaster/LitlRaster/SubrasterIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 121275c..b96790f 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -21,7 +21,7 @@ public:
    * @brief Constructor.
    */
   Iterator(const Subraster<TRaster, Value>& subraster, const Position<Dimension>& position) :
-      m_raster(subraster.raster()), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
+      m_raster(const_cast<Parent&>(subraster.raster())), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
   /**
-- 
2.43.0


From 895d7349d020e93a14fff68c1b82d0d13ec664a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:25 +0000
Subject: [PATCH 09/67] fix: ownership of moved and assigned aligned buffers

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 365b410..20e6c70 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -137,7 +137,7 @@ public:
   /**
    * @brief Move constructor.
    */
-  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(), m_data(other.m_data) {
+  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(other.m_container), m_data(other.m_data) {
     other.release();
     other.reset();
   }
@@ -147,6 +147,7 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       if (other.owns()) {
@@ -166,6 +167,7 @@ public:
    */
   AlignedBuffer& operator=(AlignedBuffer&& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       m_container = other.m_container;
-- 
2.43.0


From 0ef8a4bd8a078253069f4a2340085de09601e691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:26 +0000
Subject: [PATCH 10/67] fix: rasters of variable dimension from lists and
 iterables

---
 LitlRaster/LitlRaster/Raster.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index afa80e7..26e5fa6 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -205,7 +205,7 @@ public:
   template <typename U, typename... TArgs>
   explicit Raster(Position<N> shape, std::initializer_list<U> list, TArgs&&... args) :
       Container(list, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(list.size(), shapeSize(shape));
+    SizeError::mayThrow(list.size(), shapeSize(m_shape)); // shape was moved
   }
 
   /**
@@ -223,7 +223,7 @@ public:
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
   explicit Raster(Position<N> shape, TIterable& iterable, TArgs&&... args) :
       Container(iterable, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(shape));
+    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape)); // shape was moved
   }
 
   /// @group_properties
-- 
2.43.0


From d3128a98ae7d1f019abacc6332358dc1c4220a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 11/67] fix: scalar operand which is an element of the
 container

---
 LitlContainer/LitlContainer/Arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 3e86bba..4d79e85 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -31,7 +31,7 @@ namespace Litl {
         static_cast<TDerived*>(this)->begin(), \
         static_cast<TDerived*>(this)->end(), \
         static_cast<TDerived*>(this)->begin(), \
-        [&](auto e) { \
+        [rhs](auto e) { /* By value: rhs may be an element of this */ \
           return e op rhs; \
         }); \
     return static_cast<TDerived&>(*this); \
-- 
2.43.0


From efab912df645a42759ff66cd20336323b4241162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 12/67] fix: unary plus

---
 LitlContainer/LitlContainer/Arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 4d79e85..5c45ac4 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -142,7 +142,7 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
@@ -228,7 +228,7 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
-- 
2.43.0


From 20f449c2fec352a35a9a27ae2fdac10184fbf3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 13/67] fix: scalar minus container

---
 LitlContainer/LitlContainer/Arithmetic.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 5c45ac4..adafafb 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -86,7 +86,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived, T>,
     boost::modable<TDerived>,
@@ -156,6 +155,17 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     return res;
   }
 
+  /**
+   * @brief a - V
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /// @}
 };
 
@@ -169,7 +179,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived>,
     boost::multiplicative<TDerived, T>,
@@ -242,6 +251,17 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     return res;
   }
 
+  /**
+   * @brief a - V
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [&](auto r) {
+      return lhs - r;
+    });
+    return res;
+  }
+
   /// @}
 };
 
-- 
2.43.0


From cb70c922f1c35a1761ede5cb7ac07adfac5bca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 14/67] fix: pixelwise min and max of containers

---
 LitlContainer/LitlContainer/DataContainer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 82cf2c6..183704e 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -215,6 +215,9 @@ public:
 
   /// @group_operations
 
+  using MathFunctionsMixin<T, TDerived>::min; // Not hidden by min() below
+  using MathFunctionsMixin<T, TDerived>::max; // Not hidden by max() below
+
   /**
    * @brief Get a reference to the (first) min element.
    * @see `distribution()`
-- 
2.43.0


From 04e8d166ab598bc561aecb168794e024aa49c13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 15/67] fix: range() step which is an element of the container

---
 LitlContainer/LitlContainer/DataContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 183704e..b222c99 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -141,10 +141,11 @@ public:
    */
   TDerived& range(const T& min = Limits<T>::zero(), const T& step = Limits<T>::one()) {
     auto v = min;
+    const T increment = step; // Copy because step may be an element of the container
     auto& t = static_cast<TDerived&>(*this);
     for (auto& e : t) {
       e = v;
-      v += step;
+      v += increment;
     }
     return t;
   }
-- 
2.43.0


From 5194645c4c543d5b84083784e5844f63dfd66aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 16/67] fix: linear spaces of small size, integers, complexes
 or aliased bounds

---
 LitlContainer/LitlContainer/DataContainer.h | 24 +++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index b222c99..6c1c3ce 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -161,13 +161,25 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
-    const auto step = (max - min) / (this->size() - 1);
-    auto it = this->begin();
-    for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
-      *it = min + step * i;
+    using Floating = typename TypeTraits<T>::Floating; // Integer steps would be rounded, or wrap if negative
+    using Scalar = typename TypeTraits<Floating>::Scalar;
+    auto& t = static_cast<TDerived&>(*this);
+    const std::size_t size = t.size();
+    if (size == 0) {
+      return t;
     }
-    *it = max;
-    return static_cast<TDerived&>(*this);
+    const T first = min; // Copies because min and max may be elements of the container
+    const T last = max;
+    if (size > 1) {
+      const Floating offset(first);
+      const Floating step = (Floating(last) - offset) / Scalar(size - 1);
+      t[0] = first;
+      for (std::size_t i = 1; i < size - 1; ++i) {
+        t[i] = static_cast<T>(offset + step * Scalar(i));
+      }
+    }
+    t[size - 1] = last;
+    return t;
   }
 
   /**
-- 
2.43.0


From eecacbb527d029c47aa16cf28589f608adcb4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 17/67] fix: minmax() refers to the first max element

---
 LitlContainer/LitlContainer/DataContainer.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 6c1c3ce..0b8b7ba 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -252,8 +252,7 @@ public:
    * @see `distribution()`
    */
   std::pair<const T&, const T&> minmax() const {
-    const auto its = std::minmax_element(this->begin(), this->end());
-    return {*its.first, *its.second};
+    return {min(), max()}; // std::minmax_element would return the last max element
   }
 
   /**
-- 
2.43.0


From 993a9f2efc29e87e7aa9d3f3e6bd3cfeae898465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:00 +0000
Subject: [PATCH 18/67] fix: mean and variance of distributions

---
 .../LitlContainer/DataDistribution.h          | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 24b9ee5..d8e2532 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -46,10 +46,15 @@ public:
    */
   explicit DataDistribution(std::vector<T>&& values) :
       m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()),
-      m_sum2(m_sum) {
+      m_mean(0), m_dev2(0) {
     for (const auto& v : m_values) {
       m_sum += v;
-      m_sum2 += v * v;
+      m_mean += v;
+    }
+    m_mean /= size();
+    for (const auto& v : m_values) {
+      const Floating dev = v - m_mean;
+      m_dev2 += dev * dev;
     }
   }
 
@@ -107,7 +112,7 @@ public:
    * @brief Compute the mean.
    */
   Floating mean() {
-    return sum() / size();
+    return m_mean;
   }
 
   /**
@@ -121,7 +126,7 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return Floating(m_sum2 - m_sum * m_sum() / size()) / (size() - unbiased);
+    return m_dev2 / (size() - unbiased);
   }
 
   /**
@@ -211,9 +216,14 @@ private:
   T m_sum;
 
   /**
-   * @brief The cached sum of squares.
+   * @brief The cached mean.
+   */
+  Floating m_mean;
+
+  /**
+   * @brief The cached sum of squared deviations from the mean.
    */
-  T m_sum2;
+  Floating m_dev2;
 };
 
 } // namespace Litl
-- 
2.43.0


From ff2a2df5331ecefaa11ed2d131e0df646f37394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 19/67] fix: quantile interpolation

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index d8e2532..1dacef7 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -156,7 +156,9 @@ public:
       return nth(f);
     }
     const auto d = n - f;
-    return nth(f) * d + nth(f + 1) * (1. - d); // FIXME linear(&nth(f), d);
+    const T lower = nth(f); // Copies, because nth() reorders the values
+    const T upper = nth(f + 1);
+    return lower * (1. - d) + upper * d; // FIXME linear(&nth(f), d);
   }
 
   /**
-- 
2.43.0


From 7910538642216b500ce5dabe96176650048b9384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:03 +0000
Subject: [PATCH 20/67] fix: median absolute deviation of integers

---
 LitlContainer/LitlContainer/DataDistribution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 1dacef7..811a236 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -133,12 +133,12 @@ public:
    * @brief Compute the median absolute deviation.
    */
   Floating mad() {
-    std::vector<T> absdev(size());
+    std::vector<Floating> absdev(size()); // The median may be fractional even if T is integral
     const auto m = median();
     std::transform(m_values.begin(), m_values.end(), absdev.begin(), [=](auto e) {
       return std::abs(e - m);
     });
-    return DataDistribution<T>(std::move(absdev)).median();
+    return DataDistribution<Floating>(std::move(absdev)).median();
   }
 
   /**
-- 
2.43.0


From 5d7a2065aebbb153289f69a90e2908d656b5e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 21/67] fix: values equal to the last edge of a histogram

---
 LitlContainer/LitlContainer/DataDistribution.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 811a236..7ea3942 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -183,8 +183,10 @@ public:
       }
       ++countIt;
     }
-    if (it != m_values.end() && *it == bins.back()) {
-      ++(*countIt);
+    if (not out.empty()) {
+      for (; it != m_values.end() && *it == bins.back(); ++it) {
+        ++out.back(); // The last bin contains its upper bound
+      }
     }
     return out;
   }
-- 
2.43.0


From bd963fefc7f10fde9eae2e2e9bda6f56a503a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 22/67] fix: half limits of complex types

---
 LitlTypes/LitlTypes/TypeUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index aa1d0db..2ed20aa 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -246,14 +246,14 @@ struct Limits {
    * @brief The min over two.
    */
   static T halfMin() {
-    return min() / 2;
+    return TypeTraits<T>::fromScalar(std::numeric_limits<Scalar>::lowest() / 2);
   }
 
   /**
    * @brief The max over two in general, rounded up for integers, or `true` for Booleans.
    */
   static T halfMax() {
-    return max() / 2 + std::is_integral<T>::value;
+    return TypeTraits<T>::fromScalar(std::numeric_limits<Scalar>::max() / 2 + std::is_integral<Scalar>::value);
   }
 };
 
-- 
2.43.0


From 0ff3ecc289906bb2671f67401a1c5ef5174cbfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:28 +0000
Subject: [PATCH 23/67] fix: floor of negative integers

---
 LitlTypes/LitlTypes/TypeUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index 2ed20aa..754bbc2 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -165,7 +165,7 @@ inline T clamp(T in, U min, U max) {
 template <typename TInt, typename TFloat>
 TInt floor(TFloat in) {
   TInt out = in;
-  return out - (in < 0);
+  return out - (in < out); // Conversion truncates towards 0
 }
 
 /**
-- 
2.43.0


From c9ced02e5bf85f5d55df2a07cf9cd6afc10d38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 24/67] fix: weights of linear interpolation

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 9f2c8ba..7ae44f3 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -101,7 +101,7 @@ struct Linear {
     const auto d = position.front() - f;
     const T p = raster[{f, indices...}];
     const T n = raster[{f + 1, indices...}];
-    return d * (p - n) + n;
+    return p + d * (n - p);
   }
 
   template <typename T, Index N, typename TRaster, typename... TIndices>
@@ -112,7 +112,7 @@ struct Linear {
     const auto pos = position.template slice<N - 1>();
     const auto p = at<T>(raster, pos, f, indices...);
     const auto n = at<T>(raster, pos, f + 1, indices...);
-    return d * (p - n) + n;
+    return p + d * (n - p);
   }
 };
 
-- 
2.43.0


From 1ad34e2ec71a83e263735ba7cc42b61b4b16e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 25/67] fix: nearest-neighbour interpolation at negative
 positions

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 7ae44f3..0b1f628 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,7 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return e + .5;
+      return floor<Index>(e + .5);
     });
     return raster[integral];
   }
-- 
2.43.0


From f5ca41ea5d37db87b95bbb45e32d07f6dab3f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:39 +0000
Subject: [PATCH 26/67] fix: correlation inside the image

---
 LitlTransforms/LitlTransforms/Kernel.h | 27 ++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 5741e81..8e3a329 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -97,29 +97,32 @@ private:
     }
 
     // Compute constants
-    auto boxWidth = box.template length<0>();
+    const auto boxWidth = box.template length<0>();
     box.project(); // Keep front hyperplane only
-    const auto inWidth = in.template length<0>();
     const auto kWidth = m_window.template length<0>();
-    const auto kRowCount = m_window.size() / kWidth;
 
-    // Prepare iterators
-    auto inIt = in.data();
-    auto outIt = &out[box.front()];
-    auto kIt = m_values.data();
-    const auto distance = outIt - inIt;
+    // Compute the offsets of the kernel rows in the input raster
+    auto kRows = m_window;
+    kRows.project();
+    std::vector<Index> offsets;
+    for (const auto& p : kRows) {
+      offsets.push_back(in.index(p));
+    }
 
     // Loop over the hyperplane
     for (const auto& p : box) {
 
       // Loop over the rows which begin in the hyperplane
-      outIt = &out[p];
-      for (Index i = boxWidth; i > 0; --i, ++outIt, inIt = outIt - distance, kIt = m_values.data()) {
+      auto inIt = in.data() + in.index(p);
+      auto outIt = &out[p];
+      for (Index i = boxWidth; i > 0; --i, ++inIt, ++outIt) {
 
         // Compute the weighted sum row by row
         T sum {};
-        for (Index j = kRowCount; j > 0; --j, inIt += inWidth, kIt += kWidth) {
-          sum = std::inner_product(kIt, kIt + kWidth, inIt, sum);
+        auto kIt = m_values.data();
+        for (const auto& o : offsets) {
+          sum = std::inner_product(kIt, kIt + kWidth, inIt + o, sum);
+          kIt += kWidth;
         }
         *outIt = sum;
       }
-- 
2.43.0


From 2a940e4fa26022f8409cde97373d6e4f7ed9fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:22 +0000
Subject: [PATCH 27/67] fix: correlation of images smaller than the kernel

---
 LitlTransforms/LitlTransforms/Kernel.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 8e3a329..49ff5eb 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -78,6 +78,12 @@ public:
   template <typename TRaster, typename TMethod, typename TOut>
   void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
     const auto inner = in.domain() - m_window;
+    for (std::size_t i = 0; i < inner.front().size(); ++i) {
+      if (inner.back()[i] < inner.front()[i]) { // The image is smaller than the kernel
+        correlateWithExtrapolation(in, in.domain(), out);
+        return;
+      }
+    }
     const auto outers = inner.surround(m_window);
     correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
     for (const auto& o : outers) {
-- 
2.43.0


From 3f0bd932f8804412e8edbeeaa6c64c0f66c7b1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 28/67] fix: post-increment of samplings and sampling iterators

---
 LitlRaster/LitlRaster/Sampling.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4d9094b..ecdb812 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -41,7 +41,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(T n) {
@@ -201,7 +202,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(Index n) {
@@ -316,7 +318,7 @@ public:
    */
   DataSamples operator++(int) {
     auto res = *this;
-    ++res;
+    ++*this;
     return res;
   }
 
-- 
2.43.0


From dc5633107e8d4af921ceee98f90225519747c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 29/67] fix: move samples by indices instead of values

---
 LitlRaster/LitlRaster/Sampling.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index ecdb812..92aa438 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -45,13 +45,13 @@ public:
       return res;
     }
 
-    Iterator& operator+=(T n) {
+    Iterator& operator+=(Index n) {
       m_current += m_sampling.step * n;
       m_index += n;
       return *this;
     }
 
-    Iterator& operator-=(T n) {
+    Iterator& operator-=(Index n) {
       return *this += -n;
     }
 
@@ -325,7 +325,7 @@ public:
   /**
    * @brief Move the data pointer forward.
    */
-  DataSamples& operator+=(T n) {
+  DataSamples& operator+=(Index n) {
     m_data += n;
     return *this;
   }
@@ -333,7 +333,7 @@ public:
   /**
    * @brief Move the data pointer backward.
    */
-  DataSamples& operator-=(T n) {
+  DataSamples& operator-=(Index n) {
     *this += -n;
     return *this;
   }
-- 
2.43.0


From 6306719ea81d1bab023c7a72d6091c38b79a7911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 30/67] fix: end of DataSamples after the last sample

---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 92aa438..c965b79 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -349,7 +349,7 @@ public:
    * @brief Get an iterator to the end of the sampler.
    */
   Iterator<const DataSamples<T>, const T> end() const {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
@@ -363,7 +363,7 @@ public:
    * @copybrief end()
    */
   Iterator<DataSamples<T>, T> end() {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
-- 
2.43.0


From a6c407db1bffb472b0aee5cf8b9cf5415a09d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:00 +0000
Subject: [PATCH 31/67] fix: PositionSampling along a run-time axis and of
 variable dimension

---
 LitlRaster/LitlRaster/Sampling.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index c965b79..04439a8 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -124,10 +124,15 @@ using IndexSampling = AxisSampling<Index>;
 template <Index N>
 class PositionSampling {
 public:
+  /**
+   * @brief Constructor with unit step.
+   */
+  PositionSampling(const Box<N>& box) : PositionSampling(box, Position<N>(box.dimension()).fill(1)) {}
+
   /**
    * @brief Constructor.
    */
-  PositionSampling(const Box<N>& box, const Position<N>& step = Position<N>::one()) : m_samplings(step.size()) {
+  PositionSampling(const Box<N>& box, const Position<N>& step) : m_samplings(step.size()) {
     for (std::size_t i = 0; i < m_samplings.size(); ++i) {
       m_samplings[i] = {box.front()[i], box.back()[i], step[i]};
     }
@@ -137,7 +142,7 @@ public:
    * @brief Get the number of samples along each axis.
    */
   Position<N> shape() const {
-    Position<N> res;
+    Position<N> res(m_samplings.size());
     std::transform(m_samplings.begin(), m_samplings.end(), res.begin(), [](const auto& s) {
       return s.size();
     });
@@ -156,7 +161,7 @@ public:
    * @copybrief along()
    */
   const IndexSampling& along(Index i) const {
-    return along<i>();
+    return m_samplings[i];
   }
 
 private:
-- 
2.43.0


From 7614a95dcbceb510236fc6a26d24eb5c44906615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 32/67] fix: back of a segment of given front and size

---
 LitlTypes/LitlTypes/Segment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Segment.h b/LitlTypes/LitlTypes/Segment.h
index 70f8e66..2cf432e 100644
--- a/LitlTypes/LitlTypes/Segment.h
+++ b/LitlTypes/LitlTypes/Segment.h
@@ -15,7 +15,7 @@ public:
   Segment(Index front, Index back) : m_front(front), m_back(back) {}
 
   static Segment fromSize(Index front, std::size_t size) {
-    return Segment(front, size - front - 1);
+    return Segment(front, front + size - 1);
   }
 
   Index front() const {
-- 
2.43.0


From 7c3cff31f117526492d972d873f45f432f953ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 33/67] fix: line correlation of any front, back, step and size

---
 LitlTransforms/LitlTransforms/LineKernel.h | 34 +++++++---------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 3b87159..f94cd9a 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -83,31 +83,17 @@ public:
   void correlate(const DataSamples<TIn>& in, DataSamples<TOut>& out) const {
     // FIXME only valid for "kernel croping" extrapolation
 
-    // Set up iterators
-    const auto step = in.step();
-    DataSamples<const TIn>
-        unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
-    auto inIt = unitIn.begin();
-    auto inMinIt = inIt;
-    inMinIt -= in.front();
-    inIt -= m_origin;
+    const Index kernelSize = this->size();
+    const Index inSize = in.size();
+    DataSamples<const TIn> unitIn {in.data(), in.size(), {0, inSize - 1}, in.stride()}; // step = 1 for inner_product
+    const auto inBegin = unitIn.begin();
     auto outIt = out.begin();
-    auto i = in.front();
-
-    // Backward-croped
-    for (; i < m_origin; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-    }
-
-    // Central
-    const auto forward = this->size() - m_origin - 1;
-    for (; i <= in.size() - forward - step; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-    }
-
-    // Forward-croped
-    for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+    for (auto i = in.front(); i <= in.back(); i += in.step(), ++outIt) {
+      const auto first = std::max(Index(0), m_origin - i); // First kernel index inside the line
+      const auto last = std::max(first, std::min(kernelSize, m_origin - i + inSize)); // Past-the-last one
+      auto inIt = inBegin;
+      inIt += i - m_origin + first;
+      *outIt = std::inner_product(this->data() + first, this->data() + last, inIt, m_bias);
     }
   }
 
-- 
2.43.0


From 5b40baa438a7c9d62db72a08208a191695cdba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:24 +0000
Subject: [PATCH 34/67] fix: sparse 1D correlation of any front, back, step and
 size

---
 LitlTransforms/LitlTransforms/Convolution.h | 38 ++++++---------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 2f891fa..5a4ae1b 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -71,35 +71,17 @@ public:
   void sparseCorrelate1dTo(const DataSamples<TIn>& in, DataSamples<TOut>& out)
       const { // FIXME only valid for CropOutOfBounds
 
-    // Set iterators
-    const auto step = in.step();
-    DataSamples<const TIn>
-        unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
-    auto inIt = unitIn.begin();
-    auto inMinIt = inIt;
-    inMinIt -= in.front();
-    inIt -= m_backward;
+    const Index kernelSize = this->size();
+    const Index inSize = in.size();
+    DataSamples<const TIn> unitIn {in.data(), in.size(), {0, inSize - 1}, in.stride()}; // step = 1 for inner_product
+    const auto inBegin = unitIn.begin();
     auto outIt = out.begin();
-    Index i = in.front();
-
-    printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
-
-    // Backward-croped
-    for (; i < m_backward; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-      printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
-    }
-
-    // Central
-    for (; i <= in.size() - m_forward - step; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-      printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
-    }
-
-    // Forward-croped
-    for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
-      printf("End (<=%li): out[%li] = %i\n", in.back(), i, *outIt); // FIXME rm
+    for (auto i = in.front(); i <= in.back(); i += in.step(), ++outIt) {
+      const auto first = std::max(Index(0), m_backward - i); // First kernel index inside the line
+      const auto last = std::max(first, std::min(kernelSize, m_backward - i + inSize)); // Past-the-last one
+      auto inIt = inBegin;
+      inIt += i - m_backward + first;
+      *outIt = std::inner_product(this->data() + first, this->data() + last, inIt, m_bias);
     }
   }
 
-- 
2.43.0


From fa3464a9396f08d7c5fab20bc8d2299b57f22ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 35/67] fix: do not print values of any type as int while
 correlating

---
 LitlTransforms/LitlTransforms/Convolution.h | 39 ---------------------
 1 file changed, 39 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 5a4ae1b..ad90fb7 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -108,7 +108,6 @@ public:
     const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_forward);
     const auto xStep = sampling.template along<0>().step;
     const auto yStep = sampling.template along<1>().step;
-    printf("%li-%li:%li - %li-%li:%li\n", xFrom, xTo, xStep, yFrom, yTo, yStep);
 
     // Convolve along x-axis
     const Index xConvolvedWidth = (xTo - xFrom + xStep) / xStep;
@@ -118,67 +117,29 @@ public:
         &in[{0, yFrom}],
         in.template length<0>(),
         {xFrom, xTo, xStep});
-    printf("inSamples: %li-%li:%li:%li\n", inSamples.front(), inSamples.back(), inSamples.step(), inSamples.stride());
     DataSamples<typename TRasterOut::Value> xConvolvedSamples(
         xConvolved.data(),
         xConvolvedWidth,
         {0, Limits<Index>::inf()});
-    printf(
-        "xConvolvedSamples: %li-%li:%li:%li\n",
-        xConvolvedSamples.front(),
-        xConvolvedSamples.back(),
-        xConvolvedSamples.step(),
-        xConvolvedSamples.stride());
     for (Index y = yFrom; y <= yTo; ++y) {
-      printf(
-          "in: %li, xConvolved: %li\n",
-          std::distance(in.data(), inSamples.data()),
-          std::distance(xConvolved.data(), xConvolvedSamples.data()));
       sparseCorrelate1dTo(inSamples, xConvolvedSamples);
       inSamples += in.template length<0>();
       xConvolvedSamples += xConvolvedWidth;
     }
 
-    printf("xConvolved:\n%lix%li\n", xConvolvedWidth, xConvolvedHeight);
-    for (Index y = 0; y < xConvolvedHeight; ++y) {
-      for (Index x = 0; x < xConvolvedWidth; ++x) {
-        printf("%i ", xConvolved[{x, y}]);
-      }
-      printf("\n");
-    }
-
     // Convolve along y-axis
     DataSamples<typename TRasterOut::Value> ySamples(
         xConvolved.data(),
         xConvolvedHeight,
         {sampling.template along<1>().front - yFrom, sampling.template along<1>().back - yFrom, yStep},
         xConvolvedWidth);
-    printf("ySamples: %li-%li:%li:%li\n", ySamples.front(), ySamples.back(), ySamples.step(), ySamples.stride());
     DataSamples<typename TRasterOut::Value>
         outSamples(out.data(), out.template length<1>(), {0, Limits<Index>::inf()}, out.template length<0>());
-    printf(
-        "outSamples: %li-%li:%li:%li\n",
-        outSamples.front(),
-        outSamples.back(),
-        outSamples.step(),
-        outSamples.stride());
     for (Index x = xFrom; x <= xTo; x += xStep) {
-      printf(
-          "xConvolved: %li, out: %li\n",
-          std::distance(xConvolved.data(), ySamples.data()),
-          std::distance(out.data(), outSamples.data()));
       sparseCorrelate1dTo(ySamples, outSamples);
       ySamples += 1;
       outSamples += 1;
     }
-
-    printf("out:\n%lix%li\n", out.template length<0>(), out.template length<1>());
-    for (Index y = 0; y < out.template length<1>(); ++y) {
-      for (Index x = 0; x < out.template length<0>(); ++x) {
-        printf("%i ", out[{x, y}]);
-      }
-      printf("\n");
-    }
   }
 
 private:
-- 
2.43.0


From d6436dd480ce0e9e0724f55bdf12115322d9de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 36/67] fix: default origin of a line kernel read after move

---
 LitlTransforms/LitlTransforms/LineKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index f94cd9a..3832865 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -40,7 +40,7 @@ public:
   /**
    * @brief Constructor.
    */
-  explicit LineKernel(std::vector<T> values) : LineKernel(std::move(values), values.size() / 2) {}
+  explicit LineKernel(const std::vector<T>& values) : LineKernel(values, values.size() / 2) {}
 
   /**
    * @brief Get the window.
-- 
2.43.0


From 9e5a7fd3992246c956f153a69c8509e90634220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 37/67] fix: make line kernels from sequences

---
 LitlTransforms/LitlTransforms/LineKernel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 3832865..de875f7 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -113,7 +113,7 @@ class Sequence;
  */
 template <typename T>
 LineKernel<T> kernelize(const T* values, Segment window) {
-  return LineKernel<T>(std::vector<T>(values, values + window.size()), std::move(window));
+  return LineKernel<T>(std::vector<T>(values, values + window.size()), -window.front());
 }
 
 /**
@@ -122,7 +122,7 @@ LineKernel<T> kernelize(const T* values, Segment window) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
-  return kernelize(values.data(), origin);
+  return kernelize(values.data(), Segment::fromSize(-origin, values.size()));
 }
 
 /**
@@ -133,7 +133,7 @@ LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values) {
-  return kernelize(values.data(), values.size() / 2);
+  return kernelize(values, values.size() / 2);
 }
 
 } // namespace Litl
-- 
2.43.0


From 4e85c871459ac5d2fbbbb4262661152323da9f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 38/67] fix: do not read the first pixel of empty rasters

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 2c4acbf..4f1ffad 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -201,7 +201,6 @@ private:
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
     const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
-    printf("%li: %i -> %i\n", J0, tmp[0], out[0]);
   }
 
   template <typename TRasterIn, typename TRasterOut>
-- 
2.43.0


From 50253500a7a96fb610051e943c5fa18cf8c7f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 39/67] fix: window and components of separable kernels

---
 .../LitlTransforms/SeparableKernel.h           | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 4f1ffad..16a1cd4 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -101,24 +101,20 @@ public:
    * @brief The logical window of the kernel.
    */
   Box<Dimension> window() const {
-    Box<Dimension> box(Position<Dimension>::zero(), Position<Dimension>::zero());
+    auto front = Position<Dimension>::zero();
+    auto back = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
-      auto i = k.first;
-      const auto& w = k.second.window();
-      if (w.front() < box[i]) {
-        box[i] = w.front();
-      }
-      if (w.back() > box[i]) {
-        box[i] = w.back();
-      }
+      const auto w = k.second.window();
+      front[k.first] += w.front();
+      back[k.first] += w.back();
     }
-    return box;
+    return {front, back};
   }
 
   /**
    * @brief Get the `LineKernel` along given axis.
    */
-  const T& operator[](Index axis) const {
+  const LineKernel<T>& operator[](Index axis) const {
     return m_kernels.at(axis);
   }
 
-- 
2.43.0


From 9337458e20cf6b7099041e7fbab4e3fba1950e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 40/67] fix: composition of separable kernels

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 16a1cd4..ab3985c 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -9,6 +9,7 @@
 #include "LitlTransforms/Kernel.h"
 #include "LitlTransforms/LineKernel.h"
 
+#include <algorithm> // reverse
 #include <map>
 #include <vector>
 
@@ -139,12 +140,14 @@ public:
     auto shape = Position<Dimension>::one();
     auto origin = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
-      shape[k.first] = k.second.size();
-      origin[k.first] = k.second.origin();
+      shape[k.first] += k.second.size() - 1;
+      origin[k.first] += k.second.origin();
     }
     auto raster = Raster<Value, Dimension>(shape).fill(T(0));
-    raster[origin] = T(1);
-    return kernelize(*this * raster, origin);
+    raster[shape - 1 - origin] = T(1);
+    auto values = *this * raster; // The response to an impulse is mirrored
+    std::reverse(values.begin(), values.end());
+    return kernelize(values, origin);
   }
 
   /**
-- 
2.43.0


From baee46e30151a7a333c928dbd9fcc08000844ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:12 +0000
Subject: [PATCH 41/67] fix: combine separable kernels along the same axis

---
 .../LitlTransforms/SeparableKernel.h          | 34 +++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index ab3985c..6ec9dbe 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -11,6 +11,9 @@
 
 #include <algorithm> // reverse
 #include <map>
+#include <stdexcept> // out_of_range
+#include <string>
+#include <utility> // pair
 #include <vector>
 
 namespace Litl {
@@ -42,8 +45,8 @@ public:
   /**
    * @brief Map-based constructor.
    */
-  template <typename... Ts>
-  explicit SeparableKernel(Ts&&... args) : m_kernels(std::forward<Ts>(args)...) {}
+  explicit SeparableKernel(const std::map<Index, LineKernel<T>>& kernels) :
+      m_kernels {{I0, kernels.at(I0)}, {Is, kernels.at(Is)}...} {}
 
   /**
    * @brief Make a Prewitt correlation kernel along given axes.
@@ -116,7 +119,12 @@ public:
    * @brief Get the `LineKernel` along given axis.
    */
   const LineKernel<T>& operator[](Index axis) const {
-    return m_kernels.at(axis);
+    for (const auto& k : m_kernels) {
+      if (k.first == axis) {
+        return k.second;
+      }
+    }
+    throw std::out_of_range("SeparableKernel: No kernel along axis " + std::to_string(axis));
   }
 
   /**
@@ -155,9 +163,9 @@ public:
    */
   template <Index... Js>
   SeparableKernel<T, I0, Is..., Js...> operator*(const SeparableKernel<T, Js...>& rhs) const {
-    SeparableKernel<T, I0, Is..., Js...> out(m_kernels);
-    out.m_kernels.insert(rhs.begin(), rhs.end());
-    return out;
+    auto kernels = m_kernels;
+    kernels.insert(kernels.end(), rhs.begin(), rhs.end());
+    return SeparableKernel<T, I0, Is..., Js...>(std::move(kernels));
   }
 
   /**
@@ -196,9 +204,15 @@ public:
   }
 
 private:
+  /**
+   * @brief Constructor from the oriented kernels, in the order of the axes.
+   */
+  explicit SeparableKernel(std::vector<std::pair<Index, LineKernel<T>>>&& kernels) : m_kernels(std::move(kernels)) {}
+
   template <typename TRasterIn, typename TRasterOut, Index J0, Index... Js>
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
-    const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
+    const auto& kernel = m_kernels[sizeof...(Is) - sizeof...(Js)].second;
+    const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in, kernel);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
   }
 
@@ -208,7 +222,7 @@ private:
   }
 
   template <typename TRasterIn, typename TRasterOut, Index J>
-  TRasterOut correlateAlong(const TRasterIn& in) const {
+  TRasterOut correlateAlong(const TRasterIn& in, const LineKernel<T>& kernel) const {
     const auto shape = in.shape();
     const auto length = shape[J];
     const auto stride = shapeStride<J>(shape);
@@ -217,7 +231,7 @@ private:
     for (const auto& p : domain) {
       DataSamples<const typename TRasterIn::Value> inSamples {&in[p], length, {}, stride};
       DataSamples<typename TRasterOut::Value> outSamples {&out[p], length, {}, stride};
-      m_kernels.at(J).correlate(inSamples, outSamples);
+      kernel.correlate(inSamples, outSamples);
     }
     return out;
   }
@@ -248,7 +262,7 @@ private:
   }
 
 private:
-  std::map<Index, LineKernel<T>> m_kernels;
+  std::vector<std::pair<Index, LineKernel<T>>> m_kernels;
 };
 
 } // namespace Litl
-- 
2.43.0


From 95d442d3ee52489c1f74da7bc872bc68a106187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 42/67] fix: length of variable-dimension rasters along given
 axis

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 9611ccc..9aee8d5 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -94,7 +94,7 @@ inline Index Raster<T, N, THolder>::dimension() const {
 template <typename T, Index N, typename THolder>
 template <Index I>
 inline Index Raster<T, N, THolder>::length() const {
-  return std::get<I>(m_shape.container());
+  return m_shape[I];
 }
 
 template <typename T, Index N, typename THolder>
-- 
2.43.0


From 57354e6f40da4010f569181bb1c68e78f23986a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 43/67] fix: sign of infinite vectors

---
 LitlRaster/LitlRaster/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Vector.h b/LitlRaster/LitlRaster/Vector.h
index 11c4c1b..db1d8da 100644
--- a/LitlRaster/LitlRaster/Vector.h
+++ b/LitlRaster/LitlRaster/Vector.h
@@ -105,7 +105,7 @@ public:
    */
   static Vector<T, N> inf() {
     Vector<T, N> res(std::abs(N));
-    return res.fill(-Limits<T>::inf());
+    return res.fill(Limits<T>::inf());
   }
 
   /**
-- 
2.43.0


From 48e14f9e58dcdd4b348d4cf933f61273f20c4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 44/67] fix: median of even counts

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 6a62f40..3e23aaf 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -8,6 +8,9 @@
 #include "LitlRaster/Raster.h"
 #include "LitlTransforms/Interpolation.h"
 
+#include <algorithm> // max_element, nth_element
+#include <vector>
+
 namespace Litl {
 
 /**
@@ -87,8 +90,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return *std::max_element(b, n) * .5 + *n * .5;
   }
 
 private:
-- 
2.43.0


From e498e5c7c798c7ad38116aa4ea5ea420274b3ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:03 +0000
Subject: [PATCH 45/67] fix: default region of the median filter

---
 LitlTransforms/LitlTransforms/MedianFilter.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 3e23aaf..3ed3dd8 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -63,7 +63,7 @@ public:
    * @param region The region to filter in the input raster
    */
   template <typename TIn, typename TOut>
-  void applyTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void applyTo(const TIn& in, TOut& out, const Box<N>& region) {
     std::vector<typename TIn::Value> neighbors(m_window.size());
     auto it = neighbors.begin();
     for (const auto& p : region) {
@@ -75,6 +75,14 @@ public:
     }
   }
 
+  /**
+   * @brief Apply the filter to the whole domain of a given output raster.
+   */
+  template <typename TIn, typename TOut>
+  void applyTo(const TIn& in, TOut& out) {
+    applyTo(in, out, out.domain());
+  }
+
   /**
    * @brief Compute the median value of an iterable.
    * @warning
-- 
2.43.0


From 8bbe1db8237bada587e923e4e02c1de523a305cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 46/67] fix: message of out of bounds errors

---
 LitlTypes/LitlTypes/Exceptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 0a12817..1cc1a6a 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -102,7 +102,7 @@ public:
   OutOfBoundsError(const std::string& name, T value, std::pair<T, T> bounds) :
       Exception(
           "Out of bounds error",
-          name + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
+          name + ": " + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
               std::to_string(bounds.second) + "]") {}
 
   /**
-- 
2.43.0


From f2cdc4a32a44ef702a21be74527c773c8e781063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 47/67] fix: check pointers without a null pointer error

---
 LitlTypes/LitlTypes/Exceptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 1cc1a6a..167e825 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -78,7 +78,7 @@ public:
   /**
    * @brief Throw if a given pointer is null.
    */
-  void mayThrow(const void* ptr, const std::string& message) {
+  static void mayThrow(const void* ptr, const std::string& message) {
     if (not ptr) {
       throw NullPtrError(message);
     }
-- 
2.43.0


From 09e31eed86c2b644c3fcbcf3e77635f82c3b08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 48/67] fix: epsilon of integers

---
 LitlTypes/LitlTypes/TypeUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index 754bbc2..3cb7124 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -225,7 +225,7 @@ struct Limits {
    * @brief The difference between two consecutive values.
    */
   static T epsilon() {
-    return TypeTraits<T>::fromScalar(std::numeric_limits<Scalar>::epsilon());
+    return TypeTraits<T>::fromScalar(std::is_integral<Scalar>::value ? Scalar(1) : std::numeric_limits<Scalar>::epsilon());
   }
 
   /**
-- 
2.43.0


From 6631abfe943b40a398e82144e979057408752a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:52 +0000
Subject: [PATCH 49/67] fix: release the plan on move assignment

---
 LitlTransforms/LitlTransforms/DftPlan.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/DftPlan.h b/LitlTransforms/LitlTransforms/DftPlan.h
index 9ade097..fcf14c6 100644
--- a/LitlTransforms/LitlTransforms/DftPlan.h
+++ b/LitlTransforms/LitlTransforms/DftPlan.h
@@ -109,7 +109,25 @@ public:
       m_plan {FftwAllocator::createPlan<Transform>(m_in, m_out)} {}
 
   LITL_DEFAULT_COPYABLE(DftPlan)
-  LITL_DEFAULT_MOVABLE(DftPlan)
+
+  /**
+   * @brief Move constructor.
+   */
+  DftPlan(DftPlan&&) = default;
+
+  /**
+   * @brief Move assignment operator.
+   */
+  DftPlan& operator=(DftPlan&& other) {
+    if (this != &other) {
+      FftwAllocator::destroyPlan(m_plan);
+      m_shape = std::move(other.m_shape);
+      m_in = std::move(other.m_in);
+      m_out = std::move(other.m_out);
+      m_plan = std::move(other.m_plan);
+    }
+    return *this;
+  }
 
   /**
    * @brief Destructor.
-- 
2.43.0


From 284cc16d48bd2fd8d615524aff81c5bd46a3453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:31 +0000
Subject: [PATCH 50/67] fix: standard deviation of nearly equal increments

---
 LitlRun/LitlRun/Chronometer.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/Chronometer.h b/LitlRun/LitlRun/Chronometer.h
index 74f8cac..6678751 100644
--- a/LitlRun/LitlRun/Chronometer.h
+++ b/LitlRun/LitlRun/Chronometer.h
@@ -5,10 +5,10 @@
 #ifndef _LITLRUN_CHRONOMETER_H
 #define _LITLRUN_CHRONOMETER_H
 
-#include <algorithm> // accumulate, min_element, max_element
+#include <algorithm> // min_element, max_element
 #include <chrono>
 #include <cmath> // sqrt
-#include <numeric> // inner_product
+#include <numeric> // accumulate
 #include <vector>
 
 namespace Litl {
@@ -119,8 +119,10 @@ public:
    */
   double stdev() const {
     const auto m = mean();
-    const auto s2 = std::inner_product(m_container.begin(), m_container.end(), m_container.begin(), 0.);
-    return std::sqrt(s2 / count() - m * m);
+    const auto s2 = std::accumulate(m_container.begin(), m_container.end(), 0., [m](double sum, double inc) {
+      return sum + (inc - m) * (inc - m);
+    });
+    return std::sqrt(s2 / count());
   }
 
   /**
-- 
2.43.0


From 88f9c7b218c6e3377358eb50417c7328ebade4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:02 +0000
Subject: [PATCH 51/67] fix: options declared in a copy

---
 LitlRun/LitlRun/ProgramOptions.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index 355700e..ef30d1d 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -49,7 +49,7 @@ public:
    * @brief Make a `ProgramOptions` with optional description string.
    */
   ProgramOptions(const std::string& description = "") :
-      m_named(describe(description)), m_add(m_named.add_options()), m_positional(), m_variables() {}
+      m_named(describe(description)), m_positional(), m_variables() {}
 
   /**
    * @brief Declare a positional option.
@@ -71,7 +71,7 @@ public:
    * @brief Declare a positional option with custom semantics.
    */
   void positional(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
     const int maxArgs = value->max_tokens();
     m_positional.add(name, maxArgs);
   }
@@ -102,7 +102,7 @@ public:
    * A short form (1-character) of the option can be provided, separated by a comma.
    */
   void named(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
   }
 
   /**
@@ -182,7 +182,6 @@ private:
   }
 
   OptionsDescription m_named;
-  boost::program_options::options_description_easy_init m_add;
   PositionalOptionsDescription m_positional;
   boost::program_options::variables_map m_variables;
 };
-- 
2.43.0


From 8d98ac9a9129bac56940565ae7b0325ddc308ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:46 +0000
Subject: [PATCH 52/67] fix: flags followed by positional options

---
 LitlRun/LitlRun/ProgramOptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index ef30d1d..2038987 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -109,7 +109,7 @@ public:
    * @brief Declare a flag option.
    */
   void flag(const char* name, const char* description) {
-    named(name, boost::program_options::value<bool>()->default_value(false)->implicit_value(true), description);
+    named(name, boost::program_options::bool_switch(), description);
   }
 
   /**
-- 
2.43.0


From 99a69fc287010cb42cee9794ed293fd02da53035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:51 +0000
Subject: [PATCH 53/67] fix: report FITS errors

---
 LitlIo/LitlIo/Fits.h | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index fb743e8..6d16691 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -20,10 +20,16 @@ public:
   template <typename TRaster>
   TRaster read() {
     int naxis = 0;
+    m_status = 0;
     fits_open_file(&m_fptr, m_filename.c_str(), READONLY, &m_status);
     fits_get_img_dim(m_fptr, &naxis, &m_status);
+    if (m_status == 0 && TRaster::Dimension >= 0 && naxis != TRaster::Dimension) {
+      m_status = BAD_DIMEN;
+    }
+    closeOnError();
     Position<TRaster::Dimension> shape(naxis);
     fits_get_img_size(m_fptr, naxis, shape.data(), &m_status);
+    closeOnError();
     TRaster out(shape);
     fits_read_img(
         m_fptr,
@@ -34,14 +40,13 @@ public:
         out.data(),
         nullptr,
         &m_status);
-    fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
-    m_fptr = nullptr;
+    close();
     return out;
   }
 
   template <typename TRaster>
   void write(TRaster raster) { // FIXME const
+    m_status = 0;
     fits_create_file(&m_fptr, m_filename.c_str(), &m_status);
     auto shape = raster.shape();
     fits_create_img(
@@ -57,12 +62,34 @@ public:
         raster.size(),
         raster.data(),
         &m_status);
-    fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
-    m_fptr = nullptr;
+    close();
   }
 
 private:
+  /**
+   * @brief Close the file (if opened) and throw if an error occurred since it was opened.
+   */
+  void close() {
+    if (m_fptr) {
+      fits_close_file(m_fptr, &m_status);
+      m_fptr = nullptr;
+    }
+    if (m_status != 0) {
+      char text[FLEN_STATUS];
+      fits_get_errstatus(m_status, text);
+      throw Exception("FITS error", m_filename + ": " + text);
+    }
+  }
+
+  /**
+   * @brief Close the file and throw if an error occurred.
+   */
+  void closeOnError() {
+    if (m_status != 0) {
+      close();
+    }
+  }
+
   std::string m_filename;
   fitsfile* m_fptr;
   int m_status;
-- 
2.43.0


From ad674a5c3be4149559ccaf1c6894786bca7afba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:13 +0000
Subject: [PATCH 54/67] fix: own FFTW plans from their creation

---
 LitlTransforms/LitlTransforms/Dft.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Dft.h b/LitlTransforms/LitlTransforms/Dft.h
index f1b9b3b..a2503fb 100644
--- a/LitlTransforms/LitlTransforms/Dft.h
+++ b/LitlTransforms/LitlTransforms/Dft.h
@@ -147,24 +147,28 @@ template <>
 template <Index N>
 FftwPlanPtr RealDftTransform::Base::allocateFftwPlan(RealDftBuffer<N>& in, ComplexDftBuffer<N>& out) {
   auto shape = fftwShape(in);
-  return std::make_unique<fftw_plan>(fftw_plan_dft_r2c(
+  auto plan = std::make_unique<fftw_plan>(); // Allocated first, to own the plan in any case
+  *plan = fftw_plan_dft_r2c(
       shape.size(),
       shape.data(),
       reinterpret_cast<double*>(in.data()),
       reinterpret_cast<fftw_complex*>(out.data()),
-      FFTW_MEASURE));
+      FFTW_MEASURE);
+  return plan;
 }
 
 template <>
 template <Index N>
 FftwPlanPtr Inverse<RealDftTransform>::Base::allocateFftwPlan(ComplexDftBuffer<N>& in, RealDftBuffer<N>& out) {
   auto shape = fftwShape(out);
-  return std::make_unique<fftw_plan>(fftw_plan_dft_c2r(
+  auto plan = std::make_unique<fftw_plan>(); // Allocated first, to own the plan in any case
+  *plan = fftw_plan_dft_c2r(
       shape.size(),
       shape.data(),
       reinterpret_cast<fftw_complex*>(in.data()),
       reinterpret_cast<double*>(out.data()),
-      FFTW_MEASURE));
+      FFTW_MEASURE);
+  return plan;
 }
 
 /**
@@ -177,26 +181,30 @@ template <>
 template <Index N>
 FftwPlanPtr ComplexDftTransform::Base::allocateFftwPlan(ComplexDftBuffer<N>& in, ComplexDftBuffer<N>& out) {
   auto shape = fftwShape(in);
-  return std::make_unique<fftw_plan>(fftw_plan_dft(
+  auto plan = std::make_unique<fftw_plan>(); // Allocated first, to own the plan in any case
+  *plan = fftw_plan_dft(
       shape.size(),
       shape.data(),
       reinterpret_cast<fftw_complex*>(in.data()),
       reinterpret_cast<fftw_complex*>(out.data()),
       FFTW_FORWARD,
-      FFTW_MEASURE));
+      FFTW_MEASURE);
+  return plan;
 }
 
 template <>
 template <Index N>
 FftwPlanPtr Inverse<ComplexDftTransform>::Base::allocateFftwPlan(ComplexDftBuffer<N>& in, ComplexDftBuffer<N>& out) {
   auto shape = fftwShape(out);
-  return std::make_unique<fftw_plan>(fftw_plan_dft(
+  auto plan = std::make_unique<fftw_plan>(); // Allocated first, to own the plan in any case
+  *plan = fftw_plan_dft(
       shape.size(),
       shape.data(),
       reinterpret_cast<fftw_complex*>(in.data()),
       reinterpret_cast<fftw_complex*>(out.data()),
       FFTW_BACKWARD,
-      FFTW_MEASURE));
+      FFTW_MEASURE);
+  return plan;
 }
 
 } // namespace Internal
-- 
2.43.0


From 2f620d824fc1a2efc99fb51d9272272a5a1500ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:30 +0000
Subject: [PATCH 55/67] fix: throw if the memory of an AlignedBuffer cannot be
 allocated

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 20e6c70..e172778 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -10,6 +10,8 @@
 
 #include <algorithm> // copy_n
 #include <cstdint> // uintptr_t
+#include <cstdlib> // malloc, free
+#include <new> // bad_alloc
 #include <sstream>
 
 namespace Litl {
@@ -119,6 +121,9 @@ public:
       AlignmentError::mayThrow(m_data, m_as);
     } else {
       m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
+      if (not m_container && m_size > 0) {
+        throw std::bad_alloc();
+      }
       m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
     }
   }
@@ -152,6 +157,10 @@ public:
       m_as = other.m_as;
       if (other.owns()) {
         m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
+        if (not m_container && m_size > 0) {
+          reset();
+          throw std::bad_alloc();
+        }
         m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
         std::copy_n(other.m_data, m_size, m_data);
       } else {
-- 
2.43.0


From 8a0096e57f1cfe847767685ea1afa70cb62087d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:55 +0000
Subject: [PATCH 56/67] fix: make StructuringElement compile

---
 LitlTransforms/LitlTransforms/StructuringElement.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index 19966f3..2e82e36 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -78,8 +78,9 @@ public:
   }
 
 private:
+  template <typename TIn>
   void loadNeighbors(const TIn& in, const Position<N>& p) {
-    auto it = neighbors.begin();
+    auto it = m_neighbors.begin();
     for (const auto& q : m_window + p) {
       *it++ = in[q];
     }
-- 
2.43.0


From 5757b4c3e68e034c32c1aeb4bb3f64825b0c1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:55 +0000
Subject: [PATCH 57/67] fix: filter the domain of the output by default with
 StructuringElement

---
 .../LitlTransforms/StructuringElement.h       | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index 2e82e36..173edc7 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -54,29 +54,53 @@ public:
    * @param region The region to filter in the input raster
    */
   template <typename TIn, typename TOut>
-  void medianTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void medianTo(const TIn& in, TOut& out, const Box<N>& region) {
     for (const auto& p : region) {
       loadNeighbors(in, p);
       out[p] = neighborsMedian();
     }
   }
 
+  /**
+   * @brief Apply the median filter to the whole domain of a given output raster.
+   */
+  template <typename TIn, typename TOut>
+  void medianTo(const TIn& in, TOut& out) {
+    medianTo(in, out, out.domain());
+  }
+
   template <typename TIn, typename TOut>
-  void erodeTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void erodeTo(const TIn& in, TOut& out, const Box<N>& region) {
     for (const auto& p : region) {
       loadNeighbors(in, p);
       out[p] = neighborsMin();
     }
   }
 
+  /**
+   * @brief Apply the erosion to the whole domain of a given output raster.
+   */
+  template <typename TIn, typename TOut>
+  void erodeTo(const TIn& in, TOut& out) {
+    erodeTo(in, out, out.domain());
+  }
+
   template <typename TIn, typename TOut>
-  void dilateTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void dilateTo(const TIn& in, TOut& out, const Box<N>& region) {
     for (const auto& p : region) {
       loadNeighbors(in, p);
       out[p] = neighborsMax();
     }
   }
 
+  /**
+   * @brief Apply the dilation to the whole domain of a given output raster.
+   */
+  template <typename TIn, typename TOut>
+  void dilateTo(const TIn& in, TOut& out) {
+    dilateTo(in, out, out.domain());
+  }
+
 private:
   template <typename TIn>
   void loadNeighbors(const TIn& in, const Position<N>& p) {
-- 
2.43.0


From f18dc993cf3c92cb671a3e42371bdbfce954e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:59 +0000
Subject: [PATCH 58/67] fix: average the two middle values in the even
 StructuringElement medians

---
 LitlTransforms/LitlTransforms/StructuringElement.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index 173edc7..29e53db 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -119,8 +119,7 @@ private:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return *std::max_element(b, n) * .5 + *n * .5;
   }
 
   T neighborsMin() {
-- 
2.43.0


From 8b56455834850e6e4e87a55251cfdd69c30790b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:33 +0000
Subject: [PATCH 59/67] fix: sum the products of kernels and inputs in their
 common type

---
 LitlTransforms/LitlTransforms/Convolution.h |  3 ++-
 LitlTransforms/LitlTransforms/Kernel.h      | 18 +++++++++++++++---
 LitlTransforms/LitlTransforms/LineKernel.h  |  3 ++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index ad90fb7..71f1746 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -75,13 +75,14 @@ public:
     const Index inSize = in.size();
     DataSamples<const TIn> unitIn {in.data(), in.size(), {0, inSize - 1}, in.stride()}; // step = 1 for inner_product
     const auto inBegin = unitIn.begin();
+    const std::decay_t<decltype(m_bias * *in.data())> bias(m_bias);
     auto outIt = out.begin();
     for (auto i = in.front(); i <= in.back(); i += in.step(), ++outIt) {
       const auto first = std::max(Index(0), m_backward - i); // First kernel index inside the line
       const auto last = std::max(first, std::min(kernelSize, m_backward - i + inSize)); // Past-the-last one
       auto inIt = inBegin;
       inIt += i - m_backward + first;
-      *outIt = std::inner_product(this->data() + first, this->data() + last, inIt, m_bias);
+      *outIt = std::inner_product(this->data() + first, this->data() + last, inIt, bias);
     }
   }
 
diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 49ff5eb..c407b00 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -8,6 +8,11 @@
 #include "LitlRaster/Raster.h"
 #include "LitlTransforms/Interpolation.h"
 
+#include <numeric> // inner_product
+#include <type_traits> // decay
+#include <utility> // declval
+#include <vector>
+
 namespace Litl {
 
 /**
@@ -92,6 +97,12 @@ public:
   }
 
 private:
+  /**
+   * @brief The type of the weighted sums of input values.
+   */
+  template <typename TIn>
+  using Sum = std::decay_t<decltype(std::declval<T>() * std::declval<TIn>())>;
+
   /**
    * @brief Correlate an input raster over a given region.
    */
@@ -124,7 +135,7 @@ private:
       for (Index i = boxWidth; i > 0; --i, ++inIt, ++outIt) {
 
         // Compute the weighted sum row by row
-        T sum {};
+        Sum<typename TRasterIn::Value> sum {};
         auto kIt = m_values.data();
         for (const auto& o : offsets) {
           sum = std::inner_product(kIt, kIt + kWidth, inIt + o, sum);
@@ -146,7 +157,8 @@ private:
     }
 
     // Allocate extrapolation buffer
-    std::vector<T> buffer(m_values.size());
+    using InValue = std::decay_t<decltype(in[box.front()])>;
+    std::vector<InValue> buffer(m_values.size());
 
     // Prepare iterators
     const auto bBegin = buffer.begin();
@@ -163,7 +175,7 @@ private:
       });
 
       // Compute the weighted sum
-      out[p] = std::inner_product(kBegin, kEnd, bBegin, T {});
+      out[p] = std::inner_product(kBegin, kEnd, bBegin, Sum<InValue> {});
     }
   }
 
diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index de875f7..32a0565 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -87,13 +87,14 @@ public:
     const Index inSize = in.size();
     DataSamples<const TIn> unitIn {in.data(), in.size(), {0, inSize - 1}, in.stride()}; // step = 1 for inner_product
     const auto inBegin = unitIn.begin();
+    const std::decay_t<decltype(m_bias * *in.data())> bias(m_bias);
     auto outIt = out.begin();
     for (auto i = in.front(); i <= in.back(); i += in.step(), ++outIt) {
       const auto first = std::max(Index(0), m_origin - i); // First kernel index inside the line
       const auto last = std::max(first, std::min(kernelSize, m_origin - i + inSize)); // Past-the-last one
       auto inIt = inBegin;
       inIt += i - m_origin + first;
-      *outIt = std::inner_product(this->data() + first, this->data() + last, inIt, m_bias);
+      *outIt = std::inner_product(this->data() + first, this->data() + last, inIt, bias);
     }
   }
 
-- 
2.43.0


From 8f00a93fe093a0d51bba9d267aeb7a29efe065e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:16 +0000
Subject: [PATCH 60/67] fix: throw if the size in bytes of an aligned buffer
 overflows

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index e172778..aa486a4 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -11,6 +11,7 @@
 #include <algorithm> // copy_n
 #include <cstdint> // uintptr_t
 #include <cstdlib> // malloc, free
+#include <limits>
 #include <new> // bad_alloc
 #include <sstream>
 
@@ -120,6 +121,9 @@ public:
     if (m_data) {
       AlignmentError::mayThrow(m_data, m_as);
     } else {
+      if (m_size > (std::numeric_limits<std::size_t>::max() - (m_as - 1)) / sizeof(T)) {
+        throw std::bad_alloc(); // The size in bytes overflows
+      }
       m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
       if (not m_container && m_size > 0) {
         throw std::bad_alloc();
-- 
2.43.0


From 1cbafebb7bf3671f4f60336b1b22bbd4fab5ec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:25 +0000
Subject: [PATCH 61/67] fix: keep linear spaces of 64-bit integers exact

---
 LitlContainer/LitlContainer/DataContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 0b8b7ba..e2d10d4 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -161,7 +161,8 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
-    using Floating = typename TypeTraits<T>::Floating; // Integer steps would be rounded, or wrap if negative
+    using Floating = // Integer steps would be rounded, or wrap if negative, and double cannot represent all of the 64-bit integers
+        std::conditional_t<std::is_integral<T>::value, long double, typename TypeTraits<T>::Floating>;
     using Scalar = typename TypeTraits<Floating>::Scalar;
     auto& t = static_cast<TDerived&>(*this);
     const std::size_t size = t.size();
-- 
2.43.0


From 3824913d1a4f103e236ee257026af40bff655e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:25 +0000
Subject: [PATCH 62/67] fix: average the middle values of 64-bit integers
 exactly in medians

---
 LitlTransforms/LitlTransforms/MedianFilter.h       | 5 ++++-
 LitlTransforms/LitlTransforms/StructuringElement.h | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 3ed3dd8..f65fa67 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -9,6 +9,7 @@
 #include "LitlTransforms/Interpolation.h"
 
 #include <algorithm> // max_element, nth_element
+#include <type_traits> // conditional, decay, is_integral
 #include <vector>
 
 namespace Litl {
@@ -98,7 +99,9 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    return *std::max_element(b, n) * .5 + *n * .5;
+    using Floating = std::conditional_t<std::is_integral<std::decay_t<decltype(*n)>>::value, long double, double>; // double cannot represent all of the 64-bit integers
+    constexpr Floating half = .5;
+    return *std::max_element(b, n) * half + *n * half;
   }
 
 private:
diff --git a/LitlTransforms/LitlTransforms/StructuringElement.h b/LitlTransforms/LitlTransforms/StructuringElement.h
index 29e53db..3ae72a1 100644
--- a/LitlTransforms/LitlTransforms/StructuringElement.h
+++ b/LitlTransforms/LitlTransforms/StructuringElement.h
@@ -8,6 +8,8 @@
 #include "LitlRaster/Raster.h"
 #include "LitlTransforms/Interpolation.h"
 
+#include <type_traits> // conditional, is_integral
+
 namespace Litl {
 
 /**
@@ -119,7 +121,9 @@ private:
     if (size % 2 == 1) {
       return *n;
     }
-    return *std::max_element(b, n) * .5 + *n * .5;
+    using Floating = std::conditional_t<std::is_integral<T>::value, long double, double>; // double cannot represent all of the 64-bit integers
+    constexpr Floating half = .5;
+    return *std::max_element(b, n) * half + *n * half;
   }
 
   T neighborsMin() {
-- 
2.43.0


From c2107d41f30d1d3c9e9ef45a2d32ff740acd8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:24 +0000
Subject: [PATCH 63/67] fix: correlate with windows which do not contain the
 origin

---
 LitlTransforms/LitlTransforms/Kernel.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index c407b00..f134768 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -8,6 +8,7 @@
 #include "LitlRaster/Raster.h"
 #include "LitlTransforms/Interpolation.h"
 
+#include <algorithm> // max, min
 #include <numeric> // inner_product
 #include <type_traits> // decay
 #include <utility> // declval
@@ -82,14 +83,21 @@ public:
    */
   template <typename TRaster, typename TMethod, typename TOut>
   void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
-    const auto inner = in.domain() - m_window;
+    auto front = m_window.front();
+    auto back = m_window.back();
+    for (std::size_t i = 0; i < front.size(); ++i) { // The window may not contain the origin
+      front[i] = std::min(front[i], Index(0));
+      back[i] = std::max(back[i], Index(0));
+    }
+    const Box<Dimension> margin(front, back);
+    const auto inner = in.domain() - margin;
     for (std::size_t i = 0; i < inner.front().size(); ++i) {
       if (inner.back()[i] < inner.front()[i]) { // The image is smaller than the kernel
         correlateWithExtrapolation(in, in.domain(), out);
         return;
       }
     }
-    const auto outers = inner.surround(m_window);
+    const auto outers = inner.surround(margin);
     correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
     for (const auto& o : outers) {
       correlateWithExtrapolation(in, o, out);
-- 
2.43.0


From 3d4d2dd6116d61866de668fa9beb3071091cc92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:24 +0000
Subject: [PATCH 64/67] fix: compose separable kernels with origins outside of
 the line kernels

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 6ec9dbe..7553a8c 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -151,9 +151,13 @@ public:
       shape[k.first] += k.second.size() - 1;
       origin[k.first] += k.second.origin();
     }
+    auto aligned = *this; // With origins inside the kernels
+    for (auto& k : aligned.m_kernels) {
+      k.second = LineKernel<T>(std::vector<T>(k.second.begin(), k.second.end()), 0);
+    }
     auto raster = Raster<Value, Dimension>(shape).fill(T(0));
-    raster[shape - 1 - origin] = T(1);
-    auto values = *this * raster; // The response to an impulse is mirrored
+    raster[shape - 1] = T(1);
+    auto values = aligned * raster; // The response to an impulse is mirrored
     std::reverse(values.begin(), values.end());
     return kernelize(values, origin);
   }
-- 
2.43.0


From 8dd78e560f2a82f260e794adb2cc47c30c38fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:24 +0000
Subject: [PATCH 65/67] fix: correlate in 2D with origins outside of the kernel

---
 LitlTransforms/LitlTransforms/Convolution.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 71f1746..04a17dc 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -104,9 +104,9 @@ public:
 
     // Set sampling
     const auto xFrom = sampling.template along<0>().front;
-    const auto yFrom = std::max(0L, sampling.template along<1>().front - m_backward);
+    const auto yFrom = std::max(0L, sampling.template along<1>().front - std::max(0L, m_backward));
     const auto xTo = sampling.template along<0>().back;
-    const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_forward);
+    const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + std::max(0L, m_forward));
     const auto xStep = sampling.template along<0>().step;
     const auto yStep = sampling.template along<1>().step;
 
-- 
2.43.0


From 757719773b7a2e0cc9731c8a5f77db24ac86b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:24 +0000
Subject: [PATCH 66/67] fix: get the shape of balls of variable dimension

---
 LitlRaster/LitlRaster/Ball.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index d96d8c8..5ae68db 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -85,7 +85,7 @@ public:
    * @brief Compute the bounding box shape.
    */
   Position<N> shape() const {
-    return Position<N>(N).fill(length<0>());
+    return Position<N>(m_center.size()).fill(length<0>());
   }
 
   /**
-- 
2.43.0


From b643e9f42556438810469d16a1e3bc53c6380060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:50 +0000
Subject: [PATCH 67/67] fix: nearest-neighbour interpolation near the middle of
 pixels and at far positions

---
 LitlTransforms/LitlTransforms/InterpolationMethods.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 0b1f628..cb5dbfd 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,8 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return floor<Index>(e + .5);
+      const auto f = floor<Index>(e); // Not floor(e + .5), where the sum may be rounded up
+      return e - f < .5 ? f : f + 1;
     });
     return raster[integral];
   }
-- 
2.43.0

