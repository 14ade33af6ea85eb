From aa33f8bc4e0c69109c3a35a68ed977710f8d3986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 01/29] fix: DDScalar in-place product with an operand that
 aliases the target

x *= x read gradient entries of the right operand that had already been
overwritten, which gave a wrong Hessian. x *= x.f() rescaled the factor
itself before the derivatives were multiplied.
---
 include/hyperjet/hyperjet.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 250d204..03fd3e8 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1139,6 +1139,12 @@ namespace hyperjet
         {
             check_equal_size(size(), b.size());
 
+            if (this == &b)
+            {
+                const Type copy = b;
+                return operator*=(copy);
+            }
+
             const Data a_m_data = m_data;
 
             const Scalar da = b.f();
@@ -1167,7 +1173,7 @@ namespace hyperjet
             return *this;
         }
 
-        Type &operator*=(const Scalar &b)
+        Type &operator*=(const Scalar b)
         {
             for (index i = 0; i < length(m_data); i++)
             {
-- 
2.43.0


From deeb8cfc81ab4d0977ca770b1dbecb3d66f7c71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 02/29] fix: SScalar in-place product and quotient with itself

s *= s and s /= s scaled the coefficients of the right operand before they
were added, which gave wrong derivatives.
---
 include/hyperjet/hyperjet.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 03fd3e8..7172a73 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2258,6 +2258,12 @@ namespace hyperjet
 
         Type &operator*=(const Type &b)
         {
+            if (this == &b)
+            {
+                const Type copy = b;
+                return operator*=(copy);
+            }
+
             const Scalar da = b.m_f;
             const Scalar db = m_f;
 
@@ -2316,6 +2322,12 @@ namespace hyperjet
         {
             using std::pow;
 
+            if (this == &b)
+            {
+                const Type copy = b;
+                return operator/=(copy);
+            }
+
             const auto da = 1 / b.m_f;
             const auto db = -m_f / pow(b.m_f, 2);
 
-- 
2.43.0


From 8fa06e1f8902a19063a87ddd8a7bd2a4de810b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 03/29] fix: size of dynamic DDScalar created without
 derivatives

A default-constructed or value-constructed dynamic DDScalar claimed one
variable but stored only the value, so that arithmetic and accessors read
beyond its data. It has size 0, as constant(f), zero() and empty() do.
---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 7172a73..9de022d 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -318,7 +318,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
@@ -333,7 +333,7 @@ namespace hyperjet
 
             if constexpr (is_dynamic())
             {
-                m_size = 1;
+                m_size = 0;
                 m_data = Data(1);
             }
             else
-- 
2.43.0


From 6ad0a5df94451938618c634a036019abfa522337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 04/29] fix: DDScalar initializer list that does not match the
 storage

The values were copied into an empty vector for dynamic numbers, and beyond
the end of the array for static numbers of a smaller size.
---
 include/hyperjet/hyperjet.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 9de022d..24fee21 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -362,6 +362,13 @@ namespace hyperjet
         {
             static_assert(0 < order() && order() <= 2);
 
+            check_valid_size(m_size);
+
+            if constexpr (is_dynamic())
+            {
+                m_data.resize(data.size());
+            }
+
             std::copy(data.begin(), data.end(), m_data.begin());
         }
 
-- 
2.43.0


From 44cb009adf4749d0d4c3c45eed6477d5687020ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 05/29] fix: validation of the data length

An empty data vector was accepted as a number of size -1. With
HYPERJET_NO_EXCEPTIONS the assertion was inverted and rejected all valid
lengths.
---
 include/hyperjet/hyperjet.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 24fee21..d7a4cdf 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -69,14 +69,14 @@ namespace hyperjet
 
             if constexpr (throw_exceptions())
             {
-                if (data_length_from_size(s) != n)
+                if (s < 0 || data_length_from_size(s) != n)
                 {
                     throw std::runtime_error("Invalid length");
                 }
             }
             else
             {
-                assert(data_length_from_size(s) == n == 0 && "Invalid length");
+                assert(s >= 0 && data_length_from_size(s) == n && "Invalid length");
             }
 
             return s;
-- 
2.43.0


From b2539b2cc35549afeb2eb0baf03a0eb01504cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 06/29] fix: reject negative sizes of dynamic DDScalar

zero(-1), empty(-1), constant(f, -1) and variable(i, f, -1) produced a number
with a negative size and wrote beyond its data.
---
 include/hyperjet/hyperjet.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index d7a4cdf..f0857ba 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -571,6 +571,8 @@ namespace hyperjet
 
         static Type empty(const index size)
         {
+            check_valid_size(size);
+
             if constexpr (is_dynamic())
             {
                 const index n = data_length_from_size(size);
@@ -580,7 +582,6 @@ namespace hyperjet
             }
             else
             {
-                check_valid_size(size);
                 return empty();
             }
         }
@@ -604,6 +605,8 @@ namespace hyperjet
 
         static Type zero(const index size)
         {
+            check_valid_size(size);
+
             if constexpr (is_dynamic())
             {
                 const Data data(data_length_from_size(size), 0);
@@ -612,7 +615,6 @@ namespace hyperjet
             }
             else
             {
-                check_valid_size(size);
                 return zero();
             }
         }
-- 
2.43.0


From 1cbf760c959f792aac810437602b6e17fa9a05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 07/29] fix: pad_left and pad_right reject a smaller size

A new size below the current one wrote beyond the data of the result.
---
 include/hyperjet/hyperjet.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index f0857ba..fe38269 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -115,6 +115,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_not_smaller(const index new_size, const index size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (new_size < size)
+                {
+                    throw std::runtime_error("New size is too small");
+                }
+            }
+            else
+            {
+                assert(new_size >= size && "New size is too small");
+            }
+        }
+
         HYPERJET_INLINE static void check_equal_size(const index size_a, const index size_b)
         {
             if constexpr (TSize == Dynamic)
@@ -438,6 +453,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_not_smaller(new_size, size());
+
             Type result = empty(new_size);
 
             const index head = new_size - size();
@@ -485,6 +502,8 @@ namespace hyperjet
         {
             static_assert(is_dynamic());
 
+            check_not_smaller(new_size, size());
+
             Type result = empty(new_size);
 
             const index tail = new_size - size();
-- 
2.43.0


From 3147065d70d1921df3a3c795f743e27d6134abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 08/29] fix: resize keeps the derivatives of second order
 numbers

The data vector was only lengthened or cut, so that entries of the Hessian
turned up as gradient entries or at other positions of the Hessian.
---
 include/hyperjet/hyperjet.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index fe38269..6926370 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -444,9 +444,26 @@ namespace hyperjet
         void resize(const index size)
         {
             static_assert(is_dynamic());
-            m_size = size;
-            const index n = data_length_from_size(size);
-            m_data.resize(n);
+            check_valid_size(size);
+
+            const index common = size < m_size ? size : m_size;
+
+            Type result = zero(size);
+
+            std::copy(m_data.begin(), m_data.begin() + 1 + common, result.m_data.begin());
+
+            if constexpr (order() == 2)
+            {
+                for (index i = 0; i < common; i++)
+                {
+                    for (index j = i; j < common; j++)
+                    {
+                        result.h(i, j) = h(i, j);
+                    }
+                }
+            }
+
+            *this = result;
         }
 
         Type pad_left(const index new_size) const
-- 
2.43.0


From 24361e489ffdfc257a9c924f1c4b3cdbd4bc93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 09/29] fix: size check of atan2 and of hypot with three
 arguments

Operands of different dynamic size were read beyond their data.
---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 6926370..c1b5933 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1464,6 +1464,8 @@ namespace hyperjet
         {
             using std::atan2;
 
+            check_equal_size(size(), b.size());
+
             Type result = Type::empty(size());
 
             const Scalar tmp = this->f() * this->f() + b.f() * b.f();
@@ -1506,6 +1508,7 @@ namespace hyperjet
             using std::hypot;
 
             check_equal_size(a.size(), b.size());
+            check_equal_size(a.size(), c.size());
 
             Type result = Type::empty(a.size());
 
-- 
2.43.0


From a9db459781277250e20a768ba69f62ba6d51e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 10/29] fix: size check of DDScalar::eval

A step with fewer entries than variables was read beyond its end.
---
 include/hyperjet/hyperjet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index c1b5933..5d56724 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -951,6 +951,8 @@ namespace hyperjet
 
         Scalar eval(typename std::conditional < TSize == Dynamic, std::vector<Scalar>, std::array<Scalar, TSize<0 ? 0 : TSize>>::type d) const
         {
+            check_equal_size(size(), length(d));
+
             Scalar result = f();
 
             for (index i = 0; i < size(); i++)
-- 
2.43.0


From f878a79f672dc505a69c38006cb7f0a3be107640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 11/29] fix: derivatives of pow with exponent 0 or 1 at zero

The vanishing factor was multiplied by pow(0, negative) = inf, which gave
nan for derivatives that are 0.
---
 include/hyperjet/hyperjet.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 5d56724..5d7908a 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1310,8 +1310,8 @@ namespace hyperjet
             Type result = Type::empty(size());
 
             const auto f = pow(this->f(), b);
-            const auto da = b * pow(this->f(), b - 1);
-            const auto daa = (b - 1) * b * pow(this->f(), b - 2);
+            const auto da = b == 0 ? 0 : b * pow(this->f(), b - 1);
+            const auto daa = b == 0 || b == 1 ? 0 : (b - 1) * b * pow(this->f(), b - 2);
 
             unary<false>(m_data, f, da, daa, result.m_data);
 
@@ -2406,7 +2406,7 @@ namespace hyperjet
             using std::pow;
 
             const auto f = pow(m_f, b);
-            const auto da = b * pow(m_f, b - Scalar(1));
+            const auto da = b == Scalar(0) ? Scalar(0) : b * pow(m_f, b - Scalar(1));
 
             return Type(f, unary(m_d, da));
         }
-- 
2.43.0


From 685bd2ef24712e505142650eb2263585c0064618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 12/29] fix: compare with the end of the searched map in
 SScalar::eval

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 5d7908a..97b0382 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -2147,7 +2147,7 @@ namespace hyperjet
             {
                 const auto it = d.find(coef.first);
 
-                if (it == m_d.end())
+                if (it == d.end())
                     continue;
 
                 r += coef.second * it->second;
-- 
2.43.0


From bdd1bfef0598c22edff38df97937d8bc23f7fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 13/29] fix: gradient view of a const DDScalar did not compile

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 97b0382..1ab406c 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -844,7 +844,7 @@ namespace hyperjet
 
         Eigen::Ref<const Vector> ag() const
         {
-            return Eigen::Map<Vector>(ptr() + 1, size());
+            return Eigen::Map<const Vector>(ptr() + 1, size());
         }
 
         Eigen::Ref<Vector> ag()
-- 
2.43.0


From 078a85cca7ed087cbe336efafce955294499391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 14/29] fix: DDScalar::variable rejects an invalid index

In release builds, such as the Python module, the gradient was written beyond
its end.
---
 include/hyperjet/hyperjet.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 1ab406c..9f80e8d 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -115,6 +115,21 @@ namespace hyperjet
             }
         }
 
+        HYPERJET_INLINE static void check_valid_index(const index i, const index size)
+        {
+            if constexpr (throw_exceptions())
+            {
+                if (i < 0 || i >= size)
+                {
+                    throw std::runtime_error("Invalid index");
+                }
+            }
+            else
+            {
+                assert(0 <= i && i < size && "Invalid index");
+            }
+        }
+
         HYPERJET_INLINE static void check_not_smaller(const index new_size, const index size)
         {
             if constexpr (throw_exceptions())
@@ -680,6 +695,7 @@ namespace hyperjet
         static Type variable(const index i, const Scalar f)
         {
             static_assert(!is_dynamic());
+            check_valid_index(i, TSize);
             Type result = zero();
             result.f() = f;
             result.g(i) = 1;
@@ -690,6 +706,7 @@ namespace hyperjet
         {
             if constexpr (is_dynamic())
             {
+                check_valid_index(i, size);
                 Type result = zero(size);
                 result.f() = f;
                 result.g(i) = 1;
-- 
2.43.0


From 103d4e7b119235233cf7ad212d742236042a670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 15/29] fix: size check of Hessian matrices

set_hm and from_arrays read beyond the end of a matrix that is smaller than
the number of variables, in release builds such as the Python module.
---
 include/hyperjet/hyperjet.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 9f80e8d..6e4329f 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -918,6 +918,9 @@ namespace hyperjet
 
         void set_hm(const Eigen::Ref<const Matrix> &value)
         {
+            check_equal_size(size(), value.rows());
+            check_equal_size(size(), value.cols());
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -955,7 +958,8 @@ namespace hyperjet
         {
             static_assert(order() == 2);
 
-            assert(g.size() == hm.rows() && g.size() == hm.cols());
+            check_equal_size(g.size(), hm.rows());
+            check_equal_size(g.size(), hm.cols());
 
             Type result = empty(length(g));
 
-- 
2.43.0


From a5af7927c70e825bbac06bc013e406ef043817e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 16/29] fix: Hessian accessors of first order numbers in Python

Numbers of first order do not store a Hessian: hm() and h() returned, and
set_hm() and set_h() overwrote, memory beyond their data. hyperjet.dd()
already distinguishes numbers with and without hm().
---
 python/src/common.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index 81b1193..c45544c 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -91,11 +91,16 @@ auto bind(py::module &m, const std::string &name)
         .def("__pow__", &T::pow)
         .def("__repr__", &T::to_string)
         .def("abs", &T::abs)
-        .def("eval", &T::eval, "d"_a)
-        .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-        .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
-        .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
-        .def("set_hm", &T::set_hm, "value"_a);
+        .def("eval", &T::eval, "d"_a);
+
+    if constexpr (T::order() == 2)
+    {
+        cls
+            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
+            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def("set_hm", &T::set_hm, "value"_a);
+    }
 
     if constexpr (T::is_dynamic())
     {
-- 
2.43.0


From 983c75abcb76ae32672c44b00225f99691b48894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 17/29] fix: index check of h and set_h in Python

An invalid row or column read or wrote beyond the data, because the assertions
are not active in the module.
---
 python/src/common.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/python/src/common.h b/python/src/common.h
index c45544c..1b02ae9 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -17,6 +17,14 @@ namespace hj = hyperjet;
 namespace py = pybind11;
 using namespace py::literals;
 
+inline void check_index(const hj::index i, const hj::index size)
+{
+    if (i < 0 || i >= size)
+    {
+        throw py::index_error("Index out of range");
+    }
+}
+
 template <typename T>
 auto bind(py::module &m, const std::string &name)
 {
@@ -96,8 +104,22 @@ auto bind(py::module &m, const std::string &name)
     if constexpr (T::order() == 2)
     {
         cls
-            .def("h", py::overload_cast<hj::index, hj::index>(&T::h), "row"_a, "col"_a)
-            .def("set_h", py::overload_cast<hj::index, hj::index, typename T::Scalar>(&T::set_h), "row"_a, "col"_a, "value"_a)
+            .def(
+                "h", [](const T &self, const hj::index row, const hj::index col)
+                {
+                    check_index(row, self.size());
+                    check_index(col, self.size());
+                    return self.h(row, col);
+                },
+                "row"_a, "col"_a)
+            .def(
+                "set_h", [](T &self, const hj::index row, const hj::index col, const typename T::Scalar value)
+                {
+                    check_index(row, self.size());
+                    check_index(col, self.size());
+                    self.set_h(row, col, value);
+                },
+                "row"_a, "col"_a, "value"_a)
             .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
-- 
2.43.0


From 2168bf5d2faa2addc506596008369b0396c355d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:07 +0000
Subject: [PATCH 18/29] fix: hyperjet.f of arrays that start with an integer

The type of the first element decided on the type of the result, so that the
values after a leading integer were truncated. An empty array raised.
---
 python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/main.cpp b/python/src/main.cpp
index 9eb058d..951fe24 100644
--- a/python/src/main.cpp
+++ b/python/src/main.cpp
@@ -62,7 +62,7 @@ PYBIND11_MODULE(hyperjet, m)
         auto global = py::dict();
         global["np"] = numpy;
 
-        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v)", global);
+        m.attr("f") = py::eval("np.vectorize(lambda v: v.f if hasattr(v, 'f') else v, otypes=[float])", global);
         m.attr("d") = py::eval("np.vectorize(lambda v: v.g if hasattr(v, 'g') else np.zeros((0)), signature='()->(n)')", global);
         m.attr("dd") = py::eval("np.vectorize(lambda v: v.hm() if hasattr(v, 'hm') else np.zeros((0, 0)), signature='()->(n,m)')", global);
 
-- 
2.43.0


From 0691ef5b00e675017db48a05984e7afdd3ed8aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:24 +0000
Subject: [PATCH 19/29] fix: Hessian access to first order numbers does not
 compile

Numbers of first order do not store a Hessian, so these accessors read and
wrote beyond their data.
---
 include/hyperjet/hyperjet.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 6e4329f..9e875bd 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -802,6 +802,8 @@ namespace hyperjet
 
         Scalar &h(const index i)
         {
+            static_assert(order() == 2);
+
             assert(0 <= i && i < size() * (size() + 1) / 2);
 
             return m_data[1 + size() + i];
@@ -809,6 +811,8 @@ namespace hyperjet
 
         Scalar h(const index i) const
         {
+            static_assert(order() == 2);
+
             assert(0 <= i && i < size() * (size() + 1) / 2);
 
             return m_data[1 + size() + i];
@@ -821,6 +825,8 @@ namespace hyperjet
 
         Scalar &h(const index i, const index j)
         {
+            static_assert(order() == 2);
+
             assert(0 <= i && i < size());
             assert(0 <= j && j < size());
 
@@ -836,6 +842,8 @@ namespace hyperjet
 
         Scalar h(const index i, const index j) const
         {
+            static_assert(order() == 2);
+
             assert(0 <= i && i < size());
             assert(0 <= j && j < size());
 
@@ -880,6 +888,8 @@ namespace hyperjet
 
         void hm(const std::string mode, Eigen::Ref<Matrix> out) const
         {
+            static_assert(order() == 2);
+
             index it = 0;
 
             for (index i = 0; i < size(); i++)
@@ -918,6 +928,8 @@ namespace hyperjet
 
         void set_hm(const Eigen::Ref<const Matrix> &value)
         {
+            static_assert(order() == 2);
+
             check_equal_size(size(), value.rows());
             check_equal_size(size(), value.cols());
 
-- 
2.43.0


From 74e0b9c9b8feb06f9d32eef0f5019e09fe0cfbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 20/29] fix: in-place product of second order numbers without
 variables

A reference to the element behind the end of the data was formed, which aborts
with a hardened standard library (_GLIBCXX_ASSERTIONS).
---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 9e875bd..c10ffa1 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1240,7 +1240,7 @@ namespace hyperjet
             if constexpr (order() == 1)
                 return *this;
 
-            auto *it = &m_data[1 + size()];
+            auto *it = ptr() + 1 + size();
 
             for (index i = 0; i < size(); i++)
             {
-- 
2.43.0


From f2e14f40e0ab0b2c375c3a027e827870adcf07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 21/29] fix: DDScalar in-place quotient with itself reads
 modified derivatives

---
 include/hyperjet/hyperjet.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index c10ffa1..294c0ed 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -1313,6 +1313,12 @@ namespace hyperjet
 
             check_equal_size(size(), b.size());
 
+            if (this == &b)
+            {
+                const Type copy = b;
+                return operator/=(copy);
+            }
+
             const Data a_m_data = m_data;
 
             const auto f = a_m_data[0] / b.f();
-- 
2.43.0


From e9cf299755a403931df37b2246e55d6fc645dc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:12 +0000
Subject: [PATCH 22/29] fix: size check of set_adata

---
 include/hyperjet/hyperjet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 294c0ed..ee53d48 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -951,6 +951,8 @@ namespace hyperjet
 
         void set_adata(const Eigen::Ref<DataVector> value)
         {
+            check_equal_size(length(m_data), value.size());
+
             Eigen::Map<DataVector>(ptr(), length(m_data)) = value;
         }
 
-- 
2.43.0


From 2600e6d0a54e9700496e4df409f37936428fcdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 23/29] fix: pickling with protocol 0 or 1 aborts the
 interpreter

---
 python/src/bind_sscalar.cpp | 1 +
 python/src/common.h         | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/python/src/bind_sscalar.cpp b/python/src/bind_sscalar.cpp
index 1094099..cb3f1f1 100644
--- a/python/src/bind_sscalar.cpp
+++ b/python/src/bind_sscalar.cpp
@@ -27,6 +27,7 @@ void bind_sscalar(pybind11::module &m)
         .def("__abs__", &T::abs)
         .def("__len__", &T::size)
         .def("__pow__", &T::pow)
+        .def("__reduce_ex__", &reduce_ex, "protocol"_a)
         .def("__repr__", &T::to_string)
         .def("abs", &T::abs)
         .def("d", &T::d, "variable"_a)
diff --git a/python/src/common.h b/python/src/common.h
index 1b02ae9..ece9424 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -25,6 +25,13 @@ inline void check_index(const hj::index i, const hj::index size)
     }
 }
 
+// the protocols 0 and 1 would instantiate the internal base class of pybind11, which aborts the interpreter
+inline py::object reduce_ex(const py::object &self, const int protocol)
+{
+    const py::handle object(reinterpret_cast<PyObject *>(&PyBaseObject_Type));
+    return object.attr("__reduce_ex__")(self, protocol < 2 ? 2 : protocol);
+}
+
 template <typename T>
 auto bind(py::module &m, const std::string &name)
 {
@@ -236,6 +243,7 @@ auto bind(py::module &m, const std::string &name)
                     return T(data);
                 }
             }))
+        .def("__reduce_ex__", &reduce_ex, "protocol"_a)
         .def("__copy__", [](const T &self)
              { return self; })
         .def(
-- 
2.43.0


From ef18c04301a7ccb92bd727f7f782050d272b1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 24/29] fix: the Hessian of a fixed number with one variable is
 a vector and dd raises

---
 python/src/common.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/common.h b/python/src/common.h
index ece9424..77de742 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -127,7 +127,10 @@ auto bind(py::module &m, const std::string &name)
                     self.set_h(row, col, value);
                 },
                 "row"_a, "col"_a, "value"_a)
-            .def("hm", py::overload_cast<std::string>(&T::hm, py::const_), "mode"_a = "full")
+            .def(
+                "hm", [](const T &self, const std::string &mode) -> Eigen::Matrix<typename T::Scalar, Eigen::Dynamic, Eigen::Dynamic>
+                { return self.hm(mode); },
+                "mode"_a = "full")
             .def("set_hm", &T::set_hm, "value"_a);
     }
 
-- 
2.43.0


From 4ede178c15a647e32a3b1deb054212807b62c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:01 +0000
Subject: [PATCH 25/29] fix: sizes for which the data length overflows

---
 include/hyperjet/hyperjet.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index ee53d48..9d43c2f 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -5,6 +5,7 @@
 #include <cmath>            // acos, acosh, asin, asinh, atan, atanh, atan2, cbrt, cos, cosh, exp, hypot, log, log2, log10, pow, sin, sinh, sqrt, tan, tanh
 #include <cstddef>          // ptrdiff_t
 #include <initializer_list> // initializer_list
+#include <limits>           // numeric_limits
 #include <ostream>          // ostream
 #include <sstream>          // stringstream
 #include <string>           // string
@@ -83,6 +84,12 @@ namespace hyperjet
         }
 
     private:
+        // largest size for which the computation of the data length does not overflow
+        HYPERJET_INLINE static constexpr index max_size()
+        {
+            return TOrder == 1 ? (std::numeric_limits<index>::max)() - 1 : index(1) << (std::numeric_limits<index>::digits / 2);
+        }
+
         HYPERJET_INLINE static void check_valid_size(const index size)
         {
             if constexpr (TSize == Dynamic)
@@ -93,10 +100,15 @@ namespace hyperjet
                     {
                         throw std::runtime_error("Negative size");
                     }
+                    if (size > max_size())
+                    {
+                        throw std::runtime_error("Size is too large");
+                    }
                 }
                 else
                 {
                     assert(size >= 0 && "Negative size");
+                    assert(size <= max_size() && "Size is too large");
                 }
             }
             else
-- 
2.43.0


From f855e103ea77df628627614e57ae1d9d9ca3d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 26/29] fix: __reduce__ aborts the interpreter

---
 python/src/bind_sscalar.cpp |  3 ++-
 python/src/common.h         | 12 +++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/src/bind_sscalar.cpp b/python/src/bind_sscalar.cpp
index cb3f1f1..3358a7b 100644
--- a/python/src/bind_sscalar.cpp
+++ b/python/src/bind_sscalar.cpp
@@ -27,7 +27,8 @@ void bind_sscalar(pybind11::module &m)
         .def("__abs__", &T::abs)
         .def("__len__", &T::size)
         .def("__pow__", &T::pow)
-        .def("__reduce_ex__", &reduce_ex, "protocol"_a)
+        .def("__reduce__", [](const T &) -> py::object
+             { throw py::type_error("cannot pickle 'SScalar' object"); })
         .def("__repr__", &T::to_string)
         .def("abs", &T::abs)
         .def("d", &T::d, "variable"_a)
diff --git a/python/src/common.h b/python/src/common.h
index 77de742..25cfeec 100644
--- a/python/src/common.h
+++ b/python/src/common.h
@@ -25,11 +25,13 @@ inline void check_index(const hj::index i, const hj::index size)
     }
 }
 
-// the protocols 0 and 1 would instantiate the internal base class of pybind11, which aborts the interpreter
-inline py::object reduce_ex(const py::object &self, const int protocol)
+// the default implementation for the protocols 0 and 1 instantiates the internal base class of pybind11, which
+// aborts the interpreter
+inline py::tuple reduce(const py::object &self)
 {
-    const py::handle object(reinterpret_cast<PyObject *>(&PyBaseObject_Type));
-    return object.attr("__reduce_ex__")(self, protocol < 2 ? 2 : protocol);
+    const auto create = py::module::import("copyreg").attr("__newobj__");
+
+    return py::make_tuple(create, py::make_tuple(py::type::of(self)), self.attr("__getstate__")());
 }
 
 template <typename T>
@@ -246,7 +248,7 @@ auto bind(py::module &m, const std::string &name)
                     return T(data);
                 }
             }))
-        .def("__reduce_ex__", &reduce_ex, "protocol"_a)
+        .def("__reduce__", &reduce)
         .def("__copy__", [](const T &self)
              { return self; })
         .def(
-- 
2.43.0


From df583a0ca66d372cd1e68a17fc0047802b5b80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 27/29] fix: assignment of dynamic numbers when memory runs out

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 9d43c2f..690f97b 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -55,8 +55,8 @@ namespace hyperjet
         using Scalar = TScalar;
         using Data = typename std::conditional<TSize == Dynamic, DynamicStorage, StaticStorage>::type;
 
-        index m_size;
         Data m_data;
+        index m_size;
 
     public:
         HYPERJET_INLINE static index data_length_from_size(const index size)
-- 
2.43.0


From 0c958064717de2856713e6c4df9aeeb106ae1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:07 +0000
Subject: [PATCH 28/29] fix: reject negative data lengths without converting
 NaN to an index

---
 include/hyperjet/hyperjet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 690f97b..10e676f 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -66,7 +66,7 @@ namespace hyperjet
 
         HYPERJET_INLINE static index size_from_data_length(const index n)
         {
-            const index s = TOrder == 1 ? n - 1 : static_cast<index>(std::sqrt(1 + 8 * n) - 3) / 2;
+            const index s = TOrder == 1 ? n - 1 : n < 1 ? -1 : static_cast<index>(std::sqrt(1 + 8 * n) - 3) / 2;
 
             if constexpr (throw_exceptions())
             {
-- 
2.43.0


From 03a52152935e539ed5736d3cef57c22853e26487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:04 +0000
Subject: [PATCH 29/29] fix: reject data that does not fit the size in the
 constructor of dynamic numbers

---
 include/hyperjet/hyperjet.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hyperjet/hyperjet.h b/include/hyperjet/hyperjet.h
index 10e676f..5a04d8a 100644
--- a/include/hyperjet/hyperjet.h
+++ b/include/hyperjet/hyperjet.h
@@ -398,6 +398,9 @@ namespace hyperjet
             static_assert(0 < order() && order() <= 2);
 
             static_assert(is_dynamic());
+
+            check_valid_size(size);
+            check_equal_size(data_length_from_size(size), length(data));
         }
 
         DDScalar(std::initializer_list<TScalar> data) : m_size(size_from_data_length(length(data)))
-- 
2.43.0

