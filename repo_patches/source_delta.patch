From 67c46692b69752025c6a77894f212b912ad49321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:51 +0000
Subject: [PATCH 01/76] fix: softmax loss regularises with the sum of squared
 weights, as its gradient does

---
 src/core/loss/softmax_loss.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/loss/softmax_loss.hpp b/src/core/loss/softmax_loss.hpp
index 1e079ab..ba07838 100644
--- a/src/core/loss/softmax_loss.hpp
+++ b/src/core/loss/softmax_loss.hpp
@@ -56,7 +56,7 @@ public:
 
         loss /= static_cast<double>(num_samples);
 
-        double reg = (W.transpose() * W).array().sum() / 
+        double reg = W.array().square().sum() / 
             (static_cast<double>(num_samples) * 2.0);
         
         return loss + reg * lambda_;
-- 
2.43.0


From 47c32d0d0b4b6da04eb9091a3163f8bfbbe00d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 02/76] fix: hinge loss gradient accumulates from zero instead
 of uninitialised memory

---
 src/core/loss/hinge_loss.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/loss/hinge_loss.hpp b/src/core/loss/hinge_loss.hpp
index aea213a..649a069 100644
--- a/src/core/loss/hinge_loss.hpp
+++ b/src/core/loss/hinge_loss.hpp
@@ -63,6 +63,7 @@ public:
         
         std::size_t num_samples = X.rows(), num_features = X.cols();
         VecType grad(num_features);
+        grad.setZero();
 
         VecType X_w(num_samples);
         X_w = X * W;
-- 
2.43.0


From e67a37ef87622200ef178e4e4c8d9bf051205044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 03/76] fix: Huber loss compiles and applies the Huber function
 to each residual, with the matching gradient

---
 src/core/loss/huber_loss.hpp | 37 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/core/loss/huber_loss.hpp b/src/core/loss/huber_loss.hpp
index 8527b9c..4ce78dc 100644
--- a/src/core/loss/huber_loss.hpp
+++ b/src/core/loss/huber_loss.hpp
@@ -39,17 +39,17 @@ public:
         X_w = X * W; 
 
         double loss = 0.0;
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            loss = 0.5 * condition;
-        }
-        else {
-            auto tmp = (y - X_w).array() - 0.5 * delta_;
-            auto norm = tmp.array().abs().colwise().sum().maxCoeff();
-            loss = delta_ * static_cast<double>(norm);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            double residual = std::abs(static_cast<double>(y(i, 0) - X_w(i, 0)));
+            if (residual <= delta_) {
+                loss += 0.5 * residual * residual;
+            }
+            else {
+                loss += delta_ * (residual - 0.5 * delta_);
+            }
         }
 
-        // loss = loss / static_cast<double>(num_samples);
+        loss = loss / static_cast<double>(num_samples);
         double reg = static_cast<double>(W.transpose() * W) / 
             (static_cast<double>(num_samples) * 2.0);
 
@@ -72,17 +72,16 @@ public:
         VecType X_w(num_samples);
         X_w = X * W;
 
-        double condition = (y - X_w).array().norm();
-        if (condition <= delta_) {
-            auto tmp = X.transpose() * (X_w - y);
-            grad = tmp.array() / num_samples;
-        }
-        else {
-            // grad = self.delta *np.dot(X.T, np.sign(np.dot(X,self.w) - y))/ y.shape[0]
-            auto tmp = X.transpose() * (X_w - y).array().sign();
-            grad = tmp.array() * (delta_ / num_samples);
+        VecType residual = X_w - y;
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            if (residual(i, 0) > delta_) {
+                residual(i, 0) = delta_;
+            }
+            else if (residual(i, 0) < -delta_) {
+                residual(i, 0) = -delta_;
+            }
         }
-        
+        grad = (X.transpose() * residual) / static_cast<DataType>(num_samples);
 
         VecType reg(num_features);
         reg = W.array() / static_cast<DataType>(num_samples);
-- 
2.43.0


From 5950509e089730d458e4ae0969b374b706341c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 04/76] fix: matrix argsort starts every row or column from the
 identity permutation 0..n-1

---
 src/core/common.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 735fe50..4e418d3 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -218,11 +218,11 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
 
     if (axis == 1) {
         idxvec.resize(1, ncols);
-        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols).transpose();
+        idxvec = IdxVecType::LinSpaced(ncols, 0, ncols - 1).transpose();
     }
     else if (axis == 0) {
         idxvec.resize(nrows, 1);
-        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows);
+        idxvec = IdxVecType::LinSpaced(nrows, 0, nrows - 1);
     }
     else {
         std::ostringstream err_msg;
@@ -231,11 +231,13 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
         throw std::invalid_argument(err_msg.str());
     }
 
+    const IdxMatType identity = idxvec;
     std::size_t idx = 0;
     
     if (!reverse) {
         if (axis == 1) {
             for (auto row : copy_x.rowwise()) {
+                idxvec = identity;
                 std::stable_sort(idxvec.data(), idxvec.data() + idxvec.size(), 
                     [&row](std::size_t i, std::size_t j) -> bool {
                         return row(i) < row(j);
@@ -247,6 +249,7 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
         }
         else if (axis == 0) {
             for (auto col : copy_x.colwise()) {
+                idxvec = identity;
                 std::stable_sort(idxvec.data(), idxvec.data() + idxvec.size(), 
                     [&col](std::size_t i, std::size_t j) -> bool {
                         return col(i) < col(j);
@@ -260,6 +263,7 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
     else {
         if (axis == 1) {
             for (auto row : copy_x.rowwise()) {
+                idxvec = identity;
                 std::stable_sort(idxvec.data(), idxvec.data() + idxvec.size(), 
                     [&row](std::size_t i, std::size_t j) -> bool {
                         return row(i) > row(j);
@@ -271,6 +275,7 @@ IdxMatType argsort(const MatType& x, int axis = 0, bool reverse = false) {
         }
         else if (axis == 0) {
             for (auto col : copy_x.colwise()) {
+                idxvec = identity;
                 std::stable_sort(idxvec.data(), idxvec.data() + idxvec.size(), 
                     [&col](std::size_t i, std::size_t j) -> bool {
                         return col(i) > col(j);
-- 
2.43.0


From 3fbee7146f5d6210782b46d0d170b83857776de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 05/76] fix: sortrows comparators return a value for equal rows

---
 src/core/common.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 4e418d3..08ad51e 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -743,6 +743,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] < v2[index];
             }
         }
+        return false;
     };
     const auto desc = [](const std::vector<DataType>& v1, const std::vector<DataType>& v2) {
         std::size_t index = 0;
@@ -754,6 +755,7 @@ std::vector<std::vector<DataType>> sortrows(
                 return v1[index] > v2[index];
             }
         }
+        return false;
     };
 
     if (!reverse) {
-- 
2.43.0


From 21e2a8538c80bfe21f486b63ca239673f7af5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 06/76] fix: 2d slice checks its row and column range against
 the data it reads

---
 src/core/common.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 08ad51e..6e161f5 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -849,14 +849,18 @@ std::vector<std::vector<DataType>> slice(const std::vector<std::vector<DataType>
     std::size_t start_col, 
     std::size_t end_col) {
     
-    if (end_row < start_row || end_row - start_row > x.size() - 1) {
+    if (end_row < start_row || end_row >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Row number error, start_row = " << start_row
                 << ", end_row = " << end_row << std::endl; 
         throw std::invalid_argument(err_msg.str());
     }
 
-    if (end_col - start_col < 0 || end_col - start_col > x.size() - 1) {
+    bool valid_cols = end_col >= start_col;
+    for (std::size_t i = start_row; i <= end_row; ++i) {
+        valid_cols = valid_cols && end_col < x[i].size();
+    }
+    if (!valid_cols) {
         std::ostringstream err_msg;
         err_msg << "Column number error, start_col = " << start_col
                 << ", end_col = " << end_col << std::endl; 
-- 
2.43.0


From 82a7b97a24d7630be506240599d32531ba499e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 07/76] fix: 1d slice copies the requested range instead of
 reading past the end

---
 src/core/common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 6e161f5..6572559 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -891,7 +891,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t start_index, 
     std::size_t end_index) {
 
-    if (end_index - start_index < 0 || end_index - start_index > x.size() - 1) {
+    if (end_index < start_index || end_index >= x.size()) {
         std::ostringstream err_msg;
         err_msg << "Index number error, start_index = " << start_index
                 << ", end_index = " << end_index << std::endl; 
@@ -901,7 +901,7 @@ std::vector<DataType> slice(const std::vector<DataType>& x,
     std::size_t num_rows = end_index - start_index + 1;
     std::vector<DataType> sub_vec;
     sub_vec.reserve(num_rows);
-    sub_vec = std::vector<int>(x.begin() + start_index, x.end() + end_index + 1);
+    sub_vec = std::vector<DataType>(x.begin() + start_index, x.begin() + end_index + 1);
 
     return sub_vec;
 };
-- 
2.43.0


From 49399aa8816917a486decc49bebe99c0bcd7fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 08/76] fix: vector argsort appends to its result instead of
 writing into an empty vector

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 6572559..9cccd04 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -826,7 +826,7 @@ const std::vector<std::size_t> argsort(const std::vector<DataType>& x, bool reve
     }
     
     for (int i = 0; i < combine.size(); ++i) {
-        indices[i] = combine[i].second;
+        indices.push_back(combine[i].second);
     }
 
     return indices;
-- 
2.43.0


From 16f1cac67093458307cce9b4162e11be4d1948d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 09/76] fix: is_equal does not read past the shorter vector

---
 src/core/common.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 9cccd04..0dc3074 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -709,6 +709,9 @@ std::vector<std::vector<DataType>> remove_duplicate_rows(
 */
 template<typename DataType>
 bool is_equal(const std::vector<DataType>& x, const std::vector<DataType>& y) {
+    if (x.size() != y.size()) {
+        return false;
+    }
     auto pair = std::mismatch(x.begin(), x.end(), y.begin());
     return (pair.first == x.end() && pair.second == y.end());
 };
-- 
2.43.0


From 07d1e2d1a84b83c5cfbd500aae458b552cd9341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 10/76] fix: axis and order helpers reject values outside their
 documented set

---
 src/core/common.hpp       | 12 ++++++++++++
 src/core/math/extmath.hpp |  3 +++
 src/core/math/linalg.hpp  |  3 +++
 src/core/math/ops.hpp     | 12 ++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 0dc3074..90380f5 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -100,6 +100,9 @@ MatType repeat(const MatType& x,
     else if (axis == 1) {
         retval = x.rowwise().replicate(repeats);
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return retval;
 };
 
@@ -922,6 +925,9 @@ MatType norm(const MatType& x, std::size_t axis, int ord) {
         else if (ord == Eigen::Infinity) {
             sq_norm = x.colwise().template lpNorm<Eigen::Infinity>();
         }        
+        else {
+            throw std::invalid_argument("Got an invalid order value.");
+        }
     }
     else if (axis == 1) {
         if (ord == 2) {
@@ -933,6 +939,12 @@ MatType norm(const MatType& x, std::size_t axis, int ord) {
         else if (ord == Eigen::Infinity) {
             sq_norm = x.rowwise().template lpNorm<Eigen::Infinity>();
         } 
+        else {
+            throw std::invalid_argument("Got an invalid order value.");
+        }
+    }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
     }
     return sq_norm;
 };
diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 624b341..cd6b987 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -250,6 +250,9 @@ MatType softmax(const MatType& x, int axis = 0) {
         c.resize(nrows, ncols);
         c.fill(maxval);
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     MatType exp_x = (x - c).array().exp();
 
     if (axis == 0) {
diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 22a4351..523a7e5 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -302,6 +302,9 @@ VecType logsumexp(const MatType& x, int axis){
         log_sum_exp(0, 0) = log_sum_exp_val;
         return log_sum_exp;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
diff --git a/src/core/math/ops.hpp b/src/core/math/ops.hpp
index 7aef730..1ee6c51 100644
--- a/src/core/math/ops.hpp
+++ b/src/core/math/ops.hpp
@@ -184,6 +184,9 @@ VecType median(const MatType& x, int axis = 0) {
         }
         return med;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
@@ -243,6 +246,9 @@ VecType norm2(const MatType& x, int axis = 0) {
     else if (axis == 1) {
         return x.rowwise().norm();
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
 };
 
 /**
@@ -278,6 +284,9 @@ MatType cumsum(const MatType& x, int axis = 0) {
         std::partial_sum(flatten_vec.begin(), flatten_vec.end(), sum.begin());
         return sum;
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return cum_sum;
 };
 
@@ -337,6 +346,9 @@ std::tuple<MatType, MatType> mode(const MatType& x, int axis = 0) {
             count(i, 0) = max_freqency;
         }
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     return std::make_tuple(mode, count);
 };
 
-- 
2.43.0


From 111a67f588378a50e5fce127e20b65ffdb20826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 11/76] fix: shuffling along an axis compares the axis instead
 of assigning it

---
 src/core/math/shuffle.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/math/shuffle.hpp b/src/core/math/shuffle.hpp
index 4c9bfd3..87b63dd 100644
--- a/src/core/math/shuffle.hpp
+++ b/src/core/math/shuffle.hpp
@@ -21,9 +21,12 @@ void shuffle_data(const MatType& X,
     if (axis == 0) {
         permut_size = X.cols();
     } 
-    else if (axis = 1) {
+    else if (axis == 1) {
         permut_size = X.rows();
     }
+    else {
+        throw std::invalid_argument("Got an invalid axis value.");
+    }
     // define a index permutation
     Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic> index_permut(permut_size);
     index_permut.setIdentity();
@@ -34,12 +37,11 @@ void shuffle_data(const MatType& X,
         index_permut.indices().data() + index_permut.indices().size(), 
         std::default_random_engine(seed)
     );
-    std::cout << index_permut.indices() << std::endl;
     if (axis == 0) {
         // permute columns
         shuffled_X = X * index_permut;
     } 
-    else if (axis = 1) {
+    else if (axis == 1) {
         // permute rows
         shuffled_X = index_permut * X;
     } 
-- 
2.43.0


From c8e462c7e06ff8e69dc88b1b11c828c6315c0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 12/76] fix: mean absolute error averages absolute, not
 squared, errors

---
 src/core/metric.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/metric.hpp b/src/core/metric.hpp
index 66f13a9..cee06b4 100644
--- a/src/core/metric.hpp
+++ b/src/core/metric.hpp
@@ -18,8 +18,8 @@ double mean_absolute_error(const VecType& y_true,
     const VecType& y_pred) {
     
     std::size_t num_samples = y_true.rows();
-    double sum_abs2 = (y_true - y_pred).array().abs2().sum();
-    return sum_abs2 / static_cast<double>(num_samples);
+    double sum_abs = (y_true - y_pred).array().abs().sum();
+    return sum_abs / static_cast<double>(num_samples);
 };
 
 /**
-- 
2.43.0


From 0718d05f6c7f163b65cf0184ffdb4855facbd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 13/76] fix: vector distances reject vectors of different
 length instead of reading past the end

---
 src/core/metric.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/metric.hpp b/src/core/metric.hpp
index cee06b4..cd1c1c4 100644
--- a/src/core/metric.hpp
+++ b/src/core/metric.hpp
@@ -49,6 +49,9 @@ double explained_variance_score(const VecType& y_true,
 */
 template <typename DataType>
 double euclidean_distance(const std::vector<DataType>& a, const std::vector<DataType>& b) {
+    if (a.size() != b.size()) {
+        throw std::invalid_argument("Input vectors should have the same size.");
+    }
     std::vector<DataType> aux;
     std::transform(a.begin(), a.end(), b.begin(), std::back_inserter(aux),
                    [](DataType x1, DataType x2) { return std::pow((x1 - x2), 2); });
@@ -61,6 +64,9 @@ double euclidean_distance(const std::vector<DataType>& a, const std::vector<Data
 */
 template <typename DataType>
 double manhattan_distance(const std::vector<DataType>& a, const std::vector<DataType>& b) {
+    if (a.size() != b.size()) {
+        throw std::invalid_argument("Input vectors should have the same size.");
+    }
     std::vector<DataType> aux;
     std::transform(a.begin(), a.end(), b.begin(), std::back_inserter(aux),
                    [](DataType x1, DataType x2) { return std::abs(x1 - x2); });
-- 
2.43.0


From 65ec00b6b34bfc3ff98bb8a7b57893ccd432666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 14/76] fix: entropy and gini declare their two map iterators
 separately so that they compile

---
 src/core/math/extmath.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index cd6b987..48b226f 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -129,7 +129,9 @@ double entropy(const VecType& x,
         w_count_map[x(i)].push_back(w(i));
     }
 
-    for (auto x_count = x_count_map.begin(), w_count = w_count_map.begin();
+    auto x_count = x_count_map.begin();
+    auto w_count = w_count_map.begin();
+    for (;
         x_count != x_count_map.end(), w_count != w_count_map.end(); 
         ++x_count, ++w_count) {
         
@@ -182,7 +184,9 @@ double gini(const VecType& x,
         w_count_map[x(i)].push_back(w(i));
     }
 
-    for (auto x_count = x_count_map.begin(), w_count = w_count_map.begin();
+    auto x_count = x_count_map.begin();
+    auto w_count = w_count_map.begin();
+    for (;
         x_count != x_count_map.end(), w_count != w_count_map.end(); 
         ++x_count, ++w_count) {
         
-- 
2.43.0


From 2eb24a624802e7cb88cb938951437f8d2f2f1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 15/76] fix: eig takes the real part of the complex factors so
 that it compiles

---
 src/core/math/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 523a7e5..cfde66e 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -359,8 +359,8 @@ std::tuple<MatType, MatType> eig(const MatType& x) {
     }
 
     MatType vals, vecs;
-    vals = eigs.eigenvalues().template cast<DataType>();
-    vecs = eigs.eigenvectors();
+    vals = eigs.eigenvalues().real().template cast<DataType>();
+    vecs = eigs.eigenvectors().real();
 
     return std::make_tuple(vals, vecs);
 }
-- 
2.43.0


From 804e21383e711c275262a705a8d6accdb7acbd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 16/76] fix: exact_svd decomposes in the element type of its
 argument

---
 src/core/math/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index cfde66e..991a9d7 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -108,13 +108,13 @@ std::tuple<MatType, VecType, MatType> exact_svd(const MatType& x,
     // For small matrice (<16), it is thus preferable to directly use JacobiSVD. 
     // For larger matrice, BDCSVD
     if (num_features < 16) {
-        Eigen::JacobiSVD<Eigen::MatrixXd> svd(x, options);
+        Eigen::JacobiSVD<MatType> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
     }
     else {
-        Eigen::BDCSVD<Eigen::MatrixXd> svd(x, options);
+        Eigen::BDCSVD<MatType> svd(x, options);
         U = svd.matrixU();
         s = svd.singularValues();
         V = svd.matrixV();
-- 
2.43.0


From 5ec05402a352ef0549d0b89f3b497506bb96de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 17/76] fix: randomized_svd takes the thin factors of the
 projected matrix, so that signs pair up for any shape

---
 src/core/math/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index 991a9d7..de85007 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -193,7 +193,7 @@ std::tuple<MatType, VecType, MatType> randomized_svd(const MatType& X,
     // compute the SVD on the thin matrix: (k + p) wide
     MatType Uhat, Vt;
     VecType s;
-    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, true);
+    std::tie(Uhat, s, Vt) = math::exact_svd<MatType, VecType>(B, false);
     Vt = Vt.transpose().eval();
     B.resize(0, 0);
 
-- 
2.43.0


From 1e597dd9c658b9fb18792173640c84bfe9d34135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 18/76] fix: string conversion of an empty string does not
 return an uninitialised number

---
 src/core/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 90380f5..4a9dc49 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -482,7 +482,7 @@ MatType clip(const MatType& x, DataType max, DataType min) {
 template <class DataType>  
 DataType string_to_integer(const std::string& s){  
     std::istringstream iss(s);  
-    DataType num;  
+    DataType num = DataType();  
     iss >> num;  
     return num;      
 };
-- 
2.43.0


From 00932cb51790ae2650f661c88c3f48d00792b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 19/76] fix: entropy and gini normalise the class frequencies
 by the total sample weight

---
 src/core/math/extmath.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index 48b226f..eecddbc 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -121,6 +121,7 @@ double entropy(const VecType& x,
     }
 
     double ent = 0.0;
+    double w_total = static_cast<double>(w.sum());
     std::map<DataType, std::size_t> x_count_map;
     std::map<DataType, std::vector<DataType>> w_count_map;
 
@@ -143,7 +144,7 @@ double entropy(const VecType& x,
 
         double mean = sum / static_cast<double>(num_w_counts);
         double p_i = 1.0 * static_cast<double>(x_count->second) * 
-            mean / static_cast<double>(nrows);
+            mean / w_total;
 
         ent += (-p_i) * std::log2(p_i);
     }
@@ -176,6 +177,7 @@ double gini(const VecType& x,
         throw std::invalid_argument(err_msg.str());
     }
     double g = 0.0;
+    double w_total = static_cast<double>(w.sum());
     std::map<DataType, std::size_t> x_count_map;
     std::map<DataType, std::vector<DataType>> w_count_map;
 
@@ -198,7 +200,7 @@ double gini(const VecType& x,
 
         double mean = sum / static_cast<double>(num_w_counts);
         double p_i = 1.0 * static_cast<double>(x_count->second) * 
-            mean / static_cast<double>(nrows);
+            mean / w_total;
         g += std::pow(p_i, 2.0);
     }
     return 1.0 - g;
-- 
2.43.0


From 8054aa15cd2a67548e2fb65e0b1b325009f34225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 20/76] fix: a decision tree node gets both children or none,
 and no split leaves a side empty

---
 src/methods/tree/base.hpp                     |  4 +++
 src/methods/tree/decision_tree_classifier.hpp | 31 +++++++++----------
 src/methods/tree/decision_tree_regressor.hpp  | 31 +++++++++----------
 3 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/methods/tree/base.hpp b/src/methods/tree/base.hpp
index 33a9266..5727b11 100644
--- a/src/methods/tree/base.hpp
+++ b/src/methods/tree/base.hpp
@@ -63,6 +63,10 @@ protected:
                 std::vector<std::size_t> left_index, right_index;
                 std::tie(left_index, right_index) = data::divide_on_feature<MatType>(X, feature_index, threshold);
 
+                if (left_index.empty() || right_index.empty()) {
+                    continue;
+                }
+
                 VecType left_y, right_y;
                 left_y = y(left_index);
                 right_y = y(right_index);
diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 07790b6..4c94d42 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -178,11 +178,6 @@ protected:
             return ;
         }
 
-        cur_node->impurity = best_impurity;
-        cur_node->feature_index = best_feature_index;
-        cur_node->feature_value = best_feature_value;
-        // std::cout << "best_impurity = " << best_impurity << std::endl;
-
         VecType selected_x = X.col(best_feature_index);
         auto tmp1 = (selected_x.array() <= best_feature_value);
         VecType left_selected = tmp1.template cast<DataType>();
@@ -197,19 +192,23 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
-        if (left_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> left_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->left_child = left_child;
-            build_tree(left_X, left_y, left_child, cur_depth + 1);
+        // a node is split into two children or not at all
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
         }
 
-        if (right_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> right_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->right_child = right_child;
-            build_tree(right_X, right_y, right_child, cur_depth + 1);
-        }
+        cur_node->is_leaf = false;
+        cur_node->impurity = best_impurity;
+        cur_node->feature_index = best_feature_index;
+        cur_node->feature_value = best_feature_value;
+
+        std::shared_ptr<Node> left_child = std::make_shared<Node>();
+        cur_node->left_child = left_child;
+        build_tree(left_X, left_y, left_child, cur_depth + 1);
+
+        std::shared_ptr<Node> right_child = std::make_shared<Node>();
+        cur_node->right_child = right_child;
+        build_tree(right_X, right_y, right_child, cur_depth + 1);
 
     }
 
diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 8e54566..3797067 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -182,11 +182,6 @@ protected:
             return ;
         }
 
-        cur_node->impurity = best_impurity;
-        cur_node->feature_index = best_feature_index;
-        cur_node->feature_value = best_feature_value;
-        // std::cout << "best_impurity = " << best_impurity << std::endl;
-
         VecType selected_x = X.col(best_feature_index);
         auto tmp1 = (selected_x.array() <= best_feature_value);
         VecType left_selected = tmp1.template cast<DataType>();
@@ -202,19 +197,23 @@ protected:
         MatType right_X = X(right_selected_index, Eigen::all);
         VecType right_y = y(right_selected_index);
 
-        if (left_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> left_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->left_child = left_child;
-            build_tree(left_X, left_y, left_child, cur_depth + 1);
+        // a node is split into two children or not at all
+        if (left_X.rows() < min_samples_leaf_ || right_X.rows() < min_samples_leaf_) {
+            return ;
         }
 
-        if (right_X.rows() >= min_samples_leaf_) {
-            std::shared_ptr<Node> right_child = std::make_shared<Node>();
-            cur_node->is_leaf = false;
-            cur_node->right_child = right_child;
-            build_tree(right_X, right_y, right_child, cur_depth + 1);
-        }
+        cur_node->is_leaf = false;
+        cur_node->impurity = best_impurity;
+        cur_node->feature_index = best_feature_index;
+        cur_node->feature_value = best_feature_value;
+
+        std::shared_ptr<Node> left_child = std::make_shared<Node>();
+        cur_node->left_child = left_child;
+        build_tree(left_X, left_y, left_child, cur_depth + 1);
+
+        std::shared_ptr<Node> right_child = std::make_shared<Node>();
+        cur_node->right_child = right_child;
+        build_tree(right_X, right_y, right_child, cur_depth + 1);
     }
 
 
-- 
2.43.0


From 1b4eeb7dfaee1ec6edeb6189ff5a451e682aa40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 21/76] fix: the gini criterion scores a split by its impurity
 decrease, as the entropy criterion does

---
 src/methods/tree/decision_tree_classifier.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index 4c94d42..cc1f29d 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -89,11 +89,12 @@ protected:
 
         double impurity = 0.0;
         if (criterion_ == "gini") {
+            double empirical_gini = math::gini<VecType>(y);
             double left_gini = math::gini<VecType>(left_y);
             double right_gini = math::gini<VecType>(right_y);
             double g = static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * left_gini +
                 static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * right_gini;
-            impurity = 1.0 - g;
+            impurity = empirical_gini - g;
         }
         else if (criterion_ == "entropy") {
             double empirical_ent = math::entropy<VecType>(y);
-- 
2.43.0


From 290f47b8b36f7a55c2d41b0178745f5d402259de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 22/76] fix: the squared error criterion weights the child
 variances by their share of the samples

---
 src/methods/tree/decision_tree_regressor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 3797067..5db76bb 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -87,8 +87,8 @@ protected:
             auto right_var = math::var<MatType>(right_y, -1);
 
             double mse = static_cast<double>(total_var.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_var.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_var.value());
+                static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * static_cast<double>(left_var.value()) -
+                    static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * static_cast<double>(right_var.value());
             
             impurity = mse;
         }
-- 
2.43.0


From 2a4994beafc4dcc487b2d3a90880e958375c0a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 23/76] fix: the absolute error criterion averages absolute
 deviations from the medians

---
 src/methods/tree/decision_tree_regressor.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 5db76bb..03a1180 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -98,17 +98,17 @@ protected:
             auto left_median = math::median<MatType, VecType>(left_y, -1);
             auto right_median = math::median<MatType, VecType>(right_y, -1);
 
-            VecType y_bar = y.array() - total_median.array();
-            VecType left_y_bar = left_y.array() - left_median.array();
-            VecType right_y_bar = right_y.array() - right_median.array();
+            VecType y_bar = (y.array() - total_median.value()).abs();
+            VecType left_y_bar = (left_y.array() - left_median.value()).abs();
+            VecType right_y_bar = (right_y.array() - right_median.value()).abs();
 
-            auto y_bar_sum = math::sum<MatType>(y_bar, -1);
-            auto left_y_bar_sum = math::sum<MatType>(left_y_bar, -1);
-            auto right_y_bar_sum = math::sum<MatType>(right_y_bar, -1);
+            auto y_bar_mean = math::mean<MatType>(y_bar, -1);
+            auto left_y_bar_mean = math::mean<MatType>(left_y_bar, -1);
+            auto right_y_bar_mean = math::mean<MatType>(right_y_bar, -1);
 
-            double mae = static_cast<double>(y_bar_sum.value()) - 
-                static_cast<double>(left_num_samples) * static_cast<double>(left_y_bar_sum.value()) -
-                    static_cast<double>(right_num_samples) * static_cast<double>(right_y_bar_sum.value());
+            double mae = static_cast<double>(y_bar_mean.value()) - 
+                static_cast<double>(left_num_samples) / static_cast<double>(num_samples) * static_cast<double>(left_y_bar_mean.value()) -
+                    static_cast<double>(right_num_samples) / static_cast<double>(num_samples) * static_cast<double>(right_y_bar_mean.value());
 
             impurity = mae;
         }
-- 
2.43.0


From 9612f7047c0a79b27ce7a3a9975f1dba8dc2d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 24/76] fix: the regression tree stops on the standard
 deviation of the node, not on the root of its norm

---
 src/methods/tree/decision_tree_regressor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index 03a1180..c8a3e3b 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -130,7 +130,7 @@ protected:
         VecType y_centered = y.array() - y_bar.value();
 
         double stdev_error = std::sqrt(
-            static_cast<double>(y_centered.norm()) / static_cast<double>(num_samples)
+            static_cast<double>(y_centered.squaredNorm()) / static_cast<double>(num_samples)
         );
 
         return std::make_tuple(y_bar.value(), stdev_error); 
-- 
2.43.0


From 3ee81db90e7ea8009f493a28fa185e3d86d8e34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 25/76] fix: refitting a decision tree classifier forgets the
 labels of the previous data

---
 src/methods/tree/decision_tree_classifier.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index cc1f29d..f136cd9 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -263,6 +263,7 @@ public:
         const VecType& y) {
         
         num_classes_ = 0;
+        label_count_.clear();
         std::size_t num_samples = X.rows();
         for (std::size_t i = 0; i < num_samples; ++i) {
             label_count_[y(i)]++;
-- 
2.43.0


From 75984ed930da8d7e6906e422d3043b65622bb5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:46 +0000
Subject: [PATCH 26/76] fix: the decision tree classifier predicts class
 labels, not class positions

---
 src/methods/tree/decision_tree_classifier.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index f136cd9..a9067a8 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -301,9 +301,14 @@ public:
         auto y_pred_index = common::argmax<MatType, VecType, IdxVecType>(log_prob, 1);
         VecType y_pred_value(num_samples);
         
+        std::vector<DataType> classes;
+        for (auto& label : label_count_) {
+            classes.push_back(label.first);
+        }
+
         std::size_t i = 0;
         for (auto& index : y_pred_index) {
-            y_pred_value(i) = static_cast<DataType>(index);
+            y_pred_value(i) = classes[static_cast<std::size_t>(index)];
             i++;
         }
         return y_pred_value;
-- 
2.43.0


From 3a840f5c0922a52075e1247c127b21c04205a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:31 +0000
Subject: [PATCH 27/76] fix: lu returns factors whose product P * L * U is its
 argument

---
 src/core/math/linalg.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index de85007..c5aae9a 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -25,19 +25,24 @@ std::tuple<MatType, MatType, MatType> lu(const MatType& x,
 
     std::size_t nrows = x.rows(), ncols = x.cols();
     std::size_t min_size = std::min(nrows, ncols);
-    Eigen::FullPivLU<MatType> lu_decomposition(x);
+    // row pivoting only, so that x = P * L * U; zero padding to a square matrix 
+    // changes neither the pivots nor the leading parts of the factors
+    std::size_t max_size = std::max(nrows, ncols);
+    MatType square_x = MatType::Zero(max_size, max_size);
+    square_x.topLeftCorner(nrows, ncols) = x;
+    Eigen::PartialPivLU<MatType> lu_decomposition(square_x);
 
     MatType lu_m = lu_decomposition.matrixLU();
     // L is (M, min(M, N))
     MatType L = lu_m.template triangularView<Eigen::UnitLower>().toDenseMatrix();
-    L = L.leftCols(min_size).eval();
+    L = L.topLeftCorner(nrows, min_size).eval();
 
     // U is (min(M, N), K)
     MatType U = lu_m.template triangularView<Eigen::Upper>();
-    U = U.topRows(min_size).eval();
+    U = U.topLeftCorner(min_size, ncols).eval();
 
-    MatType P = lu_decomposition.permutationP();
-    // MatType Q = lu_decomposition.permutationQ();
+    MatType P = lu_decomposition.permutationP().transpose();
+    P = P.topLeftCorner(nrows, nrows).eval();
     MatType Q;
     if (permute_l) {
         Q = (P * L);
-- 
2.43.0


From 9eaa567c79ec0bc79cdedba56531e4130d65519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 28/76] fix: lasso_regression.hpp has its own include guard, so
 that it can be used together with ridge regression

---
 src/methods/linear_model/lasso_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 5a4e6dc..48b4a41 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -1,5 +1,5 @@
-#ifndef METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
-#define METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP
+#ifndef METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
+#define METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP
 #include "../../prereqs.hpp"
 #include "../../core.hpp"
 #include "base.hpp"
@@ -96,4 +96,4 @@ public:
 } // namespace openml
 } // namespace regression
 
-#endif /*METHODS_LINEAR_MODEL_RIDGE_REGRESSION_HPP*/
+#endif /*METHODS_LINEAR_MODEL_LASSO_REGRESSION_HPP*/
-- 
2.43.0


From 8b3f567ce032698f841e65368dc9419ed54545c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 29/76] fix: lasso regression trains on the data with the
 intercept column

---
 src/methods/linear_model/lasso_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/lasso_regression.hpp b/src/methods/linear_model/lasso_regression.hpp
index 48b4a41..f991721 100644
--- a/src/methods/linear_model/lasso_regression.hpp
+++ b/src/methods/linear_model/lasso_regression.hpp
@@ -53,7 +53,7 @@ protected:
                 lambda_, 
                 shuffle_, 
                 verbose_);
-        scd.optimize(X, y);
+        scd.optimize(X_new, y_new);
         this->w_ = scd.get_coef();
     };
 
-- 
2.43.0


From 0f3af296bd94d8d1e3bff8991ff7d7f3ada04532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 30/76] fix: the perceptron trains on the data with the
 intercept column

---
 src/methods/linear_model/perceptron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index d83adcb..56f6941 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -76,7 +76,7 @@ protected:
                 tol_, 
                 shuffle_, 
                 verbose_);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();
     };
 
-- 
2.43.0


From 81271625a3098ad580d5000b7cbb0936deebf668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 31/76] fix: the perceptron trains with targets -1 and 1 so
 that positive scores mean class 1

---
 src/methods/linear_model/perceptron.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index 56f6941..e37e420 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -44,7 +44,9 @@ protected:
 
         std::size_t num_samples = X.rows(), num_features = X.cols();
         MatType X_new = X;
-        VecType y_new = y;
+        // the hinge loss expects the targets -1 and 1, predict returns 0 and 1
+        VecType y_new = (y.array() > static_cast<DataType>(0)).select(
+            VecType::Ones(num_samples), -VecType::Ones(num_samples));
         
         // if intercept term exists, append a colmun into X
         if (this->intercept_) {
-- 
2.43.0


From 13c02d3c2b07b80739da6da0badd354b0d003608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 32/76] fix: softmax regression trains on the data with the
 intercept column

---
 src/methods/linear_model/softmax_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a2f2a8e..a6bc1ab 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -74,7 +74,7 @@ protected:
                 shuffle_, 
                 verbose_, 
                 true);
-        sgd.optimize(X, y);
+        sgd.optimize(X_new, y_new);
         this->w_ = sgd.get_coef();    
     };
 
-- 
2.43.0


From 5e43c2b5e28667c9aa04d5f14d03b5bcfe9982a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 33/76] fix: softmax regression adds the intercept weights to
 the scores

---
 src/methods/linear_model/softmax_regression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a6bc1ab..18b9ca8 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -87,7 +87,7 @@ protected:
             auto xw = X * this->w_.topRows(num_features);
             // auto b = this->w_.bottomRows(1).colwise().replicate(num_samples);
             auto b = this->w_.bottomRows(1);
-            boundary = xw;
+            boundary = xw.rowwise() + b.row(0);
         }
         else {
             boundary = X * this->w_;
-- 
2.43.0


From ceb18c95266073ef8bef1e5b8efdc4f8d732ad8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 34/76] fix: softmax regression accepts any label values and
 predicts labels, not class positions

---
 src/methods/linear_model/softmax_regression.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index 18b9ca8..a0e721e 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -28,6 +28,7 @@ private:
     std::string penalty_;
 
     // MatType boundary_;
+    std::vector<DataType> classes_;
 
 protected:
         /**
@@ -51,6 +52,13 @@ protected:
 
         std::set<DataType> label_set{y_new.begin(), y_new.end()};
         std::size_t num_classes = label_set.size();
+
+        // the loss indexes the classes by their position in ascending label order
+        classes_.assign(label_set.begin(), label_set.end());
+        for (auto& value : y_new) {
+            value = static_cast<DataType>(std::distance(
+                label_set.begin(), label_set.find(value)));
+        }
         num_features = X_new.cols();
 
         MatType w(num_features, num_classes);
@@ -152,7 +160,10 @@ public:
         auto boundary = compute_decision_boundary(X);
         auto prob = math::softmax<MatType>(boundary, 1);
         auto tmp = common::argmax<MatType, VecType, IdxVecType>(prob, 1);
-        y_pred = tmp.template cast<DataType>();
+        y_pred.resize(tmp.rows());
+        for (std::size_t i = 0; i < tmp.rows(); ++i) {
+            y_pred(i) = classes_[static_cast<std::size_t>(tmp(i))];
+        }
         return y_pred;
     };
 
-- 
2.43.0


From 387506f16a16538941a18fa2e70833624040cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 35/76] fix: logistic regression predicts class 1 when its
 probability exceeds one half and reports it in column 1

---
 src/methods/linear_model/logistic_regression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 0ff23c2..171eda8 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -164,7 +164,7 @@ protected:
         y_pred = math::sigmoid(decision_boundary);
 
         MatType prob(num_samples, 2);
-        prob = common::hstack<MatType>(y_pred, ones - y_pred);
+        prob = common::hstack<MatType>(ones - y_pred, y_pred);
 
         return prob;
     }
@@ -274,10 +274,10 @@ public:
         y_pred = math::sigmoid(decision_boundary);
         for(auto& value: y_pred) {
             if (value > 0.5) {
-                value = 0;
+                value = 1;
             }
             else {
-                value = 1;
+                value = 0;
             }
         }
         return y_pred;
-- 
2.43.0


From b07db431d0110cb1e9b07b8428630f2e326f7df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:25 +0000
Subject: [PATCH 36/76] fix: every logistic regression constructor initialises
 all options

---
 .../linear_model/logistic_regression.hpp      | 38 +++++++++----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/methods/linear_model/logistic_regression.hpp b/src/methods/linear_model/logistic_regression.hpp
index 171eda8..4ddb4f5 100644
--- a/src/methods/linear_model/logistic_regression.hpp
+++ b/src/methods/linear_model/logistic_regression.hpp
@@ -14,25 +14,25 @@ private:
     using MatType = Eigen::Matrix<DataType, Eigen::Dynamic, Eigen::Dynamic>;
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
-    bool shuffle_;
-    bool verbose_;
-    double alpha_;
-    double lambda_;
-    double tol_;
-    double l1_ratio_;
-    double ftol_;
-    double wolfe_;
-    double delta_;
-    std::size_t num_iters_no_change_;
-    std::size_t max_linesearch_; 
-    std::size_t batch_size_;
-    std::size_t max_iter_;
-    std::size_t mem_size_;
-    std::size_t past_;
-    std::string solver_;
-    std::string penalty_;
-    std::string linesearch_policy_;
-    std::string linesearch_condition_;
+    bool shuffle_ = true;
+    bool verbose_ = true;
+    double alpha_ = 0.1;
+    double lambda_ = 0.0;
+    double tol_ = 0.0001;
+    double l1_ratio_ = 1.0;
+    double ftol_ = 1.0e-4;
+    double wolfe_ = 0.9;
+    double delta_ = 1.0e-6;
+    std::size_t num_iters_no_change_ = 5;
+    std::size_t max_linesearch_ = 40;
+    std::size_t batch_size_ = 16;
+    std::size_t max_iter_ = 2000;
+    std::size_t mem_size_ = 8;
+    std::size_t past_ = 3;
+    std::string solver_ = "sag";
+    std::string penalty_ = "None";
+    std::string linesearch_policy_ = "backtracking";
+    std::string linesearch_condition_ = "WOLFE";
 
 protected:
     /**
-- 
2.43.0


From 3c1db7feac128c10f24352fd865ea736bef881f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 37/76] fix: optimizers and line searches owned through their
 base class have virtual destructors

---
 src/core/optimizer/base.hpp                       | 2 +-
 src/core/optimizer/lbfgs/search_policies/base.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/optimizer/base.hpp b/src/core/optimizer/base.hpp
index 72456d6..5170d4b 100644
--- a/src/core/optimizer/base.hpp
+++ b/src/core/optimizer/base.hpp
@@ -88,7 +88,7 @@ public:
             shuffle_(shuffle),
             verbose_(verbose) {};
     
-    ~BaseOptimizer() {};
+    virtual ~BaseOptimizer() {};
 
     virtual void optimize(const MatType& X, 
         const VecType& y) = 0;
diff --git a/src/core/optimizer/lbfgs/search_policies/base.hpp b/src/core/optimizer/lbfgs/search_policies/base.hpp
index 3299e20..51ed83f 100644
--- a/src/core/optimizer/lbfgs/search_policies/base.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/base.hpp
@@ -31,7 +31,7 @@ public:
             loss_func_(loss_func), 
             linesearch_params_(linesearch_params) {};
 
-    ~BaseLineSearch() {};
+    virtual ~BaseLineSearch() {};
 
     virtual int search(VecType& x, 
         double& fx, 
-- 
2.43.0


From 4fe88b8749f47ed34e35fbbdb8a2c3cc81774e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 38/76] fix: every optimizer constructor initialises all
 options

---
 src/core/optimizer/base.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/optimizer/base.hpp b/src/core/optimizer/base.hpp
index 5170d4b..180bcba 100644
--- a/src/core/optimizer/base.hpp
+++ b/src/core/optimizer/base.hpp
@@ -26,13 +26,13 @@ protected:
     UpdatePolicyType w_update_;
     DecayPolicyType lr_decay_;
 
-    std::size_t max_iter_;
-    std::size_t batch_size_;
-    std::size_t num_iters_no_change_;
-    double tol_;
-    bool shuffle_;
-    bool verbose_;
-    bool multi_class_;
+    std::size_t max_iter_ = 2000;
+    std::size_t batch_size_ = 16;
+    std::size_t num_iters_no_change_ = 5;
+    double tol_ = 1e-5;
+    bool shuffle_ = true;
+    bool verbose_ = true;
+    bool multi_class_ = false;
 
     MatType x0_;
     MatType opt_x_;
@@ -86,7 +86,8 @@ public:
             loss_func_(loss_func),
             max_iter_(max_iter), 
             shuffle_(shuffle),
-            verbose_(verbose) {};
+            verbose_(verbose),
+            multi_class_(multi_class) {};
     
     virtual ~BaseOptimizer() {};
 
-- 
2.43.0


From ebde176a0f606c98737f078753a1c0e592a6d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 39/76] fix: lbfgs publishes the start point when it already is
 a minimiser

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 5d8a217..0ac5cd6 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -114,6 +114,7 @@ public:
         }
         if (gnorm / xnorm <= this->tol_) {
             std::cout << "ERROR: The initial variables already minimize the objective function" << std::endl;
+            this->opt_x_ = x;
             return ;
         }
 
-- 
2.43.0


From 2def1c642dd14825980782599feb319b9f848345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 40/76] fix: lbfgs with past = 0 skips the objective test
 instead of dividing by zero

---
 src/core/optimizer/lbfgs/lbfgs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/lbfgs/lbfgs.hpp b/src/core/optimizer/lbfgs/lbfgs.hpp
index 0ac5cd6..ea8f67c 100644
--- a/src/core/optimizer/lbfgs/lbfgs.hpp
+++ b/src/core/optimizer/lbfgs/lbfgs.hpp
@@ -162,7 +162,7 @@ public:
             // Convergence test -- objective function value
             // The criterion is given by the following formula:
             // |f(past_x) - f(x)| / max(1, |f(x)|) < delta.
-            if (past_ <= k) {
+            if (past_ != 0 && past_ <= k) {
                 rate = std::abs(pfx(k % past_) - fx) / std::max(std::abs(fx), 1.0);
                 if (rate < delta_) {
                     std::cout << "INFO: success to meet stopping criteria (ftol)." << std::endl;
-- 
2.43.0


From 0fa6f48536051c7956ee042de27f1167328916dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 41/76] fix: exponential decay lowers the learning rate instead
 of raising it

---
 src/core/optimizer/sgd/decay_policies/exponential_decay.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
index 767d0b4..c0f7cdc 100644
--- a/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
+++ b/src/core/optimizer/sgd/decay_policies/exponential_decay.hpp
@@ -29,7 +29,7 @@ public:
      * lr = base_lr * exp(-gamma * epoch)
     */
     double compute(std::size_t epoch) {
-        double lr = base_lr_ * std::exp(gamma_ * static_cast<double>(epoch));
+        double lr = base_lr_ * std::exp(-gamma_ * static_cast<double>(epoch));
         return lr;
     }
 
-- 
2.43.0


From 2d60655b0450ae01ccbb79f5c3a24294fd263de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 42/76] fix: momentum updates keep their velocity between steps

---
 .../sgd/update_policies/momentum_update.hpp         | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/momentum_update.hpp b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
index a33d9d2..a6a1502 100644
--- a/src/core/optimizer/sgd/update_policies/momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/momentum_update.hpp
@@ -13,6 +13,7 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     double mu_;
+    MatType v_;
 
 public:
     MomentumUpdate(const double mu): mu_(mu) {};
@@ -23,12 +24,14 @@ public:
     */
     const MatType update(const MatType& W, 
         const MatType& grad, 
-        const double lr) const{
+        const double lr) {
         std::size_t num_features = W.rows(), num_classes = W.cols();
-        MatType V(num_features, num_classes);
-        V.setZero();
-        V = V * mu_ + grad * lr;
-        MatType updated_W = W - V;
+        // the velocity carries over from one update to the next
+        if (v_.rows() != num_features || v_.cols() != num_classes) {
+            v_.setZero(num_features, num_classes);
+        }
+        v_ = v_ * static_cast<DataType>(mu_) + grad * static_cast<DataType>(lr);
+        MatType updated_W = W - v_;
         return updated_W;
     };
 
-- 
2.43.0


From 5ed385ad9981ddc7a802e4b729448acea2689221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 43/76] fix: Nesterov momentum compiles and keeps its velocity
 between steps

---
 .../nesterov_momentum_update.hpp              | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
index 7026a00..efc100d 100644
--- a/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
+++ b/src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp
@@ -13,6 +13,7 @@ private:
     using VecType = Eigen::Matrix<DataType, Eigen::Dynamic, 1>;
 
     DataType mu;
+    MatType v_;
 
 public:
     NesterovMomentumUpdate(const DataType mu_): mu(mu_) {};
@@ -21,17 +22,16 @@ public:
     /**
      * SGD with Nesterov Momentum optimization method
     */
-    const MatType update(const MatType& W, const MatType& grad, const double lr) const {
-        std::size_t nrows = W.rows();
-        MatType V(nrows);
-        V.setZero();
-        
-        MatType prev_V(nrows);
-        prev_V = V;
-
-        V = mu * V + static_cast<DataType>(lr) * grad;
-        V = V + mu * (V - prev_V);
-        MatType updated_W = W - V;
+    const MatType update(const MatType& W, const MatType& grad, const double lr) {
+        // the velocity carries over from one update to the next
+        if (v_.rows() != W.rows() || v_.cols() != W.cols()) {
+            v_.setZero(W.rows(), W.cols());
+        }
+
+        MatType prev_v = v_;
+        v_ = mu * v_ + static_cast<DataType>(lr) * grad;
+
+        MatType updated_W = W - (v_ + mu * (v_ - prev_v));
         return updated_W;
     };
 
-- 
2.43.0


From 341700b3e0ca4b426e79c0cea9ba5e4f77c682d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 44/76] fix: sag averages the stored gradients over the number
 of batches

---
 src/core/optimizer/sgd/sag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/optimizer/sgd/sag.hpp b/src/core/optimizer/sgd/sag.hpp
index 5c0e700..d295d5c 100644
--- a/src/core/optimizer/sgd/sag.hpp
+++ b/src/core/optimizer/sgd/sag.hpp
@@ -81,7 +81,7 @@ public:
                 grad = common::clip<MatType>(grad, this->MAX_DLOSS, this->MIN_DLOSS);
 
                 // update average gradient, then replace with new grad
-                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(this->batch_size_));
+                avg_grad.noalias() += ((grad - grad_history.col(j)) / static_cast<DataType>(num_batch));
                 grad_history.col(j) = grad;
 
                 // W = W - lr * grad; 
-- 
2.43.0


From 97c463502c3c7e23f50ec6021e61a9aa879891b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 45/76] fix: truncated gradient remembers the penalty already
 applied to each weight

---
 src/core/optimizer/sgd/tg.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/optimizer/sgd/tg.hpp b/src/core/optimizer/sgd/tg.hpp
index 44572cc..e40879d 100644
--- a/src/core/optimizer/sgd/tg.hpp
+++ b/src/core/optimizer/sgd/tg.hpp
@@ -44,7 +44,6 @@ private:
 
             cum_l1(j, 0) += (weight(j, 0) - w_j);
         }
-        cum_l1.setZero();
         return weight;
     }
 
-- 
2.43.0


From 878b368a663897dfaa2a4b993006b99a34ca0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:07 +0000
Subject: [PATCH 46/76] fix: refitting naive Bayes forgets the labels of the
 previous data

---
 src/methods/naive_bayes/base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index a632017..0932b5f 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -35,6 +35,7 @@ protected:
     */
     virtual void compute_prior_prob(const VecType& y) {
         std::size_t num_samples = y.rows();
+        label_map_.clear();
         for (std::size_t i = 0; i < num_samples; i++) {
             label_map_[y[i]]++;
         }
-- 
2.43.0


From e18725e0f3787dcfa1eeda7dd4c58a29d361f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:07 +0000
Subject: [PATCH 47/76] fix: naive Bayes predicts class labels, not class
 positions

---
 src/methods/naive_bayes/base.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/base.hpp b/src/methods/naive_bayes/base.hpp
index 0932b5f..696bf00 100644
--- a/src/methods/naive_bayes/base.hpp
+++ b/src/methods/naive_bayes/base.hpp
@@ -104,7 +104,10 @@ public:
         jll = this->joint_log_likelihood(X);
 
         IdxVecType argmax_jll = common::argmax<MatType, VecType, IdxVecType>(jll, 1);
-        VecType y_pred = argmax_jll.template cast<DataType>();
+        VecType y_pred(num_samples);
+        for (std::size_t i = 0; i < num_samples; ++i) {
+            y_pred(i) = classes_(argmax_jll(i));
+        }
         return y_pred;
     }
 
-- 
2.43.0


From c9f32c3d0698e3c4a4caa57ef12ba20164f9717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 48/76] fix: Gaussian naive Bayes adds the prior of the class
 being scored

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 75471b1..4fd3d1d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -50,7 +50,7 @@ protected:
             MatType X_centered_reduced = X_centered.array().rowwise() / var_.row(i).array();
             VecType ll = sum_log_var - X_centered_reduced.array().rowwise().sum() * 0.5;
 
-            jll.col(i) = ll.array() + lp.array();
+            jll.col(i) = ll.array() + lp.col(i).array();
         }
 
         return jll;
-- 
2.43.0


From 0cf92326968ee6810d0c75b948e778ba1234f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 49/76] fix: Gaussian naive Bayes returns all class means and
 variances

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 4fd3d1d..2461896 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -119,12 +119,12 @@ public:
     };
 
     /** get the mean attributes */
-    const VecType get_mean() const {
+    const MatType get_mean() const {
         return mean_;
     }
 
     /** get the var attributes */
-    const VecType get_var() const {
+    const MatType get_var() const {
         return var_;
     }
 
-- 
2.43.0


From cb60b65dc6edf2b8b429ca85b7a36c1c4783baae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 50/76] fix: multinomial naive Bayes stores feature counts as a
 column

---
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 818de5c..7d38c26 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -47,7 +47,7 @@ protected:
             IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
 
             partial_X_y = X_y(keep_rows, keep_cols); 
-            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0);
+            feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0).transpose();
             class_count.row(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_));
 
             new_i++;
-- 
2.43.0


From 16a9bfad128e0422f8236a4e076328f6145b1c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 51/76] fix: naive Bayes selects only existing columns for
 single feature data

---
 src/methods/naive_bayes/gaussian_naive_bayes.hpp    | 2 +-
 src/methods/naive_bayes/multinomial_naive_bayes.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/methods/naive_bayes/gaussian_naive_bayes.hpp b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
index 2461896..251c89d 100644
--- a/src/methods/naive_bayes/gaussian_naive_bayes.hpp
+++ b/src/methods/naive_bayes/gaussian_naive_bayes.hpp
@@ -79,7 +79,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             mean.col(idx) = math::mean<MatType>(partial_X_y.leftCols(num_features), 0).transpose();
diff --git a/src/methods/naive_bayes/multinomial_naive_bayes.hpp b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
index 7d38c26..e4f1859 100644
--- a/src/methods/naive_bayes/multinomial_naive_bayes.hpp
+++ b/src/methods/naive_bayes/multinomial_naive_bayes.hpp
@@ -44,7 +44,7 @@ protected:
                     keep_rows.push_back(i);
                 }
             }
-            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols());
+            IdxVecType keep_cols = IdxVecType::LinSpaced(X_y.cols(), 0, X_y.cols() - 1);
 
             partial_X_y = X_y(keep_rows, keep_cols); 
             feature_count.col(new_i) = math::sum<MatType>(partial_X_y.leftCols(num_features_), 0).transpose();
-- 
2.43.0


From f356d4a368535e96791a749fbe6408176adc7351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 52/76] fix: PCA transform and score centre queries with the
 training mean

---
 src/methods/decomposition/pca.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 215b923..abb95de 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -28,11 +28,13 @@ private:
 
     std::string solver_;
     double noise_var_;
+    VecType mean_;
 
 protected:
     void fit_data(const MatType& X) {
         std::size_t num_samples = X.rows(), num_features = X.cols();
 
+        mean_ = X.colwise().mean().transpose();
         MatType centered_X;
         centered_X = math::center<MatType>(X);
         
@@ -73,7 +75,7 @@ protected:
     const MatType transform_data(const MatType& X) const{
         std::size_t num_samples = X.rows();
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_.transpose();
 
         MatType transformed_X(num_samples, this->num_components_);
         transformed_X = centered_X * this->components_.transpose();
@@ -147,7 +149,7 @@ public:
         std::size_t num_samples = X.rows();
         
         MatType centered_X;
-        centered_X = math::center<MatType>(X);
+        centered_X = X.rowwise() - mean_.transpose();
 
         VecType log_like(num_samples);
         log_like = compute_score_samples(centered_X);
-- 
2.43.0


From 28d7e1e57ff20e8de68813ea4ad19dc472bf4b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 53/76] fix: PCA covariance subtracts the noise variance from
 the variances only

---
 src/methods/decomposition/pca.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index abb95de..60a7a09 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -87,11 +87,11 @@ protected:
         std::size_t num_features = this->components_.cols();
         // MatType components_ = components;
 
-        MatType explained_var(this->num_components_, this->num_components_);
-        explained_var = math::diagmat<MatType, VecType>(this->explained_var_);
+        VecType var_diff = this->explained_var_.array() - noise_var_;
+        var_diff = var_diff.cwiseMax(static_cast<DataType>(0)).eval();
 
-        MatType explained_var_diff = explained_var.array() - noise_var_;
-        explained_var_diff = explained_var_diff.cwiseMax(static_cast<DataType>(0));
+        MatType explained_var_diff(this->num_components_, this->num_components_);
+        explained_var_diff = math::diagmat<MatType, VecType>(var_diff);
 
         MatType cov(num_features, num_features);
         cov = this->components_.transpose() * explained_var_diff * this->components_; 
-- 
2.43.0


From 19dd59b962514e098a2722391fe3bbe510dc6625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 54/76] fix: PCA precision and score no longer depend on an
 earlier get_covariance call

---
 src/methods/decomposition/pca.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index 60a7a09..ff9ef04 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -69,6 +69,9 @@ protected:
         this->components_ = components.topRows(this->num_components_);
         this->explained_var_ = explained_var.topRows(this->num_components_);
         this->explained_var_ratio_ = explained_var_ratio.topRows(this->num_components_);
+
+        compute_data_covariance();
+        compute_precision_matrix();
     }
 
     /** transform the new data */
-- 
2.43.0


From d91a788a8f5b44c52918e8fd98e5285b879f0c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 55/76] fix: PCA rejects an unknown solver

---
 src/methods/decomposition/pca.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/methods/decomposition/pca.hpp b/src/methods/decomposition/pca.hpp
index ff9ef04..df0fba0 100644
--- a/src/methods/decomposition/pca.hpp
+++ b/src/methods/decomposition/pca.hpp
@@ -52,7 +52,12 @@ protected:
 
             explained_var = math::power<VecType>(s, 2.0) / (static_cast<DataType>(num_samples) - 1.);
             components = Vt;
-        };
+        }
+        else {
+            std::ostringstream err_msg;
+            err_msg << "Unknown PCA solver \"" << solver_ << "\"." << std::endl;
+            throw std::invalid_argument(err_msg.str());
+        }
 
         VecType total_var = math::sum<MatType>(explained_var);
         explained_var_ratio = explained_var / total_var.value();
-- 
2.43.0


From 705d404b403c3bb5bd26a3ad1ec075e760c0a3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 56/76] fix: TruncatedSVD rejects an unknown solver

---
 src/methods/decomposition/truncated_svd.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/methods/decomposition/truncated_svd.hpp b/src/methods/decomposition/truncated_svd.hpp
index ed74eaa..ab8f4fe 100644
--- a/src/methods/decomposition/truncated_svd.hpp
+++ b/src/methods/decomposition/truncated_svd.hpp
@@ -42,6 +42,11 @@ protected:
                 true);
             X_transformed = X * Vt.transpose();
         }
+        else {
+            std::ostringstream err_msg;
+            err_msg << "Unknown TruncatedSVD solver \"" << solver_ << "\"." << std::endl;
+            throw std::invalid_argument(err_msg.str());
+        }
 
         // compute variance of each faeture along axis = 0
         double full_var;
-- 
2.43.0


From cfbe2297f34a00c800b53df2c8b44eaf01844813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 57/76] fix: refitting a Gaussian mixture forgets the
 precisions of earlier fits

---
 src/methods/mixture/gaussian_mixture.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 38af027..24057c4 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -504,6 +504,7 @@ private:
         means_ = best_means;
         weights_ = best_weights;
 
+        precisions_.clear();
         for (int i = 0; i < precisions_cholesky_.size(); ++i) {
             MatType prec_chol = precisions_cholesky_[i];
             MatType prec(num_features, num_features);
-- 
2.43.0


From eb44b4bce49f50d9829b41d910509aa4a307d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 58/76] fix: tied Gaussian mixtures use the shared
 log-determinant for every component

---
 src/methods/mixture/gaussian_mixture.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 24057c4..91fe807 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -301,6 +301,9 @@ private:
         MatType C(num_samples, num_components);
         C.fill(v);
 
+        if (covariance_type_ == "tied") {
+            log_det = VecType::Constant(num_components, log_det(0)).eval();
+        }
         MatType tmp4(num_samples, num_components);
         tmp4 = common::repeat<MatType>(log_det.transpose(), num_samples, 0);
 
-- 
2.43.0


From a4f79ae64701bb4c819e2e419214373b0e0969f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:27 +0000
Subject: [PATCH 59/76] fix: Gaussian mixtures reject unknown covariance types
 and initialisations

---
 src/methods/mixture/gaussian_mixture.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/methods/mixture/gaussian_mixture.hpp b/src/methods/mixture/gaussian_mixture.hpp
index 91fe807..9b7d9e9 100644
--- a/src/methods/mixture/gaussian_mixture.hpp
+++ b/src/methods/mixture/gaussian_mixture.hpp
@@ -247,6 +247,12 @@ private:
         else if (covariance_type == "tied") {
             covariances = estimate_gaussian_covariances_tied(X, resp, means, nk, reg_covar);
         }
+        else {
+            std::ostringstream err_msg;
+            err_msg << "covariance_type: {full, tied}, but got an unknown option: " 
+                    << covariance_type << std::endl;
+            throw std::invalid_argument(err_msg.str());
+        }
         
         return std::make_tuple(covariances, means, nk);
     }
@@ -375,6 +381,12 @@ private:
             MatType sum_resp_tmp = common::repeat<MatType>(sum_resp, num_components_, 1);
             resp = resp.array() / sum_resp_tmp.array();
         }
+        else {
+            std::ostringstream err_msg;
+            err_msg << "init_params: {random}, but got an unknown option: " 
+                    << init_params_ << std::endl;
+            throw std::invalid_argument(err_msg.str());
+        }
 
         std::vector<MatType> covariances;
         MatType means;
-- 
2.43.0


From fa0f00df5f6c2515fbb3feec85432cc4a92ea6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:30 +0000
Subject: [PATCH 60/76] fix: max_element of an empty container throws instead
 of dereferencing end()

---
 src/core/common.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/common.hpp b/src/core/common.hpp
index 4a9dc49..4cf039c 100644
--- a/src/core/common.hpp
+++ b/src/core/common.hpp
@@ -12,6 +12,10 @@ template <typename Container>
 auto max_element(Container const &x)
     -> typename Container::value_type {
     
+    if (x.begin() == x.end()) {
+        throw std::invalid_argument("max_element of an empty container");
+    }
+
     using value_t = typename Container::value_type;
     const auto compare = [](value_t const &p1, value_t const &p2) {
         return p1.second < p2.second;
-- 
2.43.0


From 11eb3fc2c7921284460b72b975185d53627490c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:49 +0000
Subject: [PATCH 61/76] fix: k-means moves a centroid to the mean row of its
 cluster

---
 src/methods/cluster/kmeans.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index b15723f..fe02c1b 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -154,7 +154,7 @@ protected:
                 auto diff = mean_c - centroids_.row(c.first);
                 
                 eps += static_cast<double>(diff.norm());
-                centroids_.row(c.first) = mean_c.transpose();
+                centroids_.row(c.first) = mean_c;
             }
             // convergen condition
             if (eps < tol_) {
-- 
2.43.0


From 1afaaf0de827db9d802c1da7c2f1bf442347f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:49 +0000
Subject: [PATCH 62/76] fix: k-means rejects unknown initialisation methods

---
 src/methods/cluster/kmeans.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index fe02c1b..30eeb69 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -118,6 +118,9 @@ protected:
         else if (init_ == "kmeans++") {
             centroids_ = kmeans_plusplus(X);
         }
+        else {
+            throw std::invalid_argument("The init must be 'random' or 'kmeans++'");
+        }
     }
     
 
-- 
2.43.0


From e62ffa8cb100a523a42c519b2dffd3c6746edbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:49 +0000
Subject: [PATCH 63/76] fix: random k-means starts need at least as many
 samples as clusters

---
 src/methods/cluster/kmeans.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/methods/cluster/kmeans.hpp b/src/methods/cluster/kmeans.hpp
index 30eeb69..eef3cbe 100644
--- a/src/methods/cluster/kmeans.hpp
+++ b/src/methods/cluster/kmeans.hpp
@@ -111,6 +111,9 @@ protected:
         centroids_.resize(num_clusters_, num_features);
 
         if (init_ == "random") {
+            if (num_samples < num_clusters_) {
+                throw std::invalid_argument("Expected at least as many samples as clusters");
+            }
             IdxVecType index = random::permutation<IdxVecType>(num_samples);
             IdxVecType selected_index = index.topRows(num_clusters_);
             centroids_ = X(selected_index, Eigen::all);
-- 
2.43.0


From d71c75e304cb557da6041936e4d671eae8d24e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:04 +0000
Subject: [PATCH 64/76] fix: loading rejects empty files and rows of different
 lengths

---
 src/core/data/load.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 372cf24..941ba66 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -35,7 +35,15 @@ void loadtxt(const std::string &fp,
     }
 
     // conert std 2D vector into eigen matrix
+    if (stdmat.empty() || stdmat[0].empty()) {
+        throw std::runtime_error("Input file contains no data.");
+    }
     std::size_t n_rows = stdmat.size(), n_cols = stdmat[0].size();
+    for (std::size_t i = 0; i < n_rows; i++) {
+        if (stdmat[i].size() != n_cols) {
+            throw std::runtime_error("Input file rows have different lengths.");
+        }
+    }
     MatType mat(n_rows, n_cols);
     for (std::size_t i = 0; i < n_rows; i++) {
         mat.row(i) = VecType::Map(&stdmat[i][0], n_cols);
@@ -91,7 +99,15 @@ void loadtxt(const std::string &fp,
         stdmat.push_back(row);
     }
 
+    if (stdmat.empty() || stdmat[0].empty()) {
+        throw std::runtime_error("Input file contains no data.");
+    }
     std::size_t nrows = stdmat.size(), ncols = stdmat[0].size();
+    for (std::size_t i = 0; i < nrows; ++i) {
+        if (stdmat[i].size() != ncols) {
+            throw std::runtime_error("Input file rows have different lengths.");
+        }
+    }
     X.resize(nrows, std::vector<DataType>(ncols - 1));
     for (std::size_t i = 0; i < nrows; ++i) {
         for (std::size_t j = 0; j < ncols - 1; ++j) {
-- 
2.43.0


From 59c003b13a77a7bce60461f4154b36caceb9c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:23 +0000
Subject: [PATCH 65/76] fix: loading into vectors replaces their contents

---
 src/core/data/load.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/data/load.hpp b/src/core/data/load.hpp
index 941ba66..6e528dd 100644
--- a/src/core/data/load.hpp
+++ b/src/core/data/load.hpp
@@ -62,6 +62,7 @@ void loadtxt(const std::string &fp,
         throw std::runtime_error("Input file could not be opened.");
         exit(0);
     }
+    X.clear();
     for (std::string line; std::getline(fin, line); ) {
         std::stringstream str_stream(line);
         std::vector<DataType> row;
@@ -108,7 +109,8 @@ void loadtxt(const std::string &fp,
             throw std::runtime_error("Input file rows have different lengths.");
         }
     }
-    X.resize(nrows, std::vector<DataType>(ncols - 1));
+    X.assign(nrows, std::vector<DataType>(ncols - 1));
+    y.clear();
     for (std::size_t i = 0; i < nrows; ++i) {
         for (std::size_t j = 0; j < ncols - 1; ++j) {
             X[i][j] = stdmat[i][j];
-- 
2.43.0


From 7fe9a746e94000982d3dbebfd67d0cf1cb833204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 66/76] fix: perceptron rejects unknown penalties

---
 src/methods/linear_model/perceptron.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/methods/linear_model/perceptron.hpp b/src/methods/linear_model/perceptron.hpp
index e37e420..77bc135 100644
--- a/src/methods/linear_model/perceptron.hpp
+++ b/src/methods/linear_model/perceptron.hpp
@@ -42,6 +42,10 @@ protected:
     void fit_data(const MatType& X, 
         const VecType& y) {
 
+        if (penalty_ != "l2" && penalty_ != "None") {
+            throw std::invalid_argument("Penalty type {l2, None}, default=l2");
+        }
+
         std::size_t num_samples = X.rows(), num_features = X.cols();
         MatType X_new = X;
         // the hinge loss expects the targets -1 and 1, predict returns 0 and 1
-- 
2.43.0


From c50408d644c0bd7a263491501b6bd464e4c06358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 67/76] fix: softmax regression rejects unknown solvers and
 penalties

---
 src/methods/linear_model/softmax_regression.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/methods/linear_model/softmax_regression.hpp b/src/methods/linear_model/softmax_regression.hpp
index a0e721e..d1dd916 100644
--- a/src/methods/linear_model/softmax_regression.hpp
+++ b/src/methods/linear_model/softmax_regression.hpp
@@ -39,6 +39,13 @@ protected:
     */
     void fit_data(const MatType& X, 
         const VecType& y) {
+        if (solver_ != "sgd") {
+            throw std::invalid_argument("Softmax regression only supports the sgd solver.");
+        }
+        if (penalty_ != "l2" && penalty_ != "None") {
+            throw std::invalid_argument("Penalty type {l2, None}, default=None");
+        }
+
         std::size_t num_samples = X.rows(), num_features = X.cols();
         MatType X_new = X;
         VecType y_new = y;
-- 
2.43.0


From 808c453b8f09aa621b3347d3ef0e565d2359baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 68/76] fix: the KD-tree rejects unknown metrics

---
 src/core/tree/kd_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 0a66e0e..ae2360e 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -384,6 +384,9 @@ public:
         else if (metric == "chebyshev") {
             ord_ = Eigen::Infinity;
         }
+        else {
+            throw std::invalid_argument("The metric must be 'manhattan', 'euclidean' or 'chebyshev'");
+        }
 
         build_tree();
     };
-- 
2.43.0


From 6992abd2d53c040c45edadc45b55a3a835f7e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 69/76] fix: line searches reject unknown conditions

---
 src/core/optimizer/lbfgs/search_policies/base.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/optimizer/lbfgs/search_policies/base.hpp b/src/core/optimizer/lbfgs/search_policies/base.hpp
index 51ed83f..a551959 100644
--- a/src/core/optimizer/lbfgs/search_policies/base.hpp
+++ b/src/core/optimizer/lbfgs/search_policies/base.hpp
@@ -29,7 +29,14 @@ public:
         const LineSearchParamType& linesearch_params): X_(X), 
             y_(y), 
             loss_func_(loss_func), 
-            linesearch_params_(linesearch_params) {};
+            linesearch_params_(linesearch_params) {
+        if (linesearch_params_.condition_ != "ARMIJO" && 
+            linesearch_params_.condition_ != "WOLFE" && 
+            linesearch_params_.condition_ != "STRONG_WOLFE") {
+            throw std::invalid_argument(
+                "The line search condition must be 'ARMIJO', 'WOLFE' or 'STRONG_WOLFE'");
+        }
+    };
 
     virtual ~BaseLineSearch() {};
 
-- 
2.43.0


From 883d6342514788814a7d8a50c2d53a51e45539d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 70/76] fix: randomized_svd rejects unknown normalizers without
 power iterations

---
 src/core/math/linalg.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/math/linalg.hpp b/src/core/math/linalg.hpp
index c5aae9a..c176e1a 100644
--- a/src/core/math/linalg.hpp
+++ b/src/core/math/linalg.hpp
@@ -159,6 +159,15 @@ std::tuple<MatType, VecType, MatType> randomized_svd(const MatType& X,
         throw std::invalid_argument(err_msg.str());
     }
 
+    if (power_iter_normalizer != "None" && 
+        power_iter_normalizer != "LU" && power_iter_normalizer != "QR") {
+        std::ostringstream err_msg;
+        err_msg << "power_iter_normalizer: {LU, QR, None}, default is LU, "
+                << "but got an unknown option: " << power_iter_normalizer
+                << std::endl;
+        throw std::invalid_argument(err_msg.str());
+    }
+
     // init a random matrix Q
     MatType Q = random::randn<MatType>(num_features, num_random);
     for (std::size_t i = 0; i < num_iters; ++i) {
-- 
2.43.0


From 0917c2224a4b615bac81c23be0a8a367547db1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:09 +0000
Subject: [PATCH 71/76] fix: decision trees reject unknown criteria even when
 no split is evaluated

---
 src/methods/tree/decision_tree_classifier.hpp | 4 ++++
 src/methods/tree/decision_tree_regressor.hpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/methods/tree/decision_tree_classifier.hpp b/src/methods/tree/decision_tree_classifier.hpp
index a9067a8..58ff9e7 100644
--- a/src/methods/tree/decision_tree_classifier.hpp
+++ b/src/methods/tree/decision_tree_classifier.hpp
@@ -262,6 +262,10 @@ public:
      void fit(const MatType& X, 
         const VecType& y) {
         
+        if (criterion_ != "gini" && criterion_ != "entropy") {
+            throw std::invalid_argument("The criterion must be 'gini' or 'entropy'");
+        }
+
         num_classes_ = 0;
         label_count_.clear();
         std::size_t num_samples = X.rows();
diff --git a/src/methods/tree/decision_tree_regressor.hpp b/src/methods/tree/decision_tree_regressor.hpp
index c8a3e3b..c540806 100644
--- a/src/methods/tree/decision_tree_regressor.hpp
+++ b/src/methods/tree/decision_tree_regressor.hpp
@@ -265,6 +265,10 @@ public:
      void fit(const MatType& X, 
         const VecType& y) {
         
+        if (criterion_ != "squared_error" && criterion_ != "absolute_error") {
+            throw std::invalid_argument("The criterion must be 'absolute_error' or 'squared_error'");
+        }
+
         root_ = std::make_shared<Node>();
         build_tree(X, y, root_, 0);
     }
-- 
2.43.0


From 60428ea034802d13b0f505ddb5567ec1e53a3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:17 +0000
Subject: [PATCH 72/76] fix: softmax accepts a single row

---
 src/core/math/extmath.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/extmath.hpp b/src/core/math/extmath.hpp
index eecddbc..b647587 100644
--- a/src/core/math/extmath.hpp
+++ b/src/core/math/extmath.hpp
@@ -240,7 +240,7 @@ MatType row_norms(const MatType& x, bool squared = false) {
 template<typename MatType>
 MatType softmax(const MatType& x, int axis = 0) {
     std::size_t nrows = x.rows(), ncols = x.cols();
-    if (nrows == 1 || ncols == 1) {
+    if (nrows == 0 || ncols == 0) {
         throw std::invalid_argument("Input ndarray should be 2 dimension");
     }
 
-- 
2.43.0


From afd861c5c3da1d2ddd38b78f0d80a1f6e5c58c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:07 +0000
Subject: [PATCH 73/76] fix: the root of the KD-tree bounds its children along
 the partition axis

---
 src/core/tree/kd_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index ae2360e..227ca87 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -118,8 +118,8 @@ protected:
         // define left_hyper_rect and right_hyper_rect
         MatType left_hyper_rect = hyper_rect;
         MatType right_hyper_rect = hyper_rect;
-        left_hyper_rect(1, 0) = partition_val;
-        right_hyper_rect(0, 0) = partition_val;
+        left_hyper_rect(1, partition_axis) = partition_val;
+        right_hyper_rect(0, partition_axis) = partition_val;
 
         KDTreeNode node; //std::make_shared<>();
         node.left_hyper_rect = std::make_shared<MatType>(left_hyper_rect);
-- 
2.43.0


From b4b4897c0b0d8d5927d9bd1526e98552222527b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:07 +0000
Subject: [PATCH 74/76] fix: KD-tree queries keep boxes that touch the search
 radius

---
 src/core/tree/kd_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 227ca87..06f205d 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -248,7 +248,7 @@ protected:
         }
 
         double dist = metric::minkowski_distance<RowVecType>(c, centroid, ord_);
-        return (dist < radius) ? true : false;
+        return (dist <= radius) ? true : false;
     }
 
     const std::vector<NNType> compute_distance(const RowVecType& data, 
-- 
2.43.0


From 308ba260b28fe69ef5ca7de2b483a9f44a91dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:07 +0000
Subject: [PATCH 75/76] fix: KD-tree radius queries answer every query row

---
 src/core/tree/kd_tree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/tree/kd_tree.hpp b/src/core/tree/kd_tree.hpp
index 06f205d..f453f4e 100644
--- a/src/core/tree/kd_tree.hpp
+++ b/src/core/tree/kd_tree.hpp
@@ -435,9 +435,7 @@ public:
         for(std::size_t i = 0; i < num_samples; ++i) {
             std::vector<NNType> nn;
             nn = query_radius_single_data(data.row(i), radius);
-            if (!nn.empty()) {
-                knn.emplace_back(nn);
-            }
+            knn.emplace_back(nn);
         }
         return knn;
     }
-- 
2.43.0


From 63b061da058a42d2615c695bd0942c7225f07922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:33 +0000
Subject: [PATCH 76/76] fix: k-nearest neighbours compiles and votes over the
 neighbours of each query row

---
 src/methods/neighbors/k_nearest_neighbors.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/methods/neighbors/k_nearest_neighbors.hpp b/src/methods/neighbors/k_nearest_neighbors.hpp
index 58c7aae..3c51c13 100644
--- a/src/methods/neighbors/k_nearest_neighbors.hpp
+++ b/src/methods/neighbors/k_nearest_neighbors.hpp
@@ -34,16 +34,16 @@ protected:
         std::vector<DataType> neighbors;
         std::vector<std::pair<double, DataType>> lookup_dist;
 
-        for (std::size_t i = 0; i < X.row(); ++i) {
-            RowVecType current = X.rows(i);
+        for (std::size_t i = 0; i < X.rows(); ++i) {
+            RowVecType current = X.row(i);
             DataType label = y(i, 0);
             double distance;
             
             if (metric_ == "euclidean") {
-                distance = (current - sample).template lpNorm<2>();
+                distance = (current - samples).template lpNorm<2>();
             }
             else if (metric_ == "manhattan") {
-                distance = (current - sample).template lpNorm<1>();
+                distance = (current - samples).template lpNorm<1>();
             }
             else {
                 std::ostringstream err_msg;
@@ -64,7 +64,7 @@ protected:
         }
         std::pair<DataType, std::size_t> pred_label;
         pred_label.first = -1;
-        pred_label.second = -1;
+        pred_label.second = 0;
         for (auto& kv : frequency) {
             if (kv.second > pred_label.second) {
                 pred_label.second = kv.second;
@@ -122,7 +122,7 @@ public:
             }
 
             MatType mode, count;
-            std::tie(mode, count) = math::mode<MatType>(pred_indice, 0);
+            std::tie(mode, count) = math::mode<MatType>(pred_indice, 1);
 
             pred_label = mode;
         }
-- 
2.43.0

