From f18dadb3979d26f69dc0e6468269e05423bbe1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:50 +0000
Subject: [PATCH 01/55] fix: converting move of Vector swapped pointers of
 different types and did not compile

---
 include/malg/vector.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 451769f..ec72143 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -136,10 +136,10 @@ public:
         : _data(),
           _size()
     {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
+        if (this->allocate(other.size())) {
+            for (std::size_t i = 0; i < _size; ++i) {
+                _data[i] = other[i];
+            }
         }
     }
 
@@ -260,10 +260,10 @@ public:
     template <typename T2>
     inline auto &operator=(Vector<T2> &&other)
     {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
+        if (this->allocate(other.size())) {
+            for (std::size_t i = 0; i < _size; ++i) {
+                _data[i] = other[i];
+            }
         }
         return *this;
     }
-- 
2.43.0


From 428652107c095ebdf2264c18701e2d20cb1fb1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 02/55] fix: assigning an empty matrix left the target
 unchanged

---
 include/malg/matrix.hpp | 86 ++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 49 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index f960506..4916ea3 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -261,17 +261,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -285,17 +283,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -307,17 +303,15 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -329,21 +323,15 @@ public:
     template <typename T2>
     Matrix<T> &operator=(const Matrix<T2> &rhs)
     {
-        if (&rhs != this) {
-            if (!std::is_same_v<T, T2>) {
-                if (rhs.size() > 0) {
-                    // Initialize the new vector of data.
-                    _data = Vector<T>(rhs.rows() * rhs.cols());
-                    // Set the new rows and columns.
-                    this->_rows = rhs.rows();
-                    this->_cols = rhs.cols();
-                    // Copy the content.
-                    for (std::size_t r = 0; r < _rows; ++r) {
-                        for (std::size_t c = 0; c < _cols; ++c) {
-                            this->at(r, c) = rhs(r, c);
-                        }
-                    }
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -354,7 +342,7 @@ public:
     /// @returns a reference to this matrix.
     auto &operator=(Matrix<T> &&rhs)
     {
-        if ((&rhs != this) && (rhs.size() > 0)) {
+        if (&rhs != this) {
             // Copy the content.
             _data = std::move(rhs._data);
             // Set the new rows and columns.
-- 
2.43.0


From e4cfba518dd8cfdd2ea29d96e273021e047675d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 03/55] fix: assigning a view of a matrix to the matrix itself
 read released memory

---
 include/malg/matrix.hpp | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 4916ea3..dfdfd65 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -283,17 +283,18 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        // Initialize the new vector of data.
-        _data = Vector<T>(rhs.rows() * rhs.cols());
-        // Set the new rows and columns.
-        this->_rows = rhs.rows();
-        this->_cols = rhs.cols();
-        // Copy the content.
-        for (std::size_t r = 0; r < _rows; ++r) {
-            for (std::size_t c = 0; c < _cols; ++c) {
-                this->at(r, c) = rhs(r, c);
+        // Copy the content aside, because rhs might be a view of this matrix.
+        Matrix<T> result(rhs.rows(), rhs.cols());
+        for (std::size_t r = 0; r < rhs.rows(); ++r) {
+            for (std::size_t c = 0; c < rhs.cols(); ++c) {
+                result(r, c) = rhs(r, c);
             }
         }
+        // Move the data.
+        _data = std::move(result._data);
+        // Set the new rows and columns.
+        this->_rows = result._rows;
+        this->_cols = result._cols;
         return *this;
     }
 
@@ -303,17 +304,18 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        // Initialize the new vector of data.
-        _data = Vector<T>(rhs.rows() * rhs.cols());
-        // Set the new rows and columns.
-        this->_rows = rhs.rows();
-        this->_cols = rhs.cols();
-        // Copy the content.
-        for (std::size_t r = 0; r < _rows; ++r) {
-            for (std::size_t c = 0; c < _cols; ++c) {
-                this->at(r, c) = rhs(r, c);
+        // Copy the content aside, because rhs might be a view of this matrix.
+        Matrix<T> result(rhs.rows(), rhs.cols());
+        for (std::size_t r = 0; r < rhs.rows(); ++r) {
+            for (std::size_t c = 0; c < rhs.cols(); ++c) {
+                result(r, c) = rhs(r, c);
             }
         }
+        // Move the data.
+        _data = std::move(result._data);
+        // Set the new rows and columns.
+        this->_rows = result._rows;
+        this->_cols = result._cols;
         return *this;
     }
 
-- 
2.43.0


From 3b6c98a8f4b45467109aacfb7fb2fb5baf3797d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 04/55] fix: moving from a matrix of another type did not
 compile

---
 include/malg/matrix.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index dfdfd65..920e252 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -182,9 +182,11 @@ public:
     template <typename T2>
     explicit Matrix(Matrix<T2> &&rhs)
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
-          _data(std::move(rhs._data))
+          _data(rhs.rows() * rhs.cols())
     {
-        // Nothing to do.
+        for (std::size_t i = 0; i < (_rows * _cols); ++i) {
+            _data[i] = rhs[i];
+        }
     }
 
     /// @brief Destroy the Matrix object.
-- 
2.43.0


From 7d45c91bf7e74233529c56f45e6aa33f5a09c624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:01 +0000
Subject: [PATCH 05/55] fix: a moved-from matrix kept its size without having
 any data

---
 include/malg/matrix.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 920e252..63c90af 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -173,7 +173,8 @@ public:
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
           _data(std::move(rhs._data))
     {
-        // Nothing to do.
+        rhs._rows = 0;
+        rhs._cols = 0;
     }
 
     /// @brief Construct a new Matrix object.
@@ -352,6 +353,9 @@ public:
             // Set the new rows and columns.
             this->_rows = rhs.rows();
             this->_cols = rhs.cols();
+            // The other matrix does not have data anymore.
+            rhs._rows = 0;
+            rhs._cols = 0;
         }
         return *this;
     }
-- 
2.43.0


From 18982254884d636b6d0736ca6720d3bfcd5bab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 06/55] fix: views always reported to be empty

---
 include/malg/matrix_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/matrix_base.hpp b/include/malg/matrix_base.hpp
index dbbb732..9198668 100644
--- a/include/malg/matrix_base.hpp
+++ b/include/malg/matrix_base.hpp
@@ -76,7 +76,7 @@ public:
     /// @returns false otherwise.
     inline virtual bool empty() const
     {
-        return (_rows == 0) || (_cols == 0);
+        return (this->rows() == 0) || (this->cols() == 0);
     }
 
     /// @brief Returns a pointer to the internal data.
-- 
2.43.0


From 9e832880ba73e102ca3cffe766f1bc88b9f77fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 07/55] fix: linear indexing of a non-square cofactor view
 reached the wrong element

---
 include/malg/view.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 659181e..2d3a1cd 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -336,9 +336,9 @@ public:
     inline T &operator[](std::size_t pos) override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
@@ -348,9 +348,9 @@ public:
     inline const T &operator[](std::size_t pos) const override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
-- 
2.43.0


From 84494f2f08a0df767bb9474ee373a7e90016e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 08/55] fix: stacking a vector onto a matrix did not compile

---
 include/malg/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 64f595a..1ad7669 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -240,7 +240,7 @@ inline auto vstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows() + 1, A.cols());
     // Append b to C.
@@ -291,7 +291,7 @@ inline auto hstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows(), A.cols() + 1);
     // Append b to C.
-- 
2.43.0


From 78c04579b2ac6246cc8143334a05d9e65fb4aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 09/55] fix: extracting from a start beyond the matrix wrapped
 around

---
 include/malg/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 1ad7669..d8d76ff 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -337,6 +337,8 @@ inline auto extract(const MatrixBase<T> &matrix,
                     std::size_t start_column = 0,
                     std::size_t end_column   = std::numeric_limits<std::size_t>::max())
 {
+    end_row    = std::min(matrix.rows(), end_row);
+    end_column = std::min(matrix.cols(), end_column);
     if (start_row >= end_row) {
         throw std::invalid_argument("The starting row must be lower than the ending row.");
     }
@@ -344,8 +346,6 @@ inline auto extract(const MatrixBase<T> &matrix,
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
     using data_type = std::remove_const_t<T>;
-    end_row         = std::min(matrix.rows(), end_row);
-    end_column      = std::min(matrix.cols(), end_column);
     Matrix<data_type> result(end_row - start_row, end_column - start_column, data_type(0.));
     for (std::size_t r = start_row; r < end_row; ++r) {
         for (std::size_t c = start_column; c < end_column; ++c) {
@@ -367,6 +367,7 @@ inline auto extract_column(const MatrixBase<T> &matrix,
                            std::size_t start_row = 0,
                            std::size_t end_row   = std::numeric_limits<std::size_t>::max())
 {
+    end_row = std::min(matrix.rows(), end_row);
     if (start_row >= end_row) {
         throw std::invalid_argument("The starting row must be lower than the ending row.");
     }
@@ -374,7 +375,6 @@ inline auto extract_column(const MatrixBase<T> &matrix,
         throw std::invalid_argument("The selected column is outsize the matrix.");
     }
     using data_type = std::remove_const_t<T>;
-    end_row         = std::min(matrix.rows(), end_row);
     Vector<data_type> result(end_row - start_row, data_type(0.));
     for (std::size_t r = start_row; r < end_row; ++r) {
         result[r - start_row] = matrix(r, column);
@@ -397,11 +397,11 @@ inline auto extract_row(const MatrixBase<T> &matrix,
     if (row >= matrix.rows()) {
         throw std::invalid_argument("The selected row is outsize the matrix.");
     }
+    end_column = std::min(matrix.cols(), end_column);
     if (start_column >= end_column) {
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
     using data_type = std::remove_const_t<T>;
-    end_column      = std::min(matrix.cols(), end_column);
     Vector<data_type> result(end_column - start_column, data_type(0.));
     for (std::size_t c = start_column; c < end_column; ++c) {
         result[c - start_column] = matrix(row, c);
-- 
2.43.0


From 94a749795439d2edb67b843b2d58b4e1d2908f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 10/55] fix: is_skew_symmetric ignored the diagonal

---
 include/malg/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index d8d76ff..fd047b4 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -538,7 +538,7 @@ inline auto is_skew_symmetric(const MatrixBase<T> &matrix)
         return false;
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
-        for (std::size_t j = i + 1; j < matrix.cols(); ++j) {
+        for (std::size_t j = i; j < matrix.cols(); ++j) {
             if (matrix(i, j) != -matrix(j, i)) {
                 return false;
             }
-- 
2.43.0


From 89241093e164e7382e713c4924902eac74653f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 11/55] fix: is_zero and is_constant did not compile

---
 include/malg/utility.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index fd047b4..3fe2c31 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -574,7 +574,12 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_zero(const MatrixBase<T> &matrix)
 {
-    return std::all_of(matrix.begin(), matrix.end(), [](const T &x) { return x == 0; });
+    for (std::size_t i = 0; i < matrix.size(); ++i) {
+        if (matrix[i] != T(0)) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
@@ -584,7 +589,12 @@ inline auto is_zero(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_constant(const MatrixBase<T> &matrix)
 {
-    return std::adjacent_find(matrix.begin(), matrix.end(), std::not_equal_to{}) == matrix.end();
+    for (std::size_t i = 1; i < matrix.size(); ++i) {
+        if (matrix[i] != matrix[0]) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
-- 
2.43.0


From 77ab1cebf09f240e4768f43f239bb39e2d1a8f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:15 +0000
Subject: [PATCH 12/55] fix: is_identity and is_orthogonal did not compile

---
 include/malg/utility.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 3fe2c31..44c1e7f 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -652,7 +652,14 @@ inline auto is_identity(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix == utility::identity<T>(matrix.cols()));
+    for (std::size_t i = 0; i < matrix.rows(); ++i) {
+        for (std::size_t j = 0; j < matrix.cols(); ++j) {
+            if (matrix(i, j) != T(i == j ? 1 : 0)) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is orthogonal.
@@ -665,7 +672,19 @@ inline auto is_orthogonal(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix * matrix.transpose() == utility::identity<T>(matrix.cols()));
+    for (std::size_t i = 0; i < matrix.rows(); ++i) {
+        for (std::size_t j = 0; j < matrix.rows(); ++j) {
+            // Element of the product of the matrix by its transpose.
+            std::remove_const_t<T> product = 0;
+            for (std::size_t k = 0; k < matrix.cols(); ++k) {
+                product += matrix(i, k) * matrix(j, k);
+            }
+            if (std::abs(product - T(i == j ? 1 : 0)) > malg::feq::tolerance()) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is invertible.
-- 
2.43.0


From 076dd3b300883d9e9c9a0e0dbf8692db9d93d705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:28 +0000
Subject: [PATCH 13/55] fix: is_invertible and is_linearly_(in)dependent did
 not compile

---
 include/malg/utility.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 44c1e7f..4a9e410 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -18,6 +18,15 @@
 #include <limits>
 #include <random>
 
+namespace malg::linalg
+{
+
+// Defined in "malg/linalg.hpp".
+template <typename CT>
+inline auto determinant(const MatrixBase<CT> &matrix);
+
+} // namespace malg::linalg
+
 namespace malg::utility
 {
 
@@ -694,7 +703,7 @@ inline auto is_orthogonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_invertible(const MatrixBase<T> &matrix)
 {
-    return matrix.determinant() != 0;
+    return linalg::determinant(matrix) != T(0);
 }
 
 /// @brief Checks if the matrix is linearly dependent.
@@ -704,7 +713,7 @@ inline auto is_invertible(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_linearly_dependent(const MatrixBase<T> &matrix)
 {
-    return matrix.determinant() == 0;
+    return linalg::determinant(matrix) == T(0);
 }
 
 /// @brief Checks if the matrix is linearly independent.
@@ -714,7 +723,7 @@ inline auto is_linearly_dependent(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_linearly_independent(const MatrixBase<T> &matrix)
 {
-    return !matrix.is_linearly_dependent();
+    return !utility::is_linearly_dependent(matrix);
 }
 
 /// @brief Checks if the matrix is a lower triangular one.
-- 
2.43.0


From 301b01836b44aadde0aa73aa93205866d3289e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 14/55] fix: find with a limit returned the wrong number of
 wrong indexes

---
 include/malg/utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 4a9e410..4abeedb 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -980,11 +980,11 @@ inline auto find(const Matrix<T> &A, std::size_t n = std::numeric_limits<std::si
         return Matrix<std::size_t>(0UL, 0UL);
     }
     if ((n > 0) && (n < index.size())) {
-        std::size_t start = static_cast<std::size_t>(*index.begin());
+        const auto count = static_cast<std::ptrdiff_t>(n);
         if (first_last) {
-            index = std::vector<size_t>(start + 0UL, start + n);
+            index = std::vector<size_t>(index.begin(), index.begin() + count);
         } else {
-            index = std::vector<size_t>(start + index.size() - n, start + index.size());
+            index = std::vector<size_t>(index.end() - count, index.end());
         }
     }
     // Prepare the array for the indexes. If the input is a row-vector, return the indexes as a row-vector.
-- 
2.43.0


From edec1d310642ae3f7ea755c930a2685d7db857a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 15/55] fix: compare reported equality when the first elements
 differ

---
 include/malg/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 4abeedb..789bdc8 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -1010,10 +1010,10 @@ inline int64_t compare(const malg::MatrixBase<T> &A, const malg::MatrixBase<T> &
     }
     for (std::size_t i = 0; i < A.size(); ++i) {
         if (A[i] < B[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (A[i] > B[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
@@ -1035,10 +1035,10 @@ inline int64_t compare(const malg::Vector<T> &a, const malg::Vector<T> &b)
     }
     for (std::size_t i = 0; i < a.size(); ++i) {
         if (a[i] < b[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (a[i] > b[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
-- 
2.43.0


From 4945c7a6f075ba55690a55e70d13ec10fe2de8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 16/55] fix: trace of a matrix with more rows than columns read
 out of bounds

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e5a9812..d3fa5d5 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1221,7 +1221,7 @@ inline auto trace(const MatrixBase<T> &A)
     return sum(diag(A));
 #else
     std::remove_const_t<T> result = 0;
-    for (std::size_t i = 0; i < A.rows(); ++i) {
+    for (std::size_t i = 0; i < std::min(A.rows(), A.cols()); ++i) {
         result += A(i, i);
     }
     return result;
-- 
2.43.0


From bc7c39bd07024aa1b43a40482aa973358392d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 17/55] fix: norms of complex vectors and matrices did not
 compile

---
 include/malg/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index d3fa5d5..8ffef62 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1167,7 +1167,7 @@ inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_s
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t r = r_start; r < std::min(r_end, A.rows()); r++) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(A(r, c));
         } else {
             accum += A(r, c) * A(r, c);
@@ -1378,7 +1378,7 @@ inline auto square_norm(const malg::Vector<T> &v)
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(v[i]);
         } else {
             accum += v[i] * v[i];
@@ -1397,7 +1397,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
     // Compute the sum of squares of the elements of the given matrix.
     for (std::size_t r = 0; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < A.cols(); ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
@@ -1465,7 +1465,7 @@ auto sub_norm(const malg::MatrixBase<T> &A)
     data_type_t accum = 0;
     for (std::size_t r = 1; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < r; ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
-- 
2.43.0


From b337b139045dcc3bd3ca40ac1b850ce0ac707d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 18/55] fix: infinity norm of a complex vector did not compile

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 8ffef62..6158a9a 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1414,7 +1414,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
 template <typename T>
 inline auto infinity_norm(const malg::Vector<T> &v)
 {
-    using data_type_t = std::remove_const_t<T>;
+    using data_type_t = std::remove_const_t<malg::is_complex_t<T>>;
     if (v.empty()) {
         return data_type_t(0.);
     }
-- 
2.43.0


From 9aa22133d2539508ef540f7af9f105fdca6e2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 19/55] fix: sign did not compile

---
 include/malg/math.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 6158a9a..56f87a2 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1128,10 +1128,11 @@ auto abs(const malg::Vector<T> &a)
 template <typename T>
 auto sign(const malg::MatrixBase<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Returns a matrix containing the sign of the values in the input matrix.
@@ -1140,10 +1141,11 @@ auto sign(const malg::MatrixBase<T> &a)
 template <typename T>
 auto sign(const malg::Vector<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Vector projection of **a** onto **b**.
-- 
2.43.0


From 265dbae03453bf2c53aeb7cdac722ef79e61ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 20/55] fix: element-wise functions discarded their results

---
 include/malg/math.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 56f87a2..efced8c 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -993,9 +993,11 @@ inline auto element_wise_function(const malg::Vector<T> &a, Function fun)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, decltype(fun(std::declval<T>()))>>;
     // Create the resulting vector.
-    malg::Vector<data_type_t> result(a);
+    malg::Vector<data_type_t> result(a.size());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < a.size(); ++i) {
+        result[i] = fun(a[i]);
+    }
     // Return the vector.
     return result;
 }
@@ -1012,7 +1014,9 @@ inline auto element_wise_function(const malg::MatrixBase<T> &A, Function fun)
     // Create the resulting matrix.
     malg::Matrix<data_type_t> result(A.rows(), A.cols());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < A.size(); ++i) {
+        result[i] = fun(A[i]);
+    }
     // Return the matrix.
     return result;
 }
-- 
2.43.0


From 6f4057a8f8578aab08f242b4d769c1eae13ee22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 21/55] fix: linear combinations and element-wise products
 converted the second operand to the type of the first

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index efced8c..7bf97a9 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1189,7 +1189,7 @@ inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_s
 template <typename T1, typename T2>
 auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * rhs; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T2 rhs) { return lhs * rhs; });
 }
 
 /// @brief Computes the linear combination of matrices.
@@ -1201,7 +1201,7 @@ auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<
 template <typename T1, typename T2, typename T3, typename T4>
 auto linear_combination(const malg::MatrixBase<T1> &A, const T2 &a, const malg::MatrixBase<T3> &B, const T4 &b)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * a + rhs * b; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T3 rhs) { return lhs * a + rhs * b; });
 }
 
 /// @brief Sums the element of the vector.
-- 
2.43.0


From b65f420720b7ce3aba6ba644e00478b30ad838d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 22/55] fix: adding or subtracting a scalar in place to a
 matrix did not compile

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 7bf97a9..e8f21da 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
-- 
2.43.0


From 11b61edb43f9d75df16fb700521308fc6ddf4ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 23/55] fix: in-place operations between a vector and a scalar
 did not compile

---
 include/malg/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e8f21da..dfbec1b 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -717,7 +717,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -793,7 +793,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -869,7 +869,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator*=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -905,7 +905,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator/=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From 6db0464038fa6c7b543badd4850e6c6b58125bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 24/55] fix: multiplying a scalar by a vector did not compile

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index dfbec1b..4cdfece 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -856,9 +856,9 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output vector.
-    malg::Vector<data_type_t> result(a.size());
+    malg::Vector<data_type_t> result(b.size());
     // Perform the operation.
-    for (std::size_t i = 0; i < a.size(); ++i) {
+    for (std::size_t i = 0; i < b.size(); ++i) {
         result[i] = a * b[i];
     }
     return result;
-- 
2.43.0


From 88b85d752ad9c6e27b4ffd17aad000e9c11a09bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 25/55] fix: in-place scalar operations used an already updated
 scalar when given one of the elements

---
 include/malg/math.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 4cdfece..e99972a 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -259,7 +259,7 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -291,7 +291,7 @@ inline auto operator/(const malg::MatrixBase<T1> &A, const T2 &b)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -717,7 +717,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -793,7 +793,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -869,7 +869,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -905,7 +905,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From b74eb8deea30d1397e53956b7562ec8f36650253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 26/55] fix: in-place multiplication by a non-square matrix
 wrote out of bounds

---
 include/malg/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e99972a..6b6920c 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -236,6 +236,9 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
         throw std::invalid_argument("For matrix multiplication, the number of columns in the first"
                                     "matrix must be equal to the number of rows in the second matrix.");
     }
+    if (A.cols() != B.cols()) {
+        throw std::invalid_argument("For in-place matrix multiplication, the two matrices must have the same number of columns.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output matrix.
-- 
2.43.0


From 6dca9837695728eccab9379144c070dc73fa9d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 27/55] fix: multiplying a matrix by a vector of another size
 read out of bounds

---
 include/malg/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 6b6920c..bc8f1bd 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -928,6 +928,10 @@ inline auto &operator/=(malg::Vector<T1> &a, const T2 b)
 template <typename T1, typename T2>
 inline auto operator*(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The number of columns of the matrix must be equal to the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
@@ -973,6 +977,10 @@ inline auto dot(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 template <typename T1, typename T2>
 inline auto dot(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The number of columns of the matrix must be equal to the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
-- 
2.43.0


From 57db1b1ebd0b9b4008a71b63e351d855fcfa4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 28/55] fix: hermitian_transpose did not compile

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index fb45a9a..cd4c768 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -59,7 +59,7 @@ inline auto powm(const MatrixBase<T> &A, std::size_t N)
 template <typename T>
 inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::complex<std::remove_const_t<T>>> result(A.cols(), A.rows(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
             result(c, r) = std::conj(A(r, c));
-- 
2.43.0


From 89f12d824800f29c9532813d58912d04e4fe806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 29/55] fix: determinant of a singular matrix larger than 4x4
 was the product of the pivots found so far

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index cd4c768..f7447df 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -173,7 +173,7 @@ inline auto determinant(const MatrixBase<CT> &matrix)
             }
             // If we did not find a non-zero value, we have a singular matrix.
             if (k == A.rows()) {
-                break;
+                return static_cast<T>(0.);
             }
             // Swap the rows.
             utility::swap_rows(A, c, k);
-- 
2.43.0


From 948041b6c1897f783623aa8d259645d7fd91fff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 30/55] fix: linalg::exp returned the transposed of the
 element-wise exponential

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index f7447df..a1faafd 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -386,10 +386,10 @@ inline auto div(const MatrixBase<T1> &A, const MatrixBase<T2> &B)
 template <typename T>
 inline auto exp(const MatrixBase<T> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::remove_const_t<T>> result(A.rows(), A.cols(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
-            result(c, r) = std::exp(A(r, c));
+            result(r, c) = std::exp(A(r, c));
         }
     }
     return result;
-- 
2.43.0


From 4bdf08e221f9cc92835da1ef9b967cbc727747e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 31/55] fix: LU decomposition of integer matrices truncated,
 and of constant views did not compile

---
 include/malg/linalg.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index a1faafd..5f5ab68 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -313,9 +313,12 @@ inline auto lu_decomposition(const MatrixBase<T> &A)
     if (!malg::utility::is_square(A)) {
         throw std::invalid_argument("The input matrix is not square.");
     }
+    // Select the right type, with integers the divisions would be truncated.
+    using value_t     = std::remove_const_t<T>;
+    using data_type_t = std::conditional_t<std::is_integral_v<value_t>, double, value_t>;
     std::size_t N = A.rows();
-    Matrix<T> l(N, N, 0);
-    Matrix<T> u(N, N, 0);
+    Matrix<data_type_t> l(N, N, 0);
+    Matrix<data_type_t> u(N, N, 0);
 
     std::size_t i, j, k;
     for (i = 0; i < N; i++) {
-- 
2.43.0


From e7c2e0461afe569d8d47853507efc2b1147e8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 32/55] fix: exponentials of integer matrices were truncated,
 and the one of constant views did not compile

---
 include/malg/linalg.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 5f5ab68..8f92f55 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -389,7 +389,10 @@ inline auto div(const MatrixBase<T1> &A, const MatrixBase<T2> &B)
 template <typename T>
 inline auto exp(const MatrixBase<T> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.rows(), A.cols(), 0.0);
+    // Select the right type, with integers the result would be truncated.
+    using value_t     = std::remove_const_t<T>;
+    using data_type_t = std::conditional_t<std::is_integral_v<value_t>, double, value_t>;
+    Matrix<data_type_t> result(A.rows(), A.cols(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
             result(r, c) = std::exp(A(r, c));
@@ -405,6 +408,9 @@ inline auto exp(const MatrixBase<T> &A)
 template <typename T>
 inline auto expm(const MatrixBase<T> &A, double accuracy)
 {
+    // Select the right type, with integers the result would be truncated.
+    using value_t     = std::remove_const_t<T>;
+    using data_type_t = std::conditional_t<std::is_integral_v<value_t>, double, value_t>;
     // TODO(enrico): use simplified form of "scale and square". Trade faster
     // coversion in power series for a couple of additional square operations.
     // TODO(enrico): better/faster algorithm than power series?
@@ -418,13 +424,13 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
     // init (k = 0)
     const auto batch_size      = A.rows() * A.rows();
     const auto square_accuracy = accuracy * accuracy * scale * scale;
-    auto mtk                   = malg::utility::eye<T>(A.rows(), A.cols(), 1); // scaled_a to the power k
-    auto ret                   = malg::utility::eye<T>(A.rows(), A.cols(), 1); // sum of power seriees
+    auto mtk                   = malg::utility::eye<data_type_t>(A.rows(), A.cols(), 1); // scaled_a to the power k
+    auto ret                   = malg::utility::eye<data_type_t>(A.rows(), A.cols(), 1); // sum of power seriees
     auto fac_inv               = double{ 1.0 };                                // inverse faculty
     auto rel_square_diff       = square_accuracy + 1.0;
 
     for (std::size_t batch_start_idx = 1; (rel_square_diff > square_accuracy && !malg::feq::approximately_equal_to_zero(fac_inv)); batch_start_idx += batch_size) {
-        auto local_accum = malg::Matrix<T>(A.rows(), A.cols());
+        auto local_accum = malg::Matrix<data_type_t>(A.rows(), A.cols());
         for (std::size_t i = 0; i < batch_size; ++i) {
             const double k = static_cast<double>(batch_start_idx + i);
             fac_inv        = fac_inv * (1.0 / k);
@@ -437,7 +443,7 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
         ret += local_accum;
         // Caclulate relative change in this iteration.
         // TODO(enrico): properly guard against division by zero
-        const malg::Matrix<T> rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
+        const malg::Matrix<data_type_t> rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
         rel_square_diff                 = malg::square_norm(rel_error);
     };
     // raise the result
-- 
2.43.0


From 1897122e53bb7b03614ecbd11fc3c5b2154a5b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:00 +0000
Subject: [PATCH 33/55] fix: log2_ceil of an integer matrix truncated the scale
 to zero

---
 include/malg/math.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index bc8f1bd..c3564ab 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1498,10 +1498,11 @@ auto sub_norm(const malg::MatrixBase<T> &A)
 template <typename T>
 auto log2_ceil(const malg::MatrixBase<T> &A)
 {
-    using data_type_t      = std::remove_const_t<malg::is_complex_t<T>>;
+    using value_t          = std::remove_const_t<malg::is_complex_t<T>>;
+    using data_type_t      = std::conditional_t<std::is_integral_v<value_t>, double, value_t>;
     std::size_t iterations = 0;
     data_type_t scale      = 1.0;
-    const auto norm        = malg::infinity_norm(A);
+    const data_type_t norm = malg::infinity_norm(A);
     while ((norm * scale) > 1.0) {
         scale *= 0.5;
         ++iterations;
-- 
2.43.0


From fb366853e57602e666ad8c0bc93f9f32e1b658fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:00 +0000
Subject: [PATCH 34/55] fix: QR decomposition and solve did not compile

---
 include/malg/linalg.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 8f92f55..b649bb9 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -8,6 +8,7 @@
 #include "malg/math.hpp"
 #include "malg/matrix.hpp"
 #include "malg/vector.hpp"
+#include "malg/view.hpp"
 
 #include <algorithm>
 #include <complex>
@@ -271,7 +272,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
         u[0]   = 1;
         // Finding Householder projection.
         return utility::eye(a.size(), a.size(), data_type_t(1.)) -
-               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / (u * u));
+               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / malg::dot(u, u));
     };
 
     // Initialize matrix R.
@@ -290,7 +291,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
             }
         }
         // Calculate Householder matrix i: rows and i: columns from R i: rows and ith column
-        View(H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
+        View(&H, Range{ i, H.rows() }, Range{ i, H.cols() }) = make_householder(utility::extract_column(R, i, i, -1));
         // Update Q and R.
         Q = Q * H;
         R = H * R;
@@ -363,9 +364,9 @@ auto solve(const Matrix<T> &A, const Vector<T> &b)
     if (rows > cols) {
         auto [_q, _r] = linalg::qr_decomposition(A);
         return malg::dot(
-            linalg::inverse(View(_r, 0, cols, 0, cols)),
+            linalg::inverse(View(&_r, 0, cols, 0, cols)),
             malg::dot(
-                linalg::transpose(View(_q, 0, rows, 0, cols)),
+                linalg::transpose(View(&_q, 0, rows, 0, cols)),
                 b));
     }
     // Underdetermined system.
-- 
2.43.0


From 49d03fc77a63c53d556362aa3f7c50f432e17a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 35/55] fix: QR decomposition of matrices with more columns
 than rows went past the last row

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index b649bb9..c9bcf4f 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -283,7 +283,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
     Matrix<data_type_t> H(R.rows(), R.rows(), data_type_t(0.));
 
     // Compute Q and R.
-    for (std::size_t i = 0; i < (R.cols() - (R.cols() == R.rows())); ++i) {
+    for (std::size_t i = 0; (i < R.cols()) && ((i + 1) < R.rows()); ++i) {
         // Initialize holder.
         for (std::size_t r = 0; r < H.rows(); ++r) {
             for (std::size_t c = 0; c < H.cols(); ++c) {
-- 
2.43.0


From c4e5f0230bcc4ea0309c398a5bec1358eb0d2025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 36/55] fix: QR decomposition of a matrix with a zero column
 returned NaNs

---
 include/malg/linalg.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index c9bcf4f..101e5a1 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -267,8 +267,13 @@ inline auto qr_decomposition(const Matrix<T> &A)
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, double>>;
     // This function is required to build the householder.
     static auto make_householder = [](const Vector<data_type_t> &a) {
+        const auto norm = malg::square_norm(a);
+        // There is nothing to mirror if the vector is zero.
+        if (norm == 0) {
+            return utility::eye(a.size(), a.size(), data_type_t(1.));
+        }
         // Find prependicular vector to mirror.
-        auto u = a / (a[0] + std::copysign(malg::square_norm(a), a[0]));
+        auto u = a / (a[0] + std::copysign(norm, a[0]));
         u[0]   = 1;
         // Finding Householder projection.
         return utility::eye(a.size(), a.size(), data_type_t(1.)) -
-- 
2.43.0


From 7f2d98ea781850f800fc571e150fa339c050204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 37/55] fix: obsv did not compile

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 48aea7b..f060a41 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -194,7 +194,7 @@ inline auto obsv(const MatrixBase<T> &A, const MatrixBase<T> &C)
         throw std::runtime_error("ctrb: A and C matrices dimensions doesn't match.");
     }
     // Create the observability matrix.
-    Matrix<T> result = C;
+    Matrix<T> result(C);
     // Construct the observability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::vstack(result, C * linalg::powm(A, i));
-- 
2.43.0


From fbba046a7fa4b2b7f05f02aff15fcff24c081681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 38/55] fix: simulate left the time of the last state to zero

---
 include/malg/control/control.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index f060a41..e9fb79a 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -148,6 +148,8 @@ inline auto simulate(
         x.emplace_back(step.first);
         y.emplace_back(step.second);
     }
+    // Set the time of the last state.
+    t[steps] = rtime;
     return std::make_tuple(t, x, y);
 }
 
-- 
2.43.0


From a21e94b0f2c1cb5a377c6f393d78dd0b29879a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 39/55] fix: acker read out of bounds with fewer poles than
 states

---
 include/malg/control/control.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index e9fb79a..b8bdc35 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -301,6 +301,10 @@ inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBa
         std::cerr << "acker: poles must be a vector.\n";
         exit(1);
     }
+    if (poles.cols() != A.rows()) {
+        std::cerr << "acker: the number of poles must be equal to the number of states.\n";
+        exit(1);
+    }
     // Make sure the system is controllable.
     auto ct = ctrb<T>(A, B);
     if (malg::feq::approximately_equal_to_zero(linalg::determinant(ct))) {
-- 
2.43.0


From 3e9bad8ec0cbec44839797ad4d4f1066a10bc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 40/55] fix: to_cpp did not compile

---
 include/malg/io.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 9475bbc..42dd5a8 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -330,13 +330,13 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Vector
 {
     std::stringstream ss;
     ss << "malg::Vector<" << type << "> " << name << " = {";
-    for (std::size_t i = 0; i < v->size(); ++i) {
+    for (std::size_t i = 0; i < v.size(); ++i) {
         if constexpr (malg::is_complex_v<T>) {
-            ss << v->operator[](i).real() << std::showpos << v->operator[](i).imag() << "i" << std::noshowpos;
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
         } else {
-            ss << v->operator[](i);
+            ss << v[i];
         }
-        if (i < (v->size() - 1)) {
+        if (i < (v.size() - 1)) {
             ss << ", ";
         }
     }
@@ -354,20 +354,20 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Matrix
 {
     std::stringstream ss;
     ss << "malg::Matrix<" << type << "> " << name << " = {";
-    for (std::size_t r = 0, c = 0; r < m->rows(); ++r) {
+    for (std::size_t r = 0, c = 0; r < m.rows(); ++r) {
         ss << "{";
-        for (c = 0; c < m->cols(); ++c) {
+        for (c = 0; c < m.cols(); ++c) {
             if constexpr (malg::is_complex_v<T>) {
-                ss << m->operator()(r, c).real() << std::showpos << m->operator()(r, c).imag() << "i" << std::noshowpos;
+                ss << m(r, c).real() << std::showpos << m(r, c).imag() << "i" << std::noshowpos;
             } else {
-                ss << m->operator()(r, c);
+                ss << m(r, c);
             }
-            if (c < (m->cols() - 1)) {
+            if (c < (m.cols() - 1)) {
                 ss << ",";
             }
         }
         ss << "}";
-        if (r < (m->rows() - 1)) {
+        if (r < (m.rows() - 1)) {
             ss << ",";
         }
     }
-- 
2.43.0


From 550e40891f0de027b5c7a4bad00ba8ad5f549b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:32 +0000
Subject: [PATCH 41/55] fix: reading a truncated header used uninitialised
 sizes

---
 include/malg/io.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 42dd5a8..2577cf9 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -161,8 +161,8 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::Range &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 {
-    std::size_t size, i;
-    char type;
+    std::size_t size = 0, i;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'V') {
@@ -188,8 +188,8 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
 {
-    std::size_t rows, cols, r = 0, c = 0;
-    char type;
+    std::size_t rows = 0, cols = 0, r = 0, c = 0;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'M') {
-- 
2.43.0


From 8f72e2ee678a2b6cadf8e70b87615df4d67d7170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 42/55] fix: comparing numbers of different types did not
 compile

---
 include/malg/feq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index 70f25f4..2dd646e 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -26,7 +26,7 @@ static inline auto &tolerance()
 template <typename T1, typename T2>
 inline bool approximately_equal(T1 a, T2 b)
 {
-    return std::abs(a - b) <= tolerance() * std::max(std::abs(a), std::abs(b));
+    return std::abs(a - b) <= tolerance() * std::max<double>(std::abs(a), std::abs(b));
 }
 
 /// @brief Checks if the fir floating point value is lesser than or equal to the second one.
-- 
2.43.0


From 8ea2555f1bb67e7b1aa9618c113edd2e45ac0b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:50 +0000
Subject: [PATCH 43/55] fix: infinite values were approximately equal to any
 finite value, and to zero

---
 include/malg/feq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index 2dd646e..7b38b5c 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -26,7 +26,12 @@ static inline auto &tolerance()
 template <typename T1, typename T2>
 inline bool approximately_equal(T1 a, T2 b)
 {
-    return std::abs(a - b) <= tolerance() * std::max<double>(std::abs(a), std::abs(b));
+    const auto magnitude = std::max<double>(std::abs(a), std::abs(b));
+    // The relative tolerance has no meaning with an infinite value.
+    if (std::isinf(magnitude)) {
+        return a == b;
+    }
+    return std::abs(a - b) <= tolerance() * magnitude;
 }
 
 /// @brief Checks if the fir floating point value is lesser than or equal to the second one.
@@ -58,7 +63,8 @@ inline bool approximately_greater_than_equal(T1 a, T2 b)
 template <typename T>
 inline bool approximately_equal_to_zero(T a)
 {
-    return std::abs(a) <= malg::feq::tolerance() * std::abs(a);
+    const auto magnitude = std::abs(a);
+    return !std::isinf(magnitude) && (magnitude <= malg::feq::tolerance() * magnitude);
 }
 
 } // namespace malg::feq
-- 
2.43.0


From dee06126094da65dea878592b8b73aeaec97bd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 44/55] fix: none of the eigenvalue functions compiled

---
 include/malg/eigen.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 9ab168e..97386d4 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -9,6 +9,8 @@
 ///     https://www.math.kth.se/na/SF2524/matber15/qrmethod.pdf
 ///     https://www.ams.org/journals/mcom/2002-71-240/S0025-5718-01-01387-4/S0025-5718-01-01387-4.pdf
 
+#pragma once
+
 #include "malg/utility.hpp"
 #include "malg/linalg.hpp"
 #include "malg/math.hpp"
@@ -48,12 +50,12 @@ template <typename T>
 inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
 {
     int N  = A.rows();
-    auto P = malg::utility::identity<std::complex<T>>(N);
+    auto P = malg::utility::identity<std::complex<T>>(N, 1.);
     auto H = A;
     for (int k = 0; k < N - 2; k++) // k is the working column
     {
         // X vector, based on the elements from k+1 down in the k-th column
-        auto xlength = malg::vector_length(H, k, k + 1);
+        auto xlength = malg::vector_length(H, k, k + 1, N);
 
         // U vector ( normalise X - rho.|x|.e_k )
         malg::Vector<std::complex<T>> U(N, 0);
@@ -75,7 +77,7 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
         }
 
         // Householder Matrix: P = I - 2 U U*T
-        auto PK = malg::utility::identity<std::complex<T>>(N);
+        auto PK = malg::utility::identity<std::complex<T>>(N, 1.);
         for (int r = k + 1; r < N; ++r) {
             for (int c = k + 1; c < N; ++c) {
                 PK(r, c) -= 2.0 * U[r] * std::conj(U[c]);
@@ -96,7 +98,7 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
 template <typename T>
 auto qr_factorise_givens(const malg::Matrix<std::complex<T>> &A)
 {
-    malg::Matrix<std::complex<T>> Q = malg::utility::identity<std::complex<T>>(A.rows());
+    malg::Matrix<std::complex<T>> Q = malg::utility::identity<std::complex<T>>(A.rows(), 1.);
     malg::Matrix<std::complex<T>> R(A);
     for (std::size_t i = 1, j = 0; i < A.rows(); ++i, j = i - 1) {
         // i : The row number
@@ -147,7 +149,7 @@ auto QRHessenberg(const malg::Matrix<std::complex<T>> &A)
     int N = A.rows();
 
     malg::Matrix<std::complex<T>> Told(N, N, 0.);
-    malg::Matrix<std::complex<T>> I = malg::utility::identity<std::complex<T>>(N);
+    malg::Matrix<std::complex<T>> I = malg::utility::identity<std::complex<T>>(N, 1.);
 
     // Stage 1: transform to hessenberg Matrix ( HM = Hessenberg Matrix, UT = unitary transformation )
     auto [HM, UT] = hessenberg(A);
-- 
2.43.0


From 580b5a8e588694dbe6ec8c12a05f05c972b92224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 45/55] fix: polyreduce of complex coefficients did not compile

---
 include/malg/control/control.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index b8bdc35..5094067 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -229,12 +229,12 @@ inline auto polyreduce(const Vector<T> &a)
 {
     std::size_t i, j;
     for (j = 0; j < a.size(); ++j) {
-        if (a[j] != 0) {
+        if (a[j] != T(0)) {
             break;
         }
     }
     if (j == a.size()) {
-        return Vector<T>({ 0 });
+        return Vector<T>(1, T(0));
     }
     Vector<T> c(a.size() - j);
     for (i = j; i < a.size(); ++i) {
-- 
2.43.0


From bce568809bc112081faf1824c6c1358b6f6ca1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:31 +0000
Subject: [PATCH 46/55] fix: lists not matching the shape of the matrix were
 read out of bounds

---
 include/malg/matrix.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 63c90af..82023a9 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -66,6 +66,9 @@ public:
         : MatrixBase<T>(rows, cols),
           _data(rows * cols)
     {
+        if (data.size() != (rows * cols)) {
+            throw std::invalid_argument("The number of elements does not match the shape.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
@@ -82,6 +85,9 @@ public:
         : MatrixBase<T>(rows, cols),
           _data(rows * cols)
     {
+        if (data.size() != (rows * cols)) {
+            throw std::invalid_argument("The number of elements does not match the shape.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
@@ -104,6 +110,12 @@ public:
         if (data.begin()->size() <= 0) {
             throw std::invalid_argument("The input list has no columns.");
         }
+        // Check that all the rows have the same number of columns.
+        for (const auto &row : data) {
+            if (row.size() != data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different lengths.");
+            }
+        }
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
@@ -373,6 +385,12 @@ public:
         if (data.begin()->size() <= 0) {
             return *this;
         }
+        // Check that all the rows have the same number of columns.
+        for (const auto &row : data) {
+            if (row.size() != data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different lengths.");
+            }
+        }
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
-- 
2.43.0


From 3ce20caa93c08ae373ba95869f9c867479aad984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:33 +0000
Subject: [PATCH 47/55] fix: failing allocations were written through

---
 include/malg/vector.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index ec72143..7c897b8 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -7,6 +7,8 @@
 #include <cassert>
 #include <cstdlib>
 #include <initializer_list>
+#include <limits>
+#include <new>
 #include <utility>
 
 //#define MEM_TRACE
@@ -334,8 +336,16 @@ private:
         if (size == _size) {
             return true;
         }
-        // Re-allocate the data.
-        _data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        // The number of bytes must be representable.
+        if (size > (std::numeric_limits<std::size_t>::max() / sizeof(T))) {
+            throw std::bad_alloc();
+        }
+        // Re-allocate the data, upon failure the current data is still there.
+        T *new_data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        if (new_data == nullptr) {
+            throw std::bad_alloc();
+        }
+        _data = new_data;
 #ifdef MEM_TRACE
         if (_size == 0)
             std::cout << "Allocating    " << (sizeof(T) * size) << " bytes (" << _data << ")\n";
-- 
2.43.0


From b52dd655106a6202ae19507f4e2edf33600084f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:12 +0000
Subject: [PATCH 48/55] fix: shapes with more elements than can be counted
 wrapped around

---
 include/malg/matrix.hpp      | 10 +++++-----
 include/malg/matrix_base.hpp | 14 ++++++++++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 82023a9..764c30d 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -53,7 +53,7 @@ public:
     /// @param initial
     Matrix(std::size_t rows, std::size_t cols, const T &initial = T(0))
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols, initial)
+          _data(MatrixBase<T>::number_of_elements(rows, cols), initial)
     {
         // Nothing to do.
     }
@@ -64,7 +64,7 @@ public:
     /// @param data
     Matrix(std::size_t rows, std::size_t cols, const std::initializer_list<T> &data)
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols)
+          _data(MatrixBase<T>::number_of_elements(rows, cols))
     {
         if (data.size() != (rows * cols)) {
             throw std::invalid_argument("The number of elements does not match the shape.");
@@ -83,7 +83,7 @@ public:
     /// @param data
     Matrix(std::size_t rows, std::size_t cols, const std::vector<T> &data)
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols)
+          _data(MatrixBase<T>::number_of_elements(rows, cols))
     {
         if (data.size() != (rows * cols)) {
             throw std::invalid_argument("The number of elements does not match the shape.");
@@ -228,7 +228,7 @@ public:
     /// @return a reference to this matrix.
     auto &reshape(std::size_t rows, std::size_t cols)
     {
-        if (this->size() != (rows * cols)) {
+        if (this->size() != MatrixBase<T>::number_of_elements(rows, cols)) {
             throw std::invalid_argument("The new shape has a different number of elements.");
         }
         this->_rows = rows;
@@ -251,7 +251,7 @@ public:
         if (_rows == rows) {
 #endif
             // Resize the data.
-            _data.resize(rows * cols);
+            _data.resize(MatrixBase<T>::number_of_elements(rows, cols));
         } else {
             malg::Matrix<T> m(rows, cols, static_cast<T>(0));
             for (std::size_t r = 0; r < std::min(_rows, rows); ++r) {
diff --git a/include/malg/matrix_base.hpp b/include/malg/matrix_base.hpp
index 9198668..16c9cfc 100644
--- a/include/malg/matrix_base.hpp
+++ b/include/malg/matrix_base.hpp
@@ -5,6 +5,8 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
+#include <stdexcept>
 
 /// @brief If NOT commented, the matrices works in row-major. Otherwise, they
 /// work in column-major.
@@ -22,6 +24,18 @@ protected:
     /// Columns of the matrix.
     std::size_t _cols;
 
+    /// @brief Computes the number of elements of a matrix.
+    /// @param rows the number of rows.
+    /// @param cols the number of columns.
+    /// @returns the number of elements, which is checked to be representable.
+    static inline std::size_t number_of_elements(std::size_t rows, std::size_t cols)
+    {
+        if ((cols != 0) && (rows > (std::numeric_limits<std::size_t>::max() / cols))) {
+            throw std::length_error("The matrix has too many elements.");
+        }
+        return rows * cols;
+    }
+
 public:
     /// The data types of the element of the matrix.
     using value_type = T;
-- 
2.43.0


From 262823ad36daf6dade4dc5cd1f25b5b55952db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 49/55] fix: to_matlab wrote complex vectors as pairs, unlike
 matrices

---
 include/malg/io.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 2577cf9..8eae628 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -284,7 +284,11 @@ inline std::string to_matlab(const char *name, const malg::Vector<T> &v)
     std::stringstream ss;
     ss << name << " = [";
     for (std::size_t i = 0; i < v.size(); ++i) {
-        ss << v[i];
+        if constexpr (malg::is_complex_v<T>) {
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
+        } else {
+            ss << v[i];
+        }
         if (i < (v.size() - 1)) {
             ss << " ";
         }
-- 
2.43.0


From 880006eece3c091b647f1845f662660302141890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 50/55] fix: the Hessenberg reduction of columns smaller than
 the machine epsilon was not unitary

---
 include/malg/eigen.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 97386d4..ab72574 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -62,7 +62,7 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
         std::complex<T> rho(1.0, 0.);
         auto xk  = H(k + 1, k);
         auto axk = std::abs(xk);
-        if (axk > std::numeric_limits<T>::epsilon()) {
+        if (axk > 0) {
             rho = -xk / axk;
         }
         U[k + 1]     = xk - rho * xlength;
@@ -71,9 +71,11 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
             U[i] = H(i, k);
             ulength += std::norm(U[i]);
         }
-        ulength = std::max(std::sqrt(ulength), std::numeric_limits<T>::epsilon());
-        for (int i = k + 1; i < N; i++) {
-            U[i] /= ulength;
+        ulength = std::sqrt(ulength);
+        if (ulength > 0) {
+            for (int i = k + 1; i < N; i++) {
+                U[i] /= ulength;
+            }
         }
 
         // Householder Matrix: P = I - 2 U U*T
-- 
2.43.0


From a6c1381c0fd72804d1588f4dff0751327fc49335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 51/55] fix: assigning overlapping views copies the elements as
 they were

---
 include/malg/view.hpp | 59 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 2d3a1cd..749cefb 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -98,9 +98,7 @@ public:
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
-        for (std::size_t r = 0; r < rhs.rows(); ++r)
-            for (std::size_t c = 0; c < rhs.cols(); ++c)
-                this->at(r, c) = rhs(r, c);
+        this->copy_from(rhs);
         return *this;
     }
 
@@ -111,9 +109,7 @@ public:
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
-        for (std::size_t r = 0; r < rhs.rows(); ++r)
-            for (std::size_t c = 0; c < rhs.cols(); ++c)
-                this->at(r, c) = rhs(r, c);
+        this->copy_from(rhs);
         return *this;
     }
 
@@ -125,9 +121,7 @@ public:
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
-        for (std::size_t r = 0; r < rhs.rows(); ++r)
-            for (std::size_t c = 0; c < rhs.cols(); ++c)
-                this->at(r, c) = rhs(r, c);
+        this->copy_from(rhs);
         return *this;
     }
 
@@ -239,6 +233,22 @@ public:
     {
         return _matrix->at(_row.start + row, _col.start + col);
     }
+
+private:
+    /// @brief Copies the elements of the other matrix, as they were before the
+    /// assignment even if the two share the storage.
+    /// @param rhs the other matrix.
+    template <typename T2>
+    inline void copy_from(const MatrixBase<T2> &rhs)
+    {
+        if ((this->size() > 0) && (static_cast<const void *>(this->data()) == static_cast<const void *>(rhs.data()))) {
+            this->copy_from(Matrix<std::remove_const_t<T2>>(rhs));
+            return;
+        }
+        for (std::size_t r = 0; r < rhs.rows(); ++r)
+            for (std::size_t c = 0; c < rhs.cols(); ++c)
+                this->at(r, c) = rhs(r, c);
+    }
 };
 
 template <typename T>
@@ -310,9 +320,18 @@ public:
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
-        for (std::size_t r = 0; r < rhs.rows(); ++r)
-            for (std::size_t c = 0; c < rhs.cols(); ++c)
-                this->at(r, c) = rhs(r, c);
+        this->copy_from(rhs);
+        return *this;
+    }
+
+    /// @brief Assign operator, it copies the elements as all the others do.
+    /// @param rhs the other view.
+    /// @returns a reference to this view.
+    inline auto &operator=(const CofactorView<MatrixType> &rhs)
+    {
+        assert(this->rows() == rhs.rows());
+        assert(this->cols() == rhs.cols());
+        this->copy_from(rhs);
         return *this;
     }
 
@@ -389,6 +408,22 @@ public:
     {
         return _matrix->at(row + (row >= _excluded_row), col + (col >= _excluded_col));
     }
+
+private:
+    /// @brief Copies the elements of the other matrix, as they were before the
+    /// assignment even if the two share the storage.
+    /// @param rhs the other matrix.
+    template <typename T2>
+    inline void copy_from(const MatrixBase<T2> &rhs)
+    {
+        if ((this->size() > 0) && (static_cast<const void *>(this->data()) == static_cast<const void *>(rhs.data()))) {
+            this->copy_from(Matrix<std::remove_const_t<T2>>(rhs));
+            return;
+        }
+        for (std::size_t r = 0; r < rhs.rows(); ++r)
+            for (std::size_t c = 0; c < rhs.cols(); ++c)
+                this->at(r, c) = rhs(r, c);
+    }
 };
 
 } // namespace malg
-- 
2.43.0


From 072d21a235e47324718a93f6ca298b7948419605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 52/55] fix: += and -= between overlapping views use the
 elements as they were

---
 include/malg/math.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index c3564ab..657a9eb 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -70,6 +70,14 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
     if (A.cols() != B.cols()) {
         throw std::invalid_argument("Matrices has different number of colmuns.");
     }
+    // The elements of B are taken as they were, even if the two overlap.
+    if ((A.size() > 0) && (static_cast<const void *>(A.data()) == static_cast<const void *>(B.data()))) {
+        const malg::Matrix<std::remove_const_t<T2>> source(B);
+        for (std::size_t i = 0; i < A.size(); ++i) {
+            A[i] += source[i];
+        }
+        return A;
+    }
     // Compute the result.
     for (std::size_t i = 0; i < A.size(); ++i) {
         A[i] += B[i];
@@ -148,6 +156,14 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
     if (A.cols() != B.cols()) {
         throw std::invalid_argument("Matrices has different number of colmuns.");
     }
+    // The elements of B are taken as they were, even if the two overlap.
+    if ((A.size() > 0) && (static_cast<const void *>(A.data()) == static_cast<const void *>(B.data()))) {
+        const malg::Matrix<std::remove_const_t<T2>> source(B);
+        for (std::size_t i = 0; i < A.size(); ++i) {
+            A[i] -= source[i];
+        }
+        return A;
+    }
     // Compute the result.
     for (std::size_t i = 0; i < A.size(); ++i) {
         A[i] -= B[i];
-- 
2.43.0


From cf7782007eb01dc7d995fee494270bb6d7a4a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:05 +0000
Subject: [PATCH 53/55] fix: constant complex elements are recognised as
 complex

---
 include/malg/type_traits.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/malg/type_traits.hpp b/include/malg/type_traits.hpp
index a7c24f3..ad06d4c 100644
--- a/include/malg/type_traits.hpp
+++ b/include/malg/type_traits.hpp
@@ -26,6 +26,13 @@ struct is_complex<std::complex<T>> : public std::true_type {
     using type = T; ///< An alias for T.
 };
 
+/// @brief Same as above, for the constant elements of a view of a constant matrix.
+/// @tparam T the internal type of a complex.
+template <typename T>
+struct is_complex<const std::complex<T>> : public std::true_type {
+    using type = T; ///< An alias for T.
+};
+
 /// @brief Alias template for checking if a type is complex.F
 /// @tparam T the type we are analyzing.
 /// @details
-- 
2.43.0


From c1af8a728a5ea7391ea75f13570d3078c2c504f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 54/55] fix: expm accepts single-precision matrices

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 101e5a1..c2e8872 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -449,8 +449,8 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
         ret += local_accum;
         // Caclulate relative change in this iteration.
         // TODO(enrico): properly guard against division by zero
-        const malg::Matrix<data_type_t> rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
-        rel_square_diff                 = malg::square_norm(rel_error);
+        const auto rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
+        rel_square_diff      = malg::square_norm(rel_error);
     };
     // raise the result
     for (std::size_t k = 0; k < iterations; ++k) {
-- 
2.43.0


From a0f41786ef1b63b8ca383ac7a803e24ca8426fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:47 +0000
Subject: [PATCH 55/55] fix: the control functions accept views of constant
 matrices

---
 include/malg/control/control.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 5094067..1acbb5b 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -168,7 +168,7 @@ inline auto ctrb(const MatrixBase<T> &A, const MatrixBase<T> &B)
         throw std::runtime_error("ctrb: A and B matrices dimensions doesn't match.");
     }
     // Create the controllability matrix.
-    Matrix<T> result(B);
+    Matrix<std::remove_const_t<T>> result(B);
     // Construct the controllability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::hstack(result, linalg::powm(A, i) * B);
@@ -196,7 +196,7 @@ inline auto obsv(const MatrixBase<T> &A, const MatrixBase<T> &C)
         throw std::runtime_error("ctrb: A and C matrices dimensions doesn't match.");
     }
     // Create the observability matrix.
-    Matrix<T> result(C);
+    Matrix<std::remove_const_t<T>> result(C);
     // Construct the observability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::vstack(result, C * linalg::powm(A, i));
@@ -249,14 +249,16 @@ inline auto polyreduce(const Vector<T> &a)
 template <typename T>
 inline auto poly(const MatrixBase<T> &A)
 {
+    // The coefficients are not constant, even when the elements of A are.
+    using value_t = std::remove_const_t<T>;
     // An empty matrix.
     if ((A.size() == 0)) {
-        return Vector<T>{ 1 };
+        return Vector<value_t>{ 1 };
     }
 
     // A row/column vector.
     if ((A.rows() == 1) || (A.cols() == 1)) {
-        Vector<T> c(A.size() + 1);
+        Vector<value_t> c(A.size() + 1);
         c[0] = 1;
         for (std::size_t j = 0; j < A.size(); ++j) {
             for (std::size_t i = j + 1; i >= 1; --i) {
@@ -270,12 +272,12 @@ inline auto poly(const MatrixBase<T> &A)
         throw std::runtime_error("poly: Matrix A must be square.");
     }
     auto n = A.rows();
-    Vector<T> c(n + 1);
-    Matrix<T> B(A);
+    Vector<value_t> c(n + 1);
+    Matrix<value_t> B(A);
     auto last_c = trace(B);
     c[0]        = 1;
     c[1]        = -last_c;
-    auto I      = utility::identity<T>(B.rows(), 1);
+    auto I      = utility::identity<value_t>(B.rows(), 1);
     for (std::size_t m = 2; m < (n + 1); ++m) {
         B      = A * (B - (I * last_c));
         last_c = trace(B) / static_cast<double>(m);
@@ -314,12 +316,12 @@ inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBa
     // Compute the desired characteristic polynomial.
     auto p = poly(poles);
     // Place the poles using Ackermann's method.
-    auto Ap = utility::zeros<T>(A.rows(), A.cols());
+    auto Ap = utility::zeros<std::remove_const_t<T>>(A.rows(), A.cols());
     for (std::size_t i = 0; i < (A.rows() + 1); ++i) {
         Ap += linalg::powm(A, (A.cols() - i)) * p[i];
     }
     // Prepare the selection matrix.
-    auto selection = utility::zeros<T>(1, ct.rows());
+    auto selection = utility::zeros<std::remove_const_t<T>>(1, ct.rows());
     // We are interested only in the last row.
     selection[ct.rows() - 1] = 1;
     // Compute the final matrix and select only the last row.
-- 
2.43.0

