From a30bf36f30090d4e1dbcd3ee80f429eff661b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 01/42] fix: release matrix storage with delete[]

---
 src/libcatnip/matrix.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index b206b70..eafd277 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -416,7 +416,7 @@ int Matrix::resize(int r, int c) {
     }
   }
 
-  delete elem;
+  delete[] elem;
   rows = r;
   cols = c;
   shel = 1;
@@ -488,7 +488,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   } else if (r < rows) {
@@ -503,7 +503,7 @@ void Matrix::set_rows(int r) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     rows = r;
     elem = temp;
   }
@@ -545,7 +545,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   } else if (c < cols) {
@@ -560,7 +560,7 @@ void Matrix::set_cols(int c) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     cols = c;
     elem = temp;
   }
@@ -585,7 +585,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   } else if (s < shel) {
@@ -600,7 +600,7 @@ void Matrix::set_shel(int s) {
         }
       }
     }
-    delete elem;
+    delete[] elem;
     shel = s;
     elem = temp;
   }
-- 
2.43.0


From f14be5d0a37237f65d599f01127c7a0c81bfcae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 02/42] fix: matrix copies and assignments own their contents,
 all shelves included

---
 src/libcatnip/matrix.cpp | 24 ++++++++++++++++++------
 src/libcatnip/matrix.hpp |  1 +
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index eafd277..ac0bde9 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -279,7 +279,6 @@ Matrix::Matrix(vector<vector<double>> vv_data) {
   cols = vv_data.at(0).size();
   shel = 1;
   elem = new double[rows * cols];
-  elem = new double[rows * cols];
 
   int r = 1;
   for (auto v : vv_data) {
@@ -425,13 +424,26 @@ int Matrix::resize(int r, int c) {
   return 0;
 }
 
+Matrix::Matrix(const Matrix &m) {
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = new double[rows * cols * shel];
+  for (int i = 0; i < rows * cols * shel; ++i) {
+    elem[i] = m.elem[i];
+  }
+}
+
 Matrix &Matrix::operator=(const Matrix &m) {
-  this->resize(m.get_rows(), m.get_cols());
+  if (this == &m) return *this;
 
-  for (int i = 1; i <= m.get_rows(); ++i) {
-    for (int j = 1; j <= m.get_cols(); ++j) {
-      this->set_elem(m.get_elem(i, j), i, j);
-    }
+  delete[] elem;
+  rows = m.rows;
+  cols = m.cols;
+  shel = m.shel;
+  elem = new double[rows * cols * shel];
+  for (int i = 0; i < rows * cols * shel; ++i) {
+    elem[i] = m.elem[i];
   }
   return *this;
 }
diff --git a/src/libcatnip/matrix.hpp b/src/libcatnip/matrix.hpp
index cce1c3e..f428fac 100644
--- a/src/libcatnip/matrix.hpp
+++ b/src/libcatnip/matrix.hpp
@@ -22,6 +22,7 @@ class Matrix {
   explicit Matrix(const int r);
   Matrix(const int r, const int c);
   Matrix(const int r, const int c, const int s);
+  Matrix(const Matrix &m);
 
   Matrix &operator=(const Matrix &m);
   // manipulators
-- 
2.43.0


From 17f6c445b7bb055cdbaf555c1c37e92f34c53814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 03/42] fix: set_rows, set_cols and set_shel keep the matrix
 contents

---
 src/libcatnip/matrix.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index ac0bde9..11c4496 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -492,7 +492,7 @@ void Matrix::set_rows(int r) {
     for (int i = 1; i <= r; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (r <= rows) {
+          if (i <= rows) {
             temp[index(i, j, k)] = elem[index(i, j, k)];
           } else {
             temp[index(i, j, k)] = 0;
@@ -549,10 +549,10 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          if (c <= cols) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (j <= cols) {
+            temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = 0;
           }
         }
       }
@@ -568,7 +568,7 @@ void Matrix::set_cols(int c) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= c; j++) {
         for (int k = 1; k <= shel; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * c * shel + (j - 1) * shel + k - 1] = elem[index(i, j, k)];
         }
       }
     }
@@ -589,10 +589,10 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          if (s <= shel) {
-            temp[index(i, j, k)] = elem[index(i, j, k)];
+          if (k <= shel) {
+            temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = elem[index(i, j, k)];
           } else {
-            temp[index(i, j, k)] = 0;
+            temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = 0;
           }
         }
       }
@@ -608,7 +608,7 @@ void Matrix::set_shel(int s) {
     for (int i = 1; i <= rows; i++) {
       for (int j = 1; j <= cols; j++) {
         for (int k = 1; k <= s; k++) {
-          temp[index(i, j, k)] = elem[index(i, j, k)];
+          temp[(i - 1) * cols * s + (j - 1) * s + k - 1] = elem[index(i, j, k)];
         }
       }
     }
-- 
2.43.0


From 0525cfe5cd409d9dc452dbcb96136c424c4ae37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 04/42] fix: a matrix that owns its contents releases them

---
 src/libcatnip/matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/matrix.hpp b/src/libcatnip/matrix.hpp
index f428fac..788cfa6 100644
--- a/src/libcatnip/matrix.hpp
+++ b/src/libcatnip/matrix.hpp
@@ -23,6 +23,7 @@ class Matrix {
   Matrix(const int r, const int c);
   Matrix(const int r, const int c, const int s);
   Matrix(const Matrix &m);
+  ~Matrix() { delete[] elem; }
 
   Matrix &operator=(const Matrix &m);
   // manipulators
-- 
2.43.0


From 8c352dacfe31ff7da3466358ccc345cb0b7ef1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 05/42] fix: set_col takes one value per row

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 11c4496..7be5ad7 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -469,7 +469,7 @@ void Matrix::set_row(vector<double> row, int r) {
 
 void Matrix::set_col(vector<double> col, int c) {
 
-  if (get_cols() != static_cast<int>(col.size())) {
+  if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
   }
   for (int i = 1; i <= get_rows(); ++i) {
-- 
2.43.0


From 11c2f5de8bf4a2e102a6b3fad3adb5ff1a71f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 06/42] fix: getCol returns one element per row

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 7be5ad7..2f13131 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -946,7 +946,7 @@ Matrix Matrix::getCol(int C) const {
     printf(" because mat has only %d cols\n.", this->get_cols());
     exit(1);
   }
-  Matrix mat2(this->get_cols(), 1, this->get_shel());
+  Matrix mat2(this->get_rows(), 1, this->get_shel());
 
   for (int i = 1; i <= this->get_rows(); i++) {
     for (int k = 1; k <= this->get_shel(); k++) {
-- 
2.43.0


From ed5961469bcafe2fc3324375704ac7886e6c463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 07/42] fix: refuse to concatenate matrices of different sizes

---
 src/libcatnip/matrix.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 2f13131..e54274c 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -76,15 +76,13 @@ Matrix Matrix_concatenate_rows(Matrix mat1,const Matrix & mat2) {
   if (mat1.get_cols() != mat2.get_cols()) {
     std::cerr << "ERROR to concatenate the rows mat1 and mat2 must\n";
     std::cerr << " 			have the same number of cols!\n";
-    Matrix m;
-    return m;
+    throw invalid_argument("ERROR cannot concatenate, the matrix sizes differ");
   }
 
   if (mat1.get_shel() != mat2.get_shel()) {
     std::cerr << "ERROR to concatenate the rows mat1 and mat2 must\n";
     std::cerr << " 			have the same number of shelves!\n";
-    Matrix m;
-    return m;
+    throw invalid_argument("ERROR cannot concatenate, the matrix sizes differ");
   }
 
   int totalrows;
@@ -126,15 +124,13 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
   if (mat1.get_rows() != mat2.get_rows()) {
     std::cerr << "ERROR to concatenate the cols mat1 and mat2 must\n";
     std::cerr << " 			have the same number of rows!\n";
-    Matrix m;
-    return m;
+    throw invalid_argument("ERROR cannot concatenate, the matrix sizes differ");
   }
 
   if (mat1.get_shel() != mat2.get_shel()) {
     std::cerr << "ERROR to concatenate the rows mat1 and mat2 must\n";
     std::cerr << " 			have the same number of shelves!\n";
-    Matrix m;
-    return m;
+    throw invalid_argument("ERROR cannot concatenate, the matrix sizes differ");
   }
 
   int totalcols;
-- 
2.43.0


From 2f43c783bf72fdea9d450f5af4c2e5aa03220f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 08/42] fix: refuse rows and columns outside of the matrix

---
 src/libcatnip/matrix.cpp | 44 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index e54274c..177fc5e 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -449,6 +449,9 @@ int Matrix::index(const int r, const int c, const int s) const {
 }
 
 void Matrix::set_row(vector<double> row, int r) {
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
 
   if (get_cols() != static_cast<int>(row.size())) {
     throw invalid_argument("vector is not the same size as matrix");
@@ -464,6 +467,9 @@ void Matrix::set_row(vector<double> row, int r) {
 }
 
 void Matrix::set_col(vector<double> col, int c) {
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
 
   if (get_rows() != static_cast<int>(col.size())) {
     throw invalid_argument("vector is not the same size as matrix");
@@ -518,6 +524,9 @@ void Matrix::set_rows(int r) {
 }
 
 vector<double> Matrix::get_col(int c) const{
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
   vector<double> col_data;
   for (int i = 1; i <= rows; i++) {
     col_data.push_back(elem[index(i, c, 1)]);
@@ -526,6 +535,9 @@ vector<double> Matrix::get_col(int c) const{
 }
 
 vector<double> Matrix::get_row(int r) const {
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
   vector<double> row_data;
   for (int i = 1; i <= cols; i++) {
     row_data.push_back(elem[index(r, i, 1)]);
@@ -614,7 +626,10 @@ void Matrix::set_shel(int s) {
   }
 }
 
-void Matrix::set_elem(double val) { elem[0] = val; }
+void Matrix::set_elem(double val) {
+  if (total_elem() < 1) throw invalid_argument("matrix is empty");
+  elem[0] = val;
+}
 
 void Matrix::set_elem(double val, int r) {
   if (r > rows) {
@@ -704,7 +719,10 @@ int Matrix::get_shel() const { return shel; }
 
 int Matrix::total_elem() { return rows * cols * shel; }
 
-double Matrix::get_elem() const { return elem[0]; }
+double Matrix::get_elem() const {
+  if (rows * cols * shel < 1) throw invalid_argument("matrix is empty");
+  return elem[0];
+}
 
 double Matrix::get_elem(const int r) const {
   if (r < 1) {
@@ -741,6 +759,12 @@ double Matrix::get_elem(const int r, const int c) const {
 }
 
 double *Matrix::get_elem_ptr(const int r, const int c) const {
+  if (r < 1 || r > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
+  if (c < 1 || c > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
   return &elem[index(r, c, 1)];
 }
 
@@ -777,6 +801,9 @@ double Matrix::get_elem(const int r, const int c, const int s) const {
 }
 
 void Matrix::swap_row(int r_from, int r_to) {
+  if (r_from < 1 || r_from > rows || r_to < 1 || r_to > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
   if (r_from == r_to) return;
 
   vector<double> row_f = get_row(r_from);
@@ -786,6 +813,9 @@ void Matrix::swap_row(int r_from, int r_to) {
 }
 
 void Matrix::swap_col(int c_from, int c_to) {
+  if (c_from < 1 || c_from > cols || c_to < 1 || c_to > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
   if (c_from == c_to) return;
 
   vector<double> col_f = get_col(c_from);
@@ -795,6 +825,9 @@ void Matrix::swap_col(int c_from, int c_to) {
 }
 
 void Matrix::move_row(int r_from, int r_to) {
+  if (r_from < 1 || r_from > rows || r_to < 1 || r_to > rows) {
+    throw invalid_argument("row is outside of the matrix");
+  }
 
   if (r_from == r_to) return;
 
@@ -819,6 +852,9 @@ void Matrix::move_row(int r_from, int r_to) {
 }
 
 void Matrix::move_col(int c_from, int c_to) {
+  if (c_from < 1 || c_from > cols || c_to < 1 || c_to > cols) {
+    throw invalid_argument("column is outside of the matrix");
+  }
 
   if (c_from == c_to) return;
 
@@ -918,7 +954,7 @@ Matrix Matrix::invert() const{
 
 Matrix Matrix::getRow(int R) const{
 
-  if (this->get_rows() < R) {
+  if (R < 1 || this->get_rows() < R) {
     printf("ERROR Matrix_getRow cannot return R %d", R);
     printf(" because mat has only %d rows\n.", this->get_rows());
     exit(1);
@@ -937,7 +973,7 @@ Matrix Matrix::getRow(int R) const{
 
 Matrix Matrix::getCol(int C) const {
 
-  if (this->get_cols() < C) {
+  if (C < 1 || this->get_cols() < C) {
     printf("ERROR Matrix_getCol cannot return C %d", C);
     printf(" because mat has only %d cols\n.", this->get_cols());
     exit(1);
-- 
2.43.0


From ec8f868581baba197196890fe6c1bf81eb8967b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 09/42] fix: compare coordinates with all their digits and
 without the sign of zero

---
 src/libcatnip/matrix.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 177fc5e..2a45464 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -166,8 +166,9 @@ Matrix Matrix_concatenate_cols(const Matrix &mat1, const Matrix &mat2) {
 
 string double_tos(double f, int nd) {
   ostringstream ostr;
-  int tens = stod("1" + string(nd, '0'));
-  ostr << round(f * tens) / tens;
+  double tens = stod("1" + string(nd, '0'));
+  ostr.precision(17);
+  ostr << round(f * tens) / tens + 0.0;
   return ostr.str();
 }
 
-- 
2.43.0


From e2a180f30f2625fd6f96612eccc31b282f2d48ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 10/42] fix: refuse element access by row in an empty matrix

---
 src/libcatnip/matrix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 2a45464..2381b3a 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -644,6 +644,7 @@ void Matrix::set_elem(double val, int r) {
     exit(1);
   };
 
+  if (total_elem() < 1) throw invalid_argument("matrix is empty");
   elem[index(r, 1, 1)] = val;
 }
 
@@ -735,6 +736,7 @@ double Matrix::get_elem(const int r) const {
         "Matrix\n");
     exit(1);
   }
+  if (rows * cols * shel < 1) throw invalid_argument("matrix is empty");
   return elem[index(r, 1, 1)];
 }
 
-- 
2.43.0


From 22735e289d9897d199d61f7e940865808cb85648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 11/42] fix: refuse an overlap matrix that is not square in the
 dimer's basis

---
 src/libcatnip/qc_functions.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 963c6fd..e5d570a 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -586,7 +586,8 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
   unscrambled = false;
   counterPoise_ = cp;
   // Consistency check
-  if (matS->get_cols() != matPCoef->get_cols()) {
+  if (matS->get_cols() != matPCoef->get_cols() ||
+      matS->get_rows() != matPCoef->get_cols()) {
     throw invalid_argument(
         "The overlap matrix must have the same number "
         "of basis functions as the dimer");
-- 
2.43.0


From 922cd3d18cb6455dfc460f71d24ca37403db53b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 12/42] fix: refuse atoms that do not match the dimer one to
 one

---
 src/libcatnip/qc_functions.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index e5d570a..af10618 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -413,11 +413,31 @@ Matrix *createNewMatrix(list<Matrix *> &p_atom_mat_coef, int rows, int cols,
   return mergeListOfMatrices(p_atom_mat_coef, rows, cols, ColRow);
 }
 
+// The atoms can only be rearranged if every atom of the matrix is matched
+// exactly once and the basis functions of the atoms add up to the matrix
+static void checkMatches(vector<int> match, const vector<int> &match2,
+                         const vector<int> &basisFunc, int num_basis_func) {
+  match.insert(match.end(), match2.begin(), match2.end());
+  sort(match.begin(), match.end());
+  bool one_to_one = match.size() == basisFunc.size();
+  for (size_t i = 0; one_to_one && i < match.size(); ++i) {
+    one_to_one = match.at(i) == static_cast<int>(i) + 1;
+    num_basis_func -= basisFunc.at(i);
+  }
+  if (!one_to_one || num_basis_func != 0) {
+    throw invalid_argument(
+        "The atoms of the monomers and their basis functions do not match the "
+        "atoms of the dimer one to one");
+  }
+}
+
 // unscramble the coefficients
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
                         const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncP, Matrix *dimerCoef) {
 
+  checkMatches(matchDimerA, matchDimerB, basisFuncP, dimerCoef->get_cols());
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -454,6 +474,8 @@ Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerB,
                         const std::vector<int> &basisFuncB, Matrix *Coef) {
 
+  checkMatches(matchDimerB, {}, basisFuncB, Coef->get_cols());
+
   // Let's reduce the complexity of the problem by instead of working
   // with the basis functions lets just work with the atoms. We can do
   // this by treating all the basis functions associated with a single
@@ -487,6 +509,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &matchDimerB,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatches(matchDimerA, matchDimerB, basisFuncP, S->get_cols());
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
@@ -539,6 +563,8 @@ Matrix *unscramble_S(const std::vector<int> &matchDimerA,
 Matrix *unscramble_S(const std::vector<int> &matchDimerA,
                      const std::vector<int> &basisFuncP, Matrix *S) {
 
+  checkMatches(matchDimerA, {}, basisFuncP, S->get_cols());
+
   Matrix *S_new;
   {
     list<Matrix *> p_atom_mat_S = splitCoefsUpByAtoms(basisFuncP, S, "Columns");
-- 
2.43.0


From 1263fe2cd599d5669cf5f906538f9f4225c5f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 13/42] fix: the extension of a file starts at the last dot of
 its name

---
 src/libcatnip/io/file_readers/filereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 1fd77ea..73a1747 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -64,7 +64,7 @@ void FileReader::checkSections_() {
 string FileReader::fileExt_() const {
   string path = lastStringInPath(fileName_);
   path = trimmed(path);
-  auto index = path.find(".");
+  auto index = path.rfind(".");
   if (index == string::npos) throw invalid_argument("File has no extension");
   return path.substr(index);
 }
-- 
2.43.0


From 893882c6847c1be6017239eeca3c44e4502716bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 14/42] fix: a reader starts over when it reads again

---
 src/libcatnip/io/file_readers/filereader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index 73a1747..c0b5b96 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -30,7 +30,10 @@ void FileReader::open() {
   if (!fileExist_()) {
     throw invalid_argument("File " + fileName_ + " does not exist.");
   }
+  fid_.close();
+  fid_.clear();
   fid_.open(fileName_);
+  pos_ = 0;
   fileOpen_ = true;
 }
 
-- 
2.43.0


From 9d4487b29ee5eed5f632bf84df0f4f73f1719454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 15/42] fix: asking for an overlap matrix that was not read is
 an error

---
 src/libcatnip/io/file_readers/logreader.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 46cde5d..3ce5393 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -2,6 +2,7 @@
 #ifndef _CATNIP_LOGREADER_HPP_
 #define _CATNIP_LOGREADER_HPP_
 
+#include <stdexcept>
 #include <vector>
 
 #include "../../matrix.hpp"
@@ -18,7 +19,10 @@ class LogReader : public FileReader {
  public:
   explicit LogReader(const std::string &str);
   orb_cont getOrbitalInfo() const { return orb_; }
-  Matrix *getOverlapMatrix() const { return S_; }
+  Matrix *getOverlapMatrix() const {
+    if (!S_) throw std::runtime_error("The log file has no overlap matrix");
+    return S_;
+  }
   std::vector<double> getOE(const std::string &orb_type) const {
     return OREnergies.at(orb_type);
   }
@@ -48,7 +52,7 @@ class LogReader : public FileReader {
   std::map<std::string, int> homoLevel;
   orb_cont orb_;
   // Overlap matrix
-  Matrix *S_;
+  Matrix *S_ = nullptr;
   std::map<std::string, std::vector<double>> OREnergies;
 
   std::vector<std::vector<double>> xyz;
-- 
2.43.0


From d71ec01ec4bb8c18a9564e5fea4344a28e8a1aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 16/42] fix: a log file that ends within a table is an error

---
 src/libcatnip/io/file_readers/logreader.cpp | 34 +++++++++++++--------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index d5326f9..9463dba 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -64,6 +64,16 @@ vector<string> splitStEnergies(const string & line){
   return items2;
 }
 
+/**
+ * \brief Reads the next line of a table, a file that ends within one is
+ * incomplete
+ **/
+static void getTableLine(istream &fid, string &line) {
+  if (!getline(fid, line)) {
+    throw runtime_error("The log file ends in the middle of a table");
+  }
+}
+
 LogReader::LogReader(const string &fileName) : FileReader(fileName) {
   validFileName_();
   registerSections_();
@@ -109,8 +119,8 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
   bool sectionEnd = false;
   while (sectionEnd == false) {
     istringstream iss(line);
@@ -130,7 +140,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-    getline(LR_ptr->fid_, line);
+    getTableLine(LR_ptr->fid_, line);
     string elemType2 = "";
     elemType2.append(string(1, line.at(9)));
     elemType2.append(string(1, line.at(10)));
@@ -150,7 +160,7 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
 
       LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
 
-      getline(LR_ptr->fid_, line);
+      getTableLine(LR_ptr->fid_, line);
 
       istringstream iss3(line);
       iss3 >> elemType2;
@@ -185,13 +195,13 @@ void LogReader::OverlapSectionReader(void *ptr) {
   bool endFirstSection = false;
   // Skip first line simply has column numbers
   string line;
-  getline(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
   string countC;
 
   // First group of coordinates will be stored in vector<vector<double>>
   vector<vector<double>> first_coefs;
   while (!endFirstSection) {
-    getline(LR_ptr->fid_, line);
+    getTableLine(LR_ptr->fid_, line);
     istringstream iss(line);
     iss >> countC;
     int countCint = stoi(countC);
@@ -239,7 +249,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
 
     int sectionCoef = currentSectionStart;
     while (sectionCoef < countCoef) {
-      getline(LR_ptr->fid_, line);
+      getTableLine(LR_ptr->fid_, line);
       istringstream iss(line);
       string dummy;
       iss >> dummy;
@@ -263,7 +273,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
     }
     ++section;
     currentSectionStart += 5;
-    getline(LR_ptr->fid_, line);
+    getTableLine(LR_ptr->fid_, line);
   }
   LR_ptr->S_ = mat_S;
   LOG("Success reading Overlap coefficients from .log file", 2);
@@ -333,9 +343,9 @@ void LogReader::CoordSectionReader(void *ptr) {
       "----------------------------------";
   string line;
   // Skip the 2nd and third line
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
-  getline(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
+  getTableLine(LR_ptr->fid_, line);
 
   // While the line does not match the end of the table read in the coordinates
   while (!foundSubStrInStr(line, end_pattern)) {
@@ -343,7 +353,7 @@ void LogReader::CoordSectionReader(void *ptr) {
     X.push_back(stod(vec_str.at(3)));
     Y.push_back(stod(vec_str.at(4)));
     Z.push_back(stod(vec_str.at(5)));
-    getline(LR_ptr->fid_, line);
+    getTableLine(LR_ptr->fid_, line);
   }
   LR_ptr->xyz.push_back(X);
   LR_ptr->xyz.push_back(Y);
-- 
2.43.0


From 1657b1476908eaa779551ec805729af7d302daf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 17/42] fix: read overlap tables of at most five basis
 functions

---
 src/libcatnip/io/file_readers/logreader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 9463dba..b64ac5d 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -204,7 +204,7 @@ void LogReader::OverlapSectionReader(void *ptr) {
     getTableLine(LR_ptr->fid_, line);
     istringstream iss(line);
     iss >> countC;
-    int countCint = stoi(countC);
+    int countCint = atoi(countC.c_str());
     if (countCint != (countCoef + 1)) {
       endFirstSection = true;
     } else {
-- 
2.43.0


From fd64cfec92126bbd67a6adc40789f1d8f5ac3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 18/42] fix: read the energies of a spin without occupied
 orbitals

---
 src/libcatnip/io/file_readers/logreader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index b64ac5d..3836a14 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -83,8 +83,10 @@ void LogReader::registerSections_() {
   sectionHeaders_["AOFunction"] =
       set<string>{"     Gross orbital populations:"};
   sectionHeaders_["Overlap"] = set<string>{" *** Overlap ***"};
-  sectionHeaders_["OEAlpha"] = set<string>{" Alpha  occ. eigenvalues --"};
-  sectionHeaders_["OEBeta"] = set<string>{"  Beta  occ. eigenvalues --"};
+  sectionHeaders_["OEAlpha"] = set<string>{" Alpha  occ. eigenvalues --",
+                                           " Alpha virt. eigenvalues --"};
+  sectionHeaders_["OEBeta"] = set<string>{"  Beta  occ. eigenvalues --",
+                                          "  Beta virt. eigenvalues --"};
   sectionHeaders_["Coord"] = set<string>{"Center     Atomic      Atomic",
                                          "Center     Atomic     Atomic"};
 
-- 
2.43.0


From c6824f13a3ef3fb20fda39cd593b3f9ba482f248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 19/42] fix: a pun file may end after any orbital and list both
 spins

---
 src/libcatnip/io/file_readers/punreader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 0b5a92c..0968a2b 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -73,7 +73,9 @@ void PunReader::ReadCoef(const string &orb_type) {
   bool allCoefsRead = false;
   while (!allCoefsRead) {
     string line;
-    getline(fid_, line);
+    if (!getline(fid_, line)) {
+      throw runtime_error("The pun file ends within the coefficients");
+    }
     vector<double> row;
     size_t current_count = 0;
     while (!foundSubStrInStr(line, pattern)) {
@@ -84,7 +86,8 @@ void PunReader::ReadCoef(const string &orb_type) {
         row.push_back(val);
         ++current_count;
       }
-      getline(fid_, line);
+      pos_ = fid_.tellg();
+      if (!getline(fid_, line)) break;
     }
     first_row_set = true;
     count = row.size();
@@ -92,6 +95,9 @@ void PunReader::ReadCoef(const string &orb_type) {
 
     allCoefsRead = !(foundSubStrInStr(line, orb_type));
   }
+  // The line that ended the coefficients may be the first one of the other spin
+  fid_.clear();
+  fid_.seekg(pos_);
 
   Matrix *Coefs = new Matrix(v_vec);
   coefs[orb_type] = Coefs;
-- 
2.43.0


From dca12d04174605f1c5b49e260cda3432ee28114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 20/42] fix: a coefficient that is cut off is an error

---
 src/libcatnip/io/file_readers/punreader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 0968a2b..8c42525 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -58,6 +58,9 @@ vector<double> PunReader::readGausCoefLine(const string &line) {
     values.push_back(temp_d * pow(10, temp_d2));
     indent += 15;
   }
+  if (!trimmed(line.substr(indent)).empty()) {
+    throw runtime_error("Incomplete coefficient in the pun file: " + line);
+  }
   return values;
 }
 
-- 
2.43.0


From 62b11600716d3e34f295680be5f11c9ddb1e3e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 21/42] fix: a log file cut off within a line or an energy
 listing is an error

---
 src/libcatnip/io/file_readers/logreader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 3836a14..d09fbde 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -69,7 +69,9 @@ vector<string> splitStEnergies(const string & line){
  * incomplete
  **/
 static void getTableLine(istream &fid, string &line) {
-  if (!getline(fid, line)) {
+  // The last line of a file is never part of a table, where a line is not
+  // ended by a newline it has been cut off
+  if (!getline(fid, line) || fid.eof()) {
     throw runtime_error("The log file ends in the middle of a table");
   }
 }
@@ -289,7 +291,8 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
   homoLevel[orb_type] = 0;
   // May be multiple energy sections we only wanted the latest one
   OREnergies[orb_type].clear();
-  while (getline(fid_, line)) {
+  while (true) {
+    getTableLine(fid_, line);
 
     bool occFound;
     bool virtFound;
-- 
2.43.0


From 787ccd16f416604c7a2e979efbef7bcda6b6ae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 22/42] fix: a switch consumes the value given to it

---
 src/libcatnip/io/argumentparser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 0615d2a..f4f45ac 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -454,6 +454,7 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
           throw runtime_error(err);
         } else {
           unrecognized = false;
+          string_values_[flag] = "ON";
           int_values_[flag] = 1;
         }
       } else {
@@ -466,9 +467,11 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         } else {
           int_values_[flag] = 0;
         }
+        ++index;
       }
     } else {
       unrecognized = false;
+      string_values_[flag] = "ON";
       int_values_[flag] = 1;
     }
   }
-- 
2.43.0


From 452e1657361d02aba18e6964da2cafa75ef4739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 23/42] fix: the short version flag is -v as documented

---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index f4f45ac..c814f95 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -653,7 +653,7 @@ void ArgumentParser::parse(const char* argv[], int argc) {
   string citation_flag = "--citation";
   string citation_flag_short = "-cite";
   string version_flag = "--version";
-  string version_flag_short = "-version";
+  string version_flag_short = "-v";
 
   size_t allowed_args_before_exit = 2;
   for (size_t index = 1; index < arguments.size(); ++index) {
-- 
2.43.0


From 473212c55e00b8bada1ff152a53e18b779c59531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 24/42] fix: adding a double argument looks among the double
 arguments

---
 src/libcatnip/io/argumentparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index c814f95..9d9ee2b 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -183,7 +183,7 @@ void ArgumentParser::addFlagArg(string flag, string argname) {
           flag);
     }
   } else if (argname.compare("ARGUMENT_DOUBLE") == 0) {
-    if (file_arg_.count(flag) == 0) {
+    if (double_arg_.count(flag) == 0) {
       ArgumentDouble* ArDouble = new ArgumentDouble;
       double_arg_[flag] = ArDouble;
     } else {
-- 
2.43.0


From 6fa2788a0532aa1f78547307ece32d0551db562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 25/42] fix: refuse numbers followed by other characters

---
 src/libcatnip/io/argumentparser.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 9d9ee2b..aadac4b 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -483,9 +483,15 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      int_arg_[flag]->argValid(stoi(argument));
+      size_t parsed = 0;
+      int value = stoi(argument, &parsed);
+      if (parsed != argument.size()) {
+        throw invalid_argument("" + flag + " requires an integer not " +
+                               argument);
+      }
+      int_arg_[flag]->argValid(value);
       unrecognized = false;
-      int_values_[flag] = stoi(argument);
+      int_values_[flag] = value;
       ++index;
     }
   }
@@ -497,9 +503,15 @@ void ArgumentParser::parseArg_(size_t& index, vector<string> arguments) {
         throw runtime_error(err);
       }
       string argument = arguments.at(index + 1);
-      double_arg_[flag]->argValid(stod(argument));
+      size_t parsed = 0;
+      double value = stod(argument, &parsed);
+      if (parsed != argument.size()) {
+        throw invalid_argument("" + flag + " requires a number not " +
+                               argument);
+      }
+      double_arg_[flag]->argValid(value);
       unrecognized = false;
-      double_values_[flag] = stod(argument);
+      double_values_[flag] = value;
       ++index;
     }
   }
-- 
2.43.0


From 7743ccf99839eef0dee631ebf326945a99ae9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 26/42] fix: FILE_DOES_EXIST describes the file checked last

---
 src/libcatnip/io/arguments/properties/propertyfileexist.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
index df1bbbc..a567862 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileexist.cpp
@@ -14,6 +14,7 @@ PropertyFileExist::PropertyFileExist(void) {
 
 PropertyFileExist::PropertyFileExist(int fileMustExist) {
   setPropOption_("FILE_MUST_EXIST", fileMustExist);
+  setPropOption_("FILE_DOES_EXIST", 0);
 }
 
 vector<string> PropertyFileExist::getOpts_(void) const {
@@ -29,14 +30,13 @@ bool PropertyFileExist::fileExist(const string& fileNamePath) const {
 bool PropertyFileExist::propValid(const string& fileNamePath) {
   if (getPropOption("FILE_MUST_EXIST")) {
     if (!fileExist(fileNamePath)) {
+      setPropOption_("FILE_DOES_EXIST", 0);
       string err = "" + fileNamePath + " does not exist";
       throw invalid_argument(err);
     }
     setPropOption_("FILE_DOES_EXIST", 1);
   } else {
-    if (fileExist(fileNamePath)) {
-      setPropOption_("FILE_DOES_EXIST", 1);
-    }
+    setPropOption_("FILE_DOES_EXIST", fileExist(fileNamePath) ? 1 : 0);
   }
   return true;
 }
-- 
2.43.0


From 087965c85c02df46c94d46eff9eeba7384e7f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 27/42] fix: setting a single string choice succeeds, enforcing
 needs one value

---
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index a8f1116..b10025b 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -38,6 +38,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
   } else if (option.compare("STRING_CHOICES") == 0) {
     set<string> set_var{var};
     setPropOption_(option, set_var);
+    return;
   }
   throw invalid_argument("Unrecognized option value combo " + option + " " +
                          var);
@@ -50,7 +51,7 @@ void PropertyStringChoice::setPropOption(std::string option,
     setPropOption_(option, set_vars);
     return;
   } else if (option.compare("STRING_CHOICE_ENFORCED") == 0) {
-    if (set_vars.size() > 1) {
+    if (set_vars.size() != 1) {
       string err = "";
       for (auto var : set_vars) {
         err.append(var);
-- 
2.43.0


From efd1a383c43d5f4e41c52f07733da3ecd409326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 28/42] fix: the last occurrence of a string is that of the
 whole string

---
 src/libcatnip/string_support.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libcatnip/string_support.cpp b/src/libcatnip/string_support.cpp
index 1c082e2..34dbc96 100644
--- a/src/libcatnip/string_support.cpp
+++ b/src/libcatnip/string_support.cpp
@@ -132,13 +132,13 @@ string grabStrAfterFirstOccurance(string s, string occ) {
 }
 
 string grabStrAfterLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
-  return s.substr(pos + 1);
+  return s.substr(pos + occ.length());
 }
 
 string grabStrAfterLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return "";
   return s.substr(pos);
 }
@@ -150,15 +150,15 @@ string grabStrBeforeFirstOccurance(string s, string occ) {
 }
 
 string grabStrBeforeLastOccurance(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
   return s.substr(0, pos);
 }
 
 string grabStrBeforeLastOccuranceInclusive(string s, string occ) {
-  auto pos = s.find_last_of(occ);
+  auto pos = s.rfind(occ);
   if (pos == string::npos) return s;
-  return s.substr(0, pos + 1);
+  return s.substr(0, pos + occ.length());
 }
 
 bool foundSubStrInStr(string s, string sub_s) {
-- 
2.43.0


From b17e41a767b0dc95ac379afd6f59f353e77cfa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:45 +0000
Subject: [PATCH 29/42] fix: initialise the citation parameter

---
 src/libcatnip/parameters.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libcatnip/parameters.hpp b/src/libcatnip/parameters.hpp
index 1664717..9f7c7f3 100644
--- a/src/libcatnip/parameters.hpp
+++ b/src/libcatnip/parameters.hpp
@@ -47,6 +47,7 @@ class Parameters {
         orb_numP(0),
         orb_num1(0),
         orb_num2(0),
+        citation(false),
         counterPoise(false){};
 
   std::string getLog1() const { return log1_; }
-- 
2.43.0


From c0a5efee0f85ed29f3c2a40025e6a7c3d7f0ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 30/42] fix: find sibling files in paths with spaces

---
 src/libcatnip/io/io.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libcatnip/io/io.cpp b/src/libcatnip/io/io.cpp
index 28756bc..dafce23 100644
--- a/src/libcatnip/io/io.cpp
+++ b/src/libcatnip/io/io.cpp
@@ -358,14 +358,17 @@ unique_ptr<Parameters> prepareParameters(unique_ptr<ArgumentParser>& ArgParse) {
     prop = "PROPERTY_SISTER_FILE";
     opt = "SISTER_FILE_EXISTS";
     auto line = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
-    opt = "SISTER_FILE_PATH_NAME";
+    opt = "ALLOWED_SISTER_FILE_EXT";
     auto line2 = ArgParse->getFlagArgOptValue(flag, argu, prop, opt);
     auto sisters_exist = splitSt(line);
-    vector<string> sister_file_paths = splitSt(line2);
+    vector<string> sister_exts = splitSt(line2);
     int countFiles = 0;
     for (auto sister_exists : sisters_exist) {
       if (sister_exists.compare("true") == 0) {
-        flag_sister_arg[flag_sister] = sister_file_paths.at(countFiles);
+        // The path may contain spaces, extensions do not
+        flag_sister_arg[flag_sister] =
+            grabStrBeforeLastOccurance(ArgParse->getStr(flag), ".") +
+            sister_exts.at(countFiles);
       }
       ++countFiles;
     }
-- 
2.43.0


From dd0ad404ea8e431e04c7c69c1e1980bc1961f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 31/42] fix: string lengths can be set through arguments

---
 src/libcatnip/io/arguments/argumentobject.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libcatnip/io/arguments/argumentobject.hpp b/src/libcatnip/io/arguments/argumentobject.hpp
index a54b549..15ebb5a 100644
--- a/src/libcatnip/io/arguments/argumentobject.hpp
+++ b/src/libcatnip/io/arguments/argumentobject.hpp
@@ -387,6 +387,16 @@ class ArgumentObject {
         setval = true;
       }
     }
+    for (auto prop : size_t_propobjs_) {
+      if (property.compare(prop->getPropertyName()) == 0) {
+        if (val < 0) {
+          throw std::invalid_argument("The option " + option +
+                                      " cannot be negative");
+        }
+        prop->setPropOption(option, val);
+        setval = true;
+      }
+    }
     if (!setval) {
       std::string err = "Argument property: " + property + " with option: " +
                         ""
-- 
2.43.0


From c32d53bf269b8ccabd510e884cdead43ae11ebcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 32/42] fix: report the options of double arguments

---
 src/libcatnip/io/argumentparser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index aadac4b..4d0b1c0 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -566,6 +566,13 @@ string ArgumentParser::getFlagArgOptValue(string flag, string argname,
       return argInt->getPropertyValues(property, option);
     }
   }
+  if (double_arg_.count(flag) != 0) {
+    auto argDouble = double_arg_[flag];
+    auto argName = argDouble->getArgumentName();
+    if (argName.compare(argname) == 0) {
+      return argDouble->getPropertyValues(property, option);
+    }
+  }
 
   throw invalid_argument("Unrecognized flag or argument " + flag + " " +
                          argname);
-- 
2.43.0


From 1eea67c258c54754d0d16fdbb8848eb2cad525bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 33/42] fix: arguments check the options of their properties

---
 src/libcatnip/io/arguments/properties/propertyfileext.cpp      | 2 +-
 src/libcatnip/io/arguments/properties/propertyfileext.hpp      | 2 +-
 src/libcatnip/io/arguments/properties/propertyobject.hpp       | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.cpp   | 2 +-
 src/libcatnip/io/arguments/properties/propertysisterfile.hpp   | 2 +-
 src/libcatnip/io/arguments/properties/propertystringchoice.cpp | 2 +-
 src/libcatnip/io/arguments/properties/propertystringchoice.hpp | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.cpp b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
index 670a889..a7465a0 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.cpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.cpp
@@ -66,7 +66,7 @@ void PropertyFileExt::checkExt(const string& ext) const {
 }
 
 void PropertyFileExt::setPropOption(std::string option,
-                                    std::set<std::string> vars) {
+                                    const std::set<std::string>& vars) {
   PropertyObject::setPropOption(option, vars);
 }
 
diff --git a/src/libcatnip/io/arguments/properties/propertyfileext.hpp b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
index 7cf4b41..3a7c625 100644
--- a/src/libcatnip/io/arguments/properties/propertyfileext.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyfileext.hpp
@@ -21,7 +21,7 @@ class PropertyFileExt
   PropertyFileExt(std::set<std::string> exts);
   bool propValid(const std::string &fileNamePath);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string>& var) override;
 };
 
 }  // namespace catnip
diff --git a/src/libcatnip/io/arguments/properties/propertyobject.hpp b/src/libcatnip/io/arguments/properties/propertyobject.hpp
index 584c662..4759b54 100644
--- a/src/libcatnip/io/arguments/properties/propertyobject.hpp
+++ b/src/libcatnip/io/arguments/properties/propertyobject.hpp
@@ -61,7 +61,7 @@ class PropertyObject {
   std::vector<std::string> getPropertyOptions(void) const { return getOpts_(); }
 
   // Setup the valid options associated with the parameter
-  void setPropOption(std::string option, const T & val) {
+  virtual void setPropOption(std::string option, const T & val) {
     if (!propOptionValid_(option)) {
       throw std::invalid_argument("Property option is unrecognized " + option);
     }
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
index c1df59f..2426d06 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.cpp
@@ -78,7 +78,7 @@ void PropertySisterFile::setPropOption(std::string option,
 }
 
 void PropertySisterFile::setPropOption(std::string option,
-                                       vector<string> vec_vars) {
+                                       const vector<string>& vec_vars) {
 
   if (option.compare("ALLOWED_SISTER_FILE_EXT") == 0) {
     vector<string> fileNames;
diff --git a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
index b7fdaec..5b6e354 100644
--- a/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
+++ b/src/libcatnip/io/arguments/properties/propertysisterfile.hpp
@@ -19,7 +19,7 @@ class PropertySisterFile
  public:
   PropertySisterFile(void);
   void setPropOption(std::string option, const std::string &var);
-  void setPropOption(std::string option, std::vector<std::string> var);
+  void setPropOption(std::string option, const std::vector<std::string>& var) override;
   bool propValid(const std::string &fileNamePath);
 };
 
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
index b10025b..a845e00 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.cpp
@@ -45,7 +45,7 @@ void PropertyStringChoice::setPropOption(std::string option, std::string var) {
 }
 
 void PropertyStringChoice::setPropOption(std::string option,
-                                         set<string> set_vars) {
+                                         const set<string>& set_vars) {
 
   if (option.compare("STRING_CHOICES") == 0) {
     setPropOption_(option, set_vars);
diff --git a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
index 580d816..a17d936 100644
--- a/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
+++ b/src/libcatnip/io/arguments/properties/propertystringchoice.hpp
@@ -16,7 +16,7 @@ class PropertyStringChoice
  public:
   PropertyStringChoice(void);
   void setPropOption(std::string option, std::string var);
-  void setPropOption(std::string option, std::set<std::string> var);
+  void setPropOption(std::string option, const std::set<std::string>& var) override;
   bool propValid(const std::string& string_choice);
 };
 
-- 
2.43.0


From d0090b3da5589e8660a4076904f90206fe91ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 34/42] fix: refuse monomers whose basis functions are not
 those of their atoms

---
 src/libcatnip/qc_functions.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index af10618..71815c4 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -431,6 +431,18 @@ static void checkMatches(vector<int> match, const vector<int> &match2,
   }
 }
 
+// The basis functions of the dimer's atoms that belong to a monomer must be as
+// many as the monomer has itself
+static void checkBasisFunc(const vector<int> &match,
+                           const vector<int> &basisFuncP, int num_basis_func) {
+  for (int atom : match) num_basis_func -= basisFuncP.at(atom - 1);
+  if (num_basis_func != 0) {
+    throw invalid_argument(
+        "The atoms of a monomer do not have the same number of basis functions "
+        "in the dimer as in the monomer");
+  }
+}
+
 // unscramble the coefficients
 Matrix *unscramble_Coef(const std::vector<int> &matchDimerA,
                         const std::vector<int> &matchDimerB,
@@ -692,6 +704,9 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
     auto unscrambled_P_Coef =
         unscramble_Coef(match_1_P, match_2_P, basisP, mat_P_Coef);
 
+    checkBasisFunc(match_1_P, basisP, mat_1_Coef->get_cols());
+    checkBasisFunc(match_2_P, basisP, mat_2_Coef->get_cols());
+
     this->mat_P_Coef = unscrambled_P_Coef;
 
     auto unscrambled_S = unscramble_S(match_1_P, match_2_P, basisP, mat_S);
-- 
2.43.0


From 08bcffdc957eb5f58b755e776645b2058ef3e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:44 +0000
Subject: [PATCH 35/42] fix: the last population table of a log is the one that
 counts

---
 src/libcatnip/io/file_readers/logreader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index d09fbde..6fc8079 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -120,6 +120,8 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
   LOG("Reading atomic basis functions from .log file", 1);
   LogReader *LR_ptr = static_cast<LogReader *>(ptr);
 
+  // Clear contents only want the most uptodate table
+  LR_ptr->orb_.clear();
   int atom_num = 1;
   string end_pattern = "         Condensed to atoms";
   string line;
-- 
2.43.0


From 503210ad24412e8b945100459db7910fa456fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 36/42] fix: keep the number of an orbital name such as 3D 0
 out of its populations

---
 src/libcatnip/io/file_readers/logreader.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 6fc8079..6662e3d 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -142,6 +142,11 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
     while (!iss.eof()) {
       string Tot_Alpha_Beta_Spin;
       iss >> Tot_Alpha_Beta_Spin;
+      // The names of some orbitals have two parts e.g. 3D 0
+      if (Tot_Alpha_Beta_Spin.find('.') == string::npos) {
+        orbType.append(" " + Tot_Alpha_Beta_Spin);
+        continue;
+      }
       orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
     }
     LR_ptr->orb_[make_pair(atom_num, elemType)][orbType] = orbVals;
@@ -161,6 +166,11 @@ void LogReader::AOFunctionSectionReader(void *ptr) {
       while (!iss2.eof()) {
         string Tot_Alpha_Beta_Spin;
         iss2 >> Tot_Alpha_Beta_Spin;
+        // The names of some orbitals have two parts e.g. 3D 0
+        if (Tot_Alpha_Beta_Spin.find('.') == string::npos) {
+          orbType.append(" " + Tot_Alpha_Beta_Spin);
+          continue;
+        }
         orbVals.push_back(stod(Tot_Alpha_Beta_Spin));
       }
 
-- 
2.43.0


From 3f34d2b0457f8a734e5510a539181a71e4d02eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:09 +0000
Subject: [PATCH 37/42] fix: refuse orbital energies that are not numbers

---
 src/libcatnip/io/file_readers/logreader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 6662e3d..39b6c71 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -318,7 +318,11 @@ void LogReader::ReadOrbEnergies(const string &orb_type) {
 
       auto vec_str = splitStEnergies(line);
       for (size_t inc = 4; inc < vec_str.size(); inc++) {
-        OREnergies[orb_type].push_back((double)atof(vec_str.at(inc).c_str()));
+        size_t parsed = 0;
+        OREnergies[orb_type].push_back(stod(vec_str.at(inc), &parsed));
+        if (parsed != vec_str.at(inc).size()) {
+          throw runtime_error("Orbital energies cannot be read from: " + line);
+        }
         if (occFound) homoLevel[orb_type]++;
       }
     } else {
-- 
2.43.0


From 2edd3e0867d5640496253c5bf66bd34ab4b111e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 38/42] fix: compare numbers too large to be rounded as they
 are

---
 src/libcatnip/matrix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 2381b3a..3aa0ab5 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -168,7 +168,9 @@ string double_tos(double f, int nd) {
   ostringstream ostr;
   double tens = stod("1" + string(nd, '0'));
   ostr.precision(17);
-  ostr << round(f * tens) / tens + 0.0;
+  // Numbers too large to be scaled have no decimals to round
+  if (isfinite(f * tens)) f = round(f * tens) / tens;
+  ostr << f + 0.0;
   return ostr.str();
 }
 
-- 
2.43.0


From 5b9c2a75374ad28de8a2785c5889edfaf1a87b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:25 +0000
Subject: [PATCH 39/42] fix: align a complex again from the matrices as given,
 and not half after a refusal

---
 src/libcatnip/qc_functions.cpp | 38 ++++++++++++++++++----------------
 src/libcatnip/qc_functions.hpp |  4 ++++
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/libcatnip/qc_functions.cpp b/src/libcatnip/qc_functions.cpp
index 71815c4..7348357 100644
--- a/src/libcatnip/qc_functions.cpp
+++ b/src/libcatnip/qc_functions.cpp
@@ -660,6 +660,9 @@ TransferComplex::TransferComplex(Matrix *mat1Coef, Matrix *mat2Coef,
   Orbs2 = MOs2;
   mat_S = matS;
   mat_P_OE = matPOE;
+  given_2_Coef = mat2Coef;
+  given_P_Coef = matPCoef;
+  given_S = matS;
 }
 
 void TransferComplex::unscramble(const Matrix &coord_1_mat,
@@ -668,29 +671,27 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
                                  const std::vector<int> &basisP,
                                  const std::vector<int> &basis2) {
 
-  unscrambled = true;
-
   const int sig_fig = 4;
 
+  // The matrices are always rearranged from how they were given, and replaced
+  // only once all of them could be rearranged
+  Matrix *unscrambled_2_Coef = mat_2_Coef;
+  Matrix *unscrambled_P_Coef;
+  Matrix *unscrambled_S;
+
   // If dealing with counter poise correction may also need to unscramble
   // the basis functions of the monomers
   if (counterPoise_) {
     vector<int> match_1_2 = coord_1_mat.matchCol(coord_2_mat, sig_fig);
 
     LOG("Counter Poise unscrambling matrix 2 with respect to matrix 1", 2);
-    auto unscrambled_2_Coef = unscramble_Coef(match_1_2, basis2, mat_2_Coef);
-
-    this->mat_2_Coef = unscrambled_2_Coef;
+    unscrambled_2_Coef = unscramble_Coef(match_1_2, basis2, given_2_Coef);
 
     vector<int> match_1_P = coord_1_mat.matchCol(coord_P_mat, sig_fig);
 
-    auto unscrambled_P_Coef = unscramble_Coef(match_1_P, basisP, mat_P_Coef);
-
-    this->mat_P_Coef = unscrambled_P_Coef;
+    unscrambled_P_Coef = unscramble_Coef(match_1_P, basisP, given_P_Coef);
 
-    auto unscrambled_S = unscramble_S(match_1_P, basisP, mat_S);
-
-    this->mat_S = unscrambled_S;
+    unscrambled_S = unscramble_S(match_1_P, basisP, given_S);
 
   } else {
 
@@ -701,18 +702,19 @@ void TransferComplex::unscramble(const Matrix &coord_1_mat,
     vector<int> match_2_P = coord_2_mat.matchCol(coord_P_mat, sig_fig);
 
     LOG("Unscrambling dimer matrix with respect to matrix 1 and 2", 2);
-    auto unscrambled_P_Coef =
-        unscramble_Coef(match_1_P, match_2_P, basisP, mat_P_Coef);
+    unscrambled_P_Coef =
+        unscramble_Coef(match_1_P, match_2_P, basisP, given_P_Coef);
 
     checkBasisFunc(match_1_P, basisP, mat_1_Coef->get_cols());
     checkBasisFunc(match_2_P, basisP, mat_2_Coef->get_cols());
 
-    this->mat_P_Coef = unscrambled_P_Coef;
-
-    auto unscrambled_S = unscramble_S(match_1_P, match_2_P, basisP, mat_S);
-
-    this->mat_S = unscrambled_S;
+    unscrambled_S = unscramble_S(match_1_P, match_2_P, basisP, given_S);
   }
+
+  this->mat_2_Coef = unscrambled_2_Coef;
+  this->mat_P_Coef = unscrambled_P_Coef;
+  this->mat_S = unscrambled_S;
+  unscrambled = true;
 }
 
 double TransferComplex::calcJ(const map<string, string> &orbitaltype,
diff --git a/src/libcatnip/qc_functions.hpp b/src/libcatnip/qc_functions.hpp
index e8bc1a6..45c2194 100644
--- a/src/libcatnip/qc_functions.hpp
+++ b/src/libcatnip/qc_functions.hpp
@@ -22,6 +22,10 @@ class TransferComplex {
   std::pair<int, int> Orbs2;
   Matrix* mat_S;
   Matrix* mat_P_OE;
+  // The matrices as they were given, before they were unscrambled
+  Matrix* given_2_Coef;
+  Matrix* given_P_Coef;
+  Matrix* given_S;
   // If unscrambaling is required
   bool unscrambled;
   bool counterPoise_;
-- 
2.43.0


From 05e93bc4f0de62a2f5a0c7d4dc799c90d211811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:58 +0000
Subject: [PATCH 40/42] fix: forget what was read before when a file is read
 again

---
 src/libcatnip/io/file_readers/filereader.cpp | 1 +
 src/libcatnip/io/file_readers/filereader.hpp | 2 ++
 src/libcatnip/io/file_readers/logreader.cpp  | 8 ++++++++
 src/libcatnip/io/file_readers/logreader.hpp  | 1 +
 src/libcatnip/io/file_readers/punreader.cpp  | 2 ++
 src/libcatnip/io/file_readers/punreader.hpp  | 1 +
 6 files changed, 15 insertions(+)

diff --git a/src/libcatnip/io/file_readers/filereader.cpp b/src/libcatnip/io/file_readers/filereader.cpp
index c0b5b96..a654481 100644
--- a/src/libcatnip/io/file_readers/filereader.cpp
+++ b/src/libcatnip/io/file_readers/filereader.cpp
@@ -12,6 +12,7 @@ using namespace std;
 string FileReader::getExt() const { return fileExt_(); }
 
 void FileReader::read() {
+  clear_();
   open();
   string line;
   while (getline(fid_, line)) {
diff --git a/src/libcatnip/io/file_readers/filereader.hpp b/src/libcatnip/io/file_readers/filereader.hpp
index 91d374d..d41ed83 100644
--- a/src/libcatnip/io/file_readers/filereader.hpp
+++ b/src/libcatnip/io/file_readers/filereader.hpp
@@ -28,6 +28,8 @@ class FileReader {
   void close();
   virtual void registerSections_();
   virtual void validFileName_(){};
+  // Forget what was read before
+  virtual void clear_(){};
   void checkSections_();
   void readSection_(std::string tag);
   std::string startSection_(const std::string &tag);
diff --git a/src/libcatnip/io/file_readers/logreader.cpp b/src/libcatnip/io/file_readers/logreader.cpp
index 39b6c71..6ba9bc0 100644
--- a/src/libcatnip/io/file_readers/logreader.cpp
+++ b/src/libcatnip/io/file_readers/logreader.cpp
@@ -108,6 +108,14 @@ void LogReader::validFileName_() {
   }
 }
 
+void LogReader::clear_() {
+  homoLevel.clear();
+  orb_.clear();
+  S_ = nullptr;
+  OREnergies.clear();
+  xyz.clear();
+}
+
 vector<int> LogReader::getBasisFuncCount() {
   vector<int> basisFuncCount;
   for (auto values : orb_) {
diff --git a/src/libcatnip/io/file_readers/logreader.hpp b/src/libcatnip/io/file_readers/logreader.hpp
index 3ce5393..4cef82b 100644
--- a/src/libcatnip/io/file_readers/logreader.hpp
+++ b/src/libcatnip/io/file_readers/logreader.hpp
@@ -35,6 +35,7 @@ class LogReader : public FileReader {
  private:
   virtual void registerSections_();
   virtual void validFileName_();
+  virtual void clear_();
 
   static void AOFunctionSectionReader(void *);
   static void OverlapSectionReader(void *);
diff --git a/src/libcatnip/io/file_readers/punreader.cpp b/src/libcatnip/io/file_readers/punreader.cpp
index 8c42525..aaa4d6d 100644
--- a/src/libcatnip/io/file_readers/punreader.cpp
+++ b/src/libcatnip/io/file_readers/punreader.cpp
@@ -44,6 +44,8 @@ void PunReader::validFileName_() {
   }
 }
 
+void PunReader::clear_() { coefs.clear(); }
+
 vector<double> PunReader::readGausCoefLine(const string &line) {
   vector<double> values;
 
diff --git a/src/libcatnip/io/file_readers/punreader.hpp b/src/libcatnip/io/file_readers/punreader.hpp
index 73f8846..8db2fec 100644
--- a/src/libcatnip/io/file_readers/punreader.hpp
+++ b/src/libcatnip/io/file_readers/punreader.hpp
@@ -18,6 +18,7 @@ class PunReader : public FileReader {
  private:
   virtual void registerSections_();
   virtual void validFileName_();
+  virtual void clear_();
 
   static void OrbitalCoefAlphaSectionReader(void *);
   static void OrbitalCoefBetaSectionReader(void *);
-- 
2.43.0


From 5873c8ed594dda5a9e72cfdaa802fcd0d49e8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:38 +0000
Subject: [PATCH 41/42] fix: print every shelf of a matrix

---
 src/libcatnip/matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcatnip/matrix.cpp b/src/libcatnip/matrix.cpp
index 3aa0ab5..93fdfa4 100644
--- a/src/libcatnip/matrix.cpp
+++ b/src/libcatnip/matrix.cpp
@@ -192,7 +192,7 @@ std::ostream &operator<<(std::ostream &out, Matrix &mat) {
     for (i = 1; i <= mat.get_rows(); i++) {
       out << "Row " << i << "\t";
       for (j = 1; j <= mat.get_cols(); j++) {
-        out << mat.get_elem(i, j) << "\t";
+        out << mat.get_elem(i, j, k) << "\t";
       }
       out << "\n";
     }
-- 
2.43.0


From baf93ccfaec78d5d87e8417a2d55768474f7dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:59 +0000
Subject: [PATCH 42/42] fix: end the help of flags without a short form

---
 src/libcatnip/io/argumentparser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libcatnip/io/argumentparser.cpp b/src/libcatnip/io/argumentparser.cpp
index 4d0b1c0..613822d 100644
--- a/src/libcatnip/io/argumentparser.cpp
+++ b/src/libcatnip/io/argumentparser.cpp
@@ -89,6 +89,10 @@ ArgumentParser::ArgumentParser(set<vector<string>> flags) {
     if (!flag_name) {
       throw invalid_argument("You have failed to provide the full flag name");
     }
+    // Flags without an abbreviation are listed with a placeholder
+    if (short_flag.size() > maxShortFlagSize) {
+      maxShortFlagSize = short_flag.size();
+    }
     flags_[full_flag] = make_pair(short_flag, desc);
   }
 }
-- 
2.43.0

