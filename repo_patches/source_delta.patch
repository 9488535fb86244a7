From d9751667c47fdabcffc43aff533089100954ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 01/31] fix: crsMatrixToFullMatrix must not keep old entries of
 the target

Matrix::resize(n, m, 0) keeps what was stored, so zeros of the sparse
matrix showed the previous content of a reused dense matrix.
---
 src/CrsMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 3a3add5..dbcc3fe 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -774,6 +774,7 @@ void bcast(CrsMatrix<S>& m)
 template <typename T>
 void crsMatrixToFullMatrix(Matrix<T>& m, const CrsMatrix<T>& crsMatrix)
 {
+	m.clear();
 	m.resize(crsMatrix.rows(), crsMatrix.cols(), 0);
 	for (SizeType i = 0; i < crsMatrix.rows(); i++) {
 		//  for (SizeType k=0;k<crsMatrix.cols();k++) m(i,k)=0;
-- 
2.43.0


From 791dc06a7fc60640ae8e658028a690f55bc73a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 02/31] fix: isTheIdentity(CrsMatrix) accepted rows without a
 stored diagonal entry

A sparse matrix with an empty row (for example the zero matrix) is not
the identity.
---
 src/CrsMatrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index dbcc3fe..b37a1a7 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -1542,9 +1542,12 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 	SizeType n = A.rows();
 	const T f1 = (-1.0);
 	for (SizeType i = 0; i < n; i++) {
+		bool hasDiagonal = false;
 		for (int k = A.getRowPtr(i); k < A.getRowPtr(i + 1); k++) {
 			SizeType col = A.getCol(k);
 			const T& val = A.getValue(k);
+			if (col == i)
+				hasDiagonal = true;
 			if (checkForIdentity && col == i && PsimagLite::norm(val + f1) > eps) {
 				return false;
 			}
@@ -1552,6 +1555,9 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 				return false;
 			}
 		}
+
+		if (checkForIdentity && !hasDiagonal)
+			return false;
 	}
 	return true;
 }
-- 
2.43.0


From 0139f4b5a18d2313ed7c9377a09c3a0a50cfbee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 03/31] fix: reading an empty CrsMatrix from a stream left the
 old matrix in place

---
 src/CrsMatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index b37a1a7..47dc6ea 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -732,8 +732,10 @@ std::istream& operator>>(std::istream& is, CrsMatrix<T>& m)
 		    "is>>CrsMatrix(...): Cols must be positive\n");
 	is >> ncol;
 
-	if (n == 0 || ncol == 0)
+	if (n == 0 || ncol == 0) {
+		m.clear();
 		return is;
+	}
 
 	m.resize(n, ncol);
 	for (SizeType i = 0; i < m.rowptr_.size(); i++)
-- 
2.43.0


From b87ab0ecbea999c3ea030f9e042e52cdef598cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:53 +0000
Subject: [PATCH 04/31] fix: CrsMatrix triplet constructor built wrong row
 pointers

The row pointers counted rows instead of entries, rows without entries
were left at zero, and an empty list of triplets was read out of bounds.
---
 src/CrsMatrix.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 47dc6ea..d4a4ae9 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -209,22 +209,16 @@ public:
 		Vector<SizeType>::Type rows = rows2;
 		s.sort(rows, iperm);
 		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
-		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
+		for (SizeType row = 0; row < rank; ++row) {
+			rowptr_[row] = counter;
+			while (counter < rows.size() && rows[counter] == row) {
+				colind_.push_back(cols[iperm[counter]]);
+				values_.push_back(vals[iperm[counter]]);
+				++counter;
 			}
-
-			colind_.push_back(cols[iperm[i]]);
-			values_.push_back(vals[iperm[i]]);
 		}
 
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank; ++i)
-			rowptr_[i] = counter;
+		rowptr_[rank] = counter;
 	}
 
 	// start closure ctors
-- 
2.43.0


From 78514259795e3963327e3ff6d242e54d9ecf7678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:07 +0000
Subject: [PATCH 05/31] fix: bound the loops of vector<vector>*vector by the
 two operands' sizes

---
 src/Vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index 86aa20d..bbe3c9e 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -97,10 +97,10 @@ template <typename T1, typename T2, typename A, typename AA>
 vector<T2, A> operator*(const vector<vector<T1, A>, AA>& v1,
                         const vector<T2, A>& v2)
 {
-	vector<T2, A> v3(v2.size());
+	vector<T2, A> v3(v1.size());
 	for (SizeType i = 0; i < v3.size(); i++) {
 		v3[i] = 0;
-		for (SizeType j = 0; i < v2.size(); j++)
+		for (SizeType j = 0; j < v2.size(); j++)
 			v3[i] += v1[i][j] * v2[j];
 	}
 	return v3;
-- 
2.43.0


From ae30668fc406e4a53a633cc561da46210b36e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:50 +0000
Subject: [PATCH 06/31] fix: SparseVector::toChunk must not keep old entries of
 the target

---
 src/SparseVector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index e2213e6..8ad0f44 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -169,6 +169,8 @@ public:
 				                   " check failed\n");
 		}
 		dest.resize(total);
+		for (SizeType i = 0; i < total; i++)
+			dest[i] = 0;
 		for (SizeType i = 0; i < indices_.size(); i++)
 			dest[indices_[i] - i0] = values_[i];
 	}
-- 
2.43.0


From 3cf63d68c9b198cf8bf33fd4bc481f6d84905b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:50 +0000
Subject: [PATCH 07/31] fix: SparseVector::toChunk's check let the entry one
 past the chunk through

---
 src/SparseVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 8ad0f44..ef45b92 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -164,7 +164,7 @@ public:
 	{
 		if (test) {
 			PairType firstLast = findFirstLast();
-			if (i0 > firstLast.first || i0 + total < firstLast.second)
+			if (i0 > firstLast.first || i0 + total <= firstLast.second)
 				throw RuntimeError("SparseVector::toChunk(...)"
 				                   " check failed\n");
 		}
-- 
2.43.0


From 3fbd457685683c57b65d78d21a54cfbe809a3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:50 +0000
Subject: [PATCH 08/31] fix: SparseVector::findPartition rejected vectors
 ending at the start of a partition

---
 src/SparseVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index ef45b92..d8c5f80 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -205,7 +205,7 @@ public:
 		}
 		SizeType ret2 = 1;
 		for (SizeType i = 0; i < parts.partition(); i++) {
-			if (firstLast.second > parts.partition(i)) {
+			if (firstLast.second >= parts.partition(i)) {
 				ret2 = i;
 			}
 			else {
-- 
2.43.0


From 211ffc5ebac6eb074538d53967e510a8ae91815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:50 +0000
Subject: [PATCH 09/31] fix: SparseVector::sort left vectors of less than two
 entries marked unsorted

---
 src/SparseVector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index d8c5f80..77e8b86 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -291,7 +291,9 @@ public:
 
 	void sort()
 	{
-		if (indices_.size() < 2 || isSorted_)
+		if (indices_.size() < 2)
+			isSorted_ = true;
+		if (isSorted_)
 			return;
 
 		Sort<typename Vector<SizeType>::Type> sort;
-- 
2.43.0


From 071538efe9626e93a19d333f366b8f2864c22335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:50 +0000
Subject: [PATCH 10/31] fix: SparseVector::operator== read past the end of the
 shorter vector

---
 src/SparseVector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 77e8b86..e80cf1c 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -241,6 +241,8 @@ public:
 	{
 		assert(isSorted_);
 		assert(v.isSorted_);
+		if (values_.size() != v.values_.size())
+			return false;
 		for (SizeType i = 0; i < v.values_.size(); i++) {
 			if (indices_[i] != v.indices_[i])
 				return false;
-- 
2.43.0


From e70bba53c3747d38b845cb371449323a61e791c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:50 +0000
Subject: [PATCH 11/31] fix: SparseRowCached::add wrote outside a cache of
 initial size zero

---
 src/SparseRowCached.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseRowCached.h b/src/SparseRowCached.h
index 70cd27d..a0a5242 100644
--- a/src/SparseRowCached.h
+++ b/src/SparseRowCached.h
@@ -109,7 +109,7 @@ public:
 		                        values_.push_back(value);*/
 		SizeType cacheSize = cols_.size();
 		if (counter_ >= cacheSize) {
-			cacheSize *= 2;
+			cacheSize = 2 * cacheSize + 1;
 			cols_.resize(cacheSize);
 			values_.resize(cacheSize);
 		}
-- 
2.43.0


From 8c2e471bb3764073b90a34cdcc8faf43673d6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 12/31] fix: multiplyTransposeConjugate(Matrix) took every
 operand for square

---
 src/Matrix.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 06c619f..9129f55 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -963,17 +963,18 @@ void operator<=(std::vector<T, A>& v,
 template <typename T>
 Matrix<T> multiplyTransposeConjugate(const Matrix<T>& O1, const Matrix<T>& O2, char modifier = 'C')
 {
+	assert(O1.rows() == O2.rows());
 	SizeType n = O1.rows();
-	Matrix<T> ret(n, n);
+	Matrix<T> ret(O1.cols(), O2.cols());
 	if (modifier == 'C') {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < O1.cols(); s++)
+			for (SizeType t = 0; t < O2.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += PsimagLite::conj(O1(w, s)) * O2(w, t);
 	}
 	else {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < O1.cols(); s++)
+			for (SizeType t = 0; t < O2.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += O1(w, s) * O2(w, t);
 	}
-- 
2.43.0


From 3984f5185490ec7727621d3f0f7901bd57043799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 13/31] fix: isTheIdentity(Matrix) must answer no for matrices
 that are not square

---
 src/Matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index 9129f55..ec78e09 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -849,6 +849,8 @@ bool isAntiHermitian(const Matrix<T>& A, bool verbose = false)
 template <typename T>
 bool isTheIdentity(Matrix<T> const& a)
 {
+	if (a.rows() != a.cols())
+		return false;
 
 	for (SizeType i = 0; i < a.rows(); i++) {
 		for (SizeType j = 0; j < a.cols(); j++) {
-- 
2.43.0


From 84407a60ba91e4b2c6bbcf3a07e45b8a88b0f0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 14/31] fix: vector * Matrix computed the product with the
 transpose

---
 src/Matrix.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index ec78e09..cd91143 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -916,6 +916,15 @@ operator*(const T1& a, const T2& b)
 	                                                                     b);
 }
 
+// row vector times matrix; without this overload the vector * scalar
+// operator of Vector.h is chosen, which swaps the operands
+template <typename T, typename A>
+std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>
+operator*(const std::vector<T, A>& a, const Matrix<T>& b)
+{
+	return std::ClosureOperator<std::vector<T, A>, Matrix<T>, std::ClosureOperations::OP_MULT>(a, b);
+}
+
 template <typename T>
 std::ClosureOperator<Matrix<T>, Matrix<T>, std::ClosureOperations::OP_PLUS>
 operator+(const Matrix<T>& a, const Matrix<T>& b)
-- 
2.43.0


From f4c9e1716d4ed7fe098d5cfeaea7c70ea4a94498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:50 +0000
Subject: [PATCH 15/31] fix: TridiagonalMatrix::buildDenseMatrix kept stale
 entries of a reused target

---
 src/TridiagonalMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TridiagonalMatrix.h b/src/TridiagonalMatrix.h
index a9dd54b..3ccdf26 100644
--- a/src/TridiagonalMatrix.h
+++ b/src/TridiagonalMatrix.h
@@ -153,6 +153,7 @@ public:
 	{
 		if (n == 0)
 			n = a_.size();
+		m.clear();
 		m.resize(n, n, 0);
 		for (SizeType i = 0; i < n - 1; ++i) {
 			m(i, i) = a_[i];
-- 
2.43.0


From f3105d91848f0157c6641348d4857b42a419aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:50 +0000
Subject: [PATCH 16/31] fix: ContinuedFraction::plotReal wrote past the end
 when the window is shorter than one step

---
 src/ContinuedFraction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ContinuedFraction.h b/src/ContinuedFraction.h
index 0ed099a..28f9c8d 100644
--- a/src/ContinuedFraction.h
+++ b/src/ContinuedFraction.h
@@ -161,12 +161,12 @@ public:
 			result.resize(n);
 		for (RealType omega = params.omega1; omega < params.omega2;
 		     omega += params.deltaOmega) {
+			if (counter >= result.size())
+				break;
 			ComplexType z(omega, params.delta);
 			ComplexType res = iOfOmega(z, Eg_, isign_);
 			std::pair<RealType, ComplexType> p(omega, res);
 			result[counter++] = p;
-			if (counter >= result.size())
-				break;
 		}
 	}
 
-- 
2.43.0


From 30c8353f0a8d67790b97ffc5d2f28dd986399b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:21 +0000
Subject: [PATCH 17/31] fix: LongChain must reject a distance that is not
 smaller than the chain

---
 src/Geometry/LongChain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index dda4894..cfead82 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -119,7 +119,7 @@ public:
 		}
 
 		if (linSize_ <= distance_)
-			RuntimeError("LongChain::ctor()\n");
+			throw RuntimeError("LongChain::ctor()\n");
 	}
 
 	virtual SizeType maxConnections() const
-- 
2.43.0


From 66ee4bb16a762956f00ebf7a133e0cf079d41da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:21 +0000
Subject: [PATCH 18/31] fix: LongChain: bonds across the boundary shared their
 handle with another bond

---
 src/Geometry/LongChain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index cfead82..3387614 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -131,14 +131,16 @@ public:
 
 	SizeType handle(SizeType i, SizeType j) const
 	{
-		return (i < j) ? i : j;
+		const SizeType imin = (i < j) ? i : j;
+		const SizeType imax = (i < j) ? j : i;
+		const bool wraps = (isPeriodic_ && imax - imin != distance_);
+		return (wraps) ? imax : imin;
 	}
 
 	SizeType getVectorSize(SizeType dirId) const
 	{
 		assert(dirId == DIRECTION_X);
-		const SizeType oneOrZero = (isPeriodic_) ? 1 : 0;
-		return linSize_ - distance_ + oneOrZero;
+		return (isPeriodic_) ? linSize_ : linSize_ - distance_;
 	}
 
 	bool connected(SizeType i1, SizeType i2) const
-- 
2.43.0


From 79cfe29483ce655227d0e34ec42f7770b18b651d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:21 +0000
Subject: [PATCH 19/31] fix: Ladder read isPeriodicY_ uninitialized when there
 is one leg

---
 src/Geometry/Ladder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 9440024..2cb89fe 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -96,6 +96,7 @@ public:
 	Ladder(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
 	    , isPeriodicX_(false)
+	    , isPeriodicY_(false)
 	{
 
 		io.readline(leg_, "LadderLeg=");
-- 
2.43.0


From fff89eb53db5a80f88d87465766a4fb75f90a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:21 +0000
Subject: [PATCH 20/31] fix: LadderX: bonds across the boundary shared their
 handle with another bond

---
 src/Geometry/LadderX.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index a2ba12a..7a04051 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -187,9 +187,8 @@ public:
 		SizeType imin = (i1 < i2) ? i1 : i2;
 		switch (dir) {
 		case DIRECTION_X:
-			return imin;
 		case DIRECTION_Y:
-			return imin - imin / leg_;
+			return ladder_.handle(i1, i2);
 		case DIRECTION_XPY: // only checked for leg_=2
 			return (imin - 1) / leg_;
 		case DIRECTION_XMY: // only checked for leg_=2
-- 
2.43.0


From a4a900b06f8920593878174d4426bf8edbfdf7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:21 +0000
Subject: [PATCH 21/31] fix: Honeycomb missed most bonds between columns
 (unsigned difference, wrong rows)

---
 src/Geometry/Honeycomb.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Geometry/Honeycomb.h b/src/Geometry/Honeycomb.h
index 37cab57..c94a4a7 100644
--- a/src/Geometry/Honeycomb.h
+++ b/src/Geometry/Honeycomb.h
@@ -246,13 +246,13 @@ private:
 		if (x1 == x2)
 			return isDirectionYsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
+		SizeType dy = (y1 < y2) ? y2 - y1 : y1 - y2;
 		if (dy != 1)
 			return false;
 
 		assert(x1 < x2);
 		SizeType dx = x2 - x1;
-		if ((dx == 1) && isMultipleOf3(y1) && (y2 < y1))
+		if ((dx == 1) && is4nPlus3(y1) && (y2 < y1))
 			return true;
 
 		if (!periodicX_)
@@ -263,7 +263,7 @@ private:
 		if (dx + 1 != lx)
 			return false;
 
-		return (isMultipleOf3(y2) && (y1 < y2));
+		return (is4nPlus3(y2) && (y1 < y2));
 	}
 
 	// assumes i1 < i2
@@ -272,7 +272,7 @@ private:
 		if (x1 == x2)
 			return isDirectionXsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
+		SizeType dy = (y1 < y2) ? y2 - y1 : y1 - y2;
 		if (dy != 1)
 			return false;
 
@@ -320,7 +320,7 @@ private:
 		return false;
 	}
 
-	static bool isMultipleOf3(SizeType y) { return ((y % 3) == 0); }
+	static bool is4nPlus3(SizeType y) { return ((y % 4) == 3); }
 
 	static bool isMultipleOf4(SizeType y) { return ((y % 4) == 0); }
 
-- 
2.43.0


From 56686dbd593e47677a5c78d2545f5e416f22d2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:21 +0000
Subject: [PATCH 22/31] fix: Geometry::split repeated and missed sites when the
 number of blocks is odd

---
 src/Geometry/Geometry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index 747267e..aafc2fb 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -244,6 +244,8 @@ public:
 			i += sitesPerBlock;
 		}
 
+		middle = i; // the last block may reach beyond the middle
+
 		SizeType lastMiddle = linSize_ - sitesPerBlock;
 		while (i < lastMiddle) {
 			typename Vector<SizeType>::Type tmpV(sitesPerBlock);
-- 
2.43.0


From 3a47193810e45be55a44c6a5bb6a6f5f35a4f902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:55 +0000
Subject: [PATCH 23/31] fix: basenameOf cut the name at the length of the
 extension

---
 src/Vector.h | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index bbe3c9e..89df72e 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -552,18 +552,10 @@ public:
 	enum { True = true };
 };
 
+// the name of a file without its extension
 inline String basenameOf(String s)
 {
-	int j = 0;
-	SizeType l = s.length();
-	for (SizeType i = 0; i < l; ++i) {
-		j = l - i - 1;
-		const char letter = s[j];
-		if (letter == '.')
-			break;
-	}
-
-	return s.substr(0, l - j);
+	return s.substr(0, s.rfind('.'));
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From 41adfd23d11e683de0fb304aac558abdbe7d331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:55 +0000
Subject: [PATCH 24/31] fix: stringToComplex lost the sign of the imaginary
 part and read bi as b

---
 src/Complex.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Complex.h b/src/Complex.h
index de57113..1a1dbc8 100644
--- a/src/Complex.h
+++ b/src/Complex.h
@@ -116,14 +116,17 @@ inline std::complex<double> stringToComplex(const std::string& str) {
 	double real = 0;
 	double imag = 0;
 	char dummy = 0;
+	char sign = 0;
 	std::stringstream ss(str);
 
 	if (str.find('+') != std::string::npos || str.find('-') != std::string::npos) {
-		ss >> real >> dummy >> imag >> dummy;
-		if (str.back() != 'i') {
+		ss >> real >> sign >> imag >> dummy;
+		if (sign == 'i') { // only an imaginary part
+			imag = real;
+			real = 0;
+		} else if (str.back() != 'i') {
 			imag = 0;
-		}
-		if (str[str.find('+') + 1] == '-') {
+		} else if (sign == '-') {
 			imag = -imag;
 		}
 	} else if (str.find('i') != std::string::npos) {
-- 
2.43.0


From ee87c4943d25a51468f2ebc568ad434e83b4e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:07 +0000
Subject: [PATCH 25/31] fix: LinearPrediction refuses more coefficients than
 half the points (it read before the start of the data)

---
 src/LinearPrediction.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 097d765..f3c5424 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -111,6 +111,10 @@ public:
 			    "LinearPrediction::ctor(...): data set must "
 			    "contain an even number of points\n");
 		SizeType n = ysize / 2;
+		if (p > n)
+			throw RuntimeError(
+			    "LinearPrediction::ctor(...): at most half as many "
+			    "coefficients as points\n");
 		MatrixType A(p, p);
 		typename Vector<FieldType>::Type B(p);
 		computeA(A, n);
@@ -129,6 +133,10 @@ public:
 			    "LinearPrediction::ctor(...): data set must "
 			    "contain an even number of points\n");
 		SizeType n = ysize / 2;
+		if (p > n)
+			throw RuntimeError(
+			    "LinearPrediction::ctor(...): at most half as many "
+			    "coefficients as points\n");
 		MatrixType A(p, p);
 		typename Vector<FieldType>::Type B(p);
 		computeA(A, n);
-- 
2.43.0


From a9bdd7373b151e106302115dcb7767fa95dd8e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 26/31] fix: GetBraOrKet refuses a missing number and text left
 over, and no longer reads past the end of "|<P0|>"

---
 src/GetBraOrKet.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index 9ab2b89..ac8c2ff 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -27,7 +27,7 @@ public:
 		const SizeType last = l - 1;
 		if (braOrKet_[0] == '|' && braOrKet_[last] == '>' && l > 2)
 			braOrKet_ = braOrKet.substr(1, l - 2);
-		if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
+		else if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
 			braOrKet_ = braOrKet.substr(1, l - 2);
 			isKet_ = false;
 		}
@@ -96,14 +96,18 @@ private:
 		else if (str[0] == 'R') {
 			kind_ = Kind::R;
 			pair_.first = getNumberFrom(str, 1); // modifies str
+			if (str != "")
+				err("A vector spec ends with unexpected " + str + "\n");
 			return;
 		}
 
-		if (str.size() < 2)
+		if (str == "")
 			return;
 
 		if (str[0] == 'X') {
 			pair_.second = getNumberFrom(str, 1); // modifies str
+			if (str != "")
+				err("A vector spec ends with unexpected " + str + "\n");
 		}
 		else {
 			err("A vector spec can only start with P, gs, X or Q " + str + "\n");
@@ -122,7 +126,7 @@ private:
 		}
 
 		if (number == "")
-			RuntimeError("getNumberFrom: no number after character "
+			throw RuntimeError("getNumberFrom: no number after character "
 			             "location "
 			             + ttos(start) + " for string " + str + "\n");
 
-- 
2.43.0


From ed7f09109e6a2381428624adb432bb1b42efddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 27/31] fix: an operator label with ] before [ is refused

---
 src/OneOperatorSpec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OneOperatorSpec.h b/src/OneOperatorSpec.h
index 2c9841b..ab6c83f 100644
--- a/src/OneOperatorSpec.h
+++ b/src/OneOperatorSpec.h
@@ -80,7 +80,7 @@ struct OneOperatorSpec {
 
 		bool b1 = (firstIndex < 0 && lastIndex >= 0);
 		bool b2 = (firstIndex >= 0 && lastIndex < 0);
-		if (b1 || b2)
+		if (b1 || b2 || lastIndex < firstIndex)
 			err(name + " has unmatched " + cBegin + " or " + cEnd + "\n");
 
 		String str = name.substr(0, firstIndex);
-- 
2.43.0


From 212482ecb5fac4198bf4071e56c18db5b978e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 28/31] fix: PredicateSimple no longer loops forever when a
 name occurs in its value, and refuses a division by zero

---
 src/PredicateSimple.h | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index de4e62a..8d5ef19 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -99,6 +99,8 @@ private:
 	    SizeType rv,
 	    typename std::enable_if<Loki::TypeTraits<T>::isArith, int*>::type = 0)
 	{
+		if (rv == 0)
+			throw RuntimeError("PredicateSimple: division by zero\n");
 		return ((lv % rv) == 0);
 	}
 
@@ -144,19 +146,7 @@ private:
 	template <typename T>
 	static String replaceVariable(String hs, String name, T val)
 	{
-		const String valString = ttos(val);
-		const SizeType nameLength = name.length();
-
-		while (true) {
-			size_t index = hs.find(name);
-			if (index == String::npos)
-				return hs;
-			String part1 = (index == 0) ? "" : hs.substr(0, index);
-			String part2 = hs.substr(index + nameLength,
-			                         hs.length() - nameLength - index);
-			hs = part1 + valString + part2;
-		}
-
+		replaceAll(hs, name, ttos(val));
 		return hs;
 	}
 
-- 
2.43.0


From bf35b46ab6af6852db027c1e96456754b7a694a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 29/31] fix: ExpressionForAST refuses an incomplete expression

---
 src/AST/ExpressionForAST.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/AST/ExpressionForAST.h b/src/AST/ExpressionForAST.h
index 79772ef..32e8fcf 100644
--- a/src/AST/ExpressionForAST.h
+++ b/src/AST/ExpressionForAST.h
@@ -55,6 +55,12 @@ public:
 				break;
 		}
 
+		if (sumOfA != 0) {
+			for (SizeType i = 0; i < vecTree_.size(); i++)
+				delete vecTree_[i];
+			throw RuntimeError("ExpressionForAST: incomplete expression\n");
+		}
+
 		SizeType k = 0;
 		for (SizeType i = 0; i < vecTree_.size(); i++) {
 			SizeType a = va[i];
-- 
2.43.0


From 1fdc1dc9162ebc20a16bc1cdb844af3d872feba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 30/31] fix: QuasiCanonical takes a word for an imaginary
 number only if it ends in i

---
 src/QuasiCanonical.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QuasiCanonical.h b/src/QuasiCanonical.h
index a3cecc8..a0f626f 100644
--- a/src/QuasiCanonical.h
+++ b/src/QuasiCanonical.h
@@ -116,7 +116,7 @@ public:
 			return true;
 
 		const SizeType n = t.length();
-		if (n < 2)
+		if (n < 2 || t[n - 1] != 'i')
 			return false;
 		String tmp = t.substr(0, n - 1);
 		return isRealScalar(tmp);
-- 
2.43.0


From 5c8b5af42aecf892b5555e78598625f5e6503c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:49 +0000
Subject: [PATCH 31/31] fix: CanonicalExpression assigns the first term that is
 not empty, and replaceAll ends when the label occurs in the value

---
 src/CanonicalExpression.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/CanonicalExpression.h b/src/CanonicalExpression.h
index afafb5b..aec4ebc 100644
--- a/src/CanonicalExpression.h
+++ b/src/CanonicalExpression.h
@@ -73,6 +73,7 @@ public:
 		// VectorStringType vecStr;
 		const SizeType numberOfTerms = quasiCanonical.numberOfTerms();
 
+		bool isFirst = true;
 		for (SizeType i = 0; i < numberOfTerms; ++i) {
 			AssignAndDestroyType assignAndDestroy(
 			    resultEmpty); // t_ = resultEmpty
@@ -83,12 +84,13 @@ public:
 			if (!assignAndDestroy.metaEqual(result))
 				err("CanonicalExpression: metas not equal\n");
 
-			if (i == 0)
+			if (isFirst)
 				assignAndDestroy.assignBackward(
 				    result); // result = t_;
 			else
 				assignAndDestroy.plusBackward(
 				    result); // result += t_;
+			isFirst = false;
 		}
 
 		return (ItemSpecType::isEmpty(result)) ? false : true;
@@ -97,15 +99,9 @@ public:
 	template <typename T>
 	static std::pair<bool, String> replaceAll(String str, String label, T value)
 	{
-		std::pair<bool, String> boolString(true, str);
-
-		bool retFlag = false;
-		while (boolString.first) {
-			boolString = replaceOne(boolString.second, label, value);
-			retFlag |= boolString.first;
-		};
-
-		return std::pair<bool, String>(retFlag, boolString.second);
+		const bool retFlag = (label != "" && str.find(label) != String::npos);
+		PsimagLite::replaceAll(str, label, ttos(value));
+		return std::pair<bool, String>(retFlag, str);
 	}
 
 	template <typename T>
-- 
2.43.0

