From a6ad75cde627ebe71fb9a94ddaa7ea102a370222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 01/91] fix: LU::backsub did not compile for float (alpha
 passed to trsm_ was always double)

---
 TooN/LU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 9146de7..e14a1cf 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -106,7 +106,7 @@ class LU {
 
 		FortranInteger M=rhs.num_cols();
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=rhs.num_cols();
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0][0],&ldb);
@@ -135,7 +135,7 @@ class LU {
 
 		FortranInteger M=1;
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=1;
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0],&ldb);
-- 
2.43.0


From 076b3897af5b099b919d83d461e8ea4dd65e4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 02/91] fix: LU::backsub of a matrix with a dynamic number of
 columns skipped the row swaps

---
 TooN/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index e14a1cf..c7ca299 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -115,7 +115,7 @@ class LU {
 		// now do the row swapping (lapack dlaswp.f only shuffles fortran rows = Rowmajor cols)
 		for(int i=N-1; i>=0; i--){
 			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1
-			for(int j=0; j<NRHS; j++){
+			for(int j=0; j<rhs.num_cols(); j++){
 				Precision temp = result[i][j];
 				result[i][j] = result[swaprow][j];
 				result[swaprow][j] = temp;
-- 
2.43.0


From 96977874b8eed3b7a6b0ccb975285ab037ac8d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 03/91] fix: QR divided by zero on columns which are already
 reduced and cancelled on nearly reduced ones

---
 TooN/QR.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/TooN/QR.h b/TooN/QR.h
index 10b33c3..a7f4e2b 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -31,6 +31,7 @@
 #include <TooN/TooN.h>
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 namespace TooN
 {
@@ -153,17 +154,29 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				//
 				//let a = |x| * sgn(x_0])
 
-				Precision  nx2 = norm_sq(s.T()[0]);
+				Precision x0 = s.T()[0][0];
+				Precision rest2 = norm_sq(s.T()[0].slice(1, sz-1));
 
-				Precision a = sqrt(nx2) * (s.T()[0][0] < 0?-1:1);
+				//The column is already reduced (to working precision), so there is no
+				//reflection to perform: u would be zero and dividing by H would yield NaN.
+				const Precision eps = std::numeric_limits<Precision>::epsilon();
+				if(rest2 <= eps * eps * x0 * x0)
+				{
+					s.T()[0].slice(1, sz-1) = Zeros;
+					continue;
+				}
+
+				Precision a = sqrt(x0 * x0 + rest2) * (x0 < 0?-1:1);
 
 				//We now want the vector u = x - ae
 				//
 				// Multipling (I - 2 hat(u) * hat(u)^T) * s will zero out the first column of s except
 				// for the first element. The matrix P = is orthogonal, a bit like Qn 
 				//
-				//Since x is no longer needed, we can just modify the first element
-				s.T()[0][0] -= a;
+				//Since x is no longer needed, we can just modify the first element.
+				//x_0 - a cancels when x is nearly parallel to e, so use
+				//x_0 - a = (x_0^2 - a^2)/(x_0 + a), where x_0 and a have the same sign.
+				s.T()[0][0] = -rest2 / (x0 + a);
 				//auto& u = x;
 
 				//We want H = norm_sq(u)/2 =  a (a - x_0) = a * -u_0
-- 
2.43.0


From be0b9786a368bc8b1c90e2620c8a5991c58c2fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 04/91] fix: SVD::rank counted the negligible singular values
 instead of the significant ones

---
 TooN/SVD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SVD.h b/TooN/SVD.h
index e22a437..6f316d8 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -221,9 +221,9 @@ public:
 	/// See the detailed description of the pseudo-inverse and condition variables.
 	int rank(const Precision condition = condition_no) {
 		if (my_diagonal[0] == 0) return 0;
-		int result=1;
+		int result=0;
 		for(int i=0; i<min_dim(); i++){
-			if(my_diagonal[i] * condition <= my_diagonal[0]){
+			if(my_diagonal[i] * condition > my_diagonal[0]){
 				result++;
 			}
 		}
-- 
2.43.0


From 8d07ef463ec3a9dd89dff8f00f2bd4ac11a55912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 05/91] fix: GR_SVD back substitution and pseudo-inverse did
 not compile for precisions other than double

---
 TooN/GR_SVD.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index dedff91..ff65b2a 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -77,7 +77,7 @@ namespace TooN
     ///otherwise 0 is returned.
     ///@param inv_diag Vector in which to return the inverse diagonal.
     ///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-    void get_inv_diag(Vector<N>& inv_diag, const Precision condition)
+    void get_inv_diag(Vector<N, Precision>& inv_diag, const Precision condition)
     {
       Precision dMax = get_largest_singular_value();
       for(int i=0; i<N; ++i)
-- 
2.43.0


From de19bf48afd0beddbdde251b0376c5d8b9d3165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 06/91] fix: SymEigen<3> left the eigenvalues of the zero
 matrix uninitialised

---
 TooN/SymEigen.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 8c6d42f..6537abb 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -157,6 +157,7 @@ namespace Internal{
 			if(a_norm == 0)
 			{
 				eig = TooN::Identity;
+				ev = TooN::Zeros;
 				return;
 			}
 
-- 
2.43.0


From 9e2ecbacb01e7906566731e339a4ff3c6454f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 07/91] fix: SymEigen<3> normalised the wrong eigenvectors when
 one of them vanishes

---
 TooN/SymEigen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 6537abb..91c2f66 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -320,8 +320,8 @@ namespace Internal{
 				if(ns[1] >= eps)
 				{
 					//one small one. Use the cross product of the other two
-					normalize(eig[1]);
-					normalize(eig[2]);
+					normalize(eig[is[1]]);
+					normalize(eig[is[2]]);
 					eig[is[0]] = eig[is[1]]^eig[is[2]];
 				}
 				else if(ns[2] >= eps)
-- 
2.43.0


From 6f47c42151e74e046f8c2e06f4d74014fdeac6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 08/91] fix: SymEigen<2> lost half of the digits to
 cancellation when the eigenvalues are close

---
 TooN/SymEigen.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 91c2f66..a8de31c 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -103,21 +103,22 @@ namespace Internal{
 		///@param ev Eigen values output
 		template<typename P, typename B>
 		static inline void compute(const Matrix<2,2,P,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
-			double trace = m[0][0] + m[1][1];
 			//Only use the upper triangular elements.
-			double det = m[0][0]*m[1][1] - m[0][1]*m[0][1]; 
-			double disc = trace*trace - 4 * det;
-			
-			//Mathematically, disc >= 0 always.
-			//Numerically, it can drift very slightly below zero.
-			if(disc < 0)
-				disc = 0;
-
+			//
+			//Working with half the difference of the diagonal elements avoids
+			//subtracting nearly equal numbers (as trace*trace - 4*det would).
 			using std::sqrt;
-			double root_disc = sqrt(disc);
-			ev[0] = 0.5 * (trace - root_disc);
-			ev[1] = 0.5 * (trace + root_disc);
-			double a = m[0][0] - ev[0];
+			const double d = 0.5 * (m[0][0] - m[1][1]);
+			const double mean = 0.5 * (m[0][0] + m[1][1]);
+			const double r = sqrt(d*d + (double)m[0][1]*m[0][1]);
+
+			ev[0] = mean - r;
+			ev[1] = mean + r;
+
+			//a = m[0][0] - ev[0] = d + r
+			double a = d + r;
+			if(d < 0)
+				a = (double)m[0][1]*m[0][1] / (r - d);
 			double b = m[0][1];
 			double magsq = a*a + b*b;
 			if (magsq == 0) {
-- 
2.43.0


From ca7df26941428b3db891f9e72327595796f94638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 09/91] fix: SymEigen<3> was inaccurate for clustered
 eigenvalues and compared quantities of different scale

---
 TooN/SymEigen.h | 90 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 90 insertions(+)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index a8de31c..f71de47 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -140,6 +140,94 @@ namespace Internal{
 	///@ingroup gInternal
 	template <> struct ComputeSymEigen<3> {
 
+		///@internal
+		///The closed form solution is inaccurate if eigenvalues are (nearly) repeated.
+		///Orthonormalize the vectors, then remove what remains off the diagonal of
+		///\f$E M E^T\f$ using Jacobi rotations.
+		template<typename P, typename B>
+		static inline void refine(const Matrix<3,3,P,B>& m, Matrix<3,3,P>& eig, Vector<3, P>& ev) {
+			using std::sqrt;
+			using std::swap;
+
+			//Gram-Schmidt. Any starting point will do, if the vectors are unusable.
+			for(int i=0; i < 3; i++)
+			{
+				for(int pass=0; pass < 2; pass++)
+					for(int j=0; j < i; j++)
+						eig[i] -= eig[j] * (eig[j] * eig[i]);
+
+				const P len = sqrt(eig[i] * eig[i]);
+				if(!(len > 1e-3))
+				{
+					eig = TooN::Identity;
+					break;
+				}
+				eig[i] /= len;
+			}
+
+			//Only use the upper triangular elements.
+			Matrix<3,3,P> d = m;
+			d[1][0] = d[0][1];
+			d[2][0] = d[0][2];
+			d[2][1] = d[1][2];
+			d = eig * d * eig.T();
+
+			for(int sweep=0; sweep < 10; sweep++)
+			{
+				bool rotated=0;
+
+				for(int p=0; p < 2; p++)
+					for(int q=p+1; q < 3; q++)
+					{
+						const P off = d[p][q];
+						//Nothing to do if off makes no difference to the diagonal.
+						if(d[p][p] + off == d[p][p] && d[q][q] + off == d[q][q])
+							continue;
+						rotated=1;
+
+						const P theta = (d[q][q] - d[p][p]) / (2*off);
+						const P t = (theta<0?-1:1) / ((theta<0?-theta:theta) + sqrt(theta*theta+1));
+						const P c = 1/sqrt(t*t+1);
+						const P s = t*c;
+
+						for(int k=0; k < 3; k++)
+						{
+							const P x = d[k][p], y = d[k][q];
+							d[k][p] = c*x - s*y;
+							d[k][q] = s*x + c*y;
+						}
+						for(int k=0; k < 3; k++)
+						{
+							const P x = d[p][k], y = d[q][k];
+							d[p][k] = c*x - s*y;
+							d[q][k] = s*x + c*y;
+
+							const P u = eig[p][k], v = eig[q][k];
+							eig[p][k] = c*u - s*v;
+							eig[q][k] = s*u + c*v;
+						}
+					}
+
+				if(!rotated)
+					break;
+			}
+
+			for(int i=0; i < 3; i++)
+				ev[i] = d[i][i];
+
+			//Sort in to ascending order.
+			for(int i=0; i < 3; i++)
+			{
+				const int k = i%2;
+				if(ev[k] > ev[k+1])
+				{
+					swap(ev[k], ev[k+1]);
+					for(int j=0; j < 3; j++)
+						swap(eig[k][j], eig[k+1][j]);
+				}
+			}
+		}
+
 		///@internal
 		///Compute an eigensystem.
 		///@param m Input matrix (assumed to be symmetric)
@@ -348,6 +436,8 @@ namespace Internal{
   				normalize(eig[1]);
   				normalize(eig[2]);
 			}
+
+			refine(m, eig, ev);
 		}
 	};
 
-- 
2.43.0


From b0955abbc83135fefffc7ce09aa0676e65095a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 10/91] fix: WLS rounded every measurement to double, whatever
 the precision

---
 TooN/wls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/wls.h b/TooN/wls.h
index 0a6b33f..7ae9a17 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -100,7 +100,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
 		{
-			double Jw = weight * J[r];
+			Precision Jw = weight * J[r];
 			my_vector[r] += m * Jw;
 			for(int c=r; c < my_C_inv.num_rows(); c++)
 				my_C_inv[r][c] += Jw * J[c];
@@ -158,7 +158,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < J1.size(); r++)
 		{
-			double Jw = weight * J1[r];
+			Precision Jw = weight * J1[r];
 			my_vector[r+index1] += m * Jw;
 			for(int c = r; c < J1.size(); c++)
 				my_C_inv[r+index1][c+index1] += Jw * J1[c];
-- 
2.43.0


From f026b5ff0e3ca78c0ac26daa41985c7b479cf6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 11/91] fix: WLS::add_mJ did not check the size of the Jacobian

---
 TooN/wls.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/wls.h b/TooN/wls.h
index 7ae9a17..53e8e50 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -96,6 +96,8 @@ public:
 	/// @param weight The inverse variance of the measurement (default = 1)
 	template<class B2, class P2>
 	inline void add_mJ(Precision m, const Vector<Size, P2, B2>& J, Precision weight = 1) {
+
+		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), J.size());
 		
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
-- 
2.43.0


From 7817f6dd5b15557e9f8098d01276fb26d53a64ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 12/91] fix: Gaussian elimination and Gauss-Jordan rounded long
 double pivots and factors to double

---
 TooN/gauss_jordan.h         | 6 +++---
 TooN/gaussian_elimination.h | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/gauss_jordan.h b/TooN/gauss_jordan.h
index fb5fdb8..5547d65 100644
--- a/TooN/gauss_jordan.h
+++ b/TooN/gauss_jordan.h
@@ -64,7 +64,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 		  using std::abs;
 			int pivotpos = col;
-			double pivotval = abs(m[pivotpos][col]);
+			Precision pivotval = abs(m[pivotpos][col]);
 			for(int p=col+1; p <m.num_rows(); p++)
 			  if(abs(m[p][col]) > pivotval)
 				{
@@ -82,7 +82,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 		{
 			if(row != col)
 			{
-				double multiple = m[row][col] / m[col][col];
+				Precision multiple = m[row][col] / m[col][col];
 		
 				//We could eliminate some of the computations in the augmented
 				//matrix, if the augmented half is the identity. In general, it
@@ -102,7 +102,7 @@ template<int R, int C, class Precision, class Base> void gauss_jordan(Matrix<R,
 	//square matrix, since it is diagonal, and ends up as the identity.
 	for(int row=0;row < m.num_rows(); row++)
 	{
-		double mul = 1/m[row][row];
+		Precision mul = 1/m[row][row];
 
 		m[row][row] = 1;
 
diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 870e7ec..988a684 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -51,7 +51,7 @@ namespace TooN {
 			Precision maxval = abs(A[i][i]);
 			
 			for (int ii=i+1; ii<size; ++ii) {
-				double v =  abs(A[ii][i]);
+				Precision v =  abs(A[ii][i]);
 				if (v > maxval) {
 					maxval = v;
 					argmax = ii;
@@ -71,7 +71,7 @@ namespace TooN {
 			b[i] *= inv_pivot;
 			
 			for (int u=i+1; u<size; ++u) {
-				double factor = A[u][i];
+				Precision factor = A[u][i];
 				//A[u][i] = 0;
 				for (int j=i+1; j<size; ++j)
 					A[u][j] -= factor * A[i][j];
-- 
2.43.0


From 4e7aa2ee21696e3ad181899b80378eea6537554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 13/91] fix: gaussian_elimination did not check the sizes of
 dynamic arguments

---
 TooN/gaussian_elimination.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 988a684..1d9de13 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -44,6 +44,9 @@ namespace TooN {
 		using std::swap;
 		using std::abs;
 
+		SizeMismatch<N, N>::test(A.num_rows(), A.num_cols());
+		SizeMismatch<N, N>::test(A.num_rows(), b.size());
+
 		int size=b.size();
 
 		for (int i=0; i<size; ++i) {
-- 
2.43.0


From 2ff38d4d5d30d8ed34b8dccc2562f3656f6c5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 14/91] fix: IRLS did not compile for precisions other than the
 default

---
 TooN/irls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 3318fc3..08d699a 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -122,7 +122,7 @@ namespace TooN {
 			Precision ts = Reweight<Precision>::true_scale(m);
 			my_residual += Reweight<Precision>::objective(m);
 
-			WLS<Size>::add_mJ(m,J,scale);
+			WLS<Size,Precision>::add_mJ(m,J,scale);
 
 			Vector<Size,Precision> scaledm(m*ts);
 
@@ -131,7 +131,7 @@ namespace TooN {
 		}
 
 		void operator += (const IRLS& meas){
-			WLS<Size>::operator+=(meas);
+			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
 		}
 
-- 
2.43.0


From 72b47e2a02e2ab0f1c01f727428f5d88e35864b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 15/91] fix: IRLS accumulated the true inverse covariance from
 uninitialised memory

---
 TooN/irls.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 08d699a..fe97992 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -124,9 +124,7 @@ namespace TooN {
 
 			WLS<Size,Precision>::add_mJ(m,J,scale);
 
-			Vector<Size,Precision> scaledm(m*ts);
-
-			my_true_C_inv += scaledm.as_col() * scaledm.as_row();
+			my_true_C_inv += (J * ts).as_col() * J.as_row();
 
 		}
 
-- 
2.43.0


From 93f3055747dea3bfe893d156e9dbb2c0e48305cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 16/91] fix: RobustII::true_scale did not return w(x) + xw'(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index fe97992..8f544ec 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -57,7 +57,7 @@ namespace TooN {
 		void set_sd(Precision x){ sd_inlier = x*x;} ///<Set the noise standard deviation.
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision d){return d - 2*d*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
 		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
-- 
2.43.0


From 8e6a05332f6538f2770f0325fe10c5e199284bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 17/91] fix: ILinear::objective returned twice the integral of
 xw(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 8f544ec..63b45d6 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -70,7 +70,7 @@ namespace TooN {
 		void set_sd(Precision){} ///<Set the noise standard deviation (does nothing).
 		inline Precision reweight(Precision){return 1;} ///< Returns \f$w(x)\f$.
 		inline Precision true_scale(Precision){return 1;} ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision d){return d*d;} ///< Returns \f$\int xw(x)dx\f$.
+		inline Precision objective(Precision d){return d*d/2;} ///< Returns \f$\int xw(x)dx\f$.
 	};
 	
 	///A reweighting class where the objective function tends to a 
-- 
2.43.0


From a4bab2dc2bdfa7de1ecb3e385a9a220c3585b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 18/91] fix: IRLS::operator+= dropped the residual of the
 merged measurements

---
 TooN/irls.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index 63b45d6..f08ad45 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -131,6 +131,7 @@ namespace TooN {
 		void operator += (const IRLS& meas){
 			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
+			my_residual += meas.my_residual;
 		}
 
 
-- 
2.43.0


From e38c149927ee3edb69836a6eef82ab70dda2e18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 19/91] fix: SIM3/SIM2 exp used integer division in the series
 near the identity

---
 TooN/sim3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 0545bac..6f33f83 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -433,8 +433,8 @@ inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision
 
 	if(fabs(s) < eps && fabs(t) < eps){
 		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = 1/2 + s/3 - t*t/24 + s*s/8;
-		coeff[2] = 1/6 + s/8 - t*t/120 + s*s/20;
+		coeff[1] = 1./2 + s/3 - t*t/24 + s*s/8;
+		coeff[2] = 1./6 + s/8 - t*t/120 + s*s/20;
 	} else if(fabs(s) < eps) {
 		coeff[0] = 1 + s/2 + s*s/6;
 		coeff[1] = (1-cos(t))/(t*t) + (sin(t)-cos(t)*t)*s/(t*t*t)+(2*sin(t)*t-t*t*cos(t)-2+2*cos(t))*s*s/(2*t*t*t*t);
-- 
2.43.0


From 58feb3937d89f58ee739708d4582b7d17d1500b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 20/91] fix: SIM3/SIM2 exp and ln cancelled for small scales
 and angles

---
 TooN/sim3.h | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 6f33f83..257475c 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -422,12 +422,16 @@ namespace Internal {
 template <typename Precision>
 inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision & s, const Precision & t ){
 	using std::exp;
+	using std::expm1;
+	using std::fabs;
+	using std::sin;
+	using std::cos;
 
 	Vector<3, Precision> coeff;
 	const Precision es = exp(s);
 
-	// 4 cases for s -> 0 and/or theta -> 0
-	// the Taylor expansions were calculated with Maple 12 and truncated at the 3rd power,
+	// special cases for s -> 0 and/or theta -> 0
+	// the Taylor expansion was calculated with Maple 12 and truncated at the 3rd power,
 	// such that eps^3 < 1e-18 which results in approximately 1 + eps^3 = 1
 	static const Precision eps = 1e-6;
 
@@ -435,22 +439,23 @@ inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision
 		coeff[0] = 1 + s/2 + s*s/6;
 		coeff[1] = 1./2 + s/3 - t*t/24 + s*s/8;
 		coeff[2] = 1./6 + s/8 - t*t/120 + s*s/20;
-	} else if(fabs(s) < eps) {
-		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = (1-cos(t))/(t*t) + (sin(t)-cos(t)*t)*s/(t*t*t)+(2*sin(t)*t-t*t*cos(t)-2+2*cos(t))*s*s/(2*t*t*t*t);
-		coeff[2] = (t-sin(t))/(t*t*t) - (-t*t-2+2*cos(t)+2*sin(t)*t)*s/(2*t*t*t*t) - (-t*t*t+6*cos(t)*t+3*sin(t)*t*t-6*sin(t))*s*s/(6*t*t*t*t*t);
-	} else if(fabs(t) < eps) {
-		coeff[0] = (es - 1)/s;
-		coeff[1] = (s*es+1-es)/(s*s) - (6*s*es+6-6*es+es*s*s*s-3*es*s*s)*t*t/(6*s*s*s*s);
-		coeff[2] = (es*s*s-2*s*es+2*es-2)/(2*s*s*s) - (es*s*s*s*s-4*es*s*s*s+12*es*s*s-24*s*es+24*es-24)*t*t/(24*s*s*s*s*s);
 	} else {
+		// exp(s)-1 and exp(s)*cos(t)-1 without cancellation
+		const Precision es_1 = expm1(s);
+		const Precision sin_half_t = sin(t/2);
+		const Precision b_1 = es_1 * cos(t) - 2*sin_half_t*sin_half_t;
 		const Precision a = es * sin(t);
-		const Precision b = es * cos(t);
 		const Precision inv_s_theta = 1/(s*s + t*t);
 
-		coeff[0] = (es - 1)/s;
-		coeff[1] = (a*s + (1-b)*t) * inv_s_theta / t;
-		coeff[2] = (coeff[0] - ((b-1)*s + a*t) * inv_s_theta) / (t*t);
+		coeff[0] = (s == 0)?1:es_1/s;
+		if(fabs(t) < 1e-8) {
+			// coeff[1] and coeff[2] are multiplied by t and t*t respectively
+			coeff[1] = (s*es - es_1)/(s*s);
+			coeff[2] = (es/2 - coeff[1])/s;
+		} else {
+			coeff[1] = (a*s - b_1*t) * inv_s_theta / t;
+			coeff[2] = (coeff[0] - (b_1*s + a*t) * inv_s_theta) / (t*t);
+		}
 	}
 
 	return coeff;
-- 
2.43.0


From 72c073b4c2fe1641f2f7967cd85e28ffe486cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 21/91] fix: SIM3::exp and assignment of the identity did not
 compile for precisions other than the default

---
 TooN/sim3.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 257475c..e70d770 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -98,8 +98,8 @@ public:
 	}
 	
 	/// Reset back to the identity transform
-	inline SIM3<>& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
-		return *this = SIM3<>();
+	inline SIM3& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
+		return *this = SIM3();
 	}
 
 	/// Right-multiply by another SIM3 (concatenate the two transformations)
@@ -477,7 +477,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
 	const Precision t = norm(w);
-	result.get_rotation() = SO3<>::exp(w);
+	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
-- 
2.43.0


From 7a80124712f901ef197310e8b614d06ff9752daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 22/91] fix: SIM3::adjoint and trinvadjoint ignored the scale
 and left the last element uninitialised

---
 TooN/sim3.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index e70d770..2ff4dbc 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -195,8 +195,10 @@ inline Vector<7, Precision> SIM3<Precision>::adjoint(const Vector<S,P2, Accessor
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>() * get_scale();
 	result.template slice<0,3>() += get_translation() ^ result.template slice<3,3>();
+	result.template slice<0,3>() -= get_translation() * vect[6];
+	result[6] = vect[6];
 	return result;
 }
 
@@ -209,8 +211,9 @@ inline Vector<7, Precision> SIM3<Precision>::trinvadjoint(const Vector<S,P2, Acc
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>() / get_scale();
 	result.template slice<3,3>() += get_translation() ^ result.template slice<0,3>();
+	result[6] = vect[6] + get_translation() * result.template slice<0,3>();
 	return result;
 }
 
-- 
2.43.0


From 5896db3d1c640a1b1f37e36cd131ab12b600134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 23/91] fix: SIM2::exp and ln used the wrong coefficient for
 the translation

---
 TooN/sim2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 6a4b907..86752c3 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -344,7 +344,8 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
-	result.get_translation() = coeff[2] * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
+	// the square of the generator of the rotation is -Identity
+	result.get_translation() = (coeff[0] - theta*theta*coeff[2]) * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
 	return result;
 }
@@ -365,7 +366,7 @@ inline Vector<4, Precision> SIM2<Precision>::ln(const SIM2<Precision> & sim2) {
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(result[3], theta);
 	Matrix<2,2, Precision> cross = Zeros; cross(0,1) = -theta; cross(1,0) = theta;
-	const Matrix<2,2, Precision> W = coeff[2] * Identity + coeff[1] * cross;
+	const Matrix<2,2, Precision> W = (coeff[0] - theta*theta*coeff[2]) * Identity + coeff[1] * cross;
 	result.template slice<0,2>() = gaussian_elimination(W, sim2.get_translation());
 
 	return result;
-- 
2.43.0


From f9dfb3a843d0b69686fb2d55c26aeb9cce409da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 24/91] fix: SIM2::adjoint ignored the scale and left the last
 element uninitialised

---
 TooN/sim2.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 86752c3..3f597da 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -132,7 +132,9 @@ public:
 	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
 		Vector<4, Precision> result;
 		result[2] = vect[2];
-		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
+		result[3] = vect[3];
+		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>() * get_scale();
+		result.template slice<0,2>() -= get_translation() * vect[3];
 		result[0] += vect[2] * get_translation()[1];
 		result[1] -= vect[2] * get_translation()[0];
 		return result;
-- 
2.43.0


From e6894496d2330db6a26e4bab0f4fc23b3d4812ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 25/91] fix: SL<N>::ln returned wrong diagonal weights for N >=
 4

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index ca7551a..8b1757a 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -144,7 +144,7 @@ inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
 		v[i] = l(i,i) + last;
-		last = l(i,i);
+		last = v[i];
 	}
 	for(int i = DIAG_LIMIT, row = 0, col = 1; i < SYMM_LIMIT; ++i) {	// calculate symmetric and antisymmetric in one go
 		// do the right thing here to calculate the correct indices !
-- 
2.43.0


From 199b465ee7e2f7c98a225a13133889ff543fd2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 26/91] fix: SL<N> of a matrix with a negative determinant was
 NaN, SL<N,float>::inverse did not compile

---
 TooN/sl.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 8b1757a..0ff9460 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -99,7 +99,7 @@ public:
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
-		const Matrix<N> id = Identity;
+		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
 	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
@@ -109,7 +109,13 @@ private:
 		Precision det = determinant(my_matrix);
 		assert(abs(det) > 0);
         using std::pow;
-		my_matrix /= pow(det, 1.0/N);
+		//An odd root of a negative number exists, but pow does not provide it.
+		//There is no element of SL with the same effect if N is even.
+		assert(det > 0 || N%2 == 1);
+		if(det < 0)
+			my_matrix /= -pow(-det, Precision(1)/N);
+		else
+			my_matrix /= pow(det, Precision(1)/N);
 	}
 
 	/// these constants indicate which parts of the parameter vector 
-- 
2.43.0


From ac026a95781d8c8a1d86b7bb723e490dd24b4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 27/91] fix: SO3(a, b) was not a rotation if the vectors are
 nearly parallel

---
 TooN/so3.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 824ad44..5dd01ee 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -87,7 +87,9 @@ public:
 			return;
 		}
 		n = unit(n);
-		Matrix<3> R1;
+		//The cross product of nearly parallel vectors is not accurately perpendicular to them
+		n = unit(n - unit(a) * (unit(a) * n));
+		Matrix<3,3,Precision> R1;
 		R1.T()[0] = unit(a);
 		R1.T()[1] = n;
 		R1.T()[2] = R1.T()[0] ^ n;
-- 
2.43.0


From 9bcfe381fc2a7ec8a723741faae1474ce91008f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 28/91] fix: SO2 accepted reflections, which SO3 rejects

---
 TooN/so2.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/so2.h b/TooN/so2.h
index 8fe30e6..3af7c55 100644
--- a/TooN/so2.h
+++ b/TooN/so2.h
@@ -31,6 +31,7 @@
 
 #include <TooN/TooN.h>
 #include <TooN/helpers.h>
+#include <cassert>
 
 namespace TooN {
 
@@ -83,6 +84,8 @@ public:
 		my_matrix[0] = unit(my_matrix[0]);
 		my_matrix[1] -= my_matrix[0] * (my_matrix[0]*my_matrix[1]);
 		my_matrix[1] = unit(my_matrix[1]);
+		// check for positive determinant <=> right handed coordinate system of row vectors
+		assert( my_matrix[0][0] * my_matrix[1][1] - my_matrix[0][1] * my_matrix[1][0] > 0 );
 	}
 
 	/// Exponentiate an angle in the Lie algebra to generate a new SO2.
-- 
2.43.0


From 3a0da3a2947ff476fabda5b64c2e4030dd959677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 29/91] fix: the product SO2<float> * SO2<double> did not
 compile

---
 TooN/so2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/so2.h b/TooN/so2.h
index 3af7c55..6e2987d 100644
--- a/TooN/so2.h
+++ b/TooN/so2.h
@@ -127,11 +127,12 @@ public:
 		return result;
 	}
 
+	template <typename PA, typename PB>
+	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
+
 private:
 	struct Invert {};
 	inline SO2(const SO2& so2, const Invert&) : my_matrix(so2.my_matrix.T()) {}
-	template <typename PA, typename PB>
-	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
 
 	Matrix<2,2,Precision> my_matrix;
 };
-- 
2.43.0


From 1a70fc97acbe915a8fe14699d6fc089f34469094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 30/91] fix: the product of SL of different precisions did not
 compile

---
 TooN/sl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 0ff9460..bdb0f07 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -96,13 +96,15 @@ public:
 	/// @arg i number of the generator between 0 and SL::dim -1 inclusive
 	static inline Matrix<N,N,Precision> generator(int);
 
+	template <typename PA, typename PB>
+	SL( const SL<N,PA> & a, const SL<N,PB> & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
+
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
 		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
-	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
 
 	void coerce(){
 		using std::abs;
-- 
2.43.0


From 464069cf0e034c3df3f0edef4305dfe7d18b395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 31/91] fix: SE3::exp dropped the quadratic term for small
 rotations

---
 TooN/se3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/se3.h b/TooN/se3.h
index a699782..d7ec177 100644
--- a/TooN/se3.h
+++ b/TooN/se3.h
@@ -407,7 +407,7 @@ inline SE3<Precision> SE3<Precision>::exp(const Vector<S, P, VA>& mu){
 	if (theta_sq < 1e-8) {
 		A = 1.0 - one_6th * theta_sq;
 		B = 0.5;
-		result.get_translation() = mu.template slice<0,3>() + 0.5 * cross;
+		result.get_translation() = mu.template slice<0,3>() + B * cross + one_6th * (w ^ cross);
 	} else {
 		Precision C;
 		if (theta_sq < 1e-6) {
-- 
2.43.0


From def73c97acf4a30962b546b175efd1e7cb5c6c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 32/91] fix: SE2::exp dropped the quadratic term for small
 rotations

---
 TooN/se2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 6d985ed..90017f5 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -325,7 +325,7 @@ inline SE2<Precision> SE2<Precision>::exp(const Vector<S, PV, Accessor>& mu)
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
 	if (theta_sq < 1e-8){
-		result.get_translation() = mu.template slice<0,2>() + 0.5 * cross;
+		result.get_translation() = (1 - theta_sq * one_6th) * mu.template slice<0,2>() + 0.5 * cross;
 	} else {
 		Precision A, B;
 		if (theta_sq < 1e-6) {
-- 
2.43.0


From cea45096a989a3106e9d518333e32e07180bc3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 33/91] fix: SO3(a, b) did not compile for dynamic vectors

---
 TooN/so3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 5dd01ee..7102edf 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -78,7 +78,7 @@ public:
 	SO3(const Vector<S1, P1, A1> & a, const Vector<S2, P2, A2> & b ){
 		SizeMismatch<3,S1>::test(3, a.size());
 		SizeMismatch<3,S2>::test(3, b.size());
-		Vector<3, Precision> n = a ^ b;
+		Vector<3, Precision> n = a.template slice<0,3>() ^ b.template slice<0,3>();
 		if(norm_sq(n) == 0) {
 			//check that the vectors are in the same direction if cross product is 0. If not,
 			//this means that the rotation is 180 degrees, which leads to an ambiguity in the rotation axis.
-- 
2.43.0


From b9231c6b28d2b3594152e57f5f95fc7694c6b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 34/91] fix: SE2::adjoint of a matrix did not compile

---
 TooN/se2.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 90017f5..ddcaebd 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -114,8 +114,9 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<3, Precision> adjoint(const Vector<3,Precision, Accessor> & vect) const {
+	template<int S, typename P2, typename Accessor>
+	Vector<3, Precision> adjoint(const Vector<S,P2, Accessor> & vect) const {
+		SizeMismatch<3,S>::test(3, vect.size());
 		Vector<3, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = my_rotation * vect.template slice<0,2>();
@@ -124,8 +125,10 @@ public:
 		return result;
 	}
 
-	template <typename Accessor>
-	Matrix<3,3,Precision> adjoint(const Matrix<3,3,Precision,Accessor>& M) const {
+	template <int R, int C, typename P2, typename Accessor>
+	Matrix<3,3,Precision> adjoint(const Matrix<R,C,P2,Accessor>& M) const {
+		SizeMismatch<3,R>::test(3, M.num_rows());
+		SizeMismatch<3,C>::test(3, M.num_cols());
 		Matrix<3,3,Precision> result;
 		for(int i=0; i<3; ++i)
 			result.T()[i] = adjoint(M.T()[i]);
-- 
2.43.0


From 9ee2475772a47a7e0e0384e409adf79f0a832b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 35/91] fix: SIM2::adjoint of a matrix did not compile

---
 TooN/sim2.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 3f597da..074e4c1 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -128,8 +128,9 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
+	template<int S, typename P2, typename Accessor>
+	Vector<4, Precision> adjoint(const Vector<S,P2, Accessor> & vect) const {
+		SizeMismatch<4,S>::test(4, vect.size());
 		Vector<4, Precision> result;
 		result[2] = vect[2];
 		result[3] = vect[3];
@@ -140,8 +141,10 @@ public:
 		return result;
 	}
 
-	template <typename Accessor>
-	Matrix<4,4,Precision> adjoint(const Matrix<4,4,Precision,Accessor>& M) const {
+	template <int R, int C, typename P2, typename Accessor>
+	Matrix<4,4,Precision> adjoint(const Matrix<R,C,P2,Accessor>& M) const {
+		SizeMismatch<4,R>::test(4, M.num_rows());
+		SizeMismatch<4,C>::test(4, M.num_cols());
 		Matrix<4,4,Precision> result;
 		for(int i=0; i<4; ++i)
 			result.T()[i] = adjoint(M.T()[i]);
-- 
2.43.0


From 8de4e835ee7630c4fa12081902d796abd1b0fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 36/91] fix: SIM3::exp did not compile for vectors of a
 different precision

---
 TooN/sim3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 2ff4dbc..ab17538 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -475,7 +475,8 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	SIM3<Precision> result;
 
 	// scale
-	result.get_scale() = exp(mu[6]);
+	const Precision s = mu[6];
+	result.get_scale() = exp(s);
 	
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
@@ -483,7 +484,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(s, t); 
 	const Vector<3,Precision> cross = w ^ mu.template slice<0,3>();
 	result.get_translation() = coeff[0] * mu.template slice<0,3>() + TooN::operator*(coeff[1], cross) + TooN::operator*(coeff[2], (w ^ cross));
 
-- 
2.43.0


From fb5b30118726ce08c164cc020d2760cc036e0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 37/91] fix: SIM2::exp did not compile for vectors of a
 different precision

---
 TooN/sim2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 074e4c1..dd255f5 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -344,10 +344,11 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
 	// scale
-	result.get_scale() = exp(mu[3]);
+	const Precision s = mu[3];
+	result.get_scale() = exp(s);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(s, theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
 	// the square of the generator of the rotation is -Identity
 	result.get_translation() = (coeff[0] - theta*theta*coeff[2]) * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
-- 
2.43.0


From c1d6a9078bcd7d92a08e622ebb5e56c57cffcd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 38/91] fix: exp of the zero matrix and of large matrices was
 undefined behaviour

---
 TooN/helpers.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 447bca3..e289f58 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -330,9 +330,11 @@ namespace TooN {
 	inline Matrix<R, C, P> exp( const Matrix<R,C,P,B> & m ){
 		using std::max;
 		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
-		const P l = log2(norm_inf(m));
-		const int s = max(0,(int)ceil(l));
-		Matrix<R,C,P> result = Internal::exp_taylor(m/(1<<s));
+		using std::ldexp;
+		const P n = norm_inf(m);
+		// the conversion to int is undefined for log2(0), the shift for s >= 31
+		const int s = n > 1 ? max(0,(int)ceil(log2(n))) : 0;
+		Matrix<R,C,P> result = Internal::exp_taylor(m/ldexp(P(1), s));
 		for(int i = 0; i < s; ++i)
 			result = result * result;
 		return result;
-- 
2.43.0


From 067e708b5823e5355e912d85024765e7a2ef9d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 39/91] fix: sqrt and log of ill-conditioned matrices never
 returned

---
 TooN/helpers.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index e289f58..321ab5a 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -355,11 +355,15 @@ namespace TooN {
 		Matrix<R,C,P> Y = m;
 		Matrix<R,C,P> M_inv(m.num_rows(), m.num_cols());
 		const Matrix<R,C,P> id = Identity(m.num_rows());
+		// The iteration converges quadratically after the scale of the matrix, which
+		// changes by a factor of at most 4 per step, is reduced to about 1. If it has not
+		// converged by then, it is trapped by rounding errors and would never end.
+		int steps = std::numeric_limits<P>::max_exponent + std::numeric_limits<P>::digits;
 		do {
 			M_inv = gaussian_elimination(M, id);
 			Y = Y * (id + M_inv) * 0.5;
 			M = 0.5 * (id + (M + M_inv) * 0.5);
-		} while(norm_inf(M - M_inv) > 0);
+		} while(norm_inf(M - M_inv) > 0 && --steps > 0);
 		return Y;
 	}
 	
@@ -375,7 +379,8 @@ namespace TooN {
 	inline Matrix<R, C, P> log( const Matrix<R,C,P,B> & m){
 		int counter = 0;
 		Matrix<R,C,P> A = m;
-		while(norm_inf(A - Identity*1.0) > 0.5){
+		// every square root halves the logarithm
+		while(norm_inf(A - Identity*1.0) > 0.5 && counter < std::numeric_limits<P>::max_exponent){
 			++counter;
 			A = sqrt(A);
 		}
-- 
2.43.0


From 91e8bc0b76c862cb35c54d3e118e4a1593c92214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 40/91] fix: golden_section_search did not compile (unqualified
 sqrt)

---
 TooN/optimization/golden_section.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index 3a4a2d3..b862b26 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -48,9 +48,10 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		using std::abs;
+		using std::sqrt;
 		//The golden ratio:
 		const Precision g = (3.0 - sqrt(5))/2;
 
@@ -127,7 +128,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		return golden_section_search(a, b, c, func(b), func, maxiterations, tol);
 	}
-- 
2.43.0


From 0060987d7245819996f3042b8969a111800e9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 41/91] fix: golden_section_search ignored its iteration limit

---
 TooN/optimization/golden_section.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index b862b26..b9e2dd9 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -83,6 +83,7 @@ namespace TooN
 		int itnum = 1; //We've already done one iteration.
 		while(abs(c-a) > tol * (abs(x2)+abs(x1)) && itnum < maxiterations)
 		{
+			itnum++;
 			if(fx1 > fx2)
 			{
 				// Bracketing does:
-- 
2.43.0


From 25efa10fd8af302594466b4f162218f5b12cf840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 42/91] fix: brent_line_search did not compile with its default
 tolerance

---
 TooN/optimization/brent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 3e60251..6fc042c 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -52,7 +52,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
+	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = std::sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
 	{
 		using std::min;
 		using std::max;
-- 
2.43.0


From 77aa2bac986c4edc3edc243fe7c875bafa173167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 43/91] fix: DownhillSimplex used double points whatever its
 Precision

---
 TooN/optimization/downhill_simplex.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/optimization/downhill_simplex.h b/TooN/optimization/downhill_simplex.h
index e7faa37..56b2eae 100644
--- a/TooN/optimization/downhill_simplex.h
+++ b/TooN/optimization/downhill_simplex.h
@@ -114,7 +114,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 		///@param c          Origin of the initial simplex. The dimension of this vector
 		///                  is used to determine the dimension of the run-time sized version.
 		///@param spread     Size of the initial simplex.
-		template<class Function> DownhillSimplex(const Function& func, const Vector<N>& c, Precision spread=1)
+		template<class Function> DownhillSimplex(const Function& func, const Vector<N, Precision>& c, Precision spread=1)
 		:simplex(c.size()+1, c.size()),values(c.size()+1)
 		{
 			alpha = 1.0;
@@ -135,7 +135,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 		///@param func       Functor to minimize.
 		///@param c          \e c corner point of the simplex
 		///@param spread     \e spread simplex size
-		template<class Function> void restart(const Function& func, const Vector<N>& c, Precision spread)
+		template<class Function> void restart(const Function& func, const Vector<N, Precision>& c, Precision spread)
 		{
 			for(int i=0; i < simplex.num_rows(); i++)
 				simplex[i] = c;
@@ -208,7 +208,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			int worst = get_worst();
 			Precision second_worst_val=-HUGE_VAL, bestval = HUGE_VAL, worst_val = values[worst];
 			int best=0;
-			Vector<N> x0 = Zeros(simplex.num_cols());
+			Vector<N, Precision> x0 = Zeros(simplex.num_cols());
 
 
 			for(int i=0; i < simplex.num_rows(); i++)
@@ -232,13 +232,13 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 
 
 			//Reflect the worst point about the centroid.
-			Vector<N> xr = (1 + alpha) * x0 - alpha * simplex[worst];
+			Vector<N, Precision> xr = (1 + alpha) * x0 - alpha * simplex[worst];
 			Precision fr = func(xr);
 
 			if(fr < bestval)
 			{
 				//If the new point is better than the smallest, then try expanding the simplex.
-				Vector<N> xe = rho * xr + (1-rho) * x0;
+				Vector<N, Precision> xe = rho * xr + (1-rho) * x0;
 				Precision fe = func(xe);
 
 				//Keep whichever is best
@@ -271,7 +271,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			//a bit.
 			if(fr < worst_val)
 			{
-				Vector<N> xc = (1 + gamma) * x0 - gamma * simplex[worst];
+				Vector<N, Precision> xc = (1 + gamma) * x0 - gamma * simplex[worst];
 				Precision fc = func(xc);
 
 				//If this helped, use it
-- 
2.43.0


From 8102ae01435599a2eeea9c84e22ea981c4216867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 44/91] fix: ConjugateGradient with a Precision other than
 double did not work

---
 TooN/optimization/conjugate_gradient.h | 42 +++++++++++++-------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index c148222..1fb55b0 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -99,7 +99,7 @@ namespace TooN{
 
 		if(b_val < a_val) //We've gone downhill, so keep searching until we go back up
 		{
-			double last_good_lambda = lambda;
+			Precision last_good_lambda = lambda;
 			
 			for(;;)
 			{
@@ -126,8 +126,8 @@ namespace TooN{
 			//Back up: this will not attempt to ensure a bracket
 			if(std::isnan(c_val))
 			{
-				double bad_lambda=lambda;
-				double l=1;
+				Precision bad_lambda=lambda;
+				Precision l=1;
 
 				for(;;)
 				{
@@ -167,7 +167,7 @@ namespace TooN{
 			}
 		}
 
-		Matrix<3,2> ret;
+		Matrix<3,2,Precision> ret;
 		ret[0] = makeVector(a, a_val);
 		ret[1] = makeVector(b, b_val);
 		ret[2] = makeVector(c, c_val);
@@ -225,13 +225,13 @@ will not be necessary.
 template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 {
 	const int size;      ///< Dimensionality of the space.
-	Vector<Size> g;      ///< Gradient vector used by the next call to iterate()
-	Vector<Size> h;      ///< Conjugate vector to be searched along in the next call to iterate()
-	Vector<Size> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
-	Vector<Size> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
-	Vector<Size> old_h;  ///< Conjugate vector searched along in the last call to iterate()
-	Vector<Size> x;      ///< Current position (best known point)
-	Vector<Size> old_x;  ///< Previous best known point (not set at construction)
+	Vector<Size, Precision> g;      ///< Gradient vector used by the next call to iterate()
+	Vector<Size, Precision> h;      ///< Conjugate vector to be searched along in the next call to iterate()
+	Vector<Size, Precision> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
+	Vector<Size, Precision> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
+	Vector<Size, Precision> old_h;  ///< Conjugate vector searched along in the last call to iterate()
+	Vector<Size, Precision> x;      ///< Current position (best known point)
+	Vector<Size, Precision> old_x;  ///< Previous best known point (not set at construction)
 	Precision y;         ///< Function at \f$x\f$
 	Precision old_y;     ///< Function at  old_x
 
@@ -252,7 +252,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  Function to compute \f$\nabla f(x)\f$
-	template<class Func, class Deriv> ConjugateGradient(const Vector<Size>& start, const Func& func, const Deriv& deriv)
+	template<class Func, class Deriv> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Deriv& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -263,7 +263,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	template<class Func> ConjugateGradient(const Vector<Size>& start, const Func& func, const Vector<Size>& deriv)
+	template<class Func> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Vector<Size, Precision>& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -274,7 +274,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	void init(const Vector<Size>& start, const Precision& func, const Vector<Size>& deriv)
+	void init(const Vector<Size, Precision>& start, const Precision& func, const Vector<Size, Precision>& deriv)
 	{
 
 		using std::numeric_limits;
@@ -327,13 +327,13 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		//First bracket a minimum.
 		Matrix<3,2,Precision> bracket = Internal::bracket_minimum_forward(y, line, bracket_initial_lambda, bracket_epsilon);
 		
-		double a = bracket[0][0];
-		double b = bracket[1][0];
-		double c = bracket[2][0];
+		Precision a = bracket[0][0];
+		Precision b = bracket[1][0];
+		Precision c = bracket[2][0];
 
-		double a_val = bracket[0][1];
-		double b_val = bracket[1][1];
-		double c_val = bracket[2][1];
+		Precision a_val = bracket[0][1];
+		Precision b_val = bracket[1][1];
+		Precision c_val = bracket[2][1];
 
 		old_y = y;
 		old_x = x;
@@ -386,7 +386,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///- h
 	///- old_h
 	///@param grad The derivatives of the function at \e x
-	void update_vectors_PR(const Vector<Size>& grad)
+	void update_vectors_PR(const Vector<Size, Precision>& grad)
 	{
 		//Update the position, gradient and conjugate directions
 		old_g = g;
-- 
2.43.0


From 50fb6c299fa5a25b597f8ada1445a0288e77dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 45/91] fix: ConjugateGradient aborted or looped forever on
 functions with flat parts

---
 TooN/optimization/conjugate_gradient.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 1fb55b0..2cab855 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -110,7 +110,7 @@ namespace TooN{
 				if(std::isnan(c_val))
 					break;
 				last_good_lambda = lambda;
-				if(c_val > 	b_val) // we have a bracket
+				if(c_val >= b_val) // we have a bracket
 					break;
 				else
 				{
@@ -356,7 +356,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		else
 		{
 			assert(a < b && b < c);
-			assert(a_val > b_val && b_val < c_val);
+			assert(a_val > b_val && b_val <= c_val);
 
 			//Find the real minimum
 			Vector<2, Precision>  m = brent_line_search(a, b, c, b_val, line, linesearch_max_iterations, linesearch_tolerance, linesearch_epsilon);
-- 
2.43.0


From 5e347fb8c8bf8cda2aeef0af058adaa770d9a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 46/91] fix: ConjugateGradient aborted after backing off from a
 NaN

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 2cab855..212e0b7 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -345,7 +345,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 
 		//We should have a bracket here
 
-		if(c < b)
+		if(!(b < c) || c_val < b_val)
 		{
 			//Failed to bracket due to NaN, so c is the best known point.
 			//Simply go there.
-- 
2.43.0


From e8bb6af6600b81e9249e3f30ab555dcbea1779ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:22 +0000
Subject: [PATCH 47/91] fix: brent_line_search evaluated the function at NaN
 after an infinite value

---
 TooN/optimization/brent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 6fc042c..0c1f148 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -124,7 +124,7 @@ namespace TooN
 				//to be accepted. 
 				// Also, we want the step to be smaller than half the old one. So:
 
-				if(q == 0 || x + p/q < a || x+p/q > b || abs(p/q) > abs(e/2))
+				if(!(q != 0 && x + p/q >= a && x+p/q <= b && abs(p/q) <= abs(e/2)))
 				{
 					//Parabolic fit no good. Take a golden section step instead
 					//and reset d and e.
-- 
2.43.0


From eaadaa12760755782727a72ef6f1d22e17f031d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 48/91] fix: numerical_hessian left earlier coordinates
 displaced

---
 TooN/functions/derivatives.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9749461..9c8f619 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -271,6 +271,9 @@ namespace TooN{
 				x[j] = v[j] - h;
 				double d = f(x);
 
+				x[i] = v[i];
+				x[j] = v[j];
+
 				return (a-b-c+d) / (4*h*h);
 			}
 		};
-- 
2.43.0


From bd28018bf8707d26b9f5ff74c0e5f887a76d98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 49/91] fix: numerical_hessian stepped every coordinate pair by
 the scale of the first one

---
 TooN/functions/derivatives.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9c8f619..d69947c 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -252,29 +252,30 @@ namespace TooN{
 				using std::abs;
 
 				//Make the step size be on the scale of the value.
-				double h = hh * max(abs(v[i]) * 1e-3, 1e-3);
+				double hi = hh * max(abs(v[i]) * 1e-3, 1e-3);
+				double hj = hh * max(abs(v[j]) * 1e-3, 1e-3);
 
-				x[i] = v[i] + h;
-				x[j] = v[j] + h;
+				x[i] = v[i] + hi;
+				x[j] = v[j] + hj;
 				double a = f(x);
 
-				x[i] = v[i] - h;
-				x[j] = v[j] + h;
+				x[i] = v[i] - hi;
+				x[j] = v[j] + hj;
 				double b = f(x);
 
-				x[i] = v[i] + h;
-				x[j] = v[j] - h;
+				x[i] = v[i] + hi;
+				x[j] = v[j] - hj;
 				double c = f(x);
 
 
-				x[i] = v[i] - h;
-				x[j] = v[j] - h;
+				x[i] = v[i] - hi;
+				x[j] = v[j] - hj;
 				double d = f(x);
 
 				x[i] = v[i];
 				x[j] = v[j];
 
-				return (a-b-c+d) / (4*h*h);
+				return (a-b-c+d) / (4*hi*hj);
 			}
 		};
 
-- 
2.43.0


From 11f413d727f047ccf7d635ff9d264e25616cdd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 50/91] fix: unproject did not compile for matrices with a
 dynamic number of columns

---
 TooN/helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 321ab5a..9d7e962 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -221,8 +221,8 @@ namespace TooN {
        \overload
 	*/
     template<int R, int C, typename Precision, typename Base> inline Matrix<R+1, C, Precision> unproject( const Matrix<R, C, Precision, Base> & m){
-        Matrix<R+1, C, Precision> result;
-        result.template slice<0,0,R,C>() = m;
+        Matrix<R+1, C, Precision> result(R+1, m.num_cols());
+        result.template slice<0,0,R,C>(0,0,R,m.num_cols()) = m;
         result[R] = Ones;
         return result;
     }
-- 
2.43.0


From 9fb3cf3b99d82ae47689d0fa7c0617fec655cfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 51/91] fix: norm_inf of an empty vector read past its storage

---
 TooN/helpers.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 9d7e962..fdb2067 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -128,9 +128,8 @@ namespace TooN {
 		using std::abs;
 		using std::max;
 		Precision n = 0;
-		n = abs(v[0]);
 
-		for(int i=1; i < v.size(); i++)
+		for(int i=0; i < v.size(); i++)
 			n = max(n, abs(v[i]));
 		return n;
 	}
-- 
2.43.0


From 4b91214d49e1f554c73ef3d568524e5819ddf8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 52/91] fix: column and row extrema of empty matrices read past
 the storage

---
 TooN/helpers.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index fdb2067..7e3fb84 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -493,10 +493,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_horizontal( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_rows() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // What should we return, exception?
             }
+            Func func( m.num_rows() );
             for(int r=0; r<m.num_rows(); r++){
                 func.initialise( m[r][0], r, 0 );
                 for(int c=1; c<m.num_cols(); c++){
@@ -506,10 +506,10 @@ namespace TooN {
             return func.ret();
         }
         template<int R, int C, typename Precision, typename Base, typename Func, typename Ret> inline Ret accumulate_vertical( const Matrix<R, C, Precision, Base> & m ) {
-            Func func( m.num_cols() );
             if( m.num_cols() == 0 || m.num_rows() == 0 ) {
-                func.null(); // What should we return, exception?
+                return Func().null(); // What should we return, exception?
             }
+            Func func( m.num_cols() );
             for(int c=0; c<m.num_cols(); c++){
                 func.initialise( m[0][c], 0, c );
                 for(int r=1; r<m.num_rows(); r++){
-- 
2.43.0


From 109d752225f26ac6998e753ab5e2f618111e3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:17 +0000
Subject: [PATCH 53/91] fix: project and unproject did not compile for
 resizable vectors

---
 TooN/helpers.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 7e3fb84..1cc24ce 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -178,8 +178,8 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size-1)+0, Precision> project( const Vector<Size, Precision, Base> & v){
-		static const int Len = (Size==Dynamic?Dynamic:Size-1);
+	template<int Size, typename Precision, typename Base> inline Vector<(Internal::IsStatic<Size>::is?Size-1:Dynamic)+0, Precision> project( const Vector<Size, Precision, Base> & v){
+		static const int Len = (Internal::IsStatic<Size>::is?Size-1:Dynamic);
 		return TooN::operator/(v.template slice<0, Len>(0 , v.size() - 1) , v[v.size() - 1]);
 	}
 
@@ -189,9 +189,9 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size+1)+0, Precision> unproject( const Vector<Size, Precision, Base> & v){
-		Vector<(Size==Dynamic?Dynamic:Size+1), Precision> result(v.size()+1);
-		static const int Len = (Size==Dynamic?Dynamic:Size);
+	template<int Size, typename Precision, typename Base> inline Vector<(Internal::IsStatic<Size>::is?Size+1:Dynamic)+0, Precision> unproject( const Vector<Size, Precision, Base> & v){
+		Vector<(Internal::IsStatic<Size>::is?Size+1:Dynamic), Precision> result(v.size()+1);
+		static const int Len = (Internal::IsStatic<Size>::is?Size:Dynamic);
 		result.template slice<0, Len>(0, v.size()) = v;
 		result[v.size()] = 1;
 		return result;
-- 
2.43.0


From e83809d0d5a7e52e00db561261734bbbe6edd20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 54/91] fix: an empty Vector<Resizable> indexed its storage out
 of range

---
 TooN/internal/allocator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 4d0735b..8099857 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -314,11 +314,11 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 	protected:
 
 		Precision* data() {
-			return &numbers[0];
+			return numbers.data();
 		}
 
 		const Precision* data()const  {
-			return &numbers[0];
+			return numbers.data();
 		}
 
 	private:
-- 
2.43.0


From bbd0d384681824c697f1dcfe5b0e909b0d0f04c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 55/91] fix: self assignment of Vector<Resizable> lost the data
 with TOON_INITIALIZE_*

---
 TooN/internal/allocator.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 8099857..6c78269 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -348,6 +348,10 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 
 		void try_destructive_resize(int newsize)
 		{
+			//Assignment from itself (or from a slice which covers
+			//it) must not lose the data which is about to be copied.
+			if(newsize == size())
+				return;
 			numbers.resize(newsize);
 			debug_initialize(data(), newsize);
 		}
-- 
2.43.0


From 4cdf4db46874601a7cb4f4e3fd295faba1e0077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 56/91] fix: assigning to a moved-from Vector<> wrote through a
 null pointer

---
 TooN/internal/allocator.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 6c78269..2ae1691 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -251,11 +251,21 @@ template<class Precision> struct VectorAlloc<Dynamic, Precision>: public Default
 			return my_data;
 		};
 
+		//The size never changes, but a vector which has been moved from
+		//needs storage again before it is assigned to.
 		void try_destructive_resize(int)
-		{}
+		{
+			if(my_data == 0)
+			{
+				my_data = new Precision[my_size];
+				debug_initialize(my_data, my_size);
+			}
+		}
 
 		template<class Op> void try_destructive_resize(const Operator<Op>&) 
-		{}
+		{
+			try_destructive_resize(my_size);
+		}
 };
 
 
-- 
2.43.0


From d4e7639919ee0596924e6106bedb0123619b8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 57/91] fix: slice range check overflowed for very large start
 or length

---
 TooN/internal/slice_error.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TooN/internal/slice_error.hh b/TooN/internal/slice_error.hh
index 9bba04d..9e2332f 100644
--- a/TooN/internal/slice_error.hh
+++ b/TooN/internal/slice_error.hh
@@ -121,9 +121,11 @@ namespace Internal
 					std::abort();
 				}
 			#endif
-			if( N<Start>::n(start) + N<Length>::n(length) > N<Size>::n(size) || 
-			   N<Start>::n(start) < 0 ||
-			   N<Length>::n(length) < 0)
+			//Start + Length might overflow, so it must not be computed.
+			if(N<Start>::n(start) < 0 ||
+			   N<Length>::n(length) < 0 ||
+			   N<Start>::n(start) > N<Size>::n(size) ||
+			   N<Length>::n(length) > N<Size>::n(size) - N<Start>::n(start))
 			{
 				#ifdef TOON_TEST_INTERNALS
 					throw Internal::SliceError();
-- 
2.43.0


From cf58f871cc3466885c155dcf836bae071557337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 58/91] fix: assigning Data to a dynamic Matrix left it
 unchanged

---
 TooN/internal/data.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/data.hh b/TooN/internal/data.hh
index c8420a3..5c033df 100644
--- a/TooN/internal/data.hh
+++ b/TooN/internal/data.hh
@@ -43,8 +43,8 @@ namespace TooN{
 		void eval(Matrix<R, C, T, B>& m) const
 		{
 			SizeMismatch<(R==-1?-1:(C==-1?-1:(R*C))), N>:: test(m.num_rows()*m.num_cols(), N);
-			for(int r=0, n=0; r < R; r++)
-				for(int c=0; c < C; c++, n++)
+			for(int r=0, n=0; r < m.num_rows(); r++)
+				for(int c=0; c < m.num_cols(); c++, n++)
 					m[r][c] = vals[n];
 		}
 
-- 
2.43.0


From 2601e419bc65e1b0c4bbf89c12a88c49892d776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 59/91] fix: Fill of a matrix with one column wrote outside the
 row

---
 TooN/internal/comma.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index c6e2462..c364950 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -133,7 +133,10 @@ namespace Internal
 		{
 			Internal::CheckMOverFill<0, R, C>::check(m.num_rows() * m.num_cols());
 			m[0][0] = p;
-			return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
+			if(m.num_cols() == 1)
+				return MatrixFiller<1, R, C, P, B>(m, 0, 1, 0);
+			else
+				return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
 		}
 	};
 
-- 
2.43.0


From 30cdd1224bb7ba5813b863ac4932af9b67bdc7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 60/91] fix: Fill of a vector of size 1 was rejected as an
 overfill

---
 TooN/internal/comma.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index c364950..cb0e97e 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -73,7 +73,7 @@ namespace Internal
 
 		VectorFiller<1, Size, P, B> operator=(const P& p)
 		{
-			Internal::CheckOverFill<1, Size>::check(v.size());
+			Internal::CheckOverFill<0, Size>::check(v.size());
 			v[0] = p;
 			return VectorFiller<1, Size, P, B>(v, 0);
 		}
-- 
2.43.0


From 0895812fbee14489bab4b2f6983b597d0e5807f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 61/91] fix: Fill of a Vector<Resizable> did not compile

---
 TooN/internal/overfill_error.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TooN/internal/overfill_error.hh b/TooN/internal/overfill_error.hh
index 3d83895..d95531a 100644
--- a/TooN/internal/overfill_error.hh
+++ b/TooN/internal/overfill_error.hh
@@ -62,6 +62,10 @@ template<int N> struct CheckOverFill<N, -1>
 };
 
 
+template<int N> struct CheckOverFill<N, Resizable>: public CheckOverFill<N, -1>
+{
+};
+
 template<int N, int R, int C, bool IsDynamic=(R==-1||C==-1)> struct CheckMOverFill
 {
 	static void check(int)
-- 
2.43.0


From 98e5c0b3ff2977bd13cb588da9e1996fc6dfaff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 62/91] fix: Vector - Ones did not compile

---
 TooN/internal/objects.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 1518542..7f44291 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -509,9 +509,9 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	}
 
 	template <int Size, typename P1, typename B1> 
-	Operator<Internal::ScalarsVector<Size,P1,B1,Precision> > rsubtract(const Vector<Size, P1, B1>& v) const
+	Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> > rsubtract(const Vector<Size, P1, B1>& v) const
 	{
-		return Operator<Internal::ScalarsVector<Size,P1,B1,Precision> >(-s, v, 0);
+		return Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> >(-s, v, 0);
 	}
 
 	template <int Size, typename P1, typename B1> 
-- 
2.43.0


From 89cd972f8c31ce3e83b6f1979f90a1ea0d89e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 63/91] fix: adding a scaled Identity rounded the scale to the
 type of the matrix

---
 TooN/internal/objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 7f44291..680888f 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -244,7 +244,7 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 					mm[r][c] = m[r][c];
 
 		for(int i=0; i < m.num_rows(); i++)
-				mm[i][i] += (P)s;
+				mm[i][i] += (P1)s;
 	}
 	///@}
 
-- 
2.43.0


From 117768fdb7d14a02bd39b6c17f445710d8db55ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 64/91] fix: dividing integer scaled Ones or Identity gave zero

---
 TooN/internal/objects.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 680888f..a70b3ff 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -72,6 +72,16 @@ namespace Internal{
 	///@brief For an instance \e i of type C, what is the type of \e -i?
 	///Usually the answer is that is it the same type.
 	///@ingroup gInternal
+	//Scaling something by a DivideBy divides by the contained value
+	template<class C> struct DivideBy
+	{
+		const C& val;
+	};
+	template<class L, class R> typename DivideType<L, R>::type operator*(const L& l, const DivideBy<R>& r)
+	{
+		return l / r.val;
+	}
+
 	template<class C> struct NegType
 	{
 		typedef C Type; ///<The type of -C
@@ -692,7 +702,7 @@ template<template<class> class Op, class Pl, class Pr>
 Operator<Op<typename Internal::DivideType<Pl, Pr>::type > >
 operator/(const Operator<Op<Pl> >& l, const Pr&  r)
 {
-	return l.template scale_me<typename Internal::MultiplyType<Pl, Pr>::type, Pl>(static_cast<typename Internal::DivideType<Pl,Pr>::type>(1)/r); 
+	return l.template scale_me<typename Internal::DivideType<Pl, Pr>::type>(Internal::DivideBy<Pr>{r}); 
 }
 
 
-- 
2.43.0


From 7655bf738e37eabf1c01c8c7565ad6d25133bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 65/91] fix: a dynamic Matrix could not be constructed from a
 diagonal matrix

---
 TooN/internal/diagmatrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index a0ec756..16e6c78 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -74,6 +74,9 @@ namespace TooN {
 
 		///@name Operator members
 		///@{
+		int num_rows() const {return my_vector.size();}
+		int num_cols() const {return my_vector.size();}
+
 		template<int R, int C, class P, class B>
 		void eval(Matrix<R,C,P,B>& m) const {
 			SizeMismatch<Size, Size>::test(m.num_rows(), m.num_cols());
-- 
2.43.0


From 28190f6fdc9df154365ca5935050eddf0dec415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 66/91] fix: negation of read-only views and of complex objects
 did not compile

---
 TooN/internal/operators.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 07c3837..f836406 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -184,14 +184,15 @@ struct Operator<Internal::VNegate<S, P, A> > {
 	template<int S0, typename P0, typename A0>
 	void eval(Vector<S0, P0, A0> & res) const
 	{
-		res = input * -1;
+		for(int i=0; i < res.size(); ++i)
+			res[i] = -input[i];
 	}
 	int size() const { return input.size(); }
 };
 
 // Negation -Vector
 template <int S, typename P, typename A>
-Vector<S, P> operator-(const Vector<S,P,A> & v){
+Vector<S, typename Internal::Clean<P>::type> operator-(const Vector<S,P,A> & v){
 	return Operator<Internal::VNegate<S,P,A> >(v);
 }
 
@@ -292,7 +293,9 @@ struct Operator<Internal::MNegate<R,C, P, A> > {
 	template<int R0, int C0, typename P0, typename A0>
 	void eval(Matrix<R0,C0,P0,A0> & res) const
 	{
-		res = input * -1;
+		for(int r=0; r < res.num_rows(); ++r)
+			for(int c=0; c < res.num_cols(); ++c)
+				res(r,c) = -input(r,c);
 	}
 	int num_rows() const { return input.num_rows(); }
 	int num_cols() const { return input.num_cols(); }
@@ -300,7 +303,7 @@ struct Operator<Internal::MNegate<R,C, P, A> > {
 
 // Negation -Matrix
 template <int R, int C, typename P, typename A>
-Matrix<R, C, P> operator-(const Matrix<R,C,P,A> & v){
+Matrix<R, C, typename Internal::Clean<P>::type> operator-(const Matrix<R,C,P,A> & v){
 	return Operator<Internal::MNegate<R,C,P,A> >(v);
 }
 
-- 
2.43.0


From 1b090f871c40f3bd839441b6d51505dada30c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 67/91] fix: comparing a const object with Zeros did not
 compile

---
 TooN/internal/matrix.hh | 2 +-
 TooN/internal/objects.h | 4 ++--
 TooN/internal/vector.hh | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/matrix.hh b/TooN/internal/matrix.hh
index 92ae119..3fcc1d1 100644
--- a/TooN/internal/matrix.hh
+++ b/TooN/internal/matrix.hh
@@ -283,7 +283,7 @@ public:
 	}
 
 	template<class Op>
-	bool operator!=(const Operator<Op>& op)
+	bool operator!=(const Operator<Op>& op) const
 	{
 		return op.notequal(*this);
 	}
diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index a70b3ff..35c74b2 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -155,7 +155,7 @@ template<> struct Operator<Internal::Zero> {
 	///@}
 
 	template<int R, int C, class P, class B>
-	bool notequal(Matrix<R,C,P,B>& m) const {
+	bool notequal(const Matrix<R,C,P,B>& m) const {
 		for(int r=0; r<m.num_rows(); r++)
 			for(int c=0; c<m.num_cols(); c++)
 				if(m[r][c] != 0)
@@ -166,7 +166,7 @@ template<> struct Operator<Internal::Zero> {
 
 
 	template<int S, class P, class B>
-	bool notequal(Vector<S,P,B>& v) const {
+	bool notequal(const Vector<S,P,B>& v) const {
 		for(int i=0; i<v.size(); i++)
 			if(v[i] != 0)
 				return 1;
diff --git a/TooN/internal/vector.hh b/TooN/internal/vector.hh
index 1892831..1230f79 100644
--- a/TooN/internal/vector.hh
+++ b/TooN/internal/vector.hh
@@ -379,7 +379,7 @@ public:
 	
 	
 	template<class Op>
-	bool operator!=(const Operator<Op>& op)
+	bool operator!=(const Operator<Op>& op) const
 	{
 		return op.notequal(*this);
 	}		
-- 
2.43.0


From 8eb25222c1fef0af131cd33525201dfd64b50d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 68/91] fix: Matrix - Identity did not compile

---
 TooN/internal/objects.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 35c74b2..9eba5fe 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -332,10 +332,10 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
+	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
-		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> >(-val, m, 0);
+		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> >(-val, m, 0);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-- 
2.43.0


From ec4bc8283e1dadab2fd585689676ed6ebf17626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 69/91] fix: diagonal_slice, negation and inverse of const
 diagonal matrices did not compile

---
 TooN/internal/diagmatrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index 16e6c78..7df362b 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -152,18 +152,18 @@ public:
 	}
 
 	///Return the leading diagonal as a vector.
-	const typename Vector<Size, Precision, Base>::as_slice_type diagonal_slice() const {
+	const Vector<Size, const Precision, typename Vector<Size, Precision, Base>::ConstSliceBase> diagonal_slice() const {
 		return this->my_vector.as_slice();
 	}
 
-	DiagonalMatrix<Size, Precision> operator-() const
+	DiagonalMatrix<Size, typename Internal::Clean<Precision>::type> operator-() const
 	{
 		return -this->my_vector;
 	}
 
-	DiagonalMatrix<Size, Precision> inverse() const
+	DiagonalMatrix<Size, typename Internal::Clean<Precision>::type> inverse() const
 	{
-		Vector<Size, Precision> inv(this->my_vector.size());
+		Vector<Size, typename Internal::Clean<Precision>::type> inv(this->my_vector.size());
 		for(int i=0; i < inv.size(); i++)
 			inv[i] = 1 / this->my_vector[i];
 		return inv;
-- 
2.43.0


From 82d30a9aeed7918dae7e3e36e3201a96ca2ceb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:48 +0000
Subject: [PATCH 70/91] fix: int * Matrix<double> truncated the elements of the
 matrix

---
 TooN/internal/operators.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index f836406..04ccc85 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -599,7 +599,7 @@ struct Operator<Internal::ApplyScalarML<R,C,P1,B1,P2,Op> > {
 	void eval(Matrix<R0,C0,P0,Ba0>& m) const {
 		for(int r=0; r<m.num_rows(); r++){
 			for(int c=0; c<m.num_cols(); c++){
-				m(r,c)= Op::template op<P0,P1,P2> (lhs,rhs(r,c));
+				m(r,c)= Op::template op<P0,P2,P1> (lhs,rhs(r,c));
 			}
 		}
 	}
-- 
2.43.0


From 67aa64fba4c50b704b0f1a5c70b096110ee1fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 71/91] fix: as_row, as_col, as_slice and as_diagonal of a
 Vector<Resizable> had size -2147483647

---
 TooN/internal/diagmatrix.h |  2 +-
 TooN/internal/vbase.hh     | 38 +++++++++++++++++++++-----------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index 7df362b..25bd664 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -152,7 +152,7 @@ public:
 	}
 
 	///Return the leading diagonal as a vector.
-	const Vector<Size, const Precision, typename Vector<Size, Precision, Base>::ConstSliceBase> diagonal_slice() const {
+	const Vector<Vector<Size, Precision, Base>::ViewSize, const Precision, typename Vector<Size, Precision, Base>::ConstSliceBase> diagonal_slice() const {
 		return this->my_vector.as_slice();
 	}
 
diff --git a/TooN/internal/vbase.hh b/TooN/internal/vbase.hh
index 9ceb456..6a22966 100644
--- a/TooN/internal/vbase.hh
+++ b/TooN/internal/vbase.hh
@@ -208,38 +208,42 @@ template<int Size, typename Precision, int Stride, typename Mem> struct GenericV
 	}
 		
 	//Other slices below
-	const Matrix<1, Size, const Precision, Slice<1,Stride> > as_row() const{
-		return Matrix<1, Size, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+
+	//A slice is not resizable: views of all of a resizable vector are dynamic.
+	static const int ViewSize = Size==Resizable?Dynamic:Size;
+
+	const Matrix<1, ViewSize, const Precision, Slice<1,Stride> > as_row() const{
+		return Matrix<1, ViewSize, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	Matrix<1, Size, Precision, Slice<1,Stride> > as_row(){
-		return Matrix<1, Size, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	Matrix<1, ViewSize, Precision, Slice<1,Stride> > as_row(){
+		return Matrix<1, ViewSize, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	const Matrix<Size, 1, const Precision, Slice<Stride,1> > as_col() const{
-		return Matrix<Size, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	const Matrix<ViewSize, 1, const Precision, Slice<Stride,1> > as_col() const{
+		return Matrix<ViewSize, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	Matrix<Size, 1, Precision, Slice<Stride,1> > as_col(){
-		return Matrix<Size, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	Matrix<ViewSize, 1, Precision, Slice<Stride,1> > as_col(){
+		return Matrix<ViewSize, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	typedef Vector<Size, Precision, SliceBase> as_slice_type;
+	typedef Vector<ViewSize, Precision, SliceBase> as_slice_type;
 	
-	Vector<Size, Precision, SliceBase> as_slice(){                 
-		return Vector<Size, Precision, SliceBase>(data(), size(), stride(), Slicing());         
+	Vector<ViewSize, Precision, SliceBase> as_slice(){                 
+		return Vector<ViewSize, Precision, SliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	const Vector<Size, const Precision, ConstSliceBase> as_slice() const {                 
-		return Vector<Size, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
+	const Vector<ViewSize, const Precision, ConstSliceBase> as_slice() const {                 
+		return Vector<ViewSize, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	DiagonalMatrix<Size,Precision, SliceBase> as_diagonal() {
-		return DiagonalMatrix<Size, Precision, SliceBase> (data(), size(), stride(), Slicing());
+	DiagonalMatrix<ViewSize,Precision, SliceBase> as_diagonal() {
+		return DiagonalMatrix<ViewSize, Precision, SliceBase> (data(), size(), stride(), Slicing());
 	}
 
-	const DiagonalMatrix<Size,const Precision, ConstSliceBase> as_diagonal() const {
-		return DiagonalMatrix<Size, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
+	const DiagonalMatrix<ViewSize,const Precision, ConstSliceBase> as_diagonal() const {
+		return DiagonalMatrix<ViewSize, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
 	}
 
 };
-- 
2.43.0


From 9dced5b8742e4386afe093c05389523c7acf00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 72/91] fix: assigning Ones to and negating scaled
 Ones/Identity for complex matrices did not compile

---
 TooN/internal/objects.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 9eba5fe..ff7024b 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -540,7 +540,7 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	{
 		for(int r=0; r < m.num_rows(); r++)
 			for(int c=0; c < m.num_cols(); c++)
-				m[r][c] = s;
+				m[r][c] = (P1)s;
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
@@ -709,7 +709,7 @@ operator/(const Operator<Op<Pl> >& l, const Pr&  r)
 template<class Op>
 Operator<Op> operator-(const Operator<Op>& o)
 {
-	return o.template scale_me<typename Operator<Op>::Precision>(-1);
+	return o.template scale_me<typename Operator<Op>::Precision>(static_cast<typename Operator<Op>::Precision>(-1));
 }
 
 //Special case for negating One
-- 
2.43.0


From d7d8ca94744617e8b6ab57e08dd5e29c1f0ca4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:53 +0000
Subject: [PATCH 73/91] fix: TOON_INITIALIZE_RANDOM wrote past the end of empty
 objects

---
 TooN/internal/debug.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TooN/internal/debug.hh b/TooN/internal/debug.hh
index b8350ea..0a3de8e 100644
--- a/TooN/internal/debug.hh
+++ b/TooN/internal/debug.hh
@@ -90,6 +90,10 @@ namespace Internal
 			static intbits random = { ((std::time(NULL) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff};
 			unsigned char* cdata = reinterpret_cast<unsigned char*>(data);
 
+			//The loop below always writes something.
+			if(n <= 0)
+				return;
+
 			size_t bytes = sizeof(P)*n, i=0;
 			
 			//Do nothing except for noisy failure with non-POD types.
-- 
2.43.0


From cf43f3adfa128ca4eed57fe16db5824a665f6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:24 +0000
Subject: [PATCH 74/91] fix: TOON_INITIALIZE_RANDOM shared its generator
 between threads

---
 TooN/internal/debug.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/debug.hh b/TooN/internal/debug.hh
index 0a3de8e..932ed3e 100644
--- a/TooN/internal/debug.hh
+++ b/TooN/internal/debug.hh
@@ -87,7 +87,8 @@ namespace Internal
 		template<class P> static void debug_initialize(P* data, int n)
 		{
 			//Get a random seed. Precision limited to 1 second.
-			static intbits random = { ((std::time(NULL) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff};
+			//Each thread has its own, so that threads do not race for it.
+			static thread_local intbits random = { ((std::time(NULL) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff};
 			unsigned char* cdata = reinterpret_cast<unsigned char*>(data);
 
 			//The loop below always writes something.
-- 
2.43.0


From 2855a41fe66164a1dd21628e7acc8a5873d7d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 75/91] fix: subtracting Ones scaled by an unsigned number
 added a wrapped negative

---
 TooN/internal/objects.h | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index ff7024b..37926fa 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -397,12 +397,12 @@ template<int S, class P, class B, class Precision> struct Operator<Internal::Sca
 {
 	const Precision s;      ///<Scalar to add
 	const Vector<S,P,B>& v; ///<Vector to be added to.
-	const bool invert_v;    ///<Whether to use + or - \c v
+	const int op;           ///<0 for s+v, 1 for s-v, 2 for v-s
 
 	///@name Constructors
 	///@{
-	Operator(Precision s_, const Vector<S,P,B>& v_, bool inv)
-		:s(s_),v(v_),invert_v(inv){}
+	Operator(Precision s_, const Vector<S,P,B>& v_, int o)
+		:s(s_),v(v_),op(o){}
 	///@}
 
 	///@name Operator members
@@ -410,8 +410,10 @@ template<int S, class P, class B, class Precision> struct Operator<Internal::Sca
 	template<int S1, class P1, class B1>
 	void eval(Vector<S1,P1,B1>& vv) const{
 		for(int i=0; i < v.size(); i++)
-			if(invert_v)
+			if(op == 1)
 				vv[i] = s - v[i];
+			else if(op == 2)
+				vv[i] = v[i] - s;
 			else
 				vv[i] = s + v[i];
 	}
@@ -433,17 +435,19 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 {
 	const Precision s;        ///<Scalar to add
 	const Matrix<R,C,P,B>& m; ///<Vector to be added to.
-	const bool invert_m;      ///<Whether to use + or - \c m
+	const int op;             ///<0 for s+m, 1 for s-m, 2 for m-s
 	///@name Operator members
 	///@{
-	Operator(Precision s_, const Matrix<R,C,P,B>& m_, bool inv)
-		:s(s_),m(m_),invert_m(inv){}
+	Operator(Precision s_, const Matrix<R,C,P,B>& m_, int o)
+		:s(s_),m(m_),op(o){}
 	template<int R1, int C1, class P1, class B1>
 	void eval(Matrix<R1,C1,P1,B1>& mm) const{
 		for(int r=0; r < m.num_rows(); r++)
 			for(int c=0; c < m.num_cols(); c++)
-				if(invert_m)
+				if(op == 1)
 					mm[r][c] = s - m[r][c];
+				else if(op == 2)
+					mm[r][c] = m[r][c] - s;
 				else
 					mm[r][c] = s + m[r][c];
 	}
@@ -519,9 +523,9 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	}
 
 	template <int Size, typename P1, typename B1> 
-	Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> > rsubtract(const Vector<Size, P1, B1>& v) const
+	Operator<Internal::ScalarsVector<Size,P1,B1,Precision> > rsubtract(const Vector<Size, P1, B1>& v) const
 	{
-		return Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> >(-s, v, 0);
+		return Operator<Internal::ScalarsVector<Size,P1,B1,Precision> >(s, v, 2);
 	}
 
 	template <int Size, typename P1, typename B1> 
@@ -567,9 +571,9 @@ template<class P> struct Operator<Internal::Scalars<P> >
 
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-	Operator<Internal::ScalarsMatrix<Rows,Cols,P1,B1,typename Internal::NegType<P>::Type> > rsubtract(const Matrix<Rows,Cols, P1, B1>& v) const
+	Operator<Internal::ScalarsMatrix<Rows,Cols,P1,B1,Precision> > rsubtract(const Matrix<Rows,Cols, P1, B1>& v) const
 	{
-		return Operator<Internal::ScalarsMatrix<Rows,Cols,P1,B1,typename Internal::NegType<P>::Type > >(-s, v, 0);
+		return Operator<Internal::ScalarsMatrix<Rows,Cols,P1,B1,Precision> >(s, v, 2);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-- 
2.43.0


From 8ab4599639d947116ee85e5bc42fe440e410d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 76/91] fix: subtracting an unsigned Identity, or an unsigned
 matrix from an Identity, wrapped before widening

---
 TooN/internal/objects.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 37926fa..8919f50 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -234,12 +234,12 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 {
 	const Precision s;   ///<Scale of the identity matrix
 	const Matrix<R,C,P,B>& m; ///<matrix to which the identity should be added
-	bool invert_m; ///<Whether the identity should be added to + or - m
+	int op; ///<0 for m+s, 1 for s-m, 2 for m-s
 	
 	///@name Construction
 	///@{
-	Operator(Precision s_, const Matrix<R,C,P,B>& m_, bool b)
-		:s(s_),m(m_),invert_m(b){}
+	Operator(Precision s_, const Matrix<R,C,P,B>& m_, int o)
+		:s(s_),m(m_),op(o){}
 	///@}
 
 	///@name Operator members
@@ -248,12 +248,15 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 	void eval(Matrix<R1,C1,P1,B1>& mm) const{
 		for(int r=0; r < m.num_rows(); r++)
 			for(int c=0; c < m.num_cols(); c++)
-				if(invert_m)
-					mm[r][c] = -m[r][c];
+				if(op == 1)
+					mm[r][c] = P1(0) - P1(m[r][c]);
 				else
 					mm[r][c] = m[r][c];
 
 		for(int i=0; i < m.num_rows(); i++)
+			if(op == 2)
+				mm[i][i] -= (P1)s;
+			else
 				mm[i][i] += (P1)s;
 	}
 	///@}
@@ -332,10 +335,10 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
+	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
-		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> >(-val, m, 0);
+		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> >(val, m, 2);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-- 
2.43.0


From 4b0431fc3f933bf434981c22c23b4217787a20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 77/91] fix: planar complex vectors of other types than double
 did not compile

---
 TooN/internal/planar_complex.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/TooN/internal/planar_complex.hh b/TooN/internal/planar_complex.hh
index dbac52a..12f1f88 100644
--- a/TooN/internal/planar_complex.hh
+++ b/TooN/internal/planar_complex.hh
@@ -67,16 +67,16 @@ namespace TooN{
 
 		template<int Size, typename Precision>
 		struct VLayout<Size, std::complex<Precision> >: 
-		  public Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    const std::complex<double>,
-	                                                    const std::complex<double> > >
+		  public Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    const std::complex<Precision>,
+	                                                    const std::complex<Precision> > >
 		{
 			VLayout(Internal::PointerToPlanarComplex<std::complex<Precision> > p, int sz=0)
-			:Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    Internal::PointerToPlanarComplex<std::complex<double> >,
-	                                                    const std::complex<double>,
-	                                                    const std::complex<double> > >(p, sz, 1)
+			:Internal::GenericVBase<Size, std::complex<Precision>, 1, Internal::VectorSlice<Size, std::complex<Precision>, Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    Internal::PointerToPlanarComplex<std::complex<Precision> >,
+	                                                    const std::complex<Precision>,
+	                                                    const std::complex<Precision> > >(p, sz, 1)
 			{}
 
 			
-- 
2.43.0


From ad300ea1311fab85c5bfe32f6417ebcd5582c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:00 +0000
Subject: [PATCH 78/91] fix: declare LU before determinant_LU, so that LU.h can
 be the first header included

---
 TooN/determinant.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/determinant.h b/TooN/determinant.h
index 931a02c..0aabe1c 100644
--- a/TooN/determinant.h
+++ b/TooN/determinant.h
@@ -147,6 +147,9 @@ namespace TooN
 	}
 	
 	#ifdef TOON_DETERMINANT_LAPACK
+		//LU.h may be in the middle of including this file.
+		template<int Size, class Precision> class LU;
+
 		/** Compute the determinant using TooN::LU.
 			@param A The matrix to find the determinant of.
 			@returns determinant.
-- 
2.43.0


From 273b47849ba6b0a3dae9166d0d4a8c2a1379fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 79/91] fix: let every class default to DefaultPrecision

---
 TooN/LU.h                              | 2 +-
 TooN/QR.h                              | 2 +-
 TooN/QR_Lapack.h                       | 2 +-
 TooN/SymEigen.h                        | 2 +-
 TooN/optimization/conjugate_gradient.h | 2 +-
 TooN/optimization/downhill_simplex.h   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index c7ca299..6493eaa 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -63,7 +63,7 @@ The convention LU<> (=LU<-1>) is used to create an LU decomposition whose size i
 determined at runtime.
 @ingroup gDecomps
 **/
-template <int Size=-1, class Precision=double>
+template <int Size=-1, class Precision=DefaultPrecision>
 class LU {
 	public:
 
diff --git a/TooN/QR.h b/TooN/QR.h
index a7f4e2b..dc26ba3 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -49,7 +49,7 @@ A = QR
 
 @ingroup gDecomps
 */
-template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
+template<int Rows=Dynamic, int Cols=Rows, typename Precision=DefaultPrecision> class QR
 {
 	
 	private:
diff --git a/TooN/QR_Lapack.h b/TooN/QR_Lapack.h
index 67f1fd0..0b50370 100644
--- a/TooN/QR_Lapack.h
+++ b/TooN/QR_Lapack.h
@@ -53,7 +53,7 @@ be sorted from largest in magnitude to smallest in magnitude.
 
 @ingroup gDecomps
 */
-template<int Rows=Dynamic, int Cols=Rows, class Precision=double>
+template<int Rows=Dynamic, int Cols=Rows, class Precision=DefaultPrecision>
 class QR_Lapack{
 
 	private:
diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index f71de47..b9a00b6 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -491,7 +491,7 @@ equations using backsub() or get_pinv(), with the same treatment of condition nu
 SymEigen<> (= SymEigen<-1>) can be used to create an eigen decomposition whose size is determined at run-time.
 @ingroup gDecomps
 **/
-template <int Size=Dynamic, typename Precision = double>
+template <int Size=Dynamic, typename Precision = DefaultPrecision>
 class SymEigen {
 public:
 	inline SymEigen(){}
diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 212e0b7..98df47e 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -222,7 +222,7 @@ will not be necessary.
 
 @ingroup gOptimize
 */
-template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
+template<int Size=Dynamic, class Precision=DefaultPrecision> struct ConjugateGradient
 {
 	const int size;      ///< Dimensionality of the space.
 	Vector<Size, Precision> g;      ///< Gradient vector used by the next call to iterate()
diff --git a/TooN/optimization/downhill_simplex.h b/TooN/optimization/downhill_simplex.h
index 56b2eae..2667b96 100644
--- a/TooN/optimization/downhill_simplex.h
+++ b/TooN/optimization/downhill_simplex.h
@@ -99,7 +99,7 @@ int main()
 
 
 **/
-template<int N=-1, typename Precision=double> class DownhillSimplex
+template<int N=-1, typename Precision=DefaultPrecision> class DownhillSimplex
 {
 	static const int Vertices = (N==-1?-1:N+1);
 	typedef Matrix<Vertices, N, Precision> Simplex;
-- 
2.43.0


From 07eca1b23477998738bb16641359203197347a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:50 +0000
Subject: [PATCH 80/91] fix: make the LAPACK declarations visible to LU.h when
 lapack.h is included before TooN.h

---
 TooN/lapack.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/TooN/lapack.h b/TooN/lapack.h
index 656ed23..8a9c48f 100644
--- a/TooN/lapack.h
+++ b/TooN/lapack.h
@@ -25,11 +25,13 @@
 //ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 //POSSIBILITY OF SUCH DAMAGE.
 
+//TooN.h may include this file (by way of LU.h), and then needs its declarations.
+//Therefore it is included before the guard is defined.
+#include <TooN/TooN.h>
+
 #ifndef TOON_INCLUDE_LAPCK_H
 #define TOON_INCLUDE_LAPCK_H
 
-#include <TooN/TooN.h>
-
 // LAPACK and BLAS routines
 namespace TooN {
 
-- 
2.43.0


From ef32078b4f15641f1d5ec155078e1071c8f39649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:19 +0000
Subject: [PATCH 81/91] fix: keep the precision of the operands in temporaries
 and results instead of using DefaultPrecision

---
 TooN/Lapack_Cholesky.h                 |  2 +-
 TooN/SVD.h                             | 11 ++++++-----
 TooN/SymEigen.h                        |  8 ++++----
 TooN/functions/derivatives.h           | 20 ++++++++++----------
 TooN/optimization/brent.h              |  2 +-
 TooN/optimization/conjugate_gradient.h |  6 +++---
 TooN/se2.h                             |  2 +-
 TooN/sim2.h                            |  2 +-
 TooN/sl.h                              |  2 +-
 9 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/TooN/Lapack_Cholesky.h b/TooN/Lapack_Cholesky.h
index a59240d..ce70667 100644
--- a/TooN/Lapack_Cholesky.h
+++ b/TooN/Lapack_Cholesky.h
@@ -158,7 +158,7 @@ public:
 		return det*det;
 	}
 
-	Matrix<> get_inverse() const {
+	Matrix<Size,Size,Precision> get_inverse() const {
 		Matrix<Size, Size, Precision> M(my_cholesky.num_rows(),my_cholesky.num_rows());
 		M=my_cholesky_lapack;
 		FortranInteger N = my_cholesky.num_rows();
diff --git a/TooN/SVD.h b/TooN/SVD.h
index 6f316d8..c5d65d7 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -179,7 +179,7 @@ public:
 	Matrix<Cols,Cols2, typename Internal::MultiplyType<Precision,P2>::type >
 	backsub(const Matrix<Rows2,Cols2,P2,B2>& rhs, const Precision condition=condition_no)
 	{
-		Vector<Min_Dim> inv_diag(min_dim());
+		Vector<Min_Dim,Precision> inv_diag(min_dim());
 		get_inv_diag(inv_diag,condition);
 		return (get_VT().T() * diagmult(inv_diag, (get_U().T() * rhs)));
 	}
@@ -192,7 +192,7 @@ public:
 	Vector<Cols, typename Internal::MultiplyType<Precision,P2>::type >
 	backsub(const Vector<Size,P2,B2>& rhs, const Precision condition=condition_no)
 	{
-		Vector<Min_Dim> inv_diag(min_dim());
+		Vector<Min_Dim,Precision> inv_diag(min_dim());
 		get_inv_diag(inv_diag,condition);
 		return (get_VT().T() * diagmult(inv_diag, (get_U().T() * rhs)));
 	}
@@ -201,8 +201,8 @@ public:
 	/// if you need the inverse just to multiply it by a matrix or a vector, use 
 	/// one of the backsub() functions, which will be faster.
 	/// See the detailed description of the pseudo-inverse and condition variables.
-	Matrix<Cols,Rows> get_pinv(const Precision condition = condition_no){
-		Vector<Min_Dim> inv_diag(min_dim());
+	Matrix<Cols,Rows,Precision> get_pinv(const Precision condition = condition_no){
+		Vector<Min_Dim,Precision> inv_diag(min_dim());
 		get_inv_diag(inv_diag,condition);
 		return diagmult(get_VT().T(),inv_diag) * get_U().T();
 	}
@@ -264,7 +264,8 @@ public:
 	///otherwise 0 is returned.
 	///@param inv_diag Vector in which to return the inverse diagonal.
 	///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-	void get_inv_diag(Vector<Min_Dim>& inv_diag, const Precision condition){
+	template <typename P2, typename B2>
+	void get_inv_diag(Vector<Min_Dim,P2,B2>& inv_diag, const Precision condition){
 		for(int i=0; i<min_dim(); i++){
 			if(my_diagonal[i] * condition <= my_diagonal[0]){
 				inv_diag[i]=0;
diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index b9a00b6..5a2f0a6 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -291,7 +291,7 @@ namespace Internal{
             double A_minus_B = -2*cuberoot_r*sin(theta3);
 
             //calculate eigenvalues
-            ev =  makeVector(A_plus_B, -A_plus_B/2 + A_minus_B * sqrt(3)/2, -A_plus_B/2 - A_minus_B * sqrt(3)/2) - Ones * a/3;
+            ev =  makeVector<double>(A_plus_B, -A_plus_B/2 + A_minus_B * sqrt(3)/2, -A_plus_B/2 - A_minus_B * sqrt(3)/2) - Ones * a/3;
 
             if(ev[0] > ev[1])
                 swap(ev[0], ev[1]);
@@ -418,11 +418,11 @@ namespace Internal{
 					normalize(eig[is[2]]);
 					
 					//Permute vector to get a new vector with some orthogonal components.
-					Vector<3> p = makeVector(eig[is[2]][1], eig[is[2]][2], eig[is[2]][0]);
+					Vector<3, double> p = makeVector<P>(eig[is[2]][1], eig[is[2]][2], eig[is[2]][0]);
 
 					//Gram-Schmit
-					Vector<3> v1 = unit(p - eig[is[2]] * (p * eig[is[2]]));
-					Vector<3> v2 = v1^eig[is[2]];
+					Vector<3, double> v1 = unit(p - eig[is[2]] * (p * eig[is[2]]));
+					Vector<3, double> v2 = v1^eig[is[2]];
 
 					eig[is[0]] = v1;
 					eig[is[1]] = v2;
diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index d69947c..3606510 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -356,7 +356,7 @@ namespace TooN{
 	template<class F, int S, class P, class B> Vector<S, P> numerical_gradient(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Vector<S> grad(x.size());
+		Vector<S, P> grad(x.size());
 
 		CentralDifferenceGradient<F, P, S, B> d(x, f);
 
@@ -380,14 +380,14 @@ namespace TooN{
 	template<class F, int S, class P, class B> Matrix<S,2,P> numerical_gradient_with_errors(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Matrix<S,2> g(x.size(), 2);
+		Matrix<S,2,P> g(x.size(), 2);
 
 		CentralDifferenceGradient<F, P, S, B> d(x, f);
 
 		for(int i=0; i < x.size(); i++)
 		{
 			d.i = i;
-			pair<double, double> r= extrapolate_to_zero<CentralDifferenceGradient<F, P, S, B>, P>(d);
+			pair<P, P> r= extrapolate_to_zero<CentralDifferenceGradient<F, P, S, B>, P>(d);
 			g[i][0] = r.first;
 			g[i][1] = r.second;
 		}
@@ -410,8 +410,8 @@ namespace TooN{
 	template<class F, int S, class P, class B> pair<Matrix<S, S, P>, Matrix<S, S, P> > numerical_hessian_with_errors(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Matrix<S> hess(x.size(), x.size());
-		Matrix<S> errors(x.size(), x.size());
+		Matrix<S, S, P> hess(x.size(), x.size());
+		Matrix<S, S, P> errors(x.size(), x.size());
 
 		CentralDifferenceSecond<F, P, S, B> curv(x, f);
 		CentralCrossDifferenceSecond<F, P, S, B> cross(x, f);
@@ -423,7 +423,7 @@ namespace TooN{
 			{
 				cross.i = r;
 				cross.j = c;
-				pair<double, double> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
+				pair<P, P> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
 				hess[r][c] = hess[c][r] = e.first;
 				errors[r][c] = errors[c][r] = e.second;
 			}
@@ -431,7 +431,7 @@ namespace TooN{
 		for(int i=0; i < x.size(); i++)
 		{
 			curv.i = i;
-			pair<double, double> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
+			pair<P, P> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
 			hess[i][i] = e.first;
 			errors[i][i] = e.second;
 		}
@@ -448,7 +448,7 @@ namespace TooN{
 	template<class F, int S, class P, class B> Matrix<S, S, P> numerical_hessian(const F& f, const Vector<S, P, B>& x)
 	{
 		using namespace Internal;
-		Matrix<S> hess(x.size(), x.size());
+		Matrix<S, S, P> hess(x.size(), x.size());
 
 		CentralDifferenceSecond<F, P, S, B> curv(x, f);
 		CentralCrossDifferenceSecond<F, P, S, B> cross(x, f);
@@ -459,14 +459,14 @@ namespace TooN{
 			{
 				cross.i = r;
 				cross.j = c;
-				pair<double, double> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
+				pair<P, P> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);
 				hess[r][c] = hess[c][r] = e.first;
 			}
 
 		for(int i=0; i < x.size(); i++)
 		{
 			curv.i = i;
-			pair<double, double> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
+			pair<P, P> e = extrapolate_to_zero<CentralDifferenceSecond<F, P, S, B>, P>(curv);
 			hess[i][i] = e.first;
 		}
 
diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 0c1f148..c351c0e 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -196,7 +196,7 @@ namespace TooN
 			}
 		}
 
-		return makeVector(x, fx);
+		return makeVector<Precision>(x, fx);
 	}
 }
 #endif
diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 98df47e..060f9da 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -168,9 +168,9 @@ namespace TooN{
 		}
 
 		Matrix<3,2,Precision> ret;
-		ret[0] = makeVector(a, a_val);
-		ret[1] = makeVector(b, b_val);
-		ret[2] = makeVector(c, c_val);
+		ret[0] = makeVector<Precision>(a, a_val);
+		ret[1] = makeVector<Precision>(b, b_val);
+		ret[2] = makeVector<Precision>(c, c_val);
 
 		return ret;
 	}
diff --git a/TooN/se2.h b/TooN/se2.h
index ddcaebd..8e0a6db 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -324,7 +324,7 @@ inline SE2<Precision> SE2<Precision>::exp(const Vector<S, PV, Accessor>& mu)
 	const Precision theta = mu[2];
 	const Precision theta_sq = theta * theta;
   
-	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
+	const Vector<2, Precision> cross = makeVector<Precision>( -theta * mu[1], theta * mu[0]);
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
 	if (theta_sq < 1e-8){
diff --git a/TooN/sim2.h b/TooN/sim2.h
index dd255f5..5b32406 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -349,7 +349,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(s, theta);
-	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
+	const Vector<2, Precision> cross = makeVector<Precision>( -theta * mu[1], theta * mu[0]);
 	// the square of the generator of the rotation is -Identity
 	result.get_translation() = (coeff[0] - theta*theta*coeff[2]) * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
diff --git a/TooN/sl.h b/TooN/sl.h
index bdb0f07..3403f0e 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -147,7 +147,7 @@ inline SL<N, Precision> SL<N, Precision>::exp( const Vector<S,P,B> & v){
 
 template <int N, typename Precision>
 inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
-	const Matrix<N> l = TooN::log(my_matrix);
+	const Matrix<N,N,Precision> l = TooN::log(my_matrix);
 	Vector<SL<N,Precision>::dim, Precision> v;
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
-- 
2.43.0


From 314a0e7d41c40bd1ff54cf1d5cd3db216634946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 82/91] fix: fadbad.h works for dynamically sized vectors and
 run-time derivative counts

---
 TooN/functions/fadbad.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/TooN/functions/fadbad.h b/TooN/functions/fadbad.h
index 0cd3315..e352163 100644
--- a/TooN/functions/fadbad.h
+++ b/TooN/functions/fadbad.h
@@ -66,13 +66,18 @@ inline Vector<N, T> get_value( const Vector<N, fadbad::F<T, D>, A> & v ){
 }
 
 template <typename P, int N, typename A>
-inline Vector<N, fadbad::F<P> > make_fad_vector( const Vector<N, P, A> & val, const unsigned start = 0, const unsigned size = N ){
+inline Vector<N, fadbad::F<P> > make_fad_vector( const Vector<N, P, A> & val, const unsigned start, const unsigned size ){
 	Vector<N, fadbad::F<P> > result = val;
-	for(unsigned i = 0, d = start; i < val.size() && d < size; ++i, ++d)
+	for(unsigned i = 0, d = start; i < unsigned(val.size()) && d < size; ++i, ++d)
 		result[i].diff(d,size);
 	return result;
 }
 
+template <typename P, int N, typename A>
+inline Vector<N, fadbad::F<P> > make_fad_vector( const Vector<N, P, A> & val, const unsigned start = 0 ){
+	return make_fad_vector(val, start, val.size());
+}
+
 template <unsigned D, typename P, int N, typename A>
 inline Vector<N, fadbad::F<P,D> > make_fad_vector( const Vector<N, P, A> & val, const unsigned start = 0 ){
 	Vector<N, fadbad::F<P,D> > result = val;
@@ -83,25 +88,30 @@ inline Vector<N, fadbad::F<P,D> > make_fad_vector( const Vector<N, P, A> & val,
 
 template <unsigned D, typename P, int N, typename A>
 inline Vector<N, P> get_derivative( const Vector<N, fadbad::F<P,D>, A> & val, const int dim ){
-	Vector<N, P> r;
-	for(int i = 0; i < N; ++i)
+	Vector<N, P> r(val.size());
+	for(int i = 0; i < val.size(); ++i)
 		r[i] = val[i].deriv(dim);
 	return r;
 }
 
 template <unsigned D, typename P, int N, typename A>
-inline Matrix<N, D, P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val ){
-	Matrix<N, D, P> result(N, val[0].size());
-	for(unsigned i = 0; i < val[0].size(); ++i)
+inline Matrix<N, (D ? int(D) : Dynamic), P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val ){
+	// the number of derivatives of F<P> is only known at run time, and zero for constants
+	unsigned size = D;
+	for(int i = 0; i < val.size(); ++i)
+		if(val[i].size() > size)
+			size = val[i].size();
+	Matrix<N, (D ? int(D) : Dynamic), P> result(val.size(), size);
+	for(unsigned i = 0; i < size; ++i)
 		result.T()[i] = get_derivative( val, i );
 	return result;
 }
 
 template <int R, int C, typename P, unsigned D, typename A>
 inline Matrix<R, C, P> get_derivative( const Matrix<R,C, fadbad::F<P, D>, A> & val, const int dim ){
-	Matrix<R, C, P> result;
-	for(int r = 0; r < R; ++r)
-		for(int c = 0; c < C; ++c)
+	Matrix<R, C, P> result(val.num_rows(), val.num_cols());
+	for(int r = 0; r < val.num_rows(); ++r)
+		for(int c = 0; c < val.num_cols(); ++c)
 			result[r][c] = val[r][c].deriv(dim);
 	return result;
 }
-- 
2.43.0


From 7e63648892446fd6324722c7e55a8162a69d9f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 83/91] fix: iteration limit of sqrt(Matrix) for types without
 numeric_limits

---
 TooN/helpers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 1cc24ce..e690147 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -357,7 +357,8 @@ namespace TooN {
 		// The iteration converges quadratically after the scale of the matrix, which
 		// changes by a factor of at most 4 per step, is reduced to about 1. If it has not
 		// converged by then, it is trapped by rounding errors and would never end.
-		int steps = std::numeric_limits<P>::max_exponent + std::numeric_limits<P>::digits;
+		typedef std::numeric_limits<P> limits;
+		int steps = limits::is_specialized ? limits::max_exponent + limits::digits : 20000;
 		do {
 			M_inv = gaussian_elimination(M, id);
 			Y = Y * (id + M_inv) * 0.5;
-- 
2.43.0


From 5770071594a74cbf54303f6fb5db7b4bd58f4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 84/91] fix: determinant() uses LAPACK only for float and
 double

---
 TooN/determinant.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/TooN/determinant.h b/TooN/determinant.h
index 0aabe1c..20d49c4 100644
--- a/TooN/determinant.h
+++ b/TooN/determinant.h
@@ -162,13 +162,32 @@ namespace TooN
 			LU<Internal::Square<R,C>::Size, P> lu(A);
 			return lu.determinant();
 		}
+
+		namespace Internal
+		{
+			///@internal
+			///@brief LAPACK is only available for float and double.
+			///@ingroup gInternal
+			template<class P> struct LargeDeterminant
+			{
+				template<class M> static P compute(const M& m) { return determinant_gaussian_elimination(m); }
+			};
+			template<> struct LargeDeterminant<float>
+			{
+				template<class M> static float compute(const M& m) { return determinant_LU(m); }
+			};
+			template<> struct LargeDeterminant<double>
+			{
+				template<class M> static double compute(const M& m) { return determinant_LU(m); }
+			};
+		}
 	#endif
 
 	/** 
 		Compute the determinant of a matrix using an appropriate method. The
 		obvious method is used for 2x2, otherwise
 		determinant_gaussian_elimination() or determinant_LU() is used depending
-		on the value of \c TOON_DETERMINANT_LAPACK.  See also \ref sConfigLapack.
+		on the value of \c TOON_DETERMINANT_LAPACK (the latter only for float and double).  See also \ref sConfigLapack.
 		@param A The matrix to find the determinant of.
 		@returns determinant.
 		@ingroup gLinAlg
@@ -181,7 +200,7 @@ namespace TooN
 			return A[0][0]*A[1][1] - A[1][0]*A[0][1];
 		#if defined TOON_DETERMINANT_LAPACK && TOON_DETERMINANT_LAPACK != -1
 			else if(A.num_rows() >= TOON_DETERMINANT_LAPACK)
-				return determinant_LU(A);
+				return Internal::LargeDeterminant<P>::compute(A);
 		#endif
 		else
 			return determinant_gaussian_elimination(A);
-- 
2.43.0


From 80f0963057bc6f4205c4509ceb42a4fd1fde39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 85/91] fix: Matrix<N,1> takes no more space than its elements

---
 TooN/internal/allocator.hh | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 2ae1691..538b306 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -681,7 +681,9 @@ template<int R, int C, class Precision> struct MatrixSlice
 // A class similar to mem, but to hold the stride information. It is only needed
 // for -1. For +int and -2, the stride is part fo teh type, or implicit.
 
-template<int s> struct StrideHolder
+// A matrix has two. They are of different types (Which), because two base classes
+// of the same type cannot share an address, so equal strides would take up space.
+template<int s, int Which=0> struct StrideHolder
 {
 	//Constructos ignore superfluous arguments
 	StrideHolder(){}
@@ -695,7 +697,7 @@ template<int s> struct StrideHolder
 	}
 };
 
-template<> struct StrideHolder<-1>
+template<int Which> struct StrideHolder<-1, Which>
 {
 	StrideHolder(int s)
 	:my_stride(s){}
@@ -726,17 +728,17 @@ template<int S> struct RowStrideHolder: public StrideHolder<S>
 };
 
 
-template<int S> struct ColStrideHolder: public StrideHolder<S>
+template<int S> struct ColStrideHolder: public StrideHolder<S, 1>
 {
 	ColStrideHolder(int i)
-	:StrideHolder<S>(i){}
+	:StrideHolder<S, 1>(i){}
 
 	ColStrideHolder()
 	{}
 
 	template<class Op>
 	ColStrideHolder(const Operator<Op>& op)
-		: StrideHolder<S>(op)
+		: StrideHolder<S, 1>(op)
 	{}
 };
 
-- 
2.43.0


From 7e55043c70c17592d5563be614e9fe48bb97b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:51 +0000
Subject: [PATCH 86/91] fix: SL::operator*= returned a copy

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 3403f0e..4c7405b 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -82,7 +82,7 @@ public:
 
 	/// right multiplies this SL with another one
 	template <typename P>
-	SL operator*=( const SL<N,P> & rhs) { *this = *this*rhs; return *this; }
+	SL& operator*=( const SL<N,P> & rhs) { *this = *this*rhs; return *this; }
 
 	/// exponentiates a vector in the Lie algebra to compute the corresponding element
 	/// @arg v a vector of dimension SL::dim
-- 
2.43.0


From 604de1f795e1b9e1b30c942143185b8f2e1b0383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:51 +0000
Subject: [PATCH 87/91] fix: Matrix -= Identity did not compile

---
 TooN/internal/objects.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 8919f50..231732b 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -327,6 +327,14 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 			m[i][i] += (P)val;
 	}
 
+	template<int Rows, int Cols, typename P, typename B>
+	void minusequals(Matrix<Rows, Cols, P, B>& m) const
+	{
+		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
+		for(int i=0; i < m.num_rows(); i++)
+			m[i][i] -= (P)val;
+	}
+
 	template <int Rows, int Cols, typename P1, typename B1> 
 	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > add(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
-- 
2.43.0


From fe71a82605dee0e89102b0ec43dfc3902584a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:04 +0000
Subject: [PATCH 88/91] fix: GR_SVD loses no orthogonality to underflow and
 overflow in the QR sweeps

---
 TooN/GR_SVD.h | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index ff65b2a..8dc001c 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -129,6 +129,20 @@ namespace TooN
     void Diagonalize();
     bool Diagonalize_SubLoop(int k, Precision &z);
   
+    /// sqrt(a*a + b*b), with no underflow or overflow of the squares
+    static Precision pythag(Precision a, Precision b)
+    {
+      using std::abs;
+      using std::sqrt;
+      const Precision abs_a = abs(a), abs_b = abs(b);
+      const Precision big = abs_a > abs_b ? abs_a : abs_b;
+      const Precision small = abs_a > abs_b ? abs_b : abs_a;
+      if(small == 0)
+	return big;
+      const Precision r = small / big;
+      return big * sqrt(1 + r * r);
+    }
+
     Vector<N,Precision> vDiagonal;   
     Vector<BigDim, Precision> vOffDiagonal;     
     Matrix<M, N, Precision> mU;
@@ -369,7 +383,7 @@ namespace TooN
 		if((abs(f) + anorm) == anorm)
 		  break; // goto 565, effectively
 		Precision g = vDiagonal[i];
-		Precision h = sqrt(f * f + g * g); // Other implementations do this bit better
+		Precision h = pythag(f, g);
 		vDiagonal[i] = h;
 		c = g / h;
 		s = -f / h;
@@ -400,10 +414,10 @@ namespace TooN
 	    Precision y = vDiagonal[k1];
 	    Precision g = vOffDiagonal[k1];
 	    Precision h = vOffDiagonal[k];
-	    Precision f = ((y-z)*(y+z) + (g-h)*(g+h)) / (2.0*h*y);
-	    g = sqrt(f*f + 1.0);
+	    Precision f = (((g+z)/h) * ((g-z)/y) + y/h - h/y) / 2;
+	    g = pythag(f, 1);
 	    Precision signed_g =  (f>=0)?g:-g;
-	    f = ((x-z)*(x+z) + h*(y/(f + signed_g) - h)) / x;
+	    f = x - (z/x)*z + (h/x)*(y/(f + signed_g) - h);
 		  
 	    // Next QR transformation
 	    Precision c = 1.0;
@@ -415,10 +429,13 @@ namespace TooN
 		y = vDiagonal[i];
 		h = s*g;
 		g = c*g;
-		z = sqrt(f*f + h*h);      
+		z = pythag(f, h);
 		vOffDiagonal[i1] = z;
-		c = f/z;	      
-		s = h/z;
+		if(z!=0)
+		  {
+		    c = f/z;
+		    s = h/z;
+		  }
 		f = x*c + g*s;      
 		g = -x*s + g*c;
 		h = y*s;      
@@ -431,7 +448,7 @@ namespace TooN
 		      mV[j][i1] = xx*c + zz*s; 
 		      mV[j][i] = -xx*s + zz*c;
 		    }
-		z = sqrt(f*f + h*h);
+		z = pythag(f, h);
 		vDiagonal[i1] = z;
 		if(z!=0)
 		  {
-- 
2.43.0


From 711b9d3f9d667008dbfc4fa63bd93b381be8b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:45 +0000
Subject: [PATCH 89/91] fix: SymEigen of 2x2 matrices does not depend on their
 scale

---
 TooN/SymEigen.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 5a2f0a6..98575d3 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -107,27 +107,32 @@ namespace Internal{
 			//
 			//Working with half the difference of the diagonal elements avoids
 			//subtracting nearly equal numbers (as trace*trace - 4*det would).
+			using std::abs;
+			using std::max;
 			using std::sqrt;
 			const double d = 0.5 * (m[0][0] - m[1][1]);
 			const double mean = 0.5 * (m[0][0] + m[1][1]);
-			const double r = sqrt(d*d + (double)m[0][1]*m[0][1]);
+			const double b = m[0][1];
+
+			//r = sqrt(d*d + b*b), and t is the ratio of the smaller to the larger element of the
+			//eigenvectors. The squares of very large or very small numbers are avoided.
+			const double scale = max(abs(d), abs(b));
+			double r = 0, t = 0;
+			if(scale > 0) {
+				r = scale * sqrt((d/scale)*(d/scale) + (b/scale)*(b/scale));
+				t = abs(b) / (r + abs(d));
+			}
 
 			ev[0] = mean - r;
 			ev[1] = mean + r;
 
-			//a = m[0][0] - ev[0] = d + r
-			double a = d + r;
-			if(d < 0)
-				a = (double)m[0][1]*m[0][1] / (r - d);
-			double b = m[0][1];
-			double magsq = a*a + b*b;
-			if (magsq == 0) {
-				eig[0][0] = 1.0;
-				eig[0][1] = 0;
+			const double c = 1.0 / sqrt(1.0 + t*t);
+			if(d < 0 || r == 0) {
+				eig[0][0] = (b > 0)?-c:c;
+				eig[0][1] = t*c;
 			} else {
-				eig[0][0] = -b;
-				eig[0][1] = a;
-				eig[0] *= 1.0/sqrt(magsq);
+				eig[0][0] = (b > 0)?-t*c:t*c;
+				eig[0][1] = c;
 			}
 			eig[1][0] = -eig[0][1];
 			eig[1][1] = eig[0][0];
-- 
2.43.0


From 74fc89a3b37925feb1b55c782516b2de8a7c10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:45 +0000
Subject: [PATCH 90/91] fix: QR of matrices with very large or very small
 elements

---
 TooN/QR.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/TooN/QR.h b/TooN/QR.h
index dc26ba3..86adfee 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -154,6 +154,14 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=DefaultPrecision> c
 				//
 				//let a = |x| * sgn(x_0])
 
+				//u may have any length, so divide by the largest element: the squares of
+				//very large or very small elements would overflow or underflow.
+				const Precision first = s.T()[0][0];
+				const Precision scale = norm_inf(s.T()[0]);
+				if(scale == 0)
+					continue;
+				s.T()[0] /= scale;
+
 				Precision x0 = s.T()[0][0];
 				Precision rest2 = norm_sq(s.T()[0].slice(1, sz-1));
 
@@ -162,6 +170,7 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=DefaultPrecision> c
 				const Precision eps = std::numeric_limits<Precision>::epsilon();
 				if(rest2 <= eps * eps * x0 * x0)
 				{
+					s.T()[0][0] = first;
 					s.T()[0].slice(1, sz-1) = Zeros;
 					continue;
 				}
@@ -220,7 +229,7 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=DefaultPrecision> c
 				//Now do the first column multiplication...
 				//Which makes it upper triangular.
 
-				s[0][0] = a;
+				s[0][0] = a * scale;
 				s.T()[0].slice(1, sz-1) = Zeros;
 
 			}
-- 
2.43.0


From 117f9e0fb512a800457355a2fdee570461e68e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:46 +0000
Subject: [PATCH 91/91] fix: assigning part of a Vector<Resizable> to itself
 lost the data or read destroyed elements

---
 TooN/internal/allocator.hh | 10 ++++------
 TooN/internal/vector.hh    | 10 ++++++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 538b306..5981af5 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -358,12 +358,10 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 
 		void try_destructive_resize(int newsize)
 		{
-			//Assignment from itself (or from a slice which covers
-			//it) must not lose the data which is about to be copied.
-			if(newsize == size())
-				return;
-			numbers.resize(newsize);
-			debug_initialize(data(), newsize);
+			//Assignment from itself (or from a slice of it) must not
+			//lose the data which is about to be copied, so only new
+			//elements are initialized.
+			resize(newsize);
 		}
 
 	public:
diff --git a/TooN/internal/vector.hh b/TooN/internal/vector.hh
index 1230f79..946a03d 100644
--- a/TooN/internal/vector.hh
+++ b/TooN/internal/vector.hh
@@ -275,6 +275,16 @@ public:
 	/// is resizable.
 	template<int Size2, typename Precision2, typename Base2>
 	Vector<Size,Precision,Base >& operator= (const Vector<Size2, Precision2, Base2>& from){
+		//from may be a slice of this vector, so the elements have to be copied
+		//before the vector shrinks.
+		if(Size == Resizable && from.size() < size()) {
+			const int s=from.size();
+			for(int i=0; i<s; i++){
+				(*this)[i]=from[i];
+			}
+			try_destructive_resize(s);
+			return *this;
+		}
 		try_destructive_resize(from.size());
 		SizeMismatch<Size,Size2>::test(size(), from.size());
 		const int s=size();
-- 
2.43.0

