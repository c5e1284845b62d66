From 584f224f51677d6da5dffa363fd8b865add9b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:52 +0000
Subject: [PATCH 01/37] fix: Indexlist: do not read iSort[-1] for numbers below
 the smallest entry, nor one past the end in getNumber

---
 include/qpOASES/Indexlist.ipp |  2 +-
 src/Indexlist.cpp             | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/qpOASES/Indexlist.ipp b/include/qpOASES/Indexlist.ipp
index 178252f..f716a21 100644
--- a/include/qpOASES/Indexlist.ipp
+++ b/include/qpOASES/Indexlist.ipp
@@ -47,7 +47,7 @@ BEGIN_NAMESPACE_QPOASES
 inline int_t Indexlist::getNumber( int_t physicalindex ) const
 {
 	/* consistency check */
-	if ( ( physicalindex < 0 ) || ( physicalindex > length ) )
+	if ( ( physicalindex < 0 ) || ( physicalindex >= length ) )
 		return -RET_INDEXLIST_OUTOFBOUNDS;
 
 	return number[physicalindex];
diff --git a/src/Indexlist.cpp b/src/Indexlist.cpp
index d6fb383..6f57d5e 100644
--- a/src/Indexlist.cpp
+++ b/src/Indexlist.cpp
@@ -157,6 +157,11 @@ returnValue Indexlist::getISortArray( int_t** const iSortArray ) const
 int_t Indexlist::getIndex( int_t givennumber ) const
 {
 	int_t index = findInsert(givennumber);
+
+	/* given number is smaller than all numbers of the list (or list is empty) */
+	if ( index < 0 )
+		return -1;
+
 	return number[iSort[index]] == givennumber ? iSort[index] : -1;
 }
 
@@ -188,6 +193,11 @@ returnValue Indexlist::removeNumber( int_t removenumber )
 {
 	int_t i;
 	int_t idx = findInsert( removenumber );
+
+	/* nothing to be done if number is smaller than all numbers of the index set */
+	if ( idx < 0 )
+		return SUCCESSFUL_RETURN;
+
 	int_t iSidx = iSort[idx];
 
 	/* nothing to be done if number is not contained in index set */
@@ -220,6 +230,9 @@ returnValue Indexlist::swapNumbers( int_t number1, int_t number2 )
 	int_t index2 = findInsert( number2 );
 
 	/* consistency check */
+	if ( ( index1 < 0 ) || ( index2 < 0 ) )
+		return THROWERROR( RET_INDEXLIST_CORRUPTED );
+
 	if ( ( number[iSort[index1]] != number1 ) || ( number[iSort[index2]] != number2 ) )
 		return THROWERROR( RET_INDEXLIST_CORRUPTED );
 
-- 
2.43.0


From 05c3715e2929c37177e1b435884415c6a74a28a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 02/37] fix: C interface: preset 'reliable' no longer falls
 through into preset 'MPC'

---
 interfaces/c/qpOASES_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index 4b5e5b4..f532dd6 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -146,8 +146,9 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
 			#else
 			options->numRefinementSteps            =  2;
 			#endif
+			break;
+
 
-			
 		case 2:
 			/* MPC */
 			options->enableRamping                 =  BT_FALSE;
-- 
2.43.0


From 5117ee637c3616c56ac1fee6b7941e374ff6cfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 03/37] fix: C interface: initialise and copy options
 enableInertiaCorrection and rcondSMin

---
 interfaces/c/qpOASES_wrapper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index f532dd6..a5e406b 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -128,6 +128,9 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
     options->dropEqConPriority             =  1;
     options->dropIneqConPriority           =  1;
 
+	options->enableInertiaCorrection       =  BT_TRUE;
+	options->rcondSMin                     =  1.0e-14;
+
 
 	switch ( mode )
 	{
@@ -227,6 +230,9 @@ int_t qpOASES_Options_copy(	const qpOASES_Options* const from,
     to->dropEqConPriority             =  from->dropEqConPriority;
     to->dropIneqConPriority           =  from->dropIneqConPriority;
 
+	to->enableInertiaCorrection       =  (BooleanType)(from->enableInertiaCorrection);
+	to->rcondSMin                     =  from->rcondSMin;
+
 	return 0;
 }
 
-- 
2.43.0


From a91cad3eab9fb17e753e58bccde679ae2f7f9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:17 +0000
Subject: [PATCH 04/37] fix: Options: repaired initialFarBounds is greater than
 boundRelaxation also for large boundRelaxation

---
 src/Options.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 2b3a362..6ac83d4 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -310,7 +310,7 @@ returnValue Options::ensureConsistency( )
 
 	if ( initialFarBounds <= boundRelaxation )
 	{
-		initialFarBounds = boundRelaxation+EPS;
+		initialFarBounds = boundRelaxation*(1.0+EPS) + EPS;
 		needToAdjust = BT_TRUE;
 	}
 
-- 
2.43.0


From def8dae8ff4bfa366ab7f7d1c931b1d641077e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:37 +0000
Subject: [PATCH 05/37] fix: DenseMatrix: respect the leading dimension in
 products, norm, copies and full()

---
 src/Matrices.cpp | 48 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index d41881f..614d2be 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -117,14 +117,13 @@ Matrix *DenseMatrix::duplicate( ) const
 
 	if ( needToFreeMemory( ) == BT_TRUE )
 	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+		real_t* val_new = full( );
 		dupl = new DenseMatrix(nRows, nCols, nCols, val_new);
 		dupl->doFreeMemory( );
 	}
 	else
 	{
-		dupl = new DenseMatrix(nRows, nCols, nCols, val);
+		dupl = new DenseMatrix(nRows, nCols, leaDim, val);
 	}
 
 	return dupl;
@@ -155,7 +154,31 @@ BooleanType DenseMatrix::isDiag( ) const
 real_t DenseMatrix::getNorm(	int_t type
 								) const
 {
-	return REFER_NAMESPACE_QPOASES getNorm( val,nCols*nRows,type );
+	int_t i, j;
+
+	real_t norm = 0.0;
+
+	if ( leaDim == nCols )
+		return REFER_NAMESPACE_QPOASES getNorm( val,nCols*nRows,type );
+
+	switch ( type )
+	{
+		case 2:
+			for ( i=0; i<nRows; ++i )
+				for ( j=0; j<nCols; ++j )
+					norm += val[i*leaDim+j]*val[i*leaDim+j];
+			return getSqrt( norm );
+
+		case 1:
+			for ( i=0; i<nRows; ++i )
+				for ( j=0; j<nCols; ++j )
+					norm += getAbs( val[i*leaDim+j] );
+			return norm;
+
+		default:
+			THROWERROR( RET_INVALID_ARGUMENTS );
+			return -INFTY;
+	}
 }
 
 
@@ -306,7 +329,7 @@ returnValue DenseMatrix::times(	int_t xN, real_t alpha, const real_t* x, int_t x
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -320,7 +343,7 @@ returnValue DenseMatrix::transTimes( int_t xN, real_t alpha, const real_t* x, in
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -587,8 +610,14 @@ returnValue DenseMatrix::writeToFile( FILE* output_file, const char* prefix ) co
 
 real_t* DenseMatrix::full() const
 {
+	int_t i, j;
+
 	real_t* v = new real_t[nRows*nCols];
-	memcpy( v,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+
+	for ( i=0; i<nRows; ++i )
+		for ( j=0; j<nCols; ++j )
+			v[i*nCols+j] = val[i*leaDim+j];
+
 	return v;
 }
 
@@ -613,14 +642,13 @@ SymmetricMatrix *SymDenseMat::duplicateSym( ) const
 
 	if ( needToFreeMemory( ) == BT_TRUE )
 	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+		real_t* val_new = full( );
 		dupl = new SymDenseMat(nRows, nCols, nCols, val_new);
 		dupl->doFreeMemory( );
 	}
 	else
 	{
-		dupl = new SymDenseMat(nRows, nCols, nCols, val);
+		dupl = new SymDenseMat(nRows, nCols, leaDim, val);
 	}
 
 	return dupl;
-- 
2.43.0


From 8286c2fde21d79d70f8f58d923e6fb3b25bd3428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 06/37] fix: DenseMatrix/SparseMatrixRow::times: use the row
 number also on the right-hand side when negating an uncompressed y

---
 src/Matrices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 614d2be..7378be2 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -454,7 +454,7 @@ returnValue DenseMatrix::times(	const Indexlist* const irows, const Indexlist* c
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
@@ -1907,7 +1907,7 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-- 
2.43.0


From 6b767cb3b02d6cce384c25d7d31db8d7412b896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 07/37] fix: SparseMatrix::times: read an uncompressed y at the
 row number when scaling it

---
 src/Matrices.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 7378be2..2c53623 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1302,15 +1302,15 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 		else if (isEqual( beta, 1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+y[irows->number[j]+k*yLD];
 		else if (isEqual( beta, -1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[irows->number[j]+k*yLD];
 		else if (isEqual( beta, 1.0 ) == BT_FALSE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[irows->number[j]+k*yLD];
 	}
 
 	delete [] ytmp;
-- 
2.43.0


From 09b6fd02e5f3c572854430fd82c2baeb45cd72ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 08/37] fix: SparseMatrix::times: free the column buffer once,
 after the loop

---
 src/Matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 2c53623..1ec3151 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1269,8 +1269,8 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 					for (i = jc[col]; i < jc[col+1]; i++)
 						for (k=0; k<xN; k++)
 							ytmp[k*yfullLength+ir[i]] += val[i] * xcols[k];
-				delete [] xcols;
 			}
+			delete [] xcols;
 		}
 	}
 
-- 
2.43.0


From 9aeb0705cca0b152336ef5b7e6ea1ad002174a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 09/37] fix: SparseMatrix::getRow: do not access the index list
 when it is null

---
 src/Matrices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 1ec3151..4732a21 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -928,13 +928,13 @@ returnValue SparseMatrix::getRow( int_t rNum, const Indexlist* const icols, real
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? alpha*val[i] : 0.0;
-- 
2.43.0


From 9da9cb88ad71ab0bc0a8a5d113a689390daeffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 10/37] fix: SparseMatrixRow::getCol: loop over all rows when
 the index list is null

---
 src/Matrices.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 4732a21..e7c80e3 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1688,19 +1688,19 @@ returnValue SparseMatrixRow::getCol( int_t cNum, const Indexlist* const irows, r
 	else
 	{
 		if ( isEqual(alpha,1.0) == BT_TRUE )
-			for (j = 0; j < nCols; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? alpha*val[i] : 0.0;
-- 
2.43.0


From 9cc191e009aebcc2a9ebb54427b1a7f5e93fd7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 11/37] fix: SparseMatrix::getRowNorm: sum all entries for the
 one-norm

---
 src/Matrices.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index e7c80e3..7ce824c 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -878,9 +878,7 @@ returnValue SparseMatrix::getRowNorm( real_t* norm, int_t type ) const
 			break;
 		case 1:
 			for ( j=0; j < nCols; ++j ) {
-				// FIXME please add guarding or fix indent for "for loop" to
-				//       remove compile warnings
-				for (i = jc[j]; i < jc[j+1]; i++);
+				for (i = jc[j]; i < jc[j+1]; i++)
 				  norm[ir[i]] += getAbs( val[i] );
 			}
 			break;
-- 
2.43.0


From c42d955ccd2f4e0d6062d3ca4e2281a43ac97cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 12/37] fix: SparseMatrixRow::duplicate: copy all row starts
 and column numbers

---
 src/Matrices.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 7ce824c..7d8240a 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1514,14 +1514,14 @@ Matrix *SparseMatrixRow::duplicate( ) const
 	dupl->ic = new sparse_int_t[length];
 	dupl->val = new real_t[length];
 
-	for (i = 0; i < length; i++) dupl->jr[i] = jr[i];
-	for (i = 0; i <= nCols; i++) dupl->ic[i] = ic[i];
+	for (i = 0; i <= nRows; i++) dupl->jr[i] = jr[i];
+	for (i = 0; i < length; i++) dupl->ic[i] = ic[i];
 	for (i = 0; i < length; i++) dupl->val[i] = val[i];
 
 	if ( jd != 0 )
 	{
 		dupl->jd = new sparse_int_t[nRows];
-		for (i = 0; i < nCols; i++) dupl->jd[i] = jd[i];
+		for (i = 0; i < nRows; i++) dupl->jd[i] = jd[i];
 	}
 	else
 		dupl->jd = 0;
-- 
2.43.0


From 3b41c43a0237245bc370aa5fa65e02032b1301c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 13/37] fix: SparseMatrix::addToDiag: do not touch other
 entries when a diagonal entry is missing

---
 src/Matrices.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 7d8240a..4bf50ce 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1375,12 +1375,11 @@ returnValue SparseMatrix::addToDiag( real_t alpha )
 	if ( isZero( alpha ) == BT_FALSE )
 	{
 		for (i = 0; i < nRows && i < nCols; i++)
-		{
-			if (ir[jd[i]] == i)
-				val[jd[i]] += alpha;
-			else
+			if ( ( jd[i] >= jc[i+1] ) || ( ir[jd[i]] != i ) )
 				return RET_NO_DIAGONAL_AVAILABLE;
-		}
+
+		for (i = 0; i < nRows && i < nCols; i++)
+			val[jd[i]] += alpha;
 	}
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From 5a1a91b92ff44fced41d628d0bfaf4acd078a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 14/37] fix: SparseMatrixRow::addToDiag: do not touch other
 entries when a diagonal entry is missing

---
 src/Matrices.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 4bf50ce..e9c8fc8 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -2074,12 +2074,11 @@ returnValue SparseMatrixRow::addToDiag( real_t alpha )
 	if ( isZero(alpha) == BT_FALSE )
 	{
 		for (i = 0; i < nRows && i < nCols; i++)
-		{
-			if (ic[jd[i]] == i)
-				val[jd[i]] += alpha;
-			else
+			if ( ( jd[i] >= jr[i+1] ) || ( ic[jd[i]] != i ) )
 				return RET_NO_DIAGONAL_AVAILABLE;
-		}
+
+		for (i = 0; i < nRows && i < nCols; i++)
+			val[jd[i]] += alpha;
 	}
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From cf6a85d8c5161c7979b19162d2c44156653ddbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 15/37] fix: SparseMatrixRow::times: write an uncompressed y at
 the row number also if columns are listed

---
 src/Matrices.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index e9c8fc8..91c2713 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1939,10 +1939,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			if ( isEqual(alpha,1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1955,10 +1955,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else if ( isEqual(alpha,-1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1971,10 +1971,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
-- 
2.43.0


From 3ddec1ba7d2dd4c557b87965f69cc45d08d312c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 16/37] fix: SymSparseMat::bilinear: respect the leading
 dimension when clearing the result

---
 src/Matrices.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 91c2713..3a866fd 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -2178,8 +2178,9 @@ returnValue SymSparseMat::bilinear( const Indexlist* const icols,
 		return THROWERROR( RET_DIAGONAL_NOT_INITIALISED );
 
 	/* clear output */
-	for (i = 0; i < xN*xN; i++)
-		y[i] = 0.0;
+	for (i = 0; i < xN; i++)
+		for (j = 0; j < xN; j++)
+			y[i*yLD+j] = 0.0;
 
 	/* compute lower triangle */
 	for (l = 0; l < icols->length; l++)
-- 
2.43.0


From d385057ce17fa20c823642b010521a532175ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 17/37] fix: SparseMatrix::getSparseSubmatrix: free the inverse
 row map on invalid arguments

---
 src/Matrices.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 3a866fd..6c07982 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1002,7 +1002,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
@@ -1038,7 +1041,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
-- 
2.43.0


From 266ef9fec80403ca7be87b3e7ed3ace51f428890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 18/37] fix: QProblemB::backsolveR: report a zero pivot also if
 the right-hand side is zero

---
 src/QProblemB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 52620e0..5ff17e0 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1662,7 +1662,7 @@ returnValue QProblemB::backsolveR(	const real_t* const b, BooleanType transposed
 			for( j=(i+1); j<nR; ++j )
 				sum -= RR(i,j) * a[j];
 
-			if ( getAbs( RR(i,i) ) >= ZERO*getAbs( sum ) )
+			if ( getAbs( RR(i,i) ) > ZERO*getAbs( sum ) )
 				a[i] = sum / RR(i,i);
 			else
 				return THROWERROR( RET_DIV_BY_ZERO );
@@ -1677,7 +1677,7 @@ returnValue QProblemB::backsolveR(	const real_t* const b, BooleanType transposed
 			for( j=0; j<i; ++j )
 				sum -= RR(j,i) * a[j];
 
-			if ( getAbs( RR(i,i) ) >= ZERO*getAbs( sum ) )
+			if ( getAbs( RR(i,i) ) > ZERO*getAbs( sum ) )
 				a[i] = sum / RR(i,i);
 			else
 				return THROWERROR( RET_DIV_BY_ZERO );
-- 
2.43.0


From b26b07c59a0ea6009dc3ceb8f3cd04d1549698a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 19/37] fix: initialise the direction of unbounded constraints
 when a constraint product is used

---
 src/QProblem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8ea39e1..4d41998 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5095,6 +5095,11 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 					return THROWERROR( RET_ERROR_IN_CONSTRAINTPRODUCT );
 				}
 			}
+			else
+			{
+				/* unbounded constraints never block the step */
+				delta_Ax[ii] = 0.0;
+			}
 		}
 	}
 
-- 
2.43.0


From 94e42a8bd429d8925d33aaf7a3f923aa3ae891f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 20/37] fix: bounds of a QProblemB with a single variable were
 ignored when ramping is enabled (0/0 in the ramp)

---
 src/QProblemB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 5ff17e0..d1a08cc 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2176,7 +2176,7 @@ returnValue QProblemB::performRamping( )
 			default: break;
 		}
 
-		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(nV-1);
+		t = (nV > 1) ? static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(nV-1) : 0.0;
 		rampVal = (1.0-t) * ramp0 + t * ramp1;
 		bstat = bounds.getStatus(i);
 		if (bstat != ST_LOWER) { lb[i] = x[i] - rampVal; }
@@ -2212,7 +2212,7 @@ returnValue QProblemB::updateFarBounds(	real_t curFarBound, int_t nRamp,
 	{
 		for ( i=0; i<nV; ++i )
 		{
-			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
+			t = (nRamp > 1) ? static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1) : 0.0;
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
 
 			if ( lb_new == 0 )
-- 
2.43.0


From 8060ce555344357c7157766a991ad10266151f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 21/37] fix: initialRamping and finalRamping given with
 setOptions never took effect

---
 include/qpOASES/QProblemB.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/qpOASES/QProblemB.ipp b/include/qpOASES/QProblemB.ipp
index 6831374..acc0474 100644
--- a/include/qpOASES/QProblemB.ipp
+++ b/include/qpOASES/QProblemB.ipp
@@ -194,6 +194,10 @@ inline returnValue QProblemB::setOptions(	const Options& _options
 	options = _options;
 	options.ensureConsistency( );
 
+	/* make changed ramping values take effect */
+	ramp0 = options.initialRamping;
+	ramp1 = options.finalRamping;
+
 	setPrintLevel( options.printLevel );
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From c1abbf7477a6816b274a474bdb322782a4f37b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 22/37] fix: solveQP used an uninitialised bound/constraint
 flag when no limit blocks the step

---
 src/QProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 4d41998..bae339b 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1527,7 +1527,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 
 	int_t BC_idx;
 	SubjectToStatus BC_status;
-	BooleanType BC_isBound;
+	BooleanType BC_isBound = BT_FALSE;
 
 	real_t homotopyLength;
 
-- 
2.43.0


From 94ea698a09dbf826ffce5fc30b108d2301e4eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 23/37] fix: refactorisation with an empty working set used the
 factor of H together with a non-trivial null-space basis

---
 src/QProblem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index bae339b..801fd05 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2043,7 +2043,13 @@ returnValue QProblem::computeProjectedCholesky( )
 
 	/* Revert to unprotected Cholesky decomposition */
 	if ( getNFX() + getNAC() == 0 )
+	{
+		/* R becomes the factor of H itself, thus make Z trivial */
+		if ( setupTQfactorisation( ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_INIT_FAILED_TQ );
+
 		return QProblemB::computeCholesky( );
+	}
 
 	/* 1) Initialises R with all zeros. */
 	for( i=0; i<nV*nV; ++i )
-- 
2.43.0


From 86fd785a3e434d6cc9e4bdcbd8979bc4f0c4bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 24/37] fix: SQProblem::hotstart kept multipliers of limits
 dropped from the working set, returning non-optimal points

---
 src/SQProblem.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 95dde53..acdafe4 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -500,6 +500,19 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
             break;
     }
 
+    /* bounds/constraints that could not be kept in the working set must not
+     * keep their multipliers; re-establish stationarity without them */
+    for ( i=0; i<nV; ++i )
+        if ( bounds.getStatus( i ) == ST_INACTIVE )
+            y[i] = 0.0;
+
+    for ( i=0; i<nC; ++i )
+        if ( constraints.getStatus( i ) == ST_INACTIVE )
+            y[nV+i] = 0.0;
+
+    if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+        return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
     /* adjust lb/ub if we changed the old active set in the second try
      */
     if (n_try > 0) {
-- 
2.43.0


From 557e64ad081d17a873cf6194b77a3e549132e5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:22 +0000
Subject: [PATCH 25/37] fix: SolutionAnalysis::getKktViolation dereferenced a
 null solver object before checking for it

---
 src/SolutionAnalysis.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 66d0fd1..063c5e9 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -95,11 +95,12 @@ real_t SolutionAnalysis::getKktViolation(	QProblemB* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -168,12 +169,13 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
-	int_t nC = qp->getNC();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+	int_t nC = qp->getNC();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
-- 
2.43.0


From 484d1797661c10d840744dbcf0bc27e5c05fb268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 26/37] fix: hotstart with inconsistent limits returned
 SUCCESSFUL_RETURN

---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 801fd05..819370a 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -486,7 +486,7 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds and constraints. */
 	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
 
 	++count;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index d1a08cc..a60d1ac 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -450,7 +450,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds */
 	if ( areBoundsConsistent( lb_new,ub_new ) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
 
 	++count;
 
-- 
2.43.0


From c290efc38d8745d3d17093df94f9f143b7818cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 27/37] fix: getObjVal of regularised problems added the
 regularisation term instead of removing it

---
 src/QProblemB.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index a60d1ac..2f689a1 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -753,15 +753,15 @@ real_t QProblemB::getObjVal( const real_t* const _x ) const
 			break;
 	}
 
-	/* When using regularisation, the objective function value
-	 * needs to be modified as follows:
-	 * objVal = objVal - 0.5*_x*(Hmod-H)*_x - _x'*(gMod-g)
-	 *        = objVal - 0.5*_x*eps*_x * - _x'*(-eps*_x)
-	 *        = objVal + 0.5*_x*eps*_x */
-	if ( usingRegularisation( ) == BT_TRUE )
+	/* When using regularisation, the regularisation term contained in the
+	 * stored Hessian matrix needs to be removed (the zero Hessian matrix is
+	 * regularised implicitly and g always is the unmodified gradient):
+	 * objVal = objVal - 0.5*_x*(Hmod-H)*_x
+	 *        = objVal - 0.5*_x*eps*_x */
+	if ( ( usingRegularisation( ) == BT_TRUE ) && ( hessianType != HST_ZERO ) )
 	{
 		for( i=0; i<nV; ++i )
-			objVal += 0.5*_x[i]*regVal*_x[i];
+			objVal -= 0.5*_x[i]*regVal*_x[i];
 	}
 
 	return objVal;
-- 
2.43.0


From 23177ddb9055417bead88371bbdcff313f60952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 28/37] fix: hotstart updates types and slacks of constraints
 for new limits

QProblem::hotstart kept the classification of the constraints from
initialisation: limits that became finite were ignored, equalities stayed
active after being loosened, and missing bound vectors were dereferenced.
Bounds that are inactive implicit equalities could not become active again.
---
 include/qpOASES/QProblemB.hpp | 13 ++++++++
 src/QProblem.cpp              | 62 +++++++++++++++++++++++++----------
 src/QProblemB.cpp             | 33 +++++++++++++++++++
 3 files changed, 91 insertions(+), 17 deletions(-)

diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 41eeb9f..486de68 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -473,6 +473,19 @@ class QProblemB
 												const real_t* const ub_new	/**< New upper bounds. */
 												);
 
+		/** Adapts types and status of bounds (or constraints) at the beginning
+		 *  of a homotopy: inactive ones are not treated as implicit equalities
+		 *  (as those would never become active again) and active ones that are
+		 *  no longer implicit equalities are assigned to that side which matches
+		 *  the sign of their multiplier.
+		 *	\return SUCCESSFUL_RETURN */
+		returnValue adaptImplicitEqualities(	SubjectTo* const subjectTo,		/**< Bounds or constraints. */
+												int_t n,						/**< Number of bounds or constraints. */
+												const real_t* const lower,		/**< Current lower bounds. */
+												const real_t* const upper,		/**< Current upper bounds. */
+												const real_t* const multiplier	/**< Current multipliers. */
+												) const;
+
 		/** Computes the Cholesky decomposition of the (simply projected) Hessian
 		 *  (i.e. R^T*R = Z^T*H*Z). It only works in the case where Z is a simple
 		 *  projection matrix!
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 819370a..a7f7e83 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1536,17 +1536,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 	#endif
 
 
-	/* 2) Update type of bounds and constraints, e.g.
-	 *    a former equality constraint might have become a normal one etc. */
-
-  // (ckirches) disabled this, as inactive but tight bounds may become inactive equalities
-    //            which would then never become active again!
-/*
-	if ( setupSubjectToType( lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_HOTSTART_FAILED );
-*/
-
-	/* 3) Reset status flags. */
+	/* 2) Reset status flags. */
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
 
@@ -1864,15 +1854,37 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 {
 	int_t i;
 	int_t nV = getNV( );
+	int_t nC = getNC( );
 
 	returnValue returnvalue;
 
-	if ( QProblemB::setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
+	/* Products of inactive unbounded constraints have not been kept up-to-date. */
+	if ( constraints.getNUC( ) > 0 )
+	{
+		if ( constraintProduct == 0 )
+			A->times( 1, 1.0, x, nV, 0.0, tempC, nC );
+
+		for ( i=0; i<nC; i++ )
+		{
+			if ( ( constraints.getType(i) != ST_UNBOUNDED ) || ( constraints.getStatus(i) != ST_INACTIVE ) )
+				continue;
+
+			if ( constraintProduct == 0 )
+				Ax[i] = tempC[i];
+			else if ( (*constraintProduct)( i,x, &(Ax[i]) ) != 0 )
+				return THROWERROR( RET_ERROR_IN_CONSTRAINTPRODUCT );
+
+			Ax_u[i] = ubA[i] - Ax[i];
+			Ax_l[i] = Ax[i] - lbA[i];
+		}
+	}
+
+	if ( setupSubjectToType( lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_SETUPSUBJECTTOTYPE_FAILED );
 
 	for ( i=0; i<nV; i++ )
 	{
-		if ( lb_new[i] <= -INFTY && bounds.getStatus(i) == ST_LOWER )
+		if ( ( lb_new == 0 || lb_new[i] <= -INFTY ) && bounds.getStatus(i) == ST_LOWER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1880,7 +1892,7 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( ub_new[i] >= INFTY && bounds.getStatus(i) == ST_UPPER )
+		if ( ( ub_new == 0 || ub_new[i] >= INFTY ) && bounds.getStatus(i) == ST_UPPER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1888,12 +1900,12 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( lb_new[i] > -INFTY && lb[i] <= -INFTY )
+		if ( lb_new != 0 && lb_new[i] > -INFTY && lb[i] <= -INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			lb[i] = x[i] - options.boundRelaxation;
 		}
-		if ( ub_new[i] < INFTY && ub[i] >= INFTY )
+		if ( ub_new != 0 && ub_new[i] < INFTY && ub[i] >= INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			ub[i] = x[i] + options.boundRelaxation;
@@ -1922,8 +1934,24 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 		}
 	}
 
+	for ( i=0; i<nC; i++ )
+	{
+		if ( lbA_new != 0 && lbA_new[i] > -INFTY && lbA[i] <= -INFTY )
+		{
+			/* Now a lower constraints' bound has become finite. */
+			lbA[i] = Ax[i] - options.boundRelaxation;
+			Ax_l[i] = options.boundRelaxation;
+		}
+		if ( ubA_new != 0 && ubA_new[i] < INFTY && ubA[i] >= INFTY )
+		{
+			/* Now an upper constraints' bound has become finite. */
+			ubA[i] = Ax[i] + options.boundRelaxation;
+			Ax_u[i] = options.boundRelaxation;
+		}
+	}
 
-	// AW TODO: We could also implement something here for the constraints
+	adaptImplicitEqualities( &bounds,nV,lb,ub,y );
+	adaptImplicitEqualities( &constraints,nC,lbA,ubA,&(y[nV]) );
 
 	return SUCCESSFUL_RETURN;
 }
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 2f689a1..d88c4af 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1360,6 +1360,36 @@ returnValue QProblemB::setupSubjectToType( const real_t* const lb_new, const rea
 }
 
 
+/*
+ *	a d a p t I m p l i c i t E q u a l i t i e s
+ */
+returnValue QProblemB::adaptImplicitEqualities(	SubjectTo* const subjectTo, int_t n,
+												const real_t* const lower, const real_t* const upper,
+												const real_t* const multiplier
+												) const
+{
+	int_t i;
+
+	for( i=0; i<n; ++i )
+	{
+		if ( subjectTo->getType( i ) == ST_EQUALITY )
+		{
+			if ( subjectTo->getStatus( i ) == ST_INACTIVE )
+				subjectTo->setType( i,ST_BOUNDED );
+		}
+		else if ( lower[i] > upper[i] - options.boundTolerance )
+		{
+			if ( ( subjectTo->getStatus( i ) == ST_LOWER ) && ( multiplier[i] < 0.0 ) )
+				subjectTo->setStatus( i,ST_UPPER );
+			else if ( ( subjectTo->getStatus( i ) == ST_UPPER ) && ( multiplier[i] > 0.0 ) )
+				subjectTo->setStatus( i,ST_LOWER );
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
 /*
  *	c o m p u t e C h o l e s k y
  */
@@ -2455,6 +2485,9 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	if ( setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_HOTSTART_FAILED );
 
+	if ( adaptImplicitEqualities( &bounds,nV,lb,ub,y ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_HOTSTART_FAILED );
+
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
-- 
2.43.0


From 654832f0a8204d36ffca70710f851f375cb653a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 29/37] fix: identity Hessian with regularisation enabled and
 nonempty initial working set was refused

---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a7f7e83..0c4953a 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2172,7 +2172,7 @@ returnValue QProblem::setupInitialCholesky( )
 
 	/* If regularisation shall be used, always regularise at beginning
 	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index d88c4af..8246f8e 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1480,7 +1480,7 @@ returnValue QProblemB::setupInitialCholesky( )
 
 	/* If regularisation shall be used, always regularise at beginning
 	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
-- 
2.43.0


From 7f76235bb634b2e35ad03db14b3d20ae324a1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 30/37] fix: QProblemB hotstart lost bounds that become finite
 to rounding

---
 src/QProblemB.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 8246f8e..26be763 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2440,7 +2440,7 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 								BooleanType isFirstCall
 								)
 {
-	int_t iter;
+	int_t i, iter;
 	int_t nV  = getNV( );
 
 	/* consistency check */
@@ -2485,6 +2485,16 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	if ( setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_HOTSTART_FAILED );
 
+	/*    Moreover, adjust bounds that become finite to avoid numerical issues. */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) && ( lb[i] <= -INFTY ) )
+			lb[i] = x[i] - options.boundRelaxation;
+
+		if ( ( ub_new != 0 ) && ( ub_new[i] < INFTY ) && ( ub[i] >= INFTY ) )
+			ub[i] = x[i] + options.boundRelaxation;
+	}
+
 	if ( adaptImplicitEqualities( &bounds,nV,lb,ub,y ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_HOTSTART_FAILED );
 
-- 
2.43.0


From 1bf103e9f414dc78253eb94fd66276062d5b0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 31/37] fix: zero Hessian with zero gradient could not be
 regularised

---
 src/QProblemB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 26be763..19f8ed0 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2045,6 +2045,10 @@ returnValue QProblemB::regulariseHessian( )
 		if ( hessianType == HST_ZERO )
 		{
 			regVal = getNorm( g,getNV() ) * options.epsRegularisation;
+
+			/* zero gradient */
+			if ( usingRegularisation( ) == BT_FALSE )
+				regVal = options.epsRegularisation;
 		}
 		else
 		{
-- 
2.43.0


From 7cfae418db74544e542f183f685465cd0b6456de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 32/37] fix: QProblemB hotstart with far bounds treated the
 time of the previous pass as CPU time limit

---
 src/QProblemB.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 19f8ed0..d6293a1 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -458,7 +458,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	int_t nWSR_max = nWSR;
 	int_t nWSR_performed = 0;
 
-	real_t cputime_remaining = INFTY;
+	real_t cputime_remaining = INFTY, *pcputime_rem;
 	real_t cputime_needed = 0.0;
 
 	real_t farbound = options.initialFarBounds;
@@ -501,11 +501,16 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		{
 			nWSR = nWSR_max;
 			if ( cputime != 0 )
+			{
 				cputime_remaining = *cputime - cputime_needed;
+				pcputime_rem = &cputime_remaining;
+			}
+			else
+				pcputime_rem = 0;
 
 			/* Automatically call standard solveQP if regularisation is not active. */
 			returnvalue = solveRegularisedQP(	g_new,lb_new_far,ub_new_far,
-												nWSR,&cputime_remaining,nWSR_performed,
+												nWSR,pcputime_rem,nWSR_performed,
 												isFirstCall
 												);
 
-- 
2.43.0


From edd913565fd4b4a6b6ace7fe24084d6feb63cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 33/37] fix: limits that become finite after having been moved
 to infinity by a hotstart

---
 src/QProblem.cpp  | 8 ++++----
 src/QProblemB.cpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 0c4953a..219766c 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1900,12 +1900,12 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( lb_new != 0 && lb_new[i] > -INFTY && lb[i] <= -INFTY )
+		if ( lb_new != 0 && lb_new[i] > -INFTY && lb[i] <= -0.5*INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			lb[i] = x[i] - options.boundRelaxation;
 		}
-		if ( ub_new != 0 && ub_new[i] < INFTY && ub[i] >= INFTY )
+		if ( ub_new != 0 && ub_new[i] < INFTY && ub[i] >= 0.5*INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			ub[i] = x[i] + options.boundRelaxation;
@@ -1936,13 +1936,13 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 
 	for ( i=0; i<nC; i++ )
 	{
-		if ( lbA_new != 0 && lbA_new[i] > -INFTY && lbA[i] <= -INFTY )
+		if ( lbA_new != 0 && lbA_new[i] > -INFTY && lbA[i] <= -0.5*INFTY )
 		{
 			/* Now a lower constraints' bound has become finite. */
 			lbA[i] = Ax[i] - options.boundRelaxation;
 			Ax_l[i] = options.boundRelaxation;
 		}
-		if ( ubA_new != 0 && ubA_new[i] < INFTY && ubA[i] >= INFTY )
+		if ( ubA_new != 0 && ubA_new[i] < INFTY && ubA[i] >= 0.5*INFTY )
 		{
 			/* Now an upper constraints' bound has become finite. */
 			ubA[i] = Ax[i] + options.boundRelaxation;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index d6293a1..69cba73 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2497,10 +2497,10 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	/*    Moreover, adjust bounds that become finite to avoid numerical issues. */
 	for( i=0; i<nV; ++i )
 	{
-		if ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) && ( lb[i] <= -INFTY ) )
+		if ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) && ( lb[i] <= -0.5*INFTY ) )
 			lb[i] = x[i] - options.boundRelaxation;
 
-		if ( ( ub_new != 0 ) && ( ub_new[i] < INFTY ) && ( ub[i] >= INFTY ) )
+		if ( ( ub_new != 0 ) && ( ub_new[i] < INFTY ) && ( ub[i] >= 0.5*INFTY ) )
 			ub[i] = x[i] + options.boundRelaxation;
 	}
 
-- 
2.43.0


From 1a5953d3d8c254dabebc79f962fa9e8ed71d6ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 34/37] fix: SQProblem hotstart refused an identity Hessian if
 the previous one had been regularised

---
 src/SQProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index acdafe4..e39886a 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -407,7 +407,7 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 		{
 			regVal = 0.0; /* reset previous regularisation */
 
-			if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
+			if ( ( hessianType != HST_IDENTITY ) && ( regulariseHessian( ) != SUCCESSFUL_RETURN ) )
 				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 		}
 	}
-- 
2.43.0


From 959997ea376055bf9e57d5469fc622be50e8a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 35/37] fix: hotstart refused after a working set limit had
 been reached before the first change

---
 src/QProblem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 219766c..4f30405 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1508,6 +1508,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		THROWERROR( RET_HOTSTART_FAILED );
 		return returnvalue;
 	}
+	status = QPS_HOMOTOPYQPSOLVED;
 
 	/* I) PREPARATIONS */
 	/* 1) Allocate delta vectors of gradient and (constraints') bounds,
-- 
2.43.0


From 7b4506156589b5a4f42c7c47102bd4af1627fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 36/37] fix: QProblemB::printIteration dereferenced a null
 Hessian for identity and zero Hessians

---
 src/QProblemB.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 69cba73..2a7240d 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3771,7 +3771,24 @@ returnValue QProblemB::printIteration( 	int_t iter,
 
 			/* stationarity */
 			for (i = 0; i < nV; i++) grad[i] = g[i] - y[i];
-			H->times(1, 1.0, x, nV, 1.0, grad, nV);
+
+			switch ( hessianType )
+			{
+				case HST_ZERO:
+					for( i=0; i<nV; ++i )
+						grad[i] += regVal * x[i];
+					break;
+
+				case HST_IDENTITY:
+					for( i=0; i<nV; ++i )
+						grad[i] += 1.0 * x[i];
+					break;
+
+				default:
+					H->times(1, 1.0, x, nV, 1.0, grad, nV);
+					break;
+			}
+
 			for (i = 0; i < nV; i++) if (getAbs(grad[i]) > stat) stat = getAbs(grad[i]);
 
 			/* feasibility */
-- 
2.43.0


From e9fec9c0841919c5bd61a465f998601416949fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:38 +0000
Subject: [PATCH 37/37] fix: hotstart of an object that is not initialised
 could dereference a null Hessian

---
 src/QProblem.cpp  | 4 ++++
 src/QProblemB.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 4f30405..b78cdb9 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -501,6 +501,10 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	/* writeQpDataIntoMatFile( "qpData.mat" ); */
 	/* writeQpWorkspaceIntoMatFile( "qpWorkspace.mat" ); */
 
+	/* A hotstart requires that the QP has been initialised before. */
+	if ( status == QPS_NOTINITIALISED )
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+
 	if ( haveCholesky == BT_FALSE )
 	{
 		returnvalue = setupInitialCholesky( );
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 2a7240d..2e6e114 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -463,6 +463,10 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	real_t farbound = options.initialFarBounds;
 
+	/* A hotstart requires that the QP has been initialised before. */
+	if ( status == QPS_NOTINITIALISED )
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+
 	if ( haveCholesky == BT_FALSE )
 	{
 		returnvalue = setupInitialCholesky( );
-- 
2.43.0

