From 4784606a179d9d43db207702d0602475c03a1b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 001/134] fix: reset null-space basis when refactorising
 Cholesky of an unconstrained QP

---
 src/QProblem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8ea39e1..204029e 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2041,9 +2041,15 @@ returnValue QProblem::computeProjectedCholesky( )
 
 	SymSparseMat* Id;
 
-	/* Revert to unprotected Cholesky decomposition */
+	/* Revert to unprotected Cholesky decomposition, which refers to the
+	 * free variables in index list order: make Z trivial accordingly. */
 	if ( getNFX() + getNAC() == 0 )
+	{
+		if ( setupTQfactorisation( ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_INIT_FAILED_TQ );
+
 		return QProblemB::computeCholesky( );
+	}
 
 	/* 1) Initialises R with all zeros. */
 	for( i=0; i<nV*nV; ++i )
-- 
2.43.0


From 7e997bbd16968f2b5fa555076389fe3e68ee9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 002/134] fix: do not fail initialisation by trying to
 regularise an identity Hessian

---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 204029e..8ff5b9e 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2144,7 +2144,7 @@ returnValue QProblem::setupInitialCholesky( )
 
 	/* If regularisation shall be used, always regularise at beginning
 	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 52620e0..f2e7861 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1450,7 +1450,7 @@ returnValue QProblemB::setupInitialCholesky( )
 
 	/* If regularisation shall be used, always regularise at beginning
 	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
-- 
2.43.0


From b7b76f20974d13e87e20b6bb73793e4d967f7890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 003/134] fix: initialise blocking constraint kind before
 performing a homotopy step

---
 src/QProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8ff5b9e..1ee2b6d 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1527,7 +1527,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 
 	int_t BC_idx;
 	SubjectToStatus BC_status;
-	BooleanType BC_isBound;
+	BooleanType BC_isBound = BT_FALSE;
 
 	real_t homotopyLength;
 
-- 
2.43.0


From 21b74747e9e17104b403df88d31207054c0d87af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 004/134] fix: avoid division by zero when ramping QPs with a
 single variable

---
 src/QProblemB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index f2e7861..637781c 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2176,7 +2176,7 @@ returnValue QProblemB::performRamping( )
 			default: break;
 		}
 
-		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(nV-1);
+		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(getMax( nV-1,(int_t)1 ));
 		rampVal = (1.0-t) * ramp0 + t * ramp1;
 		bstat = bounds.getStatus(i);
 		if (bstat != ST_LOWER) { lb[i] = x[i] - rampVal; }
@@ -2212,7 +2212,7 @@ returnValue QProblemB::updateFarBounds(	real_t curFarBound, int_t nRamp,
 	{
 		for ( i=0; i<nV; ++i )
 		{
-			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
+			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(getMax( nRamp-1,(int_t)1 ));
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
 
 			if ( lb_new == 0 )
-- 
2.43.0


From 7a268435aa19b9afd8196f371d4fb8023caec480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:12 +0000
Subject: [PATCH 005/134] fix: keep constraint types, limits and products up to
 date when hotstarting

Constraint limits that were all infinite at initialisation were ignored by
subsequent hotstarts, and omitted bound vectors were dereferenced when far
bounds are disabled.
---
 src/QProblem.cpp | 54 +++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 1ee2b6d..d6705f1 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1864,15 +1864,16 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 {
 	int_t i;
 	int_t nV = getNV( );
+	int_t nC = getNC( );
 
 	returnValue returnvalue;
 
-	if ( QProblemB::setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
+	if ( setupSubjectToType( lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_SETUPSUBJECTTOTYPE_FAILED );
 
 	for ( i=0; i<nV; i++ )
 	{
-		if ( lb_new[i] <= -INFTY && bounds.getStatus(i) == ST_LOWER )
+		if ( ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) ) && bounds.getStatus(i) == ST_LOWER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1880,7 +1881,7 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( ub_new[i] >= INFTY && bounds.getStatus(i) == ST_UPPER )
+		if ( ( ( ub_new == 0 ) || ( ub_new[i] >= INFTY ) ) && bounds.getStatus(i) == ST_UPPER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -1888,12 +1889,12 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( lb_new[i] > -INFTY && lb[i] <= -INFTY )
+		if ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) && ( lb[i] <= -INFTY ) )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			lb[i] = x[i] - options.boundRelaxation;
 		}
-		if ( ub_new[i] < INFTY && ub[i] >= INFTY )
+		if ( ( ub_new != 0 ) && ( ub_new[i] < INFTY ) && ( ub[i] >= INFTY ) )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			ub[i] = x[i] + options.boundRelaxation;
@@ -1923,7 +1924,21 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 	}
 
 
-	// AW TODO: We could also implement something here for the constraints
+	for ( i=0; i<nC; i++ )
+	{
+		if ( ( lbA_new != 0 ) && ( lbA_new[i] > -INFTY ) && ( lbA[i] <= -INFTY ) )
+		{
+			/* Now a lower limit has become finite.  To avoid numerical issues, adjust lbA */
+			lbA[i] = Ax[i] - options.boundRelaxation;
+			Ax_l[i] = options.boundRelaxation;
+		}
+		if ( ( ubA_new != 0 ) && ( ubA_new[i] < INFTY ) && ( ubA[i] >= INFTY ) )
+		{
+			/* Now an upper limit has become finite.  To avoid numerical issues, adjust ubA */
+			ubA[i] = Ax[i] + options.boundRelaxation;
+			Ax_u[i] = options.boundRelaxation;
+		}
+	}
 
 	return SUCCESSFUL_RETURN;
 }
@@ -5092,14 +5107,11 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 		{
 			ii = IAC_idx[i];
 
-			if ( constraints.getType( ii ) != ST_UNBOUNDED )
+			if ( (*constraintProduct)( ii,delta_x, &(delta_Ax[ii]) ) != 0 )
 			{
-				if ( (*constraintProduct)( ii,delta_x, &(delta_Ax[ii]) ) != 0 )
-				{
-					delete[] den; delete[] num;
-					delete[] delta_Ax; delete[] delta_Ax_u; delete[] delta_Ax_l; delete[] delta_x;
-					return THROWERROR( RET_ERROR_IN_CONSTRAINTPRODUCT );
-				}
+				delete[] den; delete[] num;
+				delete[] delta_Ax; delete[] delta_Ax_u; delete[] delta_Ax_l; delete[] delta_x;
+				return THROWERROR( RET_ERROR_IN_CONSTRAINTPRODUCT );
 			}
 		}
 	}
@@ -5147,11 +5159,8 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 	{
 		ii = IAC_idx[i];
 
-		if ( constraints.getType( ii ) != ST_UNBOUNDED )
-		{
-			delta_Ax_l[ii] = delta_Ax[ii] - delta_lbA[ii];
-			delta_Ax_u[ii] = delta_ubA[ii] - delta_Ax[ii];
-		}
+		delta_Ax_l[ii] = delta_Ax[ii] - delta_lbA[ii];
+		delta_Ax_u[ii] = delta_ubA[ii] - delta_Ax[ii];
 	}
 
 
@@ -5261,12 +5270,9 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 		for( i=0; i<nIAC; ++i )
 		{
 			ii = IAC_idx[i];
-			if ( constraints.getType( ii ) != ST_UNBOUNDED )
-			{
-				Ax[ii]   += tau*delta_Ax[ii];
-				Ax_l[ii] += tau*delta_Ax_l[ii];
-				Ax_u[ii] += tau*delta_Ax_u[ii];
-			}
+			Ax[ii]   += tau*delta_Ax[ii];
+			Ax_l[ii] += tau*delta_Ax_l[ii];
+			Ax_u[ii] += tau*delta_Ax_u[ii];
 		}
 	}
 	else
-- 
2.43.0


From 5e525f4ff9568b5d9ab8e1603fdc2163b6e7d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 006/134] fix: give former equalities a limit matching their
 multiplier when hotstarting

Multipliers of equalities may have any sign. When such a bound or constraint
became an inequality in a hotstart (enableEqualities), the working set kept a
limit contradicting the multiplier and wrong solutions were returned.
---
 src/QProblem.cpp  | 24 ++++++++++++++++++++++++
 src/QProblemB.cpp | 15 ++++++++++++++-
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d6705f1..20a2ce7 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1871,6 +1871,30 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 	if ( setupSubjectToType( lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_SETUPSUBJECTTOTYPE_FAILED );
 
+	/* Former equalities may have multipliers of any sign: if they have become
+	 * inequalities now, choose the limit that matches the sign. */
+	for ( i=0; i<nV; i++ )
+	{
+		if ( ( bounds.getType(i) != ST_EQUALITY ) && ( lb[i] > ub[i] - options.boundTolerance ) )
+		{
+			if ( ( bounds.getStatus(i) == ST_LOWER ) && ( y[i] < 0.0 ) )
+				bounds.setStatus( i,ST_UPPER );
+			else if ( ( bounds.getStatus(i) == ST_UPPER ) && ( y[i] > 0.0 ) )
+				bounds.setStatus( i,ST_LOWER );
+		}
+	}
+
+	for ( i=0; i<nC; i++ )
+	{
+		if ( ( constraints.getType(i) != ST_EQUALITY ) && ( lbA[i] > ubA[i] - options.boundTolerance ) )
+		{
+			if ( ( constraints.getStatus(i) == ST_LOWER ) && ( y[nV+i] < 0.0 ) )
+				constraints.setStatus( i,ST_UPPER );
+			else if ( ( constraints.getStatus(i) == ST_UPPER ) && ( y[nV+i] > 0.0 ) )
+				constraints.setStatus( i,ST_LOWER );
+		}
+	}
+
 	for ( i=0; i<nV; i++ )
 	{
 		if ( ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) ) && bounds.getStatus(i) == ST_LOWER )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 637781c..4c90edd 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2410,7 +2410,7 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 								BooleanType isFirstCall
 								)
 {
-	int_t iter;
+	int_t i, iter;
 	int_t nV  = getNV( );
 
 	/* consistency check */
@@ -2455,6 +2455,19 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	if ( setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_HOTSTART_FAILED );
 
+	/* Former equalities may have multipliers of any sign: if they have become
+	 * inequalities now, choose the limit that matches the sign. */
+	for ( i=0; i<nV; i++ )
+	{
+		if ( ( bounds.getType(i) != ST_EQUALITY ) && ( lb[i] > ub[i] - options.boundTolerance ) )
+		{
+			if ( ( bounds.getStatus(i) == ST_LOWER ) && ( y[i] < 0.0 ) )
+				bounds.setStatus( i,ST_UPPER );
+			else if ( ( bounds.getStatus(i) == ST_UPPER ) && ( y[i] > 0.0 ) )
+				bounds.setStatus( i,ST_LOWER );
+		}
+	}
+
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
-- 
2.43.0


From 2b55ee8f6265d2bcbb4fe8dd88466a67ae4303e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 007/134] fix: do not skip inactive equalities in the primal
 ratio test

Only active equalities may be left out; an equality that is not part of the
working set was ignored and could be violated by the returned solution.
---
 src/QProblemB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 4c90edd..586992c 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2081,7 +2081,7 @@ returnValue QProblemB::performRatioTest(	int_t nIdx,
 	{
 		ii = idxList[i];
 
-		if ( subjectTo->getType( ii ) != ST_EQUALITY )
+		if ( ( subjectTo->getType( ii ) != ST_EQUALITY ) || ( subjectTo->getStatus( ii ) == ST_INACTIVE ) )
 		{
 			if ( ( subjectTo->getStatus( ii ) == ST_LOWER ) || ( subjectTo->getStatus( ii ) == ST_INACTIVE ) )
 			{
-- 
2.43.0


From 1f9e35cbc6fb42e6beef92262565f612ec4b20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 008/134] fix: use multipliers with valid signs for working
 sets guessed in a hotstart

A limit moved to the other side by the guess kept its old multiplier, so the
homotopy started from a non-optimal point and wrong solutions were returned.
---
 src/QProblem.cpp  | 11 ++++++++++-
 src/QProblemB.cpp |  7 ++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 20a2ce7..5cde789 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5748,14 +5748,23 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds and inactive constraints. */
+	/* 1) Ensure that dual variable is zero for free bounds and inactive constraints
+	 *    and has a sign that is valid for the respective active limit otherwise. */
 	for ( i=0; i<nV; ++i )
+	{
 		if ( bounds.getStatus( i ) == ST_INACTIVE )
 			y[i] = 0.0;
+		else if ( bounds.getType( i ) != ST_EQUALITY )
+			y[i] = ( bounds.getStatus( i ) == ST_LOWER ) ? getMax( y[i],0.0 ) : getMin( y[i],0.0 );
+	}
 
 	for ( i=0; i<nC; ++i )
+	{
 		if ( constraints.getStatus( i ) == ST_INACTIVE )
 			y[nV+i] = 0.0;
+		else if ( constraints.getType( i ) != ST_EQUALITY )
+			y[nV+i] = ( constraints.getStatus( i ) == ST_LOWER ) ? getMax( y[nV+i],0.0 ) : getMin( y[nV+i],0.0 );
+	}
 
 	/* 2) Setup gradient and (constraints') bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 586992c..2e05b95 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3033,10 +3033,15 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds. */
+	/* 1) Ensure that dual variable is zero for free bounds
+	 *    and has a sign that is valid for the respective fixed bound otherwise. */
 	for ( i=0; i<nV; ++i )
+	{
 		if ( bounds.getStatus( i ) == ST_INACTIVE )
 			y[i] = 0.0;
+		else if ( bounds.getType( i ) != ST_EQUALITY )
+			y[i] = ( bounds.getStatus( i ) == ST_LOWER ) ? getMax( y[i],0.0 ) : getMin( y[i],0.0 );
+	}
 
 	/* 2) Setup gradient and bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-- 
2.43.0


From 7da3b46c0339bccfb716b6064d83627cc059b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 009/134] fix: do not treat a guess as trivial while
 constraints are still active

The shortcut for working sets consisting of bounds only moved variables to
their bounds without removing the active constraints first.
---
 src/QProblem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 5cde789..80efa07 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2427,6 +2427,8 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 	}
 
 	/* Check for trivial working set (all and only bounds active) */
+	if ( getNAC( ) > 0 )
+		WSisTrivial = BT_FALSE;
 	for (i = 0; i < nV; i++)
 		if (auxiliaryBounds->getStatus(i) == ST_INACTIVE)
 		{
-- 
2.43.0


From 39f1ee6555ec1ca39827a0312fe5e15b1ea932a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 010/134] fix: update Cholesky factor when a guessed working
 set differs only slightly

QProblemB::setupAuxiliaryQP without refactorisation changed the free variables
but left R as it was, giving wrong solutions afterwards.
---
 src/QProblemB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 2e05b95..5bce9ef 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3520,7 +3520,7 @@ returnValue QProblemB::addBound(	int_t number, SubjectToStatus B_status,
 	}
 
 	/* Perform cholesky updates only if QProblemB has been initialised! */
-	if ( getStatus( ) == QPS_PREPARINGAUXILIARYQP )
+	if ( ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) && ( updateCholesky == BT_FALSE ) )
 	{
 		/* UPDATE INDICES */
 		if ( bounds.moveFreeToFixed( number,B_status ) != SUCCESSFUL_RETURN )
@@ -3599,7 +3599,7 @@ returnValue QProblemB::removeBound(	int_t number,
 		return THROWERROR( RET_REMOVEBOUND_FAILED );
 
 	/* Perform cholesky updates only if QProblemB has been initialised! */
-	if ( getStatus( ) == QPS_PREPARINGAUXILIARYQP )
+	if ( ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) && ( updateCholesky == BT_FALSE ) )
 		return SUCCESSFUL_RETURN;
 
 
-- 
2.43.0


From fe8945a540de161c0696e1f4ff48d6c6d7b00475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 011/134] fix: drop active constraints whose limit becomes
 infinite in a hotstart

As already done for bounds: following such a limit to infinity along the
homotopy destroyed all precision (far bounds disabled).
---
 src/QProblem.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 80efa07..89b76b8 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1950,6 +1950,15 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 
 	for ( i=0; i<nC; i++ )
 	{
+		if ( ( ( ( lbA_new == 0 ) || ( lbA_new[i] <= -INFTY ) ) && ( constraints.getStatus(i) == ST_LOWER ) ) ||
+			 ( ( ( ubA_new == 0 ) || ( ubA_new[i] >=  INFTY ) ) && ( constraints.getStatus(i) == ST_UPPER ) ) )
+		{
+			returnvalue = removeConstraint( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
+			if ( returnvalue != SUCCESSFUL_RETURN )
+				return returnvalue;
+			y[nV+i] = 0.0;
+			setupAuxiliaryQPgradient( );
+		}
 		if ( ( lbA_new != 0 ) && ( lbA_new[i] > -INFTY ) && ( lbA[i] <= -INFTY ) )
 		{
 			/* Now a lower limit has become finite.  To avoid numerical issues, adjust lbA */
-- 
2.43.0


From 355c244d9049a5c6e5abbbed04c68f7d2b38d34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:18 +0000
Subject: [PATCH 012/134] fix: remove active bounds that become infinite in a
 QProblemB hotstart

---
 src/QProblemB.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 5bce9ef..46c5bc1 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2468,6 +2468,33 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 		}
 	}
 
+	/* Remove bounds that have been active but become infinite now and adjust
+	 * formerly infinite bounds that become finite to avoid numerical issues. */
+	status = QPS_PERFORMINGHOMOTOPY;
+
+	for ( i=0; i<nV; i++ )
+	{
+		if ( ( ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) ) && ( bounds.getStatus(i) == ST_LOWER ) ) ||
+			 ( ( ( ub_new == 0 ) || ( ub_new[i] >=  INFTY ) ) && ( bounds.getStatus(i) == ST_UPPER ) ) )
+		{
+			returnvalue = removeBound( i,BT_TRUE );
+			if ( returnvalue != SUCCESSFUL_RETURN )
+			{
+				delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
+				delete[] delta_ub; delete[] delta_lb; delete[] delta_g;
+
+				THROWERROR( RET_HOTSTART_FAILED );
+				return returnvalue;
+			}
+			g[i] -= y[i];
+			y[i] = 0.0;
+		}
+		if ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) && ( lb[i] <= -INFTY ) )
+			lb[i] = x[i] - options.boundRelaxation;
+		if ( ( ub_new != 0 ) && ( ub_new[i] < INFTY ) && ( ub[i] >= INFTY ) )
+			ub[i] = x[i] + options.boundRelaxation;
+	}
+
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
-- 
2.43.0


From d057600020989959d1563f5be0826f3204263e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 013/134] fix: continue homotopy after full step without
 working set change in QProblemB

---
 src/QProblemB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 46c5bc1..3adad4e 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3407,7 +3407,7 @@ returnValue QProblemB::changeActiveSet( int_t BC_idx, SubjectToStatus BC_status
 	{
 		/* Optimal solution found as no working set change detected. */
 		case ST_UNDEFINED:
-			return RET_OPTIMAL_SOLUTION_FOUND;
+			return SUCCESSFUL_RETURN;
 
 
 		/* Remove one variable from active set. */
-- 
2.43.0


From 9f09b2e5ed4bee11e14ebc2528427819f347f8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:41 +0000
Subject: [PATCH 014/134] fix: do not shift inactive limits over infinite
 distances when hotstarting

---
 src/QProblem.cpp  | 26 +++++++++++++++++++++-----
 src/QProblemB.cpp | 10 ++++++++--
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 89b76b8..6da1f3d 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1913,14 +1913,19 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) && ( lb[i] <= -INFTY ) )
+		/* Never shift an inactive bound over a (nearly) infinite distance. */
+		if ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) )
+			lb[i] = -INFTY;
+		else if ( lb[i] <= -1.0e-6*INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			lb[i] = x[i] - options.boundRelaxation;
 		}
-		if ( ( ub_new != 0 ) && ( ub_new[i] < INFTY ) && ( ub[i] >= INFTY ) )
+		if ( ( ub_new == 0 ) || ( ub_new[i] >= INFTY ) )
+			ub[i] = INFTY;
+		else if ( ub[i] >= 1.0e-6*INFTY )
 		{
-			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
+			/* Now an upper bound has become finite.  To avoid numerical issues, adjust ub */
 			ub[i] = x[i] + options.boundRelaxation;
 		}
 	}
@@ -1959,13 +1964,24 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			y[nV+i] = 0.0;
 			setupAuxiliaryQPgradient( );
 		}
-		if ( ( lbA_new != 0 ) && ( lbA_new[i] > -INFTY ) && ( lbA[i] <= -INFTY ) )
+		/* Never shift an inactive limit over a (nearly) infinite distance. */
+		if ( ( lbA_new == 0 ) || ( lbA_new[i] <= -INFTY ) )
+		{
+			lbA[i] = -INFTY;
+			Ax_l[i] = Ax[i] - lbA[i];
+		}
+		else if ( lbA[i] <= -1.0e-6*INFTY )
 		{
 			/* Now a lower limit has become finite.  To avoid numerical issues, adjust lbA */
 			lbA[i] = Ax[i] - options.boundRelaxation;
 			Ax_l[i] = options.boundRelaxation;
 		}
-		if ( ( ubA_new != 0 ) && ( ubA_new[i] < INFTY ) && ( ubA[i] >= INFTY ) )
+		if ( ( ubA_new == 0 ) || ( ubA_new[i] >= INFTY ) )
+		{
+			ubA[i] = INFTY;
+			Ax_u[i] = ubA[i] - Ax[i];
+		}
+		else if ( ubA[i] >= 1.0e-6*INFTY )
 		{
 			/* Now an upper limit has become finite.  To avoid numerical issues, adjust ubA */
 			ubA[i] = Ax[i] + options.boundRelaxation;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3adad4e..bc35a91 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2489,9 +2489,15 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( ( lb_new != 0 ) && ( lb_new[i] > -INFTY ) && ( lb[i] <= -INFTY ) )
+		/* Never shift an inactive bound over a (nearly) infinite distance. */
+		if ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) )
+			lb[i] = -INFTY;
+		else if ( lb[i] <= -1.0e-6*INFTY )
 			lb[i] = x[i] - options.boundRelaxation;
-		if ( ( ub_new != 0 ) && ( ub_new[i] < INFTY ) && ( ub[i] >= INFTY ) )
+
+		if ( ( ub_new == 0 ) || ( ub_new[i] >= INFTY ) )
+			ub[i] = INFTY;
+		else if ( ub[i] >= 1.0e-6*INFTY )
 			ub[i] = x[i] + options.boundRelaxation;
 	}
 
-- 
2.43.0


From ad042f54bed9afe30e2507a85be50e930a5a93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 015/134] fix: hotstart with inconsistent bounds must not
 report success

---
 src/QProblem.cpp  | 12 +++++++++++-
 src/QProblemB.cpp | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 6da1f3d..3b4b983 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -486,7 +486,17 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds and constraints. */
 	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+	{
+		/* the object still holds the solution of the previous QP, but not of this one */
+		if ( status == QPS_SOLVED )
+			status = QPS_HOMOTOPYQPSOLVED;
+
+		nWSR = 0;
+		if ( cputime != 0 )
+			*cputime = auxTime;
+
+		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
+	}
 
 	++count;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index bc35a91..ce3817c 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -450,7 +450,17 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds */
 	if ( areBoundsConsistent( lb_new,ub_new ) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+	{
+		/* the object still holds the solution of the previous QP, but not of this one */
+		if ( status == QPS_SOLVED )
+			status = QPS_HOMOTOPYQPSOLVED;
+
+		nWSR = 0;
+		if ( cputime != 0 )
+			*cputime = auxTime;
+
+		return setInfeasibilityFlag( RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE );
+	}
 
 	++count;
 
-- 
2.43.0


From ac53118f800ffb30c8842c22e2cfa9816bdad785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 016/134] fix: do not limit CPU time of far bound passes if no
 time limit is given

---
 src/QProblemB.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index ce3817c..ba90aa3 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -468,7 +468,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	int_t nWSR_max = nWSR;
 	int_t nWSR_performed = 0;
 
-	real_t cputime_remaining = INFTY;
+	real_t cputime_remaining = INFTY, *pcputime_rem;
 	real_t cputime_needed = 0.0;
 
 	real_t farbound = options.initialFarBounds;
@@ -511,11 +511,16 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		{
 			nWSR = nWSR_max;
 			if ( cputime != 0 )
+			{
 				cputime_remaining = *cputime - cputime_needed;
+				pcputime_rem = &cputime_remaining;
+			}
+			else
+				pcputime_rem = 0;
 
 			/* Automatically call standard solveQP if regularisation is not active. */
 			returnvalue = solveRegularisedQP(	g_new,lb_new_far,ub_new_far,
-												nWSR,&cputime_remaining,nWSR_performed,
+												nWSR,pcputime_rem,nWSR_performed,
 												isFirstCall
 												);
 
-- 
2.43.0


From 2e1b6a89aa1119ff86a245782a9423499560b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 017/134] fix: report unboundedness if far bounds are left only
 due to regularisation

---
 include/qpOASES/QProblemB.hpp |  6 ++++++
 src/QProblem.cpp              | 11 +++++++++++
 src/QProblemB.cpp             | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 41eeb9f..619b59f 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -727,6 +727,12 @@ class QProblemB
                                         real_t* const ub_new_far			/**< ... */
                                         ) const;
 
+		/** Determines whether the current solution is governed by the regularisation
+		 *  of the Hessian instead of the actual objective function.
+		 *  \return BT_TRUE iff regularisation term is not negligible compared to the gradient */
+		BooleanType isRegularisationPrevailing(	const real_t* const g_new		/**< Gradient of current QP. */
+												) const;
+
 
 		/** Performs robustified ratio test yield the maximum possible step length
 		 *  along the homotopy path.
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 3b4b983..7524f2c 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -519,6 +519,7 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	}
 
 	BooleanType isFirstCall = BT_TRUE;
+	BooleanType isFarBoundMoved = BT_FALSE;
 
 	if ( options.enableFarBounds == BT_FALSE )
 	{
@@ -612,8 +613,18 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 				}
 
 				if ( nActiveFar == 0 )
+				{
+					/* far bounds that are left only due to the regularisation indicate unboundedness */
+					if ( ( isFarBoundMoved == BT_TRUE ) && ( isRegularisationPrevailing( g_new ) == BT_TRUE ) )
+					{
+						status = QPS_HOMOTOPYQPSOLVED;
+						unbounded = BT_TRUE;
+						returnvalue = RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
+					}
 					break;
+				}
 
+				isFarBoundMoved = BT_TRUE;
 				status = QPS_HOMOTOPYQPSOLVED;
 
 				if ( farbound >= INFTY )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index ba90aa3..13e80df 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -481,6 +481,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	}
 
 	BooleanType isFirstCall = BT_TRUE;
+	BooleanType isFarBoundMoved = BT_FALSE;
 
 	if ( options.enableFarBounds == BT_FALSE )
 	{
@@ -557,8 +558,18 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 				}
 
 				if ( nActiveFar == 0 )
+				{
+					/* far bounds that are left only due to the regularisation indicate unboundedness */
+					if ( ( isFarBoundMoved == BT_TRUE ) && ( isRegularisationPrevailing( g_new ) == BT_TRUE ) )
+					{
+						status = QPS_HOMOTOPYQPSOLVED;
+						unbounded = BT_TRUE;
+						returnvalue = RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
+					}
 					break;
+				}
 
+				isFarBoundMoved = BT_TRUE;
 				status = QPS_HOMOTOPYQPSOLVED;
 
 				if ( farbound >= INFTY )
@@ -2172,6 +2183,29 @@ real_t QProblemB::getRelativeHomotopyLength(	const real_t* const g_new, const re
 }
 
 
+/*
+ *	i s R e g u l a r i s a t i o n P r e v a i l i n g
+ */
+BooleanType QProblemB::isRegularisationPrevailing( const real_t* const g_new ) const
+{
+	int_t i;
+	int_t nV = getNV( );
+	real_t maxReg = 0.0;
+	real_t maxG = 0.0;
+
+	if ( usingRegularisation( ) == BT_FALSE )
+		return BT_FALSE;
+
+	for( i=0; i<nV; ++i )
+	{
+		maxReg = getMax( maxReg,getAbs( regVal*x[i] ) );
+		maxG   = getMax( maxG,getAbs( g_new[i] ) );
+	}
+
+	return ( maxReg > 1.0e-3*maxG ) ? BT_TRUE : BT_FALSE;
+}
+
+
 /*
  * p e r f o r m R a m p i n g
  */
-- 
2.43.0


From 6cff0548b4df749b63d82f6082a3a31d56ce6598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 018/134] fix: stop moving far bounds once the regularisation
 prevails

---
 src/QProblem.cpp  | 22 ++++++++++------------
 src/QProblemB.cpp | 24 +++++++++++-------------
 2 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 7524f2c..911a4e8 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -520,6 +520,7 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	BooleanType isFirstCall = BT_TRUE;
 	BooleanType isFarBoundMoved = BT_FALSE;
+	BooleanType isRegPrevailing = BT_FALSE;
 
 	if ( options.enableFarBounds == BT_FALSE )
 	{
@@ -612,22 +613,19 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 						++nActiveFar;
 				}
 
-				if ( nActiveFar == 0 )
-				{
-					/* far bounds that are left only due to the regularisation indicate unboundedness */
-					if ( ( isFarBoundMoved == BT_TRUE ) && ( isRegularisationPrevailing( g_new ) == BT_TRUE ) )
-					{
-						status = QPS_HOMOTOPYQPSOLVED;
-						unbounded = BT_TRUE;
-						returnvalue = RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
-					}
+				if ( nActiveFar > 0 )
+					isFarBoundMoved = BT_TRUE;
+
+				/* far bounds that are left only due to the regularisation also indicate unboundedness */
+				if ( isFarBoundMoved == BT_TRUE )
+					isRegPrevailing = isRegularisationPrevailing( g_new );
+
+				if ( ( nActiveFar == 0 ) && ( isRegPrevailing == BT_FALSE ) )
 					break;
-				}
 
-				isFarBoundMoved = BT_TRUE;
 				status = QPS_HOMOTOPYQPSOLVED;
 
-				if ( farbound >= INFTY )
+				if ( ( farbound >= INFTY ) || ( isRegPrevailing == BT_TRUE ) )
 				{
 					unbounded = BT_TRUE;
 					returnvalue = RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 13e80df..1490bb2 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -482,6 +482,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	BooleanType isFirstCall = BT_TRUE;
 	BooleanType isFarBoundMoved = BT_FALSE;
+	BooleanType isRegPrevailing = BT_FALSE;
 
 	if ( options.enableFarBounds == BT_FALSE )
 	{
@@ -557,22 +558,19 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 						++nActiveFar;
 				}
 
-				if ( nActiveFar == 0 )
-				{
-					/* far bounds that are left only due to the regularisation indicate unboundedness */
-					if ( ( isFarBoundMoved == BT_TRUE ) && ( isRegularisationPrevailing( g_new ) == BT_TRUE ) )
-					{
-						status = QPS_HOMOTOPYQPSOLVED;
-						unbounded = BT_TRUE;
-						returnvalue = RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
-					}
+				if ( nActiveFar > 0 )
+					isFarBoundMoved = BT_TRUE;
+
+				/* far bounds that are left only due to the regularisation also indicate unboundedness */
+				if ( isFarBoundMoved == BT_TRUE )
+					isRegPrevailing = isRegularisationPrevailing( g_new );
+
+				if ( ( nActiveFar == 0 ) && ( isRegPrevailing == BT_FALSE ) )
 					break;
-				}
 
-				isFarBoundMoved = BT_TRUE;
 				status = QPS_HOMOTOPYQPSOLVED;
 
-				if ( farbound >= INFTY )
+				if ( ( farbound >= INFTY ) || ( isRegPrevailing == BT_TRUE ) )
 				{
 					unbounded = BT_TRUE;
 					returnvalue = RET_HOTSTART_STOPPED_UNBOUNDEDNESS;
@@ -2202,7 +2200,7 @@ BooleanType QProblemB::isRegularisationPrevailing( const real_t* const g_new ) c
 		maxG   = getMax( maxG,getAbs( g_new[i] ) );
 	}
 
-	return ( maxReg > 1.0e-3*maxG ) ? BT_TRUE : BT_FALSE;
+	return ( maxReg > 1.0e-2*maxG ) ? BT_TRUE : BT_FALSE;
 }
 
 
-- 
2.43.0


From 1d67723acd562fc4ee8d0a54918ee885fc85b24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 019/134] fix: respect the leading dimension in all operations
 of dense matrices

---
 src/Matrices.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index d41881f..6e7521a 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -117,14 +117,12 @@ Matrix *DenseMatrix::duplicate( ) const
 
 	if ( needToFreeMemory( ) == BT_TRUE )
 	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
-		dupl = new DenseMatrix(nRows, nCols, nCols, val_new);
+		dupl = new DenseMatrix(nRows, nCols, nCols, full( ));
 		dupl->doFreeMemory( );
 	}
 	else
 	{
-		dupl = new DenseMatrix(nRows, nCols, nCols, val);
+		dupl = new DenseMatrix(nRows, nCols, leaDim, val);
 	}
 
 	return dupl;
@@ -155,7 +153,14 @@ BooleanType DenseMatrix::isDiag( ) const
 real_t DenseMatrix::getNorm(	int_t type
 								) const
 {
-	return REFER_NAMESPACE_QPOASES getNorm( val,nCols*nRows,type );
+	if ( leaDim == nCols )
+		return REFER_NAMESPACE_QPOASES getNorm( val,nCols*nRows,type );
+
+	real_t* tmp = full( );
+	real_t norm = REFER_NAMESPACE_QPOASES getNorm( tmp,nCols*nRows,type );
+	delete[] tmp;
+
+	return norm;
 }
 
 
@@ -306,7 +311,7 @@ returnValue DenseMatrix::times(	int_t xN, real_t alpha, const real_t* x, int_t x
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -320,7 +325,7 @@ returnValue DenseMatrix::transTimes( int_t xN, real_t alpha, const real_t* x, in
 	la_uint_t _xN     = (la_uint_t)xN;
 	la_uint_t _nRows  = (la_uint_t)nRows;
 	la_uint_t _nCols  = (la_uint_t)nCols;
-	la_uint_t _leaDim = (la_uint_t)getMax(1,nCols);
+	la_uint_t _leaDim = (la_uint_t)getMax(1,leaDim);
 	la_uint_t _xLD    = (la_uint_t)getMax(1,xLD);
 	la_uint_t _yLD    = (la_uint_t)getMax(1,yLD);
 
@@ -588,14 +593,19 @@ returnValue DenseMatrix::writeToFile( FILE* output_file, const char* prefix ) co
 real_t* DenseMatrix::full() const
 {
 	real_t* v = new real_t[nRows*nCols];
-	memcpy( v,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+	for ( int_t i=0; i<nRows; ++i )
+		memcpy( &(v[i*nCols]),&(val[i*leaDim]), ((uint_t)nCols)*sizeof(real_t) );
 	return v;
 }
 
 
 returnValue DenseMatrix::print( const char* name ) const
 {
-	return REFER_NAMESPACE_QPOASES print( val,nRows,nCols,name );
+	real_t* tmp = full( );
+	returnValue retVal = REFER_NAMESPACE_QPOASES print( tmp,nRows,nCols,name );
+	delete[] tmp;
+
+	return retVal;
 }
 
 
@@ -613,14 +623,12 @@ SymmetricMatrix *SymDenseMat::duplicateSym( ) const
 
 	if ( needToFreeMemory( ) == BT_TRUE )
 	{
-		real_t* val_new = new real_t[nRows*nCols];
-		memcpy( val_new,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
-		dupl = new SymDenseMat(nRows, nCols, nCols, val_new);
+		dupl = new SymDenseMat(nRows, nCols, nCols, full( ));
 		dupl->doFreeMemory( );
 	}
 	else
 	{
-		dupl = new SymDenseMat(nRows, nCols, nCols, val);
+		dupl = new SymDenseMat(nRows, nCols, leaDim, val);
 	}
 
 	return dupl;
-- 
2.43.0


From 247612db56c90d30da6991c518935a7535f0298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 020/134] fix: sparse and dense matrix products with
 uncompressed result vectors

---
 src/Matrices.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 6e7521a..69a31b6 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -436,7 +436,7 @@ returnValue DenseMatrix::times(	const Indexlist* const irows, const Indexlist* c
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
@@ -1282,15 +1282,15 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 		else if (isEqual( beta, 1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+y[j+k*yLD];
+					y[irows->number[j]+k*yLD] += alpha*ytmp[irows->number[j]+k*yfullLength];
 		else if (isEqual( beta, -1.0 ) == BT_TRUE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]-y[irows->number[j]+k*yLD];
 		else if (isEqual( beta, 1.0 ) == BT_FALSE)
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = alpha*ytmp[irows->number[j]+k*yfullLength]+beta*y[irows->number[j]+k*yLD];
 	}
 
 	delete [] ytmp;
@@ -1887,7 +1887,7 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 		else if ( isEqual(beta,-1.0) == BT_TRUE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
-					y[irows->number[j]+k*yLD] = -y[j+k*yLD];
+					y[irows->number[j]+k*yLD] = -y[irows->number[j]+k*yLD];
 		else if ( isEqual(beta,1.0) == BT_FALSE )
 			for (k = 0; k < xN; k++)
 				for (j = 0; j < irows->length; j++)
@@ -1922,10 +1922,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			if ( isEqual(alpha,1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1938,10 +1938,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else if ( isEqual(alpha,-1.0) == BT_TRUE )
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
@@ -1954,10 +1954,10 @@ returnValue SparseMatrixRow::times( const Indexlist* const irows, const Indexlis
 			else
 				for (l = 0; l < irows->length; l++)
 				{
-					row = irows->iSort[l];
-					j = jr[irows->number[row]];
+					row = irows->number[irows->iSort[l]];
+					j = jr[row];
 					i = 0;
-					while (j < jr[irows->number[row]+1] && i < icols->length)
+					while (j < jr[row+1] && i < icols->length)
 						if (ic[j] == icols->number[icols->iSort[i]])
 						{
 							for (k = 0; k < xN; k++)
-- 
2.43.0


From 0f8b756647411793b18c35e4deed49c7ef2d4e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 021/134] fix: one-norms of the rows of sparse matrices

---
 src/Matrices.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 69a31b6..68d5269 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -858,9 +858,7 @@ returnValue SparseMatrix::getRowNorm( real_t* norm, int_t type ) const
 			break;
 		case 1:
 			for ( j=0; j < nCols; ++j ) {
-				// FIXME please add guarding or fix indent for "for loop" to
-				//       remove compile warnings
-				for (i = jc[j]; i < jc[j+1]; i++);
+				for (i = jc[j]; i < jc[j+1]; i++)
 				  norm[ir[i]] += getAbs( val[i] );
 			}
 			break;
-- 
2.43.0


From 09677e5c57e309b06783f7328b4358ad308c4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 022/134] fix: scaled full rows and columns of sparse matrices

---
 src/Matrices.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 68d5269..9d6d00a 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -906,13 +906,13 @@ returnValue SparseMatrix::getRow( int_t rNum, const Indexlist* const icols, real
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < icols->length; j++)
+			for (j = 0; j < nCols; j++)
 			{
 				for (i = jc[j]; i < jc[j+1] && ir[i] < rNum; i++);
 				row[j] = (i < jc[j+1] && ir[i] == rNum) ? alpha*val[i] : 0.0;
@@ -1666,19 +1666,19 @@ returnValue SparseMatrixRow::getCol( int_t cNum, const Indexlist* const irows, r
 	else
 	{
 		if ( isEqual(alpha,1.0) == BT_TRUE )
-			for (j = 0; j < nCols; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? val[i] : 0.0;
 			}
 		else if ( isEqual(alpha,-1.0) == BT_TRUE )
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? -val[i] : 0.0;
 			}
 		else
-			for (j = 0; j < irows->length; j++)
+			for (j = 0; j < nRows; j++)
 			{
 				for (i = jr[j]; i < jr[j+1] && ic[i] < cNum; i++);
 				col[j] = (i < jr[j+1] && ic[i] == cNum) ? alpha*val[i] : 0.0;
-- 
2.43.0


From c8b18572a8400b4fea5874a267a884863beb105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 023/134] fix: use after free in sparse products with several
 full vectors

---
 src/Matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 9d6d00a..509fe74 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1247,8 +1247,8 @@ returnValue SparseMatrix::times( const Indexlist* const irows, const Indexlist*
 					for (i = jc[col]; i < jc[col+1]; i++)
 						for (k=0; k<xN; k++)
 							ytmp[k*yfullLength+ir[i]] += val[i] * xcols[k];
-				delete [] xcols;
 			}
+			delete [] xcols;
 		}
 	}
 
-- 
2.43.0


From 665247d2c16d73fb98a0e493c4d6526c8af7052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 024/134] fix: do not shift entries of other columns or rows if
 a diagonal entry is missing

---
 src/Matrices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 509fe74..b4345b1 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1356,7 +1356,7 @@ returnValue SparseMatrix::addToDiag( real_t alpha )
 	{
 		for (i = 0; i < nRows && i < nCols; i++)
 		{
-			if (ir[jd[i]] == i)
+			if ((jd[i] < jc[i+1]) && (ir[jd[i]] == i))
 				val[jd[i]] += alpha;
 			else
 				return RET_NO_DIAGONAL_AVAILABLE;
@@ -2056,7 +2056,7 @@ returnValue SparseMatrixRow::addToDiag( real_t alpha )
 	{
 		for (i = 0; i < nRows && i < nCols; i++)
 		{
-			if (ic[jd[i]] == i)
+			if ((jd[i] < jr[i+1]) && (ic[jd[i]] == i))
 				val[jd[i]] += alpha;
 			else
 				return RET_NO_DIAGONAL_AVAILABLE;
-- 
2.43.0


From e33a8404e781de49b2785906b296fd24c2b68e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 025/134] fix: duplicating sparse row matrices

---
 src/Matrices.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index b4345b1..e50f3cd 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -1494,14 +1494,14 @@ Matrix *SparseMatrixRow::duplicate( ) const
 	dupl->ic = new sparse_int_t[length];
 	dupl->val = new real_t[length];
 
-	for (i = 0; i < length; i++) dupl->jr[i] = jr[i];
-	for (i = 0; i <= nCols; i++) dupl->ic[i] = ic[i];
+	for (i = 0; i <= nRows; i++) dupl->jr[i] = jr[i];
+	for (i = 0; i < length; i++) dupl->ic[i] = ic[i];
 	for (i = 0; i < length; i++) dupl->val[i] = val[i];
 
 	if ( jd != 0 )
 	{
 		dupl->jd = new sparse_int_t[nRows];
-		for (i = 0; i < nCols; i++) dupl->jd[i] = jd[i];
+		for (i = 0; i < nRows; i++) dupl->jd[i] = jd[i];
 	}
 	else
 		dupl->jd = 0;
-- 
2.43.0


From 8775ec11799e6d9d219ee89ad65266282a93e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 026/134] fix: respect the leading dimension of the result of
 sparse bilinear forms

---
 src/Matrices.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index e50f3cd..79ec475 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -2160,8 +2160,9 @@ returnValue SymSparseMat::bilinear( const Indexlist* const icols,
 		return THROWERROR( RET_DIAGONAL_NOT_INITIALISED );
 
 	/* clear output */
-	for (i = 0; i < xN*xN; i++)
-		y[i] = 0.0;
+	for (i = 0; i < xN; i++)
+		for (j = 0; j < xN; j++)
+			y[i*yLD+j] = 0.0;
 
 	/* compute lower triangle */
 	for (l = 0; l < icols->length; l++)
-- 
2.43.0


From 80fb306a0d4cdff80b32bac2253175e54341fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:01 +0000
Subject: [PATCH 027/134] fix: memory leak when rejecting arguments of
 getSparseSubmatrix

---
 src/Matrices.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 79ec475..42acc6b 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -982,7 +982,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
@@ -1018,7 +1021,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
-- 
2.43.0


From 73b0a1253ff67f9469a65018c0783926b8a99f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 028/134] fix: copy dimensions of Flipper objects

---
 src/Flipper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flipper.cpp b/src/Flipper.cpp
index fc77d4e..8770668 100644
--- a/src/Flipper.cpp
+++ b/src/Flipper.cpp
@@ -238,6 +238,9 @@ returnValue Flipper::clear( )
 returnValue Flipper::copy(	const Flipper& rhs
 							)
 {
+	nV = rhs.nV;
+	nC = rhs.nC;
+
 	return set( &(rhs.bounds),rhs.R, &(rhs.constraints),rhs.Q,rhs.T );
 }
 
-- 
2.43.0


From 850b0375fbe966ba42072c1ab12db407b5f8acaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 029/134] fix: do not access index lists at negative positions

---
 src/Indexlist.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Indexlist.cpp b/src/Indexlist.cpp
index d6fb383..2d67e26 100644
--- a/src/Indexlist.cpp
+++ b/src/Indexlist.cpp
@@ -157,6 +157,9 @@ returnValue Indexlist::getISortArray( int_t** const iSortArray ) const
 int_t Indexlist::getIndex( int_t givennumber ) const
 {
 	int_t index = findInsert(givennumber);
+	if ( index < 0 )
+		return -1;
+
 	return number[iSort[index]] == givennumber ? iSort[index] : -1;
 }
 
@@ -188,6 +191,11 @@ returnValue Indexlist::removeNumber( int_t removenumber )
 {
 	int_t i;
 	int_t idx = findInsert( removenumber );
+
+	/* nothing to be done if number is smaller than all numbers in index set */
+	if ( idx < 0 )
+		return SUCCESSFUL_RETURN;
+
 	int_t iSidx = iSort[idx];
 
 	/* nothing to be done if number is not contained in index set */
@@ -220,6 +228,9 @@ returnValue Indexlist::swapNumbers( int_t number1, int_t number2 )
 	int_t index2 = findInsert( number2 );
 
 	/* consistency check */
+	if ( ( index1 < 0 ) || ( index2 < 0 ) )
+		return THROWERROR( RET_INDEXLIST_CORRUPTED );
+
 	if ( ( number[iSort[index1]] != number1 ) || ( number[iSort[index2]] != number2 ) )
 		return THROWERROR( RET_INDEXLIST_CORRUPTED );
 
-- 
2.43.0


From 9f5ef7137cd4368a0fbaced4d75d43267357e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 030/134] fix: reject moving bounds and constraints that are
 not in the expected index set

---
 src/Bounds.cpp      | 8 ++++++++
 src/Constraints.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/Bounds.cpp b/src/Bounds.cpp
index e10faed..fabde4c 100644
--- a/src/Bounds.cpp
+++ b/src/Bounds.cpp
@@ -190,6 +190,10 @@ returnValue Bounds::moveFixedToFree( int_t number )
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	/* Only bounds that are currently fixed can be moved. */
+	if ( ( getStatus( number ) == ST_INACTIVE ) || ( getStatus( number ) == ST_UNDEFINED ) )
+		return THROWERROR( RET_MOVING_BOUND_FAILED );
+
 	/* Move index from indexlist of fixed variables to that of free ones. */
 	if ( this->removeIndex( this->getFixed( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
@@ -211,6 +215,10 @@ returnValue Bounds::moveFreeToFixed(	int_t number, SubjectToStatus _status
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	/* Only bounds that are currently free can be moved. */
+	if ( ( getStatus( number ) != ST_INACTIVE ) || ( _status == ST_INACTIVE ) || ( _status == ST_UNDEFINED ) )
+		return THROWERROR( RET_MOVING_BOUND_FAILED );
+
 	/* Move index from indexlist of free variables to that of fixed ones. */
 	if ( this->removeIndex( this->getFree( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
diff --git a/src/Constraints.cpp b/src/Constraints.cpp
index bdf9759..c204d92 100644
--- a/src/Constraints.cpp
+++ b/src/Constraints.cpp
@@ -189,6 +189,10 @@ returnValue Constraints::moveActiveToInactive( int_t number )
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	/* Only constraints that are currently active can be moved. */
+	if ( ( getStatus( number ) == ST_INACTIVE ) || ( getStatus( number ) == ST_UNDEFINED ) )
+		return THROWERROR( RET_MOVING_BOUND_FAILED );
+
 	/* Move index from indexlist of active constraints to that of inactive ones. */
 	if ( this->removeIndex( this->getActive( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
@@ -210,6 +214,10 @@ returnValue Constraints::moveInactiveToActive(	int_t number, SubjectToStatus _st
 	if ( ( number < 0 ) || ( number >= n ) )
 		return THROWERROR( RET_INDEX_OUT_OF_BOUNDS );
 
+	/* Only constraints that are currently inactive can be moved. */
+	if ( ( getStatus( number ) != ST_INACTIVE ) || ( _status == ST_INACTIVE ) || ( _status == ST_UNDEFINED ) )
+		return THROWERROR( RET_MOVING_BOUND_FAILED );
+
 	/* Move index from indexlist of inactive constraints to that of active ones. */
 	if ( this->removeIndex( this->getInactive( ),number ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_MOVING_BOUND_FAILED );
-- 
2.43.0


From ea369de986c3340935c165bbdfc0d29b7ddb53ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 031/134] fix: keep infinite limits when normalising
 constraints

---
 src/Utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index f8e142d..393e19c 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -982,8 +982,8 @@ returnValue normaliseConstraints(	int_t nV, int_t nC,
 			for( jj=0; jj<nV; ++jj )
 				A[ii*nV + jj] /= curNorm;
 
-			if ( lbA != 0 ) lbA[ii] /= curNorm;
-			if ( ubA != 0 ) ubA[ii] /= curNorm;
+			if ( ( lbA != 0 ) && ( lbA[ii] > -INFTY ) ) lbA[ii] /= curNorm;
+			if ( ( ubA != 0 ) && ( ubA[ii] <  INFTY ) ) ubA[ii] /= curNorm;
 		}
 		else
 		{
-- 
2.43.0


From b4e76ec120c65452d2eb5936e13b65d90c87d2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 032/134] fix: do not read behind the last number of an index
 list

---
 include/qpOASES/Indexlist.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qpOASES/Indexlist.ipp b/include/qpOASES/Indexlist.ipp
index 178252f..f716a21 100644
--- a/include/qpOASES/Indexlist.ipp
+++ b/include/qpOASES/Indexlist.ipp
@@ -47,7 +47,7 @@ BEGIN_NAMESPACE_QPOASES
 inline int_t Indexlist::getNumber( int_t physicalindex ) const
 {
 	/* consistency check */
-	if ( ( physicalindex < 0 ) || ( physicalindex > length ) )
+	if ( ( physicalindex < 0 ) || ( physicalindex >= length ) )
 		return -RET_INDEXLIST_OUTOFBOUNDS;
 
 	return number[physicalindex];
-- 
2.43.0


From 1a3c43c41e77b8eaab6d420a1f2077fd28be51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 033/134] fix: keep a QP resumable if the iteration or CPU time
 limit stops the homotopy before its first iteration

---
 src/QProblem.cpp  | 4 ++++
 src/QProblemB.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 911a4e8..5c97dc4 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1743,6 +1743,10 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 	delete[] delta_yAC; delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
 	delete[] delta_ub; delete[] delta_lb; delete[] delta_ubA; delete[] delta_lbA; delete[] delta_g;
 
+	/* the current iterate solves an intermediate QP (also if no iteration has been
+	 * performed at all), thus solution may be continued by another hotstart */
+	status = QPS_HOMOTOPYQPSOLVED;
+
 	/* stop runtime measurement */
 	if ( cputime != 0 )
 		*cputime = getCPUtime( ) - starttime;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 1490bb2..3fb772e 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2718,6 +2718,10 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
 	delete[] delta_ub; delete[] delta_lb; delete[] delta_g;
 
+	/* the current iterate solves an intermediate QP (also if no iteration has been
+	 * performed at all), thus solution may be continued by another hotstart */
+	status = QPS_HOMOTOPYQPSOLVED;
+
 	/* stop runtime measurement */
 	if ( cputime != 0 )
 		*cputime = getCPUtime( ) - starttime;
-- 
2.43.0


From f0023aab680c453dc9488eb6678e3e90da801060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 034/134] fix: report iterations and CPU time if
 refactorisation of the Cholesky factor fails

---
 src/QProblem.cpp  | 6 ++++++
 src/QProblemB.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 5c97dc4..a6d25cc 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1712,6 +1712,12 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 			{
 				delete[] delta_yAC; delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
 				delete[] delta_ub; delete[] delta_lb; delete[] delta_ubA; delete[] delta_lbA; delete[] delta_g;
+
+				/* Assign number of working set recalculations and stop runtime measurement. */
+				nWSR = iter;
+				if ( cputime != 0 )
+					*cputime = getCPUtime( ) - starttime;
+
 				return returnvalue;
 			}
 		}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3fb772e..4181d89 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2696,6 +2696,12 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 			{
 				delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
 				delete[] delta_ub; delete[] delta_lb; delete[] delta_g;
+
+				/* Assign number of working set recalculations and stop runtime measurement. */
+				nWSR = iter;
+				if ( cputime != 0 )
+					*cputime = getCPUtime( ) - starttime;
+
 				return returnvalue;
 			}
 		}
-- 
2.43.0


From 236fd800888f360fe2cba54dcbd75ee54283b561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 035/134] fix: hotstart with new matrices must not keep
 multipliers of dropped active constraints

---
 src/SQProblem.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 95dde53..88ae996 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -419,10 +419,6 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
 	}
 
-	/* 3) Setup QP gradient. */
-	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
 
 	/* II) SETUP WORKING SETS AND MATRIX FACTORISATIONS: */
 	/* 1) Make a copy of current bounds/constraints ... */
@@ -509,6 +505,20 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
         setupAuxiliaryQPbounds( &bounds, &constraints, BT_FALSE );
 	}
 
+	/* Bounds/constraints that have been left out of the new working set
+	 * (e.g. due to linear dependence) must not keep their old multipliers. */
+	for( i=0; i<nV; ++i )
+		if ( bounds.getStatus( i ) == ST_INACTIVE )
+			y[i] = 0.0;
+
+	for( i=0; i<nC; ++i )
+		if ( constraints.getStatus( i ) == ST_INACTIVE )
+			y[nV+i] = 0.0;
+
+	/* III) SETUP QP GRADIENT such that old optimal solution is stationary point of new QP. */
+	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
 	status = QPS_AUXILIARYQPSOLVED;
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From f314e03d3fcb6938380e60a4f60aae44f2579f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 036/134] fix: active set may be extended although unbounded
 bounds/constraints are active

---
 src/QProblem.cpp       | 4 ++--
 src/SQProblemSchur.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a6d25cc..6532335 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2928,7 +2928,7 @@ returnValue QProblem::addConstraint(	int_t number, SubjectToStatus C_status,
 	if ( constraints.getStatus( number ) != ST_INACTIVE )
 		return THROWERROR( RET_CONSTRAINT_ALREADY_ACTIVE );
 
-	if ( ( constraints.getNC( ) - getNAC( ) ) == constraints.getNUC( ) )
+	if ( getNAC( ) == constraints.getNC( ) )
 		return THROWERROR( RET_ALL_CONSTRAINTS_ACTIVE );
 
 	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
@@ -3416,7 +3416,7 @@ returnValue QProblem::addBound(	int_t number, SubjectToStatus B_status,
 	if ( bounds.getStatus( number ) != ST_INACTIVE )
 		return THROWERROR( RET_BOUND_ALREADY_ACTIVE );
 
-	if ( getNFR( ) == bounds.getNUV( ) )
+	if ( getNFR( ) == 0 )
 		return THROWERROR( RET_ALL_BOUNDS_ACTIVE );
 
 	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 5ffca3d..d181ec2 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -658,7 +658,7 @@ returnValue SQProblemSchur::addConstraint(	int_t number,
 	if ( constraints.getStatus( number ) != ST_INACTIVE )
 		return THROWERROR( RET_CONSTRAINT_ALREADY_ACTIVE );
 
-	if ( ( constraints.getNC( ) - getNAC( ) ) == constraints.getNUC( ) )
+	if ( getNAC( ) == constraints.getNC( ) )
 		return THROWERROR( RET_ALL_CONSTRAINTS_ACTIVE );
 
 	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
@@ -1125,7 +1125,7 @@ returnValue SQProblemSchur::addBound(	int_t number,
 	if ( bounds.getStatus( number ) != ST_INACTIVE )
 		return THROWERROR( RET_BOUND_ALREADY_ACTIVE );
 
-	if ( getNFR( ) == bounds.getNUV( ) )
+	if ( getNFR( ) == 0 )
 		return THROWERROR( RET_ALL_BOUNDS_ACTIVE );
 
 	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
-- 
2.43.0


From 5e64d0da0f11e38121d9f65f37825f4675cbc9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:39 +0000
Subject: [PATCH 037/134] fix: hotstart with new matrices failed for an
 identity Hessian if the previous QP had been regularised

---
 src/SQProblem.cpp      | 3 ++-
 src/SQProblemSchur.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 88ae996..79a5a76 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -407,7 +407,8 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 		{
 			regVal = 0.0; /* reset previous regularisation */
 
-			if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
+			/* an identity matrix needs no regularisation */
+			if ( ( hessianType != HST_IDENTITY ) && ( regulariseHessian( ) != SUCCESSFUL_RETURN ) )
 				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 		}
 	}
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index d181ec2..647d7aa 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -384,7 +384,8 @@ returnValue SQProblemSchur::setupAuxiliaryQP(	SymmetricMatrix *H_new,
 		{
 			regVal = 0.0; /* reset previous regularisation */
 
-			if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
+			/* an identity matrix needs no regularisation */
+			if ( ( hessianType != HST_IDENTITY ) && ( regulariseHessian( ) != SUCCESSFUL_RETURN ) )
 				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 		}
 	}
-- 
2.43.0


From 1bbe783152a98e49af0a3bc75681677b1e139596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:50 +0000
Subject: [PATCH 038/134] fix: regularisation must not modify the user's
 Hessian array

---
 src/QProblemB.cpp | 10 ++++++++++
 src/SQProblem.cpp | 12 ++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 4181d89..a92a415 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2044,6 +2044,16 @@ returnValue QProblemB::regulariseHessian( )
 		{
 			regVal = H->getNorm() * options.epsRegularisation;
 
+			/* never modify the user's array: regularise a private copy instead */
+			if ( ( freeHessian == BT_TRUE ) && ( H->needToFreeMemory( ) == BT_FALSE ) )
+			{
+				SymDenseMat* dH = new SymDenseMat( getNV(),getNV(),getNV(),H->full( ) );
+				dH->doFreeMemory( );
+
+				delete H;
+				H = dH;
+			}
+
 			if ( H->addToDiag( regVal ) == RET_NO_DIAGONAL_AVAILABLE )
 				return THROWERROR( RET_CANNOT_REGULARISE_SPARSE );
 		}
diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 79a5a76..97c9868 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -550,8 +550,20 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 	}
 
 	if ( H_new != 0 )
+	{
 		sH = new SymDenseMat(nV, nV, nV, (real_t*) H_new);
 
+		/* never modify the user's array: possibly regularise a private copy instead */
+		if ( options.enableRegularisation == BT_TRUE )
+		{
+			SymDenseMat* sH_copy = new SymDenseMat(nV, nV, nV, sH->full( ));
+			sH_copy->doFreeMemory( );
+
+			delete sH;
+			sH = sH_copy;
+		}
+	}
+
 	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
 
 	if ( H_new != 0 )
-- 
2.43.0


From ba2f474eef5ecd58bfca742d6a04f3836a463d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:32 +0000
Subject: [PATCH 039/134] fix: identity Hessian passed as null pointer left the
 previous Hessian matrix in place

---
 include/qpOASES/QProblemB.ipp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/qpOASES/QProblemB.ipp b/include/qpOASES/QProblemB.ipp
index 6831374..c7a3114 100644
--- a/include/qpOASES/QProblemB.ipp
+++ b/include/qpOASES/QProblemB.ipp
@@ -263,10 +263,8 @@ inline returnValue QProblemB::setH( const real_t* const H_new )
 	 *                            (or stays identity matrix) */
 	if ( H_new == 0 )
 	{
-		if ( hessianType == HST_IDENTITY )
-			return SUCCESSFUL_RETURN;
-
-		hessianType = HST_ZERO;
+		if ( hessianType != HST_IDENTITY )
+			hessianType = HST_ZERO;
 
 		if ( ( freeHessian == BT_TRUE ) && ( H != 0 ) )
 			delete H;
-- 
2.43.0


From 17cc01ef67e576e87635c5aef5d40e2c4cb29676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 040/134] fix: hotstart before initialisation must be rejected
 before accessing QP data

---
 src/QProblem.cpp  | 7 +++++++
 src/QProblemB.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 6532335..301ca53 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -459,6 +459,13 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	/* consistency check */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED ) ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) )
+	{
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+	}
+
 
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index a92a415..1b8bceb 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -425,6 +425,13 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	/* consistency check */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED ) ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) )
+	{
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+	}
+
 
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
-- 
2.43.0


From 89eae15991f22922481326844dabf46884785c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 041/134] fix: hotstart did not reject a missing gradient or
 incomplete guessed working sets

---
 src/QProblem.cpp  | 17 +++++++++++++++++
 src/QProblemB.cpp | 10 ++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 301ca53..4f6b3f9 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -466,6 +466,23 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	if ( guessedBounds != 0 )
+	{
+		for( i=0; i<nV; ++i )
+			if ( guessedBounds->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
+	if ( guessedConstraints != 0 )
+	{
+		for( i=0; i<nC; ++i )
+			if ( guessedConstraints->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
 
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 1b8bceb..32d5d8b 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -432,6 +432,16 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	if ( guessedBounds != 0 )
+	{
+		for( i=0; i<nV; ++i )
+			if ( guessedBounds->getStatus( i ) == ST_UNDEFINED )
+				return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
 
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
-- 
2.43.0


From f2e92d7d8d9cb2bec05cbea53b3de55dd54ea81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:12 +0000
Subject: [PATCH 042/134] fix: matrix hotstart with missing arguments must not
 modify the QP object or leak memory

---
 src/SQProblem.cpp | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 97c9868..3f12d5e 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -110,6 +110,9 @@ returnValue SQProblem::hotstart(	SymmetricMatrix *H_new, const real_t* const g_n
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 
 	real_t starttime = 0.0;
 	real_t auxTime = 0.0;
@@ -164,6 +167,9 @@ returnValue SQProblem::hotstart(	const real_t* const H_new, const real_t* const
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	/* start runtime measurement */
 	real_t starttime = 0.0;
 	if ( cputime != 0 ) {
@@ -353,6 +359,15 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 		return THROWERROR( RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED );
 	}
 
+	/* check arguments before changing any data */
+	if ( ( nC > 0 ) && ( A_new == 0 ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	/* if no Hessian is specified, keep previous trivial Hessian (HST_ZERO or HST_IDENTITY),
+	   otherwise abort */
+	if ( ( H_new == 0 ) && ( H != 0 ) )
+		return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
+
 	status = QPS_PREPARINGAUXILIARYQP;
 
 
@@ -362,9 +377,6 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 	/*    Firstly, shift by -A'*x_opt and ... */
 	if ( nC > 0 )
 	{
-		if ( A_new == 0 )
-			return THROWERROR( RET_INVALID_ARGUMENTS );
-
 		for ( i=0; i<nC; ++i )
 		{
 			lbA[i] = -Ax_l[i];
@@ -412,13 +424,6 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 		}
 	}
-	else
-	{
-		/* if no Hessian is specified, keep previous trivial Hessian (HST_ZERO or HST_IDENTITY),
-		   otherwise abort */
-		if ( H != 0 )
-			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
-	}
 
 
 	/* II) SETUP WORKING SETS AND MATRIX FACTORISATIONS: */
@@ -539,15 +544,15 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 	DenseMatrix *dA = 0;
 	SymDenseMat *sH = 0;
 
-	if ( A_new != 0 )
-	{
+	/* check arguments before allocating or changing any data */
+	if ( ( nC > 0 ) && ( A_new == 0 ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	if ( ( H_new == 0 ) && ( H != 0 ) )
+		return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
+
+	if ( nC > 0 )
 		dA = new DenseMatrix(nC, nV, nV, (real_t*) A_new);
-	}
-	else
-	{
-		if ( nC > 0 )
-			return THROWERROR( RET_INVALID_ARGUMENTS );
-	}
 
 	if ( H_new != 0 )
 	{
@@ -566,9 +571,10 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 
 	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
 
-	if ( H_new != 0 )
+	if ( sH != 0 )
 		freeHessian = BT_TRUE;
-	freeConstraintMatrix = BT_TRUE;
+	if ( dA != 0 )
+		freeConstraintMatrix = BT_TRUE;
 
 	return returnvalue;
 }
-- 
2.43.0


From 5ced205fa5f6e193144691be3a26e13fa39915c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:12 +0000
Subject: [PATCH 043/134] fix: QP matrices loaded from files for a hotstart
 were released while still in use

---
 src/SQProblem.cpp | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 3f12d5e..010fda6 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -226,6 +226,14 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
+	{
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+	}
+
+
 	/* 1) Load new QP matrices from files. */
 	real_t* H_new  = new real_t[nV*nV];
 	real_t* A_new  = new real_t[nC*nV];
@@ -237,7 +245,7 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	if ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN )
+	if ( ( nC > 0 ) && ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN ) )
 	{
 		delete[] A_new;
 		delete[] H_new;
@@ -271,12 +279,29 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	/* 3) Actually perform hotstart. */
-	returnvalue = hotstart(	H_new,g_new,A_new,lb_new,ub_new,lbA_new,ubA_new,
+	/* 3) Actually perform hotstart with matrices that own the loaded data. */
+	SymDenseMat* sH = new SymDenseMat( nV,nV,nV, H_new );
+	sH->doFreeMemory( );
+
+	DenseMatrix* dA = new DenseMatrix( nC,nV,nV, A_new );
+	dA->doFreeMemory( );
+
+	returnvalue = hotstart(	sH,g_new,dA,lb_new,ub_new,lbA_new,ubA_new,
 							nWSR,cputime,
 							guessedBounds,guessedConstraints
 							);
 
+	/* matrices in use are released together with the QP object */
+	if ( H == sH )
+		freeHessian = BT_TRUE;
+	else
+		delete sH;
+
+	if ( A == dA )
+		freeConstraintMatrix = BT_TRUE;
+	else
+		delete dA;
+
 	if ( ubA_file != 0 )
 		delete[] ubA_new;
 	if ( lbA_file != 0 )
@@ -286,8 +311,6 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	if ( lb_file != 0 )
 		delete[] lb_new;
 	delete[] g_new;
-	delete[] A_new;
-	delete[] H_new;
 
 	return returnvalue;
 }
-- 
2.43.0


From 05e48c9538149c02ba22c81699a803ecd5bb2994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 044/134] fix: a rejected initialisation without Hessian
 changed the Hessian type for subsequent initialisations

---
 src/QProblem.cpp  | 18 ++++++++++++++++++
 src/QProblemB.cpp | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 4f6b3f9..8d8698b 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -302,8 +302,14 @@ returnValue QProblem::init(	SymmetricMatrix *_H, const real_t* const _g, Matrix
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data. */
+	HessianType previousHessianType = hessianType;
+
 	if ( setupQPdata( _H,_g,_A,_lb,_ub,_lbA,_ubA ) != SUCCESSFUL_RETURN )
+	{
+		/* a rejected Hessian must not affect subsequent initialisations */
+		hessianType = previousHessianType;
 		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
 
 	/* 3) Call to main initialisation routine. */
 	return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,_R, nWSR,cputime );
@@ -360,8 +366,14 @@ returnValue QProblem::init(	const real_t* const _H, const real_t* const _g, cons
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data. */
+	HessianType previousHessianType = hessianType;
+
 	if ( setupQPdata( _H,_g,_A,_lb,_ub,_lbA,_ubA ) != SUCCESSFUL_RETURN )
+	{
+		/* a rejected Hessian must not affect subsequent initialisations */
+		hessianType = previousHessianType;
 		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
 
 	/* 3) Call to main initialisation routine. */
 	return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,_R, nWSR,cputime );
@@ -418,8 +430,14 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data from files. */
+	HessianType previousHessianType = hessianType;
+
 	if ( setupQPdataFromFile( H_file,g_file,A_file,lb_file,ub_file,lbA_file,ubA_file ) != SUCCESSFUL_RETURN )
+	{
+		/* a rejected Hessian must not affect subsequent initialisations */
+		hessianType = previousHessianType;
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
+	}
 
 	if ( R_file == 0 )
 	{
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 32d5d8b..6cf90dc 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -288,8 +288,14 @@ returnValue QProblemB::init( 	SymmetricMatrix *_H, const real_t* const _g,
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data. */
+	HessianType previousHessianType = hessianType;
+
 	if ( setupQPdata( _H,_g,_lb,_ub ) != SUCCESSFUL_RETURN )
+	{
+		/* a rejected Hessian must not affect subsequent initialisations */
+		hessianType = previousHessianType;
 		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
 
 	/* 3) Call to main initialisation routine. */
 	return solveInitialQP( xOpt,yOpt,guessedBounds,_R, nWSR,cputime );
@@ -337,8 +343,14 @@ returnValue QProblemB::init( 	const real_t* const _H, const real_t* const _g,
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data. */
+	HessianType previousHessianType = hessianType;
+
 	if ( setupQPdata( _H,_g,_lb,_ub ) != SUCCESSFUL_RETURN )
+	{
+		/* a rejected Hessian must not affect subsequent initialisations */
+		hessianType = previousHessianType;
 		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
 
 	/* 3) Call to main initialisation routine. */
 	return solveInitialQP( xOpt,yOpt,guessedBounds,_R, nWSR,cputime );
@@ -386,8 +398,14 @@ returnValue QProblemB::init( 	const char* const H_file, const char* const g_file
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data from files. */
+	HessianType previousHessianType = hessianType;
+
 	if ( setupQPdataFromFile( H_file,g_file,lb_file,ub_file ) != SUCCESSFUL_RETURN )
+	{
+		/* a rejected Hessian must not affect subsequent initialisations */
+		hessianType = previousHessianType;
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
+	}
 
 	if ( R_file == 0 )
 	{
-- 
2.43.0


From 6d5568063236b3f2fa0bbbc9fd1833113175fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 045/134] fix: solving the current EQP before initialisation
 must be rejected

---
 src/QProblem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8d8698b..b6bf063 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -789,6 +789,13 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 	if ( ( x_out == 0 ) || ( y_out == 0 ) )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	/* there is no working set before the QP has been initialised */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) )
+	{
+		return THROWERROR( RET_QP_NOT_SOLVED );
+	}
+
 	returnValue returnvalue = SUCCESSFUL_RETURN;
 	int_t ii, jj;
 	int_t nV  = getNV( );
-- 
2.43.0


From 1250271c166bc2f4a36e16073fb1c26b9e030b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 046/134] fix: solving the current EQP reported the result for
 the last right-hand side only

---
 src/QProblem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index b6bf063..b985c93 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -827,6 +827,10 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 			g_in, lbA_in, ubA_in, lb_in, ub_in, BT_FALSE, BT_FALSE,
 			delta_xFX, delta_xFR, delta_yAC, delta_yFX );
 
+		/* do not hide a failure by the result for the next right-hand side */
+		if ( returnvalue != SUCCESSFUL_RETURN )
+			break;
+
 		for ( jj = 0; jj < nFX; ++jj )
 			x_out[FX_idx[jj]] = delta_xFX[jj];
 		for ( jj = 0; jj < nFR; ++jj )
-- 
2.43.0


From f94bc587d24c64f77bb6d311eaa1d87a5e7069d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 047/134] fix: printing without a global output file recursed
 endlessly

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 393e19c..2b19588 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -238,7 +238,7 @@ returnValue myPrintf( const char* s )
 			#else
 				FILE* outputfile = getGlobalMessageHandler( )->getOutputFile( );
 				if ( outputfile == 0 )
-					return THROWERROR( RET_NO_GLOBAL_MESSAGE_OUTPUTFILE );
+					return RET_NO_GLOBAL_MESSAGE_OUTPUTFILE; /* no message possible: throwing one would end up here again */
 				fprintf( outputfile, "%s", s );
 			#endif /* __SCILAB__ */
 		#endif /* __MATLAB__ */
-- 
2.43.0


From 56becf5191bf9555f3da2afc0b58857df8aaee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 048/134] fix: QProblemB debug iteration output read a missing
 Hessian and an uninitialised text

---
 src/QProblemB.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 6cf90dc..197a192 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3872,7 +3872,24 @@ returnValue QProblemB::printIteration( 	int_t iter,
 
 			/* stationarity */
 			for (i = 0; i < nV; i++) grad[i] = g[i] - y[i];
-			H->times(1, 1.0, x, nV, 1.0, grad, nV);
+
+			switch ( hessianType )
+			{
+				case HST_ZERO:
+					for( i=0; i<nV; ++i )
+						grad[i] += regVal * x[i];
+					break;
+
+				case HST_IDENTITY:
+					for( i=0; i<nV; ++i )
+						grad[i] += 1.0 * x[i];
+					break;
+
+				default:
+					H->times(1, 1.0, x, nV, 1.0, grad, nV);
+					break;
+			}
+
 			for (i = 0; i < nV; i++) if (getAbs(grad[i]) > stat) stat = getAbs(grad[i]);
 
 			/* feasibility */
@@ -3887,8 +3904,8 @@ returnValue QProblemB::printIteration( 	int_t iter,
 			{
 				snprintf( myPrintfString,MAX_STRING_LENGTH, "\n%5s %4s %4s %9s %9s %9s %9s %9s\n",
 						"iter", "addB", "remB", "hom len", "tau", "stat", "bfeas", "bcmpl");
+				myPrintf( myPrintfString );
 			}
-			myPrintf( myPrintfString );
 
 			snprintf( myPrintfString,MAX_STRING_LENGTH, "%5d ",(int)iter );
 			myPrintf( myPrintfString );
-- 
2.43.0


From fc3d31f18b9aba0f8a74e744c81144dfe1b5bb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:39 +0000
Subject: [PATCH 049/134] fix: QProblem debug iteration output dereferenced the
 missing constraint matrix of a problem without constraints

---
 src/QProblem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index b985c93..ce4dc6c 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6215,13 +6215,15 @@ returnValue QProblem::printIteration( 	int_t iter,
 					break;
 			}
 
-			A->transTimes(1, -1.0, y+nV, nC, 1.0, grad, nV);
+			if ( nC > 0 )
+				A->transTimes(1, -1.0, y+nV, nC, 1.0, grad, nV);
 			for (i = 0; i < nV; i++) if (getAbs(grad[i]) > stat) stat = getAbs(grad[i]);
 
 			/* feasibility */
 			for (i = 0; i < nV; i++) if (lb[i] - x[i] > bfeas) bfeas = lb[i] - x[i];
 			for (i = 0; i < nV; i++) if (x[i] - ub[i] > bfeas) bfeas = x[i] - ub[i];
-			A->times(1, 1.0, x, nV, 0.0, AX, nC);
+			if ( nC > 0 )
+				A->times(1, 1.0, x, nV, 0.0, AX, nC);
 			for (i = 0; i < nC; i++) if (lbA[i] - AX[i] > cfeas) cfeas = lbA[i] - AX[i];
 			for (i = 0; i < nC; i++) if (AX[i] - ubA[i] > cfeas) cfeas = AX[i] - ubA[i];
 
-- 
2.43.0


From 6889d1c892c9513151c0fbb4022ffe00a31d17ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:56 +0000
Subject: [PATCH 050/134] fix: copies of a message handler closed its output
 file once each

---
 include/qpOASES/MessageHandling.hpp | 1 +
 include/qpOASES/MessageHandling.ipp | 1 +
 src/MessageHandling.cpp             | 8 +++++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/qpOASES/MessageHandling.hpp b/include/qpOASES/MessageHandling.hpp
index 918f21a..c3968aa 100644
--- a/include/qpOASES/MessageHandling.hpp
+++ b/include/qpOASES/MessageHandling.hpp
@@ -430,6 +430,7 @@ class MessageHandling
 		VisibilityStatus infoVisibility;		/**< Info messages visible? */
 
 		FILE* outputFile;						/**< Output file for messages. */
+		BooleanType sharesOutputFile;			/**< Was output file taken over from another handler (that will close it)? */
 
 		int_t errorCount; 						/**< Counts number of errors (for nicer output only). */
 };
diff --git a/include/qpOASES/MessageHandling.ipp b/include/qpOASES/MessageHandling.ipp
index 7ddb936..abc7de5 100644
--- a/include/qpOASES/MessageHandling.ipp
+++ b/include/qpOASES/MessageHandling.ipp
@@ -118,6 +118,7 @@ inline void MessageHandling::setInfoVisibilityStatus( VisibilityStatus _infoVisi
 inline void MessageHandling::setOutputFile( FILE* _outputFile )
 {
  	outputFile = _outputFile;
+	sharesOutputFile = BT_FALSE;
 }
 
 
diff --git a/src/MessageHandling.cpp b/src/MessageHandling.cpp
index 3b21ebd..62ef32b 100644
--- a/src/MessageHandling.cpp
+++ b/src/MessageHandling.cpp
@@ -245,6 +245,7 @@ MessageHandling::MessageHandling( )
 	infoVisibility    = VS_VISIBLE;
 
 	outputFile = stdFile;
+	sharesOutputFile = BT_FALSE;
 	errorCount = 0;
 }
 
@@ -258,6 +259,7 @@ MessageHandling::MessageHandling( FILE* _outputFile )
 	infoVisibility    = VS_HIDDEN;
 
 	outputFile = _outputFile;
+	sharesOutputFile = BT_FALSE;
 	errorCount = 0;
 }
 
@@ -274,6 +276,7 @@ MessageHandling::MessageHandling(	VisibilityStatus _errorVisibility,
 	infoVisibility    = _infoVisibility;
 
 	outputFile = stdFile;
+	sharesOutputFile = BT_FALSE;
 	errorCount = 0;
 }
 
@@ -291,6 +294,7 @@ MessageHandling::MessageHandling( 	FILE* _outputFile,
 	infoVisibility    = _infoVisibility;
 
 	outputFile = _outputFile;
+	sharesOutputFile = BT_FALSE;
 	errorCount = 0;
 }
 
@@ -306,6 +310,7 @@ MessageHandling::MessageHandling( const MessageHandling& rhs )
 	infoVisibility    = rhs.infoVisibility;
 
 	outputFile = rhs.outputFile;
+	sharesOutputFile = BT_TRUE;
 	errorCount = rhs.errorCount;
 }
 
@@ -316,7 +321,7 @@ MessageHandling::MessageHandling( const MessageHandling& rhs )
 MessageHandling::~MessageHandling( )
 {
 	#ifndef __SUPPRESSANYOUTPUT__
-	if ( ( outputFile != 0 ) && ( outputFile != stdout ) && ( outputFile != stderr ) )
+	if ( ( sharesOutputFile == BT_FALSE ) && ( outputFile != 0 ) && ( outputFile != stdout ) && ( outputFile != stderr ) )
 		fclose( outputFile );
  	#endif /* __SUPPRESSANYOUTPUT__ */
 }
@@ -334,6 +339,7 @@ MessageHandling& MessageHandling::operator=( const MessageHandling& rhs )
 		infoVisibility    = rhs.infoVisibility;
 
 		outputFile = rhs.outputFile;
+		sharesOutputFile = BT_TRUE;
 		errorCount = rhs.errorCount;
 	}
 
-- 
2.43.0


From b056d58a40c967eba157d8da372723c5d94119b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 051/134] fix: a message cut at the maximum length lost its
 line end

---
 src/MessageHandling.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/MessageHandling.cpp b/src/MessageHandling.cpp
index 62ef32b..29f64d0 100644
--- a/src/MessageHandling.cpp
+++ b/src/MessageHandling.cpp
@@ -477,6 +477,7 @@ returnValue MessageHandling::throwMessage(	returnValue RETnumber,
 
 	int_t keypos = 0;
 	char myPrintfString[MAX_STRING_LENGTH];
+	int messageLength = 0;
 
 	/* 1) Determine number of whitespace for output. */
 	char whitespaces[MAX_STRING_LENGTH];
@@ -527,27 +528,35 @@ returnValue MessageHandling::throwMessage(	returnValue RETnumber,
 		if ( additionaltext == 0 )
 		{
 			#ifdef __DEBUG__
-			snprintf(	myPrintfString,MAX_STRING_LENGTH,"%s (%s, %s:%d): \t%s\n",
+			messageLength = snprintf(	myPrintfString,MAX_STRING_LENGTH,"%s (%s, %s:%d): \t%s\n",
 						RETstring,functionname,filename,(int_t)linenumber,returnValueList[keypos].data
 						);
 			#else
-			snprintf(	myPrintfString,MAX_STRING_LENGTH,"%s:  %s\n",
+			messageLength = snprintf(	myPrintfString,MAX_STRING_LENGTH,"%s:  %s\n",
 						RETstring,returnValueList[keypos].data
 						);
 			#endif
+
+			/* a message that had to be cut still ends its line */
+			if ( messageLength >= (int)MAX_STRING_LENGTH )
+				myPrintfString[MAX_STRING_LENGTH-2] = '\n';
 			myPrintf( myPrintfString );
 		}
 		else
 		{
 			#ifdef __DEBUG__
-			snprintf(	myPrintfString,MAX_STRING_LENGTH,"%s (%s, %s:%d): \t%s %s\n",
+			messageLength = snprintf(	myPrintfString,MAX_STRING_LENGTH,"%s (%s, %s:%d): \t%s %s\n",
 						RETstring,functionname,filename,(int_t)linenumber,returnValueList[keypos].data,additionaltext
 						);
 			#else
-			snprintf(	myPrintfString,MAX_STRING_LENGTH,"%s:  %s %s\n",
+			messageLength = snprintf(	myPrintfString,MAX_STRING_LENGTH,"%s:  %s %s\n",
 						RETstring,returnValueList[keypos].data,additionaltext
 						);
 			#endif
+
+			/* a message that had to be cut still ends its line */
+			if ( messageLength >= (int)MAX_STRING_LENGTH )
+				myPrintfString[MAX_STRING_LENGTH-2] = '\n';
 			myPrintf( myPrintfString );
 		}
 
-- 
2.43.0


From 6883847496f400aa8ba8a92b6ea0a5fcfb7fb4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 052/134] fix: KKT analysis of a missing or not yet initialised
 QP crashed instead of returning INFTY

---
 src/SolutionAnalysis.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 66d0fd1..33d8588 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -95,11 +95,13 @@ real_t SolutionAnalysis::getKktViolation(	QProblemB* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
 
-	if ( qp == 0 )
+	/* nothing to analyse without a QP that has been set up */
+	if ( ( qp == 0 ) || ( qp->isInitialised( ) == BT_FALSE ) )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -168,12 +170,14 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
-	int_t nC = qp->getNC();
 
-	if ( qp == 0 )
+	/* nothing to analyse without a QP that has been set up */
+	if ( ( qp == 0 ) || ( qp->isInitialised( ) == BT_FALSE ) )
 		return INFTY;
 
+	int_t nV = qp->getNV();
+	int_t nC = qp->getNC();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
-- 
2.43.0


From 676ff333eb303d2365b5b90cdce671a54c91c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 053/134] fix: KKT analysis of a QProblem without constraints
 dereferenced the missing constraint matrix

---
 src/SolutionAnalysis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 33d8588..e7b8457 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -199,7 +199,7 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 	}
 
 	/* setup constraint matrix array */
-	real_t* A_ptr = qp->A->full();
+	real_t* A_ptr = ( nC > 0 ) ? qp->A->full() : 0;
 
 	real_t* workingSetB = new real_t[nV];
 	qp->getWorkingSetBounds( workingSetB );
-- 
2.43.0


From 576ddbe77d73d6cfb885d8a234fa6a50d6170dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:21 +0000
Subject: [PATCH 054/134] fix: variance-covariance analysis of a QP that has
 not been set up crashed

---
 src/SolutionAnalysis.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index e7b8457..9b4e75d 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -282,6 +282,13 @@ returnValue SolutionAnalysis::getVarianceCovariance(	QProblem* qp,
 														) const
 {
 
+  if ( ( qp == 0 ) || ( g_b_bA_VAR == 0 ) || ( Primal_Dual_VAR == 0 ) )
+       return THROWERROR( RET_INVALID_ARGUMENTS );
+
+  /* there is no working set before the QP has been initialised */
+  if ( ( qp->getStatus( ) == QPS_NOTINITIALISED ) || ( qp->getStatus( ) == QPS_PREPARINGAUXILIARYQP ) )
+       return THROWERROR( RET_QP_NOT_SOLVED );
+
   /* DEFINITION OF THE DIMENSIONS nV AND nC:
    * --------------------------------------- */
   int_t nV  = qp->getNV( );                      /* dimension of x / the bounds */
-- 
2.43.0


From 0504c3f8d2044efd28c6722d821ca77f78e154c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:03 +0000
Subject: [PATCH 055/134] fix: Options::ensureConsistency left initialFarBounds
 inconsistent for boundRelaxation >= 1

---
 src/Options.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 2b3a362..17c8c97 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -310,7 +310,8 @@ returnValue Options::ensureConsistency( )
 
 	if ( initialFarBounds <= boundRelaxation )
 	{
-		initialFarBounds = boundRelaxation+EPS;
+		/* relative increment as adding EPS to a value above one has no effect */
+		initialFarBounds = boundRelaxation*(1.0+4.0*EPS) + EPS;
 		needToAdjust = BT_TRUE;
 	}
 
-- 
2.43.0


From 8a95f8e396e9715641cd1348efb4a6b29a98bbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 056/134] fix: use a user-supplied Cholesky factor only if the
 initial working set is empty

The factor of the full Hessian was taken for that of the projected Hessian
if equalities are part of the initial working set: wrong solutions were
reported as optimal.
---
 src/QProblem.cpp  | 5 +++--
 src/QProblemB.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index ce4dc6c..a1c73d8 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1439,12 +1439,13 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 	if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,&auxiliaryConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_INIT_FAILED );
 
-	/* d) Copy external Cholesky factor if provided */
+	/* d) Copy external Cholesky factor (of the full Hessian) if provided
+	 *    and if the initial working set is empty. */
 	haveCholesky = BT_FALSE;
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) + getNAC( ) > 0 ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 197a192..3c11a35 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2404,12 +2404,13 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 			return THROWERROR( RET_INIT_FAILED_REGULARISATION );
 	}
 
-	/* c) Copy external Cholesky factor if provided */
+	/* c) Copy external Cholesky factor (of the full Hessian) if provided
+	 *    and if the initial working set is empty. */
 	haveCholesky = BT_FALSE;
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) > 0 ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
-- 
2.43.0


From 2d04f33f0afee4d01d0551cbafe47d56899daac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 057/134] fix: initialisation with a dual guess that does not
 match the initial working set

Multipliers of inactive or differently guessed limits were kept, so that
the homotopy started from a non-optimal point and wrong solutions or wrong
infeasibility verdicts were reported.
---
 src/QProblem.cpp  | 21 +++++++++++++++++++++
 src/QProblemB.cpp | 13 +++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a1c73d8..be015e4 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1470,6 +1470,27 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 		}
 	}
 
+	/* e) Ensure that guessed multipliers match the working set: they are zero for free bounds
+	 *    and inactive constraints and have a sign that is valid for the active limit otherwise. */
+	if ( yOpt != 0 )
+	{
+		for( i=0; i<nV; ++i )
+		{
+			if ( bounds.getStatus( i ) == ST_INACTIVE )
+				y[i] = 0.0;
+			else if ( bounds.getType( i ) != ST_EQUALITY )
+				y[i] = ( bounds.getStatus( i ) == ST_LOWER ) ? getMax( y[i],0.0 ) : getMin( y[i],0.0 );
+		}
+
+		for( i=0; i<nC; ++i )
+		{
+			if ( constraints.getStatus( i ) == ST_INACTIVE )
+				y[nV+i] = 0.0;
+			else if ( constraints.getType( i ) != ST_EQUALITY )
+				y[nV+i] = ( constraints.getStatus( i ) == ST_LOWER ) ? getMax( y[nV+i],0.0 ) : getMin( y[nV+i],0.0 );
+		}
+	}
+
 	/* 5) Store original QP formulation... */
 	real_t* g_original = new real_t[nV];
 	real_t* lb_original = new real_t[nV];
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3c11a35..caf7c35 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2431,6 +2431,19 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 		}
 	}
 
+	/* d) Ensure that guessed multipliers match the working set: they are zero for free
+	 *    bounds and have a sign that is valid for the respective fixed bound otherwise. */
+	if ( yOpt != 0 )
+	{
+		for( i=0; i<nV; ++i )
+		{
+			if ( bounds.getStatus( i ) == ST_INACTIVE )
+				y[i] = 0.0;
+			else if ( bounds.getType( i ) != ST_EQUALITY )
+				y[i] = ( bounds.getStatus( i ) == ST_LOWER ) ? getMax( y[i],0.0 ) : getMin( y[i],0.0 );
+		}
+	}
+
 	/* 5) Store original QP formulation... */
 	real_t* g_original = new real_t[nV];
 	real_t* lb_original = new real_t[nV];
-- 
2.43.0


From b7ffad9eaab542c43ce0ba998c1c16f056d74d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 058/134] fix: user-supplied Cholesky factor with a reordered
 list of free variables

With far bounds disabled unbounded variables come first in the list of
free variables, which the supplied factor does not account for.
---
 src/QProblem.cpp  | 12 +++++++++++-
 src/QProblemB.cpp | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index be015e4..50fce86 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1445,7 +1445,17 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 
 	if ( _R != 0 )
 	{
-		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) + getNAC( ) > 0 ) )
+		/* The factor refers to the original order of variables,
+		 * but unbounded ones may come first in the list of free variables. */
+		int_t* FR_idx;
+		bounds.getFree( )->getNumberArray( &FR_idx );
+
+		BooleanType isNaturalOrder = BT_TRUE;
+		for( i=0; i<getNFR( ); ++i )
+			if ( FR_idx[i] != i )
+				isNaturalOrder = BT_FALSE;
+
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) + getNAC( ) > 0 ) || ( isNaturalOrder == BT_FALSE ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index caf7c35..40f0b0d 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2410,7 +2410,17 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 
 	if ( _R != 0 )
 	{
-		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) > 0 ) )
+		/* The factor refers to the original order of variables,
+		 * but unbounded ones may come first in the list of free variables. */
+		int_t* FR_idx;
+		bounds.getFree( )->getNumberArray( &FR_idx );
+
+		BooleanType isNaturalOrder = BT_TRUE;
+		for( i=0; i<getNFR( ); ++i )
+			if ( FR_idx[i] != i )
+				isNaturalOrder = BT_FALSE;
+
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) > 0 ) || ( isNaturalOrder == BT_FALSE ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
-- 
2.43.0


From 385994106a81eba688fe43766f448009912769bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 059/134] fix: infinite limits were made active when an active
 limit that became infinite had to be exchanged

With far bounds disabled and a singular Hessian the exchange could pick
another infinite limit, which then stayed active: points that are not
optimal were reported as solutions.
---
 src/QProblem.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 50fce86..d56106e 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2009,6 +2009,30 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 		}
 	}
 
+	/* Limits that are infinite now must not be chosen when an active
+	 * bound or constraint has to be exchanged below. */
+	for ( i=0; i<nV; i++ )
+	{
+		if ( ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) ) && ( bounds.getStatus(i) != ST_LOWER ) )
+			lb[i] = -INFTY;
+		if ( ( ( ub_new == 0 ) || ( ub_new[i] >= INFTY ) ) && ( bounds.getStatus(i) != ST_UPPER ) )
+			ub[i] = INFTY;
+	}
+
+	for ( i=0; i<nC; i++ )
+	{
+		if ( ( ( lbA_new == 0 ) || ( lbA_new[i] <= -INFTY ) ) && ( constraints.getStatus(i) != ST_LOWER ) )
+		{
+			lbA[i] = -INFTY;
+			Ax_l[i] = Ax[i] - lbA[i];
+		}
+		if ( ( ( ubA_new == 0 ) || ( ubA_new[i] >= INFTY ) ) && ( constraints.getStatus(i) != ST_UPPER ) )
+		{
+			ubA[i] = INFTY;
+			Ax_u[i] = ubA[i] - Ax[i];
+		}
+	}
+
 	for ( i=0; i<nV; i++ )
 	{
 		if ( ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) ) && bounds.getStatus(i) == ST_LOWER )
-- 
2.43.0


From e3cfcabc06cb03d3f413dafa60c0f9f2559f939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:36 +0000
Subject: [PATCH 060/134] fix: regularisation was switched off by an all-zero
 gradient or Hessian matrix

---
 src/QProblemB.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 40f0b0d..9c768a4 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2074,11 +2074,19 @@ returnValue QProblemB::regulariseHessian( )
 		if ( hessianType == HST_ZERO )
 		{
 			regVal = getNorm( g,getNV() ) * options.epsRegularisation;
+
+			/* a vanishing gradient must not switch off regularisation */
+			if ( regVal <= ZERO )
+				regVal = options.epsRegularisation;
 		}
 		else
 		{
 			regVal = H->getNorm() * options.epsRegularisation;
 
+			/* a vanishing matrix must not switch off regularisation */
+			if ( regVal <= ZERO )
+				regVal = options.epsRegularisation;
+
 			/* never modify the user's array: regularise a private copy instead */
 			if ( ( freeHessian == BT_TRUE ) && ( H->needToFreeMemory( ) == BT_FALSE ) )
 			{
-- 
2.43.0


From 7469ca88feae4db6eca2f46a850621d7c4c0c711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 061/134] fix: multipliers with slightly wrong sign were
 ignored by the ratio tests and could become arbitrarily wrong

---
 src/QProblem.cpp       | 12 ++++++------
 src/QProblemB.cpp      |  2 +-
 src/SQProblemSchur.cpp |  8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d56106e..c95a87f 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -3403,7 +3403,7 @@ returnValue QProblem::addConstraint_ensureLI( int_t number, SubjectToStatus C_st
 	for( i=0; i<nAC; ++i )
 	{
 		ii = AC_idx[i];
-		num[i] = y[nV+ii];
+		num[i] = ( constraints.getStatus( ii ) == ST_UPPER ) ? getMin( y[nV+ii],0.0 ) : getMax( y[nV+ii],0.0 );
 	}
 
 	performRatioTest (nAC, AC_idx, &constraints, num, xiC, options.epsNum, options.epsDen, y_min, y_min_number);
@@ -3412,7 +3412,7 @@ returnValue QProblem::addConstraint_ensureLI( int_t number, SubjectToStatus C_st
 	for( i=0; i<nFX; ++i )
 	{
 		ii = FX_idx[i];
-		num[i] = y[ii];
+		num[i] = ( bounds.getStatus( ii ) == ST_UPPER ) ? getMin( y[ii],0.0 ) : getMax( y[ii],0.0 );
 	}
 
 	performRatioTest (nFX, FX_idx, &bounds, num, xiB, options.epsNum, options.epsDen, y_min, y_min_number_bound);
@@ -3880,7 +3880,7 @@ returnValue QProblem::addBound_ensureLI( int_t number, SubjectToStatus B_status
 	for( i=0; i<nAC; ++i )
 	{
 		ii = AC_idx[i];
-		num[i] = y[nV+ii];
+		num[i] = ( constraints.getStatus( ii ) == ST_UPPER ) ? getMin( y[nV+ii],0.0 ) : getMax( y[nV+ii],0.0 );
 	}
 
 	performRatioTest( nAC,AC_idx,&constraints, num,xiC, options.epsNum,options.epsDen, y_min,y_min_number );
@@ -3889,7 +3889,7 @@ returnValue QProblem::addBound_ensureLI( int_t number, SubjectToStatus B_status
 	for( i=0; i<nFX; ++i )
 	{
 		ii = FX_idx[i];
-		num[i] = y[ii];
+		num[i] = ( bounds.getStatus( ii ) == ST_UPPER ) ? getMin( y[ii],0.0 ) : getMax( y[ii],0.0 );
 	}
 
 	performRatioTest( nFX,FX_idx,&bounds, num,xiB, options.epsNum,options.epsDen, y_min,y_min_number_bound );
@@ -5248,7 +5248,7 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 	{
 		ii = AC_idx[i];
 
-		num[i] = y[nV+ii];
+		num[i] = ( constraints.getStatus( ii ) == ST_UPPER ) ? getMin( y[nV+ii],0.0 ) : getMax( y[nV+ii],0.0 );
 		den[i] = -delta_yAC[i];
 	}
 
@@ -5267,7 +5267,7 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 	for( i=0; i<nFX; ++i )
 	{
 		ii = FX_idx[i];
-		num[i] = y[ii];
+		num[i] = ( bounds.getStatus( ii ) == ST_UPPER ) ? getMin( y[ii],0.0 ) : getMax( y[ii],0.0 );
 		den[i] = -delta_yFX[i];
 	}
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9c768a4..54cf095 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3425,7 +3425,7 @@ returnValue QProblemB::performStep(	const real_t* const delta_g,
 	for( i=0; i<nFX; ++i )
 	{
 		ii = FX_idx[i];
-		num[i] = y[ii];
+		num[i] = ( bounds.getStatus( ii ) == ST_UPPER ) ? getMin( y[ii],0.0 ) : getMax( y[ii],0.0 );
 		den[i] = -delta_yFX[i];
 	}
 
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 647d7aa..621b011 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1006,7 +1006,7 @@ returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatu
 	for( i=0; i<nAC; ++i )
 	{
 		ii = AC_idx[i];
-		num[i] = y[nV+ii];
+		num[i] = ( constraints.getStatus( ii ) == ST_UPPER ) ? getMin( y[nV+ii],0.0 ) : getMax( y[nV+ii],0.0 );
 	}
 
 	performRatioTest (nAC, AC_idx, &constraints, num, xiC, options.epsNum, options.epsDen, y_min, y_min_number);
@@ -1015,7 +1015,7 @@ returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatu
 	for( i=0; i<nFX; ++i )
 	{
 		ii = FX_idx[i];
-		num[i] = y[ii];
+		num[i] = ( bounds.getStatus( ii ) == ST_UPPER ) ? getMin( y[ii],0.0 ) : getMax( y[ii],0.0 );
 	}
 
 	performRatioTest (nFX, FX_idx, &bounds, num, xiB, options.epsNum, options.epsDen, y_min, y_min_number_bound);
@@ -1416,7 +1416,7 @@ returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_s
 	for( i=0; i<nAC; ++i )
 	{
 		ii = AC_idx[i];
-		num[i] = y[nV+ii];
+		num[i] = ( constraints.getStatus( ii ) == ST_UPPER ) ? getMin( y[nV+ii],0.0 ) : getMax( y[nV+ii],0.0 );
 	}
 
 	performRatioTest( nAC,AC_idx,&constraints, num,xiC, options.epsNum, options.epsDen, y_min,y_min_number );
@@ -1425,7 +1425,7 @@ returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_s
 	for( i=0; i<nFX; ++i )
 	{
 		ii = FX_idx[i];
-		num[i] = y[ii];
+		num[i] = ( bounds.getStatus( ii ) == ST_UPPER ) ? getMin( y[ii],0.0 ) : getMax( y[ii],0.0 );
 	}
 
 	performRatioTest( nFX,FX_idx,&bounds, num,xiB, options.epsNum, options.epsDen, y_min,y_min_number_bound );
-- 
2.43.0


From a063093ff85ba85d92267aa9f5df7250e9e01e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 062/134] fix: objective value of an object without Hessian
 data dereferenced a null pointer

---
 src/QProblemB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 54cf095..0151201 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -788,6 +788,10 @@ real_t QProblemB::getObjVal( const real_t* const _x ) const
 	if ( nV == 0 )
 		return 0.0;
 
+	/* no QP data has been set up yet */
+	if ( ( H == 0 ) && ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+		return INFTY;
+
 	real_t objVal = 0.0;
 
 	for( i=0; i<nV; ++i )
-- 
2.43.0


From 5c3df83db9628305321b34e48ff3fd5d140376d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:51 +0000
Subject: [PATCH 063/134] fix: solveCurrentEQP dereferenced omitted limits

---
 src/QProblem.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index c95a87f..d70397f 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -818,6 +818,25 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 	bounds.getFixed( )->getNumberArray( &FX_idx );
 	constraints.getActive( )->getNumberArray( &AC_idx );
 
+	/* limits that are active within the current working set must be provided */
+	BooleanType limitMissing = BT_FALSE;
+	for ( ii = 0; ii < nFX; ++ii )
+		if ( ( ( bounds.getStatus( FX_idx[ii] ) == ST_LOWER ) ? lb_in : ub_in ) == 0 )
+			limitMissing = BT_TRUE;
+	for ( ii = 0; ii < nAC; ++ii )
+		if ( ( ( constraints.getStatus( AC_idx[ii] ) == ST_LOWER ) ? lbA_in : ubA_in ) == 0 )
+			limitMissing = BT_TRUE;
+
+	if ( limitMissing == BT_TRUE )
+	{
+		delete[] delta_yFX;
+		delete[] delta_yAC;
+		delete[] delta_xFR;
+		delete[] delta_xFX;
+
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
 	for ( ii = 0 ; ii < (nV+nC)*n_rhs; ++ii )
 		y_out[ii] = 0.0;
 
@@ -841,10 +860,14 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 			y_out[nV+AC_idx[jj]] = delta_yAC[jj];
 
 		g_in += nV;
-		lb_in += nV;
-		ub_in += nV;
-		lbA_in += nC;
-		ubA_in += nC;
+		if ( lb_in != 0 )
+			lb_in += nV;
+		if ( ub_in != 0 )
+			ub_in += nV;
+		if ( lbA_in != 0 )
+			lbA_in += nC;
+		if ( ubA_in != 0 )
+			ubA_in += nC;
 		x_out += nV;
 		y_out += nV+nC;
 	}
-- 
2.43.0


From 155131c956be5801be632994ff15e3d95635eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 064/134] fix: working set change continued with undefined data
 if its step direction could not be computed

---
 src/QProblem.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d70397f..a98c9b9 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -4580,6 +4580,17 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		delete[] nul;
 	}
 
+	/* there is nothing to look at if no step direction could be computed */
+	if ( returnvalue != SUCCESSFUL_RETURN )
+	{
+		delete[] delta_yFX;
+		delete[] delta_yAC;
+		delete[] delta_xFR;
+		delete[] delta_xFX;
+
+		return returnvalue;
+	}
+
 	/* compute the weight in inf-norm */
 	real_t normXi = 0.0;
 	for (ii = 0; ii < nAC; ++ii)
-- 
2.43.0


From 854ed5e383afa1bd0647323cbdc7bef4f2b2087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 065/134] fix: failed factorisations and flips declared trivial
 Hessians without data semidefinite

---
 src/QProblem.cpp       | 14 +++++++++-----
 src/QProblemB.cpp      |  9 ++++++---
 src/SQProblemSchur.cpp | 12 ++++++++----
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a98c9b9..c521592 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2348,7 +2348,8 @@ returnValue QProblem::computeProjectedCholesky( )
 			options.epsRegularisation = getMin( -R[0]+options.epsRegularisation,getSqrt(getAbs(options.epsRegularisation)) );
 		}
 
-		hessianType = HST_SEMIDEF;
+		if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+			hessianType = HST_SEMIDEF;
 		return RET_HESSIAN_NOT_SPD;
 	}
 
@@ -4174,7 +4175,8 @@ returnValue QProblem::removeConstraint(	int_t number,
 				RR(nZ,nZ) = getSqrt( rho2 );
 			else
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				flipper.get( &bounds,R,&constraints,Q,T );
 				constraints.flipFixed(number);
@@ -4206,7 +4208,8 @@ returnValue QProblem::removeConstraint(	int_t number,
 				}
 				else
 				{
-					hessianType = HST_SEMIDEF;
+					if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+						hessianType = HST_SEMIDEF;
 					return THROWERROR( RET_HESSIAN_NOT_SPD );
 				}
 			}
@@ -4425,7 +4428,7 @@ returnValue QProblem::removeBound(	int_t number,
 				RR(nZ,nZ) = getSqrt( rho2 );
 			else
 			{
-				if ( hessianType != HST_ZERO )
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
 					hessianType = HST_SEMIDEF;
 
 				flipper.get( &bounds,R,&constraints,Q,T );
@@ -4456,7 +4459,8 @@ returnValue QProblem::removeBound(	int_t number,
 					RR(nZ,nZ) = 100.0*EPS;
 				else
 				{
-					hessianType = HST_SEMIDEF;
+					if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+						hessianType = HST_SEMIDEF;
 					return THROWERROR( RET_HESSIAN_NOT_SPD );
 				}
 			}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 0151201..e8da0e2 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1489,7 +1489,8 @@ returnValue QProblemB::computeCholesky( )
 						options.epsRegularisation = getMin( -R[0]+options.epsRegularisation,getSqrt(getAbs(options.epsRegularisation)) );
 					}
 
-					hessianType = HST_SEMIDEF;
+					if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+						hessianType = HST_SEMIDEF;
 					return RET_HESSIAN_NOT_SPD;
 				}
 
@@ -3828,7 +3829,8 @@ returnValue QProblemB::removeBound(	int_t number,
 				RR(nFR,nFR) = getSqrt( r0 );
 			else
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				flipper.get( &bounds,R );
 				bounds.flipFixed(number);
@@ -3850,7 +3852,8 @@ returnValue QProblemB::removeBound(	int_t number,
 			{
 				delete[] rhs; delete[] r;
 
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 				return THROWERROR( RET_HESSIAN_NOT_SPD );
 			}
 		}
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 621b011..caaa684 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1653,7 +1653,8 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 
 			if ( oldDet * newDet > 0 )
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
 				nS--;
@@ -1690,7 +1691,8 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 
 			if ( oldDet * newDet < 0.0 )
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
 				undoDeleteFromSchurComplement( idxDeleted );
@@ -2025,7 +2027,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 
 			if ( oldDet * newDet > 0.0 )
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
 				nS--;
@@ -2060,7 +2063,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 
 			if ( oldDet * newDet < 0.0 )
 			{
-				hessianType = HST_SEMIDEF;
+				if ( ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
+					hessianType = HST_SEMIDEF;
 
 				/* Restore old S */
 				undoDeleteFromSchurComplement( idxDeleted );
-- 
2.43.0


From 5420d34c4a3581d592dfe241fabf178828a6f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 066/134] fix: regularisation modified Hessian objects passed
 by the user in place

---
 src/QProblemB.cpp | 10 ++++++++--
 src/SQProblem.cpp | 26 +++++++++++++-------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index e8da0e2..24388e9 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2092,8 +2092,14 @@ returnValue QProblemB::regulariseHessian( )
 			if ( regVal <= ZERO )
 				regVal = options.epsRegularisation;
 
-			/* never modify the user's array: regularise a private copy instead */
-			if ( ( freeHessian == BT_TRUE ) && ( H->needToFreeMemory( ) == BT_FALSE ) )
+			/* never modify the user's matrix object or array: regularise a private copy instead */
+			if ( freeHessian == BT_FALSE )
+			{
+				H = H->duplicateSym( );
+				freeHessian = BT_TRUE;
+			}
+
+			if ( H->needToFreeMemory( ) == BT_FALSE )
 			{
 				SymDenseMat* dH = new SymDenseMat( getNV(),getNV(),getNV(),H->full( ) );
 				dH->doFreeMemory( );
diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 010fda6..bd02d65 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -578,26 +578,26 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 		dA = new DenseMatrix(nC, nV, nV, (real_t*) A_new);
 
 	if ( H_new != 0 )
-	{
 		sH = new SymDenseMat(nV, nV, nV, (real_t*) H_new);
 
-		/* never modify the user's array: possibly regularise a private copy instead */
-		if ( options.enableRegularisation == BT_TRUE )
-		{
-			SymDenseMat* sH_copy = new SymDenseMat(nV, nV, nV, sH->full( ));
-			sH_copy->doFreeMemory( );
+	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
 
+	/* matrices in use are released together with the QP object */
+	if ( sH != 0 )
+	{
+		if ( H == sH )
+			freeHessian = BT_TRUE;
+		else
 			delete sH;
-			sH = sH_copy;
-		}
 	}
 
-	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
-
-	if ( sH != 0 )
-		freeHessian = BT_TRUE;
 	if ( dA != 0 )
-		freeConstraintMatrix = BT_TRUE;
+	{
+		if ( A == dA )
+			freeConstraintMatrix = BT_TRUE;
+		else
+			delete dA;
+	}
 
 	return returnvalue;
 }
-- 
2.43.0


From 7feaedcec3ef2bba7e96fea3e9c21cfb09585a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 067/134] fix: linear independence tests used undefined data if
 their step direction could not be computed

---
 src/QProblem.cpp       | 116 +++++++++++++++++++++--------------------
 src/SQProblemSchur.cpp | 116 +++++++++++++++++++++--------------------
 2 files changed, 120 insertions(+), 112 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index c521592..becab63 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -3262,40 +3262,42 @@ returnValue QProblem::addConstraint_checkLI( int_t number )
 											  nul, nul, nul, nul,
 											  BT_FALSE, BT_FALSE,
 											  delta_xFX, delta_xFR, delta_yAC, delta_yFX);
-		if (dsdreturnvalue!=SUCCESSFUL_RETURN)
-			returnvalue = dsdreturnvalue;
-
 		delete[] nul;
 
-		/* compute the weight in inf-norm */
-		real_t weight = 0.0;
-		for (ii = 0; ii < nAC; ++ii)
-		{
-			real_t a = getAbs (delta_yAC[ii]);
-			if (weight < a) weight = a;
-		}
-		for (ii = 0; ii < nFX; ++ii)
+		if (dsdreturnvalue!=SUCCESSFUL_RETURN)
+			returnvalue = dsdreturnvalue;
+		else
 		{
-			real_t a = getAbs (delta_yFX[ii]);
-			if (weight < a) weight = a;
-		}
+			/* compute the weight in inf-norm */
+			real_t weight = 0.0;
+			for (ii = 0; ii < nAC; ++ii)
+			{
+				real_t a = getAbs (delta_yAC[ii]);
+				if (weight < a) weight = a;
+			}
+			for (ii = 0; ii < nFX; ++ii)
+			{
+				real_t a = getAbs (delta_yFX[ii]);
+				if (weight < a) weight = a;
+			}
 
-		/* look at the "zero" in a relative inf-norm */
-		real_t zero = 0.0;
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_xFX[ii]);
-			if (zero < a) zero = a;
-		}
-		for (ii = 0; ii < nFR; ++ii)
-		{
-			real_t a = getAbs (delta_xFR[ii]);
-			if (zero < a) zero = a;
-		}
+			/* look at the "zero" in a relative inf-norm */
+			real_t zero = 0.0;
+			for (ii = 0; ii < nFX; ++ii)
+			{
+				real_t a = getAbs (delta_xFX[ii]);
+				if (zero < a) zero = a;
+			}
+			for (ii = 0; ii < nFR; ++ii)
+			{
+				real_t a = getAbs (delta_xFR[ii]);
+				if (zero < a) zero = a;
+			}
 
-		/* relative test against zero in inf-norm */
-		if (zero > options.epsLITests * weight)
-			returnvalue = RET_LINEARLY_INDEPENDENT;
+			/* relative test against zero in inf-norm */
+			if (zero > options.epsLITests * weight)
+				returnvalue = RET_LINEARLY_INDEPENDENT;
+		}
 
 		delete[] delta_yFX;
 		delete[] delta_yAC;
@@ -3762,36 +3764,38 @@ returnValue QProblem::addBound_checkLI( int_t number )
 				delta_xFX, delta_xFR, delta_yAC, delta_yFX);
 		if (dsdReturnValue != SUCCESSFUL_RETURN)
 			returnvalue = dsdReturnValue;
-
-		/* compute the weight in inf-norm */
-		real_t weight = 0.0;
-		for (ii = 0; ii < nAC; ++ii)
-		{
-			real_t a = getAbs (delta_yAC[ii]);
-			if (weight < a) weight = a;
-		}
-		for (ii = 0; ii < nFX; ++ii)
+		else
 		{
-			real_t a = getAbs (delta_yFX[ii]);
-			if (weight < a) weight = a;
-		}
+			/* compute the weight in inf-norm */
+			real_t weight = 0.0;
+			for (ii = 0; ii < nAC; ++ii)
+			{
+				real_t a = getAbs (delta_yAC[ii]);
+				if (weight < a) weight = a;
+			}
+			for (ii = 0; ii < nFX; ++ii)
+			{
+				real_t a = getAbs (delta_yFX[ii]);
+				if (weight < a) weight = a;
+			}
 
-		/* look at the "zero" in a relative inf-norm */
-		real_t zero = 0.0;
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_xFX[ii]);
-			if (zero < a) zero = a;
-		}
-		for (ii = 0; ii < nFR; ++ii)
-		{
-			real_t a = getAbs (delta_xFR[ii]);
-			if (zero < a) zero = a;
-		}
+			/* look at the "zero" in a relative inf-norm */
+			real_t zero = 0.0;
+			for (ii = 0; ii < nFX; ++ii)
+			{
+				real_t a = getAbs (delta_xFX[ii]);
+				if (zero < a) zero = a;
+			}
+			for (ii = 0; ii < nFR; ++ii)
+			{
+				real_t a = getAbs (delta_xFR[ii]);
+				if (zero < a) zero = a;
+			}
 
-		/* relative test against zero in inf-norm */
-		if (zero > options.epsLITests * weight)
-			returnvalue = RET_LINEARLY_INDEPENDENT;
+			/* relative test against zero in inf-norm */
+			if (zero > options.epsLITests * weight)
+				returnvalue = RET_LINEARLY_INDEPENDENT;
+		}
 
 		delete[] nul;
 		delete[] delta_yFX;
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index caaa684..0f07375 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -899,40 +899,42 @@ returnValue SQProblemSchur::addConstraint_checkLISchur( int_t number, real_t* xi
 											  nul, nul, nul, nul,
 											  BT_FALSE, BT_FALSE,
 											  delta_xFX, delta_xFR, delta_yAC, delta_yFX);
-		if (dsdreturnvalue!=SUCCESSFUL_RETURN)
-			returnvalue = dsdreturnvalue;
-
 		delete[] nul;
 
-		/* compute the weight in inf-norm */
-		real_t weight = 0.0;
-		for (ii = 0; ii < nAC; ++ii)
-		{
-			real_t a = getAbs (delta_yAC[ii]);
-			if (weight < a) weight = a;
-		}
-		for (ii = 0; ii < nFX; ++ii)
+		if (dsdreturnvalue!=SUCCESSFUL_RETURN)
+			returnvalue = dsdreturnvalue;
+		else
 		{
-			real_t a = getAbs (delta_yFX[ii]);
-			if (weight < a) weight = a;
-		}
+			/* compute the weight in inf-norm */
+			real_t weight = 0.0;
+			for (ii = 0; ii < nAC; ++ii)
+			{
+				real_t a = getAbs (delta_yAC[ii]);
+				if (weight < a) weight = a;
+			}
+			for (ii = 0; ii < nFX; ++ii)
+			{
+				real_t a = getAbs (delta_yFX[ii]);
+				if (weight < a) weight = a;
+			}
 
-		/* look at the "zero" in a relative inf-norm */
-		real_t zero = 0.0;
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_xFX[ii]);
-			if (zero < a) zero = a;
-		}
-		for (ii = 0; ii < nFR; ++ii)
-		{
-			real_t a = getAbs (delta_xFR[ii]);
-			if (zero < a) zero = a;
-		}
+			/* look at the "zero" in a relative inf-norm */
+			real_t zero = 0.0;
+			for (ii = 0; ii < nFX; ++ii)
+			{
+				real_t a = getAbs (delta_xFX[ii]);
+				if (zero < a) zero = a;
+			}
+			for (ii = 0; ii < nFR; ++ii)
+			{
+				real_t a = getAbs (delta_xFR[ii]);
+				if (zero < a) zero = a;
+			}
 
-		/* relative test against zero in inf-norm */
-		if (zero > options.epsLITests * weight)
-			returnvalue = RET_LINEARLY_INDEPENDENT;
+			/* relative test against zero in inf-norm */
+			if (zero > options.epsLITests * weight)
+				returnvalue = RET_LINEARLY_INDEPENDENT;
+		}
 
 		delete[] delta_xFR;
 		delete[] delta_xFX;
@@ -1312,36 +1314,38 @@ returnValue SQProblemSchur::addBound_checkLISchur( int_t number, real_t* xiC, re
 				delta_xFX, delta_xFR, delta_yAC, delta_yFX);
 		if (dsdReturnValue != SUCCESSFUL_RETURN)
 			returnvalue = dsdReturnValue;
-
-		/* compute the weight in inf-norm */
-		real_t weight = 0.0;
-		for (ii = 0; ii < nAC; ++ii)
-		{
-			real_t a = getAbs (delta_yAC[ii]);
-			if (weight < a) weight = a;
-		}
-		for (ii = 0; ii < nFX; ++ii)
+		else
 		{
-			real_t a = getAbs (delta_yFX[ii]);
-			if (weight < a) weight = a;
-		}
+			/* compute the weight in inf-norm */
+			real_t weight = 0.0;
+			for (ii = 0; ii < nAC; ++ii)
+			{
+				real_t a = getAbs (delta_yAC[ii]);
+				if (weight < a) weight = a;
+			}
+			for (ii = 0; ii < nFX; ++ii)
+			{
+				real_t a = getAbs (delta_yFX[ii]);
+				if (weight < a) weight = a;
+			}
 
-		/* look at the "zero" in a relative inf-norm */
-		real_t zero = 0.0;
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_xFX[ii]);
-			if (zero < a) zero = a;
-		}
-		for (ii = 0; ii < nFR; ++ii)
-		{
-			real_t a = getAbs (delta_xFR[ii]);
-			if (zero < a) zero = a;
-		}
+			/* look at the "zero" in a relative inf-norm */
+			real_t zero = 0.0;
+			for (ii = 0; ii < nFX; ++ii)
+			{
+				real_t a = getAbs (delta_xFX[ii]);
+				if (zero < a) zero = a;
+			}
+			for (ii = 0; ii < nFR; ++ii)
+			{
+				real_t a = getAbs (delta_xFR[ii]);
+				if (zero < a) zero = a;
+			}
 
-		/* relative test against zero in inf-norm */
-		if (zero > options.epsLITests * weight)
-			returnvalue = RET_LINEARLY_INDEPENDENT;
+			/* relative test against zero in inf-norm */
+			if (zero > options.epsLITests * weight)
+				returnvalue = RET_LINEARLY_INDEPENDENT;
+		}
 
 		delete[] nul;
 		delete[] delta_xFR;
-- 
2.43.0


From e3631de62e63320087b3511d56c92c3c5ac83d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 068/134] fix: truncated data files were read without error

---
 src/Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 2b19588..cf83a1c 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -294,9 +294,9 @@ returnValue readFromFile(	real_t* data, int_t nrow, int_t ncol,
 		for( j=0; j<ncol; ++j )
 		{
 			#ifdef __USE_SINGLE_PRECISION__
-			if ( fscanf( datafile, "%f ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%f ", &float_data ) != 1 )
 			#else
-			if ( fscanf( datafile, "%lf ", &float_data ) == 0 )
+			if ( fscanf( datafile, "%lf ", &float_data ) != 1 )
 			#endif /* __USE_SINGLE_PRECISION__ */
 			{
 				fclose( datafile );
@@ -357,9 +357,9 @@ returnValue readFromFile(	int_t* data, int_t n,
 	for( i=0; i<n; ++i )
 	{
 		#ifdef __USE_LONG_INTEGERS__
-		if ( fscanf( datafile, "%ld\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%ld\n", &(data[i]) ) != 1 )
 		#else
-		if ( fscanf( datafile, "%d\n", &(data[i]) ) == 0 )
+		if ( fscanf( datafile, "%d\n", &(data[i]) ) != 1 )
 		#endif
 		{
 			fclose( datafile );
-- 
2.43.0


From a97c7260730f48a2a49204ca3582a3652d0062ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 069/134] fix: long integers were written truncated

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index cf83a1c..6b15b62 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -486,7 +486,7 @@ returnValue writeIntoFile(	const int_t* const integer, int_t n,
 
 	/* 2) Write data into file. */
 	for( i=0; i<n; ++i )
-		fprintf( datafile, "%d\n",(int)(integer[i]) );
+		fprintf( datafile, "%ld\n",(long)(integer[i]) );
 
 	/* 3) Close file. */
 	fclose( datafile );
-- 
2.43.0


From 89abc867b243d64e2022e27e9d895be0114d0650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 070/134] fix: headers of exported MAT files had 64-bit fields
 on LP64 platforms

---
 include/qpOASES/Types.hpp | 12 ++++++------
 src/Utils.cpp             |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/qpOASES/Types.hpp b/include/qpOASES/Types.hpp
index d47e4d5..b932a34 100644
--- a/include/qpOASES/Types.hpp
+++ b/include/qpOASES/Types.hpp
@@ -315,7 +315,7 @@ struct TabularOutput {
 /**
  *	\brief Struct containing the variable header for mat file.
  *
- *	Struct storing the header of a variable to be stored in
+ *	Struct storing the header (32-bit integers) of a variable to be stored in
  *	Matlab's binary format (using the outdated Level 4 variant
  *  for simplictiy).
  *
@@ -327,11 +327,11 @@ struct TabularOutput {
  *	\date 2013-2017
  */
 typedef struct {
-	long numericFormat;		/**< Flag indicating numerical format. */
-	long nRows;				/**< Number of rows. */
-	long nCols;				/**< Number of rows. */
-	long imaginaryPart;		/**< (to be documented) */
-	long nCharName;			/**< Number of character in name. */
+	int numericFormat;		/**< Flag indicating numerical format. */
+	int nRows;				/**< Number of rows. */
+	int nCols;				/**< Number of rows. */
+	int imaginaryPart;		/**< (to be documented) */
+	int nCharName;			/**< Number of character in name. */
 } MatMatrixHeader;
 
 
diff --git a/src/Utils.cpp b/src/Utils.cpp
index 6b15b62..066a008 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -520,10 +520,10 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 
 	// setup variable header
 	var.numericFormat = 0000;  /* IEEE Little Endian - reserved - double precision (64 bits) - numeric full matrix */
-	var.nRows         = nRows; /* number of rows */
-	var.nCols         = nCols; /* number of columns */
+	var.nRows         = (int)nRows; /* number of rows */
+	var.nCols         = (int)nCols; /* number of columns */
 	var.imaginaryPart = 0;     /* no imaginary part */
-	var.nCharName     = (long)(strlen(name))+1; /* matrix name length */
+	var.nCharName     = (int)(strlen(name))+1; /* matrix name length */
 
 	/* write variable header to mat file */
 	if ( fwrite( &var, sizeof(MatMatrixHeader),1,  matFile ) < 1 )
-- 
2.43.0


From e88f0949be0b0ea8e95bafa42a35aedbff114253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 071/134] fix: exporting QP data with trivial Hessian or
 without constraint matrix dereferenced null pointers

---
 src/QProblem.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index becab63..f89ae32 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6627,15 +6627,31 @@ returnValue QProblem::writeQpDataIntoMatFile(	const char* const filename
 	int_t nV = getNV();
 	int_t nC = getNC();
 
-	real_t* Hfull = H->full();
+	real_t* Hfull;
+
+	if ( H != 0 )
+	{
+		Hfull = H->full();
+	}
+	else
+	{
+		/* trivial Hessians are not stored explicitly */
+		Hfull = new real_t[nV*nV];
+		for( int_t i=0; i<nV*nV; ++i )
+			Hfull[i] = ( ( hessianType == HST_IDENTITY ) && ( i % (nV+1) == 0 ) ) ? 1.0 : 0.0;
+	}
+
 	writeIntoMatFile( matFile, Hfull, nV,nV, "H"   );
 	delete[] Hfull;
 
 	writeIntoMatFile( matFile, g,     nV,1,  "g"   );
 
-	real_t* Afull = A->full();
-	writeIntoMatFile( matFile, Afull, nC,nV, "A"   );
-	delete[] Afull;
+	if ( A != 0 )
+	{
+		real_t* Afull = A->full();
+		writeIntoMatFile( matFile, Afull, nC,nV, "A"   );
+		delete[] Afull;
+	}
 
 	writeIntoMatFile( matFile, lb,    nV,1,  "lb"  );
 	writeIntoMatFile( matFile, ub,    nV,1,  "ub"  );
-- 
2.43.0


From 586aefae0809d41e739cfc4a0213995c5f20c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 072/134] fix: hotstart from files rejected omitted Hessian
 file although trivial Hessians need none

---
 src/SQProblem.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index bd02d65..a5b9d95 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -219,7 +219,7 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	returnValue returnvalue;
 
 	/* consistency checks */
-	if ( ( H_file == 0 ) || ( g_file == 0 ) )
+	if ( g_file == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 	if ( ( nC > 0 ) && ( A_file == 0 ) )
@@ -235,10 +235,10 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 
 
 	/* 1) Load new QP matrices from files. */
-	real_t* H_new  = new real_t[nV*nV];
+	real_t* H_new  = ( H_file != 0 ) ? new real_t[nV*nV] : 0; /* trivial Hessians need no file */
 	real_t* A_new  = new real_t[nC*nV];
 
-	if ( readFromFile( H_new, nV,nV, H_file ) != SUCCESSFUL_RETURN )
+	if ( ( H_file != 0 ) && ( readFromFile( H_new, nV,nV, H_file ) != SUCCESSFUL_RETURN ) )
 	{
 		delete[] A_new;
 		delete[] H_new;
@@ -280,8 +280,12 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	}
 
 	/* 3) Actually perform hotstart with matrices that own the loaded data. */
-	SymDenseMat* sH = new SymDenseMat( nV,nV,nV, H_new );
-	sH->doFreeMemory( );
+	SymDenseMat* sH = 0;
+	if ( H_new != 0 )
+	{
+		sH = new SymDenseMat( nV,nV,nV, H_new );
+		sH->doFreeMemory( );
+	}
 
 	DenseMatrix* dA = new DenseMatrix( nC,nV,nV, A_new );
 	dA->doFreeMemory( );
@@ -292,7 +296,7 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 							);
 
 	/* matrices in use are released together with the QP object */
-	if ( H == sH )
+	if ( ( sH != 0 ) && ( H == sH ) )
 		freeHessian = BT_TRUE;
 	else
 		delete sH;
-- 
2.43.0


From 54fdd973322d073b64e8ba1a4d4868085c991038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 073/134] fix: rejected Cholesky factor file left Hessian type
 of the rejected problem

---
 src/QProblem.cpp  | 4 ++++
 src/QProblemB.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index f89ae32..8bde1fc 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -449,7 +449,11 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 		/* Also read Cholesky factor from file and store it directly into R [thus... */
 		returnValue returnvalue = readFromFile( R, nV,nV, R_file );
 		if ( returnvalue != SUCCESSFUL_RETURN )
+		{
+			/* a rejected initialisation must not affect subsequent ones */
+			hessianType = previousHessianType;
 			return THROWWARNING( returnvalue );
+		}
 
 		/* 3) Call to main initialisation routine. ...passing R here!] */
 		return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,R, nWSR,cputime );
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 24388e9..b95ad98 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -417,7 +417,11 @@ returnValue QProblemB::init( 	const char* const H_file, const char* const g_file
 		/* Also read Cholesky factor from file and store it directly into R [thus... */
 		returnValue returnvalue = readFromFile( R, nV,nV, R_file );
 		if ( returnvalue != SUCCESSFUL_RETURN )
+		{
+			/* a rejected initialisation must not affect subsequent ones */
+			hessianType = previousHessianType;
 			return THROWWARNING( returnvalue );
+		}
 
 		/* 3) Call to main initialisation routine. ...passing R here!] */
 		return solveInitialQP( xOpt,yOpt,guessedBounds,R, nWSR,cputime );
-- 
2.43.0


From 2add46c3cde6d3f3dbf1d0fd52ff884859251f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 074/134] fix: Cholesky factors read from file were used in
 transposed order

---
 src/QProblem.cpp  | 21 +++++++++++----------
 src/QProblemB.cpp | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8bde1fc..5ea9dc5 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -446,17 +446,23 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 	}
 	else
 	{
-		/* Also read Cholesky factor from file and store it directly into R [thus... */
-		returnValue returnvalue = readFromFile( R, nV,nV, R_file );
+		/* Also read (row-wise stored) Cholesky factor from file. */
+		real_t* _R = new real_t[nV*nV];
+		returnValue returnvalue = readFromFile( _R, nV,nV, R_file );
 		if ( returnvalue != SUCCESSFUL_RETURN )
 		{
+			delete[] _R;
+
 			/* a rejected initialisation must not affect subsequent ones */
 			hessianType = previousHessianType;
 			return THROWWARNING( returnvalue );
 		}
 
-		/* 3) Call to main initialisation routine. ...passing R here!] */
-		return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,R, nWSR,cputime );
+		/* 3) Call to main initialisation routine. */
+		returnvalue = solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,_R, nWSR,cputime );
+		delete[] _R;
+
+		return returnvalue;
 	}
 }
 
@@ -1488,12 +1494,7 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 		}
 		else
 		{
-			if ( _R == R )
-			{
-				/* Cholesky factor read from file and already loaded into R. */
-				haveCholesky = BT_TRUE;
-			}
-			else if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) && ( guessedConstraints == 0 ) )
+			if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) && ( guessedConstraints == 0 ) )
 			{
 				for( i=0; i<nV; ++i )
 					for( j=i; j<nV; ++j )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index b95ad98..02834c8 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -414,17 +414,23 @@ returnValue QProblemB::init( 	const char* const H_file, const char* const g_file
 	}
 	else
 	{
-		/* Also read Cholesky factor from file and store it directly into R [thus... */
-		returnValue returnvalue = readFromFile( R, nV,nV, R_file );
+		/* Also read (row-wise stored) Cholesky factor from file. */
+		real_t* _R = new real_t[nV*nV];
+		returnValue returnvalue = readFromFile( _R, nV,nV, R_file );
 		if ( returnvalue != SUCCESSFUL_RETURN )
 		{
+			delete[] _R;
+
 			/* a rejected initialisation must not affect subsequent ones */
 			hessianType = previousHessianType;
 			return THROWWARNING( returnvalue );
 		}
 
-		/* 3) Call to main initialisation routine. ...passing R here!] */
-		return solveInitialQP( xOpt,yOpt,guessedBounds,R, nWSR,cputime );
+		/* 3) Call to main initialisation routine. */
+		returnvalue = solveInitialQP( xOpt,yOpt,guessedBounds,_R, nWSR,cputime );
+		delete[] _R;
+
+		return returnvalue;
 	}
 }
 
@@ -2449,12 +2455,7 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 		}
 		else
 		{
-			if ( _R == R )
-			{
-				/* Cholesky factor read from file and already loaded into R. */
-				haveCholesky = BT_TRUE;
-			}
-			else if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) )
+			if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) )
 			{
 				for( i=0; i<nV; ++i )
 					for( j=i; j<nV; ++j )
-- 
2.43.0


From 0978357b4f0208b43113e567d93dd298dc9ba249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 075/134] fix: reading incomplete benchmark solutions deleted
 the wrong pointers

---
 src/OQPinterface.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index f63168a..8cf5816 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -182,7 +182,7 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sx_opt.oqp",path );
 		if ( readFromFile( *xOpt,nQP,nV,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] xOpt;
+			delete[] *xOpt;
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -196,8 +196,8 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sy_opt.oqp",path );
 		if ( readFromFile( *yOpt,nQP,nV+nC,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] yOpt;
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *yOpt;
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -211,9 +211,9 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sobj_opt.oqp",path );
 		if ( readFromFile( *objOpt,nQP,1,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] objOpt;
-			if ( yOpt != 0 ) { delete[] yOpt; };
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *objOpt;
+			if ( yOpt != 0 ) { delete[] *yOpt; };
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
-- 
2.43.0


From b8125b61e82d5b665ff02c8411a913e3d369adda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 076/134] fix: reading benchmarks without constraints
 dereferenced omitted outputs

---
 src/OQPinterface.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index 8cf5816..7d0aee0 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -170,9 +170,12 @@ returnValue readOqpData(	const char* path,
 	}
 	else
 	{
-		*A = 0;
-		*lbA = 0;
-		*ubA = 0;
+		if ( A != 0 )
+			*A = 0;
+		if ( lbA != 0 )
+			*lbA = 0;
+		if ( ubA != 0 )
+			*ubA = 0;
 	}
 
 	if ( xOpt != 0 )
-- 
2.43.0


From 9ce9d8c87e309ec3676b606a0bba388b90461f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 077/134] fix: solving benchmarks without constraints copied
 from a null pointer

---
 src/OQPinterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index 7d0aee0..77f412e 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -307,7 +307,8 @@ returnValue solveOqpBenchmark(	int_t nQP, int_t nV, int_t nC, int_t nEC,
 	real_t* H_cpy = new real_t[nV*nV];
 	memcpy( H_cpy,_H, ((uint_t)(nV*nV))*sizeof(real_t) );
 	real_t* A_cpy = new real_t[nC*nV];
-	memcpy( A_cpy,_A, ((uint_t)(nC*nV))*sizeof(real_t) );
+	if ( nC > 0 )
+		memcpy( A_cpy,_A, ((uint_t)(nC*nV))*sizeof(real_t) );
 
 	if ( isSparse == BT_TRUE )
 	{
-- 
2.43.0


From 31b78b99b10bb432f05d001922b1ec55c7b7bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 078/134] fix: benchmark members not solved within the limit
 were scored with uninitialised vectors

---
 src/OQPinterface.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index 77f412e..67b2eb5 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -300,6 +300,11 @@ returnValue solveOqpBenchmark(	int_t nQP, int_t nV, int_t nC, int_t nEC,
 	real_t* y = new real_t[nV+nC];
 	//real_t obj;
 
+	for( k=0; k<nV; ++k )
+		x[k] = 0.0;
+	for( k=0; k<nV+nC; ++k )
+		y[k] = 0.0;
+
 	/* 4) Prepare matrix objects */
 	SymmetricMatrix *H; 
 	Matrix *A;
@@ -473,6 +478,12 @@ returnValue solveOqpBenchmark(	int_t nQP, int_t nV,
 	real_t* y = new real_t[nV];
 	//real_t  obj;
 
+	for( k=0; k<nV; ++k )
+	{
+		x[k] = 0.0;
+		y[k] = 0.0;
+	}
+
 	/* 4) Prepare matrix objects */
 	SymmetricMatrix *H; 
 	real_t* H_cpy = new real_t[nV*nV];
-- 
2.43.0


From 55ab17f5b1b04ecd0102767d749939c00562207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 079/134] fix: C interface: the reliable option preset fell
 through into the MPC preset

---
 interfaces/c/qpOASES_wrapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index 4b5e5b4..610dfa1 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -146,8 +146,9 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
 			#else
 			options->numRefinementSteps            =  2;
 			#endif
+			break;
+
 
-			
 		case 2:
 			/* MPC */
 			options->enableRamping                 =  BT_FALSE;
@@ -171,6 +172,7 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
 			#else
 			options->numRefinementSteps            =  0;
 			#endif
+			break;
 	}
 	
 	return 0;
-- 
2.43.0


From aac5cde94037eee5c492fee55eba39bcd399bebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 080/134] fix: C interface: options rcondSMin and
 enableInertiaCorrection were neither initialised nor passed on

---
 interfaces/c/qpOASES_wrapper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index 610dfa1..f7eb981 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -128,6 +128,11 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
     options->dropEqConPriority             =  1;
     options->dropIneqConPriority           =  1;
 
+	options->enableInertiaCorrection       =  BT_TRUE;
+	options->rcondSMin                     =  1.0e-14;
+
+	options->printResiduals                =  BT_FALSE;
+
 
 	switch ( mode )
 	{
@@ -228,6 +233,9 @@ int_t qpOASES_Options_copy(	const qpOASES_Options* const from,
     to->dropEqConPriority             =  from->dropEqConPriority;
     to->dropIneqConPriority           =  from->dropIneqConPriority;
 
+	to->enableInertiaCorrection       =  (BooleanType)(from->enableInertiaCorrection);
+	to->rcondSMin                     =  from->rcondSMin;
+
 	return 0;
 }
 
-- 
2.43.0


From 97234121ece0ce3af79aa7931fbb6973cb755ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 081/134] fix: MEX interfaces: array holding the user-supplied
 Cholesky factor was released with scalar delete

---
 interfaces/matlab/qpOASES.cpp          | 4 ++--
 interfaces/matlab/qpOASES_sequence.cpp | 2 +-
 interfaces/octave/qpOASES.cpp          | 4 ++--
 interfaces/octave/qpOASES_sequence.cpp | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/matlab/qpOASES.cpp b/interfaces/matlab/qpOASES.cpp
index 5c5274f..ff59118 100644
--- a/interfaces/matlab/qpOASES.cpp
+++ b/interfaces/matlab/qpOASES.cpp
@@ -564,7 +564,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -590,7 +590,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							isSparse
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index b10aede..9c97a42 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -660,7 +660,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
diff --git a/interfaces/octave/qpOASES.cpp b/interfaces/octave/qpOASES.cpp
index 0c1fd01..7c3c6c5 100644
--- a/interfaces/octave/qpOASES.cpp
+++ b/interfaces/octave/qpOASES.cpp
@@ -541,7 +541,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -566,7 +566,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,guessedConstraints,R
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 7ddfa32..84d6bc8 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -649,7 +649,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
-- 
2.43.0


From 5f60a6ae0ab04fb1da21a3c59b4e675bc3fe0e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 082/134] fix: MEX interfaces: CPU time of every QP of a series
 was written to the first entry of auxOutput.cpuTime

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 2 +-
 interfaces/octave/qpOASES_octave_utils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 5a10400..beae521 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -823,7 +823,7 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 						/* cpu time */
 						curField = mxGetField( auxOutput,0,"cpuTime" );
 						double* cpuTime = mxGetPr(curField);
-						cpuTime[0] = (double) _cpuTime;
+						cpuTime[k] = (double) _cpuTime;
 					}
 				}
 			}
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index bc48616..16b1c00 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -813,7 +813,7 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 						/* cpu time */
 						curField = mxGetField( auxOutput,0,"cpuTime" );
 						double* cpuTime = mxGetPr(curField);
-						cpuTime[0] = (double) _cpuTime;
+						cpuTime[k] = (double) _cpuTime;
 					}
 				}
 			}
-- 
2.43.0


From 1c4982ba8624eae7e8d5ce6b43f06b5a2c565293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 083/134] fix: MEX interfaces: solving the current EQP of a
 simply bounded QP dereferenced a null pointer

---
 interfaces/matlab/qpOASES_sequence.cpp | 7 +++++++
 interfaces/octave/qpOASES_sequence.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 9c97a42..c718401 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -986,6 +986,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		/* Simply bounded QPs do not offer to solve the current EQP. */
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Current EQP can only be solved for QPs with general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		int_t nRHS = (int_t)mxGetN(prhs[2]);
 		nV = globalQP->getNV( );
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 84d6bc8..02ad8c4 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -975,6 +975,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		/* Simply bounded QPs do not offer to solve the current EQP. */
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Current EQP can only be solved for QPs with general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		int_t nRHS = (int_t)mxGetN(prhs[2]);
 		nV = globalQP->getNV( );
-- 
2.43.0


From 5c676aec6f32deba96b23f3788e7a80ca762a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 084/134] fix: MEX interfaces: buffer for multipliers of
 current EQP was too small for several right-hand sides

---
 interfaces/matlab/qpOASES_sequence.cpp | 2 +-
 interfaces/octave/qpOASES_sequence.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index c718401..e7d7949 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -1067,7 +1067,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			}
 		}
 		else
-			y_out = new real_t[nV+nC];
+			y_out = new real_t[(nV+nC)*nRHS];
 
 		/* Solve equality constrained QP */
 		returnValue returnvalue = globalQP->sqp->solveCurrentEQP( nRHS,g,lb,ub,lbA,ubA, x_out,y_out );
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 02ad8c4..e456d95 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -1056,7 +1056,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			}
 		}
 		else
-			y_out = new real_t[nV+nC];
+			y_out = new real_t[(nV+nC)*nRHS];
 
 		/* Solve equality constrained QP */
 		returnValue returnvalue = globalQP->sqp->solveCurrentEQP( nRHS,g,lb,ub,lbA,ubA, x_out,y_out );
-- 
2.43.0


From ef4d373222c94cd50381f0ab0c20ca9ca9754a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 085/134] fix: MEX interfaces: working set returned by EQP call
 was only written to its first column

---
 interfaces/matlab/qpOASES_sequence.cpp | 6 ++++--
 interfaces/octave/qpOASES_sequence.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index e7d7949..1bc27a0 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -1056,13 +1056,15 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			{
 				plhs[2] = mxCreateDoubleMatrix( nV, nRHS, mxREAL );
 				real_t* workingSetB = mxGetPr(plhs[2]);
-				globalQP->sqp->getWorkingSetBounds(workingSetB);
+				for (int_t k = 0; k < nRHS; ++k)
+					globalQP->sqp->getWorkingSetBounds( &(workingSetB[k*nV]) );
 
 				if ( nlhs >= 4 )
 				{
 					plhs[3] = mxCreateDoubleMatrix( nC, nRHS, mxREAL );
 					real_t* workingSetC = mxGetPr(plhs[3]);
-					globalQP->sqp->getWorkingSetConstraints(workingSetC);
+					for (int_t k = 0; k < nRHS; ++k)
+						globalQP->sqp->getWorkingSetConstraints( &(workingSetC[k*nC]) );
 				}
 			}
 		}
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index e456d95..a66b64f 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -1045,13 +1045,15 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			{
 				plhs[2] = mxCreateDoubleMatrix( nV, nRHS, mxREAL );
 				real_t* workingSetB = mxGetPr(plhs[2]);
-				globalQP->sqp->getWorkingSetBounds(workingSetB);
+				for (int_t k = 0; k < nRHS; ++k)
+					globalQP->sqp->getWorkingSetBounds( &(workingSetB[k*nV]) );
 
 				if ( nlhs >= 4 )
 				{
 					plhs[3] = mxCreateDoubleMatrix( nC, nRHS, mxREAL );
 					real_t* workingSetC = mxGetPr(plhs[3]);
-					globalQP->sqp->getWorkingSetConstraints(workingSetC);
+					for (int_t k = 0; k < nRHS; ++k)
+						globalQP->sqp->getWorkingSetConstraints( &(workingSetC[k*nC]) );
 				}
 			}
 		}
-- 
2.43.0


From f8cdeec8ca6864d3ccdc38499bb7eaa899d24c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 086/134] fix: MEX interfaces: vector arguments that are not of
 class double were read as if they were

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 20 ++++++++++++++++++++
 interfaces/octave/qpOASES_octave_utils.cpp | 20 ++++++++++++++++++++
 2 files changed, 40 insertions(+)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index beae521..0dec8ae 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -273,6 +273,17 @@ returnValue smartDimensionCheck(	real_t** input, uint_t m, uint_t n, BooleanType
 	else
 	{
 		/* input is non-empty */
+		if ( mxIsDouble( prhs[ idx ] ) == false )
+		{
+			char msg[MAX_STRING_LENGTH];
+			if ( idx > 0 )
+				snprintf(msg, MAX_STRING_LENGTH, "ERROR (qpOASES): Argument %d has to be provided in double precision!", idx+1);
+			else /* idx==0 used for auxInput */
+				snprintf(msg, MAX_STRING_LENGTH, "ERROR (qpOASES): auxInput entries have to be provided in double precision!" );
+			myMexErrMsgTxt( msg );
+			return RET_INVALID_ARGUMENTS;
+		}
+
         if ( mxIsSparse( prhs[ idx ] ) == 0 )
         {
             if ( ( mxGetM( prhs[ idx ] ) == m ) && ( mxGetN( prhs[ idx ] ) == n ) )
@@ -359,6 +370,15 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 	if ( rhs_index < 0 )
 		return BT_FALSE;
 
+	/* entries can only be inspected if given as double precision numbers */
+	if ( ( mxIsEmpty(prhs[rhs_index]) == false ) && ( mxIsDouble(prhs[rhs_index]) == false ) )
+	{
+		snprintf(msg, MAX_STRING_LENGTH,
+				"ERROR (qpOASES): Argument %d has to be provided in double precision!", rhs_index + 1);
+		myMexErrMsgTxt(msg);
+		return BT_TRUE;
+	}
+
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
 		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 16b1c00..1a90f9b 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -263,6 +263,17 @@ returnValue smartDimensionCheck(	real_t** input, uint_t m, uint_t n, BooleanType
 	else
 	{
 		/* input is non-empty */
+		if ( mxIsDouble( prhs[ idx ] ) == false )
+		{
+			char msg[MAX_STRING_LENGTH];
+			if ( idx > 0 )
+				snprintf(msg, MAX_STRING_LENGTH, "ERROR (qpOASES): Argument %d has to be provided in double precision!", idx+1);
+			else /* idx==0 used for auxInput */
+				snprintf(msg, MAX_STRING_LENGTH, "ERROR (qpOASES): auxInput entries have to be provided in double precision!" );
+			myMexErrMsgTxt( msg );
+			return RET_INVALID_ARGUMENTS;
+		}
+
         if ( mxIsSparse( prhs[ idx ] ) == 0 )
         {
             if ( ( mxGetM( prhs[ idx ] ) == m ) && ( mxGetN( prhs[ idx ] ) == n ) )
@@ -349,6 +360,15 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 	if ( rhs_index < 0 )
 		return BT_FALSE;
 
+	/* entries can only be inspected if given as double precision numbers */
+	if ( ( mxIsEmpty(prhs[rhs_index]) == false ) && ( mxIsDouble(prhs[rhs_index]) == false ) )
+	{
+		snprintf(msg, MAX_STRING_LENGTH,
+				"ERROR (qpOASES): Argument %d has to be provided in double precision!", rhs_index + 1);
+		myMexErrMsgTxt(msg);
+		return BT_TRUE;
+	}
+
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
 		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
-- 
2.43.0


From 00c5fcc27073a43b51074294ad0c2116fa4023de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 087/134] fix: MEX interfaces: check for NaN and Inf read
 unused entries of sparse matrices

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 2 +-
 interfaces/octave/qpOASES_octave_utils.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 0dec8ae..c3d747d 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -381,7 +381,7 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
-		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
+		dim = (uint_t)mxGetJc(prhs[rhs_index])[mxGetN(prhs[rhs_index])];
 	else
 		dim = (uint_t)(mxGetM(prhs[rhs_index]) * mxGetN(prhs[rhs_index]));
 
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 1a90f9b..5cab4df 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -371,7 +371,7 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
-		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
+		dim = (uint_t)mxGetJc(prhs[rhs_index])[mxGetN(prhs[rhs_index])];
 	else
 		dim = (uint_t)(mxGetM(prhs[rhs_index]) * mxGetN(prhs[rhs_index]));
 
-- 
2.43.0


From 7fa107301d9051dd2e2d0bd56ee3aa2f21e56f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 088/134] fix: MEX interfaces: initial guesses and auxiliary
 inputs were not checked for NaN, Inf and invalid Hessian type

---
 interfaces/matlab/qpOASES.cpp              |  6 ++++-
 interfaces/matlab/qpOASES_matlab_utils.cpp | 27 ++++++++++++++++------
 interfaces/matlab/qpOASES_sequence.cpp     |  6 ++++-
 interfaces/octave/qpOASES.cpp              |  6 ++++-
 interfaces/octave/qpOASES_octave_utils.cpp | 27 ++++++++++++++++------
 interfaces/octave/qpOASES_sequence.cpp     |  6 ++++-
 6 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/interfaces/matlab/qpOASES.cpp b/interfaces/matlab/qpOASES.cpp
index ff59118..29e68ab 100644
--- a/interfaces/matlab/qpOASES.cpp
+++ b/interfaces/matlab/qpOASES.cpp
@@ -507,6 +507,9 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 	if ( smartDimensionCheck( &ub,nV,nP, BT_TRUE,prhs,ub_idx ) != SUCCESSFUL_RETURN )
 		return;
 
+	if (containsNaNorInf( prhs,x0_idx, 0 ) == BT_TRUE)
+		return;
+
 	if ( smartDimensionCheck( &x0,nV,1, BT_TRUE,prhs,x0_idx ) != SUCCESSFUL_RETURN )
 		return;
 
@@ -520,7 +523,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 	}
 
 	if ( auxInput_idx >= 0 )
-		setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for );
+		if ( setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for ) != SUCCESSFUL_RETURN )
+			return;
 
 	/* convert Cholesky factor to C storage format */
 	if ( R_for != 0 )
diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index c3d747d..184b5b4 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -633,15 +633,16 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		}
 		else
 		{
-			if ( mxIsScalar(curField) == false )
+			if ( ( mxIsScalar(curField) == false ) || ( mxIsNumeric(curField) == false ) )
+			{
+				myMexErrMsgTxt( "ERROR (qpOASES): auxInput entry 'hessianType' has to be a numeric scalar!" );
 				return RET_INVALID_ARGUMENTS;
+			}
 
-			double* hessianTypeTmp = mxGetPr(curField);
-			int_t hessianTypeInt = (int_t)*hessianTypeTmp;
-			if ( hessianTypeInt < 0 ) 
-				hessianTypeInt = 6; /* == HST_UNKNOWN */
-			if ( hessianTypeInt > 5 ) 
-				hessianTypeInt = 6; /* == HST_UNKNOWN */
+			double hessianTypeTmp = mxGetScalar(curField);
+			int_t hessianTypeInt = 6; /* == HST_UNKNOWN */
+			if ( ( hessianTypeTmp > -1.0 ) && ( hessianTypeTmp < 6.0 ) )
+				hessianTypeInt = (int_t)hessianTypeTmp;
 			*hessianType = (REFER_NAMESPACE_QPOASES HessianType)hessianTypeInt;
 		}
 	}
@@ -655,6 +656,12 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		*x0 = mxGetPr(curField);
 		if ( smartDimensionCheck( x0,nV,1, BT_TRUE,((const mxArray**)&curField),0 ) != SUCCESSFUL_RETURN )
 			return RET_INVALID_ARGUMENTS;
+
+		if ( ( containsNaN( *x0,nV ) == BT_TRUE ) || ( containsInf( *x0,nV ) == BT_TRUE ) )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): auxInput entry 'x0' contains 'NaN' or 'Inf' !" );
+			return RET_INVALID_ARGUMENTS;
+		}
 	}
 
 	/* guessedWorkingSetB */
@@ -688,6 +695,12 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		*R = mxGetPr(curField);
 		if ( smartDimensionCheck( R,nV,nV, BT_TRUE,((const mxArray**)&curField),0 ) != SUCCESSFUL_RETURN )
 			return RET_INVALID_ARGUMENTS;
+
+		if ( ( containsNaN( *R,nV*nV ) == BT_TRUE ) || ( containsInf( *R,nV*nV ) == BT_TRUE ) )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): auxInput entry 'R' contains 'NaN' or 'Inf' !" );
+			return RET_INVALID_ARGUMENTS;
+		}
 	}
 
 	return SUCCESSFUL_RETURN;
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 1bc27a0..8ced4f1 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -602,11 +602,15 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 
 
 		/* check dimensions and copy auxInputs */
+		if (containsNaNorInf( prhs,x0_idx, 0 ) == BT_TRUE)
+			return;
+
 		if ( smartDimensionCheck( &x0,nV,1, BT_TRUE,prhs,x0_idx ) != SUCCESSFUL_RETURN )
 			return;
 
 		if ( auxInput_idx >= 0 )
-			setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for );
+			if ( setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for ) != SUCCESSFUL_RETURN )
+				return;
 
 		/* convert Cholesky factor to C storage format */
 		if ( R_for != 0 )
diff --git a/interfaces/octave/qpOASES.cpp b/interfaces/octave/qpOASES.cpp
index 7c3c6c5..ab17f10 100644
--- a/interfaces/octave/qpOASES.cpp
+++ b/interfaces/octave/qpOASES.cpp
@@ -490,6 +490,9 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 	if ( smartDimensionCheck( &ub,nV,nP, BT_TRUE,prhs,ub_idx ) != SUCCESSFUL_RETURN )
 		return;
 
+	if (containsNaNorInf( prhs,x0_idx, 0 ) == BT_TRUE)
+		return;
+
 	if ( smartDimensionCheck( &x0,nV,1, BT_TRUE,prhs,x0_idx ) != SUCCESSFUL_RETURN )
 		return;
 
@@ -503,7 +506,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 	}
 
 	if ( auxInput_idx >= 0 )
-		setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for );
+		if ( setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for ) != SUCCESSFUL_RETURN )
+			return;
 
 	/* convert Cholesky factor to C storage format */
 	if ( R_for != 0 )
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 5cab4df..6cefecd 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -623,15 +623,16 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		}
 		else
 		{
-			if ( mxIsScalar(curField) == false )
+			if ( ( mxIsScalar(curField) == false ) || ( mxIsNumeric(curField) == false ) )
+			{
+				myMexErrMsgTxt( "ERROR (qpOASES): auxInput entry 'hessianType' has to be a numeric scalar!" );
 				return RET_INVALID_ARGUMENTS;
+			}
 
-			double* hessianTypeTmp = mxGetPr(curField);
-			int_t hessianTypeInt = (int_t)*hessianTypeTmp;
-			if ( hessianTypeInt < 0 ) 
-				hessianTypeInt = 6; /* == HST_UNKNOWN */
-			if ( hessianTypeInt > 5 ) 
-				hessianTypeInt = 6; /* == HST_UNKNOWN */
+			double hessianTypeTmp = mxGetScalar(curField);
+			int_t hessianTypeInt = 6; /* == HST_UNKNOWN */
+			if ( ( hessianTypeTmp > -1.0 ) && ( hessianTypeTmp < 6.0 ) )
+				hessianTypeInt = (int_t)hessianTypeTmp;
 			*hessianType = (REFER_NAMESPACE_QPOASES HessianType)hessianTypeInt;
 		}
 	}
@@ -645,6 +646,12 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		*x0 = mxGetPr(curField);
 		if ( smartDimensionCheck( x0,nV,1, BT_TRUE,((const mxArray**)&curField),0 ) != SUCCESSFUL_RETURN )
 			return RET_INVALID_ARGUMENTS;
+
+		if ( ( containsNaN( *x0,nV ) == BT_TRUE ) || ( containsInf( *x0,nV ) == BT_TRUE ) )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): auxInput entry 'x0' contains 'NaN' or 'Inf' !" );
+			return RET_INVALID_ARGUMENTS;
+		}
 	}
 
 	/* guessedWorkingSetB */
@@ -678,6 +685,12 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		*R = mxGetPr(curField);
 		if ( smartDimensionCheck( R,nV,nV, BT_TRUE,((const mxArray**)&curField),0 ) != SUCCESSFUL_RETURN )
 			return RET_INVALID_ARGUMENTS;
+
+		if ( ( containsNaN( *R,nV*nV ) == BT_TRUE ) || ( containsInf( *R,nV*nV ) == BT_TRUE ) )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): auxInput entry 'R' contains 'NaN' or 'Inf' !" );
+			return RET_INVALID_ARGUMENTS;
+		}
 	}
 
 	return SUCCESSFUL_RETURN;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index a66b64f..570aedf 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -597,11 +597,15 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 
 
 		/* check dimensions and copy auxInputs */
+		if (containsNaNorInf( prhs,x0_idx, 0 ) == BT_TRUE)
+			return;
+
 		if ( smartDimensionCheck( &x0,nV,1, BT_TRUE,prhs,x0_idx ) != SUCCESSFUL_RETURN )
 			return;
 
 		if ( auxInput_idx >= 0 )
-			setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for );
+			if ( setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for ) != SUCCESSFUL_RETURN )
+				return;
 
 		/* convert Cholesky factor to C storage format */
 		if ( R_for != 0 )
-- 
2.43.0


From 21a3797de8c50f7eab2ea2e451c1de9f62d50c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 089/134] fix: MEX interfaces: handle values that are not
 representable as integer caused undefined behaviour or addressed other QP
 instances

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 16 ++++++++++++++++
 interfaces/matlab/qpOASES_sequence.cpp     | 17 +++++++++--------
 interfaces/octave/qpOASES_octave_utils.cpp | 16 ++++++++++++++++
 interfaces/octave/qpOASES_sequence.cpp     | 17 +++++++++--------
 4 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 184b5b4..50966e7 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -219,6 +219,22 @@ QPInstance* getQPInstance( int_t handle )
 }
 
 
+/*
+ *  g e t Q P r o b l e m I n s t a n c e
+ */
+QPInstance* getQPInstance( const mxArray* prhs )
+{
+	uint_t ii;
+	double handle = mxGetScalar( prhs );
+
+	/* compare as real numbers as a user-supplied value need not be representable as integer */
+	for (ii = 0; ii < g_instances.size (); ++ii)
+		if ((double)(g_instances[ii]->handle) == handle)
+			return g_instances[ii];
+	return 0;
+}
+
+
 /*
  *	d e l e t e Q P r o b l e m I n s t a n c e
  */
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 8ced4f1..280296d 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -698,13 +698,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
-		globalQP = getQPInstance( handle );
+		globalQP = getQPInstance( prhs[1] );
 		if ( globalQP == 0 )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Invalid handle to QP instance!" );
 			return;
 		}
+		handle = (uint_t)globalQP->handle;
 
 		nV = globalQP->getNV();
 
@@ -831,13 +831,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
-		globalQP = getQPInstance( handle );
+		globalQP = getQPInstance( prhs[1] );
 		if ( globalQP == 0 )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Invalid handle to QP instance!" );
 			return;
 		}
+		handle = (uint_t)globalQP->handle;
 
 		/* Check inputs dimensions and assign pointers to inputs. */
 		g_idx = 3;
@@ -982,13 +982,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
-		globalQP = getQPInstance( handle );
+		globalQP = getQPInstance( prhs[1] );
 		if ( globalQP == 0 )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Invalid handle to QP instance!" );
 			return;
 		}
+		handle = (uint_t)globalQP->handle;
 
 		/* Simply bounded QPs do not offer to solve the current EQP. */
 		if ( globalQP->sqp == 0 )
@@ -1115,8 +1115,9 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* Cleanup SQProblem instance. */
-		handle = (uint_t)mxGetScalar( prhs[1] );
-		deleteQPInstance( handle );
+		globalQP = getQPInstance( prhs[1] );
+		if ( globalQP != 0 )
+			deleteQPInstance( globalQP->handle );
 		
 		return;
 	}
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 6cefecd..f5f8c45 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -209,6 +209,22 @@ QPInstance* getQPInstance( int_t handle )
 }
 
 
+/*
+ *  g e t Q P r o b l e m I n s t a n c e
+ */
+QPInstance* getQPInstance( const mxArray* prhs )
+{
+	uint_t ii;
+	double handle = mxGetScalar( prhs );
+
+	/* compare as real numbers as a user-supplied value need not be representable as integer */
+	for (ii = 0; ii < g_instances.size (); ++ii)
+		if ((double)(g_instances[ii]->handle) == handle)
+			return g_instances[ii];
+	return 0;
+}
+
+
 /*
  *	d e l e t e Q P r o b l e m I n s t a n c e
  */
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 570aedf..8ea898e 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -687,13 +687,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
-		globalQP = getQPInstance( handle );
+		globalQP = getQPInstance( prhs[1] );
 		if ( globalQP == 0 )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Invalid handle to QP instance!" );
 			return;
 		}
+		handle = (uint_t)globalQP->handle;
 
 		nV = globalQP->getNV();
 
@@ -820,13 +820,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
-		globalQP = getQPInstance( handle );
+		globalQP = getQPInstance( prhs[1] );
 		if ( globalQP == 0 )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Invalid handle to QP instance!" );
 			return;
 		}
+		handle = (uint_t)globalQP->handle;
 
 		/* Check inputs dimensions and assign pointers to inputs. */
 		g_idx = 3;
@@ -971,13 +971,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
-		globalQP = getQPInstance( handle );
+		globalQP = getQPInstance( prhs[1] );
 		if ( globalQP == 0 )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Invalid handle to QP instance!" );
 			return;
 		}
+		handle = (uint_t)globalQP->handle;
 
 		/* Simply bounded QPs do not offer to solve the current EQP. */
 		if ( globalQP->sqp == 0 )
@@ -1104,8 +1104,9 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* Cleanup SQProblem instance. */
-		handle = (uint_t)mxGetScalar( prhs[1] );
-		deleteQPInstance( handle );
+		globalQP = getQPInstance( prhs[1] );
+		if ( globalQP != 0 )
+			deleteQPInstance( globalQP->handle );
 		
 		return;
 	}
-- 
2.43.0


From 4137fb1e649c3cd96267e211f19c695cd2a64d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 090/134] fix: MEX interfaces: trying to modify the matrices of
 a simply bounded QP deleted matrices still in use

---
 interfaces/matlab/qpOASES_sequence.cpp | 7 +++++++
 interfaces/octave/qpOASES_sequence.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 280296d..304d942 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -893,6 +893,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 			return;
 
+		/* matrices of a simply bounded QP cannot be modified */
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Matrices can only be modified for QPs with general constraints!" );
+			return;
+		}
+
 		/* Check that dimensions are consistent with existing QP instance */
 		if (nV != (uint_t) globalQP->getNV () || nC != (uint_t) globalQP->getNC ())
 		{
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 8ea898e..68bf1b8 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -882,6 +882,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 			return;
 
+		/* matrices of a simply bounded QP cannot be modified */
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Matrices can only be modified for QPs with general constraints!" );
+			return;
+		}
+
 		/* Check that dimensions are consistent with existing QP instance */
 		if (nV != (uint_t) globalQP->getNV () || nC != (uint_t) globalQP->getNC ())
 		{
-- 
2.43.0


From d1113399b5dd0e76823feb781f47ecd6ca4c8f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 091/134] fix: MEX interfaces: infeasible, unbounded and
 prematurely stopped QPs were reported as error when modifying matrices

---
 interfaces/matlab/qpOASES_sequence.cpp | 12 +++---------
 interfaces/octave/qpOASES_sequence.cpp | 12 +++---------
 2 files changed, 6 insertions(+), 18 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 304d942..f320d61 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -309,16 +309,10 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
-	switch (returnvalue)
+	if ( getSimpleStatus( returnvalue ) == -1 )
 	{
-		case SUCCESSFUL_RETURN:
-		case RET_QP_UNBOUNDED:
-		case RET_QP_INFEASIBLE:
-			break;
-
-		default:
-			myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
-			return -1;
+		myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
+		return -1;
 	}
 
 	/* 2) Assign lhs arguments. */
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 68bf1b8..6556150 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -309,16 +309,10 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
-	switch (returnvalue)
+	if ( getSimpleStatus( returnvalue ) == -1 )
 	{
-		case SUCCESSFUL_RETURN:
-		case RET_QP_UNBOUNDED:
-		case RET_QP_INFEASIBLE:
-			break;
-
-		default:
-			myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
-			return -1;
+		myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
+		return -1;
 	}
 
 	/* 2) Assign lhs arguments. */
-- 
2.43.0


From 139396f931d9db1afca10d77c69c4e61214f1ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 092/134] fix: MEX interfaces: constraint matrix without
 columns was accepted for non-empty constraints and read out of bounds

---
 interfaces/matlab/qpOASES_sequence.cpp | 4 ++--
 interfaces/octave/qpOASES_sequence.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index f320d61..be86487 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -542,7 +542,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 				return;
 
-			if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+			if ( ( nC > 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 			{
 				myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 				return;
@@ -907,7 +907,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
-		if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+		if ( ( nC > 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 			return;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 6556150..631a289 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -537,7 +537,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 				return;
 
-			if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+			if ( ( nC > 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 			{
 				myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 				return;
@@ -896,7 +896,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
-		if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+		if ( ( nC > 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 			return;
-- 
2.43.0


From 83339d3f1dd5a785225b404e2f7f5ef81d5b4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 093/134] fix: MEX interfaces: zero diagonal entry was not
 inserted into columns of a sparse Hessian ending above the diagonal

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 8 ++++++++
 interfaces/octave/qpOASES_octave_utils.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 50966e7..6ddaac8 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -933,6 +933,14 @@ returnValue setupHessianMatrix(	const mxArray* prhsH, int_t nV,
 				(*Hir)[i + nfill] = (sparse_int_t)(mat_ir[i]);
 				(*Hv)[i + nfill] = (real_t)(v[i]);
 			}
+
+			/* add zero diagonal element if column ends above the diagonal */
+			if ( needInsertDiag == BT_TRUE )
+			{
+				(*Hir)[mat_jc[j+1] + nfill] = (sparse_int_t)j;
+				(*Hv)[mat_jc[j+1] + nfill] = 0.0;
+				nfill++;
+			}
 		}
 		(*Hjc)[nV] = (sparse_int_t)(mat_jc[nV]) + nfill;
 
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index f5f8c45..04c9225 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -923,6 +923,14 @@ returnValue setupHessianMatrix(	const mxArray* prhsH, int_t nV,
 				(*Hir)[i + nfill] = (sparse_int_t)(mat_ir[i]);
 				(*Hv)[i + nfill] = (real_t)(v[i]);
 			}
+
+			/* add zero diagonal element if column ends above the diagonal */
+			if ( needInsertDiag == BT_TRUE )
+			{
+				(*Hir)[mat_jc[j+1] + nfill] = (sparse_int_t)j;
+				(*Hv)[mat_jc[j+1] + nfill] = 0.0;
+				nfill++;
+			}
 		}
 		(*Hjc)[nV] = (sparse_int_t)(mat_jc[nV]) + nfill;
 
-- 
2.43.0


From 3f14d20ceb0a56ec9446f6df9f393e5b959bb213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 094/134] fix: MEX interfaces: option values that are no
 doubles were misread, huge and non-binary values caused undefined behaviour

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 115 ++++++++++++---------
 interfaces/octave/qpOASES_octave_utils.cpp | 115 ++++++++++++---------
 2 files changed, 132 insertions(+), 98 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 6ddaac8..f21ab74 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -446,7 +446,7 @@ returnValue convertFortranToC( const real_t* const M_for, int_t nV, int_t nC, re
 /*
  *	h a s O p t i o n s V a l u e
  */
-BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const optionString, double** optionValue )
+BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const optionString, double* optionValue )
 {
 	mxArray* optionName = mxGetField( optionsPtr,0,optionString );
 
@@ -458,27 +458,44 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 		return BT_FALSE;
 	}
 
-	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) )
+	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) &&
+		 ( ( mxIsNumeric( optionName ) == true ) || ( mxIsLogical( optionName ) == true ) ) &&
+		 ( mxIsNaN( mxGetScalar( optionName ) ) == false ) )
 	{
-		*optionValue = mxGetPr( optionName );
+		*optionValue = mxGetScalar( optionName );
 		return BT_TRUE;
 	}
 	else
 	{
 		char msg[MAX_STRING_LENGTH];
-		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar, using default value instead!", optionString );
+		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a numeric scalar, using default value instead!", optionString );
 		mexWarnMsgTxt( msg );
 		return BT_FALSE;
 	}
 }
 
 
+/*
+ *	c o n v e r t T o I n t
+ */
+int_t convertToInt( double value )
+{
+	/* limit value to the range that can be represented by any integer type in use */
+	if ( value > 2147483647.0 )
+		return 2147483647;
+	if ( value < -2147483647.0 )
+		return -2147483647;
+
+	return (int_t)value;
+}
+
+
 /*
  *	s e t u p O p t i o n s
  */
 returnValue setupOptions( Options* options, const mxArray* optionsPtr, int_t& nWSRin, real_t& maxCpuTime )
 {
-	double* optionValue;
+	double optionValue;
 	int_t optionValueInt;
 
 	/* Check for correct number of option entries;
@@ -488,113 +505,113 @@ returnValue setupOptions( Options* options, const mxArray* optionsPtr, int_t& nW
 
 
 	if ( hasOptionsValue( optionsPtr,"maxIter",&optionValue ) == BT_TRUE )
-		if ( *optionValue >= 0.0 )
-			nWSRin = (int_t)*optionValue;
+		if ( optionValue >= 0.0 )
+			nWSRin = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"maxCpuTime",&optionValue ) == BT_TRUE )
-		if ( *optionValue >= 0.0 )
-			maxCpuTime = *optionValue;
+		if ( optionValue >= 0.0 )
+			maxCpuTime = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"printLevel",&optionValue ) == BT_TRUE )
 	{
         #ifdef __SUPPRESSANYOUTPUT__
         options->printLevel = PL_NONE;
         #else
-		optionValueInt = (int_t)*optionValue;
+		optionValueInt = convertToInt( optionValue );
+		if ( optionValueInt < PL_DEBUG_ITER )
+			optionValueInt = PL_DEBUG_ITER;
+		if ( optionValueInt > PL_HIGH )
+			optionValueInt = PL_HIGH;
 		options->printLevel = (REFER_NAMESPACE_QPOASES PrintLevel)optionValueInt;
-        if ( options->printLevel < PL_DEBUG_ITER )
-            options->printLevel = PL_DEBUG_ITER;
-        if ( options->printLevel > PL_HIGH )
-            options->printLevel = PL_HIGH;       
         #endif
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableRamping",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableRamping = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableRamping = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableFarBounds",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableFarBounds = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableFarBounds = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableFlippingBounds",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableFlippingBounds = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableFlippingBounds = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableRegularisation",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableRegularisation = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableRegularisation = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableFullLITests",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableFullLITests = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableFullLITests = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableNZCTests",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableNZCTests = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableNZCTests = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableDriftCorrection",&optionValue ) == BT_TRUE )
-		options->enableDriftCorrection = (int_t)*optionValue;
+		options->enableDriftCorrection = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"enableCholeskyRefactorisation",&optionValue ) == BT_TRUE )
-		options->enableCholeskyRefactorisation = (int_t)*optionValue;
+		options->enableCholeskyRefactorisation = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"enableEqualities",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableEqualities = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableEqualities = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 
 	if ( hasOptionsValue( optionsPtr,"terminationTolerance",&optionValue ) == BT_TRUE )
-		options->terminationTolerance = *optionValue;
+		options->terminationTolerance = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"boundTolerance",&optionValue ) == BT_TRUE )
-		options->boundTolerance = *optionValue;
+		options->boundTolerance = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"boundRelaxation",&optionValue ) == BT_TRUE )
-		options->boundRelaxation = *optionValue;
+		options->boundRelaxation = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"epsNum",&optionValue ) == BT_TRUE )
-		options->epsNum = *optionValue;
+		options->epsNum = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"epsDen",&optionValue ) == BT_TRUE )
-		options->epsDen = *optionValue;
+		options->epsDen = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"maxPrimalJump",&optionValue ) == BT_TRUE )
-		options->maxPrimalJump = *optionValue;
+		options->maxPrimalJump = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"maxDualJump",&optionValue ) == BT_TRUE )
-		options->maxDualJump = *optionValue;
+		options->maxDualJump = optionValue;
 
 
 	if ( hasOptionsValue( optionsPtr,"initialRamping",&optionValue ) == BT_TRUE )
-		options->initialRamping = *optionValue;
+		options->initialRamping = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"finalRamping",&optionValue ) == BT_TRUE )
-		options->finalRamping = *optionValue;
+		options->finalRamping = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"initialFarBounds",&optionValue ) == BT_TRUE )
-		options->initialFarBounds = *optionValue;
+		options->initialFarBounds = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"growFarBounds",&optionValue ) == BT_TRUE )
-		options->growFarBounds = *optionValue;
+		options->growFarBounds = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"initialStatusBounds",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
+		optionValueInt = convertToInt( optionValue );
 		if ( optionValueInt < -1 ) 
 			optionValueInt = -1;
 		if ( optionValueInt > 1 ) 
@@ -603,25 +620,25 @@ returnValue setupOptions( Options* options, const mxArray* optionsPtr, int_t& nW
 	}
 
 	if ( hasOptionsValue( optionsPtr,"epsFlipping",&optionValue ) == BT_TRUE )
-		options->epsFlipping = *optionValue;
+		options->epsFlipping = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"numRegularisationSteps",&optionValue ) == BT_TRUE )
-		options->numRegularisationSteps = (int_t)*optionValue;
+		options->numRegularisationSteps = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"epsRegularisation",&optionValue ) == BT_TRUE )
-		options->epsRegularisation = *optionValue;
+		options->epsRegularisation = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"numRefinementSteps",&optionValue ) == BT_TRUE )
-		options->numRefinementSteps = (int_t)*optionValue;
+		options->numRefinementSteps = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"epsIterRef",&optionValue ) == BT_TRUE )
-		options->epsIterRef = *optionValue;
+		options->epsIterRef = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"epsLITests",&optionValue ) == BT_TRUE )
-		options->epsLITests = *optionValue;
+		options->epsLITests = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"epsNZCTests",&optionValue ) == BT_TRUE )
-		options->epsNZCTests = *optionValue;
+		options->epsNZCTests = optionValue;
 
 	return SUCCESSFUL_RETURN;
 }
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 04c9225..9a78b10 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -436,7 +436,7 @@ returnValue convertFortranToC( const real_t* const M_for, int_t nV, int_t nC, re
 /*
  *	h a s O p t i o n s V a l u e
  */
-BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const optionString, double** optionValue )
+BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const optionString, double* optionValue )
 {
 	mxArray* optionName = mxGetField( optionsPtr,0,optionString );
 
@@ -448,27 +448,44 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 		return BT_FALSE;
 	}
 
-	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) )
+	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) &&
+		 ( ( mxIsNumeric( optionName ) == true ) || ( mxIsLogical( optionName ) == true ) ) &&
+		 ( mxIsNaN( mxGetScalar( optionName ) ) == false ) )
 	{
-		*optionValue = mxGetPr( optionName );
+		*optionValue = mxGetScalar( optionName );
 		return BT_TRUE;
 	}
 	else
 	{
 		char msg[MAX_STRING_LENGTH];
-		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar, using default value instead!", optionString );
+		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a numeric scalar, using default value instead!", optionString );
 		mexWarnMsgTxt( msg );
 		return BT_FALSE;
 	}
 }
 
 
+/*
+ *	c o n v e r t T o I n t
+ */
+int_t convertToInt( double value )
+{
+	/* limit value to the range that can be represented by any integer type in use */
+	if ( value > 2147483647.0 )
+		return 2147483647;
+	if ( value < -2147483647.0 )
+		return -2147483647;
+
+	return (int_t)value;
+}
+
+
 /*
  *	s e t u p O p t i o n s
  */
 returnValue setupOptions( Options* options, const mxArray* optionsPtr, int_t& nWSRin, real_t& maxCpuTime )
 {
-	double* optionValue;
+	double optionValue;
 	int_t optionValueInt;
 
 	/* Check for correct number of option entries;
@@ -478,113 +495,113 @@ returnValue setupOptions( Options* options, const mxArray* optionsPtr, int_t& nW
 
 
 	if ( hasOptionsValue( optionsPtr,"maxIter",&optionValue ) == BT_TRUE )
-		if ( *optionValue >= 0.0 )
-			nWSRin = (int_t)*optionValue;
+		if ( optionValue >= 0.0 )
+			nWSRin = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"maxCpuTime",&optionValue ) == BT_TRUE )
-		if ( *optionValue >= 0.0 )
-			maxCpuTime = *optionValue;
+		if ( optionValue >= 0.0 )
+			maxCpuTime = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"printLevel",&optionValue ) == BT_TRUE )
 	{
         #ifdef __SUPPRESSANYOUTPUT__
         options->printLevel = PL_NONE;
         #else
-		optionValueInt = (int_t)*optionValue;
+		optionValueInt = convertToInt( optionValue );
+		if ( optionValueInt < PL_DEBUG_ITER )
+			optionValueInt = PL_DEBUG_ITER;
+		if ( optionValueInt > PL_HIGH )
+			optionValueInt = PL_HIGH;
 		options->printLevel = (REFER_NAMESPACE_QPOASES PrintLevel)optionValueInt;
-        if ( options->printLevel < PL_DEBUG_ITER )
-            options->printLevel = PL_DEBUG_ITER;
-        if ( options->printLevel > PL_HIGH )
-            options->printLevel = PL_HIGH;       
         #endif
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableRamping",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableRamping = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableRamping = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableFarBounds",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableFarBounds = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableFarBounds = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableFlippingBounds",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableFlippingBounds = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableFlippingBounds = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableRegularisation",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableRegularisation = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableRegularisation = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableFullLITests",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableFullLITests = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableFullLITests = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableNZCTests",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableNZCTests = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableNZCTests = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 	if ( hasOptionsValue( optionsPtr,"enableDriftCorrection",&optionValue ) == BT_TRUE )
-		options->enableDriftCorrection = (int_t)*optionValue;
+		options->enableDriftCorrection = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"enableCholeskyRefactorisation",&optionValue ) == BT_TRUE )
-		options->enableCholeskyRefactorisation = (int_t)*optionValue;
+		options->enableCholeskyRefactorisation = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"enableEqualities",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
-		options->enableEqualities = (REFER_NAMESPACE_QPOASES BooleanType)optionValueInt;
+		optionValueInt = convertToInt( optionValue );
+		options->enableEqualities = ( optionValueInt != 0 ) ? BT_TRUE : BT_FALSE;
 	}
 
 
 	if ( hasOptionsValue( optionsPtr,"terminationTolerance",&optionValue ) == BT_TRUE )
-		options->terminationTolerance = *optionValue;
+		options->terminationTolerance = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"boundTolerance",&optionValue ) == BT_TRUE )
-		options->boundTolerance = *optionValue;
+		options->boundTolerance = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"boundRelaxation",&optionValue ) == BT_TRUE )
-		options->boundRelaxation = *optionValue;
+		options->boundRelaxation = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"epsNum",&optionValue ) == BT_TRUE )
-		options->epsNum = *optionValue;
+		options->epsNum = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"epsDen",&optionValue ) == BT_TRUE )
-		options->epsDen = *optionValue;
+		options->epsDen = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"maxPrimalJump",&optionValue ) == BT_TRUE )
-		options->maxPrimalJump = *optionValue;
+		options->maxPrimalJump = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"maxDualJump",&optionValue ) == BT_TRUE )
-		options->maxDualJump = *optionValue;
+		options->maxDualJump = optionValue;
 
 
 	if ( hasOptionsValue( optionsPtr,"initialRamping",&optionValue ) == BT_TRUE )
-		options->initialRamping = *optionValue;
+		options->initialRamping = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"finalRamping",&optionValue ) == BT_TRUE )
-		options->finalRamping = *optionValue;
+		options->finalRamping = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"initialFarBounds",&optionValue ) == BT_TRUE )
-		options->initialFarBounds = *optionValue;
+		options->initialFarBounds = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"growFarBounds",&optionValue ) == BT_TRUE )
-		options->growFarBounds = *optionValue;
+		options->growFarBounds = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"initialStatusBounds",&optionValue ) == BT_TRUE )
 	{
-		optionValueInt = (int_t)*optionValue;
+		optionValueInt = convertToInt( optionValue );
 		if ( optionValueInt < -1 ) 
 			optionValueInt = -1;
 		if ( optionValueInt > 1 ) 
@@ -593,25 +610,25 @@ returnValue setupOptions( Options* options, const mxArray* optionsPtr, int_t& nW
 	}
 
 	if ( hasOptionsValue( optionsPtr,"epsFlipping",&optionValue ) == BT_TRUE )
-		options->epsFlipping = *optionValue;
+		options->epsFlipping = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"numRegularisationSteps",&optionValue ) == BT_TRUE )
-		options->numRegularisationSteps = (int_t)*optionValue;
+		options->numRegularisationSteps = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"epsRegularisation",&optionValue ) == BT_TRUE )
-		options->epsRegularisation = *optionValue;
+		options->epsRegularisation = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"numRefinementSteps",&optionValue ) == BT_TRUE )
-		options->numRefinementSteps = (int_t)*optionValue;
+		options->numRefinementSteps = convertToInt( optionValue );
 
 	if ( hasOptionsValue( optionsPtr,"epsIterRef",&optionValue ) == BT_TRUE )
-		options->epsIterRef = *optionValue;
+		options->epsIterRef = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"epsLITests",&optionValue ) == BT_TRUE )
-		options->epsLITests = *optionValue;
+		options->epsLITests = optionValue;
 
 	if ( hasOptionsValue( optionsPtr,"epsNZCTests",&optionValue ) == BT_TRUE )
-		options->epsNZCTests = *optionValue;
+		options->epsNZCTests = optionValue;
 
 	return SUCCESSFUL_RETURN;
 }
-- 
2.43.0


From bfb5ba28f79a2a91a50523b766ebd8b03e5132f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 095/134] fix: qpOASES_options: values of options were
 truncated to about five digits

---
 interfaces/matlab/qpOASES_options.m | 2 +-
 interfaces/octave/qpOASES_options.m | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_options.m b/interfaces/matlab/qpOASES_options.m
index 0cccf95..b991379 100644
--- a/interfaces/matlab/qpOASES_options.m
+++ b/interfaces/matlab/qpOASES_options.m
@@ -167,7 +167,7 @@ function [ options ] = qpOASES_options( varargin )
 			error('ERROR (qpOASES_options): Argmument no. %d is an invalid option!',i );
 		end
 
-		eval( ['options.',argName,' = ',num2str(argValue),';'] );
+		options.(argName) = double( argValue );
 
 	end
 
diff --git a/interfaces/octave/qpOASES_options.m b/interfaces/octave/qpOASES_options.m
index 0cccf95..b991379 100644
--- a/interfaces/octave/qpOASES_options.m
+++ b/interfaces/octave/qpOASES_options.m
@@ -167,7 +167,7 @@ function [ options ] = qpOASES_options( varargin )
 			error('ERROR (qpOASES_options): Argmument no. %d is an invalid option!',i );
 		end
 
-		eval( ['options.',argName,' = ',num2str(argValue),';'] );
+		options.(argName) = double( argValue );
 
 	end
 
-- 
2.43.0


From 544ecddd6fc93fb7765cc64aa21684d5957b57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 096/134] fix: MEX interfaces: constraint matrix with one
 column was silently taken as lower bounds and the lower bounds as upper
 bounds

---
 interfaces/matlab/qpOASES.cpp | 6 +-----
 interfaces/octave/qpOASES.cpp | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/interfaces/matlab/qpOASES.cpp b/interfaces/matlab/qpOASES.cpp
index 29e68ab..250dd3a 100644
--- a/interfaces/matlab/qpOASES.cpp
+++ b/interfaces/matlab/qpOASES.cpp
@@ -363,12 +363,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			options_idx = 7;
 	}
 
-	// Is the third argument constraint Matrix A?
-	int_t numberOfColumns = (int_t)mxGetN(prhs[2]);
-
 	/* 1) Simply bounded QP. */
-	if ( ( isSimplyBoundedQp == BT_TRUE ) ||
-		 ( ( numberOfColumns == 1 ) && ( nV != 1 ) ) )
+	if ( isSimplyBoundedQp == BT_TRUE )
 	{
 		lb_idx   = 2;
 		ub_idx   = 3;
diff --git a/interfaces/octave/qpOASES.cpp b/interfaces/octave/qpOASES.cpp
index ab17f10..1a185ea 100644
--- a/interfaces/octave/qpOASES.cpp
+++ b/interfaces/octave/qpOASES.cpp
@@ -346,12 +346,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			options_idx = 7;
 	}
 
-	// Is the third argument constraint Matrix A?
-	int_t numberOfColumns = (int_t)mxGetN(prhs[2]);
-
 	/* 1) Simply bounded QP. */
-	if ( ( isSimplyBoundedQp == BT_TRUE ) ||
-		 ( ( numberOfColumns == 1 ) && ( nV != 1 ) ) )
+	if ( isSimplyBoundedQp == BT_TRUE )
 	{
 		lb_idx   = 2;
 		ub_idx   = 3;
-- 
2.43.0


From 75e34d264f8adbcc70063dad5a55d7ad7b188dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 097/134] fix: MEX interfaces: QP object kept using deleted
 matrices after a failed modification of the matrices

---
 interfaces/matlab/qpOASES_sequence.cpp | 9 +++++++++
 interfaces/octave/qpOASES_sequence.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index be86487..8569e22 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -311,6 +311,8 @@ int_t SQProblem_hotstart(	int_t handle,
 
 	if ( getSimpleStatus( returnvalue ) == -1 )
 	{
+		/* previous matrices have been deleted, thus QP object must not be used before initialising it again */
+		globalSQP->reset( );
 		myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
 		return -1;
 	}
@@ -894,6 +896,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		/* an existing Hessian matrix cannot be removed */
+		if ( ( H_idx < 0 ) && ( globalQP->H != 0 ) )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Hessian matrix must not be empty if it has been specified before!" );
+			return;
+		}
+
 		/* Check that dimensions are consistent with existing QP instance */
 		if (nV != (uint_t) globalQP->getNV () || nC != (uint_t) globalQP->getNC ())
 		{
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 631a289..aa7e507 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -311,6 +311,8 @@ int_t SQProblem_hotstart(	int_t handle,
 
 	if ( getSimpleStatus( returnvalue ) == -1 )
 	{
+		/* previous matrices have been deleted, thus QP object must not be used before initialising it again */
+		globalSQP->reset( );
 		myMexErrMsgTxt( "ERROR (qpOASES): Hotstart failed." );
 		return -1;
 	}
@@ -883,6 +885,13 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		/* an existing Hessian matrix cannot be removed */
+		if ( ( H_idx < 0 ) && ( globalQP->H != 0 ) )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Hessian matrix must not be empty if it has been specified before!" );
+			return;
+		}
+
 		/* Check that dimensions are consistent with existing QP instance */
 		if (nV != (uint_t) globalQP->getNV () || nC != (uint_t) globalQP->getNC ())
 		{
-- 
2.43.0


From 399e7f2bd03d6a047937cee83e7bd12cdf24c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 098/134] fix: Ma57SparseSolver: pivot sequence of a failed
 factorisation was read from undefined memory

---
 src/SparseSolver.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/SparseSolver.cpp b/src/SparseSolver.cpp
index 39b30c0..895c22f 100644
--- a/src/SparseSolver.cpp
+++ b/src/SparseSolver.cpp
@@ -826,6 +826,13 @@ returnValue Ma57SparseSolver::factorize( )
 	neig = info_ma57[23];   /* Number of negative eigenvalues */
 	rank = info_ma57[24];   /* Rank of matrix */
 
+	if ( (iflag != 0) && (iflag != 4) )
+	{
+		MyPrintf("MA57BD returns iflag = %d with ierror = %d\n", iflag, ierror);
+		clear( );
+		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
+	}
+
 	/* Read pivot sequence (see MA57UD source code) */
 	pivots = new fint_t[dim];
 	fint_t nrows, ncols;
@@ -852,12 +859,6 @@ returnValue Ma57SparseSolver::factorize( )
 
 		return RET_KKT_MATRIX_SINGULAR;
 	}
-	else if (iflag != 0)
-	{
-		MyPrintf("MA57BD returns iflag = %d with ierror = %d\n", iflag, ierror);
-		clear( );
-		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
-	}
 
 	have_factorization = true;
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From cbbea67556f5353e9fec3b7aab07f6c5f500c15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 099/134] fix: Ma57SparseSolver: copying an empty or singular
 factorisation used a null pointer or lost the pivots

---
 src/SparseSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseSolver.cpp b/src/SparseSolver.cpp
index 895c22f..b95979f 100644
--- a/src/SparseSolver.cpp
+++ b/src/SparseSolver.cpp
@@ -1057,7 +1057,7 @@ returnValue Ma57SparseSolver::copy( 	const Ma57SparseSolver& rhs
 	else
 		ifact_ma57 = 0;
 
-	if ( have_factorization )
+	if ( rhs.pivots != 0 )
 	{
 		pivots = new fint_t[dim];
 		memcpy( pivots, rhs.pivots, dim*sizeof(fint_t) );
-- 
2.43.0


From ca1089398fb079a5585edbea8e3960a969b53bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 100/134] fix: SQProblemSchur: repairing a singular working set
 reset the multiplier of a bound instead of that of the removed constraint

---
 src/SQProblemSchur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 0f07375..2fb9935 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3612,7 +3612,7 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 			}
 
 			/* Adjust dual variable */
-			y[number] = 0.0;
+			y[getNV()+number] = 0.0;
 		}
 	}
 
-- 
2.43.0


From 6c0bb92e033cc4a8ec35df60f130c5bfa55dfc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 101/134] fix: SQProblemSchur: unsorted zero pivots of the
 linear solver led to wrong bounds or constraints being exchanged

---
 src/SQProblemSchur.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 2fb9935..9d9498b 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3556,8 +3556,17 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 	if ( zeroPivots == 0 )
 		return RET_KKT_MATRIX_SINGULAR;
 
-	/* We assume implicitly that pivots are sorted in ascending order */
-	/// \todo make sure that this is so.
+	/* Sort zero pivots in ascending order (linear solver may provide them in any order) */
+	for ( k=1; k<defect; k++ )
+	{
+		const int_t pivot = zeroPivots[k];
+		int_t j = k;
+
+		for ( ; ( j>0 ) && ( zeroPivots[j-1] > pivot ); j-- )
+			zeroPivots[j] = zeroPivots[j-1];
+		zeroPivots[j] = pivot;
+	}
+
 	/* Remove the one with the highest index first so not to mess up index lists */
 	int_t bndsAdded = 0;
 	for ( k=defect-1; k>-1; k-- )
-- 
2.43.0


From 5399c399c5326632240e4e85f7d0a719a8b2c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 102/134] fix: SQProblemSchur: failed solve with the Schur
 complement was ignored

---
 src/SQProblemSchur.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 9d9498b..848036c 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -2634,7 +2634,14 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 
 	/* Solve linear system with Schur complement. */
 	real_t* p = new real_t[nS];
-	backsolveSchurQR( nS, q, 1, p );
+	retval = backsolveSchurQR( nS, q, 1, p );
+	if (retval != SUCCESSFUL_RETURN)
+	{
+		/* the caller tries again with a new factorisation */
+		delete [] p;
+		delete [] q;
+		return retval;
+	}
 
 	computeMTimes(-1.0, p, 1.0, rhs);
 
-- 
2.43.0


From 2743d7546eb5c533e84c7592b48bef518b1c453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 103/134] fix: SQProblemSchur: memory leaks when a linear solve
 or the inertia correction failed or was not necessary

---
 src/SQProblemSchur.cpp | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 848036c..c8fd7c6 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -2625,6 +2625,7 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 				break;
 
 			default:
+				delete [] q;
 				return THROWERROR( RET_UNKNOWN_BUG );
 		}
 	}
@@ -2649,6 +2650,8 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 	if (retval != SUCCESSFUL_RETURN)
 	{
 		MyPrintf( "sparseSolver->solve (second time) failed.\n");
+		delete [] p;
+		delete [] q;
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 	}
 
@@ -2685,6 +2688,8 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 				break;
 
 			default:
+				delete [] p;
+				delete [] q;
 				return THROWERROR( RET_UNKNOWN_BUG );
 		}
 	}
@@ -2944,13 +2949,19 @@ returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g
 		{
 		  retval = stepCalcReorder(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, rhs);
 			if (retval != SUCCESSFUL_RETURN)
+			{
+				delete [] sol;
+				delete [] rhs;
 				return retval;
+			}
 
 			retval = sparseSolver->solve(dim, rhs, sol);
 
 			if (retval != SUCCESSFUL_RETURN)
 			{
 				MyPrintf( "sparseSolver->solve (first time) failed.\n");
+				delete [] sol;
+				delete [] rhs;
 				return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 			}
 
@@ -2958,20 +2969,32 @@ returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g
 			{
 				retval = stepCalcBacksolveSchur( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, dim, rhs, sol );
 				if (retval != SUCCESSFUL_RETURN)
+				{
+					delete [] sol;
+					delete [] rhs;
 					return retval;
+				}
 			}
 
 			/* Transfer Schur complement solution for the free variables to the correct places */
 			retval = stepCalcReorder2(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, sol, delta_xFR, delta_yAC);
 			if (retval != SUCCESSFUL_RETURN)
+			{
+				delete [] sol;
+				delete [] rhs;
 				return retval;
+			}
 
 			if ( r < options.numRefinementSteps ) // TODO: use "<" to avoid computation in last round
 			{
 				real_t rnrm;
 				retval = stepCalcResid(nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, Delta_bC_isZero, delta_xFX, delta_xFR, delta_yAC, delta_g, delta_lbA, delta_ubA, rnrm);
 				if (retval != SUCCESSFUL_RETURN)
+				{
+					delete [] sol;
+					delete [] rhs;
 					return retval;
+				}
 
 				/* early termination of residual norm small enough */
 				if ( options.printLevel == PL_HIGH )
@@ -3199,6 +3222,9 @@ returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType
 	if (retval != SUCCESSFUL_RETURN)
 	{
 		MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
+		delete [] sol;
+		delete [] rhs;
+		delete [] new_Scol;
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 	}
 
@@ -3448,7 +3474,6 @@ returnValue SQProblemSchur::correctInertia( )
 	real_t oldDetS;
 	int_t nFR = getNFR( );
 	int_t k, number, neig, nAdded;
-	int_t *freeBoundIdx = new int_t[nFR];
 	int_t *numberarray;
 
 	/* method may only be called after refactorization or if one bound/constraint
@@ -3466,6 +3491,7 @@ returnValue SQProblemSchur::correctInertia( )
 		return SUCCESSFUL_RETURN;
 
 	/* get bound numbers in the order in which they are in the non-basis */
+	int_t *freeBoundIdx = new int_t[nFR];
 	bounds.getFree()->getNumberArray( &numberarray );
 	for( k=0; k<nFR; k++ )
 		freeBoundIdx[k] = numberarray[k];
@@ -3491,6 +3517,7 @@ returnValue SQProblemSchur::correctInertia( )
 			{
 				if ( options.printLevel == PL_HIGH )
 					MyPrintf("In correctInertia: Adding bound[%i] = %i failed!\n", k, number );
+				delete[] freeBoundIdx;
 				return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
 			}
 
@@ -3594,7 +3621,10 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 
 			/* Here we do not need to update the Schur complement because KKT matrix is factorized afterwards */
 			if ( bounds.moveFreeToFixed( number, B_status ) != SUCCESSFUL_RETURN )
+			{
+				delete[] zeroPivots;
 				return RET_ADDBOUND_FAILED;
+			}
 
 			/* Adjust bounds */
 			if ( B_status == ST_LOWER )
@@ -3612,7 +3642,10 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 				MyPrintf( "WARNING: KKT matrix singular! Removing constraint %i before refactorization.\n", number);
 
 			if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
+			{
+				delete[] zeroPivots;
 				return RET_REMOVECONSTRAINT_FAILED;
+			}
 
 			// AW: If this is an equality constraint, it is now inactive and
 			// will not be considered in the step computation which leads to
-- 
2.43.0


From a54e0926a015c8a8669611b0818b860f7dd2043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 104/134] fix: SQProblemSchur: wrong solution after a
 constraint was removed to repair a singular working set if drift correction
 is disabled

---
 src/SQProblemSchur.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index c8fd7c6..39927c3 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3671,6 +3671,10 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 
 	delete[] zeroPivots;
 
+	/* Reestablish exact stationarity (outside the homotopy, the gradient is set up afterwards) */
+	if ( ( defect > bndsAdded ) && ( getStatus( ) == QPS_PERFORMINGHOMOTOPY ) )
+		return setupAuxiliaryQPgradient( );
+
 	return SUCCESSFUL_RETURN;
 }
 
-- 
2.43.0


From 9967a1b4423da3b0f9b4adb8b9b1830cc61c8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 105/134] fix: SQProblemSchur: failed linear independence test
 was treated as linear dependence (using uninitialised coefficients)

---
 src/SQProblemSchur.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 39927c3..6f66fbe 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -959,7 +959,7 @@ returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatu
 	/* I) Check if new constraint is linearly independent from the active ones. */
 	returnValue returnvalueCheckLI = addConstraint_checkLISchur( number, xiC, xiB );
 
-	if ( returnvalueCheckLI == RET_INDEXLIST_CORRUPTED )
+	if ( ( returnvalueCheckLI != RET_LINEARLY_INDEPENDENT ) && ( returnvalueCheckLI != RET_LINEARLY_DEPENDENT ) )
 	{
 		delete [] xiB;
 		delete [] xiC;
@@ -1371,7 +1371,7 @@ returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_s
 	/* I) Check if new constraint is linearly independent from the active ones. */
 	returnValue returnvalueCheckLI = addBound_checkLISchur( number, xiC, xiB );
 
-	if ( returnvalueCheckLI == RET_INDEXLIST_CORRUPTED )
+	if ( ( returnvalueCheckLI != RET_LINEARLY_INDEPENDENT ) && ( returnvalueCheckLI != RET_LINEARLY_DEPENDENT ) )
 	{
 		delete [] xiB;
 		delete [] xiC;
-- 
2.43.0


From d57e0a739429265e3d3cc8d6f55096d7857d8d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 106/134] fix: QProblem: limits of the QP were lost if the
 sparse solver repaired the initial working set

---
 src/QProblem.cpp | 52 ++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 5ea9dc5..38210c9 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1468,11 +1468,35 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 	if ( setupTQfactorisation( ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_INIT_FAILED_TQ );
 
-	/* c) Working set of auxiliary QP. */
+	/* c) Store original QP formulation (setting up the working set might already
+	 *    modify the limits when it has to be repaired). */
+	real_t* g_original = new real_t[nV];
+	real_t* lb_original = new real_t[nV];
+	real_t* ub_original = new real_t[nV];
+	real_t* lbA_original = new real_t[nC];
+	real_t* ubA_original = new real_t[nC];
+
+	for( i=0; i<nV; ++i )
+	{
+		g_original[i] = g[i];
+		lb_original[i] = lb[i];
+		ub_original[i] = ub[i];
+	}
+
+	for( i=0; i<nC; ++i )
+	{
+		lbA_original[i] = lbA[i];
+		ubA_original[i] = ubA[i];
+	}
+
+	/* d) Working set of auxiliary QP. */
 	if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,&auxiliaryConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
+	{
+		delete[] ubA_original; delete[] lbA_original; delete[] ub_original; delete[] lb_original; delete[] g_original;
 		return THROWERROR( RET_INIT_FAILED );
+	}
 
-	/* d) Copy external Cholesky factor (of the full Hessian) if provided
+	/* e) Copy external Cholesky factor (of the full Hessian) if provided
 	 *    and if the initial working set is empty. */
 	haveCholesky = BT_FALSE;
 
@@ -1508,7 +1532,7 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 		}
 	}
 
-	/* e) Ensure that guessed multipliers match the working set: they are zero for free bounds
+	/* f) Ensure that guessed multipliers match the working set: they are zero for free bounds
 	 *    and inactive constraints and have a sign that is valid for the active limit otherwise. */
 	if ( yOpt != 0 )
 	{
@@ -1529,27 +1553,7 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 		}
 	}
 
-	/* 5) Store original QP formulation... */
-	real_t* g_original = new real_t[nV];
-	real_t* lb_original = new real_t[nV];
-	real_t* ub_original = new real_t[nV];
-	real_t* lbA_original = new real_t[nC];
-	real_t* ubA_original = new real_t[nC];
-
-	for( i=0; i<nV; ++i )
-	{
-		g_original[i] = g[i];
-		lb_original[i] = lb[i];
-		ub_original[i] = ub[i];
-	}
-
-	for( i=0; i<nC; ++i )
-	{
-		lbA_original[i] = lbA[i];
-		ubA_original[i] = ubA[i];
-	}
-
-	/* ... and setup QP data of an auxiliary QP having an optimal solution
+	/* 5) Setup QP data of an auxiliary QP having an optimal solution
 	 * as specified by the user (or xOpt = yOpt = 0, by default). */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
 	{
-- 
2.43.0


From e921783f6fb32f19c264dc323d3a9f298bc47064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 107/134] fix: SQProblemSchur: printing an undone deletion from
 the Schur complement read in front of an array

---
 src/SQProblemSchur.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 6f66fbe..12124bd 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3386,7 +3386,7 @@ returnValue SQProblemSchur::deleteFromSchurComplement( int_t idx, BooleanType al
 returnValue SQProblemSchur::undoDeleteFromSchurComplement( int_t idx )
 {
 	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "undo deletion of entry %d with idx = %d and type %d from Schur complement. nS = %i\n", idx, schurUpdateIndex[nS-1], schurUpdate[nS-1],nS+1);
+		MyPrintf( "undo deletion of entry %d with idx = %d and type %d from Schur complement. nS = %i\n", idx, schurUpdateIndex[nS], schurUpdate[nS],nS+1);
 
 	if ( idx != nS )
 	{
-- 
2.43.0


From cfab0a3dae955536b7e35f45d35c2868feb34f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 108/134] fix: printing debug information on iterations crashed
 if the Schur complement variant is used

---
 src/QProblem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 38210c9..aa217ea 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6341,7 +6341,8 @@ returnValue QProblem::printIteration( 	int_t iter,
 			for (i = 0; i < nC; i++) if (y[nV+i] < -EPS && getAbs((ubA[i]-AX[i])*y[nV+i]) > ccmpl) ccmpl = getAbs((ubA[i]-AX[i])*y[nV+i]);
 
 			Tmin = 1.0e16; Tmax = 0.0;
-			for (i = 0; i < nAC; i++)
+			/* (there is no TQ factorisation if a Schur complement is used instead) */
+			for (i = 0; ( i < nAC ) && ( T != 0 ); i++)
 				if (getAbs(TT(i,sizeT-i-1)) < Tmin)
 					Tmin = getAbs(TT(i,sizeT-i-1));
 				else if (getAbs(TT(i,sizeT-i-1)) > Tmax)
-- 
2.43.0


From 00b438f748edda1415f3471df3f9ecdd0453fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 109/134] fix: SQProblemSchur: matrix classes without
 getSparseSubmatrix led to out-of-bounds accesses

---
 src/SQProblemSchur.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 12124bd..b1f40a8 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3027,6 +3027,8 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 	int_t nFR = getNFR( );
 	int_t nAC = getNAC( );
 
+	returnValue retval;
+
 	if ( options.printLevel == PL_HIGH )
 		MyPrintf( "Resetting Schur complement.\n");
 
@@ -3053,7 +3055,9 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 			break;
 
 		default:
-			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE);
+			retval = H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE);
+			if ( retval != SUCCESSFUL_RETURN )
+				return THROWERROR( retval );
 			break;
 	}
 	// TODO: For now, we regularize every time
@@ -3067,7 +3071,9 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 		MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
 		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 	}
-	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
+	retval = A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
+	if ( retval != SUCCESSFUL_RETURN )
+		return THROWERROR( retval );
 	numNonzeros += numNonzerosA;
 
 	// Get the values
@@ -3111,7 +3117,7 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 
 	// Call the linear solver
 	sparseSolver->reset();
-	returnValue retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
+	retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
 	delete [] jcn;
 	delete [] irn;
 	delete [] avals;
-- 
2.43.0


From ec7b67b5ef106cc47b07fc5cfc3ec90ae90d55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:16 +0000
Subject: [PATCH 110/134] fix: SQProblemSchur: initialisation with a Cholesky
 factor wrote to a null pointer

---
 src/QProblem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index aa217ea..ebf9bf5 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1512,7 +1512,8 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 			if ( FR_idx[i] != i )
 				isNaturalOrder = BT_FALSE;
 
-		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) + getNAC( ) > 0 ) || ( isNaturalOrder == BT_FALSE ) )
+		/* (the Schur complement variant does not use any Cholesky factor) */
+		if ( ( R == 0 ) || ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) + getNAC( ) > 0 ) || ( isNaturalOrder == BT_FALSE ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
-- 
2.43.0


From bd8be7584e025b6a87695d8d6521345135d9aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 111/134] fix: SQProblemSchur: messages were written to the
 standard output, ignoring the output file of the message handler

---
 src/SQProblemSchur.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index b1f40a8..0532be8 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -42,12 +42,16 @@
 # include <cstdarg>
 void MyPrintf(const char* pformat, ... )
 {
+  char myPrintfString[REFER_NAMESPACE_QPOASES MAX_STRING_LENGTH];
+
   va_list ap;
   va_start(ap, pformat);
 
-  vfprintf(stdout, pformat, ap);
+  vsnprintf(myPrintfString, REFER_NAMESPACE_QPOASES MAX_STRING_LENGTH, pformat, ap);
 
   va_end(ap);
+
+  REFER_NAMESPACE_QPOASES myPrintf( myPrintfString );
 }
 #else
 # include <mex.h>
-- 
2.43.0


From 351e633fedd9032e2f2b99d27cf5717fb192f9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 112/134] fix: SQProblemSchur and sparse solvers: errors were
 printed although the print level was none

---
 src/SQProblemSchur.cpp | 35 +++++++++++++++++++++++------------
 src/SparseSolver.cpp   | 21 ++++++++++++++-------
 2 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 0532be8..0cd24ed 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -771,7 +771,8 @@ returnValue SQProblemSchur::addConstraint(	int_t number,
 
 			if ( constraintProduct != 0 )
 			{
-				MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
+				if ( options.printLevel != PL_NONE )
+					MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
 				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 			}
 			int_t numNonzerosA;
@@ -1965,7 +1966,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 
 			if ( constraintProduct != 0 )
 			{
-				MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
+				if ( options.printLevel != PL_NONE )
+					MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
 				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 			}
 
@@ -2418,7 +2420,8 @@ returnValue SQProblemSchur::updateSchurQR( int_t idxDel )
 	TRCON( "1", "U", "N", &N, R_, &LDA, &rcondS, WORK, IWORK, &INFO );
 	if ( INFO != 0 )
 	{
-		MyPrintf( "TRCON returns INFO = %d\n",(int)INFO );
+		if ( options.printLevel != PL_NONE )
+			MyPrintf( "TRCON returns INFO = %d\n",(int)INFO );
 	}
 
 	if ( options.printLevel == PL_HIGH )
@@ -2441,7 +2444,8 @@ returnValue SQProblemSchur::backsolveSchurQR( int_t dimS, const real_t* const rh
 
 	if( dimRhs > 1 )
 	{
-		MyPrintf("backsolve not implemented for dimRhs = %d\n", dimRhs);
+		if ( options.printLevel != PL_NONE )
+			MyPrintf("backsolve not implemented for dimRhs = %d\n", dimRhs);
 		return RET_QR_FACTORISATION_FAILED;
 	}
 
@@ -2464,8 +2468,9 @@ returnValue SQProblemSchur::backsolveSchurQR( int_t dimS, const real_t* const rh
 	TRTRS( "U", "N", "N", &M, &NRHS, R_, &LDA, sol, &LDC, &INFO );
 	if ( INFO != 0 )
 	{
-		MyPrintf("TRTRS returns INFO = %d\n", INFO);
-		if ( INFO == ((long)0xDEADBEEF) )
+		if ( options.printLevel != PL_NONE )
+			MyPrintf("TRTRS returns INFO = %d\n", INFO);
+		if ( ( options.printLevel != PL_NONE ) && ( INFO == ((long)0xDEADBEEF) ) )
 			MyPrintf( "If SQProblemSchur is to be used, system LAPACK must be used instead of the qpOASES LAPACK replacement" );
 		return RET_QR_FACTORISATION_FAILED;
 	}
@@ -2490,7 +2495,8 @@ returnValue SQProblemSchur::stepCalcRhs(	int_t nFR, int_t nFX, int_t nAC, int_t*
 		retval = resetSchurComplement( BT_FALSE );
 		if (retval != SUCCESSFUL_RETURN)
 		{
-			MyPrintf( "In SQProblemSchur::stepCalcRhs, resetSchurComplement returns %d\n", retval);
+			if ( options.printLevel != PL_NONE )
+				MyPrintf( "In SQProblemSchur::stepCalcRhs, resetSchurComplement returns %d\n", retval);
 			return THROWERROR( retval );
 		}
 	}
@@ -2653,7 +2659,8 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 	retval = sparseSolver->solve(dim, rhs, sol);
 	if (retval != SUCCESSFUL_RETURN)
 	{
-		MyPrintf( "sparseSolver->solve (second time) failed.\n");
+		if ( options.printLevel != PL_NONE )
+			MyPrintf( "sparseSolver->solve (second time) failed.\n");
 		delete [] p;
 		delete [] q;
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
@@ -2850,7 +2857,8 @@ returnValue SQProblemSchur::determineStepDirection(	const real_t* const delta_g,
 		retval = resetSchurComplement( BT_FALSE );
 		if (retval != SUCCESSFUL_RETURN)
 		{
-			MyPrintf( "In SQProblem::determineStepDirection, resetSchurComplement returns %d\n", retval);
+			if ( options.printLevel != PL_NONE )
+				MyPrintf( "In SQProblem::determineStepDirection, resetSchurComplement returns %d\n", retval);
 			return THROWERROR( retval );
 		}
 		retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
@@ -2963,7 +2971,8 @@ returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g
 
 			if (retval != SUCCESSFUL_RETURN)
 			{
-				MyPrintf( "sparseSolver->solve (first time) failed.\n");
+				if ( options.printLevel != PL_NONE )
+					MyPrintf( "sparseSolver->solve (first time) failed.\n");
 				delete [] sol;
 				delete [] rhs;
 				return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
@@ -3072,7 +3081,8 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 
 	if ( constraintProduct != 0 )
 	{
-		MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
+		if ( options.printLevel != PL_NONE )
+			MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
 		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 	}
 	retval = A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
@@ -3231,7 +3241,8 @@ returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType
 	returnValue retval = sparseSolver->solve(dim, rhs, sol);
 	if (retval != SUCCESSFUL_RETURN)
 	{
-		MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
+		if ( options.printLevel != PL_NONE )
+			MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
 		delete [] sol;
 		delete [] rhs;
 		delete [] new_Scol;
diff --git a/src/SparseSolver.cpp b/src/SparseSolver.cpp
index b95979f..cf77bed 100644
--- a/src/SparseSolver.cpp
+++ b/src/SparseSolver.cpp
@@ -322,7 +322,8 @@ returnValue Ma27SparseSolver::factorize( )
 	fint_t nirnec = info_ma27[5];  /* recommended value for liw */
 	if (iflag != 0)
 	{
-		MyPrintf("MA27AD returns iflag = %d with ierror = %d\n", iflag, ierror);
+		if ( getGlobalMessageHandler( )->getErrorVisibilityStatus( ) == VS_VISIBLE )
+			MyPrintf("MA27AD returns iflag = %d with ierror = %d\n", iflag, ierror);
 		delete [] iw1_ma27;
 		clear( );
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
@@ -367,7 +368,8 @@ returnValue Ma27SparseSolver::factorize( )
 	}
 	else if (iflag != 0)
 	{
-		MyPrintf("MA27BD returns iflag = %d with ierror = %d\n", iflag, ierror);
+		if ( getGlobalMessageHandler( )->getErrorVisibilityStatus( ) == VS_VISIBLE )
+			MyPrintf("MA27BD returns iflag = %d with ierror = %d\n", iflag, ierror);
 		clear( );
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
 	}
@@ -393,7 +395,8 @@ returnValue Ma27SparseSolver::solve( int_t dim_,
 
 	if ( !have_factorization )
 	{
-	  MyPrintf("Factorization not called before solve in Ma27SparseSolver::solve.\n");
+	  if ( getGlobalMessageHandler( )->getErrorVisibilityStatus( ) == VS_VISIBLE )
+	    MyPrintf("Factorization not called before solve in Ma27SparseSolver::solve.\n");
 	  return THROWERROR( RET_INVALID_ARGUMENTS );
 	}
 
@@ -793,7 +796,8 @@ returnValue Ma57SparseSolver::factorize( )
 	fint_t ierror = info_ma57[1];  /* Error flag */
 	if (iflag != 0)
 	{
-		MyPrintf("MA57AD returns iflag = %d with ierror = %d\n", iflag, ierror);
+		if ( getGlobalMessageHandler( )->getErrorVisibilityStatus( ) == VS_VISIBLE )
+			MyPrintf("MA57AD returns iflag = %d with ierror = %d\n", iflag, ierror);
 		delete [] keep_ma57;
 		delete [] iwork_ma57;
 		clear( );
@@ -828,7 +832,8 @@ returnValue Ma57SparseSolver::factorize( )
 
 	if ( (iflag != 0) && (iflag != 4) )
 	{
-		MyPrintf("MA57BD returns iflag = %d with ierror = %d\n", iflag, ierror);
+		if ( getGlobalMessageHandler( )->getErrorVisibilityStatus( ) == VS_VISIBLE )
+			MyPrintf("MA57BD returns iflag = %d with ierror = %d\n", iflag, ierror);
 		clear( );
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
 	}
@@ -879,7 +884,8 @@ returnValue Ma57SparseSolver::solve(	int_t dim_,
 
 	if ( !have_factorization )
 	{
-	  MyPrintf("Factorization not called before solve in Ma57SparseSolver::solve.\n");
+	  if ( getGlobalMessageHandler( )->getErrorVisibilityStatus( ) == VS_VISIBLE )
+	    MyPrintf("Factorization not called before solve in Ma57SparseSolver::solve.\n");
 	  return THROWERROR( RET_INVALID_ARGUMENTS );
 	}
 
@@ -909,7 +915,8 @@ returnValue Ma57SparseSolver::solve(	int_t dim_,
 	fint_t ierror = info_ma57[1];  /* Error flag */
 	if (iflag != 0)
 	{
-		MyPrintf("MA57CD returns iflag = %d with ierror = %d\n", iflag, ierror);
+		if ( getGlobalMessageHandler( )->getErrorVisibilityStatus( ) == VS_VISIBLE )
+			MyPrintf("MA57CD returns iflag = %d with ierror = %d\n", iflag, ierror);
 		clear( );
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
 	}
-- 
2.43.0


From 8bdb73054c1720818bbc55d14131fdbbdf6b68bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 113/134] fix: SQProblemSchur: memory leaks if a constraint
 product is set

---
 src/SQProblemSchur.cpp | 45 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 0cd24ed..487ec80 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -743,6 +743,13 @@ returnValue SQProblemSchur::addConstraint(	int_t number,
 		}
 		else
 		{
+			if ( constraintProduct != 0 )
+			{
+				if ( options.printLevel != PL_NONE )
+					MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
+				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+			}
+
 			/* If the constraint was not yet in Schur complement, add it now. */
 			int_t nFRStart = boundsFreeStart.getLength();
 			int_t* FR_idxStart;
@@ -769,12 +776,6 @@ returnValue SQProblemSchur::addConstraint(	int_t number,
 					icolsLength++;
 				}
 
-			if ( constraintProduct != 0 )
-			{
-				if ( options.printLevel != PL_NONE )
-					MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
-				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-			}
 			int_t numNonzerosA;
 			A->getSparseSubmatrix( 1, &number, icolsLength, icolsNumber, 0, 0, numNonzerosA, irn, jcn, vals );
 			delete [] irn;
@@ -1892,6 +1893,13 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 		}
 		else
 		{
+			if ( constraintProduct != 0 )
+			{
+				if ( options.printLevel != PL_NONE )
+					MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
+				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+			}
+
 			/* If the variable was not yet in Schur complement, add it now. */
 			int_t nFRStart = boundsFreeStart.getLength();
 			int_t nACStart = constraintsActiveStart.getLength();
@@ -1964,13 +1972,6 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 					break;
 			}
 
-			if ( constraintProduct != 0 )
-			{
-				if ( options.printLevel != PL_NONE )
-					MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
-				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-			}
-
 			for ( int_t i=0; i<nACStart; i++ )
 				iNumber[i] = AC_idxStart[i];
 			iLength = nACStart;
@@ -2420,7 +2421,7 @@ returnValue SQProblemSchur::updateSchurQR( int_t idxDel )
 	TRCON( "1", "U", "N", &N, R_, &LDA, &rcondS, WORK, IWORK, &INFO );
 	if ( INFO != 0 )
 	{
-		if ( options.printLevel != PL_NONE )
+		if ( options.printLevel != PL_NONE )
 			MyPrintf( "TRCON returns INFO = %d\n",(int)INFO );
 	}
 
@@ -2444,7 +2445,7 @@ returnValue SQProblemSchur::backsolveSchurQR( int_t dimS, const real_t* const rh
 
 	if( dimRhs > 1 )
 	{
-		if ( options.printLevel != PL_NONE )
+		if ( options.printLevel != PL_NONE )
 			MyPrintf("backsolve not implemented for dimRhs = %d\n", dimRhs);
 		return RET_QR_FACTORISATION_FAILED;
 	}
@@ -2468,7 +2469,7 @@ returnValue SQProblemSchur::backsolveSchurQR( int_t dimS, const real_t* const rh
 	TRTRS( "U", "N", "N", &M, &NRHS, R_, &LDA, sol, &LDC, &INFO );
 	if ( INFO != 0 )
 	{
-		if ( options.printLevel != PL_NONE )
+		if ( options.printLevel != PL_NONE )
 			MyPrintf("TRTRS returns INFO = %d\n", INFO);
 		if ( ( options.printLevel != PL_NONE ) && ( INFO == ((long)0xDEADBEEF) ) )
 			MyPrintf( "If SQProblemSchur is to be used, system LAPACK must be used instead of the qpOASES LAPACK replacement" );
@@ -2495,7 +2496,7 @@ returnValue SQProblemSchur::stepCalcRhs(	int_t nFR, int_t nFX, int_t nAC, int_t*
 		retval = resetSchurComplement( BT_FALSE );
 		if (retval != SUCCESSFUL_RETURN)
 		{
-			if ( options.printLevel != PL_NONE )
+			if ( options.printLevel != PL_NONE )
 				MyPrintf( "In SQProblemSchur::stepCalcRhs, resetSchurComplement returns %d\n", retval);
 			return THROWERROR( retval );
 		}
@@ -2659,7 +2660,7 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 	retval = sparseSolver->solve(dim, rhs, sol);
 	if (retval != SUCCESSFUL_RETURN)
 	{
-		if ( options.printLevel != PL_NONE )
+		if ( options.printLevel != PL_NONE )
 			MyPrintf( "sparseSolver->solve (second time) failed.\n");
 		delete [] p;
 		delete [] q;
@@ -2857,7 +2858,7 @@ returnValue SQProblemSchur::determineStepDirection(	const real_t* const delta_g,
 		retval = resetSchurComplement( BT_FALSE );
 		if (retval != SUCCESSFUL_RETURN)
 		{
-			if ( options.printLevel != PL_NONE )
+			if ( options.printLevel != PL_NONE )
 				MyPrintf( "In SQProblem::determineStepDirection, resetSchurComplement returns %d\n", retval);
 			return THROWERROR( retval );
 		}
@@ -2971,7 +2972,7 @@ returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g
 
 			if (retval != SUCCESSFUL_RETURN)
 			{
-				if ( options.printLevel != PL_NONE )
+				if ( options.printLevel != PL_NONE )
 					MyPrintf( "sparseSolver->solve (first time) failed.\n");
 				delete [] sol;
 				delete [] rhs;
@@ -3081,7 +3082,7 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 
 	if ( constraintProduct != 0 )
 	{
-		if ( options.printLevel != PL_NONE )
+		if ( options.printLevel != PL_NONE )
 			MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
 		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 	}
@@ -3241,7 +3242,7 @@ returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType
 	returnValue retval = sparseSolver->solve(dim, rhs, sol);
 	if (retval != SUCCESSFUL_RETURN)
 	{
-		if ( options.printLevel != PL_NONE )
+		if ( options.printLevel != PL_NONE )
 			MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
 		delete [] sol;
 		delete [] rhs;
-- 
2.43.0


From 2fb614c2b02fb5de71b127c60c68183035014ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 114/134] fix: SQProblemSchur: linear independence handling
 wrote past an array if more constraints than variables are active

---
 src/SQProblemSchur.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 487ec80..a2d2fed 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -999,7 +999,7 @@ returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatu
 	int_t* AC_idx;
 	constraints.getActive( )->getNumberArray( &AC_idx );
 
-	real_t* num = new real_t[nV];
+	real_t* num = new real_t[getMax( nAC,nFX )];
 
 	real_t y_min = options.maxDualJump;
 	int_t y_min_number = -1;
@@ -1411,7 +1411,7 @@ returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_s
 	int_t* AC_idx;
 	constraints.getActive( )->getNumberArray( &AC_idx );
 
-	real_t* num = new real_t[nV];
+	real_t* num = new real_t[getMax( nAC,nFX )];
 
 	real_t y_min = options.maxDualJump;
 	int_t y_min_number = -1;
-- 
2.43.0


From a1c9eff59eac161b629ad7f1398548d18480130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 115/134] fix: Ma27SparseSolver did not compile if long
 integers are used

---
 include/qpOASES/SparseSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qpOASES/SparseSolver.hpp b/include/qpOASES/SparseSolver.hpp
index 4d07490..18a86b3 100644
--- a/include/qpOASES/SparseSolver.hpp
+++ b/include/qpOASES/SparseSolver.hpp
@@ -175,7 +175,7 @@ class Ma27SparseSolver: public SparseSolver
 		virtual int_t getNegativeEigenvalues( );
 
 		/** Return the rank after a factorization */
-		virtual int getRank( );
+		virtual int_t getRank( );
 
 	/*
 	 *	PROTECTED MEMBER FUNCTIONS
-- 
2.43.0


From 4f697905b5ed376e4add8d5cdb88aea6628aeea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 116/134] fix: Simulink blocks read elements of non-contiguous
 input signals at wrong places

---
 interfaces/simulink/qpOASES_QProblem.cpp  | 10 +++++-----
 interfaces/simulink/qpOASES_QProblemB.cpp |  6 +++---
 interfaces/simulink/qpOASES_SQProblem.cpp | 16 +++++++++-------
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/interfaces/simulink/qpOASES_QProblem.cpp b/interfaces/simulink/qpOASES_QProblem.cpp
index 1defe13..bd05234 100644
--- a/interfaces/simulink/qpOASES_QProblem.cpp
+++ b/interfaces/simulink/qpOASES_QProblem.cpp
@@ -394,30 +394,30 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 	convertFortranToC( mxGetPr(in_A),nV,nC, A );
 
 	for ( ii=0; ii<nV; ++ii )
-		g[ii] = (*in_g)[ii];
+		g[ii] = *(in_g[ii]);
 
 	if ( lb != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			lb[ii] = (*in_lb)[ii];
+			lb[ii] = *(in_lb[ii]);
 	}
 
 	if ( ub != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			ub[ii] = (*in_ub)[ii];
+			ub[ii] = *(in_ub[ii]);
 	}
 
 	if ( lbA != 0 )
 	{
 		for ( ii=0; ii<nC; ++ii )
-			lbA[ii] = (*in_lbA)[ii];
+			lbA[ii] = *(in_lbA[ii]);
 	}
 
 	if ( ubA != 0 )
 	{
 		for ( ii=0; ii<nC; ++ii )
-			ubA[ii] = (*in_ubA)[ii];
+			ubA[ii] = *(in_ubA[ii]);
 	}
 
 	xOpt = new real_t[nV];
diff --git a/interfaces/simulink/qpOASES_QProblemB.cpp b/interfaces/simulink/qpOASES_QProblemB.cpp
index 8a0c401..29ca998 100644
--- a/interfaces/simulink/qpOASES_QProblemB.cpp
+++ b/interfaces/simulink/qpOASES_QProblemB.cpp
@@ -334,18 +334,18 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 	}
 
 	for ( ii=0; ii<nV; ++ii )
-		g[ii] = (*in_g)[ii];
+		g[ii] = *(in_g[ii]);
 
 	if ( lb != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			lb[ii] = (*in_lb)[ii];
+			lb[ii] = *(in_lb[ii]);
 	}
 
 	if ( ub != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			ub[ii] = (*in_ub)[ii];
+			ub[ii] = *(in_ub[ii]);
 	}
 
 	xOpt = new real_t[nV];
diff --git a/interfaces/simulink/qpOASES_SQProblem.cpp b/interfaces/simulink/qpOASES_SQProblem.cpp
index 8f1fd95..61491f9 100644
--- a/interfaces/simulink/qpOASES_SQProblem.cpp
+++ b/interfaces/simulink/qpOASES_SQProblem.cpp
@@ -356,36 +356,38 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 	{
 		/* no conversion from FORTRAN to C as Hessian is symmetric! */
 		for ( ii=0; ii<nV*nV; ++ii )
-			H[ii] = (*in_H)[ii];
+			H[ii] = *(in_H[ii]);
 	}
 
-	convertFortranToC( *in_A,nV,nC, A );
+	/* conversion from FORTRAN to C */
+	for ( ii=0; ii<nV*nC; ++ii )
+		A[(ii%nC)*nV + ii/nC] = *(in_A[ii]);
 
 	for ( ii=0; ii<nV; ++ii )
-		g[ii] = (*in_g)[ii];
+		g[ii] = *(in_g[ii]);
 
 	if ( lb != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			lb[ii] = (*in_lb)[ii];
+			lb[ii] = *(in_lb[ii]);
 	}
 
 	if ( ub != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			ub[ii] = (*in_ub)[ii];
+			ub[ii] = *(in_ub[ii]);
 	}
 
 	if ( lbA != 0 )
 	{
 		for ( ii=0; ii<nC; ++ii )
-			lbA[ii] = (*in_lbA)[ii];
+			lbA[ii] = *(in_lbA[ii]);
 	}
 
 	if ( ubA != 0 )
 	{
 		for ( ii=0; ii<nC; ++ii )
-			ubA[ii] = (*in_ubA)[ii];
+			ubA[ii] = *(in_ubA[ii]);
 	}
 
 	xOpt = new real_t[nV];
-- 
2.43.0


From 41876d6a689db430b80ad2105947ba4d8d6b0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 117/134] fix: Simulink block for QProblemB took the number of
 variables from lb instead of g

---
 interfaces/simulink/qpOASES_QProblemB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/simulink/qpOASES_QProblemB.cpp b/interfaces/simulink/qpOASES_QProblemB.cpp
index 29ca998..197d891 100644
--- a/interfaces/simulink/qpOASES_QProblemB.cpp
+++ b/interfaces/simulink/qpOASES_QProblemB.cpp
@@ -324,7 +324,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 
 
 	/* setup QP data */
-	nV = ssGetInputPortWidth(S, 1); /* nV = size_g */
+	nV = ssGetInputPortWidth(S, 0); /* nV = size_g */
 
 	if ( H != 0 )
 	{
-- 
2.43.0


From 14093dfb2c32654f08ce69ae0894d1db1dc36904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 118/134] fix: Simulink block for QProblem did not check the
 dimension of ub if lb is omitted

---
 interfaces/simulink/qpOASES_QProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/simulink/qpOASES_QProblem.cpp b/interfaces/simulink/qpOASES_QProblem.cpp
index bd05234..8f969f8 100644
--- a/interfaces/simulink/qpOASES_QProblem.cpp
+++ b/interfaces/simulink/qpOASES_QProblem.cpp
@@ -258,7 +258,7 @@ static void mdlStart(SimStruct *S)
 		return;
 	}
 
-	if ( ( size_ub != nV ) && ( size_lb != 0 ) )
+	if ( ( size_ub != nV ) && ( size_ub != 0 ) )
 	{
 		#ifndef __SUPPRESSANYOUTPUT__
 		mexErrMsgTxt( "ERROR (qpOASES): Dimension mismatch in ub!" );
-- 
2.43.0


From 13b10c69a3b116b1f6babcaa97421bd3cb13bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 119/134] fix: Simulink blocks did not check the dimensions of
 A

---
 interfaces/simulink/qpOASES_QProblem.cpp  | 10 +++++++++-
 interfaces/simulink/qpOASES_SQProblem.cpp |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/interfaces/simulink/qpOASES_QProblem.cpp b/interfaces/simulink/qpOASES_QProblem.cpp
index 8f969f8..f53276b 100644
--- a/interfaces/simulink/qpOASES_QProblem.cpp
+++ b/interfaces/simulink/qpOASES_QProblem.cpp
@@ -242,6 +242,14 @@ static void mdlStart(SimStruct *S)
 		return;
 	}
 
+	if ( ( size_A != nV*nC ) || ( ( size_A != 0 ) && ( nCols_A != nV ) ) )
+	{
+		#ifndef __SUPPRESSANYOUTPUT__
+		mexErrMsgTxt( "ERROR (qpOASES): Dimension mismatch in A!" );
+		#endif
+		return;
+	}
+
 	if ( ( nU < 1 ) || ( nU > nV ) )
 	{
 		#ifndef __SUPPRESSANYOUTPUT__
@@ -382,7 +390,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 
 	/* setup QP data */
 	nV = ssGetInputPortWidth(S, 0); /* nV = size_g */
-	nC = (int)mxGetM(in_A);			/* nC = nRows_A*/
+	nC = (int)(problem->getNC());	/* nC = nRows_A (or zero if A is empty) */
 
 	if ( H != 0 )
 	{
diff --git a/interfaces/simulink/qpOASES_SQProblem.cpp b/interfaces/simulink/qpOASES_SQProblem.cpp
index 61491f9..cc9ee69 100644
--- a/interfaces/simulink/qpOASES_SQProblem.cpp
+++ b/interfaces/simulink/qpOASES_SQProblem.cpp
@@ -209,6 +209,14 @@ static void mdlStart(SimStruct *S)
 		return;
 	}
 
+	if ( size_A != nV*nC )
+	{
+		#ifndef __SUPPRESSANYOUTPUT__
+		mexErrMsgTxt( "ERROR (qpOASES): Dimension mismatch in A!" );
+		#endif
+		return;
+	}
+
 	if ( ( nU < 1 ) || ( nU > nV ) )
 	{
 		#ifndef __SUPPRESSANYOUTPUT__
-- 
2.43.0


From 19d4e1a1744f19232f700b5a4a28531121af3784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 120/134] fix: Simulink blocks put out uninitialised memory if
 the QP could not be solved

---
 interfaces/simulink/qpOASES_QProblem.cpp  | 4 ++++
 interfaces/simulink/qpOASES_QProblemB.cpp | 4 ++++
 interfaces/simulink/qpOASES_SQProblem.cpp | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/interfaces/simulink/qpOASES_QProblem.cpp b/interfaces/simulink/qpOASES_QProblem.cpp
index f53276b..9de2acd 100644
--- a/interfaces/simulink/qpOASES_QProblem.cpp
+++ b/interfaces/simulink/qpOASES_QProblem.cpp
@@ -430,6 +430,10 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 
 	xOpt = new real_t[nV];
 
+	/* value that is put out if no solution is available */
+	for ( ii=0; ii<nV; ++ii )
+		xOpt[ii] = INFTY;
+
 	if ( problem->getCount() == 0 )
 	{
 		/* initialise and solve first QP */
diff --git a/interfaces/simulink/qpOASES_QProblemB.cpp b/interfaces/simulink/qpOASES_QProblemB.cpp
index 197d891..e6a8002 100644
--- a/interfaces/simulink/qpOASES_QProblemB.cpp
+++ b/interfaces/simulink/qpOASES_QProblemB.cpp
@@ -350,6 +350,10 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 
 	xOpt = new real_t[nV];
 
+	/* value that is put out if no solution is available */
+	for ( ii=0; ii<nV; ++ii )
+		xOpt[ii] = INFTY;
+
 	if ( problem->getCount() == 0 )
 	{
 		/* initialise and solve first QP */
diff --git a/interfaces/simulink/qpOASES_SQProblem.cpp b/interfaces/simulink/qpOASES_SQProblem.cpp
index cc9ee69..2c1f22b 100644
--- a/interfaces/simulink/qpOASES_SQProblem.cpp
+++ b/interfaces/simulink/qpOASES_SQProblem.cpp
@@ -400,6 +400,10 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 
 	xOpt = new real_t[nV];
 
+	/* value that is put out if no solution is available */
+	for ( ii=0; ii<nV; ++ii )
+		xOpt[ii] = INFTY;
+
 	if ( problem->getCount() == 0 )
 	{
 		/* initialise and solve first QP */
-- 
2.43.0


From 0aff111aaae9c69e23ea0112ef2b664015e11f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 121/134] fix: Scilab interface qpOASES_initSB created its
 results at wrong positions of the stack

---
 interfaces/scilab/qpOASESinterface.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/interfaces/scilab/qpOASESinterface.c b/interfaces/scilab/qpOASESinterface.c
index 00adef3..e8be9e5 100644
--- a/interfaces/scilab/qpOASESinterface.c
+++ b/interfaces/scilab/qpOASESinterface.c
@@ -383,11 +383,11 @@ int interface_QProblemB_init( char* fname )
 	}
 
 
-	CreateVar(  9,"d", &H_rows,&one,&x );
-	CreateVar( 10,"d", &one,&one,&obj );
-	CreateVar( 11,"i", &one,&one,&status );
-	CreateVar( 12,"i", &one,&one,&nWSRout );
-	CreateVar( 13,"d", &H_rows,&one,&y );
+	CreateVar(  6,"d", &H_rows,&one,&x );
+	CreateVar(  7,"d", &one,&one,&obj );
+	CreateVar(  8,"i", &one,&one,&status );
+	CreateVar(  9,"i", &one,&one,&nWSRout );
+	CreateVar( 10,"d", &H_rows,&one,&y );
 
 
 	qpb_rowsH = H_rows;
@@ -399,11 +399,11 @@ int interface_QProblemB_init( char* fname )
 							stk(x),stk(obj),istk(status),istk(nWSRout),stk(y)
 							);
 
-	LhsVar(1) = 9;
-	LhsVar(2) = 10;
-	LhsVar(3) = 11;
-	LhsVar(4) = 12;
-	LhsVar(5) = 13;
+	LhsVar(1) = 6;
+	LhsVar(2) = 7;
+	LhsVar(3) = 8;
+	LhsVar(4) = 9;
+	LhsVar(5) = 10;
 
 	return 0;
 }
-- 
2.43.0


From 976c263b5497c86b928cbba7b549edb3c95ef90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 122/134] fix: Scilab interface kept using memory of earlier
 calls for the matrices of its QP objects

---
 interfaces/scilab/qpOASESroutines.cpp | 52 ++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/interfaces/scilab/qpOASESroutines.cpp b/interfaces/scilab/qpOASESroutines.cpp
index 472a57f..5aa2fc4 100644
--- a/interfaces/scilab/qpOASESroutines.cpp
+++ b/interfaces/scilab/qpOASESroutines.cpp
@@ -52,6 +52,12 @@ static QProblem*  qp  = 0;
 static QProblemB* qpb = 0;
 static SQProblem* sqp = 0;
 
+/* copies of the matrices of these objects
+ * (memory provided by scilab must not be accessed any more in later calls) */
+static real_t *qp_H  = 0, *qp_A  = 0;
+static real_t *qpb_H = 0;
+static real_t *sqp_H = 0, *sqp_A = 0;
+
 
 extern "C"
 {
@@ -115,6 +121,22 @@ void transformA( real_t* A, int_t nV, int_t nC )
 }
 
 
+/*
+ *	c o p y A r r a y
+ */
+static real_t* copyArray( const real_t* const src, int_t dim )
+{
+	int_t i;
+
+	real_t* dest = new real_t[dim];
+
+	for( i=0; i<dim; ++i )
+		dest[i] = src[i];
+
+	return dest;
+}
+
+
 /*
  *	q p O A S E S
  */
@@ -156,9 +178,11 @@ void sci_QProblem_init( 	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub
 	transformA( A, *nV,*nC );
 
 	/* setup and solve initial QP */
+	qp_H = copyArray( H,(*nV)*(*nV) );
+	qp_A = copyArray( A,(*nC)*(*nV) );
 	qp = new QProblem( *nV,*nC );
 	qp->setPrintLevel( PL_LOW );
-	returnValue returnvalue = qp->init( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
+	returnValue returnvalue = qp->init( qp_H,g,qp_A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
 	qp->getPrimalSolution( x );
@@ -182,9 +206,10 @@ void sci_QProblemB_init(	real_t* H, real_t* g, real_t* lb, real_t* ub,
 	sci_QProblemB_cleanup( );
 
 	/* setup and solve initial QP */
+	qpb_H = copyArray( H,(*nV)*(*nV) );
 	qpb = new QProblemB( *nV );
 	qpb->setPrintLevel( PL_LOW );
-	returnValue returnvalue = qpb->init( H,g,lb,ub, *nWSR,0 );
+	returnValue returnvalue = qpb->init( qpb_H,g,lb,ub, *nWSR,0 );
 
 	/* assign lhs arguments */
 	qpb->getPrimalSolution( x );
@@ -211,9 +236,11 @@ void sci_SQProblem_init(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub
 	transformA( A, *nV,*nC );
 
 	/* setup and solve initial QP */
+	sqp_H = copyArray( H,(*nV)*(*nV) );
+	sqp_A = copyArray( A,(*nC)*(*nV) );
 	sqp = new SQProblem( *nV,*nC );
 	sqp->setPrintLevel( PL_LOW );
-	returnValue returnvalue = sqp->init( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
+	returnValue returnvalue = sqp->init( sqp_H,g,sqp_A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
 	sqp->getPrimalSolution( x );
@@ -305,8 +332,15 @@ void sci_SQProblem_hotstart(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t
 	/* transform A into C style matrix */
 	transformA( A, sqp->getNV( ),sqp->getNC( ) );
 
+	/* update copies of the matrices */
+	int_t i;
+	for( i=0; i<sqp->getNV( )*sqp->getNV( ); ++i )
+		sqp_H[i] = H[i];
+	for( i=0; i<sqp->getNC( )*sqp->getNV( ); ++i )
+		sqp_A[i] = A[i];
+
 	/* solve QP */
-	returnValue returnvalue = sqp->hotstart( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
+	returnValue returnvalue = sqp->hotstart( sqp_H,g,sqp_A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
 	sqp->getPrimalSolution( x );
@@ -328,6 +362,10 @@ void sci_QProblem_cleanup( )
 	{
 		delete qp;
 		qp = 0;
+		delete[] qp_H;
+		delete[] qp_A;
+		qp_H = 0;
+		qp_A = 0;
 	}
 
 	return;
@@ -343,6 +381,8 @@ void sci_QProblemB_cleanup( )
 	{
 		delete qpb;
 		qpb = 0;
+		delete[] qpb_H;
+		qpb_H = 0;
 	}
 
 	return;
@@ -358,6 +398,10 @@ void sci_SQProblem_cleanup( )
 	{
 		delete sqp;
 		sqp = 0;
+		delete[] sqp_H;
+		delete[] sqp_A;
+		sqp_H = 0;
+		sqp_A = 0;
 	}
 
 	return;
-- 
2.43.0


From ca5371f063a3a4b152cf256e7f195028f314fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 123/134] fix: Scilab interface returned uninitialised memory
 if the QP could not be solved

---
 interfaces/scilab/qpOASESroutines.cpp | 41 ++++++++++++++++++---------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/interfaces/scilab/qpOASESroutines.cpp b/interfaces/scilab/qpOASESroutines.cpp
index 5aa2fc4..5dac0b6 100644
--- a/interfaces/scilab/qpOASESroutines.cpp
+++ b/interfaces/scilab/qpOASESroutines.cpp
@@ -137,6 +137,26 @@ static real_t* copyArray( const real_t* const src, int_t dim )
 }
 
 
+/*
+ *	o b t a i n S o l u t i o n
+ */
+static void obtainSolution( QProblemB& problem, real_t* x, real_t* y, int_t nV, int_t nC )
+{
+	int_t i;
+
+	/* provide zeros if no solution is available */
+	for( i=0; i<nV; ++i )
+		x[i] = 0.0;
+	for( i=0; i<nV+nC; ++i )
+		y[i] = 0.0;
+
+	problem.getPrimalSolution( x );
+	problem.getDualSolution( y );
+
+	return;
+}
+
+
 /*
  *	q p O A S E S
  */
@@ -154,11 +174,10 @@ void sci_qpOASES(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub, real_
 	returnValue returnvalue = single_qp.init( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
-	single_qp.getPrimalSolution( x );
+	obtainSolution( single_qp, x,y, single_qp.getNV( ),single_qp.getNC( ) );
 	*obj = single_qp.getObjVal( );
 	*status = getSimpleStatus( returnvalue );
 	*nWSRout = *nWSR;
-	single_qp.getDualSolution( y );
 
 	return;
 }
@@ -185,11 +204,10 @@ void sci_QProblem_init( 	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub
 	returnValue returnvalue = qp->init( qp_H,g,qp_A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
-	qp->getPrimalSolution( x );
+	obtainSolution( *qp, x,y, qp->getNV( ),qp->getNC( ) );
 	*obj = qp->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
 	*nWSRout = *nWSR;
-	qp->getDualSolution( y );
 
 	return;
 }
@@ -212,11 +230,10 @@ void sci_QProblemB_init(	real_t* H, real_t* g, real_t* lb, real_t* ub,
 	returnValue returnvalue = qpb->init( qpb_H,g,lb,ub, *nWSR,0 );
 
 	/* assign lhs arguments */
-	qpb->getPrimalSolution( x );
+	obtainSolution( *qpb, x,y, qpb->getNV( ),0 );
 	*obj = qpb->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
 	*nWSRout = *nWSR;
-	qpb->getDualSolution( y );
 
 	return;
 }
@@ -243,11 +260,10 @@ void sci_SQProblem_init(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub
 	returnValue returnvalue = sqp->init( sqp_H,g,sqp_A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
-	sqp->getPrimalSolution( x );
+	obtainSolution( *sqp, x,y, sqp->getNV( ),sqp->getNC( ) );
 	*obj = sqp->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
 	*nWSRout = *nWSR;
-	sqp->getDualSolution( y );
 
 	return;
 }
@@ -273,11 +289,10 @@ void sci_QProblem_hotstart( 	real_t* g, real_t* lb, real_t* ub, real_t* lbA, rea
 	returnValue returnvalue = qp->hotstart( g,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
-	qp->getPrimalSolution( x );
+	obtainSolution( *qp, x,y, qp->getNV( ),qp->getNC( ) );
 	*obj = qp->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
 	*nWSRout = *nWSR;
-	qp->getDualSolution( y );
 
 	return;
 }
@@ -303,11 +318,10 @@ void sci_QProblemB_hotstart(	real_t* g, real_t* lb, real_t* ub,
 	returnValue returnvalue = qpb->hotstart( g,lb,ub, *nWSR,0 );
 
 	/* assign lhs arguments */
-	qpb->getPrimalSolution( x );
+	obtainSolution( *qpb, x,y, qpb->getNV( ),0 );
 	*obj = qpb->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
 	*nWSRout = *nWSR;
-	qpb->getDualSolution( y );
 
 	return;
 }
@@ -343,11 +357,10 @@ void sci_SQProblem_hotstart(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t
 	returnValue returnvalue = sqp->hotstart( sqp_H,g,sqp_A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
-	sqp->getPrimalSolution( x );
+	obtainSolution( *sqp, x,y, sqp->getNV( ),sqp->getNC( ) );
 	*obj = sqp->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
 	*nWSRout = *nWSR;
-	sqp->getDualSolution( y );
 
 	return;
 }
-- 
2.43.0


From 0342a37e62360f2975db7b06474306ea2dbfb22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:55 +0000
Subject: [PATCH 124/134] fix: far bounds could cross limits of the opposite
 side, making infeasible QPs look solved

---
 src/QProblem.cpp  | 15 ++++++++++++++-
 src/QProblemB.cpp |  9 ++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index ebf9bf5..b9cc010 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -589,19 +589,32 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 		real_t *ubA_new_far = new real_t[nC];
 		real_t *lbA_new_far = new real_t[nC];
 
-		/* possibly extend initial far bounds to largest bound/constraint data */
+		/* possibly extend initial far bounds to largest bound/constraint data
+		 * (and beyond limits that must not be crossed by far bounds of the opposite side) */
 		if (ub_new)
 			for (i = 0; i < nV; i++)
+			{
 				if ((ub_new[i] < INFTY) && (ub_new[i] > farbound)) farbound = ub_new[i];
+				if ((ub_new[i] > -INFTY) && (ub_new[i] <= -farbound)) farbound = -ub_new[i] * options.growFarBounds;
+			}
 		if (lb_new)
 			for (i = 0; i < nV; i++)
+			{
 				if ((lb_new[i] > -INFTY) && (lb_new[i] < -farbound)) farbound = -lb_new[i];
+				if ((lb_new[i] < INFTY) && (lb_new[i] >= farbound)) farbound = lb_new[i] * options.growFarBounds;
+			}
 		if (ubA_new)
 			for (i = 0; i < nC; i++)
+			{
 				if ((ubA_new[i] < INFTY) && (ubA_new[i] > farbound)) farbound = ubA_new[i];
+				if ((ubA_new[i] > -INFTY) && (ubA_new[i] <= -farbound)) farbound = -ubA_new[i] * options.growFarBounds;
+			}
 		if (lbA_new)
 			for (i = 0; i < nC; i++)
+			{
 				if ((lbA_new[i] > -INFTY) && (lbA_new[i] < -farbound)) farbound = -lbA_new[i];
+				if ((lbA_new[i] < INFTY) && (lbA_new[i] >= farbound)) farbound = lbA_new[i] * options.growFarBounds;
+			}
 
 		updateFarBounds(	farbound,nV+nC,
 							lb_new,lb_new_far, ub_new,ub_new_far,
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 02834c8..46b8c54 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -542,13 +542,20 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		real_t *ub_new_far = new real_t[nV];
 		real_t *lb_new_far = new real_t[nV];
 
-		/* possibly extend initial far bounds to largest bound/constraint data */
+		/* possibly extend initial far bounds to largest bound/constraint data
+		 * (and beyond limits that must not be crossed by far bounds of the opposite side) */
 		if (ub_new)
 			for (i = 0; i < nV; i++)
+			{
 				if ((ub_new[i] < INFTY) && (ub_new[i] > farbound)) farbound = ub_new[i];
+				if ((ub_new[i] > -INFTY) && (ub_new[i] <= -farbound)) farbound = -ub_new[i] * options.growFarBounds;
+			}
 		if (lb_new)
 			for (i = 0; i < nV; i++)
+			{
 				if ((lb_new[i] > -INFTY) && (lb_new[i] < -farbound)) farbound = -lb_new[i];
+				if ((lb_new[i] < INFTY) && (lb_new[i] >= farbound)) farbound = lb_new[i] * options.growFarBounds;
+			}
 
 		updateFarBounds(	farbound,nV,
 							lb_new,lb_new_far, ub_new,ub_new_far
-- 
2.43.0


From 5daf286f8e274a4f4698a7616cfd20bbca7378d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:26 +0000
Subject: [PATCH 125/134] fix: ramping could turn far bounds into infinite
 ones, unbounded QPs looked solved

---
 src/QProblem.cpp  | 1 +
 src/QProblemB.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index b9cc010..d949e3b 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5786,6 +5786,7 @@ returnValue QProblem::updateFarBounds(	real_t curFarBound, int_t nRamp,
 		{
 			t = static_cast<real_t>((nV+i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
+			rampVal = getMin( rampVal,getMax( curFarBound,0.5*INFTY ) ); /* ramping must not turn far bounds into infinite ones */
 
 			if ( lbA_new == 0 )
 				lbA_new_far[i] = -rampVal;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 46b8c54..b644734 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2342,6 +2342,7 @@ returnValue QProblemB::updateFarBounds(	real_t curFarBound, int_t nRamp,
 		{
 			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(getMax( nRamp-1,(int_t)1 ));
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
+			rampVal = getMin( rampVal,getMax( curFarBound,0.5*INFTY ) ); /* ramping must not turn far bounds into infinite ones */
 
 			if ( lb_new == 0 )
 				lb_new_far[i] = -rampVal;
-- 
2.43.0


From fd46dcbb21f0a87adf57ae743edc79820cb2df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 126/134] fix: far bounds that are active within termination
 tolerance were not moved away

---
 src/QProblem.cpp  | 12 ++++++++----
 src/QProblemB.cpp |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d949e3b..754cc6c 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -665,16 +665,20 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 				for ( i=0; i<nV; ++i )
 				{
-					if ( ( ( lb_new == 0 ) || ( lb_new_far[i] > lb_new[i] ) ) && ( getAbs ( lb_new_far[i] - x[i] ) < tol ) )
+					if ( ( ( lb_new == 0 ) || ( lb_new_far[i] > lb_new[i] ) ) &&
+						 ( ( getAbs ( lb_new_far[i] - x[i] ) < tol ) || ( bounds.getStatus( i ) == ST_LOWER ) ) )
 						++nActiveFar;
-					if ( ( ( ub_new == 0 ) || ( ub_new_far[i] < ub_new[i] ) ) && ( getAbs ( ub_new_far[i] - x[i] ) < tol ) )
+					if ( ( ( ub_new == 0 ) || ( ub_new_far[i] < ub_new[i] ) ) &&
+						 ( ( getAbs ( ub_new_far[i] - x[i] ) < tol ) || ( bounds.getStatus( i ) == ST_UPPER ) ) )
 						++nActiveFar;
 				}
 				for ( i=0; i<nC; ++i )
 				{
-					if ( ( ( lbA_new == 0 ) || ( lbA_new_far[i] > lbA_new[i] ) ) && ( getAbs ( lbA_new_far[i] - Ax[i] ) < tol ) )
+					if ( ( ( lbA_new == 0 ) || ( lbA_new_far[i] > lbA_new[i] ) ) &&
+						 ( ( getAbs ( lbA_new_far[i] - Ax[i] ) < tol ) || ( constraints.getStatus( i ) == ST_LOWER ) ) )
 						++nActiveFar;
-					if ( ( ( ubA_new == 0 ) || ( ubA_new_far[i] < ubA_new[i] ) ) && ( getAbs ( ubA_new_far[i] - Ax[i] ) < tol ) )
+					if ( ( ( ubA_new == 0 ) || ( ubA_new_far[i] < ubA_new[i] ) ) &&
+						 ( ( getAbs ( ubA_new_far[i] - Ax[i] ) < tol ) || ( constraints.getStatus( i ) == ST_UPPER ) ) )
 						++nActiveFar;
 				}
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index b644734..1cfa1b3 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -604,9 +604,11 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 				nActiveFar = 0;
 				for ( i=0; i<nV; ++i )
 				{
-					if ( ( ( lb_new == 0 ) || ( lb_new_far[i] > lb_new[i] ) ) && ( getAbs ( lb_new_far[i] - x[i] ) < tol ) )
+					if ( ( ( lb_new == 0 ) || ( lb_new_far[i] > lb_new[i] ) ) &&
+						 ( ( getAbs ( lb_new_far[i] - x[i] ) < tol ) || ( bounds.getStatus( i ) == ST_LOWER ) ) )
 						++nActiveFar;
-					if ( ( ( ub_new == 0 ) || ( ub_new_far[i] < ub_new[i] ) ) && ( getAbs ( ub_new_far[i] - x[i] ) < tol ) )
+					if ( ( ( ub_new == 0 ) || ( ub_new_far[i] < ub_new[i] ) ) &&
+						 ( ( getAbs ( ub_new_far[i] - x[i] ) < tol ) || ( bounds.getStatus( i ) == ST_UPPER ) ) )
 						++nActiveFar;
 				}
 
-- 
2.43.0


From eb093bb7ac60310d36efc214726ca41674604889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:49 +0000
Subject: [PATCH 127/134] fix: zero objective could be declared unbounded after
 far bounds had been moved

---
 src/QProblemB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 1cfa1b3..0a74095 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2283,7 +2283,8 @@ BooleanType QProblemB::isRegularisationPrevailing( const real_t* const g_new ) c
 		maxG   = getMax( maxG,getAbs( g_new[i] ) );
 	}
 
-	return ( maxReg > 1.0e-2*maxG ) ? BT_TRUE : BT_FALSE;
+	/* (without gradient there is no direction of descent) */
+	return ( ( maxG > EPS ) && ( maxReg > 1.0e-2*maxG ) ) ? BT_TRUE : BT_FALSE;
 }
 
 
-- 
2.43.0


From 6b98b5ec75b0629ad80b584df06e10a37c8e6ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 128/134] fix: hotstarts after regularisation steps started
 from a gradient that does not match the iterate

---
 src/QProblem.cpp  | 5 +++++
 src/QProblemB.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 754cc6c..b8d8dba 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1929,6 +1929,11 @@ returnValue QProblem::solveRegularisedQP(	const real_t* const g_new,
 	if ( usingRegularisation( ) == BT_FALSE )
 		return solveQP( g_new,lb_new,ub_new,lbA_new,ubA_new, nWSR,cputime,nWSRperformed,isFirstCall );
 
+	/* The current iterate is optimal for the modified gradient of the last regularisation
+	 * step, while g has been reset to the original one: start homotopy from the former. */
+	if ( options.numRegularisationSteps > 0 )
+		setupAuxiliaryQPgradient( );
+
 
 	/* I) SOLVE USUAL REGULARISED QP */
 	returnValue returnvalue;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 0a74095..9153be8 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2872,6 +2872,11 @@ returnValue QProblemB::solveRegularisedQP(	const real_t* const g_new,
 	if ( usingRegularisation( ) == BT_FALSE )
 		return solveQP( g_new,lb_new,ub_new, nWSR,cputime,nWSRperformed,isFirstCall );
 
+	/* The current iterate is optimal for the modified gradient of the last regularisation
+	 * step, while g has been reset to the original one: start homotopy from the former. */
+	if ( options.numRegularisationSteps > 0 )
+		setupAuxiliaryQPgradient( );
+
 
 	/* I) SOLVE USUAL REGULARISED QP */
 	returnValue returnvalue;
-- 
2.43.0


From 0f41ed95b9cca2eb8c4d697900089b03baacab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:17 +0000
Subject: [PATCH 129/134] fix: objective value was wrong by the regularisation
 term

---
 src/QProblemB.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9153be8..45ee380 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -835,15 +835,14 @@ real_t QProblemB::getObjVal( const real_t* const _x ) const
 			break;
 	}
 
-	/* When using regularisation, the objective function value
-	 * needs to be modified as follows:
-	 * objVal = objVal - 0.5*_x*(Hmod-H)*_x - _x'*(gMod-g)
-	 *        = objVal - 0.5*_x*eps*_x * - _x'*(-eps*_x)
-	 *        = objVal + 0.5*_x*eps*_x */
-	if ( usingRegularisation( ) == BT_TRUE )
+	/* When using regularisation, g is the original gradient (a zero Hessian is only
+	 * regularised implicitly) and the objective function value needs to be modified as follows:
+	 * objVal = objVal - 0.5*_x*(Hmod-H)*_x
+	 *        = objVal - 0.5*_x*eps*_x */
+	if ( ( usingRegularisation( ) == BT_TRUE ) && ( hessianType != HST_ZERO ) && ( hessianType != HST_IDENTITY ) )
 	{
 		for( i=0; i<nV; ++i )
-			objVal += 0.5*_x[i]*regVal*_x[i];
+			objVal -= 0.5*_x[i]*regVal*_x[i];
 	}
 
 	return objVal;
-- 
2.43.0


From f473811e11790807dd93d20d489881492fa74978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:42 +0000
Subject: [PATCH 130/134] fix: CPU time limit was ignored by regularisation
 steps

---
 src/QProblem.cpp  | 14 ++++++++++++++
 src/QProblemB.cpp | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index b8d8dba..c76f9d9 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1975,6 +1975,20 @@ returnValue QProblem::solveRegularisedQP(	const real_t* const g_new,
 
 	for( step=0; step<options.numRegularisationSteps; ++step )
 	{
+		/* Do not start further steps if there is no CPU time left. */
+		if ( ( step > 0 ) && ( cputime != 0 ) && ( cputime_total >= *cputime ) )
+		{
+			status = QPS_HOMOTOPYQPSOLVED;
+
+			delete[] gMod;
+
+			*cputime = cputime_total;
+
+			THROWWARNING( RET_FEWER_REGSTEPS_NWSR );
+
+			return RET_MAX_NWSR_REACHED;
+		}
+
 		/* 1) Modify gradient: gMod = g - eps*xOpt
 		 *    (assuming regularisation matrix to be regVal*Id). */
 		for( i=0; i<nV; ++i )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 45ee380..99de4d0 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2918,6 +2918,20 @@ returnValue QProblemB::solveRegularisedQP(	const real_t* const g_new,
 
 	for( step=0; step<options.numRegularisationSteps; ++step )
 	{
+		/* Do not start further steps if there is no CPU time left. */
+		if ( ( step > 0 ) && ( cputime != 0 ) && ( cputime_total >= *cputime ) )
+		{
+			status = QPS_HOMOTOPYQPSOLVED;
+
+			delete[] gMod;
+
+			*cputime = cputime_total;
+
+			THROWWARNING( RET_FEWER_REGSTEPS_NWSR );
+
+			return RET_MAX_NWSR_REACHED;
+		}
+
 		/* 1) Modify gradient: gMod = g - eps*xOpt
 		 *    (assuming regularisation matrix to be regVal*Id). */
 		for( i=0; i<nV; ++i )
-- 
2.43.0


From 9c8c35ad2e6ba5087b7b4f1c48f8a237833b8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:08 +0000
Subject: [PATCH 131/134] fix: options initialRamping and finalRamping had no
 effect before the object was reset

---
 include/qpOASES/QProblemB.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qpOASES/QProblemB.ipp b/include/qpOASES/QProblemB.ipp
index c7a3114..9eff723 100644
--- a/include/qpOASES/QProblemB.ipp
+++ b/include/qpOASES/QProblemB.ipp
@@ -194,6 +194,9 @@ inline returnValue QProblemB::setOptions(	const Options& _options
 	options = _options;
 	options.ensureConsistency( );
 
+	ramp0 = options.initialRamping;
+	ramp1 = options.finalRamping;
+
 	setPrintLevel( options.printLevel );
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From e41ef671362076b77bca59ee7276f626c3638257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:53 +0000
Subject: [PATCH 132/134] fix: single precision time measurement could not
 resolve less than two minutes

---
 src/Utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 066a008..11dee28 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -590,6 +590,11 @@ real_t getCPUtime( )
 	#elif defined(LINUX) || defined(__LINUX__)
 	struct timeval theclock;
 	gettimeofday( &theclock,0 );
+	#ifdef __USE_SINGLE_PRECISION__
+	/* count from first call, as single precision cannot resolve the time since 1970 */
+	static const time_t first_second = theclock.tv_sec;
+	theclock.tv_sec -= first_second;
+	#endif /* __USE_SINGLE_PRECISION__ */
 	current_time =  1.0*(real_t) theclock.tv_sec + 1.0e-6* (real_t) theclock.tv_usec;
 	#endif
 
-- 
2.43.0


From facb01ce9274f7b0d66dc55cb2d422586d45b84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 133/134] fix: QProblemB flipped bounds that are no longer
 limited to the opposite infinite limit

---
 include/qpOASES/QProblemB.hpp |  3 ++-
 src/QProblemB.cpp             | 15 +++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 619b59f..6da6f75 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -956,7 +956,8 @@ class QProblemB
 					RET_HESSIAN_NOT_SPD \n
 					RET_REMOVEBOUND_FAILED */
 		returnValue removeBound(	int_t number,				/**< Number of bound to be removed from active set. */
-									BooleanType updateCholesky	/**< Flag indicating if Cholesky decomposition shall be updated. */
+									BooleanType updateCholesky,	/**< Flag indicating if Cholesky decomposition shall be updated. */
+									BooleanType allowFlipping = BT_TRUE	/**< Flag indicating if flipping bounds are allowed. */
 									);
 
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 99de4d0..1dc78b5 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2627,7 +2627,11 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 		if ( ( ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) ) && ( bounds.getStatus(i) == ST_LOWER ) ) ||
 			 ( ( ( ub_new == 0 ) || ( ub_new[i] >=  INFTY ) ) && ( bounds.getStatus(i) == ST_UPPER ) ) )
 		{
-			returnvalue = removeBound( i,BT_TRUE );
+			/* never flip to a limit that is infinite, too */
+			if ( ( ( lb_new == 0 ) || ( lb_new[i] <= -INFTY ) ) && ( ( ub_new == 0 ) || ( ub_new[i] >= INFTY ) ) )
+				returnvalue = removeBound( i,BT_TRUE,BT_FALSE );
+			else
+				returnvalue = removeBound( i,BT_TRUE );
 			if ( returnvalue != SUCCESSFUL_RETURN )
 			{
 				delete[] delta_yFX; delete[] delta_xFX; delete[] delta_xFR;
@@ -3784,7 +3788,8 @@ returnValue QProblemB::addBound(	int_t number, SubjectToStatus B_status,
  *	r e m o v e B o u n d
  */
 returnValue QProblemB::removeBound(	int_t number,
-									BooleanType updateCholesky
+									BooleanType updateCholesky,
+									BooleanType allowFlipping
 									)
 {
 	int_t i;
@@ -3863,7 +3868,7 @@ returnValue QProblemB::removeBound(	int_t number,
 		for( i=0; i<nFR; ++i )
 			RR(i,nFR) = r[i];
 
-		if ( options.enableFlippingBounds == BT_TRUE )
+		if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) )
 		{
 			if ( r0 > options.epsFlipping )
 				RR(nFR,nFR) = getSqrt( r0 );
@@ -3888,6 +3893,8 @@ returnValue QProblemB::removeBound(	int_t number,
 		{
 			if ( r0 > ZERO )
 				RR(nFR,nFR) = getSqrt( r0 );
+			else if ( allowFlipping == BT_FALSE )
+				RR(nFR,nFR) = 100.0*EPS;
 			else
 			{
 				delete[] rhs; delete[] r;
@@ -3901,7 +3908,7 @@ returnValue QProblemB::removeBound(	int_t number,
 		delete[] rhs; delete[] r;
 	}
 
-	if ( ( hessianType == HST_ZERO ) && ( options.enableFlippingBounds == BT_TRUE ) )
+	if ( ( hessianType == HST_ZERO ) && ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) )
 	{
 		flipper.get( &bounds,R );
 		bounds.flipFixed(number);
-- 
2.43.0


From 18e4316fe4aecbcb8b8d6bd7708ba2c0028ed3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 134/134] fix: QProblemB did not list flipped bounds in its
 tabular output

---
 src/QProblemB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 1dc78b5..6b54433 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3879,6 +3879,8 @@ returnValue QProblemB::removeBound(	int_t number,
 
 				flipper.get( &bounds,R );
 				bounds.flipFixed(number);
+				tabularOutput.idxAddB = number;
+				tabularOutput.excAddB = 2;
 
 				switch (bounds.getStatus(number))
 				{
@@ -3912,6 +3914,8 @@ returnValue QProblemB::removeBound(	int_t number,
 	{
 		flipper.get( &bounds,R );
 		bounds.flipFixed(number);
+		tabularOutput.idxAddB = number;
+		tabularOutput.excAddB = 2;
 
 		switch (bounds.getStatus(number))
 		{
-- 
2.43.0

