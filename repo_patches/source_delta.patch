From 6d4b8a66c441cf3feaa89c6e8ce69d07a1003fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 01/30] fix: convex hull overcounted the area of points not in
 convex position and read past the last point

---
 cpp/SgTriangulate.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 94d7ef9..1d507d6 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -106,7 +106,8 @@ struct SgTriangulate_type {
         size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
 
         // add the remaining points
-        for (int ip = lastIndexOfFirstTriangle + 1; ip < numPoints; ++ip) {
+        // (removeDegenerateSegments may have reduced the number of points)
+        for (size_t ip = lastIndexOfFirstTriangle + 1; ip < this->points.size() / NDIMS_2D_PHYS; ++ip) {
             this->addPoint(ip);
         }
     }
@@ -202,6 +203,10 @@ struct SgTriangulate_type {
             i1 = extrema[1];
             // try creating a triangle using the next available point
             i2++;
+            if (i2 == numPoints) {
+                // no more points
+                break;
+            }
             area = std::abs(this->getParallelipipedArea(i0, i1, i2));
         }
         size_t lastPointIndexOfFirstTriangle = i2;
@@ -316,7 +321,12 @@ struct SgTriangulate_type {
         for (std::set< std::vector<size_t> >::const_iterator 
              it = boundaryEdgesToAdd.begin();
              it != boundaryEdgesToAdd.end(); ++it) {
-            this->boundaryEdges.insert(*it);
+            // an edge shared by two new triangles is internal, it appears twice with 
+            // opposite orientations
+            std::vector<size_t> reversedEdge(it->rbegin(), it->rend());
+            if (boundaryEdgesToAdd.find(reversedEdge) == boundaryEdgesToAdd.end()) {
+                this->boundaryEdges.insert(*it);
+            }
         }
     }
 };
-- 
2.43.0


From 4546c18e99d91bf910e746a440acf4691389d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 02/30] fix: convex hull area depended on the unit of length

---
 cpp/SgTriangulate.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 1d507d6..fddae36 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -90,6 +90,11 @@ struct SgTriangulate_type {
         // sort the point indices by increasing distance from the centre of gravity
         std::sort(sortedInds.begin(), sortedInds.end(), sortFunc);
 
+        // make the tolerance independent of the units of length
+        if (numPoints > 0) {
+            this->eps *= sortFunc.distanceSquareFromCenter(sortedInds.back());
+        }
+
         // set the points in increasing distance from the centre of gravity
         this->points.resize(2 * numPoints);
         for (size_t i = 0; i < sortedInds.size(); ++i) {
@@ -160,7 +165,7 @@ struct SgTriangulate_type {
         // the point is a middle point. Return the other two points
         std::vector<size_t> inds(3);
         inds[0] = i0; inds[1] = i1; inds[2] = i2;
-        double dotProduct = 1;
+        double dotProduct = std::numeric_limits<double>::max();
         size_t ia = 0, ib = 0, ic = 0;
         size_t j = 0;
         while (dotProduct > this->eps && j < 3) {
-- 
2.43.0


From c32da4c77859d21fd056624d266c207148b42e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 03/30] fix: SgLinearSolve passed the wrong shape to LAPACK for
 rectangular systems and could not solve twice

---
 cpp/SgLinearSolve.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index 384043d..5b3b2c5 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -6,6 +6,7 @@
 #define SG_LINEAR_SOLVE_H
 
 #include <vector>
+#include <algorithm> // std::copy
 #include <cstdlib> // std::max
 #include <cmath> // fabs
 
@@ -83,13 +84,17 @@ struct SgLinearSolve_type {
     int errCode = 0;
     char t = 'T'; // C storage
     int nrhs = 1;
-    int ldb = (int) this->b.size();
+    int ldb = (int) this->x.size();
+    // LAPACK overwrites the matrix and the right-hand side
+    this->mat = this->matOri;
+    std::copy(this->b.begin(), this->b.end(), this->x.begin());
+    // LAPACK uses column major storage so it sees the transpose, a ncol x nrow matrix
     _GELS_(&t, 
-           &this->nrow, 
            &this->ncol, 
+           &this->nrow, 
            &nrhs,
            &this->mat.front(), 
-           &this->nrow,
+           &this->ncol,
            &this->x.front(), &ldb,
            &this->work.front(), &this->lwork, 
            &errCode);
-- 
2.43.0


From 515f67958640bd468fe8714ab465ccef4e9f01eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 04/30] fix: memory leaks in the intersectors, the flow
 interpolator and the point finder

---
 cpp/SgFindPointInCell.h     | 1 +
 cpp/SgFlowInterp2D.h        | 7 +++++++
 cpp/SgQuadIntersect.cpp     | 1 -
 cpp/SgQuadIntersect.h       | 7 +++++++
 cpp/SgQuadLineIntersect.cpp | 1 -
 cpp/SgQuadLineIntersect.h   | 7 +++++++
 6 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index f3980a4..ccb399f 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -142,6 +142,7 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     }
 
     // create a solver
+    if (this->slvr) delete this->slvr;
     this->slvr = new SgLinearSolve_type(ndims, ndims);
 }
 
diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 05ace57..2b7099e 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -57,6 +57,7 @@ struct SgFlowInterp2D_type {
         if (this->srcNodeIt) {
             delete this->srcNodeIt;
         }
+        delete this->srcCellIt;
         for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
             delete this->srcEdgeIts[i];
         }
@@ -107,6 +108,12 @@ struct SgFlowInterp2D_type {
         int srcEdge0Dims[] = {dims[0] - 1, dims[1]};
         int srcEdge1Dims[] = {dims[0], dims[1] - 1};
 
+        // free the iterators of any previous source grid
+        delete this->srcNodeIt;
+        delete this->srcCellIt;
+        delete this->srcEdgeIts[0];
+        delete this->srcEdgeIts[1];
+
         const int zeros[] = {0, 0};
         this->srcNodeIt = new SgBoxIterator_type(2, zeros, dims);
         this->srcCellIt = new SgBoxIterator_type(2, zeros, srcCellDims);
diff --git a/cpp/SgQuadIntersect.cpp b/cpp/SgQuadIntersect.cpp
index 44ceb24..80cbf92 100644
--- a/cpp/SgQuadIntersect.cpp
+++ b/cpp/SgQuadIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadIntersect_new(SgQuadIntersect_type** self) {
 extern "C"                   
 int SgQuadIntersect_del(SgQuadIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index ea312c9..77b7614 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -48,6 +48,13 @@ struct SgQuadIntersect_type {
         this->quad2Coords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionPoints.resize(0);
     }
diff --git a/cpp/SgQuadLineIntersect.cpp b/cpp/SgQuadLineIntersect.cpp
index b6582dd..e7aa5aa 100644
--- a/cpp/SgQuadLineIntersect.cpp
+++ b/cpp/SgQuadLineIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadLineIntersect_new(SgQuadLineIntersect_type** self) {
 extern "C"                   
 int SgQuadLineIntersect_del(SgQuadLineIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 55502a2..aa45fe9 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -61,6 +61,13 @@ struct SgQuadLineIntersect_type {
         this->lineCoords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadLineIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionLambdas.resize(0);
     }
-- 
2.43.0


From de8939c5ac6b839f1ee9eaa0264280da3f270b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 05/30] fix: setting the grid again kept the bounding box and
 the periodicity of the previous grid

---
 cpp/SgFindPointInCell.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index ccb399f..c8375e5 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -106,10 +106,10 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     this->rhs.resize(ndims);
     this->dIndices.resize(ndims);
     this->targetPoint.resize(ndims);
-    this->xmins.resize(ndims, std::numeric_limits<double>::max());
-    this->xmaxs.resize(ndims, -std::numeric_limits<double>::max());
+    this->xmins.assign(ndims, std::numeric_limits<double>::max());
+    this->xmaxs.assign(ndims, -std::numeric_limits<double>::max());
     // default is no periodicity
-    this->indexPeriodicity.resize(ndims, 0.0);
+    this->indexPeriodicity.assign(ndims, 0.0);
     for (int i = 0; i < ndims; ++i) {
         if (periodicity[i] != 0) {
             this->indexPeriodicity[i] = (double) dims[i];
-- 
2.43.0


From f810370125958888f8a23721247c369cfe8cd3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 06/30] fix: computing the weights again kept or double counted
 the previous weights

---
 cpp/SgConserveInterp2D.h | 2 ++
 cpp/SgFlowInterp2D.h     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 0057ed3..a79fd3c 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -153,6 +153,8 @@ struct SgConserveInterp2D_type {
 	 */
 	void computeWeights() {
 
+		this->weights.clear();
+
 		// cache the edge to edge intersections
 		std::map< std::pair< std::vector<size_t>, std::vector<size_t> >, std::vector<double> > cacheEdgeX;
 
diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 2b7099e..7116237 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -192,6 +192,8 @@ struct SgFlowInterp2D_type {
      */
     void computeWeights() {
 
+        this->weights.clear();
+
         double dstLineCoords[2*NDIMS_2D_PHYS];
         double srcQuadCoords[4*NDIMS_2D_PHYS];
         const int offset1D[] = {0, 1};
-- 
2.43.0


From ff31accc6d221dd14203e84de3a7806b2b3b31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 07/30] fix: iterating over the conservative weights
 dereferenced end() when there are none

---
 cpp/SgConserveInterp2D.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index a79fd3c..35b3bf4 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -330,6 +330,9 @@ struct SgConserveInterp2D_type {
 				this->weights.insert(p);
 			}
 		}
+
+		// the iterators must not refer to the previous weights
+		this->reset();
 	}
 
 	/**
@@ -337,7 +340,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void reset() {
 		this->weightIt = this->weights.begin();
-		this->weightIt2 = this->weightIt->second.begin();		
+		if (this->weightIt != this->weights.end()) {
+			this->weightIt2 = this->weightIt->second.begin();
+		}
 	}
 
 	/** 
@@ -345,13 +350,15 @@ struct SgConserveInterp2D_type {
 	 * @return 0 (= continue) or 1 (= stop)
 	 */
 	int next() {
+		if (this->weightIt == this->weights.end()) {
+			// there are no weights
+			return 1;
+		}
 		// increment source counter
 		this->weightIt2++;
 		if (this->weightIt2 == this->weightIt->second.end()) {
 			// reached end of src counter, increment dst counter
 			this->weightIt++;
-			// reset src counter
-			this->weightIt2 = this->weightIt->second.begin();
 			if (this->weightIt == this->weights.end()) {
 				// reached end of dst counter
 				// reset dst and src counters
@@ -359,6 +366,8 @@ struct SgConserveInterp2D_type {
 				// end of iteration 
 				return 1;
 			}
+			// reset src counter
+			this->weightIt2 = this->weightIt->second.begin();
 		}
 		return 0;
 	}
@@ -368,8 +377,15 @@ struct SgConserveInterp2D_type {
 	 * @param srcIndx src grid flat index (output)
 	 * @param dstIndx dst grid flat index (output)
 	 * @param weight interpolation weight (output)
+	 * @note the indices are -1 and the weight is zero if there are no weights
 	 */
 	void get(int* srcIndx, int* dstIndx, double* weight) {
+		if (this->weightIt == this->weights.end()) {
+			*dstIndx = -1;
+			*srcIndx = -1;
+			*weight = 0;
+			return;
+		}
 		*dstIndx = this->weightIt->first;
 		*srcIndx = this->weightIt2->first;
 		*weight = this->weightIt2->second;
-- 
2.43.0


From 02a0208c56116b9f2baabf2d84dd3cb2a2241eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 08/30] fix: getErrorHistory accessed the front of an empty
 history

---
 cpp/SgFindPointInCell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index c8375e5..8342987 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -288,7 +288,7 @@ std::vector<double> getIndices() const {
  */
 void getErrorHistory(int* niter, double* errorHistory[]) {
     *niter = (int) this->errorHistory.size();
-    *errorHistory = &this->errorHistory.front();
+    *errorHistory = (*niter > 0? &this->errorHistory.front(): NULL);
 }
 
 /**
-- 
2.43.0


From a87bf170f0dc4b5f60f6de62f20a9c90e26ab1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:07 +0000
Subject: [PATCH 09/30] fix: a search converging at the last allowed iteration
 was reported as not converged

---
 cpp/SgFindPointInCell.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index 8342987..6f1a61f 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -259,14 +259,14 @@ int next() {
         }
     }
 
-    if (this->iter >= this->nitermax) {
-        // reached max number of iterations
-        return -1; 
-    }
     if (posError < this->tolpos) {
         // done!
         return 1;
     }
+    if (this->iter >= this->nitermax) {
+        // reached max number of iterations
+        return -1; 
+    }
 
     // has not yet converged
     this->oldError = posError;
-- 
2.43.0


From d04952446be039e40d70e3ac5d45f8e556cb1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 10/30] fix: points on the border of a grid with large
 coordinates were rejected as outside of the domain

---
 cpp/SgFindPointInCell.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index 6f1a61f..8f15841 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -6,6 +6,7 @@
 #define SG_FIND_POINT_IN_CELL_H
  
 #include <vector>
+#include <algorithm>
 #include <cstdio> // size_t
 #include <cmath>
 #include <limits>
@@ -218,8 +219,10 @@ int next() {
     // THIS SHOULD BE MOVED TO THE reset METHOD!!!!!
     bool inside = true;
     for (size_t i = 0; i < ndims; ++i) {
-        inside &= this->targetPoint[i] >= this->xmins[i] - eps;
-        inside &= this->targetPoint[i] <= this->xmaxs[i] + eps;
+        // allow for round-off errors, which are proportional to the coordinates
+        double tol = eps * std::max(1.0, std::max(std::abs(this->xmins[i]), std::abs(this->xmaxs[i])));
+        inside &= this->targetPoint[i] >= this->xmins[i] - tol;
+        inside &= this->targetPoint[i] <= this->xmaxs[i] + tol;
     }
     if (!inside) {
         return -3;
-- 
2.43.0


From 826f6873f7ec384285bb5c111ba356c7b4fe29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:13 +0000
Subject: [PATCH 11/30] fix: flow along an edge shared by two cells was counted
 twice or lost

---
 cpp/SgFlowInterp2D.h | 45 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 7116237..f75a6c1 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -70,8 +70,6 @@ struct SgFlowInterp2D_type {
      */
     void setDstGrid(const int dims[], const double** coords) {
 
-        const double eps = 10 * std::numeric_limits<double>::epsilon();
-
         size_t dstNumPoints = 1;
         this->dstNumCells = 1;
         for (size_t j = 0; j < NDIMS_1D_TOPO; ++j) {
@@ -83,11 +81,7 @@ struct SgFlowInterp2D_type {
         this->dstGrdCoords.resize(NDIMS_2D_PHYS * dstNumPoints);
         for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
             for (size_t i = 0; i < dstNumPoints; ++i) {
-                //this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
-                // apply small perturbation
-                double pertAngle = 1.99 * M_PI * double(i)/double(dstNumPoints - 1);
-                double pertAmpl = eps * (k + 1);
-                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i] + pertAmpl*cos(pertAngle);
+                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
             }
         }
     }
@@ -213,6 +207,10 @@ struct SgFlowInterp2D_type {
 
             intersector.setLinePoints(dstLineCoords);
 
+            // the parts of the segment (start -> end parameter) already taken by a src cell. 
+            // A part that runs along an edge belongs to one of the two adjacent cells only
+            std::map<double, double> taken;
+
             // iterate over the src quads
             for (size_t srcIndx = 0; srcIndx < this->srcNumCells; ++srcIndx) {
 
@@ -255,9 +253,36 @@ struct SgFlowInterp2D_type {
                     
                     weightCalc.setQuadPoints(srcQuadCoords);
 
-                    // iterate over the segments
-                    for (int i = 0; i < numPoints - 1; ++i) {
-                        weightCalc.setLinePoints(&points[i*NDIMS_2D_PHYS]);
+                    // find the parts of the segment in this cell that are still free
+                    std::vector<double> params;
+                    double lamBeg = intersector.intersectionLambdas.front();
+                    double lamEnd = intersector.intersectionLambdas.back();
+                    std::map<double, double>::const_iterator tk;
+                    for (tk = taken.begin(); tk != taken.end(); ++tk) {
+                        if (tk->first > lamBeg && lamBeg < lamEnd) {
+                            params.push_back(lamBeg);
+                            params.push_back(std::min(tk->first, lamEnd));
+                        }
+                        lamBeg = std::max(lamBeg, tk->second);
+                    }
+                    if (lamBeg < lamEnd) {
+                        params.push_back(lamBeg);
+                        params.push_back(lamEnd);
+                    }
+
+                    // iterate over the free parts
+                    for (size_t i = 0; i < params.size(); i += 2) {
+                        taken[params[i]] = params[i + 1];
+                        double part[2*NDIMS_2D_PHYS];
+                        for (size_t j = 0; j < 2*NDIMS_2D_PHYS; ++j) {
+                            double a = dstLineCoords[j % NDIMS_2D_PHYS];
+                            double b = dstLineCoords[NDIMS_2D_PHYS + j % NDIMS_2D_PHYS];
+                            part[j] = a + params[i + j / NDIMS_2D_PHYS]*(b - a);
+                            // round-off errors must not put the point outside of the quad's box
+                            part[j] = std::max(part[j], intersector.quadMin[j % NDIMS_2D_PHYS]);
+                            part[j] = std::min(part[j], intersector.quadMax[j % NDIMS_2D_PHYS]);
+                        }
+                        weightCalc.setLinePoints(part);
                         weightCalc.computeProjections();
                         
                         w[0] += weightCalc.getProjection(EDGE_LO_0);
-- 
2.43.0


From e9d787c04637ab08e36fc9c3d4b093f82ceb1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 12/30] fix: the overlapping cells were numbered with the node
 strides instead of the cell strides

---
 cpp/SgFindOverlappingCells2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index 478955a..e9e4608 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -78,7 +78,7 @@ struct SgFindOverlappingCells2D_type {
         this->srcCellProdDims[NDIMS_2D_TOPO - 1] = 1;
         for (int j = NDIMS_2D_TOPO - 2; j >= 0; --j) {
             // last index varies fastest
-            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * dims[j + 1];
+            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * (dims[j + 1] - 1);
           }
         this->pointFinder->setGrid(2, dims, periodicity, coords);
     }
-- 
2.43.0


From 8f30980014845493ef5a44824d0af306bbdeb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:24 +0000
Subject: [PATCH 13/30] fix: cells under polygons reaching outside of the
 source grid were missed

---
 cpp/SgFindOverlappingCells2D.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index e9e4608..ba694ff 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -9,6 +9,7 @@
 #include "SgFindPointInCell.h"
 #include "SgBoxIterator.h"
 #include <vector>
+#include <algorithm>
 #include <cstdio> // size_t
 
 struct SgFindOverlappingCells2D_type {
@@ -123,8 +124,14 @@ struct SgFindOverlappingCells2D_type {
 
             bool iterFlag = true;
 
-            // make this polygon's point th etarget point
-            const double* targetPoint = &this->polyPoints[i*NDIMS_2D_PHYS];
+            // make this polygon's point th etarget point. Points outside of the src domain 
+            // are moved to the border, the search would otherwise not start
+            double targetPoint[NDIMS_2D_PHYS];
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                targetPoint[j] = this->polyPoints[i*NDIMS_2D_PHYS + j];
+                targetPoint[j] = std::max(targetPoint[j], this->pointFinder->getSrcDomainLo()[j]);
+                targetPoint[j] = std::min(targetPoint[j], this->pointFinder->getSrcDomainHi()[j]);
+            }
 
             // start search
             this->pointFinder->reset(dIndices, targetPoint);
@@ -182,6 +189,8 @@ struct SgFindOverlappingCells2D_type {
             hiInds[j] = ceil(this->hiIndxCorner[j] + this->eps);
             // make sure the lo/hi index corners are in the domain
             loInds[j] = (loInds[j] >= 0? loInds[j]: 0);
+            // there is no cell on the high side of the last node
+            loInds[j] = (loInds[j] <= this->srcNodeDims[j] - 2? loInds[j]: this->srcNodeDims[j] - 2);
             hiInds[j] = (hiInds[j] < this->srcNodeDims[j] - 1?
                          hiInds[j]: this->srcNodeDims[j] - 1);
         }
-- 
2.43.0


From 415546abf0afb91c9dfc8c50665e2972408d8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:33 +0000
Subject: [PATCH 14/30] fix: target points found by approaching from the side
 were left without interpolation weights

---
 cpp/SgNodeInterp2D.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp/SgNodeInterp2D.h b/cpp/SgNodeInterp2D.h
index 0359048..21994bb 100644
--- a/cpp/SgNodeInterp2D.h
+++ b/cpp/SgNodeInterp2D.h
@@ -199,7 +199,15 @@ struct SgNodeInterp2D_type {
                     stop = sit.next();
                 }
 
-                if (ier != 0) {
+                if (ier == 0) {
+                    // found the index location
+                    const std::vector<double>& dInds = this->pointFinder->getIndices();
+                    const std::vector< std::pair<size_t, double> > 
+                        iw = this->pointFinder->getSrcIndicesAndWeights(dInds);
+                    std::pair<size_t, std::vector< std::pair<size_t, double> > > p(dstNodeIndex, iw);
+                    this->weights.insert(p);
+                }
+                else {
                     std::cerr << "ERROR: failed to find the index point for " << 
                           targetPoint[0] << ", " << targetPoint[1] << '\n';
                     std::vector<double> pos = this->pointFinder->getPosition();
-- 
2.43.0


From d19b40e4cedcd39e67be114ce700045723777984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:33 +0000
Subject: [PATCH 15/30] fix: negative values starting with a decimal point were
 taken for option names

---
 utils/CmdLineArgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 881dc49..725c17c 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -74,7 +74,7 @@ CmdLineArgParser::parse(int argc, char *argv[]) {
         std::string arg(argv[a]);
         // is arg the name of an option (or a value)?
         bool isOptionName = (arg[0] == '-') 
-            && (arg.size() >= 2) && !isdigit(arg[1]);
+            && (arg.size() >= 2) && !isdigit(arg[1]) && arg[1] != '.';
         if (isOptionName) {
             bool isValidOptName = 
                doubleArg.find(arg) != doubleArg.end()
-- 
2.43.0


From fa3b1a725b33a5bb1340a93e167f33fd5165aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:33 +0000
Subject: [PATCH 16/30] fix: the last element of an int list was parsed as a
 floating point number

---
 utils/CmdLineArgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 725c17c..cefc6c4 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -300,7 +300,7 @@ CmdLineArgParser::get<std::vector<int> >(const std::string& name) const {
             pos0 = pos1 + 1;
             pos1 = str.find(',', pos0);
         }
-        res.push_back(std::atof(str.substr(pos0, pos1 - pos0).c_str()));
+        res.push_back(std::atoi(str.substr(pos0, pos1 - pos0).c_str()));
     }
     return res;
 }
\ No newline at end of file
-- 
2.43.0


From 220c7a5d8d822ef06074a4365b7391e2930d85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:34 +0000
Subject: [PATCH 17/30] fix: the center of the polar grid offset the radius and
 the angle

---
 utils/createGrids2D.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index aa375a9..e79cdba 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -52,10 +52,10 @@ void createPolarGrid(const int nodeDims[],
     size_t index = 0;
     for (size_t i = 0; i < nodeDims[0]; ++i) {
         for (size_t j = 0; j < nodeDims[1]; ++j) {
-            double rho = center[0] + deltas[0]*i;
-            double the = center[1] + deltas[1]*j;
-            coords[0][index] = rho*cos(the);
-            coords[1][index] = rho*sin(the);
+            double rho = deltas[0]*i;
+            double the = deltas[1]*j;
+            coords[0][index] = center[0] + rho*cos(the);
+            coords[1][index] = center[1] + rho*sin(the);
             index++;
         }
     }
-- 
2.43.0


From e94b317530d29645b2c7975efde251d8180ca0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 18/30] fix: the last row of a tripolar grid was NaN when the
 cap has one row

---
 cpp/SgTripolarGrid.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/SgTripolarGrid.h b/cpp/SgTripolarGrid.h
index dc3e2e4..26b9902 100644
--- a/cpp/SgTripolarGrid.h
+++ b/cpp/SgTripolarGrid.h
@@ -78,7 +78,9 @@ void getGrid(int dims[], double*** coords) {
 
   latPerim = M_PI - this->capLatIndex*dj;
   //di = M_PI / (dims[0]-1);
-  dj = (0.5*M_PI) / (dims[1] - this->capLatIndex-1);
+  // there may be only one row in the cap
+  int numCapIntervals = dims[1] - this->capLatIndex - 1;
+  dj = (0.5*M_PI) / (numCapIntervals > 0? numCapIntervals: 1);
   pc0 = -(M_PI/2.);
   elc0 = (M_PI/2.);
   for (int j = this->capLatIndex; j < dims[1]; ++j) {
-- 
2.43.0


From 7aac10d64c09afe2906f5b8d6917ea0ae70c946c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:56 +0000
Subject: [PATCH 19/30] fix: the Python wrapper passed strided or non-double
 arrays to the library as if they were contiguous doubles

---
 py/conserveInterp2D.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 0037bd3..ad8b34e 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -29,6 +29,9 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates
 		"""
+		# the library expects contiguous arrays of doubles
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		coords = (ctypes.POINTER(ctypes.c_double) * NDIMS)(xcoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
@@ -44,6 +47,9 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates 
 		"""
+		# the library expects contiguous arrays of doubles
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		p0, p1 = int(periodicity[0]), int(periodicity[1])
@@ -61,7 +67,9 @@ class ConserveInterp2D:
 		"""
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
-		self.dstData *= 0 # initialize to zero
+		# the library expects contiguous arrays of doubles
+		srcData = numpy.ascontiguousarray(srcData, numpy.float64)
+		self.dstData.fill(0.0) # initialize to zero, also if there are NaNs
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
 			                               self.dstData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
-- 
2.43.0


From 881d529aed9d3369466469dc8e18a6bd949eb478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 20/30] fix: the Python wrapper applied the weights of the
 previous grids to a new grid

---
 py/conserveInterp2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index ad8b34e..6bc3822 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -39,6 +39,7 @@ class ConserveInterp2D:
 
 		sigrid.so.SgConserveInterp2D_setDstGrid(ctypes.byref(self.handle), dims, coords)
 		self.dstData = numpy.zeros((n0 - 1, n1 - 1), numpy.float64)
+		self.hasInterpWeights = False # must be computed again
 
 	def setSrcGrid(self, periodicity, xcoords, ycoords):
 		"""
@@ -58,6 +59,7 @@ class ConserveInterp2D:
 		                                                   ycoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
 		sigrid.so.SgConserveInterp2D_setSrcGrid(ctypes.byref(self.handle), dims, periods, coords)
 		self.hasSrcCoords = True
+		self.hasInterpWeights = False # must be computed again
 
 	def apply(self, srcData):
 		"""
-- 
2.43.0


From b901619005402141681803855ae2b39338f4fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:25 +0000
Subject: [PATCH 21/30] fix: wrong average of the y coordinate in the cell face
 basis functions

---
 scripts/cellFaceBasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cellFaceBasis.py b/scripts/cellFaceBasis.py
index 47ed62b..1f77132 100644
--- a/scripts/cellFaceBasis.py
+++ b/scripts/cellFaceBasis.py
@@ -25,7 +25,7 @@ class FaceBasis:
         # compute averages
         x1Avg = 0.5*(x[:-1, :] + x[1:, :]) # x average in the first coordinate
         x2Avg = 0.5*(x[:, :-1] + x[:, 1:]) # x average in the second coordinate
-        y1Avg = 0.5*(y[:-1, :] + y[:1, :])
+        y1Avg = 0.5*(y[:-1, :] + y[1:, :])
         y2Avg = 0.5*(y[:, :-1] + y[:, 1:])
 
         # partial derivatives
-- 
2.43.0


From 2703cedaddd736fe9608a5053930877a0ad1dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 22/30] fix: the convex hull was wrong when points nearly
 coincide

The incremental triangulation compared areas to a tolerance and merged points
closer than 1.e-6 times the size of the hull, so the area depended on the order
of the points and small overlaps were lost. Go around the hull instead.
---
 cpp/SgTriangulate.h | 268 ++++++++++----------------------------------
 1 file changed, 57 insertions(+), 211 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index fddae36..c4d5635 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -12,48 +12,28 @@
 #include <set>
 #include <cstdio> // size_t
 #include <cmath>
-#include <limits>
 
 /**
  * Functor used to order points 
  */
-struct SgSortByDistanceSquareFunctor {
+struct SgSortLexicographicFunctor {
 
-    std::vector<double> gravityCenter;
-
-    double* points;
-
-    int numPoints;
+    const double* points;
 
     /**
      * Constructor
-     * @param numPoints number of points 
-     * @param points points as numPoints sized array of 2 coordinates
+     * @param points points as flat array of 2 coordinates
      */
-    SgSortByDistanceSquareFunctor(int numPoints, const double points[]) {
-        this->numPoints = numPoints;
-        this->points = (double*) points;
-        this->gravityCenter.resize(NDIMS_2D_PHYS, 0);
-        for (int i = 0; i < numPoints; ++i) {
-            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j)
-                this->gravityCenter[j] += points[NDIMS_2D_PHYS*i + j] / (double)(numPoints);
-        }
-    }
-
-    double inline distanceSquareFromCenter(size_t i) {
-        double res = 0;
-        for (size_t j = 0; j < this->gravityCenter.size(); ++j) {
-            double sq = this->points[NDIMS_2D_PHYS*i + j] - this->gravityCenter[j];
-            res += sq * sq;
-        }
-        return res;
+    SgSortLexicographicFunctor(const double points[]) {
+        this->points = points;
     }
 
-    bool operator()(size_t i, size_t j) {
-        double diSq = this->distanceSquareFromCenter(i);
-        double djSq = this->distanceSquareFromCenter(j);
-        // sort by increasing distance
-        return diSq < djSq;
+    bool operator()(size_t i, size_t j) const {
+        // sort by increasing x, then by increasing y
+        return std::lexicographical_compare(&this->points[NDIMS_2D_PHYS*i], 
+                                            &this->points[NDIMS_2D_PHYS*(i + 1)],
+                                            &this->points[NDIMS_2D_PHYS*j], 
+                                            &this->points[NDIMS_2D_PHYS*(j + 1)]);
     }
 };
  
@@ -68,34 +48,19 @@ struct SgTriangulate_type {
     // set of 3-tuples
     std::set< std::vector<size_t> > triIndices;
 
-    // a tolerance used to determine whether a triangle area is positive
-    // or negative
-    double eps;
-
-
     SgTriangulate_type(int numPoints, const double points[]) {
 
-        // tolerance for floating point comparisons
-        this->eps = 1.e-12;
-
-        this->points.resize(2 * numPoints);
-
-        SgSortByDistanceSquareFunctor sortFunc(numPoints, points);
+        SgSortLexicographicFunctor sortFunc(points);
  
         // set the indices before the sort
         std::vector<size_t> sortedInds(numPoints);
         for (int i = 0; i < numPoints; ++i) {
             sortedInds[i] = i;
         }
-        // sort the point indices by increasing distance from the centre of gravity
+        // sort the point indices by increasing x, then by increasing y
         std::sort(sortedInds.begin(), sortedInds.end(), sortFunc);
 
-        // make the tolerance independent of the units of length
-        if (numPoints > 0) {
-            this->eps *= sortFunc.distanceSquareFromCenter(sortedInds.back());
-        }
-
-        // set the points in increasing distance from the centre of gravity
+        // set the points
         this->points.resize(2 * numPoints);
         for (size_t i = 0; i < sortedInds.size(); ++i) {
             size_t indx = sortedInds[i];
@@ -107,24 +72,8 @@ struct SgTriangulate_type {
         // remove degenerate points
         this->removeDegenerateSegments();
 
-        // create the first, non-degenerate triangle
-        size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
-
-        // add the remaining points
-        // (removeDegenerateSegments may have reduced the number of points)
-        for (size_t ip = lastIndexOfFirstTriangle + 1; ip < this->points.size() / NDIMS_2D_PHYS; ++ip) {
-            this->addPoint(ip);
-        }
-    }
-
-    double getDistanceSquare(size_t i0, size_t i1) {
-        double res = 0;
-        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-            double d = this->points[i1*NDIMS_2D_PHYS + j];
-            d -= this->points[i0*NDIMS_2D_PHYS + j];
-            res += d * d;
-        }
-        return res;
+        // triangulate the convex hull
+        this->makeTriangles();
     }
 
     void removeDegenerateSegments() {
@@ -142,11 +91,12 @@ struct SgTriangulate_type {
             pts.push_back(this->points[0*NDIMS_2D_PHYS + j]);
         }
 
-        // iterate over the remaining points, making sure the distance square between this 
-        // and the previous point is > 0
+        // iterate over the remaining points, making sure this point differs
+        // from the previous one
         size_t i0 = 0;
         for (size_t i1 = 1; i1 < numPoints; ++i1) {
-            if (this->getDistanceSquare(i0, i1) > this->eps) {
+            if (this->points[i0*NDIMS_2D_PHYS + 0] != this->points[i1*NDIMS_2D_PHYS + 0] ||
+                this->points[i0*NDIMS_2D_PHYS + 1] != this->points[i1*NDIMS_2D_PHYS + 1]) {
                 // not degenerate
                 for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
                     pts.push_back(this->points[i1*NDIMS_2D_PHYS + j]);
@@ -159,89 +109,54 @@ struct SgTriangulate_type {
         this->points = pts;
     }
 
-    std::vector<size_t> getExtremaPointIndices(size_t i0, size_t i1, size_t i2) {
-        // choose each point as the base point, compute the dot product of the 
-        // other vectors minus this point. If the dot product is negative then 
-        // the point is a middle point. Return the other two points
-        std::vector<size_t> inds(3);
-        inds[0] = i0; inds[1] = i1; inds[2] = i2;
-        double dotProduct = std::numeric_limits<double>::max();
-        size_t ia = 0, ib = 0, ic = 0;
-        size_t j = 0;
-        while (dotProduct > this->eps && j < 3) {
-            ic = inds[j];
-            ia = inds[(j + 1) % 3];
-            ib = inds[(j + 2) % 3];
-            dotProduct = 0;
-            for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
-                double da = this->points[ia*NDIMS_2D_PHYS + k];
-                da -= this->points[ic*NDIMS_2D_PHYS + k];
-                double db = this->points[ib*NDIMS_2D_PHYS + k];
-                db -= this->points[ic*NDIMS_2D_PHYS + k];
-                dotProduct += da*db;
-            }
-            j++;
-        }
-        std::vector<size_t> res(2);
-        res[0] = ia;
-        res[1] = ib;
-        return res;
+    /**
+     * Append a point to a chain of points turning counterclockwise, removing the previous points
+     * that would make the chain concave
+     * @param ip point index
+     * @param numMin number of leading points that must stay in the chain
+     * @param chain chain of point indices
+     */
+    void appendToChain(size_t ip, size_t numMin, std::vector<size_t>& chain) const {
+        // the area is computed from the middle point, this gives the angle at that point 
+        // to full precision even if two of the points are nearly the same
+        while (chain.size() > numMin && 
+               this->getParallelipipedArea(chain[chain.size() - 1], ip, chain[chain.size() - 2]) <= 0) {
+            chain.pop_back();
+        }
+        chain.push_back(ip);
     }
 
-    size_t makeFirstTriangle() {
+    void makeTriangles() {
 
         size_t numPoints = this->points.size() / NDIMS_2D_PHYS;
 
         if (numPoints < 3) {
-            return numPoints - 1;
+            return;
         }
 
-        // the first triangle cannot be degenerate
-        size_t i0 = 0;
-        size_t i1 = 1;
-        size_t i2 = 2;
-        double area = std::abs(this->getParallelipipedArea(i0, i1, i2));
-        while (i2 < numPoints && area < this->eps) {
-            // the points appear to be a line, get the two extremum point indices
-            std::vector<size_t> extrema = this->getExtremaPointIndices(i0, i1, i2);
-            i0 = extrema[0];
-            i1 = extrema[1];
-            // try creating a triangle using the next available point
-            i2++;
-            if (i2 == numPoints) {
-                // no more points
-                break;
-            }
-            area = std::abs(this->getParallelipipedArea(i0, i1, i2));
+        // go around the convex hull counterclockwise, from the first point to 
+        // the last point below, and back above
+        std::vector<size_t> hull(1, 0);
+        for (size_t ip = 1; ip < numPoints; ++ip) {
+            this->appendToChain(ip, 1, hull);
         }
-        size_t lastPointIndexOfFirstTriangle = i2;
-
-        if (area < this->eps) {
-            // all the points are on a line, cannot create triangle
-            return lastPointIndexOfFirstTriangle;
+        size_t numLower = hull.size();
+        for (size_t ip = numPoints - 1; ip > 0; --ip) {
+            this->appendToChain(ip - 1, numLower, hull);
         }
+        // the last point is the first point
+        hull.pop_back();
+
+        for (size_t i = 0; i < hull.size(); ++i) {
 
-        // got a non-degenerate triangle
-        // re-order the indices so the area is positive
-        std::vector<size_t> inds(3);
-        inds[0] = i0; inds[1] = i1; inds[2] = i2;
-        this->makeCounterClockwise(&inds[0]);
-        i0 = inds[0]; i1 = inds[1]; i2 = inds[2];
-
-        // create the triangle
-        this->triIndices.insert(inds);
-
-        // create the boundary edges associated with this triangle
-        size_t edge[] = {i0, i1};
-        this->boundaryEdges.insert(std::vector<size_t>(edge, edge + 2));
-        edge[0] = i1; edge[1] = i2;
-        this->boundaryEdges.insert(std::vector<size_t>(edge, edge + 2));
-        edge[0] = i2; edge[1] = i0;
-        this->boundaryEdges.insert(std::vector<size_t>(edge, edge + 2));
-
-        // return the first index that yields a non-degenerate triangle
-        // so we can add the remaining points starting from this index
-        return lastPointIndexOfFirstTriangle;
+            size_t edge[] = {hull[i], hull[(i + 1) % hull.size()]};
+            this->boundaryEdges.insert(std::vector<size_t>(edge, edge + 2));
+
+            if (i >= 1 && i + 1 < hull.size()) {
+                size_t tri[] = {hull[0], hull[i], hull[i + 1]};
+                this->triIndices.insert(std::vector<size_t>(tri, tri + 3));
+            }
+        }
     }
 
     double inline getParallelipipedArea(size_t ip0, size_t ip1, size_t ip2) const {
@@ -255,25 +170,6 @@ struct SgTriangulate_type {
         return (d1[0]*d2[1] - d1[1]*d2[0]);
     }
 
-    void inline makeCounterClockwise(size_t ips[]) {
-        double area = this->getParallelipipedArea(ips[0], ips[1], ips[2]);
-        if (area < -this->eps) {
-            size_t ip1 = ips[1];
-            size_t ip2 = ips[2];
-            // swap
-            ips[1] = ip2;
-            ips[2] = ip1;
-        }
-    }
-
-    bool inline isEdgeVisible(size_t ip, size_t ie0, size_t ie1) {
-        double area = this->getParallelipipedArea(ip, ie0, ie1);
-        if (area < -this->eps) {
-            return true;
-        }
-        return false;
-    }
-
     double getConvexHullArea() const {
         double area = 0;
         for (std::set< std::vector<size_t> >::const_iterator it = this->triIndices.begin();
@@ -284,56 +180,6 @@ struct SgTriangulate_type {
         return area;
     }
 
-
-    void addPoint(size_t ip) {
-
-        std::set< std::vector<size_t> > boundaryEdgesToRemove;
-        std::set< std::vector<size_t> > boundaryEdgesToAdd;
-
-        // iterate over boundary edges
-        for (std::set< std::vector<size_t> >::const_iterator it = this->boundaryEdges.begin();
-             it != this->boundaryEdges.end(); ++it) {
-            size_t iea = (*it)[0];
-            size_t ieb = (*it)[1];
-            if (this->isEdgeVisible(ip, iea, ieb)) {
-
-                // create new triangle
-                size_t tri[] = {iea, ip, ieb};
-                this->triIndices.insert(std::vector<size_t>(tri, tri + 3));
-
-                // keep track of edges to remove
-                std::vector<size_t> oldEdge(&(*it)[0], &(*it)[2]);
-                boundaryEdgesToRemove.insert(oldEdge);
-
-                // keep track of edges to add
-                std::vector<size_t> newEdge(2);
-                newEdge[0] = iea;
-                newEdge[1] = ip;
-                boundaryEdgesToAdd.insert(newEdge);
-                newEdge[0] = ip;
-                newEdge[1] = ieb;
-                boundaryEdgesToAdd.insert(newEdge);
-            }
-        }
-
-        // remove the old boundary edges
-        for (std::set< std::vector<size_t> >::const_iterator it = boundaryEdgesToRemove.begin();
-             it != boundaryEdgesToRemove.end(); ++it) {
-            this->boundaryEdges.erase(*it);
-        }
-
-        // add the new boundary edges
-        for (std::set< std::vector<size_t> >::const_iterator 
-             it = boundaryEdgesToAdd.begin();
-             it != boundaryEdgesToAdd.end(); ++it) {
-            // an edge shared by two new triangles is internal, it appears twice with 
-            // opposite orientations
-            std::vector<size_t> reversedEdge(it->rbegin(), it->rend());
-            if (boundaryEdgesToAdd.find(reversedEdge) == boundaryEdgesToAdd.end()) {
-                this->boundaryEdges.insert(*it);
-            }
-        }
-    }
 };
  
 #ifdef __cplusplus
-- 
2.43.0


From 181013feb2cdd04bd0869785a05092a82732121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 23/30] fix: points on the diagonal or the edges of thin cells
 were taken for outside of the cell

Because of round-off, a point on the diagonal could be missed by both triangles
of the quad, and points on the edges exceeded the tolerance of 100 epsilons.
---
 cpp/SgQuadIntersect.h     | 20 ++++++++++++++------
 cpp/SgQuadLineIntersect.h | 23 +++++++++++++++--------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 77b7614..2c2c9f6 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -91,12 +91,17 @@ struct SgQuadIntersect_type {
      * @param node0 1st point of the triangle
      * @param node1 2nd point of the triangle
      * @param node2 3rd point of the triangle
+     * @param isNear set to true if the point is in the triangle, or just across the edge between 
+     *               node1 and node2
      * @return true if the point in the triangle or on its boundary
      */
     bool checkIfPointIsInsideTriangle(const double* pt, 
                                        const double* node0,
                                        const double* node1,
-                                       const double* node2) {
+                                       const double* node2,
+                                       bool* isNear) {
+
+        *isNear = false;
 
         // x0 + xi*(x1 - x0) + eta*(x2 - x0) = pt
         for (size_t i = 0; i < 2; ++i) {
@@ -116,8 +121,9 @@ struct SgQuadIntersect_type {
         // make sure the parametric coordinates are within triangle
         // (0 <= xi < 1 and 0 <= xi + eta < 1). Allow for a small tolerance
         // in case the point is right on the triangle's edges
-        return xis[0] > -this->tol && xis[0] <= 1 + this->tol && 
-                xis[1] > -this->tol && xis[0] + xis[1] <= 1 + this->tol;
+        double xiSum = xis[0] + xis[1];
+        *isNear = xis[0] > -this->tol && xis[1] > -this->tol && xiSum < 1 + 1.e-6;
+        return *isNear && xis[0] <= 1 + this->tol && xiSum <= 1 + this->tol;
     }
 
     /**
@@ -144,17 +150,19 @@ struct SgQuadIntersect_type {
      * @param quad 4 points as flat array
      */
     bool isPointInCell(const double* point, const double* quad) {
+      bool isNear0, isNear2;
       if (this->checkIfPointIsInsideTriangle(point, &quad[0*NDIMS_2D_PHYS],
                                                     &quad[1*NDIMS_2D_PHYS],
-                                                    &quad[3*NDIMS_2D_PHYS])) {
+                                                    &quad[3*NDIMS_2D_PHYS], &isNear0)) {
         return true;
       }
       if (this->checkIfPointIsInsideTriangle(point, &quad[2*NDIMS_2D_PHYS],
                                                     &quad[3*NDIMS_2D_PHYS],
-                                                    &quad[1*NDIMS_2D_PHYS])) {
+                                                    &quad[1*NDIMS_2D_PHYS], &isNear2)) {
         return true;
       }
-      return false;
+      // a point on the diagonal between the two triangles can be missed by both, because of round-off
+      return isNear0 && isNear2;
     }
 
     /**
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index aa45fe9..4bfd86b 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -52,8 +52,7 @@ struct SgQuadLineIntersect_type {
      SgQuadLineIntersect_type() {
 
         // tolerance for floating point comparisons
-        //this->tol = 1.e-10;
-        this->tol = 100 * std::numeric_limits<double>::epsilon();
+        this->tol = 1.e-12;
 
         this->slvr = new SgLinearSolve_type(2, 2);
 
@@ -93,12 +92,17 @@ struct SgQuadLineIntersect_type {
      * @param node0 1st point of the triangle
      * @param node1 2nd point of the triangle
      * @param node2 3rd point of the triangle
+     * @param isNear set to true if the point is in the triangle, or just across the edge between 
+     *               node1 and node2
      * @return true if the point in the triangle or on its boundary
      */
     bool checkIfPointIsInsideTriangle(const double* pt, 
                                       const double* node0,
                                       const double* node1,
-                                      const double* node2) {
+                                      const double* node2,
+                                      bool* isNear) {
+
+        *isNear = false;
 
         // x0 + xi*(x1 - x0) + eta*(x2 - x0) = pt
         for (size_t i = 0; i < 2; ++i) {
@@ -118,8 +122,9 @@ struct SgQuadLineIntersect_type {
         // make sure the parametric coordinates are within triangle
         // (0 <= xi < 1 and 0 <= xi + eta < 1). Allow for a small tolerance
         // in case the point is right on the triangle's edges
-        return xis[0] > -this->tol && xis[0] <= 1 + this->tol && 
-                xis[1] > -this->tol && xis[0] + xis[1] <= 1 + this->tol;
+        double xiSum = xis[0] + xis[1];
+        *isNear = xis[0] > -this->tol && xis[1] > -this->tol && xiSum < 1 + 1.e-6;
+        return *isNear && xis[0] <= 1 + this->tol && xiSum <= 1 + this->tol;
     }
 
     /**
@@ -136,17 +141,19 @@ struct SgQuadLineIntersect_type {
      * @param quad 4 vertex points as flat array
      */
     bool isPointInQuad(const double* point, const double* quad) {
+      bool isNear0, isNear2;
       if (this->checkIfPointIsInsideTriangle(point, &quad[0*NDIMS_2D_PHYS],
                                                     &quad[1*NDIMS_2D_PHYS],
-                                                    &quad[3*NDIMS_2D_PHYS])) {
+                                                    &quad[3*NDIMS_2D_PHYS], &isNear0)) {
         return true;
       }
       if (this->checkIfPointIsInsideTriangle(point, &quad[2*NDIMS_2D_PHYS],
                                                     &quad[3*NDIMS_2D_PHYS],
-                                                    &quad[1*NDIMS_2D_PHYS])) {
+                                                    &quad[1*NDIMS_2D_PHYS], &isNear2)) {
         return true;
       }
-      return false;
+      // a point on the diagonal between the two triangles can be missed by both, because of round-off
+      return isNear0 && isNear2;
     }
 
     /**
-- 
2.43.0


From 5eb0aa15ddf67443d460bd63e7ede09cb348d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 24/30] fix: the search could not cross the seam of a periodic
 grid from the last to the first node

The period in index space was the number of nodes although the first and
the last nodes coincide: indices just above the last node were clamped.
---
 cpp/SgFindPointInCell.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index 8f15841..665aad3 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -33,7 +33,8 @@ struct SgFindPointInCell_type {
     // used when iterating over cell nodes
     std::vector<size_t> nodeProdDims;
 
-    // periodicity length in index space, either 0 (no periodicity) or dims
+    // periodicity length in index space, either 0 (no periodicity) or dims - 1
+    // (the first and the last nodes coincide along a periodic direction)
     std::vector<double> indexPeriodicity;
 
     // the number of grid points for each dimension
@@ -113,7 +114,7 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     this->indexPeriodicity.assign(ndims, 0.0);
     for (int i = 0; i < ndims; ++i) {
         if (periodicity[i] != 0) {
-            this->indexPeriodicity[i] = (double) dims[i];
+            this->indexPeriodicity[i] = (double) (dims[i] - 1);
         }
     }
 
@@ -410,12 +411,14 @@ void truncateIndices() {
     // (ie beyond the min/max dimensions). This can happen whenever one hits a 
     // pole in which case the Jacobian is singular and the index increment infinite.
 
+    // do not wrap because of round-off errors
+    const double eps = 1.e-12;
+
     for (size_t i = 0; i < this->dims.size(); ++i) {
         // take into account periodicity 
-        if (this->indexPeriodicity[i] != 0) {
-            this->dIndices[i] = fmod(
-                fmod(dIndices[i], this->indexPeriodicity[i]) + this->indexPeriodicity[i], 
-                this->indexPeriodicity[i]);
+        double period = this->indexPeriodicity[i];
+        if (period != 0 && (this->dIndices[i] < -eps || this->dIndices[i] > period + eps)) {
+            this->dIndices[i] = fmod(fmod(dIndices[i], period) + period, period);
         }
         // make sure the indices are within the domain
         this->dIndices[i] = (this->dIndices[i] < 0? 
-- 
2.43.0


From 291ae4cabdc31619a130c837d152c9af252858d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:54 +0000
Subject: [PATCH 25/30] fix: the middle column of the tripolar cap could be on
 the wrong side of the pole

atan2(sin(elc), tan(pc)) is the longitude of the rotated point only if
cos(pc) does not vanish; at the column half way tan(pc) overflows and takes
either sign depending on round-off. Multiply both arguments by cos(pc), which
is not negative.
---
 cpp/SgTripolarGrid.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/SgTripolarGrid.h b/cpp/SgTripolarGrid.h
index 26b9902..3545b11 100644
--- a/cpp/SgTripolarGrid.h
+++ b/cpp/SgTripolarGrid.h
@@ -87,7 +87,7 @@ void getGrid(int dims[], double*** coords) {
     for (int i = 0; i < dims[0]/2; ++i) {
       pc = pc0 + i*di;
       elc = elc0 - (j - this->capLatIndex)*dj;
-      this->lons[i+j*dims[0]] = el0 - atan2(sin(elc), tan(pc));
+      this->lons[i+j*dims[0]] = el0 - atan2(sin(elc)*cos(pc), sin(pc));
       this->lats[i+j*dims[0]] = 0.5*M_PI  - 2.*atan(tan(latPerim/2.)*
           tan(0.5*acos((cos(elc)*cos(pc)))));
 
@@ -102,7 +102,7 @@ void getGrid(int dims[], double*** coords) {
     for (int i = dims[0]/2; i < dims[0]; ++i) {
       pc = pc0 + (dims[0] - i - 1)*di;
       elc = elc0 + (1-1.e-10)*(j - this->capLatIndex)*dj;
-      this->lons[i+j*dims[0]] = el0 - atan2(sin(elc), tan(pc));
+      this->lons[i+j*dims[0]] = el0 - atan2(sin(elc)*cos(pc), sin(pc));
       this->lats[i+j*dims[0]] = 0.5*M_PI  - 2.*atan(tan(latPerim/2.)*
           tan(0.5*acos((cos(elc)*cos(pc)))));
 
-- 
2.43.0


From a844eeb4e7327562b35d8753afe172705ec776f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:50 +0000
Subject: [PATCH 26/30] fix: the vectors of the face basis functions were
 written without separators to the VTK file

---
 scripts/cellFaceBasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cellFaceBasis.py b/scripts/cellFaceBasis.py
index 1f77132..746207c 100644
--- a/scripts/cellFaceBasis.py
+++ b/scripts/cellFaceBasis.py
@@ -80,7 +80,7 @@ class FaceBasis:
             vx, vy = basis[0], basis[1]
             for i in range(dims[0] - 1):
                 for j in range(dims[1] - 1):
-                    f.write("{} {} 0.0".format(vx[i, j], vy[i, j]))
+                    f.write("{} {} 0.0\n".format(vx[i, j], vy[i, j]))
 
         f.close()
 
-- 
2.43.0


From 328601d39434e54bcb08dab2451bce25454e0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:18 +0000
Subject: [PATCH 27/30] fix: NaN latitudes in the rotated pole grid

The third coordinate of a rotated node can exceed 1 by round-off at the
poles, where asin then gives NaN (e.g. 18 rows rotated by -720/17 degrees).
atan2 is defined there and is also accurate close to the poles.
---
 utils/createGrids2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index e79cdba..11f1c71 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -115,7 +115,8 @@ void createRotatedPoleGrid(const int nodeDims[],
 
             matrixDotVector(transfMatrix, xyzPrime, xyz);
 
-            coords[0][k] = 180. * asin(xyz[2]) / M_PI;
+            // not asin, whose argument can exceed 1 by round-off at the poles
+            coords[0][k] = 180. * atan2(xyz[2], sqrt(xyz[0]*xyz[0] + xyz[1]*xyz[1])) / M_PI;
             coords[1][k] = 180. * atan2(xyz[1], xyz[0]) / M_PI;
             k++;
         }
-- 
2.43.0


From 532882bb82f052a3f31e1ac3962e00daeb7cf302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 28/30] fix: wrong overlap of cells whose edges nearly coincide

Edge crossings at the end points were dropped as these were assumed to
be found when looking for nodes inside the other cell. A node that lies
slightly outside of the other cell is however not found this way, so
corners of the overlap were missed.
---
 cpp/SgQuadIntersect.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 2c2c9f6..89c7230 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -211,11 +211,11 @@ struct SgQuadIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
-        // make sure the parametric coordinates are within the (0+, 1-) range
-        // no need to include the end points since they are already taken into 
-        // account when looking for nodes inside cell
-        if (xis[0] > this->tol && xis[0] <= 1 - this->tol && 
-            xis[1] > this->tol && xis[1] <= 1 - this->tol) {
+        // make sure the parametric coordinates are within the (0-, 1+) range. The end points
+        // are included, nodes just outside of the other cell are not found by looking for
+        // nodes inside cell
+        if (xis[0] >= -this->tol && xis[0] <= 1 + this->tol && 
+            xis[1] >= -this->tol && xis[1] <= 1 + this->tol) {
             // the two edges intersect
             for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
                 pt[j] = edge1Point0[j] + xis[0]*(edge1Point1[j] - edge1Point0[j]);
-- 
2.43.0


From ee17abdb62a9ea74b2d921f53242cf36dc702d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 29/30] fix: segments ending on the border or going through a
 corner of a thin quad were lost

---
 cpp/SgQuadLineIntersect.h | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 4bfd86b..b10ded6 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -86,6 +86,35 @@ struct SgQuadLineIntersect_type {
       return overlap;
     }
 
+    /**
+     * Estimate the error of a parametric coordinate of the last system that was solved
+     * @param index 0 or 1
+     * @return error, it grows as the two column vectors of the system become parallel
+     */
+    double getRoundOff(size_t index) const {
+        double det = std::abs(this->mat[0]*this->mat[3] - this->mat[1]*this->mat[2]);
+        double area = (std::abs(this->rhs[0]) + std::abs(this->rhs[1]) +
+                       std::abs(this->mat[index]) + std::abs(this->mat[2 + index])) *
+                      (std::abs(this->mat[1 - index]) + std::abs(this->mat[3 - index]));
+        return std::min(1.e-9, 1.e-15*area/det);
+    }
+
+    /**
+     * Set the parametric coordinates that are within round-off of 0 or 1 to 0 or 1
+     * @param xis parametric coordinates, solution of the last system that was solved
+     */
+    void snapToEnds(double xis[]) const {
+        for (size_t i = 0; i < 2; ++i) {
+            double err = this->getRoundOff(i);
+            if (std::abs(xis[i]) < err) {
+                xis[i] = 0;
+            }
+            else if (std::abs(xis[i] - 1) < err) {
+                xis[i] = 1;
+            }
+        }
+    }
+
     /**
      * Check if a point is inside a triangle
      * @param pt the target point
@@ -119,6 +148,12 @@ struct SgQuadLineIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
+        // a point on the border of a thin triangle can be slightly off because of round-off
+        this->snapToEnds(xis);
+        double xiOut = 1 - xis[0] - xis[1];
+        if (xiOut < 0 && xiOut > -this->getRoundOff(0) - this->getRoundOff(1)) {
+            xis[1] = 1 - xis[0];
+        }
         // make sure the parametric coordinates are within triangle
         // (0 <= xi < 1 and 0 <= xi + eta < 1). Allow for a small tolerance
         // in case the point is right on the triangle's edges
@@ -185,6 +220,8 @@ struct SgQuadLineIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
+        // an intersection at the end of nearly parallel edges can be slightly off because of round-off
+        this->snapToEnds(xis);
         // make sure the parametric coordinates are within the (0-, 1+) range
         if (xis[0] >= -this->tol && xis[0] < 1.0 + this->tol &&
             xis[1] >= -this->tol && xis[1] < 1.0 + this->tol) {
-- 
2.43.0


From 1cd57d94ec7c0346b7d321c42082ed09b9e2dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:11 +0000
Subject: [PATCH 30/30] fix: wrong overlap of thin quads with shared edges or
 nodes

---
 cpp/SgQuadIntersect.h     | 39 +++++++++++++++++++++++++++++++++++++++
 cpp/SgQuadLineIntersect.h | 10 ++++++----
 2 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 89c7230..c0c481b 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -85,6 +85,37 @@ struct SgQuadIntersect_type {
       return overlap;
     }
 
+    /**
+     * Estimate the error of a parametric coordinate of the last system that was solved
+     * @param index 0 or 1
+     * @return error, it grows as the two column vectors of the system become parallel
+     */
+    double getRoundOff(size_t index) const {
+        double det = std::abs(this->mat[0]*this->mat[3] - this->mat[1]*this->mat[2]);
+        double size = std::abs(this->rhs[0]) + std::abs(this->rhs[1]);
+        for (size_t i = 0; i < 4; ++i) {
+            size += std::abs(this->mat[i]);
+        }
+        double area = size*(std::abs(this->mat[1 - index]) + std::abs(this->mat[3 - index]));
+        return std::min(1.e-10, 1.e-15*area/det);
+    }
+
+    /**
+     * Set the parametric coordinates that are within round-off of 0 or 1 to 0 or 1
+     * @param xis parametric coordinates, solution of the last system that was solved
+     */
+    void snapToEnds(double xis[]) const {
+        for (size_t i = 0; i < 2; ++i) {
+            double err = this->getRoundOff(i);
+            if (std::abs(xis[i]) < err) {
+                xis[i] = 0;
+            }
+            else if (std::abs(xis[i] - 1) < err) {
+                xis[i] = 1;
+            }
+        }
+    }
+
     /**
      * Check if a point is inside a triangle
      * @param pt the target point
@@ -118,6 +149,12 @@ struct SgQuadIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
+        // a point on the border of a thin triangle can be slightly off because of round-off
+        this->snapToEnds(xis);
+        double xiOut = 1 - xis[0] - xis[1];
+        if (xiOut < 0 && xiOut > -this->getRoundOff(0) - this->getRoundOff(1)) {
+            xis[1] = 1 - xis[0];
+        }
         // make sure the parametric coordinates are within triangle
         // (0 <= xi < 1 and 0 <= xi + eta < 1). Allow for a small tolerance
         // in case the point is right on the triangle's edges
@@ -211,6 +248,8 @@ struct SgQuadIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
+        // an intersection at the end of nearly parallel edges can be slightly off because of round-off
+        this->snapToEnds(xis);
         // make sure the parametric coordinates are within the (0-, 1+) range. The end points
         // are included, nodes just outside of the other cell are not found by looking for
         // nodes inside cell
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index b10ded6..fb28635 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -93,10 +93,12 @@ struct SgQuadLineIntersect_type {
      */
     double getRoundOff(size_t index) const {
         double det = std::abs(this->mat[0]*this->mat[3] - this->mat[1]*this->mat[2]);
-        double area = (std::abs(this->rhs[0]) + std::abs(this->rhs[1]) +
-                       std::abs(this->mat[index]) + std::abs(this->mat[2 + index])) *
-                      (std::abs(this->mat[1 - index]) + std::abs(this->mat[3 - index]));
-        return std::min(1.e-9, 1.e-15*area/det);
+        double size = std::abs(this->rhs[0]) + std::abs(this->rhs[1]);
+        for (size_t i = 0; i < 4; ++i) {
+            size += std::abs(this->mat[i]);
+        }
+        double area = size*(std::abs(this->mat[1 - index]) + std::abs(this->mat[3 - index]));
+        return std::min(1.e-10, 1.e-15*area/det);
     }
 
     /**
-- 
2.43.0

