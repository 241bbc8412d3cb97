From 38e153d4e1b3f6520b33d69b5c8792a2248c942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 01/25] fix: convex hull area wrong when a point sees several
 hull edges or points are degenerate

addPoint left the shared internal edge (in both directions) among the boundary
edges, so later points could attach triangles to it. The constructor and
makeFirstTriangle also read past the end of the points array when degenerate
points had been removed or when all the points are on a line.
---
 cpp/SgTriangulate.h | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 94d7ef9..3d6ee5d 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -106,7 +106,9 @@ struct SgTriangulate_type {
         size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
 
         // add the remaining points
-        for (int ip = lastIndexOfFirstTriangle + 1; ip < numPoints; ++ip) {
+        // (removeDegenerateSegments may have reduced the number of points)
+        size_t numPts = this->points.size() / NDIMS_2D_PHYS;
+        for (size_t ip = lastIndexOfFirstTriangle + 1; ip < numPts; ++ip) {
             this->addPoint(ip);
         }
     }
@@ -202,6 +204,10 @@ struct SgTriangulate_type {
             i1 = extrema[1];
             // try creating a triangle using the next available point
             i2++;
+            if (i2 == numPoints) {
+                // ran out of points
+                break;
+            }
             area = std::abs(this->getParallelipipedArea(i0, i1, i2));
         }
         size_t lastPointIndexOfFirstTriangle = i2;
@@ -275,6 +281,20 @@ struct SgTriangulate_type {
     }
 
 
+    /**
+     * Add an edge to a set of boundary edges, unless the set contains the same 
+     * edge in the opposite direction. In this case the edge is shared by two 
+     * triangles (it is an internal edge) and both should be removed
+     * @param edge edge
+     * @param edges set of edges (in/out)
+     */
+    void addOrCancelEdge(const std::vector<size_t>& edge, std::set< std::vector<size_t> >& edges) {
+        std::vector<size_t> oppositeEdge(edge.rbegin(), edge.rend());
+        if (edges.erase(oppositeEdge) == 0) {
+            edges.insert(edge);
+        }
+    }
+
     void addPoint(size_t ip) {
 
         std::set< std::vector<size_t> > boundaryEdgesToRemove;
@@ -299,10 +319,10 @@ struct SgTriangulate_type {
                 std::vector<size_t> newEdge(2);
                 newEdge[0] = iea;
                 newEdge[1] = ip;
-                boundaryEdgesToAdd.insert(newEdge);
+                this->addOrCancelEdge(newEdge, boundaryEdgesToAdd);
                 newEdge[0] = ip;
                 newEdge[1] = ieb;
-                boundaryEdgesToAdd.insert(newEdge);
+                this->addOrCancelEdge(newEdge, boundaryEdgesToAdd);
             }
         }
 
-- 
2.43.0


From b35475faea0a74ed2c272f1f12fdff8b702b6870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 02/25] fix: SgConserveInterp2D::computeWeights kept the
 weights of the previous grids

---
 cpp/SgConserveInterp2D.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 0057ed3..0bfe704 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -153,6 +153,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void computeWeights() {
 
+		// remove the weights of any previous call, the grids may have changed
+		this->weights.clear();
+
 		// cache the edge to edge intersections
 		std::map< std::pair< std::vector<size_t>, std::vector<size_t> >, std::vector<double> > cacheEdgeX;
 
@@ -328,6 +331,9 @@ struct SgConserveInterp2D_type {
 				this->weights.insert(p);
 			}
 		}
+
+		// the iterators refer to the previous weights
+		this->reset();
 	}
 
 	/**
-- 
2.43.0


From 78e5bbe835bb81b8a72da23fbce7871e6d15d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 03/25] fix: SgConserveInterp2D iterators dereferenced end()
 when there are no weights or at the end of the iteration

---
 cpp/SgConserveInterp2D.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 0bfe704..6215adb 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -341,7 +341,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void reset() {
 		this->weightIt = this->weights.begin();
-		this->weightIt2 = this->weightIt->second.begin();		
+		if (this->weightIt != this->weights.end()) {
+			this->weightIt2 = this->weightIt->second.begin();
+		}
 	}
 
 	/** 
@@ -349,13 +351,15 @@ struct SgConserveInterp2D_type {
 	 * @return 0 (= continue) or 1 (= stop)
 	 */
 	int next() {
+		if (this->weightIt == this->weights.end()) {
+			// there are no weights
+			return 1;
+		}
 		// increment source counter
 		this->weightIt2++;
 		if (this->weightIt2 == this->weightIt->second.end()) {
 			// reached end of src counter, increment dst counter
 			this->weightIt++;
-			// reset src counter
-			this->weightIt2 = this->weightIt->second.begin();
 			if (this->weightIt == this->weights.end()) {
 				// reached end of dst counter
 				// reset dst and src counters
@@ -363,6 +367,8 @@ struct SgConserveInterp2D_type {
 				// end of iteration 
 				return 1;
 			}
+			// reset src counter
+			this->weightIt2 = this->weightIt->second.begin();
 		}
 		return 0;
 	}
@@ -372,8 +378,15 @@ struct SgConserveInterp2D_type {
 	 * @param srcIndx src grid flat index (output)
 	 * @param dstIndx dst grid flat index (output)
 	 * @param weight interpolation weight (output)
+	 * @note the indices are -1 and the weight is zero if there are no weights
 	 */
 	void get(int* srcIndx, int* dstIndx, double* weight) {
+		if (this->weightIt == this->weights.end()) {
+			*dstIndx = -1;
+			*srcIndx = -1;
+			*weight = 0;
+			return;
+		}
 		*dstIndx = this->weightIt->first;
 		*srcIndx = this->weightIt2->first;
 		*weight = this->weightIt2->second;
-- 
2.43.0


From 20de9d4b8b5ef475dfbaf9fc3026d6fc8c180544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 04/25] fix: SgFindPointInCell rejected targets outside the
 domain by less than the position tolerance

Round off in the target coordinates exceeds 100 epsilon as soon as the coordinates
are larger than O(1), in which case SgQuadLineFlows and SgFlowInterp2D silently
returned wrong fluxes.
---
 cpp/SgFindPointInCell.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index f3980a4..03e6a44 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -215,10 +215,12 @@ int next() {
 
     // check if inside domain
     // THIS SHOULD BE MOVED TO THE reset METHOD!!!!!
+    // a target that is within the position tolerance of the domain is inside
+    const double tolDomain = (this->tolpos > eps? this->tolpos: eps);
     bool inside = true;
     for (size_t i = 0; i < ndims; ++i) {
-        inside &= this->targetPoint[i] >= this->xmins[i] - eps;
-        inside &= this->targetPoint[i] <= this->xmaxs[i] + eps;
+        inside &= this->targetPoint[i] >= this->xmins[i] - tolDomain;
+        inside &= this->targetPoint[i] <= this->xmaxs[i] + tolDomain;
     }
     if (!inside) {
         return -3;
-- 
2.43.0


From b5e10b8ef196ca9c44a77d2958c415568f3d3f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 05/25] fix: SgFindPointInCell::setGrid kept the domain and
 periodicity of the previous grid (and leaked its solver)

---
 cpp/SgFindPointInCell.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index 03e6a44..1f204d8 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -106,10 +106,11 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     this->rhs.resize(ndims);
     this->dIndices.resize(ndims);
     this->targetPoint.resize(ndims);
-    this->xmins.resize(ndims, std::numeric_limits<double>::max());
-    this->xmaxs.resize(ndims, -std::numeric_limits<double>::max());
+    // forget about the domain and periodicity of any previous grid
+    this->xmins.assign(ndims, std::numeric_limits<double>::max());
+    this->xmaxs.assign(ndims, -std::numeric_limits<double>::max());
     // default is no periodicity
-    this->indexPeriodicity.resize(ndims, 0.0);
+    this->indexPeriodicity.assign(ndims, 0.0);
     for (int i = 0; i < ndims; ++i) {
         if (periodicity[i] != 0) {
             this->indexPeriodicity[i] = (double) dims[i];
@@ -142,6 +143,7 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     }
 
     // create a solver
+    if (this->slvr) delete this->slvr;
     this->slvr = new SgLinearSolve_type(ndims, ndims);
 }
 
-- 
2.43.0


From c2a19e45f895d4cb223b68fabcd9ac85a514384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 06/25] fix: SgFlowInterp2D counted the flux twice (or not at
 all) for segments running along cell edges

The perturbation of the segment points was smaller than the intersection tolerance
for interior edges, so both adjacent cells claimed the segment, and could push a
segment that lies on the domain boundary outside of the domain.
---
 cpp/SgFlowInterp2D.h      | 25 ++++++++++++++++++-------
 cpp/SgQuadLineIntersect.h | 10 +++++++++-
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 05ace57..fc80747 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -69,8 +69,6 @@ struct SgFlowInterp2D_type {
      */
     void setDstGrid(const int dims[], const double** coords) {
 
-        const double eps = 10 * std::numeric_limits<double>::epsilon();
-
         size_t dstNumPoints = 1;
         this->dstNumCells = 1;
         for (size_t j = 0; j < NDIMS_1D_TOPO; ++j) {
@@ -82,11 +80,7 @@ struct SgFlowInterp2D_type {
         this->dstGrdCoords.resize(NDIMS_2D_PHYS * dstNumPoints);
         for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
             for (size_t i = 0; i < dstNumPoints; ++i) {
-                //this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
-                // apply small perturbation
-                double pertAngle = 1.99 * M_PI * double(i)/double(dstNumPoints - 1);
-                double pertAmpl = eps * (k + 1);
-                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i] + pertAmpl*cos(pertAngle);
+                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
             }
         }
     }
@@ -204,6 +198,11 @@ struct SgFlowInterp2D_type {
 
             intersector.setLinePoints(dstLineCoords);
 
+            // the parts of the segment (start/end linear parametric coordinates) that have
+            // already been claimed by a src cell. This matters for segments that run along
+            // the edge shared by two src cells
+            std::vector< std::pair<double, double> > claimed;
+
             // iterate over the src quads
             for (size_t srcIndx = 0; srcIndx < this->srcNumCells; ++srcIndx) {
 
@@ -247,7 +246,19 @@ struct SgFlowInterp2D_type {
                     weightCalc.setQuadPoints(srcQuadCoords);
 
                     // iterate over the segments
+                    const std::vector<double>& lambdas = intersector.getIntersectionLambdas();
+                    size_t numClaimed = claimed.size();
                     for (int i = 0; i < numPoints - 1; ++i) {
+
+                        // skip if another src cell has claimed this segment
+                        double lambdaMid = 0.5*(lambdas[i] + lambdas[i + 1]);
+                        bool isClaimed = false;
+                        for (size_t j = 0; j < numClaimed; ++j) {
+                            isClaimed |= claimed[j].first < lambdaMid && lambdaMid < claimed[j].second;
+                        }
+                        if (isClaimed) continue;
+                        claimed.push_back(std::pair<double, double>(lambdas[i], lambdas[i + 1]));
+
                         weightCalc.setLinePoints(&points[i*NDIMS_2D_PHYS]);
                         weightCalc.computeProjections();
                         
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 55502a2..d61b8a6 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -75,7 +75,7 @@ struct SgQuadLineIntersect_type {
       // of the low corner points
       bool overlap = true;
       for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-        overlap &= std::min(this->quadMax[j], this->lineMax[j]) >= std::max(this->quadMin[j], this->lineMin[j]);
+        overlap &= std::min(this->quadMax[j], this->lineMax[j]) >= std::max(this->quadMin[j], this->lineMin[j]) - this->tol;
       }
       return overlap;
     }
@@ -123,6 +123,14 @@ struct SgQuadLineIntersect_type {
         return this->intersectionPoints;
     }
 
+    /**
+     * Get the linear parametric coordinates of the intersection points gathered so far
+     * @return array
+     */
+    const std::vector<double>& getIntersectionLambdas() const {
+        return this->intersectionLambdas;
+    }
+
     /**
      * Is point inside quad?
      * @param point target coordinates
-- 
2.43.0


From fed1e2a0b8c8cc847e5a4fd7ea236aa49c6907eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 07/25] fix: SgFlowInterp2D::computeWeights added to the
 weights of the previous call

---
 cpp/SgFlowInterp2D.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index fc80747..f8c8cc1 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -179,6 +179,9 @@ struct SgFlowInterp2D_type {
      */
     void computeWeights() {
 
+        // remove the weights of any previous call, the grids may have changed
+        this->weights.clear();
+
         double dstLineCoords[2*NDIMS_2D_PHYS];
         double srcQuadCoords[4*NDIMS_2D_PHYS];
         const int offset1D[] = {0, 1};
-- 
2.43.0


From 98d8d80087db11894e36dea9c392865f12a91213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:53 +0000
Subject: [PATCH 08/25] fix: SgFlowInterp2D leaked its src grid iterators

---
 cpp/SgFlowInterp2D.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index f8c8cc1..92244fc 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -54,9 +54,15 @@ struct SgFlowInterp2D_type {
      * Destructor
      */
     ~SgFlowInterp2D_type() {
-        if (this->srcNodeIt) {
-            delete this->srcNodeIt;
-        }
+        this->deleteIterators();
+    }
+
+    /**
+     * Delete the src grid iterators
+     */
+    void deleteIterators() {
+        delete this->srcNodeIt;
+        delete this->srcCellIt;
         for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
             delete this->srcEdgeIts[i];
         }
@@ -102,6 +108,7 @@ struct SgFlowInterp2D_type {
         int srcEdge1Dims[] = {dims[0], dims[1] - 1};
 
         const int zeros[] = {0, 0};
+        this->deleteIterators();
         this->srcNodeIt = new SgBoxIterator_type(2, zeros, dims);
         this->srcCellIt = new SgBoxIterator_type(2, zeros, srcCellDims);
         this->srcEdgeIts[0] = new SgBoxIterator_type(2, zeros, srcEdge0Dims);
-- 
2.43.0


From a79c687c754f581b7a26920486332c3a5b4bc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 09/25] fix: reused SgQuadIntersect and SgQuadLineIntersect
 objects returned the points of the previous calls

---
 cpp/SgQuadIntersect.h     | 3 +++
 cpp/SgQuadLineIntersect.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index ea312c9..23bc189 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -224,6 +224,9 @@ struct SgQuadIntersect_type {
      */
     void collectIntersectPoints(int* numPoints, double** points) {
 
+        // remove the points of any previous call
+        this->reset();
+
         *numPoints = 0;
         double pt[NDIMS_2D_PHYS];
 
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index d61b8a6..1aeef59 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -242,6 +242,9 @@ struct SgQuadLineIntersect_type {
      */
     void collectIntersectPoints(int* numPoints, double** points) {
 
+        // remove the points of any previous call
+        this->reset();
+
         *numPoints = 0;
 
         // add the starting line point if inside the quad
-- 
2.43.0


From e21dd43571306f47345b946726bc887e75333365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 10/25] fix: SgNodeInterp2D dropped the weights of the points
 found by approaching the target from the side

---
 cpp/SgNodeInterp2D.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cpp/SgNodeInterp2D.h b/cpp/SgNodeInterp2D.h
index 0359048..21994bb 100644
--- a/cpp/SgNodeInterp2D.h
+++ b/cpp/SgNodeInterp2D.h
@@ -199,7 +199,15 @@ struct SgNodeInterp2D_type {
                     stop = sit.next();
                 }
 
-                if (ier != 0) {
+                if (ier == 0) {
+                    // found the index location
+                    const std::vector<double>& dInds = this->pointFinder->getIndices();
+                    const std::vector< std::pair<size_t, double> > 
+                        iw = this->pointFinder->getSrcIndicesAndWeights(dInds);
+                    std::pair<size_t, std::vector< std::pair<size_t, double> > > p(dstNodeIndex, iw);
+                    this->weights.insert(p);
+                }
+                else {
                     std::cerr << "ERROR: failed to find the index point for " << 
                           targetPoint[0] << ", " << targetPoint[1] << '\n';
                     std::vector<double> pos = this->pointFinder->getPosition();
-- 
2.43.0


From d2ccb6867e4053fd0adff571872cdd3003fb0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 11/25] fix: SgLinearSolve passed the wrong dimensions to GELS
 for non-square systems

---
 cpp/SgLinearSolve.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index 384043d..bba03a7 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -83,13 +83,14 @@ struct SgLinearSolve_type {
     int errCode = 0;
     char t = 'T'; // C storage
     int nrhs = 1;
-    int ldb = (int) this->b.size();
+    int ldb = (int) this->x.size();
+    // row major nrow x ncol is column major ncol x nrow
     _GELS_(&t, 
-           &this->nrow, 
            &this->ncol, 
+           &this->nrow, 
            &nrhs,
            &this->mat.front(), 
-           &this->nrow,
+           &this->ncol,
            &this->x.front(), &ldb,
            &this->work.front(), &this->lwork, 
            &errCode);
-- 
2.43.0


From ca4082793f685a1cf1a967164608ccc9a8eebb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 12/25] fix: SgFindOverlappingCells2D computed the cell flat
 indices with the node dimensions

---
 cpp/SgFindOverlappingCells2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index 478955a..e9e4608 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -78,7 +78,7 @@ struct SgFindOverlappingCells2D_type {
         this->srcCellProdDims[NDIMS_2D_TOPO - 1] = 1;
         for (int j = NDIMS_2D_TOPO - 2; j >= 0; --j) {
             // last index varies fastest
-            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * dims[j + 1];
+            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * (dims[j + 1] - 1);
           }
         this->pointFinder->setGrid(2, dims, periodicity, coords);
     }
-- 
2.43.0


From 6a146f1503f4f3e8d27bfbe23593a580a8a45017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 13/25] fix: SgFindOverlappingCells2D missed cells when a
 polygon point lies outside the box containing the src grid

---
 cpp/SgFindOverlappingCells2D.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index e9e4608..ff420ec 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -9,6 +9,7 @@
 #include "SgFindPointInCell.h"
 #include "SgBoxIterator.h"
 #include <vector>
+#include <algorithm>
 #include <cstdio> // size_t
 
 struct SgFindOverlappingCells2D_type {
@@ -123,8 +124,16 @@ struct SgFindOverlappingCells2D_type {
 
             bool iterFlag = true;
 
-            // make this polygon's point th etarget point
-            const double* targetPoint = &this->polyPoints[i*NDIMS_2D_PHYS];
+            // make this polygon's point the target point. The search would not start if the 
+            // target were outside the box containing the src grid, in this case take the 
+            // closest point on the box
+            double targetPoint[NDIMS_2D_PHYS];
+            const double* xmins = this->pointFinder->getSrcDomainLo();
+            const double* xmaxs = this->pointFinder->getSrcDomainHi();
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                double p = this->polyPoints[i*NDIMS_2D_PHYS + j];
+                targetPoint[j] = std::min(xmaxs[j], std::max(xmins[j], p));
+            }
 
             // start search
             this->pointFinder->reset(dIndices, targetPoint);
-- 
2.43.0


From ef03b9579525c176f9b1130a7df426b55b6bbf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 14/25] fix: ConserveInterp2D.apply used the weights of the
 previous grids after setSrcGrid or setDstGrid

---
 py/conserveInterp2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 0037bd3..506b7b4 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -36,6 +36,7 @@ class ConserveInterp2D:
 
 		sigrid.so.SgConserveInterp2D_setDstGrid(ctypes.byref(self.handle), dims, coords)
 		self.dstData = numpy.zeros((n0 - 1, n1 - 1), numpy.float64)
+		self.hasInterpWeights = False # need to recompute the weights
 
 	def setSrcGrid(self, periodicity, xcoords, ycoords):
 		"""
@@ -52,6 +53,7 @@ class ConserveInterp2D:
 		                                                   ycoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
 		sigrid.so.SgConserveInterp2D_setSrcGrid(ctypes.byref(self.handle), dims, periods, coords)
 		self.hasSrcCoords = True
+		self.hasInterpWeights = False # need to recompute the weights
 
 	def apply(self, srcData):
 		"""
-- 
2.43.0


From 406d2c99a28d0a21ab00f7d1086433f2d7e1308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 15/25] fix: createPolarGrid added the center to the radius and
 the angle instead of the coordinates

---
 utils/createGrids2D.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index aa375a9..e79cdba 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -52,10 +52,10 @@ void createPolarGrid(const int nodeDims[],
     size_t index = 0;
     for (size_t i = 0; i < nodeDims[0]; ++i) {
         for (size_t j = 0; j < nodeDims[1]; ++j) {
-            double rho = center[0] + deltas[0]*i;
-            double the = center[1] + deltas[1]*j;
-            coords[0][index] = rho*cos(the);
-            coords[1][index] = rho*sin(the);
+            double rho = deltas[0]*i;
+            double the = deltas[1]*j;
+            coords[0][index] = center[0] + rho*cos(the);
+            coords[1][index] = center[1] + rho*sin(the);
             index++;
         }
     }
-- 
2.43.0


From 2c6708c5a0fe1acc56721d5e7e2f4097d6e8c5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 16/25] fix: ConserveInterp2D silently misread arrays that are
 not C contiguous arrays of doubles

---
 py/conserveInterp2D.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 506b7b4..4b436c4 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -29,6 +29,9 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates
 		"""
+		# the library expects flat arrays of doubles
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		coords = (ctypes.POINTER(ctypes.c_double) * NDIMS)(xcoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
@@ -45,6 +48,9 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates 
 		"""
+		# the library expects flat arrays of doubles
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		p0, p1 = int(periodicity[0]), int(periodicity[1])
@@ -63,6 +69,7 @@ class ConserveInterp2D:
 		"""
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
+		srcData = numpy.ascontiguousarray(srcData, numpy.float64)
 		self.dstData *= 0 # initialize to zero
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
-- 
2.43.0


From 704b54278ac4fe97bc9781dd115d431037380d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 17/25] fix: CmdLineArgParser rejected negative values without
 leading digit (-.5)

---
 utils/CmdLineArgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 881dc49..725c17c 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -74,7 +74,7 @@ CmdLineArgParser::parse(int argc, char *argv[]) {
         std::string arg(argv[a]);
         // is arg the name of an option (or a value)?
         bool isOptionName = (arg[0] == '-') 
-            && (arg.size() >= 2) && !isdigit(arg[1]);
+            && (arg.size() >= 2) && !isdigit(arg[1]) && arg[1] != '.';
         if (isOptionName) {
             bool isValidOptName = 
                doubleArg.find(arg) != doubleArg.end()
-- 
2.43.0


From a8f641ed73389218efa5cd77470771b4ffe635e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 18/25] fix: CmdLineArgParser converted the last element of an
 int vector differently from the others

---
 utils/CmdLineArgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 725c17c..cefc6c4 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -300,7 +300,7 @@ CmdLineArgParser::get<std::vector<int> >(const std::string& name) const {
             pos0 = pos1 + 1;
             pos1 = str.find(',', pos0);
         }
-        res.push_back(std::atof(str.substr(pos0, pos1 - pos0).c_str()));
+        res.push_back(std::atoi(str.substr(pos0, pos1 - pos0).c_str()));
     }
     return res;
 }
\ No newline at end of file
-- 
2.43.0


From f20d01148b0a7717ce98f7e71e0f592d5b841851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:42 +0000
Subject: [PATCH 19/25] fix: SgConserveInterp2D and SgFlowInterp2D leaked the
 linear solver of their intersectors

---
 cpp/SgQuadIntersect.cpp     | 1 -
 cpp/SgQuadIntersect.h       | 7 +++++++
 cpp/SgQuadLineIntersect.cpp | 1 -
 cpp/SgQuadLineIntersect.h   | 7 +++++++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/SgQuadIntersect.cpp b/cpp/SgQuadIntersect.cpp
index 44ceb24..80cbf92 100644
--- a/cpp/SgQuadIntersect.cpp
+++ b/cpp/SgQuadIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadIntersect_new(SgQuadIntersect_type** self) {
 extern "C"                   
 int SgQuadIntersect_del(SgQuadIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 23bc189..40a8f70 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -48,6 +48,13 @@ struct SgQuadIntersect_type {
         this->quad2Coords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionPoints.resize(0);
     }
diff --git a/cpp/SgQuadLineIntersect.cpp b/cpp/SgQuadLineIntersect.cpp
index b6582dd..e7aa5aa 100644
--- a/cpp/SgQuadLineIntersect.cpp
+++ b/cpp/SgQuadLineIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadLineIntersect_new(SgQuadLineIntersect_type** self) {
 extern "C"                   
 int SgQuadLineIntersect_del(SgQuadLineIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 1aeef59..ba16ef3 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -61,6 +61,13 @@ struct SgQuadLineIntersect_type {
         this->lineCoords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadLineIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionLambdas.resize(0);
     }
-- 
2.43.0


From fbfecdd9acb479c42cb29df73abf670f3120a95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:34 +0000
Subject: [PATCH 20/25] fix: convex hull area of small or nearly coincident
 point sets

Points closer than 1e-6 were merged and triangles smaller than 1e-12 were
dropped whatever the size of the point set, so overlap fractions of small
cells were wrong. Use a monotone chain, which needs no tolerance.
---
 cpp/SgTriangulate.h | 315 ++++++--------------------------------------
 1 file changed, 42 insertions(+), 273 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 3d6ee5d..6f029da 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -15,229 +15,57 @@
 #include <limits>
 
 /**
- * Functor used to order points 
+ * Functor used to order points by increasing x, then increasing y
  */
-struct SgSortByDistanceSquareFunctor {
+struct SgSortPointsFunctor {
 
-    std::vector<double> gravityCenter;
-
-    double* points;
-
-    int numPoints;
+    const double* points;
 
     /**
      * Constructor
-     * @param numPoints number of points 
-     * @param points points as numPoints sized array of 2 coordinates
+     * @param points points as a flat array of 2 coordinates
      */
-    SgSortByDistanceSquareFunctor(int numPoints, const double points[]) {
-        this->numPoints = numPoints;
-        this->points = (double*) points;
-        this->gravityCenter.resize(NDIMS_2D_PHYS, 0);
-        for (int i = 0; i < numPoints; ++i) {
-            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j)
-                this->gravityCenter[j] += points[NDIMS_2D_PHYS*i + j] / (double)(numPoints);
-        }
+    SgSortPointsFunctor(const double points[]) {
+        this->points = points;
     }
 
-    double inline distanceSquareFromCenter(size_t i) {
-        double res = 0;
-        for (size_t j = 0; j < this->gravityCenter.size(); ++j) {
-            double sq = this->points[NDIMS_2D_PHYS*i + j] - this->gravityCenter[j];
-            res += sq * sq;
-        }
-        return res;
-    }
-
-    bool operator()(size_t i, size_t j) {
-        double diSq = this->distanceSquareFromCenter(i);
-        double djSq = this->distanceSquareFromCenter(j);
-        // sort by increasing distance
-        return diSq < djSq;
+    bool operator()(size_t i, size_t j) const {
+        const double* pi = &this->points[NDIMS_2D_PHYS*i];
+        const double* pj = &this->points[NDIMS_2D_PHYS*j];
+        return pi[0] < pj[0] || (pi[0] == pj[0] && pi[1] < pj[1]);
     }
 };
  
 struct SgTriangulate_type {
 
-    // the vertices, as a flat array of 2D coordinates
+    // the points, as a flat array of 2D coordinates
     std::vector<double> points;
 
-    // set of 2-tuples nodes indices
-    std::set< std::vector<size_t> > boundaryEdges;
-
-    // set of 3-tuples
-    std::set< std::vector<size_t> > triIndices;
-
-    // a tolerance used to determine whether a triangle area is positive
-    // or negative
-    double eps;
-
+    // indices of the vertices of the convex hull, going counterclockwise
+    std::vector<size_t> hull;
 
+    /**
+     * Constructor
+     * @param numPoints number of points 
+     * @param points points as numPoints sized array of 2 coordinates
+     */
     SgTriangulate_type(int numPoints, const double points[]) {
 
-        // tolerance for floating point comparisons
-        this->eps = 1.e-12;
+        this->points.assign(points, points + NDIMS_2D_PHYS * numPoints);
 
-        this->points.resize(2 * numPoints);
-
-        SgSortByDistanceSquareFunctor sortFunc(numPoints, points);
- 
-        // set the indices before the sort
         std::vector<size_t> sortedInds(numPoints);
         for (int i = 0; i < numPoints; ++i) {
             sortedInds[i] = i;
         }
-        // sort the point indices by increasing distance from the centre of gravity
-        std::sort(sortedInds.begin(), sortedInds.end(), sortFunc);
-
-        // set the points in increasing distance from the centre of gravity
-        this->points.resize(2 * numPoints);
-        for (size_t i = 0; i < sortedInds.size(); ++i) {
-            size_t indx = sortedInds[i];
-            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-                this->points[NDIMS_2D_PHYS*i + j] = points[NDIMS_2D_PHYS*indx + j];
-            }        
-        }
-
-        // remove degenerate points
-        this->removeDegenerateSegments();
-
-        // create the first, non-degenerate triangle
-        size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
-
-        // add the remaining points
-        // (removeDegenerateSegments may have reduced the number of points)
-        size_t numPts = this->points.size() / NDIMS_2D_PHYS;
-        for (size_t ip = lastIndexOfFirstTriangle + 1; ip < numPts; ++ip) {
-            this->addPoint(ip);
-        }
-    }
-
-    double getDistanceSquare(size_t i0, size_t i1) {
-        double res = 0;
-        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-            double d = this->points[i1*NDIMS_2D_PHYS + j];
-            d -= this->points[i0*NDIMS_2D_PHYS + j];
-            res += d * d;
-        }
-        return res;
-    }
-
-    void removeDegenerateSegments() {
-
-        size_t numPoints = this->points.size() / NDIMS_2D_PHYS;
-
-        if (numPoints < 1) {
-            // nothing to do 
-            return;
-        }
-
-        // start with the first point
-        std::vector<double> pts;
-        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-            pts.push_back(this->points[0*NDIMS_2D_PHYS + j]);
-        }
-
-        // iterate over the remaining points, making sure the distance square between this 
-        // and the previous point is > 0
-        size_t i0 = 0;
-        for (size_t i1 = 1; i1 < numPoints; ++i1) {
-            if (this->getDistanceSquare(i0, i1) > this->eps) {
-                // not degenerate
-                for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-                    pts.push_back(this->points[i1*NDIMS_2D_PHYS + j]);
-                }
-                // new base point
-                i0 = i1;
-            }
-        }
-        // copy
-        this->points = pts;
-    }
-
-    std::vector<size_t> getExtremaPointIndices(size_t i0, size_t i1, size_t i2) {
-        // choose each point as the base point, compute the dot product of the 
-        // other vectors minus this point. If the dot product is negative then 
-        // the point is a middle point. Return the other two points
-        std::vector<size_t> inds(3);
-        inds[0] = i0; inds[1] = i1; inds[2] = i2;
-        double dotProduct = 1;
-        size_t ia = 0, ib = 0, ic = 0;
-        size_t j = 0;
-        while (dotProduct > this->eps && j < 3) {
-            ic = inds[j];
-            ia = inds[(j + 1) % 3];
-            ib = inds[(j + 2) % 3];
-            dotProduct = 0;
-            for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
-                double da = this->points[ia*NDIMS_2D_PHYS + k];
-                da -= this->points[ic*NDIMS_2D_PHYS + k];
-                double db = this->points[ib*NDIMS_2D_PHYS + k];
-                db -= this->points[ic*NDIMS_2D_PHYS + k];
-                dotProduct += da*db;
-            }
-            j++;
+        if (numPoints > 0) {
+            std::sort(sortedInds.begin(), sortedInds.end(), SgSortPointsFunctor(&this->points[0]));
         }
-        std::vector<size_t> res(2);
-        res[0] = ia;
-        res[1] = ib;
-        return res;
-    }
-
-    size_t makeFirstTriangle() {
-
-        size_t numPoints = this->points.size() / NDIMS_2D_PHYS;
-
-        if (numPoints < 3) {
-            return numPoints - 1;
-        }
-
-        // the first triangle cannot be degenerate
-        size_t i0 = 0;
-        size_t i1 = 1;
-        size_t i2 = 2;
-        double area = std::abs(this->getParallelipipedArea(i0, i1, i2));
-        while (i2 < numPoints && area < this->eps) {
-            // the points appear to be a line, get the two extremum point indices
-            std::vector<size_t> extrema = this->getExtremaPointIndices(i0, i1, i2);
-            i0 = extrema[0];
-            i1 = extrema[1];
-            // try creating a triangle using the next available point
-            i2++;
-            if (i2 == numPoints) {
-                // ran out of points
-                break;
-            }
-            area = std::abs(this->getParallelipipedArea(i0, i1, i2));
-        }
-        size_t lastPointIndexOfFirstTriangle = i2;
-
-        if (area < this->eps) {
-            // all the points are on a line, cannot create triangle
-            return lastPointIndexOfFirstTriangle;
-        }
-
-        // got a non-degenerate triangle
-        // re-order the indices so the area is positive
-        std::vector<size_t> inds(3);
-        inds[0] = i0; inds[1] = i1; inds[2] = i2;
-        this->makeCounterClockwise(&inds[0]);
-        i0 = inds[0]; i1 = inds[1]; i2 = inds[2];
-
-        // create the triangle
-        this->triIndices.insert(inds);
-
-        // create the boundary edges associated with this triangle
-        size_t edge[] = {i0, i1};
-        this->boundaryEdges.insert(std::vector<size_t>(edge, edge + 2));
-        edge[0] = i1; edge[1] = i2;
-        this->boundaryEdges.insert(std::vector<size_t>(edge, edge + 2));
-        edge[0] = i2; edge[1] = i0;
-        this->boundaryEdges.insert(std::vector<size_t>(edge, edge + 2));
 
-        // return the first index that yields a non-degenerate triangle
-        // so we can add the remaining points starting from this index
-        return lastPointIndexOfFirstTriangle;
+        // lower part of the hull, then the upper part. There is no tolerance: whether points
+        // are close or aligned depends on the size of the hull
+        this->addChain(sortedInds);
+        std::reverse(sortedInds.begin(), sortedInds.end());
+        this->addChain(sortedInds);
     }
 
     double inline getParallelipipedArea(size_t ip0, size_t ip1, size_t ip2) const {
@@ -251,93 +79,34 @@ struct SgTriangulate_type {
         return (d1[0]*d2[1] - d1[1]*d2[0]);
     }
 
-    void inline makeCounterClockwise(size_t ips[]) {
-        double area = this->getParallelipipedArea(ips[0], ips[1], ips[2]);
-        if (area < -this->eps) {
-            size_t ip1 = ips[1];
-            size_t ip2 = ips[2];
-            // swap
-            ips[1] = ip2;
-            ips[2] = ip1;
-        }
-    }
-
-    bool inline isEdgeVisible(size_t ip, size_t ie0, size_t ie1) {
-        double area = this->getParallelipipedArea(ip, ie0, ie1);
-        if (area < -this->eps) {
-            return true;
-        }
-        return false;
-    }
-
     double getConvexHullArea() const {
         double area = 0;
-        for (std::set< std::vector<size_t> >::const_iterator it = this->triIndices.begin();
-             it != this->triIndices.end(); ++it) {
-            area += this->getParallelipipedArea((*it)[0], (*it)[1], (*it)[2]);
+        for (size_t i = 2; i < this->hull.size(); ++i) {
+            area += this->getParallelipipedArea(this->hull[0], this->hull[i - 1], this->hull[i]);
         }
         area *= 0.5;
         return area;
     }
 
-
     /**
-     * Add an edge to a set of boundary edges, unless the set contains the same 
-     * edge in the opposite direction. In this case the edge is shared by two 
-     * triangles (it is an internal edge) and both should be removed
-     * @param edge edge
-     * @param edges set of edges (in/out)
+     * Add the convex chain joining the first to the last point (excluded) to the hull
+     * @param inds indices of the points, sorted
      */
-    void addOrCancelEdge(const std::vector<size_t>& edge, std::set< std::vector<size_t> >& edges) {
-        std::vector<size_t> oppositeEdge(edge.rbegin(), edge.rend());
-        if (edges.erase(oppositeEdge) == 0) {
-            edges.insert(edge);
-        }
-    }
-
-    void addPoint(size_t ip) {
-
-        std::set< std::vector<size_t> > boundaryEdgesToRemove;
-        std::set< std::vector<size_t> > boundaryEdgesToAdd;
-
-        // iterate over boundary edges
-        for (std::set< std::vector<size_t> >::const_iterator it = this->boundaryEdges.begin();
-             it != this->boundaryEdges.end(); ++it) {
-            size_t iea = (*it)[0];
-            size_t ieb = (*it)[1];
-            if (this->isEdgeVisible(ip, iea, ieb)) {
-
-                // create new triangle
-                size_t tri[] = {iea, ip, ieb};
-                this->triIndices.insert(std::vector<size_t>(tri, tri + 3));
-
-                // keep track of edges to remove
-                std::vector<size_t> oldEdge(&(*it)[0], &(*it)[2]);
-                boundaryEdgesToRemove.insert(oldEdge);
-
-                // keep track of edges to add
-                std::vector<size_t> newEdge(2);
-                newEdge[0] = iea;
-                newEdge[1] = ip;
-                this->addOrCancelEdge(newEdge, boundaryEdgesToAdd);
-                newEdge[0] = ip;
-                newEdge[1] = ieb;
-                this->addOrCancelEdge(newEdge, boundaryEdgesToAdd);
+    void addChain(const std::vector<size_t>& inds) {
+        std::vector<size_t> chain;
+        for (size_t i = 0; i < inds.size(); ++i) {
+            // drop the points that are not on the left
+            size_t n = chain.size();
+            while (n >= 2 && this->getParallelipipedArea(chain[n - 2], chain[n - 1], inds[i]) <= 0) {
+                chain.pop_back();
+                n--;
             }
+            chain.push_back(inds[i]);
         }
-
-        // remove the old boundary edges
-        for (std::set< std::vector<size_t> >::const_iterator it = boundaryEdgesToRemove.begin();
-             it != boundaryEdgesToRemove.end(); ++it) {
-            this->boundaryEdges.erase(*it);
-        }
-
-        // add the new boundary edges
-        for (std::set< std::vector<size_t> >::const_iterator 
-             it = boundaryEdgesToAdd.begin();
-             it != boundaryEdgesToAdd.end(); ++it) {
-            this->boundaryEdges.insert(*it);
+        if (chain.size() > 0) {
+            chain.pop_back();
         }
+        this->hull.insert(this->hull.end(), chain.begin(), chain.end());
     }
 };
  
-- 
2.43.0


From ac7ac938b422e7be953d68d875df1d53f307acda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 21/25] fix: solving a linear system again used the factored
 matrix and the previous solution

---
 cpp/SgLinearSolve.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index bba03a7..ffec04a 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -5,6 +5,7 @@
 #ifndef SG_LINEAR_SOLVE_H
 #define SG_LINEAR_SOLVE_H
 
+#include <algorithm> // std::copy
 #include <vector>
 #include <cstdlib> // std::max
 #include <cmath> // fabs
@@ -81,6 +82,10 @@ struct SgLinearSolve_type {
 
   int solve() {
     int errCode = 0;
+    // the solver works in place: start from the matrix and right-hand side
+    // that were set, also if this is not the first time
+    this->mat = this->matOri;
+    std::copy(this->b.begin(), this->b.end(), this->x.begin());
     char t = 'T'; // C storage
     int nrhs = 1;
     int ldb = (int) this->x.size();
-- 
2.43.0


From b43b51f6c2a21618e2ec85bfe2f7882fc20626e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:30 +0000
Subject: [PATCH 22/25] fix: a rotated pole grid could have a NaN latitude at
 the pole

---
 utils/createGrids2D.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index e79cdba..c4d4af2 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -1,4 +1,5 @@
 #include "createGrids2D.h"
+#include <algorithm>
 
 extern "C"
 void matrixDotMatrix(const double mat1[], const double mat2[], double matres[]) {
@@ -115,6 +116,8 @@ void createRotatedPoleGrid(const int nodeDims[],
 
             matrixDotVector(transfMatrix, xyzPrime, xyz);
 
+            // rounding can take a pole slightly off the unit sphere
+            xyz[2] = std::min(1., std::max(-1., xyz[2]));
             coords[0][k] = 180. * asin(xyz[2]) / M_PI;
             coords[1][k] = 180. * atan2(xyz[1], xyz[0]) / M_PI;
             k++;
-- 
2.43.0


From 8421041cade42c59bd8a56d611e52d0aa806c33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:04 +0000
Subject: [PATCH 23/25] fix: one face of the tetrahedron was oriented against
 the other three

---
 cpp/SgTetrahedron.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgTetrahedron.cpp b/cpp/SgTetrahedron.cpp
index 986a002..12df798 100644
--- a/cpp/SgTetrahedron.cpp
+++ b/cpp/SgTetrahedron.cpp
@@ -39,7 +39,7 @@ int SgTetrahedron_new(SgTetrahedron_type** self,
     (*self)->faces.push_back(f);
     f[0] = 0; f[1] = 3; f[2] = 1;
     (*self)->faces.push_back(f);
-    f[0] = 3; f[1] = 1; f[2] = 2;
+    f[0] = 3; f[1] = 2; f[2] = 1;
     (*self)->faces.push_back(f);
     f[0] = 0; f[1] = 2; f[2] = 3;
     (*self)->faces.push_back(f);
-- 
2.43.0


From 8131eb0147870bf5a3b9f90c211360e2e5ed8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:09 +0000
Subject: [PATCH 24/25] fix: periodic index search wraps at the coincident last
 node

---
 cpp/SgFindPointInCell.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index 1f204d8..8a3da98 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -32,7 +32,7 @@ struct SgFindPointInCell_type {
     // used when iterating over cell nodes
     std::vector<size_t> nodeProdDims;
 
-    // periodicity length in index space, either 0 (no periodicity) or dims
+    // periodicity length in index space, either 0 (no periodicity) or dims - 1
     std::vector<double> indexPeriodicity;
 
     // the number of grid points for each dimension
@@ -113,7 +113,8 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     this->indexPeriodicity.assign(ndims, 0.0);
     for (int i = 0; i < ndims; ++i) {
         if (periodicity[i] != 0) {
-            this->indexPeriodicity[i] = (double) dims[i];
+            // the last node coincides with the first one
+            this->indexPeriodicity[i] = (double) (dims[i] - 1);
         }
     }
 
@@ -411,8 +412,9 @@ void truncateIndices() {
     // pole in which case the Jacobian is singular and the index increment infinite.
 
     for (size_t i = 0; i < this->dims.size(); ++i) {
-        // take into account periodicity 
-        if (this->indexPeriodicity[i] != 0) {
+        // take into account periodicity, an index that is off by rounding is truncated below
+        if (this->indexPeriodicity[i] != 0 && 
+            (this->dIndices[i] < -1.e-8 || this->dIndices[i] > this->indexPeriodicity[i] + 1.e-8)) {
             this->dIndices[i] = fmod(
                 fmod(dIndices[i], this->indexPeriodicity[i]) + this->indexPeriodicity[i], 
                 this->indexPeriodicity[i]);
-- 
2.43.0


From 12099b5c862b3ea595e4fbb50e0e6be78bba95d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 25/25] fix: python apply keeps NaNs of a previous result in
 cells without weights

---
 py/conserveInterp2D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 4b436c4..ced8e0f 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -70,7 +70,7 @@ class ConserveInterp2D:
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
 		srcData = numpy.ascontiguousarray(srcData, numpy.float64)
-		self.dstData *= 0 # initialize to zero
+		self.dstData[...] = 0 # initialize to zero (multiplying would keep NaNs)
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
 			                               self.dstData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
-- 
2.43.0

