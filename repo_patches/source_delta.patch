From 0eb465070e70b35c44809773f6c373fe3f84d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 01/23] fix: write a single unknown of a global vector with its
 own number of basis functions

---
 kernel/Utilities/GlobalVector.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index d9bdf18..66e23f2 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -454,8 +454,9 @@ void GlobalPetscVector::writeTimeIntegrationVector(
         logger.assert_debug(localData.size() == runningTotal,
                             "not enough info to fill the vector");
         LinearAlgebra::MiddleSizeVector singleUnknownData(
-            (*it)->getNumberOfBasisFunctions());
-        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(); ++i) {
+            (*it)->getNumberOfBasisFunctions(unknown));
+        for (std::size_t i = 0; i < (*it)->getNumberOfBasisFunctions(unknown);
+             ++i) {
             singleUnknownData[i] =
                 localData[(*it)->convertToSingleIndex(i, unknown)];
         }
-- 
2.43.0


From ef6e062802f91fcb8669a89048e171e2d4ee5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:00 +0000
Subject: [PATCH 02/23] fix: collecting a single unknown into a global vector
 failed on negative indices

---
 kernel/Utilities/GlobalVector.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kernel/Utilities/GlobalVector.cpp b/kernel/Utilities/GlobalVector.cpp
index 66e23f2..33254d7 100644
--- a/kernel/Utilities/GlobalVector.cpp
+++ b/kernel/Utilities/GlobalVector.cpp
@@ -168,6 +168,11 @@ void GlobalPetscVector::constructFromTimeIntegrationVector(
     const Base::MeshManipulatorBase* mesh = indexing_.getMesh();
     logger.assert_always(mesh != nullptr, "No mesh to for the GlobalVector");
 
+    // The other unknowns are skipped by giving them a negative index, which
+    // PETSc only allows on request.
+    int ierr = VecSetOption(b_, VEC_IGNORE_NEGATIVE_INDICES, PETSC_TRUE);
+    CHKERRV(ierr);
+
     LinearAlgebra::MiddleSizeVector elementData;
     std::vector<PetscInt> localToGlobal;
     for (Base::Element* element : mesh->getElementsList()) {
@@ -186,14 +191,16 @@ void GlobalPetscVector::constructFromTimeIntegrationVector(
                 }
             }
         }
-        int ierr = VecSetValues(b_, localToGlobal.size(), localToGlobal.data(),
-                                elementData.data(), INSERT_VALUES);
+        ierr = VecSetValues(b_, localToGlobal.size(), localToGlobal.data(),
+                            elementData.data(), INSERT_VALUES);
         CHKERRV(ierr);
     }
 
-    int ierr = VecAssemblyBegin(b_);
+    ierr = VecAssemblyBegin(b_);
     ierr = VecAssemblyEnd(b_);
     CHKERRV(ierr);
+    ierr = VecSetOption(b_, VEC_IGNORE_NEGATIVE_INDICES, PETSC_FALSE);
+    CHKERRV(ierr);
 }
 
 void GlobalPetscVector::constructFromTimeIntegrationVector(
-- 
2.43.0


From 578a750be9aa29911ca1d4887c43bec2f1f64a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:09 +0000
Subject: [PATCH 03/23] fix: giving one unknown discontinuous basis functions
 left its conforming functions on faces, edges and nodes

---
 kernel/Base/MeshManipulator_Impl.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index bdc0346..a30325a 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -239,6 +239,18 @@ void MeshManipulator<DIM>::useDefaultDGBasisFunctions(std::size_t order,
         "useDefaultDGBasisFunctions(std::size_t unknown) will not clear "
         "collBasisFSet_ of the default basis functions. Use "
         "useDefaultBasisFunctions() instead for the zeroth unknown.");
+    // The unknown may have had conforming basis functions before.
+    for (Face *face : getFacesList(IteratorType::GLOBAL)) {
+        face->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    for (Edge *edge : getEdgesList(IteratorType::GLOBAL)) {
+        edge->setLocalNumberOfBasisFunctions(0, unknown);
+    }
+    if (DIM > 1) {
+        for (Node *node : getNodesList(IteratorType::GLOBAL)) {
+            node->setLocalNumberOfBasisFunctions(0, unknown);
+        }
+    }
     std::unordered_map<Geometry::ReferenceGeometryType, std::size_t,
                        EnumHash<Geometry::ReferenceGeometryType>>
         shapeToIndex;
-- 
2.43.0


From 8970f55ea2e960d2e941e2d7365cdb0b0eda3649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:10 +0000
Subject: [PATCH 04/23] fix: sparsity estimate checked the wrong unknown for
 face coupling when not all unknowns are included

---
 kernel/Utilities/SparsityEstimator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernel/Utilities/SparsityEstimator.cpp b/kernel/Utilities/SparsityEstimator.cpp
index 9835e8e..b4e07cb 100644
--- a/kernel/Utilities/SparsityEstimator.cpp
+++ b/kernel/Utilities/SparsityEstimator.cpp
@@ -383,9 +383,11 @@ std::pair<std::vector<int>, std::vector<int>>
     if (distributedMesh) {
         for (std::size_t i = 0; i < rowIndexing_.getNumberOfIncludedUnknowns();
              ++i) {
+            std::size_t rowUnknown = rowIndexing_.getIncludedUnknowns()[i];
             for (std::size_t j = 0;
                  j < columnIndexing_.getNumberOfIncludedUnknowns(); ++j) {
-                if (faceCoupling(i, j) && !rowDoFs.isOnlyElementBased(i)) {
+                if (faceCoupling(i, j) &&
+                    !rowDoFs.isOnlyElementBased(rowUnknown)) {
                     logger(ERROR,
                            "Face coupling of a row-DoF from an Face, Edge or "
                            "Node.");
-- 
2.43.0


From f7d0c5846869fe167bb67e2853ebed90c24acb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:05 +0000
Subject: [PATCH 05/23] fix: writing Paraview output for piecewise constant
 solutions crashed

The Lagrange elements of order 0 have no points; use the linear elements.
---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 1b23749..6be2535 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -493,7 +493,7 @@ inline void VTKSpecificTimeWriter<0>::setupMapping(std::size_t order) {
 
 template <>
 inline void VTKSpecificTimeWriter<1>::setupMapping(std::size_t order) {
-    if (order == 1) {
+    if (order <= 1) {
         elementMapping_[Geometry::ReferenceGeometryType::LINE] =
             std::make_shared<VTKLine>();
     } else {
@@ -504,7 +504,7 @@ inline void VTKSpecificTimeWriter<1>::setupMapping(std::size_t order) {
 
 template <>
 inline void VTKSpecificTimeWriter<2>::setupMapping(std::size_t order) {
-    if (order == 1) {
+    if (order <= 1) {
         elementMapping_[Geometry::ReferenceGeometryType::TRIANGLE] =
             std::make_shared<VTKTriangle>();
         elementMapping_[Geometry::ReferenceGeometryType::SQUARE] =
@@ -519,7 +519,7 @@ inline void VTKSpecificTimeWriter<2>::setupMapping(std::size_t order) {
 
 template <>
 inline void VTKSpecificTimeWriter<3>::setupMapping(std::size_t order) {
-    if (order == 1) {
+    if (order <= 1) {
         elementMapping_[Geometry::ReferenceGeometryType::TETRAHEDRON] =
             std::make_shared<VTKTetra>();
         elementMapping_[Geometry::ReferenceGeometryType::CUBE] =
-- 
2.43.0


From 6da3dac77131b46828d07797f7c993aaa669f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:16 +0000
Subject: [PATCH 06/23] fix: tensors in Paraview output were declared with 3
 instead of 9 components

The data has nine values per point, so readers reject (or misread) the file.
---
 kernel/Output/VTKSpecificTimeWriter_Impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index 6be2535..fe50176 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -166,10 +166,8 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
                         << std::endl;
         }
         for (const auto& entry : tensors) {
-            // Note: It seems strange that this is identical to the vector case
-            // this was just copied from the previous implementation.
             masterFile_ << R"(      <PDataArray type="Float64" Name=")"
-                        << entry.first << R"(" NumberOfComponents="3"/>)"
+                        << entry.first << R"(" NumberOfComponents="9"/>)"
                         << std::endl;
         }
     }
@@ -233,7 +231,7 @@ void VTKSpecificTimeWriter<DIM>::writeMultiple(
     for (const auto& entry : tensors) {
         const std::string& name = entry.first;
         localFile_ << R"(      <DataArray type="Float64" Name=")" << name
-                   << R"(" NumberOfComponents="3" format="binary">)"
+                   << R"(" NumberOfComponents="9" format="binary">)"
                    << std::endl;
         localFile_ << "        ";
         writeBinaryDataArrayData(data[name]);
-- 
2.43.0


From 16730026dff6d1c89f428304754ba46d74ea0aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:46 +0000
Subject: [PATCH 07/23] fix: preprocessor refused gmsh files with linear
 tetrahedra

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 95a6676..9a06df8 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -321,7 +321,7 @@ void GmshReader::readElements() {
 
     reorder.addElementType(2, "square:", {0, 1, 3, 2});
     // Tetrahedrons should not require reordering
-    // reorder.addElementType(3, "tetrahedron:", {0, 3, 1, 2});
+    reorder.addElementType(3, "tetrahedron:", {0, 1, 2, 3});
     reorder.addElementType(3, "pyramid:", {4, 1, 2, 0, 3});
     reorder.addElementType(3, "cube:", {4, 5, 0, 1, 7, 6, 3, 2});
     reorder.addElementType(3, "prism", {0, 2, 1, 3, 5, 4});
-- 
2.43.0


From 57132aa0bee68f2d7e19c991f0716c745da184c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:57 +0000
Subject: [PATCH 08/23] fix: preprocessor looped endlessly on gmsh elements
 without tags

---
 applications/Preprocessor/lib/gmsh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index 9a06df8..d3df598 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -357,7 +357,7 @@ void GmshReader::readElements() {
         if (no_tags > 0) {
             Filehandle_ >> element.physicalNameTag;
         }
-        for (std::size_t i = 0; i < no_tags - 1; i++) {
+        for (std::size_t i = 1; i < no_tags; i++) {
             int dummy;
             Filehandle_ >> dummy;
         }
-- 
2.43.0


From 0a0c3a4a2f8a19ad57a340c4b823e590ef70386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:23 +0000
Subject: [PATCH 09/23] fix: failures while writing Paraview output went
 unnoticed

---
 kernel/Output/VTKSpecificTimeWriter_Impl.h  | 8 ++++++++
 kernel/Output/VTKTimeDependentWriter_Impl.h | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/kernel/Output/VTKSpecificTimeWriter_Impl.h b/kernel/Output/VTKSpecificTimeWriter_Impl.h
index fe50176..95bdf0b 100644
--- a/kernel/Output/VTKSpecificTimeWriter_Impl.h
+++ b/kernel/Output/VTKSpecificTimeWriter_Impl.h
@@ -99,6 +99,9 @@ VTKSpecificTimeWriter<DIM>::~VTKSpecificTimeWriter() {
         masterFile_ << "</VTKFile>" << std::endl;
         masterFile_.flush();
         masterFile_.close();
+        if (!masterFile_.good()) {
+            logger(ERROR, "failed to write the main paraview output file");
+        }
     }
 
     // Close all opened tags in the local file
@@ -108,6 +111,11 @@ VTKSpecificTimeWriter<DIM>::~VTKSpecificTimeWriter() {
     localFile_ << "</VTKFile>" << std::endl;
     localFile_.flush();
     localFile_.close();
+    if (!localFile_.good()) {
+        logger(ERROR,
+               "failed to write a local paraview output file, part of the "
+               "output is missing");
+    }
 }
 
 template <std::size_t DIM>
diff --git a/kernel/Output/VTKTimeDependentWriter_Impl.h b/kernel/Output/VTKTimeDependentWriter_Impl.h
index 1ae4332..728144d 100644
--- a/kernel/Output/VTKTimeDependentWriter_Impl.h
+++ b/kernel/Output/VTKTimeDependentWriter_Impl.h
@@ -86,6 +86,12 @@ Output::VTKTimeDependentWriter<DIM>::~VTKTimeDependentWriter() {
     masterFile_ << "</VTKFile>" << std::endl;
     masterFile_.flush();
     masterFile_.close();
+    // only the first processor has opened the main file
+    if (Base::MPIContainer::Instance().getProcessorID() == 0 &&
+        !masterFile_.good()) {
+        logger(ERROR, "failed to write main paraview output file %.pvd",
+               baseName_);
+    }
     if (currentFile_ != nullptr) {
         delete currentFile_;
     } else {
-- 
2.43.0


From 9cb93a6161847661d08c8c53b0e60726d14599cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:23 +0000
Subject: [PATCH 10/23] fix: preprocessor did not notice when the mesh file
 could not be written

---
 applications/Preprocessor/lib/output_impl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/applications/Preprocessor/lib/output_impl.h b/applications/Preprocessor/lib/output_impl.h
index 82fb591..1a5e5a8 100644
--- a/applications/Preprocessor/lib/output_impl.h
+++ b/applications/Preprocessor/lib/output_impl.h
@@ -204,6 +204,8 @@ void outputMesh(Mesh<dimension>& mesh,
         output << partitionData[i] << " ";
     }
     output.close();
+    logger.assert_always(output.good(), "failed to write the mesh to %",
+                         outputFileName.getValue());
 }
 
 }  // namespace Preprocessor
-- 
2.43.0


From 7dfaa885822c51ed6bac99e396a09e11ecf214c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:52 +0000
Subject: [PATCH 11/23] fix: a damaged or incomplete mesh file was read without
 complaint

The reader never looked at the state of the stream, so a file that ends
early (or a read error) silently gave a mesh without the remaining edges
or faces, or used uninitialised numbers.
---
 kernel/Base/MeshFileInformation.cpp | 10 ++++++++++
 kernel/Base/MeshManipulator_Impl.h  | 23 +++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/kernel/Base/MeshFileInformation.cpp b/kernel/Base/MeshFileInformation.cpp
index 1e5d840..c897c8a 100644
--- a/kernel/Base/MeshFileInformation.cpp
+++ b/kernel/Base/MeshFileInformation.cpp
@@ -64,6 +64,8 @@ void MeshFileInformation::readInformation(std::istream &stream) {
     {
         std::size_t nodes, elements;
         stream >> nodes >> elements >> dimension;
+        logger.assert_always(!stream.fail() && dimension > 0 && dimension <= 4,
+                             "Reading the mesh size failed");
         entityCount.resize(dimension + 1);
 
         entityCount[0] = nodes;
@@ -72,14 +74,19 @@ void MeshFileInformation::readInformation(std::istream &stream) {
         for (std::size_t i = dimension - 1; i > 0; --i) {
             stream >> entityCount[i];
         }
+        logger.assert_always(!stream.fail(), "Reading the mesh size failed");
     }
     // Partition information
     {
         std::size_t partitionCount;
         stream >> partitionCount;
+        logger.assert_always(!stream.fail(),
+                             "Reading the number of partitions failed");
         partitionNodeCounts.resize(partitionCount);
         for (std::size_t i = 0; i < partitionCount; ++i) {
             stream >> partitionNodeCounts[i];
+            logger.assert_always(!stream.fail(),
+                                 "Reading the partition sizes failed");
         }
     }
     // Gobble up the remaining part of the line
@@ -97,11 +104,14 @@ void MeshFileInformation::readInformation(std::istream &stream) {
 
         std::size_t zoneCount;
         stream >> zoneCount;
+        logger.assert_always(!stream.fail(),
+                             "Reading the number of zones failed");
         stream.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
 
         zoneNames.resize(zoneCount);
         for (std::size_t i = 0; i < zoneCount; ++i) {
             std::getline(stream, zoneNames[i]);
+            logger.assert_always(!stream.fail(), "Reading the zones failed");
         }
     }
 }
diff --git a/kernel/Base/MeshManipulator_Impl.h b/kernel/Base/MeshManipulator_Impl.h
index a30325a..2bebaa2 100644
--- a/kernel/Base/MeshManipulator_Impl.h
+++ b/kernel/Base/MeshManipulator_Impl.h
@@ -1511,6 +1511,15 @@ inline void readSegmentHeader(std::istream &stream,
                          "Different segment header expected '%' but got '%'",
                          expectedHeader, line);
 }
+
+/// Check that everything read so far was really in the file
+inline void checkMeshInput(const std::istream &stream, const char *part) {
+    logger.assert_always(
+        !stream.fail(),
+        "Reading the % from the mesh file failed, the file is damaged or "
+        "incomplete",
+        part);
+}
 }  // namespace Detail
 
 template <std::size_t DIM>
@@ -1601,10 +1610,12 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
     for (std::size_t i = 0; i < numberOfNodes; ++i) {
         std::size_t nodePartitions;
         input >> nodePartitions;
+        Detail::checkMeshInput(input, "nodes");
         bool present = false;
         for (std::size_t j = 0; j < nodePartitions && !present; ++j) {
             std::size_t partition;
             input >> partition;
+            Detail::checkMeshInput(input, "nodes");
             // getProcessorID is already nonnegative according to preceding
             // check
             if (partition == processorID) {
@@ -1613,6 +1624,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
                 localNodeIndex[i] = processedNodes++;
                 std::size_t numberOfCoordinates;
                 input >> numberOfCoordinates;
+                Detail::checkMeshInput(input, "nodes");
                 for (std::size_t k = 0; k < numberOfCoordinates; ++k) {
                     double nextValue;
                     LinearAlgebra::SmallVector<DIM> nextCoordinate;
@@ -1622,6 +1634,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
                     }
                     getMesh().addNodeCoordinate(nextCoordinate);
                 }
+                Detail::checkMeshInput(input, "nodes");
                 present = true;
                 addNode();
             }
@@ -1650,12 +1663,14 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         // Read all the information about the element
         std::size_t nodesPerElement;
         input >> nodesPerElement;
+        Detail::checkMeshInput(input, "elements");
         // Read node + coordinate indices
         std::vector<std::size_t> coordinateIndices;
         std::vector<std::size_t> nodeNumbers;
         for (std::size_t j = 0; j < nodesPerElement; ++j) {
             std::size_t globalIndex, coordinateOffset;
             input >> globalIndex >> coordinateOffset;
+            Detail::checkMeshInput(input, "elements");
             coordinateIndices.push_back(startOfCoordinates[globalIndex] +
                                         coordinateOffset);
             nodeNumbers.push_back(localNodeIndex[globalIndex]);
@@ -1666,6 +1681,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         // Shadow partitions (= MPI process ids where it is in the shadow layer)
         std::size_t numberOfShadowPartitions;
         input >> numberOfShadowPartitions;
+        Detail::checkMeshInput(input, "elements");
         std::vector<std::size_t> shadowParitions(numberOfShadowPartitions);
         // Flag to keep track of whether it is in the shadow layer of this
         // processor
@@ -1683,6 +1699,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         } else {
             input >> zoneIndex;
         }
+        Detail::checkMeshInput(input, "elements");
         logger.assert_always(zoneIndex < meshZones.size(),
                              "Zone index % out of bounds", zoneIndex);
 
@@ -1724,6 +1741,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
     for (std::size_t i = 0; i < numberOfFaces; ++i) {
         std::size_t localNumberOfFaces;
         input >> localNumberOfFaces;
+        Detail::checkMeshInput(input, "faces");
         std::array<std::size_t, 2> globalElementIndices;
         std::array<std::size_t, 2> localFaceNumbers;
         logger.assert_always(0 < localNumberOfFaces && localNumberOfFaces < 3,
@@ -1739,9 +1757,11 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         bool faceIsInPartition = false;
         std::size_t numberOfPartitions;
         input >> numberOfPartitions;
+        Detail::checkMeshInput(input, "faces");
         for (std::size_t j = 0; j < numberOfPartitions; ++j) {
             std::size_t partition;
             input >> partition;
+            Detail::checkMeshInput(input, "faces");
             if (partition == processorID) {
                 faceIsInPartition = true;
                 if (localNumberOfFaces == 1) {
@@ -1791,6 +1811,7 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
     for (std::size_t i = 0; i < numberOfEdges; ++i) {
         std::size_t localNumberOfEdges;
         input >> localNumberOfEdges;
+        Detail::checkMeshInput(input, "edges");
         std::vector<std::size_t> globalElementIndices(localNumberOfEdges);
         std::vector<std::size_t> localEdgeNumbers(localNumberOfEdges);
         for (std::size_t j = 0; j < localNumberOfEdges; ++j) {
@@ -1802,9 +1823,11 @@ void MeshManipulator<DIM>::readMesh(const std::string &filename) {
         bool edgeIsInPartition = false;
         std::size_t numberOfPartitions;
         input >> numberOfPartitions;
+        Detail::checkMeshInput(input, "edges");
         for (std::size_t j = 0; j < numberOfPartitions; ++j) {
             std::size_t partition;
             input >> partition;
+            Detail::checkMeshInput(input, "edges");
             if (partition == processorID) {
                 edgeIsInPartition = true;
                 auto edge = addEdge();
-- 
2.43.0


From c36e6835bd61fcf8d2e77cfbc138c5a574fe5ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:15 +0000
Subject: [PATCH 12/23] fix: preprocessor accepted incomplete gmsh files

The results of the extractions were not checked, and the message about a
section that is not closed could never appear because the format string
was passed as the condition.
---
 applications/Preprocessor/lib/gmsh.cpp | 29 ++++++++++++++++++++++++--
 applications/Preprocessor/lib/gmsh.h   |  4 ++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/applications/Preprocessor/lib/gmsh.cpp b/applications/Preprocessor/lib/gmsh.cpp
index d3df598..0f8cfb5 100644
--- a/applications/Preprocessor/lib/gmsh.cpp
+++ b/applications/Preprocessor/lib/gmsh.cpp
@@ -236,6 +236,7 @@ void GmshReader::readHeader() {
     int filetype;  // ASCII (0), Binary (1)
     int datasize;  // sizeof(sizet) used for binary
     Filehandle_ >> version_ >> filetype >> datasize;
+    checkInput("MeshFormat");
 
     logger(VERBOSE, "msh version is % and storage format is %", version_,
            (filetype == 1 ? "binary" : "ASCII"));
@@ -251,6 +252,7 @@ void GmshReader::readHeader() {
 void GmshReader::readPhysicalNames() {
     std::size_t numNames;
     Filehandle_ >> numNames;
+    checkInput("PhysicalNames");
     for (std::size_t i = 0; i < numNames; ++i) {
         // Note: The same tag may correspond to different physical names for
         // different dimensions.
@@ -258,6 +260,7 @@ void GmshReader::readPhysicalNames() {
         int tag;
         std::string name;
         Filehandle_ >> dimension >> tag >> std::quoted(name);
+        checkInput("PhysicalNames");
 
         if (dimension > dimension_) {
             dimension_ = dimension;
@@ -278,6 +281,7 @@ void GmshReader::readPhysicalNames() {
 void GmshReader::readNodes(double tol) {
     size_t number_nodes;
     Filehandle_ >> number_nodes;
+    checkInput("Nodes");
     size_t nodeTag;
     double x;
     double y;
@@ -285,6 +289,7 @@ void GmshReader::readNodes(double tol) {
     nodes_.reserve(nodes_.size() + number_nodes);
     for (size_t index = 0; index < number_nodes; index++) {
         Filehandle_ >> nodeTag >> x >> y >> z;
+        checkInput("Nodes");
 
         // Determine the minimum dimension while reading
         if (dimension_ < 3 && std::abs(z) > tol) {
@@ -331,6 +336,7 @@ void GmshReader::readElements() {
 
     size_t numElements;
     Filehandle_ >> numElements;
+    checkInput("Elements");
 
     elements_.reserve(numElements + elements_.size());
     for (size_t index = 0; index < numElements; index++) {
@@ -346,6 +352,7 @@ void GmshReader::readElements() {
         size_t no_tags;
 
         Filehandle_ >> elm_number >> elm_type >> no_tags;
+        checkInput("Elements");
         Element element;
         element.dimension_ = dimensionOfElementtype_.at(elm_type);
         element.gmshTag = elm_number;
@@ -369,6 +376,7 @@ void GmshReader::readElements() {
             // gmsh ids are 1 indexed hpgem is zero indexed
             element.coordinates_.push_back(nodetag - 1);
         }
+        checkInput("Elements");
         reorder.reorderToHpGem(element.dimension_, element.coordinates_);
         rawElements_.push_back(std::move(element));
     }
@@ -393,6 +401,7 @@ void GmshReader::readElementData() {
     // Read global strings
     size_t numStringelements;
     Filehandle_ >> numStringelements;
+    checkInput("ElementData");
     for (size_t i = 0; i < numStringelements; i++) {
         std::string view_names;
         Filehandle_ >> view_names;
@@ -400,6 +409,7 @@ void GmshReader::readElementData() {
     // Read  global reals (doubles)
     size_t numrealelements;
     Filehandle_ >> numrealelements;
+    checkInput("ElementData");
     for (size_t i = 0; i < numrealelements; i++) {
         double real;
         Filehandle_ >> real;
@@ -416,12 +426,14 @@ void GmshReader::readElementData() {
     // part, while the third is the number of elements
     size_t numintegerelements;
     Filehandle_ >> numintegerelements;
+    checkInput("ElementData");
     logger.assert_always(numintegerelements > 2,
                          "There is no Elementspecific data in gmsh file");
     size_t timestep;
     size_t field_components;
     size_t num_entities;
     Filehandle_ >> timestep >> field_components >> num_entities;
+    checkInput("ElementData");
 
     logger.assert_always(field_components == 1,
                          "We only read in Scalar data as material identifiers");
@@ -436,6 +448,7 @@ void GmshReader::readElementData() {
         size_t elementid;
         double zoneinfo;
         Filehandle_ >> elementid >> zoneinfo;
+        checkInput("ElementData");
         Element& element = rawElements_[elementid - 1];
         logger.assert_always(element.gmshTag == elementid,
                              "The elements are not indexed continuously");
@@ -448,6 +461,7 @@ void GmshReader::readElementData() {
 void GmshReader::readPBCs() {
     size_t num_periodic_elements;
     Filehandle_ >> num_periodic_elements;
+    checkInput("Periodic");
     coordinateMerges_.resize(num_periodic_elements);
 
     // We are not interested the connected entities
@@ -461,11 +475,13 @@ void GmshReader::readPBCs() {
 
         size_t periodic_nodes;
         Filehandle_ >> periodic_nodes;
+        checkInput("Periodic");
         logger(VERBOSE, "Found % periodic nodes", periodic_nodes);
         for (size_t i = 0; i < periodic_nodes; i++) {
             size_t node1;
             size_t node2;
             Filehandle_ >> node2 >> node1;
+            checkInput("Periodic");
             // gmsh is 1 indexed hpgem is zero indexed
             merge[node2 - 1] = node1 - 1;
         }
@@ -519,6 +535,13 @@ void GmshReader::pruneCoordinatesToDimension() {
     }
 }
 
+void GmshReader::checkInput(const std::string& sectionName) const {
+    logger.assert_always(
+        !Filehandle_.fail(),
+        "Reading section % failed, the file is damaged or incomplete",
+        sectionName);
+}
+
 void GmshReader::skipSection(std::string sectionName) {
     std::string line;
     while (!Filehandle_.eof()) {
@@ -531,7 +554,7 @@ void GmshReader::skipSection(std::string sectionName) {
                              "Section '%' ended with '%'", sectionName, line);
         return;
     }
-    logger.assert_always("Section % was unclosed at the end of the file",
+    logger.assert_always(false, "Section % was unclosed at the end of the file",
                          sectionName);
 }
 
@@ -552,7 +575,7 @@ void GmshReader::readSectionEnd(std::string sectionName) {
                              "Section % ended with %", sectionName, line);
         return;
     }
-    logger.assert_always("Section % was unclosed at the end of the file",
+    logger.assert_always(false, "Section % was unclosed at the end of the file",
                          sectionName);
 }
 
@@ -610,6 +633,8 @@ GmshReader::GmshReader(std::string filename) : dimension_(0) {
     Filehandle_.seekg(0);
 
     convertRawElements();
+    logger.assert_always(!elements_.empty(), "No elements found in file %",
+                         filename);
     pruneCoordinatesToDimension();
 }
 
diff --git a/applications/Preprocessor/lib/gmsh.h b/applications/Preprocessor/lib/gmsh.h
index d74c45d..b9a1e78 100644
--- a/applications/Preprocessor/lib/gmsh.h
+++ b/applications/Preprocessor/lib/gmsh.h
@@ -107,6 +107,10 @@ class GmshReader final : public MeshSource2 {
     void readPBCs();
     /// Post processing read 3D coordinates to the used dimension
     void pruneCoordinatesToDimension();
+    /// Check that everything read so far was really in the file
+    ///
+    /// \param sectionName The name of the section that is being read
+    void checkInput(const std::string& sectionName) const;
     /// Skip a section that is not of relevance
     ///
     /// \param sectionName The name of the section
-- 
2.43.0


From 69d6fbb9e644dc6952ac67f0e46515b2c0828c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:15 +0000
Subject: [PATCH 13/23] fix: reading Centaur files failed without assertions

Reading the record markers was done inside assert_debug, which is not
evaluated when the assertions are switched off. The checks on the
records are now always done.
---
 .../lib/FortranUnformattedFile.cpp            | 39 ++++++++++---------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/applications/Preprocessor/lib/FortranUnformattedFile.cpp b/applications/Preprocessor/lib/FortranUnformattedFile.cpp
index 06a49fa..9ea92d1 100644
--- a/applications/Preprocessor/lib/FortranUnformattedFile.cpp
+++ b/applications/Preprocessor/lib/FortranUnformattedFile.cpp
@@ -43,24 +43,25 @@ using namespace hpgem;
 FortranUnformattedFile::FortranUnformattedFile(const std::string &path) {
     std::filebuf *buf =
         file_.open(path, std::ios_base::in | std::ios_base::binary);
-    logger.assert_debug(buf != nullptr, "Opening failed");
+    logger.assert_always(buf != nullptr, "Opening % failed", path);
 }
 
 void FortranUnformattedFile::readRawRecord(std::uint32_t size, char *buffer) {
     // Read start marker
     std::uint32_t recordSize;
-    logger.assert_debug(readRecordSize(recordSize),
-                        "record size reading failed.");
-    logger.assert_debug(recordSize == size,
-                        "Record size (%) does not match expected size (%)",
-                        recordSize, size);
+    bool success = readRecordSize(recordSize);
+    logger.assert_always(success, "record size reading failed.");
+    logger.assert_always(recordSize == size,
+                         "Record size (%) does not match expected size (%)",
+                         recordSize, size);
     // Read content
     std::streamsize read = file_.sgetn(buffer, recordSize);
-    logger.assert_debug(read == recordSize, "Incomplete record read");
+    logger.assert_always(read == recordSize, "Incomplete record read");
     // Read end marker
     std::uint32_t endSize;
-    readRecordSize(endSize);
-    logger.assert_debug(recordSize == endSize, "Record markers do not match");
+    success = readRecordSize(endSize);
+    logger.assert_always(success, "End record size reading failed");
+    logger.assert_always(recordSize == endSize, "Record markers do not match");
 }
 
 std::uint32_t FortranUnformattedFile::peekRecordSize() {
@@ -71,25 +72,25 @@ std::uint32_t FortranUnformattedFile::peekRecordSize() {
     // Reset reading pointer
     file_.pubseekoff(-read, std::ios_base::cur, std::ios_base::in);
     // Check that we actually read enough
-    logger.assert_debug(read == sizeof(recordSize),
-                        "Not enough bytes for reading a record size.");
+    logger.assert_always(read == sizeof(recordSize),
+                         "Not enough bytes for reading a record size.");
     return recordSize;
 }
 
 void FortranUnformattedFile::skipRecord(std::uint32_t size) {
     std::uint32_t recordSize;
-    logger.assert_debug(readRecordSize(recordSize),
-                        "Record size reading failed");
-    logger.assert_debug(recordSize == size,
-                        "Record size does not match expected size");
+    bool success = readRecordSize(recordSize);
+    logger.assert_always(success, "Record size reading failed");
+    logger.assert_always(recordSize == size,
+                         "Record size does not match expected size");
     // Skip past record content
     file_.pubseekoff(recordSize, std::ios_base::cur, std::ios_base::in);
     // Check
     std::uint32_t endRecordSize;
-    logger.assert_debug(readRecordSize(endRecordSize),
-                        "End record size reading failed");
-    logger.assert_debug(recordSize == endRecordSize,
-                        "Record sizes don't match");
+    success = readRecordSize(endRecordSize);
+    logger.assert_always(success, "End record size reading failed");
+    logger.assert_always(recordSize == endRecordSize,
+                         "Record sizes don't match");
 }
 
 bool FortranUnformattedFile::eof() {
-- 
2.43.0


From bf6440920597eb7875bd24e2a52b3b26e33c9c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:59 +0000
Subject: [PATCH 14/23] fix: preprocessor accepted incomplete structured mesh
 descriptions

A description that ends before the last line silently gave a mesh without
periodic boundaries.
---
 applications/Preprocessor/lib/hpgem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/applications/Preprocessor/lib/hpgem.cpp b/applications/Preprocessor/lib/hpgem.cpp
index 3e02269..bb64980 100644
--- a/applications/Preprocessor/lib/hpgem.cpp
+++ b/applications/Preprocessor/lib/hpgem.cpp
@@ -63,6 +63,8 @@ class StructuredReader : public PrivateReader {
                              "mesh file is too new for this version of hpGEM");
         std::size_t dimension;
         this->hpgemFile >> dimension;
+        logger.assert_always(!this->hpgemFile.fail(),
+                             "mesh file is damaged or incomplete");
         numberOfElements.resize(dimension);
         numberOfNodes.resize(dimension);
         lowerLeft.resize(dimension);
@@ -92,6 +94,8 @@ class StructuredReader : public PrivateReader {
         for (std::size_t i = 0; i < dimension; ++i) {
             this->hpgemFile >> isPeriodic[i];
         }
+        logger.assert_always(!this->hpgemFile.fail(),
+                             "mesh file is damaged or incomplete");
         for (std::size_t i = 0; i < dimension; ++i) {
             numberOfNodes[i] = numberOfElements[i] + (isPeriodic[i] ? 0 : 1);
         }
-- 
2.43.0


From 5cf5222634779bcafc19653205328702b7635f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:06 +0000
Subject: [PATCH 15/23] fix: Navier-Stokes applications failed on processes
 without elements

---
 .../CompressibleNavierStokes/CompressibleNavierStokes.cpp       | 2 ++
 applications/NavierStokes/UnsteadyNavierStokesAPI_Impl.h        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/applications/NavierStokes/CompressibleNavierStokes/CompressibleNavierStokes.cpp b/applications/NavierStokes/CompressibleNavierStokes/CompressibleNavierStokes.cpp
index 8f498b5..096f846 100644
--- a/applications/NavierStokes/CompressibleNavierStokes/CompressibleNavierStokes.cpp
+++ b/applications/NavierStokes/CompressibleNavierStokes/CompressibleNavierStokes.cpp
@@ -65,6 +65,8 @@ void CompressibleNavierStokes::setStabilityMassMatrix() {
     // p-refinement or limiters
     // the result of getElementsList() no longer provides a subscript-operator,
     // so I traced the iterator to the beginning instead -FB
+    if (meshes_[0]->elementColBegin() == meshes_[0]->elementColEnd())
+        return;  // this process has no elements
     LinearAlgebra::MiddleSizeMatrix stabilityMassMatrix =
         computeMassMatrixAtElement(*meshes_[0]->elementColBegin());
     viscousTerms_.setStabilityMassMatrix(stabilityMassMatrix);
diff --git a/applications/NavierStokes/UnsteadyNavierStokesAPI_Impl.h b/applications/NavierStokes/UnsteadyNavierStokesAPI_Impl.h
index 185f863..9d9be15 100644
--- a/applications/NavierStokes/UnsteadyNavierStokesAPI_Impl.h
+++ b/applications/NavierStokes/UnsteadyNavierStokesAPI_Impl.h
@@ -436,6 +436,8 @@ void UnsteadyNavierStokesAPI<DIM, NUMBER_OF_VARIABLES>::tasksBeforeSolving() {
     // p-refinement or limiters
     // the result of getElementsList() no longer provides a subscript-operator,
     // so I traced the iterator to the beginning instead -FB
+    if (this->meshes_[0]->elementColBegin() == this->meshes_[0]->elementColEnd())
+        return;  // this process has no elements
     LinearAlgebra::MiddleSizeMatrix stabilityMassMatrix =
         this->computeMassMatrixAtElement(*this->meshes_[0]->elementColBegin());
     viscousTerms_.setStabilityMassMatrix(stabilityMassMatrix);
-- 
2.43.0


From 45fae70640229f0eda888ebb22e3236bfa38fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:06 +0000
Subject: [PATCH 16/23] fix: boundary terms were evaluated on faces of ghost
 elements

Faces of ghost elements whose other element is not known to the process are
not on the domain boundary, but computeRightHandSide evaluated the boundary
condition there; an application without boundary (periodic mesh) ended with an
error.
---
 kernel/Base/HpgemAPISimplified_Impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernel/Base/HpgemAPISimplified_Impl.h b/kernel/Base/HpgemAPISimplified_Impl.h
index f2fa39d..d41cb0e 100644
--- a/kernel/Base/HpgemAPISimplified_Impl.h
+++ b/kernel/Base/HpgemAPISimplified_Impl.h
@@ -580,7 +580,8 @@ void HpgemAPISimplified<DIM>::computeRightHandSide(
                 resultFunctionCoefficientsRight +=
                     resultFunctionCoefficients.second;
             }
-        } else {
+        } else if (ptrFace->isOwnedByCurrentProcessor()) {
+            // faces of ghost elements need not be on the domain boundary
             LinearAlgebra::MiddleSizeVector &inputFunctionCoefficients(
                 ptrFace->getPtrElementLeft()->getTimeIntegrationVector(
                     inputVectorId));
@@ -677,7 +678,8 @@ void HpgemAPISimplified<DIM>::computeRightHandSide(
                 resultFunctionCoefficientsRight +=
                     resultFunctionCoefficients.second;
             }
-        } else {
+        } else if (ptrFace->isOwnedByCurrentProcessor()) {
+            // faces of ghost elements need not be on the domain boundary
             LinearAlgebra::MiddleSizeVector inputFunctionCoefficients(
                 getLinearCombinationOfVectors(ptrFace->getPtrElementLeft(),
                                               inputVectorIds,
-- 
2.43.0


From 4e11caf071e26ec9f273d61a30879d039cb18171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:42 +0000
Subject: [PATCH 17/23] fix: energy flux of the divergence-conforming solver
 used coefficients of the wrong element

---
 applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index 3ad3e4e..c5f80ea 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -382,11 +382,9 @@ LinearAlgebra::SmallVector<4> DivDGMaxDiscretization<DIM>::computeEnergyFluxes(
             VecC avgField;
             LinearAlgebra::SmallVector<DIM> phi;
             VecC normal = pface.getUnitNormalVector();
-            std::size_t leftDoFs = dofInfo.leftUDoFs + dofInfo.leftPDoFs;
             for (std::size_t i = 0; i < dofInfo.totalUDoFs(); ++i) {
-                const auto& coefficient = i < dofInfo.leftUDoFs
-                                              ? coefficients[i]
-                                              : coefficients[i + leftDoFs];
+                // Only the coefficients of the field, left then right element
+                const auto& coefficient = coefficients[i];
                 avgCurl += factor * coefficient * pface.basisFunctionCurl(i, 0);
                 pface.basisFunction(i, phi, 0);
                 avgField += factor * coefficient * normal.crossProduct(phi);
-- 
2.43.0


From 35b1ec1fc3089ac34a48d315c3f90db6643f96d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:42 +0000
Subject: [PATCH 18/23] fix: harmonic solver failed in parallel with several
 unknowns per element

---
 applications/DG-Max/Algorithms/HarmonicSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/applications/DG-Max/Algorithms/HarmonicSolver.cpp b/applications/DG-Max/Algorithms/HarmonicSolver.cpp
index 7d27797..11df28e 100644
--- a/applications/DG-Max/Algorithms/HarmonicSolver.cpp
+++ b/applications/DG-Max/Algorithms/HarmonicSolver.cpp
@@ -212,7 +212,9 @@ HarmonicSolver<DIM>::Workspace::Workspace(
     // Initialize the basis functions and indices after creating the matrices,
     // so that the matrices are not yet assembled.
     discretization_->initializeBasisFunctions(*mesh_);
-    indexing_.reset(mesh_, Utilities::GlobalIndexing::BLOCKED_GLOBAL);
+    // Not BLOCKED_GLOBAL, the rows of a process would not be contiguous for
+    // discretizations with several unknowns.
+    indexing_.reset(mesh_, Utilities::GlobalIndexing::BLOCKED_PROCESSOR);
     resultVector_.reinit();
 
     PetscErrorCode err;
-- 
2.43.0


From ca4b9c58722f27930936860730331109806aeee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:42 +0000
Subject: [PATCH 19/23] fix: transmission of absorbing layers was not summed
 over the processes

---
 applications/DG-Max/Utils/PMLTransmission.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/applications/DG-Max/Utils/PMLTransmission.cpp b/applications/DG-Max/Utils/PMLTransmission.cpp
index 2f0f9cc..686c83f 100644
--- a/applications/DG-Max/Utils/PMLTransmission.cpp
+++ b/applications/DG-Max/Utils/PMLTransmission.cpp
@@ -101,12 +101,18 @@ std::vector<double> PMLTransmission<dim>::pmlTransmission(
     AbstractHarmonicResult<dim>& result) const {
     std::vector<double> transmission(facetNames_.size());
     for (std::size_t i = 0; i < facetNames_.size(); ++i) {
-        double totalField = 0.0;
         for (Base::Face* face : resultFacets_[i]) {
-            totalField +=
+            transmission[i] +=
                 result.computeFieldL2Integral(*face, Base::Side::LEFT);
         }
-        transmission[i] = std::sqrt(totalField / surfaceArea_[i]);
+    }
+#ifdef HPGEM_USE_MPI
+    // Sum over the faces of all processors
+    MPI_Allreduce(MPI_IN_PLACE, transmission.data(), transmission.size(),
+                  MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
+#endif
+    for (std::size_t i = 0; i < facetNames_.size(); ++i) {
+        transmission[i] = std::sqrt(transmission[i] / surfaceArea_[i]);
     }
     return transmission;
 }
-- 
2.43.0


From 941301228a381b345d6a5f372e291ea4277ce5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:42 +0000
Subject: [PATCH 20/23] fix: ghost elements in absorbing layers kept the plain
 material

---
 applications/DG-Max/DGMaxProgramUtils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/applications/DG-Max/DGMaxProgramUtils.cpp b/applications/DG-Max/DGMaxProgramUtils.cpp
index 1eb562c..d199062 100644
--- a/applications/DG-Max/DGMaxProgramUtils.cpp
+++ b/applications/DG-Max/DGMaxProgramUtils.cpp
@@ -430,7 +430,9 @@ std::vector<std::shared_ptr<PMLElementInfos<dim>>> applyPMLs(
         }
     }
 
-    for (Base::Element* element : mesh.getElementsList()) {
+    // Including the ghost elements, they are used for the face integrals
+    for (Base::Element* element :
+         mesh.getElementsList(Base::IteratorType::GLOBAL)) {
         std::size_t zoneId = element->getZone().getZoneId();
         int index = pmlIndices[zoneId];
         if (index == NO_PML_NEEDED) {
-- 
2.43.0


From ef8a7afc49cfee6e35f3132444c9f474049ad66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:23 +0000
Subject: [PATCH 21/23] fix: processes overwrote each other's movedMesh.dat

---
 applications/MeshMoverDemo/MeshMoverDemo.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/applications/MeshMoverDemo/MeshMoverDemo.cpp b/applications/MeshMoverDemo/MeshMoverDemo.cpp
index 89f9a96..79a92ab 100644
--- a/applications/MeshMoverDemo/MeshMoverDemo.cpp
+++ b/applications/MeshMoverDemo/MeshMoverDemo.cpp
@@ -40,6 +40,7 @@
 #include "MeshMover.h"
 #include "Base/GlobalData.h"
 #include "Base/ConfigurationData.h"
+#include "Base/MpiContainer.h"
 #include "Output/TecplotSingleElementWriter.h"
 #include "Output/TecplotDiscontinuousSolutionWriter.h"
 #include "Output/TecplotPhysicalGeometryIterator.h"
@@ -90,8 +91,14 @@ class MeshMoverExampleProblem : public Base::HpgemAPIBase<2> {
     /// Note that we are only interested in the mesh, so the VTK file just plots
     /// the value 0 in each point.
     void output() {
+        // Each process writes its own part of the mesh
+        Base::MPIContainer& mpi = Base::MPIContainer::Instance();
+        std::string fileName = "movedMesh";
+        if (mpi.getNumberOfProcessors() > 1) {
+            fileName += "." + std::to_string(mpi.getProcessorID());
+        }
         std::ofstream file2D;
-        file2D.open("movedMesh.dat");
+        file2D.open(fileName + ".dat");
         Output::TecplotDiscontinuousSolutionWriter<2> out(
             file2D, "RectangularMesh", "01", "xy");
 
-- 
2.43.0


From c22e60b66764d931b02a7717d37d6e93663171cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:50 +0000
Subject: [PATCH 22/23] fix: error norms of the DG-Max discretizations were not
 summed over the processes

DGMaxDiscretization::computeError and DivDGMaxDiscretization::computeL2Error
summed over the elements of the own process only, so every process reported
another error. The face part of the DG norm additionally went over all known
faces, including the ones between ghost elements; count each face once, on
the process that owns it.
---
 .../DG-Max/Algorithms/DGMaxDiscretization.cpp | 25 ++++++++++++-------
 .../Algorithms/DivDGMaxDiscretization.cpp     |  7 ++++++
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
index 42eec90..677a0ea 100644
--- a/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DGMaxDiscretization.cpp
@@ -38,6 +38,11 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "DGMaxDiscretization.h"
 
+#ifdef HPGEM_USE_MPI
+#include <mpi.h>
+#endif
+
+#include <array>
 #include <complex>
 
 #include "Base/HCurlConformingTransformation.h"
@@ -805,6 +810,8 @@ std::map<typename DGMaxDiscretizationBase::NormType, double>
         for (typename Base::MeshManipulator<DIM>::FaceIterator it =
                  mesh.faceColBegin();
              it != end; ++it) {
+            // Each face should contribute once
+            if (!(*it)->isOwnedByCurrentProcessor()) continue;
             dgNorm += faceIntegrator_.integrate(
                 *it, [&](Base::PhysicalFace<DIM>& face) {
                     return faceErrorIntegrand(face, timeVector, electricField);
@@ -812,10 +819,16 @@ std::map<typename DGMaxDiscretizationBase::NormType, double>
         }
     }
 
+    std::array<double, 3> squaredNorms = {l2Norm, hCurlNorm, dgNorm};
+#ifdef HPGEM_USE_MPI
+    MPI_Allreduce(MPI_IN_PLACE, squaredNorms.data(), squaredNorms.size(),
+                  MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
+#endif
+
     std::map<NormType, double> result;
-    if (l2Wanted) result[L2] = sqrt(l2Norm);
-    if (hcurlWanted) result[HCurl] = sqrt(hCurlNorm);
-    if (dgWanted) result[DG] = sqrt(dgNorm);
+    if (l2Wanted) result[L2] = sqrt(squaredNorms[0]);
+    if (hcurlWanted) result[HCurl] = sqrt(squaredNorms[1]);
+    if (dgWanted) result[DG] = sqrt(squaredNorms[2]);
     return result;
 }
 
@@ -922,12 +935,6 @@ double DGMaxDiscretization<DIM>::faceErrorIntegrand(
     }
     double result = error.l2Norm();
     result *= result;
-    // To remove double contribution of flux computed on the boundary faces by
-    // different processors
-    if (face->getFaceType() == Geometry::FaceType::SUBDOMAIN_BOUNDARY ||
-        face->getFaceType() == Geometry::FaceType::PERIODIC_SUBDOMAIN_BC) {
-        result /= 2;
-    }
     return result;
 }
 
diff --git a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
index c5f80ea..783e3d6 100644
--- a/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
+++ b/applications/DG-Max/Algorithms/DivDGMaxDiscretization.cpp
@@ -38,6 +38,10 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "DivDGMaxDiscretization.h"
 
+#ifdef HPGEM_USE_MPI
+#include <mpi.h>
+#endif
+
 #include "Utilities/ElementLocalIndexing.h"
 #include "Utilities/FaceLocalIndexing.h"
 
@@ -1276,6 +1280,9 @@ double DivDGMaxDiscretization<DIM>::computeL2Error(
                                              electricField);
             });
     }
+#ifdef HPGEM_USE_MPI
+    MPI_Allreduce(MPI_IN_PLACE, &error, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
+#endif
     return std::sqrt(error);
 }
 
-- 
2.43.0


From fe3031193b494838d7341d08b74ade129133ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:55 +0000
Subject: [PATCH 23/23] fix: width average of the granular flow used the number
 of elements known to one process

---
 applications/SavageHutter/SavageHutter2DBase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/applications/SavageHutter/SavageHutter2DBase.cpp b/applications/SavageHutter/SavageHutter2DBase.cpp
index 0debde8..6984afe 100644
--- a/applications/SavageHutter/SavageHutter2DBase.cpp
+++ b/applications/SavageHutter/SavageHutter2DBase.cpp
@@ -406,9 +406,13 @@ std::vector<std::pair<double, LinearAlgebra::MiddleSizeVector>>
     // Base::CommandLineOption<std::size_t>& numberOfElements; const std::size_t
     // nodesInXDirection = numberOfElements.getValue() + 1;
     const std::size_t nodesInXDirection = 21;
+    // every process only knows its own elements and the ones next to them
+    std::size_t numberOfElements = this->meshes_[0]->getNumberOfElements();
+#ifdef HPGEM_USE_MPI
+    Base::MPIContainer::Instance().reduce(numberOfElements, MPI_SUM);
+#endif
     const std::size_t elementsInYDirection =
-        this->meshes_[0]->getNumberOfElements(Base::IteratorType::GLOBAL) /
-        (nodesInXDirection - 1);
+        numberOfElements / (nodesInXDirection - 1);
     logger(DEBUG, "elements in y direction: % ", elementsInYDirection);
 
     // make xs
-- 
2.43.0

