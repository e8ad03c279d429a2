From 9b0d5b24d36648003a15b6a093d0c07eb51e21d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:19 +0000
Subject: [PATCH 01/36] fix: bound per-thread ASCII block boundaries by the end
 of the block

With blocks shorter than the number of threads the boundary search ran past
the block (over-read, or a negative reserve terminating the load).
---
 src/input/parsers/asciiparser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/asciiparser.cpp b/src/input/parsers/asciiparser.cpp
index c2b09ea..6d871f5 100644
--- a/src/input/parsers/asciiparser.cpp
+++ b/src/input/parsers/asciiparser.cpp
@@ -81,9 +81,9 @@ void setDistribution(InputFile &file, size_t begin, size_t end, std::vector<size
         }
         for (size_t t = 1; t + 1 < tdistribution.size(); ++t) {
             if (toLines) {
-                while (*(file.begin + tdistribution[t]++) != '\n');
+                while (tdistribution[t] < tdistribution.back() && *(file.begin + tdistribution[t]++) != '\n');
             } else {
-                while (!ASCIIParser::isempty(file.begin + tdistribution[t]++));
+                while (tdistribution[t] < tdistribution.back() && !ASCIIParser::isempty(file.begin + tdistribution[t]++));
             }
         }
     } else {
-- 
2.43.0


From 3634c96fd9787da695cb31f31a31381614e94c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:19 +0000
Subject: [PATCH 02/36] fix: compute node domains in MESIOLoad,
 MESIONodesDomains dereferenced NULL

---
 src/api/wrapper.mesio.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/wrapper.mesio.cpp b/src/api/wrapper.mesio.cpp
index feb9d6e..2fe9a65 100644
--- a/src/api/wrapper.mesio.cpp
+++ b/src/api/wrapper.mesio.cpp
@@ -107,6 +107,9 @@ void MESIOLoad(
 
     info::mesh->load();
     info::mesh->preprocess();
+    if (info::mesh->nodes->domains == NULL) {
+        mesh::computeNodeDomainDistribution(info::mesh->elements, info::mesh->nodes, info::mesh->domains, info::mesh->neighborsWithMe);
+    }
 
     *mesio = new MESIOData();
 }
-- 
2.43.0


From 4c3aed95a218ccd1ff8c13c0ea5e764fa34c6150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:19 +0000
Subject: [PATCH 03/36] fix: return one parent per boundary element and a
 non-NULL distribution from MESIOBoundaryRegion

---
 src/api/wrapper.mesio.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/api/wrapper.mesio.cpp b/src/api/wrapper.mesio.cpp
index 2fe9a65..329b040 100644
--- a/src/api/wrapper.mesio.cpp
+++ b/src/api/wrapper.mesio.cpp
@@ -44,10 +44,25 @@ struct MESIOData {
                 }
             }
         }
+        // uniform data have no boundaries, hence the distribution is always built explicitly
+        rdistribution.resize(espreso::info::mesh->boundaryRegions.size());
+        // membership stores pairs (parent element, index of its face)
+        rparents.resize(espreso::info::mesh->boundaryRegions.size());
+        for (size_t i = 0; i < espreso::info::mesh->boundaryRegions.size(); ++i) {
+            if (espreso::info::mesh->boundaryRegions[i]->dimension) {
+                rdistribution[i].push_back(0);
+                for (auto e = espreso::info::mesh->boundaryRegions[i]->elements->cbegin(); e != espreso::info::mesh->boundaryRegions[i]->elements->cend(); ++e) {
+                    rdistribution[i].push_back(rdistribution[i].back() + e->size());
+                }
+                for (auto e = espreso::info::mesh->boundaryRegions[i]->emembership->cbegin(); e != espreso::info::mesh->boundaryRegions[i]->emembership->cend(); ++e) {
+                    rparents[i].push_back(e->at(0));
+                }
+            }
+        }
     }
 
     std::vector<esint> etypes, domains;
-    std::vector<std::vector<esint> > rtypes;
+    std::vector<std::vector<esint> > rtypes, rdistribution, rparents;
 };
 
 using namespace espreso;
@@ -280,8 +295,8 @@ void MESIOBoundaryRegion(
     if (*dimension) {
         *size = info::mesh->boundaryRegions[region]->distribution.process.size;
         *type = mesio->rtypes[region].data();
-        *parent = info::mesh->boundaryRegions[region]->emembership->datatarray().data();
-        *elementDistribution = info::mesh->boundaryRegions[region]->elements->boundarytarray().data();
+        *parent = mesio->rparents[region].data();
+        *elementDistribution = mesio->rdistribution[region].data();
         *elementData = info::mesh->boundaryRegions[region]->elements->datatarray().data();
     } else {
         *size = 0;
-- 
2.43.0


From 306f342794157bc34827bfb5c30b58e2798414c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:53 +0000
Subject: [PATCH 04/36] fix: omit_midpoints corrupted connectivity of meshes
 with linear elements

Elements without mid-points did not advance the read and write positions, so
every later element took nodes of another one.
---
 src/input/meshbuilder.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/input/meshbuilder.cpp b/src/input/meshbuilder.cpp
index 251df8c..b795366 100644
--- a/src/input/meshbuilder.cpp
+++ b/src/input/meshbuilder.cpp
@@ -33,14 +33,15 @@ void MeshBuilder::build()
     if (info::ecf->input.omit_midpoints) {
         size_t shrinked = 0;
         for (size_t i = 0, offset = 0; i < etype.size(); ++i) {
+            esint size = esize[i];
             if (Mesh::edata[etype[i]].nodes != Mesh::edata[etype[i]].coarseNodes) {
-                for (esint n = 0; n < Mesh::edata[etype[i]].coarseNodes; n++) {
-                    enodes[shrinked + n] = enodes[offset + n];
-                }
-                offset += Mesh::edata[etype[i]].nodes;
-                shrinked += Mesh::edata[etype[i]].coarseNodes;
                 esize[i] = Mesh::edata[etype[i]].coarseNodes;
             }
+            for (esint n = 0; n < esize[i]; n++) {
+                enodes[shrinked + n] = enodes[offset + n];
+            }
+            offset += size;
+            shrinked += esize[i];
             switch (etype[i]) {
             case (int)Element::CODE::LINE3:     etype[i] = (int)Element::CODE::LINE2; break;
             case (int)Element::CODE::TRIANGLE6: etype[i] = (int)Element::CODE::TRIANGLE3; break;
-- 
2.43.0


From cbf43cb2b6563ad792624587a2fe0aa2e5f8aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:05 +0000
Subject: [PATCH 05/36] fix: VTK wildcard lost files in directories with more
 than 127 files

The number of files and lengths of their names were passed as char.
---
 src/input/parsers/vtklegacy/vtklegacy.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/input/parsers/vtklegacy/vtklegacy.cpp b/src/input/parsers/vtklegacy/vtklegacy.cpp
index 7df4943..e6bd91d 100644
--- a/src/input/parsers/vtklegacy/vtklegacy.cpp
+++ b/src/input/parsers/vtklegacy/vtklegacy.cpp
@@ -36,16 +36,16 @@ void VTKLegacyLoader::load()
         std::string dir = utils::getFileDirectory(_configuration.path);
         if (info::mpi::rank == 0) {
             utils::listDirectory(dir, allfiles);
-            serialized.push_back(0);
             for (auto file = allfiles.begin(); file != allfiles.end(); ++file) {
-                ++serialized[0];
-                serialized.push_back(file->size());
-                serialized.insert(serialized.end(), file->data(), file->data() + file->size());
+                serialized.insert(serialized.end(), file->begin(), file->end());
+                serialized.push_back('\0');
             }
         }
         Communication::broadcastUnknownSize(serialized);
-        for (int i = 0, j = 1; i < serialized[0]; ++i, j += serialized[j] + 1) {
-            std::string file = (dir[0] == '.' ?  "" : dir + "/") + std::string(serialized.data() + j + 1, serialized.data() + j + 1 + serialized[j]);
+        for (size_t i = 0; i < serialized.size(); ) {
+            std::string name(serialized.data() + i);
+            i += name.size() + 1;
+            std::string file = (dir[0] == '.' ?  "" : dir + "/") + name;
             if (StringCompare::caseSensitivePreffix(prefix, file) && StringCompare::caseSensitiveSuffix(file, suffix)) {
                 filepaths.push_back(file);
                 names.push_back(file.substr(prefix.size(), file.size() - prefix.size() - suffix.size()));
-- 
2.43.0


From c8ae4ff8a9099dcd017a6051a227ec9098048291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:05 +0000
Subject: [PATCH 06/36] fix: VTK wildcard in a path starting with a dot matched
 no file

---
 src/input/parsers/vtklegacy/vtklegacy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input/parsers/vtklegacy/vtklegacy.cpp b/src/input/parsers/vtklegacy/vtklegacy.cpp
index e6bd91d..9ea0b5b 100644
--- a/src/input/parsers/vtklegacy/vtklegacy.cpp
+++ b/src/input/parsers/vtklegacy/vtklegacy.cpp
@@ -45,7 +45,7 @@ void VTKLegacyLoader::load()
         for (size_t i = 0; i < serialized.size(); ) {
             std::string name(serialized.data() + i);
             i += name.size() + 1;
-            std::string file = (dir[0] == '.' ?  "" : dir + "/") + name;
+            std::string file = (_configuration.path.find('/') == std::string::npos ? "" : dir + "/") + name;
             if (StringCompare::caseSensitivePreffix(prefix, file) && StringCompare::caseSensitiveSuffix(file, suffix)) {
                 filepaths.push_back(file);
                 names.push_back(file.substr(prefix.size(), file.size() - prefix.size() - suffix.size()));
-- 
2.43.0


From cb931b0b89138a64bcc1a7d33e1a5178dbbf03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:54 +0000
Subject: [PATCH 07/36] fix: FORCE_CONTINUITY never finished when a body had no
 fixed component

Components connected only with each other were waiting for a neighbor to be
fixed forever.
---
 src/mesh/preprocessing/pure.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 6c36516..c79622a 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -860,9 +860,9 @@ void computeContinuousClusterization(const ElementStore *elements, const NodeSto
         }
     }
 
-    int freeDomain = 1;
-    while (freeDomain) {
-        freeDomain = 0;
+    int freeDomain = 1, fixedDomain = 1;
+    while (freeDomain && fixedDomain) { // components without a path to a fixed one stay where they are
+        freeDomain = fixedDomain = 0;
         if (!Communication::exchangeUnknownSize(sBuffer, rBuffer, neighborsWithMe)) {
             eslog::internalFailure("Cannot exchange domains sizes\n");
         }
@@ -881,6 +881,7 @@ void computeContinuousClusterization(const ElementStore *elements, const NodeSto
                     if (ddesc->fixed) {
                         sBuffer[c].proc = ddesc->proc;
                         sBuffer[c].fixed = 1;
+                        ++fixedDomain;
                     } else {
                         ++freeDomain;
                     }
@@ -888,6 +889,7 @@ void computeContinuousClusterization(const ElementStore *elements, const NodeSto
             }
         }
         Communication::allReduce(&freeDomain, NULL, 1, MPI_INT, MPI_SUM);
+        Communication::allReduce(&fixedDomain, NULL, 1, MPI_INT, MPI_SUM);
     }
 
     profiler::synccheckpoint("decomposition_fixed");
-- 
2.43.0


From 06118a225ee78fa81231ca0e29026325d1cf1541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:29 +0000
Subject: [PATCH 08/36] fix: METIS parallel decomposition assigned elements to
 nonexistent processes

With more bodies than MPI processes (or a small last body) the sum of body
parts exceeded the number of processes and elements were sent to ranks that do
not exist. A process without elements of a body was also read past the end of
gathered frames.
---
 src/mesh/preprocessing/pure.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index c79622a..592bce7 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -457,7 +457,7 @@ esint getSFCDecomposition(const ElementStore *elements, const NodeStore *nodes,
 //    return 0; // edge cut is not computed
 }
 
-esint callParallelDecomposer(const ElementStore *elements, const NodeStore *nodes, std::vector<esint> &eframes, std::vector<esint> &eneighbors, std::vector<esint> &partition, int parts)
+esint callParallelDecomposer(const ElementStore *elements, const NodeStore *nodes, std::vector<esint> &eframes, std::vector<esint> &eneighbors, std::vector<esint> &partition, int parts, bool contiguous)
 {
     DebugOutput::meshDual(eframes, eneighbors);
 
@@ -538,11 +538,13 @@ esint callParallelDecomposer(const ElementStore *elements, const NodeStore *node
         auto fixframes = [&] () {
             size_t size = gframes.size();
             for (size_t i = 1, j = 1, offset = 0; j < gframes.size(); i++, j++) {
-                while (gframes[j] == 0) {
+                while (j < gframes.size() && gframes[j] == 0) {
                     offset += gframes[j++ - 1];
                     --size;
                 }
-                gframes[i] = gframes[j] + offset;
+                if (j < gframes.size()) {
+                    gframes[i] = gframes[j] + offset;
+                }
             }
             gframes.resize(size);
         };
@@ -550,9 +552,12 @@ esint callParallelDecomposer(const ElementStore *elements, const NodeStore *node
         if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS) {
             if (info::mpi::rank == 0) {
                 fixframes();
+                int contig = info::ecf->input.decomposition.metis_options.contig;
+                info::ecf->input.decomposition.metis_options.contig = contig && contiguous;
                 edgecut = METIS::call(info::ecf->input.decomposition.metis_options,
                         gpartition.size(), gframes.data(), gneighbors.data(),
                         0, NULL, NULL, parts, gpartition.data());
+                info::ecf->input.decomposition.metis_options.contig = contig;
                 profiler::checkpoint("metis");
             }
             profiler::synccheckpoint("synchronize");
@@ -701,7 +706,7 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
 //    }
 
     int parts = 1;
-    if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS && info::ecf->input.decomposition.metis_options.contig) {
+    if (info::ecf->input.decomposition.parallel_decomposer == DecompositionConfiguration::ParallelDecomposer::METIS && info::ecf->input.decomposition.metis_options.contig && bodies->totalSize <= info::mpi::size) {
         parts = bodies->totalSize;
     }
 
@@ -739,6 +744,9 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
             psize[p] = std::max(1UL, psize[p] * info::mpi::size / totalsize);
             rest -= psize[p];
         }
+        for (; rest < 0; ++rest) { // more parts than processes since each body has at least one part
+            --*std::max_element(psize.begin(), psize.end());
+        }
 
         // exchange new elements IDs
         std::map<esint, esint> eid;
@@ -779,7 +787,7 @@ void computeElementsClusterization(const ElementStore *elements, BodyStore *bodi
     psize.back() += rest;
 
     for (int p = 0; p < parts; ++p) {
-        callParallelDecomposer(elements, nodes, dist[p], data[p], part[p], psize[p]);
+        callParallelDecomposer(elements, nodes, dist[p], data[p], part[p], psize[p], bodies->totalSize <= info::mpi::size);
     }
 
     partition.clear();
-- 
2.43.0


From 998afcafc434f83bb4792427f9d2212578267760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:08 +0000
Subject: [PATCH 09/36] fix: exchangeElements duplicated nodes when threads
 hold interleaved node IDs

The set of already received nodes was merged from per-thread parts that are
not mutually sorted; with FORCE_CONTINUITY and more OpenMP threads the lookup
missed nodes and they were stored twice.
---
 src/mesh/preprocessing/pure.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesh/preprocessing/pure.cpp b/src/mesh/preprocessing/pure.cpp
index 592bce7..dc5d6e9 100644
--- a/src/mesh/preprocessing/pure.cpp
+++ b/src/mesh/preprocessing/pure.cpp
@@ -1458,6 +1458,7 @@ void exchangeElements(ElementStore* &elements, NodeStore* &nodes, std::vector<El
         for (size_t t = 0; t < threads; t++) {
             nodeset.insert(nodeset.end(), tnodeset[t].begin(), tnodeset[t].end());
         }
+        std::sort(nodeset.begin() + nsize, nodeset.end()); // threads can have interleaved IDs
         std::inplace_merge(nodeset.begin(), nodeset.begin() + nsize, nodeset.end());
     }
 
-- 
2.43.0


From 32ce419f29a3da7017144c3ea823d252e65c91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:13 +0000
Subject: [PATCH 10/36] fix: coordinates/temperature at Gauss points were not
 evaluated for expressions in materials and loads

---
 src/analysis/assembler/general/boundarycondition.h     |  3 ++-
 src/analysis/assembler/general/material.h              |  7 +++++++
 src/analysis/assembler/heattransfer.cpp                |  5 ++++-
 src/analysis/assembler/heattransfer/op.conductivity.h  |  4 +++-
 src/analysis/assembler/structuralmechanics.cpp         |  9 +++++++--
 .../assembler/structuralmechanics/op.pressure.h        |  2 +-
 src/config/ecf/material/thermalconductivity.cpp        | 10 ++++++++++
 src/config/ecf/material/thermalconductivity.h          |  1 +
 8 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/analysis/assembler/general/boundarycondition.h b/src/analysis/assembler/general/boundarycondition.h
index 54a8e63..7fd780d 100644
--- a/src/analysis/assembler/general/boundarycondition.h
+++ b/src/analysis/assembler/general/boundarycondition.h
@@ -37,7 +37,7 @@ struct BoundaryCondition: public SubKernel {
         if (this->expressionVector) {
             this->isconst = expressionVector->x.evaluator->isConst() && expressionVector->y.evaluator->isConst() && expressionVector->z.evaluator->isConst();
             this->isactive = 1;
-            this->needCoordinates = expressionVector->x.evaluator->needCoordinates() && expressionVector->y.evaluator->needCoordinates() && expressionVector->z.evaluator->needCoordinates();
+            this->needCoordinates = expressionVector->x.evaluator->needCoordinates() || expressionVector->y.evaluator->needCoordinates() || expressionVector->z.evaluator->needCoordinates();
         }
     }
 
@@ -48,6 +48,7 @@ struct BoundaryCondition: public SubKernel {
             this->isconst = expression->evaluator->isConst();
             this->isactive = 1;
             this->needCoordinates = expression->evaluator->needCoordinates();
+            this->needTemperature = expression->evaluator->needTemperature();
         }
     }
 
diff --git a/src/analysis/assembler/general/material.h b/src/analysis/assembler/general/material.h
index 8a4957c..790a8eb 100644
--- a/src/analysis/assembler/general/material.h
+++ b/src/analysis/assembler/general/material.h
@@ -3,6 +3,7 @@
 #define SRC_ANALYSIS_ASSEMBLER_SUBKERNEL_MATERIAL_H_
 
 #include "subkernel.h"
+#include "basis/evaluator/evaluator.h"
 #include "config/ecf/material/material.h"
 
 namespace espreso {
@@ -19,6 +20,12 @@ struct Material: SubKernel {
     void activate(const MaterialConfiguration *configuration)
     {
         this->configuration = configuration;
+        for (const ECFExpression *expression : { &configuration->density, &configuration->heat_capacity }) {
+            if (expression->isset) {
+                this->needCoordinates |= expression->evaluator->needCoordinates();
+                this->needTemperature |= expression->evaluator->needTemperature();
+            }
+        }
     }
 
     const MaterialConfiguration *configuration;
diff --git a/src/analysis/assembler/heattransfer.cpp b/src/analysis/assembler/heattransfer.cpp
index 337f96d..92df905 100644
--- a/src/analysis/assembler/heattransfer.cpp
+++ b/src/analysis/assembler/heattransfer.cpp
@@ -228,7 +228,6 @@ bool HeatTransfer::analyze(const step::Step &step)
 
         const MaterialConfiguration *mat = info::mesh->materials[info::mesh->elements->eintervals[i].material];
         bool cartesian = mat->coordinate_system.type == CoordinateSystemConfiguration::TYPE::CARTESIAN;
-        bool gptemp = mat->thermal_conductivity.needTemperature();
         esint ebegin = info::mesh->elements->eintervals[i].begin, eend = info::mesh->elements->eintervals[i].end;
 
         if (info::mesh->dimension == 2) {
@@ -245,6 +244,10 @@ bool HeatTransfer::analyze(const step::Step &step)
                 elementKernels[i].thickness.needCoordinates ||
                 elementKernels[i].heatSource.needCoordinates ||
                 elementKernels[i].advection.needCoordinates;
+        bool gptemp =
+                elementKernels[i].conductivity.needTemperature ||
+                elementKernels[i].material.needTemperature ||
+                elementKernels[i].heatSource.needTemperature;
 
         elementKernels[i].coordinates.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, !cartesian || gpcoo);
 
diff --git a/src/analysis/assembler/heattransfer/op.conductivity.h b/src/analysis/assembler/heattransfer/op.conductivity.h
index 744a456..9f84b60 100644
--- a/src/analysis/assembler/heattransfer/op.conductivity.h
+++ b/src/analysis/assembler/heattransfer/op.conductivity.h
@@ -21,7 +21,9 @@ struct Conductivity: SubKernel {
     {
         this->conductivity = conductivity;
         this->coordinateSystem = coordinateSystem;
-        this->isconst = !(conductivity->needCoordinates() || conductivity->needTemperature()) && coordinateSystem->isConst();
+        this->needCoordinates = conductivity->needCoordinates() || !coordinateSystem->isConst();
+        this->needTemperature = conductivity->needTemperature();
+        this->isconst = conductivity->isConst() && coordinateSystem->isConst();
         this->type = coordinateSystem->type;
         this->rotated = coordinateSystem->isRotated() && conductivity->model != ThermalConductivityConfiguration::MODEL::ISOTROPIC;
         this->constRotation = coordinateSystem->type == CoordinateSystemConfiguration::TYPE::CARTESIAN && coordinateSystem->isConst();
diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 3b21810..9e082ea 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -406,7 +406,6 @@ bool StructuralMechanics::analyze(const step::Step &step)
             elementKernels[i].thickness.activate(getExpression(i, settings.thickness), info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::thickness->data.data());
         }
 
-        elementKernels[i].coordinates.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, !cartesian || gpcoo);
         elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
         elementKernels[i].material.activate(mat, settings.element_behaviour, configuration.mode == LoadStepSolverConfiguration::MODE::NONLINEAR && !configuration.corotation);
 
@@ -424,6 +423,8 @@ bool StructuralMechanics::analyze(const step::Step &step)
 //        }
         elementKernels[i].acceleration.activate(getExpression(i, configuration.acceleration), settings.element_behaviour);
         elementKernels[i].angularVelocity.activate(getExpression(i, configuration.angular_velocity), settings.element_behaviour);
+        gpcoo |= elementKernels[i].material.needCoordinates || elementKernels[i].acceleration.needCoordinates;
+        elementKernels[i].coordinates.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, !cartesian || gpcoo);
         if (Results::principalStress) {
             elementKernels[i].displacement.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, Results::displacement->data.data());
             elementKernels[i].stress.activate(info::mesh->elements->nodes->cbegin() + ebegin, info::mesh->elements->nodes->cbegin() + eend, i, nodeMultiplicity.data());
@@ -453,7 +454,6 @@ bool StructuralMechanics::analyze(const step::Step &step)
         }
         if (info::mesh->boundaryRegions[r]->dimension) {
             for (size_t i = 0; i < info::mesh->boundaryRegions[r]->eintervals.size(); ++i) {
-                faceKernels[r][i].coordinates.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC);
                 faceKernels[r][i].normalPressure.activate(getExpression(region->name, configuration.normal_pressure), settings.element_behaviour);
                 faceKernels[r][i].displacement.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, Results::displacement->data.data());
                 auto pressure = configuration.pressure.find(region->name);
@@ -463,6 +463,11 @@ bool StructuralMechanics::analyze(const step::Step &step)
                 if (force) {
                     faceKernels[r][i].force.activate(force->data.data(), region->eintervals[i].begin, region->eintervals[i].end);
                 }
+                bool gpcoo =
+                        settings.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC ||
+                        faceKernels[r][i].normalPressure.needCoordinates ||
+                        faceKernels[r][i].pressure.needCoordinates;
+                faceKernels[r][i].coordinates.activate(region->elements->cbegin() + region->eintervals[i].begin, region->elements->cbegin() + region->eintervals[i].end, gpcoo);
             }
         }
         for (size_t t = 0; t < region->nodes->threads(); ++t) {
diff --git a/src/analysis/assembler/structuralmechanics/op.pressure.h b/src/analysis/assembler/structuralmechanics/op.pressure.h
index 96c7ca8..aca7858 100644
--- a/src/analysis/assembler/structuralmechanics/op.pressure.h
+++ b/src/analysis/assembler/structuralmechanics/op.pressure.h
@@ -24,7 +24,7 @@ struct Pressure: public SubKernel {
         this->direction.activate(&direction);
         this->isconst = this->pressure.isconst && this->direction.isconst;
         this->isactive = 1;
-        this->needCoordinates = this->pressure.needCoordinates && this->direction.needCoordinates;
+        this->needCoordinates = this->pressure.needCoordinates || this->direction.needCoordinates;
     }
 
     StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR behaviour;
diff --git a/src/config/ecf/material/thermalconductivity.cpp b/src/config/ecf/material/thermalconductivity.cpp
index 9c72b91..7c2b408 100644
--- a/src/config/ecf/material/thermalconductivity.cpp
+++ b/src/config/ecf/material/thermalconductivity.cpp
@@ -73,6 +73,16 @@ espreso::ThermalConductivityConfiguration::ThermalConductivityConfiguration()
             .addconstraint(ECFCondition(model, ECFCondition::EQUALS, MODEL::ANISOTROPIC)));
 }
 
+bool espreso::ThermalConductivityConfiguration::isConst() const
+{
+    for (size_t i = 0; i < values.values.size(); ++i) {
+        if (values.values[i].evaluator && !values.values[i].evaluator->isConst()) {
+            return false;
+        }
+    }
+    return true;
+}
+
 bool espreso::ThermalConductivityConfiguration::needCoordinates() const
 {
     for (size_t i = 0; i < values.values.size(); ++i) {
diff --git a/src/config/ecf/material/thermalconductivity.h b/src/config/ecf/material/thermalconductivity.h
index 50204e6..0f03a45 100644
--- a/src/config/ecf/material/thermalconductivity.h
+++ b/src/config/ecf/material/thermalconductivity.h
@@ -22,6 +22,7 @@ struct ThermalConductivityConfiguration: public ECFDescription {
 
     ThermalConductivityConfiguration();
 
+    bool isConst() const;
     bool needCoordinates() const;
     bool needTemperature() const;
 };
-- 
2.43.0


From 1377960d6aa32a8646e351bb9cd1101bd4d03a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:14 +0000
Subject: [PATCH 11/36] fix: temperature gradient and flux of an odd interval
 overwrote the next interval

---
 src/analysis/assembler/heattransfer/op.flux.h     | 6 +++---
 src/analysis/assembler/heattransfer/op.gradient.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/op.flux.h b/src/analysis/assembler/heattransfer/op.flux.h
index da8e9eb..15810f1 100644
--- a/src/analysis/assembler/heattransfer/op.flux.h
+++ b/src/analysis/assembler/heattransfer/op.flux.h
@@ -25,7 +25,7 @@ struct TemperatureFlux: SubKernel {
     void activate(size_t interval, NamedData *flux, ThermalConductivityConfiguration::MODEL model)
     {
         this->flux = flux->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].begin;
-        this->end = flux->data.data() + flux->data.size();
+        this->end = flux->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].end;
         this->model = model;
         isactive = 1;
     }
@@ -90,7 +90,7 @@ struct TemperatureFluxKernel<nodes, gps, 2>: TemperatureFlux {
         SIMD scale = load1(1. / gps);
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux) / 2);
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.flux[0][s];
@@ -167,7 +167,7 @@ struct TemperatureFluxKernel<nodes, gps, 3>: TemperatureFlux {
         element.flux[0] = element.flux[0] * scale;
         element.flux[1] = element.flux[1] * scale;
         element.flux[2] = element.flux[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - flux) / 3);
         double * __restrict__ out = flux;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.flux[0][s];
diff --git a/src/analysis/assembler/heattransfer/op.gradient.h b/src/analysis/assembler/heattransfer/op.gradient.h
index 720ac4c..bac261f 100644
--- a/src/analysis/assembler/heattransfer/op.gradient.h
+++ b/src/analysis/assembler/heattransfer/op.gradient.h
@@ -23,7 +23,7 @@ struct TemperatureGradient: SubKernel {
     void activate(size_t interval, NamedData *gradient)
     {
         this->gradient = gradient->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].begin;
-        this->end = gradient->data.data() + gradient->data.size();
+        this->end = gradient->data.data() + info::mesh->dimension * info::mesh->elements->eintervals[interval].end;
         isactive = 1;
     }
 };
@@ -49,7 +49,7 @@ struct TemperatureGradientKernel<nodes, gps, 2>: TemperatureGradient {
         SIMD scale = load1(1. / gps);
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient) / 2);
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[2 * s + 0] = element.gradient[0][s];
@@ -81,7 +81,7 @@ struct TemperatureGradientKernel<nodes, gps, 3>: TemperatureGradient {
         element.gradient[0] = element.gradient[0] * scale;
         element.gradient[1] = element.gradient[1] * scale;
         element.gradient[2] = element.gradient[2] * scale;
-        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient));
+        size_t size = std::min((size_t)SIMD::size, (size_t)(end - gradient) / 3);
         double * __restrict__ out = gradient;
         for (size_t s = 0; s < size; ++s) {
             out[3 * s + 0] = element.gradient[0][s];
-- 
2.43.0


From f7fdf13bb4e44025cdaf21f6010be4c188527038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:19 +0000
Subject: [PATCH 12/36] fix: FETI iterative solvers reported success with NaN
 solution when the residual is exactly zero

---
 src/feti/iterativesolver/iterativesolver.cpp | 4 ++--
 src/feti/iterativesolver/orthopcpg.cpp       | 2 +-
 src/feti/iterativesolver/pcpg.cpp            | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/feti/iterativesolver/iterativesolver.cpp b/src/feti/iterativesolver/iterativesolver.cpp
index dd73696..3ddd44f 100644
--- a/src/feti/iterativesolver/iterativesolver.cpp
+++ b/src/feti/iterativesolver/iterativesolver.cpp
@@ -119,8 +119,8 @@ template <>
 void IterativeSolver<double>::updateInfo(IterativeSolverInfo &info, const FETIConfiguration &configuration, const double &ww, const double &psi, const double &ry)
 {
 //    info.norm.dual.ksi += psi;
-    info.norm.dual.absolute = std::sqrt(std::max(0., ww));
-    info.norm.dual.relative = info.norm.dual.absolute / info.norm.dual.initial;
+    info.norm.dual.absolute = std::sqrt(std::max(ww, 0.)); // NaN has to be kept
+    info.norm.dual.relative = info.norm.dual.absolute == 0 ? 0 : info.norm.dual.absolute / info.norm.dual.initial;
 //    info.norm.dual.arioli = std::sqrt(info.norm.dual.ksi / ry);
 
     switch (configuration.stopping_criterion) {
diff --git a/src/feti/iterativesolver/orthopcpg.cpp b/src/feti/iterativesolver/orthopcpg.cpp
index c110bf2..8042f60 100644
--- a/src/feti/iterativesolver/orthopcpg.cpp
+++ b/src/feti/iterativesolver/orthopcpg.cpp
@@ -95,7 +95,7 @@ template <> void OrthogonalizedPCPG<double>::solve(const step::Step &step, Itera
         F->apply(p, Fp);
         eslog::accumulatedln("orthopcpg: apply F");
         pFp.push_back(p.dot(Fp));
-        double gamma = yw / pFp.back();
+        double gamma = yw == 0 ? 0 : yw / pFp.back(); // yw == 0 -> x is exact
         eslog::accumulatedln("orthopcpg: dot(p, Fp)");
 
         // x = x + gamma * p
diff --git a/src/feti/iterativesolver/pcpg.cpp b/src/feti/iterativesolver/pcpg.cpp
index 68b85f1..5055ae7 100644
--- a/src/feti/iterativesolver/pcpg.cpp
+++ b/src/feti/iterativesolver/pcpg.cpp
@@ -104,7 +104,7 @@ template <> void PCPG<double>::solve(const step::Step &step, IterativeSolverInfo
         // gamma = (y, w) / (p, F * p)
         F->apply(p, Fp);
         eslog::accumulatedln("pcpg: apply F");
-        double pFp = p.dot(Fp), gamma = yw / pFp;
+        double pFp = p.dot(Fp), gamma = yw == 0 ? 0 : yw / pFp; // yw == 0 -> x is exact
         eslog::accumulatedln("pcpg: dot(p, Fp)");
 
         // x = x + gamma * p
@@ -127,7 +127,7 @@ template <> void PCPG<double>::solve(const step::Step &step, IterativeSolverInfo
 
 
         // beta = (y+1, w+1) / (y, w)
-        double _yw = y.dot(w), beta = _yw / yw;
+        double _yw = y.dot(w), beta = yw == 0 ? 0 : _yw / yw;
         eslog::accumulatedln("pcpg: dot(y, w)");
 
         // p = y + beta * p  (y is not used anymore)
-- 
2.43.0


From 0270b42d66aa066b83d0fd2aeaf35150709ab97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:37 +0000
Subject: [PATCH 13/36] fix: generator boundary region contained elements with
 a single node inside its interval

---
 .../parsers/meshgenerator/primitives/block.cpp      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/input/parsers/meshgenerator/primitives/block.cpp b/src/input/parsers/meshgenerator/primitives/block.cpp
index 2c9d39e..d03065e 100644
--- a/src/input/parsers/meshgenerator/primitives/block.cpp
+++ b/src/input/parsers/meshgenerator/primitives/block.cpp
@@ -336,11 +336,20 @@ void BlockGenerator::nodesRegion(const BlockBorder &border, std::vector<esint> &
     }
 }
 
+// the interval can contain a node on the border of the block only
+static bool containsElements(const BlockBorder &intersection, const Triple<size_t> &ebegin, const Triple<size_t> &eend)
+{
+    return
+            (intersection.start.x == intersection.end.x || ebegin.x < eend.x) &&
+            (intersection.start.y == intersection.end.y || ebegin.y < eend.y) &&
+            (intersection.start.z == intersection.end.z || ebegin.z < eend.z);
+}
+
 void BlockGenerator::edgesRegion(const BlockBorder &border, MeshBuilder &mesh, std::vector<esint> &elements)
 {
     BlockBorder intersection = border.intersect(_block);
     Triple<size_t> ebegin, eend, nbegin, nend;
-    if (!region(intersection, ebegin, eend, nbegin, nend) || intersection.dimension() < 1) {
+    if (!region(intersection, ebegin, eend, nbegin, nend) || intersection.dimension() < 1 || !containsElements(intersection, ebegin, eend)) {
         return;
     }
 
@@ -378,7 +387,7 @@ void BlockGenerator::facesRegion(const BlockBorder &border, MeshBuilder &mesh, s
 {
     BlockBorder intersection = border.intersect(_block);
     Triple<size_t> ebegin, eend, nbegin, nend;
-    if (!region(intersection, ebegin, eend, nbegin, nend)) {
+    if (!region(intersection, ebegin, eend, nbegin, nend) || !containsElements(intersection, ebegin, eend)) {
         return;
     }
 
-- 
2.43.0


From 1281f286efbcdc50850ed5e2340604849e2a7b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:08 +0000
Subject: [PATCH 14/36] fix: EnSight symmetric tensors were stored with
 components 13 and 23 swapped

---
 src/output/visualization/ensightgold.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/output/visualization/ensightgold.cpp b/src/output/visualization/ensightgold.cpp
index 77b5237..4e53d94 100644
--- a/src/output/visualization/ensightgold.cpp
+++ b/src/output/visualization/ensightgold.cpp
@@ -184,6 +184,15 @@ void EnSightGold::updateSolution(const step::Step &step)
 //    }
 }
 
+// EnSight stores symmetric tensors in the order: 11, 22, 33, 12, 13, 23
+static int component(const NamedData *data, int i)
+{
+    if (data->dataType == NamedData::DataType::TENSOR_SYMM && data->dimension == 6 && i > 3) {
+        return i == 4 ? 5 : 4;
+    }
+    return i;
+}
+
 std::string EnSightGold::dataname(const NamedData *data, int d)
 {
     if (data->dataType == NamedData::DataType::TENSOR_SYMM) {
@@ -396,7 +405,8 @@ int EnSightGold::ndata(const NamedData *data, const step::Step &step)
 
             const ElementsRegionStore *region = info::mesh->elementsRegions[r];
             if (info::mesh->dimension == 3) {
-                for (int d = 0; d < data->dimension; ++d) {
+                for (int i = 0; i < data->dimension; ++i) {
+                    int d = component(data, i);
                     niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + d]); });
                 }
             }
@@ -425,7 +435,8 @@ int EnSightGold::ndata(const NamedData *data, const step::Step &step)
             }
 
             if (info::mesh->dimension == 3) {
-                for (int d = 0; d < data->dimension; ++d) {
+                for (int i = 0; i < data->dimension; ++i) {
+                    int d = component(data, i);
                     niterator(region->nodeInfo.size, region->nodes->datatarray().data() + region->nodeInfo.nhalo, [&] (esint nindex) { _writer.float32(data->store[nindex * data->dimension + d]); });
                 }
             }
@@ -537,7 +548,8 @@ int EnSightGold::edata(const NamedData *data, const step::Step &step)
                     }
 
                     if (info::mesh->dimension == 3) {
-                        for (int d = 0; d < data->dimension; ++d) {
+                        for (int i = 0; i < data->dimension; ++i) {
+                            int d = component(data, i);
                             eiterator(info::mesh->elementsRegions[r], etype, [&] (const ElementsInterval &interval, esint eindex) { _writer.float32(data->store[eindex * data->dimension + d]); });
                         }
                     }
-- 
2.43.0


From 2d0b75f248ba5f49f400234726a588820d776815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:35 +0000
Subject: [PATCH 15/36] fix: VTK_LEGACY stored symmetric tensors with the
 layout of asymmetric ones (out-of-range components)

---
 src/output/visualization/vtklegacy.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index 4ba9ee7..fcc52f0 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -373,11 +373,11 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
             _writer.float32s (data->store[indices[n] * data->dimension + 0]);
             _writer.float32s (data->store[indices[n] * data->dimension + 3]);
             _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 3]);
+            _writer.float32s (data->store[indices[n] * data->dimension + 6]);
             _writer.float32s (data->store[indices[n] * data->dimension + 1]);
             _writer.float32s (data->store[indices[n] * data->dimension + 4]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 4]);
+            _writer.float32s (data->store[indices[n] * data->dimension + 8]);
+            _writer.float32s (data->store[indices[n] * data->dimension + 7]);
             _writer.float32ln(data->store[indices[n] * data->dimension + 2]);
         }
     }
@@ -386,16 +386,16 @@ void VTKLegacy::insertData(const step::Step &step, NamedData *data, esint nindic
         if (isRoot()) {
             _writer.data("TENSORS", data->name, "float");
         }
+        // stored components: XX, YY, XY (2D) or XX, YY, ZZ, XY, YZ, XZ (3D)
+        const int none = -1;
+        const int c2D[9] = { 0, 2, none, 2, 1, none, none, none, none };
+        const int c3D[9] = { 0, 3, 5, 3, 1, 4, 5, 4, 2 };
+        const int *c = data->dimension == 3 ? c2D : c3D;
         for (esint n = 0; n < nindices; ++n) {
-            _writer.float32s (data->store[indices[n] * data->dimension + 0]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 3]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 5]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 6]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 1]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 4]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 8]);
-            _writer.float32s (data->store[indices[n] * data->dimension + 7]);
-            _writer.float32ln(data->store[indices[n] * data->dimension + 2]);
+            for (int i = 0; i < 9; ++i) {
+                double value = c[i] == none ? .0 : data->store[indices[n] * data->dimension + c[i]];
+                i + 1 == 9 ? _writer.float32ln(value) : _writer.float32s(value);
+            }
         }
     }
     _writer.groupData();
-- 
2.43.0


From 2ba609411b4caba8a6339012e8d8a3fb842a341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:49 +0000
Subject: [PATCH 16/36] fix: FORCE on face/edge regions was added to wrong
 nodes

---
 src/analysis/assembler/structuralmechanics.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics.cpp b/src/analysis/assembler/structuralmechanics.cpp
index 9e082ea..2a434c1 100644
--- a/src/analysis/assembler/structuralmechanics.cpp
+++ b/src/analysis/assembler/structuralmechanics.cpp
@@ -556,8 +556,10 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
                 faceKernels[r][i].reRHSfiller.activate(r, i, info::mesh->dimension, faceKernels[r][i].elements, f);
             }
         }
+        // nodes are mapped after intervals with faces
+        size_t nodes = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0;
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
-            nodeKernels[r][t].reRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, f);
+            nodeKernels[r][t].reRHSfiller.activate(r, nodes + t, info::mesh->dimension, nodeKernels[r][t].elements, f);
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
@@ -588,9 +590,11 @@ void StructuralMechanics::connect(Matrix_Base<double> *K, Matrix_Base<double> *M
                 faceKernels[r][i].imRHSfiller.activate(r, i, info::mesh->dimension, faceKernels[r][i].elements, imf);
             }
         }
+        // nodes are mapped after intervals with faces
+        size_t nodes = info::mesh->boundaryRegions[r]->dimension ? info::mesh->boundaryRegions[r]->eintervals.size() : 0;
         for (size_t t = 0; t < info::mesh->boundaryRegions[r]->nodes->threads(); ++t) {
-            nodeKernels[r][t].reRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
-            nodeKernels[r][t].imRHSfiller.activate(r, t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
+            nodeKernels[r][t].reRHSfiller.activate(r, nodes + t, info::mesh->dimension, nodeKernels[r][t].elements, ref);
+            nodeKernels[r][t].imRHSfiller.activate(r, nodes + t, info::mesh->dimension, nodeKernels[r][t].elements, imf);
         }
     }
     for (auto it = configuration.displacement.begin(); it != configuration.displacement.end(); ++it) {
-- 
2.43.0


From 879d3c4c52c3da6997b3486f9fbee2f97fc8e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:48 +0000
Subject: [PATCH 17/36] fix: generator node region contained lattice points
 that are not nodes of elements

---
 .../parsers/meshgenerator/primitives/block.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/input/parsers/meshgenerator/primitives/block.cpp b/src/input/parsers/meshgenerator/primitives/block.cpp
index d03065e..bfc2bb5 100644
--- a/src/input/parsers/meshgenerator/primitives/block.cpp
+++ b/src/input/parsers/meshgenerator/primitives/block.cpp
@@ -306,10 +306,16 @@ void BlockGenerator::nodesRegion(const BlockBorder &border, std::vector<esint> &
         _element->pushNodes(nodes, indices, face);
     };
 
-    auto restriction = [&] (Triple<size_t> &offset) {
-        offset.x = offset.x < nbegin.x ? nbegin.x : nend.x < offset.x ? nend.x : offset.x;
-        offset.y = offset.y < nbegin.y ? nbegin.y : nend.y < offset.y ? nend.y : offset.y;
-        offset.z = offset.z < nbegin.z ? nbegin.z : nend.z < offset.z ? nend.z : offset.z;
+    auto restriction = [] (Triple<size_t> &offset) {};
+
+    auto filter = [&] () {
+        Triple<size_t> count = _block.domains * _block.elements * (Triple<size_t>(_element->subnodes) - 1) + 1;
+        auto out = [&] (esint n) {
+            size_t x = n % count.x, y = (n / count.x) % count.y, z = n / (count.x * count.y);
+            return x < nbegin.x || nend.x < x || y < nbegin.y || nend.y < y || z < nbegin.z || nend.z < z;
+        };
+        nodes.erase(std::remove_if(nodes.begin(), nodes.end(), out), nodes.end());
+        utils::sortAndRemoveDuplicates(nodes);
     };
 
     switch (intersection.dimension()) {
@@ -317,12 +323,12 @@ void BlockGenerator::nodesRegion(const BlockBorder &border, std::vector<esint> &
     case 1:
         edge = intersection.getEdge(_block);
         forEachElement(ebegin, eend, pushEdge, restriction);
-        utils::sortAndRemoveDuplicates(nodes);
+        filter();
         break;
     case 2:
         face = intersection.getFace(_block);
         forEachElement(ebegin, eend, pushFace, restriction);
-        utils::sortAndRemoveDuplicates(nodes);
+        filter();
         break;
 
     case 0:
-- 
2.43.0


From eb73d12c2c9599d92d447f98ce5a62554470838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:05 +0000
Subject: [PATCH 18/36] fix: FETI regularization used kernel of plane problems
 for axisymmetric domains

---
 .../regularization.elasticity.cpp             | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/analysis/linearsystem/regularization/regularization.elasticity.cpp b/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
index 7493c0d..1c58bd3 100644
--- a/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
+++ b/src/analysis/linearsystem/regularization/regularization.elasticity.cpp
@@ -26,6 +26,12 @@
 
 namespace espreso {
 
+// axial translation is the only rigid motion of axisymmetric domains
+static bool isAxisymmetric()
+{
+    return info::mesh->dimension == 2 && info::ecf->structural_mechanics.element_behaviour == StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR::AXISYMMETRIC;
+}
+
 static void getCorners(std::vector<esint> &fixPoints, int domain)
 {
     esint begin = info::mesh->domains->elements[domain];
@@ -451,7 +457,12 @@ static void updateRegMat(Matrix_CSR<T> &K, Matrix_CSR<T> &RegMat, DecompositionF
     }
 
     Matrix_Dense<T> N;
-    if (info::mesh->dimension == 2) {
+    if (isAxisymmetric()) {
+        N.resize(1, fixCols.size());
+        for (size_t i = 0; i < permutation.size(); ++i) {
+            N.vals[i] = fixVals[3 * permutation[i] + 1];
+        }
+    } else if (info::mesh->dimension == 2) {
         N.resize(3, fixCols.size());
         for (size_t i = 0; i < permutation.size(); ++i) {
             N.vals[0 * N.ncols + i] = fixVals[3 * permutation[i] + 0];
@@ -496,7 +507,7 @@ template <typename T>
 static void setR1(Matrix_CSR<T> &K, Matrix_Dense<T> &R1, DecompositionFETI *decomposition, int domain)
 {
     if (info::mesh->dimension == 2) {
-        R1.resize(3, K.nrows);
+        R1.resize(isAxisymmetric() ? 1 : 3, K.nrows);
     }
     if (info::mesh->dimension == 3) {
         R1.resize(6, K.nrows);
@@ -506,7 +517,17 @@ static void setR1(Matrix_CSR<T> &K, Matrix_Dense<T> &R1, DecompositionFETI *deco
 template <typename T>
 static void updateR1(Matrix_CSR<T> &K, Matrix_Dense<T> &R1, DecompositionFETI *decomposition, int domain, Vector_Distributed<Vector_Dense, T> *solution = nullptr)
 {
-    if (info::mesh->dimension == 2) {
+    if (isAxisymmetric()) {
+        R1.resize(1, K.nrows);
+        int i = 0;
+        for (auto dmap = decomposition->dmap->cbegin(); dmap != decomposition->dmap->cend(); ++dmap, ++i) {
+            for (auto di = dmap->begin(); di != dmap->end(); ++di) {
+                if (di->domain == domain + decomposition->dbegin) {
+                    R1.vals[di->index] = i % 2;
+                }
+            }
+        }
+    } else if (info::mesh->dimension == 2) {
         R1.resize(3, K.nrows);
         int i = 0;
         for (auto dmap = decomposition->dmap->cbegin(); dmap != decomposition->dmap->cend(); ++dmap, ++i) {
@@ -613,7 +634,7 @@ void Regularization<T>::update(FETI<T> &feti, StructuralMechanicsLoadStepConfigu
         }
         break;
     case FETIConfiguration::REGULARIZATION::ALGEBRAIC:
-        algebraic(feti, 3 * (info::mesh->dimension - 1), feti.configuration.sc_size);
+        algebraic(feti, isAxisymmetric() ? 1 : 3 * (info::mesh->dimension - 1), feti.configuration.sc_size);
         break;
     case FETIConfiguration::REGULARIZATION::SVD:
         if (feti.updated.K && (R1 || regMat)) svd(feti);
-- 
2.43.0


From d285858b59af0cf0b337203e6b60d09c3279e9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:52 +0000
Subject: [PATCH 19/36] fix: generated faces X_0 of quadratic tetrahedra were
 oriented inside

---
 .../meshgenerator/elements/3D/quadraticvolume.cpp    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp b/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
index 0e48562..70d2032 100644
--- a/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
+++ b/src/input/parsers/meshgenerator/elements/3D/quadraticvolume.cpp
@@ -158,18 +158,18 @@ void QuadraticVolumeGenerator::pushTriangleNodes(std::vector<esint> &nodes, cons
     switch (face) {
     case CubeFace::X_0:
         nodes.push_back(indices[ 0]);
-        nodes.push_back(indices[ 6]);
         nodes.push_back(indices[18]);
-        nodes.push_back(indices[ 3]);
-        nodes.push_back(indices[12]);
+        nodes.push_back(indices[ 6]);
         nodes.push_back(indices[ 9]);
+        nodes.push_back(indices[12]);
+        nodes.push_back(indices[ 3]);
 
         nodes.push_back(indices[ 6]);
-        nodes.push_back(indices[24]);
         nodes.push_back(indices[18]);
-        nodes.push_back(indices[15]);
-        nodes.push_back(indices[21]);
+        nodes.push_back(indices[24]);
         nodes.push_back(indices[12]);
+        nodes.push_back(indices[21]);
+        nodes.push_back(indices[15]);
         break;
     case CubeFace::X_1:
         nodes.push_back(indices[ 2]);
-- 
2.43.0


From af9d39aa4a2cfbf43ee0ca13ff4c86cfd878e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 20/36] fix: orthogonalPCG made one more step with a
 degenerated direction after it had converged

---
 src/feti/iterativesolver/orthopcpg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feti/iterativesolver/orthopcpg.cpp b/src/feti/iterativesolver/orthopcpg.cpp
index 8042f60..c1005f7 100644
--- a/src/feti/iterativesolver/orthopcpg.cpp
+++ b/src/feti/iterativesolver/orthopcpg.cpp
@@ -127,8 +127,8 @@ template <> void OrthogonalizedPCPG<double>::solve(const step::Step &step, Itera
         math::add(p, 1., y);
         eslog::accumulatedln("orthopcpg: orthogonalization");
 
-        updateInfo(info, feti.configuration, yw, 0, 0);
         yw = y.dot(w);
+        updateInfo(info, feti.configuration, yw, 0, 0); // the residual of current x: the next p can be degenerated
         eslog::accumulatedln("orthopcpg: check criteria");
     }
     eslog::endln("orthopcpg: finished");
-- 
2.43.0


From 42ea04f39259821a8c9018361672a336b3cd84da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:55 +0000
Subject: [PATCH 21/36] fix: orthogonalization in orthogonalPCG considered only
 the last interval of local multipliers

---
 src/feti/common/matrix_dual_orthogonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feti/common/matrix_dual_orthogonal.h b/src/feti/common/matrix_dual_orthogonal.h
index 1e84aad..f495156 100644
--- a/src/feti/common/matrix_dual_orthogonal.h
+++ b/src/feti/common/matrix_dual_orthogonal.h
@@ -37,7 +37,7 @@ struct Matrix_Dual_Orthogonal: public Matrix_Dual<T> {
             _x.size = Dual_Map::local_intervals[i].size;
             _x.vals = x.vals + Dual_Map::local_intervals[i].start;
             Matrix_Dense<T>::slice({}, { Dual_Map::local_intervals[i].start, Dual_Map::local_intervals[i].end });
-            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), T{0}, _x);
+            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), i ? T{1} : T{0}, _x);
         }
         Communication::allReduce(y.vals, nullptr, y.size, MPITools::getType<T>().mpitype, MPI_SUM);
     }
-- 
2.43.0


From 6f397b6391ba0a98aaefcbc9df7a44e10c49ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:22 +0000
Subject: [PATCH 22/36] fix: matrix version of solve_A11 in MKL PARDISO Schur
 complement wrote behind its buffers

---
 .../operations/schur_csx_dny.mklpardiso.cpp   | 62 +++++++------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp b/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
index 1a00798..67d14d1 100644
--- a/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
+++ b/src/wrappers/mkl/operations/schur_csx_dny.mklpardiso.cpp
@@ -187,63 +187,49 @@ void schur_csx_dny_mklpardiso<T,I>::internal_solve_A11(MatrixDenseView_new<T> &
 {
     if(rhs.ncols == 0) return;
 
-    // no support for leading dimension in pardiso. matrix has to be colmajor. so I have to reallocate and convert
+    // pardiso works with the whole matrix (A11 and SC) and has no support for leading dimension, vectors have to be colmajor
     Allocator_new * ator = AllocatorCPU_new::get_singleton();
-    if((&rhs == &sol) && ((rhs.order != 'C') || (rhs.ld != rhs.nrows))) {
-        T * tmp_mem = ator->template alloc<T>(rhs.nrows * rhs.ncols);
-        MatrixDenseView_new<T> tmp;
-        tmp.set_view(rhs.nrows, rhs.ncols, rhs.nrows, 'C', tmp_mem, ator);
-        math::operations::convert_dnx_dny<T>::do_all(&rhs, &tmp, false);
-        this->internal_solve_A11(tmp, tmp);
-        math::operations::convert_dnx_dny<T>::do_all(&tmp, &sol, false);
-        ator->free(tmp_mem);
-        return;
-    }
-    if((rhs.order != 'C') || (rhs.ld != rhs.nrows)) {
-        T * rhs_2_mem = ator->template alloc<T>(rhs.nrows * rhs.ncols);
-        MatrixDenseView_new<T> rhs_2;
-        rhs_2.set_view(rhs.nrows, rhs.ncols, rhs.nrows, 'C', rhs_2_mem, ator);
-        math::operations::convert_dnx_dny<T>::do_all(&rhs, &rhs_2, false);
-        this->internal_solve_A11(rhs_2, sol);
-        ator->free(rhs_2_mem);
-        return;
-    }
-    if((sol.order != 'C') || (sol.ld != sol.nrows)) {
-        T * sol_2_mem = ator->template alloc<T>(sol.nrows * sol.ncols);
-        MatrixDenseView_new<T> sol_2;
-        sol_2.set_view(sol.nrows, sol.ncols, sol.nrows, 'C', sol_2_mem, ator);
-        this->internal_solve_A11(rhs, sol_2);
-        math::operations::convert_dnx_dny<T>::do_all(&sol_2, &sol, false);
-        ator->free(sol_2_mem);
-        return;
-    }
-
-    T * tmp_mem = ator->template alloc<T>(rhs.nrows * rhs.ncols);
-    MatrixDenseView_new<T> tmp;
-    tmp.set_view(rhs.nrows, rhs.ncols, rhs.nrows, 'C', tmp_mem, ator);
+    T * x_mem = ator->template alloc<T>(size_matrix * rhs.ncols);
+    T * y_mem = ator->template alloc<T>(size_matrix * rhs.ncols);
+    MatrixDenseView_new<T> x, y;
+    x.set_view(size_matrix, rhs.ncols, size_matrix, 'C', x_mem, ator);
+    y.set_view(size_matrix, rhs.ncols, size_matrix, 'C', y_mem, ator);
 
     MKL_INT phase;
     MKL_INT one = 1;
     MKL_INT nrhs = rhs.ncols;
 
+    {
+        MatrixDenseView_new<T> x_sub_top = x.get_submatrix_view(0, size_A11, 0, x.ncols);
+        MatrixDenseView_new<T> x_sub_bottom = x.get_submatrix_view(size_A11, size_matrix, 0, x.ncols);
+        math::operations::convert_dnx_dny<T>::do_all(&rhs, &x_sub_top, false);
+        math::operations::fill_dnx<T>::do_all(&x_sub_bottom, T{0});
+    }
+
     phase = 331;
-    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, rhs.vals, tmp.vals, &data->error);
+    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, x.vals, y.vals, &data->error);
     if(data->error != 0) {
         eslog::error("pardiso error %d\n", (int)data->error);
     }
 
     {
-        MatrixDenseView_new<T> tmp_sub_bottom = tmp.get_submatrix_view(size_A11, size_matrix, 0, tmp.ncols);
-        math::operations::fill_dnx<T>::do_all(&tmp_sub_bottom, T{0});
+        MatrixDenseView_new<T> y_sub_bottom = y.get_submatrix_view(size_A11, size_matrix, 0, y.ncols);
+        math::operations::fill_dnx<T>::do_all(&y_sub_bottom, T{0});
     }
 
     phase = 333;
-    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, tmp.vals, sol.vals, &data->error);
+    pardiso(data->pt, &one, &one, &data->mtype, &phase, &data->size_matrix_mklint, A->vals, A->ptrs, A->idxs, nullptr, &nrhs, data->iparm, &data->msglvl, y.vals, x.vals, &data->error);
     if(data->error != 0) {
         eslog::error("pardiso error %d\n", (int)data->error);
     }
 
-    ator->free(tmp_mem);
+    {
+        MatrixDenseView_new<T> x_sub_top = x.get_submatrix_view(0, size_A11, 0, x.ncols);
+        math::operations::convert_dnx_dny<T>::do_all(&x_sub_top, &sol, false);
+    }
+
+    ator->free(x_mem);
+    ator->free(y_mem);
 }
 
 
-- 
2.43.0


From 667c1cb7712007217741f73cfc1311a567431e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:22 +0000
Subject: [PATCH 23/36] fix: DIRICHLET_IMPLICIT preconditioner refused domains
 without interior DOFs

---
 .../preconditioner/dirichlet.implicit.cpp     | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/feti/preconditioner/dirichlet.implicit.cpp b/src/feti/preconditioner/dirichlet.implicit.cpp
index a50d748..b7d6a50 100644
--- a/src/feti/preconditioner/dirichlet.implicit.cpp
+++ b/src/feti/preconditioner/dirichlet.implicit.cpp
@@ -75,8 +75,10 @@ void DirichletImplicit<T>::set(const step::Step &step)
 
         math::spblas::submatrix(pK, A11[d], 0, size_A11, 0, size_A11);
 
-        solver[d].commit(A11[d]);
-        solver[d].symbolicFactorization();
+        if (size_A11) { // there can be only surface DOFs
+            solver[d].commit(A11[d]);
+            solver[d].symbolicFactorization();
+        }
     }
 }
 
@@ -96,7 +98,9 @@ void DirichletImplicit<T>::update(const step::Step &step)
             math::spblas::submatrix(pK, A11[d],        0, size_A11,        0, size_A11);
             math::spblas::submatrix(pK, A12[d],        0, size_A11, size_A11,     size);
             math::spblas::submatrix(pK, A22[d], size_A11,     size, size_A11,     size);
-            solver[d].numericalFactorization();
+            if (size_A11) {
+                solver[d].numericalFactorization();
+            }
         }
     }
     _print(step);
@@ -118,12 +122,13 @@ void DirichletImplicit<T>::apply(const Vector_Dual<T> &x, Vector_Dual<T> &y)
         vy.resize(A12[d].nrows);
         math::copy(vx, Btx[d]);
 
-        math::set(vy, T{0});
-        math::spblas::apply(vy, T{1}, A12[d], vx);
-        solver[d].solve(vy, vx);
-
         math::set(KBtx[d], T{0});
-        math::spblas::applyT(KBtx[d], T{-1}, A12[d], vx);
+        if (A11[d].nrows) {
+            math::set(vy, T{0});
+            math::spblas::apply(vy, T{1}, A12[d], vx);
+            solver[d].solve(vy, vx);
+            math::spblas::applyT(KBtx[d], T{-1}, A12[d], vx);
+        }
         for (int r = 0; r < A22[d].nrows; ++r) { // A22 has upper triangle only
             for (int c = A22[d].rows[r]; c < A22[d].rows[r + 1]; ++c) {
                 KBtx[d].vals[r] += A22[d].vals[c] * Btx[d].vals[A22[d].cols[c]];
-- 
2.43.0


From 56cc486e33944763fd0ea1de834568b8b3532cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:34 +0000
Subject: [PATCH 24/36] fix: orthogonalPCG used stale coefficients in processes
 without own multipliers

---
 src/feti/common/matrix_dual_orthogonal.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/feti/common/matrix_dual_orthogonal.h b/src/feti/common/matrix_dual_orthogonal.h
index f495156..a9f8fc1 100644
--- a/src/feti/common/matrix_dual_orthogonal.h
+++ b/src/feti/common/matrix_dual_orthogonal.h
@@ -32,12 +32,16 @@ struct Matrix_Dual_Orthogonal: public Matrix_Dual<T> {
 
     void apply(const Vector_Dual<T> &x, Vector_Dense<T> &y)
     {
+        math::set(y, T{0}); // BLAS does not reset y if there are no local multipliers
         for (size_t i = 0; i < Dual_Map::local_intervals.size(); ++i) {
+            if (Dual_Map::local_intervals[i].size == 0) {
+                continue;
+            }
             Vector_Dense<T> _x;
             _x.size = Dual_Map::local_intervals[i].size;
             _x.vals = x.vals + Dual_Map::local_intervals[i].start;
             Matrix_Dense<T>::slice({}, { Dual_Map::local_intervals[i].start, Dual_Map::local_intervals[i].end });
-            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), i ? T{1} : T{0}, _x);
+            math::blas::apply(y, T{1}, static_cast<Matrix_Dense<T>&>(*this), T{1}, _x);
         }
         Communication::allReduce(y.vals, nullptr, y.size, MPITools::getType<T>().mpitype, MPI_SUM);
     }
-- 
2.43.0


From 70b394c8f165f524b2a0986b438e62539f32ccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 25/36] fix: VTK Legacy regions stored local numbers of
 elements in headers

---
 src/output/visualization/vtklegacy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/visualization/vtklegacy.cpp b/src/output/visualization/vtklegacy.cpp
index fcc52f0..125e314 100644
--- a/src/output/visualization/vtklegacy.cpp
+++ b/src/output/visualization/vtklegacy.cpp
@@ -270,8 +270,8 @@ esint VTKLegacy::insertElements(const BoundaryRegionStore *store, const std::vec
     if (store->dimension) {
         esint enodes = 0;
         for (size_t i = 0; i < store->distribution.code.size(); i++) {
-            if (store->distribution.code[i].size) {
-                enodes += store->distribution.code[i].size * Mesh::edata[i].nodes;
+            if (store->distribution.code[i].totalSize) {
+                enodes += store->distribution.code[i].totalSize * Mesh::edata[i].nodes;
             }
         }
 
-- 
2.43.0


From 1993e54b09ad4cc380f6546ef9acb2496e7cbe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 26/36] fix: heat mass matrix ignored the heat capacity

---
 src/analysis/assembler/heattransfer/kernel.h | 2 +-
 src/config/ecf/material/material.cpp         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/analysis/assembler/heattransfer/kernel.h b/src/analysis/assembler/heattransfer/kernel.h
index 7588d08..70faaa5 100644
--- a/src/analysis/assembler/heattransfer/kernel.h
+++ b/src/analysis/assembler/heattransfer/kernel.h
@@ -358,7 +358,7 @@ void runElementKernel(const step::Step &step, const HeatTransferElementOperators
                 K.simd(element, gp);
             }
             if (M.isactive) {
-                M.simd(element, gp);
+                M.simd(element, gp, element.det * load1(element.w[gp]) * element.ecf.density * element.ecf.heatCapacity);
             }
             if (gradient.isactive) {
                 gradient.simd(element, gp);
diff --git a/src/config/ecf/material/material.cpp b/src/config/ecf/material/material.cpp
index 7010614..2079724 100644
--- a/src/config/ecf/material/material.cpp
+++ b/src/config/ecf/material/material.cpp
@@ -16,7 +16,8 @@ MaterialBaseConfiguration::MaterialBaseConfiguration(PHYSICAL_MODEL physicalMode
             .allowonly([&] () { return !*_phase_change; })
             .addconstraint(ECFCondition(*_phase_change, ECFCondition::EQUALS, false)));
 
-    density.value = heat_capacity.value = "0";
+    density.value = "0";
+    heat_capacity.value = "1";
     ecfdescription->registerParameter("dens", density, ECFMetaData()
             .setdescription({ "Density" })
             .setdatatype({ ECFDataType::EXPRESSION })
-- 
2.43.0


From d3b43ad48c1071868c5f834266dbfa2ee6c3be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 27/36] fix: heat mass matrix was not updated for TIME
 dependent materials

---
 src/analysis/assembler/heattransfer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/analysis/assembler/heattransfer.cpp b/src/analysis/assembler/heattransfer.cpp
index 92df905..e0badd6 100644
--- a/src/analysis/assembler/heattransfer.cpp
+++ b/src/analysis/assembler/heattransfer.cpp
@@ -416,6 +416,14 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
     }
     if (M) {
         M->constant = true;
+        for (size_t i = 0; i < elementKernels.size(); ++i) {
+            for (size_t e = 0; e < elementKernels[i].expressions.node.size(); ++e) {
+                M->constant &= elementKernels[i].expressions.node[e]->evaluator->isConst();
+            }
+            for (size_t e = 0; e < elementKernels[i].expressions.gp.size(); ++e) {
+                M->constant &= elementKernels[i].expressions.gp[e]->evaluator->isConst();
+            }
+        }
         if (M->constant) { constants += "M "; }
     }
     if (f) {
-- 
2.43.0


From 99e61cd07f9af0b1f65785bce9784473a75f6ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 28/36] fix: processes of heat transfer disagreed on constant
 matrices and vectors

---
 src/analysis/assembler/heattransfer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/analysis/assembler/heattransfer.cpp b/src/analysis/assembler/heattransfer.cpp
index e0badd6..d7f5ce1 100644
--- a/src/analysis/assembler/heattransfer.cpp
+++ b/src/analysis/assembler/heattransfer.cpp
@@ -14,6 +14,7 @@
 #include "mesh/store/boundaryregionstore.h"
 #include "mesh/store/domainsurfacestore.h"
 #include "wrappers/bem/w.bem.h"
+#include "wrappers/mpi/communication.h"
 
 #include <numeric>
 #include <algorithm>
@@ -401,6 +402,13 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
 
     std::string constants;
 
+    // processes have different kernels, but they have to agree on what is going to be updated
+    auto everywhere = [] (bool constant) {
+        int in = constant, out = 0;
+        Communication::allReduce(&in, &out, 1, MPI_INT, MPI_MIN);
+        return out != 0;
+    };
+
     if (K) {
         K->constant = configuration.mode == LoadStepSolverConfiguration::MODE::LINEAR;
 
@@ -412,6 +420,7 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
                 K->constant &= elementKernels[i].expressions.gp[e]->evaluator->isConst();
             }
         }
+        K->constant = everywhere(K->constant);
         if (K->constant) { constants += "K "; }
     }
     if (M) {
@@ -424,6 +433,7 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
                 M->constant &= elementKernels[i].expressions.gp[e]->evaluator->isConst();
             }
         }
+        M->constant = everywhere(M->constant);
         if (M->constant) { constants += "M "; }
     }
     if (f) {
@@ -452,6 +462,7 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
                 }
             }
         }
+        f->constant = everywhere(f->constant);
         if (f->constant) { constants += "f "; }
     }
     if (nf) {
@@ -467,6 +478,7 @@ void HeatTransfer::connect(Matrix_Base<double> *K, Matrix_Base<double> *M, Vecto
                 }
             }
         }
+        dirichlet->constant = everywhere(dirichlet->constant);
         if (dirichlet->constant) { constants += "dirichlet "; }
     }
 
-- 
2.43.0


From c38284dae55c306735cd3fbd9436d667bf69380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 29/36] fix: nonlinear Newmark damping coefficients used the
 time shift instead of delta

---
 .../physics/structuralmechanics.transient.nonlinear.cpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
index 12d8161..d597904 100644
--- a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
@@ -227,11 +227,11 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
         eslog::info(" ============================================================================================= \n");
 
         double a0 = (1. - alphaM) / (alpha * time.shift * time.shift);
-        double a1 = ((1 - alphaF) * time.shift) / (alpha * time.shift);
+        double a1 = ((1 - alphaF) * delta) / (alpha * time.shift);
         double a2 = a0 * time.shift;
         double a3 = (1 - alphaM) / (2 * alpha) - 1;
-        double a4 = ((1 - alphaF) * time.shift) / alpha - 1;
-        double a5 = (1 - alphaF) * (time.shift / (2 * alpha) - 1) * time.shift;
+        double a4 = ((1 - alphaF) * delta) / alpha - 1;
+        double a5 = (1 - alphaF) * (delta / (2 * alpha) - 1) * time.shift;
 
         if (precice.requiresWritingCheckpoint()) {
             // previous data are stored in *_old
-- 
2.43.0


From 556aafc7f9a80286856f735b576e539775daace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 30/36] fix: nonlinear Newmark predictor used a wrong sign of
 the previous acceleration

---
 .../physics/structuralmechanics.transient.nonlinear.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
index d597904..b4af561 100644
--- a/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
+++ b/src/analysis/physics/structuralmechanics.transient.nonlinear.cpp
@@ -269,7 +269,7 @@ bool StructuralMechanicsTransientNonLinear::run(step::Step &step, Physics *prev)
         A->set(0);
         A->add(1. / (alpha * time.shift * time.shift), dU);
         A->add(-1. / (alpha * time.shift), V_old);
-        A->add(-1. / (2 * alpha) - 1, A_old);
+        A->add(-1. / (2 * alpha) + 1, A_old);
         R_old->copy(R);
 
         assembler.updateSolution(step, U);
-- 
2.43.0


From 5979c65e0d097488be661c982f2c49881ec87046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 31/36] fix: wrong stresses of NEO_HOOKEAN_CMP for general
 deformations

---
 .../assembler/structuralmechanics/op.material.h        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/analysis/assembler/structuralmechanics/op.material.h b/src/analysis/assembler/structuralmechanics/op.material.h
index 490e23e..c697331 100644
--- a/src/analysis/assembler/structuralmechanics/op.material.h
+++ b/src/analysis/assembler/structuralmechanics/op.material.h
@@ -365,15 +365,15 @@ template <size_t nodes, size_t gps> struct MaterialStructuralMechanicsKernel<nod
             SIMD lambda = E * nu / ((load1(1.) + nu) * (load1(1.) - load1(2.) * nu));
             SIMD mu = E / (load1(2.) + load1(2.) * nu);
 
-            SIMD J2 = element.C2[0] * element.C2[4] * element.C2[8] + load1(2) * element.C2[1] * element.C2[5] * element.C2[2] - element.C2[0] * element.C2[2] * element.C2[2] - element.C2[4] * element.C2[5] * element.C2[5] - element.C2[8] * element.C2[1] * element.C2[1];
+            SIMD J2 = element.C2[0] * element.C2[4] * element.C2[8] + load1(2) * element.C2[1] * element.C2[5] * element.C2[2] - element.C2[0] * element.C2[5] * element.C2[5] - element.C2[4] * element.C2[2] * element.C2[2] - element.C2[8] * element.C2[1] * element.C2[1];
             SIMD rJ2 = load1(1) / J2;
             SIMD vCinv[6] = {
-                (element.C2[4] *element.C2[8] - element.C2[2] * element.C2[2] ) * rJ2,
-                (element.C2[0] *element.C2[8] - element.C2[5] * element.C2[5] ) * rJ2,
+                (element.C2[4] *element.C2[8] - element.C2[5] * element.C2[5] ) * rJ2,
+                (element.C2[0] *element.C2[8] - element.C2[2] * element.C2[2] ) * rJ2,
                 (element.C2[0] *element.C2[4] - element.C2[1] * element.C2[1] ) * rJ2,
                 (element.C2[5] *element.C2[2] - element.C2[8] * element.C2[1] ) * rJ2,
-                (element.C2[1] *element.C2[2] - element.C2[4] * element.C2[5] ) * rJ2,
-                (element.C2[1] *element.C2[5] - element.C2[0] * element.C2[2] ) * rJ2,
+                (element.C2[1] *element.C2[2] - element.C2[0] * element.C2[5] ) * rJ2,
+                (element.C2[1] *element.C2[5] - element.C2[4] * element.C2[2] ) * rJ2,
             };
 
             SIMD C05 = load1(.5);
-- 
2.43.0


From dfcf987b75899df4455380ff4511d520b213a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 32/36] fix: dirichlet preconditioner wrote out of memory for
 domains without interior DOFs

---
 src/feti/preconditioner/dirichlet.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/feti/preconditioner/dirichlet.cpp b/src/feti/preconditioner/dirichlet.cpp
index 78b1f63..82361a2 100644
--- a/src/feti/preconditioner/dirichlet.cpp
+++ b/src/feti/preconditioner/dirichlet.cpp
@@ -62,7 +62,16 @@ void Dirichlet<T>::update(const step::Step &step)
                     indices[d].push_back(i);
                 }
             }
-            if (DirectSparseSolver<T>::provideSC()) {
+            if (indices[d].size() == permutation.size()) { // there is nothing to eliminate
+                Matrix_Dense<T> full;
+                math::copy(full, feti.K[d]);
+                sc[d].resize(full.nrows, full.ncols);
+                for (int r = 0, i = 0; r < full.nrows; ++r) {
+                    for (int c = r; c < full.ncols; ++c, ++i) {
+                        sc[d].vals[i] = full.vals[r * full.ncols + c];
+                    }
+                }
+            } else if (DirectSparseSolver<T>::provideSC()) {
                 DirectSparseSolver<T> Ksolver;
                 Ksolver.commit(feti.K[d]);
                 sc[d].resize(indices[d].size(), indices[d].size());
-- 
2.43.0


From ad3a92e30cf8ea5acbc3000c7251ee3a6098fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 33/36] fix: face matching read nodes behind faces with
 different number of nodes

---
 src/mesh/element.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/element.cpp b/src/mesh/element.cpp
index 371dcca..7810908 100644
--- a/src/mesh/element.cpp
+++ b/src/mesh/element.cpp
@@ -21,6 +21,9 @@ int Element::getIndex(edata<esint> &enodes, serializededata<int, int> *subindice
 {
     int index = 0;
     for (auto subi = subindices->cbegin(); subi != subindices->cend(); ++subi, ++index) {
+        if (subi->size() != subnodes.size()) {
+            continue; // a face with a different shape
+        }
         int nsize = subpointers->datatarray()[index]->coarseNodes;
         for (int n = 0; n < nsize; n++) {
             if (subnodes[n] == enodes[*subi->begin()]) { // find the same node
-- 
2.43.0


From 5c873551fc8d9a565fd09d5fe5d82c6617012f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:33 +0000
Subject: [PATCH 34/36] fix: dense matrices with an empty dimension had zero
 leading dimension (BLAS refused to compute)

---
 src/math/primitives_new/matrix_dense_data_new.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math/primitives_new/matrix_dense_data_new.h b/src/math/primitives_new/matrix_dense_data_new.h
index 6a9b6c6..d9f8c10 100644
--- a/src/math/primitives_new/matrix_dense_data_new.h
+++ b/src/math/primitives_new/matrix_dense_data_new.h
@@ -4,6 +4,8 @@
 
 #include "math/primitives_new/matrix_dense_view_new.h"
 
+#include <algorithm>
+
 
 
 namespace espreso {
@@ -53,7 +55,7 @@ public:
         size_t align = ator->get_align();
         if(align % sizeof(T) != 0) eslog::error("incompatible allocator alignment and sizeof(T)\n");
         align /= sizeof(T);
-        ld = ((this->get_size_secdary() - 1) / align + 1) * align;
+        ld = std::max<size_t>((this->get_size_secdary() + align - 1) / align, 1) * align;
         was_set = true;
     }
     void alloc()
-- 
2.43.0


From 49335f664caaa736ddeebf85445097c91cff28fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:39 +0000
Subject: [PATCH 35/36] fix: residual of explicit and Moore-Penrose operators
 was computed from uninitialized memory

---
 src/feti/dualoperator/totalfeti.explicit.cpp      | 9 +++++++++
 src/feti/dualoperator/totalfeti.explicit.h        | 1 +
 src/feti/dualoperator/totalfeti.moore.penrose.cpp | 9 +++++++++
 src/feti/dualoperator/totalfeti.moore.penrose.h   | 1 +
 4 files changed, 20 insertions(+)

diff --git a/src/feti/dualoperator/totalfeti.explicit.cpp b/src/feti/dualoperator/totalfeti.explicit.cpp
index 2e74076..7230b8b 100644
--- a/src/feti/dualoperator/totalfeti.explicit.cpp
+++ b/src/feti/dualoperator/totalfeti.explicit.cpp
@@ -221,6 +221,15 @@ void TotalFETIExplicit<T>::toPrimal(const Vector_Dual<T> &x, std::vector<Vector_
     }
 }
 
+template <typename T>
+void TotalFETIExplicit<T>::BtL(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y)
+{
+    #pragma omp parallel for
+    for (size_t di = 0; di < feti.K.size(); ++di) {
+        applyBt(feti, di, x, y[di]);
+    }
+}
+
 template <typename T>
 void TotalFETIExplicit<T>::print(const step::Step &step)
 {
diff --git a/src/feti/dualoperator/totalfeti.explicit.h b/src/feti/dualoperator/totalfeti.explicit.h
index 5d759b1..571c8a7 100644
--- a/src/feti/dualoperator/totalfeti.explicit.h
+++ b/src/feti/dualoperator/totalfeti.explicit.h
@@ -35,6 +35,7 @@ public:
 
     // y = K+(f - Bt * x)
     void toPrimal(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y) override;
+    void BtL(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y) override;
 
 protected:
     void _apply(const Vector_Dual<T> &x, Vector_Dual<T> &y);
diff --git a/src/feti/dualoperator/totalfeti.moore.penrose.cpp b/src/feti/dualoperator/totalfeti.moore.penrose.cpp
index 95c6569..baa45f0 100644
--- a/src/feti/dualoperator/totalfeti.moore.penrose.cpp
+++ b/src/feti/dualoperator/totalfeti.moore.penrose.cpp
@@ -128,6 +128,15 @@ void TotalFETIMoorePenrose<T>::toPrimal(const Vector_Dual<T> &x, std::vector<Vec
     }
 }
 
+template <typename T>
+void TotalFETIMoorePenrose<T>::BtL(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y)
+{
+    #pragma omp parallel for
+    for (size_t di = 0; di < feti.K.size(); ++di) {
+        applyBt(feti, di, x, y[di]);
+    }
+}
+
 template class TotalFETIMoorePenrose<double>;
 
 }
diff --git a/src/feti/dualoperator/totalfeti.moore.penrose.h b/src/feti/dualoperator/totalfeti.moore.penrose.h
index 70e9901..81fac9b 100644
--- a/src/feti/dualoperator/totalfeti.moore.penrose.h
+++ b/src/feti/dualoperator/totalfeti.moore.penrose.h
@@ -24,6 +24,7 @@ public:
 
     // y = K+(f - Bt * x)
     void toPrimal(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y) override;
+    void BtL(const Vector_Dual<T> &x, std::vector<Vector_Dense<T> > &y) override;
 
 protected:
     using DualOperator<T>::feti;
-- 
2.43.0


From 044553b03e6930bbc7c61183531d8cbb2bfb1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:26 +0000
Subject: [PATCH 36/36] fix: dirichlet preconditioner corrupted memory for
 domains with mutually uncoupled interior DOFs

---
 src/feti/preconditioner/dirichlet.cpp | 44 ++++++++++++++++++++++-----
 src/feti/preconditioner/dirichlet.h   |  1 +
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/src/feti/preconditioner/dirichlet.cpp b/src/feti/preconditioner/dirichlet.cpp
index 82361a2..da73980 100644
--- a/src/feti/preconditioner/dirichlet.cpp
+++ b/src/feti/preconditioner/dirichlet.cpp
@@ -62,15 +62,16 @@ void Dirichlet<T>::update(const step::Step &step)
                     indices[d].push_back(i);
                 }
             }
-            if (indices[d].size() == permutation.size()) { // there is nothing to eliminate
-                Matrix_Dense<T> full;
-                math::copy(full, feti.K[d]);
-                sc[d].resize(full.nrows, full.ncols);
-                for (int r = 0, i = 0; r < full.nrows; ++r) {
-                    for (int c = r; c < full.ncols; ++c, ++i) {
-                        sc[d].vals[i] = full.vals[r * full.ncols + c];
-                    }
+            bool coupled = false; // MKL PARDISO reads uninitialized memory if interior DOFs are not coupled
+            for (int r = 0; r < feti.K[d].nrows; ++r) {
+                for (int c = feti.K[d].rows[r] - Indexing::CSR; c < feti.K[d].rows[r + 1] - Indexing::CSR && permutation[r] == 0; ++c) {
+                    int col = feti.K[d].cols[c] - Indexing::CSR;
+                    coupled |= col != r && permutation[col] == 0;
                 }
+            }
+            if (!coupled) {
+                sc[d].resize(indices[d].size(), indices[d].size());
+                _diagonal(feti.K[d], sc[d], permutation, indices[d]);
             } else if (DirectSparseSolver<T>::provideSC()) {
                 DirectSparseSolver<T> Ksolver;
                 Ksolver.commit(feti.K[d]);
@@ -107,6 +108,33 @@ void Dirichlet<T>::apply(const Vector_Dual<T> &x, Vector_Dual<T> &y)
     y.synchronize();
 }
 
+// the interior block is diagonal (or empty)
+template <typename T>
+void Dirichlet<T>::_diagonal(Matrix_CSR<T> &K, Matrix_Dense<T> &sc, const std::vector<int> &permutation, const std::vector<int> &indices)
+{
+    Matrix_Dense<T> full;
+    math::copy(full, K);
+    auto at = [&] (int r, int c) -> T& {
+        return K.shape == Matrix_Shape::UPPER && c < r ? full.vals[c * full.ncols + r] : full.vals[r * full.ncols + c];
+    };
+
+    for (size_t i = 0; i < permutation.size(); ++i) {
+        if (permutation[i] == 0) {
+            for (size_t r = 0; r < indices.size(); ++r) {
+                T scale = at(indices[r], i) / at(i, i);
+                for (size_t c = r; c < indices.size(); ++c) {
+                    at(indices[r], indices[c]) -= scale * at(i, indices[c]);
+                }
+            }
+        }
+    }
+    for (size_t r = 0, i = 0; r < indices.size(); ++r) {
+        for (size_t c = r; c < indices.size(); ++c, ++i) {
+            sc.vals[i] = at(indices[r], indices[c]);
+        }
+    }
+}
+
 template <typename T>
 void Dirichlet<T>::_manual(Matrix_CSR<T> &K, Matrix_Dense<T> &sc, std::vector<int> &permutation)
 {
diff --git a/src/feti/preconditioner/dirichlet.h b/src/feti/preconditioner/dirichlet.h
index a84b031..faafb47 100644
--- a/src/feti/preconditioner/dirichlet.h
+++ b/src/feti/preconditioner/dirichlet.h
@@ -18,6 +18,7 @@ struct Dirichlet: public Preconditioner<T> {
     void apply(const Vector_Dual<T> &x, Vector_Dual<T> &y) override;
 
 protected:
+    void _diagonal(Matrix_CSR<T> &K, Matrix_Dense<T> &sc, const std::vector<int> &permutation, const std::vector<int> &indices);
     void _manual(Matrix_CSR<T> &K, Matrix_Dense<T> &sc, std::vector<int> &permutation);
     void _print(const step::Step &step);
 
-- 
2.43.0

