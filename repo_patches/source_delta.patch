From 4176944abe668746c57cfc0fdccb0f64b03023ac Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 001/105] fix: Range: make the inequality with a value the
 negation of the equality

---
 lib/Modeling/Range.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/Range.cpp b/lib/Modeling/Range.cpp
index 0eb8da9..fc56a50 100644
--- a/lib/Modeling/Range.cpp
+++ b/lib/Modeling/Range.cpp
@@ -20,7 +20,7 @@ bool Range::operator==(const Range &other) const {
 }
 
 bool Range::operator!=(Range::data_type other) const {
-  return getBegin() != other && getEnd() != other + 1;
+  return !(*this == other);
 }
 
 bool Range::operator!=(const Range &other) const {
-- 
2.43.0


From 2103bdc69b6dff80b29e7220d81608c6a257b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 002/105] fix: RTree: consider equal two empty trees whatever
 the ranks they were given

---
 include/marco/Modeling/RTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 47318da..0fda290 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -548,7 +548,8 @@ public:
 
   virtual bool operator==(const RTreeCRTP &other) const {
     if (rank() != other.rank()) {
-      return false;
+      // The rank is irrelevant if there are no elements.
+      return empty() && other.empty();
     }
 
     return contains(other) && other.contains(*this);
-- 
2.43.0


From 07467427c4cabf5443ef242dc83c6511dcf4839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 003/105] fix: IndexSet: detect all the overlaps among the
 ranges a set is built from

---
 lib/Modeling/IndexSet.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index e872d07..79cd827 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -150,6 +150,7 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
 
   // Ensure that the ranges don't overlap.
   llvm::SmallVector<MultidimensionalRange> nonOverlappingRanges;
+  size_t possibleOverlapIndex = 0;
 
   for (const MultidimensionalRange &current : sorted) {
     if (nonOverlappingRanges.empty()) {
@@ -157,13 +158,17 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
       continue;
     }
 
-    size_t possibleOverlapIndex = nonOverlappingRanges.size();
+    // The ranges are visited by increasing beginning of the first dimension.
+    // Therefore, the processed ranges ending before the beginning of the
+    // current one can overlap neither with it nor with the following ones.
+    auto possibleOverlapIt = std::partition(
+        std::next(nonOverlappingRanges.begin(), possibleOverlapIndex),
+        nonOverlappingRanges.end(), [&](const MultidimensionalRange &range) {
+          return range[0].getEnd() <= current[0].getBegin();
+        });
 
-    while (possibleOverlapIndex > 0 &&
-           current.anyDimensionOverlaps(
-               nonOverlappingRanges[possibleOverlapIndex - 1])) {
-      --possibleOverlapIndex;
-    }
+    possibleOverlapIndex =
+        std::distance(nonOverlappingRanges.begin(), possibleOverlapIt);
 
     llvm::SmallVector<MultidimensionalRange> differences;
     differences.push_back(current);
@@ -185,12 +190,10 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
     }
 
     llvm::append_range(nonOverlappingRanges, std::move(differences));
-
-    llvm::sort(
-        std::next(std::begin(nonOverlappingRanges), possibleOverlapIndex),
-        std::end(nonOverlappingRanges));
   }
 
+  llvm::sort(nonOverlappingRanges);
+
   assert(llvm::none_of(nonOverlappingRanges,
                        [&](const MultidimensionalRange &range) {
                          for (const MultidimensionalRange &other :
-- 
2.43.0


From 6ba8c09b1dee35663a5d235eeb1011c5205744cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 004/105] fix: RTree: do not lose objects nor use deleted nodes
 when removing

---
 include/marco/Modeling/RTree.h | 191 ++++++++++++++++-----------------
 lib/Modeling/IndexSet.cpp      |  37 +++----
 2 files changed, 108 insertions(+), 120 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 0fda290..e1ee85e 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -637,28 +637,16 @@ public:
     }
 
     const MultidimensionalRange &shape = getShape(obj);
-    llvm::SmallVector<Node *> overlappingLeafNodes;
 
-    walkOverlappingLeafNodes(
-        shape, [&](Node &node) { overlappingLeafNodes.push_back(&node); });
+    auto shouldBeRemoved = [&](const Object &object) {
+      return RTreeInfo<T>::isEqual(obj, *object);
+    };
 
-    for (Node *node : overlappingLeafNodes) {
-      bool modified = false;
-      llvm::SmallVector<Object> newObjects;
-
-      for (Object &object : node->objects) {
-        if (RTreeInfo<T>::isEqual(obj, *object)) {
-          modified = true;
-        } else {
-          newObjects.push_back(std::move(object));
-        }
-      }
-
-      node->objects = std::move(newObjects);
-
-      if (modified) {
-        adjustTree(node);
-      }
+    // Adjusting the tree may relocate objects and delete nodes. Therefore, the
+    // leaves to be modified are searched again after each modification.
+    while (Node *node = findOverlappingLeafNode(shape, shouldBeRemoved)) {
+      llvm::erase_if(node->objects, shouldBeRemoved);
+      adjustTree(node);
     }
   }
 
@@ -669,7 +657,9 @@ public:
 
     using OverlappingNodePair = std::pair<const Node *, const Node *>;
     llvm::SmallVector<OverlappingNodePair> overlappingNodePairs;
-    llvm::SmallVector<std::reference_wrapper<const Object>> overlappingObjects;
+
+    // The objects are copied because the other tree may be this one.
+    llvm::SmallVector<T> overlappingObjects;
 
     const Node *lhsRoot = getRoot();
     const Node *rhsRoot = other.getRoot();
@@ -690,7 +680,7 @@ public:
           for (const Object &lhsObject : lhs->objects) {
             for (const Object &rhsObject : rhs->objects) {
               if (lhsObject.getBoundary().overlaps(rhsObject.getBoundary())) {
-                overlappingObjects.emplace_back(rhsObject);
+                overlappingObjects.push_back(*rhsObject);
               }
             }
           }
@@ -710,8 +700,8 @@ public:
       }
     }
 
-    for (const Object &overlappingObject : overlappingObjects) {
-      remove(*overlappingObject);
+    for (const T &overlappingObject : overlappingObjects) {
+      remove(overlappingObject);
     }
 
     assert(isValid());
@@ -901,6 +891,39 @@ protected:
     }
   }
 
+  /// Get a leaf node having, among the objects it stores, at least one whose
+  /// boundary overlaps with the range and which respects the condition.
+  /// Return a null pointer if there is no such node.
+  Node *findOverlappingLeafNode(
+      const MultidimensionalRange &range,
+      llvm::function_ref<bool(const Object &)> condition) {
+    llvm::SmallVector<Node *> nodes;
+
+    if (getRoot()) {
+      nodes.push_back(getRoot());
+    }
+
+    while (!nodes.empty()) {
+      Node *node = nodes.pop_back_val();
+
+      if (!node->getBoundary().overlaps(range)) {
+        continue;
+      }
+
+      if (llvm::any_of(node->objects, [&](const Object &object) {
+            return object.getBoundary().overlaps(range) && condition(object);
+          })) {
+        return node;
+      }
+
+      for (auto &child : llvm::reverse(node->children)) {
+        nodes.push_back(child.get());
+      }
+    }
+
+    return nullptr;
+  }
+
   /// Select a leaf node in which to place a new entry.
   static Node *chooseLeaf(Node *searchRoot,
                           const MultidimensionalRange &entryBoundary) {
@@ -1042,95 +1065,63 @@ protected:
     return result;
   }
 
-  /// Collapse a node and its ancestors, if needed. The remaining objects and
-  /// subtrees are relocated.
+  /// Collapse a node and its ancestors, if needed. The objects they hold are
+  /// inserted again into the tree.
   void collapseNodeAndPropagate(Node *node) {
-    if (node->isRoot()) {
-      return;
-    }
-
-    // Additional nodes to be collapsed may be obtained during the process.
-    llvm::SmallVector<Node *> nodesToCollapse;
-    nodesToCollapse.push_back(node);
-
-    while (!nodesToCollapse.empty()) {
-      node = nodesToCollapse.pop_back_val();
+    llvm::SmallVector<Object> objectsToRelocate;
 
+    while (!node->isRoot() && node->fanOut() < minElements) {
       // Move the objects out of the node being removed.
-      // This is done only once, as the nodes that will be possibly visited
-      // later will not be leaves.
-      llvm::SmallVector<Object> objectsToRelocate = std::move(node->objects);
+      moveObjects(*node, objectsToRelocate);
 
-      while (!node->isRoot() && node->fanOut() < minElements) {
-        // The nodes to be relocated.
-        llvm::SmallVector<std::unique_ptr<Node>> nodesToRelocate;
+      // Remove the node from the list of children of the parent.
+      // The node itself will be erased, and any usage of 'node' will be
+      // invalid. Therefore, we need to store the reference to the parent
+      // elsewhere.
+      Node *parent = node->getParent();
+      removeChild(parent, node);
 
-        // Move the objects out of the node being removed.
-        for (auto &child : node->children) {
-          nodesToRelocate.push_back(std::move(child));
-        }
-
-        // Remove the node from the list of children of the parent.
-        // The node itself will be erased, and any usage of 'node' will be
-        // invalid. Therefore, we need to store the reference to the parent
-        // elsewhere.
-        Node *parent = node->getParent();
-        removeChild(parent, node);
-
-        // Relocate the orphaned objects.
-        if (!objectsToRelocate.empty() && !parent->children.empty()) {
-          for (Object &object : objectsToRelocate) {
-            // Find the new position.
-            Node *destination = chooseLeaf(parent, object.getBoundary());
-
-            // Add the value to the leaf node.
-            destination->add(std::move(object));
-            postObjectInsertionHook(*destination);
-
-            if (destination->fanOut() > maxElements) {
-              // Split the node.
-              splitNodeAndPropagate(destination);
-            } else if (destination->fanOut() < minElements) {
-              // Schedule the node for removal.
-              nodesToCollapse.push_back(destination);
-            } else {
-              updateBoundaries(destination);
-            }
-          }
+      // Move towards the root of the tree.
+      node = parent;
+    }
 
-          objectsToRelocate.clear();
-        }
+    if (node->fanOut() == 0) {
+      assert(node->isRoot());
+      setRoot(nullptr);
+    } else {
+      updateBoundaries(node);
 
-        // Relocate the orphaned nodes.
-        for (auto &nodeToRelocate : nodesToRelocate) {
-          // Find the new position.
-          Node *destination = chooseDestinationNode(
-              parent->children, nodeToRelocate->getBoundary());
+      while (getRoot()->children.size() == 1) {
+        setRoot(std::move(getRoot()->children.front()));
+      }
+    }
 
-          // Add the value to the leaf node.
-          destination->add(std::move(nodeToRelocate));
+    // Relocate the orphaned objects.
+    for (Object &object : objectsToRelocate) {
+      if (!getRoot()) {
+        setRoot(std::make_unique<Node>(nullptr, object.getBoundary()));
+      }
 
-          if (destination->fanOut() > maxElements) {
-            // Split the node.
-            splitNodeAndPropagate(destination);
-          } else {
-            updateBoundaries(destination);
-          }
-        }
+      // Find the new position.
+      Node *destination = chooseLeaf(getRoot(), object.getBoundary());
 
-        // Move towards the root of the tree.
-        node = parent;
-      }
+      // Add the value to the leaf node.
+      destination->add(std::move(object));
+      postObjectInsertionHook(*destination);
 
-      // Update the boundaries.
-      updateBoundaries(node);
+      // Split and collapse nodes, if necessary.
+      adjustTree(destination);
+    }
+  }
 
-      assert(objectsToRelocate.empty() &&
-             "Not all objects have been relocated");
+  /// Move all the objects of a subtree into a list.
+  static void moveObjects(Node &node, llvm::SmallVectorImpl<Object> &objects) {
+    for (auto &child : node.children) {
+      moveObjects(*child, objects);
+    }
 
-      if (getRoot() && getRoot()->children.size() == 1) {
-        setRoot(std::move(getRoot()->children.front()));
-      }
+    for (Object &object : node.objects) {
+      objects.push_back(std::move(object));
     }
   }
 
diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index 79cd827..0883245 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -320,32 +320,29 @@ void IndexSet::remove(const MultidimensionalRange &other) {
     return;
   }
 
-  llvm::SmallVector<Node *> overlappingNodes;
-
-  walkOverlappingLeafNodes(
-      other, [&](Node &node) { overlappingNodes.push_back(&node); });
-
-  for (Node *node : overlappingNodes) {
-    assert(node->isLeaf());
-    bool modified = false;
+  // Take the overlapping ranges out of the tree.
+  // Adjusting the tree may relocate ranges and delete nodes. Therefore, the
+  // leaves to be modified are searched again after each modification.
+  auto shouldBeRemoved = [&](const Object &object) {
+    return object->overlaps(other);
+  };
 
-    llvm::SmallVector<Object> differences;
+  llvm::SmallVector<MultidimensionalRange> differences;
 
-    for (Object &value : node->objects) {
-      if (value->overlaps(other)) {
-        modified = true;
-        llvm::append_range(differences, value->subtract(other));
-      } else {
-        differences.emplace_back(std::move(value));
+  while (Node *node = findOverlappingLeafNode(other, shouldBeRemoved)) {
+    for (const Object &object : node->objects) {
+      if (shouldBeRemoved(object)) {
+        llvm::append_range(differences, object->subtract(other));
       }
     }
 
-    node->objects = std::move(differences);
+    llvm::erase_if(node->objects, shouldBeRemoved);
+    adjustTree(node);
+  }
 
-    if (modified) {
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
-    }
+  // Insert back their remaining parts.
+  for (MultidimensionalRange &difference : differences) {
+    RTreeCRTP::insert(std::move(difference));
   }
 
   assert(isValid());
-- 
2.43.0


From 74d341d370ac042ad3306e974f81f2ed3db42cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 005/105] fix: IndexSet: descend into the overlapping children
 when checking for containment

---
 lib/Modeling/IndexSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index 0883245..2363cc0 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -554,7 +554,7 @@ bool IndexSet::contains(const IndexSet &other) const {
           } else {
             for (const auto &lhsChild : lhs->children) {
               if (lhsChild->getBoundary().overlaps(child->getBoundary())) {
-                childOverlappingNodes.push_back(lhs);
+                childOverlappingNodes.push_back(lhsChild.get());
                 anyOverlap = true;
               }
             }
-- 
2.43.0


From a66b2889c8221dd71fef1f3960e16bb4fcd5ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 006/105] fix: RTree: give each node enough elements when
 building the tree from a list

---
 include/marco/Modeling/RTree.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index e1ee85e..7baa516 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -813,7 +813,7 @@ protected:
       }
 
       for (size_t i = 0; i < remainingElements; ++i) {
-        nodes[i]->objects.push_back(
+        nodes[i % numOfGroups]->objects.push_back(
             std::move(objects[numOfGroups * minElements + i]));
       }
 
@@ -832,16 +832,20 @@ protected:
     while (nodes.size() > maxElements) {
       llvm::SmallVector<std::unique_ptr<Node>> newNodes;
 
-      for (size_t i = 0, e = nodes.size(); i < e; i += maxElements) {
+      // Distribute the nodes evenly, so that no parent gets less than the
+      // minimum amount of children.
+      size_t numOfParents = (nodes.size() + maxElements - 1) / maxElements;
+      size_t minChildren = nodes.size() / numOfParents;
+      size_t remainingNodes = nodes.size() % numOfParents;
+
+      for (size_t i = 0, pos = 0; i < numOfParents; ++i) {
         auto &parent = newNodes.emplace_back(
-            std::make_unique<Node>(nullptr, nodes[i]->getBoundary()));
+            std::make_unique<Node>(nullptr, nodes[pos]->getBoundary()));
 
-        for (size_t j = 0; j < maxElements; ++j) {
-          if (i + j >= e) {
-            break;
-          }
+        size_t numOfChildren = minChildren + (i < remainingNodes ? 1 : 0);
 
-          parent->add(std::move(nodes[i + j]));
+        for (size_t j = 0; j < numOfChildren; ++j) {
+          parent->add(std::move(nodes[pos++]));
         }
 
         parent->recalcBoundary();
-- 
2.43.0


From bb006d0168c67b8d8f5e88485355f8745dd5da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 007/105] fix: DimensionAccessDiv: round the quotients as the
 affine form does

---
 lib/Modeling/DimensionAccessDiv.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessDiv.cpp b/lib/Modeling/DimensionAccessDiv.cpp
index 814b389..e118ab5 100644
--- a/lib/Modeling/DimensionAccessDiv.cpp
+++ b/lib/Modeling/DimensionAccessDiv.cpp
@@ -1,4 +1,5 @@
 #include "marco/Modeling/DimensionAccessDiv.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/raw_ostream.h"
 
 using namespace ::marco::modeling;
@@ -128,7 +129,8 @@ IndexSet DimensionAccessDiv::map(
       coordinates.clear();
 
       for (size_t i = 0, e = mappedLhsPoint.rank(); i < e; ++i) {
-        coordinates.push_back(mappedLhsPoint[i] / mappedRhsPoint[i]);
+        coordinates.push_back(
+            llvm::divideFloorSigned(mappedLhsPoint[i], mappedRhsPoint[i]));
       }
 
       result += Point(coordinates);
-- 
2.43.0


From 359db0afbb937528098469dc2ab3311ad79779bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 008/105] fix: DimensionAccess: build accesses from affine
 expressions with a remainder

---
 lib/Modeling/DimensionAccess.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/Modeling/DimensionAccess.cpp b/lib/Modeling/DimensionAccess.cpp
index 22b1cc6..b3930d7 100644
--- a/lib/Modeling/DimensionAccess.cpp
+++ b/lib/Modeling/DimensionAccess.cpp
@@ -57,6 +57,14 @@ const DimensionAccess *DimensionAccess::Redirect::operator->() const {
   return dimensionAccess.get();
 }
 
+/// Express the remainder of a division, into which the affine simplifications
+/// may turn a subtraction, by means of the other operations.
+static std::unique_ptr<DimensionAccess>
+buildModulo(std::unique_ptr<DimensionAccess> lhs,
+            std::unique_ptr<DimensionAccess> rhs) {
+  return *lhs - *(*(*lhs / *rhs) * *rhs);
+}
+
 std::unique_ptr<DimensionAccess>
 DimensionAccess::build(mlir::AffineExpr expression) {
   if (auto constantExpr =
@@ -90,6 +98,11 @@ DimensionAccess::build(mlir::AffineExpr expression) {
           binaryExpr.getContext(), DimensionAccess::build(binaryExpr.getLHS()),
           DimensionAccess::build(binaryExpr.getRHS()));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      return buildModulo(DimensionAccess::build(binaryExpr.getLHS()),
+                         DimensionAccess::build(binaryExpr.getRHS()));
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
@@ -146,6 +159,13 @@ DimensionAccess::getDimensionAccessFromExtendedMap(
           DimensionAccess::getDimensionAccessFromExtendedMap(
               binaryExpr.getRHS(), fakeDimensionsMap));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      return buildModulo(DimensionAccess::getDimensionAccessFromExtendedMap(
+                             binaryExpr.getLHS(), fakeDimensionsMap),
+                         DimensionAccess::getDimensionAccessFromExtendedMap(
+                             binaryExpr.getRHS(), fakeDimensionsMap));
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
-- 
2.43.0


From 1624ce4e39046d9e4d9e7cfe66386e00ace9f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 009/105] fix: AccessFunction: keep the ranges and iteration
 spaces of the first access when combining

---
 lib/Modeling/AccessFunction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunction.cpp b/lib/Modeling/AccessFunction.cpp
index bb03705..fffd7dd 100644
--- a/lib/Modeling/AccessFunction.cpp
+++ b/lib/Modeling/AccessFunction.cpp
@@ -190,6 +190,10 @@ AccessFunction::combine(const AccessFunction &other) const {
     resultFakeDimensionsMap[lhsDimension] = rhsFakeDimensionsMap[rhsDimension];
   }
 
+  for (const auto &entry : lhsFakeDimensionsMap) {
+    resultFakeDimensionsMap[entry.getFirst()] = entry.getSecond();
+  }
+
   // Remove the additional dimensions.
   return AccessFunction::fromExtendedMap(combinedAffineMap,
                                          resultFakeDimensionsMap);
-- 
2.43.0


From 7f4b30db9d2f1ccbf4b60cb9226490cafff1c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 010/105] fix: AccessFunctionGeneric: map the dependent
 iteration spaces only once

---
 lib/Modeling/AccessFunctionGeneric.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 852d309..1e8ef95 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -219,6 +219,8 @@ IndexSet AccessFunctionGeneric::map(const Point &point) const {
   if (!iterationSpacesWithDependencies.empty()) {
     map(mappedIndices, point, iterationSpacesWithDependencies, 0,
         currentIterationSpacePoint);
+
+    return mappedIndices;
   }
 
   // No dependencies among iteration spaces.
@@ -249,6 +251,8 @@ void AccessFunctionGeneric::map(
       map(mappedIndices, point, iterationSpaces, currentIterationSpace + 1,
           currentIterationSpacePoint);
     }
+
+    return;
   }
 
   IndexSet currentMappedIndices;
-- 
2.43.0


From 765aee01390e201148a4adb14d3783f597daba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 011/105] fix: AccessFunctionGeneric: compare also the number
 of results and the dependencies of the iteration spaces

---
 lib/Modeling/AccessFunctionGeneric.cpp  | 3 ++-
 lib/Modeling/DimensionAccessIndices.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 1e8ef95..6566b31 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -75,7 +75,8 @@ bool AccessFunctionGeneric::operator==(const AccessFunction &other) const {
 
 bool AccessFunctionGeneric::operator==(
     const AccessFunctionGeneric &other) const {
-  if (numOfDimensions != other.numOfDimensions) {
+  if (numOfDimensions != other.numOfDimensions ||
+      getNumOfResults() != other.getNumOfResults()) {
     return false;
   }
 
diff --git a/lib/Modeling/DimensionAccessIndices.cpp b/lib/Modeling/DimensionAccessIndices.cpp
index 0499e55..00a44f5 100644
--- a/lib/Modeling/DimensionAccessIndices.cpp
+++ b/lib/Modeling/DimensionAccessIndices.cpp
@@ -27,7 +27,8 @@ bool DimensionAccessIndices::operator==(const DimensionAccess &other) const {
 
 bool DimensionAccessIndices::operator==(
     const DimensionAccessIndices &other) const {
-  return space == other.space && dimension == other.dimension;
+  return space == other.space && dimension == other.dimension &&
+         dimensionDependencies == other.dimensionDependencies;
 }
 
 bool DimensionAccessIndices::operator!=(const DimensionAccess &other) const {
-- 
2.43.0


From c255caf1e8599b3c5f38d6f9ba2e3bab7f11e383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 012/105] fix: AccessFunctionRotoTranslation: map exactly the
 indices when a dimension is used more than once

---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 682dbde..39487d9 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -183,6 +183,14 @@ AccessFunctionRotoTranslation::map(const MultidimensionalRange &indices) const {
 }
 
 IndexSet AccessFunctionRotoTranslation::map(const IndexSet &indices) const {
+  // When a dimension is used more than once, the image of a box is not a box.
+  llvm::SmallVector<size_t> usages;
+  countVariablesUsages(usages);
+
+  if (llvm::any_of(usages, [](size_t usage) { return usage > 1; })) {
+    return AccessFunctionAffineMap::map(indices);
+  }
+
   llvm::SmallVector<MultidimensionalRange> mapped;
 
   for (const MultidimensionalRange &range :
-- 
2.43.0


From 8758f2e6d4a17738a242eec54053c27c7da994a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:05 +0000
Subject: [PATCH 013/105] fix: AccessFunctionRotoTranslation: consider the
 constant accesses and the parent indices when mapping back

---
 .../AccessFunctionRotoTranslation.cpp         | 77 ++++++++-----------
 1 file changed, 30 insertions(+), 47 deletions(-)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 39487d9..373dc89 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -218,69 +218,48 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
     }
   }
 
-  // Try discarding the unused dimensions.
-  llvm::BitVector usedDimensions(getNumOfDims(), false);
-  llvm::BitVector usedResults(getNumOfResults(), false);
-
-  for (uint64_t res = 0, e = getNumOfResults(); res < e; ++res) {
-    if (auto usedDim = getInductionVariableIndex(res)) {
-      usedDimensions[*usedDim] = true;
-      usedResults[res] = true;
-    }
-  }
+  // Restrict the parent indices to the ones leading to the accessed indices.
+  llvm::SmallVector<MultidimensionalRange> mapped;
 
-  if (!usedDimensions.all() || !usedResults.all()) {
-    mlir::AffineMap reducedDimsMap = mlir::compressUnusedDims(getAffineMap());
-    llvm::SmallVector<mlir::AffineExpr> reducedResults;
+  for (const MultidimensionalRange &parentRange : llvm::make_range(
+           parentIndices.rangesBegin(), parentIndices.rangesEnd())) {
+    for (const MultidimensionalRange &accessedRange : llvm::make_range(
+             accessedIndices.rangesBegin(), accessedIndices.rangesEnd())) {
+      llvm::SmallVector<Range, 3> ranges;
 
-    for (mlir::AffineExpr result : reducedDimsMap.getResults()) {
-      if (!mlir::isa<mlir::AffineConstantExpr>(result)) {
-        reducedResults.push_back(result);
+      for (size_t dim = 0, e = parentRange.rank(); dim < e; ++dim) {
+        ranges.push_back(parentRange[dim]);
       }
-    }
 
-    reducedDimsMap = mlir::AffineMap::get(
-        reducedDimsMap.getNumDims(), reducedDimsMap.getNumSymbols(),
-        reducedResults, reducedDimsMap.getContext());
+      bool compatible = true;
 
-    auto reducedAccessFunction = AccessFunctionAffineMap::build(reducedDimsMap);
-    auto reducedParentIndices = parentIndices.slice(usedDimensions);
-    auto reducedAccessedIndices = accessedIndices.slice(usedResults);
+      for (size_t res = 0, e = getNumOfResults(); res < e && compatible;
+           ++res) {
+        const Range &accessed = accessedRange[res];
 
-    IndexSet reducedInverseMap = reducedAccessFunction->inverseMap(
-        reducedAccessedIndices, reducedParentIndices);
+        if (auto dim = getInductionVariableIndex(res)) {
+          int64_t offset = getOffset(res);
 
-    if (usedDimensions.all()) {
-      return reducedInverseMap;
-    }
+          Range requested(accessed.getBegin() - offset,
+                          accessed.getEnd() - offset);
 
-    // Insert the indices corresponding to the skipped dimensions.
-    llvm::SmallVector<MultidimensionalRange> mapped;
-
-    for (const MultidimensionalRange &parentRange : llvm::make_range(
-             parentIndices.rangesBegin(), parentIndices.rangesEnd())) {
-      for (const MultidimensionalRange &multidimRange :
-           llvm::make_range(reducedInverseMap.rangesBegin(),
-                            reducedInverseMap.rangesEnd())) {
-        llvm::SmallVector<Range, 3> ranges;
-        size_t usedDimPos = 0;
-
-        for (size_t dim = 0, e = getNumOfDims(); dim < e; ++dim) {
-          if (usedDimensions[dim]) {
-            ranges.push_back(multidimRange[usedDimPos++]);
-          } else {
-            ranges.push_back(parentRange[dim]);
+          compatible = ranges[*dim].overlaps(requested);
+
+          if (compatible) {
+            ranges[*dim] = ranges[*dim].intersect(requested);
           }
+        } else {
+          compatible = accessed.contains(getOffset(res));
         }
+      }
 
+      if (compatible) {
         mapped.push_back(MultidimensionalRange(ranges));
       }
     }
-
-    return {mapped};
   }
 
-  return AccessFunction::inverseMap(accessedIndices, parentIndices);
+  return {mapped};
 }
 
 bool AccessFunctionRotoTranslation::isIdentityLike() const {
@@ -363,6 +342,10 @@ AccessFunctionRotoTranslation::getOffset(mlir::AffineExpr expression) const {
     }
   }
 
+  if (auto constExpr = mlir::dyn_cast<mlir::AffineConstantExpr>(expression)) {
+    return constExpr.getValue();
+  }
+
   llvm_unreachable("Incompatible access expression");
   return 0;
 }
-- 
2.43.0


From bb973e64f8f0ff686e6f7fbfe8f2e4e806c80aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 014/105] fix: AccessFunction: map back the constant accesses
 also when other indices are requested

---
 lib/Modeling/AccessFunctionAffineConstant.cpp | 3 ++-
 lib/Modeling/AccessFunctionConstant.cpp       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/AccessFunctionAffineConstant.cpp b/lib/Modeling/AccessFunctionAffineConstant.cpp
index 06e702d..9809b02 100644
--- a/lib/Modeling/AccessFunctionAffineConstant.cpp
+++ b/lib/Modeling/AccessFunctionAffineConstant.cpp
@@ -89,7 +89,8 @@ AccessFunctionAffineConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if ((expectedAccessedIndices.empty() && accessedIndices.empty()) ||
+      expectedAccessedIndices.overlaps(accessedIndices)) {
     return parentIndices;
   }
 
diff --git a/lib/Modeling/AccessFunctionConstant.cpp b/lib/Modeling/AccessFunctionConstant.cpp
index fe7f6bd..b2b9681 100644
--- a/lib/Modeling/AccessFunctionConstant.cpp
+++ b/lib/Modeling/AccessFunctionConstant.cpp
@@ -65,7 +65,8 @@ AccessFunctionConstant::inverseMap(const IndexSet &accessedIndices,
     return {};
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  if ((expectedAccessedIndices.empty() && accessedIndices.empty()) ||
+      expectedAccessedIndices.overlaps(accessedIndices)) {
     return parentIndices;
   }
 
-- 
2.43.0


From f12b7d880afb0aa50ebff90896f8a66248661643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 015/105] fix: MCIM: keep the groups not involved in the
 clearing of a cell

---
 lib/Modeling/MCIM.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index ac67f56..5825d97 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -450,10 +450,10 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    if (group->unset(equation, variable)) {
-      if (!group->empty()) {
-        newGroups.push_back(std::move(group));
-      }
+    group->unset(equation, variable);
+
+    if (!group->empty()) {
+      newGroups.push_back(std::move(group));
     }
   }
 
-- 
2.43.0


From 58aa970cf42b8e6396f130f63b221b47079202c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 016/105] fix: MCIM: restrict the columns of the explicit
 points when changing the variable space

---
 lib/Modeling/MCIM.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 5825d97..120744c 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -187,14 +187,15 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
     llvm::SmallVector<Range> ranges;
 
     IndexSet intersection = newVariableSpace->intersect(
-        multidimRange.takeFirstDimensions(newVariableSpace->rank()));
+        multidimRange.takeLastDimensions(newVariableSpace->rank()));
+
+    MultidimensionalRange equations = multidimRange.takeFirstDimensions(
+        points.rank() - newVariableSpace->rank());
 
     for (const MultidimensionalRange &intersectionMultidimRange :
          llvm::make_range(intersection.rangesBegin(),
                           intersection.rangesEnd())) {
-      newPoints +=
-          intersectionMultidimRange.append(multidimRange.takeLastDimensions(
-              points.rank() - newVariableSpace->rank()));
+      newPoints += equations.append(intersectionMultidimRange);
     }
   }
 
-- 
2.43.0


From b509c809b63933278eb83e7283d267177f9ac22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 017/105] fix: MCIM: transfer the explicit points and restrict
 the columns when changing the spaces

---
 lib/Modeling/MCIM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 120744c..3f784cb 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -552,7 +552,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   MCIM result(newEquationSpace, newVariableSpace);
 
   auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
-    if (!getVariableSpace().contains(*newVariableSpace)) {
+    if (!newVariableSpace->contains(getVariableSpace())) {
       auto filteredGroup = group.filterValues(*newVariableSpace);
       return filteredGroup->getKeys().intersect(*newEquationSpace);
     }
@@ -570,7 +570,7 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
     }
   }
 
-  if (!result.points.empty()) {
+  if (!points.empty()) {
     result.points =
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
-- 
2.43.0


From 9aed2626d22f84a1d9696f193dfc7718abe6c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 018/105] fix: MCIM: remove exactly the cells of the other
 matrix when subtracting

---
 lib/Modeling/MCIM.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index 3f784cb..b7fd0bc 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -324,8 +324,18 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
           continue;
         }
 
-        IndexSet commonKeys = lhsKeys.intersect(rhsKeys);
-        group->removeKeys(commonKeys);
+        // Having both the accesses inside the common values is not sufficient:
+        // they must also coincide.
+        llvm::SmallVector<Point> removedKeys;
+
+        for (Point key : lhsKeys.intersect(rhsKeys)) {
+          if (group->getAccessFunction().map(key) ==
+              rhsGroup->getAccessFunction().map(key)) {
+            removedKeys.push_back(key);
+          }
+        }
+
+        group->removeKeys(IndexSet(removedKeys));
       }
     }
   }
@@ -356,6 +366,20 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
 
   points -= rhs.points;
 
+  // Remove the extra points that are covered by the groups.
+  llvm::SmallVector<Point> removedPoints;
+
+  for (Point point : points) {
+    Point equation = point.takeFront(getEquationSpace().rank());
+    Point variable = point.takeBack(getVariableSpace().rank());
+
+    if (rhs.get(equation, variable)) {
+      removedPoints.push_back(point);
+    }
+  }
+
+  points -= IndexSet(removedPoints);
+
   assert(std::all_of(rhs.indicesBegin(), rhs.indicesEnd(),
                      [&](std::pair<Point, Point> coordinates) {
                        if (rhs.get(coordinates.first, coordinates.second)) {
-- 
2.43.0


From 96330907b64334a9d2cc874718792b6a23324c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 019/105] fix: MCIMGroupGeneric: set and unset only the
 requested cell

---
 lib/Modeling/MCIMGroupGeneric.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/Modeling/MCIMGroupGeneric.cpp b/lib/Modeling/MCIMGroupGeneric.cpp
index 0ef8999..3daba34 100644
--- a/lib/Modeling/MCIMGroupGeneric.cpp
+++ b/lib/Modeling/MCIMGroupGeneric.cpp
@@ -54,17 +54,21 @@ bool MCIMGroupGeneric::has(const Point &key, const Point &value) const {
 }
 
 bool MCIMGroupGeneric::set(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  addKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (!getAccessFunction().map(key).contains(value)) {
+    return false;
+  }
+
+  addKeys(IndexSet(key));
+  return true;
 }
 
 bool MCIMGroupGeneric::unset(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  removeKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (!getAccessFunction().map(key).contains(value)) {
+    return false;
+  }
+
+  removeKeys(IndexSet(key));
+  return true;
 }
 
 std::unique_ptr<MCIMGroup>
-- 
2.43.0


From b5dbd59f4c871491de143cdb6b53ae855df2375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 020/105] fix: MCIM: store explicitly the cells of the accesses
 leading to multiple indices

---
 lib/Modeling/MCIM.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index b7fd0bc..253bb66 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -412,6 +412,20 @@ void MCIM::apply(const MultidimensionalRange &equations,
 void MCIM::apply(const IndexSet &equations, const AccessFunction &access) {
   assert(getEquationSpace().contains(equations));
 
+  if (!access.isAffine()) {
+    // The access may lead to multiple variable indices for each equation index,
+    // while a group can only hold all of them or none.
+    for (Point equation : equations) {
+      IndexSet variables = access.map(equation).intersect(getVariableSpace());
+
+      if (!variables.empty()) {
+        points += IndexSet(equation).append(variables);
+      }
+    }
+
+    return;
+  }
+
   IndexSet filteredEquations = access.inverseMap(
       access.map(equations).intersect(getVariableSpace()), equations);
 
-- 
2.43.0


From f7268ac5f4411097ef3b83cd1c346f6638544e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 021/105] fix: VAFSolutions: do not skip access functions

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index cf72495..6426ca4 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -400,7 +400,6 @@ void VAFSolutions::fetchNext() {
   if (generator == nullptr) {
     if (currentAccessFunction < accessFunctions.size()) {
       generator = getGenerator(*accessFunctions[currentAccessFunction++]);
-      ++currentAccessFunction;
     }
   }
 
-- 
2.43.0


From b22bb56be710677fb67095400eec287c56e501e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 022/105] fix: VAFSolutions: use a strict ordering for the
 access functions

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 6426ca4..171d487 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -454,7 +454,7 @@ bool VAFSolutions::compareAccessFunctions(
   size_t lhsUniqueUsages = llvm::count_if(lhsUsages, counter);
   size_t rhsUniqueUsages = llvm::count_if(rhsUsages, counter);
 
-  return lhsUniqueUsages >= rhsUniqueUsages;
+  return lhsUniqueUsages > rhsUniqueUsages;
 }
 
 size_t
-- 
2.43.0


From df3900338cea5a63df6db81581b898d7546ec20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 023/105] fix: VAFSolutions: count the solutions of the
 constant accesses to multiple indices

---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index 171d487..c376334 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -487,7 +487,7 @@ VAFSolutions::getSolutionsAmount(const AccessFunctionAffineConstant &) const {
 
 size_t VAFSolutions::getSolutionsAmount(
     const AccessFunctionConstant &accessFunction) const {
-  return equationIndices->size() * accessFunction.map(IndexSet()).size();
+  return equationIndices->size() * accessFunction.map(*equationIndices).size();
 }
 
 size_t VAFSolutions::getSolutionsAmount(
-- 
2.43.0


From 9a74e4ad81a1ef7ea11985942a9ad3eb0a4943ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:56 +0000
Subject: [PATCH 024/105] fix: Graph: allow iterating on the linked vertices
 with a filter

---
 include/marco/Modeling/Graph.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/marco/Modeling/Graph.h b/include/marco/Modeling/Graph.h
index 3940429..21bb0d8 100644
--- a/include/marco/Modeling/Graph.h
+++ b/include/marco/Modeling/Graph.h
@@ -501,11 +501,14 @@ private:
   using BaseEdgeIterator = typename GraphTraits::BaseEdgeIterator;
 
 public:
-  using iterator_category = std::forward_iterator_tag;
+  using iterator_category = std::input_iterator_tag;
   using value_type = VertexDescriptor;
   using difference_type = std::ptrdiff_t;
   using pointer = VertexDescriptor *;
-  using reference = VertexDescriptor &;
+
+  // Input iterator does not require the 'reference' type to be an actual
+  // reference.
+  using reference = VertexDescriptor;
 
 private:
   LinkedVerticesIterator(const Graph &graph, BaseEdgeIterator current)
-- 
2.43.0


From 9883fdc80914139ac28a94284619690f04bcba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:56 +0000
Subject: [PATCH 025/105] fix: Graph: store only once the undirected edges from
 a vertex to itself

---
 include/marco/Modeling/Graph.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/marco/Modeling/Graph.h b/include/marco/Modeling/Graph.h
index 21bb0d8..01c7b16 100644
--- a/include/marco/Modeling/Graph.h
+++ b/include/marco/Modeling/Graph.h
@@ -656,11 +656,8 @@ public:
 
   /// Get the number of edges.
   size_t edgesCount() const {
-    if (directed) {
-      return edges.size();
-    }
-
-    return edges.size() / 2;
+    // The property is shared among the two wrappers of an undirected edge.
+    return edgeProperties.size();
   }
 
   /// Add a vertex to the graph.
@@ -686,12 +683,12 @@ public:
       for (Edge *incomingEdge : incomingEdges.second) {
         otherVertex.removeEdge(*incomingEdge);
 
-        if (directed) {
+        if (directed || &otherVertex == &vertex) {
           // Deallocate the edge property only in case of directed graph. In
           // case of undirected graph, the edge property will be deallocated
           // while visiting the outgoing edges (in an undirected graph the edge
           // property is shared between the wrapper, and a double deallocation
-          // would otherwise occur).
+          // would otherwise occur). Self-loops consist of just one wrapper.
           edgeProperties.remove(**incomingEdge);
           delete **incomingEdge;
         }
@@ -785,9 +782,9 @@ public:
     assert(edgeInsertion);
     dest.addIncomingEdge(&src, ptr);
 
-    if (!directed) {
+    if (!directed && &src != &dest) {
       // If the graph is undirected, add also the edge going from the
-      // destination to the source.
+      // destination to the source, unless they are the same vertex.
       auto *inversePtr = new Edge(src, edgeProperty);
       edges.insert(inversePtr);
 
-- 
2.43.0


From 35bd9808eee2048b3382a4d0a3cbc3985717ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:30 +0000
Subject: [PATCH 026/105] fix: Matching: skip the leaf nodes whose only edge
 has been removed

---
 include/marco/Modeling/Matching.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index e8c3bc2..8fdb91b 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -1898,6 +1898,14 @@ private:
         continue;
       }
 
+      if (getVertexVisibilityDegreeUpTo(v1, 1) == 0) {
+        // The only incident edge of the current node has been removed while
+        // processing the opposite node, which has been matched only in part.
+
+        LLVM_DEBUG(llvm::dbgs() << "First vertex without visible edges\n");
+        continue;
+      }
+
       EdgeDescriptor edgeDescriptor = getFirstOutVisibleEdge(v1);
       Edge &edge = getBaseGraph()[edgeDescriptor];
 
-- 
2.43.0


From fe27e63e8411ef706e07633dc4f4fd3ea3cb11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:29 +0000
Subject: [PATCH 027/105] fix: Matching: remember all the indices an augmenting
 path traverses on a node

---
 include/marco/Modeling/Matching.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index 8fdb91b..b373471 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -2350,7 +2350,7 @@ protected:
                 newVisits[curStep->getNode()] += touchedIndices;
               }
             } else {
-              newVisits[curStep->getNode()] = std::move(touchedIndices);
+              newVisits[curStep->getNode()] += touchedIndices;
             }
 
             // Move backwards inside the candidate augmenting path.
-- 
2.43.0


From 05c8125bdd5d519fef83649f6730d038a3b5bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 028/105] fix: DependencyGraph: keep the indices of the paths
 within the equations and the read indices

---
 include/marco/Modeling/DependencyGraph.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 1a76155..b6c772b 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -674,7 +674,8 @@ private:
           variableIndices, allEquationIndices);
     }
 
-    return writingEquationIndices;
+    // The inverse accesses may lead outside the equation.
+    return writingEquationIndices.intersect(allEquationIndices);
   }
 
   void restrictPathIndicesForward(Path &path, size_t startingPoint) const {
@@ -688,8 +689,10 @@ private:
 
       // Compute the indices of the equation that lead to that write access.
       IndexSet newEquationIndices =
-          current->writeAccess.getAccessFunction().inverseMap(
-              current->writtenVariableIndices, current->equationIndices);
+          current->writeAccess.getAccessFunction()
+              .inverseMap(current->writtenVariableIndices,
+                          current->equationIndices)
+              .intersect(current->equationIndices);
 
       if (newEquationIndices == current->equationIndices) {
         // Stop iterating through the path.
@@ -714,13 +717,17 @@ private:
 
       // Propagate the indices written by the current equation as the indices
       // read by the equation preceding in the path.
-      current->readVariableIndices = previous->writtenVariableIndices;
+      current->readVariableIndices = current->readVariableIndices.intersect(
+          previous->writtenVariableIndices);
 
       // Compute the indices of the equation that lead to that read access.
       const Access &readAccess = current->readAccess;
 
-      IndexSet newEquationIndices = readAccess.getAccessFunction().inverseMap(
-          current->readVariableIndices, current->equationIndices);
+      IndexSet newEquationIndices =
+          readAccess.getAccessFunction()
+              .inverseMap(current->readVariableIndices,
+                          current->equationIndices)
+              .intersect(current->equationIndices);
 
       if (newEquationIndices == current->equationIndices) {
         // Stop iterating through the path.
-- 
2.43.0


From ad9f0a95e73b6fa7d8c78ce720b0556d01a844a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 029/105] fix: DependencyGraph: close the cycles only through
 written indices and distinct equations

---
 include/marco/Modeling/DependencyGraph.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index b6c772b..9e56173 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -760,14 +760,16 @@ private:
             return false;
           }
 
-          return dependency.equationIndices.overlaps(nextEquationIndices);
+          return dependency.equationIndices.overlaps(nextEquationIndices) &&
+                 dependency.writtenVariableIndices.overlaps(
+                     path.back().readVariableIndices);
         });
 
     if (dependencyIt != path.end()) {
       // Check if the path involves more than one array equation.
       bool isSelfLoop = std::all_of(
           dependencyIt, path.end(), [&](const PathDependency &dependency) {
-            return dependency.equation == path.begin()->equation;
+            return dependency.equation == nextEquation;
           });
 
       if (!isSelfLoop) {
-- 
2.43.0


From 449c3eb398dcef57fd5d3708c192f794a2893cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 030/105] fix: DependencyGraph: do not visit endlessly the
 equations depending on themselves

---
 include/marco/Modeling/DependencyGraph.h | 26 +++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 9e56173..95a3535 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -488,8 +488,6 @@ private:
         }
       }
     }
-
-    return true;
   }
 
   void getEquationsCycles(
@@ -509,17 +507,32 @@ private:
       return;
     }
 
+    llvm::SmallVector<EquationView> ancestors;
+
     getEquationsCycles(cycles, writesMap, cachedWriteAccesses,
-                       cachedReadAccesses, visitedEquationIndices, equation,
-                       unvisitedEquationIndices, {});
+                       cachedReadAccesses, visitedEquationIndices, ancestors,
+                       equation, unvisitedEquationIndices, {});
   }
 
   void getEquationsCycles(
       llvm::SmallVectorImpl<Path> &cycles, const WritesMap &writesMap,
       CachedAccesses &cachedWriteAccesses, CachedAccesses &cachedReadAccesses,
       llvm::DenseMap<EquationDescriptor, IndexSet> &visitedEquationIndices,
+      llvm::SmallVectorImpl<EquationView> &ancestors,
       EquationDescriptor equation, const IndexSet &equationIndices,
       Path path) const {
+    // Visiting again the same indices along the same path would lead to the
+    // same cycles. It may also never terminate, because the equations depending
+    // only on themselves do not lead to cycles.
+    if (llvm::any_of(ancestors, [&](const EquationView &ancestor) {
+          return *ancestor == equation &&
+                 ancestor.getIndices() == equationIndices;
+        })) {
+      return;
+    }
+
+    ancestors.push_back(EquationView(equation, equationIndices));
+
     // Visit all the write accesses. When the indices of the equation get
     // restricted, the written indices may differ and even not overlap anymore.
     // We keep track of the visited indices to avoid going through access
@@ -651,12 +664,15 @@ private:
 
                 getEquationsCycles(cycles, writesMap, cachedWriteAccesses,
                                    cachedReadAccesses, visitedEquationIndices,
-                                   writingEquation, writingEquationIndices,
+                                   ancestors, writingEquation,
+                                   writingEquationIndices,
                                    std::move(extendedPath));
               });
         }
       }
     }
+
+    ancestors.pop_back();
   }
 
   /// Compute the indices of an equation that lead to a write to the given
-- 
2.43.0


From 86a12f40f4a67baffbbf6a6865575c3682f2fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 031/105] fix: DependencyGraph: compute the SCCs on the actual
 dependencies among the partitions

---
 include/marco/Modeling/DependencyGraph.h | 154 +++++++++++++----------
 1 file changed, 91 insertions(+), 63 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 95a3535..807d7d4 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -203,6 +203,7 @@ public:
   using Variable = typename ArrayDependencyGraph::Variable;
   using Equation = typename ArrayDependencyGraph::Equation;
 
+  using VariableId = typename ArrayDependencyGraph::VariableId;
   using EquationDescriptor = typename ArrayDependencyGraph::EquationDescriptor;
 
   using AccessProperty = typename ArrayDependencyGraph::AccessProperty;
@@ -380,45 +381,27 @@ public:
         addCycleAndSplit(partitionedCycles, std::move(cycle));
       }
 
-      assert(checkEquationsPartitioning(partitionedCycles) &&
-             "Found overlapping and non-equal equation indices");
-
       using PartitionsGraph =
           internal::dependency::SingleEntryWeaklyConnectedDigraph<EquationView>;
 
-      using Partition = typename PartitionsGraph::VertexDescriptor;
       PartitionsGraph partitionsGraph;
-      llvm::DenseMap<EquationView, Partition> partitionsMap;
-
-      // Add the nodes.
-      for (const Path &path : partitionedCycles) {
-        for (const PathDependency &pathDependency : path) {
-          EquationView equationView(pathDependency.equation,
-                                    pathDependency.equationIndices);
 
-          if (!partitionsMap.contains(equationView)) {
-            auto vertexDescriptor = partitionsGraph.addVertex(equationView);
-            partitionsMap[equationView] = vertexDescriptor;
-          }
+      // Add the nodes. The indices of each equation are partitioned according
+      // to the cycles they belong to.
+      for (const EquationDescriptor &equation : scc) {
+        for (IndexSet &indices :
+             getEquationPartitions(equation, partitionedCycles)) {
+          partitionsGraph.addVertex(EquationView(equation, std::move(indices)));
         }
       }
 
-      // Add the edges.
-      for (const Path &path : partitionedCycles) {
-        EquationView first(path[0].equation, path[0].equationIndices);
-        EquationView source = first;
-
-        for (size_t i = 1, e = path.size(); i < e; ++i) {
-          EquationView destination(path[i].equation, path[i].equationIndices);
-          partitionsGraph.addEdge(partitionsMap[source],
-                                  partitionsMap[destination]);
-          source = std::move(destination);
-        }
-
-        partitionsGraph.addEdge(partitionsMap[source], partitionsMap[first]);
-      }
+      // Add the edges. The cycles are not sufficient for this purpose, because
+      // the indices belonging to a cycle are not visited again in order to
+      // search for other cycles.
+      addPartitionsEdges(partitionsGraph, cachedWriteAccesses,
+                         cachedReadAccesses);
 
-      // Create the cyclic SCCs.
+      // Create the SCCs.
       auto sccBeginIt = llvm::scc_begin(
           static_cast<const PartitionsGraph *>(&partitionsGraph));
 
@@ -439,22 +422,6 @@ public:
           result.push_back(std::move(partitionsSCC));
         }
       }
-
-      // Create the SCCs for the remaining indices.
-      for (const EquationDescriptor &equation : scc) {
-        IndexSet remainingEquationIndices =
-            arrayDependencyGraph.getEquation(equation).getIterationRanges();
-
-        remainingEquationIndices -= visitedEquationIndices[equation];
-
-        if (!remainingEquationIndices.empty()) {
-          std::lock_guard<std::mutex> lock(resultMutex);
-          SCC &remainingIndicesSCC = result.emplace_back();
-
-          remainingIndicesSCC.addEquation(
-              EquationView(equation, std::move(remainingEquationIndices)));
-        }
-      }
     };
 
     mlir::parallelForEach(getContext(), SCCs, processFn);
@@ -462,29 +429,90 @@ public:
   }
 
 private:
-  [[maybe_unused, nodiscard]] bool
-  checkEquationsPartitioning(llvm::ArrayRef<Path> cycles) const {
-    auto checkEquationFn = [&](EquationDescriptor equation,
-                               const IndexSet &indices) {
-      for (const Path &path : cycles) {
-        for (const PathDependency &pathDependency : path) {
-          if (pathDependency.equation == equation) {
-            if (pathDependency.equationIndices.overlaps(indices) &&
-                pathDependency.equationIndices != indices) {
-              return false;
-            }
+  /// Partition the indices of an equation, so that each partition is either
+  /// contained in or disjoint from the indices of each path dependency.
+  llvm::SmallVector<IndexSet>
+  getEquationPartitions(EquationDescriptor equation,
+                        llvm::ArrayRef<Path> paths) const {
+    llvm::SmallVector<IndexSet> partitions;
+
+    partitions.push_back(
+        arrayDependencyGraph.getEquation(equation).getIterationRanges());
+
+    for (const Path &path : paths) {
+      for (const PathDependency &pathDependency : path) {
+        if (pathDependency.equation != equation) {
+          continue;
+        }
+
+        llvm::SmallVector<IndexSet> newPartitions;
+
+        for (const IndexSet &partition : partitions) {
+          IndexSet common =
+              partition.intersect(pathDependency.equationIndices);
+
+          IndexSet difference = partition - common;
+
+          if (!common.empty()) {
+            newPartitions.push_back(std::move(common));
+          }
+
+          if (!difference.empty()) {
+            newPartitions.push_back(std::move(difference));
           }
         }
+
+        partitions = std::move(newPartitions);
       }
+    }
+
+    return partitions;
+  }
 
-      return true;
+  /// Add an edge among two partitions if the first one accesses to the elements
+  /// of a variable that are written by the second one.
+  template <typename PartitionsGraph>
+  void addPartitionsEdges(PartitionsGraph &partitionsGraph,
+                          CachedAccesses &cachedWriteAccesses,
+                          CachedAccesses &cachedReadAccesses) const {
+    using Partition = typename PartitionsGraph::VertexDescriptor;
+    using IndicesMap = llvm::MapVector<VariableId, IndexSet>;
+
+    auto collectIndices = [](IndicesMap &result, const EquationView &view,
+                             llvm::ArrayRef<Access> accesses) {
+      for (const Access &access : accesses) {
+        result[access.getVariable()] +=
+            access.getAccessFunction().map(view.getIndices());
+      }
     };
 
-    for (const Path &path : cycles) {
-      for (const PathDependency &pathDependency : path) {
-        if (!checkEquationFn(pathDependency.equation,
-                             pathDependency.equationIndices)) {
-          return false;
+    llvm::SmallVector<Partition> partitions(partitionsGraph.verticesBegin(),
+                                            partitionsGraph.verticesEnd());
+
+    llvm::SmallVector<IndicesMap> writtenIndices;
+
+    for (Partition partition : partitions) {
+      const EquationView &view = partitionsGraph[partition];
+      collectIndices(writtenIndices.emplace_back(), view,
+                     cachedWriteAccesses[*view]);
+    }
+
+    for (size_t source = 0, e = partitions.size(); source < e; ++source) {
+      const EquationView &view = partitionsGraph[partitions[source]];
+      IndicesMap accessedIndices(writtenIndices[source]);
+      collectIndices(accessedIndices, view, cachedReadAccesses[*view]);
+
+      for (size_t destination = 0; destination < e; ++destination) {
+        if (source == destination) {
+          continue;
+        }
+
+        if (llvm::any_of(writtenIndices[destination], [&](const auto &entry) {
+              auto it = accessedIndices.find(entry.first);
+              return it != accessedIndices.end() &&
+                     it->second.overlaps(entry.second);
+            })) {
+          partitionsGraph.addEdge(partitions[source], partitions[destination]);
         }
       }
     }
-- 
2.43.0


From 494990858006f092bbc03e22fbd6688f046bfab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 032/105] fix: ScalarEquationsDependencyGraph: consider the
 reads of multiple elements

---
 include/marco/Modeling/ScalarEquationsDependencyGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/ScalarEquationsDependencyGraph.h b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
index 040c75f..6827381 100644
--- a/include/marco/Modeling/ScalarEquationsDependencyGraph.h
+++ b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
@@ -271,7 +271,7 @@ private:
                 const MultidimensionalRange &writtenIndices =
                     writeInfo.getWrittenVariableIndices();
 
-                if (readIndices == writtenIndices) {
+                if (readIndices.overlaps(writtenIndices)) {
                   std::lock_guard edgeLockGuard(graphMutex);
                   graph->addEdge(equationDescriptor, writeInfo.getEquation());
                 }
-- 
2.43.0


From dfcd86874b24e1ae9dbd7c0a58202bec5d640ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 033/105] fix: lexer: preserve the value of the numbers with
 many digits

---
 include/marco/Lexer/FloatLexer.h         | 102 ++++++++++++++++-------
 include/marco/Lexer/IntegerLexer.h       |  19 ++++-
 lib/Parser/BaseModelica/StateMachine.cpp |   6 ++
 3 files changed, 92 insertions(+), 35 deletions(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index fc012bc..1c29d25 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -3,6 +3,8 @@
 
 #include "marco/Lexer/IntegerLexer.h"
 #include <cmath>
+#include <cstdint>
+#include <limits>
 
 namespace marco::lexer {
 /// Used to build floats in the form upper.lower * (base ^ exponent) as
@@ -11,25 +13,29 @@ template <unsigned int Base>
 class FloatLexer {
 public:
   /// Concatenate the number to the integer part.
-  void addUpper(int i) { upperPart += i; }
+  void addUpper(int i) {
+    upperPart += i;
 
-  /// Concatenate the number to the rational part.
-  void addLower(int i) {
-    lowerPart += i;
-
-    if (i != 0) {
-      leadingZero = false;
+    if (!addToMantissa(i)) {
+      // The digit is not significant, but it still occupies a position.
+      ++scale;
     }
+  }
 
-    if (leadingZero) {
-      ++fractionalLeadingZeros;
+  /// Concatenate the number to the rational part.
+  void addLower(int i) {
+    if (addToMantissa(i)) {
+      --scale;
     }
   }
 
   /// Concatenate the number to the exponent part.
   void addExponential(int i) {
     hasExponential = true;
-    exponential += i;
+
+    if (exponential < maxExponent) {
+      exponential = exponential * Base + i;
+    }
   }
 
   /// Set the exponent sign to + if true, - if false.
@@ -41,49 +47,81 @@ public:
   /// Return the X part to make it compatible with the IntegerLexer.
   int64_t getUpperPart() const { return upperPart.get(); }
 
+  /// Return whether the X part is too large to be represented.
+  bool hasUpperPartOverflowed() const { return upperPart.hasOverflowed(); }
+
   /// Returns upper.lower * (base ^ (sign * exponent)).
   double get() const {
-    int64_t mantissaNormalizer = 1;
-
-    while (mantissaNormalizer <= lowerPart.get()) {
-      mantissaNormalizer *= Base;
+    if (mantissa == 0) {
+      return 0;
     }
 
-    double toReturn = upperPart.get();
-    toReturn += static_cast<double>(lowerPart.get()) /
-                (mantissaNormalizer * std::pow(Base, fractionalLeadingZeros));
-
-    auto exp = exponential.get();
+    int64_t exponent = scale;
 
-    if (!expSign) {
-      exp *= -1;
+    if (hasExponential) {
+      exponent += expSign ? exponential : -exponential;
     }
 
-    if (hasExponential) {
-      toReturn *= std::pow(Base, exp);
+    auto result = static_cast<long double>(mantissa);
+    auto base = static_cast<long double>(Base);
+
+    // Dividing by a power of the base is more accurate than multiplying by its
+    // inverse.
+    if (exponent < 0) {
+      result /= std::pow(base, static_cast<long double>(-exponent));
+    } else {
+      result *= std::pow(base, static_cast<long double>(exponent));
     }
 
-    return toReturn;
+    return static_cast<double>(result);
   }
 
   void reset() {
     upperPart.reset();
-    lowerPart.reset();
+    mantissa = 0;
+    mantissaFull = false;
+    scale = 0;
     hasExponential = false;
-    exponential.reset();
+    exponential = 0;
     expSign = true;
-    leadingZero = true;
-    fractionalLeadingZeros = 0;
   }
 
 private:
+  /// Add a digit to the mantissa. Return false if the mantissa already has
+  /// more digits than the ones which can influence the result.
+  bool addToMantissa(int i) {
+    if (mantissaFull ||
+        mantissa > (std::numeric_limits<uint64_t>::max() - i) / Base) {
+      mantissaFull = true;
+      return false;
+    }
+
+    mantissa = mantissa * Base + i;
+    return true;
+  }
+
+private:
+  /// Bound for the exponent, beyond which the result is anyway zero or not
+  /// representable. The lengths of the literals are negligible with respect to
+  /// it.
+  static constexpr int64_t maxExponent = 1000000000000;
+
   IntegerLexer<Base> upperPart;
-  IntegerLexer<Base> lowerPart;
+
+  /// The most significant digits, with no distinction between the ones of the
+  /// integer part and the ones of the rational part.
+  uint64_t mantissa = 0;
+
+  /// Whether the mantissa can not receive further digits.
+  bool mantissaFull = false;
+
+  /// The exponent to be applied to the mantissa in order to obtain the number
+  /// preceding the explicit exponent.
+  int64_t scale = 0;
+
   bool hasExponential = false;
-  IntegerLexer<Base> exponential;
+  int64_t exponential = 0;
   bool expSign = true;
-  bool leadingZero = true;
-  int fractionalLeadingZeros = 0;
 };
 } // namespace marco::lexer
 
diff --git a/include/marco/Lexer/IntegerLexer.h b/include/marco/Lexer/IntegerLexer.h
index 6b5c75d..b68c44d 100644
--- a/include/marco/Lexer/IntegerLexer.h
+++ b/include/marco/Lexer/IntegerLexer.h
@@ -17,18 +17,31 @@ public:
 
   /// Adds the next element to the integer.
   IntegerLexer operator+=(int i) {
-    value = value * Base;
-    value = value + i;
+    if (__builtin_mul_overflow(value, static_cast<int64_t>(Base), &value)) {
+      overflow = true;
+    }
+
+    if (__builtin_add_overflow(value, static_cast<int64_t>(i), &value)) {
+      overflow = true;
+    }
+
     return *this;
   }
 
   /// Returns the currently built value.
   int64_t get() const { return value; }
 
-  void reset() { value = 0; }
+  /// Returns whether the integer is too large to be represented.
+  bool hasOverflowed() const { return overflow; }
+
+  void reset() {
+    value = 0;
+    overflow = false;
+  }
 
 private:
   int64_t value;
+  bool overflow = false;
 };
 } // namespace marco::lexer
 
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 6f5c754..0dd254e 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -214,6 +214,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
   if (!isAcceptable(next)) {
     state = State::Normal;
+
+    if (numberLexer.hasUpperPartOverflowed()) {
+      error = "integer literal is too large to be represented";
+      return makeToken(TokenKind::Error, getError());
+    }
+
     return makeToken(TokenKind::Integer, getInt());
   }
 
-- 
2.43.0


From 4757f565938c77c85a567d8aa0699685666f2b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 034/105] fix: lexer: do not swallow the character following a
 real number

---
 lib/Parser/BaseModelica/StateMachine.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 0dd254e..0685646 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -187,6 +187,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
   }
 
   if (current == '.') {
+    if (!isDigit(next) && next != 'e' && next != 'E') {
+      // The number terminates with the dot.
+      state = State::Normal;
+      return makeToken(TokenKind::FloatingPoint, getFloat());
+    }
+
     state = State::ParsingFloat;
     return std::nullopt;
   }
@@ -248,6 +254,11 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
       state = State::ParsingFloatExponent;
       return std::nullopt;
     }
+
+    state = State::Normal;
+    setTokenEndPosition();
+    error = "missing exponent in floating point number";
+    return makeToken(TokenKind::Error, getError());
   }
 
   if (isDigit(next) || next == 'E' || next == 'e') {
-- 
2.43.0


From c727c1afefc27f1b55ea9050cdd941c3652fda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 035/105] fix: lexer: do not close a comment with the asterisk
 opening it

---
 include/marco/Parser/BaseModelica/StateMachine.h |  1 +
 lib/Parser/BaseModelica/StateMachine.cpp         | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/marco/Parser/BaseModelica/StateMachine.h b/include/marco/Parser/BaseModelica/StateMachine.h
index 17855dd..f9a1a03 100644
--- a/include/marco/Parser/BaseModelica/StateMachine.h
+++ b/include/marco/Parser/BaseModelica/StateMachine.h
@@ -39,6 +39,7 @@ public:
     ParsingFloatExponent,
     ParsingString,
     ParsingSingleLineComment,
+    ParsingMultiLineCommentBegin,
     ParsingMultiLineComment,
     ParsingBackSlash,
     ParsingQIdentifierBackSlash,
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 0685646..d012104 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -362,6 +362,15 @@ StateMachine::scan<StateMachine::State::ParsingSingleLineComment>() {
   return std::nullopt;
 }
 
+template <>
+std::optional<Token>
+StateMachine::scan<StateMachine::State::ParsingMultiLineCommentBegin>() {
+  // Skip the asterisk opening the comment, as it can't also close it.
+  setTokenEndPosition();
+  state = next == '\0' ? State::Normal : State::ParsingMultiLineComment;
+  return std::nullopt;
+}
+
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
@@ -535,7 +544,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::Normal>() {
   }
 
   if (current == '/' && next == '*') {
-    state = State::ParsingMultiLineComment;
+    state = State::ParsingMultiLineCommentBegin;
     return std::nullopt;
   }
 
@@ -680,6 +689,9 @@ std::optional<Token> StateMachine::step(char c) {
   case State::ParsingSingleLineComment:
     return scan<State::ParsingSingleLineComment>();
 
+  case State::ParsingMultiLineCommentBegin:
+    return scan<State::ParsingMultiLineCommentBegin>();
+
   case State::ParsingMultiLineComment:
     return scan<State::ParsingMultiLineComment>();
 
-- 
2.43.0


From c4d7718cead8d4ebee08201de40b0dc42f383317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 036/105] fix: parser: reject the tokens which can not start an
 expression

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3445248..b8402a6 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1439,7 +1439,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
 
-  } else if (lookahead[0].isa<TokenKind::Identifier>()) {
+  } else {
+    // Component reference, possibly being the callee of a function.
     TRY(identifier, parseComponentReference());
     loc.end = (*identifier)->getLocation().end;
 
@@ -1457,8 +1458,6 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     result = std::move(newResult);
   }
 
-  assert(result != nullptr);
-
   if (lookahead[0].isa<TokenKind::LSquare>()) {
     TRY(arraySubscripts, parseArraySubscripts());
     loc.end = arraySubscripts.value().getLocation().end;
-- 
2.43.0


From 7fdc5c4bda79abfad3afff86735cc4a71d1ffc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 037/105] fix: parser: accept the call statements with no
 arguments

---
 lib/Parser/BaseModelica/Parser.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index b8402a6..68ffde8 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -659,19 +659,17 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
 
   TRY(destination, parseComponentReference());
 
-  if (accept<TokenKind::LPar>()) {
+  if (lookahead[0].isa<TokenKind::LPar>()) {
     SourceRange loc = (*destination)->getLocation();
-    TRY(functionArguments, parseFunctionArguments());
-    EXPECT(TokenKind::RPar);
+    TRY(functionCallArgs, parseFunctionCallArgs());
 
-    auto callee = std::make_unique<ComponentReference>(loc);
-    loc.end = getLocation().end;
+    loc.end = functionCallArgs->getLocation().end;
     auto result = std::make_unique<CallStatement>(loc);
 
     {
       auto call = std::make_unique<Call>(loc);
       call->setCallee(std::move(*destination));
-      call->setArguments(functionArguments->getValue());
+      call->setArguments(functionCallArgs->getValue());
       result->setCall(std::move(call));
     }
 
-- 
2.43.0


From dc979aea049a80d095be3893d24c537288c7b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 038/105] fix: parser: do not loop endlessly on the unexpected
 tokens in a class

---
 lib/Parser/BaseModelica/Parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 68ffde8..695362a 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -296,7 +296,15 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
       for (auto &element : *elementList) {
         members.push_back(std::move(element));
       }
+
+      if (!elementList->empty()) {
+        continue;
+      }
     }
+
+    // The token can't start any of the class elements.
+    emitUnexpectedTokenError(lookahead[0], TokenKind::End);
+    return std::nullopt;
   }
 
   // Parse the optional 'external'-related information.
-- 
2.43.0


From 4e9f43ff59ecfa91f72574bbceb6ac13ba8867d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 039/105] fix: parser: use the keywords of the grammar for the
 when-equations and when-statements

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 695362a..a5fbe24 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1001,7 +1001,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenEquation() {
   }
 
   EXPECT(TokenKind::End);
-  EXPECT(TokenKind::If);
+  EXPECT(TokenKind::When);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<WhenEquation>(loc);
@@ -1025,7 +1025,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenStatement() {
   SourceRange loc = getLocation();
 
   TRY(condition, parseExpression());
-  EXPECT(TokenKind::Loop);
+  EXPECT(TokenKind::Then);
 
   std::vector<std::unique_ptr<ASTNode>> statements;
 
-- 
2.43.0


From 5080a3db065d839c4e9ed4b0bb63510932087be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 040/105] fix: parser: accept the initial algorithm sections

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index a5fbe24..e82a37d 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -526,14 +526,17 @@ Parser::parseElementReplaceable(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
+  SourceRange loc = lookahead[0].getLocation();
+  const bool initial = accept<TokenKind::Initial>();
   EXPECT(TokenKind::Algorithm);
-  SourceRange loc = getLocation();
+  loc.end = getLocation().end;
 
   llvm::SmallVector<std::unique_ptr<ASTNode>, 10> statements;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Public>() &&
          !lookahead[0].isa<TokenKind::Protected>() &&
+         !lookahead[0].isa<TokenKind::Initial>() &&
          !lookahead[0].isa<TokenKind::Equation>() &&
          !lookahead[0].isa<TokenKind::Algorithm>() &&
          !lookahead[0].isa<TokenKind::External>() &&
@@ -546,6 +549,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   }
 
   auto result = std::make_unique<Algorithm>(loc);
+  result->setInitial(initial);
   result->setStatements(statements);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
-- 
2.43.0


From 0468db7b1945fc355971dca3fa52df96a71b1225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 041/105] fix: parser: reject the element redeclarations
 instead of crashing

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index e82a37d..7114e8d 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -515,13 +515,15 @@ Parser::parseElementModification(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseElementRedeclaration() {
-  llvm_unreachable("Not implemented");
+  // TODO: not implemented yet.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
 ParseResult<std::unique_ptr<ASTNode>>
 Parser::parseElementReplaceable(bool each, bool final) {
-  llvm_unreachable("Not implemented");
+  // TODO: not implemented yet.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
-- 
2.43.0


From ea6377d73009c637958802d8fbeb4d2d451c5324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 042/105] fix: parser: check the tokens before retrieving their
 identifiers

---
 lib/Parser/BaseModelica/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 7114e8d..3897f61 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1888,8 +1888,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
   std::unique_ptr<ASTNode> result;
 
   const bool globalLookup = accept<TokenKind::Dot>();
-  const std::string name = lookahead[0].getString();
   EXPECT(TokenKind::Identifier);
+  const std::string name = getString();
   SourceRange loc = getLocation();
 
   if (name == "String") {
@@ -1909,9 +1909,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
     path.push_back(name);
 
     while (accept<TokenKind::Dot>()) {
-      loc.end = lookahead[0].getLocation().end;
-      path.push_back(lookahead[0].getString());
       EXPECT(TokenKind::Identifier);
+      loc.end = getLocation().end;
+      path.push_back(getString());
     }
 
     result = std::make_unique<UserDefinedType>(loc);
@@ -1958,8 +1958,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseTermModification() {
 
   do {
     accept<TokenKind::Each>();
-    const std::string lastIndentifier = lookahead[0].getString();
     EXPECT(TokenKind::Identifier);
+    const std::string lastIndentifier = getString();
     EXPECT(TokenKind::EqualityOperator);
 
     if (lastIndentifier == "start") {
-- 
2.43.0


From 57d8e7638ecfdddd33b00b19a8d2e7978b10495b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 043/105] fix: parser: allow the derivatives declarations only
 for the functions

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3897f61..64b7958 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -189,7 +189,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
 
   if (accept<TokenKind::EqualityOperator>()) {
     // Function derivative
-    assert(result->isa<StandardFunction>());
+    if (!result->isa<StandardFunction>()) {
+      emitUnexpectedTokenError(token, TokenKind::Identifier);
+      return std::nullopt;
+    }
+
     EXPECT(TokenKind::Der);
     EXPECT(TokenKind::LPar);
 
-- 
2.43.0


From 036822c4437ffa4eb9cada45c6a6291c216e557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 044/105] fix: parser: require the commas among the expressions
 of a tuple

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 64b7958..b9d2355 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1736,7 +1736,10 @@ Parser::parseOutputExpressionList() {
 
     TRY(expression, parseExpression());
     expressions.push_back(std::move(*expression));
-    accept<TokenKind::Comma>();
+
+    if (!lookahead[0].isa<TokenKind::RPar>()) {
+      EXPECT(TokenKind::Comma);
+    }
   }
 
   SourceRange loc = getCursorLocation();
-- 
2.43.0


From 68a80107c3eddfa2ae8962e056237db701c418f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 045/105] fix: parser: follow the grammar for the empty
 argument lists

---
 lib/Parser/BaseModelica/Parser.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index b9d2355..833125b 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -400,13 +400,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseExternalFunctionCall() {
   // Function arguments.
   llvm::SmallVector<std::unique_ptr<ASTNode>> args;
 
-  while (!lookahead[0].isa<TokenKind::RPar>()) {
-    TRY(arg, parseExpression());
-    args.push_back(std::move(*arg));
-
-    if (!lookahead[0].isa<TokenKind::RPar>()) {
-      EXPECT(TokenKind::Comma);
-    }
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    do {
+      TRY(arg, parseExpression());
+      args.push_back(std::move(*arg));
+    } while (accept<TokenKind::Comma>());
   }
 
   result->setArguments(std::move(args));
@@ -451,12 +449,18 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseModification() {
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassModification() {
   EXPECT(TokenKind::LPar);
   SourceRange loc = getLocation();
-  TRY(argumentList, parseArgumentList());
+  std::vector<std::unique_ptr<ASTNode>> arguments;
+
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    TRY(argumentList, parseArgumentList());
+    arguments = std::move(**argumentList);
+  }
+
   EXPECT(TokenKind::RPar);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<ClassModification>(loc);
-  result->setArguments(**argumentList);
+  result->setArguments(arguments);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
 
-- 
2.43.0


From 9050b6a98532f520f69dc175bc2a1bb41b95fc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 046/105] fix: parser: accept the array dimensions starting
 with an integer

---
 lib/Parser/BaseModelica/Parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 833125b..b5de28b 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1946,16 +1946,20 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseArrayDimension() {
-  const SourceRange loc = lookahead[0].getLocation();
+  SourceRange loc = lookahead[0].getLocation();
   auto result = std::make_unique<ArrayDimension>(loc);
 
   if (accept<TokenKind::Colon>()) {
     result->setSize(-1);
-  } else if (lookahead[0].isa<TokenKind::Integer>()) {
+  } else if (lookahead[0].isa<TokenKind::Integer>() &&
+             (lookahead[1].isa<TokenKind::Comma>() ||
+              lookahead[1].isa<TokenKind::RSquare>())) {
     result->setSize(lookahead[0].getInt());
     EXPECT(TokenKind::Integer);
   } else {
     TRY(expression, parseExpression());
+    loc.end = (*expression)->getLocation().end;
+    result->setLocation(loc);
     result->setSize(std::move(*expression));
   }
 
-- 
2.43.0


From 2395bef90a3f320f7491704b8342e2aa7b4e10ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 047/105] fix: parser: accept all the kinds of inner classes
 and the annotations following the members

---
 lib/Parser/BaseModelica/Parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index b5de28b..ed3a0bb 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -266,7 +266,10 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
         lookahead[0].isa<TokenKind::Function>() ||
         lookahead[0].isa<TokenKind::Model>() ||
         lookahead[0].isa<TokenKind::Package>() ||
-        lookahead[0].isa<TokenKind::Record>()) {
+        lookahead[0].isa<TokenKind::Record>() ||
+        lookahead[0].isa<TokenKind::Operator>() ||
+        lookahead[0].isa<TokenKind::Pure>() ||
+        lookahead[0].isa<TokenKind::Impure>()) {
       TRY(innerClass, parseClassDefinition());
       innerClasses.emplace_back(std::move(*innerClass));
       continue;
@@ -1816,7 +1819,11 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::Model>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
-         !lookahead[0].isa<TokenKind::External>()) {
+         !lookahead[0].isa<TokenKind::Operator>() &&
+         !lookahead[0].isa<TokenKind::Pure>() &&
+         !lookahead[0].isa<TokenKind::Impure>() &&
+         !lookahead[0].isa<TokenKind::External>() &&
+         !lookahead[0].isa<TokenKind::Annotation>()) {
     TRY(member, parseElement(publicSection));
     EXPECT(TokenKind::Semicolon);
     members.push_back(std::move(*member));
-- 
2.43.0


From 035f58e3a58d374e930b54a85bcdfe0689c05eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 048/105] fix: parser: locations of the nodes

---
 lib/Parser/BaseModelica/Parser.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index ed3a0bb..3501de9 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -568,9 +568,10 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseEquationSection() {
-  const SourceRange loc = lookahead[0].getLocation();
+  SourceRange loc = lookahead[0].getLocation();
   const bool initial = accept<TokenKind::Initial>();
   EXPECT(TokenKind::Equation);
+  loc.end = getLocation().end;
 
   llvm::SmallVector<std::unique_ptr<ASTNode>> equations;
 
@@ -584,6 +585,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseEquationSection() {
          !lookahead[0].isa<TokenKind::End>()) {
     TRY(equation, parseEquation());
     EXPECT(TokenKind::Semicolon);
+    loc.end = getLocation().end;
     equations.push_back(std::move(*equation));
   }
 
@@ -660,19 +662,21 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
   if (accept<TokenKind::LPar>()) {
     SourceRange loc = getLocation();
     TRY(destinations, parseOutputExpressionList());
-    loc.end = destinations->getLocation().end;
+    EXPECT(TokenKind::RPar);
+    loc.end = getLocation().end;
 
     auto destinationsTuple = std::make_unique<Tuple>(loc);
     destinationsTuple->setExpressions(**destinations);
 
-    EXPECT(TokenKind::RPar);
     EXPECT(TokenKind::AssignmentOperator);
     TRY(function, parseComponentReference());
+    SourceRange callLoc = (*function)->getLocation();
     TRY(functionCallArgs, parseFunctionCallArgs());
 
-    loc.end = functionCallArgs->getLocation().end;
+    callLoc.end = functionCallArgs->getLocation().end;
+    loc.end = callLoc.end;
 
-    auto call = std::make_unique<Call>(loc);
+    auto call = std::make_unique<Call>(callLoc);
     call->setCallee(std::move(*function));
     call->setArguments(functionCallArgs->getValue());
 
@@ -829,7 +833,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseIfStatement() {
       elseIfStatementsBlockLoc.end = stmnt->getLocation().end;
     }
 
-    auto elseIfBlock = std::make_unique<StatementsBlock>(statementsBlockLoc);
+    auto elseIfBlock = std::make_unique<StatementsBlock>(elseIfStatementsBlockLoc);
     elseIfBlock->setBody(elseIfStatements);
     loc.end = elseIfBlock->getLocation().end;
     elseIfBlocks.push_back(std::move(elseIfBlock));
@@ -1338,8 +1342,7 @@ WrappedParseResult<OperationKind> Parser::parseMulOperator() {
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseFactor() {
   TRY(primary, parsePrimary());
-  SourceRange loc = getLocation();
-  loc.end = (*primary)->getLocation().end;
+  SourceRange loc = (*primary)->getLocation();
 
   auto result = std::move(*primary);
 
@@ -1582,12 +1585,11 @@ Parser::parseFunctionArguments() {
     EXPECT(TokenKind::For);
     TRY(forIndices, parseForIndices());
 
-    auto reductionArg = std::make_unique<ReductionFunctionArgument>(
-        (*firstArgExpression)->getLocation());
-
-    SourceRange loc = reductionArg->getLocation();
+    SourceRange loc = (*firstArgExpression)->getLocation();
     loc.end = (*forIndices).getLocation().end;
 
+    auto reductionArg = std::make_unique<ReductionFunctionArgument>(loc);
+
     reductionArg->setExpression(std::move(*firstArgExpression));
     reductionArg->setForIndices(forIndices->getValue());
     arguments.push_back(std::move(reductionArg));
-- 
2.43.0


From 719106f571020c1afb57df9177d881c6cda64c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 049/105] fix: AST: store the equations of the additional
 branches in the proper container

---
 lib/AST/BaseModelica/IfEquation.cpp   | 4 ++--
 lib/AST/BaseModelica/WhenEquation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/IfEquation.cpp b/lib/AST/BaseModelica/IfEquation.cpp
index 4f9b0c4..9a96319 100644
--- a/lib/AST/BaseModelica/IfEquation.cpp
+++ b/lib/AST/BaseModelica/IfEquation.cpp
@@ -156,8 +156,8 @@ const Equation *IfEquation::getElseIfEquation(size_t condition,
 
 void IfEquation::setElseIfEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > ifEquations.size()) {
-    ifEquations.resize(condition + 1);
+  if (condition >= elseIfEquations.size()) {
+    elseIfEquations.resize(condition + 1);
   }
 
   elseIfEquations[condition].clear();
diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e537bfc..e90afc6 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -158,8 +158,8 @@ const Equation *WhenEquation::getElseWhenEquation(size_t condition,
 
 void WhenEquation::setElseWhenEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > whenEquations.size()) {
-    whenEquations.resize(condition + 1);
+  if (condition >= elseWhenEquations.size()) {
+    elseWhenEquations.resize(condition + 1);
   }
 
   elseWhenEquations[condition].clear();
-- 
2.43.0


From d3b6c3f1b59956162c325105fadcc94ae28023cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 050/105] fix: AST: kind of the when-equations

---
 lib/AST/BaseModelica/WhenEquation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e90afc6..c62d2be 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -6,7 +6,7 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 WhenEquation::WhenEquation(SourceRange location)
-    : Equation(ASTNodeKind::Equation_If, std::move(location)) {}
+    : Equation(ASTNodeKind::Equation_When, std::move(location)) {}
 
 WhenEquation::WhenEquation(const WhenEquation &other) : Equation(other) {
   setWhenCondition(other.whenCondition->clone());
-- 
2.43.0


From b06bc6ecf88f2a8dbeeaa2dd184057e24cb27e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 051/105] fix: AST: parent of the arguments of the copied class
 modifications

---
 lib/AST/BaseModelica/Modification.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index fbedeba..3e0bbdd 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -120,16 +120,11 @@ bool Modification::getEachProperty() const {
 
 ClassModification::ClassModification(SourceRange location)
     : ASTNode(ASTNodeKind::ClassModification, std::move(location)) {
-  for (const auto &arg : arguments) {
-    this->arguments.push_back(arg->clone());
-  }
 }
 
 ClassModification::ClassModification(const ClassModification &other)
     : ASTNode(other) {
-  for (const auto &arg : other.arguments) {
-    this->arguments.push_back(arg->clone());
-  }
+  setArguments(other.arguments);
 }
 
 ClassModification::~ClassModification() = default;
-- 
2.43.0


From f174d6a7c0248f1f37f2586743bda83e0a6a915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 052/105] fix: AST: export all the properties and children of
 the nodes

---
 lib/AST/BaseModelica/ASTNode.cpp              | 6 ++++++
 lib/AST/BaseModelica/CallStatement.cpp        | 2 +-
 lib/AST/BaseModelica/Class.cpp                | 4 ++++
 lib/AST/BaseModelica/ExternalFunctionCall.cpp | 2 +-
 lib/AST/BaseModelica/Function.cpp             | 6 ++----
 lib/AST/BaseModelica/IfStatement.cpp          | 3 +++
 lib/AST/BaseModelica/Model.cpp                | 1 +
 lib/AST/BaseModelica/Package.cpp              | 1 +
 lib/AST/BaseModelica/Record.cpp               | 1 +
 lib/AST/BaseModelica/Type.cpp                 | 2 ++
 lib/AST/BaseModelica/WhenStatement.cpp        | 1 +
 lib/AST/BaseModelica/WhileStatement.cpp       | 1 +
 12 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/lib/AST/BaseModelica/ASTNode.cpp b/lib/AST/BaseModelica/ASTNode.cpp
index 1a3515c..7e13876 100644
--- a/lib/AST/BaseModelica/ASTNode.cpp
+++ b/lib/AST/BaseModelica/ASTNode.cpp
@@ -57,10 +57,14 @@ static std::string toString(ASTNodeKind kind) {
     return "constant";
   case ASTNodeKind::Expression_Operation:
     return "operation";
+  case ASTNodeKind::Expression_Reduction:
+    return "reduction";
   case ASTNodeKind::Expression_Subscript:
     return "subscript";
   case ASTNodeKind::Expression_Tuple:
     return "tuple";
+  case ASTNodeKind::ExternalFunctionCall:
+    return "external_function_call";
   case ASTNodeKind::ForIndex:
     return "for_index";
   case ASTNodeKind::FunctionArgument_Expression:
@@ -77,6 +81,8 @@ static std::string toString(ASTNodeKind kind) {
     return "assignment_statement";
   case ASTNodeKind::Statement_Break:
     return "break_statement";
+  case ASTNodeKind::Statement_Call:
+    return "call_statement";
   case ASTNodeKind::Statement_For:
     return "for_statement";
   case ASTNodeKind::Statement_If:
diff --git a/lib/AST/BaseModelica/CallStatement.cpp b/lib/AST/BaseModelica/CallStatement.cpp
index bcf5520..664d321 100644
--- a/lib/AST/BaseModelica/CallStatement.cpp
+++ b/lib/AST/BaseModelica/CallStatement.cpp
@@ -21,7 +21,7 @@ llvm::json::Value CallStatement::toJSON() const {
 
   result["call"] = getCall()->toJSON();
 
-  addJSONProperties(result);
+  addNodeKindToJSON(*this, result);
   return result;
 }
 
diff --git a/lib/AST/BaseModelica/Class.cpp b/lib/AST/BaseModelica/Class.cpp
index 9692b83..cfffe71 100644
--- a/lib/AST/BaseModelica/Class.cpp
+++ b/lib/AST/BaseModelica/Class.cpp
@@ -80,6 +80,10 @@ void Class::addJSONProperties(llvm::json::Object &obj) const {
     }
   }
 
+  if (hasAnnotation()) {
+    obj["annotation"] = getAnnotation()->toJSON();
+  }
+
   ASTNode::addJSONProperties(obj);
 }
 
diff --git a/lib/AST/BaseModelica/ExternalFunctionCall.cpp b/lib/AST/BaseModelica/ExternalFunctionCall.cpp
index d780164..74dc112 100644
--- a/lib/AST/BaseModelica/ExternalFunctionCall.cpp
+++ b/lib/AST/BaseModelica/ExternalFunctionCall.cpp
@@ -39,7 +39,7 @@ llvm::json::Value ExternalFunctionCall::toJSON() const {
 
   result["args"] = llvm::json::Array(argsJson);
 
-  addJSONProperties(result);
+  addNodeKindToJSON(*this, result);
   return result;
 }
 
diff --git a/lib/AST/BaseModelica/Function.cpp b/lib/AST/BaseModelica/Function.cpp
index a85b835..5a694ae 100644
--- a/lib/AST/BaseModelica/Function.cpp
+++ b/lib/AST/BaseModelica/Function.cpp
@@ -63,6 +63,7 @@ llvm::json::Value PartialDerFunction::toJSON() const {
 
   result["independent_variables"] = llvm::json::Array(independentVariablesJson);
 
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
@@ -109,10 +110,7 @@ llvm::json::Value StandardFunction::toJSON() const {
   llvm::json::Object result;
   result["pure"] = llvm::json::Value(pure);
 
-  if (hasAnnotation()) {
-    result["annotation"] = getAnnotation()->toJSON();
-  }
-
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/IfStatement.cpp b/lib/AST/BaseModelica/IfStatement.cpp
index faca9ed..515bc4a 100644
--- a/lib/AST/BaseModelica/IfStatement.cpp
+++ b/lib/AST/BaseModelica/IfStatement.cpp
@@ -43,6 +43,9 @@ llvm::json::Value IfStatement::toJSON() const {
     elseIfBlocksJson.push_back(block->toJSON());
   }
 
+  result["else_if_conditions"] = llvm::json::Array(elseIfConditionsJson);
+  result["else_if_blocks"] = llvm::json::Array(elseIfBlocksJson);
+
   if (hasElseBlock()) {
     result["else_block"] = getElseBlock()->toJSON();
   }
diff --git a/lib/AST/BaseModelica/Model.cpp b/lib/AST/BaseModelica/Model.cpp
index 3a3561a..964a7a8 100644
--- a/lib/AST/BaseModelica/Model.cpp
+++ b/lib/AST/BaseModelica/Model.cpp
@@ -12,6 +12,7 @@ std::unique_ptr<ASTNode> Model::clone() const {
 
 llvm::json::Value Model::toJSON() const {
   llvm::json::Object result;
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/Package.cpp b/lib/AST/BaseModelica/Package.cpp
index 640183d..aa8a0e8 100644
--- a/lib/AST/BaseModelica/Package.cpp
+++ b/lib/AST/BaseModelica/Package.cpp
@@ -13,6 +13,7 @@ std::unique_ptr<ASTNode> Package::clone() const {
 
 llvm::json::Value Package::toJSON() const {
   llvm::json::Object result;
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/Record.cpp b/lib/AST/BaseModelica/Record.cpp
index cf51baf..f6a8e26 100644
--- a/lib/AST/BaseModelica/Record.cpp
+++ b/lib/AST/BaseModelica/Record.cpp
@@ -28,6 +28,7 @@ std::unique_ptr<ASTNode> Record::clone() const {
 
 llvm::json::Value Record::toJSON() const {
   llvm::json::Object result;
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/Type.cpp b/lib/AST/BaseModelica/Type.cpp
index f262806..8ace98f 100644
--- a/lib/AST/BaseModelica/Type.cpp
+++ b/lib/AST/BaseModelica/Type.cpp
@@ -101,6 +101,7 @@ llvm::json::Value BuiltInType::toJSON() const {
   llvm::json::Object result;
   result["type"] = toString(kind);
 
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
@@ -143,6 +144,7 @@ llvm::json::Value UserDefinedType::toJSON() const {
 
   result["path"] = llvm::json::Array(pathJson);
 
+  addJSONProperties(result);
   addNodeKindToJSON(*this, result);
   return result;
 }
diff --git a/lib/AST/BaseModelica/WhenStatement.cpp b/lib/AST/BaseModelica/WhenStatement.cpp
index 04ad286..2df476c 100644
--- a/lib/AST/BaseModelica/WhenStatement.cpp
+++ b/lib/AST/BaseModelica/WhenStatement.cpp
@@ -21,6 +21,7 @@ std::unique_ptr<ASTNode> WhenStatement::clone() const {
 
 llvm::json::Value WhenStatement::toJSON() const {
   llvm::json::Object result;
+  result["condition"] = getCondition()->toJSON();
 
   llvm::SmallVector<llvm::json::Value> statementsJson;
 
diff --git a/lib/AST/BaseModelica/WhileStatement.cpp b/lib/AST/BaseModelica/WhileStatement.cpp
index 648bbf6..cb6613b 100644
--- a/lib/AST/BaseModelica/WhileStatement.cpp
+++ b/lib/AST/BaseModelica/WhileStatement.cpp
@@ -21,6 +21,7 @@ std::unique_ptr<ASTNode> WhileStatement::clone() const {
 
 llvm::json::Value WhileStatement::toJSON() const {
   llvm::json::Object result;
+  result["condition"] = getCondition()->toJSON();
 
   llvm::SmallVector<llvm::json::Value> statementsJson;
 
-- 
2.43.0


From 9f73fe452034794a0882bb9c7fdbb84466bf2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 053/105] fix: parser: accept the members following the inner
 classes of any section

---
 lib/Parser/BaseModelica/Parser.cpp | 45 ++++++++----------------------
 1 file changed, 12 insertions(+), 33 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3501de9..6cc4c57 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -225,13 +225,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> algorithms;
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> innerClasses;
 
-  // Whether the first elements list is allowed to be encountered or not.
-  // In fact, the class definition allows a first elements list definition
-  // and then others more if preceded by "public" or "protected", but no
-  // more "lone" definitions are allowed if any of those keywords are
-  // encountered.
-
-  bool firstElementListParsable = true;
+  // Whether the elements being encountered belong to a public section.
+  bool publicSection = true;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Annotation>() &&
@@ -276,42 +271,26 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
     }
 
     if (accept<TokenKind::Public>()) {
-      TRY(elementList, parseElementList(true));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = true;
       continue;
     }
 
     if (accept<TokenKind::Protected>()) {
-      TRY(elementList, parseElementList(false));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = false;
       continue;
     }
 
-    if (firstElementListParsable) {
-      TRY(elementList, parseElementList(true));
+    TRY(elementList, parseElementList(publicSection));
 
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      if (!elementList->empty()) {
-        continue;
-      }
+    if (elementList->empty()) {
+      // The token can't start any of the class elements.
+      emitUnexpectedTokenError(lookahead[0], TokenKind::End);
+      return std::nullopt;
     }
 
-    // The token can't start any of the class elements.
-    emitUnexpectedTokenError(lookahead[0], TokenKind::End);
-    return std::nullopt;
+    for (auto &element : *elementList) {
+      members.push_back(std::move(element));
+    }
   }
 
   // Parse the optional 'external'-related information.
-- 
2.43.0


From 83282a62a134f11552e615fd4f0129845504c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 054/105] fix: VariableFilter: do not truncate the array
 indices

---
 include/marco/VariableFilter/Parser.h | 2 +-
 lib/VariableFilter/Parser.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/marco/VariableFilter/Parser.h b/include/marco/VariableFilter/Parser.h
index 6a07d2d..c3be664 100644
--- a/include/marco/VariableFilter/Parser.h
+++ b/include/marco/VariableFilter/Parser.h
@@ -27,7 +27,7 @@ public:
 
   std::optional<Range> parseArrayRange();
 
-  std::optional<int> parseArrayIndex();
+  std::optional<long> parseArrayIndex();
 
   std::optional<DerivativeExpression> parseDer();
 
diff --git a/lib/VariableFilter/Parser.cpp b/lib/VariableFilter/Parser.cpp
index e047c78..90ec5f0 100644
--- a/lib/VariableFilter/Parser.cpp
+++ b/lib/VariableFilter/Parser.cpp
@@ -202,7 +202,7 @@ std::optional<Range> Parser::parseArrayRange() {
   return Range(*lowerBound, *upperBound);
 }
 
-std::optional<int> Parser::parseArrayIndex() {
+std::optional<long> Parser::parseArrayIndex() {
   if (accept<TokenKind::Dollar>()) {
     return Range::kUnbounded;
   }
-- 
2.43.0


From fc67983062f2873fec649c7a1fb04b18a96d9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 055/105] fix: VariableFilter: reject the integers that can't
 be represented

---
 lib/VariableFilter/LexerStateMachine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/VariableFilter/LexerStateMachine.cpp b/lib/VariableFilter/LexerStateMachine.cpp
index 80e9b8d..55ff27b 100644
--- a/lib/VariableFilter/LexerStateMachine.cpp
+++ b/lib/VariableFilter/LexerStateMachine.cpp
@@ -123,6 +123,12 @@ LexerStateMachine::scan<LexerStateMachine::State::ParsingNum>() {
   if (!isDigit(next)) {
     setTokenEndPosition();
     state = State::Normal;
+
+    if (numberLexer.hasOverflowed()) {
+      error = "Integer literal too large";
+      return makeToken(TokenKind::Error, getError());
+    }
+
     return makeToken(TokenKind::Integer, getInt());
   }
 
-- 
2.43.0


From 9bd59549ea5a5e772670a89c80978df017b3d5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 056/105] fix: InputKind: recognize the object files

---
 lib/IO/InputFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/IO/InputFile.cpp b/lib/IO/InputFile.cpp
index 8af8ff5..58747ff 100644
--- a/lib/IO/InputFile.cpp
+++ b/lib/IO/InputFile.cpp
@@ -33,7 +33,7 @@ InputKind InputKind::getFromExtension(llvm::StringRef extension) {
     return {Language::LLVM_IR, Format::Source};
   }
 
-  if (extension == ".o") {
+  if (extension == "o") {
     return {Language::Unknown, Format::Object};
   }
 
-- 
2.43.0


From 5ccc11b769a0bbfaf055e24ee6a2442d2a71e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 057/105] fix: Modeling dialect: define the declared bytecode
 writer of lists of index sets

---
 lib/Dialect/Modeling/IR/Properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 0339d23..16cebcb 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -209,7 +209,7 @@ mlir::LogicalResult readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
 }
 
 void writeToMlirBytecode(mlir::DialectBytecodeWriter &writer,
-                         IndexSetsList &prop) {
+                         const IndexSetsList &prop) {
   writer.writeVarInt(prop.size());
 
   for (const IndexSet &indexSet : prop) {
-- 
2.43.0


From e8bb4a9770f44107a6e9af5fba68654afeb09a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 058/105] fix: Modeling dialect: parse each index set of a list
 on its own

---
 lib/Dialect/Modeling/IR/Properties.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 16cebcb..245b40a 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -223,14 +223,10 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, IndexSetsList &prop) {
   }
 
   if (mlir::failed(parser.parseOptionalRSquare())) {
-    IndexSet indices;
-
     do {
-      if (mlir::failed(parse(parser, indices))) {
+      if (mlir::failed(parse(parser, prop.emplace_back()))) {
         return mlir::failure();
       }
-
-      prop.push_back(std::move(indices));
     } while (mlir::succeeded(parser.parseOptionalComma()));
 
     if (parser.parseRSquare()) {
-- 
2.43.0


From 744dacbef19a63dbece3b673bc1a49617bf08105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 059/105] fix: properties: replace the previous value when
 reading index sets

---
 lib/Dialect/Modeling/IR/Properties.cpp | 6 ++++++
 lib/Dialect/Runtime/IR/Properties.cpp  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 245b40a..936ae48 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -18,6 +18,8 @@ mlir::LogicalResult setPropertiesFromAttribute(
     return mlir::failure();
   }
 
+  prop = IndexSet();
+
   for (MultidimensionalRangeAttr rangeAttr :
        arrayAttr.getAsRange<MultidimensionalRangeAttr>()) {
     prop += rangeAttr.getValue();
@@ -44,6 +46,7 @@ llvm::hash_code computeHash(const IndexSet &prop) { return hash_value(prop); }
 
 mlir::LogicalResult readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
                                          IndexSet &prop) {
+  prop = IndexSet();
   uint64_t rank, numOfRanges;
 
   if (mlir::failed(reader.readVarInt(rank))) {
@@ -165,6 +168,8 @@ mlir::LogicalResult setPropertiesFromAttribute(
     return mlir::failure();
   }
 
+  prop.clear();
+
   for (mlir::Attribute elementAttr : arrayAttr) {
     if (mlir::failed(setPropertiesFromAttribute(prop.emplace_back(),
                                                 elementAttr, emitError))) {
@@ -193,6 +198,7 @@ llvm::hash_code computeHash(const IndexSetsList &prop) {
 
 mlir::LogicalResult readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
                                          IndexSetsList &prop) {
+  prop.clear();
   uint64_t numOfElements;
 
   if (mlir::failed(reader.readVarInt(numOfElements))) {
diff --git a/lib/Dialect/Runtime/IR/Properties.cpp b/lib/Dialect/Runtime/IR/Properties.cpp
index 8649c3a..f910c36 100644
--- a/lib/Dialect/Runtime/IR/Properties.cpp
+++ b/lib/Dialect/Runtime/IR/Properties.cpp
@@ -35,6 +35,8 @@ mlir::LogicalResult setPropertiesFromAttribute(
     return mlir::failure();
   }
 
+  prop.clear();
+
   for (mlir::Attribute elementAttr : arrayAttr) {
     if (auto boolAttr = mlir::dyn_cast<mlir::BoolAttr>(elementAttr)) {
       prop.emplace_back(boolAttr.getValue());
@@ -78,6 +80,7 @@ llvm::hash_code computeHash(const PrintableIndicesList &prop) {
 
 mlir::LogicalResult readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
                                          PrintableIndicesList &prop) {
+  prop.clear();
   uint64_t numOfElements;
 
   if (mlir::failed(reader.readVarInt(numOfElements))) {
-- 
2.43.0


From 45dd6ddd4a9741545aca4315675af0f1aa19e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 060/105] fix: Modeling dialect: reject the attributes that are
 not index sets

---
 lib/Dialect/Modeling/IR/Properties.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 936ae48..66b16a5 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -20,8 +20,19 @@ mlir::LogicalResult setPropertiesFromAttribute(
 
   prop = IndexSet();
 
-  for (MultidimensionalRangeAttr rangeAttr :
-       arrayAttr.getAsRange<MultidimensionalRangeAttr>()) {
+  for (mlir::Attribute elementAttr : arrayAttr) {
+    auto rangeAttr = mlir::dyn_cast<MultidimensionalRangeAttr>(elementAttr);
+
+    if (!rangeAttr) {
+      emitError() << "expected MultidimensionalRangeAttr in IndexSet property";
+      return mlir::failure();
+    }
+
+    if (!prop.empty() && prop.rank() != rangeAttr.getValue().rank()) {
+      emitError() << "expected ranges with the same rank in IndexSet property";
+      return mlir::failure();
+    }
+
     prop += rangeAttr.getValue();
   }
 
-- 
2.43.0


From b053ac9725f9254b31bb63674e57ca61546bef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:09 +0000
Subject: [PATCH 061/105] fix: Modeling dialect: reject inverted, overflowing
 and mixed rank ranges

---
 lib/Dialect/Modeling/IR/Attributes.cpp | 46 ++++++++++++++++++--------
 lib/Dialect/Modeling/IR/Properties.cpp | 25 ++++++--------
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/lib/Dialect/Modeling/IR/Attributes.cpp b/lib/Dialect/Modeling/IR/Attributes.cpp
index 0a093b5..fbd7154 100644
--- a/lib/Dialect/Modeling/IR/Attributes.cpp
+++ b/lib/Dialect/Modeling/IR/Attributes.cpp
@@ -1,22 +1,44 @@
 #include "marco/Dialect/Modeling/IR/Attributes.h"
 #include "marco/Dialect/Modeling/IR/Dialect.h"
 #include "llvm/ADT/TypeSwitch.h"
+#include <limits>
 
 using namespace ::mlir::modeling;
 
-namespace mlir {
-mlir::FailureOr<mlir::modeling::Range>
-FieldParser<mlir::modeling::Range>::parse(mlir::AsmParser &parser) {
+namespace {
+/// Parse the bounds of a range, after its opening bracket.
+mlir::FailureOr<Range> parseRangeBounds(mlir::AsmParser &parser) {
+  llvm::SMLoc loc = parser.getCurrentLocation();
   int64_t beginValue;
   int64_t endValue;
 
-  if (parser.parseLSquare() || parser.parseInteger(beginValue) ||
-      parser.parseComma() || parser.parseInteger(endValue) ||
-      parser.parseRSquare()) {
+  if (parser.parseInteger(beginValue) || parser.parseComma() ||
+      parser.parseInteger(endValue) || parser.parseRSquare()) {
+    return mlir::failure();
+  }
+
+  if (beginValue > endValue) {
+    parser.emitError(loc) << "the bounds of the range are inverted";
+    return mlir::failure();
+  }
+
+  if (endValue == std::numeric_limits<int64_t>::max()) {
+    parser.emitError(loc) << "the upper bound of the range is too large";
+    return mlir::failure();
+  }
+
+  return Range(beginValue, endValue + 1);
+}
+} // namespace
+
+namespace mlir {
+mlir::FailureOr<mlir::modeling::Range>
+FieldParser<mlir::modeling::Range>::parse(mlir::AsmParser &parser) {
+  if (parser.parseLSquare()) {
     return mlir::failure();
   }
 
-  return mlir::modeling::Range(beginValue, endValue + 1);
+  return parseRangeBounds(parser);
 }
 
 mlir::AsmPrinter &operator<<(mlir::AsmPrinter &printer, const Range &range) {
@@ -27,19 +49,17 @@ mlir::AsmPrinter &operator<<(mlir::AsmPrinter &printer, const Range &range) {
 mlir::FailureOr<std::optional<mlir::modeling::Range>>
 FieldParser<std::optional<mlir::modeling::Range>>::parse(
     mlir::AsmParser &parser) {
-  int64_t beginValue;
-  int64_t endValue;
-
   if (parser.parseOptionalLSquare()) {
     return std::optional<mlir::modeling::Range>(std::nullopt);
   }
 
-  if (parser.parseInteger(beginValue) || parser.parseComma() ||
-      parser.parseInteger(endValue) || parser.parseRSquare()) {
+  mlir::FailureOr<mlir::modeling::Range> range = parseRangeBounds(parser);
+
+  if (mlir::failed(range)) {
     return mlir::failure();
   }
 
-  return std::optional(mlir::modeling::Range(beginValue, endValue + 1));
+  return std::optional(*range);
 }
 
 mlir::AsmPrinter &operator<<(mlir::AsmPrinter &printer,
diff --git a/lib/Dialect/Modeling/IR/Properties.cpp b/lib/Dialect/Modeling/IR/Properties.cpp
index 66b16a5..d8df453 100644
--- a/lib/Dialect/Modeling/IR/Properties.cpp
+++ b/lib/Dialect/Modeling/IR/Properties.cpp
@@ -115,28 +115,23 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, IndexSet &prop) {
     return mlir::failure();
   }
 
-  llvm::SmallVector<Range> ranges;
-
   if (mlir::failed(parser.parseOptionalRBrace())) {
     do {
-      ranges.clear();
+      llvm::SMLoc loc = parser.getCurrentLocation();
+
+      mlir::FailureOr<MultidimensionalRange> range =
+          mlir::FieldParser<MultidimensionalRange>::parse(parser);
 
-      if (parser.parseLSquare()) {
+      if (mlir::failed(range)) {
         return mlir::failure();
       }
 
-      do {
-        int64_t begin, end;
-
-        if (parser.parseInteger(begin) || parser.parseComma() ||
-            parser.parseInteger(end) || parser.parseRSquare()) {
-          return mlir::failure();
-        }
-
-        ranges.emplace_back(begin, end + 1);
-      } while (mlir::succeeded(parser.parseOptionalLSquare()));
+      if (!prop.empty() && prop.rank() != range->rank()) {
+        return parser.emitError(loc)
+               << "expected ranges with the same rank in IndexSet property";
+      }
 
-      prop += MultidimensionalRange(ranges);
+      prop += *range;
     } while (mlir::succeeded(parser.parseOptionalComma()));
 
     if (parser.parseRBrace()) {
-- 
2.43.0


From 6420593be3f79d0be900b9932f2e21473e452ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 062/105] fix: Runtime dialect: keep the types of the variables
 of a derivative attribute

---
 include/marco/Dialect/Runtime/IR/Attributes.td | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Dialect/Runtime/IR/Attributes.td b/include/marco/Dialect/Runtime/IR/Attributes.td
index d5a33ad..e3aa3a5 100644
--- a/include/marco/Dialect/Runtime/IR/Attributes.td
+++ b/include/marco/Dialect/Runtime/IR/Attributes.td
@@ -127,7 +127,7 @@ def Runtime_DerivativeAttr
 
     let parameters = (ins "VariableAttr":$variable, "VariableAttr":$derivative);
 
-    let assemblyFormat = "`<` $variable `->` $derivative `>`";
+    let assemblyFormat = "`<` qualified($variable) `->` qualified($derivative) `>`";
 }
 
 def DerivativeAttr
-- 
2.43.0


From e48d84f38dd42ebcfc6b67a5126a116f71f886fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 063/105] fix: matching: visit only the variables accessed by
 the current equations

---
 include/marco/Modeling/Matching.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index b373471..be17c6e 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -2557,7 +2557,10 @@ private:
         assert(isVariable(nextNode));
 
         if (visits) {
-          addVisit(*visits, nextNode, edge.getIncidenceMatrix().flattenRows());
+          addVisit(*visits, nextNode,
+                   edge.getIncidenceMatrix()
+                       .filterRows(step->getCandidates())
+                       .flattenRows());
         }
 
         const Variable &var = getVariableFromDescriptor(nextNode);
-- 
2.43.0


From ae1b211b751efa4e0adc9bfca63bf1f63a0d4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 064/105] fix: pantelides: match all the equations that have
 been differentiated

---
 include/marco/Modeling/Pantelides.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/marco/Modeling/Pantelides.h b/include/marco/Modeling/Pantelides.h
index eb17a9f..74a4989 100644
--- a/include/marco/Modeling/Pantelides.h
+++ b/include/marco/Modeling/Pantelides.h
@@ -342,8 +342,12 @@ public:
           differentiateVisitedVariables(visits);
           differentiateVisitedEquations(visits);
 
-          equationsWorkList.push_back(
-              getEquationDerivative(equationDescriptor).descriptor);
+          // None of the derivatives is matched yet.
+          for (const auto &[visitedDescriptor, visitedIndices] :
+               visits.getVisitedEquations()) {
+            equationsWorkList.push_back(
+                getEquationDerivative(visitedDescriptor).descriptor);
+          }
         }
       } while (!augmentingPaths.empty());
     }
-- 
2.43.0


From 5e757c0319db37745957e2c9b5c744e71d80e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:16 +0000
Subject: [PATCH 065/105] fix: pantelides: extend the derivatives of the
 equations with the new indices

---
 include/marco/Modeling/Matching.h   | 14 +++++++++++++-
 include/marco/Modeling/Pantelides.h | 19 +++++++++++++++++++
 lib/Modeling/Matching.cpp           |  2 +-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index be17c6e..d491679 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -545,7 +545,7 @@ public:
 
   void setIndices(std::shared_ptr<const IndexSet> newIndices) {
     assert(!newIndices->empty());
-    indices = std::move(newIndices);
+    indices = newIndices;
     setMatchableIndices(newIndices);
   }
 
@@ -686,6 +686,18 @@ public:
     unmatchMatrix.setEquationSpace(newEquationIndices);
   }
 
+  /// Set a set of equation indices that also contains the current ones.
+  void extendEquationIndices(
+      std::shared_ptr<const IndexSet> newEquationIndices) {
+    setEquationIndices(newEquationIndices);
+
+    for (const auto &accessFunction : accessFunctions) {
+      incidenceMatrix.apply(*accessFunction);
+    }
+
+    unmatchMatrix = incidenceMatrix - matchMatrix;
+  }
+
   void removeEquationIndices(const IndexSet &removedIndices) {
     auto newEquationIndices = std::make_shared<const IndexSet>(
         incidenceMatrix.getEquationSpace() - removedIndices);
diff --git a/include/marco/Modeling/Pantelides.h b/include/marco/Modeling/Pantelides.h
index 74a4989..207fd8a 100644
--- a/include/marco/Modeling/Pantelides.h
+++ b/include/marco/Modeling/Pantelides.h
@@ -232,6 +232,22 @@ public:
   }
 
 private:
+  /// Add indices to an equation that already belongs to the graph.
+  void addEquationIndices(VertexDescriptor equationDescriptor,
+                          const IndexSet &indices) {
+    Equation &equation = this->getEquationFromDescriptor(equationDescriptor);
+
+    equation.setIndices(
+        std::make_shared<const IndexSet>(equation.getIndices() + indices));
+
+    for (EdgeDescriptor edgeDescriptor :
+         llvm::make_range(this->edgesBegin(equationDescriptor),
+                          this->edgesEnd(equationDescriptor))) {
+      Edge &edge = this->getBaseGraph()[edgeDescriptor];
+      edge.extendEquationIndices(equation.getIndicesPtr());
+    }
+  }
+
   bool hasEquationDerivative(VertexDescriptor equation) const {
     auto it = equationDerivatives.find(equation);
     return it != equationDerivatives.end();
@@ -466,6 +482,9 @@ private:
 
       assert(optionalDescriptor);
       differentiatedEquationDescriptor = *optionalDescriptor;
+
+      addEquationIndices(differentiatedEquationDescriptor,
+                         indicesToBeDifferentiated);
     } else {
       differentiatedEquationDescriptor =
           this->addEquation(std::move(differentiatedEquation));
diff --git a/lib/Modeling/Matching.cpp b/lib/Modeling/Matching.cpp
index d3d57e5..1d5c223 100644
--- a/lib/Modeling/Matching.cpp
+++ b/lib/Modeling/Matching.cpp
@@ -14,7 +14,7 @@ const IndexSet &Matchable::getMatchableIndices() const {
 void Matchable::setMatchableIndices(std::shared_ptr<const IndexSet> indices) {
   matchableIndices = indices;
   matched = matched.intersect(*indices);
-  unmatched = unmatched.intersect(*indices);
+  unmatched = *indices - matched;
 }
 
 const IndexSet &Matchable::getMatched() const { return matched; }
-- 
2.43.0


From cbe4cc8e6d69fd65e4d032739c36698257644c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 066/105] fix: AST: read the reals as integers and booleans

---
 include/marco/AST/BaseModelica/Constant.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/marco/AST/BaseModelica/Constant.h b/include/marco/AST/BaseModelica/Constant.h
index b8f2757..d06c2eb 100644
--- a/include/marco/AST/BaseModelica/Constant.h
+++ b/include/marco/AST/BaseModelica/Constant.h
@@ -59,6 +59,10 @@ public:
         return static_cast<T>(std::get<int64_t>(value));
       }
 
+      if (std::holds_alternative<double>(value)) {
+        return static_cast<T>(std::get<double>(value));
+      }
+
       return static_cast<T>(!std::get<std::string>(value).empty());
     } else {
       if (std::holds_alternative<bool>(value)) {
-- 
2.43.0


From 6828d533335646d64a70ea96d8143a4c37de11cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 067/105] fix: AST: ignore the malformed annotations of the
 functions instead of crashing

---
 lib/AST/BaseModelica/Annotation.cpp | 53 +++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/lib/AST/BaseModelica/Annotation.cpp b/lib/AST/BaseModelica/Annotation.cpp
index c23616a..e2bc4fb 100644
--- a/lib/AST/BaseModelica/Annotation.cpp
+++ b/lib/AST/BaseModelica/Annotation.cpp
@@ -68,6 +68,12 @@ bool Annotation::getInlineProperty() const {
       if (elementModification->getName().equals_insensitive("inline") &&
           elementModification->hasModification()) {
         const auto &modification = elementModification->getModification();
+
+        if (!modification->hasExpression() ||
+            !modification->getExpression()->isa<Constant>()) {
+          return false;
+        }
+
         return modification->getExpression()->cast<Constant>()->as<bool>();
       }
     }
@@ -80,7 +86,11 @@ bool Annotation::hasDerivativeAnnotation() const {
   for (const auto &argument : getProperties()->getArguments()) {
     if (auto *elementModification = argument->dyn_cast<ElementModification>()) {
       if (elementModification->getName() == "derivative") {
-        return true;
+        return elementModification->hasModification() &&
+               elementModification->getModification()->hasExpression() &&
+               elementModification->getModification()
+                   ->getExpression()
+                   ->isa<ComponentReference>();
       }
     }
   }
@@ -155,29 +165,52 @@ InverseFunctionAnnotation Annotation::getInverseFunctionAnnotation() const {
   for (const auto &argument : getProperties()->getArguments()) {
     if (auto *elementModification = argument->dyn_cast<ElementModification>()) {
       if (elementModification->getName().equals_insensitive("inverse")) {
-        assert(elementModification->hasModification());
+        if (!elementModification->hasModification() ||
+            !elementModification->getModification()->hasClassModification()) {
+          continue;
+        }
+
         const auto &modification = elementModification->getModification();
-        assert(modification->hasClassModification());
 
         for (const auto &inverseDeclaration :
              modification->getClassModification()->getArguments()) {
           const auto &inverseDeclarationFullExpression =
               inverseDeclaration->cast<ElementModification>();
-          assert(inverseDeclarationFullExpression->hasModification());
-          const auto &callExpression =
-              inverseDeclarationFullExpression->getModification();
-          assert(callExpression->hasExpression());
-          const auto *call = callExpression->getExpression()->cast<Call>();
+
+          if (!inverseDeclarationFullExpression->hasModification() ||
+              !inverseDeclarationFullExpression->getModification()
+                   ->hasExpression()) {
+            continue;
+          }
+
+          const auto *call = inverseDeclarationFullExpression->getModification()
+                                 ->getExpression()
+                                 ->dyn_cast<Call>();
+
+          if (!call || !call->getCallee()->isa<ComponentReference>()) {
+            continue;
+          }
 
           llvm::SmallVector<std::string, 3> args;
 
           for (const auto &arg : call->getArguments()) {
-            args.push_back(arg->cast<ExpressionFunctionArgument>()
-                               ->getExpression()
+            const auto *expressionArg =
+                arg->dyn_cast<ExpressionFunctionArgument>();
+
+            if (!expressionArg ||
+                !expressionArg->getExpression()->isa<ComponentReference>()) {
+              break;
+            }
+
+            args.push_back(expressionArg->getExpression()
                                ->cast<ComponentReference>()
                                ->getName());
           }
 
+          if (args.size() != call->getNumOfArguments()) {
+            continue;
+          }
+
           result.addInverse(
               inverseDeclarationFullExpression->getName().str(),
               call->getCallee()->cast<ComponentReference>()->getName(), args);
-- 
2.43.0


From 13267642867288b01b3b1e2592108ee5291c2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 068/105] fix: AST: start and fixed attributes with no value

---
 lib/AST/BaseModelica/Modification.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index 3e0bbdd..92631ed 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -176,8 +176,8 @@ bool ClassModification::hasStartExpression() const {
       continue;
     }
 
-    assert(elementModification->hasModification());
-    return true;
+    return elementModification->hasModification() &&
+           elementModification->getModification()->hasExpression();
   }
 
   return false;
@@ -264,10 +264,13 @@ std::optional<bool> ClassModification::getFixedProperty() const {
       continue;
     }
 
-    assert(elementModification->hasModification());
-    const auto *modification = elementModification->getModification();
-    assert(modification->hasExpression());
-    const auto *modificationExpression = modification->getExpression();
+    if (!elementModification->hasModification() ||
+        !elementModification->getModification()->hasExpression()) {
+      return false;
+    }
+
+    const auto *modificationExpression =
+        elementModification->getModification()->getExpression();
 
     if (modificationExpression->isa<Constant>()) {
       return modificationExpression->cast<Constant>()->as<bool>();
@@ -277,16 +280,14 @@ std::optional<bool> ClassModification::getFixedProperty() const {
       // FIXME: Handle this case without special casing
       // fixed = {{{{true, true}, {true, true}}, {{true, true}, {true, ...
       const auto *array = modificationExpression->cast<ArrayConstant>();
-      auto val = isArrayUniformConstBool(array);
-      assert(val);
-      return val;
+      return isArrayUniformConstBool(array);
     }
 
     if (const auto *call = modificationExpression->dyn_cast<Call>()) {
       // FIXME: Handle this case without special casing
       if (const auto *callee =
               call->getCallee()->dyn_cast<ComponentReference>()) {
-        if (callee->getName() == "fill") {
+        if (callee->getName() == "fill" && call->getNumOfArguments() > 0) {
           if (const auto *expressionArg =
                   call->getArgument(0)
                       ->dyn_cast<ExpressionFunctionArgument>()) {
-- 
2.43.0


From bbb0d344f7f37653cb5cbb49e3309e627766cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 069/105] fix: AST: consider the 'each' prefix of the start
 value only

---
 lib/AST/BaseModelica/Modification.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index 92631ed..b0fa54e 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -313,6 +313,11 @@ bool ClassModification::getEachProperty() const {
     }
 
     auto *elementModification = argument->cast<ElementModification>();
+
+    if (elementModification->getName() != "start") {
+      continue;
+    }
+
     return elementModification->hasEachProperty();
   }
 
-- 
2.43.0


From 8f1c54544030344540babda4b71220c467156a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:12 +0000
Subject: [PATCH 070/105] fix: BaseModelica: do not fold the remainder of an
 integer division by zero

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index f436769..c9348d3 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -10,6 +10,7 @@
 #include "llvm/ADT/MapVector.h"
 #include "llvm/ADT/ScopeExit.h"
 #include <cmath>
+#include <limits>
 
 using namespace ::mlir::bmodelica;
 
@@ -7171,6 +7172,12 @@ mlir::OpFoldResult RemOp::fold(FoldAdaptor adaptor) {
     if (isScalarIntegerLike(x) && isScalarIntegerLike(y)) {
       int64_t xValue = getScalarIntegerLikeValue(x);
       int64_t yValue = getScalarIntegerLikeValue(y);
+
+      if (yValue == 0 ||
+          (yValue == -1 && xValue == std::numeric_limits<int64_t>::min())) {
+        return {};
+      }
+
       return getAttr(resultType, xValue % yValue);
     }
 
-- 
2.43.0


From bb5118cb0540cb20c672bb2652dd2b3b71266017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 071/105] fix: BaseModelica: fold the division and the modulus
 of integers exactly

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index c9348d3..cd72939 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -6575,8 +6575,14 @@ mlir::OpFoldResult DivTruncOp::fold(FoldAdaptor adaptor) {
 
   if (isScalar(x) && isScalar(y)) {
     if (isScalarIntegerLike(x) && isScalarIntegerLike(y)) {
-      auto xValue = static_cast<double>(getScalarIntegerLikeValue(x));
-      auto yValue = static_cast<double>(getScalarIntegerLikeValue(y));
+      int64_t xValue = getScalarIntegerLikeValue(x);
+      int64_t yValue = getScalarIntegerLikeValue(y);
+
+      if (yValue == 0 ||
+          (yValue == -1 && xValue == std::numeric_limits<int64_t>::min())) {
+        return {};
+      }
+
       return getAttr(resultType, xValue / yValue);
     }
 
@@ -7122,10 +7128,21 @@ mlir::OpFoldResult ModOp::fold(FoldAdaptor adaptor) {
 
   if (isScalar(x) && isScalar(y)) {
     if (isScalarIntegerLike(x) && isScalarIntegerLike(y)) {
-      auto xValue = static_cast<double>(getScalarIntegerLikeValue(x));
-      auto yValue = static_cast<double>(getScalarIntegerLikeValue(y));
+      int64_t xValue = getScalarIntegerLikeValue(x);
+      int64_t yValue = getScalarIntegerLikeValue(y);
 
-      return getAttr(resultType, xValue - std::floor(xValue / yValue) * yValue);
+      if (yValue == 0 ||
+          (yValue == -1 && xValue == std::numeric_limits<int64_t>::min())) {
+        return {};
+      }
+
+      int64_t result = xValue % yValue;
+
+      if (result != 0 && (result < 0) != (yValue < 0)) {
+        result += yValue;
+      }
+
+      return getAttr(resultType, result);
     }
 
     if (isScalarFloatLike(x) && isScalarFloatLike(y)) {
-- 
2.43.0


From 76102c1e880ae36d979b089e1d69550f39784ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 072/105] fix: BaseModelica: give the folded ranges the type of
 the result

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index cd72939..73284ac 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -2518,7 +2518,7 @@ mlir::OpFoldResult AddOp::fold(FoldAdaptor adaptor) {
       int64_t upperBound = lhsRange.getUpperBound() + rhsValue;
       int64_t step = lhsRange.getStep();
 
-      return IntegerRangeAttr::get(getContext(), lhsRange.getType(), lowerBound,
+      return IntegerRangeAttr::get(getContext(), resultType, lowerBound,
                                    upperBound, step);
     }
 
@@ -2533,7 +2533,7 @@ mlir::OpFoldResult AddOp::fold(FoldAdaptor adaptor) {
 
       auto step = static_cast<double>(lhsRange.getStep());
 
-      return RealRangeAttr::get(getContext(), lowerBound, upperBound, step);
+      return RealRangeAttr::get(resultType, lowerBound, upperBound, step);
     }
   }
 
@@ -2548,8 +2548,7 @@ mlir::OpFoldResult AddOp::fold(FoldAdaptor adaptor) {
 
       double step = lhsRange.getStep().convertToDouble();
 
-      return RealRangeAttr::get(lhsRange.getType(), lowerBound, upperBound,
-                                step);
+      return RealRangeAttr::get(resultType, lowerBound, upperBound, step);
     }
 
     if (isScalarFloatLike(rhs)) {
@@ -2561,7 +2560,7 @@ mlir::OpFoldResult AddOp::fold(FoldAdaptor adaptor) {
 
       double step = lhsRange.getStep().convertToDouble();
 
-      return RealRangeAttr::get(getContext(), lowerBound, upperBound, step);
+      return RealRangeAttr::get(resultType, lowerBound, upperBound, step);
     }
   }
 
@@ -3178,7 +3177,7 @@ mlir::OpFoldResult SubOp::fold(FoldAdaptor adaptor) {
       int64_t upperBound = lhsRange.getUpperBound() - rhsValue;
       int64_t step = lhsRange.getStep();
 
-      return IntegerRangeAttr::get(getContext(), lhsRange.getType(), lowerBound,
+      return IntegerRangeAttr::get(getContext(), resultType, lowerBound,
                                    upperBound, step);
     }
 
@@ -3193,7 +3192,7 @@ mlir::OpFoldResult SubOp::fold(FoldAdaptor adaptor) {
 
       auto step = static_cast<double>(lhsRange.getStep());
 
-      return RealRangeAttr::get(getContext(), lowerBound, upperBound, step);
+      return RealRangeAttr::get(resultType, lowerBound, upperBound, step);
     }
   }
 
@@ -3208,8 +3207,7 @@ mlir::OpFoldResult SubOp::fold(FoldAdaptor adaptor) {
 
       double step = lhsRange.getStep().convertToDouble();
 
-      return RealRangeAttr::get(lhsRange.getType(), lowerBound, upperBound,
-                                step);
+      return RealRangeAttr::get(resultType, lowerBound, upperBound, step);
     }
 
     if (isScalarFloatLike(rhs)) {
@@ -3221,7 +3219,7 @@ mlir::OpFoldResult SubOp::fold(FoldAdaptor adaptor) {
 
       double step = lhsRange.getStep().convertToDouble();
 
-      return RealRangeAttr::get(getContext(), lowerBound, upperBound, step);
+      return RealRangeAttr::get(resultType, lowerBound, upperBound, step);
     }
   }
 
-- 
2.43.0


From b3a3a650d2c3d97e1efef0fe187fcd1f1a21e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 073/105] fix: BaseModelica: do not fold the product of a range
 and zero into a scalar

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 73284ac..8f9edf4 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -3883,13 +3883,13 @@ mlir::OpFoldResult MulOp::fold(FoldAdaptor adaptor) {
   auto resultType = getResult().getType();
 
   if (lhs && isScalar(lhs) && getScalarAttributeValue<double>(lhs) == 0) {
-    if (!mlir::isa<mlir::ShapedType>(resultType)) {
+    if (!mlir::isa<mlir::ShapedType, RangeType>(resultType)) {
       return getAttr(resultType, static_cast<int64_t>(0));
     }
   }
 
   if (rhs && isScalar(rhs) && getScalarAttributeValue<double>(rhs) == 0) {
-    if (!mlir::isa<mlir::ShapedType>(resultType)) {
+    if (!mlir::isa<mlir::ShapedType, RangeType>(resultType)) {
       return getAttr(resultType, static_cast<int64_t>(0));
     }
   }
-- 
2.43.0


From d4754eb90322e60ff90777c36af300b5c3a674e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:40 +0000
Subject: [PATCH 074/105] fix: BaseModelica: do not swap the operands of
 additions to constant ranges endlessly

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 8f9edf4..44e987a 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -3,6 +3,7 @@
 #include "mlir/IR/Builders.h"
 #include "mlir/IR/BuiltinOps.h"
 #include "mlir/IR/OpImplementation.h"
+#include "mlir/IR/Matchers.h"
 #include "mlir/IR/PatternMatch.h"
 #include "mlir/Interfaces/FunctionImplementation.h"
 #include "mlir/Transforms/FoldUtils.h"
@@ -2377,6 +2378,13 @@ struct AddOpRangeOrderingPattern : public mlir::OpRewritePattern<AddOp> {
                                          "Expected non-range and range types");
     }
 
+    // The constant operands of commutative operations are always moved to the
+    // right-hand side.
+    if (mlir::matchPattern(rhs, mlir::m_Constant()) &&
+        !mlir::matchPattern(lhs, mlir::m_Constant())) {
+      return rewriter.notifyMatchFailure(op, "Constant range operand");
+    }
+
     // Swap the operands.
     rewriter.replaceOpWithNewOp<AddOp>(op, op.getResult().getType(),
                                        op.getRhs(), op.getLhs());
-- 
2.43.0


From 648fdcc170117c16755021b8d86312d77f1a8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:15 +0000
Subject: [PATCH 075/105] fix: BaseModelica: give the folded properties of
 ranges the type of the result

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 41 +++++++----------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 44e987a..c80e843 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -320,20 +320,12 @@ mlir::OpFoldResult RangeBeginOp::fold(FoldAdaptor adaptor) {
   }
 
   if (auto intRange = mlir::dyn_cast<IntegerRangeAttr>(range)) {
-    mlir::Type inductionType =
-        mlir::cast<RangeType>(intRange.getType()).getInductionType();
-
-    if (mlir::isa<mlir::IndexType>(inductionType)) {
-      return mlir::IntegerAttr::get(mlir::IndexType::get(getContext()),
-                                    intRange.getLowerBound());
-    } else {
-      return IntegerAttr::get(getContext(), intRange.getLowerBound());
-    }
+    return getAttr(getResult().getType(), intRange.getLowerBound());
   }
 
   if (auto realRange = mlir::dyn_cast<RealRangeAttr>(range)) {
-    return RealAttr::get(getContext(),
-                         realRange.getLowerBound().convertToDouble());
+    return getAttr(getResult().getType(),
+                   realRange.getLowerBound().convertToDouble());
   }
 
   return {};
@@ -352,20 +344,12 @@ mlir::OpFoldResult RangeEndOp::fold(FoldAdaptor adaptor) {
   }
 
   if (auto intRange = mlir::dyn_cast<IntegerRangeAttr>(range)) {
-    mlir::Type inductionType =
-        mlir::cast<RangeType>(intRange.getType()).getInductionType();
-
-    if (mlir::isa<mlir::IndexType>(inductionType)) {
-      return mlir::IntegerAttr::get(mlir::IndexType::get(getContext()),
-                                    intRange.getUpperBound());
-    } else {
-      return IntegerAttr::get(getContext(), intRange.getUpperBound());
-    }
+    return getAttr(getResult().getType(), intRange.getUpperBound());
   }
 
   if (auto realRange = mlir::dyn_cast<RealRangeAttr>(range)) {
-    return RealAttr::get(getContext(),
-                         realRange.getUpperBound().convertToDouble());
+    return getAttr(getResult().getType(),
+                   realRange.getUpperBound().convertToDouble());
   }
 
   return {};
@@ -384,19 +368,12 @@ mlir::OpFoldResult RangeStepOp::fold(FoldAdaptor adaptor) {
   }
 
   if (auto intRange = mlir::dyn_cast<IntegerRangeAttr>(range)) {
-    mlir::Type inductionType =
-        mlir::cast<RangeType>(intRange.getType()).getInductionType();
-
-    if (mlir::isa<mlir::IndexType>(inductionType)) {
-      return mlir::IntegerAttr::get(mlir::IndexType::get(getContext()),
-                                    intRange.getStep());
-    } else {
-      return IntegerAttr::get(getContext(), intRange.getStep());
-    }
+    return getAttr(getResult().getType(), intRange.getStep());
   }
 
   if (auto realRange = mlir::dyn_cast<RealRangeAttr>(range)) {
-    return RealAttr::get(getContext(), realRange.getStep().convertToDouble());
+    return getAttr(getResult().getType(),
+                   realRange.getStep().convertToDouble());
   }
 
   return {};
-- 
2.43.0


From 64aedce0306e7ac9bca3ee1e9cd291bbf92c8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 076/105] fix: BaseModelica: infer the type of the product of a
 tensor and a scalar

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index c80e843..f3ed65b 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -3790,6 +3790,16 @@ mlir::LogicalResult MulOp::inferReturnTypes(
     return mlir::success();
   }
 
+  if (lhsShapedType && isScalar(rhsType)) {
+    mlir::Type resultElementType =
+        getMostGenericScalarType(lhsShapedType.getElementType(), rhsType);
+
+    returnTypes.push_back(mlir::RankedTensorType::get(lhsShapedType.getShape(),
+                                                      resultElementType));
+
+    return mlir::success();
+  }
+
   if (lhsShapedType && rhsShapedType) {
     mlir::Type resultElementType = getMostGenericScalarType(
         lhsShapedType.getElementType(), rhsShapedType.getElementType());
-- 
2.43.0


From d6bb5d5933b106a0e2eed56c4fa17e76eac007ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:36 +0000
Subject: [PATCH 077/105] fix: BaseModelica: accept constant subscripts of
 dynamic dimensions

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index f3ed65b..7b945fe 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -704,7 +704,7 @@ mlir::LogicalResult TensorExtractOp::verify() {
         }
 
         if (int64_t dimSize = getTensor().getType().getDimSize(i);
-            *index >= dimSize) {
+            dimSize != mlir::ShapedType::kDynamic && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
@@ -1007,7 +1007,8 @@ mlir::LogicalResult LoadOp::verify() {
           return emitOpError() << "invalid index (" << *index << ")";
         }
 
-        if (int64_t dimSize = getArrayType().getDimSize(i); *index >= dimSize) {
+        if (int64_t dimSize = getArrayType().getDimSize(i);
+            dimSize != ArrayType::kDynamic && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
@@ -1105,7 +1106,8 @@ mlir::LogicalResult StoreOp::verify() {
           return emitOpError() << "invalid index (" << *index << ")";
         }
 
-        if (int64_t dimSize = getArrayType().getDimSize(i); *index >= dimSize) {
+        if (int64_t dimSize = getArrayType().getDimSize(i);
+            dimSize != ArrayType::kDynamic && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
-- 
2.43.0


From 4fc1ecdbc13591d959abbd3772be583800221129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 078/105] fix: BaseModelica: do not merge subscriptions into
 views having ranges

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 7b945fe..239b513 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -489,6 +489,14 @@ mlir::OpFoldResult TensorFromElementsOp::fold(FoldAdaptor adaptor) {
 // TensorViewOp
 
 namespace {
+/// Check whether all the subscriptions are scalars, that is, whether they all
+/// remove the dimension they refer to.
+bool hasOnlyScalars(mlir::ValueRange subscriptions) {
+  return llvm::none_of(subscriptions.getTypes(), [](mlir::Type type) {
+    return mlir::isa<RangeType>(type);
+  });
+}
+
 struct InferTensorViewResultTypePattern
     : public mlir::OpRewritePattern<TensorViewOp> {
   using mlir::OpRewritePattern<TensorViewOp>::OpRewritePattern;
@@ -521,13 +529,13 @@ struct MergeTensorViewsPattern : public mlir::OpRewritePattern<TensorViewOp> {
                   mlir::PatternRewriter &rewriter) const override {
     auto viewOp = op.getSource().getDefiningOp<TensorViewOp>();
 
-    if (!viewOp) {
+    if (!viewOp || !hasOnlyScalars(viewOp.getSubscriptions())) {
       return mlir::failure();
     }
 
     llvm::SmallVector<TensorViewOp> viewOps;
 
-    while (viewOp) {
+    while (viewOp && hasOnlyScalars(viewOp.getSubscriptions())) {
       viewOps.push_back(viewOp);
       viewOp = viewOp.getSource().getDefiningOp<TensorViewOp>();
     }
@@ -636,13 +644,13 @@ struct MergeTensorViewIntoTensorExtractPattern
                   mlir::PatternRewriter &rewriter) const override {
     auto viewOp = op.getTensor().getDefiningOp<TensorViewOp>();
 
-    if (!viewOp) {
+    if (!viewOp || !hasOnlyScalars(viewOp.getSubscriptions())) {
       return mlir::failure();
     }
 
     llvm::SmallVector<TensorViewOp> viewOps;
 
-    while (viewOp) {
+    while (viewOp && hasOnlyScalars(viewOp.getSubscriptions())) {
       viewOps.push_back(viewOp);
       viewOp = viewOp.getSource().getDefiningOp<TensorViewOp>();
     }
@@ -1168,13 +1176,13 @@ struct MergeSubscriptionsPattern
                   mlir::PatternRewriter &rewriter) const override {
     auto subscriptionOp = op.getSource().getDefiningOp<SubscriptionOp>();
 
-    if (!subscriptionOp) {
+    if (!subscriptionOp || !hasOnlyScalars(subscriptionOp.getIndices())) {
       return mlir::failure();
     }
 
     llvm::SmallVector<SubscriptionOp> subscriptionOps;
 
-    while (subscriptionOp) {
+    while (subscriptionOp && hasOnlyScalars(subscriptionOp.getIndices())) {
       subscriptionOps.push_back(subscriptionOp);
 
       subscriptionOp =
-- 
2.43.0


From 90789a8ed25bf955a04d62656b36e5959e78acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 079/105] fix: BaseModelica: do not consider the multiplication
 as commutative

---
 include/marco/Dialect/BaseModelica/IR/Ops.td | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/marco/Dialect/BaseModelica/IR/Ops.td b/include/marco/Dialect/BaseModelica/IR/Ops.td
index b3e86c3..e99ea9c 100644
--- a/include/marco/Dialect/BaseModelica/IR/Ops.td
+++ b/include/marco/Dialect/BaseModelica/IR/Ops.td
@@ -1714,8 +1714,7 @@ def BaseModelica_SubEWOp : BaseModelica_Op<"sub_ew",
 }
 
 def BaseModelica_MulOp : BaseModelica_Op<"mul",
-    [Commutative,
-    DeclareOpInterfaceMethods<InferTypeOpInterface>,
+    [DeclareOpInterfaceMethods<InferTypeOpInterface>,
     NoMemoryEffect,
     AlwaysSpeculatable,
     DeclareOpInterfaceMethods<DistributableOpInterface>,
-- 
2.43.0


From b13bdc74ea509c34ad9f4b82fd519e4b4c10d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 080/105] fix: BaseModelica: do not simplify the matrices
 raised to zero as scalars

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 239b513..ec6ad98 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -5199,6 +5199,15 @@ struct PowConstantExponentPattern : public mlir::OpRewritePattern<PowOp> {
 struct PowExponentZeroPattern : public PowConstantExponentPattern<0> {
   using PowConstantExponentPattern::PowConstantExponentPattern;
 
+  mlir::LogicalResult
+  matchAndRewrite(PowOp op, mlir::PatternRewriter &rewriter) const override {
+    if (!isScalar(op.getBase().getType())) {
+      return rewriter.notifyMatchFailure(op, "Not a scalar base");
+    }
+
+    return PowConstantExponentPattern::matchAndRewrite(op, rewriter);
+  }
+
   mlir::Value createReplacement(mlir::RewriterBase &rewriter,
                                 mlir::Value base) const override {
     return rewriter.create<ConstantOp>(
@@ -5304,14 +5313,11 @@ mlir::OpFoldResult PowOp::fold(FoldAdaptor adaptor) {
     }
   }
 
-  if (exponent && isScalar(exponent) &&
-      getScalarAttributeValue<double>(exponent) == 0) {
-    return getAttr(resultType, static_cast<int64_t>(0));
-  }
-
   if (exponent && isScalar(exponent) &&
       getScalarAttributeValue<double>(exponent) == 1) {
-    return base;
+    if (mlir::cast<mlir::TypedAttr>(base).getType() == resultType) {
+      return base;
+    }
   }
 
   return {};
-- 
2.43.0


From 3e552dad6b6a897fb7bbdf7a9d6dcc5361a12892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 081/105] fix: BaseModelica: do not fold the size of the ranges
 with no step

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index ec6ad98..def5755 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -395,6 +395,11 @@ mlir::OpFoldResult RangeSizeOp::fold(FoldAdaptor adaptor) {
     int64_t beginValue = intRange.getLowerBound();
     int64_t endValue = intRange.getUpperBound();
     int64_t step = intRange.getStep();
+
+    if (step == 0) {
+      return {};
+    }
+
     int64_t result = 1 + (endValue - beginValue) / step;
 
     return mlir::IntegerAttr::get(mlir::IndexType::get(getContext()), result);
-- 
2.43.0


From 635b4547f7e732a9b282f3b274b4323497c8b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 082/105] fix: BaseModelica: differentiate the protected
 variables of functions

---
 .../Transforms/AutomaticDifferentiation/ForwardAD.cpp            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
index 2f3ecc4..ba131a1 100644
--- a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
@@ -399,6 +399,7 @@ std::optional<FunctionOp> createFunctionTimeDerivative(
       auto derName = getTimeDerVariableName(name, derivativeOrder);
       newProtectedVariableNames.push_back(derName);
       newProtectedVariableTypes.push_back(variableType);
+      inverseDerivativesNamesMap[derName] = name;
     }
   }
 
-- 
2.43.0


From a12bc4ce75b538262a8bbf56686d9b7742bd81aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 083/105] fix: BaseModelica: declare the higher derivatives of
 the protected variables

---
 .../AutomaticDifferentiation/ForwardAD.cpp           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
index ba131a1..8918a67 100644
--- a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
@@ -386,9 +386,15 @@ std::optional<FunctionOp> createFunctionTimeDerivative(
         inverseDerivativesNamesMap[derName] = name;
       }
     } else {
-      if (state.hasGenericOpDerivative(variableOp)) {
-        // Avoid duplicates of original output variables, which have become
-        // protected variables in the previous derivative functions.
+      // Avoid duplicates of original output variables, which have become
+      // protected variables in the previous derivative functions.
+      mlir::Operation *lastDerivative = variableOp;
+
+      while (auto derivative = state.getGenericOpDerivative(lastDerivative)) {
+        lastDerivative = *derivative;
+      }
+
+      if (mlir::cast<VariableOp>(lastDerivative).isOutput()) {
         continue;
       }
 
-- 
2.43.0


From a6d63156dc18cd4c28ac65c7f6e64221a94a3a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 084/105] fix: BaseModelica: seed the independent variable by
 its position among the inputs

---
 .../AutomaticDifferentiation/AutomaticDifferentiation.cpp   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
index f1f05f5..f72574e 100644
--- a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
@@ -202,10 +202,8 @@ mlir::LogicalResult AutomaticDifferentiationPass::convertPartialDerFunction(
   // Pre-compute the positions of input variables.
   llvm::StringMap<size_t> baseInputVarsPositions;
 
-  for (auto variable : llvm::enumerate(baseFunctionOp.getVariables())) {
-    if (variable.value().isInput()) {
-      baseInputVarsPositions[variable.value().getSymName()] = variable.index();
-    }
+  for (auto variable : llvm::enumerate(inputVariables)) {
+    baseInputVarsPositions[variable.value().getSymName()] = variable.index();
   }
 
   llvm::SmallVector<mlir::Type> templateFunctionArgTypes =
-- 
2.43.0


From 5cb425c8ad38a60a93c21fc17c3522e98113bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 085/105] fix: BaseModelica: square the denominator in the
 element-wise division derivative

---
 .../BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index c241c5f..025eda0 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -1795,7 +1795,7 @@ struct DivEWOpInterface
         loc, RealAttr::get(castedOp.getContext(), 2));
 
     mlir::Value denominator =
-        builder.create<PowEWOp>(loc, *denominatorType, two);
+        builder.create<PowEWOp>(loc, *denominatorType, castedOp.getRhs(), two);
 
     auto derivedOp =
         builder.create<DivEWOp>(loc, *resultType, numerator, denominator);
-- 
2.43.0


From 78ea1034b49272774963b9be407d44052b9c04a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 086/105] fix: BaseModelica: attach the derivable interface to
 the cast operation

---
 .../BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index 025eda0..9adefd1 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -3460,6 +3460,9 @@ void registerDerivableOpInterfaceExternalModels(
     ForOp::attachInterface<::ForOpInterface>(*context);
     WhileOp::attachInterface<::WhileOpInterface>(*context);
 
+    // Cast operations.
+    CastOp::attachInterface<::CastOpInterface>(*context);
+
     // Function operations.
     CallOp::attachInterface<::CallOpInterface>(*context);
     AlgorithmOp::attachInterface<::AlgorithmOpInterface>(*context);
-- 
2.43.0


From ea5a86ac6d2e0eec4c194697500047e89c05c9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 087/105] fix: BaseModelica: derive powers with scalar base and
 tensor exponent

---
 .../BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index 9adefd1..e1921c3 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -1978,8 +1978,13 @@ struct PowEWOpInterface
     mlir::Value pow = builder.create<PowEWOp>(
         loc, *resultType, castedOp.getBase(), castedOp.getExponent());
 
-    mlir::Value ln =
-        builder.create<LogOp>(loc, *resultType, castedOp.getBase());
+    auto lnType = getDerivedType(castedOp.getBase().getType());
+
+    if (mlir::failed(lnType)) {
+      return mlir::failure();
+    }
+
+    mlir::Value ln = builder.create<LogOp>(loc, *lnType, castedOp.getBase());
 
     mlir::Value firstOperand =
         builder.create<MulEWOp>(loc, *resultType, *derivedExponent, ln);
-- 
2.43.0


From 32102cdf6368571415928c037775a63ef39a185b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 088/105] fix: BaseModelica: provide seeds for the inputs with
 dynamic sizes

---
 include/marco/Dialect/BaseModelica/Transforms/Passes.td      | 3 ++-
 .../AutomaticDifferentiation/AutomaticDifferentiation.cpp    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/marco/Dialect/BaseModelica/Transforms/Passes.td b/include/marco/Dialect/BaseModelica/Transforms/Passes.td
index dc10a38..3a6011b 100644
--- a/include/marco/Dialect/BaseModelica/Transforms/Passes.td
+++ b/include/marco/Dialect/BaseModelica/Transforms/Passes.td
@@ -17,7 +17,8 @@ def AutomaticDifferentiationPass : Pass<"auto-diff", "mlir::ModuleOp">
     }];
 
     let dependentDialects = [
-        "mlir::bmodelica::BaseModelicaDialect"
+        "mlir::bmodelica::BaseModelicaDialect",
+        "mlir::tensor::TensorDialect"
     ];
 
     let constructor = "mlir::bmodelica::createAutomaticDifferentiationPass()";
diff --git a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
index f72574e..1799774 100644
--- a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
@@ -1,6 +1,7 @@
 #include "marco/Dialect/BaseModelica/Transforms/AutomaticDifferentiation.h"
 #include "marco/Dialect/BaseModelica/IR/Dialect.h"
 #include "marco/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.h"
+#include "mlir/Dialect/Tensor/IR/Tensor.h"
 
 namespace mlir::bmodelica {
 #define GEN_PASS_DEF_AUTOMATICDIFFERENTIATIONPASS
@@ -234,11 +235,11 @@ mlir::LogicalResult AutomaticDifferentiationPass::convertPartialDerFunction(
         llvm::SmallVector<mlir::Value> dynamicSizes;
 
         for (int64_t dim = 0, rank = tensorType.getRank(); dim < rank; ++dim) {
-          if (dim == mlir::ShapedType::kDynamic) {
+          if (tensorType.isDynamicDim(dim)) {
             mlir::Value dimIndex =
                 builder.create<ConstantOp>(loc, builder.getIndexAttr(dim));
 
-            mlir::Value dimSize = builder.create<DimOp>(
+            mlir::Value dimSize = builder.create<mlir::tensor::DimOp>(
                 loc, args[i % baseInputVarsPositions.size()], dimIndex);
 
             dynamicSizes.push_back(dimSize);
-- 
2.43.0


From d5c17feae4af3d5f012f07f06de2fd68ae33d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 089/105] fix: BaseModelica: derive the powers of matrices

---
 .../Transforms/DerivableOpInterfaceImpl.cpp   | 64 +++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index e1921c3..18c5152 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -1864,6 +1864,11 @@ struct PowOpInterface
       return mlir::failure();
     }
 
+    if (mlir::isa<mlir::ShapedType>(castedOp.getBase().getType())) {
+      return createMatrixDerivative(castedOp, builder, state, *derivedBase,
+                                    *resultType);
+    }
+
     if (auto constantExponent =
             castedOp.getExponent().getDefiningOp<ConstantOp>()) {
       mlir::Value one = builder.create<ConstantOp>(
@@ -1914,6 +1919,65 @@ struct PowOpInterface
     state.mapDerivative(castedOp, derivedOp);
     return mlir::success();
   }
+
+  /// Derive the power of a matrix, whose factors can't be exchanged:
+  /// D[x ^ n] = sum(x ^ k * x' * x ^ (n - 1 - k)), with k from 0 to n - 1.
+  mlir::LogicalResult createMatrixDerivative(PowOp op, mlir::OpBuilder &builder,
+                                             State &state,
+                                             mlir::Value derivedBase,
+                                             mlir::Type resultType) const {
+    mlir::Location loc = op.getLoc();
+    auto exponentOp = op.getExponent().getDefiningOp<ConstantOp>();
+
+    if (!exponentOp || !isScalarIntegerLike(exponentOp.getValue()) ||
+        getScalarIntegerLikeValue(exponentOp.getValue()) < 0) {
+      op.emitOpError()
+          << "Can't derive a matrix raised to a non-constant exponent";
+
+      return mlir::failure();
+    }
+
+    int64_t exponent = getScalarIntegerLikeValue(exponentOp.getValue());
+
+    auto multiplyByPower = [&](mlir::Value value, int64_t power, bool lhs) {
+      if (power == 0) {
+        return value;
+      }
+
+      mlir::Value powerOp = op.getBase();
+
+      if (power > 1) {
+        mlir::Value powerConstant = builder.create<ConstantOp>(
+            loc, IntegerAttr::get(builder.getContext(), power));
+
+        powerOp = builder.create<PowOp>(loc, resultType, powerOp,
+                                        powerConstant);
+      }
+
+      return builder
+          .create<MulOp>(loc, resultType, lhs ? powerOp : value,
+                         lhs ? value : powerOp)
+          .getResult();
+    };
+
+    mlir::Value sum;
+
+    for (int64_t power = 0; power < exponent; ++power) {
+      mlir::Value term = multiplyByPower(derivedBase, power, true);
+      term = multiplyByPower(term, exponent - 1 - power, false);
+      sum = sum ? builder.create<AddOp>(loc, resultType, sum, term) : term;
+    }
+
+    if (!sum) {
+      mlir::Value zero = builder.create<ConstantOp>(
+          loc, RealAttr::get(builder.getContext(), 0));
+
+      sum = builder.create<MulOp>(loc, resultType, zero, derivedBase);
+    }
+
+    state.mapDerivative(op, sum);
+    return mlir::success();
+  }
 };
 
 struct PowEWOpInterface
-- 
2.43.0


From 82ccec50d245a4c27a13e7e817913647cd289ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 090/105] fix: BaseModelica: print the type of the dense
 attributes once

---
 lib/Dialect/BaseModelica/IR/Attributes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Attributes.cpp b/lib/Dialect/BaseModelica/IR/Attributes.cpp
index bb68f16..5e2baeb 100644
--- a/lib/Dialect/BaseModelica/IR/Attributes.cpp
+++ b/lib/Dialect/BaseModelica/IR/Attributes.cpp
@@ -361,7 +361,7 @@ void DenseBooleanElementsAttr::print(mlir::AsmPrinter &printer) const {
     printer << (value.value() ? "true" : "false");
   }
 
-  printer << "]> : " << getType();
+  printer << "]>";
 }
 
 //===----------------------------------------------------------------------===//
@@ -418,7 +418,7 @@ void DenseIntegerElementsAttr::print(mlir::AsmPrinter &printer) const {
     printer << value.value();
   }
 
-  printer << "]> : " << getType();
+  printer << "]>";
 }
 
 //===----------------------------------------------------------------------===//
@@ -475,7 +475,7 @@ void DenseRealElementsAttr::print(mlir::AsmPrinter &printer) const {
     printer << value.value();
   }
 
-  printer << "]> : " << getType();
+  printer << "]>";
 }
 
 //===----------------------------------------------------------------------===//
-- 
2.43.0


From 4cd807fdfe5f3dd1d7fbde9fb0d837f0e7809fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 091/105] fix: BaseModelica: read all the elements of the dense
 attributes

---
 lib/Dialect/BaseModelica/IR/Attributes.cpp | 99 ++++++++--------------
 1 file changed, 34 insertions(+), 65 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Attributes.cpp b/lib/Dialect/BaseModelica/IR/Attributes.cpp
index 5e2baeb..917c326 100644
--- a/lib/Dialect/BaseModelica/IR/Attributes.cpp
+++ b/lib/Dialect/BaseModelica/IR/Attributes.cpp
@@ -311,31 +311,21 @@ mlir::Attribute DenseBooleanElementsAttr::parse(mlir::AsmParser &parser,
                                                 mlir::Type type) {
   llvm::SmallVector<bool> values;
 
-  if (parser.parseLess() || parser.parseLSquare()) {
-    return {};
-  }
-
-  bool value = false;
-
-  if (mlir::succeeded(parser.parseOptionalKeyword("true"))) {
-    value = true;
-  } else if (parser.parseKeyword("false")) {
-    return {};
-  }
-
-  values.push_back(value);
-
-  while (mlir::succeeded(parser.parseOptionalComma())) {
-    if (mlir::succeeded(parser.parseOptionalKeyword("true"))) {
-      value = true;
-    } else if (parser.parseKeyword("false")) {
-      return {};
-    }
-
-    values.push_back(value);
-  }
-
-  if (parser.parseRSquare() || parser.parseGreater()) {
+  if (parser.parseLess() ||
+      parser.parseCommaSeparatedList(
+          mlir::AsmParser::Delimiter::Square,
+          [&]() -> mlir::ParseResult {
+            bool value =
+                mlir::succeeded(parser.parseOptionalKeyword("true"));
+
+            if (!value && parser.parseKeyword("false")) {
+              return mlir::failure();
+            }
+
+            values.push_back(value);
+            return mlir::success();
+          }) ||
+      parser.parseGreater()) {
     return {};
   }
 
@@ -372,27 +362,13 @@ mlir::Attribute DenseIntegerElementsAttr::parse(mlir::AsmParser &parser,
                                                 mlir::Type type) {
   llvm::SmallVector<int64_t> values;
 
-  if (parser.parseLess() || parser.parseLSquare()) {
-    return {};
-  }
-
-  int64_t value;
-
-  if (parser.parseInteger(value)) {
-    return {};
-  }
-
-  values.push_back(value);
-
-  while (mlir::succeeded(parser.parseOptionalComma())) {
-    if (parser.parseInteger(value)) {
-      return {};
-    }
-
-    values.push_back(value);
-  }
-
-  if (parser.parseRSquare() || parser.parseGreater()) {
+  if (parser.parseLess() ||
+      parser.parseCommaSeparatedList(
+          mlir::AsmParser::Delimiter::Square,
+          [&]() -> mlir::ParseResult {
+            return parser.parseInteger(values.emplace_back());
+          }) ||
+      parser.parseGreater()) {
     return {};
   }
 
@@ -429,27 +405,20 @@ mlir::Attribute DenseRealElementsAttr::parse(mlir::AsmParser &parser,
                                              mlir::Type type) {
   llvm::SmallVector<llvm::APFloat> values;
 
-  if (parser.parseLess() || parser.parseLSquare()) {
-    return {};
-  }
+  if (parser.parseLess() ||
+      parser.parseCommaSeparatedList(
+          mlir::AsmParser::Delimiter::Square,
+          [&]() -> mlir::ParseResult {
+            double value;
 
-  double value;
+            if (parser.parseFloat(value)) {
+              return mlir::failure();
+            }
 
-  if (parser.parseFloat(value)) {
-    return {};
-  }
-
-  values.emplace_back(value);
-
-  while (mlir::succeeded(parser.parseOptionalComma())) {
-    if (parser.parseFloat(value)) {
-      return {};
-    }
-
-    values.emplace_back(value);
-  }
-
-  if (parser.parseRSquare() || parser.parseGreater()) {
+            values.emplace_back(value);
+            return mlir::success();
+          }) ||
+      parser.parseGreater()) {
     return {};
   }
 
-- 
2.43.0


From 1f793350859022880c512ed9dbc562684691ea43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 092/105] fix: BaseModelica: print and read the memory space of
 the types

---
 lib/Dialect/BaseModelica/IR/Types.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Types.cpp b/lib/Dialect/BaseModelica/IR/Types.cpp
index 7eabb76..644201e 100644
--- a/lib/Dialect/BaseModelica/IR/Types.cpp
+++ b/lib/Dialect/BaseModelica/IR/Types.cpp
@@ -244,8 +244,13 @@ void ArrayType::print(mlir::AsmPrinter &printer) const {
     printer << "x";
   }
 
-  printer << getElementType() << ">";
-  // TODO print memory space
+  printer << getElementType();
+
+  if (getMemorySpace()) {
+    printer << ", " << getMemorySpace();
+  }
+
+  printer << ">";
 }
 
 ArrayType ArrayType::get(llvm::ArrayRef<int64_t> shape, mlir::Type elementType,
@@ -339,8 +344,13 @@ mlir::Type UnrankedArrayType::parse(mlir::AsmParser &parser) {
 }
 
 void UnrankedArrayType::print(mlir::AsmPrinter &printer) const {
-  printer << "<" << getElementType() << ">";
-  // TODO print memory space
+  printer << "<" << getElementType();
+
+  if (getMemorySpace()) {
+    printer << ", " << getMemorySpace();
+  }
+
+  printer << ">";
 }
 
 mlir::LogicalResult UnrankedArrayType::verify(
@@ -394,6 +404,7 @@ mlir::Type VariableType::parse(mlir::AsmParser &parser) {
 
   VariabilityProperty variabilityProperty = VariabilityProperty::none;
   IOProperty ioProperty = IOProperty::none;
+  mlir::Attribute memorySpace;
 
   while (mlir::succeeded(parser.parseOptionalComma())) {
     if (mlir::succeeded(parser.parseOptionalKeyword("discrete"))) {
@@ -406,6 +417,8 @@ mlir::Type VariableType::parse(mlir::AsmParser &parser) {
       ioProperty = IOProperty::input;
     } else if (mlir::succeeded(parser.parseOptionalKeyword("output"))) {
       ioProperty = IOProperty::output;
+    } else if (parser.parseAttribute(memorySpace)) {
+      return {};
     }
   }
 
@@ -414,7 +427,7 @@ mlir::Type VariableType::parse(mlir::AsmParser &parser) {
   }
 
   return VariableType::get(dimensions, elementType, variabilityProperty,
-                           ioProperty);
+                           ioProperty, memorySpace);
 }
 
 void VariableType::print(mlir::AsmPrinter &printer) const {
@@ -446,6 +459,10 @@ void VariableType::print(mlir::AsmPrinter &printer) const {
     printer << ", output";
   }
 
+  if (getMemorySpace()) {
+    printer << ", " << getMemorySpace();
+  }
+
   printer << ">";
 }
 
-- 
2.43.0


From 9c9fe7f7162f2f590ba63094d20c75fc41fe570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 093/105] fix: BaseModelica: print the types of the ranges with
 their dialect

---
 include/marco/Dialect/BaseModelica/IR/Ops.td                   | 2 +-
 .../Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/marco/Dialect/BaseModelica/IR/Ops.td b/include/marco/Dialect/BaseModelica/IR/Ops.td
index e99ea9c..482124f 100644
--- a/include/marco/Dialect/BaseModelica/IR/Ops.td
+++ b/include/marco/Dialect/BaseModelica/IR/Ops.td
@@ -124,7 +124,7 @@ def BaseModelicaEquation :
 // Range type.
 def BaseModelicaRange :
     Type<CPred<"mlir::isa<::mlir::bmodelica::RangeType>($_self)">,
-         "range", "::mlir::bmodelica::RangeType">;
+         "range">;
 
 // MultidimensionalRange attribute.
 def MultidimensionalRangeAttr
diff --git a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
index 05c6ef8..a9f18cc 100644
--- a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
@@ -220,7 +220,8 @@ struct RangeSizeOpLowering : public mlir::OpRewritePattern<RangeSizeOp> {
     mlir::Value stepValue = rewriter.create<RangeStepOp>(loc, op.getRange());
 
     mlir::Value result = rewriter.create<SubOp>(
-        loc, op.getRange().getType().getInductionType(), endValue, beginValue);
+        loc, mlir::cast<RangeType>(op.getRange().getType()).getInductionType(),
+        endValue, beginValue);
 
     result =
         rewriter.create<DivOp>(loc, rewriter.getIndexType(), result, stepValue);
-- 
2.43.0


From 4bd98e4da2584b0cf5a8c39c59f88f8d4948f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 094/105] fix: BaseModelica: read the constructors of empty
 tensors and arrays

---
 include/marco/Dialect/BaseModelica/IR/Ops.td | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/marco/Dialect/BaseModelica/IR/Ops.td b/include/marco/Dialect/BaseModelica/IR/Ops.td
index 482124f..6b90140 100644
--- a/include/marco/Dialect/BaseModelica/IR/Ops.td
+++ b/include/marco/Dialect/BaseModelica/IR/Ops.td
@@ -464,7 +464,7 @@ def Modelica_TensorFromElementsOp : BaseModelica_Op<"tensor_from_elements",
     let results = (outs AnyTensor:$tensor);
 
     let assemblyFormat = [{
-        $values attr-dict `:` type($values) `->` type($tensor)
+        $values attr-dict (`:` type($values)^)? `->` type($tensor)
     }];
 
     let hasVerifier = 1;
@@ -707,7 +707,7 @@ def Modelica_ArrayFromElementsOp : BaseModelica_Op<"array_from_elements",
     let results = (outs AnyBaseModelicaArray:$array);
 
     let assemblyFormat = [{
-        $values attr-dict `:` type($values) `->` type($array)
+        $values attr-dict (`:` type($values)^)? `->` type($array)
     }];
 
     let hasVerifier = 1;
-- 
2.43.0


From cd39ecd56eaea32e7ac868c16891c5a62373eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 095/105] fix: BaseModelica: read the attributes of the select
 operation

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index def5755..044c005 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -6321,7 +6321,8 @@ mlir::ParseResult SelectOp::parse(mlir::OpAsmParser &parser,
     return mlir::failure();
   }
 
-  if (parser.parseArrowTypeList(resultTypes)) {
+  if (parser.parseOptionalAttrDict(result.attributes) ||
+      parser.parseArrowTypeList(resultTypes)) {
     return mlir::failure();
   }
 
-- 
2.43.0


From 2a44c42a27ff1da095b9e2abd35679df36f62d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 096/105] fix: BaseModelica: read the unbounded dimensions of
 the variables

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 044c005..76afdcd 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -1374,6 +1374,10 @@ mlir::ParseResult VariableOp::parse(mlir::OpAsmParser &parser,
     if (parser.parseRSquare()) {
       return mlir::failure();
     }
+  } else if (auto variableType = mlir::dyn_cast<VariableType>(type)) {
+    // The constraints are not printed when all the dimensions are unbounded.
+    dimensionsConstraints.append(variableType.getNumDynamicDims(),
+                                 kDimensionConstraintUnbounded);
   }
 
   result.attributes.append(getDimensionsConstraintsAttrName(result.name),
-- 
2.43.0


From 1fc5d961d01e50e1213d6068346450ed9ffb4940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 097/105] fix: BaseModelica: read the empty branches of the if
 operation

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 76afdcd..7ae6c27 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -11445,12 +11445,20 @@ mlir::ParseResult IfOp::parse(mlir::OpAsmParser &parser,
     return mlir::failure();
   }
 
+  if (thenRegion->empty()) {
+    thenRegion->emplaceBlock();
+  }
+
   mlir::Region *elseRegion = result.addRegion();
 
   if (mlir::succeeded(parser.parseOptionalKeyword("else"))) {
     if (parser.parseRegion(*elseRegion)) {
       return mlir::failure();
     }
+
+    if (elseRegion->empty()) {
+      elseRegion->emplaceBlock();
+    }
   }
 
   return mlir::success();
-- 
2.43.0


From b3c77939739d0b6c6bf936bfbb6225a6e689eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 098/105] fix: BaseModelica: read the lists of variables
 independently

---
 lib/Dialect/BaseModelica/IR/Properties.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Properties.cpp b/lib/Dialect/BaseModelica/IR/Properties.cpp
index 5f52688..4aa2641 100644
--- a/lib/Dialect/BaseModelica/IR/Properties.cpp
+++ b/lib/Dialect/BaseModelica/IR/Properties.cpp
@@ -210,9 +210,9 @@ mlir::LogicalResult parse(mlir::OpAsmParser &parser, VariablesList &prop) {
   }
 
   if (mlir::failed(parser.parseOptionalRSquare())) {
-    Variable variable;
-
     do {
+      Variable variable;
+
       if (mlir::failed(parse(parser, variable))) {
         return mlir::failure();
       }
-- 
2.43.0


From 4f18b3eae3feb22bd59276becc928c78f153ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 099/105] fix: BaseModelica: read the equation instances
 without a match

---
 lib/Dialect/BaseModelica/IR/Properties.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Properties.cpp b/lib/Dialect/BaseModelica/IR/Properties.cpp
index 4aa2641..60b7bcc 100644
--- a/lib/Dialect/BaseModelica/IR/Properties.cpp
+++ b/lib/Dialect/BaseModelica/IR/Properties.cpp
@@ -49,6 +49,12 @@ mlir::LogicalResult Variable::setFromAttr(
     return mlir::failure();
   }
 
+  if (dictAttr.empty()) {
+    // There is no variable.
+    prop = Variable();
+    return mlir::success();
+  }
+
   auto nameAttr = dictAttr.getAs<mlir::SymbolRefAttr>("name");
 
   if (!nameAttr) {
@@ -77,7 +83,7 @@ llvm::hash_code hash_value(const Variable &value) { return value.hash(); }
 mlir::LogicalResult
 Variable::readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
                                Variable &prop) {
-  if (mlir::failed(reader.readAttribute(prop.name))) {
+  if (mlir::failed(reader.readOptionalAttribute(prop.name))) {
     return mlir::failure();
   }
 
@@ -90,7 +96,7 @@ Variable::readFromMlirBytecode(mlir::DialectBytecodeReader &reader,
 }
 
 void Variable::writeToMlirBytecode(mlir::DialectBytecodeWriter &writer) const {
-  writer.writeAttribute(name);
+  writer.writeOptionalAttribute(name);
   mlir::modeling::writeToMlirBytecode(writer, indices);
 }
 
-- 
2.43.0


From b7c74803b76648ffade5c65f80e2a09449df3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:53 +0000
Subject: [PATCH 100/105] fix: BaseModelica: group the accesses multiplied by
 an induction variable

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 7ae6c27..264861b 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -9125,6 +9125,11 @@ EquationTemplateOp::getMultiplyingFactor(
 
   mlir::Operation *op = value.getDefiningOp();
 
+  if (!op) {
+    // Induction variables have no access to the variables.
+    return std::make_pair(static_cast<unsigned int>(0), value);
+  }
+
   if (auto constantOp = mlir::dyn_cast<ConstantOp>(op)) {
     return std::make_pair(static_cast<unsigned int>(0), constantOp.getResult());
   }
-- 
2.43.0


From 462281fe064b9327f92deaeef48b44b2c6f633e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:53 +0000
Subject: [PATCH 101/105] fix: BaseModelica: group the accesses multiplied by
 other variables

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 264861b..3c34cf1 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -9238,7 +9238,9 @@ EquationTemplateOp::getMultiplyingFactor(
   // Check that the value is not the result of an operation using the
   // variable of interest. If it has such access, then we are not able to
   // extract the multiplying factor.
-  if (hasAccessToVar(value, path)) {
+  auto hasAccess = hasAccessToVar(value, path);
+
+  if (!hasAccess || *hasAccess) {
     return std::make_pair(static_cast<unsigned int>(1), mlir::Value());
   }
 
-- 
2.43.0


From 2391711e9d09a008b53a0eace3c2f6588f6a90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:53 +0000
Subject: [PATCH 102/105] fix: BaseModelica: group the accesses of equations
 which read other elements of the variable

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 3c34cf1..5c79b96 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -9388,21 +9388,11 @@ mlir::LogicalResult EquationTemplateOp::groupLeftHandSide(
       return mlir::failure();
     }
 
-    const AccessFunction &accessFunction = access.getAccessFunction();
-
+    // The other accesses to the variable may overlap with the requested one,
+    // in case of array equations.
     result = llvm::any_of(accesses, [&](const VariableAccess &acc) {
-      if (acc.getVariable() != access.getVariable()) {
-        return false;
-      }
-
-      IndexSet requestedIndices = accessFunction.map(equationIndices);
-
-      const AccessFunction &currentAccessFunction = acc.getAccessFunction();
-      auto currentIndices = currentAccessFunction.map(equationIndices);
-
-      assert(requestedIndices == currentIndices ||
-             !requestedIndices.overlaps(currentIndices));
-      return requestedIndices == currentIndices;
+      return acc.getVariable() == access.getVariable() &&
+             checkAccessEquivalence(equationIndices, acc, access);
     });
 
     return mlir::success();
-- 
2.43.0


From 4ab7eb19fee19d58e9686019b8b296d694a9ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:34 +0000
Subject: [PATCH 103/105] fix: BaseModelica: keep the matched indices when
 removing the single-valued inductions

---
 .../SingleValuedInductionElimination.cpp      | 47 ++++++++++++-------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp b/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
index 3f65d65..0ebb907 100644
--- a/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/SingleValuedInductionElimination.cpp
@@ -90,6 +90,17 @@ mlir::LogicalResult SingleValuedInductionEliminationPass::processEquation(
     return mlir::success();
   }
 
+  llvm::SmallVector<VariableAccess> accesses;
+  llvm::SmallVector<VariableAccess> writeAccesses;
+
+  if (equation.getProperties().match) {
+    if (mlir::failed(equation.getAccesses(accesses, symbolTableCollection)) ||
+        mlir::failed(equation.getWriteAccesses(
+            writeAccesses, symbolTableCollection, accesses))) {
+      return mlir::failure();
+    }
+  }
+
   IndexSet remainingIndices = equationIndices;
 
   for (const MultidimensionalRange &range : llvm::make_range(
@@ -123,31 +134,32 @@ mlir::LogicalResult SingleValuedInductionEliminationPass::processEquation(
 
       // But remove the single-valued dimensions from the indices.
       llvm::SmallVector<Range> newRanges;
-      llvm::SmallVector<Range> removedRanges;
 
       for (size_t i = 0; i < rank; ++i) {
-        if (singleValuedInductions[i]) {
-          removedRanges.push_back(
-              Range(range[i].getBegin(), range[i].getBegin() + 1));
-        } else {
+        if (!singleValuedInductions[i]) {
           newRanges.push_back(range[i]);
-          removedRanges.push_back(range[i]);
         }
       }
 
-      remainingIndices -= MultidimensionalRange(removedRanges);
+      remainingIndices -= range;
 
-      if (newRanges.empty()) {
-        if (mlir::failed(newInstance.setIndices({}, symbolTableCollection))) {
-          return mlir::failure();
-        }
-      } else {
-        if (mlir::failed(newInstance.setIndices(
-                IndexSet(MultidimensionalRange(newRanges)),
-                symbolTableCollection))) {
-          return mlir::failure();
+      // The matched indices are determined on the original equation, as the
+      // ones of the new instance refer to all the dimensions.
+      if (newInstance.getProperties().match) {
+        newInstance.getProperties().match.indices = {};
+
+        for (const VariableAccess &writeAccess : writeAccesses) {
+          newInstance.getProperties().match.indices +=
+              writeAccess.getAccessFunction().map(IndexSet(range));
         }
       }
+
+      newInstance.getProperties().indices = {};
+
+      if (!newRanges.empty()) {
+        newInstance.getProperties().indices =
+            IndexSet(MultidimensionalRange(newRanges));
+      }
     }
   }
 
@@ -156,7 +168,8 @@ mlir::LogicalResult SingleValuedInductionEliminationPass::processEquation(
     rewriter.eraseOp(equation);
   } else {
     if (mlir::failed(
-            equation.setIndices(remainingIndices, symbolTableCollection))) {
+            equation.setIndices(remainingIndices, symbolTableCollection,
+                                writeAccesses))) {
       return mlir::failure();
     }
   }
-- 
2.43.0


From d1b630319c660275b044e82dce64e4afa185402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 104/105] fix: BaseModelica: keep the matched indices when
 replacing an access

---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 5c79b96..e3c2874 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -10210,6 +10210,19 @@ mlir::LogicalResult EquationInstanceOp::cloneWithReplacedAccess(
     return mlir::failure();
   }
 
+  // The replacement may introduce further accesses to the matched variable,
+  // but the written indices remain the ones of the original equation.
+  llvm::SmallVector<VariableAccess> accesses;
+  llvm::SmallVector<VariableAccess> writeAccesses;
+
+  if (getProperties().match) {
+    if (mlir::failed(getAccesses(accesses, symbolTableCollection)) ||
+        mlir::failed(getWriteAccesses(writeAccesses, symbolTableCollection,
+                                      accesses))) {
+      return mlir::failure();
+    }
+  }
+
   rewriter.setInsertionPointAfter(getOperation());
 
   auto temporaryClonedOp =
@@ -10230,8 +10243,8 @@ mlir::LogicalResult EquationInstanceOp::cloneWithReplacedAccess(
           slicedAssignedIndices.takeFirstDimensions(indices.rank());
     }
 
-    if (mlir::failed(clonedOp.setIndices(slicedAssignedIndices,
-                                         symbolTableCollection))) {
+    if (mlir::failed(clonedOp.setIndices(
+            slicedAssignedIndices, symbolTableCollection, writeAccesses))) {
       return mlir::failure();
     }
 
-- 
2.43.0


From df6fe1621cad2e59fa619794cd2dec61d092d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:20 +0000
Subject: [PATCH 105/105] fix: BaseModelica: keep track of the remaining parts
 of the equations of a cycle

---
 .../BaseModelica/Transforms/SCCSolvingBySubstitution.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp b/lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp
index 872cb2d..c048779 100644
--- a/lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/SCCSolvingBySubstitution.cpp
@@ -586,7 +586,7 @@ mlir::LogicalResult SCCSolvingBySubstitutionPass::solveCycle(
               return mlir::failure();
             }
 
-            currentEquations.push_back(clonedOp);
+            allNewEquations.push_back(clonedOp);
           }
         }
 
-- 
2.43.0

