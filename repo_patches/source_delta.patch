From 03c11c14e09a73091a6e43b27d422123ef042e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 01/62] fix: size the shell contact output with the ribs

shell::resize only reserved room for 200 outputs and every access to m_out[i]
was out of the vector's bounds, overflowing the heap for more than 200 ribs.
---
 src/shell.cc         | 1 +
 toolbox/src/shell.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0f17f9a..310d749 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0f17f9a..310d749 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -84,6 +84,7 @@ namespace enve
     this->m_out.clear();        this->m_out.reserve(200);
     this->m_candidates.clear(); this->m_candidates.reserve(200);
 
+    this->m_out.resize(size);
     this->m_candidates.resize(size);
     for (size_t i = 0; i < size; ++i)
       {this->m_candidates[i].reserve(200);}
-- 
2.43.0


From 15b82fbe5d52b2221bfb85a8142e7f320587edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 02/62] fix: total contact area sums the ribs areas

shell::contactArea(real &) summed the ribs friction.
---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 310d749..9a55867 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 310d749..9a55867 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -731,7 +731,7 @@ namespace enve
   {
     area = 0.0;
     for (size_t i = 0; i < this->size(); ++i)
-      {area += this->m_out[i].friction;}
+      {area += this->m_out[i].area;}
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From ae8ceb1df3a4e35746f06db00a0c59c52b684d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 03/62] fix: flat ground setup reports the contact of any rib

Only the result of the last rib was returned.
---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 9a55867..0b02eb7 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 9a55867..0b02eb7 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -496,7 +496,7 @@ namespace enve
     // Perform intersection on all ribs
     bool out = false;
     for (size_t i = 0; i < this->size(); ++i)
-      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]);}
+      {out = this->m_ribs[i].envelop(ground, pose, method, this->m_out[i]) || out;}
     return out;
 
     #undef CMD
-- 
2.43.0


From f9a513fd9d44c4912ee8e5bc105ca9702ae3cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 04/62] fix: resize the output of the affine and angles vector
 getters

Unlike the other vector getters they wrote past the end of a shorter vector.
---
 src/shell.cc         | 2 ++
 toolbox/src/shell.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/shell.cc b/src/shell.cc
index 0b02eb7..36b26ab 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -842,6 +842,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -884,6 +885,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 0b02eb7..36b26ab 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -842,6 +842,7 @@ namespace enve
   )
     const
   {
+    pose.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->contactPointAffine(i, pose[i]);}
   }
@@ -884,6 +885,7 @@ namespace enve
   )
     const
   {
+    angles.resize(this->size());
     for (size_t i = 0; i < this->size(); ++i)
       {this->relativeAngles(i, angles[i]);}
   }
-- 
2.43.0


From 7634daef24f9bdc3eb0ce99ea2aaba27486bfb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 05/62] fix: small volume contact depth is the mean of the ribs
 depths

The average depth was volume_sum / size when the volume was below the tolerance,
while point, normal and friction are the mean over the ribs.
---
 src/shell.cc         | 4 +++-
 toolbox/src/shell.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index 36b26ab..e916105 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -685,7 +685,9 @@ namespace enve
     this->contactVolume(volume_sum);
     if (volume_sum < EPSILON_ENVE)
     {
-      depth = volume_sum / size;
+      for (size_t i = 0; i < size; ++i)
+        {depth += this->m_out[i].depth;}
+      depth /= size;
     }
     else
     {
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 36b26ab..e916105 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -685,7 +685,9 @@ namespace enve
     this->contactVolume(volume_sum);
     if (volume_sum < EPSILON_ENVE)
     {
-      depth = volume_sum / size;
+      for (size_t i = 0; i < size; ++i)
+        {depth += this->m_out[i].depth;}
+      depth /= size;
     }
     else
     {
-- 
2.43.0


From 83eb4138897e7d33eb04b54160e2081c3f369b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:45 +0000
Subject: [PATCH 06/62] fix: shell bounding box contains all the ribs

The box had the maximum radius as half side, so ribs at the border of a cambered,
steered or wide shell stuck out of it and lost the triangles they touch.
---
 src/shell.cc         | 2 +-
 toolbox/src/shell.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shell.cc b/src/shell.cc
index e916105..1dea2b4 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -417,7 +417,7 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    real  radius = std::hypot(this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceWidth());
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index e916105..1dea2b4 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -417,7 +417,7 @@ namespace enve
   void
   shell::updateBBox(void)
   {
-    real  radius = this->m_shape->surfaceMaxRadius();
+    real  radius = std::hypot(this->m_shape->surfaceMaxRadius(), this->m_shape->surfaceWidth());
     point origin(this->m_affine.translation());
     point extrema(radius, radius, radius);
     this->m_bbox->min() = origin - extrema;
-- 
2.43.0


From a709988f7c7662207c2a12c097bae7b5b7cab684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 07/62] fix: reject elements with an index past the nodes list

mesh::load only rejected negative indices and read out of bounds otherwise.
---
 src/mesh.cc         | 8 ++++++++
 toolbox/src/mesh.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index db7bf1c..58876dd 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -308,6 +308,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes_count &&
+                      size_t(i_element[1]) < nodes_count &&
+                      size_t(i_element[2]) < nodes_count,
+            CMD "element index out of the nodes list.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -424,6 +428,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes_count &&
+                      size_t(i_element[1]) < nodes_count &&
+                      size_t(i_element[2]) < nodes_count,
+            CMD "element index out of the nodes list.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index db7bf1c..58876dd 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -308,6 +308,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes_count &&
+                      size_t(i_element[1]) < nodes_count &&
+                      size_t(i_element[2]) < nodes_count,
+            CMD "element index out of the nodes list.");
           ENVE_ASSERT(i_friction >= real(0.0),
             CMD "element friction cannot be negative.");
 
@@ -424,6 +428,10 @@ namespace enve
             CMD "element 1 index cannot be negative.");
           ENVE_ASSERT(i_element[2] >= integer(0),
             CMD "element 2 index cannot be negative.");
+          ENVE_ASSERT(size_t(i_element[0]) < nodes_count &&
+                      size_t(i_element[1]) < nodes_count &&
+                      size_t(i_element[2]) < nodes_count,
+            CMD "element index out of the nodes list.");
 
           // Create a shared pointer for the last triangle
           this->m_triangles.push_back(
-- 
2.43.0


From bfd26c32b6c2d0e2a3c53a843d40dfc3d54c101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 08/62] fix: loading a mesh replaces the triangles of the
 object

mesh::load appended to the triangles in the object, so that a second load always
threw, and it left the triangles read so far behind when it threw.
---
 src/mesh.cc         | 20 ++++++++++++--------
 toolbox/src/mesh.cc | 20 ++++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 58876dd..704cd7b 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -239,7 +239,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -316,7 +317,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -329,11 +330,11 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
@@ -341,6 +342,7 @@ namespace enve
       else
       {
         // Update the local intersected triangles list
+        this->m_triangles.swap(triangles);
         std::cout
           << "Building AABB tree... ";
         this->buildAABBtree();
@@ -387,7 +389,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -434,7 +437,7 @@ namespace enve
             CMD "element index out of the nodes list.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -452,11 +455,11 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
@@ -464,6 +467,7 @@ namespace enve
       else
       {
         // Update the local intersected triangles list
+        this->m_triangles.swap(triangles);
         std::cout << "Building AABB tree... ";
         this->buildAABBtree();
         std::cout
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 58876dd..704cd7b 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -239,7 +239,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
       bool   nodes_parse    = false;
@@ -316,7 +317,7 @@ namespace enve
             CMD "element friction cannot be negative.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, i_friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -329,11 +330,11 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.rdf loaded mesh is empty.");
         //return false;
@@ -341,6 +342,7 @@ namespace enve
       else
       {
         // Update the local intersected triangles list
+        this->m_triangles.swap(triangles);
         std::cout
           << "Building AABB tree... ";
         this->buildAABBtree();
@@ -387,7 +389,8 @@ namespace enve
       // Vector for nodes coordinates
       std::vector<point> nodes;
       nodes.reserve(25000);
-      this->m_triangles.reserve(100000);
+      triangleground::vecptr triangles;
+      triangles.reserve(100000);
       size_t nodes_count    = size_t(0);
       size_t elements_count = size_t(0);
 
@@ -434,7 +437,7 @@ namespace enve
             CMD "element index out of the nodes list.");
 
           // Create a shared pointer for the last triangle
-          this->m_triangles.push_back(
+          triangles.push_back(
             std::make_shared<triangleground const>(
               elements_count, friction,
               nodes[i_element[0]], nodes[i_element[1]], nodes[i_element[2]]
@@ -452,11 +455,11 @@ namespace enve
         << "Done" << std::endl;
 
       // Perform safety check
-      ENVE_ASSERT(nodes.size() == nodes_count && this->m_triangles.size() == elements_count,
+      ENVE_ASSERT(nodes.size() == nodes_count && triangles.size() == elements_count,
         CMD "safety check not passed.");
 
       file.close();
-      if (this->m_triangles.empty())
+      if (triangles.empty())
       {
         ENVE_ERROR(CMD "*.obj loaded mesh is empty.");
         //return false;
@@ -464,6 +467,7 @@ namespace enve
       else
       {
         // Update the local intersected triangles list
+        this->m_triangles.swap(triangles);
         std::cout << "Building AABB tree... ";
         this->buildAABBtree();
         std::cout
-- 
2.43.0


From 247a6e53243befbe9bd56be9566721a5477f006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 09/62] fix: skip empty lines when loading a mesh

firstToken drops the carriage return, so no empty line was recognised as such.
---
 src/mesh.cc         | 4 ++--
 toolbox/src/mesh.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 704cd7b..4def4e0 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -274,7 +274,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
@@ -445,7 +445,7 @@ namespace enve
             ++elements_count;
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 704cd7b..4def4e0 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -274,7 +274,7 @@ namespace enve
           // Treated as a sigle-line comment
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
@@ -445,7 +445,7 @@ namespace enve
             ++elements_count;
           continue;
         }
-        else if (token[0] == '%' || token[0] == '#' || token[0] == '\r')
+        else if (token.empty() || token[0] == '%' || token[0] == '#')
         {
           // Check comments or empty lines
           continue;
-- 
2.43.0


From 344e099c4e5ea7ce669ddab0c2d9fea167569a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 10/62] fix: intersection with an empty AABB tree

The box of an empty tree is null: intersecting a mesh without triangles crashed.
---
 toolbox/src/AABBtree.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index a7aee91..3666909 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -218,6 +218,8 @@ namespace acme
   )
     const
   {
+    if (tree.isEmpty() || this->isEmpty())
+      return;
     if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
       return;
     integer icase = (this->m_children.empty() ? 0 : 1) +
-- 
2.43.0


From 15616d12fe80cc640e3421f03a8d3a6c1a037208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 11/62] fix: keep the AABB tree in step when copying or
 clearing a mesh

The tree kept the boxes of the previous triangles, whose ids then indexed the new
(or empty) triangles list.
---
 src/mesh.cc         | 3 +++
 toolbox/src/mesh.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index 4def4e0..ab65ceb 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,8 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->m_bboxes.clear();
+      this->m_AABBtree->clear();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 4def4e0..ab65ceb 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -107,6 +107,7 @@ namespace enve
     )
     {
       this->m_triangles = mesh_obj.m_triangles;
+      this->buildAABBtree();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -120,6 +121,8 @@ namespace enve
           {this->m_triangles[i].reset();}
       }
       this->m_triangles.clear();
+      this->m_bboxes.clear();
+      this->m_AABBtree->clear();
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From e959d41b20bf71be1328b3c8cbb188aa325c505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 12/62] fix: mesh boxes refer to the position of the triangle

mesh::intersection uses the id of the box as index in the triangles list, but it
was the id chosen by the user for triangles passed to the mesh constructor.
---
 src/mesh.cc         | 4 +++-
 toolbox/src/mesh.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index ab65ceb..927b076 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -532,8 +532,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
+        // The id is the position in the triangles list
+        aabb const & box = this->m_triangles[i]->bbox();
         this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
+          std::make_shared<aabb const>(box.min(), box.max(), i, 0)
         );
       }
     }
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index ab65ceb..927b076 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -532,8 +532,10 @@ namespace enve
       this->m_bboxes.clear();
       for (size_t i = 0; i < this->m_triangles.size(); ++i)
       {
+        // The id is the position in the triangles list
+        aabb const & box = this->m_triangles[i]->bbox();
         this->m_bboxes.push_back(
-          std::make_shared<aabb const>(this->m_triangles[i]->bbox())
+          std::make_shared<aabb const>(box.min(), box.max(), i, 0)
         );
       }
     }
-- 
2.43.0


From 89eadcb4a6530def438b127fd30f3c211f057968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 13/62] fix: rib::copy copies the y-axis component

---
 src/rib.cc         | 1 +
 toolbox/src/rib.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rib.cc b/src/rib.cc
index d3ecc4e..c12bf5c 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d3ecc4e..c12bf5c 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -84,6 +84,7 @@ namespace enve
   {
     this->disk::operator=(rib_obj);
     this->m_id    = rib_obj.m_id;
+    this->m_y     = rib_obj.m_y;
     this->m_width = rib_obj.m_width;
     this->m_angle = rib_obj.m_angle;
   }
-- 
2.43.0


From cede2c336db76fac13e6c82fa52653aa075f5fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 14/62] fix: triangleground::copy copies the id

---
 src/triangleground.cc         | 1 +
 toolbox/src/triangleground.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/triangleground.cc b/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 92846d4..84cf7f3 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -148,6 +148,7 @@ namespace enve
   )
   {
     this->triangle::operator=(triangleground_obj);
+    this->m_id       = triangleground_obj.m_id;
     this->m_friction = triangleground_obj.m_friction;
     this->m_normal   = triangleground_obj.m_normal;
     this->m_bbox     = triangleground_obj.m_bbox;
-- 
2.43.0


From 8a1da298dcf400a1256b38022e0e7cad6ba3a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 15/62] fix: flat and triangleground isApprox use the given
 tolerance

---
 src/flat.cc                   | 2 +-
 src/triangleground.cc         | 2 +-
 toolbox/src/flat.cc           | 2 +-
 toolbox/src/triangleground.cc | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/flat.cc b/src/flat.cc
index b09581b..fec3f81 100644
--- a/src/flat.cc
+++ b/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/src/triangleground.cc b/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/src/triangleground.cc
+++ b/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
diff --git a/toolbox/src/flat.cc b/toolbox/src/flat.cc
index b09581b..fec3f81 100644
--- a/toolbox/src/flat.cc
+++ b/toolbox/src/flat.cc
@@ -146,7 +146,7 @@ namespace enve
     )
       const
     {
-      return this->plane::isApprox(flat_bj) &&
+      return this->plane::isApprox(flat_bj, tolerance) &&
              IsApprox(this->m_friction, flat_bj.m_friction, tolerance);
     }
 
diff --git a/toolbox/src/triangleground.cc b/toolbox/src/triangleground.cc
index 84cf7f3..a815491 100644
--- a/toolbox/src/triangleground.cc
+++ b/toolbox/src/triangleground.cc
@@ -163,7 +163,7 @@ namespace enve
   )
     const
   {
-    return this->triangle::isApprox(triangleground_obj) &&
+    return this->triangle::isApprox(triangleground_obj, tolerance) &&
            IsApprox(this->m_friction, triangleground_obj.m_friction, tolerance);
   }
 
-- 
2.43.0


From ad3677377dfcabc9d4cf303cb138b0048aa595c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 16/62] fix: a triangle touching the rib in a point does not
 hide the others

The loop on the triangles stopped at the first one whose intersection with the rib
degenerates to a point, as for a mesh vertex in the rib plane.
---
 src/rib.cc         | 2 +-
 toolbox/src/rib.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index c12bf5c..de68a4b 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -272,7 +272,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index c12bf5c..de68a4b 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -272,7 +272,7 @@ namespace enve
         // Check intersection
         segment_length_tmp = segment_tmp.length();
         if (t_b - t_a < EPSILON_ENVE && segment_length_tmp < EPSILON_ENVE)
-          {break;}
+          {continue;}
         else
           {int_bool = true;}
 
-- 
2.43.0


From 969bd28050780d278dad2078ff92427dfac4feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 17/62] fix: angles of a rib segment behind the hub

The angle at the hub of a segment crossing the negative x-axis was taken as the
reflex one, so that nearly all the rib was in contact. The swap of the radii, which
were not yet set, is dropped: they enter in the formulas symmetrically.
---
 src/rib.cc         | 4 +++-
 toolbox/src/rib.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index de68a4b..006d853 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -262,9 +262,11 @@ namespace enve
 
         // Check consistency
         if(t_b < t_a)
+          {std::swap(t_a, t_b);}
+        if (t_b - t_a > PI)
         {
+          t_a += real(2.0) * PI;
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index de68a4b..006d853 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -262,9 +262,11 @@ namespace enve
 
         // Check consistency
         if(t_b < t_a)
+          {std::swap(t_a, t_b);}
+        if (t_b - t_a > PI)
         {
+          t_a += real(2.0) * PI;
           std::swap(t_a, t_b);
-          std::swap(r_a, r_b);
         }
         t_c = (t_a + t_b) / real(2.0);
         t_d = (t_b - t_a) / real(2.0);
-- 
2.43.0


From 22c5253545044a0f77cb19244b501396ba43a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 18/62] fix: line/triangle intersection through a vertex

With a vertex near the origin no pair of the three points was approximately equal,
as isApprox is relative to the norm of the points, and an exception was thrown.
---
 toolbox/src/intersection.cc | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 01aa3d3..b48c954 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1959,28 +1959,26 @@ namespace acme
     }
     else if (bool0 && bool1 && bool2)
     {
-      if (point0.isApprox(point1, tolerance))
-      {
-        segment_out.vertex(0) = point1;
-        segment_out.vertex(1) = point2;
-        return true;
-      }
-      else if (point1.isApprox(point2, tolerance))
+      // The line passes through a vertex: the farthest points bound the segment
+      real length01 = (point0 - point1).norm();
+      real length12 = (point1 - point2).norm();
+      real length20 = (point2 - point0).norm();
+      if (length01 >= length12 && length01 >= length20)
       {
         segment_out.vertex(0) = point0;
         segment_out.vertex(1) = point1;
-        return true;
       }
-      else if (point0.isApprox(point2, tolerance))
+      else if (length12 >= length20)
       {
-        segment_out.vertex(0) = point0;
-        segment_out.vertex(1) = point1;
-        return true;
+        segment_out.vertex(0) = point1;
+        segment_out.vertex(1) = point2;
       }
       else
       {
-        ACME_ERROR(CMD "exception not handled.")
+        segment_out.vertex(0) = point2;
+        segment_out.vertex(1) = point0;
       }
+      return true;
     }
     else
     {
-- 
2.43.0


From 99d6e94b3e9bc80974941d7b1a7350c5540aa3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 19/62] fix: scale the disk tangency tolerance with the line
 direction

The discriminant is proportional to the squared length of the direction, so that
a short segment crossing a disk was taken as tangent to it and discarded: the
contact with a fine mesh was lost.
---
 toolbox/src/intersection.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index b48c954..7d45f29 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2009,11 +2009,11 @@ namespace acme
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
     real discriminant = a1 * a1 - a0 * a2;
-    if (discriminant < -tolerance)
+    if (discriminant < -tolerance * a2)
       return false;
 
     real inv = real(1.0) / a2;
-    if (std::abs(discriminant) < tolerance)
+    if (std::abs(discriminant) < tolerance * a2)
     {
       point int_point(line_origin - (a1 * inv) * line_direction);
       segment_out.vertex(0) = int_point;
@@ -2216,11 +2216,11 @@ namespace acme
     real a0 = diff.dot(diff) - disk_radius * disk_radius;
 
     real discriminant = a1 * a1 - a0 * a2;
-    if (discriminant < -tolerance)
+    if (discriminant < -tolerance * a2)
       {return false;}
 
     real inv = real(1.0) / a2;
-    if (std::abs(discriminant) < tolerance)
+    if (std::abs(discriminant) < tolerance * a2)
     {
       real t = -a1 * inv;
       if (t < real(0.0) || t > real(1.0))
-- 
2.43.0


From 711fe567a565e7db3f4e2c28104e1f05dde88faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 20/62] fix: default points are NaN

Constant builds an expression and leaves the point uninitialised.
---
 toolbox/src/point.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/point.cc b/toolbox/src/point.cc
index b75f576..e8abcb5 100644
--- a/toolbox/src/point.cc
+++ b/toolbox/src/point.cc
@@ -49,7 +49,7 @@ namespace acme
 
   point::point(void)
   {
-    this->Constant(QUIET_NAN);
+    this->setConstant(QUIET_NAN);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From dfab376a572f713b52c4e5fbc5adb226f74c404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 21/62] fix: enve_sfun_end releases the objects

---
 sfun/src_sfun/enve_sfun_interface.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sfun/src_sfun/enve_sfun_interface.cc b/sfun/src_sfun/enve_sfun_interface.cc
index 023b99d..fc53a08 100755
--- a/sfun/src_sfun/enve_sfun_interface.cc
+++ b/sfun/src_sfun/enve_sfun_interface.cc
@@ -215,9 +215,12 @@ extern "C"
   {
     #define CMD "enve_sfun_end(...): "
 
-    //delete static_cast<enve::ground::mesh *>(MeshPtr);
-    //delete static_cast<enve::ground::flat *>(FlatPtr);
-    //delete static_cast<enve::flat *>(ShellPtr);
+    delete static_cast<enve::ground::mesh *>(MeshPtr);
+    delete static_cast<enve::ground::flat *>(FlatPtr);
+    delete static_cast<enve::shell *>(ShellPtr);
+    MeshPtr  = nullptr;
+    FlatPtr  = nullptr;
+    ShellPtr = nullptr;
 
     #undef CMD
   }
-- 
2.43.0


From 78a0dc7656156d70e1ef88b29b41836e06bf7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 22/62] fix: collinear rays need parallel directions

---
 toolbox/src/collinear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collinear.cc b/toolbox/src/collinear.cc
index d9f0ee7..978b13a 100644
--- a/toolbox/src/collinear.cc
+++ b/toolbox/src/collinear.cc
@@ -160,7 +160,7 @@ namespace acme
     real        tolerance)
   {
     return IsParallel(ray0_in.direction(), ray0_in.origin()-ray1_in.origin(), tolerance) &&
-           IsParallel(ray1_in.direction(), ray1_in.direction(), tolerance);
+           IsParallel(ray0_in.direction(), ray1_in.direction(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 68c0fb5709079e538c079e09564ab4c6e36a98a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 23/62] fix: collection::areSegment looks for segments

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index d1efa19..c7f11ba 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -502,7 +502,7 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isBall())
+      if (!this->m_entities[i]->isSegment())
         {return false;}
     }
     return true;
-- 
2.43.0


From 0929a15aef7ecaa1b8d97517a0e3126120a695ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 24/62] fix: collection::containDegenerated looks for any
 degenerated entity

---
 toolbox/src/collection.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index c7f11ba..ba2242a 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -754,10 +754,10 @@ namespace acme
   {
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isDegenerated(tolerance))
-        {return false;}
+      if (this->m_entities[i]->isDegenerated(tolerance))
+        {return true;}
     }
-    return true;
+    return false;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 3b54a1488d0cd2e36959dc6b9d6d32b64015440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 25/62] fix: collection remove methods shorten the list

---
 toolbox/src/collection.cc | 88 +++++++++++++++++++++++++++------------
 1 file changed, 62 insertions(+), 26 deletions(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index ba2242a..77a22cb 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -195,10 +195,13 @@ namespace acme
   void
   collection::removeNone(void)
   {
-    std::remove_if(
-      this->m_entities.begin(),
-      this->m_entities.end(),
-      [] (entity::ptr & entity) {return entity->isNone();}
+    this->m_entities.erase(
+      std::remove_if(
+        this->m_entities.begin(),
+        this->m_entities.end(),
+        [] (entity::ptr & entity) {return entity->isNone();}
+      ),
+      this->m_entities.end()
     );
   }
 
@@ -261,11 +264,14 @@ namespace acme
   void
   collection::removePoint(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPoint();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -327,11 +333,14 @@ namespace acme
   void
   collection::removeLine(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isLine();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -393,11 +402,14 @@ namespace acme
   void
   collection::removeRay(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isRay();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -458,11 +470,14 @@ namespace acme
   void
   collection::removePlane(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isPlane();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -524,11 +539,14 @@ namespace acme
   void
   collection::removeSegment(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isSegment();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -590,11 +608,14 @@ namespace acme
   void
   collection::removeTriangle(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isTriangle();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -656,11 +677,14 @@ namespace acme
   void
   collection::removeDisk(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isDisk();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -722,11 +746,14 @@ namespace acme
   void
   collection::removeBall(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isBall();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -795,11 +822,14 @@ namespace acme
     real tolerance
   )
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [tolerance](entity::ptr & entity){return entity->isDegenerated(tolerance);}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -863,11 +893,14 @@ namespace acme
   void
   collection::removeClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -929,11 +962,14 @@ namespace acme
   void
   collection::removeNonClampable(void)
   {
-    std::remove_if(
+    this->m_entities.erase(
+      std::remove_if(
         this->m_entities.begin(),
         this->m_entities.end(),
         [] (entity::ptr & entity) {return entity->isNonClampable();}
-      );
+      ),
+      this->m_entities.end()
+    );
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From ecb4876edc867078729ecd7672b7c3a820aa725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 26/62] fix: plane/disk intersection of entities has an output
 segment

The output entity was not made and a null pointer was dereferenced.
---
 toolbox/src/intersection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 7d45f29..96d6e17 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -837,7 +837,8 @@ namespace acme
         break;
 
       case 508:
-        collide = Intersection(
+        entity_out = new segment();
+        collide    = Intersection(
           *dynamic_cast<plane const *>(entity0_in),
           *dynamic_cast<disk const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
-- 
2.43.0


From 6827b6569ef61e83a2f25b16e37cf5b0f8ee3111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 27/62] fix: coplanar triangle/plane intersection is the
 triangle

As for plane/triangle: the segment overload finds nothing when coplanar.
---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 96d6e17..da195cf 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -556,11 +556,11 @@ namespace acme
         break;
 
       case 705:
-        entity_out = new segment();
+        entity_out = new triangle();
         collide    = Intersection(
           *dynamic_cast<plane const *>(entity1_in),
           *dynamic_cast<triangle const *>(entity0_in),
-          *dynamic_cast<segment *>(entity_out),
+          *dynamic_cast<triangle *>(entity_out),
           tolerance);
         break;
 
-- 
2.43.0


From 78dd0a3d6e7fd9c83cdbcd70f95232466836c66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 28/62] fix: skew lines, rays and segments do not intersect

The intersection of entities that are not coplanar was the point of the first
entity nearest to the other.
---
 toolbox/src/intersection.cc | 89 +++++--------------------------------
 1 file changed, 11 insertions(+), 78 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index da195cf..0727384 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -659,26 +659,22 @@ namespace acme
       switch (slide)
       {
 
-        // - - - - - - - - - - - - - - LINE - - - - - - - - - - - - - -
+        // - - - - - - - - - - - - - - SKEW - - - - - - - - - - - - - -
 
       case 303:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 304:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
+      case 306:
+      case 403:
+      case 404:
+      case 406:
+      case 603:
+      case 604:
+      case 606:
+        collide = false;
         break;
 
+        // - - - - - - - - - - - - - - LINE - - - - - - - - - - - - - -
+
       case 305:
         entity_out = new point();
         collide    = Intersection(
@@ -688,15 +684,6 @@ namespace acme
           tolerance);
         break;
 
-      case 306:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 307:
         entity_out = new point();
         collide    = Intersection(
@@ -726,24 +713,6 @@ namespace acme
 
         // - - - - - - - - - - - - - - RAY - - - - - - - - - - - - - -
 
-      case 403:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
-      case 404:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 405:
         entity_out = new point();
         collide    = Intersection(
@@ -753,15 +722,6 @@ namespace acme
           tolerance);
         break;
 
-      case 406:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 407:
         entity_out = new point();
         collide    = Intersection(
@@ -856,24 +816,6 @@ namespace acme
 
         // - - - - - - - - - - - - - - SEGMENT - - - - - - - - - - - - - -
 
-      case 603:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<line const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
-      case 604:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<ray const *>(entity1_in),
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 605:
         entity_out = new point();
         collide    = Intersection(
@@ -883,15 +825,6 @@ namespace acme
           tolerance);
         break;
 
-      case 606:
-        entity_out = new point();
-        collide    = Intersection(
-          *dynamic_cast<segment const *>(entity0_in),
-          *dynamic_cast<segment const *>(entity1_in),
-          *dynamic_cast<point *>(entity_out),
-          tolerance);
-        break;
-
       case 607:
         entity_out = new point();
         collide    = Intersection(
-- 
2.43.0


From b088e9702d11e16050d98daaff3231ac1427265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 29/62] fix: segment/ball intersection with segments of any
 length

The vector of the segment was used as if it had unit length.
---
 toolbox/src/intersection.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 0727384..6c1be59 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2719,14 +2719,15 @@ namespace acme
     vec3 origin(segment_in.vertex(0));
     vec3 direction(segment_in.toVector());
     vec3 diff(origin - ball_in.center());
+    real a2    = direction.dot(direction);
     real a0    = diff.dot(diff) - ball_in.radius() * ball_in.radius();
     real a1    = direction.dot(diff);
-    real discr = a1 * a1 - a0;
-    if (discr > tolerance)
+    real discr = a1 * a1 - a0 * a2;
+    if (discr > tolerance * a2)
     {
       real root = std::sqrt(discr);
-      real t0   = -a1 - root;
-      real t1   = -a1 + root;
+      real t0   = (-a1 - root) / a2;
+      real t1   = (-a1 + root) / a2;
       if ((t0 < real(0.0) && t1 < real(0.0)) || (t0 > real(1.0) && t1 > real(1.0)))
         {return false;}
       t0 = std::max(t0, real(0.0));
-- 
2.43.0


From a76ff45123412aab478590860a05387f720d8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 30/62] fix: plane/plane intersection with normals of any
 length

The offsets of the planes follow the length of their normals, while the normals
used here have unit length.
---
 toolbox/src/intersection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 6c1be59..a093c69 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -2216,8 +2216,8 @@ namespace acme
   {
     vec3 normal0(plane0_in.normal().normalized());
     vec3 normal1(plane1_in.normal().normalized());
-    real d0 = -plane0_in.d();
-    real d1 = -plane1_in.d();
+    real d0 = normal0.dot(plane0_in.origin());
+    real d1 = normal1.dot(plane1_in.origin());
 
     vec3 direction = normal0.cross(normal1);
     real dot       = normal0.dot(normal1);
-- 
2.43.0


From 00390ec742a745c97fe31b5bb6c6889e20e5fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 31/62] fix: collinear rays that face away do not intersect

The intersection of entities threw an exception instead of returning none.
---
 toolbox/src/intersection.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index a093c69..95579ec 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -253,12 +253,6 @@ namespace acme
           *dynamic_cast<ray const *>(entity1_in),
           *dynamic_cast<segment *>(entity_out),
           tolerance);
-        if (!collide)
-          {delete entity_out;}
-        else
-          {break;}
-
-        ACME_ERROR(CMD "exception not handled (ray/ray intersection).")
         break;
 
       case 406:
-- 
2.43.0


From 7f6a3070b08af4e36db4b768cb3c1503c570a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 32/62] fix: coplanar triangles whose edges cross intersect

Only vertices inside of the other triangle were looked for, which misses
triangles that overlap like a star.
---
 toolbox/src/intersection.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 95579ec..2ec3d75 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -1787,6 +1787,16 @@ namespace acme
     if (!IsCoplanar(triangle0_in, triangle1_in, tolerance)) {
       return Intersection(triangle0_in, triangle1_in, DUMMY_SEGMENT, tolerance);
     }
+    // Overlapping triangles may have no vertex inside of each other
+    point tmp_point;
+    for (integer i = 0; i < 3; ++i)
+    {
+      for (integer j = 0; j < 3; ++j)
+      {
+        if (Intersection(triangle0_in.edge(i), triangle1_in.edge(j), tmp_point, tolerance))
+          {return true;}
+      }
+    }
     return triangle0_in.isInside(triangle1_in.vertex(0), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(1), tolerance) ||
            triangle0_in.isInside(triangle1_in.vertex(2), tolerance) ||
-- 
2.43.0


From b6ba4b6c784f4a1a69c6644c04dc1f9a1281e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 33/62] fix: a line is orthogonal to a plane along its normal

Lines in the plane were reported orthogonal to it, unlike rays, segments and
vectors.
---
 toolbox/src/orthogonal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/orthogonal.cc b/toolbox/src/orthogonal.cc
index 8af59fa..d36c7df 100644
--- a/toolbox/src/orthogonal.cc
+++ b/toolbox/src/orthogonal.cc
@@ -512,7 +512,7 @@ namespace acme
     real          tolerance
   )
   {
-    return IsOrthogonal(line_in.direction(), plane_in.normal(), tolerance);
+    return IsParallel(line_in.direction(), plane_in.normal(), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 4d0fbf8275575e83011efffeb8c2649544109560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 34/62] fix: perimeter and area of a disk were swapped

---
 toolbox/src/disk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/disk.cc b/toolbox/src/disk.cc
index 8b78724..ee4b409 100644
--- a/toolbox/src/disk.cc
+++ b/toolbox/src/disk.cc
@@ -193,7 +193,7 @@ namespace acme
   disk::perimeter(void)
     const
   {
-    return PI * this->m_radius * this->m_radius;
+    return real(2.0) * PI * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -202,7 +202,7 @@ namespace acme
   disk::area(void)
     const
   {
-    return real(2.0) * PI * this->m_radius;
+    return PI * this->m_radius * this->m_radius;
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 3c9dc766ef658dfe98a5ef94681b2cbce14cde0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 35/62] fix: distance from a plane with a normal of any length

The distance was scaled by the length of the normal.
---
 toolbox/src/plane.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/plane.cc b/toolbox/src/plane.cc
index 954b217..ef5b77f 100644
--- a/toolbox/src/plane.cc
+++ b/toolbox/src/plane.cc
@@ -189,7 +189,7 @@ namespace acme
   )
     const
   {
-    return (point_in - this->m_origin).dot(this->m_normal);
+    return (point_in - this->m_origin).dot(this->unitNormal());
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From b17299e891ad9bfd51ac4865875729053838c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 36/62] fix: distance of a point from a flat box is a number

A box without thickness gave Not-a-Number, and the tree never selected it.
---
 toolbox/src/aabb.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/aabb.cc b/toolbox/src/aabb.cc
index 5905b90..5431631 100644
--- a/toolbox/src/aabb.cc
+++ b/toolbox/src/aabb.cc
@@ -323,12 +323,9 @@ namespace acme
     point center((this->m_max + this->m_min) / real(2.0));
     point point_max_centered(this->m_max - center);
     point point_centered(point_in - center);
-    real  x_scale = std::abs(real(1.0) / point_max_centered.x());
-    real  y_scale = std::abs(real(1.0) / point_max_centered.y());
-    real  z_scale = std::abs(real(1.0) / point_max_centered.z());
-    real  dx      = std::max(real(0.0), std::abs(point_centered.x()) * x_scale - real(1.0)) / x_scale;
-    real  dy      = std::max(real(0.0), std::abs(point_centered.y()) * y_scale - real(1.0)) / y_scale;
-    real  dz      = std::max(real(0.0), std::abs(point_centered.z()) * z_scale - real(1.0)) / z_scale;
+    real  dx = std::max(real(0.0), std::abs(point_centered.x()) - std::abs(point_max_centered.x()));
+    real  dy = std::max(real(0.0), std::abs(point_centered.y()) - std::abs(point_max_centered.y()));
+    real  dz = std::max(real(0.0), std::abs(point_centered.z()) - std::abs(point_max_centered.z()));
     return std::sqrt(dx * dx + dy * dy + dz * dz);
   }
 
-- 
2.43.0


From 58914a1066c1afb7cba01aa69745bef602e4585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 37/62] fix: distance queries of an empty tree find nothing

A null pointer was dereferenced.
---
 toolbox/src/AABBtree.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index 3666909..9f33a5d 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -273,6 +273,7 @@ namespace acme
     AABBtree const & tree,
     real             distance)
   {
+    if (tree.isEmpty()) {return distance;}
     AABBtree::vecptr const & tree_children = tree.m_children;
     if (tree_children.empty())
     {
@@ -299,6 +300,7 @@ namespace acme
     aabb::vecptr       & candidate_list
   )
   {
+    if (tree.isEmpty()) {return;}
     AABBtree::vecptr const & tree_children = tree.m_children;
     real dst= tree.m_ptrbox->centerDistance(query);
     if (dst <= distance)
-- 
2.43.0


From cbab90fa065ca1c0ef6a43c1276a82301e8df039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 38/62] fix: parallel lines, rays and segments are coplanar

The cross product of parallel directions is rounding noise, and the verdict was
taken from its orthogonality.
---
 toolbox/src/coplanar.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/toolbox/src/coplanar.cc b/toolbox/src/coplanar.cc
index 0b96d2b..a42c261 100644
--- a/toolbox/src/coplanar.cc
+++ b/toolbox/src/coplanar.cc
@@ -344,7 +344,8 @@ namespace acme
     real         tolerance
   )
   {
-    return (line0_in.origin() - line1_in.origin()).isOrthogonal(line0_in.direction().cross(line1_in.direction()), tolerance);
+    return IsParallel(line0_in, line1_in, tolerance) ||
+           (line0_in.origin() - line1_in.origin()).isOrthogonal(line0_in.direction().cross(line1_in.direction()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -356,7 +357,8 @@ namespace acme
     real        tolerance
   )
   {
-    return (ray0_in.origin() - ray1_in.origin()).isOrthogonal(ray0_in.direction().cross(ray1_in.direction()), tolerance);
+    return IsParallel(ray0_in, ray1_in, tolerance) ||
+           (ray0_in.origin() - ray1_in.origin()).isOrthogonal(ray0_in.direction().cross(ray1_in.direction()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -381,7 +383,8 @@ namespace acme
     real            tolerance
   )
   {
-    return (segment0_in.vertex(0) - segment1_in.vertex(0)).isOrthogonal(segment0_in.toUnitVector().cross(segment1_in.toUnitVector()), tolerance);
+    return IsParallel(segment0_in, segment1_in, tolerance) ||
+           (segment0_in.vertex(0) - segment1_in.vertex(0)).isOrthogonal(segment0_in.toUnitVector().cross(segment1_in.toUnitVector()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -417,7 +420,8 @@ namespace acme
     real         tolerance
   )
   {
-    return (line_in.origin() - ray_in.origin()).isOrthogonal(line_in.direction().cross(ray_in.direction()), tolerance);
+    return IsParallel(line_in, ray_in, tolerance) ||
+           (line_in.origin() - ray_in.origin()).isOrthogonal(line_in.direction().cross(ray_in.direction()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -442,7 +446,8 @@ namespace acme
     real            tolerance
   )
   {
-    return (line_in.origin() - segment_in.vertex(0)).isOrthogonal(line_in.direction().cross(segment_in.toUnitVector()), tolerance);
+    return IsParallel(line_in, segment_in, tolerance) ||
+           (line_in.origin() - segment_in.vertex(0)).isOrthogonal(line_in.direction().cross(segment_in.toUnitVector()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -491,7 +496,8 @@ namespace acme
     real            tolerance
   )
   {
-    return (ray_in.origin() - segment_in.vertex(0)).isOrthogonal(ray_in.direction().cross(segment_in.toUnitVector()), tolerance);
+    return IsParallel(ray_in, segment_in, tolerance) ||
+           (ray_in.origin() - segment_in.vertex(0)).isOrthogonal(ray_in.direction().cross(segment_in.toUnitVector()), tolerance);
   }
 
   // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 0330e725eee6490b17a6eed50ea5d89591b93298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 39/62] fix: countNonClampable counts the entities that cannot
 be clamped

---
 toolbox/src/collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/collection.cc b/toolbox/src/collection.cc
index 77a22cb..f857470 100644
--- a/toolbox/src/collection.cc
+++ b/toolbox/src/collection.cc
@@ -981,7 +981,7 @@ namespace acme
     integer count = 0;
     for (size_t i = 0; i < this->m_entities.size(); ++i)
     {
-      if (!this->m_entities[i]->isNonClampable())
+      if (this->m_entities[i]->isNonClampable())
         {++count;}
     }
     return count;
-- 
2.43.0


From effea330877f2ad4452d497c556bcbd70cc72505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 40/62] fix: a refused intersection gives its output entity
 back

---
 toolbox/src/intersection.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/toolbox/src/intersection.cc b/toolbox/src/intersection.cc
index 2ec3d75..404a8c5 100644
--- a/toolbox/src/intersection.cc
+++ b/toolbox/src/intersection.cc
@@ -58,7 +58,13 @@ namespace acme
 
     integer slide      = entity0_in->level() * 100 + entity1_in->level();
     bool    collide    = false;
-    entity *entity_out = nullptr;
+    // Output entity, given back if the intersection is refused
+    struct owner
+    {
+      entity *ptr = nullptr;
+      ~owner(void) {delete this->ptr;}
+    } owner_out;
+    entity *&entity_out = owner_out.ptr;
     if (entity0_in->isPoint() || entity1_in->isPoint())
     {
       switch (slide)
@@ -1051,10 +1057,12 @@ namespace acme
     if (!collide)
     {
       delete entity_out;
-      entity_out = new none();
-      return entity_out;
+      entity_out = nullptr;
+      return new none();
     }
-    return entity_out;
+    entity *output = entity_out;
+    entity_out     = nullptr;
+    return output;
 
     #undef CMD
   }
-- 
2.43.0


From 085973e5a87b69fc26d0b5ac3be1e9a02f7f7cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 41/62] fix: mex_shell rotation is not the transposed one

---
 toolbox/src_mex/mex_shell.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 79df100..048a8eb 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -462,13 +462,13 @@ do_rotation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type   *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
   acme::mat3   outmat(self->rotation());
   output[0] = outmat(0,0);
-  output[1] = outmat(0,1);
-  output[2] = outmat(0,2);
-  output[3] = outmat(1,0);
+  output[1] = outmat(1,0);
+  output[2] = outmat(2,0);
+  output[3] = outmat(0,1);
   output[4] = outmat(1,1);
-  output[5] = outmat(1,2);
-  output[6] = outmat(2,0);
-  output[7] = outmat(2,1);
+  output[5] = outmat(2,1);
+  output[6] = outmat(0,2);
+  output[7] = outmat(1,2);
   output[8] = outmat(2,2);
 #undef CMD
 }
-- 
2.43.0


From 9c99307210497e534aed7a12af50031e68ed2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 42/62] fix: mex_shell checkTransformation takes the matrix it
 reads

---
 toolbox/src_mex/mex_shell.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 048a8eb..1405788 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -80,7 +80,7 @@
   "%   OUT = mex_shell( 'rotation', OBJ );                               %\n" \
   "%         mex_shell( 'transform', OBJ, MATRIX );                      %\n" \
   "%   OUT = mex_shell( 'transformation', OBJ );                         %\n" \
-  "%   OUT = mex_shell( 'checkTransformation', OBJ );                    %\n" \
+  "%   OUT = mex_shell( 'checkTransformation', OBJ, MATRIX );            %\n" \
   "%   OUT = mex_shell( 'x', OBJ );                                      %\n" \
   "%   OUT = mex_shell( 'y', OBJ );                                      %\n" \
   "%   OUT = mex_shell( 'z', OBJ );                                      %\n" \
@@ -532,8 +532,8 @@ do_transformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 static void
 do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
-#define CMD "mex_shell( 'checkTransformation', OBJ ): "
-  UTILS_MEX_ASSERT(nrhs == 2, CMD "expected 2 inputs, nrhs = " << nrhs << "\n");
+#define CMD "mex_shell( 'checkTransformation', OBJ, MATRIX ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   enve::shell *self   = DATA_GET(arg_in_1);
-- 
2.43.0


From bffb19e01a573c1735e233e47340cdce95c05df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 43/62] fix: mex matrix inputs have the expected class and both
 dimensions

---
 toolbox/src_mex/mex_flat.cc           |  8 ++++----
 toolbox/src_mex/mex_mesh.cc           |  2 +-
 toolbox/src_mex/mex_shell.cc          | 12 ++++++------
 toolbox/src_mex/mex_triangleground.cc |  6 +++---
 toolbox/src_mex/mex_utils.hh          |  8 ++++++++
 5 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 86c4b53..81344ee 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -146,14 +146,14 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_2, rows1, cols1, CMD "error in first input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     ox = matrix1_ptr[0];
     oy = matrix1_ptr[1];
     oz = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_3, rows2, cols2, CMD "error in second input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     nx = matrix2_ptr[0];
     ny = matrix2_ptr[1];
     nz = matrix2_ptr[2];
@@ -203,7 +203,7 @@ do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->origin() = acme::point(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
@@ -239,7 +239,7 @@ do_setNormal(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   self->normal() = acme::vec3(matrix_ptr[0], matrix_ptr[1], matrix_ptr[2]);
 #undef CMD
 }
diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 23b77bc..79e4cfb 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -148,7 +148,7 @@ do_new(int nlhs, mxArray *plhs[],
       mwSize rows, cols;
       real_type const *matrix_ptr;
       matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-      UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+      UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
       acme::affine pose;
       pose.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                        matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_shell.cc b/toolbox/src_mex/mex_shell.cc
index 1405788..873ea6a 100644
--- a/toolbox/src_mex/mex_shell.cc
+++ b/toolbox/src_mex/mex_shell.cc
@@ -403,7 +403,7 @@ do_translate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in first input matrix");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   real_type x = matrix_ptr[0];
   real_type y = matrix_ptr[1];
   real_type z = matrix_ptr[2];
@@ -443,7 +443,7 @@ do_rotate(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *vector_ptr;
   mwSize           rows, cols;
   vector_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading axis vector");
-  UTILS_MEX_ASSERT(rows == 3 || cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 3 && cols == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::vec3 vector(vector_ptr[0], vector_ptr[1], vector_ptr[2]);
   self->rotate(angle, vector);
 #undef CMD
@@ -486,7 +486,7 @@ do_transform(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -540,7 +540,7 @@ do_checkTransformation(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[
   real_type const *matrix_ptr;
   mwSize           rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_2, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -638,7 +638,7 @@ do_setupFlat(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
@@ -664,7 +664,7 @@ do_setupMesh(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
   matrix_ptr = utils::mex_matrix_pointer(arg_in_3, rows, cols, CMD "error in reading affine transformation matrix");
-  UTILS_MEX_ASSERT(rows == 4 || cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
+  UTILS_MEX_ASSERT(rows == 4 && cols == 4, CMD "expected rows = 4 and cols = 4 found, rows = " << rows << ", cols = " << cols << "\n");
   acme::affine matrix;
   matrix.matrix() << matrix_ptr[0], matrix_ptr[4], matrix_ptr[8],  matrix_ptr[12],
                      matrix_ptr[1], matrix_ptr[5], matrix_ptr[9],  matrix_ptr[13],
diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index 7ed1d99..b5abb94 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -169,21 +169,21 @@ do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
     real_type const *matrix1_ptr;
     mwSize           rows1, cols1;
     matrix1_ptr = utils::mex_matrix_pointer(arg_in_3, rows1, cols1, CMD "error in reading 3rd input matrix");
-    UTILS_MEX_ASSERT(rows1 == 3 || cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
+    UTILS_MEX_ASSERT(rows1 == 3 && cols1 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows1 << ", cols = " << cols1 << "\n");
     x1 = matrix1_ptr[0];
     y1 = matrix1_ptr[1];
     z1 = matrix1_ptr[2];
     real_type const *matrix2_ptr;
     mwSize           rows2, cols2;
     matrix2_ptr = utils::mex_matrix_pointer(arg_in_4, rows2, cols2, CMD "error in reading 4th input matrix");
-    UTILS_MEX_ASSERT(rows2 == 3 || cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
+    UTILS_MEX_ASSERT(rows2 == 3 && cols2 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows2 << ", cols = " << cols2 << "\n");
     x2 = matrix2_ptr[0];
     y2 = matrix2_ptr[1];
     z2 = matrix2_ptr[2];
     real_type const *matrix3_ptr;
     mwSize           rows3, cols3;
     matrix3_ptr = utils::mex_matrix_pointer(arg_in_5, rows3, cols3, CMD "error in reading 5th input matrix");
-    UTILS_MEX_ASSERT(rows3 == 3 || cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
+    UTILS_MEX_ASSERT(rows3 == 3 && cols3 == 1, CMD "expected rows = 3 and cols = 1 found, rows = " << rows3 << ", cols = " << cols3 << "\n");
     x3 = matrix3_ptr[0];
     y3 = matrix3_ptr[1];
     z3 = matrix3_ptr[2];
diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index f1aa19a..c9723c3 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -256,6 +256,10 @@ namespace utils {
   ) {
     mwSize number_of_dimensions = mxGetNumberOfDimensions(arg);
     UTILS_MEX_ASSERT( number_of_dimensions == 2, msg );
+    UTILS_MEX_ASSERT(
+      mxIsDouble(arg) && !mxIsComplex(arg),
+      msg << " expected real double matrix, found " << mxGetClassName(arg) << "\n"
+      );
     mwSize const * dims = mxGetDimensions(arg);
     UTILS_MEX_ASSERT(
       dims[0] == 1 || dims[1] == 1 || dims[0]*dims[1] == 0,
@@ -295,6 +299,10 @@ namespace utils {
       number_of_dimensions == 2,
       msg
       );
+    UTILS_MEX_ASSERT(
+      mxIsDouble(arg) && !mxIsComplex(arg),
+      msg << " expected real double matrix, found " << mxGetClassName(arg) << "\n"
+      );
     mwSize const * dims = mxGetDimensions(arg);
     nr = dims[0];
     nc = dims[1];
-- 
2.43.0


From bc4cd4e30340f00f4d125422f9dc4e78082ebb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 44/62] fix: mex_get_int64 reads int8 with its sign

---
 toolbox/src_mex/mex_utils.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_utils.hh b/toolbox/src_mex/mex_utils.hh
index c9723c3..d0e0528 100644
--- a/toolbox/src_mex/mex_utils.hh
+++ b/toolbox/src_mex/mex_utils.hh
@@ -199,7 +199,7 @@ namespace utils {
     int64_t res = 0;
     void *ptr = mxGetData(arg);
     switch (category)  {
-      case mxINT8_CLASS:   res = *static_cast<uint8_t*>(ptr); break;
+      case mxINT8_CLASS:   res = *static_cast<int8_t*>(ptr);   break;
       case mxUINT8_CLASS:  res = *static_cast<uint8_t*>(ptr);  break;
       case mxINT16_CLASS:  res = *static_cast<int16_t*>(ptr);  break;
       case mxUINT16_CLASS: res = *static_cast<uint16_t*>(ptr); break;
-- 
2.43.0


From 884d73f97b8d6b90bd6de801ee2db2c3758f8aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 45/62] fix: mex_mesh load has no output

---
 toolbox/src_mex/mex_mesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index 79e4cfb..e9139a3 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -285,7 +285,7 @@ do_load(int nlhs, mxArray *plhs[],
 {
 #define CMD "mex_mesh( 'load', OBJ, PATH, [, FRICTION] ): "
   UTILS_MEX_ASSERT(nrhs == 3 || nrhs == 4, CMD "expected 3 or 4 inputs, nrhs = " << nrhs << "\n");
-  UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
   string path = mxArrayToString(arg_in_2);
-- 
2.43.0


From ec279c9822de27fcf6a2955739c2264427c87b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 46/62] fix: mex_mesh gives back what it does not return

---
 toolbox/src_mex/mex_mesh.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/toolbox/src_mex/mex_mesh.cc b/toolbox/src_mex/mex_mesh.cc
index e9139a3..f693764 100644
--- a/toolbox/src_mex/mex_mesh.cc
+++ b/toolbox/src_mex/mex_mesh.cc
@@ -125,7 +125,7 @@ do_new(int nlhs, mxArray *plhs[],
       mxIsChar(arg_in_0),
       CMD "first argument must be a string, found " << mxGetClassName(arg_in_0) << "\n");
 
-  enve::ground::mesh *self = new enve::ground::mesh();
+  std::unique_ptr<enve::ground::mesh> self(new enve::ground::mesh());
 
   if (nrhs == 2)
   {
@@ -183,7 +183,7 @@ do_new(int nlhs, mxArray *plhs[],
     }
   }
 
-  DATA_NEW(arg_out_0, self);
+  DATA_NEW(arg_out_0, self.release());
 #undef CMD
 }
 
@@ -231,18 +231,18 @@ do_getTrianglegroundVertices(int nlhs, mxArray *plhs[],
 
   enve::ground::mesh *self = DATA_GET(arg_in_1);
   int i = utils::mex_get_int64(arg_in_2, CMD "error in reading input value");
-  enve::triangleground *tmp = new enve::triangleground();
-  tmp->copy(*self->ptrTriangleground(i - 1));
+  enve::triangleground tmp;
+  tmp.copy(*self->ptrTriangleground(i - 1));
   real_type *output = utils::mex_create_matrix_value(arg_out_0, 3, 3);
-  output[0] = tmp->triangle::vertex(0).x();
-  output[1] = tmp->triangle::vertex(0).y();
-  output[2] = tmp->triangle::vertex(0).z();
-  output[3] = tmp->triangle::vertex(1).x();
-  output[4] = tmp->triangle::vertex(1).y();
-  output[5] = tmp->triangle::vertex(1).z();
-  output[6] = tmp->triangle::vertex(2).x();
-  output[7] = tmp->triangle::vertex(2).y();
-  output[8] = tmp->triangle::vertex(2).z();
+  output[0] = tmp.triangle::vertex(0).x();
+  output[1] = tmp.triangle::vertex(0).y();
+  output[2] = tmp.triangle::vertex(0).z();
+  output[3] = tmp.triangle::vertex(1).x();
+  output[4] = tmp.triangle::vertex(1).y();
+  output[5] = tmp.triangle::vertex(1).z();
+  output[6] = tmp.triangle::vertex(2).x();
+  output[7] = tmp.triangle::vertex(2).y();
+  output[8] = tmp.triangle::vertex(2).z();
 #undef CMD
 }
 
-- 
2.43.0


From 800507645dbaafe93fc7be3ccbcc67c15451edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 47/62] fix: mex_flat setOrigin checks its inputs

---
 toolbox/src_mex/mex_flat.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index 81344ee..c8ec18b 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -199,6 +199,9 @@ static void
 do_setOrigin(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 #define CMD "mex_flat( 'setOrigin', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
   enve::ground::flat *self = DATA_GET(arg_in_1);
   real_type const    *matrix_ptr;
   mwSize              rows, cols;
-- 
2.43.0


From c7778a2701ac083f8c4b70187c0700a22e0e7fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 48/62] fix: an edge shared by two triangles in a rib plane is
 cut once

---
 src/rib.cc           | 23 +++++++++++++++++++++--
 src/shell.cc         |  6 +++---
 toolbox/src/rib.cc   | 23 +++++++++++++++++++++--
 toolbox/src/shell.cc |  6 +++---
 4 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 006d853..d88753a 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -245,12 +245,31 @@ namespace enve
 
     // Compute remaining contact parameters
     bool int_bool = false;
-    segment segment_tmp;
+    segment segment_tmp, cut_tmp;
     disk  rib_grd(radius, center_grd, normal_grd);
     for (size_t i = 0; i < ground.size(); ++i)
     {
+      // Skip triangles parallel to the rib plane
+      if (ground[i]->normal().cross(normal_grd).squaredNorm() <= EPSILON_ENVE)
+        {continue;}
+
+      // Cut the triangle with the rib plane: vertices on the plane belong to its
+      // positive side, so that an edge shared by two triangles is cut only once
+      size_t cut_size = 0;
+      for (size_t j = 0; j < 3; ++j)
+      {
+        point const & v_0 = ground[i]->vertex(j);
+        point const & v_1 = ground[i]->vertex((j + 1) % 3);
+        real d_0 = (v_0 - center_grd).dot(normal_grd);
+        real d_1 = (v_1 - center_grd).dot(normal_grd);
+        if (d_0 < real(0.0) && d_1 >= real(0.0))
+          {cut_tmp.vertex(cut_size++) = v_0 + (v_1 - v_0) * (d_0 / (d_0 - d_1));}
+        else if (d_0 >= real(0.0) && d_1 < real(0.0))
+          {cut_tmp.vertex(cut_size++) = v_1 + (v_0 - v_1) * (d_1 / (d_1 - d_0));}
+      }
+
       // Perform rib/triangleground intersection
-      if (Intersection(*ground[i], rib_grd, segment_tmp, EPSILON_ENVE)) // FIXME: tolerance should be scaled
+      if (cut_size == 2 && Intersection(cut_tmp, rib_grd, segment_tmp, EPSILON_ENVE)) // FIXME: tolerance should be scaled
       {
         // Find intersection points
         p_a = rotation_inv * (segment_tmp.vertex(0) - center_grd);
diff --git a/src/shell.cc b/src/shell.cc
index 1dea2b4..2a72069 100644
--- a/src/shell.cc
+++ b/src/shell.cc
@@ -1045,9 +1045,9 @@ namespace enve
         }
 
         // Calculate sign of j-th rib distance
-        sum = real((real(0.0) < (d0-y[j])) - ((d0-y[j]) < real(0.0))) +
-              real((real(0.0) < (d1-y[j])) - ((d1-y[j]) < real(0.0))) +
-              real((real(0.0) < (d2-y[j])) - ((d2-y[j]) < real(0.0)));
+        sum = real((EPSILON_ENVE < (d0-y[j])) - ((d0-y[j]) < -EPSILON_ENVE)) +
+              real((EPSILON_ENVE < (d1-y[j])) - ((d1-y[j]) < -EPSILON_ENVE)) +
+              real((EPSILON_ENVE < (d2-y[j])) - ((d2-y[j]) < -EPSILON_ENVE));
 
         // Fill candidates list
         if (real(-3.0) < sum && sum < real(3.0))
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 006d853..d88753a 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -245,12 +245,31 @@ namespace enve
 
     // Compute remaining contact parameters
     bool int_bool = false;
-    segment segment_tmp;
+    segment segment_tmp, cut_tmp;
     disk  rib_grd(radius, center_grd, normal_grd);
     for (size_t i = 0; i < ground.size(); ++i)
     {
+      // Skip triangles parallel to the rib plane
+      if (ground[i]->normal().cross(normal_grd).squaredNorm() <= EPSILON_ENVE)
+        {continue;}
+
+      // Cut the triangle with the rib plane: vertices on the plane belong to its
+      // positive side, so that an edge shared by two triangles is cut only once
+      size_t cut_size = 0;
+      for (size_t j = 0; j < 3; ++j)
+      {
+        point const & v_0 = ground[i]->vertex(j);
+        point const & v_1 = ground[i]->vertex((j + 1) % 3);
+        real d_0 = (v_0 - center_grd).dot(normal_grd);
+        real d_1 = (v_1 - center_grd).dot(normal_grd);
+        if (d_0 < real(0.0) && d_1 >= real(0.0))
+          {cut_tmp.vertex(cut_size++) = v_0 + (v_1 - v_0) * (d_0 / (d_0 - d_1));}
+        else if (d_0 >= real(0.0) && d_1 < real(0.0))
+          {cut_tmp.vertex(cut_size++) = v_1 + (v_0 - v_1) * (d_1 / (d_1 - d_0));}
+      }
+
       // Perform rib/triangleground intersection
-      if (Intersection(*ground[i], rib_grd, segment_tmp, EPSILON_ENVE)) // FIXME: tolerance should be scaled
+      if (cut_size == 2 && Intersection(cut_tmp, rib_grd, segment_tmp, EPSILON_ENVE)) // FIXME: tolerance should be scaled
       {
         // Find intersection points
         p_a = rotation_inv * (segment_tmp.vertex(0) - center_grd);
diff --git a/toolbox/src/shell.cc b/toolbox/src/shell.cc
index 1dea2b4..2a72069 100644
--- a/toolbox/src/shell.cc
+++ b/toolbox/src/shell.cc
@@ -1045,9 +1045,9 @@ namespace enve
         }
 
         // Calculate sign of j-th rib distance
-        sum = real((real(0.0) < (d0-y[j])) - ((d0-y[j]) < real(0.0))) +
-              real((real(0.0) < (d1-y[j])) - ((d1-y[j]) < real(0.0))) +
-              real((real(0.0) < (d2-y[j])) - ((d2-y[j]) < real(0.0)));
+        sum = real((EPSILON_ENVE < (d0-y[j])) - ((d0-y[j]) < -EPSILON_ENVE)) +
+              real((EPSILON_ENVE < (d1-y[j])) - ((d1-y[j]) < -EPSILON_ENVE)) +
+              real((EPSILON_ENVE < (d2-y[j])) - ((d2-y[j]) < -EPSILON_ENVE));
 
         // Fill candidates list
         if (real(-3.0) < sum && sum < real(3.0))
-- 
2.43.0


From 43b9be055aae8eddfe5025dd3d9a5b4f2b1b500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 49/62] fix: contact with walls through the hub is a number

---
 src/rib.cc         | 26 ++++++++++++++++++++++----
 toolbox/src/rib.cc | 26 ++++++++++++++++++++++----
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index d88753a..61bc3f6 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -243,6 +243,11 @@ namespace enve
     vec3  contact_normal_tot(ZEROS_VEC3);
     real  contact_friction_tot = real(0.0);
 
+    // Results weighted by area, used where there is no volume
+    point contact_point_area(ZEROS_VEC3);
+    vec3  contact_normal_area(ZEROS_VEC3);
+    real  contact_friction_area = real(0.0);
+
     // Compute remaining contact parameters
     bool int_bool = false;
     segment segment_tmp, cut_tmp;
@@ -323,18 +328,31 @@ namespace enve
         contact_point_tot    += segment_volume_tmp * contact_point_tmp;
         contact_normal_tot   += segment_volume_tmp * contact_normal_tmp;
         contact_friction_tot += segment_volume_tmp * contact_friction_tmp;
+
+        contact_point_area    += segment_area_tmp * contact_point_tmp;
+        contact_normal_area   += segment_area_tmp * contact_normal_tmp;
+        contact_friction_area += segment_area_tmp * contact_friction_tmp;
       }
     }
 
     // Store output
     if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
-      out.point    = contact_point_tot    / segment_volume_tot;
-      out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-      out.friction = contact_friction_tot / segment_volume_tot;
+      if (segment_volume_tot > EPSILON_ENVE * radius * segment_area_tot)
+      {
+        out.point    = contact_point_tot    / segment_volume_tot;
+        out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
+        out.friction = contact_friction_tot / segment_volume_tot;
+      }
+      else
+      {
+        out.point    = contact_point_area    / segment_area_tot;
+        out.normal   = (contact_normal_area  / segment_area_tot).normalized();
+        out.friction = contact_friction_area / segment_area_tot;
+      }
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = segment_area_tot;
-      out.volume   = segment_volume_tot;
+      out.volume   = std::max(real(0.0), segment_volume_tot);
       return true;
     }
     else
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index d88753a..61bc3f6 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -243,6 +243,11 @@ namespace enve
     vec3  contact_normal_tot(ZEROS_VEC3);
     real  contact_friction_tot = real(0.0);
 
+    // Results weighted by area, used where there is no volume
+    point contact_point_area(ZEROS_VEC3);
+    vec3  contact_normal_area(ZEROS_VEC3);
+    real  contact_friction_area = real(0.0);
+
     // Compute remaining contact parameters
     bool int_bool = false;
     segment segment_tmp, cut_tmp;
@@ -323,18 +328,31 @@ namespace enve
         contact_point_tot    += segment_volume_tmp * contact_point_tmp;
         contact_normal_tot   += segment_volume_tmp * contact_normal_tmp;
         contact_friction_tot += segment_volume_tmp * contact_friction_tmp;
+
+        contact_point_area    += segment_area_tmp * contact_point_tmp;
+        contact_normal_area   += segment_area_tmp * contact_normal_tmp;
+        contact_friction_area += segment_area_tmp * contact_friction_tmp;
       }
     }
 
     // Store output
     if (int_bool && (segment_area_tot > EPSILON_ENVE || segment_volume_tot > EPSILON_ENVE))
     {
-      out.point    = contact_point_tot    / segment_volume_tot;
-      out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
-      out.friction = contact_friction_tot / segment_volume_tot;
+      if (segment_volume_tot > EPSILON_ENVE * radius * segment_area_tot)
+      {
+        out.point    = contact_point_tot    / segment_volume_tot;
+        out.normal   = (contact_normal_tot  / segment_volume_tot).normalized();
+        out.friction = contact_friction_tot / segment_volume_tot;
+      }
+      else
+      {
+        out.point    = contact_point_area    / segment_area_tot;
+        out.normal   = (contact_normal_area  / segment_area_tot).normalized();
+        out.friction = contact_friction_area / segment_area_tot;
+      }
       out.depth    = radius - (out.point - center_grd).norm();
       out.area     = segment_area_tot;
-      out.volume   = segment_volume_tot;
+      out.volume   = std::max(real(0.0), segment_volume_tot);
       return true;
     }
     else
-- 
2.43.0


From 81abb79290d8c2d4446b63b022b12ef5b2fb2fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 50/62] fix: sampling contact does not turn with the wheel
 about its axle

---
 src/rib.cc         | 16 ++++++++++------
 toolbox/src/rib.cc | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/rib.cc b/src/rib.cc
index 61bc3f6..b14a4dd 100644
--- a/src/rib.cc
+++ b/src/rib.cc
@@ -439,9 +439,11 @@ namespace enve
     std::vector<point> point_vec(4);
     std::vector<real>  friction_vec(4);
 
-    // Build sampling lines
-    line_vec[0] = line(origin + rotation * (center + delta_x * UNITX_VEC3), -UNITZ_VEC3);
-    line_vec[1] = line(origin + rotation * (center - delta_x * UNITX_VEC3), -UNITZ_VEC3);
+    // Build sampling lines (ahead and behind along the heading of the axle, so
+    // that the samples do not depend on the rotation of the rib about it)
+    vec3 heading(normal_grd.cross(UNITZ_VEC3).normalized());
+    line_vec[0] = line(center_grd + delta_x * heading, -UNITZ_VEC3);
+    line_vec[1] = line(center_grd - delta_x * heading, -UNITZ_VEC3);
     line_vec[2] = line(origin + rotation * (center + delta_y * UNITY_VEC3), -UNITZ_VEC3);
     line_vec[3] = line(origin + rotation * (center - delta_y * UNITY_VEC3), -UNITZ_VEC3);
 
@@ -509,9 +511,11 @@ namespace enve
     std::vector<point> point_vec(4);
     std::vector<real>  friction_vec(4);
 
-    // Build sampling lines
-    line_vec[0] = line(origin + rotation * (center + delta_x * UNITX_VEC3), -UNITZ_VEC3);
-    line_vec[1] = line(origin + rotation * (center - delta_x * UNITX_VEC3), -UNITZ_VEC3);
+    // Build sampling lines (ahead and behind along the heading of the axle, so
+    // that the samples do not depend on the rotation of the rib about it)
+    vec3 heading(normal_grd.cross(UNITZ_VEC3).normalized());
+    line_vec[0] = line(center_grd + delta_x * heading, -UNITZ_VEC3);
+    line_vec[1] = line(center_grd - delta_x * heading, -UNITZ_VEC3);
     line_vec[2] = line(origin + rotation * (center + delta_y * UNITY_VEC3), -UNITZ_VEC3);
     line_vec[3] = line(origin + rotation * (center - delta_y * UNITY_VEC3), -UNITZ_VEC3);
 
diff --git a/toolbox/src/rib.cc b/toolbox/src/rib.cc
index 61bc3f6..b14a4dd 100644
--- a/toolbox/src/rib.cc
+++ b/toolbox/src/rib.cc
@@ -439,9 +439,11 @@ namespace enve
     std::vector<point> point_vec(4);
     std::vector<real>  friction_vec(4);
 
-    // Build sampling lines
-    line_vec[0] = line(origin + rotation * (center + delta_x * UNITX_VEC3), -UNITZ_VEC3);
-    line_vec[1] = line(origin + rotation * (center - delta_x * UNITX_VEC3), -UNITZ_VEC3);
+    // Build sampling lines (ahead and behind along the heading of the axle, so
+    // that the samples do not depend on the rotation of the rib about it)
+    vec3 heading(normal_grd.cross(UNITZ_VEC3).normalized());
+    line_vec[0] = line(center_grd + delta_x * heading, -UNITZ_VEC3);
+    line_vec[1] = line(center_grd - delta_x * heading, -UNITZ_VEC3);
     line_vec[2] = line(origin + rotation * (center + delta_y * UNITY_VEC3), -UNITZ_VEC3);
     line_vec[3] = line(origin + rotation * (center - delta_y * UNITY_VEC3), -UNITZ_VEC3);
 
@@ -509,9 +511,11 @@ namespace enve
     std::vector<point> point_vec(4);
     std::vector<real>  friction_vec(4);
 
-    // Build sampling lines
-    line_vec[0] = line(origin + rotation * (center + delta_x * UNITX_VEC3), -UNITZ_VEC3);
-    line_vec[1] = line(origin + rotation * (center - delta_x * UNITX_VEC3), -UNITZ_VEC3);
+    // Build sampling lines (ahead and behind along the heading of the axle, so
+    // that the samples do not depend on the rotation of the rib about it)
+    vec3 heading(normal_grd.cross(UNITZ_VEC3).normalized());
+    line_vec[0] = line(center_grd + delta_x * heading, -UNITZ_VEC3);
+    line_vec[1] = line(center_grd - delta_x * heading, -UNITZ_VEC3);
     line_vec[2] = line(origin + rotation * (center + delta_y * UNITY_VEC3), -UNITZ_VEC3);
     line_vec[3] = line(origin + rotation * (center - delta_y * UNITY_VEC3), -UNITZ_VEC3);
 
-- 
2.43.0


From 2bf537a129787513964aa836111729695bbb54f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 51/62] fix: collision of empty trees finds nothing

---
 toolbox/src/acme/AABBtree.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toolbox/src/acme/AABBtree.hxx b/toolbox/src/acme/AABBtree.hxx
index 5a0dae1..94d67b9 100644
--- a/toolbox/src/acme/AABBtree.hxx
+++ b/toolbox/src/acme/AABBtree.hxx
@@ -107,6 +107,8 @@ namespace acme
     {
 
       // check aabb with
+      if (tree.isEmpty() || this->isEmpty())
+        {return false;}
       if (!tree.m_ptrbox->intersects(*this->m_ptrbox))
         {return false;}
 
-- 
2.43.0


From f5e2e6fa32d8ecb69000c74f68b07d839abb5370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 52/62] fix: a refused start of the S-function gives back its
 objects

---
 sfun/src_sfun/enve_sfun_interface.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/sfun/src_sfun/enve_sfun_interface.cc b/sfun/src_sfun/enve_sfun_interface.cc
index fc53a08..c4db64c 100755
--- a/sfun/src_sfun/enve_sfun_interface.cc
+++ b/sfun/src_sfun/enve_sfun_interface.cc
@@ -73,33 +73,33 @@ extern "C"
 
     // Build mesh
     std::string extension = mesh_path.substr(mesh_path.size() - 4, 4);
-    enve::ground::mesh *mesh = nullptr;
+    std::unique_ptr<enve::ground::mesh> mesh;
     if (extension == ".rdf")
-      {mesh = new enve::ground::mesh(mesh_path, pose);}
+      {mesh.reset(new enve::ground::mesh(mesh_path, pose));}
     else if (extension == ".obj")
-      {mesh = new enve::ground::mesh(mesh_path, 1.0, pose);}
+      {mesh.reset(new enve::ground::mesh(mesh_path, 1.0, pose));}
     else
       {ENVE_ERROR(CMD "not a *.rdf or *.obj file.");}
 
     // Build flat
-    enve::ground::flat *flat = new enve::ground::flat(
+    std::unique_ptr<enve::ground::flat> flat(new enve::ground::flat(
       *FlatFrictionPar, acme::point(0.0, 0.0, *FlatHeightPar), acme::vec3(0.0, 0.0, 1.0)
-    );
+    ));
 
     // Build shell
-    enve::shell *shell = new enve::shell(
+    std::unique_ptr<enve::shell> shell(new enve::shell(
       *SizePar,
       *Rx,
       *Mx,
       *Ry,
       *My,
       *Ly
-    );
+    ));
 
     // Store pointers
-    MeshPtr  = static_cast<void *>(mesh);
-    FlatPtr  = static_cast<void *>(flat);
-    ShellPtr = static_cast<void *>(shell);
+    MeshPtr  = static_cast<void *>(mesh.release());
+    FlatPtr  = static_cast<void *>(flat.release());
+    ShellPtr = static_cast<void *>(shell.release());
 
     #undef CMD
   }
-- 
2.43.0


From 382cf3bfb4fdecddfa29faadb3af8d858edc9157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 53/62] fix: starting the S-function again gives back the
 previous objects

---
 sfun/src_sfun/enve_sfun_interface.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfun/src_sfun/enve_sfun_interface.cc b/sfun/src_sfun/enve_sfun_interface.cc
index c4db64c..d6afb35 100755
--- a/sfun/src_sfun/enve_sfun_interface.cc
+++ b/sfun/src_sfun/enve_sfun_interface.cc
@@ -97,6 +97,7 @@ extern "C"
     ));
 
     // Store pointers
+    enve_sfun_end();
     MeshPtr  = static_cast<void *>(mesh.release());
     FlatPtr  = static_cast<void *>(flat.release());
     ShellPtr = static_cast<void *>(shell.release());
-- 
2.43.0


From b8aea40d3b184769a01b28b237cf6ec1628e88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 54/62] fix: the copy of an enve_flat takes an enve_flat, as
 the error message and the binding say

---
 toolbox/lib/enve_flat.m | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/lib/enve_flat.m b/toolbox/lib/enve_flat.m
index 066215c..e35642f 100644
--- a/toolbox/lib/enve_flat.m
+++ b/toolbox/lib/enve_flat.m
@@ -126,12 +126,12 @@ classdef enve_flat < handle
     %
     % - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
     %
-    %> Copy mesh object from another mesh
+    %> Copy flat object from another flat
     function copy( this, other_obj )
-      if (other_obj.type() == "mesh")
+      if (other_obj.type() == "flat")
         mex_flat( 'copy', this.objectHandle, other_obj.objectHandle );
       else
-        error('mex_flat::copy(): other_obj must be an ENVE mesh object type.');
+        error('mex_flat::copy(): other_obj must be an ENVE flat object type.');
       end
     end
     %
-- 
2.43.0


From 7f71dc164f3e18d391115d2ceabef2c937505ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 55/62] fix: enve_shell.surfaceWidthBound calls the command
 that exists

---
 toolbox/lib/enve_shell.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/lib/enve_shell.m b/toolbox/lib/enve_shell.m
index 3845205..2982065 100644
--- a/toolbox/lib/enve_shell.m
+++ b/toolbox/lib/enve_shell.m
@@ -77,7 +77,7 @@ classdef enve_shell < handle
     %
     %> Get shell surface maximum width on reference (m)
     function out = surfaceWidthBound( this, y )
-      out = mex_shell( 'surfaceWidthBound', this.objectHandle, y );
+      out = mex_shell( 'checkWidthBound', this.objectHandle, y );
     end
     %
     % - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 8cc9ddb4a0c0916dafe50b7225c991f524e20d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 56/62] fix: mex_triangleground knows the commands setVertex1,
 setVertex2 and setVertex3 it documents

---
 toolbox/src_mex/mex_triangleground.cc | 55 +++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/toolbox/src_mex/mex_triangleground.cc b/toolbox/src_mex/mex_triangleground.cc
index b5abb94..19b76ce 100644
--- a/toolbox/src_mex/mex_triangleground.cc
+++ b/toolbox/src_mex/mex_triangleground.cc
@@ -288,6 +288,58 @@ do_getVertex3(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+static void
+set_vertex(enve::triangleground *self, size_t i, acme::point const &vertex)
+{
+  acme::point vertices[3] = {self->triangle::vertex(0), self->triangle::vertex(1), self->triangle::vertex(2)};
+  vertices[i]             = vertex;
+  self->copy(enve::triangleground(self->id(), self->friction(), vertices));
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setVertex1(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+
+#define CMD "mex_triangleground( 'setVertex1', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  set_vertex(DATA_GET(arg_in_1), 0, *utils::mex_convert_mx_to_ptr<acme::point>(arg_in_2));
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setVertex2(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+
+#define CMD "mex_triangleground( 'setVertex2', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  set_vertex(DATA_GET(arg_in_1), 1, *utils::mex_convert_mx_to_ptr<acme::point>(arg_in_2));
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
+static void
+do_setVertex3(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
+{
+
+#define CMD "mex_triangleground( 'setVertex3', OBJ, OTHER_OBJ ): "
+  UTILS_MEX_ASSERT(nrhs == 3, CMD "expected 3 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nlhs == 0, CMD "expected 0 output, nlhs = " << nlhs << "\n");
+
+  set_vertex(DATA_GET(arg_in_1), 2, *utils::mex_convert_mx_to_ptr<acme::point>(arg_in_2));
+#undef CMD
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
 static void
 do_copy(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
@@ -332,6 +384,9 @@ static map<string, DO_CMD> cmd_to_fun = {
   {"getVertex1",  do_getVertex1},
   {"getVertex2",  do_getVertex2},
   {"getVertex3",  do_getVertex3},
+  {"setVertex1",  do_setVertex1},
+  {"setVertex2",  do_setVertex2},
+  {"setVertex3",  do_setVertex3},
   {"copy",        do_copy},
   {"normal",      do_normal}};
 
-- 
2.43.0


From 377ac18e00c814b800ae285416a30b78efeb029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 57/62] fix: mex_flat new refuses seven numbers instead of
 ignoring them

---
 toolbox/src_mex/mex_flat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src_mex/mex_flat.cc b/toolbox/src_mex/mex_flat.cc
index c8ec18b..6c6f1ef 100644
--- a/toolbox/src_mex/mex_flat.cc
+++ b/toolbox/src_mex/mex_flat.cc
@@ -125,7 +125,7 @@ static void
 do_new(int nlhs, mxArray *plhs[], int nrhs, mxArray const *prhs[])
 {
 #define CMD "mex_flat( 'new', [, args] ): "
-  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 4 || nrhs == 8, CMD "expected 1 or 4 inputs, nrhs = " << nrhs << "\n");
+  UTILS_MEX_ASSERT(nrhs == 1 || nrhs == 4, CMD "expected 1 or 4 inputs, nrhs = " << nrhs << "\n");
   UTILS_MEX_ASSERT(nlhs == 1, CMD "expected 1 output, nlhs = " << nlhs << "\n");
 
   UTILS_MEX_ASSERT(
-- 
2.43.0


From a9d7869e12f2d533215952a83f9c9d3b7c4f86bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:12 +0000
Subject: [PATCH 58/62] fix: boxes of a tree cut along z are sorted by z

---
 toolbox/src/AABBtree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index 9f33a5d..3b71a17 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -143,7 +143,7 @@ namespace acme
       aabb::vecptr::const_iterator it;
       for (it = boxes.begin(); it != boxes.end(); ++it)
       {
-        real zmid = ((*it)->min(1) + (*it)->max(1)) / real(2.0);
+        real zmid = ((*it)->min(2) + (*it)->max(2)) / real(2.0);
         if (zmid > cut_pos)
           {pos_boxes.push_back(*it);}
         else
-- 
2.43.0


From 3fa8fc716a42bf5a9e968c3d63d8d77bff9f3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:12 +0000
Subject: [PATCH 59/62] fix: a tree is cut along a longest side also when two
 are as long

---
 toolbox/src/AABBtree.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/src/AABBtree.cc b/toolbox/src/AABBtree.cc
index 3b71a17..6857f18 100644
--- a/toolbox/src/AABBtree.cc
+++ b/toolbox/src/AABBtree.cc
@@ -111,7 +111,7 @@ namespace acme
     aabb::vecptr pos_boxes;
     aabb::vecptr neg_boxes;
 
-    if ((xmax - xmin) > (ymax - ymin) && (xmax - xmin) > (zmax - zmin))
+    if ((xmax - xmin) >= (ymax - ymin) && (xmax - xmin) >= (zmax - zmin))
     {
       real cut_pos = (xmax + xmin) / real(2.0);
       aabb::vecptr::const_iterator it;
@@ -124,7 +124,7 @@ namespace acme
           {neg_boxes.push_back(*it);}
       }
     }
-    else if ((ymax - ymin) > (xmax - xmin) && (ymax - ymin) > (zmax - zmin))
+    else if ((ymax - ymin) >= (xmax - xmin) && (ymax - ymin) >= (zmax - zmin))
     {
       real cut_pos = (ymax + ymin) / real(2.0);
       aabb::vecptr::const_iterator it;
-- 
2.43.0


From 6e3997f3adab2190f01c3f64d9efc736b8174a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 60/62] fix: a mesh that fails to load or to be copied keeps
 its triangles and tree

---
 src/mesh.cc         | 22 ++++++++++++++--------
 toolbox/src/mesh.cc | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/mesh.cc b/src/mesh.cc
index 927b076..ccce2a0 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -106,8 +106,10 @@ namespace enve
       mesh const & mesh_obj
     )
     {
-      this->m_triangles = mesh_obj.m_triangles;
-      this->buildAABBtree();
+      mesh copied(mesh_obj.m_triangles);
+      this->m_triangles.swap(copied.m_triangles);
+      this->m_bboxes.swap(copied.m_bboxes);
+      this->m_AABBtree.swap(copied.m_AABBtree);
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -344,11 +346,13 @@ namespace enve
       }
       else
       {
-        // Update the local intersected triangles list
-        this->m_triangles.swap(triangles);
+        // Update the triangles list with its AABB tree, all or nothing
         std::cout
           << "Building AABB tree... ";
-        this->buildAABBtree();
+        mesh loaded(triangles);
+        this->m_triangles.swap(loaded.m_triangles);
+        this->m_bboxes.swap(loaded.m_bboxes);
+        this->m_AABBtree.swap(loaded.m_AABBtree);
         std::cout
           << "Done" << std::endl
           << std::endl;
@@ -469,10 +473,12 @@ namespace enve
       }
       else
       {
-        // Update the local intersected triangles list
-        this->m_triangles.swap(triangles);
+        // Update the triangles list with its AABB tree, all or nothing
         std::cout << "Building AABB tree... ";
-        this->buildAABBtree();
+        mesh loaded(triangles);
+        this->m_triangles.swap(loaded.m_triangles);
+        this->m_bboxes.swap(loaded.m_bboxes);
+        this->m_AABBtree.swap(loaded.m_AABBtree);
         std::cout
           << "Done" << std::endl
           << std::endl;
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index 927b076..ccce2a0 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -106,8 +106,10 @@ namespace enve
       mesh const & mesh_obj
     )
     {
-      this->m_triangles = mesh_obj.m_triangles;
-      this->buildAABBtree();
+      mesh copied(mesh_obj.m_triangles);
+      this->m_triangles.swap(copied.m_triangles);
+      this->m_bboxes.swap(copied.m_bboxes);
+      this->m_AABBtree.swap(copied.m_AABBtree);
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
@@ -344,11 +346,13 @@ namespace enve
       }
       else
       {
-        // Update the local intersected triangles list
-        this->m_triangles.swap(triangles);
+        // Update the triangles list with its AABB tree, all or nothing
         std::cout
           << "Building AABB tree... ";
-        this->buildAABBtree();
+        mesh loaded(triangles);
+        this->m_triangles.swap(loaded.m_triangles);
+        this->m_bboxes.swap(loaded.m_bboxes);
+        this->m_AABBtree.swap(loaded.m_AABBtree);
         std::cout
           << "Done" << std::endl
           << std::endl;
@@ -469,10 +473,12 @@ namespace enve
       }
       else
       {
-        // Update the local intersected triangles list
-        this->m_triangles.swap(triangles);
+        // Update the triangles list with its AABB tree, all or nothing
         std::cout << "Building AABB tree... ";
-        this->buildAABBtree();
+        mesh loaded(triangles);
+        this->m_triangles.swap(loaded.m_triangles);
+        this->m_bboxes.swap(loaded.m_bboxes);
+        this->m_AABBtree.swap(loaded.m_AABBtree);
         std::cout
           << "Done" << std::endl
           << std::endl;
-- 
2.43.0


From c1043113c1ae3db12386cdd57caf9dcbf1436f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 61/62] fix: a read error in a mesh file is reported instead of
 loading part of it

---
 src/mesh.cc         | 4 ++++
 toolbox/src/mesh.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index ccce2a0..c44ec60 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -331,6 +331,8 @@ namespace enve
           continue;
         }
       }
+      ENVE_ASSERT(!file.bad(),
+        CMD "error while reading file.");
       std::cout
         << "Done" << std::endl;
 
@@ -458,6 +460,8 @@ namespace enve
           continue;
         }
       }
+      ENVE_ASSERT(!file.bad(),
+        CMD "error while reading file.");
       std::cout
         << "Done" << std::endl;
 
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index ccce2a0..c44ec60 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -331,6 +331,8 @@ namespace enve
           continue;
         }
       }
+      ENVE_ASSERT(!file.bad(),
+        CMD "error while reading file.");
       std::cout
         << "Done" << std::endl;
 
@@ -458,6 +460,8 @@ namespace enve
           continue;
         }
       }
+      ENVE_ASSERT(!file.bad(),
+        CMD "error while reading file.");
       std::cout
         << "Done" << std::endl;
 
-- 
2.43.0


From c8e3dd44198ef30dead03234e09c841c276a2132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 62/62] fix: printing a mesh to a file that cannot be written
 is reported

---
 src/mesh.cc         | 8 ++++++++
 toolbox/src/mesh.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/mesh.cc b/src/mesh.cc
index c44ec60..d944881 100755
--- a/src/mesh.cc
+++ b/src/mesh.cc
@@ -166,8 +166,12 @@ namespace enve
     )
       const
     {
+      #define CMD "enve::ground::mesh::print(...): "
+
       // Create Out.txt
       std::ofstream file(path);
+      ENVE_ASSERT(file.is_open(),
+        CMD "file not opened.");
       // Print introduction
       file
         << "MESH DATA" << std::endl
@@ -200,6 +204,10 @@ namespace enve
       }
       // Close File
       file.close();
+      ENVE_ASSERT(file.good(),
+        CMD "error while writing file.");
+
+      #undef CMD
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
diff --git a/toolbox/src/mesh.cc b/toolbox/src/mesh.cc
index c44ec60..d944881 100755
--- a/toolbox/src/mesh.cc
+++ b/toolbox/src/mesh.cc
@@ -166,8 +166,12 @@ namespace enve
     )
       const
     {
+      #define CMD "enve::ground::mesh::print(...): "
+
       // Create Out.txt
       std::ofstream file(path);
+      ENVE_ASSERT(file.is_open(),
+        CMD "file not opened.");
       // Print introduction
       file
         << "MESH DATA" << std::endl
@@ -200,6 +204,10 @@ namespace enve
       }
       // Close File
       file.close();
+      ENVE_ASSERT(file.good(),
+        CMD "error while writing file.");
+
+      #undef CMD
     }
 
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0

