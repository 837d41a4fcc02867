From f6390c3987ee4255e1659fbc93c8cfe191647bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 001/102] fix: one-element integer arrays are arrays, not
 scalars, for graph/tree/LCA queries

pybind11 converted one-element arrays of an integer type that had no exact overload to the scalar
overload, so that the result lost its dimension.
---
 higra/structure/py_common_graph.hpp |  6 +++---
 higra/structure/py_embedding.cpp    |  2 +-
 higra/structure/py_lca_fast.cpp     |  4 ++--
 higra/structure/py_tree_graph.cpp   | 16 ++++++++--------
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/higra/structure/py_common_graph.hpp b/higra/structure/py_common_graph.hpp
index e136f35..9389fa3 100644
--- a/higra/structure/py_common_graph.hpp
+++ b/higra/structure/py_common_graph.hpp
@@ -78,7 +78,7 @@ namespace py_common_graph {
                   return hg::out_degree(vertex, g);
               },
               "Return the out degree of the given vertex.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex").noconvert());
 
         add_type_overloads<def_out_degree<graph_t>, int, unsigned int, long long, unsigned long long>
                 (c, "Return the out degree of the given vertices.");
@@ -145,7 +145,7 @@ namespace py_common_graph {
                   return hg::degree(vertex, g);
               },
               "Return the degree of the given vertex.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex").noconvert());
 
         add_type_overloads<def_degree<graph_t>, int, unsigned int, long long, unsigned long long>
                 (c, "Return the degree of the given vertices.");
@@ -155,7 +155,7 @@ namespace py_common_graph {
                   return hg::in_degree(vertex, g);
               },
               "Return the in degree of the given vertex.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex").noconvert());
 
         add_type_overloads<def_in_degree<graph_t>, int, unsigned int, long long, unsigned long long>
                 (c, "Return the in degree of the given vertices.");
diff --git a/higra/structure/py_embedding.cpp b/higra/structure/py_embedding.cpp
index 997b3ee..aafda0d 100644
--- a/higra/structure/py_embedding.cpp
+++ b/higra/structure/py_embedding.cpp
@@ -103,7 +103,7 @@ namespace py_embedding {
         // ::TODO:: remove cast to xt::pyarray when xtesnor python supports xtensor_fixed
         c.def("lin2grid", [](const class_t &e, const index_t a) { return pyarray<hg::index_t>(e.lin2grid(a)); },
               "Compute the nd coordinates of a point given its linear coordinate.",
-              py::arg("index"));
+              py::arg("index").noconvert());
 
         add_type_overloads<def_lin2grid<class_t>, HG_TEMPLATE_SINTEGRAL_TYPES>
                 (c,
diff --git a/higra/structure/py_lca_fast.cpp b/higra/structure/py_lca_fast.cpp
index 868c37f..9073dde 100644
--- a/higra/structure/py_lca_fast.cpp
+++ b/higra/structure/py_lca_fast.cpp
@@ -138,8 +138,8 @@ namespace py_lca_fast {
                   return l.lca(v1, v2);
               },
               "Get LCA of given two vertices.",
-              py::arg("v1"),
-              py::arg("v2"));
+              py::arg("v1").noconvert(),
+              py::arg("v2").noconvert());
 
         c.def("lca",
               [](const lca_t &l, const ugraph &g) { return l.lca(edge_iterator(g)); },
diff --git a/higra/structure/py_tree_graph.cpp b/higra/structure/py_tree_graph.cpp
index 4f08859..6928406 100644
--- a/higra/structure/py_tree_graph.cpp
+++ b/higra/structure/py_tree_graph.cpp
@@ -234,7 +234,7 @@ namespace py_tree_graph {
                   return hg::out_degree(vertex, g);
               },
               "Return the out degree of the given vertex.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex").noconvert());
 
         add_type_overloads<def_out_degree_tree<graph_t>, int, unsigned int, long long, unsigned long long>
                 (c, "Return the out degree of the given vertices.");
@@ -266,7 +266,7 @@ namespace py_tree_graph {
                   return hg::degree(vertex, g);
               },
               "Return the degree of the given vertex.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex").noconvert());
 
         add_type_overloads<def_degree_tree<graph_t>, int, unsigned int, long long, unsigned long long>
                 (c, "Return the degree of the given vertices.");
@@ -277,7 +277,7 @@ namespace py_tree_graph {
                   return hg::in_degree(vertex, g);
               },
               "Return the in degree of the given vertex.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex").noconvert());
 
         add_type_overloads<def_in_degree_tree<graph_t>, int, unsigned int, long long, unsigned long long>
                 (c, "Return the in degree of the given vertices.");
@@ -307,7 +307,7 @@ namespace py_tree_graph {
                   return t.is_leaf(i);
               },
               "Returns true if the given node is a leaf of true and false otherwise.",
-              py::arg("vertex"));
+              py::arg("vertex").noconvert());
 
         add_type_overloads<def_is_leaf<graph_t>, int, unsigned int, long long, unsigned long long>
                 (c, "Indicates if each vertex in the given array is a leaf or not.");
@@ -316,7 +316,7 @@ namespace py_tree_graph {
             hg_assert_vertex_index(t, i);
             t.compute_children();
             return t.num_children(i);
-        }, "", py::arg("vertex"));
+        }, "", py::arg("vertex").noconvert());
         add_type_overloads<def_num_children<graph_t>, int, unsigned int, long long, unsigned long long>(c, "");
 
         c.def("_child", [](const graph_t &t, index_t i, index_t vertex) {
@@ -328,7 +328,7 @@ namespace py_tree_graph {
                   return t.child(i, vertex);
               }, "Get the i-th (starting at 0) child of the given node of the tree.",
               py::arg("i"),
-              py::arg("node"));
+              py::arg("node").noconvert());
         add_type_overloads<def_child<graph_t>, int, unsigned int, long long, unsigned long long>
                 (c, "Get the i-th (starting at 0) child of each vertex in the given array.");
         add_type_overloads<def_find_region<graph_t>, HG_TEMPLATE_NUMERIC_TYPES>
@@ -341,8 +341,8 @@ namespace py_tree_graph {
                   return hg::lowest_common_ancestor(vertex1, vertex2, tree);
               },
               "Return the lowest common ancestor of `vertex1` and `vertex2`. Worst case complexity is linear `O(N)`: consider using the `LCAFast` if many lowest common ancestors are needed",
-              py::arg("vertex1"),
-              py::arg("vertex2"));
+              py::arg("vertex1").noconvert(),
+              py::arg("vertex2").noconvert());
 
         c.def("_lowest_common_ancestor",
               [](const graph_t &tree, const pyarray<hg::index_t> &vertices1, const pyarray<hg::index_t> &vertices2) {
-- 
2.43.0


From 93e47fa8ebc921a2e7f121fde29783b1a6abf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 002/102] fix: iterators and contour segments keep the object
 they refer to alive

Iterators on edges, vertices, nodes and contours (and contour segments) referred to memory of the
graph, tree or contour they were obtained from without keeping it alive, and contour element access
was not bound checked.
---
 higra/image/py_contour_2d.cpp       | 30 +++++++++++++++++++++++------
 higra/structure/py_common_graph.hpp | 15 ++++++++++-----
 higra/structure/py_tree_graph.cpp   | 18 +++++++++++------
 3 files changed, 46 insertions(+), 17 deletions(-)

diff --git a/higra/image/py_contour_2d.cpp b/higra/image/py_contour_2d.cpp
index 975a7b7..88926e6 100644
--- a/higra/image/py_contour_2d.cpp
+++ b/higra/image/py_contour_2d.cpp
@@ -42,9 +42,12 @@ namespace py_contour_2d {
                   return py::make_iterator(transform_it_t(c.begin(), transform), transform_it_t(c.end(), transform));
                   //return py::make_iterator(c.begin(), c.end());
               },
-              "Iterator on the contour elements of the contour segment. ");
+              "Iterator on the contour elements of the contour segment. ",
+              py::keep_alive<0, 1>());
         c.def("__len__", &class_t::size, "Number of elements in the contour segment.");
         c.def("__getitem__", [](class_t &c, index_t i) {
+            if (i < 0 || i >= (index_t) c.size())
+                throw py::index_error("Contour element index out of range.");
             // ::TODO:: remove this stupid thing when xtensor python supports it
             const auto &e = c[i];
             return std::make_pair(e.first, std::make_pair(e.second[0], e.second[1]));
@@ -69,12 +72,22 @@ namespace py_contour_2d {
                                      "Note that consecutive segments share their extremities: given two consecutive "
                                      "contour segments s1 and s2, "
                                      "the last element of s1 is equal to the first element of s2.");
-        c.def("__iter__", [](class_t &c) {
-                  return py::make_iterator(c.begin(), c.end());
+        // a segment refers to its polyline, which must thus be kept alive by each segment
+        c.def("__iter__", [](py::object self) {
+                  py::list segments;
+                  for (index_t i = 0; i < (index_t) self.cast<class_t &>().size(); i++) {
+                      segments.append(self.attr("__getitem__")(i));
+                  }
+                  return py::iter(segments);
               },
               "Iterator on the contour segments of the polyline contour. ");
         c.def("__len__", &class_t::size, "Number of segments in the polyline contour.");
-        c.def("__getitem__", [](class_t &c, index_t i) { return c[i]; });
+        c.def("__getitem__", [](class_t &c, index_t i) {
+                  if (i < 0 || i >= (index_t) c.size())
+                      throw py::index_error("Contour segment index out of range.");
+                  return c[i];
+              },
+              py::keep_alive<0, 1>());
         c.def("subdivide", &class_t::subdivide,
               "Subdivide the line such that the distance between the line\n"
               "joining the extremities of the contour segment and each of its elements is lower than the threshold (\n"
@@ -97,9 +110,14 @@ namespace py_contour_2d {
         c.def("__iter__", [](class_t &c) {
                   return py::make_iterator(c.begin(), c.end());
               },
-              "Iterator on the polyline contours. ");
+              "Iterator on the polyline contours. ",
+              py::keep_alive<0, 1>());
         c.def("__len__", &class_t::size, "Number of polyline contours.");
-        c.def("__getitem__", [](class_t &c, index_t i) { return c[i]; });
+        c.def("__getitem__", [](class_t &c, index_t i) {
+            if (i < 0 || i >= (index_t) c.size())
+                throw py::index_error("Polyline contour index out of range.");
+            return c[i];
+        });
         c.def("subdivide", &class_t::subdivide,
               "Subdivide each segment of the contour such that: "
               "For each segment, the distance between the line joining the extremities "
diff --git a/higra/structure/py_common_graph.hpp b/higra/structure/py_common_graph.hpp
index 9389fa3..1f3d833 100644
--- a/higra/structure/py_common_graph.hpp
+++ b/higra/structure/py_common_graph.hpp
@@ -71,7 +71,8 @@ namespace py_common_graph {
 
               },
               "Iterator over all out edges from 'vertex'. An out edge is a tuple '(vertex, adjacent_vertex)'.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex"),
+              pybind11::keep_alive<0, 1>());
 
         c.def("out_degree", [](graph_t &g, vertex_t vertex) {
                   hg_assert_vertex_index(g, vertex);
@@ -138,7 +139,8 @@ namespace py_common_graph {
 
               },
               "Iterator over all in edges from 'vertex'. An in edge is a tuple '(adjacent_vertex, vertex)'.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex"),
+              pybind11::keep_alive<0, 1>());
 
         c.def("degree", [](graph_t &g, vertex_t vertex) {
                   hg_assert_vertex_index(g, vertex);
@@ -172,7 +174,8 @@ namespace py_common_graph {
                   return pybind11::make_iterator(it.first, it.second);
               },
               "Iterator over all vertices adjacent to the given vertex.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex"),
+              pybind11::keep_alive<0, 1>());
     }
 
     template<typename graph_t, typename pyc>
@@ -182,7 +185,8 @@ namespace py_common_graph {
                   auto it = hg::vertices(g);
                   return pybind11::make_iterator(it.first, it.second);
               },
-              "Iterator over all vertices of the graph.");
+              "Iterator over all vertices of the graph.",
+              pybind11::keep_alive<0, 1>());
 
         c.def("num_vertices", [](graph_t &g) { return hg::num_vertices(g); },
               "Return the number of vertices in the graph");
@@ -203,7 +207,8 @@ namespace py_common_graph {
                   auto it2 = edge_iterator(it.second, cpp_edge_2_python<edge_t>);
                   return pybind11::make_iterator(it1, it2);
               },
-              "Iterator over all edges of the graph.");
+              "Iterator over all edges of the graph.",
+              pybind11::keep_alive<0, 1>());
 
         c.def("num_edges", [](graph_t &g) { return hg::num_edges(g); },
               "Return the number of edges in the graph");
diff --git a/higra/structure/py_tree_graph.cpp b/higra/structure/py_tree_graph.cpp
index 6928406..7e7708b 100644
--- a/higra/structure/py_tree_graph.cpp
+++ b/higra/structure/py_tree_graph.cpp
@@ -226,7 +226,8 @@ namespace py_tree_graph {
 
               },
               "Iterator over all out edges from 'vertex'. An out edge is a tuple '(vertex, adjacent_vertex)'.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex"),
+              pybind11::keep_alive<0, 1>());
 
         c.def("out_degree", [](graph_t &g, vertex_t vertex) {
                   hg_assert_vertex_index(g, vertex);
@@ -258,7 +259,8 @@ namespace py_tree_graph {
 
               },
               "Iterator over all in edges from 'vertex'. An in edge is a tuple '(adjacent_vertex, vertex)'.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex"),
+              pybind11::keep_alive<0, 1>());
 
         c.def("degree", [](graph_t &g, vertex_t vertex) {
                   hg_assert_vertex_index(g, vertex);
@@ -293,7 +295,8 @@ namespace py_tree_graph {
                   return pybind11::make_iterator(it.first, it.second);
               },
               "Iterator over all vertices adjacent to the given vertex.",
-              pybind11::arg("vertex"));
+              pybind11::arg("vertex"),
+              pybind11::keep_alive<0, 1>());
 
         add_vertex_list_graph_concept<graph_t, decltype(c)>(c);
         add_edge_list_graph_concept<graph_t, decltype(c)>(c);
@@ -397,7 +400,8 @@ namespace py_tree_graph {
               [](const graph_t &tree) {
                   auto range = hg::leaves_iterator(tree);
                   return py::make_iterator(range.begin(), range.end());
-              }, "Returns an iterator on leaves of the tree.");
+              }, "Returns an iterator on leaves of the tree.",
+              pybind11::keep_alive<0, 1>());
 
         c.def("leaves_to_root_iterator",
               [](const graph_t &tree, bool includeLeaves, bool includeRoot) {
@@ -408,7 +412,8 @@ namespace py_tree_graph {
                   return py::make_iterator(range.begin(), range.end());
               }, "Returns an iterator on the node indices going from the leaves to the root of the tree.",
               py::arg("include_leaves") = true,
-              py::arg("include_root") = true);
+              py::arg("include_root") = true,
+              pybind11::keep_alive<0, 1>());
 
         c.def("root_to_leaves_iterator",
               [](const graph_t &tree, bool includeLeaves, bool includeRoot) {
@@ -419,7 +424,8 @@ namespace py_tree_graph {
                   return py::make_iterator(range.begin(), range.end());
               }, "Returns an iterator on the node indices going from the root to the leaves of the tree.",
               py::arg("include_leaves") = true,
-              py::arg("include_root") = true);
+              py::arg("include_root") = true,
+              pybind11::keep_alive<0, 1>());
 
         c.def("_compute_children", &graph_t::compute_children, "Compute the children relation.");
         c.def("_children_computed", &graph_t::children_computed,
-- 
2.43.0


From 9823f7bcbc63315bab61457091bbc302fccc5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 003/102] fix: removing or re-attaching an already removed edge
 accessed invalid memory

---
 include/higra/structure/undirected_graph.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/structure/undirected_graph.hpp b/include/higra/structure/undirected_graph.hpp
index 512be0a..cabd9e7 100644
--- a/include/higra/structure/undirected_graph.hpp
+++ b/include/higra/structure/undirected_graph.hpp
@@ -162,6 +162,8 @@ namespace hg {
             void remove_edge(edge_index_t ei) {
                 auto &source = edges[ei].source;
                 auto &target = edges[ei].target;
+                if (source == invalid_index) // edge already removed
+                    return;
                 remove_from_container(out_edges[source], ei);
                 if (source != target)
                     remove_from_container(out_edges[target], ei);
-- 
2.43.0


From df3d4b1efd2b77901f157cf034ff14b5ab455691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 004/102] fix: unsigned vertex and edge indices larger than the
 largest signed index passed validation

---
 higra/structure/py_lca_fast.cpp | 8 +++++---
 include/higra/utils.hpp         | 8 ++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/higra/structure/py_lca_fast.cpp b/higra/structure/py_lca_fast.cpp
index 9073dde..957b801 100644
--- a/higra/structure/py_lca_fast.cpp
+++ b/higra/structure/py_lca_fast.cpp
@@ -33,10 +33,12 @@ namespace py_lca_fast {
             c.def("lca", [](const lca_t &l,
                             const pyarray<value_t> &vertices1,
                             const pyarray<value_t> &vertices2) {
-                      hg_assert((xt::amin)(vertices1)() >= 0, "Vertex indices cannot be negative.");
-                      hg_assert((index_t) (index_t) (xt::amax)(vertices1)() < (index_t) l.num_elements(),
+                      hg_assert(vertices1.size() == 0 || ((xt::amin)(vertices1)() >= 0 && (index_t) (xt::amax)(vertices1)() >= 0),
+                                "Vertex indices cannot be negative.");
+                      hg_assert((index_t) (xt::amax)(vertices1)() < (index_t) l.num_elements(),
                                 "Vertex indices must be smaller than the number of vertices in the tree.");
-                      hg_assert((xt::amin)(vertices2)() >= 0, "Vertex indices cannot be negative.");
+                      hg_assert(vertices2.size() == 0 || ((xt::amin)(vertices2)() >= 0 && (index_t) (xt::amax)(vertices2)() >= 0),
+                                "Vertex indices cannot be negative.");
                       hg_assert((index_t) (xt::amax)(vertices2)() < (index_t) l.num_elements(),
                                 "Vertex indices must be smaller than the number of vertices in the tree.");
                       return l.lca(vertices1, vertices2);
diff --git a/include/higra/utils.hpp b/include/higra/utils.hpp
index 1d05c03..665d31d 100644
--- a/include/higra/utils.hpp
+++ b/include/higra/utils.hpp
@@ -109,9 +109,9 @@ namespace hg {
     } while (0)
 
 #define hg_assert_vertex_indices(graph, vertex_indices) do { \
-    hg_assert((xt::amin)(vertex_indices)() >= 0, \
+    hg_assert(vertex_indices.size() == 0 || ((xt::amin)(vertex_indices)() >= 0 && (hg::index_t)(xt::amax)(vertex_indices)() >= 0), \
               "Vertex indices cannot be negative.");\
-    hg_assert((hg::index_t)(xt::amax)(vertex_indices)() < (hg::index_t)hg::num_vertices(graph), "Vertex indices must be smaller than the number of vertices in the graph/tree.");\
+    hg_assert(vertex_indices.size() == 0 || (hg::index_t)(xt::amax)(vertex_indices)() < (hg::index_t)hg::num_vertices(graph), "Vertex indices must be smaller than the number of vertices in the graph/tree.");\
     } while (0)
 
 #define hg_assert_vertex_index(graph, vertex_index) do { \
@@ -121,9 +121,9 @@ namespace hg {
     } while (0)
 
 #define hg_assert_edge_indices(graph, edge_indices) do { \
-    hg_assert((xt::amin)(edge_indices)() >= 0, \
+    hg_assert(edge_indices.size() == 0 || ((xt::amin)(edge_indices)() >= 0 && (hg::index_t)(xt::amax)(edge_indices)() >= 0), \
               "Edge indices cannot be negative.");\
-    hg_assert((hg::index_t)(xt::amax)(edge_indices)() < (hg::index_t)hg::num_edges(graph), "Edge indices must be smaller than the number of edges in the graph/tree.");\
+    hg_assert(edge_indices.size() == 0 || (hg::index_t)(xt::amax)(edge_indices)() < (hg::index_t)hg::num_edges(graph), "Edge indices must be smaller than the number of edges in the graph/tree.");\
     } while (0)
 
 #define hg_assert_edge_index(graph, edge_index) do { \
-- 
2.43.0


From 456d884557deb2fe80340c8a6ff4992cfc61470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 005/102] fix: edge sources and targets of a graph were views
 invalidated by later edits of the graph

---
 higra/structure/py_undirected_graph.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/higra/structure/py_undirected_graph.cpp b/higra/structure/py_undirected_graph.cpp
index b78a9fc..8b4dbe9 100644
--- a/higra/structure/py_undirected_graph.cpp
+++ b/higra/structure/py_undirected_graph.cpp
@@ -60,8 +60,24 @@ namespace py_undirected_graph {
         add_edge_list_graph_concept<graph_t, decltype(c)>(c);
         add_edge_index_graph_concept<graph_t, decltype(c)>(c);
 
-        c.def("_sources", [](const graph_t &g) { return hg::sources(g); }, py::keep_alive<0, 1>());
-        c.def("_targets", [](const graph_t &g) { return hg::targets(g); }, py::keep_alive<0, 1>());
+        c.def("_sources", [](const graph_t &g) {
+            // a copy: a view would be invalidated by any edit of the graph
+            hg::array_1d<hg::index_t> res = hg::array_1d<hg::index_t>::from_shape({hg::num_edges(g)});
+            index_t i = 0;
+            for (const auto &e: hg::edge_iterator(g)) {
+                res(i++) = hg::source(e, g);
+            }
+            return res;
+        });
+        c.def("_targets", [](const graph_t &g) {
+            // a copy: a view would be invalidated by any edit of the graph
+            hg::array_1d<hg::index_t> res = hg::array_1d<hg::index_t>::from_shape({hg::num_edges(g)});
+            index_t i = 0;
+            for (const auto &e: hg::edge_iterator(g)) {
+                res(i++) = hg::target(e, g);
+            }
+            return res;
+        });
 
         c.def("add_edge", [](graph_t &g,
                              const vertex_t source,
-- 
2.43.0


From 3bfac19ff4b3449e3eb5034a78747d3bf94ae1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 006/102] fix: vertex_induced_subgraph turned removed edges
 into self loops of the last vertex

---
 higra/algo/graph_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/higra/algo/graph_core.py b/higra/algo/graph_core.py
index ae634dd..4a8fe64 100644
--- a/higra/algo/graph_core.py
+++ b/higra/algo/graph_core.py
@@ -388,6 +388,7 @@ def vertex_induced_subgraph(graph, vertex_indices, return_edge_map=False):
 
     sources, targets = graph.edge_list()
     valid_edges_mask = np.logical_and(keep_mask[sources], keep_mask[targets])
+    valid_edges_mask[sources < 0] = False  # removed edges are attached to the virtual vertex -1
     edge_indices = np.where(valid_edges_mask)[0]
 
     sub = hg.UndirectedGraph(num_v_sub)
-- 
2.43.0


From 807cc49dade2f6171f1fb21614dd549d024bc967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 007/102] fix: tree construction wrote out of bounds for too
 large parent indices

---
 include/higra/structure/tree_graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/structure/tree_graph.hpp b/include/higra/structure/tree_graph.hpp
index 5b7e0d1..6afa8be 100644
--- a/include/higra/structure/tree_graph.hpp
+++ b/include/higra/structure/tree_graph.hpp
@@ -271,6 +271,7 @@ namespace hg {
                     vertex_descriptor parent_v = _parents(v);
                     hg_assert(parent_v != v, "several root nodes detected");
                     hg_assert(parent_v > v, "nodes are not in a topological order");
+                    hg_assert(parent_v <= _root, "parent index is larger than the number of nodes");
                     num_children(parent_v)++;
                 }
 
-- 
2.43.0


From 1ba01cf6365fe3740ea3d2337ec9688de311de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 008/102] fix: pickling of a graph with removed edges

---
 higra/structure/undirected_graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/higra/structure/undirected_graph.py b/higra/structure/undirected_graph.py
index 5cf8fd0..edc6d03 100644
--- a/higra/structure/undirected_graph.py
+++ b/higra/structure/undirected_graph.py
@@ -9,11 +9,16 @@
 ############################################################################
 
 import higra as hg
+import numpy as np
 
 
 def __reduce_ctr(num_vertices, sources, targets):
     graph = hg.UndirectedGraph(num_vertices)
-    graph.add_edges(sources, targets)
+    # removed edges are attached to the virtual vertex -1
+    removed = sources < 0
+    graph.add_edges(np.where(removed, 0, sources), np.where(removed, 0, targets))
+    for edge_index in np.flatnonzero(removed):
+        graph.remove_edge(edge_index)
     return graph
 
 
-- 
2.43.0


From 02f3c3447517738ec9881aef1e32cd012d04af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 009/102] fix: pickling a tree lost its category

---
 higra/structure/tree_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/structure/tree_graph.py b/higra/structure/tree_graph.py
index fadae97..11cd13f 100644
--- a/higra/structure/tree_graph.py
+++ b/higra/structure/tree_graph.py
@@ -85,7 +85,7 @@ def __num_children(self, vertex=None):
 
 @hg.extend_class(hg.Tree, method_name="__reduce__")
 def ____reduce__(self):
-    return self.__class__, (self.parents(),), self.__dict__
+    return self.__class__, (self.parents(), self.category()), self.__dict__
 
 
 @hg.extend_class(hg.Tree, method_name="lowest_common_ancestor_preprocess")
-- 
2.43.0


From 368d6456ea60f5c4c4b635f67a7eefaa3d9cd77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 010/102] fix: tree construction and find_region accepted
 arrays of wrong dimension or size

---
 higra/structure/py_tree_graph.cpp      | 7 ++++++-
 include/higra/structure/tree_graph.hpp | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/higra/structure/py_tree_graph.cpp b/higra/structure/py_tree_graph.cpp
index 7e7708b..c1e8f72 100644
--- a/higra/structure/py_tree_graph.cpp
+++ b/higra/structure/py_tree_graph.cpp
@@ -75,7 +75,10 @@ namespace py_tree_graph {
         static
         void def(C &c, const char *doc) {
             c.def(py::init(
-                          [](const pyarray<type> &parent, hg::tree_category category) { return graph_t(parent, category); }),
+                          [](const pyarray<type> &parent, hg::tree_category category) {
+                              hg_assert_1d_array(parent);
+                              return graph_t(parent, category);
+                          }),
                   doc,
                   py::arg("parent_relation"),
                   py::arg("category") = hg::tree_category::partition_tree
@@ -123,6 +126,8 @@ namespace py_tree_graph {
                      type lambda,
                      const pyarray<type> &altitudes) {
                       hg_assert_vertex_index(tree, vertex);
+                      hg_assert_node_weights(tree, altitudes);
+                      hg_assert_1d_array(altitudes);
                       return hg::find_region(vertex, lambda, altitudes, tree);
                   },
                   doc,
diff --git a/include/higra/structure/tree_graph.hpp b/include/higra/structure/tree_graph.hpp
index 6afa8be..435f2e6 100644
--- a/include/higra/structure/tree_graph.hpp
+++ b/include/higra/structure/tree_graph.hpp
@@ -700,6 +700,7 @@ namespace hg {
         hg_assert_1d_array(vertices);
         hg_assert_integral_value_type(vertices);
         hg_assert_1d_array(lambdas);
+        hg_assert_same_shape(vertices, lambdas);
 
         array_1d <index_t> result = array_1d<index_t>::from_shape({vertices.size()});
 
-- 
2.43.0


From bf059f5da2827097ae0148b46d2fd1c90af828e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:22 +0000
Subject: [PATCH 011/102] fix: LCA of graph edges accepted graphs whose
 vertices are not nodes of the tree

---
 higra/structure/py_lca_fast.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/higra/structure/py_lca_fast.cpp b/higra/structure/py_lca_fast.cpp
index 957b801..cbc27f7 100644
--- a/higra/structure/py_lca_fast.cpp
+++ b/higra/structure/py_lca_fast.cpp
@@ -144,7 +144,15 @@ namespace py_lca_fast {
               py::arg("v2").noconvert());
 
         c.def("lca",
-              [](const lca_t &l, const ugraph &g) { return l.lca(edge_iterator(g)); },
+              [](const lca_t &l, const ugraph &g) {
+                  for (auto e: edge_iterator(g)) {
+                      hg_assert(source(e, g) >= 0 && target(e, g) >= 0,
+                                "The graph cannot have removed edges.");
+                      hg_assert(source(e, g) < l.num_elements() && target(e, g) < l.num_elements(),
+                                "Vertex indices must be smaller than the number of vertices in the tree.");
+                  }
+                  return l.lca(edge_iterator(g));
+              },
               "Compute the LCA of every edge of the given graph.",
               py::arg("UndirectedGraph"));
 
-- 
2.43.0


From 574e7809a7d9a9019c689a6f59d92daeb8037a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 012/102] fix: auto_cache returned the result of calls with
 other arguments (reused object ids, swapped arguments, equal hashes)

---
 higra/data_cache.py | 125 +++++++++++++++++++++++++++-----------------
 1 file changed, 77 insertions(+), 48 deletions(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index dd726ab..7567f2f 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -384,58 +384,85 @@ def clear_auto_cache(*, function=None, reference_object=None, data_cache=None):
                 del cache[function_name]
 
 
-def __hash_combine(h1, h2):
+class _IdentityKey:
     """
-    Combine two hash values to create a new hash value
-    :param h1: int
-    :param h2: int
-    :return: int
+    Identifies an object by its identity. The object is weakly referenced whenever possible: the key of a destroyed
+    object is different from any other key, even if the identifier of the object is reused.
     """
-    h1 = h1 ^ (h2 + 0x9e3779b9 + (h1 << 6) + (h2 >> 2))
-    return h1
 
+    __slots__ = ("_id", "_ref", "_obj")
 
-def __has_method(o, m):
-    """
-    Test if a given object has a given method
-    :param o: object
-    :param m: method name
-    :return: True or False
-    """
-    mm = getattr(o, m, None)
-    return callable(mm)
+    def __init__(self, o):
+        self._id = id(o)
+        try:
+            self._ref = weakref.ref(o)
+            self._obj = None
+        except TypeError:  # no weak reference to this kind of object
+            self._ref = None
+            self._obj = o
+
+    def get(self):
+        return self._obj if self._ref is None else self._ref()
 
+    def alive(self):
+        return self._ref is None or self._ref() is not None
 
-def __make_key(o):
+    def __hash__(self):
+        return hash(self._id)
+
+    def __eq__(self, other):
+        if not isinstance(other, _IdentityKey) or self._id != other._id:
+            return False
+        o = self.get()
+        return o is not None and o is other.get()
+
+
+class _CallKey:
     """
-    Computes a hash of the given object
-    :param o:
-    :return:
+    Identifies a call to a function by the value (builtin and user types with value semantic) or the identity (other
+    types) of its arguments.
     """
-    if isinstance(o, int):
-        # because for an int x hash(x) == x which is not very usefull
-        return hash(str(o))
-    elif isinstance(o, (set, tuple, list)):
-        if len(o) != 0:
-            return functools.reduce(__hash_combine, [__make_key(e) for e in o])
-        else:
-            return 0x9e3775b2
-    elif isinstance(o, dict):
-        # not ideal but we use sum to be commutative, i.e. robust to arbitrary ordering of dictionary elements
-        keys = sum([__make_key(k) for k in o.keys()])
-        values = sum([__make_key(v) for v in o.values()])
-        return __hash_combine(keys, values)
-    elif __has_method(o, "__hash__"):
-        try:
-            return hash(o)
-        except TypeError:
-            pass
 
-    return hash(str(id(o)))
+    __slots__ = ("_key", "_identities", "_reference_object")
+
+    def __init__(self, reference_object, args, kwargs):
+        self._identities = []
+        self._reference_object = reference_object
+        self._key = (self._make_key(args), self._make_key(kwargs))
+        del self._reference_object
+
+    def _make_key(self, o):
+        t = type(o)
+        if isinstance(o, (tuple, list)):
+            return t, tuple(self._make_key(e) for e in o)
+        elif isinstance(o, set):
+            return t, frozenset(self._make_key(e) for e in o)
+        elif isinstance(o, dict):
+            return t, frozenset((self._make_key(k), self._make_key(v)) for k, v in o.items())
+        elif isinstance(o, (float, complex)):
+            # repr makes a difference between 0.0 and -0.0, and nan is equal to itself
+            return t, repr(o)
 
+        # the key must not keep the reference object alive
+        if o is not self._reference_object and t.__eq__ is not object.__eq__ and callable(t.__hash__):
+            try:
+                hash(o)
+                return t, o
+            except TypeError:
+                pass
 
-def __make_hash(*args, **kwargs):
-    return __hash_combine(__make_key(args), __make_key(kwargs))
+        key = _IdentityKey(o)
+        self._identities.append(key)
+        return t, key
+
+    def alive(self):
+        return all(k.alive() for k in self._identities)
+
+    def __hash__(self):
+        return hash(self._key)
+
+    def __eq__(self, other):
+        return isinstance(other, _CallKey) and self._key == other._key
 
 
 def auto_cache(fun):
@@ -462,8 +489,8 @@ def auto_cache(fun):
 
     :Caveats:
 
-    A function call is identified by a hash of its arguments. This hash is computed in such a way that non hashable
-    objects (except from dictionaries) are indeed identified by their unique object identifier. This means that calling the same auto-cached function with
+    A function call is identified by its arguments: non hashable objects (except from lists, sets, and dictionaries) are
+    identified by their identity. This means that calling the same auto-cached function with
     the same mutated arguments can potentially lead to unexpected results.
 
     >>> @hg.auto_cache
@@ -483,9 +510,6 @@ def auto_cache(fun):
     >>> cached_sum(a, no_cache=True) # or force_recompute=True
     1
 
-    If you are really unlucky, it might also appends that two unrelated set of arguments get the same hash. In such case
-    the auto cache decorator will consider that they are the same. This is however extremely unlikely to happen.
-
     :Life Time:
 
     The data stored in the cache are associated to the first argument of the function called the *reference object*.
@@ -544,10 +568,15 @@ def auto_cache(fun):
                 warnings.warn('Auto cache: all positional parameters could not be transformed into '
                               'named parameters.')
 
-            h = __make_hash(*args, **kwargs)
+            h = _CallKey(obj, args, kwargs)
 
             if force_recompute or h not in cache:
-                cache[h] = fun(*args, **kwargs)
+                result = fun(*args, **kwargs)
+                # calls whose arguments have been destroyed can't happen again
+                for k in [k for k in cache if not k.alive()]:
+                    del cache[k]
+                cache[h] = result
+                return result
 
             return cache[h]
         except TypeError as e:
-- 
2.43.0


From 663d14fb3151b553e4dc050b9e387d0698904e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 013/102] fix: clear_attributes did not clear the attributes of
 the given object

---
 higra/data_cache.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index 7567f2f..196482a 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -93,6 +93,12 @@ class WeakKeyDictionary:
     def clear(self):
         self._data.clear()
 
+    def __contains__(self, obj):
+        return id(obj) in self._data
+
+    def __delitem__(self, obj):
+        self.__delete__(obj)
+
     def __iter__(self):
         return _WeakKeyDictionaryIterator(self)
 
@@ -223,12 +229,13 @@ def has_tag(key, tag):
 
 
 def clear_attributes(key, *attribute_name):
+    data = __get_attributes(key)
     if not attribute_name:
+        data.clear()
         hg.__higra_global_cache.clear_data(key)
     else:
-        obj_cache = hg.__higra_global_cache.get_data(key)
-        for k in obj_cache:
-            del obj_cache[k]
+        for k in attribute_name:
+            data.pop(k, None)
 
 
 def clear_all_attributes():
-- 
2.43.0


From ed3d2a0659733371e021967cc6c947166cbdc876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 014/102] fix: parent of a one-element array of nodes returned
 a scalar

---
 higra/structure/py_tree_graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/structure/py_tree_graph.cpp b/higra/structure/py_tree_graph.cpp
index c1e8f72..259e95f 100644
--- a/higra/structure/py_tree_graph.cpp
+++ b/higra/structure/py_tree_graph.cpp
@@ -384,7 +384,7 @@ namespace py_tree_graph {
                   return tree.parent(v);
               },
               "Get the parent of the given node.",
-              py::arg("node"));
+              py::arg("node").noconvert());
         add_type_overloads<def_parent<graph_t>, int, unsigned int, long long, unsigned long long>
                 (c, "Get the parent of each vertex in the given array.");
 
-- 
2.43.0


From 3bb53086722e3d73675f9f2dc025b3a6d264ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 015/102] fix: leaves to root and root to leaves iterators left
 the range of nodes of a tree with a single node

---
 include/higra/structure/details/iterators.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/higra/structure/details/iterators.hpp b/include/higra/structure/details/iterators.hpp
index f537793..937ac33 100644
--- a/include/higra/structure/details/iterators.hpp
+++ b/include/higra/structure/details/iterators.hpp
@@ -273,7 +273,8 @@ namespace hg {
         irange(value_type start, value_type stop, value_type step = 1) :
                 m_start(start),
                 m_step(step) {
-            auto num_steps = std::abs(m_start - stop) / std::abs(m_step);
+            // the range is empty if stop is before start in the direction of step
+            auto num_steps = ((stop - m_start) / m_step > 0) ? std::abs(m_start - stop) / std::abs(m_step) : 0;
             m_stop = m_start + num_steps * m_step;
         }
 
-- 
2.43.0


From 026f24970bd489c0c4a68a91b454344e565a3b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 016/102] fix: (de)linearize_vertex_weights failed when a shape
 is given without a graph

---
 higra/hg_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/higra/hg_utils.py b/higra/hg_utils.py
index ae81cf6..071d031 100644
--- a/higra/hg_utils.py
+++ b/higra/hg_utils.py
@@ -136,13 +136,13 @@ def linearize_vertex_weights(vertex_weights, graph=None, shape=None):
     else:
         shape_prefix_of_v_shape = False
 
-    if shape_prefix_of_v_shape:
-        return vertex_weights.reshape([graph.num_vertices()] + list(v_shape[len(shape):]))
-
     num_elements = 1
     for i in shape:
         num_elements *= i
 
+    if shape_prefix_of_v_shape:
+        return vertex_weights.reshape([num_elements] + list(v_shape[len(shape):]))
+
     if num_elements == vertex_weights.shape[0]:
         return vertex_weights
 
@@ -210,7 +210,7 @@ def delinearize_vertex_weights(vertex_weights, graph=None, shape=None):
 
     if v_shape[0] != num_elements:
         raise ValueError("Vertex weights shape " + str(v_shape) +
-                         " is not compatible with graph size " + str(graph.num_vertices()) + ".")
+                         " is not compatible with graph size " + str(num_elements) + ".")
 
     return vertex_weights.reshape(list(shape) + list(v_shape[1:]))
 
-- 
2.43.0


From 4344d8b513c97eb03fc4b891343a4a120c68a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 017/102] fix: grid embedding read out of bounds for points
 with a wrong number of coordinates

---
 include/higra/structure/embedding.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/higra/structure/embedding.hpp b/include/higra/structure/embedding.hpp
index 0157039..6c56f29 100644
--- a/include/higra/structure/embedding.hpp
+++ b/include/higra/structure/embedding.hpp
@@ -166,6 +166,7 @@ namespace hg {
                     typename = std::enable_if_t<!std::is_base_of<xt::xexpression<T>, T>::value>
             >
             index_t grid2lin(const T &coordinates) const {
+                hg_assert(coordinates.size() == dim, "Coordinates size does not match embedding dimension.");
                 index_t result = 0;
                 index_t count = 0;
                 for (const auto &c: coordinates)
@@ -200,7 +201,8 @@ namespace hg {
                 static_assert(std::is_integral<typename T::value_type>::value,
                               "Coordinates must have integral value type.");
                 const auto &coordinates = xcoordinates.derived_cast();
-                //hg_assert(coordinates.shape().back() == dim, "Coordinates size does not match embedding dimension.");
+                hg_assert(coordinates.dimension() > 0 && coordinates.shape()[coordinates.dimension() - 1] == dim,
+                          "Coordinates size does not match embedding dimension.");
 
                 auto last = coordinates.dimension() - 1;
                 return xt::sum(coordinates * sum_prod, {last});
@@ -212,6 +214,7 @@ namespace hg {
              * @return
              */
             index_t grid2lin(const std::initializer_list<coordinates_t> &coordinates) const {
+                hg_assert(coordinates.size() == dim, "Coordinates size does not match embedding dimension.");
                 index_t result = 0;
                 index_t count = 0;
                 for (const auto &c: coordinates)
@@ -226,6 +229,7 @@ namespace hg {
              * @return
              */
             bool contains(const std::initializer_list<coordinates_t> &coordinates) const {
+                hg_assert(coordinates.size() == dim, "Coordinates size does not match embedding dimension.");
                 index_t count = 0;
                 for (const auto &c: coordinates)
                     if (c < 0 || c >= _shape(count++))
@@ -258,7 +262,8 @@ namespace hg {
                               "Coordinates must have integral value type.");
 
                 const auto &coordinates = xcoordinates.derived_cast();
-                hg_assert(coordinates.shape().back() == dim, "Coordinates size does not match embedding dimension.");
+                hg_assert(coordinates.dimension() > 0 && coordinates.shape()[coordinates.dimension() - 1] == dim,
+                          "Coordinates size does not match embedding dimension.");
 
                 return xt::amin(coordinates >= 0 && coordinates < _shape, {coordinates.dimension() - 1});
             }
@@ -272,7 +277,7 @@ namespace hg {
                     typename = std::enable_if_t<!std::is_base_of<xt::xexpression<T>, T>::value>
             >
             bool contains(const T &coordinates) const {
-
+                hg_assert(coordinates.size() == dim, "Coordinates size does not match embedding dimension.");
                 index_t count = 0;
                 for (const auto &c: coordinates)
                     if (c < 0 || c >= _shape(count++))
-- 
2.43.0


From a3814c94286a042492acd69be41315f060cce049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 018/102] fix: khalimsky conversions lost the weight of
 reversed edges and read out of bounds for even sides

---
 include/higra/image/graph_image.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/higra/image/graph_image.hpp b/include/higra/image/graph_image.hpp
index 90fd9a2..0dcd408 100644
--- a/include/higra/image/graph_image.hpp
+++ b/include/higra/image/graph_image.hpp
@@ -117,7 +117,7 @@ namespace hg {
         for (const auto &e: edge_iterator(graph)) {
             auto s = source(e, graph);
             auto t = target(e, graph);
-            if (t > s) {
+            if (t != s) {
                 auto ti = embedding.lin2grid(t);
                 auto si = embedding.lin2grid(s);
                 if (add_extra_border)
@@ -181,6 +181,7 @@ namespace hg {
         hg_assert(khalimsky.dimension() == 2, "Only 2d khalimsky grids are supported!");
 
         auto &shape = khalimsky.shape();
+        hg_assert(shape[0] % 2 == 1 && shape[1] % 2 == 1, "The sides of a khalimsky grid must be odd.");
 
         index_t border = (extra_border) ? 0 : 1;
 
@@ -219,6 +220,7 @@ namespace hg {
         hg_assert(khalimsky.dimension() == 2, "Only 2d khalimsky grids are supported!");
 
         auto &shape = khalimsky.shape();
+        hg_assert(shape[0] % 2 == 1 && shape[1] % 2 == 1, "The sides of a khalimsky grid must be odd.");
 
         index_t border = (extra_border) ? 0 : 1;
 
-- 
2.43.0


From 3b3ea07c12273b886c2595345c0a7f598aaa793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:22 +0000
Subject: [PATCH 019/102] fix: mean accumulator kept its counter between uses
 and truncated it to the value type

---
 include/higra/accumulator/accumulator.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 3e96597..0bb2251 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -145,6 +145,10 @@ namespace hg {
 
             using self_type = acc_mean_impl<S, vectorial>;
             using value_type = typename std::iterator_traits<S>::value_type;
+            // type of the divisor: large enough for any number of values, and of the same signedness as the values
+            using counter_type = std::conditional_t<std::is_integral<value_type>::value,
+                    std::conditional_t<std::is_signed<value_type>::value, index_t, size_t>,
+                    value_type>;
             static const bool is_vectorial = vectorial;
 
             acc_mean_impl(S storage_begin, S storage_end) :
@@ -156,12 +160,14 @@ namespace hg {
             template<typename T = self_type, typename ...Args>
             typename std::enable_if_t<T::is_vectorial>
             initialize(Args &&...) {
+                m_counter = 0;
                 std::fill(m_storage_begin, m_storage_end, 0);
             }
 
             template<typename T = self_type, typename ...Args>
             typename std::enable_if_t<!T::is_vectorial>
             initialize(Args &&...) {
+                m_counter = 0;
                 *m_storage_begin = 0;
             }
 
@@ -187,7 +193,7 @@ namespace hg {
             finalize(Args &&...) const {
                 if (m_counter != 0) {
                     for (auto s = m_storage_begin; s != m_storage_end; s++) {
-                        *s /= (value_type) m_counter;
+                        *s = (value_type) (*s / (counter_type) m_counter);
                     }
                 }
             }
@@ -196,7 +202,7 @@ namespace hg {
             typename std::enable_if_t<!T::is_vectorial>
             finalize(Args &&...) const {
                 if (m_counter != 0) {
-                    *m_storage_begin /= (value_type) m_counter;
+                    *m_storage_begin = (value_type) (*m_storage_begin / (counter_type) m_counter);
                 }
             }
 
-- 
2.43.0


From cb7b01ec3bc6558e095088fff80943fd18ce216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:22 +0000
Subject: [PATCH 020/102] fix: graph accumulators were not finalized (mean
 returned the sum)

---
 include/higra/accumulator/graph_accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/accumulator/graph_accumulator.hpp b/include/higra/accumulator/graph_accumulator.hpp
index ce7e431..93a27c2 100644
--- a/include/higra/accumulator/graph_accumulator.hpp
+++ b/include/higra/accumulator/graph_accumulator.hpp
@@ -49,6 +49,7 @@ namespace hg {
                     input_view.set_position(e);
                     acc.accumulate(input_view.begin());
                 }
+                acc.finalize();
             }
 
             return output;
@@ -84,6 +85,7 @@ namespace hg {
                     input_view.set_position(v);
                     acc.accumulate(input_view.begin());
                 }
+                acc.finalize();
             }
 
             return output;
-- 
2.43.0


From 30ed1143a1e9589725a8c45ceb89b95c1190e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:45 +0000
Subject: [PATCH 021/102] fix: accumulators left results uninitialized (first,
 last, vectorial argmin/argmax) and argmin/argmax missed extreme values

---
 include/higra/accumulator/accumulator.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/higra/accumulator/accumulator.hpp b/include/higra/accumulator/accumulator.hpp
index 0bb2251..e43af1a 100644
--- a/include/higra/accumulator/accumulator.hpp
+++ b/include/higra/accumulator/accumulator.hpp
@@ -11,6 +11,7 @@
 #pragma once
 
 #include "../utils.hpp"
+#include <algorithm>
 #include <functional>
 #include <limits>
 #include <vector>
@@ -290,7 +291,7 @@ namespace hg {
 
             template<typename ...Args>
             void initialize(Args &&...) {
-                *m_storage_begin = -1;
+                std::fill(m_storage_begin, m_storage_end, (storage_value_type)-1);
                 cur_index = 0;
                 std::fill(m_temp.begin(), m_temp.end(), (std::numeric_limits<storage_value_type>::max)());
             }
@@ -302,7 +303,7 @@ namespace hg {
                 auto t = m_temp.begin();
                 auto v = value_begin;
                 bool flag = true;
-                for (; flag && t != m_temp.end(); t++, v++) {
+                for (; flag && cur_index > 0 && t != m_temp.end(); t++, v++) {
                     if (*t < *v)
                         flag = false;
                 }
@@ -312,7 +313,7 @@ namespace hg {
                     for (; flag && t != m_temp.end(); t++, v++) {
                         *t = *v;
                     }
-                    *m_storage_begin = (storage_value_type)cur_index;
+                    std::fill(m_storage_begin, m_storage_end, (storage_value_type)cur_index);
                 }
 
                 cur_index++;
@@ -322,7 +323,7 @@ namespace hg {
             std::enable_if_t<!T1::is_vectorial>
             accumulate(T value_begin, Args &&...) {
 
-                if (*value_begin < *m_temp.begin()) {
+                if (cur_index == 0 || *value_begin < *m_temp.begin()) {
                     *m_temp.begin() = *value_begin;
                     *m_storage_begin = (storage_value_type)cur_index;
                 }
@@ -374,7 +375,7 @@ namespace hg {
 
             template<typename ...Args>
             void initialize(Args &&...) {
-                *m_storage_begin = -1;
+                std::fill(m_storage_begin, m_storage_end, (storage_value_type)-1);
                 cur_index = 0;
                 std::fill(m_temp.begin(), m_temp.end(), std::numeric_limits<storage_value_type>::lowest());
             }
@@ -386,7 +387,7 @@ namespace hg {
                 auto t = m_temp.begin();
                 auto v = value_begin;
                 bool flag = true;
-                for (; flag && t != m_temp.end(); t++, v++) {
+                for (; flag && cur_index > 0 && t != m_temp.end(); t++, v++) {
                     if (*t > *v)
                         flag = false;
                 }
@@ -396,7 +397,7 @@ namespace hg {
                     for (; flag && t != m_temp.end(); t++, v++) {
                         *t = *v;
                     }
-                    *m_storage_begin = (storage_value_type)cur_index;
+                    std::fill(m_storage_begin, m_storage_end, (storage_value_type)cur_index);
                 }
 
                 cur_index++;
@@ -406,7 +407,7 @@ namespace hg {
             std::enable_if_t<!T1::is_vectorial>
             accumulate(T value_begin, Args &&...) {
 
-                if (*value_begin > *m_temp.begin()) {
+                if (cur_index == 0 || *value_begin > *m_temp.begin()) {
                     *m_temp.begin() = *value_begin;
                     *m_storage_begin = (storage_value_type)cur_index;
                 }
@@ -456,6 +457,7 @@ namespace hg {
             template<typename ...Args>
             void initialize(Args &&...) {
                 m_first = true;
+                std::fill(m_storage_begin, m_storage_end, value_type(0));
             }
 
             template<typename T, typename ...Args>
@@ -508,7 +510,7 @@ namespace hg {
 
             template<typename ...Args>
             void initialize(Args &&...) {
-
+                std::fill(m_storage_begin, m_storage_end, value_type(0));
             }
 
             template<typename T1 = self_type, typename T, typename ...Args>
-- 
2.43.0


From 6185ed9cd00d27b3126f7fd442ba773c69ee90a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:26 +0000
Subject: [PATCH 022/102] fix: accumulators crashed or read out of bounds on
 empty data, indices smaller than -1, trees with a single node and mismatched
 arguments

---
 higra/accumulator/common.hpp                  |  2 +-
 higra/accumulator/py_at_accumulator.cpp       |  1 +
 include/higra/accumulator/at_accumulator.hpp  |  6 ++++--
 .../higra/accumulator/tree_accumulator.hpp    | 19 +++++++++++++------
 .../accumulator/tree_contour_accumulator.hpp  |  2 ++
 .../structure/details/light_axis_view.hpp     |  2 +-
 6 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/higra/accumulator/common.hpp b/higra/accumulator/common.hpp
index 336752a..5d2a0bc 100644
--- a/higra/accumulator/common.hpp
+++ b/higra/accumulator/common.hpp
@@ -37,5 +37,5 @@ auto dispatch_accumulator(const functor_t & fun, const hg::accumulators & accumu
         case hg::accumulators::argmax:
             return fun(hg::accumulator_argmax());
     }
-    hg::unreachable();
+    throw std::runtime_error("Unknown accumulator.");
 }
diff --git a/higra/accumulator/py_at_accumulator.cpp b/higra/accumulator/py_at_accumulator.cpp
index 0dc3b22..c9ece16 100644
--- a/higra/accumulator/py_at_accumulator.cpp
+++ b/higra/accumulator/py_at_accumulator.cpp
@@ -31,6 +31,7 @@ namespace py_at_accumulator {
                   [](const pyarray<hg::index_t> &rag_map,
                      const pyarray<value_t> &weights,
                      hg::accumulators accumulator) {
+                      hg_assert_1d_array(rag_map);
                       return dispatch_accumulator(
                               [&rag_map, &weights](const auto &acc) {
                                   return hg::accumulate_at(rag_map, weights, acc);
diff --git a/include/higra/accumulator/at_accumulator.hpp b/include/higra/accumulator/at_accumulator.hpp
index c972a23..60e6d3f 100644
--- a/include/higra/accumulator/at_accumulator.hpp
+++ b/include/higra/accumulator/at_accumulator.hpp
@@ -27,9 +27,11 @@ namespace hg {
                       const accumulator_t &accumulator) {
             HG_TRACE();
             auto &weights = xweights.derived_cast();
-            hg_assert(weights.shape()[0] == indices.size(), "Weights dimension does not match rag map dimension.");
+            hg_assert(weights.dimension() > 0 && weights.shape()[0] == indices.size(),
+                      "Weights dimension does not match rag map dimension.");
+            hg_assert(indices.size() == 0 || xt::amin(indices)() >= invalid_index, "Indices cannot be smaller than -1.");
 
-            index_t size = xt::amax(indices)() + 1;
+            index_t size = (indices.size() == 0) ? 0 : xt::amax(indices)() + 1;
             auto data_shape = std::vector<size_t>(weights.shape().begin() + 1, weights.shape().end());
             auto output_shape = accumulator_t::get_output_shape(data_shape);
             output_shape.insert(output_shape.begin(), size);
diff --git a/include/higra/accumulator/tree_accumulator.hpp b/include/higra/accumulator/tree_accumulator.hpp
index c0fb2d0..b7a5351 100644
--- a/include/higra/accumulator/tree_accumulator.hpp
+++ b/include/higra/accumulator/tree_accumulator.hpp
@@ -82,7 +82,9 @@ namespace hg {
                     input_view.set_position(i);
                     accs[p - numl].accumulate(input_view.begin());
                 }
-                accs.back().finalize();
+                if (!accs.empty()) {
+                    accs.back().finalize();
+                }
             }
 
             return output;
@@ -149,7 +151,9 @@ namespace hg {
                     input_view.set_position(i);
                     accs[p - numl].accumulate(input_view.begin());
                 }
-                accs.back().finalize();
+                if (!accs.empty()) {
+                    accs.back().finalize();
+                }
             }
 
             return output;
@@ -239,10 +243,12 @@ namespace hg {
                     accs[p - numl].accumulate(inout_view.begin());
                 }
 
-                accs.back().finalize();
-                input_view.set_position(root(tree));
-                output_view.set_position(root(tree));
-                output_view.combine(input_view, combine);
+                if (!accs.empty()) {
+                    accs.back().finalize();
+                    input_view.set_position(root(tree));
+                    output_view.set_position(root(tree));
+                    output_view.combine(input_view, combine);
+                }
             }
 
             return output;
@@ -286,6 +292,7 @@ namespace hg {
             auto &condition = xcondition.derived_cast();
             hg_assert_node_weights(tree, input);
             hg_assert_node_weights(tree, condition);
+            hg_assert_1d_array(condition);
 
             array_nd <output_t> output = array_nd<output_t>::from_shape(input.shape());
 
diff --git a/include/higra/accumulator/tree_contour_accumulator.hpp b/include/higra/accumulator/tree_contour_accumulator.hpp
index c5d268d..4ba879e 100644
--- a/include/higra/accumulator/tree_contour_accumulator.hpp
+++ b/include/higra/accumulator/tree_contour_accumulator.hpp
@@ -31,6 +31,8 @@ namespace hg {
                                          const xt::xexpression<T2> &xdetph,
                                          const accumulator_t accumulator) {
             HG_TRACE();
+            hg_assert(num_vertices(graph) == num_leaves(tree),
+                      "The number of leaves of the tree does not match the number of vertices of the graph.");
             auto &input = xinput.derived_cast();
             hg_assert_node_weights(tree, input);
             auto &depth = xdetph.derived_cast();
diff --git a/include/higra/structure/details/light_axis_view.hpp b/include/higra/structure/details/light_axis_view.hpp
index c296d75..cd05020 100644
--- a/include/higra/structure/details/light_axis_view.hpp
+++ b/include/higra/structure/details/light_axis_view.hpp
@@ -39,7 +39,7 @@ namespace hg {
             template<typename T1 = self_type>
             light_axis_view(T &data, index_t position = 0, typename std::enable_if_t<T1::is_vectorial> * = 0) :
                     m_data(data),
-                    m_stride(data.size() / data.shape()[0]),
+                    m_stride((data.shape()[0] == 0) ? 0 : data.size() / data.shape()[0]),
                     m_position(position) {
 
             }
-- 
2.43.0


From 8412266b0851bcb23dd80a563c9b891e6acac36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:53 +0000
Subject: [PATCH 023/102] fix: functions taking row-major arrays rejected
 strided, reversed and Fortran ordered arrays

---
 lib/include/xtensor-python/pyarray.hpp     |  2 +-
 lib/include/xtensor-python/pycontainer.hpp | 14 ++++++++++++--
 lib/include/xtensor-python/pytensor.hpp    |  2 +-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/include/xtensor-python/pyarray.hpp b/lib/include/xtensor-python/pyarray.hpp
index 0854fb3..caae036 100644
--- a/lib/include/xtensor-python/pyarray.hpp
+++ b/lib/include/xtensor-python/pyarray.hpp
@@ -523,7 +523,7 @@ namespace xt
                                        static_cast<size_type>(PyArray_NDIM(this->python_array())),
                                        reinterpret_cast<size_type*>(PyArray_SHAPE(this->python_array())));
 
-        if (L != layout_type::dynamic && !do_strides_match(m_shape, m_strides, L, 1))
+        if (L != layout_type::dynamic && PyArray_SIZE(this->python_array()) != 0 && !do_strides_match(m_shape, m_strides, L, 1))
         {
             throw std::runtime_error("NumPy: passing container with bad strides for layout (is it a view?).");
         }
diff --git a/lib/include/xtensor-python/pycontainer.hpp b/lib/include/xtensor-python/pycontainer.hpp
index 5e80a32..922a20f 100644
--- a/lib/include/xtensor-python/pycontainer.hpp
+++ b/lib/include/xtensor-python/pycontainer.hpp
@@ -304,9 +304,19 @@ namespace xt
             return nullptr;
         }
 
+        // arrays whose strides do not match the static layout of the container are copied
+        int requirements = NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST;
+        if (base_type::static_layout == layout_type::row_major)
+        {
+            requirements |= NPY_ARRAY_C_CONTIGUOUS;
+        }
+        else if (base_type::static_layout == layout_type::column_major)
+        {
+            requirements |= NPY_ARRAY_F_CONTIGUOUS;
+        }
+
         auto dtype = pybind11::detail::npy_format_descriptor<value_type>::dtype();
-        auto res = PyArray_FromAny(ptr, (PyArray_Descr *) dtype.release().ptr(), 0, 0,
-                                   NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST, nullptr);
+        auto res = PyArray_FromAny(ptr, (PyArray_Descr *) dtype.release().ptr(), 0, 0, requirements, nullptr);
         return res;
     }
 
diff --git a/lib/include/xtensor-python/pytensor.hpp b/lib/include/xtensor-python/pytensor.hpp
index 3eac157..3acfbb4 100644
--- a/lib/include/xtensor-python/pytensor.hpp
+++ b/lib/include/xtensor-python/pytensor.hpp
@@ -495,7 +495,7 @@ namespace xt
                        [](auto v) { return v / sizeof(T); });
         adapt_strides(m_shape, m_strides, m_backstrides);
 
-        if (L != layout_type::dynamic && !do_strides_match(m_shape, m_strides, L, 1))
+        if (L != layout_type::dynamic && PyArray_SIZE(this->python_array()) != 0 && !do_strides_match(m_shape, m_strides, L, 1))
         {
             throw std::runtime_error("NumPy: passing container with bad strides for layout (is it a view?).");
         }
-- 
2.43.0


From 81bae0d6fe35f8ec92279567d55389be912f3324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:43 +0000
Subject: [PATCH 024/102] fix: values of types without a specific overload were
 silently truncated to 8 bit integers

---
 higra/hierarchy/py_hierarchy_core.cpp |  2 +-
 include/higra/utils.hpp               | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/higra/hierarchy/py_hierarchy_core.cpp b/higra/hierarchy/py_hierarchy_core.cpp
index c8b5fe2..e12541b 100644
--- a/higra/hierarchy/py_hierarchy_core.cpp
+++ b/higra/hierarchy/py_hierarchy_core.cpp
@@ -85,7 +85,7 @@ namespace py_hierarchy_core {
               py::arg("deleted_nodes"),
               py::arg("process_leaves"));
 
-        add_type_overloads<def_quasi_flat_zone_hierarchy<hg::ugraph>, HG_TEMPLATE_SNUMERIC_TYPES>
+        add_type_overloads<def_quasi_flat_zone_hierarchy<hg::ugraph>, HG_TEMPLATE_NUMERIC_TYPES>
                 (m,
                  "Compute the quasi flat zones hierarchy of the given weighted graph."
                 );
diff --git a/include/higra/utils.hpp b/include/higra/utils.hpp
index 665d31d..9f87090 100644
--- a/include/higra/utils.hpp
+++ b/include/higra/utils.hpp
@@ -152,15 +152,18 @@ namespace hg {
 #define HG_STR(a) #a
 
 
-#define HG_TEMPLATE_SINTEGRAL_TYPES   int8_t, int16_t, int32_t, int64_t
+// the first type of each list is the one used for the values whose type does not belong to the list: it must be able
+// to represent them
 
-#define HG_TEMPLATE_INTEGRAL_TYPES    int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t
+#define HG_TEMPLATE_SINTEGRAL_TYPES   int64_t, int8_t, int16_t, int32_t
 
-#define HG_TEMPLATE_FLOAT_TYPES       float, double
+#define HG_TEMPLATE_INTEGRAL_TYPES    int64_t, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, uint64_t
 
-#define HG_TEMPLATE_NUMERIC_TYPES     int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double
+#define HG_TEMPLATE_FLOAT_TYPES       double, float
 
-#define HG_TEMPLATE_SNUMERIC_TYPES    int8_t, int16_t, int32_t, int64_t, float, double
+#define HG_TEMPLATE_NUMERIC_TYPES     double, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float
+
+#define HG_TEMPLATE_SNUMERIC_TYPES    double, int8_t, int16_t, int32_t, int64_t, float
 
 
 namespace xt {
-- 
2.43.0


From eb823a7df60598848f4a296c13e3631bd92ee141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 025/102] fix: hierarchy filters modified the given altitudes
 and took non boolean functor results as indices

---
 higra/algo/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/higra/algo/tree.py b/higra/algo/tree.py
index 78dbb16..b99f004 100644
--- a/higra/algo/tree.py
+++ b/higra/algo/tree.py
@@ -212,9 +212,9 @@ def filter_non_relevant_node_from_tree(tree, altitudes, non_relevant_functor, le
         tree, altitudes = hg.bpt_canonical(leaf_graph, saliency)
 
     mst = hg.CptBinaryHierarchy.get_mst(tree)
-    deleted_frontier_nodes = non_relevant_functor(tree, altitudes)
+    deleted_frontier_nodes = np.asarray(non_relevant_functor(tree, altitudes)).astype(np.bool_)
 
-    mst_edge_weights = altitudes[tree.num_leaves():]
+    mst_edge_weights = altitudes[tree.num_leaves():].copy()
     mst_edge_weights[deleted_frontier_nodes[tree.num_leaves():]] = 0
     tree, altitudes = hg.bpt_canonical(mst, mst_edge_weights)
 
-- 
2.43.0


From 12bede32667be50030b96504a6933c0b59c56ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 026/102] fix: simplifying a tree with a single node produced
 an invalid tree or wrote out of bounds

---
 include/higra/hierarchy/hierarchy_core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/higra/hierarchy/hierarchy_core.hpp b/include/higra/hierarchy/hierarchy_core.hpp
index 35f44e8..1929469 100644
--- a/include/higra/hierarchy/hierarchy_core.hpp
+++ b/include/higra/hierarchy/hierarchy_core.hpp
@@ -168,6 +168,10 @@ namespace hg {
     auto simplify_tree(const tree &t, const criterion_t &criterion, bool process_leaves = false) {
         HG_TRACE();
 
+        // the root, which is also a leaf here, is never removed
+        if (num_vertices(t) == 1) {
+            return make_remapped_tree(tree(parents(t), t.category()), array_1d<index_t>({0}));
+        }
 
         // this case is significantly harder because a reordering of the nodes
         // may append if an internal node becomes a leaf
-- 
2.43.0


From 28d9b2ec795d50bd9b2730a07c397b0996e975c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 027/102] fix: tree of shapes of 2d and 3d images ignored the
 exterior vertex

---
 higra/image/tree_of_shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/higra/image/tree_of_shapes.py b/higra/image/tree_of_shapes.py
index e6ab2cb..f30457b 100644
--- a/higra/image/tree_of_shapes.py
+++ b/higra/image/tree_of_shapes.py
@@ -27,7 +27,7 @@ def component_tree_tree_of_shapes_image2d(image, padding='mean', original_size=T
     """
 
     assert len(image.shape) == 2, "This tree of shapes implementation only supports 2d images."
-    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion)
+    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion, exterior_vertex)
 
 
 
@@ -131,7 +131,7 @@ def component_tree_tree_of_shapes_image3d(image, padding='mean', original_size=T
 
     assert len(image.shape) == 3, "This tree of shapes implementation only supports 3d images."
 
-    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion)
+    return component_tree_tree_of_shapes_image(image, padding, original_size, immersion, exterior_vertex)
 
 def component_tree_tree_of_shapes_image(image, padding='mean', original_size=True, immersion=True, exterior_vertex=0):
     """
-- 
2.43.0


From 175235ac4e8789d8adfdf0b36564713833eb86c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 028/102] fix: multivariate tree of shapes with padding and
 without immersion removed the pixels of the image

---
 higra/image/tree_of_shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/image/tree_of_shapes.py b/higra/image/tree_of_shapes.py
index f30457b..907a95c 100644
--- a/higra/image/tree_of_shapes.py
+++ b/higra/image/tree_of_shapes.py
@@ -96,7 +96,7 @@ def component_tree_multivariate_tree_of_shapes_image2d(image, padding='mean', or
                 deleted[0::2, 0::2] = False
         else:
             if padding != "none":
-                deleted[1:-1, 1::-1] = False
+                deleted[1:-1, 1:-1] = False
 
         all_deleted = hg.accumulate_sequential(tree, deleted_vertices, hg.Accumulators.min)
         shape = (image.shape[0], image.shape[1])
-- 
2.43.0


From e2ccfcf6a2e5938e2c739816fbd076eae5585d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 029/102] fix: tree of shapes mean padding value overflowed the
 pixel type and was wrong for negative values and thin 3d images

---
 include/higra/image/tree_of_shapes.hpp | 89 +++++---------------------
 1 file changed, 17 insertions(+), 72 deletions(-)

diff --git a/include/higra/image/tree_of_shapes.hpp b/include/higra/image/tree_of_shapes.hpp
index 3d4074d..a280254 100644
--- a/include/higra/image/tree_of_shapes.hpp
+++ b/include/higra/image/tree_of_shapes.hpp
@@ -387,82 +387,27 @@ namespace hg {
                     break;
                 case tos_padding::mean:
                     // compute mean of image boundaries
-                    if (dim == 2){
-                        size_t h = image.shape(0);
-                        size_t w = image.shape(1);
-                        size_t num_elements = w;
-                        for(size_t x = 0; x < w; x++){
-                            pad_value += image(0, x);
-                        }
-                        if(h > 1){
-                            for(size_t x = 0; x < w; x++){
-                                pad_value += image(h - 1, x);
-                            }
-                            num_elements += w;
-                        }
-                        if(h > 2){
-                            for(size_t y = 1; y < h - 1; y++){
-                                pad_value += image(y, 0);
-                            }
-                            num_elements += (h - 2);
-                            if (w > 1){
-                                for(size_t y = 1; y < h - 1; y++){
-                                    pad_value += image(y, w - 1);
-                                }
-                                num_elements += (h - 2);
-                            }
-                        }
-                        pad_value /= num_elements;
-                    }else if(dim == 3){
-                        size_t d = image.shape(0);
-                        size_t h = image.shape(1);
-                        size_t w = image.shape(2);
-                        size_t num_elements = w * h;
-                        for(size_t y = 0; y < h; y++){
-                            for(size_t x = 0; x < w; x++){
-                                pad_value += image(0, y, x);
-                            }
-                        }
-                        if(d > 1){
-                            for(size_t y = 0; y < h; y++){
-                                for(size_t x = 0; x < w; x++){
-                                    pad_value += image(d - 1, y, x);
-                                }
-                            }
-                            num_elements += w * h;
-                        }
-                        if(d > 2){
-                            for(size_t z = 1; z < d - 1; z++){
-                                for(size_t y = 0; y < h; y++){
-                                    pad_value += image(z, y, 0);
-                                }
-                            }
-                            num_elements += (d - 2) * h;
-                            if (w > 1){
-                                for(size_t z = 1; z < d - 1; z++){
-                                    for(size_t y = 0; y < h; y++){
-                                        pad_value += image(z, y, w - 1);
-                                    }
-                                }
-                                num_elements += (d - 2) * h;
-                            }
-                            for(size_t z = 1; z < d - 1; z++){
-                                for(size_t x = 1; x < w - 1; x++){
-                                    pad_value += image(z, 0, x);
-                                }
-                            }
-                            num_elements += (d - 2) * (w - 2);
-                            if (h > 1){
-                                for(size_t z = 1; z < d - 1; z++){
-                                    for(size_t x = 1; x < w - 1; x++){
-                                        pad_value += image(z, h - 1, x);
+                    if (dim == 2 || dim == 3) {
+                        index_t d = (dim == 3) ? image.shape(0) : 1;
+                        index_t h = image.shape(dim - 2);
+                        index_t w = image.shape(dim - 1);
+                        auto image3d = xt::reshape_view(image, {d, h, w});
+                        double sum = 0;
+                        index_t num_elements = 0;
+                        for (index_t z = 0; z < d; z++) {
+                            bool border_z = dim == 3 && (z == 0 || z == d - 1);
+                            for (index_t y = 0; y < h; y++) {
+                                bool border_y = y == 0 || y == h - 1;
+                                for (index_t x = 0; x < w; x++) {
+                                    if (border_z || border_y || x == 0 || x == w - 1) {
+                                        sum += static_cast<double>(image3d(z, y, x));
+                                        num_elements++;
                                     }
                                 }
-                                num_elements += (d - 2) * (w - 2);
                             }
                         }
-                        pad_value /= num_elements;
-                    }else{
+                        pad_value = static_cast<value_type>(sum / num_elements);
+                    } else {
                         throw std::runtime_error("Unsupported dimension");
                     }
 
-- 
2.43.0


From a07b35b915e406e298c78b66339a89794d715fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 030/102] fix: tree of shapes of images of other types than the
 bound ones were truncated to 8 bits

---
 higra/image/py_tree_of_shapes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/image/py_tree_of_shapes.cpp b/higra/image/py_tree_of_shapes.cpp
index fb506d3..5b27ee6 100644
--- a/higra/image/py_tree_of_shapes.cpp
+++ b/higra/image/py_tree_of_shapes.cpp
@@ -60,7 +60,7 @@ struct def_tree_of_shapes {
     void py_init_tree_of_shapes_image(pybind11::module &m) {
         //xt::import_numpy();
 
-    add_type_overloads<def_tree_of_shapes, uint8_t, uint16_t, int32_t, int64_t, float, double>
+    add_type_overloads<def_tree_of_shapes, HG_TEMPLATE_NUMERIC_TYPES>
             (m, "");
 
 
-- 
2.43.0


From 5e6c2e8aae6a820e125a86623d46cddb72cfa996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:41 +0000
Subject: [PATCH 031/102] fix: tree of shapes read out of bounds for empty
 images and invalid exterior vertices

---
 include/higra/image/tree_of_shapes.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/higra/image/tree_of_shapes.hpp b/include/higra/image/tree_of_shapes.hpp
index a280254..b596de5 100644
--- a/include/higra/image/tree_of_shapes.hpp
+++ b/include/higra/image/tree_of_shapes.hpp
@@ -288,8 +288,8 @@ namespace hg {
             array_1d<value_type> enqueued_level = array_1d<value_type>::from_shape({num_v});
             integer_level_multi_queue<value_type, index_t> queue(xt::amin(plain_map)(), xt::amax(plain_map)());
 
-            value_type current_level = (value_type) ((plain_map(exterior_vertex, 0) + plain_map(exterior_vertex, 1)) /
-                                                     2.0);
+            value_type current_level = (value_type) (plain_map(exterior_vertex, 0) / 2.0 +
+                                                     plain_map(exterior_vertex, 1) / 2.0);
             queue.push(current_level, exterior_vertex);
             dejavu(exterior_vertex) = true;
 
@@ -345,8 +345,8 @@ namespace hg {
                 }
             };
 
-            value_type current_level = (value_type) ((plain_map(exterior_vertex, 0) + plain_map(exterior_vertex, 1)) /
-                                                     2.0);
+            value_type current_level = (value_type) (plain_map(exterior_vertex, 0) / 2.0 +
+                                                     plain_map(exterior_vertex, 1) / 2.0);
 
             auto position = queue.insert({current_level, exterior_vertex});
             dejavu(exterior_vertex) = true;
@@ -580,6 +580,7 @@ namespace hg {
         auto &image = ximage.derived_cast();
         const int dim = image.dimension();
         hg_assert(dim == 2 || dim == 3, "image must be a 2d or 3d array");
+        hg_assert(image.size() > 0, "image must not be empty");
 
         using value_type = typename T::value_type;
 
@@ -645,6 +646,8 @@ namespace hg {
         // ----------------
         auto graph = get_6_adjacency_implicit_graph({(index_t) d_plain_map, (index_t) h_plain_map, (index_t) w_plain_map});
 
+        hg_assert(0 <= exterior_vertex && exterior_vertex < (index_t) num_vertices(graph),
+                  "exterior_vertex must be a vertex of the padded/interpolated space");
         auto res_sort = tree_of_shapes_internal::sort_vertices_tree_of_shapes(
                 graph,
                 xt::reshape_view(plain_map, {d_plain_map * h_plain_map * w_plain_map, (size_t)2}),
-- 
2.43.0


From 93e6f4e01d745a643c88228c498df2e555bceb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:53 +0000
Subject: [PATCH 032/102] fix: tree fusion accepted trees with different
 numbers of leaves

---
 include/higra/algo/tree_fusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/tree_fusion.hpp b/include/higra/algo/tree_fusion.hpp
index c80177f..ce41f9c 100644
--- a/include/higra/algo/tree_fusion.hpp
+++ b/include/higra/algo/tree_fusion.hpp
@@ -31,7 +31,7 @@ namespace hg {
             hg_assert(ntrees > 1, "Fusion requires at least two trees");
             auto nleaves = num_leaves(**first);
             for (tree_iterator t = first; t != last; t++) {
-                hg_assert(num_leaves(**t), "All trees must have the same number of leaves.");
+                hg_assert(num_leaves(**t) == nleaves, "All trees must have the same number of leaves.");
             }
 
             // cheap digraph!
-- 
2.43.0


From 166a2d1657373e0bf9dd6ec425d524b8e4327990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:30 +0000
Subject: [PATCH 033/102] fix: tree fusion used uninitialized node indices and
 counted shapes equal to their parent twice

---
 include/higra/algo/tree_fusion.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/higra/algo/tree_fusion.hpp b/include/higra/algo/tree_fusion.hpp
index ce41f9c..c934288 100644
--- a/include/higra/algo/tree_fusion.hpp
+++ b/include/higra/algo/tree_fusion.hpp
@@ -56,16 +56,23 @@ namespace hg {
             // associate each node of each tree to a node of the GOS
             vector<array_1d<index_t>> node_maps;
 
-            // add leaves
-            adj_lists.resize(nleaves);
+            // add leaves and root
+            auto rootn = nleaves;
+            adj_lists.resize(nleaves + 1);
 
             // add internal nodes (except root) and avoid duplication
             for (ti = first, i = 0; ti != last; ti++, i++) {
                 node_maps.emplace_back(array_1d<index_t>::from_shape({num_vertices(**ti)}));
                 // create leaves association
                 xt::noalias(xt::view(node_maps[i], xt::range(0, nleaves))) = xt::arange<index_t>(nleaves);
+                node_maps[i](root(**ti)) = rootn;
 
-                for (index_t n: leaves_to_root_iterator(**ti, leaves_it::exclude, root_it::exclude)) {
+                for (index_t n: root_to_leaves_iterator(**ti, leaves_it::exclude, root_it::exclude)) {
+                    auto p = parent(n, **ti);
+                    if (areas[i](p) == areas[i](n)) {
+                        node_maps[i](n) = node_maps[i](p);
+                        continue;
+                    }
                     bool keep = true;
                     for (index_t j = 0; j < i && keep; j++) {
                         auto ses_ij_n = ses(i, j)(n);
@@ -81,13 +88,6 @@ namespace hg {
                 }
             }
 
-            // add root
-            auto rootn = adj_lists.size();
-            adj_lists.emplace_back();
-            for (ti = first, i = 0; ti != last; ti++, i++) {
-                node_maps[i](root(**ti)) = rootn;
-            }
-
 
             /* ***************
              * Add edges to the graph of shapes (GOS)
@@ -95,7 +95,10 @@ namespace hg {
             for (ti = first, i = 0; ti != last; ti++, i++) {
                 for (index_t n: leaves_to_root_iterator(**ti, leaves_it::include, root_it::exclude)) {
                     auto represent_n = node_maps[i](n);
-                    adj_lists[node_maps[i](parent(n, **ti))].push_back(represent_n);
+                    auto represent_p = node_maps[i](parent(n, **ti));
+                    if (represent_p != represent_n || is_leaf(n, **ti)) {
+                        adj_lists[represent_p].push_back(represent_n);
+                    }
                     for (j = 0; j < (index_t) ntrees; j++) {
                         if (i != j) {
                             auto ses_ij_n = ses(i, j)(n);
-- 
2.43.0


From 008e7f118fca679e118f55227161e353adce7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:43 +0000
Subject: [PATCH 034/102] fix: supervertices hierarchy did not terminate when
 the altitude of the root is 0

---
 include/higra/algo/tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index 5f26db4..0883980 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -180,7 +180,7 @@ namespace hg {
                 if (new_order(e) != invalid_index) {
                     lbl = new_order(e);
                 }
-            } while (altitudes(e) == 0 && lbl == invalid_index);
+            } while (altitudes(e) == 0 && lbl == invalid_index && e != stack.top());
 
             removed += stack.size();
 
-- 
2.43.0


From 76e2a6906ddc685ebca0bf2dcf64f9a997c52138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:43 +0000
Subject: [PATCH 035/102] fix: hierarchy alignment wrote out of bounds for
 labels out of range

---
 include/higra/algo/alignment.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/higra/algo/alignment.hpp b/include/higra/algo/alignment.hpp
index 75afd27..168834b 100644
--- a/include/higra/algo/alignment.hpp
+++ b/include/higra/algo/alignment.hpp
@@ -64,7 +64,11 @@ namespace hg {
         array_2d<size_t> intersections = xt::zeros<size_t>({num_regions_fine, num_regions_coarse});
 
         for (index_t i = 0; i < (index_t)labelisation_fine.size(); i++) {
-            intersections(labelisation_fine(i), labelisation_coarse(i))++;
+            auto fine_label = (index_t) labelisation_fine(i);
+            auto coarse_label = (index_t) labelisation_coarse(i);
+            hg_assert(fine_label >= 0 && fine_label < (index_t) num_regions_fine, "Fine label out of range.");
+            hg_assert(coarse_label >= 0 && coarse_label < (index_t) num_regions_coarse, "Coarse label out of range.");
+            intersections(fine_label, coarse_label)++;
         }
 
         // cast size_t -> index_t
@@ -107,6 +111,10 @@ namespace hg {
             auto &rag = rag_fine.rag;
 
             auto fine_to_coarse_map = project_fine_to_coarse_labelisation(fine_supervertices, coarse_supervertices);
+            for (auto label: fine_to_coarse_map) {
+                hg_assert(label < (index_t) num_leaves(tree_coarse),
+                          "The coarse labelisation does not match the leaves of the tree.");
+            }
             array_1d<typename T2::value_type> coarse_sm_on_fine_rag = xt::empty<typename T2::value_type>(
                     {num_edges(rag_fine.rag)});
 
-- 
2.43.0


From 451b9a2422e37a9bdf6597d4ecc9bd0f5f9b2dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:43 +0000
Subject: [PATCH 036/102] fix: tree fusion rejected trees given as several
 arguments and crashed on None

---
 higra/algo/py_tree_fusion.cpp | 3 +++
 higra/algo/tree_fusion.py     | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/higra/algo/py_tree_fusion.cpp b/higra/algo/py_tree_fusion.cpp
index b509ef6..90ab2e7 100644
--- a/higra/algo/py_tree_fusion.cpp
+++ b/higra/algo/py_tree_fusion.cpp
@@ -26,6 +26,9 @@ namespace py_tree_fusion {
         //xt::import_numpy();
 
         m.def("_tree_fusion_depth_map", [](const std::vector<tree *> &trees) {
+            for (auto t: trees) {
+                hg_assert(t != nullptr, "Trees cannot be None.");
+            }
             return tree_fusion_depth_map(trees);
         });
 
diff --git a/higra/algo/tree_fusion.py b/higra/algo/tree_fusion.py
index 986535e..4bb2dee 100644
--- a/higra/algo/tree_fusion.py
+++ b/higra/algo/tree_fusion.py
@@ -43,8 +43,11 @@ def tree_fusion_depth_map(*trees):
     and :math:`D` the number of trees. If we denote by :math:`K` the depth of the deepest tree to merge, one can rewrite
     the runtime complexity as :math:`\mathcal{O}(NKD^2)`.
 
-    :param trees: at least two trees defined over the same domain
+    :param trees: at least two trees defined over the same domain (given as several arguments or as a single sequence)
     :return: a depth map representing the fusion of the input trees
     """
 
-    return hg.cpp._tree_fusion_depth_map(*trees)
+    if len(trees) == 1 and type(trees[0]) is not hg.Tree:
+        trees = trees[0]
+
+    return hg.cpp._tree_fusion_depth_map(trees)
-- 
2.43.0


From f83e3224d10e77c0c9792b8ca61eba97433e261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:14 +0000
Subject: [PATCH 037/102] fix: binary partition trees crashed on empty graphs
 and mismatched arrays and failed on graphs with self-loops

---
 .../higra/hierarchy/binary_partition_tree.hpp    | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/higra/hierarchy/binary_partition_tree.hpp b/include/higra/hierarchy/binary_partition_tree.hpp
index deadfef..a0ade74 100644
--- a/include/higra/hierarchy/binary_partition_tree.hpp
+++ b/include/higra/hierarchy/binary_partition_tree.hpp
@@ -367,6 +367,8 @@ namespace hg {
                 hg_assert(vertex_centroids.shape(0) == vertex_sizes.shape(0),
                           "vertex_centroids and vertex_sizes first dimension must be equal.");
 
+                hg_assert(vertex_sizes.size() > 0, "The graph must have at least one vertex.");
+
                 auto num_elem = vertex_sizes.size() * 2 - 1;
                 m_dim = vertex_centroids.shape(1);
 
@@ -494,6 +496,8 @@ namespace hg {
 
         auto &edge_weights = xedge_weights.derived_cast();
         hg_assert_edge_weights(graph, edge_weights);
+        hg_assert_1d_array(edge_weights);
+        hg_assert(num_vertices(graph) > 0, "The graph must have at least one vertex.");
 
         auto g = copy_graph<undirected_graph<hash_setS> >(graph); // optimized for removal
 
@@ -520,7 +524,7 @@ namespace hg {
 
         for (auto v: vertex_iterator(graph)) {
             for (auto &e: out_edge_iterator(v, g)) {
-                if (!active(e)) {
+                if (!active(e) && source(e, g) != target(e, g)) { // self-loops are ignored
                     heap_handles(e) = heap.push({edge_weights(e), e});
                     active(e) = true;
                 }
@@ -562,6 +566,9 @@ namespace hg {
                         index_t region, index_t other_region) {
                     for (auto e: out_edge_iterator(region, g)) {
                         auto n = other_vertex(e, region, g);
+                        if (n == region) { // self-loop
+                            continue;
+                        }
                         if (n != other_region) { // may happen with multiple edges
                             if (new_neighbour_indices[n] != invalid_index) {
                                 new_neighbours[new_neighbour_indices[n]].second_edge_index() = e;
@@ -648,6 +655,7 @@ namespace hg {
      */
     template<typename graph_t, typename T>
     auto binary_partition_tree_complete_linkage(const graph_t &graph, const xt::xexpression<T> &xedge_weights) {
+        hg_assert_1d_array(xedge_weights.derived_cast());
         return binary_partition_tree(
                 graph,
                 xedge_weights,
@@ -680,6 +688,8 @@ namespace hg {
     auto binary_partition_tree_average_linkage(const graph_t &graph,
                                                const xt::xexpression<T> &xedge_weights,
                                                const xt::xexpression<T> &xedge_weight_weights) {
+        hg_assert_1d_array(xedge_weights.derived_cast());
+        hg_assert_1d_array(xedge_weight_weights.derived_cast());
         return binary_partition_tree(
                 graph,
                 xedge_weights,
@@ -727,6 +737,8 @@ namespace hg {
                                                const xt::xexpression<T> &xedge_weights,
                                                const typename T::value_type &alpha,
                                                const xt::xexpression<T> &xedge_weight_weights) {
+        hg_assert_1d_array(xedge_weights.derived_cast());
+        hg_assert_1d_array(xedge_weight_weights.derived_cast());
         return binary_partition_tree(
                 graph,
                 xedge_weights,
@@ -773,6 +785,8 @@ namespace hg {
                                             const xt::xexpression<T2> &xvertex_sizes,
                                             const std::string &altitude_correction = "max") {
 
+        hg_assert_vertex_weights(graph, xvertex_centroids.derived_cast());
+
         auto f = binary_partition_tree_internal::binary_partition_tree_ward_linkage_weighting_functor<T1, T2>
                 (xvertex_centroids, xvertex_sizes);
 
-- 
2.43.0


From 6ef55bb4bdaca4777d232c5e70752a4807029cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:57 +0000
Subject: [PATCH 038/102] fix: watershed cut split plateaus of infinite weight

---
 include/higra/algo/watershed.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/higra/algo/watershed.hpp b/include/higra/algo/watershed.hpp
index 07e656c..78650a2 100644
--- a/include/higra/algo/watershed.hpp
+++ b/include/higra/algo/watershed.hpp
@@ -46,7 +46,9 @@ namespace hg {
         auto fminus = array_1d<value_type>::from_shape({graph.num_vertices()});
 
         for (auto v: vertex_iterator(graph)) {
-            auto minValue = (std::numeric_limits<value_type>::max)();
+            auto minValue = std::numeric_limits<value_type>::has_infinity ?
+                            std::numeric_limits<value_type>::infinity() :
+                            (std::numeric_limits<value_type>::max)();
             for (auto e: out_edge_iterator(v, graph)) {
                 minValue = (std::min)(minValue, edge_weights(e));
             }
-- 
2.43.0


From 67f71eee60e71b7044c0470f37bf63679cb49665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:34 +0000
Subject: [PATCH 039/102] fix: watershed hierarchies returned edge indices of
 the intermediate spanning tree as minimum spanning tree edge map

---
 include/higra/hierarchy/watershed_hierarchy.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/higra/hierarchy/watershed_hierarchy.hpp b/include/higra/hierarchy/watershed_hierarchy.hpp
index cbf4909..a88ab05 100644
--- a/include/higra/hierarchy/watershed_hierarchy.hpp
+++ b/include/higra/hierarchy/watershed_hierarchy.hpp
@@ -90,7 +90,10 @@ namespace hg {
 
         auto mst_edge_weights = xt::view(persistence, xt::range(num_leaves(bpt), num_vertices(bpt)));
 
-        return bpt_canonical(mst, mst_edge_weights);
+        auto res = bpt_canonical(mst, mst_edge_weights);
+        // edge indices of the mst -> edge indices of the input graph
+        res.mst_edge_map = array_1d<index_t>(xt::index_view(mst_edge_map, res.mst_edge_map));
+        return res;
     };
 
     /**
@@ -146,7 +149,10 @@ namespace hg {
 
         auto mst_edge_weights = xt::view(persistence, xt::range(num_leaves(bpt), num_vertices(bpt)));
 
-        return bpt_canonical(mst, mst_edge_weights);
+        auto res = bpt_canonical(mst, mst_edge_weights);
+        // edge indices of the mst -> edge indices of the input graph
+        res.mst_edge_map = array_1d<index_t>(xt::index_view(mst_edge_map, res.mst_edge_map));
+        return res;
     };
 
     template<typename graph_t, typename T1, typename T2>
-- 
2.43.0


From b840c8f9d25e1f8ba02459d6ba5f46cd797a85fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:23 +0000
Subject: [PATCH 040/102] fix: watershed hierarchy by attribute read out of
 bounds when the attribute does not have one value per node

---
 include/higra/hierarchy/watershed_hierarchy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/hierarchy/watershed_hierarchy.hpp b/include/higra/hierarchy/watershed_hierarchy.hpp
index a88ab05..1916cd5 100644
--- a/include/higra/hierarchy/watershed_hierarchy.hpp
+++ b/include/higra/hierarchy/watershed_hierarchy.hpp
@@ -84,6 +84,8 @@ namespace hg {
         auto mst = subgraph_spanning(graph, mst_edge_map);
 
         auto bpt_attribute = attribute_functor(bpt, altitude);
+        hg_assert_node_weights(bpt, bpt_attribute);
+        hg_assert_1d_array(bpt_attribute);
         auto corrected_attribute = watershed_hierarchy_internal::correct_attribute_BPT(bpt, altitude, bpt_attribute);
         auto persistence = accumulate_parallel(bpt, corrected_attribute, accumulator_min());
         xt::view(persistence, xt::range(0, num_leaves(bpt))) = 0;
-- 
2.43.0


From 7152f13086b0845de0dd626dece6c5b45de8e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:39 +0000
Subject: [PATCH 041/102] fix: watershed hierarchy by minima ordering split
 minima of more than three vertices

---
 include/higra/hierarchy/watershed_hierarchy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/higra/hierarchy/watershed_hierarchy.hpp b/include/higra/hierarchy/watershed_hierarchy.hpp
index 1916cd5..2f50306 100644
--- a/include/higra/hierarchy/watershed_hierarchy.hpp
+++ b/include/higra/hierarchy/watershed_hierarchy.hpp
@@ -145,8 +145,9 @@ namespace hg {
         auto mst = subgraph_spanning(graph, mst_edge_map);
 
         auto extinction = accumulate_sequential(bpt, minima_ranks, accumulator_max());
-        xt::view(extinction, xt::range(0, num_leaves(bpt))) = 0;
-        auto persistence = accumulate_parallel(bpt, extinction, accumulator_min());
+        // the inner nodes of a minimum are not quasi-flat zones: they must not take its rank
+        auto corrected_extinction = watershed_hierarchy_internal::correct_attribute_BPT(bpt, bptc.altitudes, extinction);
+        auto persistence = accumulate_parallel(bpt, corrected_extinction, accumulator_min());
         xt::view(persistence, xt::range(0, num_leaves(bpt))) = 0;
 
         auto mst_edge_weights = xt::view(persistence, xt::range(num_leaves(bpt), num_vertices(bpt)));
-- 
2.43.0


From 45b0d645e261e4c5725849f6231a0ebee448a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 042/102] fix: horizontal cut from threshold was wrong for
 fractional or out of range thresholds on integer altitudes and read out of
 bounds

---
 include/higra/algo/tree.hpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index 0883980..6767f8f 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -71,11 +71,32 @@ namespace hg {
                                                     const xt::xexpression<T> &xaltitudes,
                                                     const value_t threshold) {
         HG_TRACE();
+        using altitude_t = typename T::value_type;
         auto &altitudes = xaltitudes.derived_cast();
-        return reconstruct_leaf_data(tree,
-                                     xt::arange<index_t>(num_vertices(tree)),
-                                     xt::index_view(altitudes, tree.parents())
-                                     <= static_cast<typename T::value_type>(threshold));
+        hg_assert_node_weights(tree, altitudes);
+        hg_assert_1d_array(altitudes);
+
+        // largest altitude smaller than or equal to the threshold
+        altitude_t level = 0;
+        bool nothing_below = false;
+        if (std::is_integral<altitude_t>::value && std::is_floating_point<value_t>::value) {
+            using limits = std::numeric_limits<altitude_t>;
+            if (threshold >= static_cast<value_t>((limits::max)())) {
+                level = (limits::max)();
+            } else if (threshold >= static_cast<value_t>(limits::lowest())) {
+                level = static_cast<altitude_t>(std::floor(threshold));
+            } else {
+                nothing_below = true;
+            }
+        } else {
+            level = static_cast<altitude_t>(threshold);
+        }
+
+        array_1d<bool> deleted({num_vertices(tree)}, false);
+        if (!nothing_below) {
+            deleted = xt::index_view(altitudes, tree.parents()) <= level;
+        }
+        return reconstruct_leaf_data(tree, xt::arange<index_t>(num_vertices(tree)), deleted);
     };
 
     /**
-- 
2.43.0


From 27aff0ca978a3952c29df6fe49e4f460bf9fec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 043/102] fix: horizontal cut explorer outlived its tree and
 read out of bounds for invalid cut indices

---
 higra/algo/py_horizontal_cuts.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/higra/algo/py_horizontal_cuts.cpp b/higra/algo/py_horizontal_cuts.cpp
index 4e0fbe4..d796515 100644
--- a/higra/algo/py_horizontal_cuts.cpp
+++ b/higra/algo/py_horizontal_cuts.cpp
@@ -75,6 +75,7 @@ namespace py_horizontal_cuts {
                              return c_t(tree, altitudes);
                          },
                          doc,
+                         py::keep_alive<0, 1>(), // the explorer refers to the tree
                          py::arg("tree"),
                          py::arg("altitudes"));
         }
@@ -98,7 +99,11 @@ Each cut of the hierarchy can be accessed through:
                 (c, "");
         c.def("num_cuts", &class_t::num_cuts, "Number of horizontal cuts in the hierarchy.");
         c.def("num_regions_cut",
-              &class_t::num_regions_cut,
+              [](const class_t &c, index_t i) {
+                  hg_assert(i >= 0, "Cut index cannot be negative.");
+                  hg_assert(i < (index_t) c.num_cuts(), "Cut index out of bounds.");
+                  return c.num_regions_cut(i);
+              },
               "Number of regions in the i-th cut of the hierarchy (cut numbering start at 0 with the cut with a single region).",
               py::arg("i"));
         c.def("num_regions_cuts",
-- 
2.43.0


From 48e225cd39bc9439670590604e5d60477206485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 044/102] fix: horizontal cut used with another tree wrote out
 of bounds

---
 include/higra/algo/horizontal_cuts.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/algo/horizontal_cuts.hpp b/include/higra/algo/horizontal_cuts.hpp
index 9f43b10..d5c8449 100644
--- a/include/higra/algo/horizontal_cuts.hpp
+++ b/include/higra/algo/horizontal_cuts.hpp
@@ -26,6 +26,7 @@ namespace hg {
 
         template<typename tree_t>
         auto labelisation_leaves(const tree_t &tree) const {
+            hg_assert(xt::all(nodes < (index_t) num_vertices(tree)), "The cut is not a cut of the given tree.");
             array_1d<bool> deleted({num_vertices(tree)}, true);
             xt::index_view(deleted, nodes) = false;
             return hg::reconstruct_leaf_data(tree,
@@ -36,6 +37,7 @@ namespace hg {
         template<typename tree_t, typename T>
         auto reconstruct_leaf_data(const tree_t &tree,
                                    const xt::xexpression<T> &altitudes) const {
+            hg_assert(xt::all(nodes < (index_t) num_vertices(tree)), "The cut is not a cut of the given tree.");
             array_1d<bool> deleted({num_vertices(tree)}, true);
             xt::index_view(deleted, nodes) = false;
             return hg::reconstruct_leaf_data(tree,
-- 
2.43.0


From b47a1952a8b1ac3ea1cf90f08fc7d83cd865f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:03 +0000
Subject: [PATCH 045/102] fix: region adjacency graph from a graph cut had
 self-loops for cut edges inside a region

---
 include/higra/algo/rag.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/rag.hpp b/include/higra/algo/rag.hpp
index 304734d..188c793 100644
--- a/include/higra/algo/rag.hpp
+++ b/include/higra/algo/rag.hpp
@@ -170,7 +170,7 @@ namespace hg {
                                     s.push(adjv);
                                 }
                             } else {
-                                if (vertex_map[adjv] != invalid_index) {
+                                if (vertex_map[adjv] != invalid_index && vertex_map[adjv] != num_regions) {
                                     auto num_region_adjacent = vertex_map[adjv];
                                     if (canonical_edge_indexes[num_region_adjacent] < lowest_edge) {
                                         add_edge(num_region_adjacent, num_regions, rag);
-- 
2.43.0


From c2313610f4eb74547cb79aa6f096b42c617afffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 046/102] fix: volume attribute wrapped around for decreasing
 unsigned altitudes

---
 higra/attribute/tree_attributes.py         | 4 +++-
 include/higra/attribute/tree_attribute.hpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index ab5f56f..e851f0f 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -59,7 +59,9 @@ def attribute_volume(tree, altitudes, area=None, leaf_volume=None):
     if area is None:
         area = hg.attribute_area(tree)
 
-    height = np.abs(altitudes[tree.parents()] - altitudes)
+    # the difference is not computed directly because it may not be representable (e.g. with unsigned altitudes)
+    parent_altitudes = altitudes[tree.parents()]
+    height = np.maximum(altitudes, parent_altitudes).astype(np.float64) - np.minimum(altitudes, parent_altitudes)
     height = height * area
 
     if leaf_volume is None:
diff --git a/include/higra/attribute/tree_attribute.hpp b/include/higra/attribute/tree_attribute.hpp
index 1d8a042..bee9c67 100644
--- a/include/higra/attribute/tree_attribute.hpp
+++ b/include/higra/attribute/tree_attribute.hpp
@@ -77,7 +77,8 @@ namespace hg {
         array_1d<double> volume = xt::empty<double>({tree.num_vertices()});
         xt::view(volume, xt::range(0, num_leaves(tree))) = 0;
         for (auto i: leaves_to_root_iterator(tree, leaves_it::exclude)) {
-            volume(i) = std::fabs(node_altitude(i) - node_altitude(parent(i))) * node_area(i);
+            volume(i) = std::fabs(static_cast<double>(node_altitude(i)) -
+                                  static_cast<double>(node_altitude(parent(i)))) * node_area(i);
             for (auto c: children_iterator(i, tree)) {
                 volume(i) += volume(c);
             }
-- 
2.43.0


From e3be421574f4568e6440bcc5db360101842277b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 047/102] fix: contour strength attribute modified the cached
 contour length

---
 higra/attribute/tree_attributes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index e851f0f..f3b6fa0 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -211,6 +211,7 @@ def attribute_contour_strength(tree, edge_weights, vertex_perimeter=None, edge_l
 
     # perimeter of the root may be null
     if np.isclose(perimeter[-1], 0):
+        perimeter = perimeter.copy()  # perimeter may be a cached attribute
         perimeter[-1] = 1
 
     if hg.CptRegionAdjacencyGraph.validate(leaf_graph):
-- 
2.43.0


From 0e509b808e126504db8646445eca715ba8855f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 048/102] fix: contour length and strength attributes failed
 with unsigned edge weights

---
 higra/attribute/tree_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index f3b6fa0..cfcbd47 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -168,7 +168,7 @@ def attribute_contour_length(tree, vertex_perimeter=None, edge_length=None, leaf
         vertex_perimeter = hg.linearize_vertex_weights(vertex_perimeter, leaf_graph)
 
     frontier_length = hg.attribute_frontier_length(tree, edge_length, leaf_graph)
-    perimeter = hg.accumulate_and_add_sequential(tree, -2 * frontier_length, vertex_perimeter,
+    perimeter = hg.accumulate_and_add_sequential(tree, -2.0 * frontier_length, vertex_perimeter,
                                                  hg.Accumulators.sum)
 
     # hg.cpp._attribute_contour_length_component_tree is more efficient than the partition tree
-- 
2.43.0


From 8635418f86ea728ad2c7472ddf2f6585f69f0aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 049/102] fix: compactness attribute was null everywhere when
 the root has an empty contour

---
 higra/attribute/tree_attributes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index cfcbd47..11fbcf9 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -244,8 +244,10 @@ def attribute_compactness(tree, area=None, contour_length=None, normalize=True,
 
     compactness = area / (contour_length * contour_length)
     if normalize:
-        max_compactness = np.nanmax(compactness)
-        compactness = compactness / max_compactness
+        # nodes with an empty contour (e.g. the root) have no finite compactness
+        finite = np.isfinite(compactness)
+        if np.any(finite):
+            compactness = compactness / np.max(compactness[finite])
 
     return compactness
 
-- 
2.43.0


From b3ce52ed086e1c363c80fdb80e7d02ff4cca9e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 050/102] fix: height attribute relative to the current node
 was negative and took leaves into account

---
 higra/attribute/tree_attributes.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 11fbcf9..05240bf 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -529,16 +529,11 @@ def attribute_height(tree, altitudes, increasing_altitudes="auto", reference_alt
     inc = __process_param_increasing_altitudes(tree, altitudes, increasing_altitudes)
 
     if reference_altitude == "current":
-        if inc:
-            res = hg.accumulate_sequential(tree,
-                                           altitudes[:tree.num_leaves()],
-                                           hg.Accumulators.max)\
-                  - altitudes
-        else:
-            res = altitudes -\
-                  hg.accumulate_sequential(tree,
-                                           altitudes[:tree.num_leaves()],
-                                           hg.Accumulators.min)
+        # altitudes are monotone: the height is the range of the altitudes of the non-leaf nodes of the subtree
+        leaf_altitudes = altitudes[tree.parents()[:tree.num_leaves()]]
+        highest = hg.accumulate_and_max_sequential(tree, altitudes, leaf_altitudes, hg.Accumulators.max)
+        lowest = hg.accumulate_and_min_sequential(tree, altitudes, leaf_altitudes, hg.Accumulators.min)
+        res = highest - lowest
     else:
         res = hg.cpp._attribute_height(tree, altitudes, inc)
 
-- 
2.43.0


From bac806e7e96c715738e9e68d7a07023d7e1fb395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 051/102] fix: edge model of tree sampling probability missed
 the last nodes when the leaf graph is disconnected

---
 higra/attribute/tree_attributes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 05240bf..7681264 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -676,7 +676,9 @@ def attribute_tree_sampling_probability(tree, leaf_graph, leaf_graph_edge_weight
     if model == 'edge':
         lca_map = hg.attribute_lca_map(tree, leaf_graph=leaf_graph)
         leaf_graph_edge_weights = leaf_graph_edge_weights / np.sum(leaf_graph_edge_weights)
-        return hg.accumulate_at(lca_map, leaf_graph_edge_weights, hg.Accumulators.sum)
+        res = np.zeros((tree.num_vertices(),), dtype=np.float64)
+        np.add.at(res, lca_map, leaf_graph_edge_weights)
+        return res
     else:  # model = 'null'
         leaf_graph_vertex_weights = hg.accumulate_graph_edges(leaf_graph, leaf_graph_edge_weights, hg.Accumulators.sum)
         leaf_graph_vertex_weights = leaf_graph_vertex_weights / np.sum(leaf_graph_edge_weights)
-- 
2.43.0


From d634488b1cb3925f41d56b53a19596d9f6d60a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:57 +0000
Subject: [PATCH 052/102] fix: extinction values were not null on nodes that
 contain no extremum

---
 include/higra/attribute/tree_attribute.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/higra/attribute/tree_attribute.hpp b/include/higra/attribute/tree_attribute.hpp
index bee9c67..abf558a 100644
--- a/include/higra/attribute/tree_attribute.hpp
+++ b/include/higra/attribute/tree_attribute.hpp
@@ -299,20 +299,37 @@ namespace hg {
             }
         }
 
+        auto extrema = attribute_extrema(tree, altitudes);
+
+        // nodes which contain, or are contained in, an extremum
+        array_1d<bool> has_extremum = extrema;
+        for (auto n: leaves_to_root_iterator(tree, leaves_it::exclude, root_it::exclude)) {
+            if (has_extremum(n)) {
+                has_extremum(parent(n, tree)) = true;
+            }
+        }
+        array_1d<bool> in_extremum = extrema;
+        for (auto n: root_to_leaves_iterator(tree, leaves_it::exclude, root_it::exclude)) {
+            if (in_extremum(parent(n, tree))) {
+                in_extremum(n) = true;
+            }
+        }
+
         // extinction of non leaf nodes
         array_1d<typename T2::value_type> extinction = array_1d<typename T2::value_type>::from_shape(
                 {num_vertices(tree)});
         extinction(root(tree)) = attribute(root(tree));
         for (auto n: root_to_leaves_iterator(tree, leaves_it::exclude, root_it::exclude)) {
             auto pn = parent(n, tree);
-            if (n == ref_son(pn)) {
+            if (!has_extremum(n) && !in_extremum(n)) {
+                extinction(n) = 0;
+            } else if (n == ref_son(pn)) {
                 extinction(n) = extinction(pn);
             } else {
                 extinction(n) = attribute(n);
             }
         }
 
-        auto extrema = attribute_extrema(tree, altitudes);
         auto indices = xt::eval(xt::arange<index_t>(num_vertices(tree)));
         if (!extrema(root(tree))) {
             indices(root(tree)) = -1;
-- 
2.43.0


From 8f1e3a0f151e4b7b2adfe43288d3adef0871df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:17 +0000
Subject: [PATCH 053/102] fix: contour strength attribute overflowed for small
 integer edge weights

---
 higra/attribute/tree_attributes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 7681264..89c277d 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -207,6 +207,9 @@ def attribute_contour_strength(tree, edge_weights, vertex_perimeter=None, edge_l
     if edge_length is None:
         edge_length = hg.attribute_edge_length(leaf_graph)
 
+    # sums of edge weights may not be representable with the type of the edge weights
+    edge_weights = edge_weights.astype(np.float64)
+
     perimeter = attribute_contour_length(tree, vertex_perimeter, edge_length, leaf_graph)
 
     # perimeter of the root may be null
-- 
2.43.0


From 9d4816353134bd6119831aff98d190f9896309c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:17 +0000
Subject: [PATCH 054/102] fix: frontier strength attribute overflowed for small
 integer edge weights

---
 higra/attribute/tree_attributes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/higra/attribute/tree_attributes.py b/higra/attribute/tree_attributes.py
index 89c277d..960ff21 100644
--- a/higra/attribute/tree_attributes.py
+++ b/higra/attribute/tree_attributes.py
@@ -135,6 +135,10 @@ def attribute_frontier_strength(tree, edge_weights, leaf_graph):
     :param leaf_graph: graph on the leaves of the input tree (deduced from :class:`~higra.CptHierarchy`)
     :return: a 1d array
     """
+    # sums of edge weights may not be representable with the type of the edge weights
+    dtype = edge_weights.dtype
+    edge_weights = edge_weights.astype(np.float64)
+
     # this is a rag like graph
     if hg.CptRegionAdjacencyGraph.validate(leaf_graph) and edge_weights.shape[0] != leaf_graph.num_edges():
         edge_weights = hg.rag_accumulate_on_edges(leaf_graph, hg.Accumulators.sum, edge_weights=edge_weights)
@@ -142,7 +146,7 @@ def attribute_frontier_strength(tree, edge_weights, leaf_graph):
     frontier_length = hg.attribute_frontier_length(tree, leaf_graph=leaf_graph)
     frontier_strength = hg.attribute_frontier_length(tree, edge_weights, leaf_graph)
     frontier_strength[tree.num_leaves():] = frontier_strength[tree.num_leaves():] / frontier_length[tree.num_leaves():]
-    return frontier_strength
+    return frontier_strength.astype(dtype)
 
 
 @hg.argument_helper(hg.CptHierarchy)
-- 
2.43.0


From 4052a0709b4d9f048f848749294485fcef1dcdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:51 +0000
Subject: [PATCH 055/102] fix: Mumford-Shah binary partition tree overflowed
 for small integer vertex values

---
 higra/algo/tree_energy_optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/higra/algo/tree_energy_optimization.py b/higra/algo/tree_energy_optimization.py
index 7aa77f4..c13390e 100644
--- a/higra/algo/tree_energy_optimization.py
+++ b/higra/algo/tree_energy_optimization.py
@@ -199,6 +199,9 @@ def binary_partition_tree_MumfordShah_energy(graph,
     vertex_perimeter = hg.linearize_vertex_weights(vertex_perimeter, graph)
 
     if squared_vertex_values is None:
+        # squared integer values may not be representable with the type of the values
+        if vertex_values.dtype.kind != 'f':
+            vertex_values = vertex_values.astype(np.float64)
         squared_vertex_values = vertex_values * vertex_values
 
     tree, altitudes = hg.cpp._binary_partition_tree_MumfordShah_energy(
-- 
2.43.0


From 906fdc84dc97478da85336e8284fdf009db80d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 056/102] fix: optimal energy cut hierarchy had a negative root
 altitude when the root is optimal at scale 0

---
 include/higra/algo/tree_energy_optimization.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/algo/tree_energy_optimization.hpp b/include/higra/algo/tree_energy_optimization.hpp
index 92bd1f1..c006228 100644
--- a/include/higra/algo/tree_energy_optimization.hpp
+++ b/include/higra/algo/tree_energy_optimization.hpp
@@ -650,6 +650,7 @@ namespace hg {
                     {0, data_fidelity_attribute(i), regularization_attribute(i)});
         }
 
+        apparition_scales(root(tree)) = (std::max)(0.0, apparition_scales(root(tree)));
         for (auto i: root_to_leaves_iterator(tree, leaves_it::include, root_it::exclude)) {
             apparition_scales(i) = (std::max)(0.0,
                                               (std::min)(apparition_scales(i), apparition_scales(parent(i, tree))));
-- 
2.43.0


From 41ca6498119b89ed87d0829ae8998c51d3b2a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:25 +0000
Subject: [PATCH 057/102] fix: dendrogram purity was wrong for negative labels
 and on region adjacency graphs, and rejected unsigned labels

---
 higra/assessment/hierarchical_cost.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/higra/assessment/hierarchical_cost.py b/higra/assessment/hierarchical_cost.py
index 69e41cc..686942c 100644
--- a/higra/assessment/hierarchical_cost.py
+++ b/higra/assessment/hierarchical_cost.py
@@ -49,19 +49,19 @@ def dendrogram_purity(tree, leaf_labels):
     :param leaf_labels: a 1d integral array of length `tree.num_leaves()`
     :return:  a score between 0 and 1 (higher is better)
     """
-    if leaf_labels.ndim != 1 or leaf_labels.size != tree.num_leaves() or leaf_labels.dtype.kind != 'i':
+    if leaf_labels.ndim != 1 or leaf_labels.size != tree.num_leaves() or leaf_labels.dtype.kind not in 'iu':
         raise ValueError("leaf_labels must be a 1d integral array of length `tree.num_leaves()`")
 
     num_l = tree.num_leaves()
-    area = hg.attribute_area(tree)
 
-    max_label = np.max(leaf_labels)
-    num_labels = max_label + 1
+    # labels can be arbitrary integers
+    labels, leaf_labels = np.unique(leaf_labels, return_inverse=True)
+    num_labels = labels.size
     label_histo_leaves = np.zeros((num_l, num_labels), dtype=np.float64)
     label_histo_leaves[np.arange(num_l), leaf_labels] = 1
 
     label_histo = hg.accumulate_sequential(tree, label_histo_leaves, hg.Accumulators.sum)
-    class_purity = label_histo / area[:, np.newaxis]
+    class_purity = label_histo / np.sum(label_histo, axis=1, keepdims=True)
 
     weights = hg.attribute_children_pair_sum_product(tree, label_histo)
     total = np.sum(class_purity[num_l:, :] * weights[num_l:, :])
-- 
2.43.0


From f07b6916eeb8fce6f2eedc6c29dce9ca64c2afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:25 +0000
Subject: [PATCH 058/102] fix: BCE and covering scores were not numbers when
 some labels are not used

---
 include/higra/assessment/fragmentation_curve.hpp | 2 +-
 include/higra/assessment/partition.hpp           | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/higra/assessment/fragmentation_curve.hpp b/include/higra/assessment/fragmentation_curve.hpp
index 2af239b..33f51f2 100644
--- a/include/higra/assessment/fragmentation_curve.hpp
+++ b/include/higra/assessment/fragmentation_curve.hpp
@@ -199,7 +199,7 @@ namespace hg {
                 case optimal_cut_measure::BCE:
                     scores = xt::eval(xt::sum(
                             card_intersection *
-                            xt::minimum(card_intersection / region_gt_areas,
+                            xt::minimum(card_intersection / xt::maximum(region_gt_areas, 1), // unused labels have a null area
                                         card_intersection / xt::view(region_tree_area, xt::all(), xt::newaxis())),
                             {1}));
                     break;
diff --git a/include/higra/assessment/partition.hpp b/include/higra/assessment/partition.hpp
index d7dc6dd..56b4154 100644
--- a/include/higra/assessment/partition.hpp
+++ b/include/higra/assessment/partition.hpp
@@ -67,10 +67,12 @@ namespace hg {
             auto card_intersection = xcard_intersection.derived_cast();
             auto candidate_regions_area = xt::sum(card_intersection, {1});
 
+            // maximum: unused labels have a null area
             double score = xt::sum(
                     card_intersection *
-                    xt::minimum(card_intersection / xt::sum(card_intersection, {0}),
-                                card_intersection / xt::view(candidate_regions_area, xt::all(), xt::newaxis())))();
+                    xt::minimum(card_intersection / xt::maximum(xt::sum(card_intersection, {0}), 1),
+                                card_intersection /
+                                xt::maximum(xt::view(candidate_regions_area, xt::all(), xt::newaxis()), 1)))();
 
             return score / xt::sum(candidate_regions_area)();
         }
@@ -96,7 +98,7 @@ namespace hg {
             auto card_union = -card_intersection + xt::sum(card_intersection, {0}) +
                               xt::view(candidate_regions_area, xt::all(), xt::newaxis());
 
-            double score = xt::eval(xt::sum(xt::amax(card_intersection / card_union, {1}) * candidate_regions_area))();
+            double score = xt::eval(xt::sum(xt::amax(card_intersection / xt::maximum(card_union, 1), {1}) * candidate_regions_area))();
 
             return score / xt::sum(candidate_regions_area)();
         }
-- 
2.43.0


From 98687bcabd3bd3ea21c9b0f5e25f7438d1e61f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:49 +0000
Subject: [PATCH 059/102] fix: assessment functions accessed memory out of
 bounds for negative labels, invalid vertex maps and numbers of regions

---
 include/higra/assessment/fragmentation_curve.hpp | 11 +++++++++++
 include/higra/assessment/partition.hpp           |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/include/higra/assessment/fragmentation_curve.hpp b/include/higra/assessment/fragmentation_curve.hpp
index 33f51f2..b0c4b41 100644
--- a/include/higra/assessment/fragmentation_curve.hpp
+++ b/include/higra/assessment/fragmentation_curve.hpp
@@ -95,6 +95,8 @@ namespace hg {
                 const array_1d<index_t> &vertex_map = {}) {
             auto &ground_truth = xground_truth.derived_cast();
             hg_assert_1d_array(ground_truth);
+            hg_assert(ground_truth.size() > 0, "Ground truth cannot be empty.");
+            hg_assert(xt::amin(ground_truth)() >= 0, "Labels cannot be negative.");
 
             auto num_regions_ground_truth = xt::amax(ground_truth)() + 1;
             array_2d<index_t> card_intersection_leaves({num_leaves(tree), (size_t) num_regions_ground_truth}, 0);
@@ -105,6 +107,8 @@ namespace hg {
                 }
             } else { // tree on rag
                 hg_assert(vertex_map.size() == ground_truth.size(), "Vertex map and ground truth sizes do not match.");
+                hg_assert(xt::amin(vertex_map)() >= 0 && xt::amax(vertex_map)() < (index_t) num_leaves(tree),
+                          "Vertex map contains invalid leaf indices.");
                 for (index_t i = 0; i < (index_t) vertex_map.size(); i++) {
                     card_intersection_leaves(vertex_map(i), ground_truth(i))++;
                 }
@@ -151,6 +155,9 @@ namespace hg {
 
             hg_assert_1d_array(ground_truth);
             hg_assert_integral_value_type(ground_truth);
+            hg_assert(ground_truth.size() > 0, "Ground truth cannot be empty.");
+            hg_assert(xt::amin(ground_truth)() >= 0, "Labels cannot be negative.");
+            hg_assert(max_regions > 0, "max_regions must be strictly positive.");
 
             m_tree.compute_children();
 
@@ -182,6 +189,8 @@ namespace hg {
                 region_tree_area = attribute_area(m_tree);
             } else { // tree on rag
                 hg_assert(vertex_map.size() == ground_truth.size(), "Vertex map and ground truth sizes do not match.");
+                hg_assert(xt::amin(vertex_map)() >= 0 && xt::amax(vertex_map)() < (index_t) num_leaves(tree),
+                          "Vertex map contains invalid leaf indices.");
                 for (index_t i = 0; i < (index_t) vertex_map.size(); i++) {
                     card_intersection_leaves(vertex_map(i), ground_truth(i))++;
                 }
@@ -307,6 +316,7 @@ namespace hg {
             if (num_regions == 0) {
                 num_regions = optimal_number_of_regions();
             }
+            hg_assert(num_regions <= backtracking[root(m_tree)].size(), "Invalid number of regions.");
             array_1d<bool> non_cut_nodes({num_vertices(m_tree)}, true);
             std::stack<std::pair<index_t, size_t>> s;
             s.push({root(m_tree), num_regions});
@@ -402,6 +412,7 @@ namespace hg {
         hg_assert_node_weights(tree, altitudes);
         hg_assert_integral_value_type(ground_truth);
         hg_assert_1d_array(ground_truth);
+        hg_assert(max_regions > 0, "max_regions must be strictly positive.");
         max_regions = (std::min)(max_regions, num_leaves(tree));
 
         auto card_intersection = fragmentation_curve_internal::compute_card_intersection_tree_ground_truth<double>(
diff --git a/include/higra/assessment/partition.hpp b/include/higra/assessment/partition.hpp
index 56b4154..8655503 100644
--- a/include/higra/assessment/partition.hpp
+++ b/include/higra/assessment/partition.hpp
@@ -30,6 +30,8 @@ namespace hg {
 
         hg_assert_integral_value_type(candidate);
         hg_assert_integral_value_type(ground_truths);
+        hg_assert(candidate.size() > 0 && ground_truths.size() > 0, "Partitions cannot be empty.");
+        hg_assert(xt::amin(candidate)() >= 0 && xt::amin(ground_truths)() >= 0, "Labels cannot be negative.");
 
         std::vector<array_2d<value_type>> result;
         auto num_regions_candidate = xt::amax(candidate)() + 1;
-- 
2.43.0


From 1d3829f7a136f9dbfd2ac50b03d2d3552e9002a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:39 +0000
Subject: [PATCH 060/102] fix: bipartite graph matching ignored null and
 negative weights, crashed on null weights and never ended on large weights

---
 higra/algo/bipartite_graph.py      | 20 +++++++++++++-------
 include/higra/algo/details/csa.hpp |  5 +++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/higra/algo/bipartite_graph.py b/higra/algo/bipartite_graph.py
index cdb90ea..0d49940 100644
--- a/higra/algo/bipartite_graph.py
+++ b/higra/algo/bipartite_graph.py
@@ -119,6 +119,8 @@ def bipartite_graph_matching(graph, edge_weights):
 
     check, coloring = is_bipartite_graph(graph)
 
+    edge_weights = np.asarray(edge_weights)
+
     if type(graph) is hg.UndirectedGraph:
         sources, targets = graph.edge_list()
         num_vertices = graph.num_vertices()
@@ -149,18 +151,22 @@ def bipartite_graph_matching(graph, edge_weights):
     if np.issubdtype(edge_weights.dtype, np.floating):
         print("Warning: possible loss of precision, edge weights are casted to int64 for bipartite graph matching")
 
-    edge_weights = hg.cast_to_dtype(edge_weights, np.int64)
-
-    very_large_weight = np.max(edge_weights) * 1000
-    # check that very_large_weight is not too large
-    if very_large_weight > 2 ** 60 - 1:
-        raise ValueError("edge weights are too large")
-
+    # adding a constant to the weights does not change the matchings of maximum size and minimum weight
+    min_weight = int(np.min(edge_weights))
+    weight_range = int(np.max(edge_weights)) - min_weight
 
     # sizes of left and right sets
     rhs_size = np.count_nonzero(coloring)
     lhs_size = num_vertices - rhs_size
 
+    # leaving a vertex unmatched must cost more than any possible gain on the weights of the matched edges
+    very_large_weight = weight_range * min(lhs_size, rhs_size) + 1
+    # costs are represented by floating point numbers: above this limit they are too imprecise for the algorithm to finish
+    if very_large_weight * int(num_vertices) > 2 ** 50:
+        raise ValueError("edge weights are too large")
+
+    edge_weights = hg.cast_to_dtype(edge_weights, np.int64) - min_weight
+
     # augmented graph sizes to ensure the existence of a perfect matching
     # each lhs (resp rhs) vertex is duplicated in the rhs (reps lhs) part
     # an edge of weight very_large_weight is added between the two copies
diff --git a/include/higra/algo/details/csa.hpp b/include/higra/algo/details/csa.hpp
index ab02a84..987e9b8 100755
--- a/include/higra/algo/details/csa.hpp
+++ b/include/higra/algo/details/csa.hpp
@@ -1509,7 +1509,8 @@ setup is free.
                 int64_t	*rhs_degree;
                 rl_aptr	b;
 #endif
-                index_t max_cost = 0;
+                // the scaling loop must be executed at least once to compute an assignment, even if all the costs are null
+                index_t max_cost = 1;
                 lr_aptr a;
                 ta_ptr temp_a, temp_arcs;
                 lhs_ptr l_v;
@@ -1578,7 +1579,7 @@ setup is free.
                     temp_a->tail = head_lhs_node + tail;
                     temp_a->cost = cost;
                     temp_a->edge_index = i;
-                    if ((cost = abs((int) cost)) > max_cost) max_cost = cost;
+                    if ((cost = std::abs(cost)) > max_cost) max_cost = cost;
                     temp_a++;
                     lhs_degree[tail]++;
 #ifdef    STORE_REV_ARCS
-- 
2.43.0


From cef780d26734db076c98b2723deeac669dfe3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 061/102] fix: clearing the cache failed when a cleared result
 was the last reference to another object

---
 higra/data_cache.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index 196482a..569f7ad 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -21,21 +21,6 @@ import higra as hg
 #                                                         #
 ###########################################################
 
-class _WeakKeyDictionaryIterator:
-
-    def __init__(self, wkd):
-        self.wkd = wkd
-        self.wkd_iter = iter(wkd._data)
-
-    def __iter__(self):
-        return self
-
-    def __next__(self):
-        k = self.wkd_iter.__next__()
-        ref, value = self.wkd._data[k]
-        return ref(), value
-
-
 class WeakKeyDictionary:
     """
     Useful weak key dictionary (compared to the one provided by python...)
@@ -100,7 +85,11 @@ class WeakKeyDictionary:
         self.__delete__(obj)
 
     def __iter__(self):
-        return _WeakKeyDictionaryIterator(self)
+        # iterate on a copy: objects may be destroyed during the iteration
+        for ref, value in list(self._data.values()):
+            obj = ref()
+            if obj is not None:
+                yield obj, value
 
 
 def _data_cache__init():
-- 
2.43.0


From 563f29bbe2b45917e2a09e340d1ad9b5fbaa0b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 062/102] fix: implicit arguments ignored explicit arguments
 when several concepts are resolved

---
 higra/data_cache.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index 569f7ad..6f801fb 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -625,12 +625,16 @@ def __resolve_concept(arg_name, concept, all_parameters_name, all_data_found, kw
         for data_element_name, data_element in concept_elements.items():
             # tries to map the given element name to a new name or itself if no such mapping exists
             argument_name = concept_name_to_arg_name_map.get(data_element_name, data_element_name)
-            # if element name is requested by function and not already in kwargs
-            if argument_name in all_parameters_name and (argument_name not in kwargs or kwargs[argument_name] is None):
-                kwargs[argument_name] = data_element
-
-        # add all found elements to found data
-        all_data_found.update(concept_elements)
+            if argument_name in all_parameters_name:
+                # if element name is requested by function and not already in kwargs
+                if argument_name not in kwargs or kwargs[argument_name] is None:
+                    kwargs[argument_name] = data_element
+                else:
+                    # arguments given by the caller take precedence in the resolution of the next concepts
+                    data_element = kwargs[argument_name]
+
+            # add found element to found data
+            all_data_found[data_element_name] = data_element
 
 
 def argument_helper(*concepts):
-- 
2.43.0


From 4bf8b2ace9a4428f2769bcee459589f3dccfd42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 063/102] fix: reading a missing or truncated tree file never
 ended or gave undefined values, attribute names with spaces were truncated

---
 higra/io_utils/py_tree_io.cpp |  8 ++++++--
 include/higra/io/tree_io.hpp  | 14 +++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/higra/io_utils/py_tree_io.cpp b/higra/io_utils/py_tree_io.cpp
index edfa85a..8238491 100644
--- a/higra/io_utils/py_tree_io.cpp
+++ b/higra/io_utils/py_tree_io.cpp
@@ -23,7 +23,8 @@ namespace py_tree_io {
         //xt::import_numpy();
 
         m.def("_read_tree", [](const std::string &filename) {
-                  std::ifstream file(filename);
+                  std::ifstream file(filename, std::ios::binary);
+                  hg_assert(file.is_open(), "Cannot open file: " + filename);
                   return hg::read_tree(file);
               },
               "Read tree from mixed ascii/binary format. Return a pair with the tree and a map of attributes (tree, dict[string => 1d array[double] ])",
@@ -31,12 +32,15 @@ namespace py_tree_io {
 
         m.def("save_tree", [](const std::string &filename, const hg::tree &tree,
                               const std::map<std::string, pyarray<double>> &attributes) {
-                  std::ofstream file(filename);
+                  std::ofstream file(filename, std::ios::binary);
+                  hg_assert(file.is_open(), "Cannot open file: " + filename);
                   auto s = hg::save_tree(file, tree);
                   for (auto e: attributes) {
                       s.add_attribute(e.first, e.second);
                   }
                   s.finalize();
+                  file.flush();
+                  hg_assert((bool) file, "Cannot write file: " + filename);
               },
               "Save a tree and scalar attributes to mixed ascii/binary format. "
               "Attributes must be numpy 1d arrays stored in a dictionary with string keys (attribute names).",
diff --git a/include/higra/io/tree_io.hpp b/include/higra/io/tree_io.hpp
index 5474c59..3d77848 100644
--- a/include/higra/io/tree_io.hpp
+++ b/include/higra/io/tree_io.hpp
@@ -50,6 +50,8 @@ namespace hg {
                 auto &array = xarray.derived_cast();
                 hg_assert(array.dimension() == 1, "Only scalar attributes are supported.");
                 hg_assert(array.size() == m_tree.num_vertices(), "Attribute size does not match the size of the tree.");
+                hg_assert(!name.empty() && name.find('\n') == std::string::npos,
+                          "Attribute names cannot be empty nor contain line breaks.");
 
                 // force conversion to double
                 // TODO avoid copy when not needed
@@ -113,15 +115,14 @@ namespace hg {
     auto
     read_tree(std::istream &in) {
         std::string key = "";
-        char dummy;
         std::string tmp;
 
         int num_vertices = -1;
         int num_attributes = -1;
 
         while (key != HG_TREE_IO_HEADEREND_KEY) {
-            int value;
-            in >> tmp;
+            int value = -1;
+            hg_assert((bool) std::getline(in, tmp), "Invalid tree file: unexpected end of file.");
             std::size_t pos = tmp.find('=');
             if (pos != std::string::npos) {
                 key = tmp.substr(0, pos);
@@ -149,11 +150,10 @@ namespace hg {
         hg_assert(num_attributes >= 0, "Incorrect or missing key "
                 HG_TREE_IO_NBATTRIBUTES_KEY);
 
-        in.read(&dummy, 1); // consumme the last \n left by cin...
-
         array_1d<int> parents;
         parents.resize({std::size_t(num_vertices)});
         in.read(reinterpret_cast<char *>(parents.data()), std::streamsize(num_vertices * sizeof(int)));
+        hg_assert((bool) in, "Invalid tree file: unexpected end of file.");
 
         std::map<std::string, array_1d<double>> attributes;
 
@@ -161,7 +161,7 @@ namespace hg {
             std::string name = "";
             key = "";
             while (key != HG_TREE_IO_HEADEREND_KEY) {
-                in >> tmp;
+                hg_assert((bool) std::getline(in, tmp), "Invalid tree file: unexpected end of file.");
                 std::size_t pos = tmp.find('=');
                 std::string value;
                 if (pos != std::string::npos) {
@@ -181,10 +181,10 @@ namespace hg {
             }
             hg_assert(name != "", "Incorrect or missing key for attribute " + std::to_string(i) + " " +
                                   HG_TREE_IO_NAME_KEY);
-            in.read(&dummy, 1); // consumme the last \n left by cin...
 
             attributes.emplace(name, array_1d<double>::from_shape({std::size_t(num_vertices)}));
             in.read(reinterpret_cast<char *>(attributes[name].data()), std::streamsize(num_vertices * sizeof(double)));
+            hg_assert((bool) in, "Invalid tree file: unexpected end of file.");
         }
 
         return std::make_pair(tree(parents), std::move(attributes));
-- 
2.43.0


From a7ab4a6a76d2630a54614d7bdae1ac136edced09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:25 +0000
Subject: [PATCH 064/102] fix: weights lost precision in pink graph files,
 graphs without edges and infinite weights could not be read back, invalid
 files were not detected

---
 include/higra/io/pink_graph_io.hpp | 42 ++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/include/higra/io/pink_graph_io.hpp b/include/higra/io/pink_graph_io.hpp
index 9baea24..d4e56c7 100644
--- a/include/higra/io/pink_graph_io.hpp
+++ b/include/higra/io/pink_graph_io.hpp
@@ -14,6 +14,8 @@
 #include <istream>
 #include <ostream>
 #include <fstream>
+#include <cstdlib>
+#include <limits>
 #include <string>
 #include <vector>
 #include "higra/structure/array.hpp"
@@ -31,6 +33,22 @@ namespace hg {
         B edge_weights;
     };
 
+    namespace pink_graph_io_internal {
+
+        /**
+         * Read a value, including infinities, nans, and subnormal numbers
+         */
+        inline
+        double read_value(std::istream &in) {
+            std::string token;
+            in >> token;
+            char *end = nullptr;
+            double value = std::strtod(token.c_str(), &end);
+            hg_assert(!token.empty() && *end == '\0', "Invalid graph file: invalid value.");
+            return value;
+        }
+    }
+
     inline
     auto read_pink_graph(std::istream &in) {
         HG_TRACE();
@@ -43,6 +61,7 @@ namespace hg {
             std::size_t rs;
             std::size_t cs;
             in >> discard >> rs >> discard >> cs;
+            hg_assert((bool) in, "Invalid graph file: invalid shape.");
             shape.push_back(cs);
             shape.push_back(rs);
         }
@@ -51,8 +70,9 @@ namespace hg {
         index_t num_edges;
         in >> num_points >> num_edges;
 
+        hg_assert((bool) in, "Invalid graph file: invalid number of vertices or edges.");
         hg_assert(num_points > 0, "The number of vertices cannot be negative.");
-        hg_assert(num_edges > 0, "The number of edges cannot be negative.");
+        hg_assert(num_edges >= 0, "The number of edges cannot be negative.");
 
         if (shape.empty()) // construct valid shape
         {
@@ -68,8 +88,9 @@ namespace hg {
 
         for (index_t l = 0; l < num_points; ++l) {
             index_t i;
-            double d;
-            in >> i >> d;
+            in >> i;
+            hg_assert((bool) in, "Invalid graph file: invalid vertex.");
+            double d = pink_graph_io_internal::read_value(in);
             hg_assert(0 <= i && i < num_points, "Invalid graph file: vertex index out of range.");
             vertex_weight(i) = d;
         }
@@ -81,8 +102,9 @@ namespace hg {
 
         for (index_t l = 0; l < num_edges; ++l) {
             index_t i, j;
-            double d;
-            in >> i >> j >> d;
+            in >> i >> j;
+            hg_assert((bool) in, "Invalid graph file: invalid edge.");
+            double d = pink_graph_io_internal::read_value(in);
             hg_assert(0 <= i && 0 <= j && i < num_points && j < num_points,
                       "Invalid graph file: vertex index out of range in edge definition.");
             g.add_edge(i, j);
@@ -95,6 +117,7 @@ namespace hg {
     inline
     auto read_pink_graph(const std::string &filename) {
         std::ifstream file(filename);
+        hg_assert(file.is_open(), "Cannot open file: " + filename);
         return read_pink_graph(file);
     };
 
@@ -115,6 +138,11 @@ namespace hg {
 
         hg_assert(vertex_values.dimension() <= 1, "Too many dimensions for vertex values!");
         hg_assert(edge_values.dimension() <= 1, "Too many dimensions for edge values!");
+        for (auto e: edge_iterator(graph)) {
+            hg_assert(source(e, graph) >= 0 && target(e, graph) >= 0, "The graph cannot have removed edges.");
+        }
+        // enough digits to get the same values back
+        auto precision = out.precision(std::numeric_limits<double>::max_digits10);
 
         switch (shape.size()) {
             case 0:
@@ -157,6 +185,7 @@ namespace hg {
             }
         }
 
+        out.precision(precision);
     }
 
     template<typename graph_t,
@@ -170,7 +199,10 @@ namespace hg {
                          S &shape = std::vector<std::size_t>()
     ) {
         std::ofstream file(filename);
+        hg_assert(file.is_open(), "Cannot open file: " + filename);
         save_pink_graph(file, graph, xvertex_values, xedge_values, shape);
+        file.flush();
+        hg_assert((bool) file, "Cannot write file: " + filename);
     };
 
 }
-- 
2.43.0


From bd0c90b33cf7e8fd12dd83e8812110e34b300d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:25 +0000
Subject: [PATCH 065/102] fix: sparse adjacency matrices counted self-loops
 twice, removed edges gave wrong adjacency matrices

---
 higra/algo/graph_core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/higra/algo/graph_core.py b/higra/algo/graph_core.py
index 4a8fe64..66b6a60 100644
--- a/higra/algo/graph_core.py
+++ b/higra/algo/graph_core.py
@@ -70,6 +70,11 @@ def undirected_graph_2_adjacency_matrix(graph, edge_weights=None, non_edge_value
     num_v = graph.num_vertices()
     sources, targets = graph.edge_list()
 
+    # removed edges are attached to the virtual vertex -1
+    removed = sources < 0
+    if np.any(removed):
+        sources, targets, edge_weights = sources[~removed], targets[~removed], edge_weights[~removed]
+
     if sparse:
         try:
             from scipy.sparse import csr_matrix
@@ -81,7 +86,10 @@ def undirected_graph_2_adjacency_matrix(graph, edge_weights=None, non_edge_value
                              "support custom default value.")
 
         A = csr_matrix((edge_weights, (sources, targets)), shape=(num_v, num_v), dtype=edge_weights.dtype)
-        A += A.T
+        # self-loops are on the diagonal: they must not be counted twice
+        loops = sources == targets
+        A += csr_matrix((edge_weights[~loops], (targets[~loops], sources[~loops])), shape=(num_v, num_v),
+                        dtype=edge_weights.dtype)
 
     else:
         A = np.empty((num_v, num_v), dtype=edge_weights.dtype)
-- 
2.43.0


From c72e777a48a0b8cd4ff898672cda032a4b7e167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:25 +0000
Subject: [PATCH 066/102] fix: invalid cluster indices in a linkage matrix
 caused out of bounds writes

---
 higra/interop/py_scipy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/higra/interop/py_scipy.cpp b/higra/interop/py_scipy.cpp
index bc86f41..2d49c46 100644
--- a/higra/interop/py_scipy.cpp
+++ b/higra/interop/py_scipy.cpp
@@ -54,7 +54,7 @@ namespace py_scipy {
         index_t n_leaves = linkage_matrix.shape()[0] + 1;
         index_t n_nodes = n_leaves * 2 - 1;
 
-        array_1d<index_t> parents = xt::empty<index_t>({n_nodes});
+        array_1d<index_t> parents({(size_t) n_nodes}, invalid_index);
         array_1d<value_t> altitudes = xt::empty<index_t>({n_nodes});
         array_1d<index_t> area = xt::empty<index_t>({n_nodes});
 
@@ -64,6 +64,10 @@ namespace py_scipy {
 
         for (index_t i = 0; i < n_leaves - 1; i++) {
             index_t n = i + n_leaves;
+            // written such that nan are rejected
+            hg_assert(linkage_matrix(i, 0) >= 0 && linkage_matrix(i, 0) < n &&
+                      linkage_matrix(i, 1) >= 0 && linkage_matrix(i, 1) < n,
+                      "Invalid cluster index in linkage matrix.");
             parents(static_cast<index_t>(linkage_matrix(i, 0))) = n;
             parents(static_cast<index_t>(linkage_matrix(i, 1))) = n;
             altitudes(n) = linkage_matrix(i, 2);
-- 
2.43.0


From 70adba10c122995492e4956391b9123738970fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:34 +0000
Subject: [PATCH 067/102] fix: saving a tree with non contiguous attributes
 corrupted memory

---
 higra/io_utils/py_tree_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/io_utils/py_tree_io.cpp b/higra/io_utils/py_tree_io.cpp
index 8238491..8c6bcd6 100644
--- a/higra/io_utils/py_tree_io.cpp
+++ b/higra/io_utils/py_tree_io.cpp
@@ -35,7 +35,7 @@ namespace py_tree_io {
                   std::ofstream file(filename, std::ios::binary);
                   hg_assert(file.is_open(), "Cannot open file: " + filename);
                   auto s = hg::save_tree(file, tree);
-                  for (auto e: attributes) {
+                  for (const auto &e: attributes) {
                       s.add_attribute(e.first, e.second);
                   }
                   s.finalize();
-- 
2.43.0


From 7cb50971173288335d71a8847cfa35824a83cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:34 +0000
Subject: [PATCH 068/102] fix: subdividing an already subdivided contour lost
 contour elements

---
 include/higra/image/contour_2d.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index f8cf41e..ab97052 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -261,18 +261,18 @@ namespace hg {
                             stack.push({max_distance_element, last_element});
                         }
                     }
+                }
 
-                    // final subdivision
-                    m_control_points.clear();
+                // final subdivision
+                m_control_points.clear();
 
-                    for (index_t i = 0; i < (index_t) m_contour_elements.size(); i++) {
-                        if (is_subdivision_element[i]) {
-                            m_control_points.push_back(i);
-                        }
+                for (index_t i = 0; i < (index_t) m_contour_elements.size(); i++) {
+                    if (is_subdivision_element[i]) {
+                        m_control_points.push_back(i);
                     }
-                    if (m_control_points.size() == 1)
-                        m_control_points.push_back(0);
                 }
+                if (m_control_points.size() == 1)
+                    m_control_points.push_back(0);
 
             }
         };
-- 
2.43.0


From 6e22a9aea1e0181b395ccb342de56149d5aafa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:34 +0000
Subject: [PATCH 069/102] fix: wrong contour coordinates in images with a
 single column

---
 include/higra/image/contour_2d.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index ab97052..7adaa57 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -417,11 +417,10 @@ namespace hg {
             auto s = source(e, graph);
             auto t = target(e, graph);
             point_type coordinates = embedding.lin2grid(s);
-            if (s + 1 == t) { // horizontal edge
-                coordinates[1] += 0.5;
-            } else { // vertical edge
-                coordinates[0] += 0.5;
-            }
+            point_type coordinates_t = embedding.lin2grid(t);
+            // middle of the edge
+            coordinates[0] = (coordinates[0] + coordinates_t[0]) / 2;
+            coordinates[1] = (coordinates[1] + coordinates_t[1]) / 2;
             return coordinates;
         };
 
-- 
2.43.0


From 41639de5e7f62028f6d6fb298f22d91fb29159de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:34 +0000
Subject: [PATCH 070/102] fix: the last element of open contours was duplicated

---
 include/higra/image/contour_2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index 7adaa57..4bc444d 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -501,6 +501,8 @@ namespace hg {
                                contours_khalimsky(y, x - 1) != invalid_index) {
                         previous = EAST;
                         x--;
+                    } else { // end of the contour: the given edges do not form closed frontiers
+                        flag = true;
                     }
                 }
             } while (!flag);
-- 
2.43.0


From 8a50733170e3b2b065eea73f33382f84d0157d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:27 +0000
Subject: [PATCH 071/102] fix: inplace sort silently did nothing on arrays
 needing a conversion and modified read only arrays

---
 higra/py_sorting.cpp | 12 ++++++++++--
 higra/sorting.py     |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/higra/py_sorting.cpp b/higra/py_sorting.cpp
index b032aff..2801c27 100644
--- a/higra/py_sorting.cpp
+++ b/higra/py_sorting.cpp
@@ -20,16 +20,23 @@ namespace py_sorting {
     using pyarray = xt::pyarray<T>;
     namespace py = pybind11;
 
+    /**
+     * An inplace sort must not modify a read only array
+     */
+    inline void check_writeable(const py::object &array) {
+        hg_assert(py::reinterpret_borrow<py::array>(array).writeable(), "Cannot sort a read only array inplace.");
+    }
 
     struct def_sort {
         template<typename value_t, typename C>
         static
         void def(C &c, const char *doc) {
             c.def("_sort", [](pyarray<value_t> &array) {
+                      check_writeable(array);
                       hg::sort(array);
                   },
                   doc,
-                  py::arg("array"));
+                  py::arg("array").noconvert()); // a converted copy would be sorted instead of the given array
         }
     };
 
@@ -38,10 +45,11 @@ namespace py_sorting {
         static
         void def(C &c, const char *doc) {
             c.def("_stable_sort", [](pyarray<value_t> &array) {
+                      check_writeable(array);
                       hg::stable_sort(array);
                   },
                   doc,
-                  py::arg("array"));
+                  py::arg("array").noconvert()); // a converted copy would be sorted instead of the given array
         }
     };
 
diff --git a/higra/sorting.py b/higra/sorting.py
index 5c8da78..97dca17 100644
--- a/higra/sorting.py
+++ b/higra/sorting.py
@@ -9,6 +9,7 @@
 ############################################################################
 
 import higra as hg
+import numpy as np
 
 
 def sort(array, stable=False):
@@ -25,10 +26,13 @@ def sort(array, stable=False):
         >>> a
         [1  2  4  5  9]
 
-    :param array: input array (1d or 2d)
+    :param array: input array (1d ndarray, writeable, with a numeric data type in native byte order)
     :param stable: if ``True``, a stable sort is performed.
     :return: nothing
     """
+    if not isinstance(array, np.ndarray) or not array.dtype.isnative:
+        raise TypeError("Cannot sort inplace: 'array' must be a ndarray in native byte order.")
+
     if stable:
         return hg.cpp._stable_sort(array)
     else:
-- 
2.43.0


From 6020b0886ad4548f19fc67455d3cfd7a16aa7451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 072/102] fix: fibonacci heap lost elements with unordered
 values

---
 include/higra/structure/fibonacci_heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/higra/structure/fibonacci_heap.hpp b/include/higra/structure/fibonacci_heap.hpp
index 00eb56a..03ae41b 100644
--- a/include/higra/structure/fibonacci_heap.hpp
+++ b/include/higra/structure/fibonacci_heap.hpp
@@ -465,7 +465,8 @@ namespace hg {
                     m_cut(node, parent);
                     m_cascading_cut(parent);
                 }
-                if (node->m_value < m_heap->m_value)
+                // the top of the heap must be a root, even with unordered values (nan)
+                if (node->m_parent == nullptr && node->m_value < m_heap->m_value)
                     m_heap = node;
             }
 
-- 
2.43.0


From e561c95a077dd1bdcc6ef7215039ae642f5ec1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 073/102] fix: graph corrupted by a failed add_vertices

---
 include/higra/structure/undirected_graph.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/higra/structure/undirected_graph.hpp b/include/higra/structure/undirected_graph.hpp
index cabd9e7..0725e14 100644
--- a/include/higra/structure/undirected_graph.hpp
+++ b/include/higra/structure/undirected_graph.hpp
@@ -154,8 +154,9 @@ namespace hg {
 
             void add_vertices(size_t num) {
                 if (num > 0) {
+                    hg_assert(num <= out_edges.max_size() - _num_vertices, "Too many vertices.");
+                    out_edges.resize(_num_vertices + num); // may throw
                     _num_vertices += num;
-                    out_edges.resize(_num_vertices);
                 }
             }
 
-- 
2.43.0


From 65fd745eddec8565aea57591e352cf680ce0717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 074/102] fix: embedding shapes with an overflowing size were
 accepted

---
 include/higra/structure/embedding.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/higra/structure/embedding.hpp b/include/higra/structure/embedding.hpp
index 6c56f29..3afd6a4 100644
--- a/include/higra/structure/embedding.hpp
+++ b/include/higra/structure/embedding.hpp
@@ -61,8 +61,11 @@ namespace hg {
             }
 
             void assert_positive_shape() {
+                index_t size = 1;
                 for (const auto c: _shape) {
                     hg_assert(c > 0, "Axis size must be positive.");
+                    hg_assert((index_t) c <= (std::numeric_limits<index_t>::max)() / size, "Shape is too large.");
+                    size *= (index_t) c;
                 }
 
             }
-- 
2.43.0


From 2c6a7b996e88baac6698cf872cce4771e88d815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 075/102] fix: contours of grid graphs with missing edges used
 an arbitrary edge

---
 include/higra/image/contour_2d.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index 4bc444d..30d5900 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -402,15 +402,16 @@ namespace hg {
 
         contour_2d result;
 
-        array_1d<index_t> positive_edge_index = xt::empty<index_t>({num_edges(graph)});
+        // edge indices are shifted by one: 0 (no contour) is also the value of the 1-faces without edge in the graph
+        array_1d<index_t> positive_edge_index = xt::zeros<index_t>({num_edges(graph)});
         for (index_t i = 0; i < (index_t) positive_edge_index.size(); i++) {
             if (edge_weights[i] > 0)
-                positive_edge_index[i] = i;
-            else positive_edge_index[i] = invalid_index;
+                positive_edge_index[i] = i + 1;
         }
 
-        auto contours_khalimsky = graph_4_adjacency_2_khalimsky(graph, embedding, positive_edge_index, true,
-                                                                invalid_index);
+        array_2d<index_t> contours_khalimsky = graph_4_adjacency_2_khalimsky(graph, embedding, positive_edge_index,
+                                                                             true);
+        contours_khalimsky -= 1; // 0 becomes invalid_index
 
         auto edge_coordinates = [&embedding, &graph](index_t edge_index) {
             auto &e = edge_from_index(edge_index, graph);
-- 
2.43.0


From 73253ca583733e936fbb6482bcaa20a89fa0090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 076/102] fix: component trees and depth attribute of empty
 inputs accessed invalid memory

---
 include/higra/attribute/tree_attribute.hpp | 3 +++
 include/higra/hierarchy/component_tree.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/higra/attribute/tree_attribute.hpp b/include/higra/attribute/tree_attribute.hpp
index abf558a..c029745 100644
--- a/include/higra/attribute/tree_attribute.hpp
+++ b/include/higra/attribute/tree_attribute.hpp
@@ -96,6 +96,9 @@ namespace hg {
     template<typename tree_t>
     auto attribute_depth(const tree_t &tree) {
         array_1d<index_t> depth = xt::empty<index_t>({tree.num_vertices()});
+        if (tree.num_vertices() == 0) {
+            return depth;
+        }
         depth(tree.root()) = 0;
         for (auto i: root_to_leaves_iterator(tree, leaves_it::include, root_it::exclude)) {
             depth(i) = depth(parent(i, tree)) + 1;
diff --git a/include/higra/hierarchy/component_tree.hpp b/include/higra/hierarchy/component_tree.hpp
index f046954..5f5f268 100644
--- a/include/higra/hierarchy/component_tree.hpp
+++ b/include/higra/hierarchy/component_tree.hpp
@@ -128,6 +128,7 @@ namespace hg {
         template<typename graph_t, typename T1, typename T2>
         auto
         tree_from_sorted_vertices(const graph_t &graph, const T1 &vertex_weights, const T2 &sorted_vertex_indices) {
+            hg_assert(num_vertices(graph) > 0, "The graph must have at least one vertex.");
             auto parents = pre_tree_construction(graph, sorted_vertex_indices);
             canonize_tree(parents, vertex_weights, sorted_vertex_indices);
             auto res = expand_canonized_parent_relation(parents, vertex_weights, sorted_vertex_indices);
-- 
2.43.0


From 67758b61885989856903c393536c5d8e392e2369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 077/102] fix: huge labels overflowed the size of contingency
 tables

---
 include/higra/algo/alignment.hpp                 |  7 +++++++
 include/higra/assessment/fragmentation_curve.hpp | 10 +++++++++-
 include/higra/assessment/partition.hpp           |  3 +++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/higra/algo/alignment.hpp b/include/higra/algo/alignment.hpp
index 168834b..d8e727a 100644
--- a/include/higra/algo/alignment.hpp
+++ b/include/higra/algo/alignment.hpp
@@ -53,6 +53,10 @@ namespace hg {
         hg_assert(labelisation_fine.size() == labelisation_coarse.size(),
                   "Labelisations must have the same size.");
 
+        if (labelisation_fine.size() == 0 && (num_regions_fine == 0 || num_regions_coarse == 0)) {
+            return array_1d<index_t>(xt::zeros<index_t>({num_regions_fine}));
+        }
+
         if (num_regions_fine == 0) {
             num_regions_fine = xt::amax(labelisation_fine)(0) + 1;
         }
@@ -61,6 +65,9 @@ namespace hg {
             num_regions_coarse = xt::amax(labelisation_coarse)(0) + 1;
         }
 
+        hg_assert(num_regions_fine <= (std::numeric_limits<size_t>::max)() / sizeof(size_t) /
+                                      (std::max)(num_regions_coarse, (size_t) 1),
+                  "Number of regions is too large.");
         array_2d<size_t> intersections = xt::zeros<size_t>({num_regions_fine, num_regions_coarse});
 
         for (index_t i = 0; i < (index_t)labelisation_fine.size(); i++) {
diff --git a/include/higra/assessment/fragmentation_curve.hpp b/include/higra/assessment/fragmentation_curve.hpp
index b0c4b41..6549d56 100644
--- a/include/higra/assessment/fragmentation_curve.hpp
+++ b/include/higra/assessment/fragmentation_curve.hpp
@@ -99,6 +99,8 @@ namespace hg {
             hg_assert(xt::amin(ground_truth)() >= 0, "Labels cannot be negative.");
 
             auto num_regions_ground_truth = xt::amax(ground_truth)() + 1;
+            hg_assert(((double) xt::amax(ground_truth)() + 1) * (double) num_vertices(tree) <
+                      (double) (std::numeric_limits<index_t>::max)() / sizeof(double), "Labels are too large.");
             array_2d<index_t> card_intersection_leaves({num_leaves(tree), (size_t) num_regions_ground_truth}, 0);
             if (vertex_map.size() <= 1) { // no rag
                 hg_assert_leaf_weights(tree, ground_truth);
@@ -164,6 +166,8 @@ namespace hg {
             max_regions = (std::min)(max_regions, num_leaves(m_tree));
 
             size_t num_regions_ground_truth = xt::amax(ground_truth)() + 1;
+            hg_assert(((double) xt::amax(ground_truth)() + 1) * (double) num_vertices(m_tree) <
+                      (double) (std::numeric_limits<index_t>::max)() / sizeof(double), "Labels are too large.");
 
             array_1d<index_t> region_gt_areas({num_regions_ground_truth}, 0);
             for (auto v:ground_truth) {
@@ -215,11 +219,15 @@ namespace hg {
                 case optimal_cut_measure::DHamming:
                     scores = xt::eval(xt::amax(card_intersection, {1}));
                     break;
-                case optimal_cut_measure::DCovering:
+                case optimal_cut_measure::DCovering: {
                     auto card_union = xt::eval(-card_intersection + region_gt_areas +
                                                xt::view(region_tree_area, xt::all(), xt::newaxis()));
                     scores = xt::eval(xt::amax(card_intersection / card_union, {1}) * region_tree_area);
                     break;
+                }
+                default:
+                    throw std::runtime_error(
+                            "Optimal cut measure is not known, see enumeration OptimalCutMeasure for legal values.");
             }
 
             // initialize scoring for single region partitions (the node itself)
diff --git a/include/higra/assessment/partition.hpp b/include/higra/assessment/partition.hpp
index 8655503..a5080b9 100644
--- a/include/higra/assessment/partition.hpp
+++ b/include/higra/assessment/partition.hpp
@@ -30,6 +30,7 @@ namespace hg {
 
         hg_assert_integral_value_type(candidate);
         hg_assert_integral_value_type(ground_truths);
+        hg_assert(candidate.dimension() > 0 && ground_truths.dimension() > 0, "Partitions cannot be scalars.");
         hg_assert(candidate.size() > 0 && ground_truths.size() > 0, "Partitions cannot be empty.");
         hg_assert(xt::amin(candidate)() >= 0 && xt::amin(ground_truths)() >= 0, "Labels cannot be negative.");
 
@@ -39,6 +40,8 @@ namespace hg {
         auto compute = [&candidate, &result, num_regions_candidate](const auto &ground_truth) {
             hg_assert_same_shape(candidate, ground_truth);
             auto num_regions_ground_truth = xt::amax(ground_truth)() + 1;
+            hg_assert(((double) xt::amax(candidate)() + 1) * ((double) xt::amax(ground_truth)() + 1) <
+                      (double) (std::numeric_limits<index_t>::max)() / sizeof(value_type), "Labels are too large.");
             typename array_2d<value_type>::shape_type shape_result{(size_t) num_regions_candidate,
                                                                    (size_t) num_regions_ground_truth};
             result.emplace_back(shape_result, 0);
-- 
2.43.0


From 38bb20f9a00e7a3b03a9c9d1636c767cc9642959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 078/102] fix: missing dimension checks of markers, linkage
 altitudes and lca vertices

---
 higra/interop/py_scipy.cpp      | 2 ++
 higra/structure/py_lca_fast.cpp | 4 ++--
 include/higra/algo/tree.hpp     | 2 ++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/higra/interop/py_scipy.cpp b/higra/interop/py_scipy.cpp
index 2d49c46..2c094b8 100644
--- a/higra/interop/py_scipy.cpp
+++ b/higra/interop/py_scipy.cpp
@@ -30,6 +30,8 @@ namespace py_scipy {
         auto &area = xarea.derived_cast();
         hg_assert_node_weights(tree, altitudes);
         hg_assert_node_weights(tree, area);
+        hg_assert_1d_array(altitudes);
+        hg_assert_1d_array(area);
         tree.compute_children();
         hg::index_t n_leaves = num_leaves(tree);
         hg::array_2d<value_t> M = xt::empty<value_t>({(size_t) n_leaves - 1, (size_t) 4});
diff --git a/higra/structure/py_lca_fast.cpp b/higra/structure/py_lca_fast.cpp
index cbc27f7..a73647f 100644
--- a/higra/structure/py_lca_fast.cpp
+++ b/higra/structure/py_lca_fast.cpp
@@ -35,11 +35,11 @@ namespace py_lca_fast {
                             const pyarray<value_t> &vertices2) {
                       hg_assert(vertices1.size() == 0 || ((xt::amin)(vertices1)() >= 0 && (index_t) (xt::amax)(vertices1)() >= 0),
                                 "Vertex indices cannot be negative.");
-                      hg_assert((index_t) (xt::amax)(vertices1)() < (index_t) l.num_elements(),
+                      hg_assert(vertices1.size() == 0 || (index_t) (xt::amax)(vertices1)() < (index_t) l.num_elements(),
                                 "Vertex indices must be smaller than the number of vertices in the tree.");
                       hg_assert(vertices2.size() == 0 || ((xt::amin)(vertices2)() >= 0 && (index_t) (xt::amax)(vertices2)() >= 0),
                                 "Vertex indices cannot be negative.");
-                      hg_assert((index_t) (xt::amax)(vertices2)() < (index_t) l.num_elements(),
+                      hg_assert(vertices2.size() == 0 || (index_t) (xt::amax)(vertices2)() < (index_t) l.num_elements(),
                                 "Vertex indices must be smaller than the number of vertices in the tree.");
                       return l.lca(vertices1, vertices2);
                   },
diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index 6767f8f..99537f9 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -325,6 +325,8 @@ namespace hg {
         auto &background_marker = xbackground_marker.derived_cast();
         hg_assert_leaf_weights(tree, object_marker);
         hg_assert_leaf_weights(tree, background_marker);
+        hg_assert_1d_array(object_marker);
+        hg_assert_1d_array(background_marker);
 
         array_1d<char> attr({num_vertices(tree)}, 0);
 
-- 
2.43.0


From 0b9512ba80c3882c02724513926b974b1ec45ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 079/102] fix: fusion of single node trees read uninitialized
 memory

---
 include/higra/algo/tree_fusion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/algo/tree_fusion.hpp b/include/higra/algo/tree_fusion.hpp
index c934288..6307ff9 100644
--- a/include/higra/algo/tree_fusion.hpp
+++ b/include/higra/algo/tree_fusion.hpp
@@ -150,7 +150,7 @@ namespace hg {
             * Depth of the nodes of the GOS
             */
             array_1d<index_t> depth = xt::zeros<index_t>({nnodes});
-            for (index_t i = nnodes - 1; i >= 0; i--) {
+            for (index_t i = count - 1; i >= 0; i--) { // leaves are not reachable from the root if all trees have a single node
                 index_t n = sorted_nodes[i];
                 for (auto o: adj_lists[n]) {
                     depth(o) = (std::max)(depth(o), depth(n) + 1);
-- 
2.43.0


From b24a2e44a72fa4b1e5208111498a1ca46b8d9130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 080/102] fix: rag back projection did not validate the map

---
 higra/algo/py_rag.cpp      | 2 ++
 include/higra/algo/rag.hpp | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/higra/algo/py_rag.cpp b/higra/algo/py_rag.cpp
index 3b22438..b8127cd 100644
--- a/higra/algo/py_rag.cpp
+++ b/higra/algo/py_rag.cpp
@@ -62,6 +62,8 @@ namespace py_rag {
         void def(C &c, const char *doc) {
             c.def("_rag_back_project_weights",
                   [](const xt::pyarray<hg::index_t> &rag_map, const pyarray<value_t> &rag_weights) {
+                      hg_assert_1d_array(rag_map);
+                      hg_assert(rag_weights.dimension() > 0, "Region adjacency graph weights must be an array.");
                       return hg::rag_back_project_weights(rag_map, rag_weights);
                   },
                   doc,
diff --git a/include/higra/algo/rag.hpp b/include/higra/algo/rag.hpp
index 188c793..e3913c4 100644
--- a/include/higra/algo/rag.hpp
+++ b/include/higra/algo/rag.hpp
@@ -204,6 +204,10 @@ namespace hg {
         rag_back_project_weights(const array_1d<index_t> &rag_map, const xt::xexpression<T> &xrag_weights) {
             HG_TRACE();
             auto &rag_weights = xrag_weights.derived_cast();
+            hg_assert(rag_map.size() == 0 ||
+                      (xt::amin(rag_map)() >= invalid_index &&
+                       xt::amax(rag_map)() < (index_t) rag_weights.shape()[0]),
+                      "Region adjacency graph map does not match the weights.");
 
             index_t numv = rag_map.size();
             std::vector<size_t> shape;
-- 
2.43.0


From 66591439db16a8f92ace979636498552995e8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:17 +0000
Subject: [PATCH 081/102] fix: algorithms accessed invalid memory for graphs
 with removed edges

---
 include/higra/algo/graph_core.hpp                |  5 +++++
 include/higra/algo/graph_weights.hpp             | 16 ++++++++++------
 include/higra/algo/tree_energy_optimization.hpp  |  4 ++++
 include/higra/algo/watershed.hpp                 |  3 +++
 include/higra/graph.hpp                          |  9 ++++++++-
 .../higra/hierarchy/binary_partition_tree.hpp    |  6 ++++++
 include/higra/hierarchy/hierarchy_core.hpp       |  9 +++++++++
 include/higra/image/graph_image.hpp              |  3 +++
 8 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/include/higra/algo/graph_core.hpp b/include/higra/algo/graph_core.hpp
index eaabd35..0b8acdb 100644
--- a/include/higra/algo/graph_core.hpp
+++ b/include/higra/algo/graph_core.hpp
@@ -150,6 +150,10 @@ namespace hg {
         while (num_edge_found < num_edge_mst_max && i < (index_t) sorted_edges_indices.size()) {
             auto ei = sorted_edges_indices[i];
             auto e = edge_from_index(ei, graph);
+            if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                i++;
+                continue;
+            }
             auto c1 = uf.find(source(e, graph));
             auto c2 = uf.find(target(e, graph));
             if (c1 != c2) {
@@ -193,6 +197,7 @@ namespace hg {
         graph_t subgraph(num_vertices(graph));
         for (index_t ei: edge_indices) {
             auto e = edge_from_index(ei, graph);
+            hg_assert((index_t) source(e, graph) != invalid_index, "A removed edge cannot be part of a subgraph.");
             add_edge(source(e, graph), target(e, graph), subgraph);
         }
 
diff --git a/include/higra/algo/graph_weights.hpp b/include/higra/algo/graph_weights.hpp
index a9bdff7..68911fd 100644
--- a/include/higra/algo/graph_weights.hpp
+++ b/include/higra/algo/graph_weights.hpp
@@ -51,7 +51,11 @@ namespace hg {
 
         parfor(0, num_edges(graph), [&graph, &fun, &result](index_t i) {
             auto e = edge_from_index(i, graph);
-            result(e) = fun(source(e, graph), target(e, graph));
+            if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                result(e) = 0;
+            } else {
+                result(e) = fun(source(e, graph), target(e, graph));
+            }
         });
         return result;
     };
@@ -112,7 +116,7 @@ namespace hg {
             }
             case weight_functions::L0: {
                 if (vertex_weights.dimension() > 1) {
-                    index_t dim = vertex_weights.size() / num_v;
+                    index_t dim = (num_v == 0) ? 0 : vertex_weights.size() / num_v;
                     auto view = xt::reshape_view(vertex_weights, {num_v, (size_t)dim});
                     std::function<result_value_t(vertex_t, vertex_t)> fun = [&view, dim](
                             vertex_t i,
@@ -134,7 +138,7 @@ namespace hg {
             }
             case weight_functions::L1: {
                 if (vertex_weights.dimension() > 1) {
-                    index_t dim = vertex_weights.size() / num_v;
+                    index_t dim = (num_v == 0) ? 0 : vertex_weights.size() / num_v;
                     auto view = xt::reshape_view(vertex_weights, {num_v, (size_t)dim});
                     std::function<result_value_t(vertex_t, vertex_t)> fun = [&view, dim](
                             vertex_t i,
@@ -157,7 +161,7 @@ namespace hg {
             }
             case weight_functions::L2: {
                 if (vertex_weights.dimension() > 1) {
-                    index_t dim = vertex_weights.size() / num_v;
+                    index_t dim = (num_v == 0) ? 0 : vertex_weights.size() / num_v;
                     auto view = xt::reshape_view(vertex_weights, {num_v, (size_t)dim});
                     std::function<result_value_t(vertex_t, vertex_t)> fun = [&view, dim](
                             vertex_t i,
@@ -183,7 +187,7 @@ namespace hg {
             }
             case weight_functions::L_infinity: {
                 if (vertex_weights.dimension() > 1) {
-                    index_t dim = vertex_weights.size() / num_v;
+                    index_t dim = (num_v == 0) ? 0 : vertex_weights.size() / num_v;
                     auto view = xt::reshape_view(vertex_weights, {num_v, (size_t)dim});
                     std::function<result_value_t(vertex_t, vertex_t)> fun = [&view, dim](
                             vertex_t i,
@@ -207,7 +211,7 @@ namespace hg {
             }
             case weight_functions::L2_squared: {
                 if (vertex_weights.dimension() > 1) {
-                    index_t dim = vertex_weights.size() / num_v;
+                    index_t dim = (num_v == 0) ? 0 : vertex_weights.size() / num_v;
                     auto view = xt::reshape_view(vertex_weights, {num_v, (size_t)dim});
                     std::function<result_value_t(vertex_t, vertex_t)> fun = [&view, dim](
                             vertex_t i,
diff --git a/include/higra/algo/tree_energy_optimization.hpp b/include/higra/algo/tree_energy_optimization.hpp
index c006228..5c99120 100644
--- a/include/higra/algo/tree_energy_optimization.hpp
+++ b/include/higra/algo/tree_energy_optimization.hpp
@@ -443,6 +443,10 @@ namespace hg {
                 for (auto e: edge_iterator(m_graph)) {
                     auto s = source(e, m_graph);
                     auto t = target(e, m_graph);
+                    if ((index_t) s == invalid_index) { // removed edge
+                        edge_weights(e) = 0;
+                        continue;
+                    }
                     edge_weights(e) = computation_helper<vectorial>::apparition_scale(
                             m_optimal_energies, m_area, m_perimeter, m_sum, m_sum2,
                             s, t, m_edge_length(e));
diff --git a/include/higra/algo/watershed.hpp b/include/higra/algo/watershed.hpp
index 78650a2..175359a 100644
--- a/include/higra/algo/watershed.hpp
+++ b/include/higra/algo/watershed.hpp
@@ -150,6 +150,9 @@ namespace hg {
         for (index_t i = 0; i < num_edges; i++) {
             auto ei = sorted_edges_indices[i];
             auto e = edge_from_index(ei, graph);
+            if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                continue;
+            }
             auto c1 = uf.find(source(e, graph));
             auto c2 = uf.find(target(e, graph));
 
diff --git a/include/higra/graph.hpp b/include/higra/graph.hpp
index af5cc81..b9a8437 100644
--- a/include/higra/graph.hpp
+++ b/include/higra/graph.hpp
@@ -377,7 +377,11 @@ namespace hg {
         output_graph_type g(num_vertices(graph), gse.estimate_edge_number(graph), gse.estimate_number_of_edge_per_vertex(graph));
         auto edge_it = edges(graph);
         for (auto eb = edge_it.first; eb != edge_it.second; eb++) {
-            g.add_edge(source(*eb, graph), target(*eb, graph));
+            if ((index_t) source(*eb, graph) == invalid_index) { // removed edge: preserve edge indices
+                g.remove_edge(index(g.add_edge(0, 0), g));
+            } else {
+                g.add_edge(source(*eb, graph), target(*eb, graph));
+            }
         }
         return g;
     };
@@ -431,6 +435,9 @@ namespace hg {
         a.fill(non_edge_value);
 
         for (const auto &e: edge_iterator(graph)) {
+            if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                continue;
+            }
             a(source(e, graph), target(e, graph)) = a(target(e, graph), source(e, graph)) = edge_weights(
                     index(e, graph));
         }
diff --git a/include/higra/hierarchy/binary_partition_tree.hpp b/include/higra/hierarchy/binary_partition_tree.hpp
index a0ade74..992d977 100644
--- a/include/higra/hierarchy/binary_partition_tree.hpp
+++ b/include/higra/hierarchy/binary_partition_tree.hpp
@@ -384,6 +384,10 @@ namespace hg {
             auto get_weights(const graph_t &graph) {
                 array_1d<double> weights = xt::empty<double>({num_edges(graph)});
                 for (auto e: edge_iterator(graph)) {
+                    if ((index_t) source(e, graph) == invalid_index) { // removed edge
+                        weights(e) = 0;
+                        continue;
+                    }
                     weights(e) = cluster_distance(source(e, graph), target(e, graph));
                 }
                 return weights;
@@ -571,6 +575,8 @@ namespace hg {
                         }
                         if (n != other_region) { // may happen with multiple edges
                             if (new_neighbour_indices[n] != invalid_index) {
+                                hg_assert(new_neighbours[new_neighbour_indices[n]].num_edges() == 1,
+                                          "More than two parallel edges between two regions are not supported.");
                                 new_neighbours[new_neighbour_indices[n]].second_edge_index() = e;
                             } else {
                                 new_neighbour_indices[n] = new_neighbours.size();
diff --git a/include/higra/hierarchy/hierarchy_core.hpp b/include/higra/hierarchy/hierarchy_core.hpp
index 1929469..22da0f2 100644
--- a/include/higra/hierarchy/hierarchy_core.hpp
+++ b/include/higra/hierarchy/hierarchy_core.hpp
@@ -83,6 +83,10 @@ namespace hg {
 
             while (num_edge_found < num_edge_mst && i < (index_t) sorted_edge_indices.size()) {
                 auto ei = sorted_edge_indices[i];
+                if ((index_t) sources(ei) == invalid_index) { // removed edge
+                    i++;
+                    continue;
+                }
                 auto c1 = uf.find(sources(ei));
                 auto c2 = uf.find(targets(ei));
                 if (c1 != c2) {
@@ -373,6 +377,11 @@ namespace hg {
         auto &altitudes = xaltitudes.derived_cast();
         lca_fast lca(tree);
         auto lca_edges = lca.lca(edge_iterator(graph));
+        for (auto &n: lca_edges) {
+            if (n == invalid_index) { // removed edge
+                n = root(tree);
+            }
+        }
         return xt::eval(xt::index_view(altitudes, lca_edges));
     }
 
diff --git a/include/higra/image/graph_image.hpp b/include/higra/image/graph_image.hpp
index 0dcd408..cc2b1d3 100644
--- a/include/higra/image/graph_image.hpp
+++ b/include/higra/image/graph_image.hpp
@@ -193,6 +193,9 @@ namespace hg {
 
         point_2d_i one{{1, 1}};
         for (const auto &e: edge_iterator(g)) {
+            if ((index_t) source(e, g) == invalid_index) { // removed edge
+                continue;
+            }
             auto s = embedding.lin2grid(source(e, g));
             auto t = embedding.lin2grid(target(e, g));
             if (extra_border) {
-- 
2.43.0


From 60146a42ea8fda2cc706a994e6ef2ec05263fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:56 +0000
Subject: [PATCH 082/102] fix: Mumford-Shah binary partition tree of
 disconnected graphs accessed invalid memory

---
 include/higra/algo/tree_energy_optimization.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/higra/algo/tree_energy_optimization.hpp b/include/higra/algo/tree_energy_optimization.hpp
index 5c99120..7a9ad42 100644
--- a/include/higra/algo/tree_energy_optimization.hpp
+++ b/include/higra/algo/tree_energy_optimization.hpp
@@ -470,8 +470,10 @@ namespace hg {
                 computation_helper<vectorial>::add(m_sum2, new_region, merged_region1, merged_region2);
 
                 // compute energy of new region
-                m_optimal_energies.push_back(
-                        m_optimal_energies[merged_region1].sum(m_optimal_energies[merged_region2]));
+                // this function is not called for regions without neighbours
+                m_optimal_energies.resize(new_region + 1);
+                m_optimal_energies[new_region] =
+                        m_optimal_energies[merged_region1].sum(m_optimal_energies[merged_region2]);
                 m_optimal_energies[new_region].infimum(
                         {0,
                          computation_helper<vectorial>::data_fidelity(m_sum, m_sum2, m_area, new_region),
-- 
2.43.0


From f5fd0a5ff62eb243eae8ca23ec6582bcc6012f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:56 +0000
Subject: [PATCH 083/102] fix: range minimum query overflow with huge block
 sizes

---
 include/higra/structure/details/range_minimum_query.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/higra/structure/details/range_minimum_query.hpp b/include/higra/structure/details/range_minimum_query.hpp
index 2ae9ded..acebbee 100644
--- a/include/higra/structure/details/range_minimum_query.hpp
+++ b/include/higra/structure/details/range_minimum_query.hpp
@@ -212,6 +212,9 @@ namespace hg {
             rmq_sparse_table_block(const T &values, size_t block_size = 1024) : m_data(values.data()),
                                                                                m_block_size(block_size) {
                 hg_assert(block_size > 0, "Block size must be strictly positive");
+                if (block_size > values.size()) { // a single block
+                    m_block_size = (std::max)((index_t) values.size(), (index_t) 1);
+                }
                 m_data_size = values.size();
                 m_num_blocks = (m_data_size + m_block_size - 1) / m_block_size;
                 m_block_minimum_prefix.resize({(size_t) (m_num_blocks * m_block_size)});
-- 
2.43.0


From 2f17df99d152a23c538872de4091150b84f6a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:56 +0000
Subject: [PATCH 084/102] fix: rag contour lengths did not validate the rag
 maps

---
 include/higra/image/contour_2d.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/higra/image/contour_2d.hpp b/include/higra/image/contour_2d.hpp
index 30d5900..a124d78 100644
--- a/include/higra/image/contour_2d.hpp
+++ b/include/higra/image/contour_2d.hpp
@@ -639,6 +639,11 @@ namespace hg {
         hg_assert_1d_array(vertex_map);
         hg_assert_integral_value_type(vertex_map);
 
+        for (auto v: vertex_map) {
+            hg_assert(v >= 0 && v < (index_t) num_vertices(rag_graph),
+                      "Vertex map does not match the region adjacency graph.");
+        }
+
         auto cut = weight_graph(graph, vertex_map, weight_functions::L0);
         auto contour2d = fit_contour_2d(graph, embedding, cut);
 
@@ -652,6 +657,8 @@ namespace hg {
             for (auto &segment: polyline) {
                 auto segment_length = segment.norm() + 1;
                 auto rag_edge_index = edge_map(segment.first().first);
+                hg_assert(rag_edge_index >= 0 && rag_edge_index < (index_t) num_edges(rag_graph),
+                          "Edge map does not match the region adjacency graph.");
                 auto rag_edge = edge_from_index(rag_edge_index, rag_graph);
                 edge_length(rag_edge_index) += segment_length;
                 vertex_perimeter(source(rag_edge, rag_graph)) += segment_length;
-- 
2.43.0


From efec748f1032c04d36e8fe599c2c68b8da78e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:56 +0000
Subject: [PATCH 085/102] fix: altitudes with several dimensions were accepted
 by supervertices and horizontal cuts

---
 include/higra/algo/horizontal_cuts.hpp           | 1 +
 include/higra/algo/tree.hpp                      | 2 ++
 include/higra/assessment/fragmentation_curve.hpp | 1 +
 3 files changed, 4 insertions(+)

diff --git a/include/higra/algo/horizontal_cuts.hpp b/include/higra/algo/horizontal_cuts.hpp
index d5c8449..a7e0620 100644
--- a/include/higra/algo/horizontal_cuts.hpp
+++ b/include/higra/algo/horizontal_cuts.hpp
@@ -74,6 +74,7 @@ namespace hg {
                 m_original_tree(tree) {
             auto &altitudes = xaltitudes.derived_cast();
             hg_assert_node_weights(tree, altitudes);
+            hg_assert_1d_array(altitudes);
 
             hg_assert(xt::count_nonzero(xt::view(altitudes, xt::range(0, num_leaves(tree))))() == 0,
                       "The altitude of the leaf nodes must be equal to 0.");
diff --git a/include/higra/algo/tree.hpp b/include/higra/algo/tree.hpp
index 99537f9..df38a9a 100644
--- a/include/higra/algo/tree.hpp
+++ b/include/higra/algo/tree.hpp
@@ -119,6 +119,7 @@ namespace hg {
         HG_TRACE();
         auto &altitudes = xaltitudes.derived_cast();
         hg_assert_node_weights(tree, altitudes);
+        hg_assert_1d_array(altitudes);
 
         auto labels = labelisation_horizontal_cut_from_threshold(tree, altitudes, 0);
         // remap labels to 0...num_labels - 1
@@ -173,6 +174,7 @@ namespace hg {
         HG_TRACE();
         auto &altitudes = xaltitudes.derived_cast();
         hg_assert_node_weights(tree, altitudes);
+        hg_assert_1d_array(altitudes);
 
         // new index of each node (deleted node contains the index of the node they are merged into)
         array_1d<index_t> new_order({num_vertices(tree)}, invalid_index);
diff --git a/include/higra/assessment/fragmentation_curve.hpp b/include/higra/assessment/fragmentation_curve.hpp
index 6549d56..5053666 100644
--- a/include/higra/assessment/fragmentation_curve.hpp
+++ b/include/higra/assessment/fragmentation_curve.hpp
@@ -418,6 +418,7 @@ namespace hg {
         auto &ground_truth = xground_truth.derived_cast();
 
         hg_assert_node_weights(tree, altitudes);
+        hg_assert_1d_array(altitudes);
         hg_assert_integral_value_type(ground_truth);
         hg_assert_1d_array(ground_truth);
         hg_assert(max_regions > 0, "max_regions must be strictly positive.");
-- 
2.43.0


From d18dba6ee44e136d1517903b72ba98379c46594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:49 +0000
Subject: [PATCH 086/102] fix: graphs of points lose pairs at distance zero and
 wrap integer coordinates

---
 higra/algo/graph_core.py | 66 ++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/higra/algo/graph_core.py b/higra/algo/graph_core.py
index 66b6a60..ad10785 100644
--- a/higra/algo/graph_core.py
+++ b/higra/algo/graph_core.py
@@ -229,9 +229,9 @@ def make_graph_from_points(X, graph_type="knn+mst", symmetrization="max", **kwar
     :return: a graph and its edge weights
     """
     try:
-        from scipy.spatial.distance import pdist, squareform, euclidean
+        from scipy.sparse import csr_matrix
+        from scipy.spatial.distance import pdist, euclidean
         from sklearn.neighbors import kneighbors_graph
-        from scipy.sparse.csgraph import minimum_spanning_tree
         from scipy.spatial import Delaunay
     except:
         raise RuntimeError("scipy and sklearn required.")
@@ -239,6 +239,11 @@ def make_graph_from_points(X, graph_type="knn+mst", symmetrization="max", **kwar
     n_neighbors = kwargs.get('n_neighbors', 5)
     mode = kwargs.get('mode', 'distance')
 
+    X = np.asarray(X)
+    if X.dtype.kind in "bui":
+        # coordinate differences must not wrap
+        X = X.astype(np.float64)
+
     def symmetrization_fun(A):
         if symmetrization == "min":
             return A.minimum(A.T)
@@ -247,22 +252,44 @@ def make_graph_from_points(X, graph_type="knn+mst", symmetrization="max", **kwar
         else:
             raise ValueError("Unknown symmetrization: " + str(symmetrization))
 
+    def complete_graph():
+        num_points = X.shape[0]
+        g = hg.UndirectedGraph(num_points)
+        g.add_edges(*np.triu_indices(num_points, 1))
+        return g, pdist(X)
+
+    def mst_edges():
+        # edges of null length (duplicated points) are true edges
+        g, w = complete_graph()
+        mst = hg.minimum_spanning_tree(g, w)
+        sources, targets = mst.edge_list()
+        return np.array(sources), np.array(targets), w[hg.CptMinimumSpanningTree.get_edge_map(mst)]
+
+    def knn_adjacency():
+        # the structure (1 for each edge) is separated from the weights as edges of null length are true edges
+        A = kneighbors_graph(X, n_neighbors=n_neighbors, mode=mode)
+        S = A.copy()
+        S.data = np.ones_like(S.data)
+        return symmetrization_fun(S), A.maximum(A.T)
+
+    def graph_from_structure(S, W):
+        g, _ = hg.adjacency_matrix_2_undirected_graph(S)
+        sources, targets = np.array(g.edge_list())
+        return g, np.asarray(W[sources, targets], dtype=np.float64).ravel()
+
     if graph_type == "complete":
-        d = pdist(X)
-        A = squareform(d)
-        g, edge_weights = hg.adjacency_matrix_2_undirected_graph(A)
+        g, edge_weights = complete_graph()
     elif graph_type == "knn":
-        A = kneighbors_graph(X, n_neighbors=n_neighbors, mode=mode)
-        A = symmetrization_fun(A)
-        g, edge_weights = hg.adjacency_matrix_2_undirected_graph(A)
+        g, edge_weights = graph_from_structure(*knn_adjacency())
     elif graph_type == "knn+mst":
-        A = kneighbors_graph(X, n_neighbors=n_neighbors, mode=mode)
-        A = symmetrization_fun(A)
-        D = squareform(pdist(X))
-        MST = minimum_spanning_tree(D)
-        MST = MST + MST.T
-        A = A.maximum(MST)
-        g, edge_weights = hg.adjacency_matrix_2_undirected_graph(A)
+        S, W = knn_adjacency()
+        sources, targets, mst_weights = mst_edges()
+        shape = (X.shape[0], X.shape[0])
+        M = csr_matrix((np.ones_like(mst_weights), (sources, targets)), shape=shape)
+        S = S.maximum(M).maximum(M.T)
+        M = csr_matrix((mst_weights, (sources, targets)), shape=shape)
+        W = W.maximum(M).maximum(M.T)
+        g, edge_weights = graph_from_structure(S, W)
     elif graph_type == "delaunay":
         g = hg.UndirectedGraph(X.shape[0])
         edge_weights = []
@@ -284,10 +311,11 @@ def make_graph_from_points(X, graph_type="knn+mst", symmetrization="max", **kwar
 
         edge_weights = np.asarray(edge_weights, dtype=np.float64)
     elif graph_type == "mst":
-        D = squareform(pdist(X))
-        MST = minimum_spanning_tree(D).toarray()
-        MST = MST + MST.T
-        g, edge_weights = hg.adjacency_matrix_2_undirected_graph(MST)
+        sources, targets, mst_weights = mst_edges()
+        order = np.lexsort((np.maximum(sources, targets), np.minimum(sources, targets)))
+        g = hg.UndirectedGraph(X.shape[0])
+        g.add_edges(np.minimum(sources, targets)[order], np.maximum(sources, targets)[order])
+        edge_weights = mst_weights[order]
     else:
         raise ValueError("Unknown graph_type: " + str(graph_type))
 
-- 
2.43.0


From c2bd3b4ad0a24712e760f40d9c23767279d5726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:40 +0000
Subject: [PATCH 087/102] fix: triangular filter uses a kernel that is neither
 symmetric nor normalised

---
 higra/image/image_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/image/image_utils.py b/higra/image/image_utils.py
index 94fe38d..7394531 100644
--- a/higra/image/image_utils.py
+++ b/higra/image/image_utils.py
@@ -25,7 +25,7 @@ def triangular_filter(image, size):
     :param size: a positive integer
     :return: a 2d array with the same shape as image
     """
-    kernel = np.asarray(list(range(size + 1)) + list(range(size, 0, -1)))
+    kernel = np.asarray(list(range(1, size + 2)) + list(range(size, 0, -1))) / (size + 1) ** 2
     im2 = np.pad(image, size, 'symmetric')
     im2 = np.apply_along_axis(lambda m: np.convolve(m, kernel, mode='valid'), axis=0, arr=im2)
     im2 = np.apply_along_axis(lambda m: np.convolve(m, kernel, mode='valid'), axis=1, arr=im2)
-- 
2.43.0


From 25a2463af219e55176684c36f05ddfc5407d814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:31 +0000
Subject: [PATCH 088/102] fix: tree of shapes of integer images with large
 values failed or had a wrong root altitude

---
 include/higra/image/tree_of_shapes.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/higra/image/tree_of_shapes.hpp b/include/higra/image/tree_of_shapes.hpp
index b596de5..2050873 100644
--- a/include/higra/image/tree_of_shapes.hpp
+++ b/include/higra/image/tree_of_shapes.hpp
@@ -329,7 +329,12 @@ namespace hg {
             array_1d<value_type> enqueued_level = array_1d<value_type>::from_shape({num_v});
 
             std::multimap<value_type, index_t> queue{};
-            auto find_closest_non_empty_level = [&queue](const auto position) {
+            // difference between 2 levels, the difference of large integers does not fit in value_type
+            using difference_t = std::conditional_t<std::is_integral<value_type>::value, uint64_t, value_type>;
+            auto distance = [](value_type high, value_type low) {
+                return static_cast<difference_t>(static_cast<difference_t>(high) - static_cast<difference_t>(low));
+            };
+            auto find_closest_non_empty_level = [&queue, &distance](const auto position) {
                 auto next = std::next(position);
                 if (position == queue.begin()) {
                     return next;
@@ -338,15 +343,20 @@ namespace hg {
                 if (next == queue.end()) {
                     return prev;
                 }
-                if (next->first - position->first < position->first - prev->first) {
+                if (distance(next->first, position->first) < distance(position->first, prev->first)) {
                     return next;
                 } else {
                     return prev;
                 }
             };
 
-            value_type current_level = (value_type) (plain_map(exterior_vertex, 0) / 2.0 +
-                                                     plain_map(exterior_vertex, 1) / 2.0);
+            // mean of the range of the exterior vertex, large integers are not exactly represented by a double
+            value_type exterior_low = plain_map(exterior_vertex, 0);
+            value_type exterior_high = plain_map(exterior_vertex, 1);
+            double exterior_mean = exterior_low / 2.0 + exterior_high / 2.0;
+            value_type current_level = (exterior_mean <= static_cast<double>(exterior_low)) ? exterior_low :
+                                       (exterior_mean >= static_cast<double>(exterior_high)) ? exterior_high :
+                                       static_cast<value_type>(exterior_mean);
 
             auto position = queue.insert({current_level, exterior_vertex});
             dejavu(exterior_vertex) = true;
-- 
2.43.0


From 2c56886ce3ffbee9b0fa73de5f4cc2355172489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:18 +0000
Subject: [PATCH 089/102] fix: extinction values ignored the deepest child when
 altitudes are the extreme value of their type

---
 include/higra/attribute/tree_attribute.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/higra/attribute/tree_attribute.hpp b/include/higra/attribute/tree_attribute.hpp
index c029745..fcc5093 100644
--- a/include/higra/attribute/tree_attribute.hpp
+++ b/include/higra/attribute/tree_attribute.hpp
@@ -272,7 +272,7 @@ namespace hg {
                 for (auto c: children_iterator(n, tree)) {
                     if (!is_leaf(c, tree)) {
                         flag = false;
-                        if (min_depth(c) < min_depth(n)) {
+                        if (ref_son(n) == invalid_index || min_depth(c) < min_depth(n)) {
                             min_depth(n) = min_depth(c);
                             ref_son(n) = c;
                         }
@@ -290,7 +290,7 @@ namespace hg {
                 for (auto c: children_iterator(n, tree)) {
                     if (!is_leaf(c, tree)) {
                         flag = false;
-                        if (max_depth(c) > max_depth(n)) {
+                        if (ref_son(n) == invalid_index || max_depth(c) > max_depth(n)) {
                             max_depth(n) = max_depth(c);
                             ref_son(n) = c;
                         }
-- 
2.43.0


From 517bcee0a95e81a802ce43e01da4ab96beb62958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 090/102] fix: constant scalar axis views had no end

---
 include/higra/structure/details/light_axis_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/higra/structure/details/light_axis_view.hpp b/include/higra/structure/details/light_axis_view.hpp
index cd05020..d27bc72 100644
--- a/include/higra/structure/details/light_axis_view.hpp
+++ b/include/higra/structure/details/light_axis_view.hpp
@@ -92,7 +92,7 @@ namespace hg {
 
             template<typename T1=self_type>
             auto end(typename std::enable_if_t<!T1::is_vectorial> * = 0) const {
-                return m_data.storage_begin() + (m_position + 1);
+                return m_data.begin() + (m_position + 1);
             }
 
             template<bool vectorial2, typename T2>
-- 
2.43.0


From 2b57b47d9d320649f13b7cbd6dd7178631c1448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 091/102] fix: ranges lost their last value when the step does
 not divide their length

---
 include/higra/structure/details/iterators.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/higra/structure/details/iterators.hpp b/include/higra/structure/details/iterators.hpp
index 937ac33..bc7f1b1 100644
--- a/include/higra/structure/details/iterators.hpp
+++ b/include/higra/structure/details/iterators.hpp
@@ -274,7 +274,8 @@ namespace hg {
                 m_start(start),
                 m_step(step) {
             // the range is empty if stop is before start in the direction of step
-            auto num_steps = ((stop - m_start) / m_step > 0) ? std::abs(m_start - stop) / std::abs(m_step) : 0;
+            auto num_steps = ((stop - m_start > 0) == (m_step > 0)) ?
+                             (std::abs(stop - m_start) + std::abs(m_step) - 1) / std::abs(m_step) : 0;
             m_stop = m_start + num_steps * m_step;
         }
 
-- 
2.43.0


From e0473f00d5d65818a5267c3341b3144a6458f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 092/102] fix: move assignment of heaps returned nothing and
 leaked the elements of its target

---
 include/higra/structure/fibonacci_heap.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/higra/structure/fibonacci_heap.hpp b/include/higra/structure/fibonacci_heap.hpp
index 03ae41b..c8d7625 100644
--- a/include/higra/structure/fibonacci_heap.hpp
+++ b/include/higra/structure/fibonacci_heap.hpp
@@ -165,11 +165,15 @@ namespace hg {
                 other.m_size = 0;
             }
 
-            fibonacci_heap &operator=(fibonacci_heap &&other) {
-                m_heap = other.m_heap;
-                m_size = other.m_size;
-                other.m_heap = nullptr;
-                other.m_size = 0;
+            fibonacci_heap &operator=(fibonacci_heap &&other) noexcept {
+                if (this != &other) {
+                    clear();
+                    m_heap = other.m_heap;
+                    m_size = other.m_size;
+                    other.m_heap = nullptr;
+                    other.m_size = 0;
+                }
+                return *this;
             }
 
             /**
-- 
2.43.0


From 33eed6eba9b8bf272c3bf1cf264b96a72b52f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 093/102] fix: heaps assigned values to raw memory and never
 destroyed them

---
 include/higra/structure/fibonacci_heap.hpp | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/higra/structure/fibonacci_heap.hpp b/include/higra/structure/fibonacci_heap.hpp
index c8d7625..893f1f8 100644
--- a/include/higra/structure/fibonacci_heap.hpp
+++ b/include/higra/structure/fibonacci_heap.hpp
@@ -13,6 +13,7 @@
 #include <vector>
 #include <stack>
 #include <array>
+#include <new>
 #include "../utils.hpp"
 #include <cstring>
 
@@ -98,8 +99,13 @@ namespace hg {
 
             node() {}
 
-            void init(T value) {
-                m_value = value;
+            // the memory provided by the pool is raw: the value must be constructed
+            void init(const T &value) {
+                ::new((void *) &m_value) T(value);
+                init_links();
+            }
+
+            void init_links() {
                 m_previous = this;
                 m_next = this;
                 m_child = nullptr;
@@ -232,7 +238,7 @@ namespace hg {
             void pop() {
                 auto old_heap = m_heap;
                 m_extract_min();
-                s_pool().free(old_heap);
+                m_free(old_heap);
             }
 
             /**
@@ -244,7 +250,7 @@ namespace hg {
              */
             void erase(value_handle node) {
                 m_delete_key(node);
-                s_pool().free(node);
+                m_free(node);
             }
 
 
@@ -336,7 +342,7 @@ namespace hg {
                             s.push(tmp);
                         }
                     }
-                    s_pool().free(n);
+                    m_free(n);
                 }
                 m_heap = nullptr;
                 m_size = 0;
@@ -347,6 +353,11 @@ namespace hg {
             }
 
         private:
+            static void m_free(node_t *node) {
+                node->m_value.~T();
+                s_pool().free(node);
+            }
+
             auto m_merge(node_t *root1, node_t *root2) {
                 if (root1 == nullptr)
                     return root2;
@@ -539,7 +550,7 @@ namespace hg {
             void m_increase_key(node_t *node) {
                 m_delete_key(node);
                 m_size++;
-                node->init(node->m_value);
+                node->init_links();
                 m_heap = m_merge(m_heap, node);
             }
 
-- 
2.43.0


From a2e3d3c92c2d1681522bbe552ec54f5dcc592681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 094/102] fix: copies of lowest common ancestor tables pointed
 to the data of the original

---
 include/higra/structure/lca_fast.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/higra/structure/lca_fast.hpp b/include/higra/structure/lca_fast.hpp
index df00f6a..5c9d010 100644
--- a/include/higra/structure/lca_fast.hpp
+++ b/include/higra/structure/lca_fast.hpp
@@ -50,6 +50,22 @@ namespace hg {
                 m_rmq_solver = rmq_t(m_tree_Euler_tour_depth, std::forward<Args>(args)...);
             }
 
+            // the range minimum query solver points to the data of its owner
+            lca_rmq(const lca_rmq &other) {
+                set_state(other.get_state());
+            }
+
+            lca_rmq(lca_rmq &&) = default;
+
+            lca_rmq &operator=(const lca_rmq &other) {
+                if (this != &other) {
+                    set_state(other.get_state());
+                }
+                return *this;
+            }
+
+            lca_rmq &operator=(lca_rmq &&) = default;
+
             /**
              * Return the lowest common ancestor of two nodes
              * @param n1
-- 
2.43.0


From cb2e1d37507e17dcb933717f5958bddad275e237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 095/102] fix: raw pnm images whose first value is the code of
 the character # were misread

---
 include/higra/io/pnm_io.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/higra/io/pnm_io.hpp b/include/higra/io/pnm_io.hpp
index fe651c6..7fcac82 100644
--- a/include/higra/io/pnm_io.hpp
+++ b/include/higra/io/pnm_io.hpp
@@ -143,8 +143,18 @@ namespace hg {
                     r(i) = std::stoi(tmp);
                 }
             } else {
-                //consume remaining comments
-                while(in.peek() == '#'){
+                //consume remaining comments, a '#' may also be the first value of the image:
+                //there is a comment only if there is more than the data of the image left
+                auto has_comment = [&in, num_values]() {
+                    auto pos = in.tellg();
+                    if (pos == std::istream::pos_type(-1) || in.peek() != '#')
+                        return false;
+                    in.seekg(0, std::ios::end);
+                    auto remaining = in.tellg() - pos;
+                    in.seekg(pos);
+                    return remaining > num_values;
+                };
+                while (has_comment()) {
                     std::string tmp;
                     std::getline(in, tmp);
                 }
-- 
2.43.0


From 410b3e7474aead0d5d68037deaddd1d2cb2a9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:14 +0000
Subject: [PATCH 096/102] fix: truncated raw pnm images were completed with
 uninitialised values

---
 include/higra/io/pnm_io.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/higra/io/pnm_io.hpp b/include/higra/io/pnm_io.hpp
index 7fcac82..188b4ad 100644
--- a/include/higra/io/pnm_io.hpp
+++ b/include/higra/io/pnm_io.hpp
@@ -162,6 +162,7 @@ namespace hg {
                     hg_assert(false, "Binary raw data not supported.");
                 } else {
                     in.read((char*)result.data(), num_values);
+                    hg_assert(in.gcount() == num_values, "End of data reached too soon.");
                 }
             }
             return result;
-- 
2.43.0


From 29c42679ff2051bfbcc61bf35340f243a35c1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:50 +0000
Subject: [PATCH 097/102] fix: the common type of arrays lost values (large
 integers with float32) and depended on their order

---
 higra/hg_utils.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/higra/hg_utils.py b/higra/hg_utils.py
index 071d031..cbd0293 100644
--- a/higra/hg_utils.py
+++ b/higra/hg_utils.py
@@ -324,13 +324,13 @@ __minimum_type_order = {
     __bool: {
         __bool: __bool,
         __int8: __int8,
-        __uint8: __int16,
+        __uint8: __uint8,
         __int16: __int16,
-        __uint16: __int32,
+        __uint16: __uint16,
         __int32: __int32,
-        __uint32: __int64,
+        __uint32: __uint32,
         __int64: __int64,
-        __uint64: __int64,
+        __uint64: __uint64,
         __float32: __float32,
         __float64: __float64
     },
@@ -396,7 +396,7 @@ __minimum_type_order = {
         __uint32: __int64,
         __int64: __int64,
         __uint64: __int64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __uint32: {
@@ -409,7 +409,7 @@ __minimum_type_order = {
         __uint32: __uint32,
         __int64: __int64,
         __uint64: __uint64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __int64: {
@@ -422,7 +422,7 @@ __minimum_type_order = {
         __uint32: __int64,
         __int64: __int64,
         __uint64: __int64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __uint64: {
@@ -435,7 +435,7 @@ __minimum_type_order = {
         __uint32: __uint64,
         __int64: __int64,
         __uint64: __uint64,
-        __float32: __float32,
+        __float32: __float64,
         __float64: __float64
     },
     __float32: {
@@ -444,10 +444,10 @@ __minimum_type_order = {
         __uint8: __float32,
         __int16: __float32,
         __uint16: __float32,
-        __int32: __float32,
-        __uint32: __float32,
-        __int64: __float32,
-        __uint64: __float32,
+        __int32: __float64,
+        __uint32: __float64,
+        __int64: __float64,
+        __uint64: __float64,
         __float32: __float32,
         __float64: __float64
     },
@@ -496,9 +496,11 @@ def common_type(*arrays, safety_level='minimum'):
     if safety_level != 'minimum':
         raise ValueError('Unknown safety level: should be "minimum" or "overflow"')
 
-    ctype = str(arrays[0].dtype)
-    for i in range(1, len(arrays)):
-        ctype = __minimum_type_order[ctype][str(arrays[i].dtype)]
+    # floating point types first: (u)int16 arrays fit in float32 but their common integral type may not
+    types = sorted((str(a.dtype) for a in arrays), key=lambda s: not s.startswith("float"))
+    ctype = types[0]
+    for i in range(1, len(types)):
+        ctype = __minimum_type_order[ctype][types[i]]
 
     return np.dtype(ctype)
 
-- 
2.43.0


From 30d2c74667dd019a07dc9723c0f75ad50474d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:50 +0000
Subject: [PATCH 098/102] fix: print_partition_tree failed on trees whose inner
 nodes have the same altitude

---
 higra/io_utils/tree_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/higra/io_utils/tree_io.py b/higra/io_utils/tree_io.py
index b2e87c1..9f5f697 100644
--- a/higra/io_utils/tree_io.py
+++ b/higra/io_utils/tree_io.py
@@ -77,7 +77,11 @@ def print_partition_tree(tree, *,
         normalized_altitudes = altitudes = hg.attribute_regular_altitudes(tree)
     else:
         min_a = np.min(altitudes[tree.num_leaves():])
-        normalized_altitudes = (altitudes - min_a) / (np.max(altitudes) - min_a)
+        range_a = float(np.max(altitudes)) - float(min_a)
+        if range_a != 0:
+            normalized_altitudes = (altitudes.astype(np.float64) - min_a) / range_a
+        else:  # all the inner nodes have the same altitude
+            normalized_altitudes = np.ones(altitudes.shape)
         normalized_altitudes[:tree.num_leaves()] = 0
 
     if scale == "log":
-- 
2.43.0


From 011c67c9f285949fa9bfc5a2886fd3ce80997e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:44 +0000
Subject: [PATCH 099/102] fix: plot_partition_tree failed on trees with two
 leaves and coloured the wrong number of clusters below two

---
 higra/plot/plot_tree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/higra/plot/plot_tree.py b/higra/plot/plot_tree.py
index a982c15..d5699c4 100644
--- a/higra/plot/plot_tree.py
+++ b/higra/plot/plot_tree.py
@@ -52,6 +52,12 @@ def plot_partition_tree(tree, *, altitudes=None, n_clusters=0, lastp=30):
     extra = {} if lastp is None else dict(truncate_mode='lastp', p=lastp)
     set_link_color_palette(list(COLORS))
     dsort = np.sort(linkage_matrix[:, 2])
-    dendrogram(linkage_matrix, no_labels=True, above_threshold_color="k", color_threshold=dsort[-n_clusters + 1],
+    if n_clusters <= 0 or n_clusters > dsort.size:  # only trivial clusters
+        color_threshold = -np.inf
+    elif n_clusters == 1:  # the whole dendrogram
+        color_threshold = np.inf
+    else:
+        color_threshold = dsort[-n_clusters + 1]
+    dendrogram(linkage_matrix, no_labels=True, above_threshold_color="k", color_threshold=color_threshold,
                **extra)
     plt.yticks([])
-- 
2.43.0


From fe30918ffccb97e88613b29a02bd1dffde511054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:44 +0000
Subject: [PATCH 100/102] fix: plot_graph failed on graphs without edges

---
 higra/plot/plot_graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/higra/plot/plot_graph.py b/higra/plot/plot_graph.py
index ce1200e..e545f9f 100644
--- a/higra/plot/plot_graph.py
+++ b/higra/plot/plot_graph.py
@@ -41,8 +41,9 @@ def plot_graph(graph, *, vertex_positions, vertex_labels=None):
     ax = plt.gca()
     ax.set_xticks(())
     ax.set_yticks(())
-    ax.set_xlim(segments[:, :, 0].min(), segments[:, :, 0].max())
-    ax.set_ylim(segments[:, :, 1].min(), segments[:, :, 1].max())
+    if segments.size > 0:
+        ax.set_xlim(segments[:, :, 0].min(), segments[:, :, 0].max())
+        ax.set_ylim(segments[:, :, 1].min(), segments[:, :, 1].max())
     ax.add_collection(lc)
     plt.axis('equal')
     ax.scatter(vertex_positions[:, 0], vertex_positions[:, 1], s=20, c='w', edgecolors='k')
-- 
2.43.0


From a412a0f682dc4a1c0eca76a8787c701347082611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:48 +0000
Subject: [PATCH 101/102] fix: print_partition_tree drew the first leaf below
 the others with the 'leaves' ordering

---
 higra/io_utils/tree_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/higra/io_utils/tree_io.py b/higra/io_utils/tree_io.py
index 9f5f697..694bb7a 100644
--- a/higra/io_utils/tree_io.py
+++ b/higra/io_utils/tree_io.py
@@ -130,7 +130,7 @@ def print_partition_tree(tree, *,
 
     # special case, not that the branch of the tree might self-intersect...
     if ordering is None:
-        yy[:nleaves] = np.arange(0, total_height, y_spacing + 1)
+        yy[:nleaves] = np.arange(0, total_height, y_spacing + 1) + 1  # shifted back below
         for n in tree.leaves_to_root_iterator(include_leaves=False):
             yy[n] = np.mean(yy[tree.children(n)])
     else:
-- 
2.43.0


From 278fe1a460664ab673fbe4b2d7241d94c7c19494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:41 +0000
Subject: [PATCH 102/102] fix: two cached functions with the same name shared
 their results

---
 higra/data_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/higra/data_cache.py b/higra/data_cache.py
index 6f801fb..4ddcfb9 100644
--- a/higra/data_cache.py
+++ b/higra/data_cache.py
@@ -564,7 +564,8 @@ def auto_cache(fun):
                 warnings.warn('Auto cache: all positional parameters could not be transformed into '
                               'named parameters.')
 
-            h = _CallKey(obj, args, kwargs)
+            # the function is part of the key: several functions may have the same name
+            h = _CallKey(obj, [fun] + args, kwargs)
 
             if force_recompute or h not in cache:
                 result = fun(*args, **kwargs)
-- 
2.43.0

