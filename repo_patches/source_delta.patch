From 09b7859d74f07100723274ba3ee967e41d3b606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:32 +0000
Subject: [PATCH 01/19] fix: write the commands file in one step, and report
 failing writes

Buffered lines were written back in pieces, and errors at the final flush were lost.
A reader, a crash or a full disk in between left part of a batch, or of a line.
---
 core/src/format/gcmd.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index fd77c0a..c92dabd 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -22,8 +22,8 @@ use crate::graph_command::GraphCommand::RemoveVertex;
 
 use lazy_static::*;
 use regex::Regex;
-use std::fs::{File, OpenOptions};
-use std::io::{BufWriter, Write};
+use std::fs::File;
+use std::io::Write;
 
 ///
 /// Reading a Command file
@@ -77,8 +77,7 @@ fn is_comment(line: &str) -> bool {
 
 /// Saves a DirectedGraph into a gcmd file
 pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
-    let file = File::create(filename)?;
-    let mut buffered = BufWriter::new(file);
+    let mut buffered: Vec<u8> = vec![];
     for vertex in graph.vertices() {
         let VertexId(vertex_id) = vertex;
         writeln![buffered, "AddVertex {}", vertex_id]?;
@@ -87,19 +86,33 @@ pub fn save(graph: &DirectedGraph, filename: &str) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln![buffered, "AddEdge {} {}", src, dest]?;
     }
-    Ok(())
+    replace_content(filename, &buffered)
 }
 
 /// Updates an existing file with a list of GraphCommand
 /// New commands will be appended at the end of the file
 pub fn add_commands(filename: &str, commands: Vec<GraphCommand>) -> std::io::Result<()> {
-    let file = OpenOptions::new().write(true).append(true).open(filename)?;
-    let mut buffered = BufWriter::new(file);
+    let mut buffered = std::fs::read(filename)?;
+    if buffered.last().map_or(false, |last| *last != b'\n') {
+        buffered.push(b'\n');
+    }
     for command in commands {
         let line = command_into_line(command);
         writeln![buffered, "{}", line]?;
     }
-    Ok(())
+    replace_content(filename, &buffered)
+}
+
+// Replaces the content of a file in one step : whatever happens, the file has either its old or its new content
+fn replace_content(filename: &str, content: &[u8]) -> std::io::Result<()> {
+    let temporary = format!["{}.tmp", filename];
+    let replaced = File::create(&temporary)
+        .and_then(|mut file| file.write_all(content).and_then(|_| file.sync_all()))
+        .and_then(|_| std::fs::rename(&temporary, filename));
+    if replaced.is_err() {
+        let _ = std::fs::remove_file(&temporary);
+    }
+    replaced
 }
 
 fn command_into_line(command: GraphCommand) -> String {
-- 
2.43.0


From 5a385d3614d81d4f028a96ebec4843bcab047d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:32 +0000
Subject: [PATCH 02/19] fix: report errors of the last write of a TGF export

---
 core/src/format/tgf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 6b7ea0a..2e396b0 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -64,7 +64,7 @@ pub fn save(graph: &DirectedGraph, filename: String) -> std::io::Result<()> {
         let Edge(VertexId(src), VertexId(dest)) = edge;
         writeln!(buffered, "{} {}", src, dest)?;
     }
-    Ok(())
+    buffered.flush()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3d9037dcb549f1bbb4cbf172f95266a9d97fe034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:32 +0000
Subject: [PATCH 03/19] fix: taking the lock fails if the lock file exists

---
 command/src/graph_utils.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 28e40d6..56d5232 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -26,7 +26,15 @@ pub fn init(root_dir: &str) -> io::Result<()> {
 /// Creates a lock file indicating a command is already getting process
 /// Any command execution be put on hold / fail straight away if the lock file exists
 pub fn lock(root_dir: &str) -> io::Result<()> {
-    touch(lock_path(root_dir).as_ref())
+    let path = lock_path(root_dir);
+    // Making sure parent directory exists
+    path.parent().map(|parent| fs::create_dir_all(parent));
+    // Fails if the lock file exists already
+    fs::OpenOptions::new()
+        .create_new(true)
+        .write(true)
+        .open(path)
+        .map(|_| ())
 }
 
 /// Removes the lock file to indicate
-- 
2.43.0


From 50df432ffde1cecb08a9cace4ecc251db4ded380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:32 +0000
Subject: [PATCH 04/19] fix: gc-add and gc-delete report edits that could not
 be stored

---
 command/src/bin/gc-add.rs    | 12 ++++++------
 command/src/bin/gc-delete.rs |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/command/src/bin/gc-add.rs b/command/src/bin/gc-add.rs
index 87940d6..b0a12e5 100644
--- a/command/src/bin/gc-add.rs
+++ b/command/src/bin/gc-add.rs
@@ -90,7 +90,7 @@ fn main() {
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::add_vertices(path, vids));
+        .map(|vids| graph_utils::add_vertices(path, vids).expect("Couldn't update graph"));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -100,13 +100,13 @@ fn main() {
                 .expect("Invalid number of vertices. Must be an even number")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't update graph"));
 
     args.values_of("chain")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| chain_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't update graph"));
 
     args.values_of("cycle")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
@@ -114,18 +114,18 @@ fn main() {
             cycle_from_vertices(vids.map(|vid| VertexId(vid)).collect()).expect("Invalid cycle")
         })
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't update graph"));
 
     args.values_of("star")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| star_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
         .map(|vids| reverse_if_needed(reverse_edges, vids))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't update graph"));
 
     args.values_of("clique")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| clique_from_vertices(vids.map(|vid| VertexId(vid)).collect()))
-        .map(|vids| graph_utils::add_edges(path, vids));
+        .map(|vids| graph_utils::add_edges(path, vids).expect("Couldn't update graph"));
 }
 
 fn chain_from_vertices(vertices: Vec<VertexId>) -> Vec<(VertexId, VertexId)> {
diff --git a/command/src/bin/gc-delete.rs b/command/src/bin/gc-delete.rs
index 905a639..29f0fb4 100644
--- a/command/src/bin/gc-delete.rs
+++ b/command/src/bin/gc-delete.rs
@@ -44,11 +44,11 @@ fn main() {
     args.values_of("vertex")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
-        .map(|vids| graph_utils::remove_vertices(path, vids));
+        .map(|vids| graph_utils::remove_vertices(path, vids).expect("Couldn't update graph"));
 
     args.values_of("edge")
         .map(|vids| vids.map(|v| v.parse::<u64>().expect("Invalid vertex id")))
         .map(|vids| vids.map(|vid| VertexId(vid)).collect())
         .map(|vids| arg_utils::as_vertex_tuple(vids).expect("Invalid number of vertices. Must be an even number"))
-        .map(|vids| graph_utils::remove_edges(path, vids));
+        .map(|vids| graph_utils::remove_edges(path, vids).expect("Couldn't update graph"));
 }
-- 
2.43.0


From dd16fe0e4f3e5c20ecfc1492e6fe3bcecb5f974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:32 +0000
Subject: [PATCH 05/19] fix: gc-build holds the lock, so that it does not undo
 concurrent edits

---
 command/src/bin/gc-build.rs |  5 +----
 command/src/graph_utils.rs  | 10 ++++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/command/src/bin/gc-build.rs b/command/src/bin/gc-build.rs
index ba884ec..5dc805a 100644
--- a/command/src/bin/gc-build.rs
+++ b/command/src/bin/gc-build.rs
@@ -31,14 +31,11 @@ fn main() {
     let path = args.value_of("path").unwrap();
     let verbose = args.is_present("verbose");
 
-    let graph = graph_utils::load_graph(path).expect("Couldn't load graph");
+    let graph = graph_utils::rebuild(path).expect("Couldn't rebuild graph");
     if verbose {
         println!("Vertices: {}", graph.vertex_count());
         println!("Edges: {}", graph.edge_count());
     }
 
-    graph_utils::save_graph_as_commands(path, &graph)
-        .expect("Couldn't save graph. Data maybe lost !");
-
     println!("Done.")
 }
diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 56d5232..23e9262 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -80,6 +80,16 @@ pub fn save_graph_as_commands(filepath: &str, graph: &DirectedGraph) -> io::Resu
     )
 }
 
+/// Loads the graph and saves it again, with no command in between
+pub fn rebuild(root_dir: &str) -> io::Result<DirectedGraph> {
+    with_lock(root_dir, || {
+        let graph =
+            load_graph(root_dir).map_err(|msg| io::Error::new(io::ErrorKind::InvalidData, msg))?;
+        save_graph_as_commands(root_dir, &graph)?;
+        Ok(graph)
+    })
+}
+
 /// Cleans-up the graph directory structure
 /// This can not be undone
 pub fn clean(root_dir: &str) -> std::io::Result<()> {
-- 
2.43.0


From c09528c25e8574349cd945a346518bcc3c67e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 06/19] fix: edge_count counts self-loops as one edge

---
 core/src/directed_graph.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/core/src/directed_graph.rs b/core/src/directed_graph.rs
index 767923e..74d7a15 100644
--- a/core/src/directed_graph.rs
+++ b/core/src/directed_graph.rs
@@ -32,12 +32,8 @@ impl DirectedGraph {
     }
 
     pub fn edge_count(&self) -> usize {
-        let mut total_count: usize = 0;
-        for (_, edges) in &self.edge_map {
-            total_count += edges.len();
-        }
-        // Each edge is saved twice => the count should be a multiple of 2, and divided by 2
-        total_count / 2
+        // Each edge is saved twice, except self-loops => counting edges by their source
+        self.edges().count()
     }
 
     pub fn contains_vertex(&self, vertex_id: VertexId) -> bool {
-- 
2.43.0


From ee979ab01b544b16c20863d10195455552208c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 07/19] fix: --max-score is an upper bound

---
 command/src/arg_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/src/arg_utils.rs b/command/src/arg_utils.rs
index 5d72cca..be3f976 100644
--- a/command/src/arg_utils.rs
+++ b/command/src/arg_utils.rs
@@ -103,7 +103,7 @@ pub fn build_constraint_min_score(score: i64) -> Constraint {
 }
 
 pub fn build_constraint_max_score(score: i64) -> Constraint {
-    MinScore(score)
+    MaxScore(score)
 }
 
 pub fn build_constraint_exact_score(score: i64) -> Vec<Constraint> {
-- 
2.43.0


From 5772cb61b4fc3da65977fc67fcebb394e168241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 08/19] fix: find all cycles of a graph in which every vertex
 has inbound edges

The search started from a single vertex, picked by hash order, and found only the cycles it reaches.
---
 core/src/iter/iter_cycle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/iter/iter_cycle.rs b/core/src/iter/iter_cycle.rs
index a2d7208..eb1d7b4 100644
--- a/core/src/iter/iter_cycle.rs
+++ b/core/src/iter/iter_cycle.rs
@@ -136,9 +136,10 @@ fn find_starting_edges(graph: &DirectedGraph) -> Vec<&VertexId> {
         .filter(|vid| graph.inbound_edges(**vid).count() == 0)
         .collect::<Vec<&VertexId>>();
 
-    // If no vertex with no inbound edges can be found, we need to randomly add a vertex
+    // If no vertex with no inbound edges can be found, we need to start from all vertices :
+    // no single vertex is guaranteed to reach all the cycles
     if res.is_empty() {
-        graph.head_option().iter().for_each(|x| res.push(x));
+        graph.vertices().for_each(|x| res.push(x));
     }
     res
 }
-- 
2.43.0


From 6e76b29660a504c0ee1c6c240a1bba7dde652f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 09/19] fix: gc-cycle accepts several vertices or edges per
 filter

An edge filter needs two values, and was silently dropped with the single one that was accepted.
---
 command/src/bin/gc-cycle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index f22fa24..66304d0 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -140,6 +140,7 @@ fn main() {
                 .long("include-all")
                 .help("Return all the cycles from the graph that are including all the provided vertices")
                 .required(false)
+                .min_values(1)
                 .takes_value(true),
         )
         .arg(
@@ -147,6 +148,7 @@ fn main() {
                 .long("exclude-all")
                 .help("Return all the cycles from the graph that not including any of the provided vertices")
                 .required(false)
+                .min_values(1)
                 .takes_value(true),
         )
         .arg(
@@ -154,6 +156,7 @@ fn main() {
                 .long("include-all-edges")
                 .help("Return all the cycles from the graph that are including all the provided edges")
                 .required(false)
+                .min_values(2)
                 .takes_value(true),
         )
         .arg(
@@ -161,6 +164,7 @@ fn main() {
                 .long("exclude-all-edges")
                 .help("Return all the cycles from the graph that not including any of the provided edges")
                 .required(false)
+                .min_values(2)
                 .takes_value(true),
         )
         .get_matches();
-- 
2.43.0


From ce7a0aef52ba2af4031bd860d6ffa3e1171b7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 10/19] fix: edge filters of gc-cycle consider the edge closing
 the cycle

---
 command/src/bin/gc-cycle.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index 66304d0..384e4ab 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -331,8 +331,31 @@ where
 {
     let path = cycle.as_path();
     let score = scorefn(graph, &path);
+    // Edge constraints apply to the edge closing the cycle too
+    let closed_path = match path.first() {
+        Some(first) => path.append(*first),
+        None => path.clone(),
+    };
+    let scored_closed_path = path::ScoredPath {
+        path: closed_path,
+        score,
+    };
     let scored_path = path::ScoredPath { path, score };
-    constraints.iter().all(|c| c.check_complete(&scored_path))
+    constraints.iter().all(|c| {
+        if is_edge_constraint(c) {
+            c.check_complete(&scored_closed_path)
+        } else {
+            c.check_complete(&scored_path)
+        }
+    })
+}
+
+fn is_edge_constraint(constraint: &Constraint) -> bool {
+    match constraint {
+        Constraint::ContainsEdge(_) => true,
+        Constraint::Not(inner) => is_edge_constraint(inner),
+        _ => false,
+    }
 }
 
 // Formatter
-- 
2.43.0


From ee785ffdf63dae6b22f5f73cbfdb48cc755627fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 11/19] fix: acyclic shortest and longest paths skip
 unreachable vertices instead of panicking

---
 core/src/algorithm/shortest_path.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/algorithm/shortest_path.rs b/core/src/algorithm/shortest_path.rs
index 5c37b25..676f1d7 100644
--- a/core/src/algorithm/shortest_path.rs
+++ b/core/src/algorithm/shortest_path.rs
@@ -36,10 +36,11 @@ where
         .skip_while(|v| **v != start)
         .for_each(|v| {
             graph.outbound_edges(*v).for_each(|edge| {
-                // FIXME is it necessarily true here ...
-                let ScoredPath { path, score } = scores
-                    .get(v)
-                    .expect("The current score of the processed vertex should be in the map");
+                // Vertices that cannot be reached from start have no score
+                let ScoredPath { path, score } = match scores.get(v) {
+                    Some(scored_path) => scored_path,
+                    None => return,
+                };
                 let Edge(_, w) = edge;
                 let new_score = score + scorefn(&edge);
                 if let Some(current_score) = scores.get(w).map(|x| x.score) {
-- 
2.43.0


From 318724953c061341127ef250f15bec0741606b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 12/19] fix: maximum flow follows backward edges to their
 source

---
 core/src/algorithm/max_flow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/algorithm/max_flow.rs b/core/src/algorithm/max_flow.rs
index 009f4b9..d5faa43 100644
--- a/core/src/algorithm/max_flow.rs
+++ b/core/src/algorithm/max_flow.rs
@@ -202,7 +202,7 @@ impl<'a> Iterator for AugmentingPathIter<'a> {
             let backward_edges = self
                 .graph
                 .inbound_edges(*vid)
-                .map(|Edge(_, v)| (v, Backward));
+                .map(|Edge(u, _)| (u, Backward));
             // forward + backward edges
             (foward_edges.chain(backward_edges))
                 .filter(|(v, _)| !path.contains_vertex(**v)) // avoiding cycles here
-- 
2.43.0


From 470fb53bc19e9312d6395de5039c303de04054ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 13/19] fix: best-first search keeps the best path to a vertex,
 not the first one seen

---
 core/src/iter/iter_best.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/core/src/iter/iter_best.rs b/core/src/iter/iter_best.rs
index 3f40749..cf1593b 100644
--- a/core/src/iter/iter_best.rs
+++ b/core/src/iter/iter_best.rs
@@ -5,7 +5,7 @@ use crate::iter::iter_datastructure::{MinPriorityQueue, SearchQueue};
 use crate::path::Path;
 
 use crate::path::ScoredPath;
-use std::collections::HashSet;
+use std::collections::HashMap;
 
 /// Best-First search iterator
 
@@ -14,18 +14,35 @@ where
     F: Fn(&DirectedGraph, &Path) -> i64,
 {
     queue: MinPriorityQueue<ScoredPath>,
-    visited: HashSet<VertexId>,
+    // Best score found so far for each vertex
+    visited: HashMap<VertexId, i64>,
     graph: &'a DirectedGraph,
     scorefn: F,
 }
 
+impl<'a, F> BestFirstIter<'a, F>
+where
+    F: Fn(&DirectedGraph, &Path) -> i64,
+{
+    // Next path from the queue, skipping those for which a better one was found after they were queued
+    fn pop_best(&mut self) -> Option<ScoredPath> {
+        while let Some(scored_path) = self.queue.pop() {
+            let best = scored_path.path.last().and_then(|v| self.visited.get(v));
+            if best.map_or(true, |best| scored_path.score <= *best) {
+                return Some(scored_path);
+            }
+        }
+        None
+    }
+}
+
 impl<'a, F> Iterator for BestFirstIter<'a, F>
 where
     F: Fn(&DirectedGraph, &Path) -> i64,
 {
     type Item = ScoredPath;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.queue.pop() {
+        match self.pop_best() {
             None => None,
             Some(weighted_path) => {
                 let vid = weighted_path.path.last().unwrap();
@@ -33,12 +50,13 @@ where
                     .outbound_edges(*vid)
                     .map(|Edge(_, v)| v)
                     .for_each(|v| {
-                        if !self.visited.contains(v) {
-                            self.visited.insert(*v);
-                            let new_path = weighted_path.path.append(*v);
+                        let new_path = weighted_path.path.append(*v);
+                        let new_score = (self.scorefn)(self.graph, &new_path);
+                        if self.visited.get(v).map_or(true, |best| new_score < *best) {
+                            self.visited.insert(*v, new_score);
                             let new_scored_path = ScoredPath {
-                                path: weighted_path.path.append(*v),
-                                score: (self.scorefn)(self.graph, &new_path),
+                                path: new_path,
+                                score: new_score,
                             };
                             self.queue.push(new_scored_path)
                         }
@@ -62,7 +80,7 @@ where
     let score = scorefn(&graph, &path);
     let mut iter = empty_best_iter(graph, scorefn);
     iter.queue.push(ScoredPath { path, score });
-    iter.visited.insert(start_vertex);
+    iter.visited.insert(start_vertex, score);
     iter
 }
 
@@ -73,7 +91,7 @@ where
 {
     BestFirstIter {
         queue: MinPriorityQueue::<ScoredPath>::new(),
-        visited: HashSet::new(),
+        visited: HashMap::new(),
         graph: graph,
         scorefn: scorefn,
     }
-- 
2.43.0


From b7797d90c780d891ecfdda941035a778835a8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 14/19] fix: gc-random makes as many vertices and edges as
 asked for

---
 command/src/bin/gc-random.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 74dc781..42a3273 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -118,13 +118,22 @@ fn creates_random_dag(vertex_count: usize, edge_count: usize) -> Option<Directed
     let layer = 10;
     let layer_size = (vertex_count / layer) as u64;
     let mut graph = DirectedGraph::new();
-    while graph.edge_count() < edge_count {
-        for vid in 1..vertex_count {
+    for vid in 1..=vertex_count {
+        graph.add_vertex(VertexId(vid as u64));
+    }
+    // There are no more edges than this between vertices far enough apart
+    let reach = vertex_count.saturating_sub(layer_size as usize + 1);
+    let edge_count = edge_count.min(reach * (reach + 1) / 2);
+    let mut added = 0;
+    while added < edge_count {
+        for vid in 1..=vertex_count {
             let this = vid as u64;
-            let other = rng.gen::<u64>();
+            let other = rng.gen_range(1, vertex_count as u64 + 1);
             let (src, dst) = (this.min(other), this.max(other));
-            if dst-src > layer_size {
-                graph.add_edge(Edge(VertexId(src), VertexId(dst)));
+            if dst-src > layer_size && added < edge_count {
+                if graph.add_edge(Edge(VertexId(src), VertexId(dst))) {
+                    added += 1;
+                }
             }
         }
     }
-- 
2.43.0


From 42ad861a94a57d8dc9b9de722fbede319fbc342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 15/19] fix: gc-random stores its graph in one step and under
 the lock

---
 command/src/bin/gc-random.rs | 6 +-----
 command/src/graph_utils.rs   | 8 ++++++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index 42a3273..ecc0c24 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -94,11 +94,7 @@ fn main() {
             "A problem occured. Path '{}' might not exist, or the graph is currently lock (check 'lock' file)",
             &path
         ]);
-        graph_utils::init(path).expect(&format![
-            "A problem occured. Unable to create a new graph at '{}' (check directory structure and 'lock' file)",
-            &path
-        ]);
-        graph_utils::save_graph_as_commands(path, &random_graph).expect(&format![
+        graph_utils::create_graph(path, &random_graph).expect(&format![
             "A problem occured. Unable to save graph at '{}' (check directory structure and 'lock' file)",
             &path
         ]);
diff --git a/command/src/graph_utils.rs b/command/src/graph_utils.rs
index 23e9262..6d886a4 100644
--- a/command/src/graph_utils.rs
+++ b/command/src/graph_utils.rs
@@ -80,6 +80,14 @@ pub fn save_graph_as_commands(filepath: &str, graph: &DirectedGraph) -> io::Resu
     )
 }
 
+/// Creates the directories / files of a graph with the given content
+pub fn create_graph(root_dir: &str, graph: &DirectedGraph) -> io::Result<()> {
+    with_lock(root_dir, || {
+        fs::create_dir_all(root_path(root_dir))?;
+        save_graph_as_commands(root_dir, graph)
+    })
+}
+
 /// Loads the graph and saves it again, with no command in between
 pub fn rebuild(root_dir: &str) -> io::Result<DirectedGraph> {
     with_lock(root_dir, || {
-- 
2.43.0


From 0f6ff3d2794f04ff8ff594a5fe246640b30a83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:36 +0000
Subject: [PATCH 16/19] fix: unreadable lines and ids that are too large are
 errors, not panics

A panic while the lock is held leaves the lock behind.
---
 core/src/format/gcmd.rs  | 12 ++++++------
 core/src/format/tgf.rs   |  6 +++---
 core/src/format/utils.rs |  8 +++++++-
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/src/format/gcmd.rs b/core/src/format/gcmd.rs
index c92dabd..229b05a 100644
--- a/core/src/format/gcmd.rs
+++ b/core/src/format/gcmd.rs
@@ -49,18 +49,18 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = ADD_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
+        let v2 = &utils::parse_id(&cap[2])?;
         Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
     } else if let Some(cap) = ADD_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
         Ok(AddVertex(VertexId(*v1)))
     } else if let Some(cap) = REMOVE_EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
+        let v2 = &utils::parse_id(&cap[2])?;
         Ok(RemoveEdge(VertexId(*v1), VertexId(*v2)))
     } else if let Some(cap) = REMOVE_VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
         Ok(RemoveVertex(VertexId(*v1)))
     } else {
         Err(format!["Couldn't parse '{}'", line])
diff --git a/core/src/format/tgf.rs b/core/src/format/tgf.rs
index 2e396b0..331b11b 100644
--- a/core/src/format/tgf.rs
+++ b/core/src/format/tgf.rs
@@ -33,11 +33,11 @@ fn parse_line(line: &str) -> Result<GraphCommand, String> {
     }
 
     if let Some(cap) = EDGE_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
-        let v2 = &cap[2].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
+        let v2 = &utils::parse_id(&cap[2])?;
         Ok(AddEdge(VertexId(*v1), VertexId(*v2)))
     } else if let Some(cap) = VERTEX_RE.captures_iter(line).next() {
-        let v1 = &cap[1].parse::<u64>().unwrap();
+        let v1 = &utils::parse_id(&cap[1])?;
         Ok(AddVertex(VertexId(*v1)))
     } else {
         Err(format!["Couldn't parse '{}'", line])
diff --git a/core/src/format/utils.rs b/core/src/format/utils.rs
index 5c89f31..a5d7504 100644
--- a/core/src/format/utils.rs
+++ b/core/src/format/utils.rs
@@ -39,7 +39,7 @@ where
     let reader = BufReader::new(file);
     let mut result: Vec<GraphCommand> = vec![];
     for (index, line) in reader.lines().enumerate() {
-        let line = line.unwrap(); // Ignore errors.
+        let line = line.map_err(|err| format!["Error at line {}: {}", index + 1, err])?;
         if !line.is_empty() && !is_comment(&line) {
             match parse_line(&line) {
                 Ok(command) => result.push(command),
@@ -49,3 +49,9 @@ where
     }
     Ok(result)
 }
+
+// Parses a vertex id
+pub fn parse_id(id: &str) -> Result<u64, String> {
+    id.parse::<u64>()
+        .map_err(|err| format!["Invalid vertex id '{}': {}", id, err])
+}
-- 
2.43.0


From 79b0c216719a4a25b1cd2728e3fb94e7bdec9a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:15 +0000
Subject: [PATCH 17/19] fix: accept sets of constraints that say nothing about
 cycles

---
 core/src/constraint/checker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/constraint/checker.rs b/core/src/constraint/checker.rs
index 299ea74..1aa4d5e 100644
--- a/core/src/constraint/checker.rs
+++ b/core/src/constraint/checker.rs
@@ -98,7 +98,7 @@ fn check_cycle_inclusion_exclusion(constraints: &Vec<Constraint>) -> Result<(),
     let contains_no_cycle = negated_constraints(constraints)
         .find(|c| **c == ContainsCycle)
         .is_some();
-    if contains_cycle != contains_no_cycle {
+    if !(contains_cycle && contains_no_cycle) {
         ok()
     } else {
         fail(format![
-- 
2.43.0


From 4e9e9d6403a191f945e092d0e7b72420814cb569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:41 +0000
Subject: [PATCH 18/19] fix: gc-csp and gc-cycle report values they cannot
 parse instead of dropping the constraint

---
 command/src/bin/gc-csp.rs   | 18 +++++++++---------
 command/src/bin/gc-cycle.rs | 28 +++++++++++++++++-----------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/command/src/bin/gc-csp.rs b/command/src/bin/gc-csp.rs
index 72d0f79..6f59849 100644
--- a/command/src/bin/gc-csp.rs
+++ b/command/src/bin/gc-csp.rs
@@ -148,17 +148,17 @@ fn main() {
 
     let include = args
         .values_of("include")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
 
     let exclude = args
         .values_of("exclude")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
 
     let ordered = args
         .values_of("ordered")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_ordered);
 
     let include_cycle = arg_utils::option_of(args.is_present("include-cycle"),
@@ -169,32 +169,32 @@ fn main() {
 
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_length);
 
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_length);
 
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_length);
 
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_score);
 
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_score);
 
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_score);
 
 
diff --git a/command/src/bin/gc-cycle.rs b/command/src/bin/gc-cycle.rs
index 384e4ab..364efb2 100644
--- a/command/src/bin/gc-cycle.rs
+++ b/command/src/bin/gc-cycle.rs
@@ -183,49 +183,55 @@ fn main() {
         Some(1)
     } else {
         args.value_of("take-n")
-            .and_then(|x| x.parse::<usize>().ok())
+            .map(|x| x.parse::<usize>().expect("Invalid number"))
     };
     let take_all = args.is_present("all");
     // Constraints
     let include_all = args
         .values_of("include-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_include);
     let exclude_all = args
         .values_of("exclude-all")
-        .and_then(|ids| arg_utils::parse_vertex_id_list(ids.collect()))
+        .map(|ids| arg_utils::parse_vertex_id_list(ids.collect()).expect("Invalid vertex id"))
         .map(arg_utils::build_constraint_exclude);
     let include_all_edges = args
         .values_of("include-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| {
+            arg_utils::parse_edge_list(ids.collect())
+                .expect("Invalid vertex id, or not an even number of vertices")
+        })
         .map(arg_utils::build_constraint_include_edges);
     let exclude_all_edges = args
         .values_of("exclude-all-edges")
-        .and_then(|ids| arg_utils::parse_edge_list(ids.collect()))
+        .map(|ids| {
+            arg_utils::parse_edge_list(ids.collect())
+                .expect("Invalid vertex id, or not an even number of vertices")
+        })
         .map(arg_utils::build_constraint_exclude_edges);
     let min_length = args
         .value_of("min-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_length);
     let max_length = args
         .value_of("max-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_length);
     let exact_length = args
         .value_of("exact-length")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_length);
     let min_score = args
         .value_of("min-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_min_score);
     let max_score = args
         .value_of("max-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_max_score);
     let exact_score = args
         .value_of("exact-score")
-        .and_then(|x| x.parse::<i64>().ok())
+        .map(|x| x.parse::<i64>().expect("Invalid number"))
         .map(arg_utils::build_constraint_exact_score);
 
     let constraints = build_all_constraints(
-- 
2.43.0


From e7e5ecdb7d70a12d4a94f083ea3874ff6ad0d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:43 +0000
Subject: [PATCH 19/19] fix: gc-random reports an edge count it cannot parse
 instead of replacing it

---
 command/src/bin/gc-random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/src/bin/gc-random.rs b/command/src/bin/gc-random.rs
index ecc0c24..b91c5ba 100644
--- a/command/src/bin/gc-random.rs
+++ b/command/src/bin/gc-random.rs
@@ -71,7 +71,7 @@ fn main() {
         .and_then(|x| x.parse::<usize>().ok())
         .unwrap();
     let edge_count =  args.value_of("edge-count")
-        .and_then(|x| x.parse::<usize>().ok())
+        .map(|x| x.parse::<usize>().expect("Invalid number of edges"))
         .unwrap_or(vertex_count * 3);
 
 
-- 
2.43.0

