From 3032348aefecce252c5fc74875a25cec1bd9f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 01/29] fix: offset-arrays cover nodes without leaving or
 incoming edges

The offset-arrays ended with the last node having leaving (or incoming)
edges, so accessing edges of any later node panicked.
---
 src/network/graph/building.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c6b81c8..13b5769 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -758,6 +758,10 @@ impl GraphBuilder {
                 // update edge-idx
                 edge_idx += 1;
             }
+            // Nodes after the last edge's src don't have leaving edges, but need an offset as well.
+            while graph.fwd_offsets.len() < graph.node_ids.len() {
+                graph.fwd_offsets.push(offset);
+            }
             // last node needs an upper bound as well for `leaving_edges(...)`
             graph.fwd_offsets.push(offset);
             progress_bar.set(offset);
@@ -873,6 +877,10 @@ impl GraphBuilder {
                 proto_edges.len(),
                 "Last offset-value should be as big as the number of proto-edges."
             );
+            // Nodes after the last edge's dst don't have incoming edges, but need an offset as well.
+            while graph.bwd_offsets.len() < graph.node_ids.len() {
+                graph.bwd_offsets.push(offset);
+            }
             graph.bwd_offsets.push(offset);
             progress_bar.set(graph.fwd_dsts.len());
             if progress_bar.has_progressed_significantly() {
-- 
2.43.0


From 1099950e03d917ab130156a85300dd25a7ba9a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:52 +0000
Subject: [PATCH 02/29] fix: resize Dijkstra's query-data for every graph-size

The length of the fixed-size array [fwd, bwd] was compared instead of the
length of the query-data, so graphs of two nodes panicked. Further, touched
indices are reset before shrinking to a smaller graph.
---
 src/routing/dijkstra.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index acdb424..e888bd5 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,16 +72,17 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs.len() != new_len {
-                self.costs[dir].resize(new_len, std::f64::INFINITY);
-                self.predecessors[dir].resize(new_len, None);
-            }
-
+            // reset before resizing, because the touched indices refer to the previous graph
             for i in self.touched[dir].drain(..) {
                 self.costs[dir][i] = std::f64::INFINITY;
                 self.predecessors[dir][i] = None;
             }
 
+            if self.costs[dir].len() != new_len {
+                self.costs[dir].resize(new_len, std::f64::INFINITY);
+                self.predecessors[dir].resize(new_len, None);
+            }
+
             // assert!(self.costs[dir].iter().all(|&c| c == f64::INFINITY));
             // assert!(self.predecessors[dir].iter().all(|&p| p == None));
 
-- 
2.43.0


From cd449d8fa28951f6fdfc2992a1e9942d52482c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:18 +0000
Subject: [PATCH 03/29] fix: detect cyclic shortcuts in the second half of a
 shortcut

A shortcut, whose second half leads back to itself, doesn't let the stack grow, but the flattened
path, so flattening has never ended.
---
 src/routing/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/routing/paths.rs b/src/routing/paths.rs
index 0eda0b8..47db56b 100644
--- a/src/routing/paths.rs
+++ b/src/routing/paths.rs
@@ -112,7 +112,7 @@ impl Path {
                 edge_idx = sc_edges[0];
 
                 // max path-length contains all edges in a graph
-                if old_edges.len() > fwd_edges.count() {
+                if flattened_path.edges.len() + old_edges.len() > fwd_edges.count() {
                     return Err("There is a cycle of shortcut-references in the graph.".into());
                 }
             }
-- 
2.43.0


From c1c78c2c4d39d74c335b82177d068daebaa81ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:00 +0000
Subject: [PATCH 04/29] fix: report unknown metric-ids when generating metrics

---
 src/network/graph/building.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 13b5769..5068a3b 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1218,7 +1218,7 @@ impl GraphBuilder {
                         // loop over all edges
                         // and add to their metrics
 
-                        let metric_idx = graph.cfg.edges.metrics.idx_of(&from.id);
+                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(&from.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1250,7 +1250,7 @@ impl GraphBuilder {
                         // loop over all edges
                         // and replace their existing metrics
 
-                        let metric_idx = graph.cfg.edges.metrics.idx_of(&from.id);
+                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(&from.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1292,8 +1292,8 @@ impl GraphBuilder {
                         // loop over all edges
                         // and replace their existing metrics
 
-                        let metric_idx_a = graph.cfg.edges.metrics.idx_of(&a.id);
-                        let metric_idx_b = graph.cfg.edges.metrics.idx_of(&b.id);
+                        let metric_idx_a = graph.cfg.edges.metrics.try_idx_of(&a.id)?;
+                        let metric_idx_b = graph.cfg.edges.metrics.try_idx_of(&b.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1378,7 +1378,7 @@ impl GraphBuilder {
                                             continue;
                                         }
 
-                                        let metric_idx = graph.cfg.edges.metrics.idx_of(id);
+                                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(id)?;
 
                                         let param = params[col_idx];
                                         if let Ok(raw_value) = param.parse::<f64>() {
-- 
2.43.0


From 01cd6dc4179ad917f363ddbe2cb8ae1bb173b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:19 +0000
Subject: [PATCH 05/29] fix: report lines with too few columns when merging an
 edges-info-file

---
 src/network/graph/building.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 5068a3b..085999b 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1346,7 +1346,10 @@ impl GraphBuilder {
                             for (col_idx, category) in edges_info.iter().enumerate() {
                                 match category {
                                     generating::edges::merge::Category::Id(id) => {
-                                        let param = params[col_idx];
+                                        let param = params.get(col_idx).ok_or(format!(
+                                            "Line '{}' of the edges-info-file has too few columns.",
+                                            line
+                                        ))?;
 
                                         if id == edge_id {
                                             let raw_edge_id =
@@ -1380,7 +1383,10 @@ impl GraphBuilder {
 
                                         let metric_idx = graph.cfg.edges.metrics.try_idx_of(id)?;
 
-                                        let param = params[col_idx];
+                                        let param = params.get(col_idx).ok_or(format!(
+                                            "Line '{}' of the edges-info-file has too few columns.",
+                                            line
+                                        ))?;
                                         if let Ok(raw_value) = param.parse::<f64>() {
                                             graph.metrics[*edge_idx][*metric_idx] = raw_value;
                                         } else {
-- 
2.43.0


From f0c9129e26adc3f5dca9d59bfe08d754ce09ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:19 +0000
Subject: [PATCH 06/29] fix: report ids that are generated twice

---
 src/network/graph/building.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 085999b..db46ff4 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -944,6 +944,7 @@ impl GraphBuilder {
 
             // check duplicated id
 
+            let mut new_ids = Vec::new();
             for category in generating_cfg.edges.categories.iter() {
                 match category {
                     generating::edges::Category::Meta {
@@ -989,12 +990,14 @@ impl GraphBuilder {
                                 | parsing::edges::Category::Metric { unit: _, id } => new_id == id,
                                 parsing::edges::Category::Ignored => false,
                             })
+                            || new_ids.contains(&new_id)
                         {
                             return Err(err::Msg::from(format!(
                                 "Id {} should be generated, but does already exist.",
                                 new_id
                             )));
                         }
+                        new_ids.push(new_id);
                     }
                     generating::edges::Category::Merge {
                         from: _,
-- 
2.43.0


From 7533bd59236414eba2093ad5018b588144ed5937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:19 +0000
Subject: [PATCH 07/29] fix: report an edges-info-file that can not be opened

---
 src/io/parsing/network/edges.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/io/parsing/network/edges.rs b/src/io/parsing/network/edges.rs
index 594488f..0649c0f 100644
--- a/src/io/parsing/network/edges.rs
+++ b/src/io/parsing/network/edges.rs
@@ -18,10 +18,12 @@ impl Parser {
         let path = path.as_ref();
 
         io::network::edges::Parser::check_ext_support(&path)?;
-        let file = OpenOptions::new()
-            .read(true)
-            .open(&path)
-            .expect(&format!("Couldn't open {}", path.display()));
+        let file = match OpenOptions::new().read(true).open(&path) {
+            Ok(file) => file,
+            Err(e) => {
+                return Err(format!("Couldn't open {} due to error: {}", path.display(), e).into())
+            }
+        };
         let mut reader = BufReader::new(file)
             .lines()
             .map(Result::unwrap)
-- 
2.43.0


From 8982b4c903584fdcff7ff8e0fdfa4abca60f3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 08/29] fix: report edge-ids that are shorter than two bytes

---
 src/io/parsing/network/graph/fmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index b8e70f0..6c1e41c 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -190,7 +190,7 @@ impl ProtoShortcut {
                         edge_id = param.parse::<usize>().ok();
 
                         // multi-ch-constructor uses ids like "ch123" for shortcuts
-                        if edge_id.is_none() && &param[0..2] == "ch" {
+                        if edge_id.is_none() && param.starts_with("ch") {
                             edge_id = param[2..].parse::<usize>().ok();
                         }
 
-- 
2.43.0


From c74048775be8d9388475bebf085761e5f9a9d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 09/29] fix: report coordinates that are no number

---
 src/io/parsing/network/graph/fmi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 6c1e41c..feeb71a 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -359,7 +359,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lat '{:?}' from fmi-file, which is not f64.",
-                                    params[2]
+                                    param
                                 ))
                             }
                         };
@@ -370,7 +370,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lon '{:?}' from fmi-file, which is not f64.",
-                                    params[3]
+                                    param
                                 ))
                             }
                         };
-- 
2.43.0


From 3798f705b5aac7ee22f06696f28b83cc872f6f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 10/29] fix: report fmi-files that can't be opened or read

---
 src/io/parsing/network/graph/fmi.rs | 62 ++++++++++++++---------------
 1 file changed, 29 insertions(+), 33 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index feeb71a..a285e01 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -13,6 +13,7 @@ use std::{
     fs::OpenOptions,
     io::{BufRead, BufReader},
     ops::Range,
+    path::Path,
 };
 
 pub struct Parser {
@@ -29,6 +30,25 @@ impl Parser {
     }
 }
 
+/// Lines of the file, which are neither empty nor comments
+fn functional_lines(path: &Path) -> err::Result<impl Iterator<Item = err::Result<String>>> {
+    let path = path.to_owned();
+    match OpenOptions::new().read(true).open(&path) {
+        Ok(file) => Ok(BufReader::new(file)
+            .lines()
+            .map(move |line| {
+                line.map_err(|e| {
+                    format!("Couldn't read {} due to error: {}", path.display(), e).into()
+                })
+            })
+            .filter(|line| match line {
+                Ok(line) => helpers::is_line_functional(line),
+                Err(_) => true,
+            })),
+        Err(e) => Err(format!("Couldn't open {} due to error: {}", path.display(), e).into()),
+    }
+}
+
 impl super::Parsing for Parser {
     /// Remembers range of edge-lines and node-lines
     fn preprocess(&mut self, cfg: &parsing::Config) -> err::Feedback {
@@ -40,15 +60,9 @@ impl super::Parsing for Parser {
         let mut is_taking_counts = false;
         // counts are only metric-count, node-count, edge-count (in this order)
         let mut counts = vec![];
-        let file = OpenOptions::new()
-            .read(true)
-            .open(&cfg.map_file)
-            .expect(&format!("Couldn't open {}", cfg.map_file.display()));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+        for line in functional_lines(&cfg.map_file)? {
+            let line = line?;
+
             // If there is a count, remember it.
             // The first occuring count let `is_taking_counts` getting true.
             // If all counts have been processed, `is_taking_counts` would change to false,
@@ -97,18 +111,9 @@ impl super::Parsing for Parser {
     fn parse_ways(&self, builder: &mut EdgeBuilder) -> err::Feedback {
         info!("START Create edges from input-file.");
         let mut line_number = 0;
-        let file = OpenOptions::new()
-            .read(true)
-            .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+        for line in functional_lines(&builder.cfg().map_file)? {
+            let line = line?;
+
             // check if line contains edge
             if !self.edge_lines.contains(&line_number) {
                 line_number += 1;
@@ -128,18 +133,9 @@ impl super::Parsing for Parser {
     fn parse_nodes(&self, builder: &mut NodeBuilder) -> err::Feedback {
         info!("START Create nodes from input-file.");
         let mut line_number = 0;
-        let file = OpenOptions::new()
-            .read(true)
-            .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+        for line in functional_lines(&builder.cfg().map_file)? {
+            let line = line?;
+
             // check if line contains edge
             if !self.node_lines.contains(&line_number) {
                 line_number += 1;
-- 
2.43.0


From c90930619871a8a4463a442af8bdce2516f073d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 11/29] fix: report node- and edge-counts that are too large

---
 src/io/parsing/network/graph/fmi.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index a285e01..2d301b4 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -56,7 +56,7 @@ impl super::Parsing for Parser {
         super::check_config(cfg)?;
 
         // only functional-lines are counted
-        let mut line_number = 0;
+        let mut line_number: usize = 0;
         let mut is_taking_counts = false;
         // counts are only metric-count, node-count, edge-count (in this order)
         let mut counts = vec![];
@@ -96,12 +96,16 @@ impl super::Parsing for Parser {
 
         // nodes
         let start = line_number;
-        let end = start + node_count;
+        let end = start
+            .checked_add(node_count)
+            .ok_or("The node-count of the fmi-map-file is too large.")?;
         self.node_lines = start..end;
 
         // edges
         let start = end;
-        let end = start + edge_count;
+        let end = start
+            .checked_add(edge_count)
+            .ok_or("The edge-count of the fmi-map-file is too large.")?;
         self.edge_lines = start..end;
 
         info!("FINISHED");
-- 
2.43.0


From acf1d43c4e68370321a6e1606640258f8e0c3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 12/29] fix: report shortcuts referring to edges that do not
 exist

---
 src/network/graph/building.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index db46ff4..11d34af 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -489,9 +489,18 @@ impl GraphBuilder {
             // update shortcuts due to new sorted proto-edges
             for edge in proto_edges.iter() {
                 if let Some(sc_idx) = edge.sc_edges {
-                    let shortcuts = &mut self.proto_shortcuts[sc_idx];
-                    shortcuts[0] = EdgeIdx(new_indices[*shortcuts[0]]);
-                    shortcuts[1] = EdgeIdx(new_indices[*shortcuts[1]]);
+                    for shortcut in self.proto_shortcuts[sc_idx].iter_mut() {
+                        *shortcut = match new_indices.get(**shortcut) {
+                            Some(&new_idx) => EdgeIdx(new_idx),
+                            None => {
+                                return Err(format!(
+                                    "A shortcut refers to edge-idx {}, which does not exist.",
+                                    shortcut
+                                )
+                                .into())
+                            }
+                        };
+                    }
                 }
             }
         }
-- 
2.43.0


From 36c3b281f1d72a1cce3146d070fd4daa1305722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 13/29] fix: report metrics that are not a number

---
 src/network/graph/building.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 11d34af..554227f 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -666,7 +666,7 @@ impl GraphBuilder {
 
         for metrics in &graph.metrics {
             for metric in metrics {
-                if metric < &defaults::accuracy::F64_ABS {
+                if metric.is_nan() || metric < &defaults::accuracy::F64_ABS {
                     return Err(err::Msg::from(
                         "A metric is smaller than accuracy allows it.",
                     ));
-- 
2.43.0


From 49aacd38b42c4d5a2f6ea3efdde75335b06f3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:30 +0000
Subject: [PATCH 14/29] fix: report an edges-info-file that can not be read

---
 src/io/parsing/network/edges.rs | 9 ++++++---
 src/network/graph/building.rs   | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/parsing/network/edges.rs b/src/io/parsing/network/edges.rs
index 0649c0f..b0d1764 100644
--- a/src/io/parsing/network/edges.rs
+++ b/src/io/parsing/network/edges.rs
@@ -14,7 +14,7 @@ impl Parser {
     pub fn new_reader<P: AsRef<Path>>(
         path: &P,
         is_file_with_header: bool,
-    ) -> err::Result<impl Iterator<Item = String>> {
+    ) -> err::Result<impl Iterator<Item = err::Result<String>>> {
         let path = path.as_ref();
 
         io::network::edges::Parser::check_ext_support(&path)?;
@@ -26,8 +26,11 @@ impl Parser {
         };
         let mut reader = BufReader::new(file)
             .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional);
+            .map(|line| line.map_err(err::Msg::from))
+            .filter(|line| match line {
+                Ok(line) => helpers::is_line_functional(line),
+                Err(_) => true,
+            });
 
         // consume header-line
         if is_file_with_header {
diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 554227f..df823e7 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1350,6 +1350,7 @@ impl GraphBuilder {
                         // parse edge-id and metric
 
                         for line in reader {
+                            let line = line?;
                             let params: Vec<&str> = line.split_whitespace().collect();
 
                             // get edge-idx
-- 
2.43.0


From b9e86c1e928ff8664e879873482ff311e7f9798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:01 +0000
Subject: [PATCH 15/29] fix: report fmi-files with heights instead of panicking

---
 src/io/writing/network/graph/fmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/writing/network/graph/fmi.rs b/src/io/writing/network/graph/fmi.rs
index 224594f..046f170 100644
--- a/src/io/writing/network/graph/fmi.rs
+++ b/src/io/writing/network/graph/fmi.rs
@@ -152,7 +152,7 @@ impl Writer {
                                         write!(writer, "{}", node.coord().lon)?
                                     }
                                     nodes::metrics::UnitInfo::Height => {
-                                        unimplemented!("Nodes' height is not supported yet.")
+                                        return Err("Nodes' height is not supported yet.".into())
                                     }
                                 }
                             }
-- 
2.43.0


From ccd8097dd768acbb51abe6ddc07043bcb5a0805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:01 +0000
Subject: [PATCH 16/29] fix: report routes-files that can't be opened or read

---
 src/io/parsing/routing/mod.rs    |  4 +--
 src/io/parsing/routing/routes.rs | 54 ++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/io/parsing/routing/mod.rs b/src/io/parsing/routing/mod.rs
index 43c950a..73fe174 100644
--- a/src/io/parsing/routing/mod.rs
+++ b/src/io/parsing/routing/mod.rs
@@ -10,7 +10,7 @@ impl Parser {
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-            .expect("No routes-file specified.");
+            .ok_or("No routes-file specified.")?;
 
         match Parser::find_supported_ext(route_pairs_file) {
             Ok(_) => routes::Parser::new().parse(cfg),
@@ -30,7 +30,7 @@ trait Parsing {
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-            .expect("No routes-file specified.");
+            .ok_or("No routes-file specified.")?;
 
         match Parser::find_supported_ext(route_pairs_file) {
             Ok(_) => (),
diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 315d435..5c3d923 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -7,6 +7,7 @@ use std::{
     fs::OpenOptions,
     io::{BufRead, BufReader},
     ops::Range,
+    path::Path,
 };
 
 pub struct Parser {
@@ -19,27 +20,38 @@ impl Parser {
     }
 }
 
+/// Lines of the file, which are neither empty nor comments
+fn functional_lines(path: &Path) -> Result<impl Iterator<Item = Result<String, String>>, String> {
+    let path = path.to_owned();
+    match OpenOptions::new().read(true).open(&path) {
+        Ok(file) => Ok(BufReader::new(file)
+            .lines()
+            .map(move |line| {
+                line.map_err(|e| format!("Couldn't read {} due to error: {}", path.display(), e))
+            })
+            .filter(|line| match line {
+                Ok(line) => helpers::is_line_functional(line),
+                Err(_) => true,
+            })),
+        Err(e) => Err(format!("Couldn't open {} due to error: {}", path.display(), e)),
+    }
+}
+
 impl super::Parsing for Parser {
     fn preprocess(&mut self, cfg: &configs::routing::Config) -> err::Feedback {
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-            .expect("No routes-file specified.");
+            .ok_or("No routes-file specified.")?;
 
         // only functional-lines are counted
-        let mut line_number = 0;
+        let mut line_number: usize = 0;
         let mut is_taking_counts = false;
         // counts are only metric-count, node-count, edge-count (in this order)
         let mut counts = vec![];
-        let file = OpenOptions::new()
-            .read(true)
-            .open(route_pairs_file)
-            .expect(&format!("Couldn't open {}", route_pairs_file.display()));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+        for line in functional_lines(route_pairs_file)? {
+            let line = line?;
+
             // If there is a count, remember it.
             // The first occuring count let `is_taking_counts` getting true.
             // If all counts have been processed, `is_taking_counts` would change to false,
@@ -67,7 +79,9 @@ impl super::Parsing for Parser {
         let routes_count = counts.pop().expect("Expect counts.len() >= 1");
 
         let start = line_number;
-        let end = start + routes_count;
+        let end = start
+            .checked_add(routes_count)
+            .ok_or("The routes-count of the routes-file is too large.")?;
         self.route_lines = start..end;
 
         Ok(())
@@ -77,22 +91,16 @@ impl super::Parsing for Parser {
         &self,
         cfg: &configs::routing::Config,
     ) -> Result<Vec<(RoutePair<i64>, usize)>, String> {
-        let mut route_pairs = Vec::with_capacity(self.route_lines.len());
+        let mut route_pairs = Vec::new();
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-            .expect("No routes-file specified.");
+            .ok_or("No routes-file specified.")?;
 
         let mut line_number = 0;
-        let file = OpenOptions::new()
-            .read(true)
-            .open(route_pairs_file)
-            .expect(&format!("Couldn't open {}", route_pairs_file.display()));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+        for line in functional_lines(route_pairs_file)? {
+            let line = line?;
+
             // check if line contains route
             if !self.route_lines.contains(&line_number) {
                 line_number += 1;
-- 
2.43.0


From be5eb4522c32c360ba453bd742b65a7b4fead980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:01 +0000
Subject: [PATCH 17/29] fix: report pbf-files that can't be opened

---
 src/io/parsing/network/graph/pbf.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index bf2f5e5..2e97289 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -8,7 +8,10 @@ use kissunits::geo::Coordinate;
 use log::info;
 use osmpbfreader::{reader::OsmPbfReader, OsmObj};
 use smallvec::smallvec;
-use std::fs::OpenOptions;
+use std::{
+    fs::{File, OpenOptions},
+    path::Path,
+};
 
 pub struct Parser;
 
@@ -18,6 +21,13 @@ impl Parser {
     }
 }
 
+fn open(path: &Path) -> err::Result<File> {
+    match OpenOptions::new().read(true).open(path) {
+        Ok(file) => Ok(file),
+        Err(e) => Err(format!("Couldn't open {} due to error: {}", path.display(), e).into()),
+    }
+}
+
 impl super::Parsing for Parser {
     fn preprocess(&mut self, cfg: &parsing::Config) -> err::Feedback {
         info!("START Start preprocessing pbf-parser.");
@@ -70,13 +80,7 @@ impl super::Parsing for Parser {
 
     fn parse_ways(&self, builder: &mut EdgeBuilder) -> err::Feedback {
         info!("START Create edges from input-file.");
-        let file = OpenOptions::new()
-            .read(true)
-            .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
+        let file = open(&builder.cfg().map_file)?;
 
         for mut way in OsmPbfReader::new(file)
             .par_iter()
@@ -175,10 +179,7 @@ impl super::Parsing for Parser {
         info!("START Create nodes from input-file.");
         let cfg = builder.cfg();
 
-        let file = OpenOptions::new()
-            .read(true)
-            .open(&cfg.map_file)
-            .expect(&format!("Couldn't open {}", cfg.map_file.display()));
+        let file = open(&cfg.map_file)?;
         for node in OsmPbfReader::new(file)
             .par_iter()
             .filter_map(Result::ok)
-- 
2.43.0


From 02c7ab92cdb03e9f541ab77071d3029ad0418164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:19 +0000
Subject: [PATCH 18/29] fix: write no routes of a graph without nodes instead
 of panicking

---
 src/io/writing/routing/random_or_all.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 1d88b37..d8c805d 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -11,7 +11,7 @@ use rand::{
     SeedableRng,
 };
 use std::{
-    cmp::min,
+    cmp::{max, min},
     collections::HashSet,
     fs::OpenOptions,
     io::{BufWriter, Write},
@@ -56,7 +56,8 @@ impl Writer {
             let mut processed_indices = HashSet::new();
 
             let mut rng = rand_pcg::Pcg32::seed_from_u64(self.seed);
-            let die = Uniform::from(0..nodes.count());
+            // a graph without nodes has no routes, but the distribution needs a non-empty range
+            let die = Uniform::from(0..max(nodes.count(), 1));
 
             let mut dijkstra = Dijkstra::new();
 
-- 
2.43.0


From 07a816ebdc0e1b9a620f3bee5e2993927c69200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:19 +0000
Subject: [PATCH 19/29] fix: report generated metrics that are negative or not
 a number

---
 src/network/graph/building.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index df823e7..688a760 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1421,6 +1421,18 @@ impl GraphBuilder {
             }
         }
 
+        // generated metrics have to be valid as well
+
+        for metrics in &graph.metrics {
+            for metric in metrics {
+                if metric.is_nan() || metric < &0.0 {
+                    return Err(err::Msg::from(
+                        "A generated metric is negative or not a number.",
+                    ));
+                }
+            }
+        }
+
         if graph.cfg().edges.metrics.are_normalized {
             info!("DO Normalize metrics:");
 
-- 
2.43.0


From 69097f3a6eaf1c5e5a404de9bca17a5c846ed279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 20/29] fix: write coordinates of the destination as such

---
 src/io/writing/network/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/network/mod.rs b/src/io/writing/network/mod.rs
index 8bb40f4..1c5fe8b 100644
--- a/src/io/writing/network/mod.rs
+++ b/src/io/writing/network/mod.rs
@@ -118,12 +118,12 @@ fn write_edges_to_file<W: Write>(
                                     write!(writer, "{}", dst_idx)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLat => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lat = nodes.coord(dst_idx).lat;
                                     write!(writer, "{}", dst_lat)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLon => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lon = nodes.coord(dst_idx).lon;
                                     write!(writer, "{}", dst_lon)?;
                                 }
-- 
2.43.0


From 756e67408ce19a489b4f28d3c25d8179f8015498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:29 +0000
Subject: [PATCH 21/29] fix: report errors while writing the end of a file

---
 src/io/writing/network/edges.rs         | 2 ++
 src/io/writing/network/graph/fmi.rs     | 1 +
 src/io/writing/routing/random_or_all.rs | 1 +
 src/io/writing/smarts.rs                | 1 +
 4 files changed, 5 insertions(+)

diff --git a/src/io/writing/network/edges.rs b/src/io/writing/network/edges.rs
index 2aaf532..c82e9c1 100644
--- a/src/io/writing/network/edges.rs
+++ b/src/io/writing/network/edges.rs
@@ -54,6 +54,7 @@ impl Writer {
         let mut writer = BufWriter::new(output_file);
 
         write_edges_to_file(&mut writer, graph, writing_cfg)?;
+        writer.flush()?;
 
         info!("FINISHED");
         Ok(())
@@ -118,6 +119,7 @@ impl Writer {
         }) {
             writeln!(writer, "{} {}", fwd_edges.id(edge_idx), values[*edge_idx])?;
         }
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/src/io/writing/network/graph/fmi.rs b/src/io/writing/network/graph/fmi.rs
index 046f170..a9621ed 100644
--- a/src/io/writing/network/graph/fmi.rs
+++ b/src/io/writing/network/graph/fmi.rs
@@ -204,6 +204,7 @@ impl Writer {
             &graph,
             &writing::network::edges::Config::from(writing_cfg.clone()),
         )?;
+        writer.flush()?;
 
         info!("FINISHED");
         Ok(())
diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index d8c805d..dd731a3 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -154,6 +154,7 @@ impl Writer {
         for (src_id, dst_id) in found_route_pairs {
             writeln!(writer, "{} {} {}", src_id, dst_id, 1)?;
         }
+        writer.flush()?;
 
         Ok(())
     }
diff --git a/src/io/writing/smarts.rs b/src/io/writing/smarts.rs
index a96ee52..0708695 100644
--- a/src/io/writing/smarts.rs
+++ b/src/io/writing/smarts.rs
@@ -67,6 +67,7 @@ impl Writer {
         }
 
         writeln!(writer, "</data>")?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From dd7615cf6d9749ea9d0aeb561e538d4f771f8272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:31 +0000
Subject: [PATCH 22/29] fix: parse speeds with blanks around

---
 src/defaults.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defaults.rs b/src/defaults.rs
index 2987328..6290191 100644
--- a/src/defaults.rs
+++ b/src/defaults.rs
@@ -443,7 +443,7 @@ pub mod network {
             };
 
             // parse given maxspeed and return
-            match snippet.parse::<u16>() {
+            match snippet.trim().parse::<u16>() {
                 Ok(maxspeed) => {
                     KilometersPerHour(max(defaults::speed::MIN_KMH.into(), maxspeed) as f64)
                 }
-- 
2.43.0


From c77b21fe5e447089fd9dee290ddc3b0916ddbe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:13 +0000
Subject: [PATCH 23/29] fix: report pbf-files that can't be decoded

---
 src/io/parsing/network/graph/pbf.rs | 34 +++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index 2e97289..ed453c1 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -28,6 +28,10 @@ fn open(path: &Path) -> err::Result<File> {
     }
 }
 
+fn unreadable(path: &Path, e: osmpbfreader::Error) -> err::Msg {
+    format!("Couldn't read {} due to error: {}", path.display(), e).into()
+}
+
 impl super::Parsing for Parser {
     fn preprocess(&mut self, cfg: &parsing::Config) -> err::Feedback {
         info!("START Start preprocessing pbf-parser.");
@@ -82,14 +86,13 @@ impl super::Parsing for Parser {
         info!("START Create edges from input-file.");
         let file = open(&builder.cfg().map_file)?;
 
-        for mut way in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Way(way) => Some(way),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let mut way = match obj {
+                Ok(OsmObj::Way(way)) => way,
+                Ok(_) => continue,
+                Err(e) => return Err(unreadable(&builder.cfg().map_file, e)),
+            };
+
             if way.nodes.len() < 2 {
                 continue;
             }
@@ -180,14 +183,13 @@ impl super::Parsing for Parser {
         let cfg = builder.cfg();
 
         let file = open(&cfg.map_file)?;
-        for node in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Node(node) => Some(node),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let node = match obj {
+                Ok(OsmObj::Node(node)) => node,
+                Ok(_) => continue,
+                Err(e) => return Err(unreadable(&builder.cfg().map_file, e)),
+            };
+
             // add node to graph if it's part of an edge
             builder.insert(ProtoNode {
                 id: node.id.0,
-- 
2.43.0


From da3da14a1e040ebbec2cabf355b57c254f050cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:04 +0000
Subject: [PATCH 24/29] fix: use defaults of vehicles if not given

---
 src/configs/parsing/vehicles.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/configs/parsing/vehicles.rs b/src/configs/parsing/vehicles.rs
index b1c2fed..36f4353 100644
--- a/src/configs/parsing/vehicles.rs
+++ b/src/configs/parsing/vehicles.rs
@@ -34,8 +34,12 @@ pub struct ProtoConfig {
 impl From<RawConfig> for ProtoConfig {
     fn from(raw_cfg: RawConfig) -> ProtoConfig {
         ProtoConfig {
-            category: raw_cfg.category,
-            are_drivers_picky: raw_cfg.are_drivers_picky,
+            category: raw_cfg
+                .category
+                .unwrap_or(defaults::parsing::vehicles::CATEGORY),
+            are_drivers_picky: raw_cfg
+                .are_drivers_picky
+                .unwrap_or(defaults::parsing::vehicles::ARE_DRIVERS_PICKY),
         }
     }
 }
@@ -43,6 +47,6 @@ impl From<RawConfig> for ProtoConfig {
 #[derive(Debug, Deserialize)]
 #[serde(deny_unknown_fields)]
 pub struct RawConfig {
-    pub category: VehicleCategory,
-    pub are_drivers_picky: bool,
+    pub category: Option<VehicleCategory>,
+    pub are_drivers_picky: Option<bool>,
 }
-- 
2.43.0


From 3ed386ba2cee573d833e1e608c8952d0fe5f678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 25/29] fix: index cells of matrices that are no squares

---
 src/helpers/algebra.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/helpers/algebra.rs b/src/helpers/algebra.rs
index ba0423d..ced2444 100644
--- a/src/helpers/algebra.rs
+++ b/src/helpers/algebra.rs
@@ -52,8 +52,7 @@ impl Index<(usize, usize)> for Matrix {
     type Output = f64;
 
     fn index(&self, (row, col): (usize, usize)) -> &f64 {
-        let (_n_rows, n_cols) = self.data.shape();
-        &self.data[n_cols * col + row]
+        &self.data[(row, col)]
     }
 }
 
-- 
2.43.0


From c1a359f6d8194218d274a8f0e0e47ad6f52dbd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 26/29] fix: report conversions to ids that exist already

---
 src/network/graph/building.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 688a760..ffa7beb 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1013,9 +1013,12 @@ impl GraphBuilder {
                         is_file_with_header: _,
                         edge_id: _,
                         edges_info: _,
+                    } => {
+                        // do not check because it's in-place
                     }
-                    | generating::edges::Category::Convert { from: _, to: _ } => {
-                        // do not check because it's in-place, so duplicates would be removed.
+                    generating::edges::Category::Convert { from: _, to } => {
+                        // checked when converting, because previous conversions may remove ids
+                        new_ids.push(&to.id);
                     }
                 }
             }
@@ -1259,6 +1262,29 @@ impl GraphBuilder {
                         graph.cfg.edges.metrics.ids.push(to.id.clone());
                     }
                     generating::edges::Category::Convert { from, to } => {
+                        // if id does already exist
+                        // -> error
+
+                        if from.id != to.id
+                            && graph
+                                .cfg
+                                .edges
+                                .categories
+                                .iter()
+                                .any(|category| match category {
+                                    parsing::edges::Category::Meta { info: _, id }
+                                    | parsing::edges::Category::Metric { unit: _, id } => {
+                                        &to.id == id
+                                    }
+                                    parsing::edges::Category::Ignored => false,
+                                })
+                        {
+                            return Err(err::Msg::from(format!(
+                                "Id {} should be generated, but does already exist.",
+                                to.id
+                            )));
+                        }
+
                         // loop over all edges
                         // and replace their existing metrics
 
-- 
2.43.0


From 9c7a06859621c634b979e2d4e768a95e99ab545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 27/29] fix: explore every alternative route once

---
 src/routing/explorating.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 06eb0a6..d0ec223 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -309,7 +309,11 @@ impl ConvexHullExplorator {
                         // is smaller.
 
                         let is_path_new = Approx(new_alpha_cost) < Approx(any_alpha_cost)
-                            && !new_found_paths.contains(&new_path);
+                            && !self
+                                .found_paths
+                                .values()
+                                .chain(new_found_paths.iter())
+                                .any(|path: &Path| Approx(path.costs()) == Approx(new_path.costs()));
                         if is_path_new {
                             trace!("Push {}", new_path);
                             new_found_paths.push(new_path);
-- 
2.43.0


From 736afe7ddbe00c77a20744935654db9aed500816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:10 +0000
Subject: [PATCH 28/29] fix: keep ignored metrics ignored when exploring

---
 src/routing/explorating.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index d0ec223..6ee1d66 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -270,7 +270,16 @@ impl ConvexHullExplorator {
 
                     // calculate alphas
                     query.routing_cfg.alphas =
-                        if let Some(x) = algebra::Matrix::from_rows(rows).lu().solve(&b) {
+                        if let Some(mut x) = algebra::Matrix::from_rows(rows).lu().solve(&b) {
+                            // alphas of ignored metrics are zero,
+                            // but rounding could make them negative
+                            for (alpha, &is_considered) in
+                                x.iter_mut().zip(&query.is_metric_considered)
+                            {
+                                if !is_considered {
+                                    *alpha = 0.0;
+                                }
+                            }
                             x
                         } else {
                             continue;
-- 
2.43.0


From 1e22841260192c4d1f054580a4b7bfaf39be4d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:12 +0000
Subject: [PATCH 29/29] fix: balance routes counting 0 times

---
 src/bin/osmgraphing/balancing/multithreading.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index d6e42bd..909c285 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -464,10 +464,10 @@ impl Worker {
             if let Some(best_path) = best_path {
                 num_of_found_paths.push(1);
 
-                for _ in 0..(route_count - 1) {
+                // a route may count 0 times
+                for _ in 0..route_count {
                     chosen_paths.push(best_path.clone());
                 }
-                chosen_paths.push(best_path);
             } else {
                 warn!("Didn't find any path when executing Dijkstra.")
             }
-- 
2.43.0

