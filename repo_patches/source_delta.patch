From 7269cfd3fd1843ab05f5feb6b902fcd9f900740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:05 +0000
Subject: [PATCH 1/9] =?UTF-8?q?fix:=20ZDD=20intersect=20of=20the=20unit=20?=
 =?UTF-8?q?family=20{=E2=88=85}=20returned=20the=20other=20operand?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 bddcore/src/zdd_ops.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 4198735..97a095e 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -25,8 +25,16 @@ impl ZddManager {
             (_, Node::Undet) => f,
             (Node::Zero, _) => self.zero(),
             (_, Node::Zero) => self.zero(),
-            (Node::One, _) => g,
-            (_, Node::One) => f,
+            (Node::One, Node::One) => self.one(),
+            // {∅} ∩ g keeps ∅ only if g contains it, i.e. if the 0-edges lead to One.
+            (Node::NonTerminal(fnode), Node::One) => {
+                let f0 = fnode.edge(0);
+                self.intersect(f0, g)
+            }
+            (Node::One, Node::NonTerminal(gnode)) => {
+                let g0 = gnode.edge(0);
+                self.intersect(f, g0)
+            }
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-- 
2.43.0


From 5c2f4d0543ee52b0b3401ab2a660594018642ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:05 +0000
Subject: [PATCH 2/9] fix: ZDD divide lost quotient members and returned undet
 for an empty quotient

---
 bddcore/src/zdd_ops.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 97a095e..fa9333d 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -235,17 +235,23 @@ impl ZddManager {
             (_, Node::Zero) => self.undet(),
             (_, Node::One) => f,
             (Node::Zero, _) => self.zero(),
-            (Node::One, _) => g,
+            // g has a non-empty set, which no set of {∅} can cover.
+            (Node::One, _) => self.zero(),
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-                let f0 = fnode.edge(0);
-                self.divide(f0, g)
+                // The variable does not occur in g: it may occur in the quotient.
+                let (f0, f1) = (fnode.edge(0), fnode.edge(1));
+                let headerid = fnode.headerid();
+                let low = self.divide(f0, g);
+                let high = self.divide(f1, g);
+                self.create_node(headerid, low, high)
             }
             (Node::NonTerminal(_fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) < self.node_level(g) =>
             {
-                self.undet()
+                // g has a set with a variable that no set of f has.
+                self.zero()
             }
             (Node::NonTerminal(fnode), Node::NonTerminal(gnode)) => {
                 let (f0, f1) = (fnode.edge(0), fnode.edge(1));
-- 
2.43.0


From 414dc383321e7b502be3b05bd650f612995baa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:05 +0000
Subject: [PATCH 3/9] fix: MTMDD2 undet_boolean returned the boolean zero
 terminal

---
 mddcore/src/mtmdd2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mddcore/src/mtmdd2.rs b/mddcore/src/mtmdd2.rs
index fe8676d..0a53c56 100644
--- a/mddcore/src/mtmdd2.rs
+++ b/mddcore/src/mtmdd2.rs
@@ -87,7 +87,7 @@ where
 
     #[inline]
     pub fn undet_boolean(&self) -> Node {
-        Node::Bool(self.mtmdd.undet())
+        Node::Bool(self.mdd.undet())
     }
 
     #[inline]
-- 
2.43.0


From dfc6007588d77111f25bfc8658bbf9d4f49f2565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:05 +0000
Subject: [PATCH 4/9] fix: MTMDD2 lte lost the points where the operands are
 equal

---
 mddcore/src/mtmdd2_ops.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mddcore/src/mtmdd2_ops.rs b/mddcore/src/mtmdd2_ops.rs
index c14323c..fcacc1b 100644
--- a/mddcore/src/mtmdd2_ops.rs
+++ b/mddcore/src/mtmdd2_ops.rs
@@ -259,11 +259,9 @@ where
         match (f, g) {
             (Node::Value(fnode), Node::Value(gnode)) => {
                 let resulteq = self.veq(fnode, gnode);
-                if resulteq == self.mdd().one() {
-                    return Node::Bool(self.mdd().one());
-                }
                 let resultlt = self.vlt(fnode, gnode);
-                Node::Bool(resultlt)
+                let result = self.mdd_mut().or(resulteq, resultlt);
+                Node::Bool(result)
             }
             _ => Node::Bool(self.mdd().undet()),
         }
-- 
2.43.0


From 6cedbe36f50c35401dac82c6c2182faa293517da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:05 +0000
Subject: [PATCH 5/9] fix: boolean mdd_count cached counts without the level
 they depend on

---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index b99d257..8a3d78d 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -183,7 +183,7 @@ fn bmdd_count<V, T>(
     mdd: &mdd::MddManager,
     node: NodeId,
     ss: &HashSet<V>,
-    cache: &mut BddHashMap<NodeId, T>,
+    cache: &mut BddHashMap<(NodeId, Option<usize>), T>,
     level: Option<usize>,
     level2headers: &[usize],
 ) -> T
@@ -191,7 +191,7 @@ where
     T: Add<Output = T> + Clone + From<u32> + Mul<Output = T>,
     V: MddValue,
 {
-    let key = node;
+    let key = (node, level);
     if let Some(x) = cache.get(&key) {
         return x.clone();
     }
-- 
2.43.0


From e22067837e111efc4e66432a36222a1eccaccaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:05 +0000
Subject: [PATCH 6/9] fix: mdd_count of a constant ignored the selected states

---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index 8a3d78d..3a3a0c4 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -114,7 +114,7 @@ where
                 }
                 vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
         Node::Bool(fnode) => {
@@ -129,7 +129,7 @@ where
                 }
                 bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
     }
-- 
2.43.0


From 04038e50f06385864dbfa01574beee52a1cbb5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:22 +0000
Subject: [PATCH 7/9] fix: minpath/mincut made new family headers per call, so
 equal families differed

---
 bss/src/zdd_convert.rs  | 9 ++++++++-
 mss/src/zmdd_convert.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/bss/src/zdd_convert.rs b/bss/src/zdd_convert.rs
index 5f2535e..48fd843 100644
--- a/bss/src/zdd_convert.rs
+++ b/bss/src/zdd_convert.rs
@@ -39,7 +39,14 @@ pub(crate) fn to_zdd(
                 Some(&h) => h,
                 None => {
                     let header = src.get_header(&shid).unwrap();
-                    let h = dst.create_header(header.level(), header.label());
+                    // Reuse the header an earlier conversion made for this variable: nodes
+                    // are hash-consed per header, so equal families share one node.
+                    let h = (0..dst.size().0)
+                        .find(|id| {
+                            let d = dst.get_header(id).unwrap();
+                            d.level() == header.level() && d.label() == header.label()
+                        })
+                        .unwrap_or_else(|| dst.create_header(header.level(), header.label()));
                     zh.insert(shid, h);
                     h
                 }
diff --git a/mss/src/zmdd_convert.rs b/mss/src/zmdd_convert.rs
index 167671c..4c12a14 100644
--- a/mss/src/zmdd_convert.rs
+++ b/mss/src/zmdd_convert.rs
@@ -50,7 +50,14 @@ where
     match hmap.get(&shid) {
         Some(&h) => h,
         None => {
-            let h = dst.create_header(level, label, edge_num);
+            // Reuse the header an earlier conversion made for this variable: nodes are
+            // hash-consed per header, so equal families share one node.
+            let h = (0..dst.size().0)
+                .find(|id| {
+                    let d = dst.get_header(id).unwrap();
+                    d.level() == level && d.label() == label && d.edge_num() == edge_num
+                })
+                .unwrap_or_else(|| dst.create_header(level, label, edge_num));
             hmap.insert(shid, h);
             h
         }
-- 
2.43.0


From 1bcb30b7e281a337614409f7f6f70b9833b39729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:22 +0000
Subject: [PATCH 8/9] fix: is_undet was false for the undetermined value

---
 mss/src/mdd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index a21cade..7923a9b 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -709,7 +709,11 @@ where
 
     pub fn is_undet(&self) -> bool {
         match &self.node {
-            Node::Value(x) => false,
+            Node::Value(x) => {
+                let mddmgr = self.parent.upgrade().unwrap();
+                let mdd = mddmgr.borrow();
+                matches!(mdd.mtmdd().get_node(x).unwrap(), mtmdd::Node::Undet)
+            }
             Node::Bool(x) => {
                 let mddmgr = self.parent.upgrade().unwrap();
                 let mdd = mddmgr.borrow();
-- 
2.43.0


From ea6a6b79350e66239d3c5bd4fad841d48185f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:36 +0000
Subject: [PATCH 9/9] fix: rpn panicked on a missing operand instead of
 returning Err

---
 bss/src/bdd.rs |  9 +++++++++
 mss/src/mdd.rs | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/bss/src/bdd.rs b/bss/src/bdd.rs
index 6b2e90c..9420181 100644
--- a/bss/src/bdd.rs
+++ b/bss/src/bdd.rs
@@ -265,6 +265,15 @@ impl BddMgr {
         let mut stack = Vec::new();
         let mut cache = HashMap::new();
         for token in expr.split_whitespace() {
+            let arity = match token {
+                "~" => 1,
+                "&" | "|" | "^" => 2,
+                "?" => 3,
+                _ => 0,
+            };
+            if stack.len() < arity {
+                return Err("Invalid expression".to_string());
+            }
             match token {
                 "0" | "False" => {
                     let bdd = self.bdd.borrow_mut();
diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index 7923a9b..e27d92a 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -298,6 +298,16 @@ where
         let mut stack = Vec::new();
         let mut cache = HashMap::new();
         for token in rpn.split_whitespace() {
+            let arity = match token {
+                "!" => 1,
+                "+" | "-" | "*" | "/" | "min" | "max" | "==" | "!=" | "<" | "<=" | ">" | ">="
+                | "&&" | "||" => 2,
+                "?" => 3,
+                _ => 0,
+            };
+            if stack.len() < arity {
+                return Err("Invalid expression".to_string());
+            }
             match token {
                 "+" => {
                     let mut mdd = self.mdd.borrow_mut();
-- 
2.43.0

