From 816f8dd3331f45aeef5b92ba3e71cb006af6d99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:54 +0000
Subject: [PATCH 1/7] fix: the undetermined boolean of the two-sorted forest is
 the boolean forest's

---
 mddcore/src/mtmdd2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mddcore/src/mtmdd2.rs b/mddcore/src/mtmdd2.rs
index fe8676d..0a53c56 100644
--- a/mddcore/src/mtmdd2.rs
+++ b/mddcore/src/mtmdd2.rs
@@ -87,7 +87,7 @@ where
 
     #[inline]
     pub fn undet_boolean(&self) -> Node {
-        Node::Bool(self.mtmdd.undet())
+        Node::Bool(self.mdd.undet())
     }
 
     #[inline]
-- 
2.43.0


From aaa6da28842dff098dee4ff464ebc417dc59604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:54 +0000
Subject: [PATCH 2/7] fix: lte holds where the operands are equal, not only
 where they are equal everywhere

---
 mddcore/src/mtmdd2_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mddcore/src/mtmdd2_ops.rs b/mddcore/src/mtmdd2_ops.rs
index c14323c..4bdd4e2 100644
--- a/mddcore/src/mtmdd2_ops.rs
+++ b/mddcore/src/mtmdd2_ops.rs
@@ -259,11 +259,8 @@ where
         match (f, g) {
             (Node::Value(fnode), Node::Value(gnode)) => {
                 let resulteq = self.veq(fnode, gnode);
-                if resulteq == self.mdd().one() {
-                    return Node::Bool(self.mdd().one());
-                }
                 let resultlt = self.vlt(fnode, gnode);
-                Node::Bool(resultlt)
+                Node::Bool(self.mdd_mut().or(resultlt, resulteq))
             }
             _ => Node::Bool(self.mdd().undet()),
         }
-- 
2.43.0


From 836819bea92000088beed113e4eeb161093a5cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:54 +0000
Subject: [PATCH 3/7] fix: ZDD intersection with the family of the empty set

---
 bddcore/src/zdd_ops.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index 4198735..bfe0934 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -25,8 +25,15 @@ impl ZddManager {
             (_, Node::Undet) => f,
             (Node::Zero, _) => self.zero(),
             (_, Node::Zero) => self.zero(),
-            (Node::One, _) => g,
-            (_, Node::One) => f,
+            (Node::One, Node::One) => self.one(),
+            (Node::NonTerminal(fnode), Node::One) => {
+                let f0 = fnode.edge(0);
+                self.intersect(f0, self.one())
+            }
+            (Node::One, Node::NonTerminal(gnode)) => {
+                let g0 = gnode.edge(0);
+                self.intersect(self.one(), g0)
+            }
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-- 
2.43.0


From 467f49afe1192d4dfb421944e247b824552b8d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:54 +0000
Subject: [PATCH 4/7] fix: ZDD division is the quotient of the families

---
 bddcore/src/zdd_ops.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/bddcore/src/zdd_ops.rs b/bddcore/src/zdd_ops.rs
index bfe0934..03157db 100644
--- a/bddcore/src/zdd_ops.rs
+++ b/bddcore/src/zdd_ops.rs
@@ -234,24 +234,31 @@ impl ZddManager {
             (_, Node::Zero) => self.undet(),
             (_, Node::One) => f,
             (Node::Zero, _) => self.zero(),
-            (Node::One, _) => g,
+            (Node::One, _) => self.zero(),
             (Node::NonTerminal(fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) > self.node_level(g) =>
             {
-                let f0 = fnode.edge(0);
-                self.divide(f0, g)
+                let (f0, f1) = (fnode.edge(0), fnode.edge(1));
+                let headerid = fnode.headerid();
+                let low = self.divide(f0, g);
+                let high = self.divide(f1, g);
+                self.create_node(headerid, low, high)
             }
             (Node::NonTerminal(_fnode), Node::NonTerminal(_gnode))
                 if self.node_level(f) < self.node_level(g) =>
             {
-                self.undet()
+                self.zero()
             }
             (Node::NonTerminal(fnode), Node::NonTerminal(gnode)) => {
                 let (f0, f1) = (fnode.edge(0), fnode.edge(1));
                 let (g0, g1) = (gnode.edge(0), gnode.edge(1));
-                let x = self.divide(f0, g0);
                 let y = self.divide(f1, g1);
-                self.intersect(x, y)
+                if g0 == self.zero() {
+                    y
+                } else {
+                    let x = self.divide(f0, g0);
+                    self.intersect(x, y)
+                }
             }
         };
         self.cache_put(key, result);
-- 
2.43.0


From f8da4c9b72e35dbcbe15d3e1c51a435dcb8d3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:31 +0000
Subject: [PATCH 5/7] fix: the memo of the boolean state count is per node and
 level

---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index b99d257..8a3d78d 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -183,7 +183,7 @@ fn bmdd_count<V, T>(
     mdd: &mdd::MddManager,
     node: NodeId,
     ss: &HashSet<V>,
-    cache: &mut BddHashMap<NodeId, T>,
+    cache: &mut BddHashMap<(NodeId, Option<usize>), T>,
     level: Option<usize>,
     level2headers: &[usize],
 ) -> T
@@ -191,7 +191,7 @@ where
     T: Add<Output = T> + Clone + From<u32> + Mul<Output = T>,
     V: MddValue,
 {
-    let key = node;
+    let key = (node, level);
     if let Some(x) = cache.get(&key) {
         return x.clone();
     }
-- 
2.43.0


From 25e19c62d615a3507aa11cf4b30a7c6899115bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:31 +0000
Subject: [PATCH 6/7] fix: the state count of a constant depends on the states
 asked for

---
 mss/src/mdd_count.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mss/src/mdd_count.rs b/mss/src/mdd_count.rs
index 8a3d78d..3a3a0c4 100644
--- a/mss/src/mdd_count.rs
+++ b/mss/src/mdd_count.rs
@@ -114,7 +114,7 @@ where
                 }
                 vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                vmdd_count(mdd.mtmdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
         Node::Bool(fnode) => {
@@ -129,7 +129,7 @@ where
                 }
                 bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, Some(level), &level2headers)
             } else {
-                T::from(1)
+                bmdd_count(mdd.mdd(), *fnode, ss, &mut cache, None, &[])
             }
         }
     }
-- 
2.43.0


From a8e40dc288e6e9cab92b7e588b6511f0010be12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:47 +0000
Subject: [PATCH 7/7] fix: rpn reports an operator without enough operands as
 an error instead of panicking

---
 bss/src/bdd.rs | 20 ++++++++--------
 mss/src/mdd.rs | 64 +++++++++++++++++++++++++-------------------------
 2 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/bss/src/bdd.rs b/bss/src/bdd.rs
index 6b2e90c..880d17b 100644
--- a/bss/src/bdd.rs
+++ b/bss/src/bdd.rs
@@ -276,32 +276,32 @@ impl BddMgr {
                 }
                 "&" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Invalid expression")?;
+                    let left = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.and(left, right));
                 }
                 "|" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Invalid expression")?;
+                    let left = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.or(left, right));
                 }
                 "^" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let right = stack.pop().unwrap();
-                    let left = stack.pop().unwrap();
+                    let right = stack.pop().ok_or("Invalid expression")?;
+                    let left = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.xor(left, right));
                 }
                 "~" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let node = stack.pop().unwrap();
+                    let node = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.not(node));
                 }
                 "?" => {
                     let mut bdd = self.bdd.borrow_mut();
-                    let else_ = stack.pop().unwrap();
-                    let then = stack.pop().unwrap();
-                    let cond = stack.pop().unwrap();
+                    let else_ = stack.pop().ok_or("Invalid expression")?;
+                    let then = stack.pop().ok_or("Invalid expression")?;
+                    let cond = stack.pop().ok_or("Invalid expression")?;
                     stack.push(bdd.ite(cond, then, else_));
                 }
                 _ if token.starts_with("save(") && token.ends_with(")") => {
diff --git a/mss/src/mdd.rs b/mss/src/mdd.rs
index a21cade..92a26f4 100644
--- a/mss/src/mdd.rs
+++ b/mss/src/mdd.rs
@@ -301,113 +301,113 @@ where
             match token {
                 "+" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.add(a, b);
                     stack.push(tmp);
                 }
                 "-" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.sub(a, b);
                     stack.push(tmp);
                 }
                 "*" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.mul(a, b);
                     stack.push(tmp);
                 }
                 "/" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.div(a, b);
                     stack.push(tmp);
                 }
                 "min" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.min(a, b);
                     stack.push(tmp);
                 }
                 "max" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.max(a, b);
                     stack.push(tmp);
                 }
                 "==" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.eq(a, b);
                     stack.push(tmp);
                 }
                 "!=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.neq(a, b);
                     stack.push(tmp);
                 }
                 "<" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.lt(a, b);
                     stack.push(tmp);
                 }
                 "<=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.lte(a, b);
                     stack.push(tmp);
                 }
                 ">" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.gt(a, b);
                     stack.push(tmp);
                 }
                 ">=" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.gte(a, b);
                     stack.push(tmp);
                 }
                 "&&" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.and(a, b);
                     stack.push(tmp);
                 }
                 "||" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.or(a, b);
                     stack.push(tmp);
                 }
                 "!" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let a = stack.pop().unwrap();
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.not(a);
                     stack.push(tmp);
                 }
                 "?" => {
                     let mut mdd = self.mdd.borrow_mut();
-                    let c = stack.pop().unwrap();
-                    let b = stack.pop().unwrap();
-                    let a = stack.pop().unwrap();
+                    let c = stack.pop().ok_or("Invalid expression")?;
+                    let b = stack.pop().ok_or("Invalid expression")?;
+                    let a = stack.pop().ok_or("Invalid expression")?;
                     let tmp = mdd.ite(a, b, c);
                     stack.push(tmp);
                 }
-- 
2.43.0

