From cd54c3527fad01b1a308b14c577a50c08328712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 01/31] fix: splicing an array with a shorter prefix of itself
 kept the old length

---
 include/fu/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index caacbdb..ed8fa05 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -961,7 +961,7 @@ struct fu_VEC
             MUT_mid(idx, del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (idx || del != old_size || src_data != old_data) {
+        else if (idx || del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
@@ -1022,7 +1022,7 @@ struct fu_VEC
             MUT_back(del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (del != old_size || src_data != old_data) {
+        else if (del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
-- 
2.43.0


From 022e66c72939066b0815c323640ea74e29ccd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:15 +0000
Subject: [PATCH 02/31] fix: do-while with an empty body or a label gave
 invalid C++, and a hoisted catch variable stayed empty

---
 src/codegen.fu | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/codegen.fu b/src/codegen.fu
index 7bf49d2..50401bf 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -3303,7 +3303,8 @@ pub fn cpp_codegen(
                 ? post ~ ", " ~ post_cond
                 : post_cond;
 
-            return "do" ~ body ~ _indent ~ "while (" ~ post_cond ~ ")" ~ breakLabel;
+            // C++ needs a body here, and a semicolon between the condition and the label.
+            return "do" ~ (body || ";") ~ _indent ~ "while (" ~ post_cond ~ ")" ~ (labelUsed && ";" ~ breakLabel);
         }
 
         if (init || post || !pre_cond)
@@ -3324,6 +3325,10 @@ pub fn cpp_codegen(
         let err_trg = err_let.target;
         let err     = err_trg && localID(err_trg, dedupe: true);
 
+        // It's declared right here, the catch block must not hoist another one.
+        if (err_trg)
+            _current_fn._declared.add(err_trg.locid);
+
         let catch   = blockWrapSubstatement(items[TRY_CATCH]);
 
         //
-- 
2.43.0


From d0f5a636938d214ade4bc0d15ad449135f3b2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 03/31] fix: an array literal using a local twice moved it out
 at the first use

---
 src/solver.fu | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver.fu b/src/solver.fu
index 6b36edf..6cb8280 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -5114,7 +5114,9 @@ pub fn solve(
                 for (mut i = 0; i < items.len; i++)
                     maybeCopyOrMove(items[i], itemSlot);
 
-            for (mut i = 0; i < items.len; i++)
+            // In reverse of evaluation order, as everything else here:
+            //  an item used twice must be moved by its last use.
+            for (mut i = items.len; i --> 0; )
                 propagateType(items[i], :relax_mask,
                     slot: itemSlot);
         }
-- 
2.43.0


From 2e72bf7a87e3826d70a8ac63f4470675ef78bddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 04/31] fix: shift() on a mutable array reference gave invalid
 C++

---
 include/fu/vec_range.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/fu/vec_range.h b/include/fu/vec_range.h
index 212c733..399357c 100644
--- a/include/fu/vec_range.h
+++ b/include/fu/vec_range.h
@@ -364,9 +364,12 @@ struct vec_range_mut
             del);
     }
 
-    // void shift() noexcept {
-    //     MUT_front(One, Zero);
-    // }
+    fu_INL void shift() noexcept {
+        assert(size() > 0);
+
+        if (size())
+            m_vec->splice(Left(), fu_ONE());
+    }
 
     // void shift(fu::i shift) noexcept {
     //     MUT_front(shift, Zero);
-- 
2.43.0


From e0709fdd2d65dbe532c35db4455afe5f6cf6d335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 05/31] fix: -(-x) and +(+x) came out as a decrement and an
 increment

---
 src/codegen.fu | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codegen.fu b/src/codegen.fu
index 50401bf..c637b69 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -2523,7 +2523,14 @@ pub fn cpp_codegen(
 
         fn emitPrefixOp(op: string)
         {
-            return unpromote(op ~ ARG_orZeroIfVoid(0));
+            let arg = ARG_orZeroIfVoid(0);
+
+            // Not `--a` for -(-a), C++ lexes a decrement there.
+            let src = op.if_last == arg.if_first
+                    ? op ~ "(" ~ arg ~ ")"
+                    : op ~ arg;
+
+            return unpromote(src);
         }
 
         fn emitBinaryOp(op: string)
-- 
2.43.0


From 71a93266d9763ea5361285d44f7c8ca7f4664785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 06/31] fix: release builds could copy a small array before
 stores into it (strict aliasing)

---
 src/build.fu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/build.fu b/src/build.fu
index abc21b5..21acbfd 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -403,6 +403,10 @@ pub fn build(
     //  not sure why, since it has observable side-effects.
     O_lvl ~= "-fno-math-errno ";
 
+    // Small arrays keep their items in place of the pointer & size,
+    //  with strict aliasing a copy can miss the stores that came before it.
+    O_lvl ~= "-fno-strict-aliasing ";
+
     // Debug symbols.
     if (bscheme & "debuggable")
         O_lvl ~= "-g ";
-- 
2.43.0


From 610bc708e20a853013601279accf5fa7065cf4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 07/31] fix: hash::if_ref by key did not compile

The visitor and the fallback went in as positional arguments of a call with named ones.
---
 lib/hash.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash.fu b/lib/hash.fu
index 8ab5fff..1ce6e32 100644
--- a/lib/hash.fu
+++ b/lib/hash.fu
@@ -542,7 +542,7 @@ pub inline fn ref(ref map: Map(:<Key>, _, _), key: Key, visit = |ref value| valu
 
 pub inline fn if_ref(ref map: Map(:<Key>, _, _), key: Key, visit, else!?)
 {
-    return map.if_ref(:key, hash: map.hash(key), fn visit, fn else);
+    return map.if_ref(:key, hash: map.hash(key), :fn visit, :fn else);
 }
 
 
-- 
2.43.0


From c0a2fd83623f45445521cce70d48e6ef645b4155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 08/31] fix: an array copied into one argument could be written
 through another

f(copy of v, mutable view of v): the view unshares v as it is made, in the same
unsequenced C++ argument list where the copy is taken; taken after that, the copy
shares again with what the function writes to. Copies are now made first.
---
 src/solver.fu | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/solver.fu b/src/solver.fu
index 6cb8280..6a44674 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -15571,6 +15571,7 @@ pub fn solve(
 
                 mut outer = _inner.steal();
                 mut parallel: Unsequenced;
+                mut unshared: Regions;
                 mut MUSTSEQ_mask = 0;
 
                 let host_args   = node.target.args;
@@ -15639,6 +15640,18 @@ pub fn solve(
                     // Ensure sequencing.
                     if (unsequencedHere)
                     {
+                        // The vec to view_mut conversion, not visible in the AST,
+                        //  unshares the vec within the argument list -
+                        //   copies must happen before, or they'd share again.
+                        //
+                        let copiesWhatGetsUnshared =
+                            !arg.type.is_ref && !arg.type.is_trivial
+                                && unshared.has_inter(_inner.reads);
+
+                        if (host_arg.written_to && arg.type.is_ref
+                            && host_arg.type.is_sliceable && !host_arg.type.TODO_FIX_isArray)
+                                unshared.flag(arg.type.lifetime);
+
                         let note =  _inner.moves.has_inter(parallel.reads) ||
                                     parallel.moves.has_inter(_inner.reads)
                                         ? N_MoveMustSeq
@@ -15648,6 +15661,8 @@ pub fn solve(
                                  :  _inner.writes.arguments.has_inter(parallel.reads.arguments) ||
                                     parallel.writes.arguments.has_inter(_inner.reads.arguments)
                                         ? N_AARMustSeq
+                                 :  copiesWhatGetsUnshared
+                                        ? N_BckMustSeq
                                  :  { continue; };
 
                         makeNote(note);
-- 
2.43.0


From 79a32d02df8ce1fd7d3bee48e46dc1c66ab9c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:08 +0000
Subject: [PATCH 09/31] fix: a by-value mut argument cannot be soft-risked

Such an argument can still be typed as a mutref while arguments at risk are
collected, so a write through an aliased ref argument counted as a soft risk
for it, and the caller passed a view of the very array being written to.
---
 src/solver.fu | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver.fu b/src/solver.fu
index 6a44674..428b570 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -13226,7 +13226,9 @@ pub fn solve(
 
     fn acceptsSoftRisk(t: Target)
     {
-        return t.isArg && !t.acceptsTempCopies();
+        // A by-value mut argument is still typed as a mutref at this point,
+        //  but nothing outside of the function can be changing it.
+        return t.isArg && !t.acceptsTempCopies() && !GET(t).isMutVal;
     }
 
     fn isFieldChain(arg: SolvedNode)
-- 
2.43.0


From de6201e0227fa7901bb388d7f204526dc80c0253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:46 +0000
Subject: [PATCH 10/31] fix: BitSet.add_range drops members past the end in the
 last byte

---
 lib/BitSet.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/BitSet.fu b/lib/BitSet.fu
index b081400..ef0cf88 100644
--- a/lib/BitSet.fu
+++ b/lib/BitSet.fu
@@ -145,7 +145,7 @@ pub fn add_range(using ref _: BitSet, end!: int)
         do  tail |= 1 << (i & 7).u8;
         while (++i < end);
 
-        _data[floorBytes] = tail;
+        _data[floorBytes] |= tail;
     }
 }
 
-- 
2.43.0


From 7e3817e1154fdf7ba50997d24f4a58b07e8e5bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:54 +0000
Subject: [PATCH 11/31] fix: flat::inter, diff and CountedSet.try_decr did not
 compile

---
 src/flat.fu | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/flat.fu b/src/flat.fu
index bba6b53..5cfd386 100644
--- a/src/flat.fu
+++ b/src/flat.fu
@@ -305,7 +305,7 @@ pub fn has_inter(l: Set($T), r: Set($T))
     return false;
 }
 
-pub fn inter(l: Set($T), r: Set($T))
+pub fn inter(l: Set($T), r: Set($T)): Set($T)
 {
     // First, we'll try to return a copy of left -
     //  can't do that if its the longer of the two,
@@ -327,7 +327,7 @@ pub fn inter(l: Set($T), r: Set($T))
         //
         if (!useResult) {
             useResult = true;
-            result = l.slice(0, left);
+            result = l.keys_asc.slice(0, left);
         }
     },
 
@@ -339,7 +339,7 @@ pub fn inter(l: Set($T), r: Set($T))
             result ~= item;
     });
 
-    return useResult ? Set(keys_asc: result) : l;
+    return useResult ? [ keys_asc: result ] : l;
 }
 
 pub fn union(l: Set($T), r: Set($T)): Set($T)
@@ -385,7 +385,7 @@ pub fn diff(from: Set($T), remove: Set($T)): Set($T)
     {
         if (!useResult) {
             useResult = true;
-            result = from.slice(0, right);
+            result = from.keys_asc.slice(0, right);
         }
     },
 
@@ -554,7 +554,7 @@ pub fn incr !T(using mut ref _: CountedSet(T), key: T) {
 }
 
 pub fn try_decr !T(using mut ref _: CountedSet(T), key: T) {
-    counts.if(key): |count, remove| {
+    counts.if(key): |ref count, remove| {
         if !(--count) {
             remove()
             return true
-- 
2.43.0


From ecd332eb9ca158888f3c0db5950bb5464357072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 12/31] fix: BitSet::has_missing reads past the end of the
 shorter set

---
 lib/BitSet.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/BitSet.fu b/lib/BitSet.fu
index ef0cf88..6a88077 100644
--- a/lib/BitSet.fu
+++ b/lib/BitSet.fu
@@ -215,7 +215,7 @@ pub fn has_missing(a: BitSet, b: BitSet)
     if (a._data.len < b._data.len)
         return true;
 
-    for (mut i = 0; i < a._data.len; i++)
+    for (mut i = 0; i < b._data.len; i++)
         if (~a._data[i] & b._data[i])
             return true;
 
-- 
2.43.0


From ebc7abe8b8c8255da33413a9d4f1e13d52d1098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 13/31] fix: assigning an array element to itself aborts debug
 builds

---
 include/fu/vec.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index ed8fa05..cc7f1d2 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -347,7 +347,6 @@ struct fu_VEC
     fu_INL fu_VEC& operator=(const fu_VEC& c) noexcept
     {
         static_assert(COPIABLE, "Cannot copy fu_VECs of non-copiable types.");
-        assert(this != &c);
         return *this = fu_VEC(c);
     }
 
-- 
2.43.0


From 3411187da5a5931d85593baf38046671139e2a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:44 +0000
Subject: [PATCH 14/31] fix: fs::mkdir_p gave up on the second missing parent,
 and reported an error after creating one

A fresh workspace lost one of its directories this way, and the first build in it failed.
---
 lib/fs.fu | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/fs.fu b/lib/fs.fu
index 3bf20e8..6c7bceb 100644
--- a/lib/fs.fu
+++ b/lib/fs.fu
@@ -34,15 +34,14 @@ pub fn mkdir_p(mut path: string, mode = RWX_RWX_RWX): Errno
             if (path[i] != '/')
                 continue;
 
+            // Somebody else may create the parent at the same time.
             ref parent = path[.. i + 1];
-            if (parent.visit() == 0)
-            {
-                pragma emit(`
-
-                    if (mkdir(`path`.data(), mode_t(`mode`)))
-                        `err` = errno;
-                `);
-            }
+            let failed = parent.visit();
+
+            pragma output(`
+                if (!`failed` || `failed` == EEXIST)
+                    `err` = mkdir(`path`.data(), mode_t(`mode`)) ? errno : 0;
+            `);
 
             break;
         }
-- 
2.43.0


From ea0c7291ee36224ff636c943ec02c2855a3c48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 15/31] fix: objects built with other --cflags were taken from
 the cache

---
 src/build.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/build.fu b/src/build.fu
index 21acbfd..b69514a 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -451,7 +451,7 @@ pub fn build(
                 ~ (process::LINUX && "-pthread -ldl ")
                 ;
 
-    shadow let GCChash = tea::hash(GCChash);
+    shadow let GCChash = tea::hash(GCChash ~ flags_cc.join(' '));
 
     //
     fulib ||= path::join(ctx.fudir,
-- 
2.43.0


From d5d8216e2b93855d63d57dbcf544071f90193bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:26 +0000
Subject: [PATCH 16/31] fix: the runtime's object stayed in use after the
 headers it is made of had changed

---
 src/build.fu | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/build.fu b/src/build.fu
index b69514a..9fcb913 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -462,7 +462,12 @@ pub fn build(
     if (let err = file::read(fulib, into: fulib_cpp))
         fail("Failed to read fulib @ " ~ fulib ~ ": " ~ err);
 
-    shadow let fulib_cpp = CodegenOutput(src: fulib_cpp);
+    // The runtime is nothing but its #includes.
+    mut fulib_includes: flat::Set(string);
+    fulib_includes.add("\"" ~ path::filename(fulib) ~ "\"");
+
+    shadow let fulib_cpp = CodegenOutput(
+        src: fulib_cpp, includes_headers: fulib_includes);
 
     // Map modules into translation units,
     //  this is the partial unity build thing,
@@ -673,12 +678,13 @@ pub fn build(
         ref unit        = units[unit_index];
 
         //
+        let start_fname   = i ? module.fname : fulib;
         ref includes_hash = unit.includes_hash;
         for (shadow mut i = 0; i < cpp.includes_headers.len; i++)
         {
             let hash = getIncludeHash(
                 include:        cpp.includes_headers[i],
-                start_fname:    module.fname,
+                :start_fname,
                 include_dirs:   cpp.hacks.include_dirs.keys_asc);
 
             if (hash)
-- 
2.43.0


From 4853f2ed5eb9c32d4a8e5d82678ba123ecf4accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:26 +0000
Subject: [PATCH 17/31] fix: changes to <par/..>, <dl/..> and <lockfree/..>
 headers did not invalidate objects

---
 src/build.fu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/build.fu b/src/build.fu
index 9fcb913..1845d1b 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -603,11 +603,11 @@ pub fn build(
             if (include.starts(with: '"'))
                 return tryFollow(path::dirname(start_fname), f);
 
-            // TODO FIX not all of our headers start with fu/,
-            //  there's the par/ and dl/ nonsense,
-            //   gotta move those back in.
+            // Not all of our headers start with fu/,
+            //  there's also par/, dl/ and lockfree/.
             //
-            if (include.starts(with: "<fu/"))
+            if (include.starts(with: "<fu/")
+                    || file::size(path::join(fudir::FU_INCLUDE, f)) >= 0)
                 return tryFollow(fudir::FU_INCLUDE, f);
 
             if (include_dirs)
-- 
2.43.0


From 5d350ebd5572217117b64a1deef115cbcb318f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:12 +0000
Subject: [PATCH 18/31] fix: headers included with space after the # were not
 tracked

---
 src/build.fu | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/build.fu b/src/build.fu
index 1845d1b..36cde21 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -535,11 +535,22 @@ pub fn build(
             mut hash_all: tea::TEA;
 
             :NEXT_INCLUDE
-            src.split("#include", each: |match, first|
+            src.split("#", each: |match, first|
             {
                 if (first)
                     continue :NEXT_INCLUDE;
 
+                // There can be space in between.
+                mut start = 0;
+                while (start < match.len && (match[start] == ' ' || match[start] == '\t'))
+                    start++;
+
+                shadow let match = match.slice(:start);
+                if !(match.starts(with: "include"))
+                    continue :NEXT_INCLUDE;
+
+                shadow let match = match.slice(start: "include".len);
+
                 fn matchFail(lax reason: string)
                 {
                     let firstNewline = match.find('\n');
-- 
2.43.0


From a529a38f51bafef40e6afc99b584831085f74883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:46 +0000
Subject: [PATCH 19/31] fix: objects that include a header from within a cycle
 of headers were not rebuilt after changes to all of it

---
 src/build.fu | 67 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/build.fu b/src/build.fu
index 36cde21..ee4de86 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -482,7 +482,14 @@ pub fn build(
     //
 
     mut file_invariants: FileInvariants[];
-    mut include_hashes: flat::Map(string, u64);
+    // Contents and direct #includes only, as headers can include each other.
+    struct IncludedFile
+    {
+        hash:       u64;
+        includes:   string[];
+    };
+
+    mut included_files: flat::Map(string, IncludedFile);
 
     fn getIncludeHash(
         include: string,
@@ -492,14 +499,28 @@ pub fn build(
         shadow let fail = |reason|
             fail("Failed to hash the #includes of:\n\t" ~ include.qID ~ "\n\n\t" ~ reason);
 
-        fn tryFollow(dir: string, file: string): u64
+        mut hash_all: tea::TEA;
+        mut visited: flat::Set(string);
+
+        fn visitFile(dir: string, file: string): void
         {
             let path = path::join(dir, file);
+            if !(visited.add(path))
+                return;
 
-            ref hash = include_hashes.ref(path);
-            if (hash)
-                return hash;
+            if !(included_files.has(path))
+                included_files.set(path, readFile(path));
+
+            let included = included_files.get(path);
+            hash_all.hash(included.hash);
+
+            // Traverse #includes recursively.
+            for (mut i = 0; i < included.includes.len; i++)
+                visitInclude(included.includes[i], start_fname: path);
+        }
 
+        fn readFile(path: string): IncludedFile
+        {
             mut stat: file::Stat;
             if (let err = file::stat(:path, into: stat))
                 fail(("E" ~ err).qBAD ~ " while attempting to stat: " ~ path.qBAD);
@@ -514,25 +535,14 @@ pub fn build(
             if (let err = file::read(:path, into: src))
                 fail(("E" ~ err).qBAD ~ " while attempting to read: " ~ path.qBAD);
 
-            shadow let hash = (hash = tea::hash(src).u64);
-
-            // Traverse #includes recursively.
-            mut hash_deep = parseIncludes(:path, :src);
-            if (hash_deep)
-            {
-                shadow ref hash = include_hashes.ref(path);
-
-                hash_deep.hash(hash);
-                return hash = hash_deep.u64;
-            }
-
-            // TODO FIX parse & follow #includes inside
-            return hash;
+            return IncludedFile(
+                hash:       tea::hash(src).u64,
+                includes:   parseIncludes(:path, :src));
         }
 
-        fn parseIncludes(path: string, src: string): tea::TEA
+        fn parseIncludes(path: string, src: string): string[]
         {
-            mut hash_all: tea::TEA;
+            mut includes: string[];
 
             :NEXT_INCLUDE
             src.split("#", each: |match, first|
@@ -595,8 +605,7 @@ pub fn build(
 
                     if (c == endChar)
                     {
-                        shadow let include = match.slice(0, i + 1);
-                        hash_all.hash(visitInclude(:include, start_fname: path));
+                        includes ~= match.slice(0, i + 1);
                         continue :NEXT_INCLUDE;
                     }
                 }
@@ -604,22 +613,22 @@ pub fn build(
                 matchFail("no trailing " ~ (endChar ~ "").qKW);
             });
 
-            return hash_all;
+            return includes;
         }
 
-        fn visitInclude(shadow include: string, shadow start_fname: string): u64
+        fn visitInclude(shadow include: string, shadow start_fname: string): void
         {
             let f = include.slice(1, include.len - 1);
 
             if (include.starts(with: '"'))
-                return tryFollow(path::dirname(start_fname), f);
+                return visitFile(path::dirname(start_fname), f);
 
             // Not all of our headers start with fu/,
             //  there's also par/, dl/ and lockfree/.
             //
             if (include.starts(with: "<fu/")
                     || file::size(path::join(fudir::FU_INCLUDE, f)) >= 0)
-                return tryFollow(fudir::FU_INCLUDE, f);
+                return visitFile(fudir::FU_INCLUDE, f);
 
             if (include_dirs)
             {
@@ -648,10 +657,10 @@ pub fn build(
             //
             // println("  CACHE TODO FIX Assuming " ~ include.qID ~ " is immutable, TODO resolve + hash + follow.");
 
-            return 0;
         }
 
-        return visitInclude(:include, :start_fname);
+        visitInclude(:include, :start_fname);
+        return hash_all.u64;
     }
 
 
-- 
2.43.0


From 2c7c7cc871d5477f5418c5ca42d52d0edf0c9937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:40 +0000
Subject: [PATCH 20/31] fix: builders started in the same microsecond wrote to
 the same temporary files

---
 lib/rand.fu | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/rand.fu b/lib/rand.fu
index 713952e..66f81e7 100644
--- a/lib/rand.fu
+++ b/lib/rand.fu
@@ -2,7 +2,8 @@
 pragma include(
     "<atomic>",
     "<stdint.h>",
-    "<sys/time.h>");
+    "<sys/time.h>",
+    "<unistd.h>");  // getpid
 
 pragma emit(
 `
@@ -15,6 +16,11 @@ pragma emit(
             |  uint64_t(tv.tv_usec)
             | (uint64_t(tv.tv_sec) << 32);
 
+        // Processes that start in the same microsecond
+        //  would otherwise pick the same temporary files.
+        //
+        next ^= uint64_t(getpid()) * 0x9e3779b97f4a7c15u << 1;
+
         for (int i = 0; i < 16; i++)
         {
             next ^= next >> 12;
-- 
2.43.0


From 7584eab1e509ef2e45cfc74af5ba7f7c7827d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:00 +0000
Subject: [PATCH 21/31] fix: hash maps lost keys when what initializes a new
 value throws or jumps away

---
 lib/hash.fu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/hash.fu b/lib/hash.fu
index 1ce6e32..5734553 100644
--- a/lib/hash.fu
+++ b/lib/hash.fu
@@ -361,12 +361,13 @@ fn ref(
 
                 available: |mask, make_fair|
                 {
+                    let value: Value    = init()    // <- init FIRST, throw/return safety
                     ref index_entry     = make_fair()
 
                     type DataEntry      = DataEntry(:Key, :Value)
                     map.data           ~= DataEntry(:key, :hash,
                         collision:  index_entry.data_pos,
-                        value:      init())
+                        :value)
 
                     let data_pos        = DataPos(map.data.len)
                     index_entry         = IndexEntry(:hash, :data_pos)
-- 
2.43.0


From 7a9563da671bb6a068fb70725dee5e644b3a8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:38 +0000
Subject: [PATCH 22/31] fix: arguments whose evaluation does I/O or throws ran
 in whatever order C++ picked

---
 src/solver.fu | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/solver.fu b/src/solver.fu
index 428b570..46dc2fd 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -15478,11 +15478,15 @@ pub fn solve(
             writes:     Regions;
             moves:      Regions;
             reads:      Regions;
+            fx:         FxMask;
         };
 
+        // What can be told apart when it happens in another order.
+        let FX_SEQ = Fx_Input | Fx_Output | Fx_Throws
+                   | Fx_DontMoveUp | Fx_DontMoveDown;
+
         fn clear(ref events: Unsequenced)
-            for (fieldname i: Unsequenced)
-                events.i.clear();
+            events = [];
 
         infix fn |=(ref events: Unsequenced, other: Unsequenced)
             for (fieldname i: Unsequenced)
@@ -15558,6 +15562,9 @@ pub fn solve(
                                 //
                                 dontUse_may_alias: true);
 
+                    if (o.kind == "fn" && _unseqDepth)
+                        _inner.fx |= node.target.fx_mask & FX_SEQ;
+
                     // This handles zero-init constructors.
                     return;
                 }
@@ -15663,7 +15670,7 @@ pub fn solve(
                                  :  _inner.writes.arguments.has_inter(parallel.reads.arguments) ||
                                     parallel.writes.arguments.has_inter(_inner.reads.arguments)
                                         ? N_AARMustSeq
-                                 :  copiesWhatGetsUnshared
+                                 :  copiesWhatGetsUnshared || (_inner.fx && parallel.fx)
                                         ? N_BckMustSeq
                                  :  { continue; };
 
@@ -15682,6 +15689,9 @@ pub fn solve(
                 //
                 if (unsequencedOutside)
                 {
+                    // Effects happen inside the fn too,
+                    //  so after the args have evaluated.
+                    outer.fx |= node.target.fx_mask & FX_SEQ;
                     outer |= _inner;
                     outer |= parallel;
                     swap(_inner, outer);
@@ -15710,6 +15720,11 @@ pub fn solve(
                 return;
             }
 
+            if (node.kind == "pragma" && _unseqDepth)
+                _inner.fx |= node.value == "clock"  ? EFFECTS_clock  & FX_SEQ
+                           : node.value == "input"  ? EFFECTS_input  & FX_SEQ
+                           : node.value == "output" ? EFFECTS_output & FX_SEQ : [];
+
             if (node.kind == "move")
             {
                 // Track moves.
-- 
2.43.0


From 7b59039655154353b754e8e63036508e4be4f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:38 +0000
Subject: [PATCH 23/31] fix: a variable captured by value was read before the
 arguments that change it

---
 src/codegen.fu | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/codegen.fu b/src/codegen.fu
index c637b69..e385ebd 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -2409,6 +2409,7 @@ pub fn cpp_codegen(
 
                 ooe_crosscheck |= MUSTSEQ_bit;
 
+                let canWrite = !arg.is_mutref;
                 fn rest_isPointlessMustSeq()
                 {
                     argsForward(
@@ -2419,6 +2420,13 @@ pub fn cpp_codegen(
                             shadow let arg = args[i];
                             if (!arg.isPointlessMustSeq(host_arg))
                                 return false;
+
+                            // Captured by value: this reads what the previous
+                            //  arguments might be about to change.
+                            if (canWrite && host_arg.flags & F_IMPLICIT
+                                    && !host_arg.type.is_mutref
+                                    && host_arg.type.isPassByValue)
+                                return false;
                         });
 
                     return true;
-- 
2.43.0


From 374399e8703b550ded0205f46820e9bc4522a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 24/31] fix: lock-free stack asserted on the contents of nodes
 others had already popped

---
 include/lockfree/stack.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/lockfree/stack.hpp b/include/lockfree/stack.hpp
index 7706349..0ff276a 100644
--- a/include/lockfree/stack.hpp
+++ b/include/lockfree/stack.hpp
@@ -36,9 +36,10 @@ namespace lockfree
             //  ours are 44bit because 16-byte align,
             //   so we use the rest for a u20 ABA tag.
 
-                                            //            ####    ####
-            assert(!(u64(ptr) & ~PTR_4x));  // e.g. 0x0000fffffffffff0
-                                            //        ####    ####
+            //
+            // No validation here - try_pop may well be looking at
+            //  the memory of a node that is long gone,
+            //   the tag makes sure nobody else gets to see that.
 
             return  (u64(ptr)    >>     ALIGN_BITS)
                  | ((lastID + 1) << (48-ALIGN_BITS));
@@ -72,6 +73,10 @@ namespace lockfree
                 last->next.store(untag(state0),
                     std::memory_order_relaxed);
 
+                                                  //            ####    ####
+                assert(!(u64(first) & ~PTR_4x));  // e.g. 0x0000fffffffffff0
+                                                  //        ####    ####
+
                 const u64 state1 = tag(first, tagof(state0));
 
                 assert(untag(state1) == first);
-- 
2.43.0


From 3734622024089f8706a202d3979aa2c106924a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 25/31] fix: data race between the last owner of an array
 writing to it and former owners that had read it

---
 include/fu/mem/arc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fu/mem/arc.h b/include/fu/mem/arc.h
index dcd15fa..7ebd5fd 100644
--- a/include/fu/mem/arc.h
+++ b/include/fu/mem/arc.h
@@ -55,8 +55,10 @@ struct alignas(16) fu_ARC
     }
 
     fu_INL bool unique() const noexcept {
+        // Acquire, whoever else had a hold of this
+        //  must be done reading it before we write.
         return 0 == m_arc.load(
-            std::memory_order_relaxed );
+            std::memory_order_acquire );
     }
 };
 
-- 
2.43.0


From 66f4ee561a2746aebf1242b4b60ce15f8276bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 26/31] fix: codepoints read past the end of a text whose last
 character is cut short

---
 lib/unicode.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/unicode.fu b/lib/unicode.fu
index 0759b70..42edde0 100644
--- a/lib/unicode.fu
+++ b/lib/unicode.fu
@@ -60,7 +60,7 @@ fn codepoints(utf8: byte[..], each, error?)
 
                 //
                 let i1 = i + extra;
-                if (utf8.len < i1) {
+                if (utf8.len <= i1) {
                     break :BREAK_ON_ERROR;
                 }
 
-- 
2.43.0


From c39eceb86e73e9981536ba6da3a5a427d51df505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 27/31] fix: trim took bytes of non-ascii characters for blanks

---
 lib/ascii.fu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ascii.fu b/lib/ascii.fu
index 6aba4f6..d524327 100644
--- a/lib/ascii.fu
+++ b/lib/ascii.fu
@@ -61,12 +61,12 @@ fn trim(str: string or byte[..])
 {
     mut start = 0;
     for (; start < str.len; start++)
-        if (str[start] > ' ')
+        if (str[start].u32 > ' '.u32)
             break;
 
     mut end = str.len;
     for (; end --> start; )
-        if (str[end] > ' ')
+        if (str[end].u32 > ' '.u32)
             break;
 
     return str[start .. end + 1];
-- 
2.43.0


From b7d155d4d9d2b4fc701179fef36983415f0e279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:22 +0000
Subject: [PATCH 28/31] fix: floats of 57 digits and more were cut short when
 converted to strings

---
 include/fu/decstr.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fu/decstr.cpp b/include/fu/decstr.cpp
index fbc31b8..9f84b0f 100644
--- a/include/fu/decstr.cpp
+++ b/include/fu/decstr.cpp
@@ -39,13 +39,14 @@ fu_EXPORT fu::str fu::i64dec(int64_t num)
 
 fu_EXPORT fu::str fu::f64dec(double num)
 {
-    char buffer[64];
-    int len = snprintf(buffer, 64, "%f", num);
+    // A sign, up to 309 digits, a dot, six more digits, and the terminator.
+    char buffer[320];
+    int len = snprintf(buffer, sizeof(buffer), "%f", num);
 
     fu::str res;
     res.UNSAFE__init_copy(
         buffer,
-        len > 0 ? len < 64 ? len : 64 : 0);
+        len > 0 ? len : 0);
 
     return res;
 }
-- 
2.43.0


From 8899866139e54ed3ed67d750c8288cebb5f41aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:27 +0000
Subject: [PATCH 29/31] fix: noext of a path without an extension was empty

---
 lib/path.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/path.fu b/lib/path.fu
index 229f074..43e4716 100644
--- a/lib/path.fu
+++ b/lib/path.fu
@@ -20,7 +20,7 @@ fn noext(path: string): string
         if (c == '/') break;
     }
 
-    return "";
+    return path;
 }
 
 fn dirname(path: string): string
-- 
2.43.0


From 10dd41b30dec9890cf2152810dc8d93cb8e32423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:27 +0000
Subject: [PATCH 30/31] fix: normalize dropped leading '..' in pairs, and lost
 the root above the first name

---
 lib/path.fu | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/path.fu b/lib/path.fu
index 43e4716..7e7e249 100644
--- a/lib/path.fu
+++ b/lib/path.fu
@@ -52,14 +52,21 @@ fn normalize(p: string): string
     }
 
     for (mut i = 1; i < path.len; i++) {
-        if (path[i] == "..")
+        if (path[i] == ".." && path[i - 1] != "..")
         {
-            path.splice(--i, 2);
+            // Nothing above the root.
+            if (i == 1 && !path[0])
+                path.splice(i, 1);
+            else
+                path.splice(--i, 2);
+
             if (i) i--;
         }
     }
 
-    return path.join('/');
+    return path.len == 1 && p.starts(with: '/')
+         ? "/"
+         : path.join('/');
 }
 
 fn relative(from: string, to: string): string
-- 
2.43.0


From 17da64594f970c3a3afff4780d627570ecb29fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:27 +0000
Subject: [PATCH 31/31] fix: path::join with an empty first path went to the
 root

---
 lib/path.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/path.fu b/lib/path.fu
index 7e7e249..3d4e810 100644
--- a/lib/path.fu
+++ b/lib/path.fu
@@ -96,7 +96,7 @@ fn relative(from: string, to: string): string
 
 fn join(a: string, b: string): string
 {
-    return normalize (b.starts  (with: '/') ?           b
+    return normalize (b.starts  (with: '/') || !a ?     b
                     : a.ends    (with: '/') ? a       ~ b
                                             : a ~ '/' ~ b);
 }
-- 
2.43.0

