From 7166a9513f9aa81b154ce0b58154dddbc3c8273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:32 +0000
Subject: [PATCH 01/22] fix: do not treat a path that cannot be examined as
 missing

A failing stat made the test resources silently disappear from the output.
Only a path that is known not to exist is now reported as absent; any other
trouble surfaces in the operation that follows.
---
 src/vxlisp/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index caf3933..2328287 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -27,7 +27,7 @@ func BooleanExistsFromPath(
 	_, err := os.Stat(path)
 	if err == nil {
 		output = true
-	} else if os.IsExist(err) {
+	} else if !os.IsNotExist(err) {
 		output = true
 	}
 	return output
-- 
2.43.0


From 649af0166c34f520e849d5e732e8f7ab66d3bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:32 +0000
Subject: [PATCH 02/22] fix: report folders and files that cannot be listed

The walk over the sources ignored its error argument, so an unreadable folder
dropped packages from the output without a message and an unreadable file
crashed the compiler.
---
 src/vxlisp/file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index 2328287..9dfc3d0 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -145,6 +145,9 @@ func ListStringReadFromPathExtension(
 		err := filepath.Walk(
 			path,
 			func(path string, info os.FileInfo, err error) error {
+				if err != nil {
+					return err
+				}
 				if info.IsDir() {
 				} else if extension != "" && !BooleanFromStringEnds(path, extension) {
 				} else {
-- 
2.43.0


From 4ee2da495dba199c80ee5b491b9565209bcc6578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:32 +0000
Subject: [PATCH 03/22] fix: copy test resources safely over an earlier copy

- A link copied by an earlier build made every later build fail.
- A link that became a file or folder was followed, so the copy landed outside
  the target folder.
- Errors from creating folders and closing files were dropped.
---
 src/vxlisp/file.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/vxlisp/file.go b/src/vxlisp/file.go
index 9dfc3d0..aa5fed7 100644
--- a/src/vxlisp/file.go
+++ b/src/vxlisp/file.go
@@ -50,9 +50,23 @@ func FolderCopyFromSourceTarget(
 		suffix := strings.TrimPrefix(path, sourcepath)
 		outpath := filepath.Join(targetpath, suffix)
 
+		// never copy through a link left by an earlier copy
+		if suffix != "" {
+			outinfo, err := os.Lstat(outpath)
+			if err == nil {
+				if outinfo.Mode()&os.ModeSymlink != 0 {
+					err = os.Remove(outpath)
+				}
+			} else if os.IsNotExist(err) {
+				err = nil
+			}
+			if err != nil {
+				return err
+			}
+		}
+
 		if info.IsDir() {
-			os.MkdirAll(outpath, info.Mode())
-			return nil // means recursive
+			return os.MkdirAll(outpath, info.Mode()) // nil means recursive
 		}
 
 		// handle irregular files
@@ -82,14 +96,17 @@ func FolderCopyFromSourceTarget(
 		if err != nil {
 			return err
 		}
-		defer fh.Close()
 
 		// make it the same
 		fh.Chmod(info.Mode())
 
 		// copy content
 		_, err = io.Copy(fh, in)
-		return err
+		if err != nil {
+			fh.Close()
+			return err
+		}
+		return fh.Close()
 	})
 	if walkerror != nil {
 		msgblock = MsgblockAddException(msgblock, walkerror)
-- 
2.43.0


From 6c4ef6e3d13973e97f90d7aa5cc18f2d7d3dac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:32 +0000
Subject: [PATCH 04/22] fix: keep building when build.log cannot be created

The compiler crashed when it could not create its log in the current folder.
It now says so and carries on without a log.
---
 src/vxlisp/msg.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/vxlisp/msg.go b/src/vxlisp/msg.go
index acc0a05..d6bb989 100644
--- a/src/vxlisp/msg.go
+++ b/src/vxlisp/msg.go
@@ -133,7 +133,8 @@ func MsgStartLog() {
 	var err error
 	outputFile, err = os.Create("build.log")
 	if err != nil {
-		panic(err)
+		fmt.Println("build.log cannot be written:", err)
+		return
 	}
 	outputWriter = bufio.NewWriter(outputFile)
 	outputlog = true
@@ -141,7 +142,10 @@ func MsgStartLog() {
 
 func MsgStopLog() {
 	if outputlog {
-		outputWriter.Flush()
+		err := outputWriter.Flush()
+		if err != nil {
+			fmt.Println("build.log cannot be written:", err)
+		}
 		outputFile.Close()
 	}
 }
@@ -212,9 +216,11 @@ func MsgblockLog(
 	msgblock *vxmsgblock) {
 	text := StringFromMsgblock(msgblock)
 	fmt.Println(text)
-	_, err := fmt.Fprintln(outputWriter, text)
-	if err != nil {
-		fmt.Println(err)
+	if outputlog {
+		_, err := fmt.Fprintln(outputWriter, text)
+		if err != nil {
+			fmt.Println(err)
+		}
 	}
 }
 
-- 
2.43.0


From 5158d3e678b04b915b194fb57b1985fb09e345d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:16 +0000
Subject: [PATCH 05/22] fix: reject a source file that ends inside a top level
 form

Only blocks nested below the top level were checked at the end of the text, so
a file cut inside its last form was accepted and that form lost.
---
 src/vxlisp/textblock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/textblock.go b/src/vxlisp/textblock.go
index eb3bf14..0f4e077 100644
--- a/src/vxlisp/textblock.go
+++ b/src/vxlisp/textblock.go
@@ -385,7 +385,7 @@ func TextblockParse(textblock *vxtextblock) (*vxtextblock, *vxmsgblock) {
 		}
 		lastchar = char
 	}
-	for _, stateblock := range blockstack {
+	for _, stateblock := range append(blockstack, phrase) {
 		state = stateblock.blocktype
 		switch state {
 		case BLOCKTYPE_UNDEFINED:
-- 
2.43.0


From 3123845acfde52ab804aed4ca05dec50dec8b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:55 +0000
Subject: [PATCH 06/22] fix: keep the value of a C++ future alive while it is
 held

sync_value() stores the value of its future but did not count itself as
an owner. The later release then freed the value while the caller was
still using it.
---
 dist/vxlisp/vx/core_cpp.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dist/vxlisp/vx/core_cpp.txt b/dist/vxlisp/vx/core_cpp.txt
index 7969216..7e9c901 100644
--- a/dist/vxlisp/vx/core_cpp.txt
+++ b/dist/vxlisp/vx/core_cpp.txt
@@ -791,6 +791,7 @@ let-async
         if (future) {
           future->wait();
           value = future->get();
+          vx_core::vx_reserve(value);
           this->future = NULL;
           delete future;
         }
-- 
2.43.0


From 3812891fc1fe97763f22b3ffaaeaf43d498b7387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:44 +0000
Subject: [PATCH 07/22] fix: keep error messages of the items of an
 asynchronous list

list<-list-async built its result without looking at the messages of the
items, so a failed item left no trace on the list. Merge them as vx_new does.
---
 dist/vxlisp/vx/core.vxlisp   | 4 ++++
 dist/vxlisp/vx/core_java.txt | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index b83dca2..3302d5d 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -2750,6 +2750,10 @@
       const future = Promise.all(listfuture)
       output = await future
       output['vx_type'] = generic_list_1
+      const msgblock = vx_core.vx_msgblock_from_copy_listval(generic_list_1, output)
+      if (msgblock != vx_core.e_msgblock) {
+        output['vx_msgblock'] = msgblock
+      }
     }")
  :doc "Returns an asynchronous list of the processed asynchronous items from another list")
 
diff --git a/dist/vxlisp/vx/core_java.txt b/dist/vxlisp/vx/core_java.txt
index cb447c1..3169686 100644
--- a/dist/vxlisp/vx/core_java.txt
+++ b/dist/vxlisp/vx/core_java.txt
@@ -719,7 +719,7 @@
       generic_list_1,
       async_list_result,
       (list_result) -> {
-        X work = Core.f_any_from_any(generic_list_1, generic_list_1.vx_new(list_result));
+        X work = Core.f_any_from_any(generic_list_1, generic_list_1.vx_new(list_result.toArray()));
         return work;
       }
     );
-- 
2.43.0


From 93de53841286af35798240504477332466818a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:44 +0000
Subject: [PATCH 08/22] fix: keep all error messages when a JavaScript value is
 copied

Copying a value replaced the messages of the added values with its own.
Copying a message block dropped what it already held.
A text built from a value with messages came out as [object Object].
---
 dist/vxlisp/vx/core_js.txt | 66 +++++++-------------------------------
 1 file changed, 11 insertions(+), 55 deletions(-)

diff --git a/dist/vxlisp/vx/core_js.txt b/dist/vxlisp/vx/core_js.txt
index 5f62151..d52013e 100644
--- a/dist/vxlisp/vx/core_js.txt
+++ b/dist/vxlisp/vx/core_js.txt
@@ -406,7 +406,7 @@
     }
     for (const subobj of values) {
       const submsgblock = vx_core.vx_msgblock_from_any(subobj)
-      if (submsgblock != vx_core.e_msgblock) {
+      if (submsgblock != vx_core.e_msgblock && !listmsgblock.includes(submsgblock)) {
         listmsgblock.push(submsgblock)
       }
     }
@@ -455,10 +455,6 @@
         output = copy
       } else {
         output = copy['vx_value']
-        const msgblockcopy = copy['vx_msgblock']
-        if (msgblockcopy != undefined) {
-          msgblock = msgblockcopy
-        }
       }
       values.map(value => {
         switch (typeof value) {
@@ -519,10 +515,6 @@
         output = copy
       } else {
         output = copy['vx_value']
-        const msgblockcopy = copy['vx_msgblock']
-        if (msgblockcopy != undefined) {
-          msgblock = msgblockcopy
-        }
       }
       values.map(value => {
         switch (typeof value) {
@@ -611,10 +603,6 @@
         output = copy
       } else {
         output = copy['vx_value']
-        const msgblockcopy = copy['vx_msgblock']
-        if (msgblockcopy != undefined) {
-          msgblock = msgblockcopy
-        }
       }
       values.map(value => {
         switch (typeof value) {
@@ -774,10 +762,6 @@
         output = copy
       } else {
         output = copy['vx_value']
-        const msgblockcopy = copy['vx_msgblock']
-        if (msgblockcopy != undefined) {
-          msgblock = msgblockcopy
-        }
       }
       values.map(value => {
         switch (typeof value) {
@@ -797,10 +781,8 @@
           switch (valuetype) {
           case vx_core.t_int:
           case vx_core.t_float:
-            output += '' + value
-            break
           case vx_core.t_string:
-            output += value
+            output += '' + value['vx_value']
             break
           case vx_core.t_msgblock:
             msgblock = value
@@ -848,10 +830,6 @@
         if (type == typedef) {
         } else {
           fn = copy['vx_value']
-          const msgblockcopy = copy['vx_msgblock']
-          if (msgblockcopy != undefined) {
-            msgblock = msgblockcopy
-          }
         }
         values.map(value => {
           if (value == empty) {
@@ -906,10 +884,6 @@
         if (type == typedef) {
         } else {
           listvals = copy.slice()
-          const msgblockcopy = copy['vx_msgblock']
-          if (msgblockcopy != undefined) {
-            msgblock = msgblockcopy
-          }
         }
         allowtypes = vx_core.f_allowtypes_from_typedef(typedef)
         if (allowtypes.includes(vx_core.t_any)) {
@@ -988,10 +962,6 @@
       case ':map':
         if (type != typedef) {
           propmap = Object.assign({}, copy['vx_value'])
-          const msgblockcopy = copy['vx_msgblock']
-          if (msgblockcopy != undefined) {
-            msgblock = msgblockcopy
-          }
         }
         allowtypes = vx_core.f_allowtypes_from_typedef(typedef)
         if (allowtypes.includes(vx_core.t_any)) {
@@ -1078,17 +1048,8 @@
         }
         break
       case ':struct':
-        switch (typedef) {
-        case vx_core.t_msgblock:
-        case type:
-          break
-        default:
+        if (type != typedef) {
           propmap = Object.assign({}, copy['vx_value'])
-          const msgblockcopy = copy['vx_msgblock']
-          if (msgblockcopy != undefined) {
-            msgblock = msgblockcopy
-          }
-          break
         }
         if (values.length > 0) {
           const properties = vx_core.f_properties_from_typedef(typedef)
@@ -1138,16 +1099,13 @@
                   // invalid msg cannot contain msgblock
                   break
                 case vx_core.t_msgblock:
-                  if (value == vx_core.e_msgblock) {
-                  } else if (msgblock == vx_core.e_msgblock) {
-                    msgblock = value
+                  if (value == vx_core.e_msgblock || value == copy) {
+                  } else if (Object.keys(propmap).length == 0) {
                     propmap = Object.assign({}, value['vx_value'])
                   } else {
-                    let msgblocks = propmap['msgblocks']
-                    if (msgblocks == undefined) {
-                      msgblocks = [value]
-                      msgblocks['vx_type'] = vx_core.t_msgblocklist
-                    } else {
+                    const msgblocks = (propmap['msgblocks'] || []).slice()
+                    msgblocks['vx_type'] = vx_core.t_msgblocklist
+                    if (!msgblocks.includes(value)) {
                       msgblocks.push(value)
                     }
                     propmap['msgblocks'] = msgblocks
@@ -1164,11 +1122,9 @@
                   // invalid msg cannot contain msg
                   break
                 case vx_core.t_msgblock:
-                  let msgs = propmap['msgs']
-                  if (msgs == undefined) {
-                    msgs = [value]
-                    msgs['vx_type'] = vx_core.t_msglist
-                  } else {
+                  const msgs = (propmap['msgs'] || []).slice()
+                  msgs['vx_type'] = vx_core.t_msglist
+                  if (!msgs.includes(value)) {
                     msgs.push(value)
                   }
                   propmap['msgs'] = msgs
-- 
2.43.0


From d64995a4da84ebdf2c9636909cd683544cb3cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:55 +0000
Subject: [PATCH 09/22] fix: give the empty value of the requested type for a
 missing value

Reading a state value or map entry that does not exist returned the untyped
empty value. Java programs then failed with a cast error, C++ programs got a
null pointer and JavaScript programs an object of the wrong type.
---
 dist/vxlisp/vx/core.vxlisp   | 12 +++++++++---
 dist/vxlisp/vx/core_java.txt |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 3302d5d..5e40627 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1471,13 +1471,17 @@
  [value : any-2]
  (native
   :cpp
-   "output = vx_core::vx_any_from_any(generic_any_1, value);"
+   "if (value != vx_core::e_any) {
+      output = vx_core::vx_any_from_any(generic_any_1, value);
+    }"
   :csharp
    "if (value is T tval) {
       output = tval;
     }"
   :js
-   "value")
+   "if (value !== vx_core.e_any) {
+      output = value
+    }")
  :doc "Function Type taking any value any-2 and returning generic any-1")
 
 (func any<-any-async : any-1
@@ -1669,7 +1673,9 @@
  (native
   :cpp
    "vx_core::Type_any val = valuemap->vx_get_any(key);
-    output = vx_core::vx_any_from_any(generic_any_1, val);"
+    if (val != vx_core::e_any) {
+      output = vx_core::vx_any_from_any(generic_any_1, val);
+    }"
   :csharp
    "Vx.Core.vx_any_from_map(generic_any_1, valuemap, key);"
   :java
diff --git a/dist/vxlisp/vx/core_java.txt b/dist/vxlisp/vx/core_java.txt
index 3169686..767af49 100644
--- a/dist/vxlisp/vx/core_java.txt
+++ b/dist/vxlisp/vx/core_java.txt
@@ -220,7 +220,9 @@
     final U value
   ) {
     T output = Core.f_empty(generic_any_1);
-    output = (T)value;
+    if (value != Core.e_any) {
+      output = (T)value;
+    }
     return output;
   }
 
-- 
2.43.0


From ab2449426b09f707fbffd590e66b2e23b04b5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:55 +0000
Subject: [PATCH 10/22] fix: let C++ maps of any value accept values of every
 type

Writing to such a map was refused unless the value had the type any itself,
so a second write to a state map was lost.
---
 src/vxlisp/lang-cpp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index f581a86..5a24101 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -2061,7 +2061,9 @@ func CppBodyFromType(
 				"\n"
 		}
 		allowval := ""
+		allowset := "valtype == " + allowttype
 		if allowname == "any" {
+			allowset = "valtype"
 			allowval += "" +
 				"\n        map[key] = val;"
 		} else {
@@ -2086,7 +2088,7 @@ func CppBodyFromType(
 			"\n    " + LangPkgNameDot(lang, "vx/core") + "Type_boolean " + classname + "::vx_set(" + LangPkgNameDot(lang, "vx/core") + "Type_string name, " + LangPkgNameDot(lang, "vx/core") + "Type_any value) {" +
 			"\n      " + LangPkgNameDot(lang, "vx/core") + "Type_boolean output = " + LangPkgNameDot(lang, "vx/core") + "c_false;" +
 			"\n      " + LangPkgNameDot(lang, "vx/core") + "Type_any valtype = value->vx_type();" +
-			"\n      if (valtype == " + allowttype + ") {" +
+			"\n      if (" + allowset + ") {" +
 			"\n        " + allowclass + " newval = " + LangPkgNameDot(lang, "vx/core") + "vx_any_from_any(" + allowttype + ", value);" +
 			"\n        std::string key = name->vx_string();" +
 			"\n        if (" + LangPkgNameDot(lang, "vx/core") + "vx_boolean_from_string_starts(key, \":\")) {" +
-- 
2.43.0


From 073c535d272354a23d8f24ea500790aec5d2a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:35 +0000
Subject: [PATCH 11/22] fix: report failed reads and writes of files in C++

A C++ program that could not write a file crashed or reported success.
A read that failed half way gave the first part of the text, and the
last line end was dropped.
---
 dist/vxlisp/vx/data/file_cpp.txt | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/dist/vxlisp/vx/data/file_cpp.txt b/dist/vxlisp/vx/data/file_cpp.txt
index 0c7be4b..f5b4859 100644
--- a/dist/vxlisp/vx/data/file_cpp.txt
+++ b/dist/vxlisp/vx/data/file_cpp.txt
@@ -50,10 +50,15 @@
     if (filestream.is_open()) {
       filestream << text;
       filestream.close();
-      output = vx_core::c_true;
+      if (filestream.fail()) {
+        vx_core::Type_msg msg = vx_core::vx_msg_from_errortext("File write failed:" + path);
+        output = vx_core::vx_new(vx_core::t_boolean, {msg});
+      } else {
+        output = vx_core::c_true;
+      }
     } else {
       vx_core::Type_msg msg = vx_core::vx_msg_from_errortext("File not found:" + path);
-      output = vx_core::vx_copy(vx_core::c_false, {msg});
+      output = vx_core::vx_new(vx_core::t_boolean, {msg});
     }
     return output;
   }
@@ -71,21 +76,20 @@
   vx_core::Type_string vx_string_read_from_path(
     std::string path) {
     vx_core::Type_string output = vx_core::e_string;
-    std::ifstream filestream(path);
+    std::ifstream filestream(path, std::ios_base::binary | std::ios_base::in);
     if (filestream.is_open()) {
-      bool isfirst = true;
       std::string text;
-      std::string line;
-      while (std::getline(filestream, line)) {
-        if (isfirst) {
-          text = line;
-          isfirst = false;
-        } else {
-          text += "\n" + line;
-        }
+      char buffer[4096];
+      while (filestream.read(buffer, sizeof(buffer)) || filestream.gcount() > 0) {
+        text.append(buffer, filestream.gcount());
+      }
+      if (filestream.bad()) {
+        vx_core::Type_msg msg = vx_core::vx_msg_from_errortext("File read failed:" + path);
+        output = vx_core::vx_new(vx_core::t_string, {msg});
+      } else {
+        output = vx_core::vx_new_string(text);
       }
       filestream.close();
-      output = vx_core::vx_new_string(text);
     } else {
       vx_core::Type_msg msg = vx_core::vx_msg_from_errortext("File not found:" + path);
       output = vx_core::vx_new(vx_core::t_string, {msg});
-- 
2.43.0


From d8a10583452f13b3e3f704247979da064134f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:35 +0000
Subject: [PATCH 12/22] fix: read and write files as UTF-8 in Java

The encoding depended on the system settings, so texts could change on
their way to the disk.
---
 dist/vxlisp/vx/data/file_java.txt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/data/file_java.txt b/dist/vxlisp/vx/data/file_java.txt
index 95c9740..202bdf1 100644
--- a/dist/vxlisp/vx/data/file_java.txt
+++ b/dist/vxlisp/vx/data/file_java.txt
@@ -9,7 +9,7 @@
       String sfullpath = fullpath.vx_string();
       Path path = Paths.get(sfullpath);
       String stext = text.vx_string();
-      byte[] bytes = stext.getBytes();
+      byte[] bytes = stext.getBytes(java.nio.charset.StandardCharsets.UTF_8);
       java.nio.file.Files.write(path, bytes);
       output = Core.c_true;
     } catch (Exception err) {
@@ -33,7 +33,7 @@
     if (Files.exists(path)) {
       try {
         byte[] bytes = Files.readAllBytes(path);
-        String scontent = new String(bytes);
+        String scontent = new String(bytes, java.nio.charset.StandardCharsets.UTF_8);
         Core.Type_string valcontent = Core.vx_new_string(scontent);
         output = valcontent;
       } catch (Exception ex) {
-- 
2.43.0


From c0af752781b1b8866b6ddcdc90304df2857e9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:35 +0000
Subject: [PATCH 13/22] fix: honour missing permissions in C++

The generated code tested a pointer, so every user was allowed to do
everything.
---
 src/vxlisp/lang-cpp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vxlisp/lang-cpp.go b/src/vxlisp/lang-cpp.go
index 5a24101..b564056 100644
--- a/src/vxlisp/lang-cpp.go
+++ b/src/vxlisp/lang-cpp.go
@@ -981,7 +981,7 @@ func CppBodyFromFunc(
 	permissiontop := ""
 	permissionbottom := ""
 	if fnc.permission {
-		permissiontop = lineindent + "if (vx_core::f_boolean_permission_from_func(context, " + fulltname + ")) {"
+		permissiontop = lineindent + "if (vx_core::f_boolean_permission_from_func(context, " + fulltname + ")->vx_boolean()) {"
 		permissionbottom = "" +
 			lineindent + "} else {" +
 			lineindent + "  vx_core::Type_msg msg = vx_core::vx_msg_from_errortext(\"Permission Denied: " + fnc.name + "\");" +
-- 
2.43.0


From c42c6d2462de6bfa9518609c7972dbabebb83048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:35 +0000
Subject: [PATCH 14/22] fix: check permissions in generated JavaScript

---
 src/vxlisp/lang-js.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index b3faac2..5342843 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -313,6 +313,16 @@ func JsFromFunc(
 			}
 		}
 	}
+	permissionheader := ""
+	permissionfooter := ""
+	if fnc.permission {
+		permissionheader = lineindent + "if (vx_core.f_boolean_permission_from_func(context, " + jstname + ")) {"
+		permissionfooter = "" +
+			lineindent + "} else {" +
+			lineindent + "  const msg = vx_core.f_msg_from_error_2(\"vx/core/func\", \":permissiondenied\", \"" + fnc.name + "\")" +
+			lineindent + "  output = vx_core.f_copy(" + LangTypeE(lang, fnc.vxtype) + ", msg)" +
+			lineindent + "}"
+	}
 	tryheader := ""
 	tryfooter := ""
 	if fnc.messages {
@@ -357,9 +367,11 @@ func JsFromFunc(
 		logheader +
 		genericvars +
 		defaultvalue +
+		permissionheader +
 		tryheader +
 		body +
 		tryfooter +
+		permissionfooter +
 		logfooter +
 		footer
 	return output, statics, msgblock
-- 
2.43.0


From 0fd1ab09f96c27977435187dfbcb6123c1e63c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:28 +0000
Subject: [PATCH 15/22] fix: adding the first child of an element no longer
 changes other elements

An element without children shares one empty map of children with all other
elements. Adding a child wrote into that shared map, so every element without
children got the child too and laying out the page never ended. The first child
is now written with a map of its own.
---
 dist/vxlisp/vx/ui/ui.vxlisp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/dist/vxlisp/vx/ui/ui.vxlisp b/dist/vxlisp/vx/ui/ui.vxlisp
index 9291cd6..5216200 100644
--- a/dist/vxlisp/vx/ui/ui.vxlisp
+++ b/dist/vxlisp/vx/ui/ui.vxlisp
@@ -385,8 +385,14 @@
   [ui2 : ui :=
     (ui-addlayout<-ui uiarg)
    iswrite : boolean :=
-    (boolean-write<-ui-parent
-     ui2 parent)
+    (if : boolean
+     (then
+      (is-empty (:uimap parent))
+      (boolean-writestate<-ui-child
+       parent ui2))
+     (else
+      (boolean-write<-ui-parent
+       ui2 parent)))
    ui3 : ui :=
     (ui-layout<-ui-orig-parent
      ui2 (empty ui) parent)]
@@ -519,8 +525,11 @@
  (let
   [uid : string := (:uid ui)
    uimap : uimap := (:uimap parent)]
-  (boolean-write<-map-name-value
-   uimap uid ui))
+  (if : boolean
+   (then
+    (!-empty uimap)
+    (boolean-write<-map-name-value
+     uimap uid ui))))
  :doc "Returns true if the given ui was added to parent uimap")
 
 (func boolean-writeremove<-ui-uid : boolean
@@ -559,6 +568,25 @@
  :context
  :doc "")
 
+(func boolean-writestate<-ui-child : boolean
+ [uiarg : ui
+  child : ui]
+ (let : boolean
+  [uid : string := (:uid uiarg)
+   uiapp : ui := (ui-readstate-uiapp)
+   appuid : string := (:uid uiapp)
+   uichg : ui :=
+    (copy uiarg
+     :uimap (uimap<-uilist child))]
+  (if : boolean
+   (then
+    (= uid appuid)
+    (boolean-writestate<-uiapp uichg))
+   (else
+    (boolean-writestate<-ui uichg))))
+ :context
+ :doc "Returns true if the given ui was written to state with child as its only child")
+
 (func boolean-writestate<-uiapp : boolean
  [ui : ui]
  (state/boolean-writestate<-name-value
-- 
2.43.0


From ed5cac39be909dffddd855d79e42274476e62fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:28 +0000
Subject: [PATCH 16/22] fix: redraw the page when the visible child of an
 element is changed

The changed element was compared with itself before it was drawn, so nothing
was found to differ and the page kept showing the old children.
---
 dist/vxlisp/vx/ui/ui.vxlisp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dist/vxlisp/vx/ui/ui.vxlisp b/dist/vxlisp/vx/ui/ui.vxlisp
index 5216200..e7474b1 100644
--- a/dist/vxlisp/vx/ui/ui.vxlisp
+++ b/dist/vxlisp/vx/ui/ui.vxlisp
@@ -1076,15 +1076,15 @@
  :doc "Return a ui after changing selected item and rendering it.")
 
 (func ui-layout<-ui-parent-visible : ui
- [ui      : ui
+ [uiarg   : ui
   parent  : ui
   visible : int]
  (let : ui
   [uichg : ui :=
     (ui-write<-ui-visible
-     ui visible)]
+     uiarg visible)]
   (ui-layout<-ui-orig-parent
-   uichg ui parent))
+   uichg (empty ui) parent))
  :doc "Return a ui after changing visible item and rendering it.")
 
 (func ui-readstate<-uid : ui
-- 
2.43.0


From c93177ea7ed4630d819380e154cbdec86e2e6490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:28 +0000
Subject: [PATCH 17/22] fix: keep labels hidden or selected when they are drawn
 again

Labels left out the extra styles for hidden and selected elements that all
other elements have.
---
 dist/vxlisp/vx/ui/html/uihtml.vxlisp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/ui/html/uihtml.vxlisp b/dist/vxlisp/vx/ui/html/uihtml.vxlisp
index 0b17b65..89f8374 100644
--- a/dist/vxlisp/vx/ui/html/uihtml.vxlisp
+++ b/dist/vxlisp/vx/ui/html/uihtml.vxlisp
@@ -302,13 +302,12 @@
    data     : any          := (:data      ui)
    uimap    : ui/uimap     := (:uimap     ui)
    uistyle  : ui/style     := (:style     ui)
-   uistyles : ui/stylelist := (:stylelist ui)
    datatype : any :=
     (type<-any data)
    style : html/style :=
     (style<-style uistyle)
    styles : html/stylelist :=
-    (stylelist<-stylelist uistyles)
+    (stylelist-extra<-ui ui)
    text : string :=
     (if : string
      (then
-- 
2.43.0


From 07af408dd219fd226455feb39da11226cfa86777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:28 +0000
Subject: [PATCH 18/22] fix: run asynchronous event handlers in web pages

The handler was looked up under the name of the synchronous one and called with
a function that does not exist. Events with only an asynchronous handler ended
with an error instead.
---
 dist/vxlisp/vx/web/htmldoc_js.txt | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dist/vxlisp/vx/web/htmldoc_js.txt b/dist/vxlisp/vx/web/htmldoc_js.txt
index 0627acf..e902768 100644
--- a/dist/vxlisp/vx/web/htmldoc_js.txt
+++ b/dist/vxlisp/vx/web/htmldoc_js.txt
@@ -121,12 +121,12 @@
               const context = vx_web_htmldoc.vx_context_read()
               const eventchg = vx_web_htmldoc.vx_event_from_event_id_nativeevent(event, id, nativeevent)
               const fn_event = event['vx_value']['event<-event']
-              const fn_event_async = event['vx_value']['event<-event']
+              const fn_event_async = event['vx_value']['event<-event-async']
               let eventoutput = null
-              if (fn_event != vx_event.e_event_from_event) {
+              if (fn_event && fn_event != vx_event.e_event_from_event) {
                 eventoutput = vx_core.vx_any_from_func(vx_event.t_event, fn_event, context, eventchg)
-              } else if (fn_event_async != vx_event.e_event_from_event) {
-                eventoutput = vx_core.vx_any_from_func_async(vx_event.t_event, fn_event_async, context, eventchg)
+              } else if (fn_event_async && fn_event_async != vx_event.e_event_from_event_async) {
+                eventoutput = vx_core.vx_any_from_func(vx_event.t_event, fn_event_async, context, eventchg)
               }
               return eventoutput
             }
-- 
2.43.0


From 303980f69172c75c4e5bdc8e39383f810f0ba66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:28 +0000
Subject: [PATCH 19/22] fix: remove the old event listeners of an element
 before adding new ones

The map of listeners stored itself instead of the listener, so the old
listeners stayed and their handlers kept running after the events of an element
had changed.
---
 dist/vxlisp/vx/web/htmldoc_js.txt | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dist/vxlisp/vx/web/htmldoc_js.txt b/dist/vxlisp/vx/web/htmldoc_js.txt
index e902768..7ac63da 100644
--- a/dist/vxlisp/vx/web/htmldoc_js.txt
+++ b/dist/vxlisp/vx/web/htmldoc_js.txt
@@ -100,10 +100,10 @@
   static vx_boolean_writeevents_from_ui(ui) {
     let output = vx_core.c_false
     const eventmap = vx_core.f_any_from_struct({'any-1': vx_event.t_eventmap}, ui, ':eventmap')
-    if (eventmap == vx_event.e_eventmap) {
+    const id = vx_core.f_any_from_struct({'any-1': vx_core.t_string}, ui, ':uid')
+    if (eventmap == vx_event.e_eventmap && !vx_web_htmldoc.vx_maplistener_read_from_id(id)) {
       output = vx_core.c_true
     } else {
-      const id = vx_core.f_any_from_struct({'any-1': vx_core.t_string}, ui, ':uid')
       let elem = document.getElementById(id)
       if (elem != null) {
         const maplistenerold = vx_web_htmldoc.vx_maplistener_read_from_id(id)
@@ -132,7 +132,7 @@
             }
             const nativeeventname = vx_web_htmldoc.vx_nativeeventname_from_eventname(eventname)
             elem.addEventListener(nativeeventname, listener)
-            maplistener[nativeeventname] = maplistener
+            maplistener[nativeeventname] = listener
           }
           vx_web_htmldoc.vx_boolean_write_from_id_maplistener(id, maplistener)
         }
-- 
2.43.0


From 6aad90ea3ee3e302baeb7b5e8d5e9f2cd61f4fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:19:44 +0000
Subject: [PATCH 20/22] fix: await a let in JavaScript only when it makes async
 calls

A let without async calls nested in an async function was emitted as an
async lambda that nothing awaited, so its value was a promise.
---
 src/vxlisp/lang-js.go | 44 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 5342843..3eda59b 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -679,13 +679,14 @@ func JsFromValue(
 			funcargs := fnc.listarg
 			multiline := false
 			multiflag := false
-			if fnc.async {
+			isasync := JsBooleanAsyncFromFunc(fnc)
+			if isasync {
 				output += "await "
 			}
 			switch funcname {
 			case "vx/core/fn":
 			case "vx/core/let":
-				if fnc.async {
+				if isasync {
 					output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_let_async("
 				} else {
 					output += LangPkgName(lang, fnc.pkgname) + lang.pkgref + "f_let("
@@ -753,7 +754,7 @@ func JsFromValue(
 								"\n  " + lambdatext +
 								"\n  return " + work +
 								"\n}"
-							if parentfn.async {
+							if isasync {
 								argtext = "async " + argtext
 							}
 							argtext = "vx_core.f_new_from_type(" + LangTypeTGeneric(lang, funcarg.vxtype) + ", " + argtext + ")"
@@ -862,6 +863,43 @@ func JsFromValue(
 	return output, msgblock
 }
 
+// JsBooleanAsyncFromFunc returns true if a call of the function is awaited.
+// A let is awaited if its args or its body await anything.
+func JsBooleanAsyncFromFunc(
+	fnc *vxfunc) bool {
+	output := fnc.async
+	switch NameFromFunc(fnc) {
+	case "vx/core/let":
+		for _, arg := range ListArgLocalFromFunc(fnc) {
+			if JsBooleanAsyncFromValue(arg.value) {
+				output = true
+			}
+		}
+		for _, arg := range fnc.listarg {
+			if arg.vxtype.isfunc && JsBooleanAsyncFromValue(arg.value) {
+				output = true
+			}
+		}
+	}
+	return output
+}
+
+func JsBooleanAsyncFromValue(
+	value vxvalue) bool {
+	output := false
+	switch value.code {
+	case ":func":
+		fnc := FuncFromValue(value)
+		output = JsBooleanAsyncFromFunc(fnc)
+		for _, arg := range fnc.listarg {
+			if !arg.vxtype.isfunc && JsBooleanAsyncFromValue(arg.value) {
+				output = true
+			}
+		}
+	}
+	return output
+}
+
 func JsNamesFromListFunc(
 	listfunc []*vxfunc) string {
 	var outputtypes []string
-- 
2.43.0


From 2cd9b5aa84a35bba26dbafc42abb6495a824065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:48:24 +0000
Subject: [PATCH 21/22] fix: report an exception caught in JavaScript as a
 message of the result

A function marked :messages logged the exception and then returned a
clean empty value.
---
 src/vxlisp/lang-js.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vxlisp/lang-js.go b/src/vxlisp/lang-js.go
index 3eda59b..3432bfd 100644
--- a/src/vxlisp/lang-js.go
+++ b/src/vxlisp/lang-js.go
@@ -326,10 +326,16 @@ func JsFromFunc(
 	tryheader := ""
 	tryfooter := ""
 	if fnc.messages {
+		emptyvalue := LangTypeE(lang, fnc.vxtype)
+		if fnc.generictype != nil {
+			emptyvalue = "vx_core.f_empty(generic_" + LangFromName(fnc.generictype.name) + ")"
+		}
 		tryheader += lineindent + "try {"
 		tryfooter = "" +
 			lineindent + "} catch (err) {" +
 			lineindent + "  console.log(err)" +
+			lineindent + "  const msg = vx_core.f_msg_from_error_2(\"" + fnc.pkgname + "/" + fnc.name + "\", \":exception\", String(err))" +
+			lineindent + "  output = vx_core.f_copy(" + emptyvalue + ", msg)" +
 			lineindent + "}"
 		indent += 1
 	}
-- 
2.43.0


From 9b2ebdf14f505820f75ac4812e8a31ca757b1195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:27:49 +0000
Subject: [PATCH 22/22] fix: keep overloaded functions apart when checking
 permission

In C++ and Java the permission check compared functions by their text.
Functions that share a name and differ only in their parameters have the
same text. A user allowed to run one of them could run all of them.
JavaScript already told them apart.
---
 dist/vxlisp/vx/core.vxlisp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dist/vxlisp/vx/core.vxlisp b/dist/vxlisp/vx/core.vxlisp
index 5e40627..1a19109 100644
--- a/dist/vxlisp/vx/core.vxlisp
+++ b/dist/vxlisp/vx/core.vxlisp
@@ -1133,7 +1133,8 @@
       std::string str1 = vx_core::vx_string_from_any(val1);
       std::string str2 = vx_core::vx_string_from_any(val2);
       if (str1 == str2) {
-        isequal = true;
+        // overloaded functions have the same text
+        isequal = (val1 != val1->vx_type()) || (val2 != val2->vx_type());
       }
     }
     output = vx_core::vx_new_boolean(isequal);"
@@ -1157,7 +1158,8 @@
       Core.Type_string strval1 = Core.f_string_from_any(val1);
       Core.Type_string strval2 = Core.f_string_from_any(val2);
       if (strval1.vx_string().equals(strval2.vx_string())) {
-        isequal = true;
+        // overloaded functions have the same text
+        isequal = (val1 != val1.vx_type()) || (val2 != val2.vx_type());
       }
     }
     output = Core.vx_new_boolean(isequal);"
-- 
2.43.0

