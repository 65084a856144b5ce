From 88bdb7cdb2b759f853cb2c51b34dabc6158cff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 01/30] fix: let a handler's std::bad_cast leave
 apply/try_apply instead of reporting 'not handled'

---
 .../include/type-discrimination.h             | 44 ++++++++-----------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
index 59cc75a..93bfcc0 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
@@ -103,38 +103,30 @@ namespace Yaml {
     private:
         template<typename T>
         bool dispatch_known_type(TypeDiscriminated* base, const std::function<void(T)>& f) {
-            try {
-                if constexpr (std::is_pointer<T>::value) {
-                    T cast = dynamic_cast<T>(base);
-                    if (cast == nullptr) return false;
-                    f(cast);
-                } else {
-                    T* cast = dynamic_cast<T*>(base);
-                    if (cast == nullptr) return false;
-                    f(*cast);
-                }
-                return true;
-            } catch (const std::bad_cast&) {
-                return false;
+            if constexpr (std::is_pointer<T>::value) {
+                T cast = dynamic_cast<T>(base);
+                if (cast == nullptr) return false;
+                f(cast);
+            } else {
+                T* cast = dynamic_cast<T*>(base);
+                if (cast == nullptr) return false;
+                f(*cast);
             }
+            return true;
         }
 
         template<typename T>
         bool dispatch_known_type(TypeDiscriminated* base, const std::function<void(T&)>& f) {
-            try {
-                if constexpr (std::is_pointer<T>::value) {
-                    T cast = dynamic_cast<T>(base);
-                    if (cast == nullptr) return false;
-                    f(cast);
-                } else {
-                    T* cast = dynamic_cast<T*>(base);
-                    if (cast == nullptr) return false;
-                    f(*cast);
-                }
-                return true;
-            } catch (const std::bad_cast&) {
-                return false;
+            if constexpr (std::is_pointer<T>::value) {
+                T cast = dynamic_cast<T>(base);
+                if (cast == nullptr) return false;
+                f(cast);
+            } else {
+                T* cast = dynamic_cast<T*>(base);
+                if (cast == nullptr) return false;
+                f(*cast);
             }
+            return true;
         }
 
         template <typename T> 
-- 
2.43.0


From ecacb309d2013c637fa2c3cd82f9f3c94c79efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 02/30] fix: value-initialise objects before loading a document
 into them

---
 .../src/Yaml-Serializable/include/type-discrimination.h   | 2 +-
 .../include/yaml-serializable-containers.h                | 8 ++++----
 .../src/Yaml-Serializable/include/yaml-serializable.h     | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
index 93bfcc0..82ce969 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
@@ -244,7 +244,7 @@ namespace Yaml {
             DerivedSerializer() = default;
 
             std::unique_ptr<Base> deserialize(Node& node, bool raw) {
-                T v;
+                T v{};
                 Yaml::deserialize(v, node, raw);
                 return std::make_unique<T>(v);
             }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 3f0cd3f..2ae3d58 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -129,7 +129,7 @@ namespace Yaml {
         template<typename T, typename F>
         void deserialize_to_iterable(Node& node, bool raw, F inserter) {
             for(size_t i = 0; i < node.Size(); i++) {
-                T item;
+                T item{};
                 deserialize_from_indexed_item(item, node, raw, i);
                 inserter(item);
             }
@@ -181,7 +181,7 @@ namespace Yaml {
         struct Impl<std::optional<T>> {
             static void deserialize(std::optional<T>& v, Yaml::Node& node, bool raw) {
                 if (!node.IsNone()) {
-                    T inner_value;
+                    T inner_value{};
                     Yaml::deserialize(inner_value, node, raw);
                     v = inner_value;
                 } 
@@ -226,7 +226,7 @@ namespace Yaml {
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     v = std::move(T::deserialize_as_derived(node, raw));
                 } else {
-                    T inner_v;
+                    T inner_v{};
                     Yaml::deserialize(inner_v, node, raw);
                     v = std::make_shared<T>(inner_v);
                 }
@@ -253,7 +253,7 @@ namespace Yaml {
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     v = std::move(T::deserialize_as_derived(node, raw));
                 } else {
-                    T inner_v;
+                    T inner_v{};
                     Yaml::deserialize(inner_v, node, raw);
                     v = std::make_unique<T>(inner_v);
                 }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
index ae8cb36..a7033c4 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
@@ -145,7 +145,7 @@ namespace Yaml {
     inline T from_string(const std::string& s) {
         Node node;
         Parse(node, s);
-        T v;
+        T v{};
         from(node, v);
         return v;
     }
@@ -160,7 +160,7 @@ namespace Yaml {
     inline T from_string_strict(const std::string& s) {
         Node node;
         Parse(node, s);
-        T v;
+        T v{};
         from_strict(node, v);
         return v;
     }
@@ -208,7 +208,7 @@ namespace Yaml {
         // Pass c_str to get the file reading functionality.
         // If its a string it will just parse it directly.
         Parse(node, filename.c_str());
-        T v;
+        T v{};
         from(node, v);
         return v;
     }
@@ -226,7 +226,7 @@ namespace Yaml {
         // Pass c_str to get the file reading functionality.
         // If its a string it will just parse it directly.
         Parse(node, filename.c_str());
-        T v;
+        T v{};
         from_strict(node, v);
         return v;
     }
-- 
2.43.0


From 46e7ab0e8811e3efc69c7bb4ea994f8949c83d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 03/30] fix: iterating a document node without children ends at
 once

---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 76e86d1..c3b6419 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -1766,7 +1766,8 @@ bool Iterator::operator ==(const Iterator& it)
         break;
     }
 
-    return false;
+    // Iterators of a node without children: begin is end.
+    return true;
 }
 
 /////////////////////////////////////////////////////////////////////////////
@@ -2003,7 +2004,8 @@ bool ConstIterator::operator ==(const ConstIterator& it)
         break;
     }
 
-    return false;
+    // Iterators of a node without children: begin is end.
+    return true;
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 70adec6..23e50c2 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -785,7 +785,8 @@ namespace Yaml
             break;
         }
 
-        return false;
+        // Iterators of a node without children: begin is end.
+        return true;
     }
 
     bool Iterator::operator != (const Iterator & it)
@@ -938,7 +939,8 @@ namespace Yaml
             break;
         }
 
-        return false;
+        // Iterators of a node without children: begin is end.
+        return true;
     }
 
     bool ConstIterator::operator != (const ConstIterator & it)
-- 
2.43.0


From 754336821409b6752594feeb261c90c26e0e9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 04/30] fix: assigning a document node from itself or one of
 its descendants keeps the content

---
 apps/multiphysics/src/input/Yaml.cpp                | 7 +++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index c3b6419..e0ad7f0 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -27,6 +27,7 @@
 #include <memory>
 #include <fstream>
 #include <sstream>
+#include <utility>
 #include <vector>
 #include <list>
 #include <cstdio>
@@ -2392,8 +2393,10 @@ void Node::Erase(const std::string& key)
 /////////////////////////////////////////////////////////////////////////////
 Node& Node::operator =(const Node& node)
 {
-    NODE_IMP->Clear();
-    CopyNode(node, *this);
+    // Copy first: node may be this node or one of its descendants.
+    Node copy;
+    CopyNode(node, copy);
+    std::swap(m_pImp, copy.m_pImp);
     return *this;
 }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 23e50c2..b4ee28b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -27,6 +27,7 @@
 #include <memory>
 #include <fstream>
 #include <sstream>
+#include <utility>
 #include <vector>
 #include <list>
 #include <cstdio>
@@ -1075,8 +1076,10 @@ namespace Yaml
 
     Node & Node::operator = (const Node & node)
     {
-        NODE_IMP->Clear();
-        CopyNode(node, *this);
+        // Copy first: node may be this node or one of its descendants.
+        Node copy;
+        CopyNode(node, copy);
+        std::swap(m_pImp, copy.m_pImp);
         return *this;
     }
 
-- 
2.43.0


From 6fa194d50010de75af203c8cb8401e2fea233e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:03 +0000
Subject: [PATCH 05/30] fix: a parse that fails with any exception clears the
 document and frees the reader

---
 apps/multiphysics/src/input/Yaml.cpp            | 17 +++--------------
 .../src/Yaml-Serializable/src/Yaml.cpp          | 17 +++--------------
 2 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index e0ad7f0..16370eb 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2792,7 +2792,7 @@ public:
             // Print();
             ParseRoot(root);
         }
-        catch (Exception e)
+        catch (...)
         {
             root.Clear();
             throw;
@@ -3605,19 +3605,8 @@ void Parse(Node& root, const char* filename)
 /////////////////////////////////////////////////////////////////////////////
 void Parse(Node& root, std::iostream& stream)
 {
-    ParseImp* pImp = nullptr;
-
-    try
-    {
-        pImp = new ParseImp;
-        pImp->Parse(root, stream);
-        delete pImp;
-    }
-    catch (const Exception e)
-    {
-        delete pImp;
-        throw;
-    }
+    ParseImp imp;
+    imp.Parse(root, stream);
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index b4ee28b..1920749 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1381,7 +1381,7 @@ namespace Yaml
                 //Print();
                 ParseRoot(root);
             }
-            catch(Exception e)
+            catch(...)
             {
                 root.Clear();
                 throw;
@@ -2248,19 +2248,8 @@ namespace Yaml
 
     void Parse(Node & root, std::iostream & stream)
     {
-        ParseImp * pImp = nullptr;
-
-        try
-        {
-            pImp = new ParseImp;
-            pImp->Parse(root, stream);
-            delete pImp;
-        }
-        catch (const Exception e)
-        {
-            delete pImp;
-            throw;
-        }
+        ParseImp imp;
+        imp.Parse(root, stream);
     }
 
     void Parse(Node & root, const std::string & string)
-- 
2.43.0


From 6a9d955c291e48e7268fcfd0fb89c769ed4994cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 06/30] fix: accept '~' in YAML input

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 16370eb..e9fc6e1 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2865,7 +2865,7 @@ private:
 
             // Validate characters.
             for (size_t i = 0; i < line.size(); i++) {
-                if (line[i] != '\t' && (line[i] < 32 || line[i] > 125)) {
+                if (line[i] != '\t' && (line[i] < 32 || line[i] > 126)) {
                     throw ParsingException(ExceptionMessage(g_ErrorInvalidCharacter, lineNo, i + 1));
                 }
             }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 1920749..768b56b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1462,7 +1462,7 @@ namespace Yaml
                 // Validate characters.
                 for (size_t i = 0; i < line.size(); i++)
                 {
-                    if (line[i] != '\t' && (line[i] < 32 || line[i] > 125))
+                    if (line[i] != '\t' && (line[i] < 32 || line[i] > 126))
                     {
                         throw ParsingException(ExceptionMessage(g_ErrorInvalidCharacter, lineNo, i + 1));
                     }
-- 
2.43.0


From 7f69caf83d2109e4fc1ef7348ecec0d857e96ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:30 +0000
Subject: [PATCH 07/30] fix: recognise document markers in YAML files with
 Windows line endings

---
 apps/multiphysics/src/input/Yaml.cpp           | 14 +++++++-------
 .../src/Yaml-Serializable/src/Yaml.cpp         | 18 +++++++++---------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index e9fc6e1..3b7dbfe 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2833,6 +2833,13 @@ private:
             std::getline(stream, line);
             lineNo++;
 
+            // Remove trailing return.
+            if (line.size()) {
+                if (line[line.size() - 1] == '\r') {
+                    line.resize(line.size() - 1);
+                }
+            }
+
             // Remove comment
             const size_t commentPos = FindNotCited(line, '#');
             if (commentPos != std::string::npos) {
@@ -2856,13 +2863,6 @@ private:
                 break;
             }
 
-            // Remove trailing return.
-            if (line.size()) {
-                if (line[line.size() - 1] == '\r') {
-                    line.resize(line.size() - 1);
-                }
-            }
-
             // Validate characters.
             for (size_t i = 0; i < line.size(); i++) {
                 if (line[i] != '\t' && (line[i] < 32 || line[i] > 126)) {
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 768b56b..f45453f 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1423,6 +1423,15 @@ namespace Yaml
                 std::getline(stream, line);
                 lineNo++;
 
+                // Remove trailing return.
+                if (line.size())
+                {
+                    if (line[line.size() - 1] == '\r')
+                    {
+                        line.resize(line.size() - 1);
+                    }
+                }
+
                 // Remove comment
                 const size_t commentPos = FindNotCited(line, '#');
                 if(commentPos != std::string::npos)
@@ -1450,15 +1459,6 @@ namespace Yaml
                     break;
                 }
 
-                // Remove trailing return.
-                if (line.size())
-                {
-                    if (line[line.size() - 1] == '\r')
-                    {
-                        line.resize(line.size() - 1);
-                    }
-                }
-
                 // Validate characters.
                 for (size_t i = 0; i < line.size(); i++)
                 {
-- 
2.43.0


From 1dc74827699c0db88f2f1651058a796d6e95ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:09 +0000
Subject: [PATCH 08/30] fix: load '[]' as an empty list

---
 .../Yaml-Serializable/include/yaml-serializable-containers.h    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 2ae3d58..ff7341f 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -81,6 +81,8 @@ namespace Yaml {
                 return !std::isspace(ch) && ch != ']';
             }).base(), s.end());
             std::vector<std::string> result;
+            if (s.empty())
+                return result;
             std::stringstream ss(s);
             std::string word;
             while (!ss.eof()) {
-- 
2.43.0


From f3cffb4780b6aca981455f32148092bf893d39c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 09/30] fix: drop the blanks around the entries of a '[a, b]'
 list

---
 .../Yaml-Serializable/include/yaml-serializable-containers.h   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index ff7341f..7e6b219 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -87,6 +87,9 @@ namespace Yaml {
             std::string word;
             while (!ss.eof()) {
                 std::getline(ss, word, delimeter);
+                // The blanks around a token are not part of it.
+                word.erase(0, word.find_first_not_of(" \t"));
+                word.erase(word.find_last_not_of(" \t") + 1);
                 result.push_back(word);
             }
             return result;
-- 
2.43.0


From 7a053e801fe7133ada444f523aa60930c9fecabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:29 +0000
Subject: [PATCH 10/30] fix: Node::Insert puts the new entry at the given
 position

---
 apps/multiphysics/src/input/Yaml.cpp          | 29 ++++-------------
 .../src/Yaml-Serializable/src/Yaml.cpp        | 31 ++++---------------
 2 files changed, 12 insertions(+), 48 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 3b7dbfe..69a061c 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -299,32 +299,15 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* Insert(const size_t index)
     {
-        if (m_Sequence.size() == 0) {
-            Node* pNode = new Node;
-            m_Sequence.insert({ 0, pNode });
-            return pNode;
-        }
-
-        if (index >= m_Sequence.size()) {
-            auto it = m_Sequence.end();
-            --it;
-            Node* pNode = new Node;
-            m_Sequence.insert({ it->first, pNode });
-            return pNode;
-        }
-
-        auto it = m_Sequence.cbegin();
-        while (it != m_Sequence.cend())
-        {
-            m_Sequence[it->first + 1] = it->second;
+        const size_t position = index < m_Sequence.size() ? index : m_Sequence.size();
+        Node* pNode = new Node;
 
-            if (it->first == index) {
-                break;
-            }
+        // Move the entries from that position on back by one, the last one first.
+        for (size_t i = m_Sequence.size(); i > position; i--) {
+            m_Sequence[i] = m_Sequence[i - 1];
         }
 
-        Node* pNode = new Node;
-        m_Sequence.insert({ index, pNode });
+        m_Sequence[position] = pNode;
         return pNode;
     }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index f45453f..e5b5b2b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -183,35 +183,16 @@ namespace Yaml
 
         virtual Node * Insert(const size_t index)
         {
-            if(m_Sequence.size() == 0)
-            {
-                Node * pNode = new Node;
-                m_Sequence.insert({0, pNode});
-                return pNode;
-            }
-
-            if(index >= m_Sequence.size())
-            {
-                auto it = m_Sequence.end();
-                --it;
-                Node * pNode = new Node;
-                m_Sequence.insert({it->first, pNode});
-                return pNode;
-            }
+            const size_t position = index < m_Sequence.size() ? index : m_Sequence.size();
+            Node * pNode = new Node;
 
-            auto it = m_Sequence.cbegin();
-            while(it != m_Sequence.cend())
+            // Move the entries from that position on back by one, the last one first.
+            for(size_t i = m_Sequence.size(); i > position; i--)
             {
-                m_Sequence[it->first+1] = it->second;
-
-                if(it->first == index)
-                {
-                    break;
-                }
+                m_Sequence[i] = m_Sequence[i - 1];
             }
 
-            Node * pNode = new Node;
-            m_Sequence.insert({index, pNode});
+            m_Sequence[position] = pNode;
             return pNode;
         }
 
-- 
2.43.0


From 8503c65b30bc645188d4aa851d4464c20497a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:36 +0000
Subject: [PATCH 11/30] fix: Node::PushFront keeps the other entries

---
 apps/multiphysics/src/input/Yaml.cpp                | 8 +-------
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 9 +--------
 2 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 69a061c..03b0950 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -329,13 +329,7 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* PushFront()
     {
-        for (auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++) {
-            m_Sequence[it->first + 1] = it->second;
-        }
-
-        Node* pNode = new Node;
-        m_Sequence.insert({ 0, pNode });
-        return pNode;
+        return Insert(0);
     }
 
     /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index e5b5b2b..673b2e4 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -198,14 +198,7 @@ namespace Yaml
 
         virtual Node * PushFront()
         {
-            for(auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++)
-            {
-                m_Sequence[it->first+1] = it->second;
-            }
-
-            Node * pNode = new Node;
-            m_Sequence.insert({0, pNode});
-            return pNode;
+            return Insert(0);
         }
 
         virtual Node * PushBack()
-- 
2.43.0


From 25aad31225454c8afd8beb3dc35d0964375716d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:42 +0000
Subject: [PATCH 12/30] fix: erasing a list entry keeps the positions
 contiguous

---
 apps/multiphysics/src/input/Yaml.cpp                | 7 ++++++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 03b0950..4ed05a4 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -385,7 +385,12 @@ public:
             return;
         }
         delete it->second;
-        m_Sequence.erase(index);
+
+        // Keep the positions of the remaining entries contiguous.
+        for (size_t i = index; i + 1 < m_Sequence.size(); i++) {
+            m_Sequence[i] = m_Sequence[i + 1];
+        }
+        m_Sequence.erase(m_Sequence.size() - 1);
     }
 
     /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 673b2e4..df089a1 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -224,7 +224,13 @@ namespace Yaml
                 return;
             }
             delete it->second;
-            m_Sequence.erase(index);
+
+            // Keep the positions of the remaining entries contiguous.
+            for(size_t i = index; i + 1 < m_Sequence.size(); i++)
+            {
+                m_Sequence[i] = m_Sequence[i + 1];
+            }
+            m_Sequence.erase(m_Sequence.size() - 1);
         }
 
         virtual void Erase(const std::string & key)
-- 
2.43.0


From 4f01a8d2fb1dff666cb0d497917179442e07f037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:26 +0000
Subject: [PATCH 13/30] fix: keep the quotes of block scalars that start with a
 quote

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 4ed05a4..3a8bbf2 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3343,7 +3343,7 @@ private:
             }
         }
 
-        if (data.size() && (data[0] == '"' || data[0] == '\'')) {
+        if (isBlockScalar == false && data.size() && (data[0] == '"' || data[0] == '\'')) {
             data = data.substr(1, data.size() - 2);
         }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index df089a1..a002db8 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2010,7 +2010,7 @@ namespace Yaml
                 }
             }
 
-            if(data.size() && (data[0] == '"' || data[0] == '\''))
+            if(isBlockScalar == false && data.size() && (data[0] == '"' || data[0] == '\''))
             {
                 data = data.substr(1, data.size() - 2 );
             }
-- 
2.43.0


From d46a6f49d3e4356b7ccda3944093b24c533c20e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 14/30] fix: As<T>() of a node without text returns a
 value-initialised result

---
 apps/multiphysics/src/input/Yaml.hpp                    | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.hpp b/apps/multiphysics/src/input/Yaml.hpp
index 586657f..d727280 100644
--- a/apps/multiphysics/src/input/Yaml.hpp
+++ b/apps/multiphysics/src/input/Yaml.hpp
@@ -69,7 +69,7 @@ namespace Yaml
         {
             static T Get(const std::string & data)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
                 return type;
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
index 586657f..d727280 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
@@ -69,7 +69,7 @@ namespace Yaml
         {
             static T Get(const std::string & data)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
                 return type;
-- 
2.43.0


From bbf52b0c22d8ef818c5cd6d2668563fd25099078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 15/30] fix: assigning a yaml iterator to itself keeps its
 position

---
 apps/multiphysics/src/input/Yaml.cpp                | 10 ++++++++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 3a8bbf2..1961bcd 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -1584,6 +1584,11 @@ Iterator::Iterator(const Iterator& it) :
 /////////////////////////////////////////////////////////////////////////////
 Iterator& Iterator::operator =(const Iterator& it)
 {
+    if (this == &it)
+    {
+        return *this;
+    }
+
     if (m_pImp) {
         switch (m_Type) {
         case SequenceType:
@@ -1822,6 +1827,11 @@ ConstIterator::ConstIterator(const ConstIterator& it) :
 /////////////////////////////////////////////////////////////////////////////
 ConstIterator& ConstIterator::operator =(const ConstIterator& it)
 {
+    if (this == &it)
+    {
+        return *this;
+    }
+
     if (m_pImp) {
         switch (m_Type) {
         case SequenceType:
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index a002db8..0e60aaf 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -657,6 +657,11 @@ namespace Yaml
 
     Iterator & Iterator::operator = (const Iterator & it)
     {
+        if(this == &it)
+        {
+            return *this;
+        }
+
         if(m_pImp)
         {
             switch(m_Type)
@@ -811,6 +816,11 @@ namespace Yaml
 
     ConstIterator & ConstIterator::operator = (const ConstIterator & it)
     {
+        if(this == &it)
+        {
+            return *this;
+        }
+
         if(m_pImp)
         {
             switch(m_Type)
-- 
2.43.0


From 096febfcb05531b18d77b6113e4f2c521c77a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 16/30] fix: separators inside a quoted text are never found,
 however many there are

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 1961bcd..57fbb10 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4090,7 +4090,7 @@ size_t FindNotCited(const std::string& input, char token, size_t& preQuoteCount)
             return tokenPos;
         }
         preQuoteCount++;
-        if (tokenPos <= currentQuote.second) {
+        while (tokenPos <= currentQuote.second) {
             // Find next token
             if (tokenPos + 1 == input.size()) {
                 return std::string::npos;
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 0e60aaf..8d913b4 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2598,7 +2598,7 @@ namespace Yaml
                 return tokenPos;
             }
             preQuoteCount++;
-            if(tokenPos <= currentQuote.second)
+            while(tokenPos <= currentQuote.second)
             {
                 // Find next token
                 if(tokenPos + 1 == input.size())
-- 
2.43.0


From 715b8ec46454c8270c03331705e00c07bf84cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 17/30] fix: a block scalar header followed by a comment keeps
 the last line break

---
 apps/multiphysics/src/input/Yaml.cpp                | 4 ++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 57fbb10..db0d03b 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3534,7 +3534,7 @@ private:
                     throw ParsingException(ExceptionMessage(g_ErrorInvalidBlockScalar, line, data));
                 }
             }
-            else{
+            if (data.size() < 2 || data[1] != '-') {
                 flags |= ReaderLine::FlagMask[static_cast<size_t>(ReaderLine::ScalarNewlineFlag)];
             }
             flags |= ReaderLine::FlagMask[static_cast<size_t>(ReaderLine::LiteralScalarFlag)];
@@ -3547,7 +3547,7 @@ private:
                     throw ParsingException(ExceptionMessage(g_ErrorInvalidBlockScalar, line, data));
                 }
             }
-            else{
+            if (data.size() < 2 || data[1] != '-') {
                 flags |= ReaderLine::FlagMask[static_cast<size_t>(ReaderLine::ScalarNewlineFlag)];
             }
             flags |= ReaderLine::FlagMask[static_cast<size_t>(ReaderLine::FoldedScalarFlag)];
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 8d913b4..6d107c3 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2184,7 +2184,7 @@ namespace Yaml
                         throw ParsingException(ExceptionMessage(g_ErrorInvalidBlockScalar, line, data));
                     }
                 }
-                else
+                if(data.size() < 2 || data[1] != '-')
                 {
                     flags |= ReaderLine::FlagMask[static_cast<size_t>(ReaderLine::ScalarNewlineFlag)];
                 }
@@ -2201,7 +2201,7 @@ namespace Yaml
                         throw ParsingException(ExceptionMessage(g_ErrorInvalidBlockScalar, line, data));
                     }
                 }
-                else
+                if(data.size() < 2 || data[1] != '-')
                 {
                     flags |= ReaderLine::FlagMask[static_cast<size_t>(ReaderLine::ScalarNewlineFlag)];
                 }
-- 
2.43.0


From 5e0e549985aca6e790bba8422fd217fef65ed17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 18/30] fix: the XDMF writer reports a file it cannot open and
 forgets the handle it closed

---
 apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp      | 4 ++++
 .../micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp | 4 ++++
 apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp   | 4 ++++
 apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp
index 65d242a..669d5e8 100644
--- a/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/EVPFFT/src/XdmfUniformGridWriter.cpp
@@ -11,6 +11,9 @@ XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
 void XdmfUniformGridWriter::open_file(const char* xdmf_filename)
 {
  xdmf = fopen(xdmf_filename, "w");
+ if (xdmf == nullptr) {
+   throw std::runtime_error(std::string("cannot open file ") + xdmf_filename);
+ }
 }
 
 void XdmfUniformGridWriter::write_header(const char* gridName)
@@ -51,6 +54,7 @@ void XdmfUniformGridWriter::close_file()
 {
   if (xdmf != nullptr) {
     fclose(xdmf);
+    xdmf = nullptr;
   } 
 }
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp
index 65d242a..669d5e8 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/XdmfUniformGridWriter.cpp
@@ -11,6 +11,9 @@ XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
 void XdmfUniformGridWriter::open_file(const char* xdmf_filename)
 {
  xdmf = fopen(xdmf_filename, "w");
+ if (xdmf == nullptr) {
+   throw std::runtime_error(std::string("cannot open file ") + xdmf_filename);
+ }
 }
 
 void XdmfUniformGridWriter::write_header(const char* gridName)
@@ -51,6 +54,7 @@ void XdmfUniformGridWriter::close_file()
 {
   if (xdmf != nullptr) {
     fclose(xdmf);
+    xdmf = nullptr;
   } 
 }
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp
index 65d242a..669d5e8 100644
--- a/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/XdmfUniformGridWriter.cpp
@@ -11,6 +11,9 @@ XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
 void XdmfUniformGridWriter::open_file(const char* xdmf_filename)
 {
  xdmf = fopen(xdmf_filename, "w");
+ if (xdmf == nullptr) {
+   throw std::runtime_error(std::string("cannot open file ") + xdmf_filename);
+ }
 }
 
 void XdmfUniformGridWriter::write_header(const char* gridName)
@@ -51,6 +54,7 @@ void XdmfUniformGridWriter::close_file()
 {
   if (xdmf != nullptr) {
     fclose(xdmf);
+    xdmf = nullptr;
   } 
 }
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp b/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp
index 65d242a..669d5e8 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/XdmfUniformGridWriter.cpp
@@ -11,6 +11,9 @@ XdmfUniformGridWriter::XdmfUniformGridWriter(int N1_, int N2_, int N3_)
 void XdmfUniformGridWriter::open_file(const char* xdmf_filename)
 {
  xdmf = fopen(xdmf_filename, "w");
+ if (xdmf == nullptr) {
+   throw std::runtime_error(std::string("cannot open file ") + xdmf_filename);
+ }
 }
 
 void XdmfUniformGridWriter::write_header(const char* gridName)
@@ -51,6 +54,7 @@ void XdmfUniformGridWriter::close_file()
 {
   if (xdmf != nullptr) {
     fclose(xdmf);
+    xdmf = nullptr;
   } 
 }
 
-- 
2.43.0


From d2417ec1544e5b14e8025805f2d9eb457d2976a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 19/30] fix: the MPI-IO manager frees the info objects it
 creates

---
 apps/micromechanics/EVPFFT/src/manager_mpi_io.h       | 2 ++
 apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h | 2 ++
 apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h    | 2 ++
 apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h  | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/apps/micromechanics/EVPFFT/src/manager_mpi_io.h b/apps/micromechanics/EVPFFT/src/manager_mpi_io.h
index 773a1be..4c21703 100644
--- a/apps/micromechanics/EVPFFT/src/manager_mpi_io.h
+++ b/apps/micromechanics/EVPFFT/src/manager_mpi_io.h
@@ -167,6 +167,7 @@ MPI_File Manager_MPI_IO<R,ARRAY_LAYOUT>::create_mpi_io_file_(const char *filenam
 
     MPI_File file_handle = NULL;
     err = MPI_File_open(mpi_io_comm_, filename, file_mode, mpi_info, &file_handle);
+    MPI_Info_free(&mpi_info);
     if (err)
     {
         std::string error_msg = std::string("MPI_File_open failed to open ") + std::string(filename);
@@ -187,6 +188,7 @@ MPI_File Manager_MPI_IO<R,ARRAY_LAYOUT>::open_mpi_io_file_(const char *filename)
 
     MPI_File file_handle = NULL;
     err = MPI_File_open(mpi_io_comm_, filename, file_mode, mpi_info, &file_handle);
+    MPI_Info_free(&mpi_info);
     if (err)
     {
         std::string error_msg = std::string("MPI_File_open failed to open ") + std::string(filename);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h b/apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h
index 773a1be..4c21703 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h
@@ -167,6 +167,7 @@ MPI_File Manager_MPI_IO<R,ARRAY_LAYOUT>::create_mpi_io_file_(const char *filenam
 
     MPI_File file_handle = NULL;
     err = MPI_File_open(mpi_io_comm_, filename, file_mode, mpi_info, &file_handle);
+    MPI_Info_free(&mpi_info);
     if (err)
     {
         std::string error_msg = std::string("MPI_File_open failed to open ") + std::string(filename);
@@ -187,6 +188,7 @@ MPI_File Manager_MPI_IO<R,ARRAY_LAYOUT>::open_mpi_io_file_(const char *filename)
 
     MPI_File file_handle = NULL;
     err = MPI_File_open(mpi_io_comm_, filename, file_mode, mpi_info, &file_handle);
+    MPI_Info_free(&mpi_info);
     if (err)
     {
         std::string error_msg = std::string("MPI_File_open failed to open ") + std::string(filename);
diff --git a/apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h b/apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h
index 773a1be..4c21703 100644
--- a/apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h
+++ b/apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h
@@ -167,6 +167,7 @@ MPI_File Manager_MPI_IO<R,ARRAY_LAYOUT>::create_mpi_io_file_(const char *filenam
 
     MPI_File file_handle = NULL;
     err = MPI_File_open(mpi_io_comm_, filename, file_mode, mpi_info, &file_handle);
+    MPI_Info_free(&mpi_info);
     if (err)
     {
         std::string error_msg = std::string("MPI_File_open failed to open ") + std::string(filename);
@@ -187,6 +188,7 @@ MPI_File Manager_MPI_IO<R,ARRAY_LAYOUT>::open_mpi_io_file_(const char *filename)
 
     MPI_File file_handle = NULL;
     err = MPI_File_open(mpi_io_comm_, filename, file_mode, mpi_info, &file_handle);
+    MPI_Info_free(&mpi_info);
     if (err)
     {
         std::string error_msg = std::string("MPI_File_open failed to open ") + std::string(filename);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h b/apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h
index 773a1be..4c21703 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h
@@ -167,6 +167,7 @@ MPI_File Manager_MPI_IO<R,ARRAY_LAYOUT>::create_mpi_io_file_(const char *filenam
 
     MPI_File file_handle = NULL;
     err = MPI_File_open(mpi_io_comm_, filename, file_mode, mpi_info, &file_handle);
+    MPI_Info_free(&mpi_info);
     if (err)
     {
         std::string error_msg = std::string("MPI_File_open failed to open ") + std::string(filename);
@@ -187,6 +188,7 @@ MPI_File Manager_MPI_IO<R,ARRAY_LAYOUT>::open_mpi_io_file_(const char *filename)
 
     MPI_File file_handle = NULL;
     err = MPI_File_open(mpi_io_comm_, filename, file_mode, mpi_info, &file_handle);
+    MPI_Info_free(&mpi_info);
     if (err)
     {
         std::string error_msg = std::string("MPI_File_open failed to open ") + std::string(filename);
-- 
2.43.0


From 4820bbb6998fc6a5e034aea3d080dbb68ed9097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 20/30] fix: the ASCII writer reserves room for the terminator
 and formats a double of the right type

---
 apps/micromechanics/EVPFFT/src/manager_mpi_io.h       | 4 ++--
 apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h | 4 ++--
 apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h    | 4 ++--
 apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/manager_mpi_io.h b/apps/micromechanics/EVPFFT/src/manager_mpi_io.h
index 4c21703..c717647 100644
--- a/apps/micromechanics/EVPFFT/src/manager_mpi_io.h
+++ b/apps/micromechanics/EVPFFT/src/manager_mpi_io.h
@@ -122,7 +122,7 @@ Manager_MPI_IO<R,ARRAY_LAYOUT>::Manager_MPI_IO(MPI_Comm mpi_io_comm,
     // for writing ASCII
     // calculating chars_per_num based on format specified
     char s[100];
-    sprintf(s, format_.c_str(), R(0));
+    sprintf(s, format_.c_str(), (double)R(0));
     chars_per_num_ = strlen(s);
 
     // create chars_per_num_type_
@@ -225,7 +225,7 @@ void Manager_MPI_IO<R,ARRAY_LAYOUT>::write_ascii(const char *filename, R *data,
 {
     // for holding data converted to chars
     const int size = local_dimensions_full_array_[0]*local_dimensions_full_array_[1]*local_dimensions_full_array_[2];
-    char *data_as_chars = new char[size*chars_per_num_];
+    char *data_as_chars = new char[size*chars_per_num_ + 1]; // + 1 for the terminator of the last number
 
     // write data into data_as_chars
     for (int i = 0; i < size; i++)
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h b/apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h
index 4c21703..c717647 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/manager_mpi_io.h
@@ -122,7 +122,7 @@ Manager_MPI_IO<R,ARRAY_LAYOUT>::Manager_MPI_IO(MPI_Comm mpi_io_comm,
     // for writing ASCII
     // calculating chars_per_num based on format specified
     char s[100];
-    sprintf(s, format_.c_str(), R(0));
+    sprintf(s, format_.c_str(), (double)R(0));
     chars_per_num_ = strlen(s);
 
     // create chars_per_num_type_
@@ -225,7 +225,7 @@ void Manager_MPI_IO<R,ARRAY_LAYOUT>::write_ascii(const char *filename, R *data,
 {
     // for holding data converted to chars
     const int size = local_dimensions_full_array_[0]*local_dimensions_full_array_[1]*local_dimensions_full_array_[2];
-    char *data_as_chars = new char[size*chars_per_num_];
+    char *data_as_chars = new char[size*chars_per_num_ + 1]; // + 1 for the terminator of the last number
 
     // write data into data_as_chars
     for (int i = 0; i < size; i++)
diff --git a/apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h b/apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h
index 4c21703..c717647 100644
--- a/apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h
+++ b/apps/micromechanics/LS-EVPFFT/src/manager_mpi_io.h
@@ -122,7 +122,7 @@ Manager_MPI_IO<R,ARRAY_LAYOUT>::Manager_MPI_IO(MPI_Comm mpi_io_comm,
     // for writing ASCII
     // calculating chars_per_num based on format specified
     char s[100];
-    sprintf(s, format_.c_str(), R(0));
+    sprintf(s, format_.c_str(), (double)R(0));
     chars_per_num_ = strlen(s);
 
     // create chars_per_num_type_
@@ -225,7 +225,7 @@ void Manager_MPI_IO<R,ARRAY_LAYOUT>::write_ascii(const char *filename, R *data,
 {
     // for holding data converted to chars
     const int size = local_dimensions_full_array_[0]*local_dimensions_full_array_[1]*local_dimensions_full_array_[2];
-    char *data_as_chars = new char[size*chars_per_num_];
+    char *data_as_chars = new char[size*chars_per_num_ + 1]; // + 1 for the terminator of the last number
 
     // write data into data_as_chars
     for (int i = 0; i < size; i++)
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h b/apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h
index 4c21703..c717647 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/manager_mpi_io.h
@@ -122,7 +122,7 @@ Manager_MPI_IO<R,ARRAY_LAYOUT>::Manager_MPI_IO(MPI_Comm mpi_io_comm,
     // for writing ASCII
     // calculating chars_per_num based on format specified
     char s[100];
-    sprintf(s, format_.c_str(), R(0));
+    sprintf(s, format_.c_str(), (double)R(0));
     chars_per_num_ = strlen(s);
 
     // create chars_per_num_type_
@@ -225,7 +225,7 @@ void Manager_MPI_IO<R,ARRAY_LAYOUT>::write_ascii(const char *filename, R *data,
 {
     // for holding data converted to chars
     const int size = local_dimensions_full_array_[0]*local_dimensions_full_array_[1]*local_dimensions_full_array_[2];
-    char *data_as_chars = new char[size*chars_per_num_];
+    char *data_as_chars = new char[size*chars_per_num_ + 1]; // + 1 for the terminator of the last number
 
     // write data into data_as_chars
     for (int i = 0; i < size; i++)
-- 
2.43.0


From b109080e366f34a2ed39e79ef853cb442d5d8837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 21/30] fix: check_that_file_is_open looks at the file handle,
 not at the name

---
 apps/micromechanics/EVPFFT/src/utilities.cpp       | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT/src/utilities.cpp    | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/utilities.cpp b/apps/micromechanics/EVPFFT/src/utilities.cpp
index 209cd3b..d59b265 100644
--- a/apps/micromechanics/EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/EVPFFT/src/utilities.cpp
@@ -27,7 +27,7 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
 
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
-  if (filename == NULL)
+  if (file_ptr == NULL)
   {
     throw std::runtime_error(std::string("Can't open ") + filename);
   }
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
index 209cd3b..d59b265 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
@@ -27,7 +27,7 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
 
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
-  if (filename == NULL)
+  if (file_ptr == NULL)
   {
     throw std::runtime_error(std::string("Can't open ") + filename);
   }
diff --git a/apps/micromechanics/LS-EVPFFT/src/utilities.cpp b/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
index 209cd3b..d59b265 100644
--- a/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
@@ -27,7 +27,7 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
 
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
-  if (filename == NULL)
+  if (file_ptr == NULL)
   {
     throw std::runtime_error(std::string("Can't open ") + filename);
   }
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp b/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
index 209cd3b..d59b265 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
@@ -27,7 +27,7 @@ void check_that_file_is_open(const std::ifstream & filestream, const char* filen
 
 void check_that_file_is_open(FILE *file_ptr, const char* filename)
 {
-  if (filename == NULL)
+  if (file_ptr == NULL)
   {
     throw std::runtime_error(std::string("Can't open ") + filename);
   }
-- 
2.43.0


From abd84f67d5c14f7ea6fded54438f8d732d644a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 22/30] fix: read_hdf5_dataset uses the collective transfer
 property list it creates

---
 apps/micromechanics/EVPFFT/src/hdf5_io_functions.h       | 4 ++--
 apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.h | 4 ++--
 apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.h    | 4 ++--
 apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.h  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/hdf5_io_functions.h b/apps/micromechanics/EVPFFT/src/hdf5_io_functions.h
index ba646cb..26c3b0d 100644
--- a/apps/micromechanics/EVPFFT/src/hdf5_io_functions.h
+++ b/apps/micromechanics/EVPFFT/src/hdf5_io_functions.h
@@ -85,12 +85,12 @@ void read_hdf5_dataset(const char *dataset_name, R *data_ptr,
 
     hid_t dataset = open_hdf5_dataset(dataset_name, file_identifier);
 
-    // Create property list for collective dataset write.
+    // Create property list for collective dataset read.
     hid_t xfer_plist = H5Pcreate(H5P_DATASET_XFER);
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // read the data from disk using both the memory space and the data space.
-    H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr);
+    H5Dread(dataset, hdf5_datatype, memspace, filespace, xfer_plist, data_ptr);
 
     H5Dclose(dataset);
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.h b/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.h
index ba646cb..26c3b0d 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/hdf5_io_functions.h
@@ -85,12 +85,12 @@ void read_hdf5_dataset(const char *dataset_name, R *data_ptr,
 
     hid_t dataset = open_hdf5_dataset(dataset_name, file_identifier);
 
-    // Create property list for collective dataset write.
+    // Create property list for collective dataset read.
     hid_t xfer_plist = H5Pcreate(H5P_DATASET_XFER);
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // read the data from disk using both the memory space and the data space.
-    H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr);
+    H5Dread(dataset, hdf5_datatype, memspace, filespace, xfer_plist, data_ptr);
 
     H5Dclose(dataset);
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.h b/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.h
index ba646cb..26c3b0d 100644
--- a/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.h
+++ b/apps/micromechanics/LS-EVPFFT/src/hdf5_io_functions.h
@@ -85,12 +85,12 @@ void read_hdf5_dataset(const char *dataset_name, R *data_ptr,
 
     hid_t dataset = open_hdf5_dataset(dataset_name, file_identifier);
 
-    // Create property list for collective dataset write.
+    // Create property list for collective dataset read.
     hid_t xfer_plist = H5Pcreate(H5P_DATASET_XFER);
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // read the data from disk using both the memory space and the data space.
-    H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr);
+    H5Dread(dataset, hdf5_datatype, memspace, filespace, xfer_plist, data_ptr);
 
     H5Dclose(dataset);
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.h b/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.h
index ba646cb..26c3b0d 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/hdf5_io_functions.h
@@ -85,12 +85,12 @@ void read_hdf5_dataset(const char *dataset_name, R *data_ptr,
 
     hid_t dataset = open_hdf5_dataset(dataset_name, file_identifier);
 
-    // Create property list for collective dataset write.
+    // Create property list for collective dataset read.
     hid_t xfer_plist = H5Pcreate(H5P_DATASET_XFER);
     H5Pset_dxpl_mpio(xfer_plist, H5FD_MPIO_COLLECTIVE);
 
     // read the data from disk using both the memory space and the data space.
-    H5Dread(dataset, hdf5_datatype, memspace, filespace, H5P_DEFAULT, data_ptr);
+    H5Dread(dataset, hdf5_datatype, memspace, filespace, xfer_plist, data_ptr);
 
     H5Dclose(dataset);
 
-- 
2.43.0


From 62be1c1ef3d42f4103fc9f05d71127ec94d2b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 23/30] fix: NON_SCHMID_EFFECTS builds: stray comma in the
 non-Schmid resolved shear stress

---
 apps/micromechanics/EVPFFT/src/evpal.cpp         | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/calc_c0.cpp | 2 +-
 apps/micromechanics/LS-EVPFFT-J2/src/evpal.cpp   | 2 +-
 apps/micromechanics/LS-EVPFFT/src/calc_c0.cpp    | 2 +-
 apps/micromechanics/LS-EVPFFT/src/evpal.cpp      | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/calc_c0.cpp  | 2 +-
 apps/micromechanics/LSNP-EVPFFT/src/evpal.cpp    | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/evpal.cpp b/apps/micromechanics/EVPFFT/src/evpal.cpp
index 0212532..c404176 100644
--- a/apps/micromechanics/EVPFFT/src/evpal.cpp
+++ b/apps/micromechanics/EVPFFT/src/evpal.cpp
@@ -133,7 +133,7 @@ void EVPFFT::evpal(int imicro)
 
             for (int is = 1; is <= nsyst(jph); is++) {
 #ifdef NON_SCHMID_EFFECTS
-              rss(is,i,j,k) = schnon(1,is,,i,j,k)*sg6(1) + 
+              rss(is,i,j,k) = schnon(1,is,i,j,k)*sg6(1) + 
                         schnon(2,is,i,j,k)*sg6(2) + 
                         schnon(3,is,i,j,k)*sg6(3) + 
                         schnon(4,is,i,j,k)*sg6(4) + 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/calc_c0.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/calc_c0.cpp
index 2b437ec..b835ff6 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/calc_c0.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/calc_c0.cpp
@@ -81,7 +81,7 @@ void EVPFFT::calc_c0()
     
         for (int is = 1; is <= nsyst(jph); is++) {
 #ifdef NON_SCHMID_EFFECTS
-          rss(is,i,j,k) = schnon(1,is,,i,j,k)*sg6(1) + 
+          rss(is,i,j,k) = schnon(1,is,i,j,k)*sg6(1) + 
                     schnon(2,is,i,j,k)*sg6(2) + 
                     schnon(3,is,i,j,k)*sg6(3) + 
                     schnon(4,is,i,j,k)*sg6(4) + 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/evpal.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/evpal.cpp
index 814f488..ff9a2d7 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/evpal.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/evpal.cpp
@@ -148,7 +148,7 @@ void EVPFFT::evpal(int imicro)
     
               for (int is = 1; is <= nsyst(jph); is++) {
 #ifdef NON_SCHMID_EFFECTS
-                rss(is,i,j,k) = schnon(1,is,,i,j,k)*sg6(1) + 
+                rss(is,i,j,k) = schnon(1,is,i,j,k)*sg6(1) + 
                           schnon(2,is,i,j,k)*sg6(2) + 
                           schnon(3,is,i,j,k)*sg6(3) + 
                           schnon(4,is,i,j,k)*sg6(4) + 
diff --git a/apps/micromechanics/LS-EVPFFT/src/calc_c0.cpp b/apps/micromechanics/LS-EVPFFT/src/calc_c0.cpp
index b26a7d6..5131c84 100644
--- a/apps/micromechanics/LS-EVPFFT/src/calc_c0.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/calc_c0.cpp
@@ -81,7 +81,7 @@ void EVPFFT::calc_c0()
   
         for (int is = 1; is <= nsyst(jph); is++) {
 #ifdef NON_SCHMID_EFFECTS
-          rss(is,i,j,k) = schnon(1,is,,i,j,k)*sg6(1) + 
+          rss(is,i,j,k) = schnon(1,is,i,j,k)*sg6(1) + 
                     schnon(2,is,i,j,k)*sg6(2) + 
                     schnon(3,is,i,j,k)*sg6(3) + 
                     schnon(4,is,i,j,k)*sg6(4) + 
diff --git a/apps/micromechanics/LS-EVPFFT/src/evpal.cpp b/apps/micromechanics/LS-EVPFFT/src/evpal.cpp
index b5ff7dc..bc55625 100644
--- a/apps/micromechanics/LS-EVPFFT/src/evpal.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/evpal.cpp
@@ -150,7 +150,7 @@ void EVPFFT::evpal(int imicro)
   
               for (int is = 1; is <= nsyst(jph); is++) {
 #ifdef NON_SCHMID_EFFECTS
-                rss(is,i,j,k) = schnon(1,is,,i,j,k)*sg6(1) + 
+                rss(is,i,j,k) = schnon(1,is,i,j,k)*sg6(1) + 
                           schnon(2,is,i,j,k)*sg6(2) + 
                           schnon(3,is,i,j,k)*sg6(3) + 
                           schnon(4,is,i,j,k)*sg6(4) + 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/calc_c0.cpp b/apps/micromechanics/LSNP-EVPFFT/src/calc_c0.cpp
index 3f0e103..dd3d119 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/calc_c0.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/calc_c0.cpp
@@ -78,7 +78,7 @@ void EVPFFT::calc_c0()
   
       for (int is = 1; is <= nsyst(jph); is++) {
 #ifdef NON_SCHMID_EFFECTS
-        rss(is,i,j,k) = schnon(1,is,,i,j,k)*sg6(1) + 
+        rss(is,i,j,k) = schnon(1,is,i,j,k)*sg6(1) + 
                   schnon(2,is,i,j,k)*sg6(2) + 
                   schnon(3,is,i,j,k)*sg6(3) + 
                   schnon(4,is,i,j,k)*sg6(4) + 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/evpal.cpp b/apps/micromechanics/LSNP-EVPFFT/src/evpal.cpp
index 5d4bbb2..6de2981 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/evpal.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/evpal.cpp
@@ -146,7 +146,7 @@ void EVPFFT::evpal(int imicro)
   
             for (int is = 1; is <= nsyst(jph); is++) {
 #ifdef NON_SCHMID_EFFECTS
-              rss(is,i,j,k) = schnon(1,is,,i,j,k)*sg6(1) + 
+              rss(is,i,j,k) = schnon(1,is,i,j,k)*sg6(1) + 
                         schnon(2,is,i,j,k)*sg6(2) + 
                         schnon(3,is,i,j,k)*sg6(3) + 
                         schnon(4,is,i,j,k)*sg6(4) + 
-- 
2.43.0


From 3ec20c392b0e76222ea356248460a2f8d21b22dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 24/30] fix: the VTK writer waits for the ranks of its own
 communicator only

---
 apps/micromechanics/EVPFFT/src/write_micro_state.cpp      | 4 ++--
 apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp   | 4 ++--
 apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
index 7936527..6c5f429 100644
--- a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
@@ -451,7 +451,7 @@ void EVPFFT::write_micro_state_pvtu()
   int num_points = (npts1+1)*(npts2+1)*(npts3+1);
   int num_cells = npts1*npts2*npts3;
 
-  MPI_Barrier(MPI_COMM_WORLD);
+  MPI_Barrier(mpi_comm);
 
   // calculate elastic-strain
   MatrixTypeRealDual eel (3,3,npts1,npts2,npts3);
@@ -540,7 +540,7 @@ void EVPFFT::write_micro_state_pvtu()
       system(tmp);
     }
   }
-  MPI_Barrier(MPI_COMM_WORLD);
+  MPI_Barrier(mpi_comm);
 
   //  ---------------------------------------------------------------------------
   //  Write the PVTU file (only done by a single rank)
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
index 05c6fd6..d78da12 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
@@ -472,7 +472,7 @@ void EVPFFT::write_micro_state_pvtu()
   int num_points = (npts1+1)*(npts2+1)*(npts3+1);
   int num_cells = npts1*npts2*npts3;
 
-  MPI_Barrier(MPI_COMM_WORLD);
+  MPI_Barrier(mpi_comm);
 
   const size_t n = 3*npts1_g*npts2_g*npts3_g; // for detFavg (1), defgradinvavgc (9), and velgradavg (9)
 
@@ -634,7 +634,7 @@ void EVPFFT::write_micro_state_pvtu()
       system(tmp);
     }
   }
-  MPI_Barrier(MPI_COMM_WORLD);
+  MPI_Barrier(mpi_comm);
 
   //  ---------------------------------------------------------------------------
   //  Write the PVTU file (only done by a single rank)
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
index 4f2ebb2..d11673c 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
@@ -486,7 +486,7 @@ void EVPFFT::write_micro_state_pvtu()
   int num_points = (npts1+1)*(npts2+1)*(npts3+1);
   int num_cells = npts1*npts2*npts3;
 
-  MPI_Barrier(MPI_COMM_WORLD);
+  MPI_Barrier(mpi_comm);
 
   const size_t n = 3*npts1_g*npts2_g*npts3_g; // for detFavg (1), defgradinvavgc (9), and velgradavg (9)
 
@@ -649,7 +649,7 @@ void EVPFFT::write_micro_state_pvtu()
       system(tmp);
     }
   }
-  MPI_Barrier(MPI_COMM_WORLD);
+  MPI_Barrier(mpi_comm);
 
   //  ---------------------------------------------------------------------------
   //  Write the PVTU file (only done by a single rank)
-- 
2.43.0


From 2b05d06e9de529638c30e387d38fe3497c7a581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:34 +0000
Subject: [PATCH 25/30] fix: output files that cannot be opened are reported
 instead of written to

---
 apps/micromechanics/EVPFFT/src/utilities.cpp              | 4 +++-
 apps/micromechanics/EVPFFT/src/utilities.h                | 3 ++-
 apps/micromechanics/EVPFFT/src/write_micro_state.cpp      | 3 +++
 apps/micromechanics/EVPFFT/src/write_texture.cpp          | 2 ++
 apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp        | 4 +++-
 apps/micromechanics/LS-EVPFFT-J2/src/utilities.h          | 3 ++-
 apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp    | 2 ++
 apps/micromechanics/LS-EVPFFT/src/utilities.cpp           | 4 +++-
 apps/micromechanics/LS-EVPFFT/src/utilities.h             | 3 ++-
 apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp   | 3 +++
 apps/micromechanics/LS-EVPFFT/src/write_texture.cpp       | 2 ++
 apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp         | 4 +++-
 apps/micromechanics/LSNP-EVPFFT/src/utilities.h           | 3 ++-
 apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp | 3 +++
 apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp     | 2 ++
 15 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/utilities.cpp b/apps/micromechanics/EVPFFT/src/utilities.cpp
index d59b265..2431933 100644
--- a/apps/micromechanics/EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/EVPFFT/src/utilities.cpp
@@ -17,7 +17,7 @@ int get_mpi_comm_size(const MPI_Comm mpi_comm)
 }
 
 // FOR DEBUGING **************************
-void check_that_file_is_open(const std::ifstream & filestream, const char* filename)
+void check_that_file_is_open(const std::ios & filestream, const char* filename)
 {
   if (!filestream)
   {
@@ -43,6 +43,7 @@ void print_array_to_file(real_t *ptr, int N, int my_rank, const char* filename)
 
   FILE *my_file = NULL;
   my_file = fopen (filename_per_rank.c_str(), "w");
+  check_that_file_is_open(my_file, filename_per_rank.c_str());
 
   for (int i = 0; i < N; i++) {
     fprintf(my_file, "%24.14E\n", ptr[i]);
@@ -62,6 +63,7 @@ void print_array_to_file(int *ptr, int N, int my_rank, const char* filename)
 
   FILE *my_file = NULL;
   my_file = fopen (filename_per_rank.c_str(), "w");
+  check_that_file_is_open(my_file, filename_per_rank.c_str());
 
   for (int i = 0; i < N; i++) {
     fprintf(my_file, "%13d\n", ptr[i]);
diff --git a/apps/micromechanics/EVPFFT/src/utilities.h b/apps/micromechanics/EVPFFT/src/utilities.h
index 34956b8..b0a9cf3 100644
--- a/apps/micromechanics/EVPFFT/src/utilities.h
+++ b/apps/micromechanics/EVPFFT/src/utilities.h
@@ -11,7 +11,7 @@ int get_mpi_comm_rank(const MPI_Comm mpi_comm);
 int get_mpi_comm_size(const MPI_Comm mpi_comm);
 
 // FOR DEBUGING **************************
-void check_that_file_is_open(const std::ifstream & filestream, const char* filename);
+void check_that_file_is_open(const std::ios & filestream, const char* filename);
 void check_that_file_is_open(FILE *file_ptr, const char* filename);
 
 // minval
@@ -93,6 +93,7 @@ void print_array_to_file(T *ptr, size_t dim0, size_t dim1, size_t my_rank, const
 
   std::ofstream myfile;
   myfile.open(filename_per_rank);
+  check_that_file_is_open(myfile, filename_per_rank.c_str());
 
   int p = 4;
   myfile << std::setprecision(p) << std::scientific;
diff --git a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
index 6c5f429..3d2c774 100644
--- a/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_micro_state.cpp
@@ -1,4 +1,5 @@
 #include "evpfft.h"
+#include "utilities.h"
 #include "euler.h"
 #include "XdmfUniformGridWriter.h"
 #include "math_functions.h"
@@ -553,6 +554,7 @@ void EVPFFT::write_micro_state_pvtu()
     sprintf(pfilename, "%s/%s_%05lu.pvtu",pvtu_dir, name, graphics_idx);
     std::ofstream pout;  // FILE *out;
     pout.open(pfilename,std::ofstream::binary);
+    check_that_file_is_open(pout, pfilename);
 
     //  Write Header
     tmp_str = "<VTKFile type=\"PUnstructuredGrid\" version=\"1.0\" byte_order=\"LittleEndian\" header_type=\"UInt64\">\n";
@@ -711,6 +713,7 @@ void EVPFFT::write_micro_state_pvtu()
   
   std::ofstream out;  // FILE *out;
   out.open(filename,std::ofstream::binary);
+  check_that_file_is_open(out, filename);
 
   byte_offset = 0;
   
diff --git a/apps/micromechanics/EVPFFT/src/write_texture.cpp b/apps/micromechanics/EVPFFT/src/write_texture.cpp
index 4a74171..764ec56 100644
--- a/apps/micromechanics/EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/EVPFFT/src/write_texture.cpp
@@ -1,4 +1,5 @@
 #include "evpfft.h"
+#include "utilities.h"
 #include "euler.h"
 #include <memory>
 #include "Profiler.h"
@@ -17,6 +18,7 @@ void EVPFFT::write_texture()
     real_t ph, th, om, one;
 
     std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+    check_that_file_is_open(file_24.get(), "tex.out");
 
     one = 1.0;
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
index d59b265..2431933 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.cpp
@@ -17,7 +17,7 @@ int get_mpi_comm_size(const MPI_Comm mpi_comm)
 }
 
 // FOR DEBUGING **************************
-void check_that_file_is_open(const std::ifstream & filestream, const char* filename)
+void check_that_file_is_open(const std::ios & filestream, const char* filename)
 {
   if (!filestream)
   {
@@ -43,6 +43,7 @@ void print_array_to_file(real_t *ptr, int N, int my_rank, const char* filename)
 
   FILE *my_file = NULL;
   my_file = fopen (filename_per_rank.c_str(), "w");
+  check_that_file_is_open(my_file, filename_per_rank.c_str());
 
   for (int i = 0; i < N; i++) {
     fprintf(my_file, "%24.14E\n", ptr[i]);
@@ -62,6 +63,7 @@ void print_array_to_file(int *ptr, int N, int my_rank, const char* filename)
 
   FILE *my_file = NULL;
   my_file = fopen (filename_per_rank.c_str(), "w");
+  check_that_file_is_open(my_file, filename_per_rank.c_str());
 
   for (int i = 0; i < N; i++) {
     fprintf(my_file, "%13d\n", ptr[i]);
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.h b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.h
index 34956b8..b0a9cf3 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/utilities.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/utilities.h
@@ -11,7 +11,7 @@ int get_mpi_comm_rank(const MPI_Comm mpi_comm);
 int get_mpi_comm_size(const MPI_Comm mpi_comm);
 
 // FOR DEBUGING **************************
-void check_that_file_is_open(const std::ifstream & filestream, const char* filename);
+void check_that_file_is_open(const std::ios & filestream, const char* filename);
 void check_that_file_is_open(FILE *file_ptr, const char* filename);
 
 // minval
@@ -93,6 +93,7 @@ void print_array_to_file(T *ptr, size_t dim0, size_t dim1, size_t my_rank, const
 
   std::ofstream myfile;
   myfile.open(filename_per_rank);
+  check_that_file_is_open(myfile, filename_per_rank.c_str());
 
   int p = 4;
   myfile << std::setprecision(p) << std::scientific;
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp b/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
index 4a74171..764ec56 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/write_texture.cpp
@@ -1,4 +1,5 @@
 #include "evpfft.h"
+#include "utilities.h"
 #include "euler.h"
 #include <memory>
 #include "Profiler.h"
@@ -17,6 +18,7 @@ void EVPFFT::write_texture()
     real_t ph, th, om, one;
 
     std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+    check_that_file_is_open(file_24.get(), "tex.out");
 
     one = 1.0;
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/utilities.cpp b/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
index d59b265..2431933 100644
--- a/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/utilities.cpp
@@ -17,7 +17,7 @@ int get_mpi_comm_size(const MPI_Comm mpi_comm)
 }
 
 // FOR DEBUGING **************************
-void check_that_file_is_open(const std::ifstream & filestream, const char* filename)
+void check_that_file_is_open(const std::ios & filestream, const char* filename)
 {
   if (!filestream)
   {
@@ -43,6 +43,7 @@ void print_array_to_file(real_t *ptr, int N, int my_rank, const char* filename)
 
   FILE *my_file = NULL;
   my_file = fopen (filename_per_rank.c_str(), "w");
+  check_that_file_is_open(my_file, filename_per_rank.c_str());
 
   for (int i = 0; i < N; i++) {
     fprintf(my_file, "%24.14E\n", ptr[i]);
@@ -62,6 +63,7 @@ void print_array_to_file(int *ptr, int N, int my_rank, const char* filename)
 
   FILE *my_file = NULL;
   my_file = fopen (filename_per_rank.c_str(), "w");
+  check_that_file_is_open(my_file, filename_per_rank.c_str());
 
   for (int i = 0; i < N; i++) {
     fprintf(my_file, "%13d\n", ptr[i]);
diff --git a/apps/micromechanics/LS-EVPFFT/src/utilities.h b/apps/micromechanics/LS-EVPFFT/src/utilities.h
index 34956b8..b0a9cf3 100644
--- a/apps/micromechanics/LS-EVPFFT/src/utilities.h
+++ b/apps/micromechanics/LS-EVPFFT/src/utilities.h
@@ -11,7 +11,7 @@ int get_mpi_comm_rank(const MPI_Comm mpi_comm);
 int get_mpi_comm_size(const MPI_Comm mpi_comm);
 
 // FOR DEBUGING **************************
-void check_that_file_is_open(const std::ifstream & filestream, const char* filename);
+void check_that_file_is_open(const std::ios & filestream, const char* filename);
 void check_that_file_is_open(FILE *file_ptr, const char* filename);
 
 // minval
@@ -93,6 +93,7 @@ void print_array_to_file(T *ptr, size_t dim0, size_t dim1, size_t my_rank, const
 
   std::ofstream myfile;
   myfile.open(filename_per_rank);
+  check_that_file_is_open(myfile, filename_per_rank.c_str());
 
   int p = 4;
   myfile << std::setprecision(p) << std::scientific;
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
index d78da12..d74a913 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_micro_state.cpp
@@ -1,4 +1,5 @@
 #include "evpfft.h"
+#include "utilities.h"
 #include "defgrad_dcmp.h"
 #include "euler.h"
 #include "XdmfUniformGridWriter.h"
@@ -647,6 +648,7 @@ void EVPFFT::write_micro_state_pvtu()
     sprintf(pfilename, "%s/%s_%05lu.pvtu",pvtu_dir, name, graphics_idx);
     std::ofstream pout;  // FILE *out;
     pout.open(pfilename,std::ofstream::binary);
+    check_that_file_is_open(pout, pfilename);
 
     //  Write Header
     tmp_str = "<VTKFile type=\"PUnstructuredGrid\" version=\"1.0\" byte_order=\"LittleEndian\" header_type=\"UInt64\">\n";
@@ -805,6 +807,7 @@ void EVPFFT::write_micro_state_pvtu()
   
   std::ofstream out;  // FILE *out;
   out.open(filename,std::ofstream::binary);
+  check_that_file_is_open(out, filename);
 
   byte_offset = 0;
   
diff --git a/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp b/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
index 4a74171..764ec56 100644
--- a/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/LS-EVPFFT/src/write_texture.cpp
@@ -1,4 +1,5 @@
 #include "evpfft.h"
+#include "utilities.h"
 #include "euler.h"
 #include <memory>
 #include "Profiler.h"
@@ -17,6 +18,7 @@ void EVPFFT::write_texture()
     real_t ph, th, om, one;
 
     std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+    check_that_file_is_open(file_24.get(), "tex.out");
 
     one = 1.0;
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp b/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
index d59b265..2431933 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/utilities.cpp
@@ -17,7 +17,7 @@ int get_mpi_comm_size(const MPI_Comm mpi_comm)
 }
 
 // FOR DEBUGING **************************
-void check_that_file_is_open(const std::ifstream & filestream, const char* filename)
+void check_that_file_is_open(const std::ios & filestream, const char* filename)
 {
   if (!filestream)
   {
@@ -43,6 +43,7 @@ void print_array_to_file(real_t *ptr, int N, int my_rank, const char* filename)
 
   FILE *my_file = NULL;
   my_file = fopen (filename_per_rank.c_str(), "w");
+  check_that_file_is_open(my_file, filename_per_rank.c_str());
 
   for (int i = 0; i < N; i++) {
     fprintf(my_file, "%24.14E\n", ptr[i]);
@@ -62,6 +63,7 @@ void print_array_to_file(int *ptr, int N, int my_rank, const char* filename)
 
   FILE *my_file = NULL;
   my_file = fopen (filename_per_rank.c_str(), "w");
+  check_that_file_is_open(my_file, filename_per_rank.c_str());
 
   for (int i = 0; i < N; i++) {
     fprintf(my_file, "%13d\n", ptr[i]);
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/utilities.h b/apps/micromechanics/LSNP-EVPFFT/src/utilities.h
index 34956b8..b0a9cf3 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/utilities.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/utilities.h
@@ -11,7 +11,7 @@ int get_mpi_comm_rank(const MPI_Comm mpi_comm);
 int get_mpi_comm_size(const MPI_Comm mpi_comm);
 
 // FOR DEBUGING **************************
-void check_that_file_is_open(const std::ifstream & filestream, const char* filename);
+void check_that_file_is_open(const std::ios & filestream, const char* filename);
 void check_that_file_is_open(FILE *file_ptr, const char* filename);
 
 // minval
@@ -93,6 +93,7 @@ void print_array_to_file(T *ptr, size_t dim0, size_t dim1, size_t my_rank, const
 
   std::ofstream myfile;
   myfile.open(filename_per_rank);
+  check_that_file_is_open(myfile, filename_per_rank.c_str());
 
   int p = 4;
   myfile << std::setprecision(p) << std::scientific;
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
index d11673c..e3fdbe6 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_micro_state.cpp
@@ -1,4 +1,5 @@
 #include "evpfft.h"
+#include "utilities.h"
 #include "defgrad_dcmp.h"
 #include "euler.h"
 #include "XdmfUniformGridWriter.h"
@@ -662,6 +663,7 @@ void EVPFFT::write_micro_state_pvtu()
     sprintf(pfilename, "%s/%s_%05lu.pvtu",pvtu_dir, name, graphics_idx);
     std::ofstream pout;  // FILE *out;
     pout.open(pfilename,std::ofstream::binary);
+    check_that_file_is_open(pout, pfilename);
 
     //  Write Header
     tmp_str = "<VTKFile type=\"PUnstructuredGrid\" version=\"1.0\" byte_order=\"LittleEndian\" header_type=\"UInt64\">\n";
@@ -820,6 +822,7 @@ void EVPFFT::write_micro_state_pvtu()
   
   std::ofstream out;  // FILE *out;
   out.open(filename,std::ofstream::binary);
+  check_that_file_is_open(out, filename);
 
   byte_offset = 0;
   
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
index d04d4f0..82edb6d 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
+++ b/apps/micromechanics/LSNP-EVPFFT/src/write_texture.cpp
@@ -1,4 +1,5 @@
 #include "evpfft.h"
+#include "utilities.h"
 #include "euler.h"
 #include <memory>
 #include "Profiler.h"
@@ -17,6 +18,7 @@ void EVPFFT::write_texture()
     real_t ph, th, om, one;
 
     std::unique_ptr <FILE, decltype(&fclose)> file_24 (fopen("tex.out", "w"), &fclose);
+    check_that_file_is_open(file_24.get(), "tex.out");
 
     one = 1.0;
 
-- 
2.43.0


From 57b4751d980d204f6a2387feb616a10a10917e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:40 +0000
Subject: [PATCH 26/30] fix: refuse an unknown temperature boundary condition
 model

---
 apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index a8cbf1a..8711600 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -371,6 +371,10 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             break;
                     }
                 }
+                else {
+                    std::cout << "ERROR: invalid temperature boundary condition input: " << temperature_model << std::endl;
+                    throw std::runtime_error("**** Temperature BC model Not Understood ****");
+                } // end if
 
             }   
 
-- 
2.43.0


From 8a9ab639f9b774be3205bb95ec840413d7641035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:40 +0000
Subject: [PATCH 27/30] fix: refuse an unknown eos_model_type

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index d507f78..6614b45 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -260,6 +260,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                 } 
                 else{
                     std::cout << "ERROR: invalid eos type input: " << type << std::endl;
+                    throw std::runtime_error("**** EOS Type Not Understood ****");
                 } // end if
             }
             //
-- 
2.43.0


From 73c205ef2fe663bdeac53b23d93ef59236e228a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:40 +0000
Subject: [PATCH 28/30] fix: geo_equilibration_model sets the geometric
 equilibration model

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 6614b45..e76678d 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -1102,17 +1102,17 @@ void parse_multimaterial_options(Yaml::Node& root, Material_t& Materials)
                 switch(equilibration_model_map[equilibration_model]){
                     case model::tiptonEquilibration:
                     {
-                        Materials.EquilibrationModels = model::tiptonEquilibration;
+                        Materials.GeoEquilibrationModels = model::tiptonEquilibration;
                         break;
                     }
                     case model::userDefinedEquilibration:
                     {
-                        Materials.EquilibrationModels = model::userDefinedEquilibration;
+                        Materials.GeoEquilibrationModels = model::userDefinedEquilibration;
                         break;
                     }
                     case model::noEquilibration:
                     {
-                        Materials.EquilibrationModels = model::noEquilibration;
+                        Materials.GeoEquilibrationModels = model::noEquilibration;
                         break;
                     }
                     default:
-- 
2.43.0


From 11a7b6ba4546e53f0110eb8c47cbc5feb23ab15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 29/30] fix: refuse an unknown region volume type

---
 apps/multiphysics/src/input/parse_regions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index a1c6798..b69cd37 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -1440,6 +1440,10 @@ void parse_regions(Yaml::Node& root,
                                     throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
                                     break;
                             } // end switch
+                        }
+                        else{
+                            std::cout << "ERROR: invalid region volume fill type input: " << type << std::endl;
+                            throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
                         } // end if on setting volume tag
 
                     }  // end if on volume type
-- 
2.43.0


From b5dba4a216186f094a11e52cafab2b646c259d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:55 +0000
Subject: [PATCH 30/30] fix: refuse a region whose solver_id is no solver

---
 apps/multiphysics/src/input/parse_regions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index b69cd37..c1e7d98 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -125,7 +125,13 @@ void parse_regions(Yaml::Node& root,
             // set the values
             if (a_word.compare("solver_id") == 0) {
                 int solver_id = root["regions"][reg_id]["region"][a_word].As<int>();
-                
+
+                if (solver_id < 0 || solver_id >= num_solvers) {
+                    std::cout << "ERROR: invalid solver_id specified in the region definition. Either negative or >= num_solvers" << std::endl;
+
+                    throw std::runtime_error("**** Solver_id is out of bounds ****");
+                } // end check on solver_id range
+
                 // get the local id for filling this region
                 size_t fill_lid = num_reg_fills_in_solver.host(solver_id);
 
-- 
2.43.0

