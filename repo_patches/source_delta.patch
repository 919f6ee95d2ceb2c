From 8cfec9212fe3129cd9fda5ce8b947e6d6b1a3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:17 +0000
Subject: [PATCH 01/68] fix: accept a tuple searchList with
 prioritizeSearchListOverSelf

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index e7d06a4..5b6b13f 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1571,7 +1571,7 @@ class Template(Servlet):
             if searchList is not None:
                 if isinstance(compilerSettings, dict) and \
                         compilerSettings.get('prioritizeSearchListOverSelf'):
-                    self._CHEETAH__searchList = searchList + \
+                    self._CHEETAH__searchList = list(searchList) + \
                         self._CHEETAH__searchList
                 else:
                     self._CHEETAH__searchList.extend(list(searchList))
-- 
2.43.0


From ec1f11dcfff771d023fb4815279cef9e3cc73b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:26 +0000
Subject: [PATCH 02/68] fix: C NameMapper crashed when a key was found but
 getting its value failed

---
 Cheetah/c/_namemapper.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 52a9293..0d4dd4d 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -187,6 +187,12 @@ static PyObject *PyNamemapper_valueForName(PyObject *obj, char *nameChunks[], in
         #else
         if (PyMapping_Check(currentVal) && PyMapping_HasKeyString(currentVal, currentKey)) {
             nextVal = PyMapping_GetItemString(currentVal, currentKey);
+            if (nextVal == NULL) { /* the key was there when tested, but getting it failed */
+                if (i > 0) {
+                    Py_DECREF(currentVal);
+                }
+                return NULL;
+            }
         #endif
 
         } else {
-- 
2.43.0


From c836b2609fa47560b4dd987cc54f185169907f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:16 +0000
Subject: [PATCH 03/68] fix: restore the output destination when a #call,
 #capture or #cache region is left early

An exception caught outside the region, or a #break or #continue out of it,
left the rest of the output going to the discarded collector.
---
 Cheetah/Compiler.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 61c7468..1b65989 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -831,6 +831,8 @@ class MethodCompiler(GenUtils):
             % locals())
         self.indent()
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
+        self.addChunk('try:')
+        self.indent()
         self.addChunk('trans = _cacheCollector_%(ID)s = DummyTransaction()'
                       % locals())
         self.addChunk('write = _cacheCollector_%(ID)s.response().write'
@@ -842,8 +844,13 @@ class MethodCompiler(GenUtils):
 
     def endCacheRegion(self):
         ID = self._cacheRegionsStack.pop()
+        self.commitStrConst()
+        self.dedent()
+        self.addChunk('finally:')
+        self.indent()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
+        self.dedent()
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
@@ -877,6 +884,8 @@ class MethodCompiler(GenUtils):
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
         self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
                       % locals())
+        self.addChunk('try:')
+        self.indent()
         self.addChunk('self._CHEETAH__isBuffering = True')
         self.addChunk('trans = _callCollector%(ID)s = DummyTransaction()'
                       % locals())
@@ -912,10 +921,15 @@ class MethodCompiler(GenUtils):
             callDetails.functionName, callDetails.args, callDetails.lineCol)
 
         def reset(ID=ID):
+            self.commitStrConst()
+            self.dedent()
+            self.addChunk('finally:')
+            self.indent()
             self.addChunk('trans = _orig_trans%(ID)s' % locals())
             self.addChunk('write = trans.response().write')
             self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s '
                           % locals())
+            self.dedent()
             self.addChunk('del _wasBuffering%(ID)s' % locals())
             self.addChunk('del _orig_trans%(ID)s' % locals())
 
@@ -964,6 +978,8 @@ class MethodCompiler(GenUtils):
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
         self.addChunk(
             '_wasBuffering%(ID)s = self._CHEETAH__isBuffering' % locals())
+        self.addChunk('try:')
+        self.indent()
         self.addChunk('self._CHEETAH__isBuffering = True')
         self.addChunk(
             'trans = _captureCollector%(ID)s = DummyTransaction()' % locals())
@@ -973,10 +989,15 @@ class MethodCompiler(GenUtils):
     def endCaptureRegion(self):
         ID, captureDetails = self._captureRegionsStack.pop()
         assignTo, lineCol = (captureDetails.assignTo, captureDetails.lineCol)
+        self.commitStrConst()
+        self.dedent()
+        self.addChunk('finally:')
+        self.indent()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
         self.addChunk(
             'self._CHEETAH__isBuffering = _wasBuffering%(ID)s ' % locals())
+        self.dedent()
         self.addChunk(
             '%(assignTo)s = _captureCollector%(ID)s.response().getvalue()'
             % locals())
-- 
2.43.0


From 64692baec0c09ae17e5a3cb1fbaafd0b2a79f6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:51 +0000
Subject: [PATCH 04/68] fix: end a #filter region also when it is left early,
 and make '#filter None' reach called methods

---
 Cheetah/Compiler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 1b65989..a37153c 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1044,13 +1044,16 @@ class MethodCompiler(GenUtils):
         self._filterRegionsStack.append((ID, filterDetails))
 
         self.addChunk('_orig_filter%(ID)s = _filter' % locals())
+        self.addChunk('try:')
+        self.indent()
         if isKlass:
             self.addChunk(
                 '_filter = self._CHEETAH__currentFilter = '
                 + theFilter.strip() + '(self).filter')
         else:
             if theFilter.lower() == 'none':
-                self.addChunk('_filter = self._CHEETAH__initialFilter')
+                self.addChunk('_filter = self._CHEETAH__currentFilter = '
+                              'self._CHEETAH__initialFilter')
             else:
                 # is string representing the name of a builtin filter
                 self.addChunk('filterName = ' + repr(theFilter))
@@ -1072,11 +1075,16 @@ class MethodCompiler(GenUtils):
 
     def closeFilterBlock(self):
         ID, filterDetails = self._filterRegionsStack.pop()
+        self.commitStrConst()
+        self.dedent()
+        self.addChunk('finally:')
+        self.indent()
         # self.addChunk('_filter = self._CHEETAH__initialFilter')
         # self.addChunk('_filter = _orig_filter%(ID)s'%locals())
         self.addChunk(
             '_filter = self._CHEETAH__currentFilter = _orig_filter%(ID)s'
             % locals())
+        self.dedent()
 
 
 class AutoMethodCompiler(MethodCompiler):
-- 
2.43.0


From 7e491f6f4dcd7161854b986a9dc743bcd5dce0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:53 +0000
Subject: [PATCH 05/68] fix: buffer the output of methods called inside a
 #cache region when a transaction is active

---
 Cheetah/Compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index a37153c..c3789ab 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -831,8 +831,11 @@ class MethodCompiler(GenUtils):
             % locals())
         self.indent()
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
+        self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
+                      % locals())
         self.addChunk('try:')
         self.indent()
+        self.addChunk('self._CHEETAH__isBuffering = True')
         self.addChunk('trans = _cacheCollector_%(ID)s = DummyTransaction()'
                       % locals())
         self.addChunk('write = _cacheCollector_%(ID)s.response().write'
@@ -850,6 +853,8 @@ class MethodCompiler(GenUtils):
         self.indent()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
+        self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s'
+                      % locals())
         self.dedent()
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
@@ -859,6 +864,7 @@ class MethodCompiler(GenUtils):
         self.addChunk('del _cacheData')
         self.addChunk('del _cacheCollector_%(ID)s' % locals())
         self.addChunk('del _orig_trans%(ID)s' % locals())
+        self.addChunk('del _wasBuffering%(ID)s' % locals())
         self.dedent()
         self.addChunk('## END CACHE REGION: ' + ID)
         self.addChunk('')
-- 
2.43.0


From 0a185c2fcb6ad1dc6e090b5c720e244373292880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:01 +0000
Subject: [PATCH 06/68] fix: indentation before #arg leaked into the argument
 value

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3b7c4b1..5ff5322 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2592,12 +2592,12 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         argName = self._applyExpressionFilters(argName, 'arg',
                                                startPos=startPos)
-        self._compiler.setCallArg(argName, lineCol)
         if self.peek() == ':':
             self.getc()
         else:
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                         endOfFirstLinePos)
+        self._compiler.setCallArg(argName, lineCol)
 
     def eatFilter(self):
         isLineClearToStartToken = self.isLineClearToStartToken()
-- 
2.43.0


From 61421cebdb69505c53154ba04327c8a722c19488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:15 +0000
Subject: [PATCH 07/68] fix: an escaped '#' at the end of a line is literal
 text, not the end-of-line slurp token

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 5ff5322..b4e517b 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -507,7 +507,8 @@ class _LowLevelParser(SourceReader):
 
         if self.setting('EOLSlurpToken'):
             self.EOLSlurpRE = cachedRegex(
-                escapeRegexChars(self.setting('EOLSlurpToken'))
+                escCharLookBehind
+                + escapeRegexChars(self.setting('EOLSlurpToken'))
                 + r'[ \t\f]*'
                 + r'(?:' + EOL + ')'
             )
-- 
2.43.0


From 2b1fafc2878bb02bd283998e249b39f65a174fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:35 +0000
Subject: [PATCH 08/68] fix: indentation of a directive line leaked into the
 output when the line ended with a ## comment

---
 Cheetah/Parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b4e517b..1f28eb9 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1712,6 +1712,10 @@ class _HighLevelParser(_LowLevelParser):
             if not self.matchDirective():
                 self.setPos(pos)
                 foundComment = True
+                if isLineClearToStartToken:
+                    # the comment runs to the EOL, so nothing else is on the
+                    # line; do it now as the comment commits pending text.
+                    self._compiler.handleWSBeforeDirective()
                 self.eatComment()  # this won't gobble the EOL
             else:
                 self.setPos(pos)
-- 
2.43.0


From 37c20272d8d2218356afa795230b22340690ffbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:36 +0000
Subject: [PATCH 09/68] fix: nested multi-line comment tokens swallowed the
 character after them

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 1f28eb9..6466250 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1605,9 +1605,10 @@ class _HighLevelParser(_LowLevelParser):
             elif self.matchMultiLineCommentEndToken():
                 self.getMultiLineCommentEndToken()
                 level -= 1
+            else:
+                self.advance()
             if not level:
                 break
-            self.advance()
         comm = self.readTo(endPos, start=startPos)
 
         if not self.atEnd():
-- 
2.43.0


From 19084e5407c76048dc528b4c693b827f6418765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 10/68] fix: white space after an #errorCatcher directive was
 output instead of ignored

---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 6466250..2194d1e 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2672,6 +2672,7 @@ class _HighLevelParser(_LowLevelParser):
         errorCatcherName = self.getIdentifier()
         errorCatcherName = self._applyExpressionFilters(
             errorCatcherName, 'errorcatcher', startPos=startPos)
+        self.getWhiteSpace()
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
         self._compiler.setErrorCatcher(errorCatcherName)
 
-- 
2.43.0


From 8a74030e86c66d63c7c91c9ea4dbedeb07a10228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:05 +0000
Subject: [PATCH 11/68] fix: text before #raw (or a macro) on its line was lost
 when the end directive stood on its own line

---
 Cheetah/Parser.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 2194d1e..bd4c8bf 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1758,16 +1758,14 @@ class _HighLevelParser(_LowLevelParser):
         textEaten = self.readTo(endRawPos, start=startPos)
         self.setPos(finalPos)
 
-        endOfFirstLinePos = self.findEOL()
-
         if self.matchDirectiveEndToken():
             self.getDirectiveEndToken()
         elif isLineClearToStartToken and (not self.atEnd()) \
                 and self.peek() in '\r\n':
             self.readToEOL(gobble=True)
 
-        if isLineClearToStartToken and self.pos() > endOfFirstLinePos:
-            self._compiler.handleWSBeforeDirective()
+        # N.B. the pending text is the one before the start directive; the
+        # whitespace before the end directive is not part of textEaten.
         return textEaten
 
     def eatSimpleExprDirective(self, directiveName,
-- 
2.43.0


From ea7a75499dda67aa309b90e38708ece125c8e935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:37 +0000
Subject: [PATCH 12/68] fix: after nested closures or defs the rest of the
 template lost access to the searchList

---
 Cheetah/Parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index bd4c8bf..6869e76 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1409,6 +1409,8 @@ class _HighLevelParser(_LowLevelParser):
         self._macros = {}
         self._macroDetails = {}
         self._openDirectivesStack = []
+        # the 'useSearchList' setting outside of each open closure
+        self._useSearchList_origs = []
 
     def cleanup(self):
         """Cleanup to remove any possible reference cycles
@@ -1871,7 +1873,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.commitStrConst()
             self._compiler.dedent()
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchList_origs.pop())
 
     # specific directive eat methods
 
@@ -2141,7 +2143,7 @@ class _HighLevelParser(_LowLevelParser):
                 directiveName == 'def' and not isNestedDef):
             self._compiler.startMethodDef(methodName, argsList, parserComment)
         else:  # closure
-            self._useSearchList_orig = self.setting('useSearchList')
+            self._useSearchList_origs.append(self.setting('useSearchList'))
             self.setSetting('useSearchList', False)
             self._compiler.addClosure(methodName, argsList, parserComment)
 
@@ -2763,7 +2765,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.closeDef()
         else:
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchList_origs.pop())
             self._compiler.commitStrConst()
             self._compiler.dedent()
     ###
-- 
2.43.0


From 7063cd28a804e23ed96376e4d9a6e6fdef5ae10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:09 +0000
Subject: [PATCH 13/68] fix: refreshing a cache item that is not in the store
 is not an error

---
 Cheetah/CacheRegion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 153aec9..8620fab 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -68,7 +68,10 @@ class CacheItem(object):
         return self.getData() or ""
 
     def clear(self):
-        self._cacheStore.delete(self._cacheItemID)
+        try:
+            self._cacheStore.delete(self._cacheItemID)
+        except KeyError:
+            pass  # nothing stored (yet, or any more)
         self._refreshTime = None
 
 
-- 
2.43.0


From 8d1fa35d3cf40b5005c4db5a61f88c96f4636af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:09 +0000
Subject: [PATCH 14/68] fix: allow non-ASCII varyBy values in cache regions

---
 Cheetah/CacheRegion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 8620fab..34f366d 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -132,7 +132,7 @@ class CacheRegion(object):
 
             Returns a `CacheItem` instance.
         """
-        cacheItemID = md5(str(cacheItemID).encode('ascii')).hexdigest()
+        cacheItemID = md5(str(cacheItemID).encode('utf-8')).hexdigest()
 
         if cacheItemID not in self._cacheItems:
             cacheItem = self._cacheItemClass(
-- 
2.43.0


From 5674444b3af96d9baee6c386ecf04c3a982b8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:06 +0000
Subject: [PATCH 15/68] fix: varyBy and test of #cache may start with a string
 literal

---
 Cheetah/Compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index c3789ab..ca644fc 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -174,7 +174,8 @@ class GenUtils(object):
     def genCacheInfoFromArgList(self, argList):
         cacheInfo = {'type': REFRESH_CACHE}
         for key, val in argList:
-            if val[0] in '"\'':
+            # 'test' and 'varyBy' are expressions, string literals included
+            if val[0] in '"\'' and key not in ('test', 'varyBy'):
                 val = val[1:-1]
 
             if key == 'timer':
-- 
2.43.0


From b8bb4868e9c5d94730554f1cd2d016fa07767e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:59 +0000
Subject: [PATCH 16/68] fix: MemoryCacheStore.replace was inverted, and expired
 values blocked add

---
 Cheetah/CacheStore.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 00b77ec..b51851e 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -43,29 +43,33 @@ class MemoryCacheStore(AbstractCacheStore):
     def __init__(self):
         self._data = {}
 
+    def _dropExpired(self, key):
+        (val, exptime) = self._data.get(key, (None, 0))
+        if exptime and time.time() > exptime:
+            del self._data[key]
+
     def set(self, key, val, time=0):
         self._data[key] = (val, time)
 
     def add(self, key, val, time=0):
+        self._dropExpired(key)
         if key in self._data:
             raise Error('a value for key %r is already in the cache' % key)
         self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
-        if key in self._data:
-            raise Error('a value for key %r is already in the cache' % key)
+        self._dropExpired(key)
+        if key not in self._data:
+            raise Error('there is no value for key %r in the cache' % key)
         self._data[key] = (val, time)
 
     def delete(self, key):
+        self._dropExpired(key)
         del self._data[key]
 
     def get(self, key):
-        (val, exptime) = self._data[key]
-        if exptime and time.time() > exptime:
-            del self._data[key]
-            raise KeyError(key)
-        else:
-            return val
+        self._dropExpired(key)
+        return self._data[key][0]
 
     def clear(self):
         self._data.clear()
-- 
2.43.0


From 43ab2a2f8864a38b110aa36f413e85324d1e1baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:59 +0000
Subject: [PATCH 17/68] fix: MemcachedCacheStore.add and replace failed after
 storing, and the default server list was a string

---
 Cheetah/CacheStore.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index b51851e..f71e50f 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -76,7 +76,7 @@ class MemoryCacheStore(AbstractCacheStore):
 
 
 class MemcachedCacheStore(AbstractCacheStore):
-    servers = ('127.0.0.1:11211')
+    servers = ('127.0.0.1:11211',)
 
     def __init__(self, servers=None, debug=False):
         if servers is None:
@@ -91,13 +91,11 @@ class MemcachedCacheStore(AbstractCacheStore):
         res = self._client.add(key, val, time)
         if not res:
             raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
         res = self._client.replace(key, val, time)
         if not res:
-            raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
+            raise Error('there is no value for key %r in the cache' % key)
 
     def delete(self, key):
         res = self._client.delete(key, time=0)
-- 
2.43.0


From 0be19bd4f7b2e73abefb4aa0a11e700f3d81de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:26 +0000
Subject: [PATCH 18/68] fix: the compile cache could return a class made for
 other names, settings or globals

---
 Cheetah/Template.py | 69 ++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 42 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 5b6b13f..a7bf891 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -87,27 +87,16 @@ class PreprocessError(Error):
     pass
 
 
-def hashList(v_list):
-    hashedList = []
-    for v in v_list:
-        if isinstance(v, dict):
-            v = hashDict(v)
-        elif isinstance(v, list):
-            v = hashList(v)
-        hashedList.append(v)
-    return hash(tuple(hashedList))
-
-
-def hashDict(d):
-    items = sorted(d.items())
-    hashedList = []
-    for k, v in items:
-        if isinstance(v, dict):
-            v = hashDict(v)
-        elif isinstance(v, list):
-            v = hashList(v)
-        hashedList.append((k, v))
-    return hash(tuple(hashedList))
+def _freeze(v):
+    """A hashable stand-in for a setting: equal only for equal settings of the
+    same types.  Raises TypeError if there is none.
+    """
+    if isinstance(v, dict):
+        return (dict, frozenset((k, _freeze(v[k])) for k in v))
+    elif isinstance(v, list):
+        return (list, tuple(_freeze(item) for item in v))
+    hash(v)
+    return (type(v), v)
 
 
 ###############################################################################
@@ -727,14 +716,6 @@ class Template(Servlet):
         cacheHash = None
         cacheItem = None
         if source or isinstance(file, string_type):
-            compilerSettingsHash = None
-            if compilerSettings:
-                compilerSettingsHash = hashDict(compilerSettings)
-
-            moduleGlobalsHash = None
-            if moduleGlobals:
-                moduleGlobalsHash = hashDict(moduleGlobals)
-
             fileHash = None
             if file:
                 fileHash = str(hash(file))
@@ -747,21 +728,24 @@ class Template(Servlet):
                 # compiled module on disk and thereby reduce the startup time
                 # for applications that use a lot of dynamically compiled
                 # templates.
-                cacheHash = ''.join([str(v) for v in
-                                     [hash(source),
-                                      fileHash,
-                                      className,
-                                      moduleName,
-                                      mainMethodName,
-                                      hash(compilerClass),
-                                      hash(baseclass),
-                                      compilerSettingsHash,
-                                      moduleGlobalsHash,
-                                      hash(cacheDirForModuleFiles),
-                                      ]])
+                # The module globals are compared by identity: the cache item
+                # keeps them alive.
+                cacheHash = (source,
+                             fileHash,
+                             className,
+                             moduleName,
+                             mainMethodName,
+                             compilerClass,
+                             baseclass,
+                             _freeze(compilerSettings),
+                             frozenset((k, id(v)) for k, v
+                                       in (moduleGlobals or {}).items()),
+                             cacheDirForModuleFiles,
+                             )
+                hash(cacheHash)
             except Exception:
                 # @@TR: should add some logging to this
-                pass
+                cacheHash = None
         outputEncoding = 'ascii'
         compiler = None
         if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
@@ -853,6 +837,7 @@ class Template(Servlet):
                 cacheItem.cacheTime = cacheItem.lastCheckoutTime = time.time()
                 cacheItem.code = generatedModuleCode
                 cacheItem.klass = templateClass
+                cacheItem.moduleGlobals = dict(moduleGlobals or {})
                 templateClass._CHEETAH_isInCompilationCache = True
                 klass._CHEETAH_compileCache[cacheHash] = cacheItem
             else:
-- 
2.43.0


From ff39675f3dbfca853cd5f1188b3d3903d4f4d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:26 +0000
Subject: [PATCH 19/68] fix: module code taken from the compile cache lost its
 encoding

---
 Cheetah/Template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index a7bf891..01e5291 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -751,6 +751,7 @@ class Template(Servlet):
         if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
             cacheItem = klass._CHEETAH_compileCache[cacheHash]
             generatedModuleCode = cacheItem.code
+            outputEncoding = cacheItem.outputEncoding
         else:
             compiler = compilerClass(source, file,
                                      moduleName=moduleName,
@@ -836,6 +837,7 @@ class Template(Servlet):
                 cacheItem = CompileCacheItem()
                 cacheItem.cacheTime = cacheItem.lastCheckoutTime = time.time()
                 cacheItem.code = generatedModuleCode
+                cacheItem.outputEncoding = outputEncoding
                 cacheItem.klass = templateClass
                 cacheItem.moduleGlobals = dict(moduleGlobals or {})
                 templateClass._CHEETAH_isInCompilationCache = True
-- 
2.43.0


From d752898df5ca9b97b0e5b35bd413bec18f6abad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:50 +0000
Subject: [PATCH 20/68] fix: compiling modified the macroDirectives and
 preprocessor settings of the caller

---
 Cheetah/Parser.py   | 3 ++-
 Cheetah/Template.py | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 6869e76..c7f42cc 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1475,7 +1475,8 @@ class _HighLevelParser(_LowLevelParser):
         for directiveName in self.setting('closeableDirectives', []):
             self._closeableDirectives.append(directiveName)
 
-        macroDirectives = self.setting('macroDirectives', {})
+        # a copy: the dictionary belongs to the caller
+        macroDirectives = dict(self.setting('macroDirectives', {}))
         macroDirectives['i18n'] = I18n
 
         for macroName, callback in macroDirectives.items():
diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 01e5291..f72cc81 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -943,8 +943,9 @@ class Template(Servlet):
                 'Preprocessor requires either a "tokens" '
                 'or a "compilerSettings" arg. Neither was provided.')
 
-        if not hasattr(settings, 'templateInitArgs'):
-            settings.templateInitArgs = {}
+        # copies: the dictionaries belong to the caller
+        settings.templateInitArgs = dict(
+            getattr(settings, 'templateInitArgs', {}))
         if 'searchList' not in settings.templateInitArgs:
             if not hasattr(settings, 'searchList') \
                     and hasattr(settings, 'namespaces'):
@@ -963,8 +964,8 @@ class Template(Servlet):
                 pass
             settings.templateAPIClass = PreprocessTemplateAPIClass
 
-        if not hasattr(settings, 'compilerSettings'):
-            settings.compilerSettings = {}
+        settings.compilerSettings = dict(
+            getattr(settings, 'compilerSettings', None) or {})
 
         klass._updateSettingsWithPreprocessTokens(
             compilerSettings=settings.compilerSettings,
-- 
2.43.0


From 87ac16a187672d75bbe94815ea7cc92ec0bbb663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:07 +0000
Subject: [PATCH 21/68] fix: compiling a template whose module code compiles
 another template deadlocked

---
 Cheetah/Template.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index f72cc81..a07115a 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -102,11 +102,15 @@ def _freeze(v):
 ###############################################################################
 # MODULE GLOBALS AND CONSTANTS
 
+# names given to modules which are not in sys.modules yet
+_moduleNamesInProgress = set()
+
+
 def _genUniqueModuleName(baseModuleName):
     """The calling code is responsible for concurrency locking.
     """
     finalName = baseModuleName
-    while finalName in sys.modules:
+    while finalName in sys.modules or finalName in _moduleNamesInProgress:
         finalName = ('cheetah_%s_%s_%s' % (baseModuleName,
                                            str(time.time()).replace('.', '_'),
                                            str(randrange(10000, 99999))))
@@ -780,9 +784,16 @@ class Template(Servlet):
                 cacheItem.lastCheckoutTime = time.time()
                 return cacheItem.klass
 
+            # The lock is not held while the module is executed: that may
+            # compile other templates, or wait for a thread which does.
+            klass._CHEETAH_compileLock.acquire()
             try:
-                klass._CHEETAH_compileLock.acquire()
                 uniqueModuleName = _genUniqueModuleName(moduleName)
+                _moduleNamesInProgress.add(uniqueModuleName)
+            finally:
+                klass._CHEETAH_compileLock.release()
+
+            try:
                 # relative file path with no dir part
                 __file__ = uniqueModuleName + '.py'
 
@@ -828,7 +839,7 @@ class Template(Servlet):
                 ##
                 sys.modules[uniqueModuleName] = mod
             finally:
-                klass._CHEETAH_compileLock.release()
+                _moduleNamesInProgress.discard(uniqueModuleName)
 
             templateClass = getattr(mod, className)
 
-- 
2.43.0


From 637459ffe5147787dbc1196593011406b518380d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:45 +0000
Subject: [PATCH 22/68] fix: raw and rendered, file and source includes of the
 same name were mixed up

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index a07115a..71d1811 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1664,7 +1664,7 @@ class Template(Servlet):
                               includeFrom='file', raw=False):
         """Called at runtime to handle #include directives.
         """
-        _includeID = srcArg
+        _includeID = (srcArg, includeFrom, raw)
         if _includeID not in self._CHEETAH__cheetahIncludes:
             if not raw:
                 if includeFrom == 'file':
-- 
2.43.0


From e447705f4c81e68cf107a4acc55836b17a063b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:01 +0000
Subject: [PATCH 23/68] fix: c'' strings with backslashes or without content in
 expressions

---
 Cheetah/Parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index c7f42cc..561797d 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1272,12 +1272,11 @@ class _LowLevelParser(SourceReader):
         At the moment only Cheetah's c'$placeholder strings' are transformed.
         """
         if token == 'c' and not self.atEnd() and self.peek() in '\'"':
-            nextToken = self.getPyToken()
-            token = nextToken.upper()
+            token = self.getPyToken()
             theStr = eval(token)
             endPos = self.pos()
             if not theStr:
-                return
+                return token
 
             if token.startswith(single3) or token.startswith(double3):
                 startPosIdx = 3
-- 
2.43.0


From ce484e24e8e8b216a519abd6b5f842df7f9b9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:01 +0000
Subject: [PATCH 24/68] fix: find the end of #raw directly behind another #end
 directive

---
 Cheetah/Parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 561797d..7482a71 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1754,7 +1754,10 @@ class _HighLevelParser(_LowLevelParser):
                         self.getWhiteSpace()
                         finalPos = self.pos()
                         break
-            self.advance()
+                else:
+                    self.advance()
+            else:
+                self.advance()
             finalPos = endRawPos = self.pos()
 
         textEaten = self.readTo(endRawPos, start=startPos)
-- 
2.43.0


From 56f6c55dea29177161b80fe3fba586ddd772f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:01 +0000
Subject: [PATCH 25/68] fix: raise ParseError for directives and placeholders
 cut off by the end of the template

---
 Cheetah/Compiler.py |  3 ++-
 Cheetah/Parser.py   | 22 +++++++++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index ca644fc..92271e5 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -2026,7 +2026,8 @@ class ModuleCompiler(SettingsManager, GenUtils):
         importVarNames = impStatement[
             impStatement.find('import') + len('import'):].split(',')
         # handle aliases
-        importVarNames = [var.split()[-1] for var in importVarNames]
+        importVarNames = [var.split()[-1] for var in importVarNames
+                          if var.strip()]
         importVarNames = [var for var in importVarNames if not var == '*']
         # used by #extend for auto-imports
         self.addImportedVarNames(importVarNames, raw_statement=impStatement)
diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 7482a71..b517d73 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -399,6 +399,11 @@ class _LowLevelParser(SourceReader):
 
     _settingsManager = None
 
+    def peek(self, offset=0):
+        if self.pos() + offset >= len(self.src()):
+            raise ParseError(self, msg='Unexpected end of the template')
+        return SourceReader.peek(self, offset)
+
     def setSettingsManager(self, settingsManager):
         self._settingsManager = settingsManager
 
@@ -906,8 +911,10 @@ class _LowLevelParser(SourceReader):
 
     def getCheetahVarBody(self, plain=False):
         # @@TR: this should be in the compiler
-        return self._compiler.genCheetahVar(self.getCheetahVarNameChunks(),
-                                            plain=plain)
+        nameChunks = self.getCheetahVarNameChunks()
+        if not nameChunks:
+            raise ParseError(self, msg='Invalid identifier')
+        return self._compiler.genCheetahVar(nameChunks, plain=plain)
 
     def getCheetahVarNameChunks(self):
 
@@ -1101,6 +1108,8 @@ class _LowLevelParser(SourceReader):
                     argList.add_default(c)
                 self.advance()
             elif c == '=':
+                if argList.count >= len(argList.arguments):
+                    raise ParseError(self)
                 onDefVal = True
                 self.advance()
             elif c == ",":
@@ -1783,6 +1792,8 @@ class _HighLevelParser(_LowLevelParser):
             self.advance(len(directiveName))
         startPos = self.pos()
         expr = self.getExpression().strip()
+        if not expr:
+            raise ParseError(self, msg='Expected an expression')
         directiveName = expr.split()[0]
         expr = self._applyExpressionFilters(expr, directiveName,
                                             startPos=startPos)
@@ -2530,6 +2541,9 @@ class _HighLevelParser(_LowLevelParser):
         argList = self.getDefArgList(useNameMapper=True)
         argList = self._applyExpressionFilters(argList, 'cache',
                                                startPos=startPos)
+        for name, val in argList:
+            if val is None:
+                raise ParseError(self, msg="'%s' needs a value" % name)
 
         def startCache():
             cacheInfo = self._compiler.genCacheInfoFromArgList(argList)
@@ -2606,6 +2620,8 @@ class _HighLevelParser(_LowLevelParser):
         else:
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
                                         endOfFirstLinePos)
+        if not self._compiler._callRegionsStack:
+            raise ParseError(self, msg='#arg found outside of #call')
         self._compiler.setCallArg(argName, lineCol)
 
     def eatFilter(self):
@@ -2659,7 +2675,7 @@ class _HighLevelParser(_LowLevelParser):
         transformer = self._applyExpressionFilters(transformer, 'transform',
                                                    startPos=startPos)
 
-        if self.peek() == ':':
+        if not self.atEnd() and self.peek() == ':':
             self.advance()
         self.getWhiteSpace()
         self._eatRestOfDirectiveTag(isLineClearToStartToken, endOfFirstLinePos)
-- 
2.43.0


From 415efacacee8a1db3d719372c8ad05f71dcc719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:01 +0000
Subject: [PATCH 26/68] fix: reject #else, #elif, #except and #finally directly
 inside a region which has no branches, accept empty PSP

---
 Cheetah/Parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b517d73..d1157cb 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1666,9 +1666,13 @@ class _HighLevelParser(_LowLevelParser):
         pspString = self.readTo(self.pos(), start=startPos).strip()
         pspString = self._applyExpressionFilters(pspString, 'psp',
                                                  startPos=startPos)
-        self._compiler.addPSP(pspString)
+        if pspString:
+            self._compiler.addPSP(pspString)
         self.getPSPEndToken()
 
+    # regions which can't have #else, #elif, #except or #finally branches
+    _branchlessDirectives = '''
+    def block closure cache call capture filter'''.split()
     # generic directive eat methods
     _simpleIndentingDirectives = '''
     else elif for while repeat unless try except finally'''.split()
@@ -1838,6 +1842,12 @@ class _HighLevelParser(_LowLevelParser):
                                         endOfFirstLinePos)
             if directiveName in self._closeableDirectives:
                 self.pushToOpenDirectivesStack(directiveName)
+            elif directiveName in 'else elif except finally'.split() and \
+                    self._openDirectivesStack and \
+                    self._openDirectivesStack[-1] in \
+                    self._branchlessDirectives:
+                raise ParseError(self, msg="#%s found directly inside #%s" % (
+                    directiveName, self._openDirectivesStack[-1]))
             callback(expr, lineCol=lineCol)
 
     def eatEndDirective(self):
-- 
2.43.0


From c0441a630b3a3a64579fb667c39771c55c18cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:01 +0000
Subject: [PATCH 27/68] fix: error positions behind \r\n and after unusual line
 separators

---
 Cheetah/SourceReader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Cheetah/SourceReader.py b/Cheetah/SourceReader.py
index 92b0be3..e99f3e3 100644
--- a/Cheetah/SourceReader.py
+++ b/Cheetah/SourceReader.py
@@ -61,16 +61,20 @@ class SourceReader(object):
 
     def splitlines(self):
         if not hasattr(self, '_srcLines'):
-            self._srcLines = self._src.splitlines()
+            # not str.splitlines(), which knows more line ends than Cheetah
+            self._srcLines = [self._src[BOL:EOL] for (BOL, EOL)
+                              in zip(self._BOLs, self._EOLs)]
         return self._srcLines
 
     def lineNum(self, pos=None):
         if pos is None:
             pos = self._pos
 
-        for i in range(len(self._BOLs)):
-            if pos >= self._BOLs[i] and pos <= self._EOLs[i]:
+        # The line end belongs to the line which it ends.
+        for i in range(len(self._BOLs) - 1):
+            if pos < self._BOLs[i + 1]:
                 return i
+        return len(self._BOLs) - 1
 
     def getRowCol(self, pos=None):
         if pos is None:
-- 
2.43.0


From 4e61b2581740e1b13e800bd242011eff64e3298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:01 +0000
Subject: [PATCH 28/68] fix: WebSafe: do not escape the characters of inserted
 entities again

---
 Cheetah/Filters.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Cheetah/Filters.py b/Cheetah/Filters.py
index 6d0f600..064b453 100755
--- a/Cheetah/Filters.py
+++ b/Cheetah/Filters.py
@@ -139,21 +139,19 @@ class WebSafe(Filter):
     """
     def filter(self, val, **kw):
         s = super(WebSafe, self).filter(val, **kw)
-        # These substitutions are copied from cgi.escape().
-        s = s.replace("&", "&amp;")  # Must be done first!
-        s = s.replace("<", "&lt;")
-        s = s.replace(">", "&gt;")
+        # Substitute character by character: the characters of an inserted
+        # entity must not be replaced in turn.
+        entities = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
         # Process the additional transformations if any.
         if 'also' in kw:
-            also = kw['also']
-            entities = webSafeEntities   # Global variable.
-            for k in also:
+            for k in kw['also']:
                 if k in entities:
-                    v = entities[k]
+                    continue
+                if k in webSafeEntities:   # Global variable.
+                    entities[k] = webSafeEntities[k]
                 else:
-                    v = "&#%s;" % ord(k)
-                s = s.replace(k, v)
-        return s
+                    entities[k] = "&#%s;" % ord(k)
+        return "".join([entities.get(c, c) for c in s])
 
 
 class Strip(Filter):
-- 
2.43.0


From 95f7d127fc16b83848a7ea9b1296731499bd4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:53 +0000
Subject: [PATCH 29/68] fix: pass the arguments of #call and of placeholder
 filters through the expression hooks

---
 Cheetah/Parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index d1157cb..860e226 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1390,6 +1390,10 @@ class _LowLevelParser(SourceReader):
         expr = self._applyExpressionFilters(expr, 'placeholder',
                                             rawExpr=rawPlaceholder,
                                             startPos=startPos)
+        if filterArgs:
+            self._applyExpressionFilters(filterArgs, 'placeholder',
+                                         rawExpr=rawPlaceholder,
+                                         startPos=startPos)
         for callback in self.setting('postparsePlaceholderHooks'):
             callback(parser=self)
 
@@ -2591,12 +2595,11 @@ class _HighLevelParser(_LowLevelParser):
         else:
             functionName = self.getCheetahVar(plain=True, skipStartToken=True)
         self.setSetting('useAutocalling', useAutocallingOrig)
+        self.getWhiteSpace()
+        args = self.getExpression(pyTokensToBreakAt=[':']).strip()
         # @@TR: fix up filtering
         self._applyExpressionFilters(self[startPos:self.pos()], 'call',
                                      startPos=startPos)
-
-        self.getWhiteSpace()
-        args = self.getExpression(pyTokensToBreakAt=[':']).strip()
         if self.matchColonForSingleLineShortFormDirective():
             self.advance()  # skip over :
             self._compiler.startCallRegion(functionName, args, lineCol)
-- 
2.43.0


From 92b32cefea4717567faf9089240d8365762cbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:53 +0000
Subject: [PATCH 30/68] fix: disable and enable directives with mixed-case
 names (errorCatcher, shBang)

---
 Cheetah/Parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 860e226..99a01ea 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1540,9 +1540,11 @@ class _HighLevelParser(_LowLevelParser):
 
     def _filterDisabledDirectives(self, directiveName):
         directiveName = directiveName.lower()
-        if (directiveName in self.setting('disabledDirectives')
-            or (self.setting('enabledDirectives')
-                and directiveName not in self.setting('enabledDirectives'))):
+        disabled = [name.lower() for name in
+                    self.setting('disabledDirectives')]
+        enabled = [name.lower() for name in self.setting('enabledDirectives')]
+        if (directiveName in disabled
+                or (enabled and directiveName not in enabled)):
             for callback in self.setting('disabledDirectiveHooks'):
                 callback(parser=self, directiveName=directiveName)
             raise ForbiddenDirective(
-- 
2.43.0


From 921c89a55f71217c502fc3bd3f6534e743f223d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:45 +0000
Subject: [PATCH 31/68] fix: accept macro output that is longer than the
 template

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 99a01ea..1f0f44f 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2535,12 +2535,14 @@ class _HighLevelParser(_LowLevelParser):
         # add a comment to the output about the macro src that is being parsed
         # or add a comment prefix to all the comments added by the compiler
         self._src = srcFromMacroOutput
+        self._srcLen = len(srcFromMacroOutput)
         self.setPos(0)
         self.setBreakPoint(len(srcFromMacroOutput))
 
         self.parse(assertEmptyStack=False)
 
         self._src = origParseSrc
+        self._srcLen = len(origParseSrc)
         self.setBreakPoint(origBreakPoint)
         self.setPos(origPos)
 
-- 
2.43.0


From b23c409f53afe5628523d296f55e95d63f3de505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:11 +0000
Subject: [PATCH 32/68] fix: one-line #closure, nested one-line #def and
 one-line #block inside #def

---
 Cheetah/Parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 1f0f44f..f9621d4 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2136,6 +2136,7 @@ class _HighLevelParser(_LowLevelParser):
                 includeBlockMarkers()
                 self._compiler.closeBlock()
             elif directiveName == 'closure' or isNestedDef:
+                self._compiler.commitStrConst()
                 self._compiler.dedent()
 
             self._eatRestOfDirectiveTag(isLineClearToStartToken,
@@ -2200,7 +2201,8 @@ class _HighLevelParser(_LowLevelParser):
 
         self.getWhiteSpace(max=1)
         self.parse(breakPoint=endPos)
-        if directiveName == 'closure' or isNestedDef:
+        if directiveName == 'closure' or (
+                directiveName == 'def' and isNestedDef):
             # @@TR: temporary hack of useSearchList
             self.setSetting('useSearchList', useSearchList_orig)
 
-- 
2.43.0


From ce04740f830b1a19b9585749f5dcfd488bc6804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:30 +0000
Subject: [PATCH 33/68] fix: text around a macro call was lost when a directive
 followed on the same output line

---
 Cheetah/Parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index f9621d4..3aba4dd 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2534,6 +2534,9 @@ class _HighLevelParser(_LowLevelParser):
         origParseSrc = self._src
         origBreakPoint = self.breakPoint()
         origPos = self.pos()
+        if not isLineClearToStartToken:
+            # the text before the macro is not the start of a directive's line
+            self._compiler.commitStrConst()
         # add a comment to the output about the macro src that is being parsed
         # or add a comment prefix to all the comments added by the compiler
         self._src = srcFromMacroOutput
@@ -2542,6 +2545,8 @@ class _HighLevelParser(_LowLevelParser):
         self.setBreakPoint(len(srcFromMacroOutput))
 
         self.parse(assertEmptyStack=False)
+        # the output of the macro is not whitespace before the next directive
+        self._compiler.commitStrConst()
 
         self._src = origParseSrc
         self._srcLen = len(origParseSrc)
-- 
2.43.0


From d735d6e7fa0d91744324d750e8e993efe05dd1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:20 +0000
Subject: [PATCH 34/68] fix: webInput returned the first byte of an uploaded
 file instead of its content

---
 Cheetah/Utils/WebInputMixin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Utils/WebInputMixin.py b/Cheetah/Utils/WebInputMixin.py
index b753bb0..0d4f64d 100644
--- a/Cheetah/Utils/WebInputMixin.py
+++ b/Cheetah/Utils/WebInputMixin.py
@@ -54,7 +54,7 @@ def _lookup(name, func, multi, converters):
     # Step 3 -- Coerce 'values' to a list of zero, one or more strings.
     if values is None:
         values = []
-    elif isinstance(values, str):
+    elif isinstance(values, (str, bytes)):
         values = [values]
 
     # Step 4 -- Find a _Converter object or raise TypeError.
-- 
2.43.0


From bcc95218959b10ff15c28bcfd2fae90ee025c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:20 +0000
Subject: [PATCH 35/68] fix: methods called from an included template bypassed
 its output regions when a transaction was active

---
 Cheetah/Template.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 71d1811..57aba97 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1708,7 +1708,14 @@ class Template(Servlet):
                     self._CHEETAH__cheetahIncludes[_includeID] = srcArg
         ##
         if not raw:
-            self._CHEETAH__cheetahIncludes[_includeID].respond(trans)
+            # methods of this template that the included one calls have to
+            # return their output to it and not write to the transaction
+            wasBuffering = self._CHEETAH__isBuffering
+            self._CHEETAH__isBuffering = True
+            try:
+                self._CHEETAH__cheetahIncludes[_includeID].respond(trans)
+            finally:
+                self._CHEETAH__isBuffering = wasBuffering
         else:
             trans.response().write(self._CHEETAH__cheetahIncludes[_includeID])
 
-- 
2.43.0


From 2ffcc0efb95591270b584631dfcadc687c44a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:20 +0000
Subject: [PATCH 36/68] fix: <%= %> with useFilters off used an undefined
 filter

---
 Cheetah/Compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 92271e5..84fd810 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -740,7 +740,10 @@ class MethodCompiler(GenUtils):
         if PSP[0] == '=':
             PSP = PSP[1:]
             if PSP:
-                self.addWriteChunk('_filter(' + PSP + ')')
+                if self.setting('useFilters'):
+                    self.addWriteChunk('_filter(' + PSP + ')')
+                else:
+                    self.addWriteChunk('str(' + PSP + ')')
             return
 
         elif PSP.lower() == 'end':
-- 
2.43.0


From 0c5047481e30c46aaf303a4f055ad759ddfd9e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:20 +0000
Subject: [PATCH 37/68] fix: text directly after a call or an index was taken
 as an attribute of the placeholder

---
 Cheetah/Parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3aba4dd..b985414 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -950,6 +950,9 @@ class _LowLevelParser(SourceReader):
             autoCall = True
             if not self.peek() in identchars + '.':
                 break
+            elif chunks and self.peek() != '.':
+                # text directly after an arglist, index or slice
+                break
             elif self.peek() == '.':
 
                 if self.pos() + 1 < len(self) and self.peek(1) in identchars:
-- 
2.43.0


From 5b737c8839660cde0c1e034307ce9653be4fd43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:30 +0000
Subject: [PATCH 38/68] fix: #del with placeholders as documented

---
 Cheetah/Parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index b985414..a4b8c82 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1804,7 +1804,11 @@ class _HighLevelParser(_LowLevelParser):
         if not includeDirectiveNameInExpr:
             self.advance(len(directiveName))
         startPos = self.pos()
-        expr = self.getExpression().strip()
+        if directiveName == 'del':
+            # the targets are local variables, as on the left side of #set
+            expr = self.getExpression(useNameMapper=False).strip()
+        else:
+            expr = self.getExpression().strip()
         if not expr:
             raise ParseError(self, msg='Expected an expression')
         directiveName = expr.split()[0]
-- 
2.43.0


From e2e18f8ea195c61dc9b295655c2cbba5ee4702db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 39/68] fix: cheetah --stdout made backups and directories and
 failed on compiled modules; compile failed on #encoding

---
 Cheetah/CheetahWrapper.py | 46 +++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 8c85a71..c728518 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -2,6 +2,7 @@
 
 import codecs
 import glob
+import locale
 import os
 import pprint
 import re
@@ -593,11 +594,11 @@ you do have write permission to and re-run the tests.""")
             pysrc = TemplateClass.compile(file=sys.stdin,
                                           compilerSettings=compilerSettings,
                                           returnAClass=False)
-            output = pysrc if PY2 else pysrc.decode()
+            output = pysrc
         else:
             output = str(TemplateClass(file=sys.stdin,
                                        compilerSettings=compilerSettings))
-        sys.stdout.write(output)
+        self._writeToStdout(output)
 
     def _compileOrFillBundle(self, b):
         C = self.chatter
@@ -633,6 +634,15 @@ be named according to the same rules as Python modules.""" % tup)
                                            compilerSettings=compilerSettings)
             output = str(tclass(searchList=self.searchList))
 
+        if self.opts.stdout:
+            self._writeToStdout(output)
+            return
+
+        encoding = self.opts.encoding
+        if not isinstance(output, bytes):
+            # An output that cannot be encoded must not truncate
+            # the existing file or replace its backup.
+            output.encode(encoding or locale.getpreferredencoding(False))
         if bak:
             shutil.copyfile(dst, bak)
         if dstDir and not os.path.exists(dstDir):
@@ -640,24 +650,22 @@ be named according to the same rules as Python modules.""" % tup)
                 mkdirsWithPyInitFiles(dstDir)
             else:
                 os.makedirs(dstDir)
-        if self.opts.stdout:
-            if not PY2:
-                encoding = self.opts.encoding
-                if encoding and isinstance(output, bytes):
-                    output = output.decode(encoding)
-            sys.stdout.write(output)
+        if isinstance(output, bytes):
+            # A compiled module is already in the encoding it declares
+            f = open(dst, 'wb')
+        elif encoding:
+            f = codecs.open(dst, 'w', encoding=encoding)
         else:
-            encoding = self.opts.encoding
-            if encoding:
-                if isinstance(output, bytes):
-                    output = output.decode(encoding)
-                f = codecs.open(dst, 'w', encoding=encoding)
-            else:
-                if not PY2 and isinstance(output, bytes):
-                    output = output.decode()
-                f = open(dst, 'w')
-            f.write(output)
-            f.close()
+            f = open(dst, 'w')
+        f.write(output)
+        f.close()
+
+    def _writeToStdout(self, output):
+        if not PY2 and isinstance(output, bytes):
+            sys.stdout.flush()
+            sys.stdout.buffer.write(output)
+        else:
+            sys.stdout.write(output)
 
 
 # Called when invoked as `cheetah`
-- 
2.43.0


From d0cd7f2173c456d04c7301398ad89a205caa377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 40/68] fix: cheetah --idir was ignored unless written as a
 normalized path

---
 Cheetah/CheetahWrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index c728518..3918407 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -486,7 +486,8 @@ you do have write permission to and re-run the tests.""")
         iext = self.opts.iext
         odir = self.opts.odir
         oext = self.opts.oext
-        idirSlash = idir + os.sep
+        # source paths are normalized, too
+        idirSlash = os.path.normpath(idir) + os.sep if idir else os.sep
         bundles = []
         for src in sourceFiles:
             # 'base' is the subdirectory plus basename.
-- 
2.43.0


From 91258e7ce38f60b3ebde172c54e9d74490009eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 41/68] fix: cheetah overwrote the backup when two sources map
 to one output

---
 Cheetah/CheetahWrapper.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 3918407..60e6a6c 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -369,12 +369,16 @@ you do have write permission to and re-run the tests.""")
             usage(HELP_PAGE1, "Neither files nor -R specified!")
         else:
             sourceFiles = self._expandSourceFiles(files, opts.recurse, True)
-        sourceFiles = [os.path.normpath(x) for x in sourceFiles]
+        # A file can be named more than once
+        normalized = [os.path.normpath(x) for x in sourceFiles]
+        sourceFiles = []
+        for src in normalized:
+            if src not in sourceFiles:
+                sourceFiles.append(src)
         D("All source files found: %s", sourceFiles)
         bundles = self._getBundles(sourceFiles)
         D("All bundles: %s", pprint.pformat(bundles))
-        if self.opts.flat:
-            self._checkForCollisions(bundles)
+        self._checkForCollisions(bundles)
 
         # In parallel mode a new process is forked for each template
         # compilation, out of a pool of size self.opts.parallel. This is not
-- 
2.43.0


From 75a77de7c62c8ea36b4fbf575a44f29603fe4f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 42/68] fix: cheetah --odir took a directory whose name starts
 alike for a parent of the source

---
 Cheetah/CheetahWrapper.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 60e6a6c..7402c4c 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -508,11 +508,8 @@ you do have write permission to and re-run the tests.""")
                 if odir and base.startswith(os.sep):
                     odd = odir
                     while odd != '':
-                        idx = base.find(odd)
-                        if idx == 0:
-                            dbn = base[len(odd):]
-                            if dbn[0] == '/':
-                                dbn = dbn[1:]
+                        if base.startswith(odd + os.sep):
+                            dbn = base[len(odd + os.sep):]
                             break
                         odd = os.path.dirname(odd)
                         if odd == '/':
-- 
2.43.0


From 63e0f5efd4d6775b13777cbd730599e7e7d3c25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:29 +0000
Subject: [PATCH 43/68] fix: cheetah --parallel ignored children killed by a
 signal

---
 Cheetah/CheetahWrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 7402c4c..7dd9cd8 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -394,7 +394,7 @@ you do have write permission to and re-run the tests.""")
             def child_wait():
                 pid, status = os.wait()
                 pid_pool.remove(pid)
-                return os.WEXITSTATUS(status)
+                return os.WEXITSTATUS(status) or os.WTERMSIG(status)
 
             while bundles:
                 b = bundles.pop()
-- 
2.43.0


From fe29f5a13e25ac61b72e7ef43a820c6dffa0eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:29 +0000
Subject: [PATCH 44/68] fix: cheetah --parallel failed when two processes made
 the same directory

---
 Cheetah/CheetahWrapper.py | 6 +++++-
 Cheetah/Utils/Misc.py     | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 7dd9cd8..b42bf69 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -651,7 +651,11 @@ be named according to the same rules as Python modules.""" % tup)
             if self.isCompile:
                 mkdirsWithPyInitFiles(dstDir)
             else:
-                os.makedirs(dstDir)
+                try:
+                    os.makedirs(dstDir)
+                except OSError:  # made by another process (--parallel)?
+                    if not os.path.isdir(dstDir):
+                        raise
         if isinstance(output, bytes):
             # A compiled module is already in the encoding it declares
             f = open(dst, 'wb')
diff --git a/Cheetah/Utils/Misc.py b/Cheetah/Utils/Misc.py
index a046f5f..b0af112 100644
--- a/Cheetah/Utils/Misc.py
+++ b/Cheetah/Utils/Misc.py
@@ -60,7 +60,12 @@ def mkdirsWithPyInitFiles(path):
     if dir and not os.path.exists(dir):
         mkdirsWithPyInitFiles(dir)
     if not os.path.exists(path):
-        os.mkdir(path)
+        try:
+            os.mkdir(path)
+        except OSError:  # made by another process?
+            if not os.path.isdir(path):
+                raise
+            return
         init = os.path.join(path, "__init__.py")
         f = open(init, 'w')  # Open and close to produce empty file.
         f.close()
-- 
2.43.0


From 1969e0e0cc8fd659638c9c25dfd631d746d70814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 45/68] fix: ImportHooks used byte code of an older version of
 the module

---
 Cheetah/ImportManager.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 3abb6ee..a0a6235 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -19,6 +19,7 @@ This is a hacked/documented version of Gordon McMillan's iu.py. I have:
 
 import marshal
 import py_compile
+import struct
 import sys
 from .compat import PY2, string_type, new_module, get_suffixes, \
     load_module_from_file, cache_from_source, \
@@ -149,6 +150,25 @@ def getDescr(fnm):
         if suffix == ext:
             return (suffix, mode, typ)
 
+
+def pycIsStale(pyc, py_st):
+    """Was the byte code compiled from another version of the source?
+
+    As in Python itself the time and the size of the source are compared
+    with the ones recorded in the byte code."""
+    with open(pyc, 'rb') as pyc_file:
+        header = pyc_file.read(16)
+    if not PY2 and sys.version_info[:2] >= (3, 7):
+        flags, header = header[4:8], header[8:]
+        if flags != b'\0\0\0\0':  # compiled with a hash of the source
+            return flags != b'\1\0\0\0'
+    else:
+        header = header[4:]
+    if header[:4] != struct.pack('<L', py_st[8] & 0xFFFFFFFF):
+        return True
+    return not PY2 and \
+        header[4:8] != struct.pack('<L', py_st[6] & 0xFFFFFFFF)
+
 ##################################################
 # CLASSES
 
@@ -215,7 +235,7 @@ class DirOwner(Owner):
         if py is None and pyc is None:
             return None
         while True:
-            if pyc is None or py and pyc[1][8] < py[1][8]:
+            if pyc is None or py and pycIsStale(pyc[0], py[1]):
                 try:
                     try:
                         with open(py[0], 'r') as py_code_file:
-- 
2.43.0


From 2ee027af16f7207318852038abbad5219344bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 46/68] fix: ImportHooks left a half initialized module behind
 a failed import

---
 Cheetah/ImportManager.py |  9 ++++++++-
 Cheetah/LoadTemplate.py  | 10 +++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index a0a6235..96c196e 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -543,6 +543,7 @@ class ImportManager:
                     if self.threaded:
                         self._release()
                     if not mod:
+                        sys.modules.pop(ctx + '.' + nm, None)
                         raise ModuleNotFoundError(
                             "%s not found in %s" % (nm, ctx))
         return bottommod
@@ -580,7 +581,13 @@ class ImportManager:
             if hasattr(mod, '__co__'):
                 co = mod.__co__
                 del mod.__co__
-                exec(co, mod.__dict__)
+                try:
+                    exec(co, mod.__dict__)
+                except BaseException:
+                    sys.modules.pop(fqname, None)
+                    if parentnm and getattr(parent, nm, None) is mod:
+                        delattr(parent, nm)
+                    raise
             if fqname == 'thread' and not self.threaded:
                 self.setThreaded()
         else:
diff --git a/Cheetah/LoadTemplate.py b/Cheetah/LoadTemplate.py
index 28d4394..43d4fac 100644
--- a/Cheetah/LoadTemplate.py
+++ b/Cheetah/LoadTemplate.py
@@ -34,10 +34,18 @@ def loadTemplateModule(templatePath, debuglevel=0):
     if mod is None:
         raise ModuleNotFoundError("Cannot find {}".format(templatePath))
     mod.__name__ = filename
+    oldmod = sys.modules.get(filename)
     sys.modules[filename] = mod
     co = mod.__co__
     del mod.__co__
-    exec(co, mod.__dict__)
+    try:
+        exec(co, mod.__dict__)
+    except BaseException:
+        if oldmod is None:
+            sys.modules.pop(filename, None)
+        else:
+            sys.modules[filename] = oldmod
+        raise
     return mod
 
 
-- 
2.43.0


From b757b5e140bc08d489d002eb2ca94b105c9edfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 47/68] fix: ImportHooks left a truncated module when it could
 not be written

---
 Cheetah/ImportHooks.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Cheetah/ImportHooks.py b/Cheetah/ImportHooks.py
index 00d6dca..3a5dc2d 100644
--- a/Cheetah/ImportHooks.py
+++ b/Cheetah/ImportHooks.py
@@ -88,9 +88,18 @@ class CheetahDirOwner(DirOwner):
                 _cacheDir[0], convertTmplPathToModuleName(tmplPath)) + '.py'
         else:
             __file__ = os.path.splitext(tmplPath)[0] + '.py'
+        # The module replaces the template in later imports,
+        # so it must never be there half written.
+        tmpFile = '%s.%d.tmp' % (__file__, os.getpid())
         try:
-            with open(__file__, 'w') as _py_file:
-                _py_file.write(code)
+            try:
+                with open(tmpFile, 'w') as _py_file:
+                    _py_file.write(code)
+                getattr(os, 'replace', os.rename)(tmpFile, __file__)
+            except BaseException:
+                if os.path.exists(tmpFile):
+                    os.remove(tmpFile)
+                raise
         except (IOError, OSError):
             # @@ TR: need to add some error code here
             if self.debuglevel > 0:
-- 
2.43.0


From fbee713f7c29d553395c86c34b8c64922ccd4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:18 +0000
Subject: [PATCH 48/68] fix: ImportHooks raised KeyError or TypeError for
 modules that are not there

---
 Cheetah/ImportManager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/ImportManager.py b/Cheetah/ImportManager.py
index 96c196e..7be3945 100644
--- a/Cheetah/ImportManager.py
+++ b/Cheetah/ImportManager.py
@@ -235,7 +235,7 @@ class DirOwner(Owner):
         if py is None and pyc is None:
             return None
         while True:
-            if pyc is None or py and pycIsStale(pyc[0], py[1]):
+            if py and (pyc is None or pycIsStale(pyc[0], py[1])):
                 try:
                     try:
                         with open(py[0], 'r') as py_code_file:
@@ -518,7 +518,7 @@ class ImportManager:
         if i < len(nmparts):
             if ctx and hasattr(sys.modules[ctx], nmparts[i]):
                 return sys.modules[nmparts[0]]
-            del sys.modules[fqname]
+            sys.modules.pop(fqname, None)
             raise ModuleNotFoundError("No module named %s" % fqname)
         if fromlist is None:
             if context:
-- 
2.43.0


From dc9708600f8328ba57aa64e3a593098a5ba0213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:51 +0000
Subject: [PATCH 49/68] fix: 'else if' inside an expression of #elif was
 changed to 'elif'

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 84fd810..388cfad 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -663,7 +663,7 @@ class MethodCompiler(GenUtils):
         self.dedent()
 
     def addElse(self, expr, dedent=True, lineCol=None):
-        expr = re.sub(r'else[ \f\t]+if', 'elif', expr)
+        expr = re.sub(r'^else[ \f\t]+if', 'elif', expr)
         self.addReIndentingDirective(expr, dedent=dedent, lineCol=lineCol)
 
     def addElif(self, expr, dedent=True, lineCol=None):
-- 
2.43.0


From ee3bbc874c03c4d2c2e847ccd1ea3f5de1c1f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:51 +0000
Subject: [PATCH 50/68] fix: a conditional expression in parentheses was taken
 for the branches of #if then else

---
 Cheetah/Parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index a4b8c82..ea7ae20 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2775,10 +2775,15 @@ class _HighLevelParser(_LowLevelParser):
             trueExpr = []
             falseExpr = []
             currentExpr = conditionExpr
+            depth = 0
             for part in expressionParts:
-                if part.strip() == 'then':
+                if part in ('(', '[', '{'):
+                    depth += 1
+                elif part in (')', ']', '}'):
+                    depth -= 1
+                if part.strip() == 'then' and not depth:
                     currentExpr = trueExpr
-                elif part.strip() == 'else':
+                elif part.strip() == 'else' and not depth:
                     currentExpr = falseExpr
                 else:
                     currentExpr.append(part)
-- 
2.43.0


From d51ed6490055aef1eb3a254187ba401840a653ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:11 +0000
Subject: [PATCH 51/68] fix: #set of a name that starts with local, global or
 module

---
 Cheetah/Parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index ea7ae20..4b11ffb 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2296,14 +2296,17 @@ class _HighLevelParser(_LowLevelParser):
         self.advance(3)
         self.getWhiteSpace()
         style = SET_LOCAL
-        if self.startswith('local'):
+        # N.B. the name of a variable can start like a keyword
+        identMatch = self.matchIdentifier()
+        firstWord = identMatch and identMatch.group()
+        if firstWord == 'local':
             self.getIdentifier()
             self.getWhiteSpace()
-        elif self.startswith('global'):
+        elif firstWord == 'global':
             self.getIdentifier()
             self.getWhiteSpace()
             style = SET_GLOBAL
-        elif self.startswith('module'):
+        elif firstWord == 'module':
             self.getIdentifier()
             self.getWhiteSpace()
             style = SET_MODULE
-- 
2.43.0


From ebe588bbb87b0633a1a9c81a82ad61317e7f0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:22 +0000
Subject: [PATCH 52/68] fix: #set with the operator //= was refused

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4b11ffb..9db6077 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -87,7 +87,7 @@ binaryArithOps = ('+', '-', '/', '//', '%')
 shiftOps = ('>>', '<<')
 bitwiseOps = ('&', '|', '^')
 assignOp = '='
-augAssignOps = ('+=', '-=', '/=', '*=', '**=', '^=', '%=',
+augAssignOps = ('+=', '-=', '/=', '//=', '*=', '**=', '^=', '%=',
                 '>>=', '<<=', '&=', '|=', )
 assignmentOps = (assignOp,) + augAssignOps
 
-- 
2.43.0


From 926f299d5eaf2c9f653e357023a63ea0adb54468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:26 +0000
Subject: [PATCH 53/68] fix: '#end x2' ended the macro x

---
 Cheetah/Parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 9db6077..fb1cb90 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1767,7 +1767,11 @@ class _HighLevelParser(_LowLevelParser):
                     self.getDirectiveStartToken()
                     self.advance(len('end'))
                     self.getWhiteSpace()
-                    if self.startswith(directiveName):
+                    # N.B. the name of a macro can start like another one
+                    endOfName = self.pos() + len(directiveName)
+                    if (self.startswith(directiveName)
+                            and self._src[endOfName:endOfName + 1]
+                            not in tuple(namechars)):
                         if self.isLineClearToStartToken(endRawPos):
                             isLineClearToStartToken = True
                             endRawPos = self.findBOL(endRawPos)
-- 
2.43.0


From f9ace94b4cd7730b0675a699afe83bf40094c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:06 +0000
Subject: [PATCH 54/68] fix: #errorCatcher failed for placeholders with escapes
 or triple quotes

---
 Cheetah/Compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 388cfad..6454a02 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1527,7 +1527,7 @@ class ClassCompiler(GenUtils):
         catcherMeth.addChunk('try:')
         catcherMeth.indent()
         catcherMeth.addChunk(
-            "return eval('''" + codeChunk + "''', globals(), localsDict)")
+            "return eval(" + repr(codeChunk) + ", globals(), localsDict)")
         catcherMeth.dedent()
         catcherMeth.addChunk(
             'except self._CHEETAH__errorCatcher.exceptions() as e:')
-- 
2.43.0


From 954e82da65bf67a9cd76690bc972b923f55bad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:06 +0000
Subject: [PATCH 55/68] fix: #errorCatcher failed for placeholders with
 generators or lambdas

---
 Cheetah/Compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 6454a02..c41ca9f 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1526,8 +1526,11 @@ class ClassCompiler(GenUtils):
             + '(self, localsDict={})')  # is this use of localsDict right?
         catcherMeth.addChunk('try:')
         catcherMeth.indent()
+        # N.B. the locals are also needed in generators, lambdas etc., which see
+        # only the globals
         catcherMeth.addChunk(
-            "return eval(" + repr(codeChunk) + ", globals(), localsDict)")
+            "return eval(" + repr(codeChunk)
+            + ", dict(globals(), **localsDict), localsDict)")
         catcherMeth.dedent()
         catcherMeth.addChunk(
             'except self._CHEETAH__errorCatcher.exceptions() as e:')
-- 
2.43.0


From 37d8c1ef383229eeaffd0f4e5ad4e290c61fef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:06 +0000
Subject: [PATCH 56/68] fix: the error catcher KeyError raised TypeError

---
 Cheetah/ErrorCatchers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/ErrorCatchers.py b/Cheetah/ErrorCatchers.py
index 655cb78..ae13525 100644
--- a/Cheetah/ErrorCatchers.py
+++ b/Cheetah/ErrorCatchers.py
@@ -29,9 +29,12 @@ class BigEcho(ErrorCatcher):
         return "="*15 + "&lt;" + rawCode + " could not be found&gt;" + "="*15  # noqa: E226,E501 missing whitespace around operator
 
 
+_KeyError = KeyError
+
+
 class KeyError(ErrorCatcher):
     def warn(self, exc_val, code, rawCode, lineCol):
-        raise KeyError(
+        raise _KeyError(
             "no '%s' in this Template Object's Search List" % rawCode)
 
 
-- 
2.43.0


From 4d1e2eeff7cdcd723d86e50d33427138e724ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:41 +0000
Subject: [PATCH 57/68] fix: useNameMapper and useFilters could not be switched
 off within a method

---
 Cheetah/Compiler.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index c41ca9f..11bcc93 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1156,11 +1156,19 @@ class AutoMethodCompiler(MethodCompiler):
         self._indentLev = self.setting('initialMethIndentLevel')
         mainBodyChunks = self._methodBodyChunks
         self._methodBodyChunks = []
-        self._addAutoSetupCode()
+        self._addAutoSetupCode(mainBodyChunks)
         self._methodBodyChunks.extend(mainBodyChunks)
         self._addAutoCleanupCode()
 
-    def _addAutoSetupCode(self):
+    def _addAutoSetupCode(self, mainBodyChunks=()):
+        # The settings can be other ones at the end of the method's source
+        # than they were where its placeholders were compiled.
+        mainBody = '\n'.join(mainBodyChunks)
+        useNameMapper = (self.setting('useNameMapper')
+                         or 'VFFSL(SL,' in mainBody
+                         or '[locals()]+SL+[' in mainBody)
+        useFilters = self.setting('useFilters') or '_filter(' in mainBody
+
         if self._initialMethodComment:
             self.addChunk(self._initialMethodComment)
 
@@ -1186,7 +1194,7 @@ class AutoMethodCompiler(MethodCompiler):
             self.addChunk('trans = DummyTransaction()')
             self.addChunk('_dummyTrans = True')
         self.addChunk('write = trans.response().write')
-        if self.setting('useNameMapper'):
+        if useNameMapper:
             argNames = [arg[0] for arg in self._argStringList]
             allowSearchListAsMethArg = self.setting('allowSearchListAsMethArg')
             if allowSearchListAsMethArg and 'SL' in argNames:
@@ -1197,7 +1205,7 @@ class AutoMethodCompiler(MethodCompiler):
                 self.addChunk('SL = self._CHEETAH__searchList')
             else:
                 self.addChunk('SL = [KWS]')
-        if self.setting('useFilters'):
+        if useFilters:
             if self.isClassMethod() or self.isStaticMethod():
                 self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
             else:
-- 
2.43.0


From 437c89884e079df0b1c75ccb168b8affe873dace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:41 +0000
Subject: [PATCH 58/68] fix: IndexError for an empty value in
 #compiler-settings

---
 Cheetah/SettingsManager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 91b6002..564b5a9 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -48,6 +48,8 @@ def stringIsNumber(S):
     This also works for complex numbers and numbers with +/- in front."""
 
     S = S.strip()
+    if not S:
+        return False
 
     if S[0] in '-+' and len(S) > 1:
         S = S[1:].strip()
-- 
2.43.0


From 1f1c2bf5b5d9b6523771ff46e7337750d4fc93e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:41 +0000
Subject: [PATCH 59/68] fix: '%' was refused as a token in #compiler-settings

---
 Cheetah/SettingsManager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 564b5a9..e85aeb2 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -1,9 +1,9 @@
 import os.path
 import copy as copyModule
 try:
-    from ConfigParser import ConfigParser
+    from ConfigParser import ConfigParser, InterpolationSyntaxError
 except ImportError:  # PY3
-    from configparser import ConfigParser
+    from configparser import ConfigParser, InterpolationSyntaxError
 import re
 from tokenize import Number
 import types
@@ -166,7 +166,11 @@ class _SettingsCollector(object):
             newSettings[s] = {}
             for o in p.options(s):
                 if o != '__name__':
-                    newSettings[s][o] = p.get(s, o)
+                    try:
+                        newSettings[s][o] = p.get(s, o)
+                    except InterpolationSyntaxError:
+                        # just a percent sign, as in a token
+                        newSettings[s][o] = p.get(s, o, raw=True)
 
         # loop through new settings -> deal with global settings, numbers,
         # booleans and None ++ also deal with 'importSettings' commands
-- 
2.43.0


From 98e8b3c4119a8f32a383bede59533630b6e5e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:08 +0000
Subject: [PATCH 60/68] fix: merging settings changed the dictionaries merged
 before

---
 Cheetah/SettingsManager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index e85aeb2..2160d7c 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -37,7 +37,8 @@ def mergeNestedDictionaries(dict1, dict2, copy=False, deepcopy=False):
     for key, val in dict2.items():
         if key in dict1 and isinstance(val, dict) \
                 and isinstance(dict1[key], dict):
-            dict1[key] = mergeNestedDictionaries(dict1[key], val)
+            # dict1[key] can be a dictionary of the caller of an earlier merge
+            dict1[key] = mergeNestedDictionaries(dict1[key], val, copy=True)
         else:
             dict1[key] = val
     return dict1
-- 
2.43.0


From 929ab4a47e09ded3cf008bd85e543f9e7ca0c3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:47 +0000
Subject: [PATCH 61/68] fix: an EOLSlurpToken other than '#' had no effect

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index fb1cb90..6094f0c 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -438,7 +438,8 @@ class _LowLevelParser(SourceReader):
             + self.setting('multiLineCommentStartToken')[0]
             + self.setting('cheetahVarStartToken')[0]
             + self.setting('directiveStartToken')[0]
-            + self.setting('PSPStartToken')[0])
+            + self.setting('PSPStartToken')[0]
+            + (self.setting('EOLSlurpToken') or '')[:1])
         self._nonStrConstMatchers = [
             self.matchCommentStartToken,
             self.matchMultiLineCommentStartToken,
-- 
2.43.0


From 6ed08bc80a902dedd451197f6d4b7888ddfa375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:08 +0000
Subject: [PATCH 62/68] fix: preprocessors given as a class attribute never
 ended

_CHEETAH_preprocessors of a subclass of Template was inherited by the class
which compiles the intermediate template: RecursionError.
---
 Cheetah/Template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 57aba97..93d017b 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -972,7 +972,8 @@ class Template(Servlet):
 
         if not hasattr(settings, 'templateAPIClass'):
             class PreprocessTemplateAPIClass(klass):
-                pass
+                # the intermediate template is not preprocessed itself
+                _CHEETAH_preprocessors = None
             settings.templateAPIClass = PreprocessTemplateAPIClass
 
         settings.compilerSettings = dict(
-- 
2.43.0


From bdced4983d172510acfd87cb7e36fd11ad77341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:42 +0000
Subject: [PATCH 63/68] fix: templates named k or v could not be instantiated

The variables k and v of the generated __init__ hid the class of that name
in super(): UnboundLocalError.
---
 Cheetah/Compiler.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 11bcc93..5736896 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1261,10 +1261,8 @@ class AutoMethodCompiler(MethodCompiler):
 
 _initMethod_initCheetah = """\
 if not self._CHEETAH__instanceInitialized:
-    cheetahKWArgs = {}
     allowedKWs = 'searchList namespaces filter filtersLib errorCatcher'.split()
-    for k,v in KWs.items():
-        if k in allowedKWs: cheetahKWArgs[k] = v
+    cheetahKWArgs = dict((k,v) for k,v in KWs.items() if k in allowedKWs)
     self._initCheetahInstance(**cheetahKWArgs)
 """.replace('\n', '\n' + ' '*8)  # noqa: E226,E501 missing whitespace around operator
 
-- 
2.43.0


From 1978afb73a77e47aeb79db351f3217ee6d7137ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:42 +0000
Subject: [PATCH 64/68] fix: templates in paths beyond ASCII could not be
 compiled to modules

__CHEETAH_src__ was written with the characters of the path:
UnicodeEncodeError, as the module's encoding is ASCII by default.
---
 Cheetah/Compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 5736896..3df40db 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -2117,7 +2117,11 @@ class ModuleCompiler(SettingsManager, GenUtils):
                 '__CHEETAH_genTimestamp__ = %r' % self.timestamp())
         if self._filePath:
             timestamp = self.timestamp(self._fileMtime)
-            self.addModuleGlobal('__CHEETAH_src__ = %r' % self._filePath)
+            # the path can have characters that the module's encoding has not
+            self.addModuleGlobal(
+                '__CHEETAH_src__ = '
+                + repr(self._filePath).encode(
+                    'ascii', 'backslashreplace').decode('ascii'))
             self.addModuleGlobal(
                 '__CHEETAH_srcLastModified__ = %r' % timestamp)
         else:
-- 
2.43.0


From ddab66ec96ba30f53d58fa087461c9438bdef697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:14 +0000
Subject: [PATCH 65/68] fix: static and class methods of templates could not
 take **kwargs

The search list of such a method was the hidden KWS argument, which is
there only when the method declares no ** argument of its own.
---
 Cheetah/Compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 3df40db..4a69e14 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1204,7 +1204,9 @@ class AutoMethodCompiler(MethodCompiler):
             elif not self.isClassMethod() and not self.isStaticMethod():
                 self.addChunk('SL = self._CHEETAH__searchList')
             else:
-                self.addChunk('SL = [KWS]')
+                kwargsName = [name[2:] for name in argNames
+                              if name.startswith('**')]
+                self.addChunk('SL = [%s]' % ''.join(kwargsName))
         if useFilters:
             if self.isClassMethod() or self.isStaticMethod():
                 self.addChunk('_filter = lambda x, **kwargs: unicode(x)')
-- 
2.43.0


From 1eec45a611ee7247a5974d4a02bbf4b6d740f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:43 +0000
Subject: [PATCH 66/68] fix: white space around a decorator hid that it is
 @staticmethod or @classmethod

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 6094f0c..2a823c2 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2066,7 +2066,7 @@ class _HighLevelParser(_LowLevelParser):
         self.getDirectiveStartToken()
         # self.advance() # eat @
         startPos = self.pos()
-        decoratorExpr = self.getExpression()
+        decoratorExpr = self.getExpression().strip()
         decoratorExpr = self._applyExpressionFilters(
             decoratorExpr, 'decorator', startPos=startPos)
         self._compiler.addDecorator(decoratorExpr)
-- 
2.43.0


From 825869c1c43c801592f4b66bda50766807deed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:43 +0000
Subject: [PATCH 67/68] fix: a decorator of a #closure was applied to the next
 #def instead

---
 Cheetah/Compiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 4a69e14..44f27b1 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -681,6 +681,10 @@ class MethodCompiler(GenUtils):
             argStringChunks.append(chunk)
         signature = \
             "def " + functionName + "(" + ','.join(argStringChunks) + "):"
+        decorators = self._classCompiler._decoratorsForNextMethod
+        self._classCompiler._decoratorsForNextMethod = []
+        for decorator in decorators:
+            self.addChunk(decorator)
         self.addIndentingDirective(signature)
         self.addChunk('#' + parserComment)
 
-- 
2.43.0


From f10179488722898cb40a2d407a4e1e31c719c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:47 +0000
Subject: [PATCH 68/68] fix: a default of a #def argument lost the = signs
 within it

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 2a823c2..f8a6ffc 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1111,7 +1111,7 @@ class _LowLevelParser(SourceReader):
                 if onDefVal:
                     argList.add_default(c)
                 self.advance()
-            elif c == '=':
+            elif c == '=' and not onDefVal:
                 if argList.count >= len(argList.arguments):
                     raise ParseError(self)
                 onDefVal = True
-- 
2.43.0

