From 97f852153426d7cf54b61e96880ae07c769dba40 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:13:22 +0000
Subject: [PATCH 01/56] fix: NAMECHAR class omits '-', '.' and wrongly spans
 U+00B7-U+00BF

---
 pylib/uxml/lex.py    | 2 +-
 pylib/uxml/parser.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/lex.py b/pylib/uxml/lex.py
index ffabf2f..092037a 100644
--- a/pylib/uxml/lex.py
+++ b/pylib/uxml/lex.py
@@ -43,7 +43,7 @@ NAMESTARTCHAR = '[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
-NAMECHAR =  '[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  '[\\-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]'
 
diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index d9f38ba..2e6008a 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -46,7 +46,7 @@ NAMESTARTCHAR = re.compile('[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u037
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-NAMECHAR =  re.compile('[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  re.compile('[\\-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-- 
2.43.0


From db0250e4ae36717a71404d7f2aa30bcee228af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:09 +0000
Subject: [PATCH 02/56] fix: parser silently dropped characters outside the
 data character classes

Illegal characters are rejected, tab and newline are kept in attribute
values, CR is normalised to newline, and a malformed reference raises
instead of being mistaken for incomplete input.
---
 pylib/uxml/parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 2e6008a..363beac 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -51,13 +51,13 @@ NAMECHAR =  re.compile('[\\-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
 #For single quoted attrs
-ATTRIBVALCHAR_SGL = re.compile('[\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_SGL = re.compile('[\u0009\u000a\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]')
 
 #For double quoted attrs
-ATTRIBVALCHAR_DBL = re.compile('[\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_DBL = re.compile('[\u0009\u000a\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]')
@@ -124,7 +124,13 @@ def handle_cdata(pos, window, charpat, stopchars):
                                 raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                             break
                         else:
-                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor]), error_context(window, start, cursor))
+                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
+            #Line break normalization: CR LF, or CR alone, is a single newline
+            elif window[cursor] == '\r':
+                if window[cursor + 1] != '\n':
+                    cdata += '\n'
+            else:
+                raise RuntimeError('Illegal character: {0} (around {1})'.format(repr(window[cursor]), error_context(window, cursor, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From 8d1d50939841e1a3591527efd19e0d60f10edc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:55 +0000
Subject: [PATCH 03/56] fix: parser never returned on truncated input, or
 silently accepted it

---
 pylib/uxml/parser.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 363beac..1628e42 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -174,7 +174,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -192,7 +192,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         if curr_state == state.pre_tag_gi and window[pos] == '/':
                             pos += 1
@@ -209,7 +209,7 @@ def parser(handler, strict=True):
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         else:
                             gi = window[pos:advpos]
@@ -221,7 +221,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
@@ -260,7 +260,7 @@ def parser(handler, strict=True):
                             while NAMECHAR.match(window[advpos]):
                                 advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
                         else:
@@ -272,7 +272,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -292,7 +292,7 @@ def parser(handler, strict=True):
                             #pos + 1 to skip the opening quote
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
-                                if not done: need_input = True
+                                need_input = True
                                 #Don't advance to newpos, so effectively backtrack
                                 continue
                                 #if window[pos] != openattr:
@@ -303,7 +303,7 @@ def parser(handler, strict=True):
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-                            if not done: need_input = True
+                            need_input = True
                             #Don't advance to newpos, so effectively backtrack
                             continue
                         pos = newpos
@@ -323,7 +323,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -334,6 +334,8 @@ def parser(handler, strict=True):
                             raise RuntimeError('Junk after document element')
                     #print('END1')
                 #print('END2')
+            if curr_state != state.complete_doc:
+                raise RuntimeError('Unexpected end of document (around {0})'.format(error_context(window, pos, pos)))
             sentinel = yield #Avoid StopIteration in parent from running off enf of coroutine?
         except GeneratorExit:
             #close() called
-- 
2.43.0


From f5d6ef9dbb75e9725aa50edb5c822814a581432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:57 +0000
Subject: [PATCH 04/56] fix: parser looped forever on anything but whitespace
 before the document element

---
 pylib/uxml/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 1628e42..06dac1e 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -169,8 +169,10 @@ def parser(handler, strict=True):
 
                 while not need_input:
                     if curr_state == state.pre_element:
-                        #Eat up any whitespace
+                        #Eat up any initial BOM and any whitespace
                         try:
+                            if pos == 0 and window[pos] == BOM:
+                                pos += 1
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
@@ -182,6 +184,8 @@ def parser(handler, strict=True):
                         if window[pos] == '<':
                             pos += 1
                             curr_state = state.pre_tag_gi
+                        else:
+                            raise RuntimeError('Expected \'<\', found {0}'.format(window[pos]))
                         #if not done and pos == wlen:
                         #    need_input = True
                         #    continue
-- 
2.43.0


From 0a2b6204f1467eeb8a03b46f5847f241e519beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:59 +0000
Subject: [PATCH 05/56] fix: parser accepted tags with an empty element name

---
 pylib/uxml/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 06dac1e..5f656ab 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -212,6 +212,8 @@ def parser(handler, strict=True):
                                 advpos += 1
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
+                            else:
+                                raise RuntimeError('Expected element name, found {0}'.format(window[advpos]))
                         except IndexError:
                             need_input = True #Do not advance until we have enough input
                             continue
@@ -242,6 +244,8 @@ def parser(handler, strict=True):
                                 handler.send((pending_event, gi, attribs_out, element_stack.copy()))
                                 element_stack.append(gi)
                             else:
+                                if not element_stack:
+                                    raise RuntimeError('Unexpected close element {0}'.format(gi))
                                 opened = element_stack.pop()
                                 if opened != gi:
                                     raise RuntimeError('Expected close element {0}, found {1}'.format(opened, gi))
-- 
2.43.0


From 6520334a1de1fc091a28023820f0ade838d9918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:00 +0000
Subject: [PATCH 06/56] fix: attribute split across fragments was misparsed

Also allow whitespace after '=', and reject an unquoted value instead of looping.
---
 pylib/uxml/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 5f656ab..9ebc6e5 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -288,8 +288,12 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if not done and pos == wlen:
-                            need_input = True
+                        #Eat up any whitespace
+                        try:
+                            while window[pos] in ' \r\n\t':
+                                pos += 1
+                        except IndexError:
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -302,12 +306,15 @@ def parser(handler, strict=True):
                             if aval == None:
                                 need_input = True
                                 #Don't advance to newpos, so effectively backtrack
+                                pos = backtrackpos
                                 continue
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
                             pos = newpos + 1 #Skip the closing quote
                             attribs[aname] = aval
                             curr_state = state.complete_tag
+                        else:
+                            raise RuntimeError('Expected quoted attribute value, found {0}'.format(window[pos]))
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-- 
2.43.0


From cd553ad7b3872a90f3612727cd75c6f95fd4d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:02 +0000
Subject: [PATCH 07/56] fix: parser accepted duplicate attributes, keeping only
 the last

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 9ebc6e5..9bc7a9e 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -311,6 +311,8 @@ def parser(handler, strict=True):
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
                             pos = newpos + 1 #Skip the closing quote
+                            if aname in attribs:
+                                raise RuntimeError('Duplicate attribute: {0}'.format(aname))
                             attribs[aname] = aval
                             curr_state = state.complete_tag
                         else:
-- 
2.43.0


From 206efd30970012bc2ae66d2c9667f841403409ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 08/56] fix: parse() and parsefrags() reported a spurious None
 before the first event

---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 9bc7a9e..96c4c4c 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -368,7 +368,7 @@ echo "for e in parsefrags(('<spa', 'm>eggs</spam>')): print(e)" >> /tmp/spam.py
 python -m pdb -c "b /Users/uche/.local/venv/py3/lib/python3.3/site-packages/amara3/uxml/parser.py:173" /tmp/spam.py
 '''
 
-@coroutine
+#Not primed here: the parser primes the handler it is given
 def handler(accumulator):
     while True:
         event = yield
-- 
2.43.0


From 369600783e7244e28b98f85eea7cf8c1271c518e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 09/56] fix: xml_remove removed another, equal text node

---
 pylib/uxml/tree.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2f3a5d8..4635979 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -146,12 +146,13 @@ class element(node):
 
         child - the child to remove
         '''
-        if child in self.xml_children:
-            child._xml_parent = None
-            self.xml_children.remove(child)
-        else:
-            raise ValueError(f'Element {self} has no child {child}')
-        return
+        # Compare by identity; text nodes with the same value are equal as strings
+        for ix, node in enumerate(self.xml_children):
+            if node is child:
+                child._xml_parent = None
+                del self.xml_children[ix]
+                return
+        raise ValueError(f'Element {self} has no child {child}')
 
     def __repr__(self):
         return u'{{uxml.element ({0}) "{1}" with {2} children}}'.format(hash(self), self.xml_name, len(self.xml_children))
-- 
2.43.0


From b5459b3fcacd0783b38a06ea1e9e7c121aecf731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:50 +0000
Subject: [PATCH 10/56] fix: xml_encode of a text node left markup characters
 unescaped

---
 pylib/uxml/tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 4635979..33846d4 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -97,10 +97,10 @@ class element(node):
                 if indent:
                     strbits.append('\n')
                     strbits.append(indent*depth)
-            elif isinstance(child, str):
-                strbits.append(escape(child))
-            else:
+            elif isinstance(child, node):
                 strbits.append(child.xml_encode())
+            else:
+                strbits.append(escape(child))
         strbits.extend(['</', self.xml_name, '>'])
         return ''.join(strbits)
 
@@ -174,7 +174,7 @@ class text(node, str):
         return u'{{uxml.text "{}"...}}'.format(str(self)[:10])
 
     def xml_encode(self, indent=None, depth=0):
-        return str(self)
+        return escape(str(self))
 
     @property
     def xml_value(self):
-- 
2.43.0


From b58cde8e1d61200c6c51e17ebe4c6d4db3a38b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 11/56] fix: xml_append/xml_insert replaced a text node given
 as child with a copy

---
 pylib/uxml/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 33846d4..2de1919 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -129,7 +129,7 @@ class element(node):
 
         child - the child to append. If a string, convert to a text node, for convenience
         '''
-        if isinstance(child, str):
+        if isinstance(child, str) and not isinstance(child, node):
             child = text(child, parent=self)
         else:
             child._xml_parent = weakref.ref(self)
-- 
2.43.0


From 4cf0ca89908c9225c4b6260dab278684804f43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:08 +0000
Subject: [PATCH 12/56] fix: select_value yielded text nodes, not only elements

---
 pylib/uxml/treeutil.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index fe63f9d..611f0f4 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -54,9 +54,7 @@ def select_value(source, val):
     source - if an element, starts with all child elements in order; can also be any other iterator
     val - string value to match
     '''
-    if isinstance(source, element):
-        source = source.xml_children
-    return filter(lambda x: x.xml_value == val, source)
+    return filter(lambda x: x.xml_value == val, select_elements(source))
 
 
 def select_attribute(source, name, val=None):
-- 
2.43.0


From 125201681b7f3e71a2050fc7a0e050c9f9123a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 13/56] fix: following_siblings of a text node started after
 another, equal text node

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 611f0f4..4d6d941 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -75,7 +75,7 @@ def following_siblings(elem):
     '''
     Yields elements and text which have the same parent as elem, but come afterward in document order
     '''
-    it = itertools.dropwhile(lambda x: x != elem, elem.xml_parent.xml_children)
+    it = itertools.dropwhile(lambda x: x is not elem, elem.xml_parent.xml_children)
     next(it, None) #Skip the element itself, if any
     return it
 
-- 
2.43.0


From 9601ccb58ac7fecbeecc2e5f24d8db0e36337fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:13 +0000
Subject: [PATCH 14/56] fix: make_pretty used the given indent only for the top
 level

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 4d6d941..b73c31d 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -215,7 +215,7 @@ def make_pretty(elem, depth=0, indent='  '):
                 updated_child_list.append(new_text)
                 updated_child_list.append(child)
                 updated_child_ix += 2
-            make_pretty(child, depth)
+            make_pretty(child, depth, indent)
         else:
             if child.xml_value.strip():
                 #More to it than whitespace, so leave alone
-- 
2.43.0


From e434015b50ab7fc60a63b9c0971f3afea5ba9012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 15/56] fix: select_pattern missed nested matches of '**' and
 failed on '**' last or a tuple of names

---
 pylib/uxml/treeutil.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index b73c31d..98fcd29 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -86,36 +86,41 @@ MATCHED_STATE = object()
 def attr_test(next, name):
     def _attr_test(node):
         if isinstance(node, element) and name in node.xml_attributes:
-            return next
+            return (next,)
+        return ()
     return _attr_test
 
 def name_test(next, name):
     def _name_test(node):
         if isinstance(node, element) and node.xml_name == name:
-            return next
+            return (next,)
+        return ()
     return _name_test
 
 def elem_test(next):
     def _elem_test(node):
         if isinstance(node, element):
-            return next
+            return (next,)
+        return ()
     return _elem_test
 
 def any_until(next):
     def _any_until(node):
-        if isinstance(node, element):
-            next_next = next(node)
-            if next_next is not None:
-                return next_next
-        return _any_until #Return this same state until we can match the next
+        if not isinstance(node, element):
+            return ()
+        #Try the next step on this node, but also stay in this same state, for matches further down
+        next_states = (next,) if next is MATCHED_STATE else next(node)
+        return (*next_states, _any_until)
     return _any_until
 
 def any_(next, funcs):
     def _any(node):
         if any( (func(node) for func in funcs) ):
-            return next
+            return (next,)
+        return ()
     return _any
 
+#Each state is a function of a node which returns the tuple of all the states which can follow
 def _prep_pattern(pattern):
     next_state = MATCHED_STATE
     #Work from the end of the pattern back to the beginning
@@ -129,7 +134,7 @@ def _prep_pattern(pattern):
             else:
                 next_state = name_test(next_state, stage)
         elif isinstance(stage, tuple):
-            new_tuple = tuple(( name_test(substage) if isinstance(substage, str) else substage for substage in stage ))
+            new_tuple = tuple(( name_test(next_state, substage) if isinstance(substage, str) else substage for substage in stage ))
             next_state = any_(next_state, new_tuple)
         else:
             raise ValueError('Cannot interpret pattern component {0}'.format(repr(stage)))
@@ -161,14 +166,17 @@ def select_pattern(node, pattern, state=None):
     ['1', '2', '3', '4']
     '''
     if state is None:
-        state = _prep_pattern(pattern)
+        state = (_prep_pattern(pattern),)
     #for child in select_elements(elem):
     if isinstance(node, element):
         for child in node.xml_children:
-            new_state = state(child)
-            if new_state == MATCHED_STATE:
+            new_state = []
+            for alternative in state:
+                new_state.extend(s for s in alternative(child) if s not in new_state)
+            if MATCHED_STATE in new_state:
                 yield child
-            elif new_state is not None:
+                new_state.remove(MATCHED_STATE)
+            if new_state:
                 yield from select_pattern(child, None, state=new_state)
     return
 
-- 
2.43.0


From 60f6046adfc2a88e02d1c05123e7512ccb7ddd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 16/56] fix: serialized attributes used decimal references and
 text raw carriage returns, which do not parse back

---
 pylib/uxml/tree.py   | 28 ++++++++++++++++++++++++----
 pylib/uxml/writer.py | 11 +++++------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2de1919..2621e22 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -9,13 +9,33 @@
 
 import sys
 import weakref
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape
 
 from amara3.uxml.parser import parser, event  # parse, parsefrags
 
 # NO_PARENT = object()
 
 
+def escape_text(value):
+    '''
+    Escape character data so that a parser reports exactly this value
+    '''
+    return escape(value, {'\r': '&#xD;'})
+
+
+def quote_attribute(value):
+    '''
+    Escape and quote an attribute value so that a parser reports exactly this value
+    Character references must be hexadecimal in MicroXML, which rules out saxutils.quoteattr
+    '''
+    value = escape(value, {'\n': '&#xA;', '\r': '&#xD;', '\t': '&#x9;'})
+    if '"' not in value:
+        return '"' + value + '"'
+    if "'" not in value:
+        return "'" + value + "'"
+    return '"' + value.replace('"', '&quot;') + '"'
+
+
 class node:
     def __init__(self, parent=None):
         self._xml_parent = weakref.ref(parent) if parent is not None else None
@@ -86,7 +106,7 @@ class element(node):
         '''
         strbits = ['<', self.xml_name]
         for aname, aval in self.xml_attributes.items():
-            strbits.extend([' ', aname, '=', quoteattr(aval)])
+            strbits.extend([' ', aname, '=', quote_attribute(aval)])
         strbits.append('>')
         if indent:
             strbits.append('\n')
@@ -100,7 +120,7 @@ class element(node):
             elif isinstance(child, node):
                 strbits.append(child.xml_encode())
             else:
-                strbits.append(escape(child))
+                strbits.append(escape_text(child))
         strbits.extend(['</', self.xml_name, '>'])
         return ''.join(strbits)
 
@@ -174,7 +194,7 @@ class text(node, str):
         return u'{{uxml.text "{}"...}}'.format(str(self)[:10])
 
     def xml_encode(self, indent=None, depth=0):
-        return escape(str(self))
+        return escape_text(str(self))
 
     @property
     def xml_value(self):
diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index f1ac03f..6bba508 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -4,9 +4,8 @@ Raw XML writer
 '''
 
 from enum import Enum #https://docs.python.org/3.4/library/enum.html
-from xml.sax.saxutils import escape, quoteattr
-
 from amara3.uxml import tree, xml
+from amara3.uxml.tree import escape_text, quote_attribute
 
 class token(Enum):
     start_open = 1
@@ -67,7 +66,7 @@ class raw(object):
         # Had to take out context.attribute_text to avoid double escaping
         # if ctx in (context.text, context.attribute_text):
         if ctx in (context.text,):
-            text = escape(text)
+            text = escape_text(text)
         if isinstance(text, token): text = TOKENS[text]
         self._fp.write(text)
         return
@@ -94,7 +93,7 @@ class raw(object):
             self._whandler.write(context.attribute_name, k)
             self._whandler.write(context.start_element, token.attr_equals)
             # Check whether we need to extract quoteattr(v) at [0] and [-1] and write these in start_element context
-            self._whandler.write(context.attribute_text, quoteattr(v))
+            self._whandler.write(context.attribute_text, quote_attribute(v))
         if empty:
             self._whandler.write(context.start_element, token.empty_close)
             if self._indent:
@@ -154,7 +153,7 @@ class namespacer(raw):
         # Had to take out context.attribute_text to avoid double escaping
         # if ctx in (context.text, context.attribute_text):
         if ctx in (context.text,):
-            text = escape(text)
+            text = escape_text(text)
         if ctx == context.start_element:
             if self._first_element and text in (token.pre_attr, token.start_close) and not self._ns_handled:
                 #Namespace declarations here
@@ -163,7 +162,7 @@ class namespacer(raw):
                     self._fp.write('xmlns:' + k if k else 'xmlns')
                     self._fp.write(TOKENS[token.attr_equals])
                     # Check whether we need to extract quoteattr(v) at [0] and [-1] and write these in start_element context
-                    self._fp.write(quoteattr(v))
+                    self._fp.write(quote_attribute(v))
                 #self._fp.write(TOKENS[token.pre_attr])
                 self._ns_handled = True
         if ctx == context.element_name:
-- 
2.43.0


From 4b4cde0ce5ae742e969e7fc4778fd3dbc1521b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 17/56] fix: namespacer.start_element did not support empty
 elements

---
 pylib/uxml/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index 6bba508..1b368f3 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -144,9 +144,9 @@ class namespacer(raw):
         self._first_element = True
         return
 
-    def start_element(self, name, attribs=None):
+    def start_element(self, name, attribs=None, empty=False):
         self._ns_handled = False
-        raw.start_element(self, name, attribs=attribs)
+        raw.start_element(self, name, attribs=attribs, empty=empty)
         self._first_element = False
 
     def write(self, ctx, text):
-- 
2.43.0


From 120bbce6919a66722c90c31ff97d0c13e1970fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:25 +0000
Subject: [PATCH 18/56] fix: namespacer wrote no namespace declarations on an
 empty document element

---
 pylib/uxml/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index 1b368f3..33b4506 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -155,7 +155,7 @@ class namespacer(raw):
         if ctx in (context.text,):
             text = escape_text(text)
         if ctx == context.start_element:
-            if self._first_element and text in (token.pre_attr, token.start_close) and not self._ns_handled:
+            if self._first_element and text in (token.pre_attr, token.start_close, token.empty_close) and not self._ns_handled:
                 #Namespace declarations here
                 for k, v in self._prefixes.items():
                     self._fp.write(TOKENS[token.pre_attr])
-- 
2.43.0


From 978ed9e7f1191b91836dc42725c0b22d1a55aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:55 +0000
Subject: [PATCH 19/56] fix: xml.treebuilder returned the first tree again when
 reused

---
 pylib/uxml/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index afcbd2c..102dc80 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -117,6 +117,9 @@ class treebuilder(tree.treebuilder):
     root
     '''
     def parse(self, source):
+        #reset
+        self._root = None
+        self._parent = None
         self.handler = expat_callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
-- 
2.43.0


From e2f6bea06cbf83c47c9e21dc332f1710a63d9659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:57 +0000
Subject: [PATCH 20/56] fix: XML documents which end prematurely were accepted

---
 pylib/uxml/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 102dc80..517278a 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -102,7 +102,7 @@ def parse(source, handler):
     p.CharacterDataHandler = h.char_data
     p.StartNamespaceDeclHandler = h.start_namespace
     p.EndNamespaceDeclHandler = h.end_namespace
-    p.Parse(source)
+    p.Parse(source, True)
     return p
 
 
@@ -128,6 +128,6 @@ class treebuilder(tree.treebuilder):
         self.expat_parser.CharacterDataHandler = self.handler.char_data
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
-        self.expat_parser.Parse(source)
+        self.expat_parser.Parse(source, True)
         return self._root
 
-- 
2.43.0


From 2850c3665fdfc1088a1ed7ee46143eb255c0ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 21/56] fix: end element events had a wrong name if the
 namespace name has a space

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 517278a..351e1c9 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -33,7 +33,7 @@ class expat_callbacks(object):
 
     def end_element(self, name):
         #print('End element:', name)
-        local = name.split()[1] if ' ' in name else name
+        local = name.split()[-1]
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
-- 
2.43.0


From 06018f5ea96a8ba8e3f87b5dc9aaf70ac7adcbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:01 +0000
Subject: [PATCH 22/56] fix: ns_expat_callbacks failed when constructed and on
 elements in no namespace

---
 pylib/uxml/xml.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 351e1c9..a06ae16 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -49,8 +49,8 @@ class expat_callbacks(object):
 
 
 class ns_expat_callbacks(expat_callbacks):
-    def __init__(self, handler, asyncio_based_handler=True, stream=False):
-        expat_callbacks.__init__(self, handler, asyncio_based_handler=asyncio_based_handler)
+    def __init__(self, handler, prime_handler=True, stream=False):
+        expat_callbacks.__init__(self, handler, prime_handler=prime_handler)
         #Namespace mappings encountered through the document, updated dynamically as the document is traversed
         self.prefixes = {}
         self.prefixes_rev = {}
@@ -73,11 +73,11 @@ class ns_expat_callbacks(expat_callbacks):
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-        ns, local = name.split() if ' ' in name else (None, name)
+        ns, local = name.rsplit(' ', 1) if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
-            self.ns_portfolio[local] = (ns, self.prefixes_rev[ns])
+            self.ns_portfolio[local] = (ns, self.prefixes_rev.get(ns, ''))
         for aname, aval in attrs.items():
-            ans, alocal = aname.split() if ' ' in aname else (None, aname)
+            ans, alocal = aname.rsplit(' ', 1) if ' ' in aname else (None, aname)
             self.ns_portfolio['@' + alocal] = (ans, self.prefixes_rev.get(ans, ''))
         expat_callbacks.start_element(self, name, attrs)
 
-- 
2.43.0


From c8e642b152c504df001af7b0086837b79a1d7e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:04 +0000
Subject: [PATCH 23/56] fix: treeiter.sender with several patterns mixed up
 their states

---
 pylib/uxml/treeiter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 9a047fa..0c15e03 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -53,7 +53,7 @@ class sender:
         self._roots = [None] * self._pattern_count
         self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [[]] * self._pattern_count
+        self._evstacks = [[] for _ in range(self._pattern_count)]
         self._building_depths = [0] * self._pattern_count
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
@@ -91,8 +91,8 @@ class sender:
         return _any_func
 
     def _prep_patterns(self):
-        next_state = MATCHED_STATE
         for ix, pattern in enumerate(self._patterns):
+            next_state = MATCHED_STATE
             for i in range(len(pattern)):
                 stage = pattern[-i-1]
                 if isinstance(stage, str):
-- 
2.43.0


From a3327a01d0ded52e92a5d878baa8a66b1491fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:06 +0000
Subject: [PATCH 24/56] fix: treeiter.sender missed matches of '**' below a
 partial match, and failed on '**' last

---
 pylib/uxml/treeiter.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 0c15e03..e3299bb 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -66,28 +66,29 @@ class sender:
     def _only_name(self, next, name):
         def _only_name_func(ev):
             if ev[0] == event.start_element and ev[1] == name:
-                return next
+                return (next,)
+            return ()
         return _only_name_func
 
     def _any_name(self, next):
         def _any_name_func(ev):
             if ev[0] == event.start_element:
-                return next
+                return (next,)
+            return ()
         return _any_name_func
 
     def _any_until(self, next):
         def _any_until_func(ev):
-            if ev[0] == event.start_element:
-                next_next = next(ev)
-                if next_next is not None:
-                    return next_next
-            return _any_until_func
+            #Try the next step on this element, but also stay in this same state, for matches further down
+            next_states = (next,) if next is MATCHED_STATE else next(ev)
+            return (*next_states, _any_until_func)
         return _any_until_func
 
     def _any(self, next, funcs):
         def _any_func(ev):
             if any( (func(ev) for func in funcs) ):
-                return next
+                return (next,)
+            return ()
         return _any_func
 
     def _prep_patterns(self):
@@ -111,14 +112,15 @@ class sender:
         return
 
     def _match_state(self, ix):
-        new_state = self._stateses[ix]
-        for depth, ev in enumerate(self._evstacks[ix]):
-            new_state = new_state(ev)
-            if new_state == MATCHED_STATE:
-                return True
-            elif new_state is None:
-                return False
-        return False
+        #Each state is a function of an event which returns the tuple of all the states which can follow
+        states = (self._stateses[ix],)
+        for ev in self._evstacks[ix]:
+            new_states = []
+            for state in states:
+                if state is not MATCHED_STATE:
+                    new_states.extend(s for s in state(ev) if s not in new_states)
+            states = new_states
+        return MATCHED_STATE in states
 
     def _handler(self):
         while True:
-- 
2.43.0


From 1907cd2c17b5b1fdd3fc1fc6c1dbdd522a930579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:34 +0000
Subject: [PATCH 25/56] fix: carriage returns in text were written as
 references, which MicroXML does not have

---
 pylib/uxml/tree.py   | 11 ++---------
 pylib/uxml/writer.py |  8 +++++---
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2621e22..3e8bbf7 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -16,13 +16,6 @@ from amara3.uxml.parser import parser, event  # parse, parsefrags
 # NO_PARENT = object()
 
 
-def escape_text(value):
-    '''
-    Escape character data so that a parser reports exactly this value
-    '''
-    return escape(value, {'\r': '&#xD;'})
-
-
 def quote_attribute(value):
     '''
     Escape and quote an attribute value so that a parser reports exactly this value
@@ -120,7 +113,7 @@ class element(node):
             elif isinstance(child, node):
                 strbits.append(child.xml_encode())
             else:
-                strbits.append(escape_text(child))
+                strbits.append(escape(child))
         strbits.extend(['</', self.xml_name, '>'])
         return ''.join(strbits)
 
@@ -194,7 +187,7 @@ class text(node, str):
         return u'{{uxml.text "{}"...}}'.format(str(self)[:10])
 
     def xml_encode(self, indent=None, depth=0):
-        return escape_text(str(self))
+        return escape(str(self))
 
     @property
     def xml_value(self):
diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index 33b4506..2ca1233 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -4,8 +4,10 @@ Raw XML writer
 '''
 
 from enum import Enum #https://docs.python.org/3.4/library/enum.html
+from xml.sax.saxutils import escape
+
 from amara3.uxml import tree, xml
-from amara3.uxml.tree import escape_text, quote_attribute
+from amara3.uxml.tree import quote_attribute
 
 class token(Enum):
     start_open = 1
@@ -66,7 +68,7 @@ class raw(object):
         # Had to take out context.attribute_text to avoid double escaping
         # if ctx in (context.text, context.attribute_text):
         if ctx in (context.text,):
-            text = escape_text(text)
+            text = escape(text)
         if isinstance(text, token): text = TOKENS[text]
         self._fp.write(text)
         return
@@ -153,7 +155,7 @@ class namespacer(raw):
         # Had to take out context.attribute_text to avoid double escaping
         # if ctx in (context.text, context.attribute_text):
         if ctx in (context.text,):
-            text = escape_text(text)
+            text = escape(text)
         if ctx == context.start_element:
             if self._first_element and text in (token.pre_attr, token.start_close, token.empty_close) and not self._ns_handled:
                 #Namespace declarations here
-- 
2.43.0


From c9afc13e758aa356527e6443a59771195a85a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:07 +0000
Subject: [PATCH 26/56] fix: empty text, 0 and false as context item were
 replaced with the outer context item

---
 pylib/uxml/uxpath/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 781dd43..4fdec8a 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -89,8 +89,9 @@ class context(object):
         self.lookuptables = lookuptables or {}
 
     def copy(self, item=None, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None):
-        item = item if item else self.item
-        pos = pos if pos else self.pos
+        #Falsy items (empty text nodes, 0, False, '') can be context items too
+        item = item if item is not None else self.item
+        pos = pos if pos is not None else self.pos
         variables = variables if variables else self.variables
         functions = functions if functions else self.functions
         lookuptables = lookuptables if lookuptables else self.lookuptables
-- 
2.43.0


From 98bdd7ba7c05614b1bf727e24b3271e37c8fa2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:09 +0000
Subject: [PATCH 27/56] fix: XPath root nodes were kept forever, and could be
 stale, and had no string value

---
 pylib/uxml/uxpath/xast.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d76d65a..bb5c006 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -36,30 +36,30 @@ class root_node(node):
     The core uxml object model does not have a root node, but
     we need something to conform as closely as we can to XPath
     '''
-    _cache = {}
-
     def __init__(self, docelem):
-        self.xml_name = ''
-        self.xml_value = ''
         self.xml_children = [docelem]
         node.__init__(self)
 
+    @property
+    def xml_value(self):
+        return strval(self.xml_children[0])
+
     def __repr__(self):
         return u'{uxpath.rootnode}'
 
     @staticmethod
-    #@functools.lru_cache()
     def get(elem):
-        if elem in root_node._cache: return root_node._cache[elem]
         if isinstance(elem, root_node): return elem
-        assert isinstance(elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
+        assert isinstance(elem, node), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
         curr_elem = elem
         parent = curr_elem.xml_parent
         while parent:
             curr_elem = parent
             parent = curr_elem.xml_parent
-            if parent in root_node._cache: return root_node._cache[parent]
-        return root_node._cache.setdefault(elem, root_node(curr_elem))
+        #One root node per tree, kept with its top node, so it lives as long as the tree does
+        if getattr(curr_elem, '_xpath_root', None) is None:
+            curr_elem._xpath_root = root_node(curr_elem)
+        return curr_elem._xpath_root
 
 
 class attribute_node(node):
-- 
2.43.0


From 147b91beedbe0a62a3e7c2d740d1e0d33a2da0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:11 +0000
Subject: [PATCH 28/56] fix: XPath attribute nodes lost their name, and paths
 from attributes failed

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index bb5c006..dde3f19 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -64,9 +64,10 @@ class root_node(node):
 
 class attribute_node(node):
     def __init__(self, name, value, parent):
+        node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
-        node.__init__(self, parent)
+        self.xml_children = []
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
-- 
2.43.0


From 42ca40ac4ac9bdaf2b2a03ffbcc47afd6aa2e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:13 +0000
Subject: [PATCH 29/56] fix: XPath axes ancestor, ancestor-or-self, parent
 looped or ignored the node test at the root

---
 pylib/uxml/uxpath/xast.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index dde3f19..94331f1 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -79,6 +79,15 @@ class attribute_node(node):
         raise NotImplementedError
 
 
+def parent_or_root(item):
+    '''
+    XPath parent of a node: the root node is the parent of the top node, and has no parent itself
+    '''
+    if not isinstance(item, node) or isinstance(item, root_node):
+        return None
+    return item.xml_parent or root_node.get(item)
+
+
 def index_docorder(node):
     #Always start at the root
     while node.xml_parent:
@@ -429,19 +438,18 @@ class step:
                     if self.node_test.name in ('*', k):
                         yield attribute_node(k, v, ctx.item)
         elif self.axis == 'ancestor':
-            parent = ctx.item.xml_parent
+            parent = parent_or_root(ctx.item)
             while parent:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-                parent = parent.xml_parent
-            yield root_node.get(ctx.item)
+                parent = parent_or_root(parent)
         elif self.axis == 'ancestor-or-self':
             yield from self.node_test.compute(ctx)
-            parent = ctx.item.xml_parent
+            parent = parent_or_root(ctx.item)
             while parent:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            yield root_node.get(parent)
+                parent = parent_or_root(parent)
         elif self.axis == 'descendant':
             to_process = list(ctx.item.xml_children)
             while to_process:
@@ -473,11 +481,10 @@ class step:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'parent':
-            if ctx.item.xml_parent:
-                new_ctx = ctx.copy(item=ctx.item.xml_parent)
+            parent = parent_or_root(ctx.item)
+            if parent:
+                new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            else:
-                yield root_node.get(ctx.item)
         elif self.axis == 'preceding':
             if not ctx.item.xml_parent: return
             start = ctx.item.xml_parent.xml_children.index(ctx.item)
@@ -642,10 +649,9 @@ class abbreviated_step:
         elif self.abbr == '..':
             # parent axis
             # assert isinstance(ctx.item, node)
-            if ctx.item.xml_parent:
-                yield ctx.item.xml_parent
-            else:
-                yield root_node.get(ctx.item)
+            parent = parent_or_root(ctx.item)
+            if parent:
+                yield parent
 
     def __call__(self, ctx):
         '''
-- 
2.43.0


From 0caa1edc5ca580293c6ae50b616601cc38cd4816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:15 +0000
Subject: [PATCH 30/56] fix: XPath axes preceding and following missed nodes or
 failed, and sibling axes confused equal texts

---
 pylib/uxml/uxpath/xast.py | 62 ++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 94331f1..0b78bc6 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -399,6 +399,37 @@ def _step_is_just_node(r):
         and r.node_test.name == 'node'
 
 
+def _sibling_index(item):
+    '''
+    Position of a node among the children of its parent, by identity, since equal text nodes are different siblings
+    '''
+    for ix, sibling in enumerate(item.xml_parent.xml_children):
+        if sibling is item: return ix
+
+
+def _siblings_before(item):
+    if not isinstance(item, node) or not item.xml_parent or isinstance(item, attribute_node): return []
+    return item.xml_parent.xml_children[:_sibling_index(item)]
+
+
+def _siblings_after(item):
+    if not isinstance(item, node) or not item.xml_parent or isinstance(item, attribute_node): return []
+    return item.xml_parent.xml_children[_sibling_index(item)+1:]
+
+
+def _descendants(item):
+    for child in item.xml_children:
+        yield child
+        yield from _descendants(child)
+
+
+def _node_and_ancestors(item):
+    #The descendants of the parent come after an attribute, so it's as if it had them as following siblings
+    while item is not None:
+        yield item
+        item = item.xml_parent
+
+
 class step:
     '''
     Single step in a relative path. a; @b; text(); parent::foo:bar[5]
@@ -466,18 +497,16 @@ class step:
                 new_ctx = ctx.copy(item=child)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            to_process = list(ctx.item.xml_parent.xml_children)[start:]
+            to_process = []
+            for anc in _node_and_ancestors(ctx.item):
+                to_process.extend(_siblings_after(anc))
             while to_process:
                 ff = to_process[0]
                 to_process = list(ff.xml_children) + to_process[1:]
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following-sibling':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            for ff in list(ctx.item.xml_parent.xml_children)[start:]:
+            for ff in _siblings_after(ctx.item):
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'parent':
@@ -486,22 +515,13 @@ class step:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[start:].reverse()
-            while to_process:
-                prev = to_process[0]
-                to_process = to_process[1:] + list(prev.xml_children).reverse()
-                new_ctx = ctx.copy(item=prev)
-                yield from self.node_test.compute(new_ctx)
+            for anc in _node_and_ancestors(ctx.item):
+                for sibling in reversed(_siblings_before(anc)):
+                    for prev in reversed([sibling, *_descendants(sibling)]):
+                        new_ctx = ctx.copy(item=prev)
+                        yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding-sibling':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[:start]
-            to_process.reverse()
-            for prev in to_process:
+            for prev in reversed(_siblings_before(ctx.item)):
                 new_ctx = ctx.copy(item=prev)
                 yield from self.node_test.compute(new_ctx)
         return
-- 
2.43.0


From 4ce461affa5796bc57ceb08b0b6a70424dacb1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:44 +0000
Subject: [PATCH 31/56] fix: XPath axis following of an attribute left out the
 descendants of its element

---
 pylib/uxml/uxpath/xast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 0b78bc6..21e1891 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -424,7 +424,6 @@ def _descendants(item):
 
 
 def _node_and_ancestors(item):
-    #The descendants of the parent come after an attribute, so it's as if it had them as following siblings
     while item is not None:
         yield item
         item = item.xml_parent
@@ -497,7 +496,8 @@ class step:
                 new_ctx = ctx.copy(item=child)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following':
-            to_process = []
+            #The children of its element come after an attribute
+            to_process = list(ctx.item.xml_parent.xml_children) if isinstance(ctx.item, attribute_node) else []
             for anc in _node_and_ancestors(ctx.item):
                 to_process.extend(_siblings_after(anc))
             while to_process:
-- 
2.43.0


From ed6f38ba239faf86874dc089f1d209e1a6a7b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:46 +0000
Subject: [PATCH 32/56] fix: XPath name test * selected text and root nodes on
 axes other than child

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 21e1891..d10a0f1 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -610,7 +610,8 @@ class name_test:
     def compute(self, ctx):
         # print('NAMETEST', (self.name, ctx.item))
         if self.name == '*':
-            yield ctx.item
+            if isinstance(ctx.item, element):
+                yield ctx.item
         else:
             # yield from (n for n in nodeseq if n.xml_name == self.name)
             if isinstance(ctx.item, element) and ctx.item.xml_name == self.name:
-- 
2.43.0


From 766c2a2fddbb4707e124027973901d02f0af94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:49 +0000
Subject: [PATCH 33/56] fix: XPath attribute axis did not support node(), and
 text() accepted strings which are not nodes

---
 pylib/uxml/uxpath/xast.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d10a0f1..354f815 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -27,7 +27,7 @@ __all__ = [
 import operator
 # import functools
 from collections.abc import Iterable
-from amara3.uxml.tree import node, element, strval
+from amara3.uxml.tree import node, element, text, strval
 from amara3.uxml.treeutil import descendants
 
 
@@ -465,7 +465,11 @@ class step:
         elif self.axis == 'attribute':
             if isinstance(ctx.item, element):
                 for k, v in ctx.item.xml_attributes.items():
-                    if self.node_test.name in ('*', k):
+                    if isinstance(self.node_test, node_type_test):
+                        matched = self.node_test.name == 'node'
+                    else:
+                        matched = self.node_test.name in ('*', k)
+                    if matched:
                         yield attribute_node(k, v, ctx.item)
         elif self.axis == 'ancestor':
             parent = parent_or_root(ctx.item)
@@ -644,8 +648,7 @@ class node_type_test:
         yield from self.compute(ctx)
 
     def compute(self, ctx):
-        if (self.name == 'node' and isinstance(ctx.item, node)) \
-            or isinstance(ctx.item, str):
+        if isinstance(ctx.item, node if self.name == 'node' else text):
             yield ctx.item
 
 
-- 
2.43.0


From 6acd53ff22c2536d7c3d36f24ecff0f3dc4ea84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 34/56] fix: XPath operator // changed the parsed expression,
 and selected from the wrong axis

---
 pylib/uxml/uxpath/xast.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 354f815..3ad3d08 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -272,13 +272,16 @@ class binary_expression:
                 yield from self.right.compute(new_ctx)
         elif self.op == '//':
             # left & right are steps
-            # Rewrite the axis to expand the abbreviation
-            # Really only needed the first time.
-            self.right.axis = 'descendant-or-self'
             selected = self.left.compute(ctx)
             for item in selected:
-                new_ctx = ctx.copy(item=item)
-                yield from self.right.compute(new_ctx)
+                # Expand the abbreviation
+                if isinstance(self.right, step) and self.right.axis == 'child':
+                    # Same nodes, but in document order
+                    yield from step('descendant', self.right.node_test).compute(ctx.copy(item=item))
+                    continue
+                for start in [item, *_descendants(item)]:
+                    new_ctx = ctx.copy(item=start)
+                    yield from self.right.compute(new_ctx)
         elif self.op == '|':
             # Union expressions require an indexing by doc order
             if not hasattr(ctx.item, '_docorder'):
-- 
2.43.0


From e10e02533673e5e319aa64c60a56f19cd3514639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 35/56] fix: XPath union repeated nodes, and failed for texts,
 attributes and trees changed since an earlier query

---
 pylib/uxml/uxpath/xast.py | 41 ++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 3ad3d08..1ff20fe 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -28,7 +28,6 @@ import operator
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, text, strval
-from amara3.uxml.treeutil import descendants
 
 
 class root_node(node):
@@ -88,15 +87,24 @@ def parent_or_root(item):
     return item.xml_parent or root_node.get(item)
 
 
-def index_docorder(node):
-    #Always start at the root
-    while node.xml_parent:
-        node = node.xml_parent
-    index = 0
-    node._docorder = index
-    for node in descendants(node):
-        index += 1
-        node._docorder = index
+def index_docorder(nodes):
+    '''
+    Mapping from node identities to places in document order, for all the nodes in the trees of the given ones
+    '''
+    index = {}
+    for item in nodes:
+        #Always start at the root
+        root = root_node.get(item)
+        if id(root) not in index:
+            for n in [root, *_descendants(root)]:
+                index[id(n)] = len(index)
+    return index
+
+
+def _docorder_key(index, owner, item):
+    #Attributes come after their element, before its children
+    if owner is item: return (index[id(item)], 0)
+    return (index[id(owner)], 1 + list(owner.xml_attributes).index(item.xml_name))
 
 
 # Casts
@@ -284,13 +292,14 @@ class binary_expression:
                     yield from self.right.compute(new_ctx)
         elif self.op == '|':
             # Union expressions require an indexing by doc order
-            if not hasattr(ctx.item, '_docorder'):
-                index_docorder(ctx.item)
             # XXX Might be more efficient to maintain a list in doc order as left & right are added
-            selected = list(self.left.compute(ctx))
-            selected.extend(list(self.right.compute(ctx)))
-            selected.sort(key=operator.attrgetter('_docorder'))
-            yield from selected
+            selected = {}
+            for item in [*self.left.compute(ctx), *self.right.compute(ctx)]:
+                # Each attribute step makes new nodes for the same attributes
+                owner = item.xml_parent if isinstance(item, attribute_node) else item
+                selected.setdefault((id(owner), item.xml_name if owner is not item else None), (owner, item))
+            index = index_docorder([owner for owner, item in selected.values()])
+            yield from (item for owner, item in sorted(selected.values(), key=lambda s: _docorder_key(index, *s)))
 
         # FIXME: A lot of work to do on comparisons
         elif self.op == '=':
-- 
2.43.0


From 3f9335217426da82113e9e6cc4621e0c144d2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:36 +0000
Subject: [PATCH 36/56] fix: XPath absolute paths with node() on another axis
 than child yielded the root node

---
 pylib/uxml/uxpath/xast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 1ff20fe..410eb6d 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -407,6 +407,7 @@ class absolute_path:
 
 def _step_is_just_node(r):
     return isinstance(r, step) \
+        and r.axis == 'child' \
         and isinstance(r.node_test, node_type_test) \
         and r.node_test.name == 'node'
 
-- 
2.43.0


From fb1fff42453b72fd07e20b6c88c34b52c5fc1bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:38 +0000
Subject: [PATCH 37/56] fix: XPath string conversion of booleans and numbers
 gave the Python form

---
 pylib/uxml/uxpath/xast.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 410eb6d..53c5893 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,7 +24,7 @@ __all__ = [
     ]
 
 
-import operator
+from decimal import Decimal
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, text, strval
@@ -108,6 +108,17 @@ def _docorder_key(index, owner, item):
 
 
 # Casts
+def _float_to_string(val):
+    if val != val:
+        return 'NaN'
+    if val in (float('inf'), float('-inf')):
+        return 'Infinity' if val > 0 else '-Infinity'
+    if val == int(val):
+        return str(int(val))
+    #Never in exponent form
+    return format(Decimal(repr(val)), 'f')
+
+
 def to_string(obj):
     '''
     Cast an arbitrary object or sequence to a string type
@@ -124,10 +135,12 @@ def to_string(obj):
         yield val
     elif isinstance(val, node):
         yield strval(val)
-    elif isinstance(val, int) or isinstance(val, float):
-        yield str(val)
     elif isinstance(val, bool):
         yield 'true' if val else 'false'
+    elif isinstance(val, int):
+        yield str(val)
+    elif isinstance(val, float):
+        yield _float_to_string(val)
     else:
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
-- 
2.43.0


From d4b4d481f608116cf4d0e0b09c53c177ff2c8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:40 +0000
Subject: [PATCH 38/56] fix: XPath number conversion failed on strings which
 are not numbers instead of giving NaN

---
 pylib/uxml/uxpath/xast.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 53c5893..4569c6c 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,6 +24,7 @@ __all__ = [
     ]
 
 
+import re
 from decimal import Decimal
 # import functools
 from collections.abc import Iterable
@@ -145,6 +146,13 @@ def to_string(obj):
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
 
+NUMBER_PATTERN = re.compile(r'[ \t\r\n]*-?([0-9]+(\.[0-9]*)?|\.[0-9]+)[ \t\r\n]*')
+
+
+def _string_to_number(val):
+    return float(val) if NUMBER_PATTERN.fullmatch(val) else float('nan')
+
+
 def to_number(obj):
     '''
     Cast an arbitrary object or sequence to a number type
@@ -156,12 +164,13 @@ def to_number(obj):
     else:
         val = obj
     if val is None:
-        # FIXME: Should be NaN, not 0
-        yield 0
-    elif isinstance(val, str):
-        yield float(val)
+        yield float('nan')
     elif isinstance(val, node):
-        yield float(strval(val))
+        yield _string_to_number(strval(val))
+    elif isinstance(val, str):
+        yield _string_to_number(val)
+    elif isinstance(val, bool):
+        yield 1 if val else 0
     elif isinstance(val, int) or isinstance(val, float):
         yield val
     else:
@@ -188,7 +197,7 @@ def to_boolean(obj):
     elif isinstance(val, node):
         yield True
     elif isinstance(val, float) or isinstance(val, int):
-        yield bool(val)
+        yield val != 0 and val == val  #Neither 0 nor NaN
     else:
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
-- 
2.43.0


From 9b0bf4b802a075867201fc2d43b24ee0d5e4caa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 39/56] fix: XPath unary minus always failed

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 4569c6c..57bc02e 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -252,7 +252,7 @@ class unary_expression:
 
     def compute(self, ctx):
         # self.op is always '-'
-        yield -(to_number(next(self.right.compute(ctx), None)))
+        yield -next(to_number(self.right.compute(ctx)))
 
 
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
-- 
2.43.0


From ba5cd963cc3289e082426dc04a0afc72ab7d29f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:44 +0000
Subject: [PATCH 40/56] fix: XPath comparisons and boolean operators looked
 only at some items, without conversion

---
 pylib/uxml/uxpath/xast.py | 78 +++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 44 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 57bc02e..fae6846 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -25,6 +25,7 @@ __all__ = [
 
 
 import re
+import operator
 from decimal import Decimal
 # import functools
 from collections.abc import Iterable
@@ -255,6 +256,35 @@ class unary_expression:
         yield -next(to_number(self.right.compute(ctx)))
 
 
+COMPARISONS = {
+    '=': operator.eq, '!=': operator.ne, '>': operator.gt, '<': operator.lt, '>=': operator.ge, '<=': operator.le
+}
+
+
+def _compare(op, lhs, rhs):
+    '''
+    Compare two sequences, true if there is an item in each such that the comparison of these items is true
+    '''
+    for one, other in ((lhs, rhs), (rhs, lhs)):
+        # Compared with a boolean, a sequence counts as a boolean as a whole
+        if len(one) == 1 and isinstance(one[0], bool):
+            other[:] = to_boolean(iter(other))
+    return any(_compare_items(op, i, j) for i in lhs for j in rhs)
+
+
+def _compare_items(op, i, j):
+    i, j = ( strval(x) if isinstance(x, node) else x for x in (i, j) )
+    if op not in ('=', '!='):
+        cast = to_number
+    elif isinstance(i, bool) or isinstance(j, bool):
+        cast = to_boolean
+    elif isinstance(i, (int, float)) or isinstance(j, (int, float)):
+        cast = to_number
+    else:
+        cast = to_string
+    return COMPARISONS[op](next(cast(i)), next(cast(j)))
+
+
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
 
 
@@ -323,52 +353,12 @@ class binary_expression:
             index = index_docorder([owner for owner, item in selected.values()])
             yield from (item for owner, item in sorted(selected.values(), key=lambda s: _docorder_key(index, *s)))
 
-        # FIXME: A lot of work to do on comparisons
-        elif self.op == '=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            # print(ctx.item, list(self.left.compute(ctx)), list(self.right.compute(ctx)))
-            # If LHS is a node sequence, check comparison on each item
-            for i in lhs:
-                for j in rhs:
-                    i = i.xml_value if isinstance(i, node) else i
-                    j = i.xml_value if isinstance(j, node) else j
-                    if i == j:
-                        yield True
-                        return
-            yield False
-        elif self.op == '!=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) != next(rhs)
-        elif self.op == '>':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) > next(rhs)
-        elif self.op == '<':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) < next(rhs)
-        elif self.op == '>=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) >= next(rhs)
-        elif self.op == '<=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) <= next(rhs)
+        elif self.op in COMPARISONS:
+            yield _compare(self.op, list(self.left.compute(ctx)), list(self.right.compute(ctx)))
         elif self.op == 'or':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) or next(rhs)
+            yield next(to_boolean(self.left.compute(ctx))) or next(to_boolean(self.right.compute(ctx)))
         elif self.op == 'and':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            # lhs_val = next(lhs, None)
-            # rhs_val = next(rhs, None)
-            # print((self.left, lhs_val, self.right, rhs_val))
-            # yield lhs_val and rhs_val
-            yield next(lhs) and next(rhs)
+            yield next(to_boolean(self.left.compute(ctx))) and next(to_boolean(self.right.compute(ctx)))
         else:
             raise NotImplementedError('Oops! Operator "{}" not yet implemented'.format(self.op))
         return
-- 
2.43.0


From aab40349e756820f83fa2857bad03e6b5ee5f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:45 +0000
Subject: [PATCH 41/56] fix: XPath predicates after the first counted positions
 before filtering, and numbers were truncated

---
 pylib/uxml/uxpath/xast.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index fae6846..a72cda7 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -592,24 +592,25 @@ class predicated_expression:
 
     def compute(self, ctx):
         # print('predicated_expression', (self.lhs, self.predicates))
-        for pos, item in enumerate(self.lhs.compute(ctx)):
+        selected = self.lhs.compute(ctx)
+        # Each predicate filters, and counts positions in, the result of the one before
+        for pred in self.predicates:
+            selected = self._filter(selected, pred, ctx)
+        yield from selected
+
+    def _filter(self, selected, pred, ctx):
+        for pos, item in enumerate(selected):
             # XPath is 1-indexed
             new_ctx = ctx.copy(item=item, pos=pos+1)
-            for pred in self.predicates:
-                if hasattr(pred, 'compute'):
-                    predval = next(pred.compute(new_ctx), False)
-                else:
-                    predval = pred
-                # bools are ints in Python
-                if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
-                    if pos + 1 != int(predval):
-                        break
-                else:
-                    if not next(to_boolean(predval)):
-                    # if not next(to_boolean(predval, scalar=True)):
-                        break
+            if hasattr(pred, 'compute'):
+                predval = next(pred.compute(new_ctx), False)
             else:
-                # All predicates true
+                predval = pred
+            # bools are ints in Python
+            if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
+                if pos + 1 == predval:
+                    yield item
+            elif next(to_boolean(predval)):
                 yield item
 
 
-- 
2.43.0


From f160e486e79bf393489e2a59281082245b0ba8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:26 +0000
Subject: [PATCH 42/56] fix: XPath boolean conversion of an empty text node was
 false

---
 pylib/uxml/uxpath/xast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index a72cda7..fae0e4c 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -133,10 +133,10 @@ def to_string(obj):
         val = obj
     if val is None:
         yield ''
-    elif isinstance(val, str):
-        yield val
     elif isinstance(val, node):
         yield strval(val)
+    elif isinstance(val, str):
+        yield val
     elif isinstance(val, bool):
         yield 'true' if val else 'false'
     elif isinstance(val, int):
@@ -193,10 +193,10 @@ def to_boolean(obj):
         yield False
     elif isinstance(val, bool):
         yield val
-    elif isinstance(val, str):
-        yield bool(val)
     elif isinstance(val, node):
         yield True
+    elif isinstance(val, str):
+        yield bool(val)
     elif isinstance(val, float) or isinstance(val, int):
         yield val != 0 and val == val  #Neither 0 nor NaN
     else:
-- 
2.43.0


From d283cff4e8c132e1286978dc4657c02051ea10b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 43/56] fix: XPath functions converted an empty sequence as
 argument as if it were false

---
 pylib/uxml/uxpath/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 31f60e4..73ff1ce 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -27,7 +27,7 @@ def number_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_number(obj)
 
 
@@ -36,7 +36,7 @@ def string_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_string(obj)
 
 
-- 
2.43.0


From 3d3e8cbf9ce7b08127151a1a20bfdc4b577b4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:31 +0000
Subject: [PATCH 44/56] fix: XPath substring-before yielded the whole string
 without match, and failed on an empty one

---
 pylib/uxml/uxpath/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 73ff1ce..75c026c 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -154,7 +154,7 @@ def substring_before(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[0]
+    yield full[:full.index(part)] if part in full else ''
 
 
 @microxpath_function('substring-after')
@@ -164,7 +164,7 @@ def substring_after(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[-1]
+    yield full[full.index(part)+len(part):] if part in full else ''
 
 
 @microxpath_function('substring')
-- 
2.43.0


From 2c9048cc7199da121c40fde04d3c9b049dc83a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:33 +0000
Subject: [PATCH 45/56] fix: XPath substring failed on computed arguments, and
 on positions before the string

---
 pylib/uxml/uxpath/functions.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 75c026c..ce59c0d 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -9,6 +9,7 @@ __all__ = [
 
 
 #import operator
+import math
 from functools import wraps
 from amara3.uxml.tree import node, element, strval
 from amara3.uxml.uxpath.xast import root_node, attribute_node, index_docorder, to_string, to_number, to_boolean
@@ -167,15 +168,20 @@ def substring_after(ctx, full, part):
     yield full[full.index(part)+len(part):] if part in full else ''
 
 
+def _round_half_up(num):
+    return math.floor(num + 0.5) if math.isfinite(num) else num
+
+
 @microxpath_function('substring')
-def substring(ctx, full, start, length):
+def substring(ctx, full, start, length=None):
     '''
     Yields one string
     '''
     full = next(string_arg(ctx, full), '')
-    start = int(next(to_number(start)))
-    length = int(next(to_number(length)))
-    yield full[start-1:start-1+length]
+    # Positions are 1-indexed, rounded (half up), and may be outside of the string, infinite or NaN
+    start = _round_half_up(next(number_arg(ctx, start)))
+    end = float('inf') if length is None else start + _round_half_up(next(number_arg(ctx, length)))
+    yield ''.join(c for pos, c in enumerate(full, 1) if start <= pos < end)
 
 
 @microxpath_function('string-length')
-- 
2.43.0


From deee6987ed7e1e85b7383e43621ebfe479c2a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:35 +0000
Subject: [PATCH 46/56] fix: XPath string-length failed without argument, and
 on nodes and numbers

---
 pylib/uxml/uxpath/functions.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index ce59c0d..1105bcc 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -189,10 +189,7 @@ def string_length(ctx, s=None):
     '''
     Yields one number
     '''
-    if s is None:
-        s = ctx.node
-    elif callable(s):
-        s = next(s.compute(ctx), '')
+    s = next(to_string(ctx.item) if s is None else string_arg(ctx, s))
     yield len(s)
 
 
-- 
2.43.0


From 5c78283370d058c2c243c007f3347cc21faffe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:37 +0000
Subject: [PATCH 47/56] fix: XPath number() without argument ignored the
 context item

---
 pylib/uxml/uxpath/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 1105bcc..3b5c18b 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -274,7 +274,9 @@ def number(ctx, seq=None):
     * If boolean true yield 1; if boolean false yield 0
     * If a node convert to string as if by a call to string(); yield the same value as if passed that string argument to number()
     '''
-    if hasattr(seq, 'compute'):
+    if seq is None:
+        obj = ctx.item
+    elif hasattr(seq, 'compute'):
         obj = next(seq.compute(ctx), '')
     else:
         obj = seq
-- 
2.43.0


From 1b13523ac015556b99a5275944dcdc02b8f32ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:39 +0000
Subject: [PATCH 48/56] fix: XPath lookup always failed

---
 pylib/uxml/uxpath/functions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 3b5c18b..0fbc0f0 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -310,14 +310,13 @@ def lookup_(ctx, tableid, key):
     Yields a sequence of a single value, the result of looking up a value from the tables provided in the context, or an empty sequence if lookup is unsuccessful
 
     * tableid: id of the lookup table to use
-    * expr: expression to be converted to string, then dynamically evaluated for each item on the sequence to produce the result
+    * key: expression to be converted to string, then looked up in the table
     '''
     tableid = next(string_arg(ctx, tableid), '')
     key = next(string_arg(ctx, key), '')
-    #value = ctx.
-    for item in seq:
-        innerctx = ctx.copy(item=item)
-        yield from pexpr.compute(innerctx)
+    table = ctx.lookuptables.get(tableid, {})
+    if key in table:
+        yield table[key]
 
 
 @microxpath_function('sum')
-- 
2.43.0


From 6f5c6db333942213bbdf053ce17fb8a752a1b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 49/56] fix: qquery failed with a parsed XPath expression

---
 pylib/uxml/uxpath/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 4fdec8a..b3b6762 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -131,8 +131,7 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
         root = tb.parse(xml_thing.decode('utf-8'))
         force_root = True
     if not root: return
-    if isinstance(xpath_thing, str):
-        parsed_expr = parse(xpath_thing)
+    parsed_expr = parse(xpath_thing) if isinstance(xpath_thing, str) else xpath_thing
     ctx = context(root, variables=vars, functions=funcs, force_root=force_root)
     result = parsed_expr.compute(ctx)
     yield from result
-- 
2.43.0


From c9e016042cce894bce44faa8bdba483597c30300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:44 +0000
Subject: [PATCH 50/56] =?UTF-8?q?fix:=20XPath=20names=20with=20the=20lette?=
 =?UTF-8?q?rs=20=C3=80=20to=20=C3=96=20were=20not=20recognized?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 pylib/uxml/uxpath/lexrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 199a655..317f03c 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -65,7 +65,7 @@ t_STAR_OP = r'\*'
 
 t_ignore = ' \t\r\n'
 
-NameStartChar = r'(' + r'[A-Z]|_|[a-z]|\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
+NameStartChar = r'(' + r'[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
     r'[\u0370-\u037d]|[\u037f-\u1fff]|[\u200c-\u200d]|[\u2070-\u218f]|' + \
     r'[\u2c00-\u2fef]|[\u3001-\uD7FF]|[\uF900-\uFDCF]|[\uFDF0-\uFFFD]' + \
     r'|[\U00010000-\U000EFFFF]' + r')'
-- 
2.43.0


From 4ef3ca2b5aae81e3cae9c754365f8f4aef1efaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:46 +0000
Subject: [PATCH 51/56] fix: XPath text() and node() as whole expression or
 predicate tested the context node itself

---
 pylib/uxml/uxpath/parserules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 0415d58..15861cf 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -95,7 +95,8 @@ def p_expr_paths_etc(p):
          | FunctionCall
          | VariableReference
     """
-    p[0] = p[1]
+    # Expression consisting of just a node type test, e.g. text(), with child axis
+    p[0] = xast.step('child', p[1]) if isinstance(p[1], xast.node_type_test) else p[1]
 
 def p_expr_literal(p):
     """
-- 
2.43.0


From ffcd8822f9f72e7c8621506e2920b7cb2e504e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:48 +0000
Subject: [PATCH 52/56] fix: XPath predicates and paths after an operator
 applied to the whole expression before

---
 pylib/uxml/uxpath/parserules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 15861cf..15442c5 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -16,6 +16,7 @@ precedence = (
     ('left', 'MULT_OP', 'DIVMOD_OP'),
     ('right', 'UMINUS_OP'),
     ('left', 'UNION_OP'),
+    ('right', 'OPEN_BRACKET', 'PATH_SEP', 'ABBREV_PATH_SEP'),
 )
 
 #
-- 
2.43.0


From d60fa6169798d336cbec87c546de5df5cbde51ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:50 +0000
Subject: [PATCH 53/56] fix: XPath operator and did not bind stronger than or

---
 pylib/uxml/uxpath/lexrules.py   |  4 ++--
 pylib/uxml/uxpath/parserules.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 317f03c..8c23f20 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -10,8 +10,8 @@ from ply.lex import TOKEN
 
 # Note: element names can coincide with XPath operators (notably div)
 OPERATOR_NAMES = {
-    'or': 'LOGICAL_OP',
-    'and': 'LOGICAL_OP',
+    'or': 'OR_OP',
+    'and': 'AND_OP',
     'div': 'DIVMOD_OP',
     'mod': 'DIVMOD_OP',
 }
diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 15442c5..2011415 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,7 +9,8 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
-    ('left', 'LOGICAL_OP'),
+    ('left', 'OR_OP'),
+    ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
     ('left', 'REL_OP'),
     ('left', 'PLUS_OP', 'MINUS_OP'),
@@ -25,7 +26,8 @@ precedence = (
 
 def p_expr_boolean(p):
     """
-    Expr : Expr LOGICAL_OP Expr
+    Expr : Expr OR_OP Expr
+         | Expr AND_OP Expr
          | Expr EQUAL_OP Expr
          | Expr REL_OP Expr
          | Expr PLUS_OP Expr
@@ -219,7 +221,8 @@ def p_name_test_star(p):
 def p_name_test_name(p):
     """
     NameTest : NAME
-             | LOGICAL_OP
+             | OR_OP
+             | AND_OP
              | DIVMOD_OP
     """
     p[0] = xast.name_test(p[1])
@@ -264,7 +267,8 @@ def p_predicate(p):
 def p_variable_reference(p):
     """
     VariableReference : DOLLAR NAME
-                      | DOLLAR LOGICAL_OP
+                      | DOLLAR OR_OP
+                      | DOLLAR AND_OP
                       | DOLLAR DIVMOD_OP
     """
     p[0] = xast.variable_reference(p[2])
@@ -287,7 +291,8 @@ def p_number(p):
 def p_function_call(p):
     """
     FunctionCall : NAME FormalArguments
-                 | LOGICAL_OP FormalArguments
+                 | OR_OP FormalArguments
+                 | AND_OP FormalArguments
                  | DIVMOD_OP FormalArguments
     """
     # Hacking around the ambiguity between node type test & function call
-- 
2.43.0


From a4a8e20c56edf6b28e19e4005b7de8cfd5f6614f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:37 +0000
Subject: [PATCH 54/56] fix: serializing an XPath expression left out the
 quotes of string literals

---
 pylib/uxml/uxpath/xast.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index fae0e4c..0de9136 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -214,7 +214,12 @@ class literal_wrapper:
         return f'{self.__class__.__name__}: {self.obj}'
 
     def _serialize(self):
-        yield str(self.obj)
+        if isinstance(self.obj, str):
+            #There are no escapes, so a string cannot have quotes of both kinds
+            quote = "'" if '"' in self.obj else '"'
+            yield quote + self.obj + quote
+        else:
+            yield str(self.obj)
 
     def __call__(self, ctx):
         '''
-- 
2.43.0


From f3d096b58468a703cb9fd914aeb7e19e34474263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:37 +0000
Subject: [PATCH 55/56] fix: serializing an XPath expression joined minus to
 the name before it

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 0de9136..b11dda1 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -311,7 +311,8 @@ class binary_expression:
         for tok in _serialize(self.left):
             yield tok
 
-        if self.op in BE_KEYWORDS:
+        #Without space - would be part of a name before it
+        if self.op in BE_KEYWORDS or self.op == '-':
             yield ' '
             yield self.op
             yield ' '
-- 
2.43.0


From 73a06cbb9d344d988c13d5224491bdaa44e1292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:45 +0000
Subject: [PATCH 56/56] fix: serializing an XPath expression wrote some numbers
 with an exponent

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index b11dda1..1efef52 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -219,7 +219,7 @@ class literal_wrapper:
             quote = "'" if '"' in self.obj else '"'
             yield quote + self.obj + quote
         else:
-            yield str(self.obj)
+            yield from to_string(self.obj)
 
     def __call__(self, ctx):
         '''
-- 
2.43.0

