From 8736e91760001f3826cc078d8437e4e39a89dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:39 +0000
Subject: [PATCH 01/80] fix: parse and parsefrags no longer yield a spurious
 leading None event

---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index d9f38ba..63ffce4 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -343,7 +343,7 @@ echo "for e in parsefrags(('<spa', 'm>eggs</spam>')): print(e)" >> /tmp/spam.py
 python -m pdb -c "b /Users/uche/.local/venv/py3/lib/python3.3/site-packages/amara3/uxml/parser.py:173" /tmp/spam.py
 '''
 
-@coroutine
+#Not wrapped in @coroutine because parser() primes its handler; priming twice would deliver a bogus None event
 def handler(accumulator):
     while True:
         event = yield
-- 
2.43.0


From f5c36fcd3cf7cf68c8ddc0f37bd4632e6e0cca14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:40 +0000
Subject: [PATCH 02/80] fix: resume correctly when input is split inside an
 attribute value

---
 pylib/uxml/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 63ffce4..6ebd000 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -288,6 +288,7 @@ def parser(handler, strict=True):
                             if aval == None:
                                 if not done: need_input = True
                                 #Don't advance to newpos, so effectively backtrack
+                                pos = backtrackpos
                                 continue
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
-- 
2.43.0


From d487580d5b4d0e6f212ca19f77894117123fc1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:41 +0000
Subject: [PATCH 03/80] fix: allow space after = in attributes and reject
 unquoted attribute values

---
 pylib/uxml/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 6ebd000..c5c37d3 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -274,8 +274,12 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if not done and pos == wlen:
-                            need_input = True
+                        #Eat up any whitespace
+                        try:
+                            while window[pos] in ' \r\n\t':
+                                pos += 1
+                        except IndexError:
+                            if not done: need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -295,6 +299,8 @@ def parser(handler, strict=True):
                             pos = newpos + 1 #Skip the closing quote
                             attribs[aname] = aval
                             curr_state = state.complete_tag
+                        else:
+                            raise RuntimeError('Expected quoted attribute value, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-- 
2.43.0


From c8b94af507cedfedc08ccd00d04c74dcce7da9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:26 +0000
Subject: [PATCH 04/80] fix: reject truncated input and junk before the
 document element instead of looping forever

---
 pylib/uxml/parser.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index c5c37d3..81145be 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -168,7 +168,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -176,6 +176,8 @@ def parser(handler, strict=True):
                         if window[pos] == '<':
                             pos += 1
                             curr_state = state.pre_tag_gi
+                        else:
+                            raise RuntimeError('Expected document element, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                         #if not done and pos == wlen:
                         #    need_input = True
                         #    continue
@@ -186,7 +188,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         if curr_state == state.pre_tag_gi and window[pos] == '/':
                             pos += 1
@@ -203,7 +205,7 @@ def parser(handler, strict=True):
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         else:
                             gi = window[pos:advpos]
@@ -215,7 +217,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
@@ -239,12 +241,8 @@ def parser(handler, strict=True):
                                 if not element_stack: #and if strict
                                     curr_state = state.complete_doc
                             if pos == wlen:
-                                if done:
-                                    #Error: unfinished business if this is opening tag
-                                    break
-                                else:
-                                    need_input = True
-                                    continue
+                                need_input = True
+                                continue
                         else:
                             raise RuntimeError('Expected \'>\', found {0}'.format(window[pos]))
                     if curr_state == state.attribute:
@@ -254,7 +252,7 @@ def parser(handler, strict=True):
                             while NAMECHAR.match(window[advpos]):
                                 advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
                         else:
@@ -266,7 +264,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -279,7 +277,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -290,7 +288,7 @@ def parser(handler, strict=True):
                             #pos + 1 to skip the opening quote
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
-                                if not done: need_input = True
+                                need_input = True
                                 #Don't advance to newpos, so effectively backtrack
                                 pos = backtrackpos
                                 continue
@@ -304,7 +302,7 @@ def parser(handler, strict=True):
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-                            if not done: need_input = True
+                            need_input = True
                             #Don't advance to newpos, so effectively backtrack
                             continue
                         pos = newpos
@@ -324,7 +322,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -335,6 +333,8 @@ def parser(handler, strict=True):
                             raise RuntimeError('Junk after document element')
                     #print('END1')
                 #print('END2')
+            if curr_state != state.complete_doc:
+                raise RuntimeError('Unexpected end of input')
             sentinel = yield #Avoid StopIteration in parent from running off enf of coroutine?
         except GeneratorExit:
             #close() called
-- 
2.43.0


From d02de03cbcae56df418ed4601b393484a820c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 05/80] fix: reject tags without an element name

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 81145be..9701fcb 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -208,6 +208,8 @@ def parser(handler, strict=True):
                             need_input = True #Do not advance until we have enough input
                             continue
                         else:
+                            if advpos == pos:
+                                raise RuntimeError('Expected element name, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                             gi = window[pos:advpos]
                             pos = advpos
                             curr_state = state.complete_tag
-- 
2.43.0


From 0f3617452ca93cba7b2ccc02177dc8a6781d1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:29 +0000
Subject: [PATCH 06/80] fix: names may contain hyphen and full stop, but not
 the characters between U+00B7 and U+00C0

---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 9701fcb..0cd2d14 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -46,7 +46,7 @@ NAMESTARTCHAR = re.compile('[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u037
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-NAMECHAR =  re.compile('[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  re.compile('[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-- 
2.43.0


From 69a69b16ba0b2f0b952f89749be9711d6d77b6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:17 +0000
Subject: [PATCH 07/80] fix: bad character references raise instead of being
 taken for missing input

---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 0cd2d14..ff80a85 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -124,7 +124,7 @@ def handle_cdata(pos, window, charpat, stopchars):
                                 raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                             break
                         else:
-                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor]), error_context(window, start, cursor))
+                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From 09bf4ef7135e2c3e94483ee439846a23a0fdf08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:18 +0000
Subject: [PATCH 08/80] fix: characters that are illegal in content are
 reported, not silently dropped

---
 pylib/uxml/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index ff80a85..11c0caf 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -125,6 +125,10 @@ def handle_cdata(pos, window, charpat, stopchars):
                             break
                         else:
                             raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
+            elif window[cursor] in '\t\n' and stopchars != '<':
+                cdata += ' ' #Attribute value normalization
+            else:
+                raise RuntimeError('Illegal character: {0} (around {1})'.format(repr(window[cursor]), error_context(window, cursor, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From c03a68e49d984e0eeb685cba40bab9c72ba0a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:19 +0000
Subject: [PATCH 09/80] fix: line endings are normalized to a line feed

---
 pylib/uxml/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 11c0caf..f14ea62 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -151,6 +151,7 @@ def parser(handler, strict=True):
     backtrack = 0
     curr_state = state.pre_element
     done = False
+    after_cr = False #Did the input so far end with a carriage return?
     element_stack = []
     attribs = {}
     try:
@@ -160,6 +161,10 @@ def parser(handler, strict=True):
                 frag, done = yield
                 #print(frag, done)
                 if not frag: continue #Ignore empty additions
+                #Line ending normalization, also for a CR LF pair split across fragments
+                if after_cr and frag[0] == '\n': frag = frag[1:]
+                after_cr = frag.endswith('\r')
+                frag = frag.replace('\r\n', '\n').replace('\r', '\n')
                 window += frag
                 wlen += len(frag)
                 #FIXME: throw away unneeded, prior bits of window here
-- 
2.43.0


From 176c7569b0ef42298838aca838eda755689cd71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:20 +0000
Subject: [PATCH 10/80] fix: reject duplicate attributes

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index f14ea62..37c5a37 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -306,6 +306,8 @@ def parser(handler, strict=True):
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
                             pos = newpos + 1 #Skip the closing quote
+                            if aname in attribs:
+                                raise RuntimeError('Duplicate attribute {0} (around {1})'.format(aname, error_context(window, pos, pos)))
                             attribs[aname] = aval
                             curr_state = state.complete_tag
                         else:
-- 
2.43.0


From 806da49eafa31aa20c16f0c36d45497434821df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:22 +0000
Subject: [PATCH 11/80] fix: require white space before an attribute

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 37c5a37..b4d7a32 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -232,6 +232,8 @@ def parser(handler, strict=True):
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
+                            if window[pos-1] not in ' \n\t':
+                                raise RuntimeError('Expected white space before attribute (around {0})'.format(error_context(window, pos, pos)))
                             curr_state = state.attribute
                             #Note: pos not advanced so we can re-read startchar
                             continue
-- 
2.43.0


From 13e53b3648dd8d67031ffffbb334f550d759860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:34 +0000
Subject: [PATCH 12/80] fix: xml_remove removes the very node it is given, not
 an equal text node

---
 pylib/uxml/tree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2f3a5d8..a4b5d1d 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -146,9 +146,12 @@ class element(node):
 
         child - the child to remove
         '''
-        if child in self.xml_children:
-            child._xml_parent = None
-            self.xml_children.remove(child)
+        # Compare by identity, since text nodes with the same content are equal
+        for index, candidate in enumerate(self.xml_children):
+            if candidate is child:
+                del self.xml_children[index]
+                child._xml_parent = None
+                break
         else:
             raise ValueError(f'Element {self} has no child {child}')
         return
-- 
2.43.0


From f9abb8e11c7f1d76aa96fbd8c3a42ec29769ce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:36 +0000
Subject: [PATCH 13/80] fix: inserting a node that is already in a tree takes
 it from its old place

---
 pylib/uxml/tree.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index a4b5d1d..2c56943 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -132,6 +132,11 @@ class element(node):
         if isinstance(child, str):
             child = text(child, parent=self)
         else:
+            # A node has one parent, so take it from where it was, if anywhere
+            if child.xml_parent is not None:
+                old_parent = child.xml_parent
+                # New list, so that children can be moved while looping over them
+                old_parent.xml_children = [c for c in old_parent.xml_children if c is not child]
             child._xml_parent = weakref.ref(self)
         if index == -1:
             self.xml_children.append(child)
-- 
2.43.0


From 2ecd77808f8c942013069204ad3e0980431d0eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:37 +0000
Subject: [PATCH 14/80] fix: encoding a text node escapes markup characters

---
 pylib/uxml/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2c56943..431aaa9 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -181,7 +181,7 @@ class text(node, str):
         return u'{{uxml.text "{}"...}}'.format(str(self)[:10])
 
     def xml_encode(self, indent=None, depth=0):
-        return str(self)
+        return escape(self)
 
     @property
     def xml_value(self):
-- 
2.43.0


From 77a4ff2aaea48612a2a8131a3950a48fa8561071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:38 +0000
Subject: [PATCH 15/80] fix: white space in attribute values is written as
 hexadecimal references, which the parser can read

---
 pylib/uxml/tree.py   | 10 +++++++++-
 pylib/uxml/writer.py |  6 +++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 431aaa9..6ce4fb5 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -16,6 +16,14 @@ from amara3.uxml.parser import parser, event  # parse, parsefrags
 # NO_PARENT = object()
 
 
+def attr_markup(value):
+    '''
+    Quoted & escaped form of an attribute value. MicroXML only has hexadecimal character references
+    '''
+    quoted = quoteattr(value)
+    return quoted.replace('&#9;', '&#x9;').replace('&#10;', '&#xA;').replace('&#13;', '&#xD;')
+
+
 class node:
     def __init__(self, parent=None):
         self._xml_parent = weakref.ref(parent) if parent is not None else None
@@ -86,7 +94,7 @@ class element(node):
         '''
         strbits = ['<', self.xml_name]
         for aname, aval in self.xml_attributes.items():
-            strbits.extend([' ', aname, '=', quoteattr(aval)])
+            strbits.extend([' ', aname, '=', attr_markup(aval)])
         strbits.append('>')
         if indent:
             strbits.append('\n')
diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index f1ac03f..c825059 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -4,7 +4,7 @@ Raw XML writer
 '''
 
 from enum import Enum #https://docs.python.org/3.4/library/enum.html
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape
 
 from amara3.uxml import tree, xml
 
@@ -94,7 +94,7 @@ class raw(object):
             self._whandler.write(context.attribute_name, k)
             self._whandler.write(context.start_element, token.attr_equals)
             # Check whether we need to extract quoteattr(v) at [0] and [-1] and write these in start_element context
-            self._whandler.write(context.attribute_text, quoteattr(v))
+            self._whandler.write(context.attribute_text, tree.attr_markup(v))
         if empty:
             self._whandler.write(context.start_element, token.empty_close)
             if self._indent:
@@ -163,7 +163,7 @@ class namespacer(raw):
                     self._fp.write('xmlns:' + k if k else 'xmlns')
                     self._fp.write(TOKENS[token.attr_equals])
                     # Check whether we need to extract quoteattr(v) at [0] and [-1] and write these in start_element context
-                    self._fp.write(quoteattr(v))
+                    self._fp.write(tree.attr_markup(v))
                 #self._fp.write(TOKENS[token.pre_attr])
                 self._ns_handled = True
         if ctx == context.element_name:
-- 
2.43.0


From d6b59b3d5c5ad89abf5b4a3e208cccf62b4520a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:53 +0000
Subject: [PATCH 16/80] fix: inserting a text node inserts that node, not a
 copy of it

---
 pylib/uxml/html5.py | 4 ++++
 pylib/uxml/tree.py  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 1b65eff..366aec8 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -166,7 +166,11 @@ class comment(tree.text, node):
     text node.
     '''
     type = 6
+    def __new__(cls, data):
+        return super(comment, cls).__new__(cls, '')
+
     def __init__(self, data):
+        tree.text.__init__(self, '')
         self.data = data
         # XXX Next 2 wererequired by html5lib tree API,
         # but maybe only for __str__, which is now overridden
diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 6ce4fb5..2597e51 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -137,7 +137,7 @@ class element(node):
 
         child - the child to append. If a string, convert to a text node, for convenience
         '''
-        if isinstance(child, str):
+        if not isinstance(child, node):
             child = text(child, parent=self)
         else:
             # A node has one parent, so take it from where it was, if anywhere
-- 
2.43.0


From 112f4071da55ef943f9797b42e2b8b2b8089dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:55 +0000
Subject: [PATCH 17/80] fix: removing a child through the HTML adapter clears
 its parent and compares by identity

---
 pylib/uxml/html5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 366aec8..19f617b 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -57,7 +57,7 @@ class node(Node):
         self.xml_append(node)
 
     def removeChild(self, node):
-        self.xml_children.remove(node)
+        self.xml_remove(node)
 
     def insertText(self, data, insertBefore=None):
         """Insert data as text in the current node, positioned before the
-- 
2.43.0


From a97caf5ed721c64080bea50f8a3469a61ded3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:56 +0000
Subject: [PATCH 18/80] fix: inserting before a reference node through the HTML
 adapter finds the very node

---
 pylib/uxml/html5.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 19f617b..ec7a34e 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -63,7 +63,7 @@ class node(Node):
         """Insert data as text in the current node, positioned before the
         start of node insertBefore or to the end of the node's text.
         """
-        if insertBefore:
+        if insertBefore is not None:
             self.insertBefore(tree.text(data), insertBefore)
         else:
             self.xml_append(tree.text(data))
@@ -72,7 +72,11 @@ class node(Node):
         """Insert node as a child of the current node, before refNode in the
         list of child nodes. Raises ValueError if refNode is not a child of
         the current node"""
-        offset = self.xml_children.index(refNode)
+        # By identity, since text nodes with the same content are equal, and not counting node itself, which may be moving
+        siblings = [c for c in self.xml_children if c is not node]
+        offset = next((i for i, c in enumerate(siblings) if c is refNode), None)
+        if offset is None:
+            raise ValueError('Reference node {} is not a child of {}'.format(refNode, self))
         self.xml_insert(node, offset)
 
     def cloneNode(self):
-- 
2.43.0


From e33f2dc122d92e6e8a110975bac95bda0c248a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:57 +0000
Subject: [PATCH 19/80] fix: cloning an HTML element keeps its html5lib name
 and namespace

---
 pylib/uxml/html5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index ec7a34e..fbd0d9e 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -159,7 +159,11 @@ class element(tree.element, node):
         name and attributes but with no parent or child nodes
         """
         attrs = self.xml_attributes.copy()
-        return element(self.xml_name, attrs=attrs)
+        clone = element(self.xml_name, attrs=attrs)
+        for bookkeeping in ('xml_html5lib_name', 'xml_html5lib_namespace'):
+            if hasattr(self, bookkeeping):
+                setattr(clone, bookkeeping, getattr(self, bookkeeping))
+        return clone
 
 
 # class comment(tree.comment):
-- 
2.43.0


From f8b915c1b0f91476b62b4630a0a68c290b270d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:07 +0000
Subject: [PATCH 20/80] fix: following_siblings starts from the very node it is
 given, and copes with a root

---
 pylib/uxml/treeutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index fe63f9d..09cc86a 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -77,7 +77,9 @@ def following_siblings(elem):
     '''
     Yields elements and text which have the same parent as elem, but come afterward in document order
     '''
-    it = itertools.dropwhile(lambda x: x != elem, elem.xml_parent.xml_children)
+    if elem.xml_parent is None: return iter(())
+    # By identity, since text nodes with the same content are equal
+    it = itertools.dropwhile(lambda x: x is not elem, elem.xml_parent.xml_children)
     next(it, None) #Skip the element itself, if any
     return it
 
-- 
2.43.0


From 3ebfc62204d0113ec2a713596f2dd062628260b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:08 +0000
Subject: [PATCH 21/80] fix: "**" in select_pattern tries every number of
 levels, and matches inside matches are found

---
 pylib/uxml/treeutil.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 09cc86a..93555f5 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -108,12 +108,26 @@ def elem_test(next):
 def any_until(next):
     def _any_until(node):
         if isinstance(node, element):
-            next_next = next(node)
-            if next_next is not None:
-                return next_next
-        return _any_until #Return this same state until we can match the next
+            #Alternatives: this node is another of the levels skipped, or the levels ended before it
+            if next is MATCHED_STATE: return [_any_until]
+            return [_any_until, next(node)]
+    _any_until.skip_to = next #It might be that no levels are skipped at all
     return _any_until
 
+def alternatives(state):
+    '''
+    Flat list of the states in the result of a state function
+    '''
+    if isinstance(state, list):
+        return [s for sub in state for s in alternatives(sub)]
+    return [] if state is None else [state]
+
+def is_match(state):
+    '''
+    Does a state mean that the entire pattern has been matched?
+    '''
+    return state is MATCHED_STATE or (hasattr(state, 'skip_to') and is_match(state.skip_to))
+
 def any_(next, funcs):
     def _any(node):
         if any( (func(node) for func in funcs) ):
@@ -169,11 +183,11 @@ def select_pattern(node, pattern, state=None):
     #for child in select_elements(elem):
     if isinstance(node, element):
         for child in node.xml_children:
-            new_state = state(child)
-            if new_state == MATCHED_STATE:
+            new_states = [ns for s in alternatives(state) if s is not MATCHED_STATE for ns in alternatives(s(child))]
+            if any(is_match(s) for s in new_states):
                 yield child
-            elif new_state is not None:
-                yield from select_pattern(child, None, state=new_state)
+            if new_states:
+                yield from select_pattern(child, None, state=new_states)
     return
 
 def make_pretty(elem, depth=0, indent='  '):
-- 
2.43.0


From 4cccc9c16b9d8188f6792d94cc15f9abeb840c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:09 +0000
Subject: [PATCH 22/80] fix: alternative names in a select_pattern stage no
 longer crash

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 93555f5..83ee0a0 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -147,7 +147,7 @@ def _prep_pattern(pattern):
             else:
                 next_state = name_test(next_state, stage)
         elif isinstance(stage, tuple):
-            new_tuple = tuple(( name_test(substage) if isinstance(substage, str) else substage for substage in stage ))
+            new_tuple = tuple(( name_test(MATCHED_STATE, substage) if isinstance(substage, str) else substage for substage in stage ))
             next_state = any_(next_state, new_tuple)
         else:
             raise ValueError('Cannot interpret pattern component {0}'.format(repr(stage)))
-- 
2.43.0


From b6dd2edc8c19ca3c9f8b8ec42bf26b4de93d1e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:10 +0000
Subject: [PATCH 23/80] fix: make_pretty uses the requested indent at every
 depth, keeps text other than XML white space, and is stable

---
 pylib/uxml/treeutil.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 83ee0a0..0a43544 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -220,35 +220,30 @@ def make_pretty(elem, depth=0, indent='  '):
     '<a>\n  <b>\n    <x>1</x>\n  </b>\n  <c>\n    <x>2</x>\n    <d>\n      <x>3</x>\n    </d>\n  </c>\n  <x>4</x>\n  <y>5</y>\n</a>'
     '''
     depth += 1
+    last_ix = len(elem.xml_children) - 1
     updated_child_list = []
-    updated_child_ix = 0
-    for child in elem.xml_children:
+    for ix, child in enumerate(elem.xml_children):
         if isinstance(child, element):
-            if updated_child_ix % 2:
+            if updated_child_list and not isinstance(updated_child_list[-1], element):
                 updated_child_list.append(child)
-                updated_child_ix += 1
             else:
                 #It's the turn for text, but we have an element
                 new_text = text('\n' + indent*depth, elem)
                 updated_child_list.append(new_text)
                 updated_child_list.append(child)
-                updated_child_ix += 2
-            make_pretty(child, depth)
+            make_pretty(child, depth, indent)
         else:
-            if child.xml_value.strip():
+            if child.xml_value.strip(' \t\r\n'):
                 #More to it than whitespace, so leave alone
                 #Note: if only whitespace entities are used, will still be left alone
                 updated_child_list.append(child)
-                updated_child_ix += 1
             else:
                 #Only whitespace, so replace with proper indentation
-                new_text = text('\n' + indent*depth, elem)
+                new_text = text('\n' + indent*(depth if ix < last_ix else depth-1), elem)
                 updated_child_list.append(new_text)
-                updated_child_ix += 1
     #Trailing indentation might be needed
-    if not(updated_child_ix % 2):
+    if not updated_child_list or isinstance(updated_child_list[-1], element):
         new_text = text('\n' + indent*(depth-1), elem)
         updated_child_list.append(new_text)
-        #updated_child_ix += 1 #About to be done, so not really needed
     elem.xml_children = updated_child_list
     return elem
-- 
2.43.0


From 56b360815cbee485d2c2afea5a062e50b74fddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:11 +0000
Subject: [PATCH 24/80] fix: several patterns on one sender are matched
 independently of each other

---
 pylib/uxml/treeiter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 9a047fa..0c15e03 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -53,7 +53,7 @@ class sender:
         self._roots = [None] * self._pattern_count
         self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [[]] * self._pattern_count
+        self._evstacks = [[] for _ in range(self._pattern_count)]
         self._building_depths = [0] * self._pattern_count
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
@@ -91,8 +91,8 @@ class sender:
         return _any_func
 
     def _prep_patterns(self):
-        next_state = MATCHED_STATE
         for ix, pattern in enumerate(self._patterns):
+            next_state = MATCHED_STATE
             for i in range(len(pattern)):
                 stage = pattern[-i-1]
                 if isinstance(stage, str):
-- 
2.43.0


From b42681227ba491cb5a8bade4c41a27f1dea1f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:12 +0000
Subject: [PATCH 25/80] fix: "**" in streaming patterns tries every number of
 levels

---
 pylib/uxml/treeiter.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 0c15e03..7fb8a2a 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -9,9 +9,7 @@ from collections.abc import Iterable
 
 from .parser import parser, event  # parsefrags
 from .tree import element, text, name_test
-
-
-MATCHED_STATE = object()
+from .treeutil import MATCHED_STATE, alternatives, is_match
 
 
 class sender:
@@ -78,10 +76,10 @@ class sender:
     def _any_until(self, next):
         def _any_until_func(ev):
             if ev[0] == event.start_element:
-                next_next = next(ev)
-                if next_next is not None:
-                    return next_next
-            return _any_until_func
+                #Alternatives: this element is another of the levels skipped, or the levels ended before it
+                if next is MATCHED_STATE: return [_any_until_func]
+                return [_any_until_func, next(ev)]
+        _any_until_func.skip_to = next #It might be that no levels are skipped at all
         return _any_until_func
 
     def _any(self, next, funcs):
@@ -111,14 +109,10 @@ class sender:
         return
 
     def _match_state(self, ix):
-        new_state = self._stateses[ix]
-        for depth, ev in enumerate(self._evstacks[ix]):
-            new_state = new_state(ev)
-            if new_state == MATCHED_STATE:
-                return True
-            elif new_state is None:
-                return False
-        return False
+        states = alternatives(self._stateses[ix])
+        for ev in self._evstacks[ix]:
+            states = [ns for s in states if s is not MATCHED_STATE for ns in alternatives(s(ev))]
+        return any(is_match(s) for s in states)
 
     def _handler(self):
         while True:
-- 
2.43.0


From 887b9e1e7c67d27af9294d031b4fdf6ccd791274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:36 +0000
Subject: [PATCH 26/80] fix: each parse of an XML tree builder starts afresh

---
 pylib/uxml/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index afcbd2c..102dc80 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -117,6 +117,9 @@ class treebuilder(tree.treebuilder):
     root
     '''
     def parse(self, source):
+        #reset
+        self._root = None
+        self._parent = None
         self.handler = expat_callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
-- 
2.43.0


From 36e06f970819246bdaf2070f02345893d7f16cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:37 +0000
Subject: [PATCH 27/80] fix: truncated XML is an error, not a partial result

---
 pylib/uxml/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 102dc80..517278a 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -102,7 +102,7 @@ def parse(source, handler):
     p.CharacterDataHandler = h.char_data
     p.StartNamespaceDeclHandler = h.start_namespace
     p.EndNamespaceDeclHandler = h.end_namespace
-    p.Parse(source)
+    p.Parse(source, True)
     return p
 
 
@@ -128,6 +128,6 @@ class treebuilder(tree.treebuilder):
         self.expat_parser.CharacterDataHandler = self.handler.char_data
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
-        self.expat_parser.Parse(source)
+        self.expat_parser.Parse(source, True)
         return self._root
 
-- 
2.43.0


From 8381923c1ddc9c4be32c83971f5205a6550a6b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:38 +0000
Subject: [PATCH 28/80] fix: end events of elements in namespaces whose names
 contain spaces have the local name

---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 517278a..351e1c9 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -33,7 +33,7 @@ class expat_callbacks(object):
 
     def end_element(self, name):
         #print('End element:', name)
-        local = name.split()[1] if ' ' in name else name
+        local = name.split()[-1]
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
-- 
2.43.0


From f6d222564fd1ba2b892831d8e366e4adb88914c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:39 +0000
Subject: [PATCH 29/80] fix: namespace-tracking XML callbacks can be
 constructed and cope with names in no namespace

---
 pylib/uxml/xml.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 351e1c9..38a220c 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -50,7 +50,7 @@ class expat_callbacks(object):
 
 class ns_expat_callbacks(expat_callbacks):
     def __init__(self, handler, asyncio_based_handler=True, stream=False):
-        expat_callbacks.__init__(self, handler, asyncio_based_handler=asyncio_based_handler)
+        expat_callbacks.__init__(self, handler, prime_handler=asyncio_based_handler)
         #Namespace mappings encountered through the document, updated dynamically as the document is traversed
         self.prefixes = {}
         self.prefixes_rev = {}
@@ -69,15 +69,15 @@ class ns_expat_callbacks(expat_callbacks):
         self.prefixes_rev[ns] = prefix
 
     def end_namespace(self, prefix):
-        if self._stream: del self.prefixes[prefix]
+        if self._stream: self.prefixes.pop(prefix, None)
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-        ns, local = name.split() if ' ' in name else (None, name)
+        ns, local = name.rsplit(' ', 1) if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
-            self.ns_portfolio[local] = (ns, self.prefixes_rev[ns])
+            self.ns_portfolio[local] = (ns, self.prefixes_rev.get(ns, ''))
         for aname, aval in attrs.items():
-            ans, alocal = aname.split() if ' ' in aname else (None, aname)
+            ans, alocal = aname.rsplit(' ', 1) if ' ' in aname else (None, aname)
             self.ns_portfolio['@' + alocal] = (ans, self.prefixes_rev.get(ans, ''))
         expat_callbacks.start_element(self, name, attrs)
 
-- 
2.43.0


From 0c3dc6fa52ba03a421386ff176bf1f269dbce347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:34 +0000
Subject: [PATCH 30/80] fix: parse_lax_xml reports input without content with
 ValueError, as intended

---
 pylib/uxml/html5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index fbd0d9e..9aa408d 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -352,14 +352,14 @@ def parse_lax_xml(source, prefixes=None, model=None, encoding=None):
     '''
     false_top = parse(source, prefixes=prefixes, model=model, encoding=encoding,
                         use_xhtml_ns=False)
-    top = false_top.xml_children[1].xml_children[0]
-    # Detach the bit we want from the wrapper
-    false_top.xml_children[1].xml_remove(top)
-    del false_top  # Ensure cleanup
     try:
-        return top
+        top = false_top.xml_children[1].xml_children[0]
     except IndexError:
         raise ValueError('Unable to process input even as tag soup XML')
+    # Detach the bit we want from the wrapper
+    false_top.xml_children[1].xml_remove(top)
+    del false_top  # Ensure cleanup
+    return top
 
 
 def markup_fragment(source, encoding=None):
-- 
2.43.0


From 8293f0306fd6b7c613102cee6d37d88ebf8eee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:01 +0000
Subject: [PATCH 31/80] fix: an XPath context item which is false, such as 0 or
 an empty string, is not replaced by the outer one

---
 pylib/uxml/uxpath/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 781dd43..f4ba84e 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -89,13 +89,13 @@ class context(object):
         self.lookuptables = lookuptables or {}
 
     def copy(self, item=None, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None):
-        item = item if item else self.item
-        pos = pos if pos else self.pos
-        variables = variables if variables else self.variables
-        functions = functions if functions else self.functions
-        lookuptables = lookuptables if lookuptables else self.lookuptables
-        extras = extras if extras else self.extras
-        parent = parent if parent else self.parent
+        item = item if item is not None else self.item
+        pos = pos if pos is not None else self.pos
+        variables = variables if variables is not None else self.variables
+        functions = functions if functions is not None else self.functions
+        lookuptables = lookuptables if lookuptables is not None else self.lookuptables
+        extras = extras if extras is not None else self.extras
+        parent = parent if parent is not None else self.parent
         return context(item, pos=pos, variables=variables, functions=functions, lookuptables=lookuptables, extras=extras, parent=parent, force_root=False)
 
 
-- 
2.43.0


From e68db39967cd4e87dc7259309ca554746fa0c5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:02 +0000
Subject: [PATCH 32/80] fix: qquery accepts a parsed expression, as documented

---
 pylib/uxml/uxpath/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index f4ba84e..47014c8 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -129,9 +129,11 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
         # Force UTF-8
         root = tb.parse(xml_thing.decode('utf-8'))
         force_root = True
-    if not root: return
+    if root is None: return
     if isinstance(xpath_thing, str):
         parsed_expr = parse(xpath_thing)
+    else:
+        parsed_expr = xpath_thing
     ctx = context(root, variables=vars, functions=funcs, force_root=force_root)
     result = parsed_expr.compute(ctx)
     yield from result
-- 
2.43.0


From af10053713282aff042d5b021eb18606c3fbd485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:03 +0000
Subject: [PATCH 33/80] fix: the XPath root node is that of the tree as it is
 now, for any kind of node, and has a string value

---
 pylib/uxml/uxpath/xast.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d76d65a..9ae8f7e 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -25,6 +25,7 @@ __all__ = [
 
 
 import operator
+import weakref
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
@@ -36,30 +37,31 @@ class root_node(node):
     The core uxml object model does not have a root node, but
     we need something to conform as closely as we can to XPath
     '''
-    _cache = {}
-
     def __init__(self, docelem):
+        node.__init__(self)
         self.xml_name = ''
-        self.xml_value = ''
         self.xml_children = [docelem]
-        node.__init__(self)
 
     def __repr__(self):
         return u'{uxpath.rootnode}'
 
+    @property
+    def xml_value(self):
+        return ''.join(strval(child) for child in self.xml_children)
+
     @staticmethod
-    #@functools.lru_cache()
-    def get(elem):
-        if elem in root_node._cache: return root_node._cache[elem]
-        if isinstance(elem, root_node): return elem
-        assert isinstance(elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
-        curr_elem = elem
-        parent = curr_elem.xml_parent
-        while parent:
-            curr_elem = parent
-            parent = curr_elem.xml_parent
-            if parent in root_node._cache: return root_node._cache[parent]
-        return root_node._cache.setdefault(elem, root_node(curr_elem))
+    def get(item):
+        if isinstance(item, root_node): return item
+        assert isinstance(item, node), 'Cannot get root node from object {} of type {}'.format(item, type(item))
+        top = item
+        while top.xml_parent is not None:
+            top = top.xml_parent
+        # Remembered on the top node itself (weakly, to avoid a cycle), so that it's right even after the tree is changed
+        root = top._xpath_root() if hasattr(top, '_xpath_root') else None
+        if root is None:
+            root = root_node(top)
+            top._xpath_root = weakref.ref(root)
+        return root
 
 
 class attribute_node(node):
-- 
2.43.0


From e14abcf70e1568eb2efcd3dd3f12a48d829b5ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:04 +0000
Subject: [PATCH 34/80] fix: XPath attribute nodes keep their name and have no
 children

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 9ae8f7e..b35b20b 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -66,9 +66,10 @@ class root_node(node):
 
 class attribute_node(node):
     def __init__(self, name, value, parent):
+        node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
-        node.__init__(self, parent)
+        self.xml_children = []
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
-- 
2.43.0


From 69e5f382b977703ae21af66e9b075a1cf4433130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:05 +0000
Subject: [PATCH 35/80] fix: XPath name test * matches elements only

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index b35b20b..07c6e8e 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -585,7 +585,8 @@ class name_test:
     def compute(self, ctx):
         # print('NAMETEST', (self.name, ctx.item))
         if self.name == '*':
-            yield ctx.item
+            if isinstance(ctx.item, element):
+                yield ctx.item
         else:
             # yield from (n for n in nodeseq if n.xml_name == self.name)
             if isinstance(ctx.item, element) and ctx.item.xml_name == self.name:
-- 
2.43.0


From 45568dac8f73f720b6225d0ad06b05586d8e9c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:06 +0000
Subject: [PATCH 36/80] fix: node() and text() on the XPath attribute axis are
 node type tests, not attribute names

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 07c6e8e..6ef1be0 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -428,7 +428,7 @@ class step:
         elif self.axis == 'attribute':
             if isinstance(ctx.item, element):
                 for k, v in ctx.item.xml_attributes.items():
-                    if self.node_test.name in ('*', k):
+                    if self.node_test.name in ('*', k) if isinstance(self.node_test, name_test) else self.node_test.name == 'node':
                         yield attribute_node(k, v, ctx.item)
         elif self.axis == 'ancestor':
             parent = ctx.item.xml_parent
-- 
2.43.0


From e3394705247dd7f798d98c87335d88fdac84cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:07 +0000
Subject: [PATCH 37/80] fix: XPath parent axis applies the node test to the
 root node, which itself has no parent

---
 pylib/uxml/uxpath/xast.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 6ef1be0..aa76638 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -81,6 +81,15 @@ class attribute_node(node):
         raise NotImplementedError
 
 
+def xpath_parent(item):
+    '''
+    Parent in terms of XPath, where the parent of the document element is the root node
+    '''
+    if isinstance(item, root_node): return None
+    parent = item.xml_parent
+    return root_node.get(item) if parent is None else parent
+
+
 def index_docorder(node):
     #Always start at the root
     while node.xml_parent:
@@ -475,11 +484,10 @@ class step:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'parent':
-            if ctx.item.xml_parent:
-                new_ctx = ctx.copy(item=ctx.item.xml_parent)
+            parent = xpath_parent(ctx.item)
+            if parent is not None:
+                new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            else:
-                yield root_node.get(ctx.item)
         elif self.axis == 'preceding':
             if not ctx.item.xml_parent: return
             start = ctx.item.xml_parent.xml_children.index(ctx.item)
@@ -645,10 +653,9 @@ class abbreviated_step:
         elif self.abbr == '..':
             # parent axis
             # assert isinstance(ctx.item, node)
-            if ctx.item.xml_parent:
-                yield ctx.item.xml_parent
-            else:
-                yield root_node.get(ctx.item)
+            parent = xpath_parent(ctx.item)
+            if parent is not None:
+                yield parent
 
     def __call__(self, ctx):
         '''
-- 
2.43.0


From a822535007ae949ebd30d4df597ea8fb9b0ce78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:08 +0000
Subject: [PATCH 38/80] fix: XPath ancestor axis applies the node test to the
 root node

---
 pylib/uxml/uxpath/xast.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index aa76638..b03974b 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -440,12 +440,11 @@ class step:
                     if self.node_test.name in ('*', k) if isinstance(self.node_test, name_test) else self.node_test.name == 'node':
                         yield attribute_node(k, v, ctx.item)
         elif self.axis == 'ancestor':
-            parent = ctx.item.xml_parent
-            while parent:
+            parent = xpath_parent(ctx.item)
+            while parent is not None:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-                parent = parent.xml_parent
-            yield root_node.get(ctx.item)
+                parent = xpath_parent(parent)
         elif self.axis == 'ancestor-or-self':
             yield from self.node_test.compute(ctx)
             parent = ctx.item.xml_parent
-- 
2.43.0


From adf66d7cf1d211f25475663e0de95822ebb164fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:09 +0000
Subject: [PATCH 39/80] fix: XPath ancestor-or-self axis goes up the tree
 instead of looping forever

---
 pylib/uxml/uxpath/xast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index b03974b..f384337 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -447,11 +447,11 @@ class step:
                 parent = xpath_parent(parent)
         elif self.axis == 'ancestor-or-self':
             yield from self.node_test.compute(ctx)
-            parent = ctx.item.xml_parent
-            while parent:
+            parent = xpath_parent(ctx.item)
+            while parent is not None:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
-            yield root_node.get(parent)
+                parent = xpath_parent(parent)
         elif self.axis == 'descendant':
             to_process = list(ctx.item.xml_children)
             while to_process:
-- 
2.43.0


From 8b203f5b4826768636e98d670a15d2e2bc59d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:10 +0000
Subject: [PATCH 40/80] fix: XPath sibling axes start from the very context
 node, and are empty for attributes

---
 pylib/uxml/uxpath/xast.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index f384337..5e1b593 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -90,6 +90,16 @@ def xpath_parent(item):
     return root_node.get(item) if parent is None else parent
 
 
+def siblings_of(item):
+    '''
+    List of siblings before an item, and list of those after, compared by identity since text nodes with the same content are equal
+    '''
+    if item.xml_parent is None or isinstance(item, attribute_node): return [], []
+    siblings = item.xml_parent.xml_children
+    index = next(i for i, sibling in enumerate(siblings) if sibling is item)
+    return siblings[:index], siblings[index+1:]
+
+
 def index_docorder(node):
     #Always start at the root
     while node.xml_parent:
@@ -477,9 +487,7 @@ class step:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following-sibling':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            for ff in list(ctx.item.xml_parent.xml_children)[start:]:
+            for ff in siblings_of(ctx.item)[1]:
                 new_ctx = ctx.copy(item=ff)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'parent':
@@ -498,10 +506,7 @@ class step:
                 new_ctx = ctx.copy(item=prev)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding-sibling':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[:start]
+            to_process = siblings_of(ctx.item)[0]
             to_process.reverse()
             for prev in to_process:
                 new_ctx = ctx.copy(item=prev)
-- 
2.43.0


From 80785877123e92b2313e80c2fa83d0f05de2c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:11 +0000
Subject: [PATCH 41/80] fix: XPath following axis includes what follows the
 ancestors

---
 pylib/uxml/uxpath/xast.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 5e1b593..e896327 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -478,9 +478,12 @@ class step:
                 new_ctx = ctx.copy(item=child)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'following':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            to_process = list(ctx.item.xml_parent.xml_children)[start:]
+            # Attributes come before the children of their element
+            to_process = list(ctx.item.xml_parent.xml_children) if isinstance(ctx.item, attribute_node) else []
+            curr = ctx.item
+            while curr is not None:
+                to_process.extend(siblings_of(curr)[1])
+                curr = curr.xml_parent
             while to_process:
                 ff = to_process[0]
                 to_process = list(ff.xml_children) + to_process[1:]
-- 
2.43.0


From 0c6ae2fc567bb7e83c55494302cc2c5bf6bc123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:12 +0000
Subject: [PATCH 42/80] fix: XPath preceding axis

---
 pylib/uxml/uxpath/xast.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index e896327..58b03ef 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -499,15 +499,19 @@ class step:
                 new_ctx = ctx.copy(item=parent)
                 yield from self.node_test.compute(new_ctx)
         elif self.axis == 'preceding':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[start:].reverse()
-            while to_process:
-                prev = to_process[0]
-                to_process = to_process[1:] + list(prev.xml_children).reverse()
-                new_ctx = ctx.copy(item=prev)
-                yield from self.node_test.compute(new_ctx)
+            curr = ctx.item
+            while curr is not None:
+                # In reverse document order, so an element comes after its descendants
+                to_process = [(sibling, False) for sibling in siblings_of(curr)[0]]
+                while to_process:
+                    prev, children_done = to_process.pop()
+                    if not children_done:
+                        to_process.append((prev, True))
+                        to_process.extend((child, False) for child in prev.xml_children)
+                    else:
+                        new_ctx = ctx.copy(item=prev)
+                        yield from self.node_test.compute(new_ctx)
+                curr = curr.xml_parent
         elif self.axis == 'preceding-sibling':
             to_process = siblings_of(ctx.item)[0]
             to_process.reverse()
-- 
2.43.0


From 9b07051ba8e8b48dd61609bdc959beb1c6c5b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:13 +0000
Subject: [PATCH 43/80] fix: // between XPath steps stands for
 descendant-or-self::node(), whatever the axis of the next step

---
 pylib/uxml/uxpath/xast.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 58b03ef..8322c08 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -284,13 +284,13 @@ class binary_expression:
                 yield from self.right.compute(new_ctx)
         elif self.op == '//':
             # left & right are steps
-            # Rewrite the axis to expand the abbreviation
-            # Really only needed the first time.
-            self.right.axis = 'descendant-or-self'
+            # Expand the abbreviation
+            any_depth = step('descendant-or-self', node_type_test('node'))
             selected = self.left.compute(ctx)
             for item in selected:
-                new_ctx = ctx.copy(item=item)
-                yield from self.right.compute(new_ctx)
+                for inner_item in any_depth.compute(ctx.copy(item=item)):
+                    new_ctx = ctx.copy(item=inner_item)
+                    yield from self.right.compute(new_ctx)
         elif self.op == '|':
             # Union expressions require an indexing by doc order
             if not hasattr(ctx.item, '_docorder'):
-- 
2.43.0


From d7f3e57f124cc3e0352e69d18ed30dfba29b6d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:14 +0000
Subject: [PATCH 44/80] fix: only a child step is taken as selecting the XPath
 root node itself

---
 pylib/uxml/uxpath/xast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 8322c08..3db7dc5 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -407,6 +407,7 @@ class absolute_path:
 
 def _step_is_just_node(r):
     return isinstance(r, step) \
+        and r.axis == 'child' \
         and isinstance(r.node_test, node_type_test) \
         and r.node_test.name == 'node'
 
-- 
2.43.0


From 83946e789fb26f7c1eddcce5004b81eab2027366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:28 +0000
Subject: [PATCH 45/80] fix: XPath union yields each node once, in the document
 order of the tree as it is now

---
 pylib/uxml/uxpath/functions.py |  2 +-
 pylib/uxml/uxpath/xast.py      | 48 ++++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 31f60e4..9af3aff 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -11,7 +11,7 @@ __all__ = [
 #import operator
 from functools import wraps
 from amara3.uxml.tree import node, element, strval
-from amara3.uxml.uxpath.xast import root_node, attribute_node, index_docorder, to_string, to_number, to_boolean
+from amara3.uxml.uxpath.xast import root_node, attribute_node, to_string, to_number, to_boolean
 
 def boolean_arg(ctx, obj):
     '''
diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 3db7dc5..dc67133 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,12 +24,10 @@ __all__ = [
     ]
 
 
-import operator
 import weakref
 # import functools
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
-from amara3.uxml.treeutil import descendants
 
 
 class root_node(node):
@@ -100,15 +98,23 @@ def siblings_of(item):
     return siblings[:index], siblings[index+1:]
 
 
-def index_docorder(node):
-    #Always start at the root
-    while node.xml_parent:
-        node = node.xml_parent
-    index = 0
-    node._docorder = index
-    for node in descendants(node):
-        index += 1
-        node._docorder = index
+def docorder_key(item):
+    '''
+    Top node of the tree an item belongs to, and the item's place in the document order of that tree, as a sort key
+    Computed afresh because the tree may have been changed since the last time
+    '''
+    if isinstance(item, root_node): return item.xml_children[0], ()
+    key = []
+    if isinstance(item, attribute_node):
+        # Attributes come before the children of their element
+        key.append((0, list(item.xml_parent.xml_attributes).index(item.xml_name)))
+        item = item.xml_parent
+    while item.xml_parent is not None:
+        key.append((1, len(siblings_of(item)[0])))
+        item = item.xml_parent
+    key.append((1, 0))
+    key.reverse()
+    return item, tuple(key)
 
 
 # Casts
@@ -292,14 +298,18 @@ class binary_expression:
                     new_ctx = ctx.copy(item=inner_item)
                     yield from self.right.compute(new_ctx)
         elif self.op == '|':
-            # Union expressions require an indexing by doc order
-            if not hasattr(ctx.item, '_docorder'):
-                index_docorder(ctx.item)
-            # XXX Might be more efficient to maintain a list in doc order as left & right are added
-            selected = list(self.left.compute(ctx))
-            selected.extend(list(self.right.compute(ctx)))
-            selected.sort(key=operator.attrgetter('_docorder'))
-            yield from selected
+            # Each node once, in document order
+            tops = []
+            selected = {}
+            for side in (self.left, self.right):
+                for item in side.compute(ctx):
+                    top, key = docorder_key(item)
+                    # Nodes from different trees are kept apart, in order of first appearance
+                    tree_num = next((i for i, t in enumerate(tops) if t is top), len(tops))
+                    if tree_num == len(tops): tops.append(top)
+                    selected.setdefault((tree_num, key), item)
+            for key in sorted(selected):
+                yield selected[key]
 
         # FIXME: A lot of work to do on comparisons
         elif self.op == '=':
-- 
2.43.0


From 6eb9459e1d4bb2413354f03f2f28bc4571be99f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:29 +0000
Subject: [PATCH 46/80] fix: conversion of booleans and floating point numbers
 to string follows XPath

---
 pylib/uxml/uxpath/xast.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index dc67133..22fd238 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -24,9 +24,12 @@ __all__ = [
     ]
 
 
+import math
+import re
 import weakref
 # import functools
 from collections.abc import Iterable
+from decimal import Decimal
 from amara3.uxml.tree import node, element, strval
 
 
@@ -117,6 +120,22 @@ def docorder_key(item):
     return item, tuple(key)
 
 
+def number_to_string(num):
+    if isinstance(num, float):
+        if math.isnan(num): return 'NaN'
+        if math.isinf(num): return 'Infinity' if num > 0 else '-Infinity'
+        # No exponents in XPath
+        return format(Decimal(repr(num)), 'f') if num % 1 else str(int(num))
+    return str(num)
+
+
+XPATH_NUMBER = re.compile(r'[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*')
+
+def string_to_number(text):
+    match = XPATH_NUMBER.fullmatch(text)
+    return float(match.group(1)) if match else math.nan
+
+
 # Casts
 def to_string(obj):
     '''
@@ -134,10 +153,11 @@ def to_string(obj):
         yield val
     elif isinstance(val, node):
         yield strval(val)
-    elif isinstance(val, int) or isinstance(val, float):
-        yield str(val)
+    # bools are ints in Python
     elif isinstance(val, bool):
         yield 'true' if val else 'false'
+    elif isinstance(val, int) or isinstance(val, float):
+        yield number_to_string(val)
     else:
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
-- 
2.43.0


From ad7f420b6509ccdf3db838b9e8556ac82bba524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:30 +0000
Subject: [PATCH 47/80] fix: conversion to number follows XPath, and number()
 operates on the context item by default

---
 pylib/uxml/uxpath/functions.py |  8 +++++---
 pylib/uxml/uxpath/xast.py      | 10 ++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 9af3aff..9dbfbae 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -271,11 +271,13 @@ def number(ctx, seq=None):
     * If boolean true yield 1; if boolean false yield 0
     * If a node convert to string as if by a call to string(); yield the same value as if passed that string argument to number()
     '''
-    if hasattr(seq, 'compute'):
-        obj = next(seq.compute(ctx), '')
+    if seq is None:
+        obj = ctx.item
+    elif hasattr(seq, 'compute'):
+        obj = next(seq.compute(ctx), None)
     else:
         obj = seq
-    yield next(to_number(obj), '')
+    yield float(next(to_number(obj)))
 
 
 @microxpath_function('for-each')
diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 22fd238..8dd2760 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -173,12 +173,14 @@ def to_number(obj):
     else:
         val = obj
     if val is None:
-        # FIXME: Should be NaN, not 0
-        yield 0
+        yield math.nan
     elif isinstance(val, str):
-        yield float(val)
+        yield string_to_number(val)
     elif isinstance(val, node):
-        yield float(strval(val))
+        yield string_to_number(strval(val))
+    # bools are ints in Python
+    elif isinstance(val, bool):
+        yield 1 if val else 0
     elif isinstance(val, int) or isinstance(val, float):
         yield val
     else:
-- 
2.43.0


From b49ed02dc55158ca2b54165b6555f212d4f1b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:31 +0000
Subject: [PATCH 48/80] fix: NaN is false in XPath

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 8dd2760..20ecaec 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -207,7 +207,7 @@ def to_boolean(obj):
     elif isinstance(val, node):
         yield True
     elif isinstance(val, float) or isinstance(val, int):
-        yield bool(val)
+        yield bool(val) and val == val # NaN is false
     else:
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
-- 
2.43.0


From 2e0d78e4e5c9bc6e9907464354a583999f444e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:32 +0000
Subject: [PATCH 49/80] fix: XPath unary minus no longer crashes

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 20ecaec..12c8242 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -262,7 +262,7 @@ class unary_expression:
 
     def compute(self, ctx):
         # self.op is always '-'
-        yield -(to_number(next(self.right.compute(ctx), None)))
+        yield -next(to_number(next(self.right.compute(ctx), None)))
 
 
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
-- 
2.43.0


From 8d6d0ebe0769bc8414a1f165cec035368b8ada6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:33 +0000
Subject: [PATCH 50/80] fix: XPath comparisons consider every pair of items,
 and convert operands as in XPath

---
 pylib/uxml/uxpath/xast.py | 65 +++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 12c8242..78baeac 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -25,6 +25,7 @@ __all__ = [
 
 
 import math
+import operator
 import re
 import weakref
 # import functools
@@ -265,6 +266,31 @@ class unary_expression:
         yield -next(to_number(next(self.right.compute(ctx), None)))
 
 
+COMPARISONS = {
+    '=': operator.eq,
+    '!=': operator.ne,
+    '<': operator.lt,
+    '<=': operator.le,
+    '>': operator.gt,
+    '>=': operator.ge,
+}
+
+
+def compare(lhs, op, rhs):
+    '''
+    XPath comparison of two items
+    '''
+    if op not in ('=', '!='):
+        cast = to_number
+    elif isinstance(lhs, bool) or isinstance(rhs, bool):
+        cast = to_boolean
+    elif isinstance(lhs, (int, float)) or isinstance(rhs, (int, float)):
+        cast = to_number
+    else:
+        cast = to_string
+    return COMPARISONS[op](next(cast(lhs)), next(cast(rhs)))
+
+
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
 
 
@@ -333,40 +359,11 @@ class binary_expression:
             for key in sorted(selected):
                 yield selected[key]
 
-        # FIXME: A lot of work to do on comparisons
-        elif self.op == '=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            # print(ctx.item, list(self.left.compute(ctx)), list(self.right.compute(ctx)))
-            # If LHS is a node sequence, check comparison on each item
-            for i in lhs:
-                for j in rhs:
-                    i = i.xml_value if isinstance(i, node) else i
-                    j = i.xml_value if isinstance(j, node) else j
-                    if i == j:
-                        yield True
-                        return
-            yield False
-        elif self.op == '!=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) != next(rhs)
-        elif self.op == '>':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) > next(rhs)
-        elif self.op == '<':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) < next(rhs)
-        elif self.op == '>=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) >= next(rhs)
-        elif self.op == '<=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) <= next(rhs)
+        elif self.op in COMPARISONS:
+            # True if any pair of items, one from each side, compares true
+            lhs = list(self.left.compute(ctx))
+            rhs = list(self.right.compute(ctx))
+            yield any(compare(i, self.op, j) for i in lhs for j in rhs)
         elif self.op == 'or':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-- 
2.43.0


From 450d3655da82cc6706198918101391b351676ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:34 +0000
Subject: [PATCH 51/80] fix: XPath and & or convert their operands to boolean,
 including empty ones

---
 pylib/uxml/uxpath/xast.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 78baeac..e272c54 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -365,17 +365,9 @@ class binary_expression:
             rhs = list(self.right.compute(ctx))
             yield any(compare(i, self.op, j) for i in lhs for j in rhs)
         elif self.op == 'or':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) or next(rhs)
+            yield any(next(to_boolean(next(side.compute(ctx), None))) for side in (self.left, self.right))
         elif self.op == 'and':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            # lhs_val = next(lhs, None)
-            # rhs_val = next(rhs, None)
-            # print((self.left, lhs_val, self.right, rhs_val))
-            # yield lhs_val and rhs_val
-            yield next(lhs) and next(rhs)
+            yield all(next(to_boolean(next(side.compute(ctx), None))) for side in (self.left, self.right))
         else:
             raise NotImplementedError('Oops! Operator "{}" not yet implemented'.format(self.op))
         return
-- 
2.43.0


From 761e8463f7043f8eed5ab58f5747bd327c543d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 52/80] fix: and binds tighter than or in XPath

---
 pylib/uxml/uxpath/lexrules.py   |  4 ++--
 pylib/uxml/uxpath/parserules.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 199a655..bf539c0 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -10,8 +10,8 @@ from ply.lex import TOKEN
 
 # Note: element names can coincide with XPath operators (notably div)
 OPERATOR_NAMES = {
-    'or': 'LOGICAL_OP',
-    'and': 'LOGICAL_OP',
+    'or': 'OR_OP',
+    'and': 'AND_OP',
     'div': 'DIVMOD_OP',
     'mod': 'DIVMOD_OP',
 }
diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 0415d58..67bb751 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,7 +9,8 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
-    ('left', 'LOGICAL_OP'),
+    ('left', 'OR_OP'),
+    ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
     ('left', 'REL_OP'),
     ('left', 'PLUS_OP', 'MINUS_OP'),
@@ -24,7 +25,8 @@ precedence = (
 
 def p_expr_boolean(p):
     """
-    Expr : Expr LOGICAL_OP Expr
+    Expr : Expr OR_OP Expr
+         | Expr AND_OP Expr
          | Expr EQUAL_OP Expr
          | Expr REL_OP Expr
          | Expr PLUS_OP Expr
@@ -217,7 +219,8 @@ def p_name_test_star(p):
 def p_name_test_name(p):
     """
     NameTest : NAME
-             | LOGICAL_OP
+             | OR_OP
+             | AND_OP
              | DIVMOD_OP
     """
     p[0] = xast.name_test(p[1])
@@ -262,7 +265,8 @@ def p_predicate(p):
 def p_variable_reference(p):
     """
     VariableReference : DOLLAR NAME
-                      | DOLLAR LOGICAL_OP
+                      | DOLLAR OR_OP
+                      | DOLLAR AND_OP
                       | DOLLAR DIVMOD_OP
     """
     p[0] = xast.variable_reference(p[2])
@@ -285,7 +289,8 @@ def p_number(p):
 def p_function_call(p):
     """
     FunctionCall : NAME FormalArguments
-                 | LOGICAL_OP FormalArguments
+                 | OR_OP FormalArguments
+                 | AND_OP FormalArguments
                  | DIVMOD_OP FormalArguments
     """
     # Hacking around the ambiguity between node type test & function call
-- 
2.43.0


From 5b43fbbe3efcdba0e666bef5b42f784a68d665c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:35 +0000
Subject: [PATCH 53/80] fix: XPath names may contain any of U+00C0 to U+00D6

---
 pylib/uxml/uxpath/lexrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index bf539c0..8c23f20 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -65,7 +65,7 @@ t_STAR_OP = r'\*'
 
 t_ignore = ' \t\r\n'
 
-NameStartChar = r'(' + r'[A-Z]|_|[a-z]|\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
+NameStartChar = r'(' + r'[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
     r'[\u0370-\u037d]|[\u037f-\u1fff]|[\u200c-\u200d]|[\u2070-\u218f]|' + \
     r'[\u2c00-\u2fef]|[\u3001-\uD7FF]|[\uF900-\uFDCF]|[\uFDF0-\uFFFD]' + \
     r'|[\U00010000-\U000EFFFF]' + r')'
-- 
2.43.0


From d9233d301633cb6708489f88d2ebda40fd417bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:36 +0000
Subject: [PATCH 54/80] fix: each XPath predicate counts positions among the
 items left by the previous one, and matches whole numbers only

---
 pylib/uxml/uxpath/xast.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index e272c54..3d0740b 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -579,24 +579,28 @@ class predicated_expression:
 
     def compute(self, ctx):
         # print('predicated_expression', (self.lhs, self.predicates))
-        for pos, item in enumerate(self.lhs.compute(ctx)):
+        items = self.lhs.compute(ctx)
+        for pred in self.predicates:
+            items = self._filter(items, pred, ctx)
+        yield from items
+
+    @staticmethod
+    def _filter(items, pred, ctx):
+        '''
+        Items for which a single predicate is true. Positions are among the items which passed the previous predicate
+        '''
+        for pos, item in enumerate(items):
             # XPath is 1-indexed
             new_ctx = ctx.copy(item=item, pos=pos+1)
-            for pred in self.predicates:
-                if hasattr(pred, 'compute'):
-                    predval = next(pred.compute(new_ctx), False)
-                else:
-                    predval = pred
-                # bools are ints in Python
-                if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
-                    if pos + 1 != int(predval):
-                        break
-                else:
-                    if not next(to_boolean(predval)):
-                    # if not next(to_boolean(predval, scalar=True)):
-                        break
+            if hasattr(pred, 'compute'):
+                predval = next(pred.compute(new_ctx), False)
             else:
-                # All predicates true
+                predval = pred
+            # bools are ints in Python
+            if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
+                if pos + 1 == predval:
+                    yield item
+            elif next(to_boolean(predval)):
                 yield item
 
 
-- 
2.43.0


From b17fd5d0124564322565c95d9785c53c0d161d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:37 +0000
Subject: [PATCH 55/80] fix: an empty sequence as a string function argument is
 the empty string

---
 pylib/uxml/uxpath/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 9dbfbae..57b21c3 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -27,7 +27,7 @@ def number_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_number(obj)
 
 
@@ -36,7 +36,7 @@ def string_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_string(obj)
 
 
-- 
2.43.0


From d179c1f42454eba7846b8c372875c269ec788442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:38 +0000
Subject: [PATCH 56/80] fix: XPath substring-before yields nothing if there is
 no match, and empty separators are allowed

---
 pylib/uxml/uxpath/functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 57b21c3..bb764b4 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -154,7 +154,8 @@ def substring_before(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[0]
+    pos = full.find(part)
+    yield full[:pos] if pos >= 0 else ''
 
 
 @microxpath_function('substring-after')
@@ -164,7 +165,8 @@ def substring_after(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[-1]
+    pos = full.find(part)
+    yield full[pos+len(part):] if pos >= 0 else ''
 
 
 @microxpath_function('substring')
-- 
2.43.0


From b20fd053693b64bcb5db57dce8ef18053f0fba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:39 +0000
Subject: [PATCH 57/80] fix: XPath substring evaluates its arguments, follows
 XPath in where it starts and ends, and the length is optional

---
 pylib/uxml/uxpath/functions.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index bb764b4..8b95600 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -9,6 +9,7 @@ __all__ = [
 
 
 #import operator
+import math
 from functools import wraps
 from amara3.uxml.tree import node, element, strval
 from amara3.uxml.uxpath.xast import root_node, attribute_node, to_string, to_number, to_boolean
@@ -112,6 +113,10 @@ def string_(ctx, seq=None):
     yield next(to_string(item), '')
 
 
+def round_half_up(num):
+    return math.floor(num + 0.5) if math.isfinite(num) else num
+
+
 def flatten(iterables):
     return (elem for it in iterables for elem in ([it] if isinstance(it, str) else it))
 
@@ -170,14 +175,14 @@ def substring_after(ctx, full, part):
 
 
 @microxpath_function('substring')
-def substring(ctx, full, start, length):
+def substring(ctx, full, start, length=None):
     '''
-    Yields one string
+    Yields one string, the characters whose 1-indexed positions are at least the rounded start, and less than that plus the rounded length
     '''
     full = next(string_arg(ctx, full), '')
-    start = int(next(to_number(start)))
-    length = int(next(to_number(length)))
-    yield full[start-1:start-1+length]
+    start = round_half_up(next(number_arg(ctx, start)))
+    end = math.inf if length is None else start + round_half_up(next(number_arg(ctx, length)))
+    yield ''.join(c for pos, c in enumerate(full, 1) if start <= pos < end)
 
 
 @microxpath_function('string-length')
-- 
2.43.0


From 6e73befc2f463efa71c690301d2668a0325e56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:40 +0000
Subject: [PATCH 58/80] fix: XPath string-length accepts any kind of argument,
 or none

---
 pylib/uxml/uxpath/functions.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 8b95600..82c522f 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -190,10 +190,7 @@ def string_length(ctx, s=None):
     '''
     Yields one number
     '''
-    if s is None:
-        s = ctx.node
-    elif callable(s):
-        s = next(s.compute(ctx), '')
+    s = next(to_string(ctx.item) if s is None else string_arg(ctx, s))
     yield len(s)
 
 
-- 
2.43.0


From 862cd8b4428ccb54a7710cb6834c7b94a05f91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:41 +0000
Subject: [PATCH 59/80] fix: serialized XPath expressions can be parsed back to
 the same expression

---
 pylib/uxml/uxpath/xast.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 3d0740b..bd3c3fd 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -224,7 +224,14 @@ class literal_wrapper:
         return f'{self.__class__.__name__}: {self.obj}'
 
     def _serialize(self):
-        yield str(self.obj)
+        if isinstance(self.obj, str):
+            quote = "'" if '"' in self.obj else '"'
+            yield quote + self.obj + quote
+        elif isinstance(self.obj, float):
+            text = number_to_string(self.obj)
+            yield text if '.' in text else text + '.0'
+        else:
+            yield str(self.obj)
 
     def __call__(self, ctx):
         '''
@@ -291,9 +298,6 @@ def compare(lhs, op, rhs):
     return COMPARISONS[op](next(cast(lhs)), next(cast(rhs)))
 
 
-BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
-
-
 class binary_expression:
     '''Binary XPath expression, e.g. a/b; a and b; a | b.'''
 
@@ -312,12 +316,13 @@ class binary_expression:
         for tok in _serialize(self.left):
             yield tok
 
-        if self.op in BE_KEYWORDS:
-            yield ' '
+        if self.op in ('/', '//'):
             yield self.op
-            yield ' '
         else:
+            # Space because names can contain hyphens
+            yield ' '
             yield self.op
+            yield ' '
 
         for tok in _serialize(self.right):
             yield tok
-- 
2.43.0


From f9f20fc1b310b2c8e481db16990276d0dbaa957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:35 +0000
Subject: [PATCH 60/80] fix: node() and text() by themselves are child steps

---
 pylib/uxml/uxpath/parserules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 67bb751..248dd18 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -97,7 +97,8 @@ def p_expr_paths_etc(p):
          | FunctionCall
          | VariableReference
     """
-    p[0] = p[1]
+    # A node type test by itself is an abbreviated child step, e.g. text() is child::text()
+    p[0] = xast.step('child', p[1]) if isinstance(p[1], xast.node_type_test) else p[1]
 
 def p_expr_literal(p):
     """
-- 
2.43.0


From fdc15cf4cf72ecb93fff166ce438cbb5cceddeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:52 +0000
Subject: [PATCH 61/80] fix: XPath predicates and path separators bind tighter
 than operators

---
 pylib/uxml/uxpath/parserules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 248dd18..18633b3 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,6 +9,7 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
+    ('nonassoc', 'ROOT_ONLY'),  # "/" by itself, unless a step can follow
     ('left', 'OR_OP'),
     ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
@@ -17,6 +18,7 @@ precedence = (
     ('left', 'MULT_OP', 'DIVMOD_OP'),
     ('right', 'UMINUS_OP'),
     ('left', 'UNION_OP'),
+    ('right', 'PATH_SEP', 'ABBREV_PATH_SEP', 'OPEN_BRACKET'),
 )
 
 #
@@ -113,7 +115,7 @@ def p_expr_literal(p):
 
 def p_absolute_location_path_rootonly(p):
     """
-    AbsoluteLocationPath : PATH_SEP
+    AbsoluteLocationPath : PATH_SEP %prec ROOT_ONLY
     """
     p[0] = xast.absolute_path(p[1])
 
-- 
2.43.0


From dbf125d188895a9200e1e99173ccdb88359d7f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:24 +0000
Subject: [PATCH 62/80] fix: XPath numbers are made of ASCII digits

---
 pylib/uxml/uxpath/lexrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 8c23f20..21b1da7 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -90,12 +90,12 @@ def t_LITERAL(t):
     return t
 
 def t_FLOAT(t):
-    r'\d+\.\d*|\.\d+'
+    r'[0-9]+\.[0-9]*|\.[0-9]+'
     t.value = float(t.value)
     return t
 
 def t_INTEGER(t):
-    r'\d+'
+    r'[0-9]+'
     t.value = int(t.value)
     return t
 
-- 
2.43.0


From db5db92af17591c2f80e2383340c989f55e09d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:42 +0000
Subject: [PATCH 63/80] fix: a separator after the root path is kept apart from
 it in serialized XPath

---
 pylib/uxml/uxpath/xast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index bd3c3fd..a17f3cc 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -317,6 +317,9 @@ class binary_expression:
             yield tok
 
         if self.op in ('/', '//'):
+            if isinstance(self.left, absolute_path) and not self.left.relative:
+                # Keep / and the separator after it apart
+                yield ' '
             yield self.op
         else:
             # Space because names can contain hyphens
-- 
2.43.0


From b74702cae00a39bd3ec55e7c3d8aace0202a40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 64/80] fix: XPath numbers too large for floating point are
 serialized as numbers

---
 pylib/uxml/uxpath/xast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index a17f3cc..83e7e40 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -228,6 +228,10 @@ class literal_wrapper:
             quote = "'" if '"' in self.obj else '"'
             yield quote + self.obj + quote
         elif isinstance(self.obj, float):
+            if math.isinf(self.obj):
+                # A number too large for floating point
+                yield '1' + '0' * 309 + '.0'
+                return
             text = number_to_string(self.obj)
             yield text if '.' in text else text + '.0'
         else:
-- 
2.43.0


From 0eb1ac9787ef1d67b65b9eb2cb58680ecd61d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 65/80] fix: microx --limit limits the number of results

---
 exec/microx | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/exec/microx b/exec/microx
index 3f5f1df..b92a0bc 100755
--- a/exec/microx
+++ b/exec/microx
@@ -54,11 +54,11 @@ $ microx file.xml --expr="//@id[.='2']"
 
 Get the full contents of the first two name elements, in document order.
 
-$ microx -c 2 --match=name file.xml
+$ microx -l 2 --match=name file.xml
 <name>Alex</name>
 <name>Bob</name>
 
-The -c 2 argument limits to the first two matches
+The -l 2 argument limits to the first two matches
 
 Get the name of the record with ID 2
 
@@ -146,25 +146,35 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
     if foreach:
         parsed_foreach = uxpathparse(foreach)
 
+    # Number of results so far, over all sources
+    result_count = 0
+
     def print_item(item):
         if isinstance(item, node):
             print(item.xml_encode(), file=out)
         else:
             print(item, file=out)
 
+    def print_result(item):
+        nonlocal result_count
+        if limit is not None and result_count >= limit:
+            return
+        result_count += 1
+        if foreach:
+            ctx = context(item, variables=varmap, force_root=False)
+            innerresult = parsed_foreach.compute(ctx)
+            for inneritem in innerresult:
+                print_item(inneritem)
+        else:
+            print_item(item)
+
     def process_partition(root):
         if command_name == 'expr':
             expr = command_detail
             ctx = context(root, variables=varmap)
             result = parsed_expr.compute(ctx)
             for item in result:
-                if foreach:
-                    ctx = context(item, variables=varmap, force_root=False)
-                    innerresult = parsed_foreach.compute(ctx)
-                    for inneritem in innerresult:
-                        print_item(inneritem)
-                else:
-                    print_item(item)
+                print_result(item)
 
         elif command_name == 'match':
             match = command_detail
@@ -172,13 +182,7 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
                 ctx = context(elem, variables=varmap, force_root=False)
                 result = parsed_match.compute(ctx)
                 for item in result:
-                    if foreach:
-                        ctx = context(item, variables=varmap, force_root=False)
-                        innerresult = parsed_foreach.compute(ctx)
-                        for inneritem in innerresult:
-                            print_item(inneritem)
-                    else:
-                        print_item(item)
+                    print_result(item)
 
         elif command_name == 'find_text':
             search_for = command_detail
@@ -232,7 +236,7 @@ if __name__ == '__main__':
         help='MicroXPath expression to be executed on each item in the result sequence from --expr or --match')
     parser.add_argument('--partition', metavar="MICROXPATH",
         help='Element name used to partition documents and parse only a section at a time. Useful for large files.')
-    parser.add_argument('-l', '--limit', metavar="NUMBER",
+    parser.add_argument('-l', '--limit', metavar="NUMBER", type=int,
         help='Limit the number resuts in the result sequence from --expr or --match.')
     parser.add_argument('-v', '--verbose', action='store_true',
         help='Show verbose error messages')
-- 
2.43.0


From 87d5bf9ba50b13c9b532d9774c25e597d520861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 66/80] fix: microx prints attributes as their values, as
 documented

---
 exec/microx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exec/microx b/exec/microx
index b92a0bc..def2d83 100755
--- a/exec/microx
+++ b/exec/microx
@@ -103,6 +103,7 @@ from amara3.uxml import tree
 from amara3.uxml.tree import node, text, element
 from amara3.uxml.treeutil import descendants
 from amara3.uxml.uxpath import context, parse as uxpathparse
+from amara3.uxml.uxpath.xast import attribute_node
 from amara3.uxml import tree, writer, xml, xmliter
 from amara3.uxml import html5
 
@@ -150,7 +151,9 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
     result_count = 0
 
     def print_item(item):
-        if isinstance(item, node):
+        if isinstance(item, attribute_node):
+            print(item.xml_value, file=out)
+        elif isinstance(item, node):
             print(item.xml_encode(), file=out)
         else:
             print(item, file=out)
-- 
2.43.0


From e288d49ee802f6f1804d1b8a0f9b77db281fe031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 67/80] fix: the XPath root node can be written out, so microx
 can print it

---
 pylib/uxml/uxpath/xast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 83e7e40..0fcbde0 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -51,6 +51,9 @@ class root_node(node):
     def xml_value(self):
         return ''.join(strval(child) for child in self.xml_children)
 
+    def xml_encode(self, indent=None, depth=0):
+        return ''.join(child.xml_encode(indent, depth) for child in self.xml_children)
+
     @staticmethod
     def get(item):
         if isinstance(item, root_node): return item
-- 
2.43.0


From 5eb781130e416d86911d4a93dbc0f5ee3384d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:24 +0000
Subject: [PATCH 68/80] fix: microx --find-text shows the path to the element
 with the text itself

---
 exec/microx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exec/microx b/exec/microx
index def2d83..5e67fb8 100755
--- a/exec/microx
+++ b/exec/microx
@@ -116,7 +116,7 @@ def xpath_to(node, show_attrs):
     parent = node.xml_parent
     while parent:
         step = parent.xml_name
-        for sattr in show_attrs:
+        for sattr in show_attrs or ():
             if sattr in parent.xml_attributes:
                 step += f'[@{sattr}="{parent.xml_attributes[sattr]}"]'
         ancestors.append(step)
@@ -193,7 +193,7 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
                 for node in elem.xml_children:
                     if isinstance(node, tree.text):
                         if search_for in node.xml_value:
-                            print(xpath_to(elem, show_attrs), file=out)
+                            print(xpath_to(node, show_attrs), file=out)
 
     def sink():
         while True:
-- 
2.43.0


From 2827f93405f972bfe329cd0c86f46844ef6268a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:48 +0000
Subject: [PATCH 69/80] fix: the isxml extension works on current Python, where
 PyUnicode_AS_UNICODE is gone and lengths are Py_ssize_t

---
 clib/xmlstring.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/clib/xmlstring.c b/clib/xmlstring.c
index f1bb7aa..dd1815c 100644
--- a/clib/xmlstring.c
+++ b/clib/xmlstring.c
@@ -8,9 +8,7 @@ Miscellaneous XML-specific string functions\n\
 Copyright 2016 Uche Ogbuji (USA).\n\
 ";
 
-/*
 #define PY_SSIZE_T_CLEAN
-*/
 #include <Python.h>
 
 #define XmlString_BUILDING_MODULE
@@ -48,9 +46,8 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     #http://www.xml.com/pub/a/2007/02/28/what-does-xml-smell-like.html
   */
   char *str, *encoding;
-  int len;
+  Py_ssize_t len, length, i;
   PyObject *characters, *result;
-  Py_UNICODE *p;
 
   if (!PyArg_ParseTuple(args,"y#:isxml", &str, &len))
     return NULL;
@@ -111,14 +108,14 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     result = Py_False;
   } else {
     /* Find the first non-whitespace character */
-    p = PyUnicode_AS_UNICODE(characters);
-    /* while (*p && IS_XMLSPACE(*p)) {printf("ASCII value = %d, Character = [%c]\n", *p, *p); p++;} */
-    while (IS_XMLSPACE(*p)) p++;
+    length = PyUnicode_GET_LENGTH(characters);
+    i = 0;
+    while (i < length && IS_XMLSPACE(PyUnicode_READ_CHAR(characters, i))) i++;
 
     /* The first non-whitespace character in a well-formed XML document must
      * be '<'.
      */
-    result = *p == '<' ? Py_True : Py_False;
+    result = i < length && PyUnicode_READ_CHAR(characters, i) == '<' ? Py_True : Py_False;
     Py_DECREF(characters);
   }
 
-- 
2.43.0


From e1a71a656d01f1f6fdde9d6043a9e1f9184b29e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:21 +0000
Subject: [PATCH 70/80] fix: streaming sender gives each pattern its own copy
 of the attributes

Overlapping subtrees built for different sinks shared one attribute mapping
per element, so a sink changing the subtree it received changed what the
others got.
---
 pylib/uxml/treeiter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 7fb8a2a..7764724 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -129,7 +129,8 @@ class sender:
                     elif self._match_state(ix):
                         building_depth = self._building_depths[ix] = 1
                     if building_depth:
-                        new_element = element(ev[1], ev[2], parent)
+                        #Each pattern gets its own copy of the attributes, so that a sink can change what it receives
+                        new_element = element(ev[1], dict(ev[2]), parent)
                         #if parent: parent().xml_children.append(weakref.ref(new_element))
                         #Note: not using weakrefs here because these refs are not circular
                         if parent: parent.xml_children.append(new_element)
-- 
2.43.0


From fee668bfb33ec23f1107a9cdd7d0e01ab87dab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 71/80] fix: streaming namespace tracking restores a prefix
 when an inner declaration of it ends

---
 pylib/uxml/xml.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 38a220c..3a7ebec 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -54,6 +54,8 @@ class ns_expat_callbacks(expat_callbacks):
         #Namespace mappings encountered through the document, updated dynamically as the document is traversed
         self.prefixes = {}
         self.prefixes_rev = {}
+        #(prefix, namespace) declarations in scope, innermost last
+        self._scope = []
         #If True, state of NS mappings will be maintained dynamically, as suitable to streaming mode parse operation
         #If false, best effort will be made to maintain a cumulative mapping of namespaces declared
         #For best results always use namespace normal form:
@@ -65,11 +67,27 @@ class ns_expat_callbacks(expat_callbacks):
         return
 
     def start_namespace(self, prefix, ns):
+        self._scope.append((prefix, ns))
         self.prefixes[prefix] = ns
         self.prefixes_rev[ns] = prefix
+        if self._stream: self._set_in_scope()
 
     def end_namespace(self, prefix):
-        if self._stream: self.prefixes.pop(prefix, None)
+        #Drop the innermost declaration of the prefix
+        for i in reversed(range(len(self._scope))):
+            if self._scope[i][0] == prefix:
+                del self._scope[i]
+                break
+        if self._stream: self._set_in_scope()
+
+    def _set_in_scope(self):
+        #What an ended declaration hid is in force again
+        self.prefixes.clear()
+        self.prefixes_rev.clear()
+        for prefix, ns in self._scope:
+            self.prefixes[prefix] = ns
+        for prefix, ns in self.prefixes.items():
+            self.prefixes_rev[ns] = prefix
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-- 
2.43.0


From 7620fa40f6f772160e3e554f43fb271ad247bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 72/80] fix: namespace tracking prefers a prefix to the default
 namespace, which attributes cannot use

---
 pylib/uxml/xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 3a7ebec..fdc8d89 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -69,7 +69,7 @@ class ns_expat_callbacks(expat_callbacks):
     def start_namespace(self, prefix, ns):
         self._scope.append((prefix, ns))
         self.prefixes[prefix] = ns
-        self.prefixes_rev[ns] = prefix
+        self._set_prefix(prefix, ns)
         if self._stream: self._set_in_scope()
 
     def end_namespace(self, prefix):
@@ -87,6 +87,11 @@ class ns_expat_callbacks(expat_callbacks):
         for prefix, ns in self._scope:
             self.prefixes[prefix] = ns
         for prefix, ns in self.prefixes.items():
+            self._set_prefix(prefix, ns)
+
+    def _set_prefix(self, prefix, ns):
+        #The default namespace does not apply to attributes, so a prefix is preferred
+        if prefix or ns not in self.prefixes_rev:
             self.prefixes_rev[ns] = prefix
 
     def start_element(self, name, attrs):
-- 
2.43.0


From 881f60247d8119f0e2dc83f1145650a6aed2bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:41 +0000
Subject: [PATCH 73/80] fix: namespace tracking knows the xml prefix

---
 pylib/uxml/xml.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index fdc8d89..55a61ad 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -11,6 +11,8 @@ import xml.parsers.expat
 from . import tree
 from .parser import event  # parser, parsefrags
 
+XML_NAMESPACE = 'http://www.w3.org/XML/1998/namespace'
+
 
 class expat_callbacks(object):
     def __init__(self, handler, prime_handler=True):
@@ -94,14 +96,18 @@ class ns_expat_callbacks(expat_callbacks):
         if prefix or ns not in self.prefixes_rev:
             self.prefixes_rev[ns] = prefix
 
+    def _get_prefix(self, ns):
+        #The xml prefix is never declared
+        return self.prefixes_rev.get(ns, 'xml' if ns == XML_NAMESPACE else '')
+
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
         ns, local = name.rsplit(' ', 1) if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
-            self.ns_portfolio[local] = (ns, self.prefixes_rev.get(ns, ''))
+            self.ns_portfolio[local] = (ns, self._get_prefix(ns))
         for aname, aval in attrs.items():
             ans, alocal = aname.rsplit(' ', 1) if ' ' in aname else (None, aname)
-            self.ns_portfolio['@' + alocal] = (ans, self.prefixes_rev.get(ans, ''))
+            self.ns_portfolio['@' + alocal] = (ans, self._get_prefix(ans))
         expat_callbacks.start_element(self, name, attrs)
 
 
-- 
2.43.0


From bbba730ecf694e2b61dae5c063114c691e2cb85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 74/80] fix: html5lib finds again the name and namespace of
 every element it made (SVG, MathML, names with colons, use_xhtml_ns)

---
 pylib/uxml/html5.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 9aa408d..9e16a36 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -275,28 +275,15 @@ class treebuilder(TreeBuilder):
         #We'll take care of that ourselves with the if not use_xhtml_ns... below
         TreeBuilder.__init__(self, True)
         def eclass(name, namespace):
-            xml_html5lib_name, xml_html5lib_namespace = MARKER, MARKER
-            if not use_xhtml_ns and namespace == XHTML_NAMESPACE:
-                #html5lib feints support for HTML5 elements kept in the null namespace
-                #But in reality this support is broken.  We have to in effect keep
-                #Two namespaces for each element, the real one from an amara perspective
-                #And another that is always XHTML for HTML5 elements, so html5lib doesn't break
-                xml_html5lib_namespace = namespace
-                namespace = None
+            #html5lib has to find again the name and namespace it gave. Elements of
+            #all namespaces, and names with colons, are only reduced for MicroXML
+            xml_html5lib_name, xml_html5lib_namespace = name, namespace
             #For some reason html5lib sometimes sends None as name
             if not name:
-                xml_html5lib_name = name
                 name = NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB
-            #import sys; print >> sys.stderr, (namespace, name, use_xhtml_ns)
-            #Deal with some broken HTML that uses bogus colons in tag names
-            if (u":" in name and not namespace):
-                xml_html5lib_namespace = namespace
-                namespace = BOGUS_NAMESPACE
             elem = element(qname_to_local(name))
-            if xml_html5lib_namespace != MARKER:
-                elem.xml_html5lib_namespace = xml_html5lib_namespace
-            if xml_html5lib_name != MARKER:
-                elem.xml_html5lib_name = xml_html5lib_name
+            elem.xml_html5lib_namespace = xml_html5lib_namespace
+            elem.xml_html5lib_name = xml_html5lib_name
             return elem
         self.elementClass = eclass
         self.fragmentClass = eclass
-- 
2.43.0


From 2bb86edc02803d9f724f6ad6f323b78113fc0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:31 +0000
Subject: [PATCH 75/80] fix: html5.parse and parse_lax_xml heed the encoding
 they are given

---
 pylib/uxml/html5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 9e16a36..2cd06b4 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -317,7 +317,11 @@ def parse(source, prefixes=None, model=None, encoding=None, use_xhtml_ns=False):
     parser = html5lib.HTMLParser(tree=get_tree_instance)
     # doc = parser.parse(inputsource(source, None).stream, encoding=encoding)
     # doc = parser.parse(source, encoding=encoding)
-    doc = parser.parse(source)
+    kwargs = {}
+    # Text is decoded already
+    if encoding and not isinstance(source.read(0) if hasattr(source, 'read') else source, str):
+        kwargs['override_encoding'] = encoding
+    doc = parser.parse(source, **kwargs)
     first_element = next((e for e in doc.root_nodes if isinstance(e, element)), None)
     return first_element
 
-- 
2.43.0


From 92e2f96aa3b5978e4e63ca818e2d1acb96aaec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 76/80] fix: html5iter.sender parses HTML, instead of calling a
 parser that does not exist

---
 pylib/uxml/html5iter.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/html5iter.py b/pylib/uxml/html5iter.py
index b1b9ea1..2807318 100644
--- a/pylib/uxml/html5iter.py
+++ b/pylib/uxml/html5iter.py
@@ -8,6 +8,7 @@ from . import tree
 from . import treeiter
 from .treeutil import *
 from . import html5
+from .parser import event
 
 
 class sender(treeiter.sender):
@@ -26,8 +27,16 @@ class sender(treeiter.sender):
     '''
     def parse(self, doc):
         h = self._handler()
-        p = html5.parser(h)
-        p.send((doc, False))
-        p.send(('', True))  # Wrap it up
+        next(h)  # Prime coroutine
+        # HTML can rearrange what came before, so there are no events until the whole is parsed
+        self._send_events(h, html5.parse(doc), [])
         return
 
+    def _send_events(self, h, elem, ancestors):
+        h.send((event.start_element, elem.xml_name, elem.xml_attributes, ancestors))
+        for child in elem.xml_children:
+            if isinstance(child, tree.element):
+                self._send_events(h, child, ancestors + [elem.xml_name])
+            elif child: # Comments are zero-length texts
+                h.send((event.characters, str(child)))
+        h.send((event.end_element, elem.xml_name, ancestors))
-- 
2.43.0


From 94e06ea38044804e711711e9d23ddf8d8b457a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 77/80] fix: lookup() looks up the tables given in the context,
 as documented

---
 pylib/uxml/uxpath/functions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 82c522f..a4491b3 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -311,14 +311,13 @@ def lookup_(ctx, tableid, key):
     Yields a sequence of a single value, the result of looking up a value from the tables provided in the context, or an empty sequence if lookup is unsuccessful
 
     * tableid: id of the lookup table to use
-    * expr: expression to be converted to string, then dynamically evaluated for each item on the sequence to produce the result
+    * key: key of the value in that table
     '''
     tableid = next(string_arg(ctx, tableid), '')
     key = next(string_arg(ctx, key), '')
-    #value = ctx.
-    for item in seq:
-        innerctx = ctx.copy(item=item)
-        yield from pexpr.compute(innerctx)
+    table = ctx.lookuptables.get(tableid, {})
+    if key in table:
+        yield table[key]
 
 
 @microxpath_function('sum')
-- 
2.43.0


From 0c51c79f5f4cbf10e7849e4818d39b76ae997a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 78/80] fix: html5.markup_fragment returns the body of the
 parsed markup, as documented

---
 pylib/uxml/html5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 2cd06b4..bb299bf 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -366,6 +366,6 @@ def markup_fragment(source, encoding=None):
     See also: http://wiki.xml3k.org/Amara2/Tagsoup [TODO: Page defunct - restore it]
     '''
     doc = parse(source, encoding=encoding)
-    frag = doc.html.body
+    frag = next(select_name(doc, 'body'), None)
     return frag
 
-- 
2.43.0


From 5893da4a92f5d66da9f13c8c1208ec5f1b1283fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:44 +0000
Subject: [PATCH 79/80] fix: children left out when childNodes is assigned no
 longer have a parent

---
 pylib/uxml/html5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index bb299bf..2e35ac4 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -127,7 +127,10 @@ class element(tree.element, node):
         return self.xml_children
 
     def xml_set_childNodes_(self, nodelist):
-        self.xml_children = []
+        nodelist = list(nodelist)
+        # Those left out are no longer children
+        for node in list(self.xml_children):
+            self.xml_remove(node)
         for node in nodelist:
             self.xml_append(node)
         return
-- 
2.43.0


From d7dece56dd0025850f6e15dfb5e808bb5c768006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 80/80] fix: the XML streaming sender held back the last
 subtree when the document came in small pieces

---
 pylib/uxml/xmliter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/xmliter.py b/pylib/uxml/xmliter.py
index afa434c..aff4dac 100644
--- a/pylib/uxml/xmliter.py
+++ b/pylib/uxml/xmliter.py
@@ -42,6 +42,9 @@ class sender(treeiter.sender):
         self.expat_parser.CharacterDataHandler = self.handler.char_data
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
+        # The source can come in pieces, and nothing says which is the last, so what is complete must not be held back
+        if hasattr(self.expat_parser, 'SetReparseDeferralEnabled'):
+            self.expat_parser.SetReparseDeferralEnabled(False)
         return
 
     def parse(self, source):
-- 
2.43.0

