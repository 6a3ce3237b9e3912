From e3101f6e7b54d6dbcda9abe11218546c99f77856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:48 +0000
Subject: [PATCH 01/53] fix: a dollar sign inside an expression or tag is not
 an expression itself

---
 kajiki/text.py         | 3 +++
 kajiki/xml_template.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1cbe583..2b7044d 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -78,6 +78,9 @@ class _Scanner(object):
         source = self.source
         for mo in _re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                # Inside of an expression or tag that was already consumed
+                continue
             if start > self.pos:
                 yield self.text(source[self.pos:start])
                 self.pos = start
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8615804..5f732bc 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -513,6 +513,9 @@ class _TextCompiler(object):
         source = self.source
         for mo in self._re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                # A dollar sign inside of an expression already consumed
+                continue
             if start > self.pos:
                 yield self.text(source[self.pos:start])
             self.pos = start
-- 
2.43.0


From 5a727520ac04869c03106b6ffb3787f2a75e5a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:33 +0000
Subject: [PATCH 02/53] fix: CDATA delimiters inside directives are markup, not
 translatable text

---
 kajiki/xml_template.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 5f732bc..e371c4b 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -178,6 +178,8 @@ class _Compiler(object):
         """
         if isinstance(node, dom.Comment):
             return self._compile_comment(node)
+        elif getattr(node, '_cdata', False):
+            return self._compile_cdata(node)
         elif isinstance(node, dom.Text):
             return self._compile_text(node)
         elif isinstance(node, dom.ProcessingInstruction):
@@ -383,6 +385,11 @@ class _Compiler(object):
         for x in tc:
             yield x
 
+    @annotate
+    def _compile_cdata(self, node):
+        """Keep CDATA section delimiters around as they are markup, not text."""
+        yield ir.TextNode(node.data)
+
     @annotate
     def _compile_comment(self, node):
         """Convert comments to their intermediate representation."""
-- 
2.43.0


From 6df7c5720f55140a57c8022fe3a2aaa629483a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 03/53] fix: comparison signs and ampersands in expressions
 within text

---
 kajiki/xml_template.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index e371c4b..325f659 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -255,7 +255,8 @@ class _Compiler(object):
                             continue
                         assert isinstance(child, dom.Text)
                         for x in self._compile_text(child):
-                            if child.escaped:  # If user declared CDATA no escaping happened.
+                            # If user declared CDATA no escaping happened.
+                            if child.escaped and isinstance(x, ir.TextNode):
                                 x.text = unescape(x.text)
                             yield x
                     if self.mode == 'xml':  # Finish escaping
@@ -381,7 +382,13 @@ class _Compiler(object):
             # script and style should always be untranslatable.
             kwargs['node_type'] = ir.TextNode
 
-        tc = _TextCompiler(self.filename, node.data, node.lineno, compiler_instance=self, **kwargs)
+        data = node.data
+        if node.escaped:
+            # Expressions are Python code, so they must be looked for in the
+            # text as written by the user; only the text around is escaped.
+            data = sax.saxutils.unescape(data)
+            kwargs['escape'] = sax.saxutils.escape
+        tc = _TextCompiler(self.filename, data, node.lineno, compiler_instance=self, **kwargs)
         for x in tc:
             yield x
 
@@ -478,7 +485,8 @@ class _TextCompiler(object):
     instances and :class:`.ir.TextNode` instances accordingly.
     """
     def __init__(self, filename, source, lineno,
-                 node_type=make_text_node, in_html_attr=False, compiler_instance=None):
+                 node_type=make_text_node, in_html_attr=False, compiler_instance=None,
+                 escape=None):
         self.filename = filename
         self.source = source
         self.orig_lineno = lineno
@@ -487,9 +495,12 @@ class _TextCompiler(object):
         self.node_type = node_type
         self.in_html_attr = in_html_attr
         self.compiler_instance = compiler_instance
+        self.escape = escape
         self.doc = self.compiler_instance.doc
 
     def text(self, text):
+        if self.escape:
+            text = self.escape(text)
         node = self.node_type(text)
         node.lineno = self.real_lineno
         self.lineno += text.count('\n')
-- 
2.43.0


From 90ccd5193cca3d5061d217b8935b1d4872ee688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:45 +0000
Subject: [PATCH 04/53] fix: an expression that is a tuple display can be
 interpolated in markup

---
 kajiki/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 9163723..0ed824f 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -327,7 +327,7 @@ class ExprNode(Node):
         if self.safe:
             yield self.line('yield %s' % self.text)
         else:
-            yield self.line('yield self.__kj__.escape(%s)' % self.text)
+            yield self.line('yield self.__kj__.escape((%s))' % self.text)
 
 
 class AttrNode(HierNode):
-- 
2.43.0


From 999b8e1bf526b06ef3216cf47313e14f8de95a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:50 +0000
Subject: [PATCH 05/53] fix: directives work in documents with comments before
 the root element

---
 kajiki/xml_template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 325f659..372e316 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -781,7 +781,8 @@ class _DomTransformer(object):
         Any other node (including CDATA TextNodes) splits runs of TextNodes.
         """
         if isinstance(tree, dom.Document):
-            cls._merge_text_nodes(tree.firstChild)
+            for child in list(tree.childNodes):
+                cls._merge_text_nodes(child)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
@@ -885,7 +886,8 @@ class _DomTransformer(object):
         receive the latter.
         """
         if isinstance(tree, dom.Document):
-            cls._expand_directives(tree.firstChild, tree)
+            for child in list(tree.childNodes):
+                cls._expand_directives(child, tree)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
-- 
2.43.0


From 42b6658eeab84acb73a9bffa50ae12bba3fef9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:56 +0000
Subject: [PATCH 06/53] fix: Python blocks are accepted before the root element

---
 kajiki/xml_template.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 372e316..d12bea4 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -116,11 +116,14 @@ class _Compiler(object):
             never be called twice or might lead to unexpected results.
         """
         templateNodes = [n for n in self.doc.childNodes if not isinstance(n, dom.Comment)]
-        if len(templateNodes) != 1:
+        rootNodes = [n for n in templateNodes if not isinstance(n, dom.ProcessingInstruction)]
+        if len(rootNodes) != 1:
             raise XMLTemplateCompileError('expected a single root node in document',
                                           self.doc, self.filename, 0)
 
-        body = list(self._compile_node(templateNodes[0]))
+        body = []
+        for n in templateNodes:
+            body.extend(self._compile_node(n))
         # Never emit doctypes on fragments
         if not self.is_fragment and not self.is_child:
             if self.doc._dtd:
-- 
2.43.0


From d2ce6c1a000c6a80cb46cde979a4baff279c454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:24 +0000
Subject: [PATCH 07/53] fix: only look for a document type declaration in the
 prolog

---
 kajiki/doctype.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index 66833d6..602c33d 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -145,8 +145,14 @@ def extract_dtd(markup):
         <!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"
             "http://www.w3.org/TR/html4/loose.dtd">
     """
-    match = DocumentTypeDeclaration.REGEX.search(markup)
+    # A DTD can only appear before the root element: anything that looks like
+    # one later (e.g. in a CDATA section) or in a comment is just content.
+    prolog = PROLOG_REGEX.match(markup)
+    match = DocumentTypeDeclaration.REGEX.match(markup, prolog.end())
     if not match:
         return '', 0, markup
-    found = match.group()
-    return found, match.start(), markup.replace(found, '', 1)
+    return match.group(), match.start(), markup[:match.start()] + markup[match.end():]
+
+
+# The XML declaration, comments and processing instructions before a DTD.
+PROLOG_REGEX = re.compile(r'(?:\s|\ufeff|<\?.*?\?>|<!--.*?-->)*', re.DOTALL)
-- 
2.43.0


From 27c0d2a07bf98c7b5727fa22c87bca3d8c73d7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:31 +0000
Subject: [PATCH 08/53] fix: XML declaration without a DTD is accepted and DTDs
 do not shift line numbers

---
 kajiki/xml_template.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index d12bea4..6815dc8 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -604,6 +604,7 @@ class _Parser(sax.ContentHandler):
     then to Python Code.
     """
     DTD = '<!DOCTYPE kajiki SYSTEM "kajiki.dtd">'
+    _re_xml_declaration = re.compile(r'\ufeff?(?:<\?xml\s.*?\?>)?', re.DOTALL)
 
     def __init__(self, filename, source):
         """XML defines only a few entities; HTML defines many more.
@@ -626,8 +627,13 @@ class _Parser(sax.ContentHandler):
         self._filename = filename
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
-        # Use our own DTD just for XML parsing
-        self._source = source[:position] + self.DTD + source[position:]
+        if not self._doc._dtd:
+            # Nothing can come before the XML declaration
+            position = self._re_xml_declaration.match(source).end()
+        # Use our own DTD just for XML parsing. It must take as many lines
+        # as the original DTD, so that line numbers remain correct.
+        self._source = (source[:position] + self.DTD
+                        + '\n' * self._doc._dtd.count('\n') + source[position:])
         self._cdata_stack = []
 
     def parse(self):
-- 
2.43.0


From 13536982b1ef32c7c5c482dc218eea5826ec883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:59 +0000
Subject: [PATCH 09/53] fix: HTML entities in attributes are not dropped,
 unknown entities are reported

---
 kajiki/xml_template.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 6815dc8..7b381df 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -650,7 +650,7 @@ class _Parser(sax.ContentHandler):
         # streams; processing of character streams is for further study."
         # So if source is unicode, we pre-encode it:
         # TODO Is this dance really necessary? Can't I just call a function?
-        byts = self._source.encode('utf-8')
+        byts = self._resolve_entities(self._source).encode('utf-8')
         source.setEncoding(native_str('utf-8'))
         source.setByteStream(BytesIO(byts))
         source.setSystemId(self._filename)
@@ -666,6 +666,28 @@ class _Parser(sax.ContentHandler):
         self._doc._source = self._source
         return self._doc
 
+    # XML entities are left to expat; no references in CDATA, comments and PIs.
+    _re_entity = re.compile(
+        r'<!\[CDATA\[.*?\]\]>|<!--.*?-->|<\?.*?\?>|&(?!(?:amp|lt|gt|quot|apos);)([\w.:-]+;)',
+        re.DOTALL)
+
+    def _resolve_entities(self, source):
+        """Replace HTML entities by character references.
+
+        Otherwise expat would silently drop them from attribute values.
+        """
+        def replace(mo):
+            name = mo.group(1)
+            if name is None:
+                return mo.group()
+            if name not in html5:
+                before = source[:mo.start()]
+                raise XMLTemplateParseError(
+                    'undefined entity &%s' % name, source, self._filename,
+                    before.count('\n') + 1, len(before) - before.rfind('\n') - 1)
+            return ''.join('&#%d;' % ord(c) for c in html5[name])
+        return self._re_entity.sub(replace, source)
+
     # ContentHandler implementation
     def startDocument(self):
         self._els.append(self._doc)
-- 
2.43.0


From 2b569ef0d2d38cd71608ddcc05891f490415eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:45 +0000
Subject: [PATCH 10/53] fix: py:with restores variables of the template context

---
 kajiki/template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 29f7555..c66c670 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -117,7 +117,8 @@ class _Template(object):
         pushed on top of a stack by :class:`kajiki.ir.WithNode` so that
         when the node is exited the previous values can be recovered.
         """
-        self._with_stack.append([locals_.get(k, ()) for k in vars])
+        self._with_stack.append([
+            locals_.get(k, self.__globals__.get(k, ())) for k in vars])
 
     def _pop_with(self):
         """Exists a ``py:with`` block.
-- 
2.43.0


From 63c3d212c5684dad2857e68da1651bab63a17b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:59 +0000
Subject: [PATCH 11/53] fix: a literal can be rendered more than once

---
 kajiki/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index bf91401..640023f 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -58,7 +58,7 @@ class flattener(object):
         if type(self.iterator) == flattener:
             return self.iterator.accumulate_str()
         s = ''
-        iter_stack = [self.iterator]
+        iter_stack = [iter(self.iterator)]
         while iter_stack:
             try:
                 x = next(iter_stack[-1])
@@ -66,7 +66,7 @@ class flattener(object):
                 iter_stack.pop()
                 continue
             if type(x) == flattener:
-                iter_stack.append(x.iterator)
+                iter_stack.append(iter(x.iterator))
             elif x is None:
                 pass
             else:
@@ -84,7 +84,8 @@ class flattener(object):
 
 
 def literal(text):
-    return flattener(iter([text]))
+    # Not an iterator, so that the value can be used more than once.
+    return flattener([text])
 
 
 class NameGen(object):
-- 
2.43.0


From c5a98e817fd46885cf7d35faae4642c81ec8318f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:05 +0000
Subject: [PATCH 12/53] fix: markup used in attributes is neither escaped twice
 nor rendered as an object

---
 kajiki/template.py | 26 ++++++++++++++++++--------
 kajiki/util.py     |  3 ++-
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index c66c670..b82acaa 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -244,19 +244,29 @@ class _Template(object):
                 if mode.startswith('html') and k in HTML_EMPTY_ATTRS:
                     yield ' ' + k.lower()
                 else:
-                    yield ' %s="%s"' % (k, self._escape(v))
+                    yield ' %s="%s"' % (k, self._escape_attr(v))
+
+    def _escape_attr(self, value):
+        """Returns the value encoded for use between double quotes.
+
+        The output of a template function, like any other markup, is encoded
+        already, except for what cannot appear in an attribute.
+        """
+        if isinstance(value, flattener):
+            value = value.accumulate_str()
+        elif hasattr(value, '__html__'):
+            value = value.__html__()
+        else:
+            return self._escape(value)
+        return value.replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
 
     def _collect(self, it):
         result = []
         for part in it:
-            if part is None:
-                continue
-            if isinstance(part, flattener):
-                result.append(str(part.accumulate_str()))
-            else:
-                result.append(str(part))
+            if part is not None:
+                result.append(self._escape_attr(part))
         if result:
-            return ''.join(result)
+            return literal(''.join(result))
         else:
             return None
 
diff --git a/kajiki/util.py b/kajiki/util.py
index 640023f..0e0449a 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -4,6 +4,7 @@ from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 from collections import deque
 import sys
+from nine import str
 from random import randint
 from threading import local
 
@@ -70,7 +71,7 @@ class flattener(object):
             elif x is None:
                 pass
             else:
-                s += x
+                s += str(x)
         return s
 
     def __iter__(self):
-- 
2.43.0


From b669a7b7916cf56606699ac0f9846280958b3366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:26 +0000
Subject: [PATCH 13/53] fix: text templates may end in a backslash or in -%}

---
 kajiki/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 2b7044d..32fd466 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -151,7 +151,7 @@ class _Scanner(object):
         self.pos = end + 2
         if body.endswith('-'):
             body = body[:-1]
-            while self.source[self.pos] in ' \t':
+            while self.source[self.pos:self.pos + 1] in (' ', '\t'):
                 self.pos += 1
         return self.tag(tagname, body)
 
@@ -348,7 +348,7 @@ class _Tag(_Token):
 def _unescape_newlines(text):
     i = 0
     while i < len(text):
-        if text[i] == '\\':
+        if text[i] == '\\' and i + 1 < len(text):
             if text[i + 1] != '\n':
                 yield text[i + 1]
             i += 2
-- 
2.43.0


From 0a092a033d56efc376b805708d9af234eda440c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:09 +0000
Subject: [PATCH 14/53] fix: directives may have an empty body

---
 kajiki/ir.py           | 23 +++++++----------------
 kajiki/util.py         |  2 ++
 kajiki/xml_template.py |  2 +-
 3 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 0ed824f..55bdaf1 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -55,8 +55,13 @@ class HierNode(Node):
     def __iter__(self):
         yield self
         yield IndentNode()
+        is_empty = True
         for x in self.body_iter():
             yield x
+            # Python code might consist of comments only
+            is_empty = is_empty and isinstance(x, PythonNode)
+        if is_empty:  # In Python, a block without a body is a SyntaxError.
+            yield PassNode()  # Prevent creation of a block without a body
         yield DedentNode()
 
 
@@ -147,17 +152,6 @@ class DefNode(HierNode):
         yield self.line(self.prefix)
         yield self.line('def %s:' % (self.decl))
 
-    def __iter__(self):
-        yield self
-        yield IndentNode()
-        is_empty = True
-        for x in self.body_iter():
-            yield x
-            is_empty = False
-        if is_empty:  # In Python, a function without a body is a SyntaxError.
-            yield PassNode()  # Prevent creation of a function without a body
-        yield DedentNode()
-
 
 class InnerDefNode(DefNode):
     prefix = '@__kj__.flattener.decorate'
@@ -183,11 +177,8 @@ class CallNode(HierNode):
         yield self.line('def %s:' % (self.decl))
 
     def __iter__(self):
-        yield self
-        yield IndentNode()
-        for x in self.body_iter():
+        for x in super(CallNode, self).__iter__():
             yield x
-        yield DedentNode()
         yield self.CallTail(self.call)
 
 
@@ -408,7 +399,7 @@ class PythonNode(Node):
             assert isinstance(b, TextNode)
             blocks.append(b.text)
         text = ''.join(blocks)
-        if text[0] == '%':
+        if text.startswith('%'):
             self.module_level = True
             text = text[1:]
         self.lines = list(self._normalize(text))
diff --git a/kajiki/util.py b/kajiki/util.py
index 0e0449a..6c3ef2f 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -47,6 +47,8 @@ class flattener(object):
     def __init__(self, iterator):
         while type(iterator) == flattener:
             iterator = iterator.iterator
+        if iterator is None:  # From a template function that outputs nothing
+            iterator = ()
         self.iterator = iterator
 
     @classmethod
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 7b381df..ed42a0d 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -368,7 +368,7 @@ class _Compiler(object):
     @annotate
     def _compile_call(self, node):
         """Convert py:call nodes to their intermediate representation."""
-        if node.childNodes[0].hasAttribute('args'):
+        if node.childNodes and node.childNodes[0].hasAttribute('args'):
             defn = '$caller(' + node.childNodes[0].getAttribute('args') + ')'
         else:
             defn = '$caller()'
-- 
2.43.0


From 2af5ee36b21eb77340e757511341e04222e18908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 15/53] fix: invalid expressions are reported with their line
 number

---
 kajiki/xml_template.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index ed42a0d..d06383d 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -564,7 +564,9 @@ class _TextCompiler(object):
         def py_expr(end=None):
             return self.source[self.pos:end]
         try:
-            self.pos += len(py_expr()) - len(py_expr().lstrip())
+            blank = py_expr()[:len(py_expr()) - len(py_expr().lstrip())]
+            self.pos += len(blank)
+            self.lineno += blank.count('\n')
             compile(py_expr(), 'find_}', 'eval')
         except SyntaxError as se:
             end = sum(
@@ -577,7 +579,7 @@ class _TextCompiler(object):
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-                    doc=self.doc, filename=self.filename, linen=self.lineno)
+                    doc=self.doc, filename=self.filename, linen=self.real_lineno)
             else:
                 # if the expression ends in a } then it may be valid
                 try:
@@ -586,14 +588,14 @@ class _TextCompiler(object):
                     # for example + operators with a single operand
                     raise XMLTemplateCompileError(
                         "Kajiki detected an invalid python expression `%s`" % py_expr()[:-1],
-                        doc=self.doc, filename=self.filename, linen=self.lineno)
+                        doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
             py_text = py_expr(end - 1)
             self.pos = end
             return self.expr(py_text)
         else:
             raise XMLTemplateCompileError("Braced expression not terminated",
-                                          doc=self.doc, filename=self.filename, linen=self.lineno)
+                                          doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
 
 class _Parser(sax.ContentHandler):
-- 
2.43.0


From 1f48bb5caa851c3574481392d0395428420daea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:47 +0000
Subject: [PATCH 16/53] fix: invalid expressions in text templates are
 reported, leading line breaks accepted

---
 kajiki/text.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 32fd466..516c9c0 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -156,6 +156,9 @@ class _Scanner(object):
         return self.tag(tagname, body)
 
     def _get_braced_expr(self):
+        blank = len(self.source[self.pos:]) - len(self.source[self.pos:].lstrip())
+        self.lineno += self.source[self.pos:self.pos + blank].count('\n')
+        self.pos += blank
         try:
             compile(self.source[self.pos:], '', 'eval')
         except SyntaxError as se:
@@ -163,8 +166,17 @@ class _Scanner(object):
                                                 for idx, line in enumerate(self.source[self.pos:].splitlines())
                                                 if idx < se.lineno - 1])
             text = self.source[self.pos:end - 1]
-            self.pos = end
-            return self.expr(text)
+            if self.source[end - 1:end] == '}':
+                try:
+                    compile(text, '', 'eval')
+                except SyntaxError:
+                    pass
+                else:
+                    self.pos = end
+                    return self.expr(text)
+        raise kajiki.template.KajikiSyntaxError(
+            'invalid or unterminated expression', self.source, self.filename,
+            self.lineno, 0)
 
 
 class _Parser(object):
-- 
2.43.0


From 81ba12ba0d1e029f7428ead5fc74af78749c197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:06 +0000
Subject: [PATCH 17/53] fix: find the end of expressions with unusual line
 separators

---
 kajiki/text.py         | 2 +-
 kajiki/xml_template.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 516c9c0..dba837e 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -163,7 +163,7 @@ class _Scanner(object):
             compile(self.source[self.pos:], '', 'eval')
         except SyntaxError as se:
             end = self.pos + sum([se.offset] + [len(line) + 1
-                                                for idx, line in enumerate(self.source[self.pos:].splitlines())
+                                                for idx, line in enumerate(self.source[self.pos:].split('\n'))
                                                 if idx < se.lineno - 1])
             text = self.source[self.pos:end - 1]
             if self.source[end - 1:end] == '}':
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index d06383d..fef14d4 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -572,7 +572,7 @@ class _TextCompiler(object):
             end = sum(
                 [self.pos, se.offset] +
                 [len(line) + 1
-                 for idx, line in enumerate(py_expr().splitlines())
+                 for idx, line in enumerate(py_expr().split('\n'))
                  if idx < se.lineno - 1]
             )
             if py_expr(end)[-1] != '}':
-- 
2.43.0


From 18db2e33e56a18ab796098bd58d674bb8763c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:52 +0000
Subject: [PATCH 18/53] fix: line tables with line number increments above 127
 or below 0

---
 kajiki/lnotab.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index edffbd8..44dc3c2 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -49,8 +49,12 @@ expand 300, 300 to 255, 255, 45, 45,
 '''
 
 from __future__ import (absolute_import, division, print_function)
+from sys import version_info
 from nine import IS_PYTHON2
 
+# Since Python 3.6 line number increments are signed bytes.
+SIGNED_LINES = version_info >= (3, 6)
+
 if IS_PYTHON2:
     int2byte = chr
     byte2int = ord
@@ -64,23 +68,27 @@ else:
 
 def lnotab(pairs, first_lineno=0):
     """Yields byte integers representing the pairs of integers passed in."""
-    assert first_lineno <= pairs[0][1]
     cur_byte, cur_line = 0, first_lineno
     for byte_off, line_off in pairs:
         byte_delta = byte_off - cur_byte
         line_delta = line_off - cur_line
         assert byte_delta >= 0
-        assert line_delta >= 0
+        if line_delta < 0 and not SIGNED_LINES:
+            continue
         while byte_delta > 255:
             yield 255  # byte
             yield 0   # line
             byte_delta -= 255
         yield byte_delta
-        while line_delta > 255:
-            yield 255  # line
+        while line_delta > 127:
+            yield 127  # line
+            yield 0   # byte
+            line_delta -= 127
+        while line_delta < -128:
+            yield 128  # line
             yield 0   # byte
-            line_delta -= 255
-        yield line_delta
+            line_delta += 128
+        yield line_delta & 255
         cur_byte, cur_line = byte_off, line_off
 
 
@@ -99,6 +107,8 @@ def lnotab_numbers(lnotab, first_lineno=0):
     last_line = None
     cur_byte, cur_line = 0, first_lineno
     for byte_delta, line_delta in byte_pairs(lnotab):
+        if SIGNED_LINES and line_delta > 127:
+            line_delta -= 256
         if byte_delta:
             if cur_line != last_line:
                 yield cur_byte, cur_line
-- 
2.43.0


From 800f80fad642fef144d66a22be70fc28efc62145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:16 +0000
Subject: [PATCH 19/53] fix: errors in functions, attributes, calls and after
 multi-line expressions show the right line

---
 kajiki/ir.py       |  4 +++-
 kajiki/template.py | 36 +++++++++++++++++++++---------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 55bdaf1..2d67af4 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -179,7 +179,9 @@ class CallNode(HierNode):
     def __iter__(self):
         for x in super(CallNode, self).__iter__():
             yield x
-        yield self.CallTail(self.call)
+        tail = self.CallTail(self.call)
+        tail.filename, tail.lineno = self.filename, self.lineno
+        yield tail
 
 
 class ForNode(HierNode):
diff --git a/kajiki/template.py b/kajiki/template.py
index b82acaa..bf30f4c 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -324,11 +324,12 @@ def from_ir(ir_node, base_globals=None):
     py_lines = list(generate_python(ir_node))
     py_text = '\n'.join(map(str, py_lines))
     py_linenos = []
-    last_lineno = 0
-    for i, l in enumerate(py_lines):
-        lno = max(last_lineno, l._lineno or 0)
-        py_linenos.append((i + 1, lno))
-        last_lineno = lno
+    lno = 0
+    for l in py_lines:
+        lno = l._lineno or lno
+        # An expression may take several lines
+        for i in range(str(l).count('\n') + 1):
+            py_linenos.append((len(py_linenos) + 1, lno + i))
     dct = dict(kajiki=kajiki)
     try:
         exec(py_text, dct)
@@ -392,7 +393,10 @@ class TplFunc(object):
     def annotate_lnotab(self, filename, py_to_tpl, py_to_tpl_dct):
         if not py_to_tpl:
             return
-        code = self._func.__code__
+        self._func.__code__ = self._annotate_code(
+            self._func.__code__, filename, py_to_tpl_dct)
+
+    def _annotate_code(self, code, filename, py_to_tpl_dct):
         new_lnotab_numbers = []
         for bc_off, py_lno in lnotab.lnotab_numbers(
                 code.co_lnotab, code.co_firstlineno):
@@ -402,23 +406,25 @@ class TplFunc(object):
                 continue
             new_lnotab_numbers.append((bc_off, tpl_lno))
         if not new_lnotab_numbers:
-            return
+            return code
         new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
         new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
-        new_code = patch_code_file_lines(
-            code, filename, new_firstlineno, new_lnotab)
-        self._func.__code__ = new_code
-        return
+        # Attributes, calls and inner functions have a code object of their own
+        new_consts = tuple(
+            self._annotate_code(c, filename, py_to_tpl_dct)
+            if isinstance(c, types.CodeType) else c for c in code.co_consts)
+        return patch_code_file_lines(
+            code, filename, new_firstlineno, new_lnotab, new_consts)
 
 
 if IS_PYTHON2:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         return types.CodeType(code.co_argcount,
                               code.co_nlocals,
                               code.co_stacksize,
                               code.co_flags,
                               code.co_code,
-                              code.co_consts,
+                              consts,
                               code.co_names,
                               code.co_varnames,
                               filename.encode('utf-8'),
@@ -428,7 +434,7 @@ if IS_PYTHON2:
                               code.co_freevars,
                               code.co_cellvars)
 else:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         code_args = [code.co_argcount]
         if version_info >= (3, 8):
             code_args.append(code.co_posonlyargcount)
@@ -438,7 +444,7 @@ else:
             code.co_stacksize,
             code.co_flags,
             code.co_code,
-            code.co_consts,
+            consts,
             code.co_names,
             code.co_varnames,
             filename,
-- 
2.43.0


From f5b6b3991461c72e68759858c55702a738c26b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:22 +0000
Subject: [PATCH 20/53] fix: line numbers of expressions and directives in text
 templates

---
 kajiki/text.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index dba837e..960b1ba 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -96,12 +96,14 @@ class _Scanner(object):
                 yield self.text('$')
             elif groups['tag_bare'] is not None:
                 self.pos = mo.end()
+                self.lineno += mo.group().count('\n')
                 yield self._get_tag_bare(groups['tag_bare'])
             elif groups['tag_begin'] is not None:
                 self.pos = mo.end()
                 yield self._get_tag(groups['tag_begin'])
             elif groups['tag_begin_ljust'] is not None:
                 self.pos = mo.end()
+                self.lineno += mo.group().count('\n')
                 yield self._get_tag(groups['tag_begin_ljust'])
             elif groups['tag_bare_invalid'] is not None:
                 continue
@@ -123,12 +125,14 @@ class _Scanner(object):
     pos = property(_get_pos, _set_pos)
 
     def text(self, text):
+        token = _Text(self.filename, self.lineno, text)
         self.lineno += text.count('\n')
-        return _Text(self.filename, self.lineno, text)
+        return token
 
     def expr(self, text):
+        token = _Expr(self.filename, self.lineno, text)
         self.lineno += text.count('\n')
-        return _Expr(self.filename, self.lineno, text)
+        return token
 
     def tag(self, tagname, body):
         tag = _Tag(self.filename, self.lineno, tagname, body)
@@ -140,9 +144,10 @@ class _Scanner(object):
         if end == -1:
             end = len(self.source)
         body = self.source[self.pos:end]
-        self.lineno += 1
         self.pos = end + 1
-        return self.tag(tagname, body)
+        tag = self.tag(tagname, body)
+        self.lineno += 1
+        return tag
 
     def _get_tag(self, tagname):
         end = self.source.find('%}', self.pos)
@@ -225,7 +230,11 @@ class _Parser(object):
                         yield token
                         break
                     parser = getattr(self, '_parse_%s' % token.tagname)
-                    yield parser(token)
+                    node = parser(token)
+                    if node is not None:
+                        node.filename = token.filename
+                        node.lineno = token.lineno
+                    yield node
                 else:
                     msg = 'Parse error: %r unexpected' % token
                     assert False, msg
-- 
2.43.0


From e2ad6900a7be5e1c1231a6830651bd418a0d1e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:24 +0000
Subject: [PATCH 21/53] fix: text templates can be included and imported
 through a file loader

---
 kajiki/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 960b1ba..64f9bd5 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -51,7 +51,9 @@ _re_pattern = re.compile(_pattern, re.VERBOSE | re.IGNORECASE | re.MULTILINE)
 
 
 def TextTemplate(source=None, filename=None, autoescape=False,
-                 encoding='utf-8'):
+                 encoding='utf-8', is_fragment=False, base_globals=None):
+    # *is_fragment* makes no difference here: there is no DOCTYPE to omit.
+    # It is passed by the loaders when a template is included or imported.
     assert source or filename, "You must either provide a *source* argument " \
         "or a *filename* argument to TextTemplate()."
     if source is None:
@@ -64,7 +66,7 @@ def TextTemplate(source=None, filename=None, autoescape=False,
     scanner = _Scanner(filename, source)
     tree = _Parser(scanner, autoescape).parse()
     tree.filename = filename
-    return kajiki.template.from_ir(tree)
+    return kajiki.template.from_ir(tree, base_globals=base_globals)
 
 
 class _Scanner(object):
-- 
2.43.0


From 805dd554b3c83ca60f06abf503aaa99e3814bbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:29 +0000
Subject: [PATCH 22/53] fix: loaders notice deleted, shadowed and older files
 and can be shared by threads

---
 kajiki/integration/pyramid.py | 11 ++++++-----
 kajiki/loader.py              | 32 +++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/kajiki/integration/pyramid.py b/kajiki/integration/pyramid.py
index b8a3779..45292e0 100644
--- a/kajiki/integration/pyramid.py
+++ b/kajiki/integration/pyramid.py
@@ -72,6 +72,7 @@ class PyramidKajikiLoader(Loader):
 
     def _load(self, name, *a, **kw):
         '''Called when the template actually needs to be (re)compiled.'''
+        self._timestamps[name] = stat(name).st_mtime
         return XMLTemplate(source=None, filename=name,
                            mode=self.mode, *a, **kw)
 
@@ -82,11 +83,11 @@ class PyramidKajikiLoader(Loader):
         * Checks the template modification time to decide whether to reload it.
         '''
         name = abspath_from_resource_spec(name)
-        if self.auto_reload and name in self.modules:
-            mtime = stat(name).st_mtime
-            if mtime > self._timestamps.get(name, 0):
-                del self.modules[name]
-        return super(PyramidKajikiLoader, self).import_(name, *a, **kw)
+        with self._lock:
+            if self.auto_reload and name in self.modules:
+                if stat(name).st_mtime != self._timestamps.get(name):
+                    del self.modules[name]
+            return super(PyramidKajikiLoader, self).import_(name, *a, **kw)
 
     def __call__(self, value, system, is_fragment=False):
         """IRenderer implementation.
diff --git a/kajiki/loader.py b/kajiki/loader.py
index b120fa2..3b609ff 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -5,23 +5,26 @@ from __future__ import (absolute_import, division, print_function,
 from nine import basestring, itervalues
 import os
 import pkg_resources
+from threading import RLock
 
 
 class Loader(object):
     def __init__(self):
         self.modules = {}
+        self._lock = RLock()
 
     def import_(self, name, *args, **kwargs):
         '''Returns the template if it is already in the cache,
         else loads the template, caches it and returns it.
         '''
-        mod = self.modules.get(name)
-        if mod:
+        with self._lock:
+            mod = self.modules.get(name)
+            if mod:
+                return mod
+            mod = self._load(name, *args, **kwargs)
+            mod.loader = self
+            self.modules[name] = mod
             return mod
-        mod = self._load(name, *args, **kwargs)
-        mod.loader = self
-        self.modules[name] = mod
-        return mod
 
     def default_alias_for(self, name):
         return os.path.splitext(os.path.basename(name))[0]
@@ -70,12 +73,15 @@ class FileLoader(Loader):
         return None
 
     def import_(self, name, *args, **kwargs):
-        filename = self._filename(name)
-        if self._reload and name in self.modules:
-            mtime = os.stat(filename).st_mtime
-            if mtime > self._timestamps.get(name, 0):
-                del self.modules[name]
-        return super(FileLoader, self).import_(name, *args, **kwargs)
+        with self._lock:
+            if self._reload and name in self.modules:
+                # The file might also have been replaced by an older one, been
+                # deleted or be found somewhere else in the path by now.
+                filename = self._filename(name)
+                if (filename is None or self._timestamps.get(name)
+                        != (filename, os.stat(filename).st_mtime)):
+                    del self.modules[name]
+            return super(FileLoader, self).import_(name, *args, **kwargs)
 
     def _load(self, name, encoding='utf-8', *args, **kwargs):
         '''Text templates are read in text mode and XML templates are read in
@@ -89,7 +95,7 @@ class FileLoader(Loader):
         filename = self._filename(name)
         if filename is None:
             raise IOError('Unknown template %r' % name)
-        self._timestamps[name] = os.stat(filename).st_mtime
+        self._timestamps[name] = (filename, os.stat(filename).st_mtime)
         if self._force_mode == 'text':
             return TextTemplate(filename=filename,
                 autoescape=self._autoescape_text, *args, **options)
-- 
2.43.0


From 5a984fd13a7ef002d9895234a8bf3243c495587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:07 +0000
Subject: [PATCH 23/53] fix: functions are inherited through more than one
 level

---
 kajiki/template.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index bf30f4c..dbefc05 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -59,6 +59,7 @@ class _Template(object):
     loader = None
     base_globals = None
     filename = None
+    _child = None
 
     def __init__(self, context=None):
         if context is None:
@@ -152,16 +153,20 @@ class _Template(object):
                 continue
             if not isinstance(v, TplFunc):
                 continue
-            if k not in self.__globals__:
-                self.__globals__[k] = v
-            if not hasattr(self, k):
-                def _(k=k):
-                    '''Capture the 'k' variable in a closure'''
-                    def trampoline(*a, **kw):
-                        global parent
-                        return getattr(parent, k)(*a, **kw)
-                    return trampoline
-                setattr(self, k, TplFunc(_()).bind_instance(self))
+            inst = self
+            while inst is not None:  # The children inherit it, too
+                if k not in inst.__globals__:
+                    inst.__globals__[k] = v
+                if not hasattr(inst, k):
+                    def _(k=k):
+                        '''Capture the 'k' variable in a closure'''
+                        def trampoline(*a, **kw):
+                            global parent
+                            return getattr(parent, k)(*a, **kw)
+                        return trampoline
+                    setattr(inst, k, TplFunc(_()).bind_instance(inst))
+                inst = inst._child
+        p_inst._child = self
         p_globals['child'] = self
         p_globals['local'] = p_inst
         p_globals['self'] = self.__globals__['self']
-- 
2.43.0


From d15cae6cf1d76e0c94387506f80975efb970a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:49 +0000
Subject: [PATCH 24/53] fix: a block nested in another block or function of a
 child template is rendered

---
 kajiki/text.py         | 12 +++++++++---
 kajiki/xml_template.py | 10 ++++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 64f9bd5..7ed5ea9 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -195,6 +195,7 @@ class _Parser(object):
         self.iterator = iter(self.tokenizer)
         self.autoescape = autoescape
         self._in_def = False
+        self._in_block = False
         self._is_child = False
 
     def parse(self):
@@ -329,15 +330,20 @@ class _Parser(object):
     def _parse_block(self, token):
         fname = '_kj_block_' + token.body.strip()
         decl = fname + '()'
+        old_in_block, self._in_block = self._in_block, True
         body = list(self._parse_body('end'))[:-1]
+        self._in_block = old_in_block
         self.functions[decl] = body
         if self._is_child:
-            parent_block = 'parent.' + fname
+            # A block that is new in the child has no parent block
+            parent_block = 'getattr(parent, %r, None)' % fname
             body.insert(0,
                 ir.PythonNode(ir.TextNode('parent_block=%s' % parent_block)))
-            return None
-        else:
+        if not self._is_child or self._in_block or self._in_def:
+            # Blocks at the top level of a child only replace those of the
+            # parent; anywhere else they are part of what is rendered.
             return ir.ExprNode(decl)
+        return None
 
 
 class _Token(object):
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index fef14d4..44eab5c 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -83,6 +83,7 @@ class _Compiler(object):
         self.autoblocks = autoblocks or []
         self.cdata_scripts = cdata_scripts
         self.in_def = False
+        self.in_block = False
         self.is_child = False
         # The rendering mode is either specified in the *mode* argument,
         # or inferred from the DTD:
@@ -339,15 +340,20 @@ class _Compiler(object):
         """
         fname = '_kj_block_' + node.getAttribute('name')
         decl = fname + '()'
+        old_in_block, self.in_block = self.in_block, True
         body = list(self._compile_nop(node))
+        self.in_block = old_in_block
         if not body:
             body = [ir.PassNode()]
         self.functions[decl] = body
         if self.is_child:
-            parent_block = 'parent.' + fname
+            # A block that is new in the child has no parent block
+            parent_block = 'getattr(parent, %r, None)' % fname
             body.insert(0,
                 ir.PythonNode(ir.TextNode('parent_block=%s' % parent_block)))
-        else:
+        if not self.is_child or self.in_block or self.in_def:
+            # Blocks at the top level of a child only replace those of the
+            # parent; anywhere else they are part of what is rendered.
             yield ir.ExprNode(decl)
 
     @annotate
-- 
2.43.0


From 00574776101c3d3e112b162fb9819615d9768f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:31 +0000
Subject: [PATCH 25/53] fix: names of an including template do not replace
 functions of the included one

---
 kajiki/template.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index dbefc05..c81283a 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -60,6 +60,7 @@ class _Template(object):
     base_globals = None
     filename = None
     _child = None
+    _borrowed = ()
 
     def __init__(self, context=None):
         if context is None:
@@ -144,18 +145,19 @@ class _Template(object):
         for k, v in iteritems(self.__globals__):
             if k == '__main__':
                 continue
-            if not isinstance(v, TplFunc):
+            if not isinstance(v, TplFunc) or k in self._borrowed:
                 continue
             p_globals[k] = v
+        p_inst._borrow(dict((k, self.__globals__[k]) for k in self._borrowed))
         # Find inherited funcs
         for k, v in iteritems(p_inst.__globals__):
             if k == '__main__':
                 continue
-            if not isinstance(v, TplFunc):
+            if not isinstance(v, TplFunc) or k in p_inst._borrowed:
                 continue
             inst = self
             while inst is not None:  # The children inherit it, too
-                if k not in inst.__globals__:
+                if k not in inst.__globals__ or k in inst._borrowed:
                     inst.__globals__[k] = v
                 if not hasattr(inst, k):
                     def _(k=k):
@@ -207,9 +209,23 @@ class _Template(object):
         tpl_cls = self.loader.import_(name, is_fragment=True)
         if alias is None:
             alias = self.loader.default_alias_for(name)
-        r = gbls[alias] = tpl_cls(gbls)
+        # Names of this template must not replace the own ones of the other
+        functions = dict((k, v) for k, v in iteritems(gbls)
+                         if isinstance(v, TplFunc))
+        context = dict((k, v) for k, v in iteritems(gbls)
+                       if k not in functions and k not in ('local', 'self', 'defined'))
+        r = gbls[alias] = tpl_cls(context)
+        r._borrow(functions)
         return r
 
+    def _borrow(self, functions):
+        """Make functions of an including template available, except for those
+        that this template has itself.
+        """
+        self._borrowed = [k for k in functions if k not in self.__globals__]
+        for k in self._borrowed:
+            self.__globals__[k] = functions[k]
+
     def _escape(self, value):
         """Returns the given HTML with ampersands, carets and quotes encoded."""
         if value is None or isinstance(value, flattener):
-- 
2.43.0


From f2d632d053938e90b05d7a2beb15bd5008bf494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:54 +0000
Subject: [PATCH 26/53] fix: Python blocks may be indented and contain blank
 lines

---
 kajiki/ir.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 2d67af4..36d37f8 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -4,6 +4,7 @@ from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 from itertools import chain
 import re
+from textwrap import dedent
 
 from .util import gen_name, flattener, window
 from nine import nine
@@ -413,13 +414,16 @@ class PythonNode(Node):
     def _normalize(self, text):
         if text.startswith('#\n'):
             text = text[2:]
-        prefix = None
-        for line in text.splitlines():
-            if prefix is None:
-                rest = line.lstrip()
-                prefix = line[:len(line) - len(rest)]
-            assert line.startswith(prefix)
-            yield line[len(prefix):]
+        text = dedent(text)
+        try:
+            compile(text, '<python block>', 'exec')
+        except IndentationError:
+            # The white space before the first line does not get here
+            first, newline, others = text.partition('\n')
+            text = first + newline + dedent(others)
+        except Exception:
+            pass  # The compilation of the template finds out
+        return text.splitlines()
 
 
 def optimize(iter_node):
-- 
2.43.0


From a38caaae72d887a70791c1ee5190d16e58b7a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:33 +0000
Subject: [PATCH 27/53] fix: a dot after a $name that is not part of the name
 is text

---
 kajiki/text.py         | 2 +-
 kajiki/xml_template.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 7ed5ea9..53163c4 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -33,7 +33,7 @@ from . import ir
 _pattern = r'''
 \$(?:
     (?P<expr_escaped>\$) |      # Escape $$
-    (?P<expr_named>[_a-z][_a-z0-9.]*) | # $foo.bar
+    (?P<expr_named>[_a-z][_a-z0-9]*(?:\.[_a-z][_a-z0-9]*)*) | # $foo.bar
     {(?P<expr_braced>) | # ${....
     (?P<expr_invalid>)
 ) |
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 44eab5c..2894bdf 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -529,7 +529,7 @@ class _TextCompiler(object):
 
     _pattern = r'''
     \$(?:
-        (?P<expr_named>[_a-z][_a-z0-9.]*) | # $foo.bar
+        (?P<expr_named>[_a-z][_a-z0-9]*(?:\.[_a-z][_a-z0-9]*)*) | # $foo.bar
         {(?P<expr_braced>) | # ${....
         \$ # $$ -> $
     )'''
-- 
2.43.0


From f4ed78cef90f7879a618e1c28c143122f98a829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:38 +0000
Subject: [PATCH 28/53] fix: semicolons in strings do not separate py:with
 assignments

---
 kajiki/ir.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 36d37f8..08e9afa 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -211,7 +211,12 @@ class WithNode(HierNode):
     def __init__(self, vars, *body):
         super(WithNode, self).__init__(body)
         assignments = []
-        matches = self.assignment_pattern.finditer(vars)
+        matches = []
+        for m in self.assignment_pattern.finditer(vars):
+            # A semicolon inside of a string does not start an assignment
+            if not matches or self._is_complete(
+                    vars[matches[-1].end():m.start()]):
+                matches.append(m)
         for m1, m2 in window(chain(matches, [None]), 2):
             lhs = m1.group(1).strip()
             rhs = vars[m1.end():(m2.start() if m2 else len(vars))]
@@ -220,6 +225,14 @@ class WithNode(HierNode):
         self.vars = assignments
         self.var_names = [l for l, _ in assignments]
 
+    @staticmethod
+    def _is_complete(expr):
+        try:
+            compile(expr.strip(), '<py:with>', 'eval')
+        except SyntaxError:
+            return False
+        return True
+
     def py(self):
         yield self.line(
             'local.__kj__.push_with(locals(), [%s])' % (
-- 
2.43.0


From d81a9ba26a42cc1c1faf6d36fa603c1bd949b9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:43 +0000
Subject: [PATCH 29/53] fix: only line feeds separate the lines of a Python
 block

---
 kajiki/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 08e9afa..e84e6e0 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -436,7 +436,7 @@ class PythonNode(Node):
             text = first + newline + dedent(others)
         except Exception:
             pass  # The compilation of the template finds out
-        return text.splitlines()
+        return text.split('\n')
 
 
 def optimize(iter_node):
-- 
2.43.0


From 4d90579ace6712c059dfd44753aeb9c41ab4a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:53 +0000
Subject: [PATCH 30/53] fix: {%- removes the white space before it also within
 a line

---
 kajiki/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 53163c4..fe7f6b1 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -41,7 +41,7 @@ _pattern = r'''
     (?P<tag_bare>[a-z]+) | # %for, %end, etc.
     (?P<tag_bare_invalid>)
 )|
-^\s*{%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
+(?:^\s*|[ \t]*){%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
 {%(?:
     (?P<tag_begin>[a-z]+) | # {%for, {%end, etc.
     (?P<tag_begin_invalid>)
@@ -80,6 +80,8 @@ class _Scanner(object):
         source = self.source
         for mo in _re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos < mo.start('tag_begin_ljust'):
+                start = self.pos  # The white space was already removed by -%}
             if start < self.pos:
                 # Inside of an expression or tag that was already consumed
                 continue
-- 
2.43.0


From d44bf0a73a7ce1b210dd9853d7780ff122016da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:58 +0000
Subject: [PATCH 31/53] fix: white space between {%switch%} and the first
 {%case%} is ignored

---
 kajiki/text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index fe7f6b1..5bace4a 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -281,8 +281,11 @@ class _Parser(object):
         return ir.ForNode(token.body, *body[:-1])
 
     def _parse_switch(self, token):
-        body = list(self._parse_body('end'))
-        return ir.SwitchNode(token.body, *body[:-1])
+        body = list(self._parse_body('end'))[:-1]
+        # White space before the first case is not part of any case
+        while body and isinstance(body[0], ir.TextNode) and not body[0].text.strip():
+            del body[0]
+        return ir.SwitchNode(token.body, *body)
 
     def _parse_case(self, token):
         body = list(self._parse_body('case', 'else', 'end'))
-- 
2.43.0


From 47ffb00c968e2a0282fb2c104e71017a7b54d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 32/53] fix: line directives and joined lines work with CR LF
 line ends

---
 kajiki/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 5bace4a..0863390 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -147,7 +147,7 @@ class _Scanner(object):
         end = self.source.find('\n', self.pos)
         if end == -1:
             end = len(self.source)
-        body = self.source[self.pos:end]
+        body = self.source[self.pos:end].rstrip('\r')
         self.pos = end + 1
         tag = self.tag(tagname, body)
         self.lineno += 1
@@ -383,7 +383,9 @@ def _unescape_newlines(text):
     i = 0
     while i < len(text):
         if text[i] == '\\' and i + 1 < len(text):
-            if text[i + 1] != '\n':
+            if text[i + 1:i + 3] == '\r\n':
+                i += 1
+            elif text[i + 1] != '\n':
                 yield text[i + 1]
             i += 2
         else:
-- 
2.43.0


From deed9a28be87ac0e47dbc198f631ce43f21c8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:27 +0000
Subject: [PATCH 33/53] fix: %if with %else may be nested in another %if or
 %case

---
 kajiki/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 0863390..bfba8c2 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -273,6 +273,8 @@ class _Parser(object):
         body = list(self._parse_body('end', 'else'))
         stoptok = body[-1]
         if stoptok.tagname == 'else':
+            # Not to be taken for the %else of an enclosing %if or %switch
+            stoptok.tagname = 'if_else'
             self.push_tok(stoptok)
         return ir.IfNode(token.body, *body[:-1])
 
@@ -297,6 +299,8 @@ class _Parser(object):
         body = list(self._parse_body('end'))
         return ir.ElseNode(*body[:-1])
 
+    _parse_if_else = _parse_else
+
     def _parse_extends(self, token):
         parts = shlex_split(token.body)
         fn = parts[0]
-- 
2.43.0


From 4ae6555085686823623c4df0c32b73a6bfdac7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:49 +0000
Subject: [PATCH 34/53] fix: the %end of a %switch with %else ends the switch

---
 kajiki/text.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index bfba8c2..54256da 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -283,7 +283,14 @@ class _Parser(object):
         return ir.ForNode(token.body, *body[:-1])
 
     def _parse_switch(self, token):
-        body = list(self._parse_body('end'))[:-1]
+        body = list(self._parse_body('end', 'else'))
+        stoptok = body.pop()
+        if stoptok.tagname == 'else':
+            # Consumes the %end, which is the one of the %switch, too
+            else_ = self._parse_else(stoptok)
+            else_.filename = stoptok.filename
+            else_.lineno = stoptok.lineno
+            body.append(else_)
         # White space before the first case is not part of any case
         while body and isinstance(body[0], ir.TextNode) and not body[0].text.strip():
             del body[0]
-- 
2.43.0


From 4f7771389fa8e3476995727ff214a154dc96dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:58 +0000
Subject: [PATCH 35/53] fix: line tables never go back more than 127 lines at
 once, which PyPy misreads

---
 kajiki/lnotab.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index 44dc3c2..23a8398 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -84,10 +84,10 @@ def lnotab(pairs, first_lineno=0):
             yield 127  # line
             yield 0   # byte
             line_delta -= 127
-        while line_delta < -128:
-            yield 128  # line
+        while line_delta < -127:  # PyPy takes -128 for 128
+            yield 129  # line
             yield 0   # byte
-            line_delta += 128
+            line_delta += 127
         yield line_delta & 255
         cur_byte, cur_line = byte_off, line_off
 
-- 
2.43.0


From 7f46fe4650ae61741544138f293b204643a5e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:12 +0000
Subject: [PATCH 36/53] fix: a misplaced py:else inside of another directive is
 reported

---
 kajiki/xml_template.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 2894bdf..caeba3e 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -458,8 +458,9 @@ class _Compiler(object):
     @annotate
     def _compile_else(self, node):
         """Convert py:else nodes to their intermediate representation."""
-        if (getattr(node.parentNode, 'tagName', '') != 'py:nop' and
-                not node.parentNode.hasAttribute('py:switch') and
+        # The children of a directive are inside of a py:nop node
+        directive = getattr(node.parentNode, 'parentNode', None)
+        if (getattr(directive, 'tagName', '') != 'py:switch' and
                 getattr(node.previousSibling, 'tagName', '') != 'py:if'):
             raise XMLTemplateCompileError(
                 'py:else directive must be inside a py:switch or directly after py:if '
-- 
2.43.0


From 5adcf896739147c32b7b07bfe8048546404893e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:31 +0000
Subject: [PATCH 37/53] fix: an expression that is opened at the end of a text
 is reported

---
 kajiki/xml_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index caeba3e..4e24f71 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -582,7 +582,7 @@ class _TextCompiler(object):
                  for idx, line in enumerate(py_expr().split('\n'))
                  if idx < se.lineno - 1]
             )
-            if py_expr(end)[-1] != '}':
+            if not py_expr(end).endswith('}'):
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-- 
2.43.0


From 714125443be0b429aed68fcaeeb1115ef4527fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:29 +0000
Subject: [PATCH 38/53] fix: TurboGears 1 plugin: basestring does not exist in
 Python 3

render() and transform() with the name of a template raised a NameError.
---
 kajiki/integration/turbogears1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index 39a39b6..2f69ffd 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -14,6 +14,8 @@ other versions.
 
 """
 
+from nine import basestring
+
 from kajiki import PackageLoader
 from kajiki.xml_template import XMLTemplate
 
-- 
2.43.0


From 7bbce28c3d2810e567f309d2518eebb47babfeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:34 +0000
Subject: [PATCH 39/53] fix: TurboGears 1 plugin: extra_vars_func is optional

With its default None, transform() raised a TypeError.
---
 kajiki/integration/turbogears1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index 2f69ffd..c8b5c35 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -76,5 +76,6 @@ class XMLTemplateEnginePlugin(object):
         if isinstance(template, basestring):
             template = self.load_template(template)
 
-        info.update(self.get_extra_vars())
+        if self.get_extra_vars is not None:
+            info.update(self.get_extra_vars())
         return template(info)
-- 
2.43.0


From 2666ab0687a40eb4488b783497446366be24298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:40 +0000
Subject: [PATCH 40/53] fix: TurboGears 1 plugin: kajiki.force_mode = txt
 forces text templates

The documented value was passed on to the loader, which knows this mode
as 'text' and parsed the templates as XML.
---
 kajiki/integration/turbogears1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index c8b5c35..a714c1c 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -35,6 +35,8 @@ class XMLTemplateEnginePlugin(object):
             'reload': engine_options.get('kajiki.reload', True),
             'force_mode': engine_options.get('kajiki.force_mode')
         }
+        if loader_options['force_mode'] == 'txt':
+            loader_options['force_mode'] = 'text'  # As the loaders call it
 
         Loader = PackageLoader
         custom_loader = engine_options.get('kajiki.loader_class')
-- 
2.43.0


From 6ee1134bda6cdb1985435ab357ee323f2287f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:37 +0000
Subject: [PATCH 41/53] fix: TurboGears 1 plugin: templates given as a string

XMLTemplate is a function, so that as a class attribute it was called
with the plugin itself as the source.
---
 kajiki/integration/turbogears1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/integration/turbogears1.py b/kajiki/integration/turbogears1.py
index a714c1c..afba20c 100644
--- a/kajiki/integration/turbogears1.py
+++ b/kajiki/integration/turbogears1.py
@@ -25,7 +25,7 @@ class ConfigurationError(ValueError):
 
 
 class XMLTemplateEnginePlugin(object):
-    template_class = XMLTemplate
+    template_class = staticmethod(XMLTemplate)
 
     def __init__(self, extra_vars_func=None, engine_options=None):
         engine_options = engine_options or {}
-- 
2.43.0


From 65c009d56f3f43e12b790fdbecd57773c8fc6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:52 +0000
Subject: [PATCH 42/53] fix: text templates: parentheses in the argument list
 of %call

---
 kajiki/text.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 54256da..c66f96a 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -261,6 +261,9 @@ class _Parser(object):
         b = token.body.find('(')
         e = token.body.find(')', b)
         assert e > b > -1
+        # The defaults of the arguments may contain parentheses
+        ends = [i for i in range(e, len(token.body)) if token.body[i] == ')']
+        e = next((i for i in ends if self._is_arglist(token.body[b:i + 1])), e)
         arglist = token.body[b:e + 1]
         call = token.body[e + 1:].strip()
         body = list(self._parse_body('end'))
@@ -269,6 +272,13 @@ class _Parser(object):
             call.replace('%caller', '$caller'),
             *body[:-1])
 
+    def _is_arglist(self, text):
+        try:
+            compile('def f%s: pass' % text, 'arglist', 'exec')
+        except SyntaxError:
+            return False
+        return True
+
     def _parse_if(self, token):
         body = list(self._parse_body('end', 'else'))
         stoptok = body[-1]
-- 
2.43.0


From 3b072b9ec571e0bdde2f05433f81394a66c86c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:57 +0000
Subject: [PATCH 43/53] fix: FileLoader: honour the encoding argument for text
 templates

---
 kajiki/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 3b609ff..c6d2b1a 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -83,7 +83,7 @@ class FileLoader(Loader):
                     del self.modules[name]
             return super(FileLoader, self).import_(name, *args, **kwargs)
 
-    def _load(self, name, encoding='utf-8', *args, **kwargs):
+    def _load(self, name, encoding=None, *args, **kwargs):
         '''Text templates are read in text mode and XML templates are read in
         binary mode. Thus, the ``encoding`` argument is only used for reading
         text template files.
@@ -96,6 +96,9 @@ class FileLoader(Loader):
         if filename is None:
             raise IOError('Unknown template %r' % name)
         self._timestamps[name] = (filename, os.stat(filename).st_mtime)
+        ext = os.path.splitext(filename)[1][1:]
+        if encoding and (self._force_mode or ext) in ('text', 'txt'):
+            options['encoding'] = encoding
         if self._force_mode == 'text':
             return TextTemplate(filename=filename,
                 autoescape=self._autoescape_text, *args, **options)
@@ -105,7 +108,6 @@ class FileLoader(Loader):
                                autoblocks=self._xml_autoblocks,
                                *args, **options)
         else:
-            ext = os.path.splitext(filename)[1][1:]
             return self.extension_map[ext](
                 source=None, filename=filename, *args, **options)
 
-- 
2.43.0


From 3469931000b3eab37fe7e9f32481696dd5fcef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:03 +0000
Subject: [PATCH 44/53] fix: keep the defaults of keyword-only arguments of
 template functions

---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index c81283a..54d45bf 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -407,6 +407,8 @@ class TplFunc(object):
             self._func.__defaults__,
             self._func.__closure__
         )
+        if not IS_PYTHON2:
+            func.__kwdefaults__ = self._func.__kwdefaults__
         return update_wrapper(
             lambda *a, **kw: flattener(func(*a, **kw)),
             func)
-- 
2.43.0


From 464c4cfdec9170e71f2f457f48d2ce925efeb6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 45/53] fix: Template() accepts objects that have no __name__

---
 kajiki/template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 54d45bf..385146a 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -327,7 +327,8 @@ def Template(ns):
         value = getattr(ns, name)
         if getattr(value, 'exposed', False):
             methods.append((name, TplFunc(getattr(value, '__func__', value))))
-    return type(ns.__name__, (_Template,), dct)
+    name = getattr(ns, '__name__', ns.__class__.__name__)
+    return type(name, (_Template,), dct)
 
 
 def from_ir(ir_node, base_globals=None):
-- 
2.43.0


From f18cde9fd552292aa5d72774e724795c81fc9010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:11 +0000
Subject: [PATCH 46/53] fix: the generated class is not a variable of the
 template

---
 kajiki/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 385146a..ec7a90a 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -357,7 +357,7 @@ def from_ir(ir_node, base_globals=None):
         exec(py_text, dct)
     except (SyntaxError, IndentationError) as e:  # pragma no cover
         raise KajikiSyntaxError(e.msg, py_text, e.filename, e.lineno, e.offset)
-    tpl = dct['template']
+    tpl = dct.pop('template')  # Not a name of the template
     tpl.base_globals = base_globals.copy()
     tpl.base_globals.update(dct)
     tpl.py_text = py_text
-- 
2.43.0


From 9d9c07f89e18337e616264f720e07ed8f203b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:04 +0000
Subject: [PATCH 47/53] fix: module-level names of an including template do not
 replace those of the included one

---
 kajiki/template.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index ec7a90a..09f1508 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -210,21 +210,18 @@ class _Template(object):
         if alias is None:
             alias = self.loader.default_alias_for(name)
         # Names of this template must not replace the own ones of the other
-        functions = dict((k, v) for k, v in iteritems(gbls)
-                         if isinstance(v, TplFunc))
-        context = dict((k, v) for k, v in iteritems(gbls)
-                       if k not in functions and k not in ('local', 'self', 'defined'))
-        r = gbls[alias] = tpl_cls(context)
-        r._borrow(functions)
+        r = gbls[alias] = tpl_cls(self._context)
+        r._borrow(dict((k, v) for k, v in iteritems(gbls)
+                       if k not in self._context))
         return r
 
-    def _borrow(self, functions):
-        """Make functions of an including template available, except for those
+    def _borrow(self, names):
+        """Make names of an including template available, except for those
         that this template has itself.
         """
-        self._borrowed = [k for k in functions if k not in self.__globals__]
+        self._borrowed = [k for k in names if k not in self.__globals__]
         for k in self._borrowed:
-            self.__globals__[k] = functions[k]
+            self.__globals__[k] = names[k]
 
     def _escape(self, value):
         """Returns the given HTML with ampersands, carets and quotes encoded."""
-- 
2.43.0


From e6913e92ff16e8660e871b814c9dbd60f2e77614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:09 +0000
Subject: [PATCH 48/53] fix: an import in a layout works when the layout is
 extended

---
 kajiki/template.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 09f1508..54f58be 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -91,6 +91,7 @@ class _Template(object):
         )
         self._switch_stack = []
         self._with_stack = []
+        self._aliases = set()
         self.__globals__.update(context)
         self.__globals__['_'] = self.__globals__['gettext']
         self.__globals__['value_of'] = self.__globals__.get
@@ -210,9 +211,18 @@ class _Template(object):
         if alias is None:
             alias = self.loader.default_alias_for(name)
         # Names of this template must not replace the own ones of the other
-        r = gbls[alias] = tpl_cls(self._context)
+        r = tpl_cls(self._context)
         r._borrow(dict((k, v) for k, v in iteritems(gbls)
                        if k not in self._context))
+        # The alias is for this template and, unless they have their own, for
+        # those that extend it
+        self._aliases.add(alias)
+        self.__globals__[alias] = r
+        inst = self._child
+        while inst is not None:
+            if alias not in inst._aliases:
+                inst.__globals__[alias] = r
+            inst = inst._child
         return r
 
     def _borrow(self, names):
-- 
2.43.0


From 57e40658673d21f2061d61286f53a947abfbfd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:13 +0000
Subject: [PATCH 49/53] fix: an include does not bind a name in the including
 template

---
 kajiki/ir.py       |  2 +-
 kajiki/template.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index e84e6e0..0868e1a 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -127,7 +127,7 @@ class IncludeNode(Node):
 
     def py(self):
         yield self.line(
-            'yield local.__kj__.import_(%r, None, self.__globals__).__main__()' % (
+            'yield local.__kj__.include(%r, self.__globals__).__main__()' % (
                 self.tpl_name))
 
 
diff --git a/kajiki/template.py b/kajiki/template.py
index 54f58be..1934796 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -82,6 +82,7 @@ class _Template(object):
             pop_switch=self._pop_switch,
             case=self._case,
             import_=self._import,
+            include=self._include,
             escape=self._escape,
             gettext=self._gettext,
             render_attrs=self._render_attrs,
@@ -199,7 +200,7 @@ class _Template(object):
         """Check against current ``py:switch`` value."""
         return obj == self._switch_stack[-1]
 
-    def _import(self, name, alias, gbls):
+    def _include(self, name, gbls):
         # Load template as a fragment to avoid extra <DOCTYPE> in included output.
         # Due to loader cache, this has the side effect that if the same
         # template is both included and used as a standalone page
@@ -208,12 +209,16 @@ class _Template(object):
         # Also there is no way to set a template as a fragment once loaded. 
         # So we can only do it through the loader.
         tpl_cls = self.loader.import_(name, is_fragment=True)
-        if alias is None:
-            alias = self.loader.default_alias_for(name)
         # Names of this template must not replace the own ones of the other
         r = tpl_cls(self._context)
         r._borrow(dict((k, v) for k, v in iteritems(gbls)
                        if k not in self._context))
+        return r
+
+    def _import(self, name, alias, gbls):
+        r = self._include(name, gbls)
+        if alias is None:
+            alias = self.loader.default_alias_for(name)
         # The alias is for this template and, unless they have their own, for
         # those that extend it
         self._aliases.add(alias)
-- 
2.43.0


From ec10f2b03841c6fae54b7c7b11e2413dc78acd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:18 +0000
Subject: [PATCH 50/53] fix: py:with keeps the previous values of each block on
 its own

---
 kajiki/ir.py       | 14 ++++++++------
 kajiki/template.py | 22 +++++-----------------
 2 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 0868e1a..e979f2a 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -199,13 +199,14 @@ class WithNode(HierNode):
     assignment_pattern = re.compile(r'(?:^|;)\s*([^;=]+)=(?!=)', re.M)
 
     class WithTail(Node):
-        def __init__(self, var_names):
+        def __init__(self, var_names, genname):
             super(WithNode.WithTail, self).__init__()
             self.var_names = var_names
+            self.genname = genname
 
         def py(self):
-            yield self.line('(%s,) = local.__kj__.pop_with()' %
-                            (','.join(self.var_names),))
+            yield self.line('(%s,) = %s' %
+                            (','.join(self.var_names), self.genname))
             # yield self.line('if %s == (): del %s' % (v, v))
 
     def __init__(self, vars, *body):
@@ -224,6 +225,7 @@ class WithNode(HierNode):
 
         self.vars = assignments
         self.var_names = [l for l, _ in assignments]
+        self.genname = gen_name()
 
     @staticmethod
     def _is_complete(expr):
@@ -235,8 +237,8 @@ class WithNode(HierNode):
 
     def py(self):
         yield self.line(
-            'local.__kj__.push_with(locals(), [%s])' % (
-                ','.join('"%s"' % k for k in self.var_names),))
+            '%s = local.__kj__.save_vars(locals(), [%s])' % (
+                self.genname, ','.join('"%s"' % k for k in self.var_names)))
         for k, v in self.vars:
             yield self.line('%s = %s' % (k, v))
 
@@ -244,7 +246,7 @@ class WithNode(HierNode):
         yield self
         for x in self.body_iter():
             yield x
-        yield self.WithTail(self.var_names)
+        yield self.WithTail(self.var_names, self.genname)
 
 
 class SwitchNode(HierNode):
diff --git a/kajiki/template.py b/kajiki/template.py
index 1934796..c820184 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -86,12 +86,10 @@ class _Template(object):
             escape=self._escape,
             gettext=self._gettext,
             render_attrs=self._render_attrs,
-            push_with=self._push_with,
-            pop_with=self._pop_with,
+            save_vars=self._save_vars,
             collect=self._collect,
         )
         self._switch_stack = []
-        self._with_stack = []
         self._aliases = set()
         self.__globals__.update(context)
         self.__globals__['_'] = self.__globals__['gettext']
@@ -113,25 +111,15 @@ class _Template(object):
         """Used by the code generated by the template to translate static text"""
         return self.__globals__['gettext'](s)
 
-    def _push_with(self, locals_, vars):
+    def _save_vars(self, locals_, vars):
         """Enter a ``py:with`` block.
 
         When a ``py:with`` block is encountered, previous values
         of the variables assigned inside the ``py:with`` statement are
-        pushed on top of a stack by :class:`kajiki.ir.WithNode` so that
-        when the node is exited the previous values can be recovered.
+        kept by :class:`kajiki.ir.WithNode` so that when the node is
+        exited it can set any previously existing variable to its old value.
         """
-        self._with_stack.append([
-            locals_.get(k, self.__globals__.get(k, ())) for k in vars])
-
-    def _pop_with(self):
-        """Exists a ``py:with`` block.
-
-        When a ``py:with`` block is exited the values stack is popped
-        and the head returned to :class:`kajiki.ir.WithNode` so that
-        it can set any previously existing variable to its old value.
-        """
-        return self._with_stack.pop()
+        return [locals_.get(k, self.__globals__.get(k, ())) for k in vars]
 
     def _extend(self, parent):
         """
-- 
2.43.0


From cf668e3317eded2d90021cdc20a38ce1201a42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:29 +0000
Subject: [PATCH 51/53] fix: evaluate the condition of py:strip only once

---
 kajiki/xml_template.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 4e24f71..01da616 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -23,6 +23,7 @@ from .entities import html5, unescape
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
+from .util import gen_name
 
 impl = dom.getDOMImplementation(' ')
 
@@ -222,11 +223,13 @@ class _Compiler(object):
         content = attrs = guard = None
         if node.hasAttribute('py:strip'):
             guard = node.getAttribute('py:strip')
+            node.removeAttribute('py:strip')
             if guard == '':  # py:strip="" means yes, do strip the tag
                 guard = 'False'
             else:
-                guard = 'not (%s)' % guard
-            node.removeAttribute('py:strip')
+                # Evaluated only once: the start and the end tag belong together
+                condition, guard = guard, gen_name()
+                yield ir.PythonNode(ir.TextNode('%s = not (%s)' % (guard, condition)))
         yield ir.TextNode('<%s' % node.tagName, guard)
         for k, v in sorted(node.attributes.items()):
             tc = _TextCompiler(self.filename, v, node.lineno,
-- 
2.43.0


From b46277495a7aa7ea6809798c07c7780365c59675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:49 +0000
Subject: [PATCH 52/53] fix: keep attributes that differ only in their prefix

---
 kajiki/xml_template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 01da616..b0a7143 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -708,7 +708,9 @@ class _Parser(sax.ContentHandler):
         el = self._doc.createElement(name)
         el.lineno = self._parser.getLineNumber()
         for k, v in attrs.items():
-            el.setAttribute(k, v)
+            # setAttribute() takes xml:lang and lang, or py:for and for,
+            # for the same attribute unless their namespaces differ.
+            el.setAttributeNS(k.partition(':')[0] if ':' in k else None, k, v)
         self._els[-1].appendChild(el)
         self._els.append(el)
 
-- 
2.43.0


From 797d83b9fe0a1907e6e39f4f54a23541c7669693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:25 +0000
Subject: [PATCH 53/53] fix: py:with restores the built-in functions it hides

---
 kajiki/template.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index c820184..51f1614 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -7,6 +7,11 @@ import types
 from nine import IS_PYTHON2, basestring, str, iteritems
 from sys import version_info
 
+try:
+    import builtins
+except ImportError:  # Python 2
+    import __builtin__ as builtins
+
 try:
     from functools import update_wrapper
 except:
@@ -119,7 +124,8 @@ class _Template(object):
         kept by :class:`kajiki.ir.WithNode` so that when the node is
         exited it can set any previously existing variable to its old value.
         """
-        return [locals_.get(k, self.__globals__.get(k, ())) for k in vars]
+        return [locals_.get(k, self.__globals__.get(k, getattr(builtins, k, ())))
+                for k in vars]
 
     def _extend(self, parent):
         """
-- 
2.43.0

