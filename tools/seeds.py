"""Planted bugs: id -> property, edits to original lines, what they need, what they break, and the demonstration (runs against ./pylib)."""
SEEDS = {}
def seed(id, property, edits, needs, breaks, demo): SEEDS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)
U = 'pylib/uxml/'
X = U + 'uxpath/'

seed('split-in-charref', 'C01', [(U + 'parser.py', "if window[cursor] == '#' and window[cursor + 1] == 'x':", "if window[cursor:cursor+2] == '#x':")],
     'a fragment that ends between the # and the x of a character reference',
     'the document is rejected when split there although it is accepted whole', '''
from amara3.uxml.parser import parse, parsefrags
doc = '<a>p&#x41;q</a>'
whole = [e for e in parse(doc)]
for i in range(1, len(doc)):
    got = list(parsefrags((doc[:i], doc[i:])))
    assert [e for e in got if e[0].name != 'characters'] == [e for e in whole if e[0].name != 'characters'], i
    assert ''.join(e[1] for e in got if e[0].name == 'characters') == 'pAq', i
''')
seed('namechar-joiner', 'C02', [(U + 'parser.py', r"""'\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \\"""[:-1], r"""'\u037F-\u1FFF\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \\"""[:-1])],
     'a name with a zero-width joiner or non-joiner after its first character', 'legal names are rejected', '''
from amara3.uxml import tree
assert tree.parse('<a\\u200db>x</a\\u200db>').xml_name == 'a\\u200db'
''')
seed('charref-prefix', 'C03', [(U + 'parser.py', "if window[start:cursor] == cn:", "if window.startswith(cn, start):")],
     'a character reference whose name starts with a known name, such as &lte;', 'an unknown reference is accepted', '''
from amara3.uxml.parser import parse
try: got = list(parse('<a>1 &lte; 2</a>'))
except RuntimeError: pass
else: raise SystemExit('accepted: %r' % got)
''')
seed('nonchar-ref', 'C03', [(U + 'parser.py', """CHARACTER = re.compile('[\\u0009\\u000a\\u0020-\\u007e\\u00a0-\\ud7ff\\ue000-\\ufdcf\\ufdf0-\\ufffd' \\
            '\\U00010000-\\U0001fffd\\U00020000-\\U0002fffd\\U00030000-\\U0003fffd""", """CHARACTER = re.compile('[\\u0009\\u000a\\u0020-\\u007e\\u00a0-\\ud7ff\\ue000-\\ufdcf\\ufdf0-\\ufffd' \\
            '\\U00010000-\\U0001ffff\\U00020000-\\U0002fffd\\U00030000-\\U0003fffd""")],
     'a reference to the noncharacter U+1FFFE or U+1FFFF', 'a forbidden character gets in', '''
from amara3.uxml.parser import parse
for c in ('1FFFE', '1ffff'):
    try: got = list(parse('<a>&#x%s;</a>' % c))
    except RuntimeError: pass
    else: raise SystemExit('accepted: %r' % got)
''')
seed('shared-end-stack', 'C04', [(U + 'xml.py', "self._handler.send((event.end_element, local, self._elem_stack.copy()))", "self._handler.send((event.end_element, local, self._elem_stack))")],
     'an end event from XML looked at after later elements were parsed', 'the ancestor list of an end event that was delivered changes afterwards', '''
from amara3.uxml import xml
out = []
def h():
    while True:
        out.append((yield))
xml.parse('<a><b/><c/></a>', h())
ends = [(e[1], list(e[2])) for e in out if e[0].name == 'end_element']
assert ends == [('b', ['a']), ('c', ['a']), ('a', [])], ends
''')
seed('builder-keeps-root', 'C05', [(U + 'tree.py', """        self._root = None
        self._parent = None
        h = self._handler()""", """        if self._parent is None: self._root = None
        self._parent = None
        h = self._handler()""")],
     'a builder used again after a document that failed inside an element', 'the next parse returns the tree of the failed document', '''
from amara3.uxml import tree
tb = tree.treebuilder()
try: tb.parse('<a><b></a>')
except RuntimeError: pass
r = tb.parse('<c>x</c>')
assert r.xml_encode() == '<c>x</c>', r.xml_encode()
''')
seed('insert-negative', 'C06', [(U + 'tree.py', "        if index == -1:\n", "        if index < 0:\n")],
     'an insertion at a position counted from the end other than -1', 'the node is not put where it was asked', '''
from amara3.uxml import tree
r = tree.parse('<a><b></b><c></c><d></d></a>')
r.xml_insert(tree.element('x'), -2)
names = [c.xml_name for c in r.xml_children]
assert names == ['b', 'x', 'c', 'd'], names
''')
seed('strval-blank', 'C07', [(U + 'tree.py', "        if isinstance(child, text):\n            accumulator", "        if isinstance(child, text) and not child.isspace():\n            accumulator")],
     'a text node of white space only', 'strval leaves it out of the string value', '''
from amara3.uxml import tree
r = tree.parse('<a>x<b> </b>y</a>')
assert tree.strval(r) == 'x y', tree.strval(r)
''')
seed('encode-fast-path', 'C08', [(U + 'tree.py', "                strbits.append(escape(child))", "                strbits.append(escape(child) if '&' in child or '<' in child else child)")],
     'a text with > but neither & nor <', 'it is written unescaped, which the parser rejects', '''
from amara3.uxml import tree
r = tree.parse('<a>1 &gt; 0</a>')
assert tree.parse(r.xml_encode()).xml_value == '1 > 0'
''')
seed('writer-escaped-already', 'C09', [(U + 'writer.py', """        if ctx in (context.text,):
            text = escape(text)
        if isinstance(text, token): text = TOKENS[text]
        self._fp.write(text)
        return

    def start_element(self, name, attribs=None, empty=False):""", """        if ctx in (context.text,) and not text.startswith('&'):
            text = escape(text)
        if isinstance(text, token): text = TOKENS[text]
        self._fp.write(text)
        return

    def start_element(self, name, attribs=None, empty=False):""")],
     'a text that starts with an ampersand', 'it is written unescaped', '''
import io
from amara3.uxml import writer, tree
fp = io.StringIO()
w = writer.raw(fp)
w.start_element('a'); w.text('&lt; is a reference'); w.end_element('a')
assert tree.parse(fp.getvalue()).xml_value == '&lt; is a reference', fp.getvalue()
''')
seed('namespacer-attr-as-element', 'C10', [(U + 'writer.py', "prefix = self._mapping.get('@' + text, ('', ''))[1]", "prefix = self._mapping.get('@' + text, self._mapping.get(text, ('', '')))[1]")],
     'an attribute with the same name as an element that has a mapping', 'the attribute gets the prefix of the element', '''
import io
from amara3.uxml import writer, tree
fp = io.StringIO()
w = writer.namespacer(fp, prefixes={'x': 'urn:x'}, mapping={'b': ('urn:x', 'x')})
writer.write(tree.parse('<b b="1" c="2"></b>'), w)
assert fp.getvalue() == '<x:b xmlns:x="urn:x" b="1" c="2"></x:b>', fp.getvalue()
''')
seed('pretty-orphan', 'C11', [(U + 'treeutil.py', "        new_text = text('\\n' + indent*(depth-1), elem)\n        updated_child_list.append(new_text)\n    elem.xml_children", "        new_text = text('\\n' + indent*(depth-1))\n        updated_child_list.append(new_text)\n    elem.xml_children")],
     'looking at the parent of the white space put before an end tag', 'that text node has no parent', '''
from amara3.uxml import tree
from amara3.uxml.treeutil import make_pretty
r = make_pretty(tree.parse('<a><b>1</b></a>'))
assert all(c.xml_parent is r for c in r.xml_children)
''')
seed('attribute-empty-value', 'C12', [(U + 'treeutil.py', "        if val is None:\n            return name in", "        if not val:\n            return name in")],
     'selecting by an attribute value that is the empty string', 'elements with other values are returned too', '''
from amara3.uxml import tree
from amara3.uxml.treeutil import select_attribute
r = tree.parse('<a><b k=""></b><b k="1"></b></a>')
assert [e.xml_attributes['k'] for e in select_attribute(r, 'k', '')] == ['']
''')
seed('trailing-any', 'C13', [(U + 'treeutil.py', "                next_state = any_until(next_state)", "                next_state = any_until(next_state) if i else elem_test(next_state)")],
     'a pattern that ends in ** on a tree deeper than one more level', 'deeper descendants are not returned, and the level before is not either', '''
from amara3.uxml import tree
from amara3.uxml.treeutil import select_pattern
r = tree.parse('<r><a><b><c></c></b></a></r>')
got = [e.xml_name for e in select_pattern(r, ('a', '**'))]
assert got == ['a', 'b', 'c'], got
''')
seed('stream-one-at-a-time', 'C14', [(U + 'treeiter.py', "                    elif self._match_state(ix):", "                    elif not any(self._building_depths[:ix]) and self._match_state(ix):")],
     'two patterns, a match of the second inside a match of the first', 'the inner match is not delivered to its sink', '''
from amara3.uxml import treeiter
out = []
def sink(k):
    while True:
        e = yield
        out.append((k, e.xml_encode()))
treeiter.sender([('a', 'b'), ('a', 'b', 'c')], [sink(1), sink(2)]).parse('<a><b>1<c>2</c></b></a>')
assert out == [(2, '<c>2</c>'), (1, '<b>1<c>2</c></b>')], out
''')
seed('xml-blank-chunks', 'C15', [(U + 'xml.py', "        #print('Character data:', repr(data))\n", "        if data.isspace() and '\\n' not in data: return\n")],
     'a chunk of character data made of spaces alone, such as between two references or entities', 'the spaces are lost', '''
from amara3.uxml import xml
r = xml.treebuilder().parse('<a>x&amp; &lt;<b> </b></a>')
assert r.xml_value == 'x& < ', repr(r.xml_value)
''')
seed('xmliter-final', 'C16', [(U + 'xmliter.py', "        self.expat_parser.Parse(source)\n", "        self.expat_parser.Parse(source, not source.endswith('\\n'))\n")],
     'a document fed in pieces, one of which does not end with a line feed', 'feeding fails', '''
from amara3.uxml import xmliter
out = []
def sink():
    while True:
        e = yield
        out.append(e.xml_value)
s = xmliter.sender(('a', 'b'), sink())
s.parse('<a><b>1</b>'); s.parse('<b>2</b></a>')
assert out == ['1', '2'], out
''')
seed('following-order', 'C17', [(X + 'xast.py', "                to_process = list(ff.xml_children) + to_process[1:]", "                to_process = to_process[1:] + list(ff.xml_children)")],
     'following axis where a following node has children and is not the last', 'nodes come out level by level, not in document order', '''
from amara3.uxml import tree
r = tree.parse('<r><a></a><b><c></c></b><d></d></r>')
a = r.xml_children[0]
got = [e.xml_name for e in a.xml_xpath('following::*')]
assert got == ['b', 'c', 'd'], got
''')
seed('abs-wrong-context', 'C18', [(X + 'xast.py', """            new_ctx = ctx.copy(item=rnode)
            yield from self.relative.compute(new_ctx)
            to_process = list(rnode.xml_children)""", """            yield from self.relative.compute(ctx)
            to_process = list(rnode.xml_children)""")],
     'an expression that starts with // evaluated from a node other than the root', 'nodes relative to the context node are selected as well', '''
from amara3.uxml import tree
r = tree.parse('<r><a><b></b></a></r>')
a = r.xml_children[0]
got = [e.xml_name for e in a.xml_xpath('//b')]
assert got == ['b'], got
''')
seed('blank-string-false', 'C21', [(X + 'xast.py', "        yield bool(val)\n    elif isinstance(val, node):", "        yield bool(val.strip())\n    elif isinstance(val, node):")],
     'a string of white space only where a boolean is needed', 'it counts as false', '''
from amara3.uxml import tree
r = tree.parse('<r>x</r>')
assert list(r.xml_xpath('boolean(" ")')) == [True]
''')
seed('not-value', 'C20', [(X + 'functions.py', "    return to_boolean(obj)\n\n\ndef number_arg", "    return to_boolean(strval(obj) if isinstance(obj, element) else obj)\n\n\ndef number_arg")],
     'not() of an element with no text', 'it yields true though a node counts as true', '''
from amara3.uxml import tree
r = tree.parse('<r><a></a></r>')
assert list(r.xml_xpath('not(r/a)')) == [False]
''')
seed('contains-empty', 'C21', [(X + 'functions.py', "    yield part in full\n", "    yield full.find(part) > -1 if part else False\n")],
     'contains() with an empty second string', 'it yields false', '''
from amara3.uxml import tree
r = tree.parse('<r>x</r>')
assert list(r.xml_xpath('contains("a", "")')) == [True]
''')
seed('abs-root-cached', 'C23', [(X + 'xast.py', "        rnode = root_node.get(ctx.item)\n", "        if not hasattr(self, '_rnode'): self._rnode = root_node.get(ctx.item)\n        rnode = self._rnode\n")],
     'a parsed absolute expression evaluated on two trees', 'the second evaluation answers for the first tree', '''
from amara3.uxml import tree
from amara3.uxml.uxpath import parse
p = parse('/a/b')
a, b = tree.parse('<a><b>1</b></a>'), tree.parse('<a><b>2</b></a>')
assert [e.xml_value for e in a.xml_xpath(p)] == ['1']
assert [e.xml_value for e in b.xml_xpath(p)] == ['2']
''')
seed('serialize-predicates', 'C24', [(X + 'xast.py', """        for predicate in self.predicates:
            yield '['
            for tok in _serialize(predicate):
                yield tok
            yield ']'""", """        yield '['
        for i, predicate in enumerate(self.predicates):
            if i: yield ' and '
            for tok in _serialize(predicate):
                yield tok
        yield ']'""")],
     'an expression with two predicates', 'they are serialized as one, which means something else for positions', '''
from amara3.uxml import tree
from amara3.uxml.uxpath import parse, xast
r = tree.parse('<r><a></a><a k="1"></a><a k="2"></a></r>')
e = parse('r/a[@k][2]')
f = parse(xast.serialize(e))
assert [x.xml_attributes for x in r.xml_xpath(e)] == [x.xml_attributes for x in r.xml_xpath(f)] == [{'k': '2'}]
''')
seed('clone-shares-attributes', 'C25', [(U + 'html5.py', "attrs = self.xml_attributes.copy()", "attrs = self.xml_attributes")],
     'an element that is cloned (misnested formatting) and then changed', 'the attributes of clone and original are one mapping', '''
from amara3.uxml import html5
a = html5.element('b', {'k': '1'})
b = a.cloneNode()
b.attributes['k'] = '2'
assert a.xml_attributes == {'k': '1'} and b.xml_attributes == {'k': '2'}
''')
seed('literal-newline', 'C29', [(X + 'lexrules.py', '''    r""""[^"]*"|'[^']*'"""''', '''    r""""[^"\\n]*"|'[^']*'"""''')],
     'a double-quoted literal with a line feed in it', 'the expression is rejected', '''
from amara3.uxml.uxpath import parse
parse('"a\\nb"')
parse("'a\\nb'")
''')
seed('comma-space', 'C29', [(X + 'lexrules.py', "t_ignore = ' \\t\\r\\n'", "t_ignore = ' \\t\\n'")],
     'an expression with a carriage return between its tokens', 'it is rejected', """
from amara3.uxml.uxpath import parse
parse('a\\r\\n/b')
""")
ISXML = '''
import os, subprocess, sysconfig, importlib.util
r = os.environ['REPO']
subprocess.check_call(['gcc', '-shared', '-fPIC', '-w', '-I' + r + '/clib', '-I' + sysconfig.get_paths()['include'], r + '/clib/xmlstring.c', '-o', 'cxmlstring.so'])
spec = importlib.util.spec_from_file_location('cxmlstring', './cxmlstring.so')
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
'''
seed('isxml-skip-bom', 'C26', [('clib/xmlstring.c', """          encoding = "utf-16";
          break;""", """          /* Skip over the BOM here as well */
          encoding = "utf-16";
          str += 2;
          len -= 2;
          break;""")],
     'bytes with a big-endian UTF-16 byte-order mark on a little-endian machine', 'they are decoded with the wrong byte order', ISXML + '''
assert m.isxml(b'\\xfe\\xff\\0 \\0<\\0a') is True
assert m.isxml(b'\\xff\\xfe \\0<\\0a\\0') is True
''')
seed('isxml-blank', 'C26', [('clib/xmlstring.c', "  if (len >= 4) {", "  if (len > 4) {")],
     'exactly four bytes that are an encoding signature', 'they are not recognised', ISXML + '''
assert m.isxml(b'\\0<\\0?') is True
assert m.isxml(b'<?xm') is True
''')
seed('microx-one-sender', 'C27', [('exec/microx', """    for source in sources:
        if partition:
            ts = xmliter.sender(('**', partition), sink())
""", """    if partition:
        ts = xmliter.sender(('**', partition), sink())
    for source in sources:
        if partition:
""")],
     '--partition with two or more sources', 'the second source cannot be read', '''
import os, subprocess, sys
for i in (1, 2):
    with open('d%d.xml' % i, 'w') as f: f.write('<a><b>%d</b></a>' % i)
o = subprocess.run([sys.executable, '-c', 'import runpy, sys; sys.path.insert(0, %r); sys.argv[0] = "microx"; runpy.run_path(%r, run_name="__main__")' % (os.getcwd(), os.environ['REPO'] + '/exec/microx'),
                    '--expr=string(b)', '--partition=b', 'd1.xml', 'd2.xml'], stdout=subprocess.PIPE)
assert o.returncode == 0 and o.stdout == b'1\\n2\\n', o
''')
seed('microx-foreach-same', 'C27', [('exec/microx', "            ctx = context(item, variables=varmap, force_root=False)\n            innerresult", "            ctx = context(item, variables=varmap, force_root=not isinstance(item, element))\n            innerresult")],
     '--foreach on results that are texts, attributes or values', 'the foreach expression is evaluated from the root instead', '''
import os, subprocess, sys
with open('d.xml', 'w') as f: f.write('<a><b x="1">t</b></a>')
o = subprocess.run([sys.executable, '-c', 'import runpy, sys; sys.path.insert(0, %r); sys.argv[0] = "microx"; runpy.run_path(%r, run_name="__main__")' % (os.getcwd(), os.environ['REPO'] + '/exec/microx'),
                    '--expr=//text()', '--foreach=name(..)', 'd.xml'], stdout=subprocess.PIPE)
assert o.returncode == 0 and o.stdout == b'b\\n', o
''')
seed('builtin-first', 'C30', [(X + '__init__.py', "self.functions = functions or BUILTIN_FUNCTIONS", "self.functions = dict(functions or {}, **BUILTIN_FUNCTIONS)")],
     'a mapping of functions that has a name of a built-in function, or lacks one that is called', 'the built-in function runs instead of the one given', '''
from amara3.uxml import tree
e = tree.parse('<a><b>1</b></a>')
mine = {'count': lambda ctx, *args: iter(['mine'])}
assert list(e.xml_xpath('count(a/b)', funcs=mine)) == ['mine']
try: got = list(e.xml_xpath('string(a)', funcs=mine))
except RuntimeError: pass
else: raise SystemExit('unknown function accepted: %r' % got)
''')
seed('foreach-fresh-context', 'C30', [(X + 'functions.py', "        innerctx = ctx.copy(item=item)\n        yield from pexpr.compute(innerctx)\n\n\n@microxpath_function('lookup')",
     "        innerctx = context(item, variables=ctx.variables, force_root=False)\n        yield from pexpr.compute(innerctx)\n\n\n@microxpath_function('lookup')")],
     "a function of the caller called from a for-each expression", 'it is unknown there', '''
from amara3.uxml import tree
from amara3.uxml.uxpath.functions import BUILTIN_FUNCTIONS
e = tree.parse('<a><b>1</b><b>2</b></a>')
f = dict(BUILTIN_FUNCTIONS, twice=lambda ctx: iter([ctx.item.xml_value * 2]))
assert list(e.xml_xpath("for-each(a/b, 'twice()')", funcs=f)) == ['11', '22']
''')
seed('variable-default', 'C30', [(X + 'xast.py', "        yield ctx.variables[self.name]", "        yield ctx.variables.get(self.name, '')")],
     'a name of no variable given', 'the mistake goes unnoticed, the empty string is used', '''
from amara3.uxml import tree
e = tree.parse('<a><b x="">1</b></a>')
try: got = list(e.xml_xpath('a/b[@x=$nope]', vars={'v': 1}))
except Exception: pass
else: raise SystemExit('unknown variable accepted: %r' % got)
''')
seed('ns-prefixes-popped', 'C31', [(U + 'writer.py', "                for k, v in self._prefixes.items():\n", "                while self._prefixes:\n                    k = next(iter(self._prefixes))\n                    v = self._prefixes.pop(k)\n")],
     'one mapping of prefixes used for two writers', 'the second document has no declarations', '''
import io
from amara3.uxml import tree, writer
p = {'p': 'urn:p'}
for i in range(2):
    fp = io.StringIO()
    writer.write(tree.parse('<a><b>1</b></a>'), writer.namespacer(fp, prefixes=p, mapping={'a': ('urn:p', 'p')}))
    assert fp.getvalue() == '<p:a xmlns:p="urn:p"><b>1</b></p:a>', fp.getvalue()
''')
seed('shared-ancestors', 'C31', [(U + 'parser.py', "def parser(handler, strict=True):\n", "def parser(handler, strict=True, element_stack=[]):\n"), (U + 'parser.py', "    element_stack = []\n", "    del element_stack[:]\n")],
     'a parser started while another one is at work', 'the open elements of the first are forgotten', '''
from amara3.uxml.parser import parser, handler, parsefrags
one, two = [], []
p, q = parser(handler(one)), None
p.send(('<a><b>1', False))
q = parser(handler(two))
q.send(('<c>x</c>', False)); q.send(('', True))
p.send(('</b></a>', False)); p.send(('', True))
assert [e[0].name for e in one] == ['start_element', 'start_element', 'characters', 'end_element', 'end_element']
assert len(two) == 3
''')
seed('xml-stack-shared', 'C31', [(U + 'xml.py', "class expat_callbacks(object):\n", "class expat_callbacks(object):\n    _elem_stack = []\n\n"), (U + 'xml.py', "        self._elem_stack = []\n", "        del self._elem_stack[:]\n")],
     'an XML document parsed while another one is being parsed', 'the open elements of the outer one are forgotten', '''
from amara3.uxml import xml
def keep(acc, extra=None):
    while True:
        e = yield
        acc.append(e)
        if extra and len(acc) == 2: extra()
a, b = [], []
xml.parse('<a><b>1</b><c/></a>', keep(a, lambda: xml.parse('<x><y/></x>', keep(b))))
assert [e[-1] for e in a if e[0].name == 'start_element'] == [[], ['a'], ['a']], a
''')
seed('expr-keeps-root', 'C32', [(X + 'xast.py', "        rnode = root_node.get(ctx.item)\n        # Simple /", "        rnode = self.root = root_node.get(ctx.item)\n        # Simple /")],
     'a parsed absolute expression that is kept after use', 'it keeps the last tree it was used on', '''
import gc, weakref
from amara3.uxml import tree, uxpath
x = uxpath.parse('//b')
gc.disable()
e = tree.parse('<a><b>1</b></a>')
r = weakref.ref(e)
list(e.xml_xpath(x))
del e
assert r() is None
''')
seed('text-keeps-parent', 'C32', [(U + 'tree.py', "        node.__init__(self, parent)\n        self.xml_name = '#text'\n", "        node.__init__(self, parent)\n        if parent is not None: self._xml_parent = lambda: parent\n        self.xml_name = '#text'\n")],
     'an element with text, given up', 'it stays until the collector runs, and with a text one holds its element too', '''
import gc, weakref
from amara3.uxml import tree
gc.disable()
e = tree.parse('<a><b>1</b></a>')
r = weakref.ref(e.xml_children[0])
del e
assert r() is None
''')
seed('portfolio-last-element', 'C33', [(U + 'xml.py', "        if local not in self.ns_portfolio:\n", "        if ns or local not in self.ns_portfolio:\n")],
     'a second element of the same name, in another namespace than the first', 'the namespace set aside for the name is no longer that of the first', '''
from amara3.uxml import xml, xmliter
def sink():
    while True: yield
s = xmliter.sender(('*',), sink(), callbacks=xml.ns_expat_callbacks)
s.parse('<a xmlns:p="u:1" xmlns:q="u:2"><p:b/><q:b/></a>')
assert s.handler.ns_portfolio['b'] == ('u:1', 'p'), s.handler.ns_portfolio
''')
seed('prefix-latest', 'C33', [(U + 'xml.py', "        self.prefixes[prefix] = ns\n        self._set", "        self.prefixes.setdefault(prefix, ns)\n        self._set")],
     'a prefix declared again for another namespace', 'the prefixes set aside keep the first one', '''
from amara3.uxml import xml, xmliter
def sink():
    while True: yield
s = xmliter.sender(('*',), sink(), callbacks=xml.ns_expat_callbacks)
s.parse('<a><b xmlns:p="u:1"/><b xmlns:p="u:2"/></a>')
assert s.handler.prefixes == {'p': 'u:2'}, s.handler.prefixes
''')
seed('portfolio-attr-by-element', 'C33', [(U + 'xml.py', "self.ns_portfolio['@' + alocal] = ", "if alocal not in self.ns_portfolio: self.ns_portfolio['@' + alocal] = ")],
     'an attribute with the name of an element', 'its namespace is not set aside, so it is lost when the document is written back', '''
import io
from amara3.uxml import xml, xmliter, writer
got = []
def sink():
    while True: got.append((yield))
s = xmliter.sender(('*',), sink(), callbacks=xml.ns_expat_callbacks)
s.parse('<a xmlns:p="u:1"><b p:a="1"/></a>')
f = io.StringIO()
writer.write(got[0], writer.namespacer(f, prefixes=s.handler.prefixes, mapping=s.handler.ns_portfolio))
assert 'p:a="1"' in f.getvalue(), f.getvalue()
''')
seed('html-hascontent', 'C28', [(U + 'html5.py', "return bool(self.xml_children)", "return bool(self.xml_value)")],
     'a pre element that starts with an empty element and then a line end', 'the line end is dropped', '''
from amara3.uxml import html5
e = html5.parse('<pre><img>\\nx</pre>')
pre = e.xml_children[1].xml_children[0]
assert pre.xml_value == '\\nx', repr(pre.xml_value)
''')
seed('html-qname-second', 'C28', [(U + 'html5.py', "return qname.split(':')[-1]", "return qname.partition(':')[2] or qname")],
     'a tag name with two colons', 'the element keeps the middle part in its name', '''
from amara3.uxml import html5
e = html5.parse('<o:x:y>1</o:x:y>')
assert e.xml_children[1].xml_children[0].xml_name == 'y', e.xml_encode()
''')
seed('html-xml-attrs', 'C28', [(U + 'html5.py', "elif key.startswith(u'xmlns'):", "elif key.startswith((u'xml', u'xmlns')):")],
     'xml:lang on an HTML element', 'the attribute is lost', '''
from amara3.uxml import html5
e = html5.parse('<p xml:lang="en">x</p>')
assert e.xml_children[1].xml_children[0].xml_attributes == {'xml:lang': 'en'}, e.xml_encode()
''')
seed('html-comment-value', 'C35', [(U + 'html5.py', "    @property\n    def xml_value(self):\n        '''\n        Force to null text\n        '''\n        return ''\n", "    @property\n    def xml_value(self):\n        '''\n        Force to null text\n        '''\n        return self.data\n")],
     'the value of an HTML element with a comment in it', 'the comment is part of the value', '''
from amara3.uxml import html5
e = html5.parse('<p>a<!-- note -->b</p>')
assert e.xml_value == 'ab', repr(e.xml_value)
''')
seed('html-sender-strip', 'C34', [(U + 'html5iter.py', "        h = self._handler()\n", "        h, doc = self._handler(), doc.strip() if isinstance(doc, str) else doc\n")],
     'text that ends with a character that Python takes for space and HTML does not', 'the character is lost', '''
from amara3.uxml import html5iter
got = []
def sink():
    while True: got.append((yield).xml_value)
html5iter.sender(('html', 'body', 'p'), sink()).parse('<p>x\\u00a0')
assert got == ['x\\u00a0'], ascii(got)
''')
seed('indent-strips', 'C08', [(U + 'tree.py', "                strbits.append(escape(child))\n", "                strbits.append(escape(child.strip() if indent else child))\n")],
     'text starting or ending with a character that Python takes for space and XML does not, with indentation', 'the character is lost', '''
from amara3.uxml import tree
e = tree.element('a')
e.xml_append('x\\u00a0')
assert '\\u00a0' in e.xml_encode(indent='  '), ascii(e.xml_encode(indent='  '))
''')
seed('lookup-copy', 'C30', [(U + 'uxpath/__init__.py', "functions=functions, lookuptables=lookuptables, extras=extras, parent=parent, force_root=False)", "functions=functions, extras=extras, parent=parent, force_root=False)")],
     'lookup() inside of a predicate, path or for-each', 'the tables given are not there', '''
from amara3.uxml import tree, uxpath
e = tree.parse('<a><b k="1"></b></a>')
ctx = uxpath.context(e, lookuptables={'t': {'1': 'one'}})
assert list(uxpath.parse("//b[lookup('t', @k) = 'one']").compute(ctx)) == [e.xml_children[0]]
''')
