#!/usr/bin/env python3
"""Edits that keep the behaviour: every check must stay quiet on them.  usage: refactors.py [id...]   (runs the checks of the file in a scratch copy)"""
import os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
U = 'pylib/uxml/'
X = U + 'uxpath/'
R = {}
def ref(id, checks, *edits): R[id] = (checks, edits)
P = 'C01 C02 C03 C04 C05'

ref('parser-ws-helper', P,
    (U + 'parser.py', 're:(?m)^( +)try:\n +while window\\[pos\\] in \' \\\\r\\\\n\\\\t\':\n +pos \\+= 1\n( +)except IndexError:\n', '\\1pos = _skip_ws(window, pos)\n\\1if pos >= len(window):\n'),
    (U + 'parser.py', '@coroutine\ndef parser', '''_WS_RUN = re.compile(r'[ \\r\\n\\t]*')


def _skip_ws(window, pos):
    return _WS_RUN.match(window, pos).end()


@coroutine
def parser'''))
ref('parser-ws-lstrip', P,
    (U + 'parser.py', 're:(?m)^( +)try:\n +while window\\[pos\\] in \' \\\\r\\\\n\\\\t\':\n +pos \\+= 1\n( +)except IndexError:\n', '\\1pos = _skip_ws(window, pos)\n\\1if pos >= len(window):\n'),
    (U + 'parser.py', '@coroutine\ndef parser', '''def _skip_ws(window, pos):
    rest = window[pos:]
    return pos + len(rest) - len(rest.lstrip(' \\r\\n\\t'))


@coroutine
def parser'''))
ref('parser-name-regex', P,
    (U + 'parser.py', """                            if NAMESTARTCHAR.match(window[advpos]):
                                advpos += 1
                                while NAMECHAR.match(window[advpos]):
                                    advpos += 1
""", """                            m = NAME.match(window, advpos)
                            if m is None:
                                window[advpos]
                            else:
                                advpos = m.end()
                                window[advpos]
"""),
    (U + 'parser.py', "#For single quoted attrs\n", "NAME = re.compile(NAMESTARTCHAR.pattern + NAMECHAR.pattern + '*')\n\n#For single quoted attrs\n"))
ref('parser-charref-dict', P,
    (U + 'parser.py', """                            for cn, c in CHARNAMES:
                                if window[start:cursor] == cn:
                                    cdata += c
                                    #cursor += 1 #Skip ;
                                    break
                            else:
                                raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                            break
""", """                            entity_name = window[start:cursor]
                            replacement = dict(CHARNAMES).get(entity_name)
                            if replacement is None:
                                raise RuntimeError(f'Unknown named character reference: {entity_name!r}')
                            cdata = ''.join((cdata, replacement))
                            break
"""))
ref('parser-charref-table', P,
    (U + 'parser.py', """                            for cn, c in CHARNAMES:
                                if window[start:cursor] == cn:
                                    cdata += c
                                    #cursor += 1 #Skip ;
                                    break
                            else:
                                raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                            break
""", """                            try:
                                cdata += CHARTABLE[window[start:cursor]]
                            except KeyError:
                                raise RuntimeError('Unknown named character reference: %r' % window[start:cursor]) from None
                            break
"""), (U + 'parser.py', "#Make this one a utility", "CHARTABLE = {name: char for name, char in CHARNAMES}\n\n#Make this one a utility"))
ref('parser-list-acc', P,
    (U + 'parser.py', "    cdata = ''\n    cursor = start = pos", "    bits = []\n    cursor = start = pos"),
    (U + 'parser.py', "            cdata += addchars\n", "            bits.append(addchars)\n"),
    (U + 'parser.py', "return cdata, cursor\n", "return ''.join(bits), cursor\n"),
    (U + 'parser.py', "                            cdata += c\n                            break\n", "                            bits.append(c)\n                            break\n"),
    (U + 'parser.py', "                                    cdata += c\n", "                                    bits.append(c)\n"),
    (U + 'parser.py', "cdata += ' ' #", "bits.append(' ') #"))
ref('parser-newline-re', P,
    (U + 'parser.py', "frag = frag.replace('\\r\\n', '\\n').replace('\\r', '\\n')", "frag = re.sub('\\r\\n?', '\\n', frag)"))
ref('parser-newline-split', P,
    (U + 'parser.py', "frag = frag.replace('\\r\\n', '\\n').replace('\\r', '\\n')", "frag = '\\n'.join('\\n'.join(frag.split('\\r\\n')).split('\\r'))"))
ref('parser-deque', P,
    (U + 'parser.py', "handler.send((pending_event, gi, attribs_out, element_stack.copy()))", "handler.send((pending_event, gi, dict(attribs_out), [*element_stack]))"),
    (U + 'parser.py', "handler.send((pending_event, gi, element_stack.copy()))", "handler.send((pending_event, gi, list(element_stack)))"),
    (U + 'parser.py', "                                opened = element_stack.pop()\n", "                                *element_stack, opened = element_stack\n"))
ref('parser-sets', P,
    (U + 'parser.py', "if HEXCHARENTOK.match(window[cursor]):", "if window[cursor] in string.hexdigits:"),
    (U + 'parser.py', "if NAMEDCHARENTOK.match(window[cursor]):", "if window[cursor] in frozenset(string.ascii_letters + string.digits):"),
    (U + 'parser.py', "BOM = '", "import string\nBOM = '"))
T = 'C05 C06 C07 C08'
ref('tree-encode-fstring', 'C08 C09 C05',
    (U + 'tree.py', """        strbits = ['<', self.xml_name]
        for aname, aval in self.xml_attributes.items():
            strbits.extend([' ', aname, '=', attr_markup(aval)])
        strbits.append('>')
""", """        attrs = ''.join(f' {aname}={attr_markup(aval)}' for aname, aval in self.xml_attributes.items())
        strbits = ['<{}{}>'.format(self.xml_name, attrs)]
"""), (U + 'tree.py', "        strbits.extend(['</', self.xml_name, '>'])\n", "        strbits += ['</%s>' % self.xml_name]\n"))
ref('tree-encode-stringio', 'C08 C09 C05',
    (U + 'tree.py', """        strbits = ['<', self.xml_name]
        for aname, aval in self.xml_attributes.items():
            strbits.extend([' ', aname, '=', attr_markup(aval)])
        strbits.append('>')
        if indent:
            strbits.append('\\n')
            strbits.append(indent*depth)
        for child in self.xml_children:
            if isinstance(child, element):
                strbits.append(child.xml_encode(indent=indent, depth=depth+1))
                if indent:
                    strbits.append('\\n')
                    strbits.append(indent*depth)
            elif isinstance(child, str):
                strbits.append(escape(child))
            else:
                strbits.append(child.xml_encode())
        strbits.extend(['</', self.xml_name, '>'])
        return ''.join(strbits)
""", """        import io
        out = io.StringIO()
        put = out.write
        put('<' + self.xml_name)
        for aname in self.xml_attributes:
            put(' ' + aname + '=' + attr_markup(self.xml_attributes[aname]))
        put('>')
        newline = '\\n' + indent*depth if indent else ''
        put(newline)
        for child in self.xml_children:
            if isinstance(child, element):
                put(child.xml_encode(indent=indent, depth=depth+1))
                put(newline)
            else:
                put(escape(child) if isinstance(child, str) else child.xml_encode())
        put('</' + self.xml_name + '>')
        return out.getvalue()
"""))
ref('tree-escape-own', 'C08 C09 C10 C05',
    (U + 'tree.py', "class node:\n", """MARKUP = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}


def escape(s):
    return ''.join(MARKUP.get(c, c) for c in s)


class node:
"""))
ref('tree-escape-translate', 'C08 C09 C10 C05',
    (U + 'tree.py', "class node:\n", """MARKUP = str.maketrans({'&': '&amp;', '<': '&lt;', '>': '&gt;'})


def escape(s):
    return s.translate(MARKUP)


class node:
"""))
ref('tree-attr-own', 'C08 C09 C10 C05',
    (U + 'tree.py', """    quoted = quoteattr(value)
    return quoted.replace('&#9;', '&#x9;').replace('&#10;', '&#xA;').replace('&#13;', '&#xD;')
""", """    special = {'&': '&amp;', '<': '&lt;', '>': '&gt;', '\\t': '&#x9;', '\\n': '&#xA;', '\\r': '&#xD;'}
    body = ''.join([special[c] if c in special else c for c in value])
    quote = '"'
    if quote in value:
        if "'" in value: body = body.replace('"', '&quot;')
        else: quote = "'"
    return quote + body + quote
"""))
ref('tree-insert-slices', 'C06 C25',
    (U + 'tree.py', """                old_parent.xml_children = [c for c in old_parent.xml_children if c is not child]
""", """                old_parent.xml_children = list(filter(lambda c: c is not child, old_parent.xml_children))
"""),
    (U + 'tree.py', """        if index == -1:
            self.xml_children.append(child)
        else:
            self.xml_children.insert(index, child)
        return
""", """        place = len(self.xml_children) if index == -1 else index
        self.xml_children[place:place] = [child]
"""),
    (U + 'tree.py', """        for index, candidate in enumerate(self.xml_children):
            if candidate is child:
                del self.xml_children[index]
                child._xml_parent = None
                break
        else:
            raise ValueError(f'Element {self} has no child {child}')
        return
""", """        places = [index for index, candidate in enumerate(self.xml_children) if candidate is child]
        if not places:
            raise ValueError('Element {} has no child {}'.format(self, child))
        self.xml_children.pop(places[0])
        child._xml_parent = None
"""))
ref('tree-values', 'C07 C21 C12',
    (U + 'tree.py', "        return ''.join(map(lambda x: x.xml_value, self.xml_children))\n", """        bits = []
        todo = self.xml_children[::-1]
        while todo:
            child = todo.pop()
            if isinstance(child, element):
                todo.extend(reversed(child.xml_children))
            else:
                bits.append(child.xml_value)
        return ''.join(bits)
"""),
    (U + 'tree.py', """    accumulator = []
    for child in node.xml_children:
        if isinstance(child, text):
            accumulator.append(child.xml_value)
        elif isinstance(child, element):
            accumulator.extend(strval(child, outermost=False))
    if outermost: accumulator = ''.join(accumulator)
    return accumulator
""", """    def bits(n):
        for child in n.xml_children:
            if isinstance(child, text):
                yield child.xml_value
            elif isinstance(child, element):
                yield from bits(child)
    return ''.join(bits(node)) if outermost else [*bits(node)]
"""))
ref('tree-builder-dispatch', 'C05 C04 C14 C15',
    (U + 'tree.py', """            ev = yield
            if ev[0] == event.start_element:
                new_element = element(ev[1], ev[2], self._parent)
""", """            ev = yield
            kind, *rest = ev
            if kind is event.start_element:
                name, attrs, _ = rest
                new_element = element(name, attrs=attrs, parent=self._parent)
"""))
ref('treeutil-genexprs', 'C12',
    (U + 'treeutil.py', "    return filter(lambda x: isinstance(x, element), source)\n", "    return (x for x in source if isinstance(x, element))\n"),
    (U + 'treeutil.py', "    return filter(lambda x: x.xml_name == name, select_elements(source))\n", "    for e in select_elements(source):\n        if e.xml_name == name: yield e\n"),
    (U + 'treeutil.py', "    return filter(check, select_elements(source))\n", "    missing = object()\n    found = ((e, e.xml_attributes.get(name, missing)) for e in select_elements(source))\n    return iter([e for e, v in found if v is not missing and (val is None or v == val)])\n"),
    (U + 'treeutil.py', """    for child in elem.xml_children:
        if isinstance(child, element):
            yield child
            yield from descendants(child)
""", """    todo = list(reversed(list(select_elements(elem))))
    while todo:
        child = todo.pop()
        yield child
        todo += reversed(list(select_elements(child)))
"""))
ref('treeutil-pretty', 'C11',
    (U + 'treeutil.py', """            if child.xml_value.strip(' \\t\\r\\n'):
""", """            if re.search(r'[^ \\t\\r\\n]', child.xml_value):
"""), (U + 'treeutil.py', "import itertools\n", "import itertools, re\n"),
    (U + 'treeutil.py', "    depth += 1\n    last_ix", "    def spaces(levels): return text(''.join(itertools.chain(['\\n'], itertools.repeat(indent, levels))), elem)\n    depth += 1\n    last_ix"),
    (U + 'treeutil.py', "new_text = text('\\n' + indent*depth, elem)", "new_text = spaces(depth)"),
    (U + 'treeutil.py', "new_text = text('\\n' + indent*(depth-1), elem)", "new_text = spaces(depth-1)"))
ref('treeutil-pattern-sets', 'C13',
    (U + 'treeutil.py', """    if state is None:
        state = _prep_pattern(pattern)
    #for child in select_elements(elem):
    if isinstance(node, element):
        for child in node.xml_children:
            new_states = [ns for s in alternatives(state) if s is not MATCHED_STATE for ns in alternatives(s(child))]
            if any(is_match(s) for s in new_states):
                yield child
            if new_states:
                yield from select_pattern(child, None, state=new_states)
    return
""", """    start = _prep_pattern(pattern) if state is None else state
    todo = [(node, [s for s in alternatives(start)])]
    while todo:
        current, states = todo.pop(0)
        if current is not node and any(map(is_match, states)):
            yield current
        below = []
        for child in select_elements(current):
            after = []
            for s in states:
                if s is not MATCHED_STATE: after.extend(alternatives(s(child)))
            if after: below.append((child, after))
        todo[0:0] = below
"""))
ref('writer-inline', 'C09 C10',
    (U + 'writer.py', """        first_attribute = True
        for k, v in attribs.items():
            if first_attribute:
                self._whandler.write(context.start_element, token.pre_attr)
                first_attribute = False
            else:
                self._whandler.write(context.start_element, token.between_attr)
""", """        for i, (k, v) in enumerate(attribs.items()):
            self._whandler.write(context.start_element, token.between_attr if i else token.pre_attr)
"""), (U + 'writer.py', """        self._whandler.write(context.end_element, token.end_open)
        self._whandler.write(context.element_name, name)
        self._whandler.write(context.end_element, token.end_close)
        if""", """        for piece in ((context.end_element, token.end_open), (context.element_name, name), (context.end_element, token.end_close)):
            self._whandler.write(*piece)
        if"""))
ref('writer-ns-refactor', 'C10',
    (U + 'writer.py', """        if ctx == context.element_name:
            #Include prefix, if there's one
            prefix = self._mapping.get(text, ('', ''))[1]
            if prefix:
                self._fp.write(prefix + ':')
        if ctx == context.attribute_name:
            #Include prefix, if there's one
            prefix = self._mapping.get('@' + text, ('', ''))[1]
            if prefix:
                self._fp.write(prefix + ':')
        if isinstance""", """        key = {context.element_name: '{}', context.attribute_name: '@{}'}.get(ctx)
        if key is not None:
            entry = self._mapping.get(key.format(text))
            if entry and entry[1]: self._fp.write('%s:' % entry[1])
        if isinstance"""),
    (U + 'writer.py', "                    self._fp.write('xmlns:' + k if k else 'xmlns')\n", "                    self._fp.write(':'.join(filter(None, ('xmlns', k))))\n"))
ref('xml-local-helper', 'C15 C16 C04',
    (U + 'xml.py', "class expat_callbacks(object):", "def local_part(name):\n    return name[name.rfind(' ') + 1:]\n\n\nclass expat_callbacks(object):"),
    (U + 'xml.py', """        local = name.split()[-1]
        #print(attrs, name)
        new_attrs = {}
        for aname, aval in attrs.items():
            new_attrs[aname.split()[-1]] = aval
""", """        local = local_part(name)
        new_attrs = {local_part(aname): aval for aname, aval in attrs.items()}
"""), (U + 'xml.py', "        local = name.split()[-1]\n        self._elem_stack.pop()", "        local = name.rpartition(' ')[2]\n        self._elem_stack = self._elem_stack[:-1]"))
ref('treeiter-split', 'C14 C16',
    (U + 'treeiter.py', """        states = alternatives(self._stateses[ix])
        for ev in self._evstacks[ix]:
            states = [ns for s in states if s is not MATCHED_STATE for ns in alternatives(s(ev))]
        return any(is_match(s) for s in states)
""", """        from functools import reduce
        def advance(states, ev):
            return [n for s in states if s is not MATCHED_STATE for n in alternatives(s(ev))]
        final = reduce(advance, self._evstacks[ix], alternatives(self._stateses[ix]))
        return True in [bool(is_match(s)) for s in final]
"""))
ref('html-refactor', 'C25',
    (U + 'html5.py', """        offset = next((i for i, c in enumerate(siblings) if c is refNode), None)
        if offset is None:
            raise ValueError('Reference node {} is not a child of {}'.format(refNode, self))
        self.xml_insert(node, offset)
""", """        for offset, sibling in enumerate(siblings):
            if sibling is refNode: break
        else:
            raise ValueError(f'Reference node {refNode} is not a child of {self}')
        self.xml_insert(node, offset)
"""), (U + 'html5.py', "    return qname.split(':')[-1]\n", "    return qname.rpartition(':')[-1]\n"),
    (U + 'html5.py', """        for node in list(self.xml_children):
            self.xml_remove(node)
        for node in nodelist:
            self.xml_append(node)
        return
""", """        list(map(self.xml_remove, self.xml_children[:]))
        list(map(self.xml_append, nodelist))
"""))

from refactors2 import R2
R.update(R2)


def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(ids):
    d = tempfile.mkdtemp(prefix='ref', dir='/tmp')
    os.makedirs(d + '/verif')
    sh(['cp', '-a', '/repo', d + '/repo'])
    os.symlink(d + '/repo/pylib', d + '/amara3')
    sh('cp -a %s/symx %s/vprops %s/cprops %s/KNOWN_FINDINGS.txt %s/verif/; mkdir %s/verif/evidence' % (ROOT, ROOT, ROOT, ROOT, d, d), shell=True)
    env = dict(os.environ, PYTHONPATH=d + ':' + d + '/repo/build/lib', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VERIF_AMARA=d, VERIF_REPO=d + '/repo')
    for rid, (checks, edits) in R.items():
        if ids and rid not in ids and not any(x in rid for x in ids): continue
        sh(['git', 'checkout', '-q', '--', '.'], cwd=d + '/repo')
        for junk in ('parsetab.py', 'parser.out'):
            p = os.path.join(d, 'repo', X, junk)
            if os.path.exists(p): os.remove(p)
        for f, old, new in edits:
            p = os.path.join(d, 'repo', f)
            t = open(p).read()
            if old.startswith('re:'):
                t2, n = re.subn(old[3:], new, t)
                if not n: print(rid, 'NO MATCH', old)
            else:
                if old not in t: print(rid, 'NO MATCH', repr(old)[:100])
                t2 = t.replace(old, new)
            open(p, 'w').write(t2)
        t = sh([PY, '-c', 'import sys; sys.path.insert(0, %r); import pytest; sys.exit(pytest.main(["-q", "-x", "-p", "no:cacheprovider", "test"]))' % d], cwd=d + '/repo', env=env)
        if t.returncode:
            print(rid, 'TESTS FAIL', t.stdout[-1500:])
            continue
        for c in checks.split():
            t0 = time.time()
            r = sh(['python3-vt', 'symx/check.py', c, '--tier', 'quick'], cwd=d + '/verif', env=dict(env, PYTHONPATH=''))
            last = r.stdout.strip().splitlines()
            print(rid, c, 'rc=%d' % r.returncode, '%.0fs' % (time.time() - t0), '' if r.returncode == 0 else 'ALARM' if r.returncode == 1 else 'TROUBLE', last[-1][:170] if r.returncode == 0 else '\n'.join(last)[:1500], flush=True)
    shutil.rmtree(d)
main(sys.argv[1:])
