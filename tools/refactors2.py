"""More edits that keep the behaviour (XPath, HTML, command line, namespaces), used by refactors.py."""
U = 'pylib/uxml/'
X = U + 'uxpath/'
R2 = {}
def ref(id, checks, *edits): R2[id] = (checks, edits)

ref('xast-siblings', 'C17 C22 C23',
    (X + 'xast.py', """    siblings = item.xml_parent.xml_children
    index = next(i for i, sibling in enumerate(siblings) if sibling is item)
    return siblings[:index], siblings[index+1:]
""", """    before, after = [], []
    seen = False
    for sibling in item.xml_parent.xml_children:
        if sibling is item:
            seen = True
        else:
            (after if seen else before).append(sibling)
    return before, after
"""),
    (X + 'xast.py', """    while item.xml_parent is not None:
        key.append((1, len(siblings_of(item)[0])))
        item = item.xml_parent
    key.append((1, 0))
    key.reverse()
    return item, tuple(key)
""", """    while (parent := item.xml_parent) is not None:
        place = [id(c) for c in parent.xml_children].index(id(item))
        key.insert(0, (1, place))
        item = parent
    return item, ((1, 0), *key)
"""),
    (X + 'xast.py', "        key.append((0, list(item.xml_parent.xml_attributes).index(item.xml_name)))\n", "        key += [(0, position) for position, attr in enumerate(item.xml_parent.xml_attributes.keys()) if attr == item.xml_name]\n"))
ref('xast-casts-dispatch', 'C19 C20 C21',
    (X + 'xast.py', """    if val is None:
        yield math.nan
    elif isinstance(val, str):
        yield string_to_number(val)
    elif isinstance(val, node):
        yield string_to_number(strval(val))
    # bools are ints in Python
    elif isinstance(val, bool):
        yield 1 if val else 0
    elif isinstance(val, int) or isinstance(val, float):
        yield val
    else:
        raise RuntimeError('Unknown type for number conversion: {}'.format(val))
""", """    for kinds, cast in _NUMBER_CASTS:
        if isinstance(val, kinds):
            yield cast(val)
            break
    else:
        raise RuntimeError(f'Unknown type for number conversion: {val}')
"""),
    (X + 'xast.py', "# Casts\ndef to_string(obj):", """_NUMBER_CASTS = [
    (type(None), lambda v: math.nan),
    (node, lambda v: string_to_number(strval(v))),
    (str, string_to_number),
    (bool, int),
    ((int, float), lambda v: v),
]

def first_item(obj):
    if isinstance(obj, literal_wrapper): return obj.obj
    is_sequence = isinstance(obj, Iterable) and not isinstance(obj, str)
    return next(obj, None) if is_sequence else obj


# Casts
def to_string(obj):"""),
    (X + 'xast.py', """    if isinstance(obj, literal_wrapper):
        val = obj.obj
    elif isinstance(obj, Iterable) and not isinstance(obj, str):
        val = next(obj, None)
    else:
        val = obj
""", """    val = first_item(obj)
"""))
ref('xast-number-format', 'C20 C21 C24',
    (X + 'xast.py', """        # No exponents in XPath
        return format(Decimal(repr(num)), 'f') if num % 1 else str(int(num))
""", """        # No exponents in XPath
        if num == int(num):
            return '%d' % num
        return '{:f}'.format(Decimal(repr(num)))
"""),
    (X + 'xast.py', """    match = XPATH_NUMBER.fullmatch(text)
    return float(match.group(1)) if match else math.nan
""", """    stripped = text.strip(' \\t\\r\\n')
    digits = stripped[1:] if stripped.startswith('-') else stripped
    whole, point, fraction = digits.partition('.')
    if not (whole or fraction) or not all(c in '0123456789' for c in whole + fraction):
        return math.nan
    return float(stripped)
"""))
ref('xast-axis-methods', 'C17 C18 C23',
    (X + 'xast.py', """        elif self.axis == 'ancestor':
            parent = xpath_parent(ctx.item)
            while parent is not None:
                new_ctx = ctx.copy(item=parent)
                yield from self.node_test.compute(new_ctx)
                parent = xpath_parent(parent)
        elif self.axis == 'ancestor-or-self':
            yield from self.node_test.compute(ctx)
            parent = xpath_parent(ctx.item)
            while parent is not None:
                new_ctx = ctx.copy(item=parent)
                yield from self.node_test.compute(new_ctx)
                parent = xpath_parent(parent)
        elif self.axis == 'descendant':
            to_process = list(ctx.item.xml_children)
            while to_process:
                child = to_process[0]
                to_process = list(child.xml_children) + to_process[1:]
                new_ctx = ctx.copy(item=child)
                yield from self.node_test.compute(new_ctx)
        elif self.axis == 'descendant-or-self':
            yield from self.node_test.compute(ctx)
            to_process = list(ctx.item.xml_children)
            while to_process:
                child = to_process[0]
                to_process = list(child.xml_children) + to_process[1:]
                new_ctx = ctx.copy(item=child)
                yield from self.node_test.compute(new_ctx)
        elif self.axis == 'following':
""", """        elif self.axis in _UP_AND_DOWN:
            walk, or_self = _UP_AND_DOWN[self.axis]
            if or_self:
                yield from self.node_test.compute(ctx)
            for found in walk(ctx.item):
                yield from self.node_test.compute(ctx.copy(item=found))
        elif self.axis == 'following':
"""),
    (X + 'xast.py', "class step:\n", """def _upward(item):
    parent = xpath_parent(item)
    if parent is not None:
        yield parent
        yield from _upward(parent)


def _downward(item):
    stack = list(reversed(item.xml_children))
    while stack:
        found = stack.pop()
        yield found
        stack.extend(reversed(found.xml_children))


_UP_AND_DOWN = {
    'ancestor': (_upward, False),
    'ancestor-or-self': (_upward, True),
    'descendant': (_downward, False),
    'descendant-or-self': (_downward, True),
}


class step:
"""))
ref('xast-axis-getattr', 'C17 C18 C24',
    (X + 'xast.py', "    def compute(self, ctx):\n        # print('STEP', (self.axis, self.node_test, ctx.item))\n", """    def compute(self, ctx):
        special = getattr(self, '_' + self.axis.replace('-', '_'), None)
        if special is not None:
            for found in special(ctx.item):
                yield from self.node_test.compute(ctx.copy(item=found))
            return
"""),
    (X + 'xast.py', "    def __call__(self, ctx):\n        '''\n        Alias for user convenience\n        '''\n        yield from self.compute(ctx)\n\n\nclass predicated_expression:", """    @staticmethod
    def _following_sibling(item):
        return iter(siblings_of(item)[-1])

    @staticmethod
    def _preceding_sibling(item):
        return siblings_of(item)[0][::-1]

    @classmethod
    def _preceding(cls, item):
        def backwards(e):
            for c in reversed(e.xml_children):
                yield from backwards(c)
            yield e
        while item is not None:
            for prev in cls._preceding_sibling(item):
                yield from backwards(prev)
            item = item.xml_parent

    def __call__(self, ctx):
        '''
        Alias for user convenience
        '''
        yield from self.compute(ctx)


class predicated_expression:"""))
ref('xast-operators', 'C18 C20 C22 C24',
    (X + 'xast.py', """            lhs = list(self.left.compute(ctx))
            rhs = list(self.right.compute(ctx))
            yield any(compare(i, self.op, j) for i in lhs for j in rhs)
        elif self.op == 'or':
            yield any(next(to_boolean(next(side.compute(ctx), None))) for side in (self.left, self.right))
        elif self.op == 'and':
            yield all(next(to_boolean(next(side.compute(ctx), None))) for side in (self.left, self.right))
""", """            from itertools import product
            result = False
            for i, j in product(self.left.compute(ctx), self.right.compute(ctx)):
                if compare(i, self.op, j):
                    result = True
                    break
            yield result
        elif self.op in ('or', 'and'):
            decisive = self.op == 'or'
            if self._truth(self.left, ctx) is decisive:
                yield decisive
            else:
                yield self._truth(self.right, ctx)
"""),
    (X + 'xast.py', "    def compute(self, ctx):\n        # print('binary_expression'", """    @staticmethod
    def _truth(side, ctx):
        (value,) = to_boolean(next(side.compute(ctx), None))
        return value

    def compute(self, ctx):
        # print('binary_expression'"""),
    (X + 'xast.py', """            tops = []
            selected = {}
            for side in (self.left, self.right):
                for item in side.compute(ctx):
                    top, key = docorder_key(item)
                    # Nodes from different trees are kept apart, in order of first appearance
                    tree_num = next((i for i, t in enumerate(tops) if t is top), len(tops))
                    if tree_num == len(tops): tops.append(top)
                    selected.setdefault((tree_num, key), item)
            for key in sorted(selected):
                yield selected[key]
""", """            from collections import defaultdict
            by_top = defaultdict(dict)
            keep = []
            for item in [*self.left.compute(ctx), *self.right.compute(ctx)]:
                top, key = docorder_key(item)
                keep.append(top)
                nodes_here = by_top[id(top)]
                if key not in nodes_here:
                    nodes_here[key] = item
            for nodes_here in by_top.values():
                yield from (item for key, item in sorted(nodes_here.items(), key=operator.itemgetter(0)))
"""))
ref('xast-predicates', 'C19 C24 C30',
    (X + 'xast.py', """        for pos, item in enumerate(items):
            # XPath is 1-indexed
            new_ctx = ctx.copy(item=item, pos=pos+1)
            if hasattr(pred, 'compute'):
                predval = next(pred.compute(new_ctx), False)
            else:
                predval = pred
            # bools are ints in Python
            if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
                if pos + 1 == predval:
                    yield item
            elif next(to_boolean(predval)):
                yield item
""", """        def keeps(pos, item):
            predval = pred
            if hasattr(pred, 'compute'):
                predval = next(pred.compute(ctx.copy(item=item, pos=pos)), False)
            is_number = isinstance(predval, (float, int)) and not isinstance(predval, bool)
            return predval == pos if is_number else next(to_boolean(predval))
        from itertools import count
        yield from (item for pos, item in zip(count(1), items) if keeps(pos, item))
"""))
ref('xast-root', 'C17 C18 C22 C23 C30 C32',
    (X + 'xast.py', """        root = top._xpath_root() if hasattr(top, '_xpath_root') else None
        if root is None:
            root = root_node(top)
            top._xpath_root = weakref.ref(root)
        return root
""", """        try:
            root = top._xpath_root()
        except AttributeError:
            root = None
        if root is not None:
            return root
        root = root_node(top)
        setattr(top, '_xpath_root', weakref.ref(root))
        return root
"""),
    (X + 'xast.py', """            if _step_is_just_node(self.relative):
                yield rnode
            new_ctx = ctx.copy(item=rnode)
            yield from self.relative.compute(new_ctx)
            to_process = list(rnode.xml_children)
            while to_process:
                child = to_process[0]
                to_process = list(child.xml_children) + to_process[1:]
                new_ctx = ctx.copy(item=child)
                yield from self.relative.compute(new_ctx)
""", """            if _step_is_just_node(self.relative):
                yield rnode
            def below(e):
                yield e
                for c in e.xml_children:
                    yield from below(c)
            for place in below(rnode):
                yield from self.relative.compute(ctx.copy(item=place))
"""))
ref('xast-serialize', 'C24',
    (X + 'xast.py', """        yield self.name
        yield '('
        if self.args:
            for tok in _serialize(self.args[0]):
                yield tok

            for arg in self.args[1:]:
                yield ','
                for tok in _serialize(arg):
                    yield tok
        yield ')'
""", """        yield f"{self.name}({', '.join(serialize(arg) for arg in self.args or ())})"
"""),
    (X + 'xast.py', """            quote = "'" if '"' in self.obj else '"'
            yield quote + self.obj + quote
""", """            yield ("'{}'" if self.obj.count('"') else '"{}"').format(self.obj)
"""))
ref('functions-strings', 'C21',
    (X + 'functions.py', """    pos = full.find(part)
    yield full[:pos] if pos >= 0 else ''
""", """    yield full.split(part, 1)[0] if part and part in full else ''
"""),
    (X + 'functions.py', """    pos = full.find(part)
    yield full[pos+len(part):] if pos >= 0 else ''
""", """    before, sep, after = full.partition(part) if part else ('', '', full)
    yield after
"""),
    (X + 'functions.py', "    yield full.startswith(part)\n", "    yield full[:len(part)] == part\n"),
    (X + 'functions.py', "    yield part in full\n", "    yield full.find(part) != -1\n"),
    (X + 'functions.py', "    yield ''.join(c for pos, c in enumerate(full, 1) if start <= pos < end)\n", """    if math.isnan(start) or math.isnan(end) or start == math.inf or end == -math.inf:
        yield ''
        return
    first = 0 if start <= 1 else int(start) - 1
    beyond = len(full) if end > len(full) else max(int(end) - 1, 0)
    yield full[first:beyond]
"""),
    (X + 'functions.py', "    yield len(list(obj.compute(ctx)))\n", "    yield sum(1 for _ in obj.compute(ctx))\n"))
ref('functions-registry', 'C21 C30',
    (X + 'functions.py', """        BUILTIN_FUNCTIONS[name] = f
        #global BUILTIN_FUNCTIONS
        @wraps(f)
        def wrapper(*args, **kwargs):
            return f(*args, **kwargs)
        return wrapper
""", """        @wraps(f)
        def wrapper(*args, **kwargs):
            return f(*args, **kwargs)
        BUILTIN_FUNCTIONS.update({name: wrapper})
        return wrapper
"""),
    (X + 'functions.py', """    if hasattr(obj, 'compute'):
        obj = next(obj.compute(ctx), None)
    return to_string(obj)
""", """    compute = getattr(obj, 'compute', None)
    return to_string(obj if compute is None else next(iter(compute(ctx)), None))
"""))
COPY = """        item = item if item is not None else self.item
        pos = pos if pos is not None else self.pos
        variables = variables if variables is not None else self.variables
        functions = functions if functions is not None else self.functions
        lookuptables = lookuptables if lookuptables is not None else self.lookuptables
        extras = extras if extras is not None else self.extras
        parent = parent if parent is not None else self.parent
        return context(item, pos=pos, variables=variables, functions=functions, lookuptables=lookuptables, extras=extras, parent=parent, force_root=False)
"""
ref('context-copy', 'C18 C19 C30 C23',
    (X + '__init__.py', COPY, """        given = dict(item=item, pos=pos, variables=variables, functions=functions, lookuptables=lookuptables, extras=extras, parent=parent)
        kwargs = {key: getattr(self, key) if value is None else value for key, value in given.items()}
        return context(kwargs.pop('item'), force_root=False, **kwargs)
"""),
    (X + '__init__.py', """    root = None
    if isinstance(xml_thing, nodetype):
        root = xml_thing
        force_root = not xml_thing.xml_parent
    elif isinstance(xml_thing, str):
        tb = tree.treebuilder()
        root = tb.parse(xml_thing)
        force_root = True
    elif isinstance(xml_thing, bytes):
        tb = tree.treebuilder()
        # Force UTF-8
        root = tb.parse(xml_thing.decode('utf-8'))
        force_root = True
    if root is None: return
""", """    if isinstance(xml_thing, nodetype):
        root = xml_thing
        force_root = not xml_thing.xml_parent
    else:
        if isinstance(xml_thing, bytes):
            xml_thing = str(xml_thing, 'utf-8')
        if not isinstance(xml_thing, str):
            return
        root = tree.parse(xml_thing)
        force_root = True
"""))
ref('context-copycopy', 'C18 C19 C30',
    (X + '__init__.py', COPY, """        import copy
        new = copy.copy(self)
        for key, value in locals().copy().items():
            if key not in ('self', 'new', 'copy') and value is not None:
                setattr(new, key, value)
        return new
"""))
ref('parserules-split', 'C29 C24',
    (X + 'parserules.py', '''    """
    Expr : Expr OR_OP Expr
         | Expr AND_OP Expr
         | Expr EQUAL_OP Expr
         | Expr REL_OP Expr
         | Expr PLUS_OP Expr
         | Expr MINUS_OP Expr
         | Expr MULT_OP Expr
         | Expr DIVMOD_OP Expr
    """
    p[0] = xast.binary_expression(p[1], p[2], p[3])
''', '''    """
    Expr : Expr OR_OP Expr
         | Expr AND_OP Expr
    """
    _binary(p)

def p_expr_compare(p):
    """
    Expr : Expr EQUAL_OP Expr
         | Expr REL_OP Expr
    """
    _binary(p)

def p_expr_arithmetic(p):
    """
    Expr : Expr PLUS_OP Expr
         | Expr MINUS_OP Expr
         | Expr MULT_OP Expr
         | Expr DIVMOD_OP Expr
    """
    _binary(p)

def _binary(p):
    left, op, right = p[1], p[2], p[3]
    p[0] = xast.binary_expression(left, op, right)
'''),
    (X + 'parserules.py', "    p[0] = p[1]\n    p[0].append(p[3])\n", "    p[0] = p[1] + [p[3]]\n"),
    (X + 'lexrules.py', """    t.type = OPERATOR_NAMES.get(t.value, 'NAME')
""", """    if t.value in OPERATOR_NAMES:
        t.type = OPERATOR_NAMES[t.value]
"""),
    (X + 'lexrules.py', "    t.value = t.value[1:-1]\n", "    _, *inner, _ = t.value\n    t.value = ''.join(inner)\n"))
ref('html-parse', 'C28 C35',
    (U + 'html5.py', """    first_element = next((e for e in doc.root_nodes if isinstance(e, element)), None)
    return first_element
""", """    for candidate in doc.root_nodes:
        if isinstance(candidate, element):
            return candidate
    return None
"""),
    (U + 'html5.py', """    try:
        top = false_top.xml_children[1].xml_children[0]
    except IndexError:
        raise ValueError('Unable to process input even as tag soup XML')
    # Detach the bit we want from the wrapper
    false_top.xml_children[1].xml_remove(top)
    del false_top  # Ensure cleanup
    return top
""", """    if len(false_top.xml_children) < 2 or not false_top.xml_children[1].xml_children:
        raise ValueError('Unable to process input even as tag soup XML')
    body = false_top.xml_children[1]
    top, *_ = body.xml_children
    # Detach the bit we want from the wrapper
    body.xml_remove(top)
    return top
"""),
    (U + 'html5.py', """        self.elementClass = eclass
        self.fragmentClass = eclass
""", """        self.elementClass = self.fragmentClass = eclass
"""))
ref('html-element', 'C25 C28',
    (U + 'html5.py', """        return getattr(self, 'xml_html5lib_name', self.xml_name)

    @property
    def namespace(self):
        return getattr(self, 'xml_html5lib_namespace', None)
""", """        return self.nameTuple[1]

    @property
    def namespace(self):
        return self.nameTuple[0]
"""),
    (U + 'html5.py', """        attrs = self.xml_attributes.copy()
        clone = element(self.xml_name, attrs=attrs)
        for bookkeeping in ('xml_html5lib_name', 'xml_html5lib_namespace'):
            if hasattr(self, bookkeeping):
                setattr(clone, bookkeeping, getattr(self, bookkeeping))
        return clone
""", """        clone = type(self)(self.xml_name, attrs={**self.xml_attributes})
        vars(clone).update({k: v for k, v in vars(self).items() if k.startswith('xml_html5lib_')})
        return clone
"""),
    (U + 'html5.py', """        for key, val in attrs.items():
            if isinstance(key, tuple):
                self.xml_attributes[qname_to_local(key[1])] = val
            elif key.startswith(u'xmlns'):
                continue
            else:
                self.xml_attributes[key] = val
        return
""", """        def local(key):
            return qname_to_local(key[1]) if isinstance(key, tuple) else key
        self.xml_attributes.update((local(key), val) for key, val in attrs.items() if isinstance(key, tuple) or not key.startswith('xmlns'))
"""),
    (U + 'html5.py', """        if insertBefore is not None:
            self.insertBefore(tree.text(data), insertBefore)
        else:
            self.xml_append(tree.text(data))
""", """        new_text = tree.text(data)
        if insertBefore is None:
            return self.appendChild(new_text)
        self.insertBefore(new_text, insertBefore)
"""))
ref('htmliter-stack', 'C34',
    (U + 'html5iter.py', """        h.send((event.start_element, elem.xml_name, elem.xml_attributes, ancestors))
        for child in elem.xml_children:
            if isinstance(child, tree.element):
                self._send_events(h, child, ancestors + [elem.xml_name])
            elif child: # Comments are zero-length texts
                h.send((event.characters, str(child)))
        h.send((event.end_element, elem.xml_name, ancestors))
""", """        for ev in self._events(elem, tuple(ancestors)):
            h.send(ev)

    def _events(self, elem, above):
        yield event.start_element, elem.xml_name, elem.xml_attributes, list(above)
        for child in elem.xml_children:
            if isinstance(child, tree.element):
                yield from self._events(child, (*above, elem.xml_name))
            elif len(child) > 0: # Comments are zero-length texts
                yield event.characters, str(child)
        yield event.end_element, elem.xml_name, list(above)
"""))
ref('microx-class', 'C27',
    ('exec/microx', """        if isinstance(item, attribute_node):
            print(item.xml_value, file=out)
        elif isinstance(item, node):
            print(item.xml_encode(), file=out)
        else:
            print(item, file=out)
""", """        shown = item
        if isinstance(item, node):
            shown = item.xml_value if isinstance(item, attribute_node) else item.xml_encode()
        out.write(f'{shown}\\n')
"""),
    ('exec/microx', """        if limit is not None and result_count >= limit:
            return
        result_count += 1
        if foreach:
            ctx = context(item, variables=varmap, force_root=False)
            innerresult = parsed_foreach.compute(ctx)
            for inneritem in innerresult:
                print_item(inneritem)
        else:
            print_item(item)
""", """        if limit is None or result_count < limit:
            result_count = result_count + 1
            inner = parsed_foreach.compute(context(item, variables=varmap, force_root=False)) if foreach else iter([item])
            while True:
                try:
                    print_item(next(inner))
                except StopIteration:
                    break
"""),
    ('exec/microx', """    ancestors = []
    parent = node.xml_parent
    while parent:
        step = parent.xml_name
        for sattr in show_attrs or ():
            if sattr in parent.xml_attributes:
                step += f'[@{sattr}="{parent.xml_attributes[sattr]}"]'
        ancestors.append(step)
        node = parent
        parent = node.xml_parent
    ancestors.reverse()
    xp = '/'.join(ancestors)
    return xp
""", """    def steps(parent):
        if parent is None: return
        yield from steps(parent.xml_parent)
        attrs = [(a, parent.xml_attributes[a]) for a in show_attrs or () if a in parent.xml_attributes]
        yield parent.xml_name + ''.join('[@%s="%s"]' % pair for pair in attrs)
    return '/'.join(steps(node.xml_parent))
"""))
ref('xml-ns', 'C33 C15 C16',
    (U + 'xml.py', """        for i in reversed(range(len(self._scope))):
            if self._scope[i][0] == prefix:
                del self._scope[i]
                break
""", """        innermost = max((i for i, (p, _) in enumerate(self._scope) if p == prefix), default=None)
        if innermost is not None:
            self._scope = self._scope[:innermost] + self._scope[innermost + 1:]
"""),
    (U + 'xml.py', """        if local not in self.ns_portfolio:
            self.ns_portfolio[local] = (ns, self._get_prefix(ns))
        for aname, aval in attrs.items():
            ans, alocal = aname.rsplit(' ', 1) if ' ' in aname else (None, aname)
            self.ns_portfolio['@' + alocal] = (ans, self._get_prefix(ans))
""", """        self.ns_portfolio.setdefault(local, (ns, self._get_prefix(ns)))
        for aname in attrs:
            *ans, alocal = aname.rsplit(' ', 1)
            ans = ans[0] if ans else None
            self.ns_portfolio[f'@{alocal}'] = ans, self._get_prefix(ans)
"""),
    (U + 'xml.py', "        return self.prefixes_rev.get(ns, 'xml' if ns == XML_NAMESPACE else '')\n", """        if ns in self.prefixes_rev:
            return self.prefixes_rev[ns]
        if ns == XML_NAMESPACE:
            return 'xml'
        return ''
"""))
ref('treeutil-iter', 'C12 C13 C11 C27',
    (U + 'treeutil.py', """    for child in elem.xml_children:
        if isinstance(child, element):
            yield child
            yield from descendants(child)
""", """    stack = [iter(elem.xml_children)]
    while stack:
        for child in stack[-1]:
            if isinstance(child, element):
                yield child
                stack.append(iter(child.xml_children))
                break
        else:
            stack.pop()
"""),
    (U + 'treeutil.py', """    it = itertools.dropwhile(lambda x: x is not elem, elem.xml_parent.xml_children)
    next(it, None) #Skip the element itself, if any
    return it
""", """    it = iter(elem.xml_parent.xml_children)
    any(sibling is elem for sibling in it)
    return it
"""))
ref('treeiter-zip', 'C14 C16 C34 C31',
    (U + 'treeiter.py', """        self._roots = [None] * self._pattern_count
        self._parents = [None] * self._pattern_count
        self._stateses = [None] * self._pattern_count
""", """        self._roots, self._parents, self._stateses = ([None] * self._pattern_count for _ in range(3))
"""),
    (U + 'treeiter.py', """                elif ev[0] == event.characters:
                    if building_depth:
                        new_text = text(ev[1], parent)
                        if parent: parent.xml_children.append(new_text)
""", """                elif ev[0] == event.characters and building_depth:
                    parent.xml_children += [text(ev[1], parent)]
"""))
ref('tree-match', 'C05 C06 C07 C15',
    (U + 'tree.py', """            if ev[0] == event.start_element:
                new_element = element(ev[1], ev[2], self._parent)
                #Note: not using weakrefs here because these refs are not circular
                if self._parent: self._parent.xml_children.append(new_element)
                self._parent = new_element
                #Hold a reference to the top element of the subtree being built,
                #or it will be garbage collected as the builder moves down the tree
                if not self._root: self._root = new_element
            elif ev[0] == event.characters:
                new_text = text(ev[1], self._parent)
                if self._parent: self._parent.xml_children.append(new_text)
            elif ev[0] == event.end_element:
                if self._parent:
                    self._parent = self._parent.xml_parent
""", """            match ev:
                case (event.start_element, name, attrs, *_):
                    new_element = element(name, attrs, self._parent)
                    if self._parent: self._parent.xml_children.append(new_element)
                    self._parent = new_element
                    self._root = self._root or new_element
                case (event.characters, data):
                    if self._parent is not None:
                        self._parent.xml_children.append(text(data, parent=self._parent))
                case (event.end_element, *_) if self._parent:
                    self._parent = self._parent.xml_parent
"""),
    (U + 'tree.py', """        for index, candidate in enumerate(self.xml_children):
            if candidate is child:
                del self.xml_children[index]
                child._xml_parent = None
                break
        else:
            raise ValueError(f'Element {self} has no child {child}')
        return
""", """        places = [index for index, candidate in enumerate(self.xml_children) if candidate is child]
        if not places:
            raise ValueError(f'Element {self} has no child {child}')
        self.xml_children.pop(places[0])._xml_parent = None
"""),
    (U + 'tree.py', "        return ''.join(map(lambda x: x.xml_value, self.xml_children))\n", """        import functools, operator
        return functools.reduce(operator.add, [c.xml_value for c in self.xml_children], '')
"""))
