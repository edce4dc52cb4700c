"""AST instrumentation of Python source so that it runs on symbolic strings."""
import ast

SKIP_CALLS = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir'}
RT = '_rt_'


def rt(name):
    return ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load())


def call(name, *args):
    return ast.Call(rt(name), list(args), [])


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.scope = []
        self.funcs = []

    # -- scopes
    def _enter(self, node, name):
        self.scope.append(name)
        self.generic_visit(node)
        q = '.'.join(self.scope)
        self.scope.pop()
        return q

    def _func(self, node):
        # decorators, defaults and annotations belong to the enclosing scope but need no scope name
        q = self._enter(node, node.name)
        body = node.body
        at = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
        st = ast.Expr(call('enter', ast.Constant('%s:%s' % (self.mod, q))))
        ref = body[at] if at < len(body) else body[-1]
        ast.copy_location(st, ref)
        body.insert(at, st)
        self.funcs.append('%s:%s' % (self.mod, q))
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self._enter(node, node.name)
        node.bases = [ast.copy_location(rt('SymStr'), b) if isinstance(b, ast.Name) and b.id == 'str' else b for b in node.bases]
        return node

    # -- loops
    def _loop(self, node):
        self.generic_visit(node)
        st = ast.copy_location(ast.Expr(call('tick')), node.body[0])
        node.body.insert(0, st)
        return node

    visit_While = _loop
    visit_For = _loop

    # -- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            if f.id in SKIP_CALLS: return node
            new = ast.Call(rt('call'), [f] + node.args, node.keywords)
        elif isinstance(f, ast.Attribute) and not (f.attr.startswith('__') and not f.attr.endswith('__')):
            if isinstance(f.value, ast.Name) and f.value.id == RT: return node
            new = ast.Call(rt('callm'), [f.value, ast.Constant(f.attr)] + node.args, node.keywords)
        else:
            new = ast.Call(rt('call'), [f] + node.args, node.keywords)
        return ast.copy_location(new, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or isinstance(node.slice, ast.Slice): return node
        if isinstance(node.slice, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in node.slice.elts): return node
        if isinstance(node.slice, ast.Constant) and isinstance(node.slice.value, int): return node
        return ast.copy_location(call('getitem', node.value, node.slice), node)

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            if isinstance(t.slice, ast.Slice) or isinstance(t.slice, ast.Tuple): return node
            return ast.copy_location(ast.Expr(call('setitem', node.value, t.value, t.slice)), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple, ast.Constant)):
            # d[k] op= v : make the key decision first, then run natively
            t.slice = ast.copy_location(call('key', t.value, t.slice), t.slice) if isinstance(t.value, (ast.Name, ast.Attribute)) else t.slice
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Tuple)):
                out.append(ast.copy_location(ast.Expr(call('delitem', t.value, t.slice)), node))
            else:
                out.append(ast.copy_location(ast.Delete([t]), node))
        return out

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, ast.In):
                return ast.copy_location(call('in_', node.left, node.comparators[0]), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), call('in_', node.left, node.comparators[0])), node)
            if isinstance(op, (ast.Eq, ast.NotEq)) and not any(isinstance(x, ast.Constant) for x in (node.left, node.comparators[0])):
                c = call('eq', node.left, node.comparators[0])
                return ast.copy_location(c if isinstance(op, ast.Eq) else ast.UnaryOp(ast.Not(), c), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(call('mod', node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(call('fmt', val, ast.Constant(chr(v.conversion) if v.conversion != -1 else ''), spec))
            else:
                parts.append(self.visit(v))
        return ast.copy_location(call('fstr', *parts), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys or all(isinstance(k, ast.Constant) for k in node.keys): return node
        els = []
        for k, v in zip(node.keys, node.values):
            if k is None: els.append(ast.Tuple([v], ast.Load()))
            else: els.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(call('mkdict', ast.List(els, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        ge = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(call('mkdict', ge), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(e, ast.Constant) for e in node.elts): return node
        return ast.copy_location(call('mkset', ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(call('mkset', ast.GeneratorExp(node.elt, node.generators)), node)

    # patterns and annotations stay as they are
    def visit_match_case(self, node):
        node.body = [self.visit(s) for s in node.body]
        flat = []
        for s in node.body: flat.extend(s) if isinstance(s, list) else flat.append(s)
        node.body = flat
        if node.guard is not None: node.guard = self.visit(node.guard)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None: node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    t = Instr(modname)
    tree = t.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True), t.funcs
