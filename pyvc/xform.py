"""The mechanical AST transformation applied to every module of /repo/polog on every run.

It changes only what operator overloading cannot reach: identity tests, calls (gate and models of
builtins), container literals, f-strings, except handlers (an engine abort may not be swallowed),
attribute stores (write log), for-loops (cut rule), `import` of stubbed standard modules.  Control
flow, names, defaults, decorators, classes, closures, generators, async are left to CPython."""
import ast

STUBBED = {'threading', 'contextvars', 'time', 'datetime', 'json', 'queue', 'atexit', 'logging', 'builtins',
           'inspect', 'os', 'shutil', 'pathlib', 'sys', 'traceback', 'multiprocessing', 'smtplib', 'fcntl', 'importlib',
           'os.path', '_testcapi', 'weakref', '_thread', 'email.mime.text'}
NATIVE_CALLS = {'super', 'locals', 'globals', 'vars', '__import__'}


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def pv(attr, *args):
    return ast.Call(func=ast.Attribute(value=name('_pv_'), attr=attr, ctx=ast.Load()), args=list(args), keywords=[])


def const(v):
    return ast.Constant(value=v)


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = set()
        self.skip = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.skip.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.skip.update(n.names)

    visit_Nonlocal = visit_Global


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.depth = 0
        self.qual = []
        self.loops = 0

    # ------------------------------------------------------------ functions
    def _function(self, node):
        decs = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        if node.returns:
            node.returns = None
        self.depth += 1
        self.qual.append(node.name)
        body = self._block(node.body)
        self.qual.pop()
        self.depth -= 1
        pro = []
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            i = 1
        if node.args.kwarg is not None:
            k = node.args.kwarg.arg
            pro.append(ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=pv('kwin', name(k))))
        if node.args.vararg is not None:
            k = node.args.vararg.arg
            pro.append(ast.Assign(targets=[ast.Name(id=k, ctx=ast.Store())], value=pv('argin', name(k))))
        pro.append(ast.Expr(value=pv('fn', const('%s:%s' % (self.modname, '.'.join(self.qual + [node.name]))))))
        node.body = body[:i] + pro + body[i:]
        node.decorator_list = decs
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        d, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = d
        self.qual.pop()
        return node

    def visit_Lambda(self, node):
        d, self.depth = self.depth, 1
        self.generic_visit(node)
        self.depth = d
        return node

    def visit_arg(self, node):
        node.annotation = None
        return node

    def visit_AnnAssign(self, node):
        # dataclass fields need their annotations
        if self.depth == 0:
            if node.value is not None:
                node.value = self.visit(node.value)
            return node
        if node.value is None:
            return ast.Pass()
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # ------------------------------------------------------------ expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            m = 'is_' if isinstance(node.ops[0], ast.Is) else 'isnot'
            return pv(m, node.left, node.comparators[0])
        if any(isinstance(o, (ast.Is, ast.IsNot)) for o in node.ops):
            parts = []
            left = node.left
            for o, r in zip(node.ops, node.comparators):
                if isinstance(o, (ast.Is, ast.IsNot)):
                    parts.append(pv('is_' if isinstance(o, ast.Is) else 'isnot', left, r))
                else:
                    parts.append(ast.Compare(left=left, ops=[o], comparators=[r]))
                left = r
            return ast.BoolOp(op=ast.And(), values=parts)
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in NATIVE_CALLS:
            self.generic_visit(node)
            return node
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        if isinstance(f, ast.Attribute) and not (f.attr.startswith('__') and not f.attr.endswith('__')):
            func = pv('m', self.visit(f.value), const(f.attr))
        else:
            func = pv('c', self.visit(f))
        args = [self.visit(a) for a in node.args]
        if any(k.arg is None for k in node.keywords):
            kws = [ast.Tuple(elts=[const(k.arg), self.visit(k.value)], ctx=ast.Load()) for k in node.keywords]
            return pv('callkw', func, ast.Tuple(elts=args, ctx=ast.Load()), ast.Tuple(elts=kws, ctx=ast.Load()))
        node.func, node.args = func, args
        node.keywords = [self.visit(k) for k in node.keywords]
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple(elts=[v], ctx=ast.Load()))
            else:
                items.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return pv('mkdict', ast.Tuple(elts=items, ctx=ast.Load()))

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return pv('mklist', ast.Tuple(elts=node.elts, ctx=ast.Load()))
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return pv('mkset', ast.Tuple(elts=node.elts, ctx=ast.Load()))

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return pv('mklist', node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return pv('mkset', ast.ListComp(elt=node.elt, generators=node.generators))

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return pv('mkdict', ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return pv('mod', node.left, node.right)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else const('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(v.conversion), spec], ctx=ast.Load()))
        return pv('fs', ast.Tuple(elts=parts, ctx=ast.Load()))

    # ------------------------------------------------------------ statements
    def visit_ExceptHandler(self, node):
        if node.type is not None:
            node.type = self.visit(node.type)
        body = self._block(node.body)
        node.body = [ast.Expr(value=pv('chk'))] + body
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            t = node.targets[0]
            if not (t.attr.startswith('__') and not t.attr.endswith('__')):
                return ast.Expr(value=pv('sa', self.visit(t.value), const(t.attr), node.value))
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and not (t.attr.startswith('__') and not t.attr.endswith('__')):
            load = ast.Attribute(value=name(t.value.id), attr=t.attr, ctx=ast.Load())
            return ast.Expr(value=pv('sa', name(t.value.id), const(t.attr), ast.BinOp(left=load, op=node.op, right=self.visit(node.value))))
        self.generic_visit(node)
        return node

    def _imports(self, node):
        return node

    def visit_Import(self, node):
        out, keep = [], []
        for a in node.names:
            root = a.name
            if root in STUBBED or root.split('.')[0] in STUBBED:
                tgt = a.asname or a.name.split('.')[0]
                mod = a.name if a.asname else a.name.split('.')[0]
                out.append(ast.Assign(targets=[ast.Name(id=tgt, ctx=ast.Store())], value=pv('stub', const(mod))))
            else:
                keep.append(a)
        if keep:
            node.names = keep
            out.append(node)
        return out

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in STUBBED:
            return [ast.Assign(targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
                               value=pv('stubattr', const(node.module), const(a.name))) for a in node.names]
        return node

    def visit_While(self, node):
        a = Assigned()
        for s in node.body + [node.test]:
            a.visit(s)
        names = sorted(a.names - a.skip)
        node.test = self.visit(node.test)
        node.body = [ast.Expr(value=pv('tick', const('%s:%d' % (self.modname, node.lineno))))] + self._block(node.body)
        node.orelse = self._block(node.orelse)
        if self.depth == 0:
            return node
        self.loops += 1
        lv = '_pv_l%d' % self.loops
        pre = [ast.Assign(targets=[ast.Name(id=lv, ctx=ast.Store())], value=pv('wloop', const('%s:%s:while%d' % (self.modname, '.'.join(self.qual), self.loops))))]
        havoc = [ast.Expr(value=ast.Call(func=ast.Attribute(value=name(lv), attr='enter', ctx=ast.Load()), args=[], keywords=[]))]
        if names:
            h = ast.Call(func=ast.Attribute(value=name(lv), attr='havoc', ctx=ast.Load()),
                         args=[ast.Tuple(elts=[const(n) for n in names], ctx=ast.Load()), ast.Call(func=name('locals'), args=[], keywords=[])], keywords=[])
            havoc.append(ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in names], ctx=ast.Store())], value=h))
        pre.append(ast.If(test=ast.Attribute(value=name(lv), attr='cut', ctx=ast.Load()), body=havoc, orelse=[]))
        head = ast.Call(func=ast.Attribute(value=name(lv), attr='head', ctx=ast.Load()), args=[], keywords=[])
        node.test = ast.BoolOp(op=ast.And(), values=[head, node.test])
        return pre + [node]

    def visit_For(self, node):
        a = Assigned()
        for s in node.body:
            a.visit(s)
        t = Assigned()
        t.visit(node.target)
        names = sorted((a.names | t.names) - a.skip)
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.body = self._block(node.body)
        node.orelse = self._block(node.orelse)
        if self.depth == 0:
            return node
        self.loops += 1
        lv = '_pv_l%d' % self.loops
        pre = [ast.Assign(targets=[ast.Name(id=lv, ctx=ast.Store())], value=pv('loop', node.iter, const('%s:%s:%s' % (self.modname, '.'.join(self.qual), ast.unparse(node.target)))))]
        if names:
            h = ast.Call(func=ast.Attribute(value=name(lv), attr='havoc', ctx=ast.Load()),
                         args=[ast.Tuple(elts=[const(n) for n in names], ctx=ast.Load()), ast.Call(func=name('locals'), args=[], keywords=[])], keywords=[])
            pre.append(ast.If(test=ast.Attribute(value=name(lv), attr='cut', ctx=ast.Load()),
                              body=[ast.Assign(targets=[ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in names], ctx=ast.Store())], value=h)],
                              orelse=[]))
        node.iter = name(lv)
        return pre + [node]


def transform(source, modname, filename):
    tree = ast.parse(source, filename)
    x = Xform(modname)
    tree.body = x._block(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)
