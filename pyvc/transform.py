"""Mechanical source transformation applied to every module of /repo when it
is imported by the verifier.  It keeps the statement structure and only
replaces operations CPython would decide natively on builtin types by calls
into pyvc.rt (which fall back to the native operation on concrete values)."""
import ast
import hashlib

RT = "__vc__"
CTRL_SKIP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}


def rt(name):
    return ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load())


def call(name, *args):
    return ast.Call(rt(name), list(args), [])


class LocalNames(ast.NodeVisitor):
    def __init__(self):
        self.stored = []
        self.globals = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.stored:
            self.stored.append(n.id)

    def visit_Global(self, n):
        self.globals.update(n.names)
    visit_Nonlocal = visit_Global

    def visit_FunctionDef(self, n):
        if n.name not in self.stored:
            self.stored.append(n.name)
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        # the name is unbound at the end of the handler
        for b in n.body:
            self.visit(b)


def stored_names(nodes):
    v = LocalNames()
    for n in nodes:
        v.visit(n)
    return [n for n in v.stored if n not in v.globals], v.globals


class T(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []       # qualname parts
        self.fn = []          # function infos
        self.n = 0

    # -- scopes
    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.fn.append(None)
        node.body = [self.visit(b) for b in node.body]
        node.bases = [self.visit(b) for b in node.bases]
        self.fn.pop()
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        names, globs = stored_names(node.body)
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        info = {"loops": 0, "locals": [n for n in dict.fromkeys(params + names) if n not in globs],
                "qual": ".".join(self.stack + [node.name])}
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d and self.visit(d) for d in a.kw_defaults]
        self.stack.append(node.name)
        self.stack.append("<locals>")
        self.fn.append(info)
        body = []
        doc = []
        src = node.body
        if src and isinstance(src[0], ast.Expr) and isinstance(src[0].value, ast.Constant) \
                and isinstance(src[0].value.value, str):
            doc = [src[0]]
            src = src[1:]
        for b in src:
            r = self.visit(b)
            if isinstance(r, list):
                body.extend(r)
            else:
                body.append(r)
        pre = []
        if a.kwarg:
            pre.append(ast.Assign([ast.Name(a.kwarg.arg, ast.Store())],
                                  call("wrapkw", ast.Name(a.kwarg.arg, ast.Load()))))
        node.body = doc + pre + body or [ast.Pass()]
        self.fn.pop()
        self.stack.pop()
        self.stack.pop()
        return node
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.fn.append({"loops": 0, "locals": [], "qual": "<lambda>", "lambda": True})
        node.body = self.visit(node.body)
        self.fn.pop()
        return node

    def visit_arguments(self, node):
        return node

    def infn(self):
        return bool(self.fn) and self.fn[-1] is not None

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in CTRL_SKIP:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        if not self.infn():
            return node
        return ast.copy_location(
            ast.Call(rt("call"), [node.func] + node.args, node.keywords), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.infn() or not isinstance(node.ctx, ast.Load):
            return node
        s = node.slice
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            s = ast.Call(rt("slice"), [s.lower or none, s.upper or none, s.step or none], [])
        elif isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return node
        return ast.copy_location(call("getitem", node.value, s), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.infn():
            return node
        if len(node.ops) == 1:
            op = node.ops[0]
            b = node.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(call("in_", node.left, b), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(call("not_in", node.left, b), node)
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(b, ast.Constant) \
                    and isinstance(b.value, bool):
                return ast.copy_location(
                    call("is_" if isinstance(op, ast.Is) else "is_not", node.left, b), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant(None)
                if v.format_spec is not None:
                    spec = self.visit(v.format_spec)
                parts.append(ast.Tuple(
                    [self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(call("fstr", *parts), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.infn() and isinstance(node.op, ast.Mod):
            return ast.copy_location(call("mod", node.left, node.right), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.infn():
            return node
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([v], ast.Load()))
            else:
                items.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(call("mkdict", *items), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.infn():
            return node
        return ast.copy_location(call("mkset", *node.elts), node)

    def _comp(self, node, kind):
        node = self.generic_visit(node)
        if not self.infn():
            return node
        gens = node.generators
        if any(g.is_async for g in gens):
            return node
        ok = len(gens) == 1 and not any(
            isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr))
            for x in ast.walk(node))
        # only simple targets can become lambda parameters
        g = gens[0]
        if ok:
            if isinstance(g.target, ast.Name):
                params, unpack = [g.target.id], False
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                params, unpack = [e.id for e in g.target.elts], True
            else:
                ok = False
        if not ok:
            # force every iterable to be concrete
            for g in gens:
                g.iter = call("concrete_iter", g.iter)
            inner = node
            if kind == "dict":
                inner = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), gens)
            elif kind != "gen":
                inner = ast.GeneratorExp(node.elt, gens)
            if kind in ("dict", "set"):
                return ast.copy_location(call("from_gen_" + kind, inner), node)
            return node
        args = ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, [])
        if kind == "dict":
            elt = ast.Tuple([node.key, node.value], ast.Load())
        else:
            elt = node.elt
        cond = ast.Constant(None)
        if g.ifs:
            t = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = ast.Lambda(args, t)
        return ast.copy_location(
            call("comp_" + kind, g.iter, ast.Constant(unpack), ast.Lambda(args, elt), cond), node)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    # -- statements
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        bare = node.type is None or (
            isinstance(node.type, ast.Name) and node.type.id == "BaseException")
        if bare:
            node.body = [ast.Expr(call("reraise_control"))] + node.body
        return node

    def _loopid(self):
        info = self.fn[-1]
        i = info["loops"]
        info["loops"] += 1
        self.n += 1
        return "%s:%s#%d" % (self.mod, info["qual"], i), "__vcL%d" % self.n, info["locals"]

    def _enter(self, v, node, names, stored):
        # if __vcL.sym: __vcL.init(locals()); a = __vcL.h('a') ...
        assigned = set(stored)
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "init", ast.Load()),
                                  [ast.Call(ast.Name("locals", ast.Load()), [], []),
                                   ast.Tuple([ast.Constant(s) for s in stored], ast.Load())], []))]
        for n in names:
            body.append(ast.Assign(
                [ast.Name(n, ast.Store())],
                ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "h", ast.Load()),
                         [ast.Constant(n)], [])))
        del assigned
        return ast.If(ast.Attribute(ast.Name(v, ast.Load()), "sym", ast.Load()), body, [])

    def visit_For(self, node):
        if not self.infn() or self.fn[-1].get("lambda"):
            return self.generic_visit(node)
        lid, v, names = self._loopid()
        stored, _ = stored_names([node.target] + node.body)
        refs = {x.id for b in [node.target] + node.body for x in ast.walk(b) if isinstance(x, ast.Name)}
        names = [n for n in names if n in refs]
        it = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.body = self._block(node.body)
        node.orelse = self._block(node.orelse)
        pre = ast.Assign([ast.Name(v, ast.Store())], call("loop", ast.Constant(lid), it))
        node.iter = ast.Name(v, ast.Load())
        return [ast.copy_location(pre, node), ast.copy_location(self._enter(v, node, names, stored), node), node]

    def visit_While(self, node):
        if not self.infn() or self.fn[-1].get("lambda"):
            return self.generic_visit(node)
        lid, v, names = self._loopid()
        stored, _ = stored_names(node.body + [ast.Expr(node.test)])
        refs = {x.id for b in [node.test] + node.body for x in ast.walk(b) if isinstance(x, ast.Name)}
        names = [n for n in names if n in refs]
        test = self.visit(node.test)
        node.body = self._block(node.body)
        node.orelse = self._block(node.orelse)
        pre = ast.Assign([ast.Name(v, ast.Store())], call("while_", ast.Constant(lid)))
        nxt = ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "next", ast.Load()), [], [])
        node.test = ast.BoolOp(ast.And(), [nxt, test])
        return [ast.copy_location(pre, node), ast.copy_location(self._enter(v, node, names, stored), node), node]

    def _block(self, body):
        out = []
        for b in body:
            r = self.visit(b)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    t = T(modname)
    tree.body = t._block(tree.body)
    ast.fix_missing_locations(tree)
    return tree


def compile_module(src, modname, filename):
    return compile(transform(src, modname, filename), filename, "exec", dont_inherit=True)


def source_digest(src):
    return hashlib.sha256(src.encode()).hexdigest()
