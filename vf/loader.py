"""
Load the package from /repo's working tree with its call and subscript
expressions routed through the models.

What the rewriting does to the source text (and nothing else):
  f(x, ...)      ->  __vf_call__(f, x, ...)
  obj[i] (load)  ->  __vf_getitem__(obj, i)
  x in y         ->  __vf_in__(x, y)      (not in: not __vf_in__(x, y))
  while T: B     ->  a numbered loop head `__vf_loop__(id, locals)` when a loop
                     invariant is registered for that loop
Annotations and decorators are left alone.  Nothing is dropped: every function
body, default, class body and module body of the file that is imported at run
time is compiled from the same text.
"""
import ast
import hashlib
import importlib.abc
import importlib.util
import os
import shutil
import sys
import tempfile
import types

from . import core, models

REPO = os.environ.get("VERIF_REPO", "/repo")
KEEP_NATIVE = {
    "super", "locals", "globals", "vars", "dir", "eval", "exec",
}
sources = {}
_scratch = None


class Rewrite(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []
        self.loops = {}

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in KEEP_NATIVE:
            return node
        new = ast.Call(
            func=ast.Name("__vf_call__", ast.Load()),
            args=[node.func, *node.args],
            keywords=node.keywords,
        )
        return ast.copy_location(new, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        idx = node.slice
        if isinstance(idx, ast.Slice):
            none = ast.Constant(None)
            idx = ast.Call(
                func=ast.Name("__vf_slice__", ast.Load()),
                args=[idx.lower or none, idx.upper or none,
                      idx.step or none],
                keywords=[],
            )
        new = ast.Call(
            func=ast.Name("__vf_getitem__", ast.Load()),
            args=[node.value, idx], keywords=[],
        )
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1 or not isinstance(node.ops[0],
                                                (ast.In, ast.NotIn)):
            return node
        new = ast.Call(
            func=ast.Name("__vf_in__", ast.Load()),
            args=[node.left, node.comparators[0]], keywords=[],
        )
        if isinstance(node.ops[0], ast.NotIn):
            new = ast.UnaryOp(ast.Not(), new)
        return ast.copy_location(new, node)

    # leave annotations alone
    def visit_arg(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def _func(self, node):
        self.stack.append(node.name)
        node.args = self.visit(node.args)
        node.body = self._stmts(node.body)
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self._stmts(node.body)
        self.stack.pop()
        return node

    def visit_For(self, node):
        """the iterable is evaluated first, then the cut, then iteration"""
        r = self.visit_While(node)
        if not isinstance(r, list):
            return r
        name = f"__vf_it_{len(self.loops)}_{node.lineno}"
        first = ast.Assign(targets=[ast.Name(name, ast.Store())],
                           value=node.iter)
        node.iter = ast.Name(name, ast.Load())
        return [ast.copy_location(first, node), *r]

    visit_AsyncFor = visit_For

    def visit_While(self, node):
        q = ".".join(self.stack)
        i = self.loops[q] = self.loops.get(q, -1) + 1
        self.generic_visit(node)
        lid = (self.module, q, i)
        if (self.module, q) not in LOOP_SPECS or node.orelse:
            return node
        names = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Continue):
                return node
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        names = sorted(names)
        ident = ast.Constant(repr(lid))

        def pack():
            # names may still be unbound at the loop head
            return ast.Call(
                func=ast.Name("__vf_pack__", ast.Load()),
                args=[ast.Call(ast.Name("locals", ast.Load()), [], []),
                      ast.Constant(tuple(names))], keywords=[])
        head = ast.Assign(
            targets=[ast.Tuple([ast.Name(n, ast.Store()) for n in names],
                               ast.Store())],
            value=ast.Call(
                func=ast.Name("__vf_loop_head__", ast.Load()),
                args=[ident, pack()], keywords=[]),
        )
        back = ast.Expr(ast.Call(
            func=ast.Name("__vf_loop_back__", ast.Load()),
            args=[ident, pack()], keywords=[]))
        node.body.append(back)
        return [ast.copy_location(head, node), node]


# loops with a registered invariant: (module, qualname)
LOOP_SPECS = set()


class Unbound:
    """a local that has no value yet"""

    def __repr__(self):
        return "<unbound>"

    def __getattr__(self, n):
        raise core.Unsupported("use of an unbound local after a loop cut")


UNBOUND = Unbound()


class Vals(tuple):
    """values of the names assigned in a loop; .scope: all locals"""


def pack(scope, names):
    v = Vals(scope.get(n, UNBOUND) for n in names)
    v.scope, v.names = scope, names
    return v


def loop_head(lid, vals):
    c = core.CTX
    if c is None:
        return vals
    cut = c.cuts.get(lid)
    return vals if cut is None else cut.head(c, vals)


def loop_back(lid, vals):
    c = core.CTX
    if c is not None:
        cut = c.cuts.get(lid)
        if cut is not None:
            cut.back(c, vals)


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, is_pkg):
        self.fullname, self.path, self.is_pkg = fullname, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        sources[self.fullname] = hashlib.sha256(src).hexdigest()
        tree = ast.parse(src, self.path)
        tree = Rewrite(self.fullname).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        g = module.__dict__
        g["__vf_call__"] = models.call
        g["__vf_getitem__"] = models.getitem
        g["__vf_in__"] = models.contains
        g["__vf_slice__"] = slice
        g["__vf_pack__"] = pack
        g["__vf_loop_head__"] = loop_head
        g["__vf_loop_back__"] = loop_back
        exec(code, g)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "aiootp" and not fullname.startswith("aiootp."):
            return None
        rel = fullname.replace(".", "/")
        d = os.path.join(self.root, rel)
        if os.path.isfile(os.path.join(d, "__init__.py")):
            p = os.path.join(d, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p, True),
                submodule_search_locations=[d],
            )
        p = d + ".py"
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(
                fullname, p, loader=Loader(fullname, p, False),
            )
        return None


def load():
    """import the instrumented package from a scratch copy of the tree"""
    global _scratch
    if _scratch is not None:
        return sys.modules["aiootp"]
    _scratch = tempfile.mkdtemp(prefix="vf-aiootp-")
    shutil.copytree(
        os.path.join(REPO, "aiootp"), os.path.join(_scratch, "aiootp"),
        ignore=shutil.ignore_patterns("__pycache__", "db", "*.pyc"),
    )
    os.makedirs(os.path.join(_scratch, "aiootp", "db"))
    sys.meta_path.insert(0, Finder(_scratch))
    sys.dont_write_bytecode = True
    import aiootp
    assert aiootp.__file__.startswith(_scratch), aiootp.__file__
    return aiootp


def cleanup():
    global _scratch
    if _scratch and _scratch.startswith(tempfile.gettempdir()):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None
