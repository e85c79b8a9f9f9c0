"""Sets of strings iterate in an order of each rank's own.

Every MPI process has its own string hash seed, so that code which lets the iteration order of
a set reach another process goes wrong; in one interpreter all simulated ranks would see the
same order. The loader compiles the package with its `set(...)`, `frozenset(...)`, set displays,
comprehensions and operations on key views replaced by the classes below."""
import ast
import builtins
import sys
import zlib


def _rank():
    world = sys.modules.get("mc.world")
    current = world and world.World.current
    running = current and current.running
    return running.pid if running else None


def _own(x):
    return isinstance(x, (str, bytes)) or isinstance(x, tuple) and any(_own(i) for i in x)


def _order(items):
    items = list(items)
    if len(items) > 1:
        rank = _rank()
        if rank is not None and all(_own(x) for x in items):
            items.sort(key=lambda x: (zlib.crc32(f"{rank}:{x!r}".encode()), repr(x)))
    return items


def _make(base, name):
    def wrap(method):
        real = getattr(base, method)

        def call(self, *args):
            out = real(self, *args)
            return cls(out) if type(out) in (set, frozenset) else out

        return call

    ns = {"__iter__": lambda self: iter(_order(base.__iter__(self))), "__slots__": ()}
    for m in ("union", "intersection", "difference", "symmetric_difference", "copy", "__or__", "__and__", "__sub__", "__xor__",
              "__ror__", "__rand__", "__rsub__", "__rxor__"):
        ns[m] = wrap(m)
    if base is set:
        def pop(self):
            if not self:
                raise KeyError("pop from an empty set")
            x = next(iter(self))
            self.remove(x)
            return x

        ns["pop"] = pop
    ns["__reduce__"] = lambda self: (base, (list(base.__iter__(self)),))
    cls = type(name, (base,), ns)
    return cls


RankSet = _make(set, "set")
RankFrozenset = _make(frozenset, "frozenset")


def wrap(x):
    return RankSet(x) if type(x) is set else x


builtins.__verif_set__ = RankSet
builtins.__verif_frozenset__ = RankFrozenset
builtins.__verif_wrap__ = wrap


class _Rewrite(ast.NodeTransformer):
    def _call(self, node, name, *args):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), list(args), []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("set", "frozenset"):
            node.func = ast.copy_location(ast.Name(f"__verif_{node.func.id}__", ast.Load()), node.func)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._call(node, "__verif_set__", ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._call(node, "__verif_set__", ast.GeneratorExp(node.elt, node.generators))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items")
            for x in (node.left, node.right)
        ):
            return self._call(node, "__verif_wrap__", node)
        return node


def compile_source(data, path):
    tree = ast.parse(data, path)
    return compile(ast.fix_missing_locations(_Rewrite().visit(tree)), path, "exec", dont_inherit=True)
