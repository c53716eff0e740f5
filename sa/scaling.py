"""Size thresholds: a number in the code that is larger than every tree of the domain.

Code that does something else once a list, a count, a depth or a batch passes a number is correct only if it is correct
whatever the number is.  Such a program is decided a second time with its large numbers replaced by small ones, the same
number by the same one everywhere and keeping their order, so that both sides of every threshold are within the domain.
"""
import ast

LARGE = 6
SKIP_FILES = ("numconv.py", "deprecation.py", "fields.py", "exceptions.py")
SKIP_NAMES = {"steplen", "max_length", "max_digits", "decimal_places", "status", "stacklevel", "timeout", "code", "batch_size", "chunk_size", "maxsize"}
FLAGS = ("status", "version", "code", "vendor", "radix", "errno", "ord")


def fold(e):
    """the value of a number written as an expression"""
    if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Mult, ast.Add, ast.Sub, ast.Pow)):
        a, b = fold(e.left), fold(e.right)
        if a is None or b is None or isinstance(e.op, ast.Pow) and not 0 <= b < 40 or abs(a) > 10 ** 9:
            return None
        return a * b if isinstance(e.op, ast.Mult) else a + b if isinstance(e.op, ast.Add) else a - b if isinstance(e.op, ast.Sub) else a ** b
    return None


def word(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else word(e.func) if isinstance(e, ast.Call) else ""


class Walk(ast.NodeTransformer):
    """collects the thresholds; with a mapping, replaces them"""

    def __init__(self, mapping=None):
        self.mapping, self.found, self.lines = mapping, set(), []
        self.depth = 0

    def visit(self, node):
        if isinstance(node, ast.expr):
            v = fold(node)
            if v is not None:
                if v >= LARGE:
                    self.found.add(v)
                    self.lines.append((v, node.lineno))
                    if self.mapping and v in self.mapping:
                        return ast.copy_location(ast.Constant(self.mapping[v]), node)
                return node
        return super().visit(node)

    def visit_FunctionDef(self, node):
        a = node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos[len(pos) - len(a.defaults):]]
        a.defaults = [d if n in SKIP_NAMES else self.visit(d) for n, d in zip(names, a.defaults)]
        a.kw_defaults = [d if d is None or n.arg in SKIP_NAMES else self.visit(d) for n, d in zip(a.kwonlyargs, a.kw_defaults)]
        self.depth += 1
        node.body = [self.visit(s) for s in node.body]
        self.depth -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Assign(self, node):
        if any(word(t) in SKIP_NAMES for t in node.targets):
            return node
        return self.generic_visit(node)

    def visit_AnnAssign(self, node):
        if word(node.target) in SKIP_NAMES:
            return node
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_keyword(self, node):
        return node if node.arg in SKIP_NAMES else self.generic_visit(node)

    def visit_Call(self, node):
        w = word(node.func)
        if not self.depth or w.startswith("Http") or w.endswith(("Response", "Field", "chr", "pow")) or w in ("hasattr",):
            return node
        return self.generic_visit(node)

    def visit_Compare(self, node):
        sides = [node.left, *node.comparators]
        if any(any(f in word(s).lower() for f in FLAGS) for s in sides) or all(isinstance(s, ast.Constant) for s in sides):
            return node
        return self.generic_visit(node)

    def visit_Subscript(self, node):
        node.value = self.visit(node.value)
        if isinstance(node.slice, ast.Slice):
            node.slice = self.visit(node.slice)
        return node

    def visit_JoinedStr(self, node):
        return node


def mapping(values, t):
    return {v: t + i for i, v in enumerate(sorted(values))}


def thresholds(sources):
    """{value: [file:line]} of every file"""
    out = {}
    for rel, tree in sources:
        if rel.rsplit("/", 1)[-1] in SKIP_FILES:
            continue
        w = Walk()
        w.visit(tree)
        for v, line in w.lines:
            out.setdefault(v, []).append(f"{rel}:{line}")
    return out


def scale(tree, rel, m):
    if rel.rsplit("/", 1)[-1] in SKIP_FILES:
        return tree
    return ast.fix_missing_locations(Walk(m).visit(tree))
