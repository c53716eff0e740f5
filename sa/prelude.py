"""Functions of the standard library written out as Python, to be interpreted like the code that calls them."""
import ast

from .source import FuncInfo

SOURCE = '''
def takewhile(predicate, iterable):
    for x in iterable:
        if not predicate(x):
            break
        yield x

def dropwhile(predicate, iterable):
    dropping = True
    for x in iterable:
        if dropping and predicate(x):
            continue
        dropping = False
        yield x

def filterfalse(predicate, iterable):
    for x in iterable:
        if not (x if predicate is None else predicate(x)):
            yield x

def filter(predicate, iterable):
    for x in iterable:
        if x if predicate is None else predicate(x):
            yield x

def pairwise(iterable):
    first, last = True, None
    for x in iterable:
        if not first:
            yield last, x
        first, last = False, x

def starmap(function, iterable):
    for x in iterable:
        yield function(*x)

def compress(data, selectors):
    for x, s in zip(data, selectors):
        if s:
            yield x
'''
FUNCS = {n.name: n for n in ast.parse(SOURCE).body}


def function(name, module):
    n = FUNCS.get(name)
    return FuncInfo(n, module, qual="prelude." + name) if n is not None else None
