"""
A stand-in for the parts of abopt that pmesh.abopt uses: operations are declared with
`statement`, with rules for tangents and adjoints. Here each of them is run on its own.

What a rule is given follows from the names of its arguments: `_x` is the adjoint and `x_` the
tangent of x, any other name is the value before the operation. What is only an output is
given as a place to be assigned with `[...] =`, what is input and output is a copy, changed in place.
"""
import copy
import inspect
import sys
import types


class Zero(object):
    def __repr__(self):
        return 'ZERO'


ZERO = Zero()


class Place(object):
    def __init__(self, name):
        self.name = name

    def __getitem__(self, index):
        assert index is Ellipsis and 'value' in self.__dict__
        return self.value

    def __setitem__(self, index, value):
        assert index is Ellipsis
        self.value = value


class Literal(object):
    def __init__(self, value):
        self.value = value


def aslist(x):
    return [x] if isinstance(x, str) else list(x or [])


def duplicate(v):
    return v.copy() if hasattr(v, 'copy') else copy.copy(v)


class Statement(object):
    def __init__(self, body, ain, aout):
        self.body, self.ain, self.aout = body, aslist(ain), aslist(aout)
        self.name = body.__name__
        self.jvp = self.vjp = None

    def defjvp(self, f):
        self.jvp = f
        return f

    def defvjp(self, f):
        self.vjp = f
        return f

    def _call(self, f, engine, ain, aout, given):
        """f with the values given, returns the values of aout"""
        kw = {}
        for a, p in list(inspect.signature(f).parameters.items())[1:]:
            if p.default is not p.empty and a not in given and a not in aout or p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL):
                continue
            if a in aout:
                kw[a] = duplicate(given[a]) if a in ain else Place(a)
            else:
                kw[a] = given[a]
        f(engine, **kw)
        out = {}
        for a in aout:
            # an output that the rule does not mention is not set
            v = kw.get(a, ZERO)
            out[a] = v.value if isinstance(v, Place) else v
        return out

    def forward(self, engine, **given):
        return self._call(self.body, engine, self.ain, self.aout, given)

    def tangent(self, engine, given, **tangents):
        return self._call(self.jvp, engine, [a + '_' for a in self.ain], [a + '_' for a in self.aout],
                          dict(given, **{k + '_': v for k, v in tangents.items()}))

    def adjoint(self, engine, given, **adjoints):
        return self._call(self.vjp, engine, ['_' + a for a in self.aout], ['_' + a for a in self.ain],
                          dict(given, **{'_' + k: v for k, v in adjoints.items()}))


def statement(aout=None, ain=None):
    return lambda body: Statement(body, ain, aout)


class Programme(object):
    def __init__(self, body):
        self.body = body


def programme(aout=None, ain=None):
    return lambda body: Programme(body)


class CodeSegment(object):
    """a list of operations on named variables"""

    def __init__(self, engine):
        self.engine, self.lines = engine, []

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        st = getattr(type(self.engine), name)
        return lambda **kw: self.lines.append((st, kw))

    def run(self, **variables):
        for st, kw in self.lines:
            given = {}
            for a, v in kw.items():
                if a in st.aout and a not in st.ain:
                    continue
                given[a] = v.value if isinstance(v, Literal) else variables[v] if isinstance(v, str) else v
            for a, v in st.forward(self.engine, **given).items():
                variables[kw[a]] = v
        return variables


class Engine(object):
    pass


class VectorSpace(object):
    pass


def install():
    if 'abopt' in sys.modules:
        return
    top, a, b = (types.ModuleType(n) for n in ('abopt', 'abopt.vmad2', 'abopt.abopt2'))
    top.__path__ = []
    top.vmad2, top.abopt2 = a, b
    a.ZERO, a.Engine, a.statement, a.programme, a.CodeSegment, a.Literal = ZERO, Engine, statement, programme, CodeSegment, Literal
    b.VectorSpace = VectorSpace
    for m in (top, a, b):
        sys.modules[m.__name__] = m
