"""Callables and argument values for persistence checks; everything importable by reference."""
import datetime as D
import decimal
import enum
import os.path
import uuid
from functools import partial
from pathlib import PurePosixPath


class Color(enum.Enum):
    RED = 1


class Base:
    def __init__(self, tag):
        self.tag = tag

    def meth(self, *a, **k):
        return (type(self).__name__, "meth", self.tag, a, sorted(k.items()))

    def over(self, *a, **k):
        return ("base-over", self.tag, a)

    @classmethod
    def cmeth(cls, *a, **k):
        return (cls.__name__, "cmeth", a, sorted(k.items()))

    @staticmethod
    def smeth(*a, **k):
        return ("smeth", a, sorted(k.items()))

    async def ameth(self, *a, **k):
        return (type(self).__name__, "ameth", self.tag, a, sorted(k.items()))

    class Inner:
        @classmethod
        def icm(cls, *a, **k):
            return (cls.__qualname__, a, sorted(k.items()))


class Sub(Base):
    def over(self, *a, **k):
        return ("sub-over", self.tag, a)


class Callable_:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, *a, **k):
        return ("called", self.tag, a, sorted(k.items()))


def plain(*a, **k):
    return ("plain", a, sorted(k.items()))


async def aplain(*a, **k):
    return ("aplain", a, sorted(k.items()))


def nested():
    def inner(*a, **k):
        return a

    return inner


THE_LAMBDA = lambda *a, **k: ("lambda", a)  # noqa: E731
INSTANCE = Callable_("module")


def callables(r):
    """(kind, value for add_task's fn, callable it stands for)"""
    tag = r.randint(0, 99)
    b, s, c = Base(tag), Sub(tag), Callable_(tag)
    return r.choice([
        ("function", plain, plain), ("coroutine", aplain, aplain), ("reference", "rv.fns9:plain", plain), ("reference to classmethod", "rv.fns9:Sub.cmeth", Sub.cmeth),
        ("bound", b.meth, b.meth), ("inherited bound", s.meth, s.meth), ("overridden bound", s.over, s.over), ("parent's bound", super(Sub, s).over, super(Sub, s).over),
        ("async bound", s.ameth, s.ameth), ("classmethod", Base.cmeth, Base.cmeth), ("inherited classmethod", Sub.cmeth, Sub.cmeth), ("classmethod of instance", s.cmeth, s.cmeth),
        ("staticmethod", Base.smeth, Base.smeth), ("inherited static", Sub.smeth, Sub.smeth), ("nested classmethod", Base.Inner.icm, Base.Inner.icm),
        ("unbound", Base.meth, Base.meth), ("class", Callable_, Callable_),
        ("instance", c, c), ("module instance", INSTANCE, INSTANCE), ("builtin", print, print), ("builtin bound", "x-y".split, "x-y".split), ("partial", partial(plain, 1), partial(plain, 1)),
        ("lambda", THE_LAMBDA, THE_LAMBDA), ("nested function", nested(), None)])


def value(r, depth=2):
    k = r.randrange(18 if depth else 13)
    return [lambda: r.randint(-5, 2 ** 70), lambda: r.random(), lambda: "x é\0\n" * r.randint(0, 3), lambda: b"\0\xff" * r.randint(0, 9), lambda: None, lambda: True,
            lambda: D.datetime(2024, 3, 10, 2, 30, fold=r.randint(0, 1), tzinfo=D.timezone.utc), lambda: D.timedelta(days=-1, microseconds=r.randint(0, 99)),
            lambda: decimal.Decimal("1.10"), lambda: uuid.UUID(int=r.getrandbits(128)), lambda: Color.RED, lambda: PurePosixPath("/a/../b"), lambda: complex(1, r.randint(0, 9)),
            lambda: [value(r, depth - 1) for _ in range(r.randint(0, 3))], lambda: tuple(value(r, depth - 1) for _ in range(r.randint(0, 3))),
            lambda: {str(i): value(r, depth - 1) for i in range(r.randint(0, 3))}, lambda: {1, "a", (2, 3)}, lambda: frozenset([r.randint(0, 5)])][k]()


def shown(fn, args, kwargs):
    """What calling it gives, comparable across processes."""
    import asyncio

    if fn in (print,):
        return ("print", repr(args), repr(kwargs))
    try:
        x = fn(*args, **kwargs)
        if asyncio.iscoroutine(x):
            x = asyncio.run(x) if _idle() else _drive(x)
        if isinstance(x, Callable_):
            x = ("a Callable_", x.tag)
    except Exception as exc:
        return ("raised", type(exc).__name__)
    return ("value", repr(x))


def _idle():
    return False


def _drive(co):
    try:
        co.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("coroutine waits")
