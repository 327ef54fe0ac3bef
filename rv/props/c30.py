"""C30: data shapes convert losslessly, and unknown shapes fail clearly."""
import asyncio
import copy
import dataclasses
import datetime as D
import decimal
import enum
import itertools
import json
import random
import string
import uuid

from rv.backends import PERSISTENT
from rv.delays import Delays, together
from rv.world import run_world

RULE = ("a case builds random model classes with each library (names, aliases, defaults, factories, private and late attributes, nesting, all plain value types), random values of them, random damage to their "
        "dumps, random histories of the registry (also from several threads with injected delays), schedulers configured with them and stores that keep tasks under them; distinct by library, fields and values")
ASSUMPTIONS = ["dumping is exact for values of the declared field types", "nested dataclasses and attrs models are restored by the class itself (converter, __post_init__)",
               "the checks for wrong types are those of the library: dataclasses have none"]
REQUIRE = {"roundtrip": 8184, "json": 4092, "lib:pydantic": 682, "lib:msgspec": 682, "lib:attrs": 682, "lib:dataclass": 682, "nested": 1928, "aliased": 946, "late": 339, "private": 385,
           "without_none": 2014, "containers": 2728, "fields": 9590, "damaged": 9920, "refused:missing": 4501, "refused:type": 2837, "refused:unknown": 3744, "refused:not_a_mapping": 4960,
           "no_schema": 3720, "registry_ops": 7797, "resolved": 1410, "resolve_refused": 1667, "taken": 1255, "replaced": 701, "races": 99, "race_registrations": 1391, "defaults_by_model":
           248, "stored": 656, "restored_same": 656, "restored_new": 656, "restored_default": 496, "envelopes_refused": 1522, "unregistered_kept_out": 63}


NUMBERS = itertools.count()


class Colour(enum.Enum):
    red = "r"
    blue = "b"


class Level(enum.IntEnum):
    low = 1
    high = 2


def text(r):
    return "".join(r.choice(string.ascii_letters + "äß€\n\"'\\ {}") for _ in range(r.choice([0, 1, 3, 12])))


def when(r):
    x = D.datetime(r.randint(1970, 2190), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 1, 500000, 999999]))
    return x.replace(tzinfo=r.choice([None, D.timezone.utc, D.timezone(D.timedelta(minutes=r.choice([-570, 60, 345])))]))


# kind -> (annotation, value, values which do not fit)
KINDS = {
    "int": (int, lambda r: r.choice([0, -1, 7, 2**40, -2**62]), ["zz", None, [1], {}]),
    "float": (float, lambda r: r.choice([0.5, -1e-9, 1e300, 0.1]), ["zz", None, [1.0]]),
    "str": (str, text, [5, None, ["a"], 1.5]),
    "bool": (bool, lambda r: r.random() < 0.5, ["perhaps", None, [], 7]),
    "bytes": (bytes, lambda r: "".join(r.choice(string.ascii_letters) for _ in range(r.randint(0, 6))).encode(), [5, None, [1]]),
    "datetime": (D.datetime, when, ["not a date", None, []]),
    "date": (D.date, lambda r: when(r).date(), ["never", None, []]),
    "time": (D.time, lambda r: when(r).time(), ["noon", None, []]),
    "timedelta": (D.timedelta, lambda r: D.timedelta(days=r.randint(-40, 400), seconds=r.randint(0, 86399), microseconds=r.choice([0, 1, 250000])), ["long", None, []]),
    "uuid": (uuid.UUID, lambda r: uuid.UUID(int=r.getrandbits(128)), ["no-uuid", None, 5.5]),
    "decimal": (decimal.Decimal, lambda r: decimal.Decimal(r.choice(["1.10", "-0.001", "123456789.123456789", "7"])), ["many", None, []]),
    "enum": (Colour, lambda r: r.choice(list(Colour)), ["green", None, 5]),
    "intenum": (Level, lambda r: r.choice(list(Level)), [77, None, "high"]),
    "ints": (list[int], lambda r: [r.randint(-5, 5) for _ in range(r.randint(0, 3))], [["a"], None, 5]),
    "texts": (tuple[str, ...], lambda r: tuple(text(r) for _ in range(r.randint(0, 3))), [[5], None, 5]),
    "set": (set[int], lambda r: {r.randint(0, 9) for _ in range(r.randint(0, 3))}, [["a"], None, 5]),
    "map": (dict[str, int], lambda r: {text(r): r.randint(0, 9) for _ in range(r.randint(0, 3))}, [{"a": "b"}, None, 5]),
    "deep": (dict[str, list[dict[str, float]]], lambda r: {text(r): [{"x": 0.5 * i} for i in range(r.randint(0, 2))] for _ in range(r.randint(0, 2))}, [{"a": 5}, None, [5]]),
    "opt_int": (int | None, lambda r: r.choice([None, None, 3]), ["zz", []]),
    "opt_str": (str | None, lambda r: r.choice([None, None, text(r)]), [5, []]),
    "opt_when": (D.datetime | None, lambda r: r.choice([None, when(r)]), ["zz", []]),
}
CHECKED = ("pydantic", "msgspec")


class Said:
    """A case whose oracles take what they saw as further arguments."""

    def __init__(self, case):
        self.case = case

    def __getattr__(self, name):
        return getattr(self.case, name)

    def check(self, cond, message, *seen, key=None):
        if cond:
            self.case.check(True, message)
        else:
            self.case.check(False, message, key, seen=[repr(x)[:300] for x in seen])

    def eq(self, got, want, what, *seen, key=None):
        if got == want:
            self.case.check(True, what)
        else:
            self.case.check(False, f"{what}: got {got!r}"[:600] + f", expected {want!r}"[:600], key, seen=[repr(x)[:300] for x in seen])

    def fail(self, message, *seen, key=None):
        self.case.fail(message, key, seen=[repr(x)[:300] for x in seen])


def canon(x):
    """Value and exact types; instants by value and offset."""
    if isinstance(x, D.datetime):
        return ("datetime", x.replace(tzinfo=None, fold=0), x.utcoffset())
    if isinstance(x, dict):
        return ("dict", [(canon(k), canon(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(i) for i in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(map(repr, x)))
    if isinstance(x, decimal.Decimal):
        return ("decimal", str(x))
    names = getattr(type(x), "rv_names", None)
    if names:
        return (type(x).__name__, [(n, canon(getattr(x, n))) for n in names])
    return (type(x).__name__, x)


def plain(x):
    """A model as the mapping of its attributes, models inside included."""
    names = getattr(type(x), "rv_names", None)
    if names:
        return {n: plain(getattr(x, n)) for n in names}
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(plain(i) for i in x)
    return x


class Model:
    """A random model class of one library."""

    def __init__(self, r, lib, depth=0):
        self.r, self.lib = r, lib
        self.fields = []
        names = r.sample(["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "ids", "kwargs", "title"], r.randint(1, 6))
        for n in names:
            f = dict(name=n, kind=r.choice(list(KINDS)), nested=None, default="required", alias=None, init=True)
            f["ann"], f["make"], f["bad"] = KINDS[f["kind"]]
            if depth < 2 and r.random() < 0.2:
                m = f["nested"] = Model(r, lib, depth + 1)
                f.update(kind="model", ann=m.cls, make=lambda r, m=m: m.value(), bad=["zz", 5])
            if lib == "attrs" and r.random() < 0.15:
                f["name"] = "_" + n
            if f["kind"] != "model":
                d = r.random()
                if d < 0.3:
                    f["default"], f["value"] = "value", f["make"](r)
                    if isinstance(f["value"], (list, dict, set)):
                        f["default"] = "factory"
                elif d < 0.45:
                    f["default"], f["value"] = "factory", f["make"](r)
            if lib in ("pydantic", "msgspec") and r.random() < 0.2:
                f["alias"] = n + "Given"
            if lib in ("dataclass", "attrs") and f["default"] != "required" and r.random() < 0.2:
                f["init"] = False
            self.fields.append(f)
        self.fields.sort(key=lambda f: f["default"] != "required")
        self.by = {f["name"]: f for f in self.fields}
        self.tag = f"M{next(NUMBERS)}"
        self.cls = getattr(self, "make_" + lib)()
        self.cls.rv_names = [f["name"] for f in self.fields]

    # ------------------------------------------------------------ one per library
    def make_pydantic(self):
        import pydantic

        d = {}
        for f in self.fields:
            kw = {}
            if f["default"] == "value":
                kw["default"] = f["value"]
            elif f["default"] == "factory":
                kw["default_factory"] = lambda f=f: copy.deepcopy(f["value"])
            if f["alias"]:
                kw["alias"] = f["alias"]
            d[f["name"]] = (f["ann"], pydantic.Field(**kw))
        self.forbid = self.r.random() < 0.5
        return pydantic.create_model(self.tag, __base__=type("B", (pydantic.BaseModel,), {"__module__": __name__, "model_config": pydantic.ConfigDict(extra="forbid" if self.forbid else "ignore")}), **d)

    def make_msgspec(self):
        import msgspec

        spec = []
        for f in self.fields:
            kw = {"name": f["alias"]} if f["alias"] else {}
            if f["default"] == "value":
                kw["default"] = f["value"]
            elif f["default"] == "factory":
                kw["default_factory"] = lambda f=f: copy.deepcopy(f["value"])
            spec.append((f["name"], f["ann"], msgspec.field(**kw)))
        self.forbid = self.r.random() < 0.5
        return msgspec.defstruct(self.tag, spec, kw_only=True, forbid_unknown_fields=self.forbid, frozen=self.r.random() < 0.3, module=__name__, namespace={"rv_names": ()})

    def make_dataclass(self):
        spec = []
        for f in self.fields:
            kw = {} if f["init"] else {"init": False}
            if f["default"] == "value":
                kw["default"] = f["value"]
            elif f["default"] == "factory":
                kw["default_factory"] = lambda f=f: copy.deepcopy(f["value"])
            spec.append((f["name"], f["ann"], dataclasses.field(**kw)))
        nested = [f for f in self.fields if f["nested"]]
        frozen = self.r.random() < 0.4

        def post(this):
            for f in nested:
                v = getattr(this, f["name"])
                if isinstance(v, dict):
                    object.__setattr__(this, f["name"], f["nested"].rebuild(v))

        return dataclasses.make_dataclass(self.tag, spec, frozen=frozen, namespace={"__post_init__": post})

    def make_attrs(self):
        import attr

        spec = {}
        for f in self.fields:
            kw = {} if f["init"] else {"init": False}
            if f["default"] == "value":
                kw["default"] = f["value"]
            elif f["default"] == "factory":
                kw["factory"] = lambda f=f: copy.deepcopy(f["value"])
            if f["nested"]:
                kw["converter"] = lambda v, m=f["nested"]: m.rebuild(v) if isinstance(v, dict) else v
            f["checked"] = f["kind"] in ("int", "str", "bytes", "datetime", "uuid") and self.r.random() < 0.6
            if f["checked"]:
                kw["validator"] = attr.validators.instance_of(f["ann"])
            spec[f["name"]] = attr.ib(type=f["ann"], **kw)
        return attr.make_class(self.tag, spec, frozen=self.r.random() < 0.4)

    # ------------------------------------------------------------ values
    def given(self, n):
        return n.lstrip("_") if self.lib == "attrs" else self.by[n]["alias"] or n if self.lib == "pydantic" else n

    def fill(self, values):
        """An instance with these attributes, by the library's own constructor."""
        obj = self.cls(**{self.given(n): v for n, v in values.items() if self.by[n]["init"]})
        for n, v in values.items():
            if not self.by[n]["init"]:
                object.__setattr__(obj, n, v)
        return obj

    def rebuild(self, mapping):
        return self.fill({n: v if self.by[n]["nested"] is None or not isinstance(v, dict) else self.by[n]["nested"].rebuild(v) for n, v in mapping.items()})

    def value(self):
        r = self.r
        return self.fill({f["name"]: f["make"](r) for f in self.fields if f["default"] == "required" or r.random() < 0.6})

    def count(self, case):
        case.count(f"lib:{self.lib}")
        for f in self.fields:
            for what in (("nested", f["nested"]), ("aliased", f["alias"]), ("late", not f["init"]), ("private", f["name"][0] == "_")):
                if what[1]:
                    case.count(what[0])


LIBS = ("pydantic", "msgspec", "attrs", "dataclass")


def select(r, name):
    """The shape of a name, in any way it can be selected."""
    from asyncz import shapes as S

    cls = {"pydantic": S.PydanticShape, "msgspec": S.MsgspecShape, "attrs": S.AttrsShape, "dataclass": S.DataclassShape, "any": S.AnyShape}[name]
    how = r.choice(["name", "class", "instance", "get"] + ["none"] * (name == "pydantic"))
    x = {"name": name, "class": cls, "instance": cls(), "none": None}.get(how, name)
    return S.ShapeRegistry.get(name) if how == "get" else S.resolve_shape(x)


def context(r):
    from asyncz.shapes import ShapeContext

    if r.random() < 0.5:
        return {}
    return {"context": ShapeContext(entity=r.choice(["task", "x"]), operation=r.choice(["dump", "load"]), strict=r.choice([None, True, False]), schema_version=r.choice([None, 1]), mode=r.choice([None, "json"]))}


def roundtrip(case):
    r = case.rng
    log = []
    for lib in r.sample(LIBS, 4):
        m = Model(r, lib)
        shape = select(r, lib)
        m.count(case)
        log.append([lib, [(f["name"], f["kind"], f["default"]) for f in m.fields]])
        case.describe(models=log)
        case.check(shape.supports(m.cls), "the shape does not know a model of its library", lib, m.cls, key="supports")
        for _ in range(3):
            v = m.value()
            before = canon(copy.deepcopy(v))
            case.check(shape.supports(v), "the shape does not know a model of its library", lib, v, key="supports")
            d = shape.dump(v, **context(r))
            case.check(isinstance(d, dict), "a model is not dumped as a mapping", lib, d, key="dump")
            if lib != "msgspec":
                case.eq(canon(d), canon(plain(v)), "the dump of a model", key="dump")
            else:
                case.eq(set(d), {f["alias"] or f["name"] for f in m.fields}, "keys of a dump", key="dump")
            back = shape.load(m.cls, d, **context(r))
            case.eq(canon(back), before, f"loaded dump of a {lib} model", key=f"roundtrip:{lib}")
            case.check(back == v, "a restored model differs from the original", lib, v, back, key=f"roundtrip:{lib}")
            case.eq(canon(v), before, "the dumped model afterwards", key="mutated")
            case.count("roundtrip")
            # an instance stays what it is
            case.check(shape.load(m.cls, v) is v and shape.construct(m.cls, v) is v and shape.validate(m.cls, v) is v, "an instance is not taken as it is", lib, v, key="instance")
            # JSON
            if lib in CHECKED:
                j = json.loads(json.dumps(shape.dump(v, mode="json", **context(r))))
                case.eq(canon(shape.load(m.cls, j)), before, f"loaded JSON dump of a {lib} model", key=f"json:{lib}")
                case.count("json")
            # leaving out None
            x = shape.dump(v, exclude_none=True)
            want = {k: w for k, w in d.items() if w is not None}
            gone = [k for k, w in d.items() if w is None]
            if lib in ("pydantic", "msgspec", "attrs", "dataclass"):
                case.eq([k for k in x], [k for k in want], "keys of a dump without None", key="without_none")
                for k, w in want.items():
                    if not isinstance(w, (dict, list)):
                        case.eq(canon(x[k]), canon(w), "values of a dump without None", key="without_none")
            case.count("without_none", len(gone))
        # models in containers
        v, w = m.value(), Model(r, r.choice(["pydantic", "attrs", "dataclass"])).value()
        box = r.choice([lambda: {"a": w, "b": [w, 1], "c": (w, None)}, lambda: [w, {"x": {"y": w}}], lambda: (w, "text", [w])])()
        if isinstance(box, dict) or lib != "none":
            case.eq(canon(shape.dump(box)), canon(plain(box)), "the dump of a container of models", key="containers")
            case.count("containers")
        # descriptions
        got = shape.fields(m.cls)
        case.eq([(f.name, f.required) for f in got], [(f["name"], f["default"] == "required") for f in m.fields], "described fields", key="fields")
        for f, g in zip(m.fields, got):
            case.eq(canon(g.default), canon(f["value"]) if f["default"] == "value" else canon(None), "described default", f["name"], key="fields")
            if lib != "any":
                case.eq(g.annotation, f["ann"], "described type", f["name"], key="fields")
            case.count("fields")


def refusal(case):
    from asyncz import shapes as S

    r = case.rng
    log = []

    def refused(shape, m, payload, why):
        for how, err in (("construct", S.ShapeValidationError), ("validate", S.ShapeValidationError), ("load", S.ShapeDeserializationError)):
            try:
                got = getattr(shape, how)(m.cls, payload, **context(r))
            except S.ShapeError as exc:
                case.check(type(exc) is err, f"{how} reports unfit data with another error", type(exc), str(exc), key=f"error:{how}")
                case.check(m.tag in str(exc) or "mapping" in str(exc), "the error does not name the model", str(exc), key="message")
                if isinstance(payload, dict):
                    case.check(exc.__cause__ is not None, "the error does not keep its cause", repr(exc), key="cause")
            except BaseException as exc:
                case.fail(f"{how} raises something else for unfit data: {type(exc).__name__}: {exc}"[:300], key=f"error:{how}")
            else:
                case.fail(f"{how} accepts data that does not fit ({why})", shape.name, payload, got, key=f"accepted:{why}")
        case.count(f"refused:{why}")

    for lib in r.sample(LIBS, 4):
        m = Model(r, lib)
        shape = select(r, lib)
        log.append([lib, [(f["name"], f["kind"], f["default"]) for f in m.fields]])
        case.describe(models=log)
        for _ in range(4):
            v = m.value()
            # keys as the constructor of the library knows them
            d = {m.given(f["name"]) if lib != "msgspec" else f["alias"] or f["name"]: getattr(v, f["name"]) for f in m.fields if f["init"]}
            if lib == "msgspec":
                d = shape.dump(v)
            key = {f["name"]: (f["alias"] or f["name"]) if lib == "msgspec" else m.given(f["name"]) for f in m.fields}
            case.count("damaged")
            required = [f for f in m.fields if f["default"] == "required"]
            if required:
                bad = dict(d)
                del bad[key[r.choice(required)["name"]]]
                refused(shape, m, bad, "missing")
            typed = [f for f in m.fields if f["init"] and (lib in CHECKED or f.get("checked"))]
            if typed:
                f = r.choice(typed)
                bad = dict(d)
                bad[key[f["name"]]] = r.choice(f["bad"])
                refused(shape, m, bad, "type")
            if lib in ("dataclass", "attrs") or m.forbid:
                bad = dict(d, **{r.choice(["zz", "other", "Alpha"]): 5})
                refused(shape, m, bad, "unknown")
            refused(shape, m, r.choice([5, "text", None, [1, 2], (), b"x", object()]), "not_a_mapping")
            case.count("damaged")
        for name in ("any", "dataclass", "attrs"):
            try:
                select(r, name).schema(m.cls)
            except S.ShapeCapabilityError:
                case.count("no_schema")
            else:
                case.fail("a shape without schemas yields one", name, key="schema")
        if lib in CHECKED:
            js = shape.schema(m.cls)
            text_ = json.dumps(js)
            for f in m.fields:
                case.check((f["alias"] or f["name"]) in text_, "the schema lacks a field", f["name"], key="schema")


def registry(case):
    from asyncz import shapes as S

    r = case.rng
    tag = f"rv{case.index}x"
    R = S.ShapeRegistry
    BUILT = {"pydantic": S.PydanticShape, "msgspec": S.MsgspecShape, "attrs": S.AttrsShape, "dataclass": S.DataclassShape, "any": S.AnyShape}
    book = dict(BUILT)
    mine = [tag + x for x in "abc"]
    ops = []
    case.describe(ops=ops)

    def cls(i):
        return type(f"Own{i}", (r.choice([S.Shape, S.AnyShape, S.PydanticShape]),), {"name": r.choice([mine[0], "other", "shape", "own"])})

    def same():
        case.eq([n for n in R.available()], sorted(book), "available names", key="available")

    try:
        same()
        for i in range(r.randint(10, 40)):
            op = r.choice(["register", "register", "decorate", "replace", "unregister", "get", "resolve", "resolve", "bad", "bad_resolve"])
            n = r.choice(mine)
            ops.append([op, n])
            case.count("registry_ops")
            if op in ("register", "decorate", "replace"):
                c, rep = cls(i), op == "replace" or (op == "decorate" and r.random() < 0.4)
                try:
                    if op == "decorate":
                        got = S.register_shape(n, replace=rep)(c)
                    else:
                        got = R.register(n, c, **({"replace": True} if rep else {}))
                except S.ShapeRegistrationError as exc:
                    case.check(n in book and not rep, "a free name is refused", n, str(exc), key="refused")
                    case.check(n in str(exc), "the error does not name the shape", str(exc), key="message")
                    case.count("taken")
                else:
                    case.check(n not in book or rep, "a taken name is registered again", n, key="taken")
                    case.check(got is c, "registering does not hand the class back", key="returned")
                    if n in book:
                        case.count("replaced")
                    book[n] = c
            elif op == "unregister":
                try:
                    R.unregister(n)
                except S.ShapeNotFoundError as exc:
                    case.check(n not in book and n in str(exc), "a registered name cannot be removed", n, str(exc), key="unregister")
                else:
                    case.check(book.pop(n, None) is not None, "an unknown name is removed", n, key="unregister")
            elif op == "get":
                try:
                    got = R.get(n)
                except S.ShapeNotFoundError as exc:
                    case.check(n not in book and n in str(exc), "a registered name is not found", n, str(exc), key="get")
                else:
                    case.check(type(got) is book.get(n), "another shape comes back for a name", n, got, key="get")
            elif op == "resolve":
                how = r.choice(["none", "built", "name", "class", "instance"])
                c = cls(i)
                x = {"none": None, "built": r.choice(list(BUILT)), "name": n, "class": c, "instance": c()}[how]
                try:
                    got = S.resolve_shape(x) if r.random() < 0.5 else R.resolve(x)
                except S.ShapeNotFoundError:
                    case.check(how == "name" and n not in book, "a shape is not found", how, x, key="resolve")
                    case.count("resolve_refused")
                else:
                    want = {"none": S.PydanticShape, "built": BUILT.get(x) if isinstance(x, str) else None, "name": book.get(n), "class": c, "instance": c}[how]
                    case.check(type(got) is want, "another shape is selected", how, x, got, key="resolve")
                    if how == "instance":
                        case.check(got is x, "an instance is not taken as it is", key="resolve")
                    case.count("resolved")
            elif op == "bad":
                a, b = r.choice([("", S.AnyShape), (None, S.AnyShape), (5, S.AnyShape), (n, int), (n, S.AnyShape()), (n, None), (n, "any")])
                try:
                    R.register(a, b, replace=r.random() < 0.5)
                except S.ShapeRegistrationError:
                    case.count("resolve_refused")
                else:
                    case.fail("something that is no shape is registered", a, b, key="bad")
            else:
                x = r.choice([5, int, object(), [], {}, b"any", True, ("any",)])
                try:
                    got = S.resolve_shape(x)
                except S.ShapeNotFoundError:
                    case.fail("something that is no name is reported as an unknown name", x, key="bad_resolve")
                except S.ShapeError:
                    case.count("resolve_refused")
                else:
                    case.fail("something that is no shape is resolved", x, got, key="bad_resolve")
            same()
    finally:
        for n in mine:
            if n in R.available():
                R.unregister(n)


def race(case):
    from asyncz import shapes as S

    r = case.rng
    R = S.ShapeRegistry
    tag = f"rvrace{case.index}"
    shared = [f"{tag}s{i}" for i in range(r.randint(1, 3))]
    delays = Delays(["asyncz/shapes/registry.py"], r.choice([0.1, 0.4, 0.8]), [0, 0.0002, 0.001])
    won = {n: [] for n in shared}
    n_threads = r.randint(2, 6)
    own = {}
    plans = []

    def worker(i, seed):
        q = random.Random(seed)
        todo = [("shared", n) for n in shared] + [("own", f"{tag}o{i}x{k}") for k in range(3)] + [("look", "any")] * 2
        q.shuffle(todo)
        plans.append(todo)

        def body():
            for kind, n in todo:
                c = type(f"T{i}", (S.AnyShape,), {})
                if kind == "look":
                    R.available()
                    if type(R.get(n)) is not S.AnyShape:
                        raise AssertionError("another shape comes back for a name")
                    continue
                try:
                    R.register(n, c)
                except S.ShapeRegistrationError:
                    if kind == "own":
                        raise
                else:
                    if kind == "own":
                        own[n] = c
                    else:
                        won[n].append(c)
        return body

    try:
        seeds = [r.getrandbits(32) for _ in range(n_threads)]
        case.describe(threads=n_threads, shared=shared, seeds=seeds)
        together(case, [worker(i, s) for i, s in enumerate(seeds)], delays, r.random())
        for n, w in won.items():
            case.check(len(w) == 1, "concurrent registrations of one name: not exactly one has it", n, len(w), key="race")
            case.check(type(R.get(n)) is w[0], "the name belongs to a registration that was refused", n, key="race")
        for n, c in own.items():
            case.check(type(R.get(n)) is c, "a concurrent registration is lost", n, key="lost")
        case.count("races")
        case.count("race_registrations", len(own) + len(won))
    finally:
        for n in R.available():
            if n.startswith(tag):
                R.unregister(n)


def config(case):
    """Scheduler defaults given as a model of any library mean what the mapping means."""
    from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

    r = case.rng
    lib = r.choice(LIBS)
    spec = dict(mistrigger_grace_time=(float | None, r.choice([None, 5.0, 2.5, 60.0])), coalesce=(bool, r.random() < 0.5), max_instances=(int, r.choice([1, 2, 9])))
    keys = [k for k in spec if r.random() < 0.8] or ["max_instances"]
    vals = {k: spec[k][1] for k in keys}
    case.describe(lib=lib, values=str(vals))
    if lib == "pydantic":
        import pydantic
        obj = pydantic.create_model("Defaults", **{k: (spec[k][0], spec[k][1]) for k in keys})()
    elif lib == "msgspec":
        import msgspec
        obj = msgspec.defstruct("Defaults", [(k, spec[k][0], spec[k][1]) for k in keys])()
    elif lib == "attrs":
        import attr
        obj = attr.make_class("Defaults", {k: attr.ib(default=spec[k][1]) for k in keys})()
    else:
        obj = dataclasses.make_dataclass("Defaults", [(k, spec[k][0], dataclasses.field(default=spec[k][1])) for k in keys])()
    shape = r.choice([lib, select(r, lib), type(select(r, lib))])
    cls = r.choice([AsyncIOScheduler, NativeAsyncIOScheduler])
    a, b = cls(shape=shape, task_defaults=obj), cls(task_defaults=dict(vals))
    trig = dict(trigger="interval", hours=5)
    ta, tb = a.add_task("rv.fns:work", id="x", args=["k"], **trig), b.add_task("rv.fns:work", id="x", args=["k"], **trig)
    ta, tb = (s.pending_tasks[0][0] if s.pending_tasks else t for s, t in ((a, ta), (b, tb)))
    for k in spec:
        case.eq(getattr(ta, k), getattr(tb, k), f"default {k} given by a {lib} model", key="defaults")
    case.count("defaults_by_model")


def stored(case):
    """Tasks persisted under any shape come back."""
    from asyncz import shapes as S

    r = case.rng

    async def main(w):
        sim = w.sim
        R = S.ShapeRegistry
        tag = f"rvst{case.index}"
        base = r.choice([S.Shape, S.AnyShape, S.PydanticShape, S.DataclassShape, S.AttrsShape, S.MsgspecShape])
        # a custom shape knows TaskState by being handed the instance back
        own = type("Own", (base,), {} if r.random() < 0.4 else {"name": tag + r.choice(["", "other"])})
        reg = r.random() < 0.7
        if reg:
            R.register(tag, own)
        how = r.choice(["builtin", "class", "instance"] + ["name", "name"] * reg)
        pick = {"builtin": lambda: r.choice(["any", "msgspec", "attrs", "dataclass", "pydantic", S.AttrsShape, S.AnyShape(), None]), "class": lambda: own, "instance": lambda: own(), "name": lambda: tag}[how]
        first = pick()
        kind = r.choice(PERSISTENT)
        case.describe(base=base.__name__, cls_name=own.name, registered=reg, how=how, kind=kind, shape=str(first))
        try:
            def make(shape):
                kw = {} if shape is None else {"shape": shape}
                return w.scheduler(stores=w.stores({"default": kind}), **kw)

            def image(s):
                return sorted((t.id, t.name, str(t.trigger), t.trigger.__class__.__name__, repr(t.args), repr(t.kwargs), t.coalesce, t.max_instances, t.mistrigger_grace_time, str(t.next_run_time), t.fn_reference)
                              for t in s.get_tasks())

            s = make(first)
            await w.start(s, paused=True)
            n = r.randint(1, 4)
            want = []
            for i in range(n):
                t = s.add_task("rv.fns:work", r.choice(["interval", "cron"]), id=f"t{i}", args=[f"k{i}"], kwargs=r.choice([{}, {"z": [1, None]}]), mistrigger_grace_time=r.choice([None, 5]))
                want.append(t.id)
                case.count("stored")
            im = image(s)
            case.eq([x[0] for x in im], want, "tasks listed by the scheduler that stored them", how, key="stored")
            for i in range(n):
                case.check(s.get_task(f"t{i}") is not None, "a stored task is not found by the scheduler that stored it", f"t{i}", how, key="stored")
                case.count("restored_same")
            await w.stop(s)
            s = make(first)
            await w.start(s, paused=True)
            case.eq(image(s), im, "tasks of a new scheduler with the same shape", how, key="restored")
            case.count("restored_new", n)
            await w.stop(s)
            name = S.resolve_shape(first).name
            if name in R.available():
                s = make(r.choice([None, "any", "attrs"]))
                await w.start(s, paused=True)
                case.eq(image(s), im, "tasks of a new scheduler with another shape", how, name, key="restored")
                case.count("restored_default", n)
                # envelopes which do not fit
                st = s.stores["default"]
                task = s.get_task("t0")
                good = st.serialize_task_state(task)
                case.eq(str(st.deserialize_task_state(good).id), "t0", "the state in an envelope", key="envelope")
                for change, err in (({"shape": tag + "nobody"}, S.ShapeNotFoundError), ({"version": r.choice([0, 2, 99, None])}, S.ShapeMigrationError), ({"entity": r.choice(["task", "", None])}, S.ShapeMigrationError),
                                    ({"payload": r.choice([5, None, "zz", []])}, S.ShapeError)):
                    bad = dataclasses.replace(good, **change) if dataclasses.is_dataclass(good) else copy.copy(good)
                    if not dataclasses.is_dataclass(good):
                        for k, v in change.items():
                            object.__setattr__(bad, k, v)
                    try:
                        got = st.deserialize_task_state(bad)
                    except err:
                        case.count("envelopes_refused")
                    except BaseException as exc:
                        case.fail(f"a bad envelope is reported with another error: {type(exc).__name__}: {exc}"[:200], change, key="envelope_error")
                    else:
                        case.fail("a bad envelope yields a task state", change, got, key="envelope")
                for x in (5, None, {"id": "t0"}, b"zz"):
                    try:
                        got = st.deserialize_task_state(x)
                    except S.ShapeMigrationError:
                        case.count("envelopes_refused")
                    else:
                        case.fail("a record that is no envelope yields a task state", x, got, key="envelope")
                await w.stop(s)
            if reg and how == "name":
                # nobody knows the shape any more: no task may appear as something else
                R.unregister(tag)
                s = make(None)
                await w.start(s, paused=True)
                try:
                    got = s.get_tasks()
                except S.ShapeError:
                    got = []
                case.eq(got, [], "tasks restored under a shape nobody has registered", key="unregistered")
                case.count("unregistered_kept_out")
                await w.stop(s)
        finally:
            for x in R.available():
                if x.startswith(tag):
                    R.unregister(x)
        await asyncio.sleep(0)
        await sim.settle()

    run_world(case, main)


def run(ctx):
    ctx.cases("roundtrip", lambda case: roundtrip(Said(case)), quick=1100, thorough=25000)
    ctx.cases("refusal", lambda case: refusal(Said(case)), quick=500, thorough=12000)
    ctx.cases("registry", lambda case: registry(Said(case)), quick=500, thorough=12000)
    ctx.cases("race", lambda case: race(Said(case)), quick=160, thorough=3000)
    ctx.cases("config", lambda case: config(Said(case)), quick=400, thorough=6000)
    ctx.cases("stored", lambda case: stored(Said(case)), quick=400, thorough=6000)
