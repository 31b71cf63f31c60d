"""C15: search spaces described in YAML or with ConfigSpace are the spaces that were described."""
from symx.runner import H
from symx import core

YM = ["neps.search_spaces.search_space.pipeline_space_from_yaml", "neps.search_spaces.yaml_search_space_utils.*", "neps.search_spaces.hyperparameters.*"]
CSF = ["neps.search_spaces.search_space.pipeline_space_from_configspace", "neps.search_spaces.hyperparameters.*"]
B = 1000


def number(ctx, name, forms):
    """(what is written, its value, kind) of a number"""
    f = ctx.choice(name + "-form", forms)
    if f == "int":
        v = ctx.int(name, -9, 30)
        return v, v, "int"
    if f == "float":
        v = ctx.real(name, -B, B)
        return v, v, "float"
    s = ctx.choice(name + "-text", {"low": ["1e-2", "2.5E-1", "1e0", "-3e0"], "high": ["1e1", "3.5E1", "1e2"], "mid": ["1e0", "5E-1", "1.5e0"]}[name])
    return s, float(s.replace(" ", "")), "sci"


def parse(d):
    from neps.search_spaces.search_space import pipeline_space_from_yaml
    return pipeline_space_from_yaml(d)


def refused():
    from neps.search_spaces.yaml_search_space_utils import SearchSpaceFromYamlFileError
    return SearchSpaceFromYamlFileError


def whole(v):
    return v == int(v) if not core.is_sym(v) else True


def compare(ctx, p, cls, lo, hi, default, kw):
    from neps.search_spaces import FloatParameter
    ctx.check(type(p) is cls, "kind", type(p).__name__)
    t = float if cls is FloatParameter else int
    ctx.check(isinstance(p.lower, t) and isinstance(p.upper, t), "types", (p.lower, p.upper))
    ctx.check(core.sym_and(ctx.eq(p.lower, lo), ctx.eq(p.upper, hi)), "bounds", (p.lower, p.upper))
    ctx.check((p.default is None) == (default is None), "default-set", p.default)
    if default is not None:
        ctx.check(isinstance(p.default, t) and ctx.eq(p.default, default), "default", p.default)
    ctx.check(p.log is kw.get("log", False) and p.is_fidelity is kw.get("is_fidelity", False), "flags", kw)
    ctx.check(p.default_confidence_choice == kw.get("default_confidence", "low"), "confidence", kw)
    ctx.check(p.has_prior == (default is not None) and p.value is None, "prior")


def numeric(ctx):
    from neps.search_spaces import FloatParameter, IntegerParameter
    ctx.messages_as_tokens()
    ty = ctx.choice("type", [None, "int", "float", "Integer", "FLOAT"])
    lo_s, lo, kl = number(ctx, "low", ["int", "float", "sci"])
    hi_s, hi, kh = number(ctx, "high", ["int", "float", "sci"])
    kw = ctx.choice("options", [{}, {"log": True}, {"is_fidelity": True}] if ctx.tier != "quick" or ty is None else [{}, {"log": True}])
    d_s, d, kd = number(ctx, "mid", ["int", "float", "sci"]) if ctx.choice("has-default", [False, True]) else (None, None, None)
    det = {"lower": lo_s, "upper": hi_s, **kw}
    if ty:
        det["type"] = ty
    if d_s is not None:
        det["default"] = d_s
        det["default_confidence"] = "high"
        kw = {**kw, "default_confidence": "high"}
    if ctx.choice("order", [False, True]):
        det = dict(reversed(list(det.items())))
    # what it describes
    kinds = {kl, kh}
    t = {"int": "int", "integer": "int", "float": "float"}[ty.lower()] if ty else \
        "int" if kinds == {"int"} else "float" if kinds == {"float"} or "sci" in kinds else "mixed"
    legal = core.sym_and(lo < hi, lo > 0 if kw.get("log") else True)
    if t == "int":
        ok = kinds == {"int"} or "sci" in kinds
        for v, k in ((lo, kl), (hi, kh)):
            ok = core.sym_and(ok, k == "int" or (v == int(v) if k == "sci" else core.sym_or(*[v == q for q in range(-30, 31)]) if k == "float" else True))
        if kd is not None:
            ok = core.sym_and(ok, kd == "int" or (d == int(d) if kd == "sci" else core.sym_or(*[d == q for q in range(-30, 31)])))
        if "float" in kinds or kd == "float":
            for v, k in ((lo, kl), (hi, kh), (d, kd)):
                if k == "float":
                    ctx.assume(core.sym_and(v > -30, v < 30))
        legal = core.sym_and(legal, ok)
    if d is not None:
        legal = core.sym_and(legal, lo <= d, d <= hi)
    cls = {"int": IntegerParameter, "float": FloatParameter, "mixed": FloatParameter}[t]
    try:
        p = parse({"a": det})["a"]
    except refused():
        ctx.check(core.sym_not(legal) if t != "mixed" else True, "legal-description-refused", (lo_s, hi_s, d_s))
        ctx.cover("refused")
        return
    ctx.check(legal, "illegal-description-accepted", (lo_s, hi_s, d_s))
    compare(ctx, p, cls, lo, hi, d, kw)
    compare(ctx, parse({"a": det})["a"], cls, lo, hi, d, kw)     # the description can be used again
    ctx.cover(t)


ELEMENTS = ["adam", "1e-3", "2E2", 5, 0.25, True, "1e", "-1.5e1"]
MEAN = {"1e-3": 0.001, "2E2": 200.0, "-1.5e1": -15.0}


def sci(v):
    return MEAN.get(v, v) if isinstance(v, str) else v


def choices_and_constants(ctx):
    from neps.search_spaces import CategoricalParameter, ConstantParameter
    ctx.messages_as_tokens()
    r = ctx.real("number", -B, B)
    els = [*ELEMENTS, r]
    what = ctx.choice("what", ["cat", "const", "bad"])
    if what == "const":
        e = ctx.choice("value", els)
        ps = parse({"b": e, "a": "text"} if ctx.choice("two", [True, False]) else {"b": e})
        p = ps["b"]
        w = sci(e)
        ctx.check(type(p) is ConstantParameter and (ctx.eq(p.value, w) if isinstance(w, (int, float)) else p.value == w) and type(p.value) is type(w), "constant", p.value)
        ctx.check(set(ps) in ({"a", "b"}, {"b"}), "names")
    elif what == "cat":
        first = ctx.choice("first", els)
        second = ctx.choice("second", ["sgd", "7e1", 9])
        ty = ctx.choice("type", [None, "cat", "categorical", "Cat"])
        det = {"choices": [first, second], **({"type": ty} if ty else {})}
        if ctx.choice("has-default", [False, True]):
            det["default"] = first
            det["default_confidence"] = "medium"
        w = [sci(first), {"7e1": 70.0}.get(second, second)]
        ctx.assume(core.sym_not(w[0] == w[1]) if core.is_sym(w[0]) else w[0] != w[1])
        has = "default" in det
        for _ in range(2):
            p = parse({"pipeline_space": {"c": det}} if ctx.choice("wrapped", [False, True]) else {"c": det})["c"]
            ctx.check(type(p) is CategoricalParameter and len(p.choices) == 2, "choices", p.choices)
            for g, x in zip(p.choices, w):
                ctx.check(type(g) is type(x) and (ctx.eq(g, x) if isinstance(x, (int, float)) else g == x), "choice", g)
            ctx.check((p.default is not None) == has and p.has_prior == has and p.default_confidence_choice == ("medium" if has else "low"), "prior", p.default)
            if has:
                ctx.check(type(p.default) is type(w[0]) and (ctx.eq(p.default, w[0]) if isinstance(w[0], (int, float)) else p.default == w[0]), "default", p.default)
    else:
        det = ctx.choice("description", [{"lower": 1}, {"upper": 2.0}, {}, None, [1, 2], {"type": "int"}, {"type": "float", "lower": 1.0}, {"type": "cat", "choices": "abc"},
                                         {"type": "bool", "choices": [1, 2]}, {"choices": ["a", "b"], "default": "z"}, {"lower": 1, "upper": 3, "stepsize": 1},
                                         {"lower": "one", "upper": "two"}, {"lower": 1, "upper": 9, "default": "x"}, {"lower": 1, "upper": 9, "default": 3, "default_confidence": "huge"}])
        import copy
        try:
            parse({"ok": 1, "a": copy.deepcopy(det)})
            ctx.fail("nonsense-accepted", det)
        except refused():
            pass
    ctx.cover(what)


def configspace(ctx):
    """every ConfigSpace hyperparameter becomes the same parameter"""
    import ConfigSpace as CS
    from neps.search_spaces import FloatParameter, IntegerParameter, CategoricalParameter, ConstantParameter
    from neps.search_spaces.search_space import pipeline_space_from_configspace
    ctx.messages_as_tokens()

    def over(cls, **kw):
        return type(cls.__name__, (cls,), {k: property(lambda s, v=v: v) for k, v in kw.items()})
    kind = ctx.choice("kind", ["float", "int", "cat", "ordinal", "const", "condition", "unsupported"])
    log = ctx.choice("log", [False, True]) if kind in ("float", "int") else False
    if kind == "float":
        lo, hi, d = ctx.real("lower", 0, B, lo_open=True) if log else ctx.real("lower", -B, B), ctx.real("upper", -B, B), ctx.real("default", -B, B)
        ctx.assume(core.sym_and(lo < hi, lo <= d, d <= hi))
        hp = over(CS.UniformFloatHyperparameter, lower=lo, upper=hi, default_value=d)("h", 1.0, 2.0, log=log)
    elif kind == "int":
        lo, hi, d = ctx.int("lower", 1 if log else -9, 9), ctx.int("upper", -9, 20), ctx.int("default", -9, 20)
        ctx.assume(core.sym_and(lo < hi, lo <= d, d <= hi))
        hp = over(CS.UniformIntegerHyperparameter, lower=lo, upper=hi, default_value=d)("h", 1, 2, log=log)
    elif kind in ("cat", "condition"):
        cs = ctx.choice("choices", [["b", "a"], ["x", "y", "z"], [3, 1, 2]])
        d = ctx.choice("default", cs)
        hp = CS.CategoricalHyperparameter("h", cs, default_value=d)
    elif kind == "ordinal":
        cs = ctx.choice("choices", [["low", "high"], [10, 2, 30]])
        d = ctx.choice("default", cs)
        hp = CS.OrdinalHyperparameter("h", cs, default_value=d)
    elif kind == "const":
        d = ctx.choice("value", ["v", 3, 0.5])
        hp = CS.Constant("h", d)
    else:
        hp = CS.NormalFloatHyperparameter("h", mu=0, sigma=1)
    other = CS.Constant("g", "w")

    class Space:
        def __init__(self, hps, conds):
            self.hps, self.conds = hps, conds

        def get_hyperparameters(self):
            return self.hps

        def values(self):
            return self.hps

        def get_conditions(self):
            return self.conds

        def get_forbiddens(self):
            return []
    cond = []
    if kind == "condition":
        child = CS.UniformFloatHyperparameter("child", 0.0, 1.0)
        cond = [CS.EqualsCondition(child, hp, cs[0])]
    try:
        ps = pipeline_space_from_configspace(Space([hp, other], cond))
    except NotImplementedError:
        ctx.check(kind == "condition", "refused")
        ctx.cover(kind)
        return
    except ValueError:
        ctx.check(kind == "unsupported", "refused")
        ctx.cover(kind)
        return
    ctx.check(kind not in ("condition", "unsupported"), "accepted")
    ctx.check(set(ps) == {"h", "g"} and type(ps["g"]) is ConstantParameter and ps["g"].value == "w", "names")
    p = ps["h"]
    if kind in ("float", "int"):
        compare(ctx, p, FloatParameter if kind == "float" else IntegerParameter, lo, hi, d, {"log": log})
    elif kind == "const":
        ctx.check(type(p) is ConstantParameter and p.value == d, "constant")
    else:
        ctx.check(type(p) is CategoricalParameter and list(p.choices) == list(cs) and p.default == d, "choices", p.choices)
    ctx.cover(kind)


def files(ctx):
    """a YAML file means what the same content means as a dictionary"""
    import tempfile
    import shutil
    import os
    from neps.search_spaces.search_space import pipeline_space_from_yaml
    lines = {"x: {lower: 1e-3, upper: 0.1, log: true}": ("float", 0.001, 0.1, True), "x: {lower: 1, upper: 30, is_fidelity: true}": ("int", 1, 30, False),
             "x: {type: int, lower: 1e0, upper: 1e2}": ("int", 1, 100, False), "x: {type: float, lower: 0, upper: 5}": ("float", 0.0, 5.0, False),
             "x: {lower: 1.0e-4, upper: 1.0e-1}": ("float", 1e-4, 1e-1, False), "x: [1, 2": None, "- 1\n- 2": None, "just text": None}
    t = ctx.choice("text", list(lines))
    wrap = ctx.choice("wrapped", [False, True]) and t.startswith("x: {")
    d = tempfile.mkdtemp(prefix="symx-c15-")
    ctx.on_exit(lambda: shutil.rmtree(d, ignore_errors=True))
    f = os.path.join(d, "space.yaml")
    with open(f, "w") as fh:
        fh.write(("pipeline_space:\n  " if wrap else "") + t + "\n")
    w = lines[t]
    from pathlib import Path
    path = ctx.choice("path", [str, Path])(f)
    try:
        ps = pipeline_space_from_yaml(path)
    except refused():
        ctx.check(w is None, "file-refused", t)
        ctx.cover("refused")
        try:
            pipeline_space_from_yaml(f + ".missing")
            ctx.fail("missing-file-accepted")
        except refused():
            pass
        return
    ctx.check(w is not None, "file-accepted", t)
    p = ps["x"]
    ctx.check((type(p).__name__ == "FloatParameter") == (w[0] == "float") and p.lower == w[1] and p.upper == w[2] and p.log is w[3], "file", t)
    ctx.cover("read")


A = ["floats are exact reals", "the texts of numbers in e notation are a fixed selection"]
HARNESSES = [
    H(numeric, "any bounds and default as integers, floats or one of ten e-notation texts; every type, option and order of keys", YM, assumptions=A, covers=["refused", "int", "float"]),
    H(choices_and_constants, "choices, constants and defaults of every type, any number; fourteen kinds of nonsense", YM, assumptions=A, covers=["cat", "const", "bad"]),
    H(configspace, "any bounds and defaults of every kind of hyperparameter", CSF, assumptions=[*A, "the configuration space object only hands out its hyperparameters"],
      covers=["float", "int", "cat", "ordinal", "const", "condition", "unsupported"]),
    H(files, "eight file contents", YM, assumptions=A, covers=["refused", "read"]),
]
