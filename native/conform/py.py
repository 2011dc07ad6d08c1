"""Generated Python under CPython, with a stand-in for pydantic that reads annotations as they are.

py.py < cases > verdicts
"""
import json, sys, types, typing


class FieldInfo:
    def __init__(self, alias=None, default=None):
        self.alias = alias


def Field(*args, alias=None, default=None, **kw):
    if kw or args not in ((), (...,)):
        raise TypeError("unexpected arguments of Field")
    return FieldInfo(alias, default)


class BaseModel:
    def __init_subclass__(cls):
        cls.fields_ = []
        ann = cls.__dict__.get("__annotations__", {})
        for name, tp in ann.items():
            if name.startswith("_"):
                raise NameError("Fields must not use names with leading underscores: %r" % name)
            if hasattr(BaseModel, name):
                raise NameError("Field name %r shadows an attribute in parent" % name)
            d = cls.__dict__.get(name)
            if d is not None and not isinstance(d, FieldInfo):
                raise TypeError("member %r has the value %r" % (name, d))
            cls.fields_.append((d.alias if d is not None and d.alias is not None else name, tp))
        for k, v in cls.__dict__.items():
            if isinstance(v, FieldInfo) and k not in ann:
                raise TypeError("%r has no annotation" % k)


for _n in ("construct copy dict fields_set from_orm json parse_file parse_obj parse_raw schema schema_json update_forward_refs validate "
           "model_computed_fields model_config model_construct model_copy model_dump model_dump_json model_extra model_fields model_fields_set "
           "model_json_schema model_parametrized_name model_post_init model_rebuild model_validate model_validate_json model_validate_strings").split():
    setattr(BaseModel, _n, None)


def optional(tp):
    return typing.get_origin(tp) is typing.Union and type(None) in typing.get_args(tp)


def accepts(tp, v):
    if isinstance(tp, typing.ForwardRef):
        tp = tp.__forward_arg__
    if isinstance(tp, str):
        tp = eval(tp, ENV)
    if tp is typing.Any:
        return True
    if tp is None or tp is type(None):
        return v is None
    if tp is bool:
        return isinstance(v, bool)
    if tp is int:
        return isinstance(v, int) and not isinstance(v, bool)
    if tp is float:
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if tp is str:
        return isinstance(v, str)
    o, a = typing.get_origin(tp), typing.get_args(tp)
    if o is typing.Union:
        return any(accepts(x, v) for x in a)
    if o is list:
        return isinstance(v, list) and all(accepts(a[0], x) for x in v)
    if o is tuple:
        return isinstance(v, list) and len(v) == len(a) and all(accepts(t, x) for t, x in zip(a, v))
    if o is dict:
        return isinstance(v, dict) and a[0] is str and all(accepts(a[1], x) for x in v.values())
    if isinstance(tp, type) and issubclass(tp, BaseModel) and tp is not BaseModel:
        if not isinstance(v, dict):
            return False
        for wire, t in tp.fields_:
            if wire in v:
                if not accepts(t, v[wire]):
                    return False
            elif not optional(t):
                return False
        return True
    raise TypeError("no type: %r" % (tp,))


mod = types.ModuleType("pydantic")
mod.BaseModel, mod.Field = BaseModel, Field
sys.modules["pydantic"] = mod
sys.setrecursionlimit(10000)


def judge(c):
    global ENV
    ENV = env = {"__name__": "case"}
    if c["assume"]:
        env.update(Any=typing.Any, Optional=typing.Optional, BaseModel=BaseModel, Field=Field, typing=typing, pydantic=mod)
    try:
        exec(compile(c["code"], "case", "exec"), env)
        root = env[c["case"]["name"]]
        if not accepts(root, json.loads(c["case"]["input"])):
            return "the sample is not of the type", None
        for t, want in c["probes"]:
            if accepts(root, json.loads(t)) != want:
                return "a value of the type is rejected" if want else "a value that is not of the type is accepted", t
    except Exception as e:
        return "the code does not run: %s: %s" % (type(e).__name__, e), None
    return None


for line in sys.stdin:
    c = json.loads(line)
    r = judge(c)
    if r:
        print(json.dumps({"case": c["case"], "msg": r[0], "value": r[1], "code": c["code"]}))
    else:
        print(json.dumps({"n": len(c["probes"])}))
