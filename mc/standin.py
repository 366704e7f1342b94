"""Stand-ins for functions of the code under test that work however the code refers to them.

replaced(f, fake) makes every call of the function object f - through any alias, in any module - end
in fake, with the arguments given by name.  The body of f is exchanged, so it does not matter how the
calling module imported it.  A function that is a closure or not a plain function is exchanged in every
loaded module that has it as an attribute instead.
"""
import contextlib
import inspect
import sys
import types

_target = {}


def _trampoline(key):
    src = f"def body(*args, **kwargs):\n    from mc.standin import _target\n    return _target[{key}](args, kwargs)\n"
    ns = {}
    exec(compile(src, "<stand-in>", "exec"), ns)
    return ns["body"]


@contextlib.contextmanager
def replaced(f, fake):
    sig = inspect.signature(f)

    def run(args, kwargs):
        b = sig.bind(*args, **kwargs)
        named = {}
        for k, v in b.arguments.items():
            if sig.parameters[k].kind is inspect.Parameter.VAR_KEYWORD:
                named.update(v)
            else:
                named[k] = v
        return fake(**named)
    key = id(f)
    _target[key] = run
    body = _trampoline(key)
    if isinstance(f, types.FunctionType) and not f.__code__.co_freevars and not hasattr(f, "__wrapped__"):
        saved = f.__code__, f.__defaults__, f.__kwdefaults__
        f.__code__, f.__defaults__, f.__kwdefaults__ = body.__code__, None, None
        try:
            yield
        finally:
            f.__code__, f.__defaults__, f.__kwdefaults__ = saved
            _target.pop(key, None)
        return
    spots = [(m, n) for m in list(sys.modules.values()) if isinstance(m, types.ModuleType)
             for n, v in list(vars(m).items()) if v is f]
    for m, n in spots:
        setattr(m, n, body)
    try:
        yield
    finally:
        for m, n in spots:
            setattr(m, n, f)
        _target.pop(key, None)
