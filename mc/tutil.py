"""Driving Cheetah from the checks: compile + render one template in isolation."""
import sys


def T():
    from Cheetah.Template import Template
    return Template


def _cleanup(klass):
    m = sys.modules.get(klass.__module__)
    if m is not None and hasattr(m, '__CHEETAH_version__'):
        sys.modules.pop(klass.__module__, None)


def compile_(src, **kw):
    kw.setdefault('cacheCompilationResults', False)
    klass = T().compile(source=src, **kw)
    return klass


def render(src, searchList=None, compile_kw=None, **kw):
    """Output of a freshly compiled template (exceptions propagate)."""
    klass = compile_(src, **(compile_kw or {}))
    try:
        return str(klass(searchList=searchList or [], **kw))
    finally:
        _cleanup(klass)


def outcome(fn, *a, **k):
    """('ok', value) or ('exc', type name) -- never raises Exception."""
    try:
        return ('ok', fn(*a, **k))
    except Exception as e:
        return ('exc', exc_name(e))


def exc_name(e):
    from Cheetah.Parser import ParseError
    from Cheetah.NameMapper import NotFound
    if isinstance(e, ParseError):
        return 'ParseError'
    if isinstance(e, NotFound):
        return 'NotFound'
    return type(e).__name__


def norm(o):
    """JSON-normal form, so that a replayed case equals the enumerated one."""
    if isinstance(o, tuple):
        return [norm(x) for x in o]
    if isinstance(o, list):
        return [norm(x) for x in o]
    if isinstance(o, dict):
        return {k: norm(v) for k, v in o.items()}
    return o
