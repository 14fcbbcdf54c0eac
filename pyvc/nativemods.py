"""Models of third-party libraries and of file access that are written natively."""
import os, sys, importlib.util
from .values import *
from .engine import PyRaise, Undecided
from .env import Stub

_RM = {}


def real_refs(src):
    """The bibliography as the repository's own Reference_Manager reads it (that reading is P24's subject)."""
    if src not in _RM:
        spec = importlib.util.spec_from_file_location('_pyvc_reference', os.path.join(src, 'reference.py'))
        m = importlib.util.module_from_spec(spec)
        old, out = os.getcwd(), {}
        try:
            spec.loader.exec_module(m)
            path = os.path.join(os.path.dirname(os.path.dirname(src)), 'src', 'references.bib')
            for cand in (path, os.path.join(os.path.dirname(src), 'references.bib')):
                if os.path.exists(cand):
                    rm = m.Reference_Manager(cand)
                    rm.load()
                    out = {k: (r.label, r.reftype, dict(r.entries)) for k, r in rm.refs.items()}
                    break
        except Exception:
            out = {}
        _RM[src] = out
    return _RM[src]


def install(it, opt):
    from .run import SRC
    cache = {}
    def get(i, a, kw):
        label = a[1]
        refs = real_refs(SRC)
        if not isinstance(label, str): raise Undecided("symbolic reference label")
        if label not in refs: raise PyRaise(ValueError(f"Cannot find {label}"))
        if label not in cache:
            cls = it.load('reference').ns['Reference']
            l, t, e = refs[label]
            cache[label] = it.call(cls, [l, t, VDict(it.eng, list(e.items()))], {})
        return cache[label]
    it.stubs['reference.Reference_Manager.get'] = Stub(Native('rm.get', get), False)
    it.stubs['reference.Reference_Manager.load'] = Stub(Native('rm.load', lambda i, a, kw: None), False)
