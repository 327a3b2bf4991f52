"""Registry: property -> (obligation generator, level, explanation)."""
from . import rules_schema as rs
from . import rules_data as rd
from . import rules_store as rt
from . import rules_file as rf
from . import rules_node as rn
from . import rules_err as re_
from . import rules_more as rm
from .rules_wide import WIDE
from .tech import TECH

LEVEL = 'other'
BASE = ('Abstract interpretation of the syntax trees of /repo/dsch (no '
        'execution, no solver): every obligation applies the public API to '
        'abstract values and checks the stated relation on all branches '
        'left open. ')


def _with_wide(base, more):
    def gen(add, thorough, src):
        out = base(add, thorough, src)
        more(add, thorough, src)
        return out
    return gen


RULES = {}
for _m in (rs, rd, rt, rf, rn, re_, rm):
    for _n in dir(_m):
        if _n[0] == 'c' and _n[1:].isdigit():
            _f = getattr(_m, _n)
            if _n.upper() in WIDE:
                _f = _with_wide(_f, WIDE[_n.upper()])
            RULES[_n.upper()] = (_f, LEVEL, BASE +
                                 'Method: ' + TECH.get(_n.upper(), '') + '.')
