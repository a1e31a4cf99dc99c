"""Genuine defects that are recorded, not repaired (KNOWN_FINDINGS.txt):
'finding: property=<id> class=<history class> | <what fails>'. A class names one specific kind of history."""
import os

FINDINGS = {}
_p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'KNOWN_FINDINGS.txt')
with open(_p, encoding='utf-8') as _f:
    for _l in _f:
        if _l.startswith('finding:'):
            _h, _, _t = _l[8:].partition(' | ')
            _d = dict(x.split('=', 1) for x in _h.split())
            FINDINGS[_d['property'], _d['class']] = _t.strip()
