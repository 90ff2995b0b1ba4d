"""What an analysis hands to check.py."""
import re
class Violation(object):
    def __init__(s, where, func, what, detail=(), key=None):
        s.where = where; s.func = func; s.what = what; s.detail = list(detail)
        s.key = key or '%s: %s' % (func, re.sub(r'#\d+', '#', what))
    def text(s):
        return '%s: in %s: %s\n  key: %s%s' % (s.where, s.func, s.what, s.key, ''.join('\n    ' + str(d) for d in s.detail))

class Result(object):
    def __init__(s, explanation):
        s.explanation = explanation; s.violations = []; s.obligations = 0; s.discharged = 0
        s.coverage = {}; s.assumptions = []; s.inconclusive = []; s.samples = []
    def ob(s, ok, where, func, what, detail=(), key=None):
        """one obligation: True discharged, False violated, None undecided"""
        s.obligations += 1
        if ok is True: s.discharged += 1
        elif ok is False: s.violations.append(Violation(where, func, what, detail, key))
        else: s.inconclusive.append('%s %s: %s' % (where, func, what))
        return ok
    def sample(s, x):
        if len(s.samples) < 8: s.samples.append(x)
