"""Formatted output and input: at every call that takes a constant format, in every function the public interface
reaches, the arguments passed are those the format takes (M02; the error text of a handle, S07)."""
import re
import build, ir
from structure import graph, public, reach, path, name, callee, calls
from result import Result

OUT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, '__printf_chk': 1, '__fprintf_chk': 2, '__sprintf_chk': 3, '__snprintf_chk': 4, 'syslog': 1}
IN = {'scanf': 0, 'sscanf': 1, 'fscanf': 1, '__isoc99_sscanf': 1, '__isoc99_scanf': 0, '__isoc99_fscanf': 1, '__isoc23_sscanf': 1, '__isoc23_scanf': 0, '__isoc23_fscanf': 1}
VOUT = ('vsnprintf', 'vsprintf', 'vfprintf', 'vprintf', 'vdprintf', '__vsnprintf_chk', '__vsprintf_chk', '__vfprintf_chk', 'vasprintf')
SPEC = re.compile(rb'%([-+ #0\']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|L|q|j|z|t)?([a-zA-Z%])')
SCAN = re.compile(rb'%(\*)?\d*(?:hh|h|ll|l|L|j|z|t)?(?:([a-zA-Z%])|(\[\^?\]?[^\]]*\]))')

def takes_out(fm):
    """kinds of arguments, or None when the format is not understood"""
    r = []; i = 0
    while i < len(fm):
        if fm[i:i + 1] != b'%': i += 1; continue
        m = SPEC.match(fm, i)
        if not m: return None
        i = m.end()
        c = m.group(5).decode()
        if c == '%': continue
        if m.group(2) == b'*': r.append(('int', '*'))
        if m.group(3) == b'*': r.append(('int', '*'))
        if c in 'diouxXcC': r.append(('int', '%' + c))
        elif c in 'aAeEfFgG': r.append(('float', '%' + c))
        elif c in 'spSn': r.append(('ptr', '%' + c))
        else: return None
    return r
def takes_in(fm):
    r = []; i = 0
    while i < len(fm):
        if fm[i:i + 1] != b'%': i += 1; continue
        m = SCAN.match(fm, i)
        if not m: return None
        i = m.end()
        if m.group(2) == b'%' or m.group(1): continue
        r.append(('ptr', (b'%' + (m.group(2) or m.group(3))).decode()))
    return r
def constants(P, f, v, seen=()):
    """the constant texts a value can be, None when others are possible"""
    if not v: return None
    if v[0] == 'g': 
        t = P.string(v[1])
        return None if t is None else [t]
    if v[0] != '%' or v[1] in seen: return [] if v[0] == '%' else None
    for B in f.blocks:
        for I in B:
            if I.id != v[1]: continue
            src = [x for x, p in I.o] if I.op == 'phi' else I.o[1:] if I.op == 'select' else None
            if src is None: return None
            r = []
            for x in src:
                t = constants(P, f, x, seen + (v[1],))
                if t is None: return None
                r += t
            return r
    return None
def kind(t):
    return 'ptr' if t == 'ptr' else 'float' if t in ('double', 'float', 'x86_fp80', 'fp128') else 'int' if re.match(r'i\d+$', t or '') else None
WORD = {'int': 'a whole number', 'float': 'a floating-point number', 'ptr': 'a pointer'}

def run(pid, tier):
    r = Result('Every call with a constant format reachable from the public interface: the kinds of the arguments (from their IR types) against those the conversions take.')
    n = 0
    for grp in ('core', 'cxx'):
        P = ir.Program(build.dump(grp))
        g = graph(P); seen = reach(g, public(P))
        # functions of the library that format their variable arguments
        own = {}
        for nm, f in P.funcs.items():
            if not f.decl and f.vararg and any(callee(I) in VOUT for I in calls(f)): own[nm] = f.nargs - 1
        for nm in sorted(seen):
            f = P.funcs[nm]
            if f.decl: continue
            for I in calls(f):
                c = callee(I)
                k = OUT.get(c, own.get(c)); inp = False
                if k is None: k = IN.get(c); inp = True
                if k is None: continue
                if pid == 'S07' and P.funcs[c].src != 'set_error': continue
                v = I.o[k] if len(I.o) > k else None
                n += 1
                s = P.funcs[c].src if c in P.funcs else c
                fms = constants(P, f, v)
                if not fms: r.inconclusive.append('%s %s: the format of %s is not a constant' % (f.where(I), f.src, s)); continue
                for fm in fms:
                    want = takes_in(fm) if inp else takes_out(fm)
                    if want is None: r.inconclusive.append('%s %s: conversion in %r' % (f.where(I), f.src, fm)); continue
                    have = [kind(t) for t in I.d.get('at', [])[k + 1:]]
                    via = ['format %r' % fm.decode('latin1'), 'reached by ' + ' > '.join(name(P, x) for x in path(seen, nm))]
                    if len(have) < len(want):
                        r.ob(False, f.where(I), f.src, 'the format of %s takes %d arguments but only %d are passed' % (s, len(want), len(have)), via); continue
                    bad = [(i, w, h) for i, (w, h) in enumerate(zip(want, have)) if h is not None and w[0] != h]
                    r.ob(not bad, f.where(I), f.src, '; '.join('%s of %s takes %s but %s is passed' % (w[1], s, WORD[w[0]], WORD[h]) for i, w, h in bad) or 'format of %s' % s, via)
    r.coverage = {'formatted_calls': n}
    r.assumptions = ['formats that are not string constants are not checked']
    return r
