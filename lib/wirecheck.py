"""W01-W03, W05-W07: puts the analyses of wire.py and wireout.py together."""
import build, ir, wire, wireout
from result import Result, Violation

PARTS = {
 'W01': [('reader', lambda P: wire.reader(P, False)), ('escaping', wireout.escape)],
 'W02': [('reader', lambda P: wire.reader(P, False))],
 'W03': [('character reader', wireout.chars), ('reader', lambda P: wire.reader(P, False))],
 'W05': [('write loop', wireout.sink)],
 'W06': [('message writer', wireout.message), ('escaping', wireout.escape)],
 'W07': [('write loop', wireout.sink), ('message writer', wireout.message), ('reader', lambda P: wire.reader(P, True))],
}
RULE = {
 'W01': 'writer: every input byte is written exactly once, \\" \\\\ and newline behind an escape character; reader: every byte sent this way is appended exactly once to the buffer of its argument or property, which is handed over exactly once',
 'W02': 'a message is reported only when the line automaton of the protocol has accepted a prefix, a known name and an end in this call; what is handed over comes from that line only',
 'W03': 'the character reader returns the next unread byte as 0..255, reads only when none is left, and reports the end only after the system did; the reader takes no further byte after that',
 'W05': 'each write starts where the last one ended, stays inside the text, and is not repeated after an error; success means everything was written',
 'W06': 'prefix, name of the type, quoted escaped arguments in order, quoted key=value pairs, one newline',
 'W07': 'each byte read is logged once, each piece sent is logged once and only after it was sent, one flush ends a message, no callback without a logger',
}
def run(pid, tier):
    P = ir.Program(build.dump('core'))
    r = Result('Abstract interpretation of the message layer to a fixpoint against a model of the peer and the operating system. Rule: %s.' % RULE[pid])
    cov = {}
    for name, fn in PARTS[pid]:
        c, stats = fn(P)
        if c is None:
            r.inconclusive.append('%s: the functions it is written for do not exist: %s' % (name, ', '.join(stats)))
            continue
        for i in stats.get('incomplete', []): r.inconclusive.append('%s: %s' % (name, i))
        for prop, (y, n, u) in c.obligations.items():
            if prop == pid: r.obligations += y + n + u; r.discharged += y
        for k, v in c.viol.items():
            if v.kind == pid: r.violations.append(Violation(v.where, v.func, v.what, v.trace))
        for k, at in c.unproved.items():
            if len(k) == 3 and k[0] == pid: r.inconclusive.append('%s %s: %s' % (at, k[1], k[2]))
        cov[name.replace(' ', '_')] = {k: v for k, v in stats.items() if k != 'incomplete'}
    r.coverage = cov
    r.sample({'rule': RULE[pid], 'parts': [n for n, f in PARTS[pid]]})
    r.assumptions = ['string buffers and lists behave as containers (their memory safety is decided under M02, list and map behaviour under D01, D02)', 'the key test __is_valid_key and the name table __parse_message_type are decided under W04',
                     'a write that succeeds transfers at least one byte']
    return r
