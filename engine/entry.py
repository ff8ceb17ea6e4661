"""Run an entry point and extract its effect summary."""
from terms import *
from interp import *
import lib

class Effect:
    __slots__ = ('kind', 'ns', 'key', 'val', 'guard', 'quants', 'loc', 'aux')
    def __repr__(s): return '%s %s%s%s := %s\n        IF %s' % (s.kind, s.ns, '' if s.key is None else '[%s]' % pp(s.key), ' ∀' + ','.join(map(pp, s.quants)) if s.quants else '', pp(s.val) if s.val is not None else '', gp(s.guard))

class Summary:
    def __init__(s): s.writes = []; s.msgs = []; s.ok = FALSE; s.val = None

P = lambda n: mk('p', n)

def fresh_state():
    s = State(); s.pc = TRUE; s.frames = {}; s.owned = set(); s.log = (); s.quants = ()
    return s

def run(I_, body_id, args, pc=TRUE, pre=()):
    st = fresh_state(); st.pc = pc
    st.log = tuple(pre)
    b = I_.prog.fn[body_id]
    st, v = I_.call_body(st, b, args)
    return st, v

def summarize(I_, st, v, result=True):
    """effects of a call that returned v (Result<Response>) in state st"""
    S_ = Summary()
    S_.val = v
    ok = AND(st.pc, is_variant(v, RESULT, 'Ok')) if result else st.pc
    S_.ok = ok
    S_.st = st
    payload = getvf(v, 'Ok', '0') if result else v
    S_.payload = payload
    # storage: last write wins
    log = list(st.log)
    for i, e in enumerate(log):
        if e.kind == 'epoch' or e.syn: continue
        g = AND(e.guard, ok) if not e.quants else AND(e.guard, ok)
        if g == 0: continue
        for l in log[i + 1:]:
            if l.ns == e.ns and l.kind in ('save', 'remove') and l.key is e.key and l.quants == e.quants:
                g = AND(g, NOT(l.guard))
        if g == 0: continue
        f = Effect(); f.kind = e.kind; f.ns = e.ns; f.key = e.key; f.val = e.val; f.guard = g; f.quants = e.quants; f.loc = e.loc; f.aux = e.aux
        S_.writes.append(f)
    for g0, r in alts(payload):
        if r.op == 'adt' and r.a[0] == lib.RESP:
            for q, g, m in parts_of(r.a[3][0]):
                for g2, sm in alts(m):
                    gg = AND(AND(ok, g0), AND(g, g2))
                    if gg == 0: continue
                    cm = getf(sm, 'msg')
                    for g3, c in alts(cm):
                        g4 = AND(gg, g3)
                        if g4 == 0: continue
                        f = Effect(); f.kind = 'msg'; f.ns = None; f.key = None; f.val = sm if sm.op != 'adt' else mk('adt', sm.a[0], sm.a[1], sm.a[2], (c,) + sm.a[3][1:]); f.guard = g4; f.quants = q; f.loc = None; f.aux = None
                        S_.msgs.append(f)
    return S_

def show(S_, f=None):
    print('OK IF', gp(S_.ok), file=f)
    for w in S_.writes: print('  W', w, file=f)
    for w in S_.msgs: print('  M', w, file=f)
