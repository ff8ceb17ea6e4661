"""Vocabulary the property rules are written in: entry-point summaries, guard entailment, effect matching, obligations."""
import sys, time, re, json, itertools
from terms import *
import terms as TM
from bdd import Budget
from interp import Program, Interp, Unsupported, short, Entry
import lib
from lib import RESP, SUB, COSMOS, WASM, BANK, COIN, ASSET, ASSETINFO, CW20EXEC
from entry import run, summarize, P, Effect, Summary

CW721EXEC = 'cw721::msg::Cw721ExecuteMsg'
REPLY = 'cosmwasm_std::results::submessages::Reply'

# ------------------------------------------------------------------ shorthands
def F(t, *names):
    for n in names: t = getf(t, n)
    return t
def VF(t, v, n='0'): return getvf(t, v, n)
def L(ns, key=None): return dist('load', ns, key)
def has(ns, key=None): return dista('has', ns, key)
SENDER = F(P('info'), 'sender')
SELF = F(P('env'), 'contract', 'address')
NOW = F(P('env'), 'block', 'time')
HEIGHT = F(P('env'), 'block', 'height')
FUNDS = F(P('info'), 'funds')
def Q(addr, msg): return dist('query', addr, lib.canon(msg))
def q_ok(addr, msg): return dista('qok', addr, lib.canon(msg))
def A(*xs): return B.all(xs)
def O(*xs): return B.any(xs)
def IMP(a, b): return OR(NOT(a), b)
def IFF(a, b): return B.ite(a, b, NOT(b))

def fq(suffix):
    """unique ADT id by suffix"""
    c = [k for k in ADTS if k == suffix or k.endswith('::' + suffix)]
    if len(c) == 1: return c[0]
    if not c: raise Missing('type ' + suffix)
    raise Missing('ambiguous type %s: %s' % (suffix, c))

def V(adtid, variant, **fields):
    """value of an enum variant / struct with the given fields (declaration order)"""
    if adtid not in ADTS: adtid = fq(adtid)
    for n, d, fs in ADTS[adtid]['v']:
        if n == variant:
            names = tuple(f[0] for f in fs)
            f2 = {('0' if k == '_' else k): v for k, v in fields.items()}
            if set(f2) != set(names): raise Missing('%s::%s has fields %s, rule expects %s' % (adtid, variant, sorted(names), sorted(f2)))
            return adt(adtid, variant, names, tuple(f2[k] for k in names))
    raise Missing('%s::%s' % (adtid, variant))
def St(adtid, **fields):
    if adtid not in ADTS: adtid = fq(adtid)
    return V(adtid, ADTS[adtid]['v'][0][0], **fields)

class Missing(Exception): pass

# ------------------------------------------------------------------ equality of values as a guard
CONG = {'load', 'query', 'f', 'vf', 'call', 'mulfloor', 'ratio', 'mulratio', 'transfer', 'div', 'mul', 'load@h', 'parsed', 'reply', 'len', 'elem', 'src', 'get', 'sum', 'secs', 'rkey', 'mapget', 'json', 'lin', 'fmt', 'tup', 'b', 'cnt', 'range', 'first', 'take', 'bin', 'bytes', 'setlen'}
_eqm = {}
def eqt(a, b):
    """guard under which two values denote the same thing (structural, congruence-closed one step)"""
    if a is b: return TRUE
    k = (a, b) if a.id < b.id else (b, a)
    r = _eqm.get(k)
    if r is None:
        _eqm[k] = FALSE
        r = _eqt(a, b)
        _eqm[k] = r
    return r
def _eqt(a, b):
    if a.op == 'phi': return B.any(AND(g, eqt(x, b)) for g, x in a.a[0])
    if b.op == 'phi': return B.any(AND(g, eqt(a, x)) for g, x in b.a[0])
    if a.op == 'undef' or b.op == 'undef': return FALSE
    if a.op == 'b' or b.op == 'b': return eq(a, b)
    if a.op in ('coll', 'iter') or b.op in ('coll', 'iter'): return eq_parts(parts_of(a), parts_of(b), a, b)
    if a.op == 'transfer' and b.op == 'adt': a = expand_transfer(a)
    elif b.op == 'transfer' and a.op == 'adt': b = expand_transfer(b)
    if a.op == 'phi' or b.op == 'phi': return eqt(a, b)
    if a.op == 'adt' or b.op == 'adt':
        if a.op != 'adt' or a.a[1] == '?' and b.op == 'adt': a, b = b, a
        if a.a[1] == '?' and '..' in a.a[2]: return B.all(eqt(v, b if n == '..' else getf(b, n)) for n, v in zip(a.a[2], a.a[3]))
        aid, var, names, vals = a.a
        if b.op == 'adt' and b.a[1] == '?' and '..' in b.a[2] and aid in ADTS and not ADTS[aid]['enum'] and set(b.a[2]) - {'..'} <= set(names): b = mk('adt', aid, var, names, tuple(getf(b, n) for n in names))
        en = aid not in ADTS or ADTS[aid]['enum']
        if b.op == 'adt' and (b.a[1] != var or not same_adt(aid, b.a[0])): return FALSE
        r = is_variant(b, aid, var) if en else TRUE
        if b.op == 'adt' and b.a[2] != names and set(b.a[2]) != set(names): return FALSE
        for n, v in zip(names, vals):
            if r == 0: return 0
            r = AND(r, eqt(v, getvf(b, var, n) if en else getf(b, n)))
        return r
    if a.op == 'tup' or b.op == 'tup':
        if a.op != 'tup': a, b = b, a
        if b.op == 'tup' and len(a.a) != len(b.a): return FALSE
        return B.all(eqt(x, getf(b, str(i))) for i, x in enumerate(a.a))
    if a.op == 'json' and b.op == 'json': return eqt(a.a[0], b.a[0])
    r = FALSE
    if a.op == b.op and a.op in CONG and len(a.a) == len(b.a) and a.op not in ('lin', 'sum', 'cnt', 'first'):
        r = B.all(_eqarg(x, y) for x, y in zip(a.a, b.a))
    if r == TRUE: return r
    if a.op == 'lin' and b.op == 'lin' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        rem = list(b.a[1]); rr = TRUE
        for t, c in a.a[1]:
            best = None
            for i, (u, d) in enumerate(rem):
                if c == d:
                    e = eqt(t, u)
                    if e and (best is None or e == TRUE): best = (i, e)
            if best is None: rr = FALSE; break
            rr = AND(rr, best[1]); rem.pop(best[0])
        r = OR(r, rr)
    if a.op == 'sum' and b.op == 'sum' and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
        e = eqt(a.a[2], b.a[2])
        r = OR(r, NOT(any_(a.a[0], AND(a.a[1], NOT(e)))))
    return OR(r, eq(a, b))
def same_adt(a, b):
    return a == b or (a.endswith(('::msg::ExecuteMsg', '::msg::QueryMsg')) and b.rsplit('::', 1)[-1] == a.rsplit('::', 1)[-1] and '::msg::' in b)
def expand_transfer(t):
    x, to = t.a
    info = F(x, 'info')
    al = []
    for v in ('Native', 'Cw20'):
        g = is_variant(info, ASSETINFO, v)
        al.append((g, VF(lib.transfer(lib.asset(lib.ainfo(v, VF(info, v)), F(x, 'amount')), to), 'Ok')))
    return phi(al)
def _eqarg(x, y):
    if isinstance(x, T) and isinstance(y, T): return eqt(x, y)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y): return B.all(_eqarg(u, v) for u, v in zip(x, y))
    return TRUE if x == y else FALSE
def eq_parts(pa, pb, a=None, b=None):
    pa = [p for p in pa if p[1]]; pb = [p for p in pb if p[1]]
    r = TRUE
    used = set()
    if len(pa) != len(pb): return FALSE
    anyorder = any(x is not None and x.op == 'coll' and x.a[0] in ('set', 'map') for x in (a, b))
    for i, (q1, g1, v1) in enumerate(pa):
        m = None
        for j, (q2, g2, v2) in enumerate(pb):
            if j in used or (j != i and not anyorder): continue
            if q1 != q2 and not (anyorder and unrev(q1) == unrev(q2)): continue
            e = eqt(v1, v2)
            if e == 0: continue
            if not q1: x = AND(IFF(g1, g2), OR(NOT(g1), e))
            else:
                bad = OR(AND(AND(g1, g2), NOT(e)), NOT(IFF(g1, g2)))
                x = TRUE if bad == 0 else NOT(any_(q1, bad))
            if x == 0: continue
            if m is None or x == TRUE: m = (j, x)
            if x == TRUE: break
        if m is None: return FALSE
        used.add(m[0]); r = AND(r, m[1])
    return r
def unrev(q):
    return tuple(s.a[0] if s.op in ('rev', 'sorted') else s for s in q)

# ------------------------------------------------------------------ entailment
def partial(q):
    while q.op in ('rev', 'sorted', 'uniq'): q = q.a[0]
    return q.op in ('take', 'skip', 'upto', 'prefix')
_axm = {}
def clauses(sup):
    """facts about the atoms in a support that hold in every state, as small clauses (nearest first)"""
    r = _axm.get(sup)
    if r is not None: return r
    r = []
    todo = sorted(sup); seen = set(todo)
    while todo:
        nxt = []
        for i in todo:
            k = atomkey(i)
            if k[0] == 'any':
                cube = B.all(B.v(v) if b else NOT(B.v(v)) for v, b in k[2])
                # an arbitrary element is one of those gone through, unless only some of them are
                if not any(partial(q) for q in k[1]): r.append(OR(NOT(cube), B.v(i)))
                r.append(OR(NOT(B.v(i)), nonempty(k[1])))
                for v, _ in k[2]:
                    if v not in seen: seen.add(v); nxt.append(v)
        todo = nxt
    byt = {}; byq = {}
    for i in sorted(seen):
        k = atomkey(i)
        if k[0] == 'any': byq.setdefault(k[1], []).append((frozenset(k[2]), i))
        if k[0] == 'eq':
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if x.op in ('i', 's', 'dec'): byt.setdefault(y, []).append((x, i))
    for l in byq.values():
        for ca, a in l:
            for cb, b in l:
                if a != b and cb < ca: r.append(OR(NOT(B.v(a)), B.v(b)))
        # an element of one kind that must also be of one of several other kinds
        if 3 <= len(l) <= 12:
            cube = {i: B.all(B.v(v) if b else NOT(B.v(v)) for v, b in c) for c, i in l}
            for ca, a in l:
                o = [b for cb, b in l if b != a and not cb < ca and AND(cube[a], cube[b])]
                if len(o) < 2 or not B.implies(cube[a], B.any(cube[b] for b in o)): continue
                mins = []
                for k in range(2, min(len(o), 4) + 1):
                    for sub_ in itertools.combinations(o, k):
                        if any(set(m) <= set(sub_) for m in mins): continue
                        if B.implies(cube[a], B.any(cube[b] for b in sub_)): mins.append(sub_)
                for m in mins: r.append(OR(NOT(B.v(a)), B.any(B.v(b) for b in m)))
    for t, l in byt.items():
        for a in range(len(l)):
            for b in range(a + 1, len(l)):
                r.append(NOT(AND(B.v(l[a][1]), B.v(l[b][1]))))
    # a page never holds more than was taken
    cs = set()
    for i in sorted(seen):
        k = atomkey(i)
        if k[0] in ('eq', 'lt'):
            for x in k[1:]:
                for y in ([x] if x.op == 'cnt' else [u for u, _ in x.a[1]] if x.op == 'lin' else []):
                    if y.op == 'cnt' and len(y.a[0]) == 1 and y.a[0][0].op == 'take': cs.add(y)
    for y in sorted(cs, key=lambda t: t.id): f = NOT(lt(y.a[0][0].a[1], y)); r.append(f); seen |= B.support(f)
    # comparisons of one value with several numbers
    byc = {}
    for i in sorted(seen):
        k = atomkey(i)
        if k[0] in ('eq', 'lt'):
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if x.op == 'i' and y.op not in ('i', 'dec'): byc.setdefault(y, {}).setdefault(x.a[0], set()).add(k[0])
    for t, d in byc.items():
        if len(d) < 2 or not any('lt' in x for x in d.values()): continue
        ns = sorted(d)
        for a, b in zip(ns, ns[1:]):
            la, lb, ea = lt(t, I(a)), lt(t, I(b)), eq(t, I(a))
            r.append(OR(NOT(la), lb)); r.append(OR(NOT(ea), lb))
            if b == a + 1: r.append(O(NOT(lb), la, ea))
    # what holds in every state holds for the element an 'any' speaks of
    base = [(c, B.support(c)) for c in r if c > 1]
    for i in sorted(seen):
        k = atomkey(i)
        if k[0] != 'any' or not any(atomkey(v)[0] == 'any' for v, _ in k[2]): continue
        vs = {v for v, _ in k[2]}
        for c, sp in base:
            if i in sp or not (sp & vs): continue
            d = c
            for v, b in k[2]:
                if v in sp: d = B.cofactor(d, v, 1 if b else 0)
            if d != 1 and not any(TM.atom_depends(v, k[1]) for v in B.support(d)): r.append(OR(NOT(B.v(i)), d))
    _axm[sup] = r
    return r
def close(x, focus=None):
    """x together with the facts about its atoms; 0 = impossible"""
    if x == 0: return 0
    sup = B.support(x)
    cl = [c for c in clauses(sup) if c != 1]
    if focus:
        # facts nearest to what is being asked come first
        near = set(focus); rank = {}
        for d in range(6):
            new = [c for c in cl if c not in rank and B.support(c) & near]
            if not new: break
            for c in new: rank[c] = d
            if d < 2:
                for c in new: near |= B.support(c)
        cl.sort(key=lambda c: rank.get(c, 9))
    B.limit = len(B.var) + 60000
    try:
        y = x
        for c in cl:
            y = AND(y, c)
            if y == 0: return 0
        return y
    except Budget: pass
    finally: B.limit = 1 << 60
    w = walk(x, cl)
    if w is None: return 0
    return B.all(B.v(v) if b else NOT(B.v(v)) for v, b in sorted(w.items(), reverse=True))
def walk(x, cl):
    """a path of x to TRUE on which no fact is contradicted (unit consequences followed), or None"""
    cnf = []; occ = {}
    for c in cl:
        for cube in B.isop(NOT(c)):
            d = tuple((v, not b) for v, b in cube)
            for v, b in d: occ.setdefault(v, []).append(len(cnf))
            cnf.append(d)
    asg = {}
    steps = [0]
    def assign(v, b, trail):
        q = [(v, b)]
        while q:
            v, b = q.pop()
            if v in asg:
                if asg[v] != b: return False
                continue
            asg[v] = b; trail.append(v)
            for ci in occ.get(v, ()):
                free = None; n = 0; sat_ = False
                for u, ub in cnf[ci]:
                    a = asg.get(u)
                    if a is None: free = (u, ub); n += 1
                    elif a == ub: sat_ = True; break
                if sat_: continue
                if n == 0: return False
                if n == 1: q.append(free)
        return True
    def undo(trail):
        for v in trail: del asg[v]
    def rest(i):
        while i < len(cnf):
            if not any(asg.get(v) == b for v, b in cnf[i]): break
            i += 1
        else: return True
        for v, b in cnf[i]:
            if v in asg: continue
            tr = []
            if assign(v, b, tr) and rest(i + 1): return True
            undo(tr)
        return False
    def go(n):
        steps[0] += 1
        if steps[0] > 400000: raise Missing('guard too large to compare')
        while n > 1 and B.var[n] in asg: n = B.hi[n] if asg[B.var[n]] else B.lo[n]
        if n == 0: return False
        if n == 1: return rest(0)
        v = B.var[n]
        for b in (False, True):
            ch = B.hi[n] if b else B.lo[n]
            if ch == 0: continue
            tr = []
            if assign(v, b, tr) and go(ch): return True
            undo(tr)
        return False
    tr = []
    for ci, c in enumerate(cnf):
        if len(c) == 1 and not assign(c[0][0], c[0][1], tr): return None
    return dict(asg) if go(x) else None
def axioms(f): return B.all(clauses(B.support(f)))

def entails(g, f):
    if B.implies(g, f): return True
    x = AND(g, NOT(f)); sup = B.support(x)
    if len(sup) > 24:
        # first on a weakened state description: only what is related to the question is kept
        cl = [c for c in clauses(sup) if c != 1]
        keep = set(B.support(f))
        for d in range(2):
            for c in [c for c in cl if B.support(c) & keep]: keep |= B.support(c)
            B.limit = len(B.var) + 200000
            try: y = B.project(x, frozenset(keep))
            except Budget: continue
            finally: B.limit = 1 << 60
            try:
                if close(y, B.support(f)) == 0: return True
            except Missing: pass
    return close(x, B.support(f)) == 0
def sat(g): return close(g) != 0
def possible(g):
    """not known to be impossible (a guard too large to decide counts as possible)"""
    try: return sat(g)
    except Missing: return True
def counter(g, f):
    """a short witness cube of g and not f"""
    x = close(AND(g, NOT(f)))
    if x == 0: return ''
    cs = B.isop(x)
    c = min(cs, key=len)
    from terms import ap
    return ' & '.join(('' if b else '!') + '(' + ap(v)[:int(__import__("os").environ.get("AW","160"))] + ')' for v, b in c[:14])

# ------------------------------------------------------------------ one check run
class Ctx:
    def __init__(s, prog, prop):
        s.prog = prog; s.prop = prop
        s.obl = 0; s.ok = 0; s.viol = []; s.entries = {}; s.visited = set(); s.callsites = 0
        s.cache = {}; s.rules = []; s.samples = []; s.unknown = {}; s.effects = 0
        s.where = ''
    # obligations ---------------------------------------------------
    def ob(s, name, cond, detail='', loc=None):
        s.obl += 1
        if cond:
            s.ok += 1
            if len(s.samples) < 12: s.samples.append(name)
            return True
        s.viol.append({'key': name, 'detail': detail[:1500], 'loc': loc or s.where})
        return False
    def must(s, name, g, f, loc=None):
        """every state satisfying g satisfies f"""
        if entails(g, f):
            return s.ob(name, True)
        return s.ob(name, False, 'reachable with: ' + counter(g, f), loc)
    def reach(s, name, g, loc=None):
        return s.ob(name, possible(g), 'never possible', loc)
    def fail(s, name, detail='', loc=None): return s.ob(name, False, detail, loc)
    # entries -------------------------------------------------------
    def body(s, crate, ent):
        b = s.prog.fn.get('%s::contract::%s' % (crate, ent))
        if b is None:
            raise Missing('entry point %s of %s' % (ent, crate))
        return b
    def variants(s, crate, ent='execute'):
        b = s.body(crate, ent)
        aid = Interp(s.prog).adt_of_ty(b.locals[b.argc][0])
        if aid is None or not ADTS[aid]['enum']: raise Missing('message enum of %s %s' % (crate, ent))
        return [v[0] for v in ADTS[aid]['v']]
    def entry(s, crate, ent, variant=None, msg=None, pc=TRUE, pre=(), tag=''):
        key = (crate, ent, variant, msg, pc, tag)
        r = s.cache.get(key)
        if r is not None: return r
        b = s.body(crate, ent)
        I_ = Interp(s.prog)
        names = ['deps', 'env', 'info', 'msg'] if b.argc == 4 else ['deps', 'env', 'msg']
        if b.argc not in (3, 4): raise Missing('signature of %s %s' % (crate, ent))
        base = [P(n) for n in names[:-1]]
        aid = I_.adt_of_ty(b.locals[b.argc][0])
        m = msg if msg is not None else P('msg')
        if variant is not None and msg is None:
            for n, d, fs in ADTS[aid]['v']:
                if n == variant:
                    m = mk('adt', aid, n, tuple(x[0] for x in fs), tuple(mk('vf', P('msg'), n, x[0]) for x in fs)); break
            else: raise Missing('%s message %s of %s' % (ent, variant, crate))
        S_ = s._run(I_, b, base + [m], pc, '%s::%s%s' % (crate, ent, '(%s%s)' % (variant, tag) if variant else tag), pre)
        S_.msgadt = aid
        s.cache[key] = S_
        return S_
    def _run(s, I_, b, args, pc, name, pre=()):
        st, v = run(I_, b.id, args, pc, pre)
        S_ = summarize(I_, st, v, result=b.locals[0][0].startswith(RESULT))
        S_.name = name
        S_.file = b.loc.split(':')[0] if b.loc else ''
        s.visited |= I_.visited; s.callsites += I_.callsites
        for k, n in I_.unknown.items(): s.unknown[k] = s.unknown.get(k, 0) + n
        S_.unknown = dict(I_.unknown); S_.nstypes = I_.nstypes; S_.attrs = I_.attrs
        s.entries[name] = dict(functions=len(I_.visited), writes=len(S_.writes), msgs=len(S_.msgs))
        s.effects += len(S_.writes) + len(S_.msgs)
        return S_
    def given(s, ns, key, val):
        """storage entry assumed present at the start of a call"""
        return Entry(ns, key, 'save', val, TRUE, (), ('', ''), True)
    def ex(s, crate, variant): return s.entry(crate, 'execute', variant)
    def inst(s, crate): return s.entry(crate, 'instantiate')
    def qry(s, crate, variant): return s.entry(crate, 'query', variant)
    def mig(s, crate): return s.entry(crate, 'migrate')
    def rep(s, crate, n):
        """reply(id = n); n None = symbolic id"""
        aid = fq(REPLY)
        m = mk('adt', aid, ADTS[aid]['v'][0][0], ('id', 'result'), (I(n) if n is not None else F(P('msg'), 'id'), F(P('msg'), 'result')))
        return s.entry(crate, 'reply', None, m)
    def fn(s, fid, args, pc=TRUE, result=True):
        b = s.prog.fn.get(fid)
        if b is None: raise Missing('function ' + fid)
        I_ = Interp(s.prog)
        return s._run(I_, b, args, pc, fid)
    # query result ---------------------------------------------------
    def qval(s, crate, variant):
        """(guard, value) of a query answer (binary decoded)"""
        S_ = s.qry(crate, variant)
        return S_, unjson(S_.payload)

def unjson(v):
    def f(x):
        return x.a[0] if x.op == 'json' else x
    return lift(v, f)

def M(S_, n, f='0'):
    """field of the incoming message of variant n (looking through a one-field tuple variant)"""
    for vn, d, fs in ADTS[S_.msgadt]['v']:
        if vn == n:
            names = [x[0] for x in fs]
            if f in names: return mk('vf', P('msg'), n, f)
            if names == ['0']: return F(mk('vf', P('msg'), n, '0'), f)
            raise Missing('field %s of message %s' % (f, n))
    raise Missing('message %s' % n)

# ------------------------------------------------------------------ effect shapes
def msg_of(e): return F(e.val, 'msg')
def wasm_exec(e):
    """-> (guard, addr, payload, funds) for a Wasm Execute message effect, or None"""
    m = msg_of(e)
    if m.op == 'adt' and m.a[1] == 'Wasm':
        w = m.a[3][0]
        if w.op == 'adt' and w.a[1] == 'Execute': return F(w, 'contract_addr'), F(w, 'msg'), F(w, 'funds')
    return None
def execute(addr, payload, funds=None):
    return adt(COSMOS, 'Wasm', ('0',), (adt(WASM, 'Execute', ('contract_addr', 'msg', 'funds'), (addr, mk('json', payload), funds if funds is not None else coll('vec', ()))),))
def coinv(denom, amount): return adt(COIN, 'Coin', ('denom', 'amount'), (denom, amount))
def vec(*xs): return coll('vec', tuple(((), TRUE, x) for x in xs))
def bank_send(to, *coins): return adt(COSMOS, 'Bank', ('0',), (adt(BANK, 'Send', ('to_address', 'amount'), (to, vec(*coins))),))
def is_msg(m):
    """spec: effect's message equals m"""
    return lambda e: eqt(msg_of(e), m)
def is_sub(m, id_, on):
    return lambda e: A(eqt(msg_of(e), m), eqt(F(e.val, 'id'), id_), eqt(F(e.val, 'reply_on'), S(on)))
def no_reply(m):
    return lambda e: AND(eqt(msg_of(e), m), eqt(F(e.val, 'reply_on'), S('Never')))
def is_save(ns, key, val):
    def f(e):
        if e.kind != 'save' or e.ns != ns: return FALSE
        r = TRUE
        if (key is None) != (e.key is None): return FALSE
        if key is not None: r = eqt(e.key, key)
        if val is not None: r = AND(r, eqt(e.val, val))
        return r
    f.ns = ns
    f.noop = AND(has(ns, key), eqt(L(ns, key), val)) if val is not None else FALSE    # saving what is there already changes nothing
    return f
def is_remove(ns, key=None):
    def f(e):
        if e.ns != ns: return FALSE
        if e.kind == 'clear': return TRUE if key is None else FALSE
        if e.kind != 'remove': return FALSE
        if (key is None) != (e.key is None): return FALSE
        return eqt(e.key, key) if key is not None else TRUE
    f.ns = ns
    if key is not None: f.noop = NOT(has(ns, key))
    return f
def is_mark(ns, key):
    """a record that only says that it exists"""
    f = is_save(ns, key, None); f.noop = has(ns, key)
    return f
def normq(q): return tuple(sorted(unrev(q), key=lambda t: t.id))

class Want:
    """an expected effect: shape under a condition, quantified over sources"""
    def __init__(s, name, shape, when=TRUE, quants=(), must=True, ordered=False):
        s.name = name; s.shape = shape; s.when = when; s.quants = normq(quants); s.must = must
        s.ordered = tuple(quants) if ordered else None
    def fits(s, e): return normq(e.quants) == s.quants and (s.ordered is None or tuple(e.quants) == s.ordered)

def check_effects(c, S_, effs, wants, what, ignore=None, exact=True, once=True):
    """every effect is one of `wants` under its condition; every `must` effect occurs whenever its condition holds, once"""
    n = S_.name
    for e in effs:
        if ignore and ignore(e): continue
        f = FALSE
        for w in wants:
            if not w.fits(e): continue
            f = OR(f, AND(w.shape(e), w.when))
        if exact:
            if not entails(e.guard, f):
                c.fail('%s: unexpected %s %s' % (n, what, eff_name(e)), 'effect %s\n  not allowed when: %s' % (short_eff(e), counter(e.guard, f)), loc_of(e, S_))
            else: c.ob('%s: %s %s allowed' % (n, what, eff_name(e)), True)
    for w in wants:
        if not w.must: continue
        cov = FALSE
        hit = []
        for e in effs:
            if not w.fits(e): continue
            sh = w.shape(e)
            x = AND(e.guard, sh)
            if x:
                # coincidental equalities (two addresses that might be the same) do not make an effect a second copy
                own = B.support(e.guard) | B.support(w.when) | B.support(S_.ok)
                y = x
                for v in B.support(x) - own:
                    if atomkey(v)[0] == 'eq': y = B.cofactor(y, v, 0)
                hit.append((e, y))
            cov = OR(cov, x)
        need = AND(S_.ok, AND(w.when, nonempty(w.quants)))
        if not possible(need):
            c.fail('%s: %s never required' % (n, w.name), 'the case this rule describes can not succeed any more'); continue
        nop = getattr(w.shape, 'noop', FALSE)
        if nop and all(e.ns != w.shape.ns or entails(e.guard, w.shape(e)) for e in effs if e.kind != 'msg'): cov = OR(cov, nop)
        c.must('%s: %s' % (n, w.name), need, cov, loc_of(hit[0][0], S_) if hit else S_.name)
        if once:
            for i in range(len(hit)):
                for j in range(i + 1, len(hit)):
                    if sat(AND(hit[i][1], hit[j][1])):
                        c.fail('%s: %s happens twice' % (n, w.name), 'two copies of ' + short_eff(hit[i][0]), loc_of(hit[i][0], S_))

def eff_name(e):
    if e.kind == 'msg':
        m = msg_of(e)
        x = m
        try:
            if m.op == 'adt' and m.a[1] == 'Wasm':
                w = m.a[3][0]
                p = F(w, 'msg')
                if p.op == 'json' and p.a[0].op == 'adt': return 'message %s' % p.a[0].a[1]
                return 'wasm %s' % w.a[1]
        except Exception: pass
        return 'message ' + (str(m.a[1]) if m.op == 'adt' else m.op)
    return '%s of %s' % (e.kind, e.ns)
def short_eff(e): return repr(e)[:700]
def loc_of(e, S_):
    if e is not None and e.loc: return '%s (%s)' % (e.loc[0], e.loc[1])
    return S_.name
def check_msgs(c, S_, wants, **k): check_effects(c, S_, S_.msgs, wants, 'message', **k)
def check_writes(c, S_, wants, **k):
    check_effects(c, S_, S_.writes, wants, 'storage write', **k)
def ns_writes(S_, *ns): return [w for w in S_.writes if w.ns in ns]

# final value of a storage cell after a successful call
def after(S_, ns, key=None):
    """list of (guard, kind, val, quants) of last writes to a cell"""
    return [(w.guard, w.kind, w.val, w.quants) for w in S_.writes if w.ns == ns and (w.key is key or (w.key is not None and key is not None))]

PROPS = {}
def prop(*ids):
    def d(f):
        for i in ids: PROPS.setdefault(i, []).append(f)
        return f
    return d

# ------------------------------------------------------------------ what a term is made of
def walk_terms(x):
    """all subterms, guards included"""
    seen = set(); bs = set(); out = []
    def t(y):
        if y in seen: return
        seen.add(y); out.append(y)
        for i, z in enumerate(y.a): arg(z, y.op, i)
    def bd(n):
        for v in B.support(n):
            if v in bs: continue
            bs.add(v)
            k = atomkey(v)
            if k[0] == 'any':
                for q in k[1]: t(q)
                for u, _ in k[2]: bd(B.v(u))
            else:
                for z in k[1:]: arg(z, None, 0)
    def arg(z, op, i):
        if isinstance(z, T): t(z)
        elif isinstance(z, bool): pass
        elif op == 'b': bd(z)
        elif isinstance(z, tuple):
            if op == 'phi':
                for g, v in z: bd(g); t(v)
            elif op in ('coll', 'iter'):
                for q, g, v in z:
                    for s_ in q: t(s_)
                    bd(g); t(v)
            elif op == 'lin':
                for a, c in z: t(a)
            else:
                for w in z: arg(w, None, 0)
        elif op in ('cnt', 'sum', 'first') and i == 1: bd(z)
    if isinstance(x, int): bd(x)
    else: t(x)
    return out
def strings_in(x): return {y.a[0] for y in walk_terms(x) if y.op == 's'}
def mentions(x, sub): return any(y is sub for y in walk_terms(x))

def distinct(xs, key=None, val=None, when=TRUE):
    """guard: the values key(e) over the list xs are pairwise different (as established by a seen-set, a seen-map or comparing sizes)"""
    s = src(xs); k = key(elem(s)) if key else elem(s)
    r = FALSE
    ent = [(k, lambda e: elem(e))]
    if val is not None: ent.append((mk('tup', k, val(elem(s))), lambda e: getf(elem(e), '0')))
    for v, kk in ent:
        e = mk('earlier', (s,), coll('vec', (((), when, v),)))
        d = any_((s,), AND(when, any_((e,), eq(k, kk(e)))))
        d0 = AND(when, any_((e,), eq(k, kk(e))))
        r = OR(r, AND(NOT(d), NOT(AND(nonempty((s,)), d0))))
    for kind in ('set', 'map'):
        parts = (((s,), when, k if kind == 'set' or val is None else mk('tup', k, val(elem(s)))),)
        r = OR(r, eq(mk('setlen', mk('coll', kind, parts)), mk('len', xs)))
    if when == TRUE: r = OR(r, eq(mk('cnt', (mk('uniq', s, k),), TRUE), mk('len', xs)))
    return r

def supposing(x, lits):
    """the term or guard x where each of lits (literals) is known to hold"""
    vm = {}
    for l in lits:
        v, = B.support(l)
        vm[v] = TRUE if l == B.v(v) else FALSE
    return retag(x, lambda ns, k, tg: tg, vm)
def retag(x, f, known=None):
    """rewrite the point-in-time tags of storage reads: f(ns, key, tag) -> new tag (None = state at the start of the call)"""
    memo = {}; bmemo = {}; vm = dict(known or {})
    def t(y):
        r = memo.get(y)
        if r is None:
            if y.op == 'load':
                k = arg(y.a[1], None, 0); tg = f(y.a[0], k, y.a[2] if len(y.a) > 2 else None)
                r = mk('load', y.a[0], k) if tg is None else mk('load', y.a[0], k, tg)
            else: r = TM.rebuild(y, tuple(arg(z, y.op, i) for i, z in enumerate(y.a)))
            memo[y] = r
        return r
    def var(i):
        r = vm.get(i)
        if r is None:
            k = atomkey(i)
            if k[0] == 'any': r = any_(tuple(t(q) for q in k[1]), B.all(var(v) if b else NOT(var(v)) for v, b in k[2]))
            elif k[0] == 'has':
                kk = arg(k[2], None, 0) if len(k) > 2 else None
                tg = f(k[1], kk, k[3] if len(k) > 3 else None)
                r = atom('has', k[1], kk) if tg is None else atom('has', k[1], kk, tg)
            else: r = TM.reatom(tuple(arg(z, None, 0) for z in k))
            vm[i] = r
        return r
    def bd(n): return B.subst(n, var, bmemo)
    def arg(z, op, i):
        if isinstance(z, T): return t(z)
        if isinstance(z, bool): return z
        if op == 'b': return bd(z)
        if isinstance(z, tuple):
            if op == 'phi': return tuple((bd(g), t(v)) for g, v in z)
            if op in ('coll', 'iter'): return tuple((tuple(t(s) for s in q), bd(g), t(v)) for q, g, v in z)
            if op == 'lin': return tuple((t(a), c) for a, c in z)
            return tuple(arg(w, None, 0) for w in z)
        if op in ('cnt', 'sum', 'first') and i == 1: return bd(z)
        return z
    def go(y): return y if y is None else bd(y) if isinstance(y, int) else t(y)
    return go(x) if not callable(x) else go
def retagged(S_, f):
    """the summary with rewritten read tags"""
    import copy
    g = retag(lambda: 0, f)
    S2 = copy.copy(S_)
    S2.ok = g(S_.ok)
    def eff(e):
        e2 = copy.copy(e)
        e2.guard = g(e.guard); e2.val = g(e.val) if e.val is not None else None; e2.key = g(e.key) if e.key is not None else None
        e2.quants = tuple(g(q) for q in e.quants)
        return e2
    S2.writes = [eff(e) for e in S_.writes]; S2.msgs = [eff(e) for e in S_.msgs]
    return S2

def order(*ts):
    """facts of a total order on the given numbers"""
    r = TRUE
    for a in ts:
        for b in ts:
            if a is b: continue
            r = A(r, NOT(AND(lt(a, b), lt(b, a))), O(lt(a, b), lt(b, a), eq(a, b)), NOT(AND(lt(a, b), eq(a, b))))
            for c in ts:
                if c is a or c is b: continue
                r = A(r, IMP(AND(lt(a, b), lt(b, c)), lt(a, c)), IMP(AND(eq(a, b), lt(b, c)), lt(a, c)), IMP(AND(lt(a, b), eq(b, c)), lt(a, c)))
    return r
def assuming(S_, f):
    """the summary under a fact that holds in every state"""
    import copy
    S2 = copy.copy(S_); S2.ok = AND(S_.ok, f)
    def eff(e):
        e2 = copy.copy(e); e2.guard = AND(e.guard, f); return e2
    S2.writes = [eff(e) for e in S_.writes]; S2.msgs = [eff(e) for e in S_.msgs]
    return S2
