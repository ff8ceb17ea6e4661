"""Hash-consed symbolic terms, canonical atoms, guarded values."""
from fractions import Fraction
from bdd import BDD

B = BDD()
TRUE, FALSE = 1, 0

class T:
    __slots__ = ('op', 'a', 'id')
    def __repr__(self): return pp(self)

_tab = {}
def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = len(_tab)
        _tab[k] = t
    return t

# ---------------------------------------------------------------- atoms
_atoms = {}
_atomkeys = []
def atom(*key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atomkeys)
        _atoms[key] = i
        _atomkeys.append(key)
    return B.v(i)
def atomkey(i): return _atomkeys[i]

AND, OR, NOT = B.conj, B.disj, B.neg
def bl(n): return mk('b', n)
BT, BF = bl(1), bl(0)
UNIT = mk('tup')
ERR = mk('err')
def I(n): return mk('i', int(n))
def S(s): return mk('s', s)
ZERO, ONE = I(0), I(1)

RESULT = 'core::result::Result'
OPTION = 'core::option::Option'
CF = 'core::ops::control_flow::ControlFlow'
ORDERING = 'core::cmp::Ordering'
ADTS = {}       # id -> {'enum':bool,'v':[(name,discr,[(fname,ty)])]}

def variants(adt):
    a = ADTS.get(adt)
    return [v[0] for v in a['v']] if a else None

def adt(aid, var, names, vals):
    names = tuple(names); vals = tuple(vals)
    # eta: struct rebuilt field by field from one value
    if len(vals) >= 2 and aid in ADTS and not ADTS[aid]['enum']:
        v0 = vals[0]
        if v0.op == 'f' and v0.a[1] == names[0]:
            base = v0.a[0]
            if all(v.op == 'f' and v.a[0] is base and v.a[1] == n for v, n in zip(vals, names)):
                return base
    return mk('adt', aid, var, names, vals)
def Some(x): return adt(OPTION, 'Some', ('0',), (x,))
NONE = mk('adt', OPTION, 'None', (), ())
def Ok(x): return adt(RESULT, 'Ok', ('0',), (x,))
ERRV = mk('adt', RESULT, 'Err', ('0',), (ERR,))

def is_adt(v, var=None):
    return v.op == 'adt' and (var is None or v.a[1] == var)

# ---------------------------------------------------------------- guarded values
def alts(v):
    if v.op == 'phi': return v.a[0]
    return ((TRUE, v),)

def phi(al):
    """al: list of (guard, value); guards disjoint (within their union)."""
    flat = []
    for g, v in al:
        if g == 0: continue
        if v.op == 'phi':
            for g2, v2 in v.a[0]:
                x = AND(g, g2)
                if x: flat.append((x, v2))
        else:
            flat.append((g, v))
    if not flat: return mk('undef')
    d = {}
    for g, v in flat:
        d[v] = OR(d[v], g) if v in d else g
    if len(d) == 1:
        return next(iter(d))
    d.pop(mk('undef'), None)
    if len(d) == 1:
        return next(iter(d))
    care = B.any(d.values())
    items = [(B.restrict(g, care), v) for v, g in d.items()]
    if all(v.op == 'b' for g, v in items):
        return bl(B.any(AND(g, v.a[0]) for g, v in items))
    # bool mixed with opaque bool
    if any(v.op == 'b' for g, v in items):
        return bl(B.any(AND(g, truth(v)) for g, v in items))
    # group ADTs by constructor
    adts = {}
    rest = []
    for g, v in items:
        if v.op == 'adt': adts.setdefault((v.a[0], v.a[1]), []).append((g, v))
        elif v.op == 'coll': adts.setdefault(('coll', v.a[0]), []).append((g, v))
        elif v.op == 'tup': adts.setdefault(('tup', len(v.a)), []).append((g, v))
        elif v.op == 'iter': adts.setdefault(('iter',), []).append((g, v))
        else: rest.append((g, v))
    out = []
    if adts and rest:
        # expand opaque values next to a struct / tuple / collection of known shape
        keys = list(adts)
        if len(keys) == 1:
            k = keys[0]
            if k[0] == 'coll':
                nrest = []
                for g, v in rest:
                    if opaque(v): adts[k].append((g, mk('coll', k[1], parts_of(v))))
                    else: nrest.append((g, v))
                rest = nrest
            elif k[0] in ADTS and not ADTS[k[0]]['enum']:
                nrest = []
                for g, v in rest:
                    if opaque(v):
                        x = expand(v, k[0])
                        adts[k].append((g, x))
                    else: nrest.append((g, v))
                rest = nrest
    for k, lst in adts.items():
        if len(lst) == 1:
            out.append(lst[0]); continue
        gg = B.any(g for g, _ in lst)
        sub = [(B.restrict(g, gg), v) for g, v in lst]
        if k[0] == 'coll':
            out.append((gg, mk('coll', k[1], merge_parts([(g, v.a[1]) for g, v in sub]))))
        elif k[0] == 'iter':
            out.append((gg, mk('iter', merge_parts([(g, v.a[0]) for g, v in sub]))))
        elif k[0] == 'tup':
            n = k[1]
            out.append((gg, mk('tup', *[phi([(g, v.a[i]) for g, v in sub]) for i in range(n)])))
        else:
            names = lst[0][1].a[2]
            vals = [phi([(g, v.a[3][i]) for g, v in sub]) for i in range(len(names))]
            out.append((gg, adt(k[0], k[1], names, vals)))
    out += rest
    if len(out) == 1: return out[0][1]
    # eta for enums: is(t,V)->V(vf(t,V,..)) for all alternatives of one t
    e = _eta(out)
    if e is not None: return e
    if len(out) == 2:
        (g1, a), (g2, b) = out
        if a.op not in ('adt', 'coll', 'tup', 'iter') and b.op not in ('adt', 'coll', 'tup', 'iter'):
            sup = [atomkey(i) for i in B.support(g1)]
            if sup and all(k[0] in ('eq', 'lt') for k in sup):
                r = _minmax(g1, a, b)
                if r is not None: return r
    out.sort(key=lambda x: x[1].id)
    return mk('phi', tuple(out))

def _minmax(g, a, b):
    """canonical form of `if g {a} else {b}` when g compares a and b"""
    e = eq(a, b)
    if g == e: return b
    if g == NOT(e): return a
    l, m = lt(a, b), lt(b, a)
    x, y = (a, b) if a.id < b.id else (b, a)
    if g == l or g == NOT(m): gx = lt(x, y)            # min
    elif g == m or g == NOT(l): gx = NOT(lt(x, y))     # max
    else: return None
    o = sorted(((gx, x), (NOT(gx), y)), key=lambda z: z[1].id)
    return mk('phi', tuple(o))

def _eta(out):
    t = None
    cov = 0
    rest = []
    for g, v in out:
        if v.op != 'adt': rest.append((g, v)); continue
        if v.a[3]:
            x = v.a[3][0]
            if x.op == 'vf' and x.a[1] == v.a[1] and (t is None or t is x.a[0]) and \
               all(y.op == 'vf' and y.a[0] is x.a[0] and y.a[1] == v.a[1] and y.a[2] == n for y, n in zip(v.a[3], v.a[2])):
                t = x.a[0]
            else: return None
    if t is None: return None
    care = B.any(g for g, _ in out)
    for g, v in out:
        if v.op == 'adt':
            if B.restrict(is_variant(t, v.a[0], v.a[1]), care) != B.restrict(g, care): return None
        elif v is t:
            pass
        else: return None
    return t

def merge_parts(lst):
    """lst of (guard, parts): common prefix kept, then guarded suffixes."""
    n = 0
    first = lst[0][1]
    while all(len(p) > n and p[n] == first[n] for _, p in lst): n += 1
    out = list(first[:n])
    # merge equal-suffix elements position-wise when all alternatives share length and quants
    sufs = [(g, p[n:]) for g, p in lst]
    for g, p in sufs:
        for q, pg, v in p:
            ng = AND(g, pg)
            if ng: out.append((q, ng, v))
    # collapse entries with the same quants and value
    res = []
    idx = {}
    for i, (q, g, v) in enumerate(out):
        if i < n: res.append((q, g, v)); continue
        k = (q, v)
        if k in idx:
            j = idx[k]
            res[j] = (q, OR(res[j][1], g), v)
        else:
            idx[k] = len(res); res.append((q, g, v))
    return tuple(res)

def opaque(v):
    return v.op in ('p', 'f', 'vf', 'load', 'query', 'elem', 'call', 'parsed', 'first', 'rkey', 'prev', 'rec', 'get', 'lastof', 'idx', 'reply')

def expand(t, aid):
    """view an opaque struct value as an explicit record"""
    fs = ADTS[aid]['v'][0][2]
    return mk('adt', aid, ADTS[aid]['v'][0][0], tuple(f[0] for f in fs), tuple(getf(t, f[0]) for f in fs))

def lift(v, f):
    if v.op == 'phi':
        return phi([(g, f(x)) for g, x in v.a[0]])
    return f(v)

def lift2(a, b, f):
    if a.op == 'phi': return phi([(g, lift2(x, b, f)) for g, x in a.a[0]])
    if b.op == 'phi': return phi([(g, lift2(a, x, f)) for g, x in b.a[0]])
    return f(a, b)

SPLIT = 2   # beyond this number of alternatives a question or key stays one term
class _Many(Exception): pass
def split(t):
    """the alternatives of a value whose parts are alternatives: [(guard, value without alternatives in its parts)]"""
    if not isinstance(t, T): return [(TRUE, t)]
    if t.op == 'phi':
        r = [(AND(g, h), y) for g, x in t.a[0] for h, y in split(x)]
        if len(r) > SPLIT: raise _Many()
        return r
    k = {'adt': 3, 'tup': None}.get(t.op, 0)
    if k == 0: return [(TRUE, t)]
    fs = t.a[3] if k == 3 else t.a
    r = [(TRUE, ())]
    for f in fs:
        sf = split(f)
        if len(sf) == 1 and sf[0][0] == TRUE: r = [(g, xs + (sf[0][1],)) for g, xs in r]; continue
        r = [(AND(g, h), xs + (y,)) for g, xs in r for h, y in sf]
        r = [(g, xs) for g, xs in r if g != FALSE]
        if len(r) > SPLIT: raise _Many()
    if len(r) == 1 and r[0][0] == TRUE and r[0][1] == tuple(fs): return [(TRUE, t)]
    return [(g, adt(t.a[0], t.a[1], t.a[2], xs) if k == 3 else mk('tup', *xs)) for g, xs in r]
def splits(args):
    r = [(TRUE, ())]
    try:
        for a in args: r = [(AND(g, h), xs + (y,)) for g, xs in r for h, y in split(a)]
    except _Many: return [(TRUE, tuple(args))]
    r = [(g, xs) for g, xs in r if g != FALSE]
    return r if len(r) <= SPLIT else [(TRUE, tuple(args))]
def dist(op, *args):
    """the term op(args), distributed over the alternatives in its arguments"""
    r = splits(args)
    if len(r) == 1 and r[0][0] == TRUE: return mk(op, *r[0][1])
    return phi([(g, mk(op, *xs)) for g, xs in r])
def dista(op, *args):
    r = splits(args)
    if len(r) == 1 and r[0][0] == TRUE: return atom(op, *r[0][1])
    return B.any(AND(g, atom(op, *xs)) for g, xs in r)

def truth(v):
    if v.op == 'b': return v.a[0]
    if v.op == 'phi': return B.any(AND(g, truth(x)) for g, x in v.a[0])
    if v.op == 'i': return TRUE if v.a[0] else FALSE
    if v.op == 'undef': return FALSE
    return atom('tt', v)

def is_variant(v, aid, name):
    if v.op == 'adt':
        return TRUE if v.a[1] == name else FALSE
    if v.op == 'phi':
        return B.any(AND(g, is_variant(x, aid, name)) for g, x in v.a[0])
    if v.op == 'err': return TRUE if name == 'Err' else FALSE
    if v.op == 'undef': return FALSE
    vs = variants(aid)
    if vs is None: return atom('is', v, name)
    r = TRUE
    for i, n in enumerate(vs):
        last = i == len(vs) - 1
        if n == name:
            return r if last else AND(r, atom('is', v, n))
        r = AND(r, NOT(atom('is', v, n)))
    return atom('is', v, name)

# stored records that repeat (part of) their own key: (store, field) -> position in the key (None: the whole key).
# Rule `keyed_records` proves that every write keeps this; records are then read with the repetition resolved.
KEYED = {('POLLS', 'id'): None, ('VOTES', 'voter'): 0, ('VOTES', 'poll_id'): 1,
         ('native_distributions', 'user'): 0, ('native_distributions', 'denom'): 1,
         ('cw20_distributions', 'user'): 0, ('cw20_distributions', 'cw20_asset'): 1,
         ('token_claims', 'id'): None, ('denom_claims', 'id'): None, ('nft_claims', 'id'): None, ('nft_stakes', 'token_id'): None}
# what a secondary index selects by: (store, index) -> term over REC, the stored record (as the source defines it)
REC = mk('p', 'record')
IDX = {}
def keyed(v, name):
    ns, k = v.a[0], v.a[1]
    if (ns, name) in KEYED:
        i = KEYED[ns, name]
        if i is None: return k
        if k.op == 'tup': return k.a[i]
    if k is not None and len(v.a) == 2 and k.op == 'rkey' and k.a[0].op == 'range':
        r = k.a[0].a
        if r[6] == 0 and IDX.get((ns, r[1])) is mk('f', REC, name): return r[2]
    return None
def getf(v, name):
    """struct/tuple field"""
    if v.op == 'load':
        k = keyed(v, name)
        if k is not None: return k
    if v.op == 'adt':
        try: return v.a[3][v.a[2].index(name)]
        except ValueError: return getf(v.a[3][v.a[2].index('..')], name) if '..' in v.a[2] and v.a[1] == '?' else mk('f', v, name)
    if v.op == 'tup':
        if name.isdigit() and int(name) < len(v.a): return v.a[int(name)]
        return mk('f', v, name)
    if v.op == 'phi': return phi([(g, getf(x, name)) for g, x in v.a[0]])
    if v.op == 'undef': return v
    if v.op == 'clo':
        return v.a[1][int(name)]
    return mk('f', v, name)

def getvf(v, var, name):
    """payload field `name` of variant `var`"""
    if v.op == 'adt':
        if v.a[1] != var: return mk('undef')
        return getf(v, name)
    if v.op == 'phi':
        return phi([(g, getvf(x, var, name)) for g, x in v.a[0] if not (x.op == 'adt' and x.a[1] != var)])
    if v.op == 'undef': return v
    return mk('vf', v, var, name)

def setf(v, name, x, aid=None):
    if v.op == 'phi': return phi([(g, setf(y, name, x, aid)) for g, y in v.a[0]])
    if v.op == 'adt':
        if name in v.a[2]:
            i = v.a[2].index(name)
            return adt(v.a[0], v.a[1], v.a[2], v.a[3][:i] + (x,) + v.a[3][i+1:])
        return adt(v.a[0], v.a[1], v.a[2] + (name,), v.a[3] + (x,))
    if v.op == 'tup' and name.isdigit():
        i = int(name); l = list(v.a)
        while len(l) <= i: l.append(mk('undef'))
        l[i] = x
        return mk('tup', *l)
    if aid and aid in ADTS and not ADTS[aid]['enum']:
        return setf(expand(v, aid), name, x)
    return mk('adt', aid or '?', '?', (name, '..'), (x, v))

def setvf(v, var, name, x, aid):
    if v.op == 'phi': return phi([(g, setvf(y, var, name, x, aid)) for g, y in v.a[0] if not (y.op == 'adt' and y.a[1] != var)])
    if v.op == 'adt' and v.a[1] == var: return setf(v, name, x)
    if aid in ADTS:
        for n, d, fs in ADTS[aid]['v']:
            if n == var:
                e = mk('adt', aid, var, tuple(f[0] for f in fs), tuple(mk('vf', v, var, f[0]) for f in fs))
                return setf(e, name, x)
    return mk('adt', aid, var, (name, '..'), (x, v))

# ---------------------------------------------------------------- numbers
def lin(v):
    """-> (const, {term: coef})"""
    if v.op == 'i': return v.a[0], {}
    if v.op == 'lin': return v.a[0], dict(v.a[1])
    return 0, {v: 1}
def unlin(k, d):
    d = {t: c for t, c in d.items() if c}
    if not d: return I(k)
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1: return t
    return mk('lin', k, tuple(sorted(d.items(), key=lambda x: x[0].id)))
def _add(a, b, s=1):
    ka, da = lin(a); kb, db = lin(b)
    for t, c in db.items(): da[t] = da.get(t, 0) + s * c
    return unlin(ka + s * kb, da)
MAXALT = 12
def _wide(*vs):
    n = 1
    for v in vs: n *= len(alts(v))
    return n > MAXALT
def add(a, b):
    if _wide(a, b): return _add(a, b)
    return lift2(a, b, _add)
def sub(a, b):
    if _wide(a, b): return _add(a, b, -1)
    return lift2(a, b, lambda x, y: _add(x, y, -1))
def _mul(a, b):
    if b.op == 'i': a, b = b, a
    if a.op == 'i':
        k, d = lin(b)
        return unlin(k * a.a[0], {t: c * a.a[0] for t, c in d.items()})
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk('mul', x, y)
def mul(a, b):
    if _wide(a, b): return _mul(a, b)
    return lift2(a, b, _mul)
def _div(a, b):
    if a.op == 'i' and b.op == 'i' and b.a[0]: return I(a.a[0] // b.a[0])
    if b is ONE: return a
    return mk('div', a, b)
def div(a, b):
    if _wide(a, b): return _div(a, b)
    return lift2(a, b, _div)

def const(v):
    if v.op == 'i': return Fraction(v.a[0])
    if v.op == 'dec': return v.a[0]
    return None

def eq(a, b):
    if a is b: return TRUE
    if a.op == 'phi': return B.any(AND(g, eq(x, b)) for g, x in a.a[0])
    if b.op == 'phi': return B.any(AND(g, eq(a, x)) for g, x in b.a[0])
    if a.op == 'undef' or b.op == 'undef': return FALSE
    if (a.op == 'pos' and a.a[2] is b) or (b.op == 'pos' and b.a[2] is a): return FALSE
    if a.op == 'b' or b.op == 'b':
        x, y = truth(a), truth(b)
        return B.ite(x, y, NOT(y))
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None: return TRUE if ca == cb else FALSE
    if a.op == 's' and b.op == 's': return FALSE
    if (ca == 0 and b.op == 'f' and b.a[1] == '#den') or (cb == 0 and a.op == 'f' and a.a[1] == '#den'): return FALSE
    if a.op == 'adt' or b.op == 'adt':
        if a.op != 'adt': a, b = b, a
        aid, var, names, vals = a.a
        r = is_variant(b, aid, var) if (aid not in ADTS or ADTS[aid]['enum']) else TRUE
        if r == 0: return 0
        en = aid not in ADTS or ADTS[aid]['enum']
        for n, v in zip(names, vals):
            w = getvf(b, var, n) if en else getf(b, n)
            r = AND(r, eq(v, w))
            if r == 0: return 0
        return r
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        return B.all(eq(x, y) for x, y in zip(a.a, b.a))
    if a.op == 'tup' or b.op == 'tup':
        if a.op != 'tup': a, b = b, a
        return B.all(eq(x, getf(b, str(i))) for i, x in enumerate(a.a))
    if a.op in ('i', 'lin') or b.op in ('i', 'lin'):
        ka, da = lin(a); kb, db = lin(b)
        d = dict(da)
        for t, c in db.items(): d[t] = d.get(t, 0) - c
        d = {t: c for t, c in d.items() if c}
        k = ka - kb
        if not d: return TRUE if k == 0 else FALSE
        a, b = _split(k, d)
    if a is ZERO: a, b = b, a
    if b is ZERO:      # unsigned: a sum is zero iff every summand is; nothing is counted iff nothing is there
        if a.op == 'cnt': return NOT(any_(a.a[0], a.a[1]))
        if a.op == 'lin' and a.a[0] == 0 and all(c > 0 and t.op in ('cnt', 'len', 'setlen') for t, c in a.a[1]): return B.all(eq(t, ZERO) for t, _ in a.a[1])
    x, y = sorted((a, b), key=lambda t: t.id)
    return atom('eq', x, y)

def _split(k, d):
    """k + sum c t  (=0 / <0) -> (pos side, neg side)"""
    pos = {t: c for t, c in d.items() if c > 0}
    neg = {t: -c for t, c in d.items() if c < 0}
    return unlin(max(k, 0), pos), unlin(max(-k, 0), neg)

def lt(a, b):
    if a is b: return FALSE
    if a.op == 'phi': return B.any(AND(g, lt(x, b)) for g, x in a.a[0])
    if b.op == 'phi': return B.any(AND(g, lt(a, x)) for g, x in b.a[0])
    if a.op == 'undef' or b.op == 'undef': return FALSE
    if a.op == 'pos' and a.a[2] is b: return TRUE
    if b.op == 'pos' and b.a[2] is a: return FALSE
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None: return TRUE if ca < cb else FALSE
    if a.op in ('i', 'lin') or b.op in ('i', 'lin'):
        ka, da = lin(a); kb, db = lin(b)
        d = dict(da)
        for t, c in db.items(): d[t] = d.get(t, 0) - c
        d = {t: c for t, c in d.items() if c}
        k = ka - kb
        if not d: return TRUE if k < 0 else FALSE
        a, b = _split(k, d)
    # unsigned facts
    if b is ZERO: return FALSE
    if a is ZERO: return NOT(eq(a, b))
    if b is ONE: return eq(a, ZERO)
    if a.op == 'i' and b.op != 'dec':          # n < x   <=>  not (x < n+1)
        return NOT(lt(b, I(a.a[0] + 1)))
    x, y = (a, b) if a.id < b.id else (b, a)
    e = eq(x, y)
    l = atom('lt', x, y)
    return AND(NOT(e), l if x is a else NOT(l))

def le(a, b): return NOT(lt(b, a))

# ---------------------------------------------------------------- collections
def src(t): return mk('src', t)
def elem(s, d=0): return mk('elem', s, d)

def parts_of(v, depth=0):
    """parts: tuple of (quants, guard, value)"""
    if v.op in ('coll',): return v.a[1]
    if v.op == 'iter': return v.a[0]
    if v.op == 'phi':
        out = []
        return merge_parts([(g, parts_of(x, depth)) for g, x in v.a[0]])
    if v.op == 'undef': return ()
    if v.op == 'adt' and v.a[0] == OPTION:
        return () if v.a[1] == 'None' else (((), TRUE, v.a[3][0]),)
    if v.op == 'adt' and v.a[0] == RESULT:
        return () if v.a[1] == 'Err' else (((), TRUE, v.a[3][0]),)
    s = src(v)
    return (((s,), TRUE, elem(s, depth)),)

def coll(kind, parts):
    parts = tuple(p for p in parts if p[1] != 0)
    if kind == 'vec' and len(parts) == 1:
        q, g, v = parts[0]
        if len(q) == 1 and g == TRUE and q[0].op == 'src' and v is elem(q[0]): return q[0].a[0]
    return mk('coll', kind, parts)

def nonempty1(s):
    if s.op == 'src':
        t = s.a[0]
        if t.op == 'coll': return any_(((),), TRUE) if False else B.any(any_(q, g) for q, g, v in t.a[1])
        return NOT(eq(mk('len', t), ZERO))
    if s.op in ('take', 'rev', 'sorted', 'uniq'):
        n = nonempty1(s.a[0])
        if s.op == 'take': n = AND(n, NOT(eq(s.a[1], ZERO)))
        return n
    if s.op == 'zip':
        return AND(nonempty1(s.a[0]), nonempty1(s.a[1]))
    return atom('ne', s)

def nonempty(qs):
    r = TRUE
    for s in qs: r = AND(r, nonempty1(s))
    return r

def depends(t, qs, memo=None):
    """does term t mention an element of one of the sources? (guards included)"""
    if memo is None: memo = {}
    def go(x):
        r = memo.get(x)
        if r is not None: return r
        memo[x] = False
        r = False
        if x.op in ('elem', 'idx', 'rkey') and _qcover(x.a[0], qs): r = True
        else:
            for i, y in enumerate(x.a):
                if goarg(y, x.op, i): r = True; break
        memo[x] = r
        return r
    def bd(n): return any(atom_depends(v, qs) for v in B.support(n))
    def goarg(y, op=None, i=0):
        if isinstance(y, T): return go(y)
        if isinstance(y, tuple):
            if op == 'phi': return any(go(v) for g, v in y) or any(bd(g) for g, v in y)
            if op in ('coll', 'iter') and (not y or isinstance(y[0], tuple)): return any(goarg(q) or go(v) or bd(g) for q, g, v in y)
            return any(goarg(z) for z in y)
        if isinstance(y, int) and not isinstance(y, bool) and (op == 'b' or (op in ('cnt', 'sum', 'first') and i == 1)): return bd(y)
        return False
    return goarg(t)

def _qcover(s, qs):
    for q in qs:
        while True:
            if q is s: return True
            if q.op in ('take', 'skip', 'rev', 'sorted', 'uniq', 'prefix', 'upto'): q = q.a[0]; continue
            if q.op == 'zip':
                if _qcover(s, (q.a[0],)) or _qcover(s, (q.a[1],)): return True
            break
    return False

_depc = {}
def atom_depends(i, qs):
    k = (i, qs)
    r = _depc.get(k)
    if r is None:
        a = atomkey(i)
        if a[0] == 'any':
            inner = tuple(q for q in qs if q not in a[1])
            r = depends(a[1], qs) or bool(inner) and any(atom_depends(v, inner) for v, _ in a[2])
        else: r = depends(a, qs)
        _depc[k] = r
    return r

def any_(qs, f):
    """exists an element of the sources with condition f"""
    if f == 0: return FALSE
    if not qs: return f
    if f == 1: return nonempty(qs)
    for q in qs:
        if q.op == 'src' and q.a[0].op == 'coll' and not q.a[0].a[1]: return FALSE
    r = FALSE
    for cube in B.isop(f):
        dep = [(v, b) for v, b in cube if atom_depends(v, qs)]
        ind = [(v, b) for v, b in cube if not atom_depends(v, qs)]
        x = B.all(B.v(v) if b else NOT(B.v(v)) for v, b in ind)
        if dep: x = AND(x, atom('any', qs, tuple(sorted(dep))))
        else: x = AND(x, nonempty(qs))
        r = OR(r, x)
    return r

def count(parts):
    r = ZERO
    for q, g, v in parts:
        if not q:
            r = add(r, phi([(g, ONE), (NOT(g), ZERO)]))
        elif len(q) == 1 and g == TRUE and q[0].op == 'src':
            r = add(r, mk('len', q[0].a[0]))
        else:
            r = add(r, mk('cnt', q, g))
    return r

LISTS = {}
SHAPES = []
def shape_of(parts):
    x = tuple((q, g) for q, g, _ in parts)
    if x not in SHAPES: SHAPES.append(x)
    return SHAPES.index(x)
def length(v):
    if v.op == 'phi': return phi([(g, length(x)) for g, x in v.a[0]])
    if v.op == 'coll':
        if v.a[0] in ('vec', 'str'):
            r = count(v.a[1])
            if r.op != 'i': LISTS.setdefault(r, v)
            return r
        if not v.a[1]: return ZERO
        return mk('setlen', v)
    if v.op == 's': return I(len(v.a[0]))
    r = mk('len', v); LISTS.setdefault(r, v)
    return r
def positions(n):
    """parts of 0..n where n is the length of a known list (each position knows its element), or None"""
    v = LISTS.get(n)
    if v is None: return None
    ps = parts_of(v); k = shape_of(ps)
    return tuple((q, g, mk('pos', k, i, n, mk('tup', *[elem(s) for s in q]))) for i, (q, g, _) in enumerate(ps))
def at_position(v, p):
    ps = parts_of(v)
    if shape_of(ps) != p.a[0]: return None
    q, g, x = ps[p.a[1]]
    m = {elem(s): e for s, e in zip(q, p.a[3].a) if elem(s) is not e}
    m.update({mk('rkey', s): mk('rkey', e.a[0]) for s, e in zip(q, p.a[3].a) if elem(s) is not e and e.op == 'elem'})
    return subst(x, m) if m else x

def sum_(parts):
    r = ZERO
    for q, g, v in parts:
        gv = phi([(g, v), (NOT(g), ZERO)])
        if not q: r = add(r, gv)
        else: r = add(r, mksum(q, gv))
    return r
def _sum(q, g, t):
    if t.op == 'sum' and len(t.a) == 3: return mk('sum', q + t.a[0], AND(g, t.a[1]), t.a[2])
    return mk('sum', q, g, t)
def mksum(q, gv):
    if gv is ZERO: return ZERO
    # linear: constants and terms are split so sum(a+b)=sum(a)+sum(b)
    def one(x):
        k, d = lin(x)
        r = ZERO
        if k: r = add(r, mul(I(k), count(((q, TRUE, x),))))
        for t, c in d.items(): r = _add(r, _sum(q, TRUE, t), c)
        return r
    if gv.op != 'phi': return one(gv)
    r = ZERO
    for g, x in gv.a[0]:
        if x is ZERO: continue
        k, d = lin(x)
        if k: r = _add(r, mk('cnt', q, g), k)
        for t, c in d.items(): r = _add(r, _sum(q, g, t), c)
    return r

# ---------------------------------------------------------------- substitution
def subst(x, m, memo=None):
    """replace terms (identity map m) everywhere, guards included"""
    if memo is None: memo = {}
    bmemo = {}
    vm = {}
    def t(y):
        r = m.get(y)
        if r is not None: return r
        r = memo.get(y)
        if r is not None: return r
        r = rebuild(y, tuple(arg(z, y.op, i) for i, z in enumerate(y.a)))
        memo[y] = r
        return r
    def var(i):
        r = vm.get(i)
        if r is None:
            r = reatom(tuple(arg(z, None, 0) for z in atomkey(i)) if atomkey(i)[0] != 'any' else anykey(atomkey(i)))
            vm[i] = r
        return r
    def anykey(k):
        qs = tuple(t(q) for q in k[1])
        f = B.all(var(v) if b else NOT(var(v)) for v, b in k[2])
        return ('ANY', qs, f)
    def bd(n): return B.subst(n, var, bmemo)
    def arg(z, op, i):
        if isinstance(z, T): return t(z)
        if isinstance(z, bool): return z
        if op == 'b': return bd(z)
        if isinstance(z, tuple):
            if op in ('phi',): return tuple((bd(g), t(v)) for g, v in z)
            if op in ('coll', 'iter') : return tuple((tuple(t(s) for s in q), bd(g), t(v)) for q, g, v in z)
            if op == 'lin': return tuple((t(a), c) for a, c in z)
            return tuple(arg(w, None, 0) for w in z)
        if op in ('cnt', 'sum', 'first') and i == 1: return bd(z)
        return z
    if isinstance(x, int): return bd(x)
    return t(x)

def reatom(k):
    if k[0] == 'ANY': return any_(k[1], k[2])
    if k[0] == 'eq': return eq(k[1], k[2])
    if k[0] == 'lt':
        return _relt(k[1], k[2])
    if k[0] == 'tt': return truth(k[1])
    if k[0] == 'is':
        v = k[1]
        if v.op in ('adt', 'phi', 'undef'):
            return B.any(AND(g, TRUE if (x.op == 'adt' and x.a[1] == k[2]) else (atom('is', x, k[2]) if x.op != 'adt' else FALSE)) for g, x in alts(v))
        return atom(*k)
    if k[0] in ('qok', 'has'): return dista(*k)
    return atom(*k)
def _relt(a, b):
    # the 'lt' atom is only meaningful together with not-eq; lt(a,b) is a valid reading
    return lt(a, b)

def rebuild(y, a):
    if a == y.a: return y
    op = y.op
    if op == 'phi': return phi(list(a[0]))
    if op == 'b': return bl(a[0])
    if op == 'f': return getf(a[0], a[1])
    if op == 'vf': return getvf(a[0], a[1], a[2])
    if op == 'lin':
        r = I(a[0])
        for t_, c in a[1]: r = add(r, mul(I(c), t_))
        return r
    if op == 'mul': return mul(a[0], a[1])
    if op == 'adt': return adt(*a)
    if op == 'coll': return coll(a[0], a[1])
    if op == 'len': return length(a[0])
    if op in ('query', 'load'): return dist(op, *a)
    return mk(op, *a)

# ---------------------------------------------------------------- printing
def pp(t, d=0):
    if isinstance(t, int): return str(t)
    if not isinstance(t, T): return repr(t)
    if d > 9: return '…'
    n = d + 1
    o, a = t.op, t.a
    if o == 'p': return a[0]
    if o == 'f': return pp(a[0], n) + '.' + a[1]
    if o == 'vf': return pp(a[0], n) + '.' + a[1] + ('' if a[2] == '0' else '.' + a[2])
    if o == 'i': return str(a[0])
    if o == 's': return repr(a[0])
    if o == 'b': return '[' + gp(a[0], n) + ']'
    if o == 'dec': return 'dec(%s)' % a[0]
    if o == 'adt':
        nm = a[0].split('::')[-1]
        if a[1] != nm: nm = nm + '::' + str(a[1]) if nm not in ('Option', 'Result') else str(a[1])
        if not a[2]: return nm
        if a[2] == ('0',): return nm + '(' + pp(a[3][0], n) + ')'
        return nm + '{' + ', '.join('%s: %s' % (x, pp(y, n)) for x, y in zip(a[2], a[3])) + '}'
    if o == 'tup': return '(' + ', '.join(pp(x, n) for x in a) + ')'
    if o == 'phi': return '⟨' + ' | '.join(gp(g, n) + ' → ' + pp(v, n) for g, v in a[0]) + '⟩'
    if o == 'lin':
        s = [('%s*' % c if c != 1 else '') + pp(x, n) for x, c in a[1]]
        if a[0]: s.append(str(a[0]))
        return '(' + ' + '.join(s) + ')'
    if o in ('coll', 'iter'):
        pr = a[1] if o == 'coll' else a[0]
        return o + '[' + '; '.join(('∀%s ' % ','.join(pp(s, n) for s in q) if q else '') + ('' if g == 1 else gp(g, n) + ' ⇒ ') + pp(v, n) for q, g, v in pr) + ']'
    if o == 'load':
        return 'load(%s%s)' % (a[0], ''.join(', ' + (pp(x, n) if isinstance(x, T) else str(x)) for x in a[1:] if x is not None))
    if o == 'clo': return 'clo(%s)' % a[0].split('::')[-2]
    if o in ('cnt', 'sum'):
        return '%s(∀%s %s%s)' % (o, ','.join(pp(s, n) for s in a[0]), '' if a[1] == 1 else gp(a[1], n) + ' ⇒ ', '' if o == 'cnt' else pp(a[2], n))
    return o + '(' + ', '.join(pp(x, n) if isinstance(x, T) else ('(' + ','.join(pp(y, n) for y in x) + ')' if isinstance(x, tuple) else str(x)) for x in a) + ')'

def ap(i, d=0):
    k = atomkey(i)
    if k[0] == 'eq': return '%s == %s' % (pp(k[1], d), pp(k[2], d))
    if k[0] == 'lt': return '%s < %s' % (pp(k[1], d), pp(k[2], d))
    if k[0] == 'is': return '%s is %s' % (pp(k[1], d), k[2])
    if k[0] == 'any': return 'any(%s: %s)' % (','.join(pp(q, d) for q in k[1]), ' & '.join(('' if b else '!') + '(' + ap(v, d + 1) + ')' for v, b in k[2]))
    return k[0] + '(' + ', '.join(pp(x, d) if isinstance(x, T) else str(x) for x in k[1:]) + ')'

def gp(g, d=0, maxc=6):
    if g == 1: return 'true'
    if g == 0: return 'false'
    cs = B.isop(g)
    ncs = B.isop(NOT(g))
    def cube(c): return ' & '.join(('' if b else '!') + '(' + ap(v, d + 1) + ')' for v, b in c)
    if len(ncs) < len(cs):
        return 'NOT{' + ' || '.join(cube(c) for c in ncs[:maxc]) + (' || …%d' % len(ncs) if len(ncs) > maxc else '') + '}'
    return ' || '.join(cube(c) for c in cs[:maxc]) + (' || …%d' % len(cs) if len(cs) > maxc else '')
