"""Guard-labelled dataflow interpreter over the dumped MIR (no execution of the program:
every entry is analysed once, path conditions are BDDs, states are merged at joins)."""
import json, os, glob, re, itertools
from terms import *
import terms as TM

class Unsupported(Exception): pass

# ------------------------------------------------------------------ program
class Body:
    __slots__ = ('id', 'n', 'argc', 'locals', 'blocks', 'loc', 'k', 'p', 'g', 'succ', 'rpo', 'loops', 'rpoidx', 'live', 'lty', 'addr')

def strip_generics(n):
    out = []; d = 0
    i = 0
    while i < len(n):
        c = n[i]
        if c == '<':
            d += 1
        elif c == '>' and n[i-1] != '-':
            d -= 1
        elif d == 0: out.append(c)
        i += 1
    return re.sub(r'(::)+', '::', ''.join(out)).strip(':')

_ks = {}
def short(n):
    r = _ks.get(n)
    if r is None:
        s = strip_generics(n).split('::')
        r = '::'.join(s[-2:])
        _ks[n] = r
    return r

class Program:
    def __init__(self, mirdir):
        self.fn = {}; self.prom = {}; self.const = {}
        self.impls = {}; self.froms = {}
        self.files = 0
        for f in sorted(glob.glob(os.path.join(mirdir, '*.jsonl'))):
            self.files += 1
            for l in open(f):
                r = json.loads(l)
                if r['k'] == 'adt':
                    ADTS[r['id']] = {'enum': r['enum'], 'v': [(v['n'], v['d'], v['f']) for v in r['v']]}
                    continue
                b = Body()
                b.id = r['id']; b.n = r['n']; b.argc = r['argc']; b.locals = r['locals']; b.blocks = r['blocks']; b.loc = r['l']; b.k = r['k']; b.p = r['p']; b.g = r.get('g') or []
                b.succ = None
                if r['k'] == 'promoted': self.prom[(b.id, b.p)] = b
                elif r['k'] == 'const': self.const[b.id] = b
                else:
                    self.fn[b.id] = b
                    m = re.search(r'<impl (?:\w+::)*From<(.*)> for (.*)>::from$', b.n) or re.search(r'<(?P<t>.*) as (?:\w+::)*From<(?P<x>.*)>>::from$', b.n)
                    if m: self.froms[(m.group('x'), m.group('t')) if 'x' in m.groupdict() else (m.group(1), m.group(2))] = b
                    m = re.search(r'<(.*) as (.*)>::(\w+)$', b.n)
                    if m:
                        self.impls.setdefault((strip_generics(m.group(2)).split('::')[-1], m.group(3)), []).append((m.group(1), b))

    def prep(self, b):
        if b.succ is not None: return
        n = len(b.blocks)
        succ = []
        for bl_ in b.blocks:
            if bl_ is None: succ.append(()); continue
            t = bl_['t']
            if t[0] == 'goto': s = [t[1]]
            elif t[0] == 'switch': s = [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
            elif t[0] == 'call': s = [t[4]] if t[4] is not None else []
            elif t[0] == 'assert': s = [t[3]]
            else: s = []
            succ.append(tuple(dict.fromkeys(x for x in s if b.blocks[x] is not None)))
        b.succ = succ
        # rpo
        seen = set(); order = []
        st = [(0, iter(succ[0]))]; seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y); st.append((y, iter(succ[y]))); break
            else:
                order.append(x); st.pop()
        order.reverse()
        b.rpo = order
        b.rpoidx = {x: i for i, x in enumerate(order)}
        # dominators (iterative)
        pred = {x: [] for x in order}
        for x in order:
            for y in succ[x]: pred[y].append(x)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for x in order[1:]:
                nd = None
                for p in pred[x]:
                    if p in idom:
                        if nd is None: nd = p
                        else:
                            a, c = p, nd
                            while a != c:
                                while b.rpoidx[a] > b.rpoidx[c]: a = idom[a]
                                while b.rpoidx[c] > b.rpoidx[a]: c = idom[c]
                            nd = a
                if idom.get(x) != nd: idom[x] = nd; ch = True
        def dom(a, x):
            while True:
                if a == x: return True
                if x == 0: return False
                x = idom[x]
        loops = {}
        for x in order:
            for y in succ[x]:
                if dom(y, x):
                    body = loops.setdefault(y, {y})
                    w = [x]
                    while w:
                        z = w.pop()
                        if z in body: continue
                        body.add(z)
                        w += pred[z]
        # a block of a loop that can leave it but is only on error paths stays outside: natural loop is enough
        b.loops = loops
        # liveness
        use = []; defs = []; addr = set()
        def op_use(o, u, d):
            if o[0] in 'cm': pl_use(o[1], u, d)
        def pl_use(p, u, d):
            if p[0] not in d: u.add(p[0])
            for q in p[1:]:
                if q[0] == 'i' and q[1] not in d: u.add(q[1])
        for bb in b.blocks:
            u = set(); d = set()
            if bb:
                for pl, rv in bb['s']:
                    k = rv[0]
                    if k in ('use', 'rep'): op_use(rv[1], u, d)
                    elif k == 'ref':
                        pl_use(rv[1], u, d)
                        if rv[2] and (len(rv[1]) == 1 or all(q != '*' for q in rv[1][1:])): addr.add(rv[1][0])
                    elif k == 'bin': op_use(rv[2], u, d); op_use(rv[3], u, d)
                    elif k == 'un': op_use(rv[2], u, d)
                    elif k == 'cast': op_use(rv[2], u, d)
                    elif k == 'disc': pl_use(rv[1], u, d)
                    elif k == 'agg':
                        for o in rv[2]: op_use(o, u, d)
                    if len(pl) == 1: d.add(pl[0])
                    else: pl_use(pl, u, d)
                t = bb['t']
                if t[0] == 'switch': op_use(t[1], u, d)
                elif t[0] == 'assert': op_use(t[1], u, d)
                elif t[0] == 'call':
                    op_use(t[1], u, d)
                    for o in t[2]: op_use(o, u, d)
                    if len(t[3]) == 1: d.add(t[3][0])
                    else: pl_use(t[3], u, d)
                elif t[0] == 'ret':
                    if 0 not in d: u.add(0)
            use.append(u); defs.append(d)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for x in reversed(order):
                o = set()
                for y in succ[x]: o |= live[y]
                nw = use[x] | (o - defs[x])
                if nw != live[x]: live[x] = nw; ch = True
        b.live = live; b.addr = addr

# ------------------------------------------------------------------ state
class Entry:
    __slots__ = ('ns', 'key', 'kind', 'val', 'guard', 'quants', 'loc', 'syn', 'aux')
    def __init__(s, ns, key, kind, val, guard, quants, loc, syn=False, aux=None):
        s.ns = ns; s.key = key; s.kind = kind; s.val = val; s.guard = guard; s.quants = quants; s.loc = loc; s.syn = syn; s.aux = aux
    def __repr__(s):
        return '%s %s%s%s := %s  IF %s' % (s.kind, s.ns, '' if s.key is None else '[%s]' % pp(s.key), ' ∀' + ','.join(map(pp, s.quants)) if s.quants else '', pp(s.val) if s.val else '', gp(s.guard))

class State:
    __slots__ = ('pc', 'frames', 'owned', 'log', 'quants')
    def fork(self, pc=None):
        s = State()
        s.pc = self.pc if pc is None else pc
        s.frames = dict(self.frames)
        s.owned = set(); self.owned = set()
        s.log = self.log
        s.quants = self.quants
        return s
    def get(self, fid, l):
        return self.frames[fid].get(l)
    def set(self, fid, l, v):
        if fid not in self.owned:
            self.frames[fid] = dict(self.frames[fid]); self.owned.add(fid)
        self.frames[fid][l] = v

def merge_states(sts, live=None):
    """live: (fid, set) restricts the cells of the current frame that are merged"""
    sts = [s for s in sts if s.pc]
    if not sts: return None
    if len(sts) == 1: return sts[0]
    r = State()
    r.pc = B.any(s.pc for s in sts)
    r.quants = sts[0].quants
    r.owned = set()
    r.frames = {}
    for fid in sts[0].frames:
        ds = [s.frames.get(fid) for s in sts]
        if any(d is None for d in ds): continue
        if all(d is ds[0] for d in ds): r.frames[fid] = ds[0]; continue
        keys = dict.fromkeys(k for d in ds for k in d)
        nd = {}
        for k in keys:
            if live and live[0] == fid and k not in live[1]: continue
            vs = [d.get(k) for d in ds]
            v0 = vs[0]
            if all(v is v0 for v in vs): nd[k] = v0
            else:
                al = [(s.pc, v) for s, v in zip(sts, vs) if v is not None]
                nd[k] = phi(al)
        r.frames[fid] = nd; r.owned.add(fid)
    logs = [s.log for s in sts]
    n = 0
    m = min(len(l) for l in logs)
    l0 = logs[0]
    while n < m and all(l[n] is l0[n] for l in logs): n += 1
    log = list(l0[:n])
    for l in logs: log += l[n:]
    r.log = tuple(log)
    return r

RET = 'ret'

class Frame:
    __slots__ = ('fid', 'body')

# ------------------------------------------------------------------ interpreter
class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.nf = itertools.count(1)
        self.unknown = {}; self.nstypes = {}; self.attrs = []
        self.depth = 0; self.genv = [{}]
        self.stack = []
        self.constcache = {}
        self.visited = set()
        self.callsites = 0
        self.fnptrs = {}
        self.loc = ''
        self.panics = 0
        import lib
        self.lib = lib
        self.qdepth = 0

    # -------------------------------------------------- types
    def adt_of_ty(self, ty):
        if ty is None: return None
        while True:
            if ty.startswith('&'):
                ty = re.sub(r"^&('\w+ )?(mut )?", '', ty); continue
            if ty.startswith('alloc::boxed::Box<'):
                ty = ty[len('alloc::boxed::Box<'):-1]; continue
            break
        k = ty.split('<')[0]
        return k if k in ADTS else None

    def place_adt(self, body, place):
        """ADT id of the type at place (best effort)"""
        ty = body.locals[place[0]][0]
        aid = self.adt_of_ty(ty)
        var = None
        for p in place[1:]:
            if p == '*': continue
            if p[0] == 'd': var = p[1]; aid = p[2]; continue
            if p[0] == 'f':
                if aid is None: return None
                vs = ADTS[aid]['v']
                fs = None
                for n, d, f in vs:
                    if var is None or n == var: fs = f; break
                var = None
                t = None
                for fn, ft in fs or ():
                    if fn == p[1]: t = ft
                aid = self.adt_of_ty(t)
            else: return None
        return aid

    # -------------------------------------------------- places
    def project(self, st, v, projs):
        var = None
        for p in projs:
            if p == '*': v = self.deref(st, v); continue
            k = p[0]
            if k == 'f':
                if v.op == 'ptr': v = self.deref(st, v)
                if var is not None: v = getvf(v, var, p[1]); var = None
                else: v = getf(v, p[1])
            elif k == 'd':
                if v.op == 'ptr': v = self.deref(st, v)
                var = p[1]
            elif k == 'i': v = self.lib.index(v, st.get(self.cur, p[1]))
            elif k == 'idx': v = self.lib.index(v, p[1])
            elif k == 'ci': v = self.lib.index(v, I(p[1]))
            elif k == 'key': v = self.lib.map_get_val(v, p[1])
            elif k == 'o' or k == 'sub': pass
        return v

    def deref(self, st, v):
        if v is None: return mk('undef')
        if v.op == 'ptr':
            fid, l, pj = v.a
            if fid not in st.frames: return mk('undef')
            base = st.get(fid, l)
            if base is None: return mk('undef')
            r = self.project(st, base, pj)
            return r
        if v.op == 'phi' and any(x.op == 'ptr' for _, x in v.a[0]):
            return phi([(g, self.deref(st, x)) for g, x in v.a[0]])
        return v

    def read(self, st, fr, place):
        v = st.get(fr.fid, place[0])
        if v is None: return mk('undef')
        self.cur = fr.fid
        return self.project(st, v, place[1:])

    def full(self, st, v):
        """value behind a possibly-pointer value"""
        while v.op == 'ptr' or (v.op == 'phi' and any(x.op == 'ptr' for _, x in v.a[0])):
            v = self.deref(st, v)
        return v

    def lval(self, st, fr, place):
        """-> list of (guard, fid, local, projs)"""
        cur = [(TRUE, fr.fid, place[0], ())]
        for p in place[1:]:
            nxt = []
            for g, f, l, pj in cur:
                if p == '*':
                    base = st.get(f, l)
                    v = mk('undef') if base is None else self.project(st, base, pj)
                    if v.op == 'phi' and any(x.op == 'ptr' for _, x in v.a[0]):
                        for g2, x in v.a[0]:
                            if x.op == 'ptr': nxt.append((AND(g, g2),) + x.a)
                            else: nxt.append((AND(g, g2), f, l, pj))
                    elif v.op == 'ptr': nxt.append((g,) + v.a)
                    else: nxt.append((g, f, l, pj))
                elif p[0] == 'i':
                    nxt.append((g, f, l, pj + (('idx', st.get(fr.fid, p[1])),)))
                else:
                    nxt.append((g, f, l, pj + (tuple(p) if not isinstance(p, str) else p,)))
            cur = nxt
        return [c for c in cur if AND(st.pc, c[0])]

    def put(self, st, v, projs, x, aid=None):
        if not projs or v.op == 'uninit': return x
        p = projs[0]
        if p == '*':
            return self.put(st, v, projs[1:], x, aid)
        if p[0] == 'd':
            q = projs[1]
            var, a = p[1], p[2]
            old = getvf(v, var, q[1])
            return setvf(v, var, q[1], self.put(st, old, projs[2:], x, self.fty(a, var, q[1])), a)
        if p[0] == 'f':
            old = getf(v, p[1])
            if v.op == 'adt': aid = v.a[0]
            return setf(v, p[1], self.put(st, old, projs[1:], x, self.fty(aid, None, p[1])), aid)
        if p[0] == 'key':
            old = self.lib.map_get_val(v, p[1])
            return self.lib.map_set(v, p[1], self.put(st, old, projs[1:], x, None))
        if p[0] in ('idx', 'ci'):
            ix = p[1] if p[0] == 'idx' else I(p[1])
            old = self.lib.index(v, ix)
            return self.lib.set_index(v, ix, self.put(st, old, projs[1:], x, None))
        return x

    def fty(self, aid, var, f):
        if aid is None or aid not in ADTS: return None
        for n, d, fs in ADTS[aid]['v']:
            if var is None or n == var:
                for fn, ft in fs:
                    if fn == f:
                        r = self.adt_of_ty(ft)
                        if r is None and not ft.startswith(('core::', 'alloc::', 'std::', '&', '(')):
                            # paths of the defining crate are printed without its name
                            k = aid.split('::')[0] + '::' + ft.split('<')[0]
                            if k in ADTS: r = k
                        return r
        return None

    def store_at(self, st, targets, x):
        for g, f, l, pj in targets:
            if f not in st.frames: continue
            base = st.get(f, l)
            if base is None: base = mk('undef')
            aid = None
            if pj:
                b = self.framebody.get(f)
                if b is not None and isinstance(l, int) and l < len(b.locals): aid = self.adt_of_ty(b.locals[l][0])
            nv = self.put(st, base, pj, x, aid)
            g = B.restrict(g, st.pc)
            if g != TRUE and len(targets) > 1 or (g != TRUE):
                nv = phi([(AND(st.pc, g), nv), (AND(st.pc, NOT(g)), base)])
            st.set(f, l, nv)

    def write(self, st, fr, place, x):
        if len(place) == 1:
            st.set(fr.fid, place[0], x); return
        self.store_at(st, self.lval(st, fr, place), x)

    def ptr_write(self, st, p, x):
        """write through a &mut value"""
        if p.op == 'ptr': self.store_at(st, [(TRUE,) + p.a], x)
        elif p.op == 'phi':
            self.store_at(st, [(g,) + q.a for g, q in p.a[0] if q.op == 'ptr'], x)

    # -------------------------------------------------- operands
    def operand(self, st, fr, o):
        if o[0] == 'k': return self.constv(st, o[1], fr)
        v = self.read(st, fr, o[1])
        return v

    def constv(self, st, c, fr=None):
        if 'fn' in c:
            F = c['fn']
            t = mk('fnp', F['id'], F['n'])
            self.fnptrs[t] = F
            return t
        if 'int' in c:
            if c['ty'] == 'bool': return BT if c['int'] != '0' else BF
            return I(int(c['int']))
        if 'str' in c: return S(c['str'])
        if 'zst' in c:
            z = c['zst']
            if z == '()': return UNIT
            m = self.adt_of_ty(z)
            if m and len(ADTS[m]['v']) == 1: return adt(m, ADTS[m]['v'][0][0], (), ())
            return mk('zst', z)
        if 'uneval' in c and c['uneval'].endswith('::{constant#0}'):
            pre, _, vn = c['uneval'][:-len('::{constant#0}')].rpartition('::')
            if pre in ADTS and ADTS[pre]['enum']:
                for n, dd, fs in ADTS[pre]['v']:
                    if n == vn: return I(int(dd))
        if 'uneval' in c:
            k = (c['uneval'], c['p'])
            r = self.constcache.get(k)
            if r is None:
                b = self.prog.prom.get((c['uneval'], c['p'])) if c['p'] is not None else self.prog.const.get(c['uneval'])
                if b is None:
                    r = self.lib.known_const(c)
                else:
                    s = State(); s.pc = TRUE; s.frames = {}; s.owned = set(); s.log = (); s.quants = ()
                    s2, r = self.call_body(s, b, [])
                self.constcache[k] = r
            return r
        if 'bytes' in c: return mk('bytes', str(c['bytes']))
        if 'opaque' in c:
            return mk('k', c['opaque'], c.get('ty', ''))
        return mk('k', json.dumps(c))

    # -------------------------------------------------- rvalues
    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k == 'ref':
            if rv[2]:
                tg = self.lval(st, fr, rv[1])
                if not tg: return mk('undef')
                if len(tg) == 1: return mk('ptr', *tg[0][1:])
                return phi([(g, mk('ptr', f, l, pj)) for g, f, l, pj in tg])
            v = self.read(st, fr, rv[1])
            return v
        if k == 'disc':
            v = self.full(st, self.read(st, fr, rv[1]))
            return lift(v, lambda x: self.disc_of(x, rv[2]))
        if k == 'agg':
            kd = rv[1]
            ops = [self.operand(st, fr, o) for o in rv[2]]
            if kd[0] == 'adt':
                if kd[1] == RESULT and kd[2] == 'Err': return ERRV
                return adt(kd[1], kd[2], kd[3], ops)
            if kd[0] == 'tuple': return mk('tup', *ops)
            if kd[0] == 'array': return coll('vec', [((), TRUE, o) for o in ops])
            if kd[0] == 'closure': return mk('clo', kd[1], tuple(ops))
            return mk('call', 'agg', *ops)
        if k == 'cast':
            o = rv[2]
            if rv[1] == 'BoxDerefTransmute' and o[0] in 'cm' and len(o[1]) >= 2 and o[1][-1][0] == 'f':
                # raw pointer into a Box: the Box cell itself stands for its contents
                tg = self.lval(st, fr, o[1][:-1])
                if len(tg) == 1: return mk('ptr', *tg[0][1:])
            v = self.operand(st, fr, o)
            return v
        if k == 'bin':
            a = self.full(st, self.operand(st, fr, rv[2])); b = self.full(st, self.operand(st, fr, rv[3]))
            return self.binop(st, rv[1], a, b)
        if k == 'un':
            a = self.full(st, self.operand(st, fr, rv[2]))
            if rv[1] == 'Not': return bl(NOT(truth(a)))
            if rv[1] == 'Neg': return sub(ZERO, a)
            if rv[1] == 'PtrMetadata': return length(a)
            return mk('call', rv[1], a)
        if k == 'rep': return mk('call', 'repeat', self.operand(st, fr, rv[1]))
        return mk('call', 'other', S(json.dumps(rv)[:80]))

    def binop(self, st, op, a, b):
        if op in ('Eq', 'Ne'):
            if a.op == 'disc' or b.op == 'disc':
                if a.op != 'disc': a, b = b, a
                g = self.disc_eq(a, b)
            else: g = eq(a, b)
            return bl(g if op == 'Eq' else NOT(g))
        if op == 'Lt': return bl(lt(a, b))
        if op == 'Gt': return bl(lt(b, a))
        if op == 'Le': return bl(NOT(lt(b, a)))
        if op == 'Ge': return bl(NOT(lt(a, b)))
        if op in ('Add', 'AddUnchecked'): return add(a, b)
        if op == 'AddWithOverflow': return mk('tup', add(a, b), BF)
        if op in ('Sub', 'SubUnchecked'): return sub(a, b)
        if op == 'SubWithOverflow': return mk('tup', sub(a, b), bl(lt(a, b)))
        if op in ('Mul', 'MulUnchecked'): return mul(a, b)
        if op == 'MulWithOverflow': return mk('tup', mul(a, b), BF)
        if op == 'Div': return div(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and (a.op == 'b' or b.op == 'b'):
            x, y = truth(a), truth(b)
            return bl(AND(x, y) if op == 'BitAnd' else OR(x, y) if op == 'BitOr' else B.ite(x, NOT(y), y))
        return mk('bin', op, a, b)

    def disc_of(self, x, aid):
        if x.op == 'adt' and x.a[0] in ADTS:
            for n, dd, fs in ADTS[x.a[0]]['v']:
                if n == x.a[1]: return I(int(dd))
        return mk('disc', x, aid)
    def disc_eq(self, d, b):
        v, aid = d.a
        if b.op == 'i' and aid in ADTS:
            for n, dd, fs in ADTS[aid]['v']:
                if int(dd) == b.a[0]: return is_variant(v, aid, n)
            return FALSE
        if b.op == 'disc' and aid in ADTS:
            return B.any(AND(is_variant(v, aid, n), is_variant(b.a[0], aid, n)) for n, _, _ in ADTS[aid]['v'])
        return atom('eq', *sorted((d, b), key=lambda t: t.id))

    # -------------------------------------------------- bodies
    framebody = {}

    def call_body(self, st, body, args, caller_loc=''):
        if self.depth > 60:
            raise Unsupported('recursion depth at ' + body.id)
        if sum(1 for x in self.stack if x == body.id) > 2:
            raise Unsupported('recursion in ' + body.id)
        self.prog.prep(body)
        self.depth += 1
        self.stack.append(body.id)
        self.visited.add(body.id)
        fr = Frame(); fr.fid = next(self.nf); fr.body = body
        self.framebody[fr.fid] = body
        d = {}
        for i, a in enumerate(args): d[i + 1] = a
        st = st  # mutated in place
        st.frames = dict(st.frames)
        st.frames[fr.fid] = d; st.owned.add(fr.fid)
        exits, back = self.region(fr, None, 0, st)
        rets = exits.get(RET, [])
        out = merge_states(rets, (fr.fid, {0}))
        self.depth -= 1
        self.stack.pop()
        if out is None:
            st.pc = FALSE
            st.frames.pop(fr.fid, None)
            return st, mk('undef')
        v = out.frames[fr.fid].get(0)
        if v is None: v = UNIT
        out.frames = dict(out.frames)
        out.frames.pop(fr.fid)
        out.owned.discard(fr.fid)
        del self.framebody[fr.fid]
        return out, v

    def region(self, fr, blocks, entry, st):
        """run blocks (None = whole body) from entry; returns (exits{target:[states]}, back[states])"""
        body = fr.body
        pend = {entry: [st]}
        exits = {}
        back = []
        first = True
        for b in body.rpo:
            if blocks is not None and b not in blocks: continue
            lst = pend.pop(b, None)
            if not lst: continue
            s = merge_states(lst, (fr.fid, body.live[b] | body.addr)) if len(lst) > 1 else lst[0]
            if s is None or not s.pc: continue
            if b in body.loops and not (blocks is not None and b == entry):
                outs = self.loop(fr, b, s)
            else:
                outs = self.block(fr, b, s)
            for tgt, s2 in outs:
                if not s2.pc: continue
                if tgt == RET: exits.setdefault(RET, []).append(s2)
                elif blocks is not None and tgt == entry: back.append(s2)
                elif blocks is not None and tgt not in blocks: exits.setdefault(tgt, []).append(s2)
                else: pend.setdefault(tgt, []).append(s2)
        return exits, back

    def block(self, fr, bi, st):
        bb = fr.body.blocks[bi]
        self.loc = bb['l']
        for pl, rv in bb['s']:
            v = self.rvalue(st, fr, rv)
            if len(pl) == 1: st.set(fr.fid, pl[0], v)
            else: self.write(st, fr, pl, v)
        t = bb['t']
        k = t[0]
        if k == 'goto': return [(t[1], st)]
        if k == 'ret': return [(RET, st)]
        if k == 'unreach': return []
        if k == 'switch': return self.switch(fr, t, st)
        if k == 'assert':
            c = truth(self.operand(st, fr, t[1]))
            if not t[2]: c = NOT(c)
            st.pc = AND(st.pc, c)
            return [(t[3], st)]
        if k == 'call':
            self.callsites += 1
            f = t[1]
            args = [self.operand(st, fr, o) for o in t[2]]
            loc = bb['l']
            if f[0] == 'k' and 'fn' in f[1]:
                st2, v = self.call(st, f[1]['fn'], args, t[5] if len(t) > 5 else None, loc, t[6] if len(t) > 6 else None)
            else:
                fv = self.full(st, self.operand(st, fr, f))
                st2, v = self.call_value(st, fv, args)
            if t[4] is None or st2 is None or not st2.pc: return []
            if len(t[3]) == 1: st2.set(fr.fid, t[3][0], v)
            else: self.write(st2, fr, t[3], v)
            return [(t[4], st2)]
        raise Unsupported('terminator ' + k)

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t[1])
        v = self.full(st, v)
        outs = []
        rem = TRUE
        for val, tgt in t[2]:
            n = int(val)
            if v.op == 'disc': g = self.disc_eq(v, I(n))
            elif t[4] == 'bool' or v.op == 'b':
                g = truth(v)
                if n == 0: g = NOT(g)
            elif v.op == 'phi' and any(x.op == 'disc' for _, x in v.a[0]):
                g = B.any(AND(gg, self.disc_eq(x, I(n)) if x.op == 'disc' else eq(x, I(n))) for gg, x in v.a[0])
            else: g = eq(v, I(n))
            g = AND(g, rem)
            outs.append((tgt, g))
            rem = AND(rem, NOT(g))
        if t[3] is not None: outs.append((t[3], rem))
        res = []
        for tgt, g in outs:
            if fr.body.blocks[tgt] is None: continue
            if fr.body.blocks[tgt]['t'][0] == 'unreach' and not fr.body.blocks[tgt]['s']: continue
            p = AND(st.pc, g)
            if p: res.append((tgt, p))
        if len(res) == 1:
            st.pc = res[0][1]
            return [(res[0][0], st)]
        return [(tgt, st.fork(p)) for tgt, p in res]

    # -------------------------------------------------- calls
    def call(self, st, F, args, dty, loc, argtys=None):
        fid = F['id']
        b = self.prog.fn.get(fid)
        if b is not None and F['n'].rsplit('::', 1)[-1] in ('call', 'call_mut', 'call_once') and F['n'].startswith('core::ops::function::'):
            a = self.full(st, args[1])
            return self.call_body(st, b, ([self.full(st, args[0])] if '{closure' in fid else []) + (list(a.a) if a.op == 'tup' else [getf(a, '0')]))
        if b is not None and not F.get('der'):
            return self.call_generic(st, b, args, F.get('ra') or F.get('a') or [])
        if not F.get('res') and len(self.genv) > 1:
            # a method of a type parameter: use what the parameter stands for here
            e = self.genv[-1]; a = F.get('a') or []
            if a and a[0] in e:
                k = strip_generics(F['n']).split('::')
                if k[-1] == 'into' and len(a) > 1:
                    t = self.prog.froms.get((e[a[0]], e.get(a[1], a[1])))
                    if t is not None: return self.call_body(st, t, args)
                elif len(k) > 1:
                    for ty, t in self.prog.impls.get((k[-2], k[-1]), ()):
                        if ty == e[a[0]]: return self.call_body(st, t, args)
        self.loc = loc
        return self.lib.call(self, st, F, args, dty, argtys)

    def call_generic(self, st, b, args, tys):
        e = self.genv[-1]
        self.genv.append({n: e.get(t, t) for n, t in zip(b.g, tys)} if len(b.g) == len(tys) else {})
        try: return self.call_body(st, b, args)
        finally: self.genv.pop()

    def call_value(self, st, f, args):
        """call a closure / fn item value"""
        f = self.full(st, f)
        if f.op == 'phi':
            outs = []
            for g, x in f.a[0]:
                p = AND(st.pc, g)
                if not p: continue
                s2, v = self.call_value(st.fork(p), x, args)
                outs.append((s2, v))
            return self.join(outs)
        if f.op == 'clo':
            b = self.prog.fn.get(f.a[0])
            if b is None: raise Unsupported('closure ' + f.a[0])
            return self.call_body(st, b, [f] + list(args))
        if f.op == 'fnp':
            F = self.fnptrs[f]
            return self.call(st, F, list(args), None, self.loc)
        return st, mk('call', 'indirect', f, *args)

    def join(self, outs):
        """merge [(state, value)]"""
        outs = [(s, v) for s, v in outs if s.pc]
        if not outs:
            s = State(); s.pc = FALSE; s.frames = {}; s.owned = set(); s.log = (); s.quants = ()
            return s, mk('undef')
        if len(outs) == 1: return outs[0]
        v = phi([(s.pc, v) for s, v in outs])
        return merge_states([s for s, _ in outs]), v

    def case(self, st, v, aid, handlers):
        """handlers: variant -> fn(st, payload0) -> (st, value)"""
        outs = []
        fe = [(n, AND(st.pc, is_variant(v, aid, n))) for n in handlers]
        fe = [(n, p) for n, p in fe if p]
        for n, p in fe:
            s = st.fork(p) if len(fe) > 1 else st
            s.pc = p
            pay = getvf(v, n, '0')
            outs.append(handlers[n](s, pay))
        return self.join(outs)

    # -------------------------------------------------- storage
    def load(self, st, ns, key):
        """-> (present bdd, value)"""
        al = []; pres = FALSE; rem = TRUE
        tag = None
        for e in reversed(st.log):
            if e.ns != ns: continue
            if e.kind == 'epoch':
                tag = e.aux; break
            if e.kind == 'clear':
                rem = AND(rem, NOT(e.guard)); 
                if AND(st.pc, rem) == 0: break
                continue
            if e.quants[:len(st.quants)] == st.quants and len(e.quants) > len(st.quants) or (e.quants and e.quants != st.quants[:len(e.quants)]):
                # written in a finished loop: unknown relation to this key
                x = AND(st.pc, AND(rem, B.exists(e.guard, [i for i in B.support(e.guard) if atom_depends(i, e.quants)])))
                if x == 0: continue
                tag = ('after', e.quants[len(st.quants):])
                break
            if e.key is key: al_g = TRUE
            elif e.key is None or key is None: al_g = TRUE if e.key is key else FALSE
            else: al_g = eq(e.key, key)
            g = AND(AND(rem, e.guard), al_g)
            if AND(st.pc, g) == 0: continue
            if e.kind == 'save':
                al.append((g, e.val)); pres = OR(pres, g)
            rem = AND(rem, NOT(AND(e.guard, al_g)))
            if AND(st.pc, rem) == 0: break
        if AND(st.pc, rem):
            if tag is None:
                h = dista('has', ns, key); base = dist('load', ns, key)
            else:
                h = dista('has', ns, key, tag); base = dist('load', ns, key, tag)
            al.append((AND(rem, h), base))
            pres = OR(pres, AND(rem, h))
        pres = B.restrict(pres, st.pc)
        val = phi([(AND(st.pc, g), v) for g, v in al]) if al else mk('undef')
        return pres, val

    def save(self, st, ns, key, val, kind='save', aux=None):
        st.log = st.log + (Entry(ns, key, kind, val, st.pc, st.quants, (self.stack[-1] if self.stack else '', self.loc), False, aux),)

    # -------------------------------------------------- loops
    def iter_cell(self, fr, header, blocks):
        """find the loop-carried iterator local driving the loop: first call reached from the header"""
        b = header
        refs = {}
        for _ in range(6):
            bb = fr.body.blocks[b]
            for pl, rv in bb['s']:
                if rv[0] == 'ref' and rv[2] and len(pl) == 1:
                    p = rv[1]
                    refs[pl[0]] = refs[p[0]] if len(p) == 2 and p[1] == '*' and p[0] in refs else p
                if rv[0] == 'use' and len(pl) == 1 and rv[1][0] in 'cm' and len(rv[1][1]) == 1 and rv[1][1][0] in refs: refs[pl[0]] = refs[rv[1][1][0]]
            t = bb['t']
            if t[0] == 'call':
                f = t[1]
                if f[0] == 'k' and 'fn' in f[1] and f[1]['fn']['n'].endswith('Iterator::next') and t[2][0][0] in 'cm':
                    p = t[2][0][1]
                    if len(p) == 1 and p[0] in refs: return refs[p[0]]
                    return p
                if f[0] == 'k' and 'fn' in f[1] and short(f[1]['fn']['n']) in ('Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back') and t[2][0][0] in 'cm':
                    p = t[2][0][1]
                    if len(p) == 1 and p[0] in refs:
                        c = refs[p[0]]
                        # nothing else in the loop adds to it or borrows it
                        n = sum(1 for x in blocks for pl, rv in fr.body.blocks[x]['s'] if pl[0] == c[0] or (rv[0] == 'ref' and rv[1][0] == c[0]))
                        if n == 1 and not any(fr.body.blocks[x]['t'][0] == 'call' and c[0] in [a[1][0] for a in fr.body.blocks[x]['t'][2] if a[0] in 'cm'] for x in blocks):
                            self.drained = 'front' if 'front' in f[1]['fn']['n'] else 'back'
                            return c
                return None
            if t[0] == 'goto' and t[1] in blocks: b = t[1]; continue
            return None
        return None

    def loop(self, fr, header, st):
        blocks = fr.body.loops[header]
        self.drained = None
        cell = self.iter_cell(fr, header, blocks)
        drained = self.drained
        one_of = (lambda ps: mk('coll', 'vec', ps)) if drained else (lambda ps: mk('iter', ps))
        allex = []
        def run_with(s, itv):
            if cell is not None: self.write(s, fr, cell, itv)
            ex, back = self.region(fr, blocks, header, s)
            el = [(t, x) for t, l in ex.items() for x in l]
            bk = merge_states(back, (fr.fid, fr.body.live[header] | fr.body.addr))
            return bk, el
        if cell is not None:
            v = self.full(st, self.read(st, fr, cell))
            parts = parts_of(v)
            if drained == 'back':
                from lib import reversed_parts
                parts = reversed_parts(parts)
            for q, g, val in parts:
                if st is None or not st.pc: break
                if q and self.shadow(st, q):
                    q, g, val = self.fresh_part(st, q, g, val)
                if not q:
                    p = AND(st.pc, g)
                    if not p: continue
                    skip = None
                    if AND(st.pc, NOT(g)):
                        skip = st.fork(AND(st.pc, NOT(g)))
                    s = st.fork(p) if skip else st
                    s.pc = p
                    bk, el = run_with(s, one_of((((), TRUE, val),)))
                    allex += el
                    cand = [x for x in (bk, skip) if x is not None]
                    if skip is not None and cell is not None and len(cell) == 1: skip.set(fr.fid, cell[0], one_of(()))
                    st = merge_states(cand, (fr.fid, fr.body.live[header] | fr.body.addr)) if cand else None
                else:
                    st, el = self.summarise(st, q, g, lambda s, _v=val: run_with(s, one_of((((), TRUE, _v),))), fr, skip_cell=cell)
                    allex += el
            if drained:
                # left early: what was not taken is still there
                for _, x in allex: self.write(x, fr, cell, mk('call', 'rest', v))
            if st is not None and st.pc:
                bk, el = run_with(st, one_of(()))
                allex += el
            return allex
        # not iterator driven: a counter that goes through the positions of a list?
        for l in sorted(fr.body.live[header]):
            if st.frames.get(fr.fid, {}).get(l) is not ZERO: continue
            n = self.counted(fr, header, blocks, st, l)
            if n is None: continue
            for q, g, val in positions(n):
                if st is None or not st.pc: break
                def one(s, v):
                    s.set(fr.fid, l, v)
                    return run_with(s, None)
                if q and self.shadow(st, q): q, g, val = self.fresh_part(st, q, g, val)
                st, el = self.summarise(st, q, g, lambda s, _v=val: one(s, _v), fr, skip_cell=(l,))
                allex += el
            if st is not None and st.pc:
                st.set(fr.fid, l, n)
                bk, el = run_with(st, None)
                allex += el
            return allex
        q = (mk('while', fr.body.id, fr.body.rpoidx[header]),)
        res = []
        st2, el = self.summarise(st, q, TRUE, lambda s: run_with(s, None), fr, generic=True)
        return el

    def counted(self, fr, header, blocks, st, l):
        """length of the list a counting loop goes through: it goes on only below the length and always advances by one"""
        x = mk('p', '#position')
        s = st.fork(st.pc); s.set(fr.fid, l, x)
        cs, loc = self.callsites, self.loc
        ex, back = self.region(fr, blocks, header, s)
        self.callsites, self.loc = cs, loc
        if not back: return None
        if any(b.frames[fr.fid].get(l) is not add(x, ONE) for b in back): return None
        pc = B.any(b.pc for b in back)
        for i in B.support(pc):
            k = atomkey(i)
            if k[0] not in ('lt', 'eq'): continue
            n = k[2] if k[1] is x else k[1] if k[2] is x else None
            if n is None: continue
            if LISTS.get(n) is not None and B.implies(pc, lt(x, n)) and all(q for q, _, _ in parts_of(LISTS[n])): return n
        return None
    def shadow(self, st, q): return any(s in st.quants for s in q)
    def fresh_part(self, st, q, g, val):
        m = {}
        nq = []
        for s in q:
            if s in st.quants:
                n = mk('again', s, st.quants.count(s))
                nq.append(n)
                m[elem(s, 0)] = elem(n, 0)
                m[mk('rkey', s)] = mk('rkey', n)
            else: nq.append(s)
        return tuple(nq), subst(g, m), subst(val, m)

    def summarise(self, st, q, guard, run, fr=None, skip_cell=None, generic=False):
        pc0 = st.pc
        ctx = AND(pc0, guard)
        if not generic: ctx = AND(ctx, nonempty(q))
        if ctx == 0: return st, []
        mark = len(st.log)
        def start():
            s = st.fork(ctx); s.quants = st.quants + q
            return s
        s1 = start()
        back, ex = run(s1)
        skipl = skip_cell[0] if skip_cell is not None and len(skip_cell) == 1 and fr else None
        def changed(bk):
            ch = []
            if bk is None: return ch
            for fid, d in st.frames.items():
                nd = bk.frames.get(fid)
                if nd is None or nd is d: continue
                for k, v in nd.items():
                    if k in d and d[k] is not v and not (fr and fid == fr.fid and k == skipl):
                        ch.append((fid, k))
            return ch
        def written(bk):
            items, maps = {}, []
            if bk is None: return items, maps
            for e in bk.log[mark:]:
                if e.syn: continue
                if e.kind == 'save' and e.key is None:
                    items[e.ns] = 1
                elif e.ns not in maps: maps.append(e.ns)
            items = [n for n in items if n not in maps]
            return items, maps
        ch = changed(back)
        items, maps = written(back)
        starts = {}
        istarts = {}
        if back is not None and (ch or items or maps):
            for it in range(3):
                s2 = start()
                for c in ch:
                    v0 = st.frames[c[0]][c[1]]; v1 = back.frames[c[0]][c[1]]
                    hv = self.havoc(q, v0, v1, ('c',) + c)
                    starts[c] = hv
                    s2.set(c[0], c[1], hv)
                for ns in items:
                    p0, v0 = self.load(st, ns, None)
                    p1, v1 = self.load(back, ns, None)
                    hv = self.havoc(q, v0, v1, ('s', ns))
                    istarts[ns] = hv
                    s2.log = s2.log + (Entry(ns, None, 'save', hv, TRUE, s2.quants, ('', ''), True),)
                for ns in maps:
                    s2.log = s2.log + (Entry(ns, None, 'epoch', None, TRUE, s2.quants, ('', ''), True, ('in', q)),)
                mark2 = len(s2.log)
                back2, ex2 = run(s2)
                ch2 = changed(back2)
                i2, m2 = written(back2) if back2 is not None else (items, maps)
                new = [c for c in ch2 if c not in ch] 
                if not new and not [x for x in i2 if x not in items] and not [x for x in m2 if x not in maps]:
                    break
                ch = ch + new
                for x in i2:
                    if x not in items: items.append(x)
                for x in m2:
                    if x not in maps: maps.append(x)
                maps = list(maps); items = [x for x in items if x not in maps]
                back = back2 if back2 is not None else back
            back, ex = back2, ex2
        else:
            mark2 = mark
        # name what earlier iterations put into loop-carried collections
        keep = []
        if back is not None and starts:
            em = {}
            for c in ch:
                if c in starts: self.inserted(q, st.frames[c[0]][c[1]], starts[c], back.frames[c[0]].get(c[1]), back.pc, ctx, em)
            for ns in items:
                if ns in istarts: self.inserted(q, None, istarts[ns], self.load(back, ns, None)[1], back.pc, ctx, em)
            if em:
                keep = [x for x in em.values()]
                self.rename(back, st, mark2, em)
                for _, x in ex: self.rename(x, st, mark2, em)
                for k in starts: starts[k] = subst(starts[k], em)
                for k in istarts: istarts[k] = subst(istarts[k], em)
        # what each further iteration starts with, for rules that follow a paging loop
        if back is not None and generic:
            for c in starts: self.stepped(starts[c], back.frames[c[0]].get(c[1]), back.pc, ctx)
        # leave condition
        if back is not None: cont = B.restrict(back.pc, ctx)
        else: cont = FALSE
        leave = AND(guard, NOT(cont))
        if generic:
            # loop leaves only through its exits; after-state is given by them
            # an effect inside the loop belongs to some iteration, the exit condition to the last one:
            # conditions the exit also mentions are dropped from the guards of the effects inside
            exv = frozenset().union(*[B.support(x.pc) for _, x in ex]) - B.support(pc0) if ex else frozenset()
            def weak(g): return B.exists(g, [i for i in B.support(g) if i in exv])
            newlog = ()
            if back is not None:
                newlog = tuple(Entry(e.ns, e.key, e.kind, e.val, weak(e.guard), e.quants, e.loc, e.syn, e.aux) for e in back.log[mark2:] if not e.syn)
            res = []
            fins = {}; pm = {}; km = {}
            if back is not None:
                for c in ch:
                    if c not in starts: continue
                    v2 = back.frames[c[0]].get(c[1])
                    if starts[c].op == 'coll' and v2 is not None and v2.op == 'coll' and any(kept_of(x) is not None for x in starts[c].a[1]): km.update(self.dropped(q, TRUE, starts[c], v2, back.pc, ctx))
                    fin = self.finalise(q, TRUE, st.frames[c[0]][c[1]], starts[c], back.frames[c[0]].get(c[1]), back.pc, ctx)
                    if fin.op == 'coll':
                        fin = coll(fin.a[0], tuple((qq, weak(g) if qq[:len(q)] == q else g, v) for qq, g, v in fin.a[1]))
                    fins[starts[c]] = fin
                    if starts[c].op == 'prev' and fin.op != 'rec': pm[starts[c]] = fin
            # what the exits say is about the last iteration, not about the ones whose effects were noted
            last = {q[0]: mk('last', q[0])}
            fins = {subst(k, last): v for k, v in fins.items()}; km = {subst(k, last): v for k, v in km.items()}
            for t, s in ex:
                self.rename(s, st, mark2, last)
                for c in ch:
                    d = s.frames.get(c[0])
                    if d is None or c[1] not in d: continue
                    v = d[c[1]]
                    if v in fins and fins[v].op != 'rec': s.set(c[0], c[1], fins[v])
                if km: self.rename(s, st, mark2, km)
                s.quants = st.quants
                s.log = st.log + newlog + tuple(e for e in s.log[mark2:] if not e.syn)
                res.append((t, s))
            return None, res
        anyl = any_(q, leave)
        out = st
        newlog = ()
        iteml = []
        if back is not None:
            for c in ch:
                fin = self.finalise(q, guard, st.frames[c[0]][c[1]], starts.get(c), back.frames[c[0]].get(c[1]), back.pc, ctx)
                starts[('fin', c)] = fin
            for e in back.log[mark2:]:
                if e.syn: continue
                if e.ns in items and e.key is None: continue
                newlog += (e,)
            for ns in items:
                p0, v0 = self.load(st, ns, None)
                p2, v2 = self.load(back, ns, None)
                fin = self.finalise(q, guard, v0, istarts.get(ns), v2, back.pc, ctx)
                wg = B.any(e.guard for e in back.log[mark2:] if e.ns == ns and not e.syn)
                wl = [e for e in back.log[mark2:] if e.ns == ns and not e.syn]
                g = AND(pc0, any_(q, AND(guard, B.restrict(wg, ctx))))
                iteml.append(Entry(ns, None, 'save', fin, g, st.quants, wl[-1].loc if wl else ('', '')))
        exits = []
        prev = FALSE
        for t, s in ex:
            f = AND(guard, B.restrict(s.pc, ctx))
            a = any_(q, f)
            p = AND(pc0, AND(a, NOT(prev)))
            prev = OR(prev, a)
            if not p: continue
            own = tuple(Entry(e.ns, e.key, e.kind, e.val, AND(AND(e.guard, s.pc), p), e.quants, e.loc, e.syn, e.aux) for e in s.log[mark2:] if not e.syn)
            # values that mention the element that caused the exit
            m = {}
            for sq in q:
                m[elem(sq, 0)] = mk('first', sq, f, 0)
                m[mk('rkey', sq)] = mk('first', sq, f, 1)
            for x in keep: m[x] = x
            memo = {}
            for fid, d in list(s.frames.items()):
                d0 = st.frames.get(fid)
                if d is d0: continue
                nd = {}
                for k, v in d.items():
                    if d0 is not None and d0.get(k) is v: nd[k] = v
                    elif (t == RET and not (fr and fid == fr.fid and k == 0)) and d0 is None: nd[k] = v
                    elif depends(v, q): nd[k] = subst(v, m, memo)
                    else: nd[k] = v
                s.frames[fid] = nd
            s.log = st.log + newlog + tuple(iteml) + own
            s.quants = st.quants
            s.pc = p
            s.owned = set()
            exits.append((t, s))
        if back is not None:
            out = st.fork(AND(pc0, NOT(anyl)))
            for c in ch:
                out.set(c[0], c[1], starts[('fin', c)])
            out.log = st.log + newlog + tuple(iteml)
        else:
            out = st.fork(AND(pc0, NOT(anyl)))
        return out, exits

    def havoc(self, q, v0, v1, name):
        """start-of-iteration value of a loop-carried cell"""
        if v0 is v1: return v0
        if v0.op == 'coll' and v0.a[0] == 'vec' and v1.op in ('f', 'vf', 'load', 'query', 'elem', 'p'): v1 = mk('coll', 'vec', parts_of(v1))
        if v0.op == 'coll' and v1.op == 'coll' and v0.a[0] == v1.a[0]:
            if shrunk(v0.a[1], v1.a[1]):
                # entries may have been dropped by earlier iterations
                return mk('coll', v0.a[0], tuple((qq, AND(g, truth(mk('kept', q, name, i, v))), v) for i, (qq, g, v) in enumerate(v0.a[1])))
            s = mk('prevsrc', q, v0, name)
            return mk('coll', v0.a[0], v0.a[1] + (((s,), TRUE, elem(s)),))
        if v0.op == 'adt' and v1.op == 'adt' and v0.a[:3] == v1.a[:3] and v0.a[2]:
            return mk('adt', v0.a[0], v0.a[1], v0.a[2], tuple(self.havoc(q, x, y, name + (n,)) for n, x, y in zip(v0.a[2], v0.a[3], v1.a[3])))
        if v1.op == 'adt' and v0.op in ('load', 'f', 'vf', 'query', 'p', 'elem') and v1.a[0] in ADTS and not ADTS[v1.a[0]]['enum']:
            e = expand(v0, v1.a[0])
            return self.havoc(q, e, v1, name)
        if v0.op == 'tup' and v1.op == 'tup' and len(v0.a) == len(v1.a):
            return mk('tup', *[self.havoc(q, x, y, name + (str(i),)) for i, (x, y) in enumerate(zip(v0.a, v1.a))])
        if v0.op == 'b': return bl(atom('prevflag', q, name, v0))
        return mk('prev', q, v0, name)

    def dropped(self, q, guard, start, v2, bpc, ctx):
        """kept-marker of each loop-carried entry -> condition that no iteration drops it"""
        km = {}
        for (qq, g1, v), (_, g2, _) in zip(start.a[1], v2.a[1]):
            k = kept_of((qq, g1, v))
            if k is None: continue
            i, = B.support(truth(k))
            r = B.restrict(B.cofactor(AND(g1, NOT(g2)), i, 1), AND(bpc, ctx))
            km[k] = bl(NOT(any_(q, AND(guard, B.exists(r, [j for j in B.support(r) if atomkey(j)[0] == 'tt' and atomkey(j)[1].op == 'kept'])))))
        return km
    def inserted(self, q, v0, start, v2, bpc, ctx, em):
        if v2 is None or start is v2: return
        if start.op == 'coll' and v2.op == 'coll':
            n = len(start.a[1])
            same = v2.a[1][:n] == start.a[1] or (start.a[0] == 'map' and [(x[0], x[2]) for x in v2.a[1][:n]] == [(x[0], x[2]) for x in start.a[1]])
            if n and same:
                s = start.a[1][-1][0]
                if len(s) == 1 and s[0].op == 'prevsrc':
                    new = tuple((qq, B.restrict(g, AND(bpc, ctx)), v) for qq, g, v in v2.a[1][n:])
                    if not any(depends_on(v, s[0]) for _, _, v in new):
                        e = mk('earlier', q, coll('vec', new))
                        em[s[0]] = e; em[elem(s[0], 0)] = elem(e, 0)
        elif start.op == 'adt' and v2.op == 'adt' and start.a[:3] == v2.a[:3]:
            for x, y in zip(start.a[3], v2.a[3]): self.inserted(q, None, x, y, bpc, ctx, em)
        elif start.op == 'tup' and v2.op == 'tup' and len(start.a) == len(v2.a):
            for x, y in zip(start.a, v2.a): self.inserted(q, None, x, y, bpc, ctx, em)
    def stepped(self, start, v2, pc, ctx):
        if v2 is None: return
        if start.op == 'prev': STEPS.setdefault(start, {})[v2] = B.restrict(pc, ctx)
        elif start.op == 'adt' and v2.op == 'adt' and start.a[:3] == v2.a[:3]:
            for x, y in zip(start.a[3], v2.a[3]): self.stepped(x, y, pc, ctx)
        elif start.op == 'tup' and v2.op == 'tup' and len(start.a) == len(v2.a):
            for x, y in zip(start.a, v2.a): self.stepped(x, y, pc, ctx)
    def rename(self, s, st, mark, em):
        memo = {}
        s.pc = subst(s.pc, em)
        for fid, d in list(s.frames.items()):
            d0 = st.frames.get(fid)
            if d is d0: continue
            s.frames[fid] = {k: (v if (d0 is not None and d0.get(k) is v) or not isinstance(v, T) else subst(v, em, memo)) for k, v in d.items()}
        s.owned = set()
        f = lambda v: subst(v, em, memo) if isinstance(v, T) else v
        s.log = s.log[:mark] + tuple(Entry(e.ns, f(e.key), e.kind, f(e.val), subst(e.guard, em), e.quants, e.loc, e.syn, e.aux) for e in s.log[mark:])

    def finalise(self, q, guard, v0, start, v2, bpc, ctx):
        if v2 is None or start is None: return mk('rec', q, v0)
        if v2 is start or v2 is v0: return v0
        if start.op == 'coll' and v2.op == 'coll':
            n = len(start.a[1])
            if v2.a[1][:n] == start.a[1]:
                new = tuple((q + qq, AND(guard, B.restrict(AND(g, bpc), ctx)), v) for qq, g, v in v2.a[1][n:])
                kind = start.a[0]
                return coll(kind, v0.a[1] + new)
            if v0.op == 'coll' and len(v0.a[1]) == n and shrunk(start.a[1], v2.a[1]):
                km = self.dropped(q, guard, start, v2, bpc, ctx)
                return coll(start.a[0], tuple((qq, AND(g, truth(km[k]) if k in km else TRUE), v) for (qq, g, v), k in zip(v0.a[1], [kept_of(x) for x in start.a[1]])))
            return mk('rec', q, v0, v2)
        if start.op == 'adt' and v2.op == 'adt' and start.a[:3] == v2.a[:3]:
            e0 = v0
            if e0.op != 'adt': e0 = expand(v0, start.a[0])
            return adt(start.a[0], start.a[1], start.a[2], [self.finalise(q, guard, x, s, y, bpc, ctx) for x, s, y in zip(e0.a[3], start.a[3], v2.a[3])])
        if start.op == 'tup' and v2.op == 'tup':
            return mk('tup', *[self.finalise(q, guard, x, s, y, bpc, ctx) for x, s, y in zip(v0.a, start.a, v2.a)])
        if start.op == 'b':
            i, = B.support(start.a[0])
            n = truth(v2)
            f0 = B.cofactor(n, i, 0); f1 = B.cofactor(n, i, 1)
            init = v0.a[0]
            if f1 == TRUE:
                return bl(OR(init, any_(q, AND(guard, f0))))
            if f0 == FALSE:
                return bl(AND(init, NOT(any_(q, AND(guard, NOT(f1))))))
            return bl(atom('recflag', q, v0, v2))
        # numeric accumulator
        if start.op == 'prev':
            al = []
            ok = True
            for g, x in alts(v2):
                k, d = lin(x)
                if d.get(start, 0) != 1: ok = False; break
                dd = dict(d); dd.pop(start)
                dl = unlin(k, dd)
                if depends_on(dl, start): ok = False; break
                al.append((g, dl))
            if ok:
                dlt = phi(al)
                gv = phi([(guard, dlt), (NOT(guard), ZERO)])
                return add(v0, mksum(q, gv))
            # last-assigned value
            keep = FALSE; oth = []
            for g, x in alts(v2):
                if x is start: keep = OR(keep, g)
                else: oth.append((g, x))
            if oth and not any(depends_on(x, start) for _, x in oth):
                f = AND(guard, NOT(keep))
                a = any_(q, f)
                val = mk('lastof', q, phi(oth), bl(f))
                if len(oth) == 1 and not depends(oth[0][1], q): val = oth[0][1]
                return phi([(a, val), (NOT(a), v0)])
        return mk('rec', q, v0, v2)

STEPS = {}   # loop-carried value -> {its value after one more iteration: condition}

def shrunk(p0, p1):
    return bool(p0) and len(p0) == len(p1) and all(a[0] == b[0] and a[2] is b[2] and B.implies(b[1], a[1]) for a, b in zip(p0, p1)) and any(a[1] != b[1] for a, b in zip(p0, p1))
def kept_of(part):
    for i in B.support(part[1]):
        k = atomkey(i)
        if k[0] == 'tt' and k[1].op == 'kept': return k[1]
def depends_on(t, x, memo=None):
    if memo is None: memo = {}
    def go(y):
        if y is x: return True
        r = memo.get(y)
        if r is None:
            memo[y] = False
            r = any(ga(z) for z in y.a)
            memo[y] = r
        return r
    def ga(z):
        if isinstance(z, T): return go(z)
        if isinstance(z, tuple): return any(ga(w) for w in z)
        return False
    return ga(t)
