"""Addresses that come in with a message are validated by the chain before they are stored. Which parts of a record are addresses is read off the declared types of the stores."""
from rule import *
from rules.stores import calls_of
def some(t): return is_variant(t, OPTION, 'Some')
ADDR = 'cosmwasm_std::addresses::Addr'
def args_of(ty):
    """generic arguments (or tuple components) of a type"""
    i = ty.find('<') if not ty.startswith('(') else 0
    if i < 0: return []
    out, d, cur = [], 0, ''
    for ch in ty[i + 1:-1]:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return [a for a in out if not a.startswith("'")]
class Types:
    def __init__(s, crate, others=None):
        s.crate, s.memo, s.all = crate, {}, others if others is not None else {}
        s.all[crate] = s
    def adt(s, ty):
        n = ty.split('<')[0]
        for k in (n, s.crate + '::' + n):
            if k in ADTS: return k
        ks = s.cands(n)
        return ks[0] if len(ks) == 1 else None
    def within(s, aid):
        """names as seen from where the type is declared"""
        cr = aid.split('::')[0]
        if cr not in s.all: s.all[cr] = Types(cr, s.all)
        return s.all[cr]
    def cands(s, n): return [k for k in ADTS if k.endswith('::' + n)]
    def fields(s, ty, aid=None):
        """[(variant, field, type)] of a type, its parameter replaced"""
        aid = aid or s.adt(ty); g = args_of(ty)
        if aid is None: return []
        return [(n, f, g[0] if t == 'T' and g else t.replace('<T>', '<%s>' % g[0]) if g else t) for n, d, fs in ADTS[aid]['v'] for f, t in fs]
    def addrs(s, ty):
        """does a value of the type carry addresses?"""
        ty = ty.lstrip('&')
        if ty == ADDR: return True
        if ty in s.memo: return s.memo[ty]
        s.memo[ty] = False
        s.memo[ty] = any(s.addrs(a) for a in args_of(ty)) or any(s.within(k).addrs(t) for k in ([s.adt(ty)] if s.adt(ty) else s.cands(ty.split('<')[0])) for _, _, t in s.fields(ty, k))
        return s.memo[ty]
def from_msg(t):
    """is the term (part of) the message, or made of it?"""
    if t.op in ('load', 'query', 'i', 's', 'has', 'fold', 'range', 'rkey'): return False
    if t.op == 'take': return from_msg(t.a[0])
    if t is P('msg'): return True
    def inside(a): return from_msg(a) if isinstance(a, T) else isinstance(a, tuple) and any(inside(b) for b in a)
    return any(inside(a) for a in t.a)
def leaves(T_, t, ty, g, q):
    """the addresses in a value: (term, guard, quantifiers)"""
    ty = ty.lstrip('&')
    if not T_.addrs(ty) or g == FALSE: return
    if t.op == 'phi':
        for h, x in t.a[0]: yield from leaves(T_, x, ty, AND(g, h), q)
        return
    if ty == ADDR: yield t, g, q; return
    if not from_msg(t): return
    if ty.startswith('('):
        for i, a in enumerate(args_of(ty)): yield from leaves(T_, getf(t, str(i)), a, g, q)
    elif ty.startswith(OPTION + '<'): yield from leaves(T_, VF(t, 'Some'), args_of(ty)[0], AND(g, some(t)), q)
    elif ty.startswith('alloc::vec::Vec<'):
        for q2, h, x in parts_of(t): yield from leaves(T_, x, args_of(ty)[0], AND(g, h), q + tuple(q2))
    else:
        aid = t.a[0] if t.op == 'adt' else T_.adt(ty)
        names = set(t.a[2]) - {'..'} if t.op == 'adt' else set()
        aids = [aid] if aid in ADTS else [k for k in T_.cands(ty.split('<')[0]) if {f for v in ADTS[k]['v'] for f, _ in v[2]} >= names]
        if not aids: yield t, g, q; return
        for k in aids:
            for n, f, ft in T_.fields(ty, k):
                if not ADTS[k]['enum']: yield from leaves(T_.within(k), getf(t, f), ft, g, q)
                elif t.op != 'adt' or t.a[1] == n: yield from leaves(T_.within(k), VF(t, n, f), ft, AND(g, is_variant(t, k, n)), q)
# handed over in final form by whoever instantiates the contract: the factory's settings, and the proposals of a DAO that is being migrated
TRUSTED = {('enterprise_factory', 'instantiate', 'config'), ('enterprise_governance_controller', 'instantiate', 'proposal_infos')}
CRATES = ('attestation', 'denom_staking_membership', 'enterprise', 'enterprise_factory', 'enterprise_governance', 'enterprise_governance_controller', 'enterprise_outposts', 'enterprise_treasury', 'enterprise_versioning', 'funds_distributor', 'ics721_callback_proxy', 'multisig_membership', 'nft_staking_membership', 'token_staking_membership')
def validated(c, crate):
    n = 0
    for S_ in calls_of(c, crate):
        for w in S_.writes:
            if w.kind == 'remove' or w.ns == 'contract_info' or w.ns.endswith('#at'): continue
            tys = S_.nstypes.get(w.ns)
            if not c.ob('%s: the type of store %s is known' % (S_.name, w.ns), bool(tys)): continue
            for ty in sorted(tys):
                T_ = Types(ty[1]); parts = [(w.val, ty[2])] if ty[0].endswith('Item') else [(w.key, ty[2]), (w.val, ty[3])]
                for t, tt in parts:
                    if t is None: continue
                    for a, g, q in leaves(T_, t, tt, w.guard, tuple(w.quants)):
                        if not from_msg(a): continue
                        n += 1
                        if (crate, S_.name.split('::')[1], w.ns) in TRUSTED: continue
                        c.must('%s: address stored in %s is validated' % (S_.name, w.ns), A(g, S_.ok, nonempty(q) if q else TRUE), O(atom('valid', a), eqt(a, SENDER)), loc_of(w, S_))
    c.ob('%s: addresses from messages' % crate, n >= (0 if crate == 'attestation' else 1), str(n))
@prop('C33')
def stored_addresses(c):
    """addresses from a message are validated by the chain in the call that stores them, in every contract"""
    for cr in CRATES: validated(c, cr)
