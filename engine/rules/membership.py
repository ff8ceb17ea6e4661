"""Membership contracts: staking (token, coin, NFT) and multisig; weights, totals, claims, listeners."""
from rule import *
W = 'membership_common__member_weights'; TH = 'membership_common__total_weight_block_height_snapshot'; TS = 'membership_common__total_weight_time_seconds_snapshot'
HOOKS = 'membership_common__weight_change_hooks'; ENT = 'membership_common__enterprise_contract'
Z = I(0); ONE = I(1); SECS = mk('secs', NOW)
class K:
    def __init__(s, name, asset):
        s.name = name; s.crate = name + '_staking_membership'; s.cfg = 'config_v1_2_0' if name == 'nft' else 'config'; s.claims = name + '_claims'; s.asset = asset
        s.claim_ty = '%s_staking_api::api::%sClaim' % (name, name.capitalize())
STAKING = [K('token', 'token_contract'), K('denom', 'denom'), K('nft', 'nft_contract_addr')]
MS = 'multisig_membership'
ALL = [k.crate for k in STAKING] + [MS]

def or0(g, t): return phi([(g, t), (NOT(g), Z)])
def weight(u): return or0(has(W, u), L(W, u))
def total(ns=TH): return or0(has(ns), L(ns))
def controller(): return A(has(ENT), eq(SENDER, F(Q(L(ENT), V('enterprise_protocol::msg::QueryMsg', 'ComponentContracts')), 'enterprise_governance_controller_contract')))
def unrestricted(u):
    q = Q(L(ENT), V('enterprise_protocol::msg::QueryMsg', 'IsRestrictedUser', _=St('enterprise_protocol::api::IsRestrictedUserParams', user=u)))
    return AND(has(ENT), NOT(truth(F(q, 'is_restricted'))))
def tags(ns, key, tag):
    """a read made in the iteration it serves is current; one made before the loop for an element of it is stale"""
    if ns not in (W, 'nft_stakes'): return None
    if tag is None: return ('stale',) if key is not None and key.op != 'rkey' and any(t.op == 'elem' for t in walk_terms(key)) and ns in LOOPED else None
    return None if tag[0] == 'in' else tag
LOOPED = (W, 'nft_stakes')
def opt(o, d): return phi([(is_variant(o, OPTION, 'Some'), VF(o, 'Some')), (is_variant(o, OPTION, 'None'), d)])

class Case:
    """one way a call can change weights"""
    def __init__(s, when, changes=(), delta=None, guard=TRUE): s.when = when; s.changes = list(changes); s.delta = delta; s.guard = guard
class Change:
    """member u goes from old to new, for each element of q with cond"""
    def __init__(s, u, old, new, q=(), cond=TRUE): s.u = u; s.old = old; s.new = new; s.q = q; s.cond = cond

def hook_msg(S_, m): return mk('parsed', M(S_, m, 'msg'), fq({'Receive': 'token_staking_api::msg::Cw20HookMsg', 'ReceiveNft': 'nft_staking_api::msg::Cw721HookMsg'}[m]))
def isv(t, ty, v): return is_variant(t, fq(ty), v)

def summary(c, crate, v):
    S_ = retagged(c.ex(crate, v), tags)
    return S_

def nft_collection(k):
    """(condition, address) alternatives of the collection in force"""
    a = F(L(k.cfg), 'nft_contract_addr'); ty = fq('nft_staking_impl::config::NftContractAddr')
    q = Q(VF(a, 'Ics721', 'contract'), V('Ics721QueryMsg', 'NftContract', class_id=VF(a, 'Ics721', 'class_id')))
    return phi([(is_variant(a, ty, 'Cw721'), VF(a, 'Cw721', 'contract')), (is_variant(a, ty, 'Ics721'), VF(q, 'Some'))])

def given_opt(c, crate, v, f):
    """the call with the optional field f absent and present: [(summary, value)] (value None = absent)"""
    b = c.body(crate, 'execute'); aid = Interp(c.prog).adt_of_ty(b.locals[b.argc][0])
    r = []
    for tag, some in ((' to oneself', False), (' for a named member', True)):
        fs = next((x[2] for x in ADTS[aid]['v'] if x[0] == v), None)
        if fs is None: raise Missing('message %s' % v)
        names = tuple(x[0] for x in fs)
        def val(base, n): return (lib.Some(VF(mk(*base, n), 'Some')) if some else NONE)
        if f in names: m = mk('adt', aid, v, names, tuple((lib.Some(VF(mk('vf', P('msg'), v, n), 'Some')) if some else NONE) if n == f else mk('vf', P('msg'), v, n) for n in names)); x = VF(mk('vf', P('msg'), v, f), 'Some')
        else:
            if names != ('0',): raise Missing('message %s' % v)
            sid = next((k for k in ADTS if k == fs[0][1] or fs[0][1].endswith(k)), None) if len(fs[0]) > 1 else None
            base = mk('vf', P('msg'), v, '0')
            x = VF(F(base, f), 'Some')
            if sid is None: raise Missing('type of message %s' % v)
            ns = tuple(y[0] for y in ADTS[sid]['v'][0][2])
            m = mk('adt', aid, v, names, (mk('adt', sid, ADTS[sid]['v'][0][0], ns, tuple((lib.Some(x) if some else NONE) if n == f else F(base, n) for n in ns)),))
        S_ = retagged(c.entry(crate, 'execute', v, m, tag=tag), tags); S_.msgadt = aid
        r.append((S_, x if some else None))
    return r

def calls(c, k, v):
    """[(summary, weight changing cases)] of an execute message of a staking contract"""
    if v == 'Stake' and k.name == 'denom':
        r = []
        for S_, x in given_opt(c, k.crate, v, 'user'):
            u = x if x is not None else SENDER; a = coin0(S_)
            r.append((S_, [Case(TRUE, [Change(u, weight(u), add(weight(u), a))], a)]))
        return r
    if v == 'Claim': return [(S_, []) for S_, x in given_opt(c, k.crate, v, 'user')]
    S_ = summary(c, k.crate, v)
    if v == 'Unstake':
        d = M(S_, v, 'amount') if k.name != 'nft' else mk('len', M(S_, v, 'nft_ids'))
        return [(S_, [Case(TRUE, [Change(SENDER, weight(SENDER), sub(weight(SENDER), d))], sub(Z, d))])]
    if v == 'Receive':
        h = hook_msg(S_, v); ty = 'token_staking_api::msg::Cw20HookMsg'; am = M(S_, v, 'amount')
        u = VF(h, 'Stake', 'user'); s = src(VF(h, 'AddStakes', 'stakers')); e = elem(s); x = F(e, 'staked_amount'); nz = NOT(eq(x, Z))
        return [(S_, [Case(isv(h, ty, 'Stake'), [Change(u, weight(u), add(weight(u), am))], am),
                      Case(isv(h, ty, 'AddStakes'), [Change(F(e, 'user'), weight(F(e, 'user')), add(weight(F(e, 'user')), x), (s,), nz)], am)])]
    if v == 'ReceiveNft':
        h = hook_msg(S_, v); u = VF(h, 'Stake', 'user')
        return [(S_, [Case(isv(h, 'nft_staking_api::msg::Cw721HookMsg', 'Stake'), [Change(u, weight(u), add(weight(u), ONE))], ONE)])]
    return [(S_, [])]
def coin0(S_):
    """amount of the one coin attached"""
    return F(mk('get', FUNDS, Z), 'amount')

# ------------------------------------------------------------------ weights
def weight_wants(cs):
    r = []
    for x in cs:
        for ch in x.changes: r.append(Want('weight of the member concerned', is_save(W, ch.u, ch.new), when=AND(x.when, ch.cond), quants=ch.q))
    return r
def only(*ns):
    return lambda e: e.ns not in ns
def snap(ns, h, val):
    """shape: the snapshot takes the value, as of the current block"""
    def f(e):
        if e.kind != 'save' or e.ns != ns or e.quants or not e.aux: return FALSE
        return AND(val(e), eqt(e.aux[1], h))
    return f
def total_wants(cs):
    r = []
    for x in cs:
        if x.delta is None: continue
        for ns, h in ((TH, HEIGHT), (TS, SECS)):
            r.append(Want('%s total follows' % ('current' if ns == TH else 'timed'), snap(ns, h, lambda e, ns=ns, x=x: OR(eqt(e.val, add(total(TH), x.delta)), eqt(e.val, add(total(ns), x.delta)))), when=x.when))
    return r
def report(changes):
    parts = tuple((ch.q, ch.cond, St('membership_common_api::api::UserWeightChange', user=ch.u, old_weight=ch.old, new_weight=ch.new)) for ch in changes)
    return V('membership_common_api::msg::WeightChangeHook', 'WeightsChanged', _=St('membership_common_api::api::WeightsChangedMsg', weight_changes=coll('vec', parts)))
def listeners(c, S_):
    """the walk over all registered listeners used for reporting, or None"""
    rs = {q for e in S_.msgs for q in e.quants if q.op == 'range' and q.a[0] == HOOKS}
    if not c.ob('%s: every listener is told' % S_.name, len(rs) == 1 and all(r.a[2] is mk('tup') and r.a[3] is NONE and r.a[4] is NONE for r in rs), str([pp(r)[:120] for r in rs])): return None
    return next(iter(rs))

@prop('C21')
def staking(c):
    """stakes grow only by what was received, of the configured asset, for the member named"""
    for k in STAKING:
        vs = c.variants(k.crate); n0 = 0
        for v in vs:
            for S_, cs in calls(c, k, v):
                if v == 'Unstake':
                    for e in ns_writes(S_, W): c.must('%s: never raises a weight' % S_.name, e.guard, A(eq(e.key, SENDER), eqt(e.val, cs[0].changes[0].new)), loc_of(e, S_))
                    continue
                check_writes(c, S_, weight_wants(cs), ignore=only(W))
                n0 += len(cs)
                n = S_.name
                for x in cs:
                    c.reach('%s: can succeed' % n, AND(S_.ok, x.when))
                    for ch in x.changes: c.must('%s: member address validated' % n, A(S_.ok, x.when, nonempty(ch.q), ch.cond), OR(atom('valid', ch.u), eq(ch.u, SENDER)))
                if v == 'Stake':
                    c.must('%s: exactly one kind of coin' % n, S_.ok, eq(mk('len', FUNDS), ONE))
                    c.must('%s: the configured coin' % n, S_.ok, AND(has(k.cfg), eq(F(mk('get', FUNDS, Z), 'denom'), F(L(k.cfg), 'denom'))))
                if v == 'Receive':
                    c.must('%s: only from the configured token' % n, S_.ok, AND(has(k.cfg), eq(SENDER, F(L(k.cfg), 'token_contract'))))
                    h = hook_msg(S_, v); c.must('%s: only known requests' % n, S_.ok, atom('jsonok', M(S_, v, 'msg'), h.a[1]))
                    for w, l, f in (('AddStakes', 'stakers', 'staked_amount'), ('AddClaims', 'claims', 'claim_amount')):
                        s = src(VF(h, w, l)); case = isv(h, h.a[1], w)
                        c.must('%s: %s add up to what was received' % (n, l), AND(S_.ok, case), eq(mksum((s,), F(elem(s), f)), M(S_, v, 'amount')))
                        c.reach('%s: %s possible' % (n, w), AND(S_.ok, case))
                if v == 'ReceiveNft':
                    c.must('%s: only from the configured collection' % n, S_.ok, AND(has(k.cfg), eqt(nft_collection(k), SENDER)))
                    h = hook_msg(S_, v); c.must('%s: only known requests' % n, S_.ok, atom('jsonok', M(S_, v, 'msg'), h.a[1]))
        c.ob('%s: stakes can be made' % k.crate, n0 > 0)
        for S_ in (c.mig(k.crate), c.rep(k.crate, None), c.inst(k.crate)):
            for e in ns_writes(S_, W): c.fail('%s: grants no weight' % S_.name, short_eff(e), loc_of(e, S_))

@prop('C22')
def totals(c):
    """total and individual weights move together; both records of the total are kept as of the current block"""
    for k in STAKING:
        for v in c.variants(k.crate):
            for S_, cs in calls(c, k, v):
                check_writes(c, S_, weight_wants(cs) + total_wants(cs), ignore=only(W, TH, TS))
                history(c, S_)

def history(c, S_, extra=()):
    """historic totals: only the entry of the current block is written"""
    for e in S_.writes:
        if e.ns in (TH + '#at', TS + '#at'):
            h = HEIGHT if e.ns.startswith(TH) else SECS
            c.must('%s: past totals are left alone' % S_.name, e.guard, O(eqt(e.key, h), *[x(e) for x in extra]), loc_of(e, S_))

@prop('C25')
def reporting(c):
    """every weight change is reported to every listener"""
    for k in STAKING:
        for v in c.variants(k.crate):
            if v == 'Claim': continue
            for S_, cs in calls(c, k, v):
                if not cs:
                    check_msgs(c, S_, []); continue
                r = listeners(c, S_)
                if r is None: continue
                check_msgs(c, S_, [Want('change reported', is_msg(execute(mk('rkey', r), report(x.changes))), when=x.when, quants=(r,)) for x in cs])

# ------------------------------------------------------------------ unstaking and claims
def release(k):
    p = F(L(k.cfg), 'unlocking_period'); ty = fq('cw_utils::expiration::Duration') if 'cw_utils::expiration::Duration' in ADTS else fq('Duration')
    ra = fq('common::cw::ReleaseAt')
    return phi([(is_variant(p, ty, 'Height'), V(ra, 'Height', _=add(HEIGHT, VF(p, 'Height')))), (is_variant(p, ty, 'Time'), V(ra, 'Timestamp', _=add(NOW, mul(I(10**9), VF(p, 'Time')))))])
def next_id(): return or0(has('claim_ids'), L('claim_ids'))
def claim_wants(k, id_, user, what, rel, when=TRUE, q=()):
    f = 'nft_ids' if k.name == 'nft' else 'amount'
    return Want('one claim of what was handed back', is_save(k.claims, id_, St(k.claim_ty, id=id_, user=user, release_at=rel, **{f: what})), when=when, quants=q)

@prop('C23', 'C24')
def unstaking(c):
    """no more than the own stake; it stops counting at once and becomes one claim, released after the unlocking period"""
    for k in STAKING:
        S_, cs = calls(c, k, 'Unstake')[0]; n = S_.name; ch = cs[0].changes[0]
        c.reach('%s: can succeed' % n, S_.ok)
        what = M(S_, 'Unstake', 'amount' if k.name != 'nft' else 'nft_ids')
        d = what if k.name != 'nft' else mk('len', what)
        ws = weight_wants(cs) + [claim_wants(k, next_id(), SENDER, what, release(k)), Want('claim numbers never repeat', is_save('claim_ids', None, add(next_id(), ONE)))]
        if k.name == 'nft':
            s = src(what); st = L('nft_stakes', elem(s))
            c.must('%s: only NFTs the caller staked' % n, AND(S_.ok, nonempty((s,))), AND(has('nft_stakes', elem(s)), eq(F(st, 'staker'), SENDER)))
            ws.append(Want('NFT no longer staked', is_remove('nft_stakes', elem(s)), quants=(s,)))
        else:
            c.must('%s: no more than the stake' % n, S_.ok, le(d, weight(SENDER)))
            c.reach('%s: the whole stake can be unstaked' % n, A(S_.ok, eq(d, weight(SENDER)), NOT(eq(d, ZERO))))
        check_writes(c, S_, ws, ignore=only(W, k.claims, 'claim_ids', 'nft_stakes'))
        # claims come into being in no other way than unstaking or being handed over
        for v in c.variants(k.crate):
            if v == 'Unstake': continue
            for S_, cs in calls(c, k, v):
                ws = []
                if v == 'Receive':
                    h = hook_msg(S_, v); s = src(VF(h, 'AddClaims', 'claims')); e = elem(s); case = isv(h, h.a[1], 'AddClaims')
                    handed_claims(c, k, S_, s, case, e)
                    continue
                if v == 'ReceiveNft':
                    h = hook_msg(S_, v); case = isv(h, h.a[1], 'AddClaim'); u = VF(h, 'AddClaim', 'user')
                    c.must('%s: claimant validated' % S_.name, AND(S_.ok, case), atom('valid', u))
                    ws = [claim_wants(k, next_id(), u, vec(M(S_, v, 'token_id')), VF(h, 'AddClaim', 'release_at'), when=case), Want('claim numbers never repeat', is_save('claim_ids', None, add(next_id(), ONE)), when=case)]
                check_writes(c, S_, ws, ignore=lambda e: e.ns not in (k.claims, 'claim_ids') or e.kind == 'remove' and v == 'Claim')
        for S_ in (c.mig(k.crate), c.rep(k.crate, None), c.inst(k.crate)):
            for e in ns_writes(S_, k.claims, 'claim_ids'): c.fail('%s: makes no claims' % S_.name, short_eff(e), loc_of(e, S_))

def handed_claims(c, k, S_, s, case, e):
    """claims handed over: each under a number of its own"""
    n = S_.name
    c.must('%s: claimants validated' % n, A(S_.ok, case, nonempty((s,))), atom('valid', F(e, 'user')))
    ok = 0
    for w in ns_writes(S_, k.claims):
        if not c.ob('%s: claims are only added' % n, w.kind == 'save' and normq(w.quants) == (s,), short_eff(w), loc_of(w, S_)): continue
        ids = {w.key}
        fresh = all(x.op == 'prev' and x.a[0] == (s,) for x in ids)
        c.ob('%s: claim numbers never repeat' % n, fresh, short_eff(w), loc_of(w, S_))
        c.must('%s: claims as handed over' % n, w.guard, AND(case, eqt(w.val, St(k.claim_ty, id=w.key, user=F(e, 'user'), amount=F(e, 'claim_amount'), release_at=F(e, 'release_at')))), loc_of(w, S_))
        ok = OR(ok, w.guard)
    c.must('%s: every claim handed over is kept' % n, A(S_.ok, case, nonempty((s,))), ok)
    for w in ns_writes(S_, 'claim_ids'):
        c.must('%s: claim numbers are used up' % n, w.guard, AND(case, O(eqt(w.val, add(L('claim_ids'), mk('len', s.a[0]))), eqt(w.val, add(next_id(), mk('len', s.a[0]))))), loc_of(w, S_))
    c.ob('%s: claim numbers advance' % n, bool(ns_writes(S_, 'claim_ids')))

def matured(k, cl):
    r = F(cl, 'release_at'); ra = fq('common::cw::ReleaseAt')
    return OR(AND(is_variant(r, ra, 'Timestamp'), NOT(lt(NOW, VF(r, 'Timestamp')))), AND(is_variant(r, ra, 'Height'), NOT(lt(HEIGHT, VF(r, 'Height')))))
def user_claims(c, n, k, terms, *users):
    """the walk over the claims of one user"""
    rs = {t for x in terms for t in walk_terms(x) if t.op == 'range'}
    good = len(rs) == 1 and all(r.a[0] == k.claims and r.a[1] == k.claims + '__user' and r.a[2] in users and r.a[3] is NONE and r.a[4] is NONE for r in rs)
    c.ob('%s: all claims of the member, and only those' % n, good, str([pp(r)[:200] for r in rs]))
    return next(iter(rs)) if good else None
@prop('C24')
def claiming(c):
    """a claim pays the member's matured claims, exactly, and removes them and no others"""
    for k in STAKING:
        for S_, x in given_opt(c, k.crate, 'Claim', 'user'):
            n = S_.name; u = x if x is not None else SENDER
            c.reach('%s: can succeed' % n, S_.ok)
            c.must('%s: only one\'s own claims' % n, S_.ok, eq(u, SENDER))
            r = user_claims(c, n, k, [q for e in S_.writes for q in e.quants], u, SENDER)
            if r is None: continue
            rk = mk('rkey', r); cl = L(k.claims, rk); m = matured(k, cl)
            rem = lambda e: OR(is_remove(k.claims, rk)(e), is_remove(k.claims, F(cl, 'id'))(e)); rem.ns = k.claims
            check_writes(c, S_, [Want('matured claims are removed', rem, when=m, quants=(r,))])
            if k.name == 'nft':
                s = src(F(cl, 'nft_ids')); a = F(L(k.cfg), 'nft_contract_addr')
                check_msgs(c, S_, [Want('every NFT of a matured claim is handed back', is_msg(execute(VF(a, 'Cw721', 'contract'), V(CW721EXEC, 'TransferNft', recipient=u, token_id=elem(s)))), when=AND(m, isv(a, 'nft_staking_impl::config::NftContractAddr', 'Cw721')), quants=(r, s))])
            else:
                am = mksum((r,), phi([(m, F(cl, 'amount')), (NOT(m), Z)]))
                pay = execute(F(L(k.cfg), 'token_contract'), V(CW20EXEC, 'Transfer', recipient=u, amount=am)) if k.name == 'token' else bank_send(u, coinv(F(L(k.cfg), 'denom'), am))
                check_msgs(c, S_, [Want('the sum of matured claims is paid', is_msg(pay), when=NOT(eq(am, Z))), Want('nothing due', is_msg(pay), must=False)])
        for v in c.variants(k.crate):
            if v == 'Claim': continue
            for S_, cs in calls(c, k, v):
                for e in ns_writes(S_, k.claims): c.ob('%s: leaves claims alone' % S_.name, e.kind == 'save', short_eff(e), loc_of(e, S_))
        for q in ('Claims', 'ReleasableClaims'):
            S_, val = c.qval(k.crate, q); n = S_.name; u = M(S_, q, 'user'); cov = FALSE
            r = user_claims(c, n, k, [t for p_ in parts_of(F(val, 'claims')) for t in p_[0]], u)
            if r is None: continue
            cl = L(k.claims, mk('rkey', r)); m = matured(k, cl) if q != 'Claims' else TRUE
            for qq, g, y in parts_of(F(val, 'claims')):
                c.must('%s: the claims as recorded' % n, A(S_.ok, g), A(m, eqt(y, cl)))
                if qq == (r,): cov = OR(cov, g)
            c.must('%s: none is missing' % n, A(S_.ok, nonempty((r,)), m), cov)

# ------------------------------------------------------------------ authority
SETTINGS = ('config', 'config_v1_2_0', HOOKS, ENT)
@prop('C04')
def settings(c):
    """settings, listeners and multisig members change only for the DAO's governance controller"""
    for crate in ALL:
        k = next((x for x in STAKING if x.crate == crate), None)
        vs = c.variants(crate)
        c.ob('%s: listener messages present' % crate, {'AddWeightChangeHook', 'RemoveWeightChangeHook'} <= set(vs), str(vs))
        for v in vs:
            for S_ in ([x for x, _ in calls(c, k, v)] if k else [summary(c, crate, v)]):
                n = S_.name
                c.reach('%s: can succeed' % n, S_.ok)
                for e in S_.writes:
                    own = e.ns in (W, TH, TS) and crate == MS
                    if e.ns not in SETTINGS and not own: continue
                    if v == 'ReceiveNft' and e.ns == k.cfg:
                        a = F(L(k.cfg), 'nft_contract_addr')
                        c.must('%s: only the collection that arrived is filled in' % n, e.guard, A(isv(a, 'nft_staking_impl::config::NftContractAddr', 'Ics721'), eqt(e.val, St('nft_staking_impl::config::Config', nft_contract_addr=V('nft_staking_impl::config::NftContractAddr', 'Cw721', contract=nft_collection(k)), unlocking_period=F(L(k.cfg), 'unlocking_period')))), loc_of(e, S_))
                        continue
                    c.ob('%s: the owning DAO is fixed' % n, e.ns != ENT, short_eff(e), loc_of(e, S_))
                    c.must('%s: %s only for the DAO' % (n, e.ns), e.guard, controller(), loc_of(e, S_))
                if v in ('UpdateUnlockingPeriod', 'AddWeightChangeHook', 'RemoveWeightChangeHook', 'UpdateMembers', 'SetMembers'): c.must('%s: only for the DAO' % n, S_.ok, controller())
                if v == 'UpdateUnlockingPeriod':
                    o = M(S_, v, 'new_unlocking_period'); old = L(k.cfg); ty = '%s_staking_impl::config::Config' % k.name
                    check_writes(c, S_, [Want('only the period changes', is_save(k.cfg, None, St(ty, unlocking_period=VF(o, 'Some'), **{k.asset: F(old, k.asset)})), when=is_variant(o, OPTION, 'Some')), Want('nothing given', is_save(k.cfg, None, old), when=is_variant(o, OPTION, 'None'), must=False)])
                if v in ('AddWeightChangeHook', 'RemoveWeightChangeHook'):
                    a = M(S_, v, 'hook_addr')
                    c.must('%s: listener address validated' % n, S_.ok, atom('valid', a))
                    check_writes(c, S_, [Want('the listener named', is_save(HOOKS, a, None) if v[0] == 'A' else is_remove(HOOKS, a))])
        for S_ in (c.mig(crate), c.rep(crate, None)):
            for e in S_.writes: c.ob('%s: leaves the records alone' % S_.name, e.ns == 'contract_info', short_eff(e), loc_of(e, S_))
            c.ob('%s: sends nothing' % S_.name, not S_.msgs)
        S_ = c.inst(crate); n = S_.name; m = P('msg')
        c.must('%s: owning DAO validated' % n, S_.ok, atom('valid', F(m, 'enterprise_contract')))
        hs = F(m, 'weight_change_hooks'); s = src(VF(hs, 'Some')); g = is_variant(hs, OPTION, 'Some')
        c.must('%s: listeners validated' % n, A(S_.ok, g, nonempty((s,))), atom('valid', elem(s)))
        ws = [Want('owning DAO recorded', is_save(ENT, None, F(m, 'enterprise_contract'))), Want('listeners recorded', is_save(HOOKS, elem(s), None), when=g, quants=(s,))]
        if k:
            ty = '%s_staking_impl::config::Config' % k.name
            if k.name == 'nft':
                a = F(m, 'nft_contract'); A_ = 'nft_staking_impl::config::NftContractAddr'; B_ = fq('nft_staking_api::api::NftContract')
                c.must('%s: collection validated' % n, S_.ok, OR(AND(is_variant(a, B_, 'Cw721'), atom('valid', VF(a, 'Cw721', 'contract'))), AND(is_variant(a, B_, 'Ics721'), atom('valid', VF(a, 'Ics721', 'contract')))))
                asset = phi([(is_variant(a, B_, 'Cw721'), V(A_, 'Cw721', contract=VF(a, 'Cw721', 'contract'))), (is_variant(a, B_, 'Ics721'), V(A_, 'Ics721', contract=VF(a, 'Ics721', 'contract'), class_id=VF(a, 'Ics721', 'class_id')))])
            else:
                asset = F(m, k.asset)
                if k.name == 'token': c.must('%s: token validated' % n, S_.ok, atom('valid', asset))
            ws.append(Want('settings as given', is_save(k.cfg, None, St(ty, unlocking_period=F(m, 'unlocking_period'), **{k.asset: asset}))))
        check_writes(c, S_, ws, ignore=lambda e: e.ns not in SETTINGS)
        check_msgs(c, S_, [])

# ------------------------------------------------------------------ multisig
def spot(S_, lst):
    """the walk over the members given: the list itself or its distinct users"""
    s = src(lst); u = mk('uniq', s, F(elem(s), 'user'))
    qs = {q for e in S_.writes for q in e.quants}
    return (u, elem(s)) if u in qs else (s, elem(s))
def keep(S_):
    """members are distinct, so an entry looked up for one member was not taken out for another"""
    import copy
    ks = {t for e in S_.writes + S_.msgs for x in (e.guard, e.val, e.key) if x is not None for t in walk_terms(x) if t.op == 'kept'}
    if not ks: return S_
    m = {t: bl(TRUE) for t in ks}; S2 = copy.copy(S_)
    def eff(e):
        e2 = copy.copy(e); e2.guard = TM.subst(e.guard, m); e2.val = TM.subst(e.val, m) if e.val is not None else None
        return e2
    S2.ok = TM.subst(S_.ok, m); S2.writes = [eff(e) for e in S_.writes]; S2.msgs = [eff(e) for e in S_.msgs]
    return S2
def moves(init, s, old, new, ns):
    """shape: total saved = init + sum over s of (new - old)"""
    want = sub(new, old)
    def f(e):
        r = FALSE
        for h, v in alts(e.val):
            for h2, i in alts(init):
                g = AND(h, h2)
                if g == 0: continue
                k, d = lin(sub(v, i))
                if k or any(t.op != 'sum' or t.a[0] != (s,) for t in d): continue
                de = Z
                for t, c_ in d.items(): de = add(de, mul(I(c_), phi([(t.a[1], t.a[2]), (NOT(t.a[1]), Z)])))
                r = OR(r, AND(g, NOT(any_((s,), NOT(eqt(de, want))))))
        return r
    return snap(ns, HEIGHT if ns == TH else SECS, f)
def multisig(c, v):
    """(summary, walk, element, reported changes, [(namespace, total shape)])"""
    S_ = keep(retagged(c.ex(MS, v), (lambda ns, key, tag: None if tag and tag[0] == 'in' else tag) if v == 'UpdateMembers' else (lambda ns, key, tag: tag))); lst = M(S_, v, {'UpdateMembers': 'update_members', 'SetMembers': 'new_members'}[v])
    s, e = spot(S_, lst); u = F(e, 'user'); w = F(e, 'weight')
    c.reach('%s: can succeed' % S_.name, AND(S_.ok, nonempty((s,))))
    c.must('%s: members validated' % S_.name, AND(S_.ok, nonempty((s,))), atom('valid', u))
    c.must('%s: no member twice' % S_.name, S_.ok, distinct(lst, lambda x: F(x, 'user'), lambda x: F(x, 'weight')))
    ch = [Change(u, weight(u), w, (s,))]
    if v == 'UpdateMembers': return S_, s, ch, [(ns, lambda e, ns=ns: OR(moves(total(TH), s, weight(u), w, ns)(e), moves(total(TS), s, weight(u), w, ns)(e))) for ns in (TH, TS)]
    rs = {q for e in S_.msgs for t in walk_terms(e.val) for q in ([t] if t.op == 'range' else []) if q.a[0] == W}
    if not c.ob('%s: the former members are gone through' % S_.name, len(rs) == 1 and all(r.a[2] is mk('tup') and r.a[3] is NONE and r.a[4] is NONE for r in rs), str([pp(r)[:100] for r in rs])): return None
    r = next(iter(rs)); rk = mk('rkey', r)
    ch.append(Change(rk, L(W, rk), Z, (r,), NOT(any_((s,), eq(rk, u)))))
    return S_, s, ch, [(ns, moves(Z, s, Z, w, ns)) for ns in (TH, TS)]
@prop('C22', 'C25')
def multisig_members(c):
    """multisig members: weights as given, total in step, everyone affected reported"""
    for v in c.variants(MS):
        if v not in ('UpdateMembers', 'SetMembers'):
            S_ = summary(c, MS, v)
            check_writes(c, S_, [], ignore=only(W, TH, TS)); history(c, S_); check_msgs(c, S_, [])
            continue
        x = multisig(c, v)
        if x is None: continue
        S_, s, ch, tot = x
        ws = [Want('weight of each member given', is_save(W, ch[0].u, ch[0].new), quants=(s,))] + [Want('%s total follows' % ('current' if ns == TH else 'timed'), f) for ns, f in tot]
        if v == 'SetMembers':
            def cl(e): return TRUE if e.kind == 'clear' and e.ns == W and not e.quants else FALSE
            cl.ns = W
            ws.insert(0, Want('former members dropped', cl))
        check_writes(c, S_, ws, ignore=only(W, TH, TS)); history(c, S_)
        r = listeners(c, S_)
        if r is not None: check_msgs(c, S_, [Want('changes reported', is_msg(execute(mk('rkey', r), report(ch))), quants=(r,))])

def checkpoint_wants(m):
    """history handed over at creation"""
    r = []
    for ns, f in ((TH, 'total_weight_by_height_checkpoints'), (TS, 'total_weight_by_seconds_checkpoints')):
        o = F(m, f); s = src(VF(o, 'Some')); e = elem(s)
        r.append(Want('checkpoints handed over', is_save(ns + '#at', F(e, 'height'), F(e, 'total_weight')), when=is_variant(o, OPTION, 'Some'), quants=(s,)))
    return r
@prop('C22')
def beginnings(c):
    """a membership contract starts with nothing staked, or with exactly the weights given; queries report the records"""
    for crate in ALL:
        S_ = retagged(c.inst(crate), lambda ns, key, tag: None if tag and tag[0] == 'in' else tag); n = S_.name; m = P('msg'); ws = checkpoint_wants(m) if crate != 'denom_staking_membership' else []
        at = lambda v: [Want('as of the current block', is_save(ns + '#at', h, None), when=v) for ns, h in ((TH, HEIGHT), (TS, SECS))]
        if crate == MS:
            o = F(m, 'initial_weights'); g = is_variant(o, OPTION, 'Some'); lst = VF(o, 'Some'); s, e = spot(S_, lst); u = F(e, 'user'); w = F(e, 'weight')
            c.reach('%s: members possible' % n, A(S_.ok, g, nonempty((s,))))
            c.must('%s: members validated' % n, A(S_.ok, g, nonempty((s,))), atom('valid', u))
            c.must('%s: no member twice' % n, AND(S_.ok, g), distinct(lst, lambda x: F(x, 'user'), lambda x: F(x, 'weight')))
            ws.append(Want('weight of each member given', is_save(W, u, w), when=g, quants=(s,)))
            for ns in (TH, TS):
                f = moves(Z, s, weight(u), w, ns); f2 = moves(Z, s, Z, w, ns)
                ws.append(Want('total is the sum', lambda e_, f=f, f2=f2: OR(f(e_), f2(e_)), when=g))
        else: g = FALSE
        for ns, h in ((TH, HEIGHT), (TS, SECS)):
            ws.append(Want('nothing counted yet', snap(ns, h, lambda e_: eqt(e_.val, Z)), when=NOT(g)))
        check_writes(c, S_, ws + at(TRUE), ignore=only(W, TH, TS, TH + '#at', TS + '#at'))
        for S_ in (c.mig(crate), c.rep(crate, None)):
            for e in ns_writes(S_, W, TH, TS, TH + '#at', TS + '#at'): c.fail('%s: leaves weights alone' % S_.name, short_eff(e), loc_of(e, S_))

@prop('C22', 'C15', 'C42')
def weight_answers(c):
    """asked for a weight or a total, a membership contract answers with the one on record at the moment asked about"""
    for crate in ALL:
        S_, val = c.qval(crate, 'UserWeight'); n = S_.name; u = M(S_, 'UserWeight', 'user')
        c.reach('%s: can succeed' % n, S_.ok)
        c.must('%s: the weight on record' % n, S_.ok, A(eqt(F(val, 'user'), u), eqt(F(val, 'weight'), weight(u))))
        S_, val = c.qval(crate, 'TotalWeight'); n = S_.name; x = M(S_, 'TotalWeight', 'expiration'); ex = fq('cw_utils::expiration::Expiration')
        def hist(ns, h): return or0(atom('has@h', ns, h), mk('load@h', ns, h))
        for v, t in (('AtHeight', hist(TH, VF(x, 'AtHeight'))), ('AtTime', hist(TS, mk('secs', VF(x, 'AtTime')))), ('Never', total(TH))):
            c.reach('%s: %s possible' % (n, v), AND(S_.ok, is_variant(x, ex, v)))
            c.must('%s: the total on record, %s' % (n, v), AND(S_.ok, is_variant(x, ex, v)), OR(eqt(F(val, 'total_weight'), t), AND(eqt(F(val, 'total_weight'), total(TS)), v == 'Never')))

@prop('C09')
def restricted(c):
    """nobody restricted gains a stake; a signature is recorded for the signer only, for good"""
    for k in STAKING:
        n0 = 0
        for v in c.variants(k.crate):
            if v == 'Unstake': continue
            for S_, cs in calls(c, k, v):
                for x in cs:
                    for ch in x.changes:
                        n0 += 1
                        c.must('%s: no stake for restricted users' % S_.name, A(S_.ok, x.when, nonempty(ch.q), ch.cond), unrestricted(ch.u))
        c.ob('%s: stakes exist' % k.crate, n0 > 0)
    for v in c.variants('attestation'):
        S_ = c.ex('attestation', v); n = S_.name
        check_writes(c, S_, [Want('signature of the caller', is_mark('user_signatures', SENDER))] if v == 'SignAttestation' else [])
        check_msgs(c, S_, [])
        c.reach('%s: can succeed' % n, S_.ok)
    S_, val = c.qval('attestation', 'HasUserSigned'); n = S_.name
    c.must('%s: as recorded' % n, S_.ok, IFF(truth(F(val, 'has_signed')), has('user_signatures', M(S_, 'HasUserSigned', 'user')))); c.reach('%s: can succeed' % n, S_.ok)
    S_, val = c.qval('attestation', 'AttestationText'); c.must('%s: as recorded' % S_.name, S_.ok, eqt(F(val, 'text'), L('attestation_text')))
    S_ = c.inst('attestation'); check_writes(c, S_, [Want('text as given', is_save('attestation_text', None, F(P('msg'), 'attestation_text')))], ignore=lambda e: e.ns == 'contract_info')
    for S_ in (c.mig('attestation'), c.rep('attestation', None)):
        for e in S_.writes: c.ob('%s: leaves the records alone' % S_.name, e.ns == 'contract_info', short_eff(e), loc_of(e, S_))

# ------------------------------------------------------------------ custody of NFTs
@prop('C37')
def nft_custody(c):
    """an NFT is staked once at a time, for the member named, and given up only to that member"""
    k = STAKING[2]; ty = 'nft_staking_impl::nft_staking::NftStake' if 'nft_staking_impl::nft_staking::NftStake' in ADTS else fq('NftStake')
    for v in c.variants(k.crate):
        for S_, cs in calls(c, k, v):
            n = S_.name; ws = []
            if v == 'ReceiveNft':
                h = hook_msg(S_, v); t = M(S_, v, 'token_id'); st = isv(h, h.a[1], 'Stake'); u = VF(h, 'Stake', 'user')
                c.must('%s: only from the configured collection' % n, S_.ok, AND(has(k.cfg), eqt(nft_collection(k), SENDER)))
                c.must('%s: not staked already' % n, AND(S_.ok, st), NOT(has('nft_stakes', t)))
                c.must('%s: member validated' % n, AND(S_.ok, st), atom('valid', u))
                c.reach('%s: staking possible' % n, AND(S_.ok, st))
                ws = [Want('staked for the member named', is_save('nft_stakes', t, St(ty, staker=u, token_id=t)), when=st)]
            if v == 'Unstake':
                s = src(M(S_, v, 'nft_ids')); ws = [Want('NFT no longer staked', is_remove('nft_stakes', elem(s)), quants=(s,))]
                c.must('%s: only NFTs the caller staked' % n, AND(S_.ok, nonempty((s,))), AND(has('nft_stakes', elem(s)), eq(F(L('nft_stakes', elem(s)), 'staker'), SENDER)))
                c.reach('%s: can succeed' % n, AND(S_.ok, nonempty((s,))))
            check_writes(c, S_, ws, ignore=only('nft_stakes'))
            if v != 'Claim':
                # nothing is handed out except through claims: all messages are reports to listeners
                for e in S_.msgs: c.ob('%s: hands out no NFT' % n, any(q.op == 'range' and q.a[0] == HOOKS for q in e.quants) and not (strings_in(e.val) & {'TransferNft', 'SendNft'}) and not any(t.op == 'adt' and t.a[1] in ('TransferNft', 'SendNft', 'Approve', 'ApproveAll', 'Burn') for t in walk_terms(e.val)), short_eff(e), loc_of(e, S_))
    for S_ in (c.mig(k.crate), c.rep(k.crate, None), c.inst(k.crate)):
        for e in ns_writes(S_, 'nft_stakes'): c.fail('%s: leaves stakes alone' % S_.name, short_eff(e), loc_of(e, S_))
        c.ob('%s: sends nothing' % S_.name, not S_.msgs)
    # the claim side: own matured claims only (same rule as C24)
    for S_, x in given_opt(c, k.crate, 'Claim', 'user'):
        n = S_.name; u = x if x is not None else SENDER
        c.must('%s: only one\'s own claims' % n, S_.ok, eq(u, SENDER))
        r = user_claims(c, n, k, [q for e in S_.writes for q in e.quants], u, SENDER)
        if r is None: continue
        cl = L(k.claims, mk('rkey', r)); m = matured(k, cl); s = src(F(cl, 'nft_ids')); a = F(L(k.cfg), 'nft_contract_addr')
        check_msgs(c, S_, [Want('every NFT of a matured claim is handed back', is_msg(execute(VF(a, 'Cw721', 'contract'), V(CW721EXEC, 'TransferNft', recipient=u, token_id=elem(s)))), when=AND(m, isv(a, 'nft_staking_impl::config::NftContractAddr', 'Cw721')), quants=(r, s))])
    # bridge proxy
    X = 'ics721_callback_proxy'
    for v in c.variants(X):
        S_ = c.ex(X, v); n = S_.name; ws = []
        check_writes(c, S_, [])
        if v == 'Ics721ReceiveCallback':
            c.must('%s: only from the bridge' % n, S_.ok, AND(has('config'), eq(SENDER, F(L('config'), 'ics721_proxy'))))
            c.reach('%s: can succeed' % n, S_.ok)
            m = M(S_, v, 'msg'); hty = fq('ics721_callback_proxy_api::msg::Ics721HookMsg'); h = mk('parsed', m, hty); s = src(F(M(S_, v, 'original_packet'), 'token_ids'))
            ws = [Want('every NFT handed over is staked for the member named', is_msg(execute(M(S_, v, 'nft_contract'), V(CW721EXEC, 'SendNft', contract=VF(h, 'Stake', 'membership_contract'), token_id=F(elem(s), '0'), msg=mk('json', V('nft_staking_api::msg::Cw721HookMsg', 'Stake', user=VF(h, 'Stake', 'user')))))), when=AND(atom('jsonok', m, hty), is_variant(h, hty, 'Stake')), quants=(s,))]
        check_msgs(c, S_, ws)
    S_ = c.inst(X); p = F(P('msg'), 'ics721_proxy')
    c.must('%s: bridge validated' % S_.name, S_.ok, atom('valid', p))
    check_writes(c, S_, [Want('bridge recorded', is_save('config', None, St('ics721_callback_proxy_impl::config::Config', ics721_proxy=p)))], ignore=lambda e: e.ns == 'contract_info')
    for S_ in (c.mig(X), c.rep(X, None)):
        for e in S_.writes: c.ob('%s: leaves the records alone' % S_.name, e.ns == 'contract_info', short_eff(e), loc_of(e, S_))
