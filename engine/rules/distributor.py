"""Reward distributor: who may feed weights, settlement before weight changes, distribution, claims."""
from rule import *
CR = 'funds_distributor'
WEIGHTS = {'user_weights', 'effective_user_weights', 'total_weight', 'minimum_eligible_weight'}
FIXED = {'admin', 'enterprise_contract'}
KINDS = (('native', 'denom', 'NativeDistribution'), ('cw20', 'cw20_asset', 'Cw20Distribution'))
Z = I(0)
def comps(): return Q(L('enterprise_contract'), V('enterprise_protocol::msg::QueryMsg', 'ComponentContracts'))
def rng(ns):
    return mk('range', ns, None, mk('tup'), NONE, NONE, adt('cosmwasm_std::iterator::Order', 'Ascending', (), ()), 0)
def or0(g, t): return phi([(g, t), (NOT(g), Z)])
def now_tags(*written):
    """reads of namespaces the loop writes: made in the iteration = current; made before the loop = stale"""
    def f(ns, key, tag):
        if ns not in written: return None
        if tag is None: return ('stale',) if key is not None else None
        return None if tag[0] == 'in' else tag
    return f
def eff_weight(w, m): return phi([(lt(w, m), Z), (NOT(lt(w, m)), w)])
def ranges(S_, ns):
    return {q for e in S_.writes for q in e.quants if q.op == 'range' and q.a[0] == ns}
def whole(r): return r.a[2] is mk('tup') and r.a[3] is NONE and r.a[4] is NONE

def settled(c, S_, s, user, oldw, when, known):
    """all rewards accrued by `user` under the weight `oldw` are booked for every asset when `when` holds"""
    n = S_.name
    for kind, fld, ty in KINDS:
        ns = kind + '_distributions'; gi = kind + '_global_indices'
        effs = [e for e in S_.writes if e.ns == ns]
        rs = ranges(S_, gi)
        if not c.ob('%s: every %s asset is settled' % (n, kind), len(rs) == 1 and all(whole(r) for r in rs), str([pp(r)[:100] for r in rs])): continue
        r = next(iter(rs)); asset = mk('rkey', r); g = L(gi, asset); k = mk('tup', user, asset); d = L(ns, k); h = has(ns, k)
        cov = FALSE
        for e in effs:
            okq = c.ob('%s: %s booked per member and asset' % (n, kind), e.kind == 'save' and normq(e.quants) == normq((s, r)), short_eff(e), loc_of(e, S_))
            if not okq: continue
            c.must('%s: %s booked under the member and the asset' % (n, kind), e.guard, AND(eqt(e.key, k), OR(A(NOT(known), h, eqt(e.val, d)), AND(eqt(F(e.val, 'user'), user), eqt(F(e.val, fld), asset)))), loc_of(e, S_))
            acc = lambda idx, pend: A(eqt(F(e.val, 'user_index'), g), eqt(F(e.val, 'pending_rewards'), add(MF(oldw, sub(g, idx)), pend)))
            full = OR(AND(h, acc(F(d, 'user_index'), F(d, 'pending_rewards'))), AND(NOT(h), acc(Z, Z)))
            fresh = OR(AND(NOT(h), A(eqt(F(e.val, 'user_index'), g), eqt(F(e.val, 'pending_rewards'), Z))), AND(h, eqt(e.val, d)))
            c.must('%s: %s rewards are booked under the old weight before it changes' % (n, kind), AND(e.guard, known), full, loc_of(e, S_))
            c.must('%s: a newcomer starts at the current %s index with nothing' % (n, kind), AND(e.guard, NOT(known)), fresh, loc_of(e, S_))
            cov = OR(cov, e.guard)
        c.must('%s: %s settled for every member concerned' % (n, kind), A(S_.ok, nonempty((s,)), nonempty((r,)), when), O(cov, A(NOT(known), h), A(h, eq(F(d, 'user_index'), g))))

def MF(w, d): return lift2(w, d, lambda x, y: mk('mulfloor', x, y) if x is not Z and y is not Z else Z)
def total_is(init, s, cond, old, new, fact=TRUE):
    """shape: the total grows, over the members s with cond, by exactly new - old each"""
    want = phi([(cond, sub(new, old)), (NOT(cond), Z)])
    def f(e):
        if e.kind != 'save' or e.ns != 'total_weight' or e.quants: return FALSE
        r = FALSE
        for h, v in alts(e.val):
            for h2, i in alts(init):
                g = AND(h, h2)
                if g == 0: continue
                k, d = lin(sub(v, i))
                if k or any(t.op != 'sum' or t.a[0] != (s,) for t in d): continue
                de = Z
                for t, c_ in d.items(): de = add(de, mul(I(c_), phi([(t.a[1], t.a[2]), (NOT(t.a[1]), Z)])))
                r = OR(r, AND(g, NOT(any_((s,), AND(fact, NOT(eqt(de, want)))))))
        return r
    return f

@prop('C26', 'C29')
def weights_update(c):
    """new weights: settle first, then record the weight, the effective weight and the total"""
    S_ = retagged(c.ex(CR, 'UpdateUserWeights'), now_tags('effective_user_weights', 'native_distributions', 'cw20_distributions', 'user_weights')); n = S_.name
    s = src(M(S_, 'UpdateUserWeights', 'new_user_weights')); e = elem(s); user = F(e, 'user'); w = F(e, 'weight')
    c.reach('%s: can succeed' % n, AND(S_.ok, nonempty((s,))))
    hw = has('effective_user_weights', user); ow = L('effective_user_weights', user)
    settled(c, S_, s, user, ow, TRUE, hw)
    mn = L('minimum_eligible_weight'); ew = eff_weight(w, mn)
    tot = [x for x in S_.writes if x.ns == 'total_weight']
    check_writes(c, S_, [Want('weight recorded', is_save('user_weights', user, w), quants=(s,)), Want('effective weight recorded', is_save('effective_user_weights', user, ew), quants=(s,)),
                         Want('total follows', total_is(or0(has('total_weight'), L('total_weight')), s, TRUE, or0(hw, ow), ew))], ignore=lambda x: x.ns.endswith('_distributions'))
    check_msgs(c, S_, [])

@prop('C26', 'C29')
def minimum_update(c):
    """a new minimum: members whose eligibility changes are settled under their old effective weight, then counted with the new one"""
    S_ = retagged(c.ex(CR, 'UpdateMinimumEligibleWeight'), now_tags('effective_user_weights', 'native_distributions', 'cw20_distributions')); n = S_.name
    new = M(S_, 'UpdateMinimumEligibleWeight', 'minimum_eligible_weight'); old = L('minimum_eligible_weight')
    rs = ranges(S_, 'user_weights')
    if not c.ob('%s: goes through all members' % n, len(rs) == 1 and all(whole(r) for r in rs), str([pp(r)[:100] for r in rs])): return
    s = next(iter(rs)); user = mk('rkey', s); w = L('user_weights', user); ow = or0(has('effective_user_weights', user), L('effective_user_weights', user))
    fact = order(w, old, new); S_ = assuming(S_, fact)
    ch = B.ite(lt(w, old), NOT(lt(w, new)), lt(w, new)); ew = eff_weight(w, new); df = NOT(eq(old, new))
    c.reach('%s: can raise' % n, A(S_.ok, lt(old, new), nonempty((s,)))); c.reach('%s: can lower' % n, A(S_.ok, lt(new, old), nonempty((s,))))
    settled(c, S_, s, user, ow, ch, TRUE)
    check_writes(c, S_, [Want('minimum recorded', is_save('minimum_eligible_weight', None, new), when=df), Want('minimum unchanged', is_save('minimum_eligible_weight', None, new), must=False),
                         Want('effective weight follows the minimum', is_save('effective_user_weights', user, ew), quants=(s,), when=ch), Want('effective weight kept', is_save('effective_user_weights', user, ew), quants=(s,), must=False),
                         Want('total follows', total_is(or0(has('total_weight'), L('total_weight')), s, ch, ow, ew, fact), when=df), Want('total kept', is_save('total_weight', None, L('total_weight')), when=NOT(df), must=False)], ignore=lambda x: x.ns.endswith('_distributions'))
    check_msgs(c, S_, [])
    S_, val = c.qval(CR, 'MinimumEligibleWeight')
    c.must('%s: as recorded' % S_.name, S_.ok, eqt(F(val, 'minimum_eligible_weight'), old))

@prop('C05', 'C26', 'C29')
def feeding(c):
    """weights, minimum and total change only for the admin; admin and DAO are fixed at creation; initial weights are counted once each"""
    for v in c.variants(CR):
        S_ = c.ex(CR, v)
        c.reach('%s: can succeed' % S_.name, S_.ok)
        for w in S_.writes:
            c.ob('%s: admin and DAO stay' % S_.name, w.ns not in FIXED, short_eff(w), loc_of(w, S_))
            if w.ns in WEIGHTS: c.must('%s: %s only for the admin' % (S_.name, w.ns), w.guard, AND(has('admin'), eq(SENDER, L('admin'))), loc_of(w, S_))
        if v in ('UpdateUserWeights', 'UpdateMinimumEligibleWeight'): c.must('%s: only for the admin' % S_.name, S_.ok, AND(has('admin'), eq(SENDER, L('admin'))))
    for S_ in (c.mig(CR), c.rep(CR, None)):
        for w in S_.writes: c.ob('%s: leaves the records alone' % S_.name, w.ns in ('contract_info',), short_eff(w), loc_of(w, S_))
        c.ob('%s: sends nothing' % S_.name, not S_.msgs)
    S_ = retagged(c.inst(CR), now_tags('effective_user_weights', 'user_weights')); n = S_.name; m = P('msg')
    s = src(F(m, 'initial_weights')); e = elem(s); user = F(e, 'user')
    mo = F(m, 'minimum_eligible_weight'); mn = phi([(is_variant(mo, OPTION, 'Some'), VF(mo, 'Some')), (is_variant(mo, OPTION, 'None'), Z)])
    ew = eff_weight(F(e, 'weight'), mn)
    c.must('%s: admin and DAO validated' % n, S_.ok, AND(atom('valid', F(m, 'admin')), atom('valid', F(m, 'enterprise_contract'))))
    c.must('%s: members are validated' % n, AND(S_.ok, nonempty((s,))), atom('valid', user))
    c.must('%s: no member is counted twice' % n, AND(S_.ok, nonempty((s,))), NOT(AND(has('user_weights', user), has('effective_user_weights', user))))
    init = or0(has('total_weight'), L('total_weight'))
    check_writes(c, S_, [Want('admin', is_save('admin', None, F(m, 'admin'))), Want('DAO', is_save('enterprise_contract', None, F(m, 'enterprise_contract'))), Want('minimum', is_save('minimum_eligible_weight', None, mn)),
                         Want('weight recorded', is_save('user_weights', user, F(e, 'weight')), quants=(s,)), Want('effective weight recorded', is_save('effective_user_weights', user, ew), quants=(s,)),
                         Want('total counts everyone', total_is(init, s, TRUE, Z, ew))], ignore=lambda x: x.ns == 'contract_info')
    check_msgs(c, S_, [])

def whitelisted(S_, info, split=False):
    """guard: the asset is found on a page of the treasury's whitelist or on the factory's global one"""
    own = glob = FALSE; own_any = TRUE; co = comps(); tr = F(co, 'enterprise_treasury_contract'); fa = F(co, 'enterprise_factory_contract')
    for t in walk_terms(S_.ok):
        if t.op != 'src' or t.a[0].op != 'f' or t.a[0].a[1] != 'assets': continue
        q = t.a[0].a[0]
        if q.op != 'query' or q.a[1].op != 'adt': continue
        y = any_((t,), eqt(elem(t), info))
        if q.a[0] is tr and q.a[1].a[1] == 'AssetWhitelist': own = OR(own, y); own_any = AND(own_any, nonempty((t,)))
        if q.a[0] is fa and q.a[1].a[1] == 'GlobalAssetWhitelist': glob = OR(glob, y)
    return (own, glob, own_any) if split else OR(own, glob)
def whitelists_both(c, S_, n, info):
    own, glob, some_own = whitelisted(S_, info, True)
    c.reach('%s: assets of the own whitelist can be distributed' % n, A(S_.ok, own, NOT(glob)))
    c.reach('%s: assets of the global whitelist can be distributed by a DAO with a whitelist of its own' % n, A(S_.ok, glob, some_own, NOT(own)))

@prop('C28')
def distribution(c):
    """received funds raise the index of their asset by amount / total weight; only whitelisted assets, never with nobody eligible"""
    tot = L('total_weight')
    S_ = retagged(c.ex(CR, 'DistributeNative'), now_tags('native_global_indices')); n = S_.name; s = src(FUNDS); e = elem(s); d = F(e, 'denom')
    c.reach('%s: can succeed' % n, AND(S_.ok, nonempty((s,))))
    c.must('%s: refused when nobody is eligible' % n, S_.ok, AND(has('total_weight'), NOT(eq(tot, Z))))
    c.must('%s: only whitelisted coins' % n, AND(S_.ok, nonempty((s,))), whitelisted(S_, lib.ainfo('Native', d)))
    whitelists_both(c, S_, n, lib.ainfo('Native', d))
    check_writes(c, S_, [Want('index raised by amount per weight', is_save('native_global_indices', d, add(or0(has('native_global_indices', d), L('native_global_indices', d)), mk('ratio', F(e, 'amount'), tot))), quants=(s,))])
    check_msgs(c, S_, [])
    S_ = c.ex(CR, 'Receive'); n = S_.name; g = lambda f: M(S_, 'Receive', f)
    c.reach('%s: can succeed' % n, S_.ok)
    c.must('%s: refused when nobody is eligible' % n, S_.ok, AND(has('total_weight'), NOT(eq(tot, Z))))
    c.must('%s: only whitelisted tokens' % n, S_.ok, whitelisted(S_, lib.ainfo('Cw20', SENDER)))
    c.must('%s: only to distribute' % n, S_.ok, atom('jsonok', g('msg'), fq('funds_distributor_api::msg::Cw20HookMsg')))
    whitelists_both(c, S_, n, lib.ainfo('Cw20', SENDER))
    check_writes(c, S_, [Want('index raised by amount per weight', is_save('cw20_global_indices', SENDER, add(or0(has('cw20_global_indices', SENDER), L('cw20_global_indices', SENDER)), mk('ratio', g('amount'), tot))))])
    check_msgs(c, S_, [])
    for v in c.variants(CR):
        if v in ('DistributeNative', 'Receive'): continue
        S_ = c.ex(CR, v)
        for w in S_.writes: c.ob('%s: leaves the indices alone' % S_.name, not w.ns.endswith('_global_indices'), short_eff(w), loc_of(w, S_))

def due(kind, user, asset):
    """(condition that anything was distributed, reward due) of a member for an asset"""
    gi = kind + '_global_indices'; ns = kind + '_distributions'; k = mk('tup', user, asset); d = L(ns, k); h = has(ns, k)
    g = or0(has(gi, asset), L(gi, asset)); hw = has('effective_user_weights', user); w = or0(hw, L('effective_user_weights', user))
    return g, phi([(h, add(MF(w, sub(g, F(d, 'user_index'))), F(d, 'pending_rewards'))), (NOT(h), MF(w, g))])

def no_repeat(f):
    """the guard for a list without repetitions: nothing was seen before"""
    return TM.subst(f, {t: src(vec()) for t in walk_terms(f) if t.op in ('earlier', 'prevsrc')})
@prop('C27')
def claims(c):
    """a claim pays exactly the reward due for each requested asset to the claimant and resets it"""
    S_ = retagged(c.ex(CR, 'ClaimRewards'), now_tags('native_distributions', 'cw20_distributions')); n = S_.name; g = lambda f: M(S_, 'ClaimRewards', f); user = g('user')
    c.must('%s: only for oneself' % n, S_.ok, eq(SENDER, user)); c.reach('%s: can succeed' % n, AND(S_.ok, nonempty((src(g('native_denoms')), src(g('cw20_assets'))))))
    ms, ws = [], []
    for (kind, fld, ty), lst in zip(KINDS, ('native_denoms', 'cw20_assets')):
        s = src(g(lst)); a = elem(s); gi, r = due(kind, user, a); pay = AND(NOT(eq(gi, Z)), NOT(eq(r, Z)))
        if kind == 'native': ms.append(Want('native reward paid to the claimant', is_msg(bank_send(user, coinv(a, r))), when=pay, quants=(s,)))
        else: ms.append(Want('token reward paid to the claimant', is_msg(execute(a, V(CW20EXEC, 'Transfer', recipient=user, amount=r))), when=pay, quants=(s,)))
        ws.append(Want('%s reward reset' % kind, is_save(kind + '_distributions', mk('tup', user, a), St(fq('funds_distributor::%s_distributions::%s' % (kind, ty)), user=user, user_index=gi, pending_rewards=Z, **{fld: a})), when=pay, quants=(s,)))
        if kind == 'cw20': c.must('%s: token addresses validated' % n, AND(S_.ok, nonempty((s,))), atom('valid', a))
    check_msgs(c, S_, ms); check_writes(c, S_, ws)
    for v in c.variants(CR):
        if v != 'ClaimRewards':
            for m in c.ex(CR, v).msgs: c.fail('%s: pays nothing' % v, short_eff(m), loc_of(m, c.ex(CR, v)))
    # the query reports the same
    S_, val = c.qval(CR, 'UserRewards'); n = S_.name; g = lambda f: M(S_, 'UserRewards', f); user = g('user')
    for (kind, fld, ty), lst, out, nm in zip(KINDS, ('native_denoms', 'cw20_assets'), ('native_rewards', 'cw20_rewards'), ('denom', 'asset')):
        s = src(g(lst)); a = elem(s); gi, r = due(kind, user, a); cov = FALSE
        dup = no_repeat
        for q, gg, x in parts_of(F(val, out)):
            c.ob('%s: one %s per asset asked for' % (n, out), q == (s,) or (len(q) == 1 and q[0].op == 'uniq' and q[0].a[0] is s), pp(mk('tup', *q))[:200])
            c.must('%s: %s are what a claim would pay' % (n, out), A(S_.ok, gg), AND(eqt(F(x, nm), a), eqt(F(x, 'amount'), r)))
            cov = OR(cov, gg)
        c.must('%s: %s cover every asset asked for' % (n, out), dup(AND(S_.ok, nonempty((s,)))), dup(cov))

@prop('C09')
def claim_restriction(c):
    """rewards can not be claimed by a restricted user"""
    S_ = c.ex(CR, 'ClaimRewards'); u = M(S_, 'ClaimRewards', 'user')
    q = Q(L('enterprise_contract'), V('enterprise_protocol::msg::QueryMsg', 'IsRestrictedUser', _=St('enterprise_protocol::api::IsRestrictedUserParams', user=u)))
    c.must('%s: not while restricted' % S_.name, S_.ok, AND(has('enterprise_contract'), NOT(truth(F(q, 'is_restricted')))))
    c.reach('%s: possible when not restricted' % S_.name, S_.ok)
