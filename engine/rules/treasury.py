"""Treasury: authority, spending, whitelists, v1 migration."""
from rule import *
from lib import empty
CR = 'enterprise_treasury'
ADMIN = F(L('config'), 'admin')
ADMIN_ONLY = AND(has('config'), eq(SENDER, ADMIN))
WL = ('native_asset_whitelist', 'cw20_asset_whitelist', 'cw1155_asset_whitelist')

@prop('C01')
def treasury_admin(c):
    """every treasury execute other than the migration step succeeds only for the configured admin"""
    vs = c.variants(CR)
    c.ob('treasury execute messages present', set(vs) >= {'SetAdmin', 'UpdateAssetWhitelist', 'UpdateNftWhitelist', 'Spend', 'DistributeFunds', 'ExecuteCosmosMsgs', 'PerformNextMigrationStep'})
    for v in vs:
        S_ = c.ex(CR, v)
        if v == 'PerformNextMigrationStep': continue
        c.must('%s: only the admin succeeds' % S_.name, S_.ok, ADMIN_ONLY, S_.name)
        c.reach('%s: the admin can succeed' % S_.name, AND(S_.ok, ADMIN_ONLY))

@prop('C01')
def treasury_admin_record(c):
    """the admin on record changes only through SetAdmin (to the validated given address) and is set once at instantiation"""
    CFG = 'enterprise_treasury::state::Config' if 'enterprise_treasury::state::Config' in ADTS else None
    for v in c.variants(CR):
        S_ = c.ex(CR, v)
        if v == 'SetAdmin':
            n = M(S_, v, 'new_admin')
            c.must('%s: new admin is validated' % S_.name, S_.ok, atom('valid', n))
            ws = [w for w in S_.writes if w.ns == 'config']
            c.ob('%s: stores the admin' % S_.name, bool(ws))
            for w in ws: c.must('%s: stored admin is the given one' % S_.name, w.guard, eqt(F(w.val, 'admin'), n), loc_of(w, S_))
            c.must('%s: admin always stored' % S_.name, S_.ok, O(*[w.guard for w in ws if w.kind == 'save']))
        else:
            for w in ns_writes(S_, 'config'): c.fail('%s: changes the treasury configuration' % S_.name, short_eff(w), loc_of(w, S_))
            c.ob('%s: does not touch the admin' % S_.name, True)
    for S_ in (c.mig(CR), c.rep(CR, None)):
        for w in ns_writes(S_, 'config'): c.fail('%s: changes the treasury configuration' % S_.name, short_eff(w), loc_of(w, S_))
        c.ob('%s: does not touch the admin' % S_.name, not S_.msgs)
    S_ = c.inst(CR)
    a = F(P('msg'), 'admin')
    c.must('%s: admin is validated' % S_.name, S_.ok, atom('valid', a))
    check_writes(c, S_, [Want('admin on record is the given one', lambda e: AND(TRUE if e.ns == 'config' and e.kind == 'save' else FALSE, eqt(F(e.val, 'admin'), a) if e.ns == 'config' else FALSE))], ignore=lambda e: e.ns != 'config')

@prop('C36')
def treasury_spend(c):
    """Spend sends each listed asset once, to the named recipient, and nothing else"""
    S_ = c.ex(CR, 'Spend'); s = src(M(S_, 'Spend', 'assets')); e = elem(s)
    check_msgs(c, S_, [Want('every listed asset goes to the recipient', no_reply(mk('transfer', e, M(S_, 'Spend', 'recipient'))), quants=(s,))])
    check_writes(c, S_, [])

@prop('C36')
def treasury_distribute(c):
    """DistributeFunds passes every native coin as funds of one native distribution and every token amount as a token distribution to the given distributor"""
    S_ = c.ex(CR, 'DistributeFunds'); s = src(M(S_, 'DistributeFunds', 'funds')); e = elem(s)
    d = M(S_, 'DistributeFunds', 'funds_distributor_contract')
    info, amt = F(e, 'info'), F(e, 'amount')
    isnat, iscw = is_variant(info, ASSETINFO, 'Native'), is_variant(info, ASSETINFO, 'Cw20')
    hook = V('funds_distributor_api::msg::Cw20HookMsg', 'Distribute')
    send = execute(VF(info, 'Cw20'), V(CW20EXEC, 'Send', contract=d, amount=amt, msg=mk('json', hook)))
    nat = execute(d, V('funds_distributor_api::msg::ExecuteMsg', 'DistributeNative'), coll('vec', (((s,), isnat, coinv(VF(info, 'Native'), amt)),)))
    c.must('%s: distributor address validated' % S_.name, S_.ok, atom('valid', d))
    check_msgs(c, S_, [Want('every token amount is sent to the distributor as a distribution', no_reply(send), when=iscw, quants=(s,)),
                       Want('all native coins are distributed', no_reply(nat), when=any_((s,), isnat))])
    check_writes(c, S_, [])
    c.must('%s: other asset kinds are refused' % S_.name, S_.ok, NOT(any_((s,), is_variant(info, ASSETINFO, 'Cw1155'))))

@prop('C36')
def treasury_execute_msgs(c):
    """ExecuteCosmosMsgs forwards exactly the listed messages"""
    S_ = c.ex(CR, 'ExecuteCosmosMsgs'); s = src(M(S_, 'ExecuteCosmosMsgs', 'msgs')); e = elem(s)
    check_msgs(c, S_, [Want('every listed message is forwarded as given', lambda ef: eqt(msg_of(ef), mk('parsed', e, COSMOS)), quants=(s,), ordered=True)])
    check_writes(c, S_, [])

@prop('C36')
def treasury_whitelists(c):
    """whitelist updates add exactly the listed assets/collections and remove exactly the listed ones; whitelisting moves no funds"""
    S_ = c.ex(CR, 'UpdateAssetWhitelist')
    W = []
    for fld, op in (('add', 'save'), ('remove', 'remove')):
        s = src(M(S_, 'UpdateAssetWhitelist', fld)); e = elem(s)
        for v, ns, key in (('Native', 'native_asset_whitelist', VF(e, 'Native')), ('Cw20', 'cw20_asset_whitelist', VF(e, 'Cw20')), ('Cw1155', 'cw1155_asset_whitelist', mk('tup', VF(e, 'Cw1155'), VF(e, 'Cw1155', '1')))):
            sh = is_save(ns, key, None) if op == 'save' else is_remove(ns, key)
            if v == 'Cw1155' and op == 'save': continue
            W.append(Want('%s listed %s asset' % (op, v), sh, when=is_variant(e, ASSETINFO, v), quants=(s,), must=not (v == 'Cw1155')))
    check_writes(c, S_, W)
    check_msgs(c, S_, [])
    S_ = c.ex(CR, 'UpdateNftWhitelist')
    a, r = src(M(S_, 'UpdateNftWhitelist', 'add')), src(M(S_, 'UpdateNftWhitelist', 'remove'))
    check_writes(c, S_, [Want('listed collection added', is_save('nft_whitelist', elem(a), None), quants=(a,)), Want('listed collection removed', is_remove('nft_whitelist', elem(r)), quants=(r,))])
    check_msgs(c, S_, [])
    S_ = c.inst(CR)
    s = src(VF(F(P('msg'), 'asset_whitelist'), 'Some')); e = elem(s); n = src(VF(F(P('msg'), 'nft_whitelist'), 'Some'))
    some = lambda f: is_variant(F(P('msg'), f), OPTION, 'Some')
    check_writes(c, S_, [Want('initial native asset whitelisted', is_save('native_asset_whitelist', VF(e, 'Native'), None), when=AND(some('asset_whitelist'), is_variant(e, ASSETINFO, 'Native')), quants=(s,)),
                         Want('initial token whitelisted', is_save('cw20_asset_whitelist', VF(e, 'Cw20'), None), when=AND(some('asset_whitelist'), is_variant(e, ASSETINFO, 'Cw20')), quants=(s,)),
                         Want('initial collection whitelisted', is_save('nft_whitelist', elem(n), None), when=some('nft_whitelist'), quants=(n,))],
                 ignore=lambda e: e.ns not in WL + ('nft_whitelist',))

STAGE = L('migration_stage')
def stage(n): return is_variant(STAGE, fq('enterprise_treasury::migration_stages::MigrationStage'), n)
def strip_take(q):
    return tuple(x.a[0] if x.op == 'take' else x for x in q)

@prop('C34')
def treasury_migration(c):
    """the open migration step runs only while stakes or claims are left, moves each old stake to the membership contract exactly once and forgets it"""
    S_ = c.ex(CR, 'PerformNextMigrationStep')
    un = NOT(A(*[atom('mapempty', n, 0) for n in ('stakes', 'nft_stakes', 'claims')]))
    c.must('%s: only during an unfinished migration' % S_.name, S_.ok, AND(has('migration_stage'), OR(stage('MigrationInProgress'), AND(stage('MigrationCompleted'), un))))
    DT = fq('enterprise_protocol::api::DaoType')
    tok = is_variant(L('dao_type'), DT, 'Token'); nft = is_variant(L('dao_type'), DT, 'Nft')
    mem = VF(F(L('migration_info'), 'membership_contract'), 'Some'); asset = L('dao_membership_contract')
    c.must('%s: membership contract known' % S_.name, S_.ok, AND(has('migration_info'), is_variant(F(L('migration_info'), 'membership_contract'), OPTION, 'Some')))
    allowed = {'stakes', 'nft_stakes', 'claims', 'migrated_user_weights', 'migration_stage'}
    for w in S_.writes: c.ob('%s: writes only migration state' % S_.name, w.ns in allowed, short_eff(w), loc_of(w, S_))
    n_st = n_nft = n_cl = n_ncl = 0
    def rng(q, ns): return q.op == 'range' and q.a[0] == ns and q.a[3] is NONE and q.a[4] is NONE
    # messages: only sends of the DAO asset to the membership contract
    for e in S_.msgs:
        w = wasm_exec(e)
        if w is None or w[1].op != 'json' or w[1].a[0].op != 'adt':
            c.fail('%s: unexpected message' % S_.name, short_eff(e)); continue
        addr, pl, funds = w; pl = pl.a[0]
        c.must('%s: acts on the DAO asset contract' % S_.name, e.guard, AND(eqt(addr, asset), eqt(funds, vec())))
        if pl.a[1] == 'Send' and pl.a[0] == CW20EXEC:
            h = F(pl, 'msg')
            c.must('%s: tokens go to the membership contract' % S_.name, e.guard, AND(eqt(F(pl, 'contract'), mem), tok))
            h = h.a[0] if h.op == 'json' else h
            if h.op == 'adt' and h.a[1] == 'AddStakes':
                n_st += 1
                ps = parts_of(F(h, 'stakers'))
                okp = len(ps) == 1 and len(ps[0][0]) == 1 and ps[0][1] == TRUE
                q = ps[0][0][0] if okp else None
                r = strip_take((q,))[0] if okp else None
                c.ob('%s: all handled stakers are handed over' % S_.name, okp and rng(r, 'stakes'), pp(F(h, 'stakers'))[:400])
                if okp and rng(r, 'stakes'):
                    k = mk('rkey', r); v = L('stakes', k)
                    c.must('%s: staker and amount handed over as stored' % S_.name, e.guard, AND(eqt(F(ps[0][2], 'user'), k), eqt(F(ps[0][2], 'staked_amount'), v)))
                    c.must('%s: amount sent is the sum of the stakes handed over' % S_.name, e.guard, eqt(F(pl, 'amount'), mk('sum', (q,), TRUE, v)))
            elif h.op == 'adt' and h.a[1] == 'AddClaims':
                n_cl += 1; handed_claims(c, S_, e, F(h, 'claims'), rng)
            else: c.fail('%s: unexpected token hook' % S_.name, short_eff(e))
        elif pl.a[1] == 'SendNft':
            h = F(pl, 'msg'); h = h.a[0] if h.op == 'json' else h
            c.must('%s: NFTs go to the membership contract' % S_.name, e.guard, AND(eqt(F(pl, 'contract'), mem), nft))
            if h.op == 'adt' and h.a[1] == 'Stake':
                n_nft += 1
                r = strip_take(e.quants)
                okp = len(r) == 1 and rng(r[0], 'nft_stakes')
                c.ob('%s: every handled NFT stake is handed over' % S_.name, okp)
                if okp:
                    v = L('nft_stakes', mk('rkey', r[0]))
                    c.must('%s: NFT and staker handed over as stored' % S_.name, e.guard, AND(eqt(F(pl, 'token_id'), F(v, 'token_id')), eqt(F(h, 'user'), F(v, 'staker'))))
            elif h.op == 'adt' and h.a[1] == 'AddClaim':
                n_ncl += 1
                r = strip_take(tuple(x for x in e.quants if x.op != 'while'))
                okp = len(r) >= 3 and rng(r[0], 'claims')
                c.ob('%s: NFT claims come from the stored claims' % S_.name, okp)
                if okp:
                    cl = elem(r[1]); tk = elem(r[2])
                    c.must('%s: claimed NFT, owner and release time handed over as stored' % S_.name, e.guard, A(eqt(F(pl, 'token_id'), tk), eqt(F(h, 'user'), mk('rkey', r[0])), eqt(F(h, 'release_at'), F(cl, 'release_at'))))
                    i = e.quants.index([x for x in e.quants if x.op != 'while'][0]) + 1
                    gone = [w.guard for w in S_.writes if w.ns == 'claims' and w.kind == 'remove' and w.key is mk('rkey', r[0]) and w.quants == e.quants[:i]]
                    # the message itself witnesses that the walk meets a member with a claim on an NFT
                    tk0 = e.quants[i - 1:i]; known = A(any_(tk0, any_((r[1],), AND(NOT(is_variant(F(cl, 'asset'), fq('enterprise_treasury::migration::ClaimAsset'), 'Cw20')), nonempty((r[2],))))), any_(tk0, nonempty((r[1],))))
                    # without a limit in the message, its value is nothing a guard may rest on
                    lim = M(S_, 'PerformNextMigrationStep', 'submsgs_limit'); nolim = is_variant(lim, OPTION, 'None')
                    for v in set(B.support(O(*gone))):
                        if atomkey(v)[0] == 'eq' and VF(lim, 'Some') in atomkey(v)[1:]: known = AND(known, IMP(nolim, NOT(B.mk(v, FALSE, TRUE))))
                    c.must('%s: NFT claims handed over do not stay' % S_.name, A(S_.ok, e.guard, nonempty(e.quants), known), O(*gone))
            else: c.fail('%s: unexpected NFT hook' % S_.name, short_eff(e))
        else: c.fail('%s: unexpected message %s' % (S_.name, eff_name(e)), short_eff(e))
    c.ob('%s: stakes and claims of both kinds are handed over' % S_.name, n_st and n_nft and n_cl and n_ncl, str((n_st, n_nft, n_cl, n_ncl)))
    # storage: each handled stake is removed and its weight recorded
    for ns, cond in (('stakes', tok), ('nft_stakes', nft)):
        rm = [w for w in S_.writes if w.ns == ns]
        cov = FALSE; R = None
        for w in rm:
            r = strip_take(w.quants)
            okp = w.kind == 'remove' and len(r) == 1 and rng(r[0], ns) and w.key is mk('rkey', r[0])
            c.ob('%s: old %s entries are removed, never rewritten' % (S_.name, ns), okp, short_eff(w), loc_of(w, S_))
            if okp: cov = OR(cov, w.guard); R = w
        need = FALSE
        for e in S_.msgs:
            if ns == 'nft_stakes' and strip_take(e.quants) and rng(strip_take(e.quants)[0], ns): need = OR(need, AND(e.guard, nonempty(e.quants)))
            if ns == 'stakes' and 'AddStakes' in pp(msg_of(e), 3) : pass
        if R is not None:
            ne = AND(S_.ok, AND(cond, nonempty(R.quants)))
            c.must('%s: every handled entry of %s is removed' % (S_.name, ns), ne, cov)
            mw = [w for w in S_.writes if w.ns == 'migrated_user_weights' and w.quants == R.quants]
            k = mk('rkey', strip_take(R.quants)[0])
            mcov = FALSE
            for w in mw:
                if ns == 'stakes': okv = AND(eqt(w.key, k), eqt(w.val, L('stakes', k)))
                else:
                    u = F(L('nft_stakes', k), 'staker')
                    inc = any_inc(w.val, u)
                    okv = AND(eqt(w.key, u), TRUE if inc else FALSE)
                c.must('%s: migrated weight of %s recorded' % (S_.name, ns), w.guard, okv, loc_of(w, S_))
                mcov = OR(mcov, w.guard)
            c.must('%s: weight recorded for every handled entry of %s' % (S_.name, ns), ne, mcov)
        else: c.fail('%s: handled entries of %s are not removed' % (S_.name, ns))
    st = [w for w in S_.writes if w.ns == 'migration_stage']
    c.ob('%s: stage recorded' % S_.name, bool(st))
    for w in st: c.ob('%s: stage never goes back to not-started' % S_.name, w.kind == 'save' and all(x.op == 'adt' and x.a[1] in ('MigrationInProgress', 'MigrationCompleted') for g, x in alts(w.val) if possible(AND(w.guard, g))), short_eff(w))
    c.must('%s: stage always recorded' % S_.name, S_.ok, O(*[w.guard for w in st]))
    for w in st:
        for g, x in alts(w.val):
            g = A(S_.ok, w.guard, g)
            if x.op != 'adt' or x.a[1] != 'MigrationCompleted' or not possible(g): continue
            cs = dict.fromkeys(t for v in B.support(g) for z in atomkey(v)[1:] if isinstance(z, T) for t in walk_terms(z) if t.op == 'cnt')
            for ns, cond in (('stakes', tok), ('nft_stakes', nft)):
                mine = [t for t in cs if any(q.op == 'take' and rng(q.a[0], ns) for q in t.a[0])]
                left = NOT(OR(atom('mapempty', ns, 0), TRUE if any(atomkey(v)[0] == 'mapempty' and atomkey(v)[1] == ns and entails(g, B.mk(v, FALSE, TRUE)) for v in B.support(g)) else FALSE))
                nm = '%s: not declared complete when the limit of one step was used up (%s)' % (S_.name, ns)
                if not mine: c.must(nm, A(g, cond, left), FALSE, loc_of(w, S_))
                for t in mine:
                    for g2, lim in [al for q in t.a[0] if q.op == 'take' for al in alts(q.a[1])]:
                        c.must(nm, A(used_up(AND(g, g2), t, lim), cond, left), FALSE, loc_of(w, S_))

def handed_claims(c, S_, e, v, rng):
    """every stored token claim gone through is either handed over as it is stored, or stays stored as it is"""
    n = 0; CLAIM_ASSET = fq('enterprise_treasury::migration::ClaimAsset')
    for qs, g, x in parts_of(v):
        if x.op == 'elem' and x.a[0].op == 'earlier':
            sub = [(tuple(q) , g2, y) for q, g2, y in x.a[0].a[1].a[1]]
        else: sub = [(qs, g, x)]
        for q2, g2, y in sub:
            if y.op == 'elem' and y.a[0].op == 'prevsrc': continue
            okp = y.op == 'adt' and y.a[1] == 'UserClaim'
            k = F(y, 'user') if okp else None
            cl = elem(q2[-1]) if q2 and q2[-1].op == 'src' else None
            okp = okp and k.op == 'rkey' and rng(k.a[0], 'claims') and cl is not None and cl.a[0].a[0].op == 'load' and cl.a[0].a[0].a[0] == 'claims' and cl.a[0].a[0].a[1] is k
            if not c.ob('%s: token claims handed over are stored claims' % S_.name, okp, pp(y)[:300]): continue
            n += 1
            c.must('%s: claimed amount and release time handed over as stored' % S_.name, AND(e.guard, g2), A(is_variant(F(cl, 'asset'), CLAIM_ASSET, 'Cw20'), eqt(F(y, 'claim_amount'), F(VF(F(cl, 'asset'), 'Cw20'), 'amount')), eqt(F(y, 'release_at'), F(cl, 'release_at'))))
    c.ob('%s: token claims are handed over' % S_.name, n > 0)
    # what stays
    base = AND(e.guard, S_.ok)
    for w in S_.writes:
        if w.ns != 'claims' or not sat(AND(base, w.guard)): continue
        if w.kind == 'save':
            # once nothing is left the member is forgotten: what was handed over does not stay
            E = empty(w.val); G = B.exists(w.guard, [i for i in B.support(E) if atomkey(i)[0] == 'any' or any(isinstance(z, T) and z.op == 'len' for z in atomkey(i)[1:])])
            c.must('%s: claims handed over do not stay' % S_.name, A(base, G, E), O(*[x.guard for x in S_.writes if x.ns == 'claims' and x.quants == w.quants and x.key is w.key]), loc_of(w, S_))
            for qs, g, x in parts_of(w.val):
                c.ob('%s: claims left are stored claims, unchanged' % S_.name, len(qs) == 1 and x is elem(qs[0]), pp(x)[:300], loc_of(w, S_))
                src_ = qs[0].a[0] if len(qs) == 1 else None
                if w.key.op != 'rkey': continue
                c.ob('%s: claims left are those of their owner' % S_.name, src_ is not None and src_.op == 'load' and src_.a[:2] == ('claims', w.key), pp(w.val)[:300], loc_of(w, S_))
                c.must('%s: a claim of another kind stays' % S_.name, A(base, w.guard, nonempty(qs), NOT(is_variant(F(x, 'asset'), CLAIM_ASSET, 'Cw20'))), B.exists(g, [i for i in B.support(g) if any(t.op == 'prev' for z in atomkey(i)[1:] if isinstance(z, T) for t in walk_terms(z))]), loc_of(w, S_))
        else:
            left = [x for x in S_.writes if x.ns == 'claims' and x.kind == 'save' and x.quants == w.quants and x.key is w.key]
            if left and w.key.op == 'rkey':
                q = ([qs[0] for x in left for qs, _, _ in parts_of(x.val) if len(qs) == 1] or [src(L('claims', w.key))])[0]
                c.must('%s: a member with a claim of another kind is not forgotten' % S_.name, AND(base, w.guard), NOT(any_((q,), NOT(is_variant(F(elem(q), 'asset'), CLAIM_ASSET, 'Cw20')))), loc_of(w, S_))
            elif left: c.must('%s: a member is forgotten only when no claim is left' % S_.name, AND(base, w.guard), NOT(O(*[nonempty((src(x.val),)) for x in left])), loc_of(w, S_))
            else: c.fail('%s: claims that cannot be handed over are not kept' % S_.name, short_eff(w), loc_of(w, S_))

def used_up(g, t, lim):
    """the guard once the number of entries gone through is the whole limit"""
    def one(v):
        k = atomkey(v)
        if k[0] not in ('eq', 'lt') or not any(isinstance(z, T) and t in TM.lin(z)[1] for z in k[1:]): return B.mk(v, FALSE, TRUE)
        # compared by difference, so that what is common to both sides cancels
        d = [add(sub(z, t), lim) if t in TM.lin(z)[1] else z for z in k[1:3]]
        n0, l0 = TM.lin(d[0]); n1, l1 = TM.lin(d[1])
        rest = {x: l1.get(x, 0) - l0.get(x, 0) for x in {**l0, **l1} if l1.get(x, 0) != l0.get(x, 0)}
        if any(x.op not in ('cnt', 'prev') or m != 1 for x, m in rest.items()): return (eq if k[0] == 'eq' else lt)(*d)
        n = n1 - n0                       # second - first = n + (something that is never negative)
        r = ZERO
        for x in rest: r = add(r, x)
        if k[0] == 'eq': return (FALSE if n > 0 else eq(r, I(-n))) if rest else (TRUE if n == 0 else FALSE)
        return (TRUE if n > 0 else lt(I(-n), r)) if rest else (TRUE if n > 0 else FALSE)
    return B.subst(g, one)

def any_inc(v, u):
    """v = previous migrated weight of the same user (or 0) + 1"""
    for g, x in alts(v):
        k, d = TM.lin(x)
        if k != 1: return False
        if d and not (len(d) == 1 and list(d.values()) == [1] and list(d)[0].op == 'load' and list(d)[0].a[0] == 'migrated_user_weights' and list(d)[0].a[1] is u): return False
    return True
