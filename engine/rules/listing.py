"""Listing queries: bounded pages, ascending, strictly after the starting point, nothing left out."""
from rule import *
# contract, query, page size that is never exceeded, stored map, field of the parameters to start after
LISTS = [('enterprise_versioning', 'Versions', 50, 'versions', None), ('enterprise_factory', 'AllDaos', 100, 'dao_addresses', None), ('enterprise_factory', 'EnterpriseCodeIds', 100, 'enterprise_code_ids', None),
         ('enterprise_outposts', 'CrossChainTreasuries', 100, 'cross_chain_treasuries', None), ('enterprise_treasury', 'NftWhitelist', 100, 'nft_whitelist', None),
         ('token_staking_membership', 'Members', 100, 'membership_common__member_weights', None), ('denom_staking_membership', 'Members', 100, 'membership_common__member_weights', None),
         ('nft_staking_membership', 'Members', 100, 'membership_common__member_weights', None), ('multisig_membership', 'Members', 100, 'membership_common__member_weights', None),
         ('nft_staking_membership', 'StakedNfts', 100, 'nft_stakes', None), ('nft_staking_membership', 'UserStake', 100, 'nft_stakes', 'user')]
def bounded(c, n, g, k, mx, lim):
    """page size k: never above mx; the asked limit when that is within mx; positive by default"""
    none = is_variant(lim, OPTION, 'None'); x = VF(lim, 'Some')
    for h, t in alts(k):
        gg = AND(g, h)
        if not possible(gg): continue
        if t.op == 'i':
            c.ob('%s: never more than %d entries' % (n, mx), 0 < t.a[0] <= mx, 'page size %d' % t.a[0])
            c.must('%s: an asked limit within bounds is honoured' % n, AND(gg, NOT(none)), O(eq(x, t), lt(t, x)))
        else:
            c.must('%s: never more than %d entries' % (n, mx), gg, O(lt(t, I(mx)), eq(t, I(mx))))
            c.must('%s: page size is the asked limit' % n, gg, AND(NOT(none), eqt(t, x)))
def starts(c, n, g, lo, sa, key=lambda k: k):
    """lower bound lo: none iff no starting point is given, else strictly after it"""
    none = is_variant(sa, OPTION, 'None')
    for h, t in alts(lo):
        gg = AND(g, h)
        if not possible(gg): continue
        if t is NONE: c.must('%s: continues after the given starting point' % n, gg, none)
        else:
            b = VF(t, 'Some')
            okb = b.op == 'adt' and b.a[1] in ('Exclusive', 'ExclusiveRaw')
            c.ob('%s: the starting point itself is not repeated' % n, okb, pp(t)[:300])
            if okb: c.must('%s: continues after the given starting point' % n, gg, AND(NOT(none), eqt(b.a[3][0], key(VF(sa, 'Some')))))
def page(c, n, q, ns, mx, lim, sa, g, prefix=None):
    okq = q.op == 'take' and q.a[0].op == 'range'
    c.ob('%s: a bounded page of stored entries' % n, okq and q.a[0].a[0] == ns, pp(q)[:300])
    if not okq: return
    r, k = q.a[0], q.a[1]
    bounded(c, n, g, k, mx, lim)
    c.ob('%s: ascending order' % n, r.a[5].op == 'adt' and r.a[5].a[1] == 'Ascending', pp(r.a[5])[:100])
    c.ob('%s: no entry cut off at the end' % n, r.a[4] is NONE, pp(r.a[4])[:100])
    if prefix is not None: c.must('%s: only entries of the given %s' % (n, prefix[0]), g, eqt(r.a[2], prefix[1]))
    else: c.ob('%s: all entries' % n, r.a[2] is mk('tup'), pp(r.a[2])[:100])
    starts(c, n, g, r.a[3], sa)

@prop('C35', 'C42')
def listings(c):
    """each listing is one ascending page, bounded by the maximum, continuing strictly after the starting point, with no entry filtered out"""
    plain(c, LISTS); assets(c)
@prop('C30')
def version_listing(c):
    """the registry lists all its versions in ascending order, page after page, without gaps or repetition"""
    plain(c, [x for x in LISTS if x[:2] == ('enterprise_versioning', 'Versions')])
def plain(c, lists_):
    for cr, v, mx, ns, pre in lists_:
        S_, val = c.qval(cr, v); n = S_.name
        lists = [(f, x) for f, x in zip(val.a[2], val.a[3]) if any(t.op == 'coll' for _, t in alts(x))] if val.op == 'adt' else []
        c.ob('%s: answers with one list' % n, len(lists) == 1, pp(val)[:300])
        for f, x in lists:
            ps = [(AND(h, g), q) for h, y in alts(x) for q, g, e in parts_of(y)]
            ps = [(g, q) for g, q in ps if possible(AND(S_.ok, g))]
            c.ob('%s: lists stored entries' % n, bool(ps))
            cov = FALSE
            for g, q in ps:
                c.ob('%s: one entry per stored entry' % n, len(q) == 1, pp(val)[:300])
                if len(q) == 1: page(c, n, q[0], ns, mx, M(S_, v, 'limit'), M(S_, v, 'start_after'), AND(S_.ok, g), (pre, M(S_, v, pre)) if pre else None)
                cov = OR(cov, g)
            c.must('%s: no entry of the page is left out' % n, A(S_.ok, *[nonempty(q) for g, q in ps]), cov)
def assets(c):
    # treasury whitelist: three kinds of assets, one after the other
    S_, val = c.qval('enterprise_treasury', 'AssetWhitelist'); n = S_.name
    sa, lim = M(S_, 'AssetWhitelist', 'start_after'), M(S_, 'AssetWhitelist', 'limit')
    none = is_variant(sa, OPTION, 'None'); a = VF(sa, 'Some')
    ns = ['native_asset_whitelist', 'cw20_asset_whitelist', 'cw1155_asset_whitelist']
    un = 'cw_asset::AssetInfoBase'
    kinds = ['Native', 'Cw20', 'Cw1155']
    keyof = [VF(a, 'Native'), VF(a, 'Cw20'), mk('tup', VF(a, 'Cw1155'), VF(a, 'Cw1155', '1'))]
    isk = [is_variant(a, ASSETINFO, k) for k in kinds]
    ps = [(AND(h, g), q, e) for h, y in alts(F(val, 'assets')) for q, g, e in parts_of(y)]
    for first, cond in [(0, none)] + [(i, AND(NOT(none), isk[i])) for i in range(3)]:
        base = AND(S_.ok, cond); prev = []; lastk = -1; size = None; room = base
        for g, q, e in ps:
            gg = AND(g, base)
            if not possible(gg): continue
            okq = len(q) == 1 and q[0].op == 'take' and q[0].a[0].op == 'range' and q[0].a[0].a[0] in ns
            c.ob('%s: a bounded page of whitelisted assets' % n, okq, pp(q[0])[:200] if q else '')
            if not okq: continue
            k = ns.index(q[0].a[0].a[0]); r = q[0].a[0]
            c.ob('%s: kinds of assets in order, each once' % n, k > lastk and k >= first, '%s after %s' % (ns[k], ns[lastk] if lastk >= 0 else '-')); lastk = k
            c.ob('%s: ascending order' % n, r.a[5].op == 'adt' and r.a[5].a[1] == 'Ascending' and r.a[4] is NONE and r.a[2] is mk('tup'))
            c.must('%s: the asset is reported as stored' % n, gg, eqt(e, V(ASSETINFO, kinds[k], **({'_': mk('rkey', r)} if k < 2 else {'_': F(mk('rkey', r), '0'), '1': F(mk('rkey', r), '1')}))))
            if k == first and cond != none: starts(c, n, gg, r.a[3], sa, lambda x: keyof[k])
            else: c.ob('%s: later kinds from their start' % n, r.a[3] is NONE, pp(r.a[3])[:200])
            if size is None:
                size = q[0].a[1]; bounded(c, n, gg, size, 100, lim)
                c.must('%s: page starts right after the starting point' % n, base, g)
                c.ob('%s: first kind listed is the right one' % n, k == first, ns[k])
            else:
                left = size
                for p_ in prev: left = sub(left, mk('cnt', (p_,), TRUE))
                c.must('%s: exactly the room left is filled' % n, gg, eqt(q[0].a[1], left))
                room = AND(room, NOT(O(eqt(left, I(0)), lt(left, I(0)))))
                c.must('%s: filled while there is room' % n, room, g)
            prev.append(q[0])
        c.ob('%s: all kinds from the starting point on are listed' % n, len(prev) == 3 - first, str(len(prev)))

def asc(o): return O(*[g for g, x in alts(o) if x.op == 'adt' and x.a[1] == 'Ascending'])
def pagination_ok(c, n, g, pg, lim, sa, mx):
    c.must('%s: continues after the given starting point' % n, g, eqt(F(pg, 'start_after'), sa))
    c.must('%s: no entry cut off at the end' % n, g, is_variant(F(pg, 'end_at'), OPTION, 'None'))
    ob = F(pg, 'order_by')
    c.must('%s: ascending order' % n, g, OR(is_variant(ob, OPTION, 'None'), is_variant(VF(ob, 'Some'), fq('common::cw::Order'), 'Ascending')))
    c.must('%s: never more than %d entries' % (n, mx), g, is_variant(F(pg, 'limit'), OPTION, 'Some'))
    for h, x in alts(F(pg, 'limit')):
        if x is not NONE: bounded(c, n, AND(g, h), VF(x, 'Some'), mx, lim)

@prop('C35')
def proposal_listings(c):
    """proposals and votes are listed through the governance contract with a bounded limit and the given starting point; it lists them ascending, strictly after it"""
    CG = 'enterprise_governance_controller'
    for v, q, fld in (('Proposals', 'Polls', 'proposals'), ('ProposalVotes', 'PollVoters', 'votes')):
        S_, val = c.qval(CG, v); n = S_.name
        x = F(val, fld)
        qs = {t for t in walk_terms(x) if t.op == 'query' and t.a[1].op == 'adt' and t.a[1].a[1] == q}
        c.ob('%s: one listing asked of the governance contract' % n, len(qs) == 1, str(len(qs)))
        for t in qs:
            prm = VF(t.a[1], q)
            pagination_ok(c, n, S_.ok, F(prm, 'pagination'), M(S_, v, 'limit'), M(S_, v, 'start_after'), 100)
            if v == 'ProposalVotes':
                c.must('%s: votes of the given proposal' % n, S_.ok, eqt(F(prm, 'poll_id'), M(S_, v, 'proposal_id')))
                c.must('%s: exactly the votes listed' % n, S_.ok, eqt(x, F(t, 'votes')))
            else:
                s = src(F(t, 'polls'))
                ps = [(AND(h, g), qq, e) for h, y in alts(x) for qq, g, e in parts_of(y)]
                ps = [p_ for p_ in ps if possible(AND(S_.ok, p_[0]))]
                c.ob('%s: one proposal per poll listed' % n, bool(ps) and all(qq == (s,) for g, qq, e in ps), pp(x)[:300])
                c.must('%s: no poll left out' % n, S_.ok, O(*[g for g, _, _ in ps]))
                for g, qq, e in ps: c.must('%s: the proposal of that poll' % n, AND(S_.ok, g), eqt(F(e, 'proposal', 'id'), F(elem(s), 'id')))
                fl = M(S_, v, 'filter'); none = is_variant(fl, OPTION, 'None'); ft = F(prm, 'filter')
                c.must('%s: filtered only when asked' % n, S_.ok, IFF(none, is_variant(ft, OPTION, 'None')))
                FT, PF = fq('enterprise_governance_controller_api::api::ProposalStatusFilter'), fq('poll_engine_api::api::PollStatusFilter')
                for k in ('InProgress', 'Passed', 'Rejected'):
                    c.must('%s: filtered by the asked status' % n, A(S_.ok, NOT(none), is_variant(VF(fl, 'Some'), FT, k)), is_variant(VF(ft, 'Some'), PF, k))
    for v, fld, ns in (('Polls', 'polls', 'POLLS'), ('PollVoters', 'votes', 'VOTES')):
        S_, val = c.qval('enterprise_governance', v); n = S_.name
        pg = M(S_, v, 'pagination'); lim = F(pg, 'limit'); sa = F(pg, 'start_after'); nl = is_variant(lim, OPTION, 'None')
        ps = [(AND(h, g), q, e) for h, y in alts(F(val, fld)) for q, g, e in parts_of(y)]
        cov = FALSE
        for g, q, e in ps:
            gg = AND(S_.ok, g)
            if not possible(gg): continue
            cov = OR(cov, g)
            if not c.ob('%s: one entry per stored entry' % n, len(q) == 1): continue
            r = q[0]
            if r.op == 'take':
                c.must('%s: at most the asked limit' % n, gg, AND(NOT(nl), eqt(r.a[1], VF(lim, 'Some')))); r = r.a[0]
            else: c.must('%s: at most the asked limit' % n, gg, nl)
            if not c.ob('%s: lists stored entries' % n, r.op == 'range' and r.a[0] == ns, pp(r)[:200]): continue
            if v == 'Polls':
                fl = M(S_, v, 'filter')
                if r.a[1]: c.must('%s: filtered by the asked status' % n, gg, AND(NOT(is_variant(fl, OPTION, 'None')), eqt(r.a[2], mk('json', VF(fl, 'Some')))))
                else: c.must('%s: unfiltered when no status is asked' % n, gg, is_variant(fl, OPTION, 'None'))
                starts(c, n, gg, r.a[3], sa)
            else:
                c.must('%s: votes of the given poll' % n, gg, eqt(r.a[2], M(S_, v, 'poll_id')))
                starts(c, n, gg, r.a[3], sa, lambda x: mk('tup', x, M(S_, v, 'poll_id')))
            c.must('%s: nothing cut off' % n, AND(gg, is_variant(F(pg, 'end_at'), OPTION, 'None')), is_variant(r.a[4], OPTION, 'None'))
            c.must('%s: ascending by default' % n, AND(gg, is_variant(F(pg, 'order_by'), OPTION, 'None')), asc(r.a[5]))
            c.must('%s: the entry as stored' % n, gg, eqt(e, L(ns, mk('rkey', r))))
        c.must('%s: always lists' % n, S_.ok, cov)

@prop('C35', 'C42')
def voter_listing(c):
    """all votes of one voter are listed from the starting point on, up to the limit if one is asked for"""
    S_, val = c.qval('enterprise_governance', 'Voter'); n = S_.name
    lim = M(S_, 'Voter', 'limit'); nl = is_variant(lim, OPTION, 'None'); cov = FALSE
    c.reach('%s: answers' % n, S_.ok)
    for h, y in alts(F(val, 'votes')):
        for q, g, e in parts_of(y):
            gg = A(S_.ok, h, g)
            if not possible(gg): continue
            cov = OR(cov, AND(h, g))
            if not c.ob('%s: one entry per stored entry' % n, len(q) == 1): continue
            r = q[0]
            if r.op == 'take': c.must('%s: at most the asked limit' % n, gg, AND(NOT(nl), eqt(r.a[1], VF(lim, 'Some')))); r = r.a[0]
            else: c.must('%s: everything when no limit is asked' % n, gg, nl)
            if not c.ob('%s: lists stored votes' % n, r.op == 'range' and r.a[0] == 'VOTES' and not r.a[1], pp(r)[:200]): continue
            who = M(S_, 'Voter', 'voter_addr')
            c.must('%s: votes of the given voter' % n, gg, eqt(r.a[2], who))
            starts(c, n, gg, r.a[3], M(S_, 'Voter', 'start_after'))
            c.must('%s: nothing cut off' % n, gg, is_variant(r.a[4], OPTION, 'None'))
            c.must('%s: ascending' % n, gg, asc(r.a[5]))
            c.must('%s: the vote as stored' % n, gg, eqt(e, L('VOTES', mk('tup', who, mk('rkey', r)))))
    c.must('%s: always lists' % n, S_.ok, cov)
