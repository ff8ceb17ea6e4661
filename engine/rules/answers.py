"""What contracts answer when another contract (or a user) asks for a record or a setting."""
from rule import *
import rules.membership as MB
import rules.controller as CO
Z = I(0)
def or0(g, t): return phi([(g, t), (NOT(g), Z)])
def maybe(ns, k=None): return phi([(has(ns, k), V(OPTION, 'Some', _=L(ns, k))), (NOT(has(ns, k)), NONE)])

@prop('C42')
def records(c):
    """a question about one setting or record is answered with exactly what is recorded under the thing asked about"""
    def ans(crate, q, given=TRUE, **fields):
        S_, val = c.qval(crate, q); n = S_.name
        ok = A(S_.ok, given)
        c.reach('%s: answers' % n, ok)
        for f, want in fields.items():
            want = want(lambda p, q=q: M(S_, q, p)) if callable(want) else want
            c.must('%s: %s as recorded' % (n, f), ok, eqt(F(val, f), want))
        return S_, val
    # settings
    ans('enterprise_governance_controller', 'Config', enterprise_contract=L('enterprise_contract'))
    ans('enterprise_governance_controller', 'GovConfig', gov_config=CO.GC, dao_membership_contract=CO.CC('membership_contract'), dao_council_membership_contract=CO.CC('council_membership_contract'))
    ans('enterprise_treasury', 'Config', admin=F(L('config'), 'admin'))
    ans('ics721_callback_proxy', 'Config', ics721_proxy=F(L('config'), 'ics721_proxy'))
    ans('multisig_membership', 'Config', enterprise_contract=L(MB.ENT))
    ans('token_staking_membership', 'TokenConfig', enterprise_contract=L(MB.ENT), token_contract=F(L('config'), 'token_contract'), unlocking_period=F(L('config'), 'unlocking_period'))
    ans('denom_staking_membership', 'DenomConfig', enterprise_contract=L(MB.ENT), denom=F(L('config'), 'denom'), unlocking_period=F(L('config'), 'unlocking_period'))
    N = L('config_v1_2_0'); na = F(N, 'nft_contract_addr'); ty = fq('nft_staking_impl::config::NftContractAddr'); own = is_variant(na, ty, 'Cw721')
    S_, val = ans('nft_staking_membership', 'NftContractConfig', enterprise_contract=L(MB.ENT), unlocking_period=F(N, 'unlocking_period'))
    rt = fq('nft_staking_api::api::NftContract'); nc = F(val, 'nft_contract')
    for v, fs in (('Cw721', ('contract',)), ('Ics721', ('contract', 'class_id'))):
        c.must('%s: %s collections reported as such' % (S_.name, v), A(S_.ok, is_variant(na, ty, v)), A(is_variant(nc, rt, v), *[eqt(VF(nc, v, f), VF(na, v, f)) for f in fs]))
        c.reach('%s: %s possible' % (S_.name, v), A(S_.ok, is_variant(na, ty, v)))
    S_, val = ans('nft_staking_membership', 'NftConfig', enterprise_contract=L(MB.ENT), unlocking_period=F(N, 'unlocking_period'))
    c.must('%s: the collection on record' % S_.name, A(S_.ok, own), eqt(F(val, 'nft_contract'), VF(na, 'Cw721', 'contract'))); c.reach('%s: collection possible' % S_.name, A(S_.ok, own))
    br = Q(VF(na, 'Ics721', 'contract'), V('ics721_types::ics721::Ics721QueryMsg', 'NftContract', class_id=VF(na, 'Ics721', 'class_id'))) if 'ics721_types::ics721::Ics721QueryMsg' in ADTS else None
    bridged = A(S_.ok, NOT(own)); c.reach('%s: bridged collection possible' % S_.name, bridged)
    for g, t in alts(F(val, 'nft_contract')):
        if not possible(A(bridged, g)): continue
        qs = {x for x in walk_terms(t) if x.op == 'query'}
        c.ob('%s: a bridged collection is the one the bridge names' % S_.name, len(qs) == 1 and next(iter(qs)).a[0] is VF(na, 'Ics721', 'contract') and any(y is VF(na, 'Ics721', 'class_id') for y in walk_terms(next(iter(qs)).a[1])), pp(t)[:300])
    # the NFTs of one member
    S_, val = ans('nft_staking_membership', 'UserStake', user=lambda g: g('user'), total_user_stake=lambda g: MB.weight(g('user')))
    # polls and votes
    PP = 'poll_engine_api::api::'
    ans('enterprise_governance', 'Poll', poll=lambda g: L('POLLS', g('poll_id')))
    ans('enterprise_governance', 'PollVoter', vote=lambda g: maybe('VOTES', mk('tup', g('voter_addr'), g('poll_id'))))
    ans('enterprise_governance', 'PollStatus', status=lambda g: F(L('POLLS', g('poll_id')), 'status'), ends_at=lambda g: F(L('POLLS', g('poll_id')), 'ends_at'), results=lambda g: F(L('POLLS', g('poll_id')), 'results'))
    ans('enterprise_governance_controller', 'MemberVote', vote=lambda g: F(CO.ask('PollVoter', _=St(PP + 'PollVoterParams', poll_id=g('proposal_id'), voter_addr=g('member'))), 'vote'))
    # remote chains, rewards, signatures
    ans('enterprise_outposts', 'CrossChainDeployments', chain_id=lambda g: g('chain_id'), proxy_addr=lambda g: maybe('cross_chain_proxies', g('chain_id')), treasury_addr=lambda g: maybe('cross_chain_treasuries', g('chain_id')))
    ans('funds_distributor', 'MinimumEligibleWeight', minimum_eligible_weight=L('minimum_eligible_weight'))
    ans('attestation', 'AttestationText', text=L('attestation_text'))
    S_, val = c.qval('attestation', 'HasUserSigned')
    c.must('%s: signatures as recorded' % S_.name, S_.ok, IFF(truth(F(val, 'has_signed')), has('user_signatures', M(S_, 'HasUserSigned', 'user')))); c.reach('%s: answers' % S_.name, S_.ok)
    # global settings and recognised codes
    ans('enterprise_factory', 'GlobalAssetWhitelist', assets=L('global_asset_whitelist')); ans('enterprise_factory', 'GlobalNftWhitelist', nfts=L('global_nft_whitelist'))
    S_, val = c.qval('enterprise_factory', 'IsEnterpriseCodeId'); code = M(S_, 'IsEnterpriseCodeId', 'code_id'); yes = truth(F(val, 'is_enterprise_code_id'))
    first = Q(F(L('config'), 'enterprise_versioning'), V('enterprise_versioning_api::msg::QueryMsg', 'Version', _=St('enterprise_versioning_api::api::VersionParams', version=St('enterprise_versioning_api::api::Version', major=I(1), minor=I(0), patch=I(0)))))
    c.must('%s: recorded codes, and the treasury of the first rewritten version' % S_.name, S_.ok, IFF(yes, OR(has('enterprise_code_ids', code), eq(code, F(F(first, 'version'), 'enterprise_treasury_code_id')))))
    c.reach('%s: recorded' % S_.name, A(S_.ok, yes)); c.reach('%s: unknown' % S_.name, A(S_.ok, NOT(yes)))

@prop('C34', 'C42')
def migration_answers(c):
    """the treasury of an old DAO answers whether something is left to move, and with what members had before plus what has been moved since"""
    # state of the migration
    S_, val = c.qval('enterprise_treasury', 'HasIncompleteV2Migration'); st = L('migration_stage'); MT = fq('enterprise_treasury::migration_stages::MigrationStage')
    c.must('%s: exactly while in progress' % S_.name, S_.ok, IFF(truth(F(val, 'has_incomplete_migration')), A(has('migration_stage'), is_variant(st, MT, 'MigrationInProgress')))); c.reach('%s: answers' % S_.name, S_.ok)
    S_, val = c.qval('enterprise_treasury', 'HasUnmovedStakesOrClaims'); e = [atom('mapempty', n, 0) for n in ('stakes', 'nft_stakes', 'claims')]
    x = truth(F(val, 'has_unmoved_stakes_or_claims'))
    c.must('%s: exactly while something is left' % S_.name, S_.ok, IFF(x, NOT(A(*e))))
    c.reach('%s: answers' % S_.name, S_.ok); c.reach('%s: possible' % S_.name, A(S_.ok, x)); c.reach('%s: none possible' % S_.name, A(S_.ok, NOT(x)))
    # weights of an old DAO: what it had before, plus what has been moved since
    S_, val = c.qval('enterprise_treasury', 'UserWeight'); u = M(S_, 'UserWeight', 'user'); dt = L('dao_type'); DT = fq('enterprise_protocol::api::DaoType'); moved = or0(has('migrated_user_weights', u), L('migrated_user_weights', u))
    c.must('%s: user' % S_.name, S_.ok, eqt(F(val, 'user'), u))
    for k, ns in (('Token', 'stakes'), ('Multisig', 'multisig_members'), ('Nft', None)):
        g = A(S_.ok, is_variant(dt, DT, k)); c.reach('%s: %s' % (S_.name, k), g)
        if k == 'Nft':
            w = F(val, 'weight'); own = lambda r: r.op == 'range' and r.a[0] == 'nft_stakes' and r.a[2] is u and r.a[3] is NONE and r.a[4] is NONE
            cn = {t for t in walk_terms(w) if t.op == 'cnt' and t.a[1] == TRUE and len(t.a[0]) == 1 and own(t.a[0][0])}
            if c.ob('%s: the NFTs of the member are counted' % S_.name, len(cn) == 1, pp(w)[:300]):
                t = cn.pop(); c.must('%s: weight in a Nft DAO' % S_.name, g, OR(eqt(w, add(t, moved)), AND(NOT(nonempty(t.a[0])), eqt(w, moved))))
            continue
        c.must('%s: weight in a %s DAO' % (S_.name, k), g, eqt(F(val, 'weight'), add(or0(has(ns, u), L(ns, u)), moved)))
    S_, val = c.qval('enterprise_treasury', 'TotalWeight'); n = S_.name; x = M(S_, 'TotalWeight', 'expiration'); ex = fq('cw_utils::expiration::Expiration'); TH = 'total_staked_block_height_snapshot'; TS = 'total_staked_time_seconds_snapshot'
    def hist(ns, h): return or0(atom('has@h', ns, h), mk('load@h', ns, h))
    for v, t in (('AtHeight', hist(TH, VF(x, 'AtHeight'))), ('AtTime', hist(TS, mk('secs', VF(x, 'AtTime')))), ('Never', L(TH))):
        c.reach('%s: %s possible' % (n, v), A(S_.ok, is_variant(x, ex, v)))
        c.must('%s: the total on record, %s' % (n, v), A(S_.ok, is_variant(x, ex, v)), eqt(F(val, 'total_weight'), t))
