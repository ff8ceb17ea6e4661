"""Facade: a query is passed to the implementation for the DAO's generation and answered with what the DAO itself says;
adapted messages ask the right contract for exactly what was asked of the facade."""
from rule import *
FR, V1, V2 = 'enterprise_facade', 'enterprise_facade_v1', 'enterprise_facade_v2'
API = 'enterprise_facade_api::api::'; QM = 'enterprise_facade_api::msg::QueryMsg'
EQ = 'enterprise_protocol::msg::QueryMsg'; GCQ = 'enterprise_governance_controller_api::msg::QueryMsg'; GCA = 'enterprise_governance_controller_api::api::'
GCX = 'enterprise_governance_controller_api::msg::ExecuteMsg'; TQ = 'enterprise_treasury_api::msg::QueryMsg'
DT = 'enterprise_protocol::api::DaoType'
def none(o): return is_variant(o, OPTION, 'None')
def some(o): return NOT(none(o))
def opt(o, f, t=None): return phi([(none(o), NONE), (some(o), Some(f(VF(o, 'Some'))))])
def qoks(g):
    """all questions the entry point asks other contracts are answered"""
    r = TRUE
    for v in B.support(g):
        if atomkey(v)[0] in ('qok', 'has', 'valid'): r = AND(r, B.v(v))
    return r
# ------------------------------------------------------------------ values that say the same in another type
def tyof(parent, t):
    """resolve a declared field type to an ADT id, an element type, or None"""
    return t if t in ADTS else parent.split('::')[0] + '::' + t if parent.split('::')[0] + '::' + t in ADTS else t
def inner(t):
    m = re.match(r'[\w:]+<(.*)>$', t); return m.group(1) if m else None
RENAME = {'address': 'user', 'user': 'address'}
def like(a, b, ty, par=None, drop=()):
    """guard: a says the same as b (of declared type ty), field by field and variant by variant, whatever its own type;
    fields of b named in drop need not be carried"""
    if a is b: return TRUE
    ty = tyof(par, ty) if par else ty
    if a.op == 'phi': return B.any(AND(g, like(x, b, ty, drop=drop)) for g, x in a.a[0])
    if b.op == 'phi': return B.any(AND(g, like(a, x, ty, drop=drop)) for g, x in b.a[0])
    if a.op == 'adt':
        aid, var, names, vals = a.a
        isopt = aid == OPTION or aid.endswith('::Option')
        if isopt and not ty.startswith(('core::option::Option', 'std::option::Option')):
            return like(vals[0], b, ty, drop=drop) if var == 'Some' else FALSE
        if isopt:
            t = inner(ty); t = tyof(par, t) if par else t
            if var == 'None': return none(b)
            return AND(some(b), like(vals[0], VF(b, 'Some'), t, drop=drop))
        if ty not in ADTS:
            e = inner(ty)
            base = ty.split('<')[0]
            e = base if base in ADTS else None
            if e is None: return eqt(a, b)
            ty = e
        D = ADTS[ty]
        for n, d, fs in D['v']:
            if D['enum'] and n != var: continue
            r = is_variant(b, ty, n) if D['enum'] else TRUE
            fn = {x[0]: x[1] for x in fs}
            ren = {RENAME[k] if k not in fn and RENAME.get(k) in fn else k: v for k, v in zip(names, vals)}
            if set(ren) - set(fn) or set(fn) - set(ren) - set(drop): return FALSE
            for k, v in ren.items():
                if r == 0: return FALSE
                r = AND(r, like(v, getvf(b, n, k) if D['enum'] else getf(b, k), fn[k], ty, drop=drop))
            return r
        return FALSE
    if a.op in ('coll', 'iter') and b.op not in ('coll', 'iter'):
        ps = [p for p in parts_of(a) if p[1]]; t = inner(ty); t = tyof(par, t) if par and t else t
        if len(ps) == 1 and len(ps[0][0]) == 1 and ps[0][1] == TRUE and unrev(ps[0][0]) == (src(b),) and t:
            e = like(ps[0][2], elem(src(b)), t, par, drop=drop)
            return TRUE if e == TRUE else NOT(any_((src(b),), NOT(e)))
    return eqt(a, b)
# ------------------------------------------------------------------ the front
DUR = 'cw_utils::expiration::Duration'
def front_target(contract):
    """(case, implementation, DAO asked about)"""
    di = V(FR + '::facade::QueryV1Msg', 'DaoInfo'); tc = V(TQ, 'Config'); gc = V(GCQ, 'Config')
    old = q_ok(contract, di); adm = F(Q(contract, tc), 'admin')
    new = A(NOT(old), q_ok(contract, tc), q_ok(adm, gc)); ent = A(NOT(old), NOT(AND(q_ok(contract, tc), q_ok(adm, gc))), q_ok(contract, V(EQ, 'ComponentContracts')))
    return [('old DAO', old, L('facade_v1'), contract, has('facade_v1')),
            ('treasury of a new DAO', new, L('facade_v2'), F(Q(adm, gc), 'enterprise_contract'), has('facade_v2')),
            ('new DAO', ent, L('facade_v2'), contract, has('facade_v2'))]
@prop('C32')
def front(c):
    """every question is passed on unchanged to the implementation matching the DAO, and its answer returned"""
    vs = c.variants(FR, 'query')
    c.ob('facade: there are questions', len(vs) >= 30, str(len(vs)))
    for v in vs:
        S_, val = c.qval(FR, v); n = S_.name
        fs = [f[0] for x, d, ff in ADTS[S_.msgadt]['v'] if x == v for f in ff]
        if not c.ob('%s: names a contract' % n, 'contract' in fs): continue
        cs = front_target(M(S_, v, 'contract'))
        c.must('%s: answered for a DAO of a known generation only' % n, S_.ok, O(*[x[1] for x in cs]))
        for w, g, to, dao, h in cs:
            m = V(QM, v, **{f: dao if f == 'contract' else M(S_, v, f) for f in fs})
            c.must('%s: %s: answered by its implementation' % (n, w), AND(S_.ok, g), eqt(val, Q(to, m)))
            got = A(g, h)
            for a in B.support(S_.ok):
                k = atomkey(a)
                if k[0] == 'qok' and entails(A(g, h), A(eqt(k[1], to), eqt(k[2], lib.canon(m)))): got = AND(got, B.v(a))
            c.must('%s: %s: the answer is passed on' % (n, w), got, S_.ok)
            c.reach('%s: %s: can be answered' % (n, w), AND(S_.ok, g))
CI = lambda w: w.ns == 'contract_info'
@prop('C32')
def front_setup(c):
    """the facade's only state are the two validated implementation addresses"""
    S_ = c.inst(FR)
    for f, ns in (('enterprise_facade_v1', 'facade_v1'), ('enterprise_facade_v2', 'facade_v2')):
        c.must('%s: %s is a valid address' % (S_.name, f), S_.ok, atom('valid', F(P('msg'), f)))
    check_writes(c, S_, [Want('v1', is_save('facade_v1', None, F(P('msg'), 'enterprise_facade_v1'))), Want('v2', is_save('facade_v2', None, F(P('msg'), 'enterprise_facade_v2')))], ignore=CI)
    check_msgs(c, S_, [])
    S_ = c.mig(FR); ws = []
    for f, ns in (('enterprise_facade_v1', 'facade_v1'), ('enterprise_facade_v2', 'facade_v2')):
        o = F(P('msg'), f)
        ws.append(Want('%s if asked' % ns, is_save(ns, None, VF(o, 'Some')), when=some(o)))
        c.must('%s: %s is a valid address' % (S_.name, f), AND(S_.ok, some(o)), atom('valid', VF(o, 'Some')))
    check_writes(c, S_, ws, ignore=CI); check_msgs(c, S_, [])
    S_ = c.inst(V1); o = F(P('msg'), 'enterprise_versioning')
    c.must('%s: a valid address' % S_.name, S_.ok, atom('valid', o)); check_writes(c, S_, [Want('versioning', is_save('enterprise_versioning', None, o))], ignore=CI); check_msgs(c, S_, [])
    for cr in (FR, V1, V2):
        for ent in ('execute', 'reply', 'migrate', 'instantiate'):
            if cr == FR and ent in ('instantiate', 'migrate') or cr == V1 and ent == 'instantiate': continue
            try: S_ = c.entry(cr, ent)
            except Missing: continue
            check_writes(c, S_, [], ignore=CI); check_msgs(c, S_, [])
# ------------------------------------------------------------------ new DAOs
class Two:
    def __init__(s, c, v):
        s.c, s.v = c, v; s.S, s.val = c.qval(V2, v); s.n = s.S.name
        s.dao = M(s.S, v, 'contract'); s.CC = Q(s.dao, V(EQ, 'ComponentContracts')); s.DI = Q(s.dao, V(EQ, 'DaoInfo')); s.ok = s.S.ok
    def m(s, *f): return F(M(s.S, s.v, f[0]), *f[1:]) if len(f) > 1 else M(s.S, s.v, f[0])
    def cc(s, f): return F(s.CC, f)
    def kind(s, *k): return O(*[is_variant(F(s.DI, 'dao_type'), DT, x) for x in k])
    def is_(s, exp, case=TRUE, what=''):
        s.c.must('%s: %sthe answer of the DAO' % (s.n, what), AND(s.ok, case), exp)
        s.c.reach('%s: %scan be answered' % (s.n, what), AND(s.ok, case))
        s.c.must('%s: %sanswers when the DAO does' % (s.n, what), AND(qoks(s.ok), case), s.ok)
def asked(c, x, to, qt, v, rt, case=TRUE, what='', drop=(), **params):
    """the answer is that of contract `to` to question v with these parameters"""
    m = V(qt, v, **params) ; a = Q(to, m)
    x.is_(like(x.val, a, rt, drop=drop), case, what)
    return a
@prop('C32')
def two_simple(c):
    """new DAOs: each question is answered by the component it concerns"""
    T = 'enterprise_treasury_api::api::'; MB = 'membership_common_api::api::'
    x = Two(c, 'TreasuryAddress'); x.is_(eqt(F(x.val, 'treasury_address'), x.cc('enterprise_treasury_contract')))
    x = Two(c, 'ComponentContracts')
    for f in [y[0] for y in ADTS[fq(API + 'ComponentContractsResponse')]['v'][0][2]]:
        w = x.dao if f == 'enterprise_contract' else x.cc(f)
        c.must('%s: %s' % (x.n, f), x.ok, O(eqt(F(x.val, f), w), eqt(F(x.val, f), Some(w))))
    c.reach('%s: answered' % x.n, x.ok)
    for v, pt in (('AssetWhitelist', 'AssetWhitelist'), ('NftWhitelist', 'NftWhitelist')):
        x = Two(c, v)
        asked(c, x, x.cc('enterprise_treasury_contract'), TQ, v, T + v + 'Response', _=St(T + v + 'Params', start_after=x.m('params', 'start_after'), limit=x.m('params', 'limit')))
    ctl = 'enterprise_governance_controller_contract'
    x = Two(c, 'Proposal'); asked(c, x, x.cc(ctl), GCQ, 'Proposal', GCA + 'ProposalResponse', drop=('earliest_execution',), _=St(GCA + 'ProposalParams', proposal_id=x.m('params', 'proposal_id')))
    x = Two(c, 'ProposalStatus'); asked(c, x, x.cc(ctl), GCQ, 'ProposalStatus', GCA + 'ProposalStatusResponse', _=St(GCA + 'ProposalStatusParams', proposal_id=x.m('params', 'proposal_id')))
    x = Two(c, 'MemberVote'); asked(c, x, x.cc(ctl), GCQ, 'MemberVote', GCA + 'MemberVoteResponse', _=St(GCA + 'MemberVoteParams', member=x.m('params', 'member'), proposal_id=x.m('params', 'proposal_id')))
    x = Two(c, 'ProposalVotes'); asked(c, x, x.cc(ctl), GCQ, 'ProposalVotes', GCA + 'ProposalVotesResponse', _=St(GCA + 'ProposalVotesParams', proposal_id=x.m('params', 'proposal_id'), start_after=x.m('params', 'start_after'), limit=x.m('params', 'limit')))
    x = Two(c, 'Proposals'); fl = x.m('params', 'filter'); fo = VF(fl, 'Some'); FA, FB = API + 'ProposalStatusFilter', GCA + 'ProposalStatusFilter'
    mapped = phi([(none(fl), NONE), (some(fl), Some(phi([(is_variant(fo, FA, k), V(FB, k)) for k in [y[0] for y in ADTS[FA]['v']]])))])
    asked(c, x, x.cc(ctl), GCQ, 'Proposals', GCA + 'ProposalsResponse', drop=('earliest_execution',), _=St(GCA + 'ProposalsParams', filter=mapped, start_after=x.m('params', 'start_after'), limit=x.m('params', 'limit')))
    x = Two(c, 'CrossChainTreasuries'); asked(c, x, x.cc('enterprise_outposts_contract'), 'enterprise_outposts_api::msg::QueryMsg', 'CrossChainTreasuries', 'enterprise_outposts_api::api::CrossChainTreasuriesResponse', _=x.m('params'))
    x = Two(c, 'HasIncompleteV2Migration'); asked(c, x, x.cc('enterprise_treasury_contract'), TQ, 'HasIncompleteV2Migration', T + 'HasIncompleteV2MigrationResponse')
    x = Two(c, 'V2MigrationStage'); g = truth(F(Q(x.cc('enterprise_treasury_contract'), V(TQ, 'HasIncompleteV2Migration')), 'has_incomplete_migration'))
    x.is_(eqt(F(x.val, 'stage'), V(API + 'V2MigrationStage', 'MigrationInProgress')), g, 'while migrating: '); x.is_(eqt(F(x.val, 'stage'), V(API + 'V2MigrationStage', 'MigrationCompleted')), NOT(g), 'afterwards: ')
    x = Two(c, 'HasUnmovedStakesOrClaims'); va = 'enterprise_versioning_api::api::Version'; old = lt(F(x.DI, 'dao_version'), St(va, major=I(1), minor=I(0), patch=I(2)))
    f = 'has_unmoved_stakes_or_claims'
    x.is_(eqt(F(x.val, f), F(Q(x.cc('enterprise_treasury_contract'), V(TQ, 'HasUnmovedStakesOrClaims')), f)), NOT(old)); x.is_(NOT(truth(F(x.val, f))), old, 'before 1.0.2: ')
@prop('C32')
def two_members(c):
    """new DAOs: members, stakes and claims as the membership contract has them"""
    MB = 'membership_common_api::api::'; MQ = 'token_staking_api::msg::QueryMsg'
    def uw(x, u): return Q(x.cc('membership_contract'), V(MQ, 'UserWeight', _=St(MB + 'UserWeightParams', user=u)))
    def tw(x): return Q(x.cc('membership_contract'), V(MQ, 'TotalWeight', _=St(MB + 'TotalWeightParams', expiration=V('cw_utils::expiration::Expiration', 'Never'))))
    x = Two(c, 'MemberInfo'); u = F(uw(x, x.m('msg', 'member_address')), 'weight'); t = F(tw(x), 'total_weight')
    x.is_(eqt(F(x.val, 'voting_power'), I(0)), eq(t, I(0)), 'nobody has weight: ')
    x.is_(eqt(F(x.val, 'voting_power'), mk('ratio', u, t)), NOT(eq(t, I(0))))
    x = Two(c, 'ListMultisigMembers')
    a = Q(x.cc('membership_contract'), V('multisig_membership_api::msg::QueryMsg', 'Members', _=St(MB + 'MembersParams', start_after=x.m('msg', 'start_after'), limit=x.m('msg', 'limit'))))
    x.is_(like(x.val, a, MB + 'MembersResponse'), x.kind('Multisig'))
    c.must('%s: only for multisigs' % x.n, x.ok, x.kind('Multisig'))
    x = Two(c, 'UserStake'); US = API + 'UserStake'; p = lambda f: x.m('params', f)
    x.is_(eqt(F(x.val, 'user_stake'), V(US, 'Denom', _=St(API + 'DenomUserStake', amount=F(uw(x, p('user')), 'weight')))), x.kind('Denom'), 'denom: ')
    x.is_(eqt(F(x.val, 'user_stake'), V(US, 'Token', _=St(API + 'TokenUserStake', amount=F(uw(x, p('user')), 'weight')))), x.kind('Token'), 'token: ')
    ns = Q(x.cc('membership_contract'), V('nft_staking_api::msg::QueryMsg', 'UserStake', _=St('nft_staking_api::api::UserNftStakeParams', user=p('user'), start_after=p('start_after'), limit=p('limit'))))
    x.is_(eqt(F(x.val, 'user_stake'), V(US, 'Nft', _=St(API + 'NftUserStake', tokens=F(ns, 'tokens'), amount=F(ns, 'total_user_stake')))), x.kind('Nft'), 'nft: ')
    x.is_(eqt(F(x.val, 'user_stake'), V(US, 'None')), x.kind('Multisig'), 'multisig: ')
    x = Two(c, 'TotalStakedAmount')
    x.is_(eqt(F(x.val, 'total_staked_amount'), F(tw(x), 'total_weight')), x.kind('Denom', 'Token', 'Nft')); x.is_(eqt(F(x.val, 'total_staked_amount'), I(0)), x.kind('Multisig'), 'multisig: ')
    x = Two(c, 'StakedNfts')
    sn = Q(x.cc('membership_contract'), V('nft_staking_api::msg::QueryMsg', 'StakedNfts', _=St('nft_staking_api::api::StakedNftsParams', start_after=x.m('params', 'start_after'), limit=x.m('params', 'limit'))))
    whole(x, F(x.val, 'nfts'), F(sn, 'nfts'), x.kind('Nft'), ''); x.is_(empty(F(x.val, 'nfts')), NOT(x.kind('Nft')), 'others: ')
    for v in ('Claims', 'ReleasableClaims'):
        x = Two(c, v); cl = F(x.val, 'claims'); CA = API + 'ClaimAsset'
        for k, api, asset in (('Denom', 'denom_staking_api', lambda e: V(CA, 'Denom', _=St(API + 'DenomClaimAsset', amount=F(e, 'amount')))), ('Token', 'token_staking_api', lambda e: V(CA, 'Cw20', _=St(API + 'Cw20ClaimAsset', amount=F(e, 'amount')))), ('Nft', 'nft_staking_api', lambda e: V(CA, 'Cw721', _=St(API + 'Cw721ClaimAsset', tokens=F(e, 'nft_ids'))))):
            s = src(F(Q(x.cc('membership_contract'), V(api + '::msg::QueryMsg', v, _=St(api + '::api::ClaimsParams', user=x.m('params', 'owner')))), 'claims'))
            each(x, cl, s, St(API + 'Claim', asset=asset(elem(s)), release_at=F(elem(s), 'release_at')), x.kind(k), k + ': ')
        x.is_(empty(cl), x.kind('Multisig'), 'multisig: ')
def empty(col):
    if col.op == 'phi': return B.any(AND(g, empty(v)) for g, v in col.a[0])
    if col.op not in ('coll', 'iter'): return eq(mk('len', col), I(0))
    return NOT(B.any(p[1] for p in parts_of(col)))
def whole(x, col, want, case, what):
    """under the case, the list is the wanted one"""
    if col.op not in ('coll', 'iter'): x.is_(eqt(col, want), case, what); return
    each(x, col, src(want), elem(src(want)), case, what)
def each(x, col, s, want, case, what):
    """under the case, the list has exactly one entry per element of s, in order, and it is the wanted one"""
    live = [p for p in parts_of(col) if possible(A(x.ok, case, p[1]))]
    x.c.ob('%s: %sone entry each' % (x.n, what), len(live) == 1 and unrev(live[0][0]) == (s,), str(len(live)))
    if len(live) == 1: x.is_(A(live[0][1], eqt(live[0][2], want)), AND(case, nonempty((s,))), what)
@prop('C32')
def two_info(c):
    """new DAOs: the overview combines the DAO's record, governance settings, membership settings and council"""
    x = Two(c, 'DaoInfo'); v = x.val; n = x.n
    gq = Q(x.cc('enterprise_governance_controller_contract'), V(GCQ, 'GovConfig')); g = F(gq, 'gov_config')
    for f in ('creation_date', 'dao_version'): x.is_(eqt(F(v, f), F(x.DI, f)), TRUE, f + ': ')
    x.is_(like(F(v, 'metadata'), F(x.DI, 'metadata'), 'enterprise_protocol::api::DaoMetadata'), TRUE, 'metadata: ')
    x.is_(like(F(v, 'dao_type'), F(x.DI, 'dao_type'), DT), TRUE, 'type: ')
    for f in ('enterprise_factory_contract', 'funds_distributor_contract'): x.is_(eqt(F(v, f), x.cc(f)), TRUE, f + ': ')
    for f in ('quorum', 'threshold', 'vote_duration', 'minimum_deposit', 'allow_early_proposal_execution'): x.is_(eqt(F(v, 'gov_config', f), F(g, f)), TRUE, f + ': ')
    vt = F(g, 'veto_threshold')
    x.is_(eqt(F(v, 'gov_config', 'veto_threshold'), VF(vt, 'Some')), some(vt), 'own veto threshold: '); x.is_(eqt(F(v, 'gov_config', 'veto_threshold'), F(g, 'threshold')), none(vt), 'no own veto threshold: ')
    ver = F(x.DI, 'dao_version'); x.is_(eqt(F(v, 'dao_code_version'), add(add(mul(F(ver, 'major'), I(10000)), mul(F(ver, 'minor'), I(100))), F(ver, 'patch'))), TRUE, 'code version: ')
    u = F(v, 'gov_config', 'unlocking_period'); a = F(v, 'dao_membership_contract')
    def cfg(q, name, field, case, what, addr=lambda t: t):
        def one(m): t = Q(m, V(q, name)); return A(eqt(u, F(t, 'unlocking_period')), eqt(a, addr(F(t, field))))
        x.is_(O(one(F(gq, 'dao_membership_contract')), one(x.cc('membership_contract'))), case, what)
    cfg('denom_staking_api::msg::QueryMsg', 'DenomConfig', 'denom', x.kind('Denom'), 'denom: ')
    cfg('token_staking_api::msg::QueryMsg', 'TokenConfig', 'token_contract', x.kind('Token'), 'token: ')
    late = NOT(lt(ver, St('enterprise_versioning_api::api::Version', major=I(1), minor=I(2), patch=I(0))))
    NC = fq('nft_staking_api::api::NftContract')
    cfg('nft_staking_api::msg::QueryMsg', 'NftConfig', 'nft_contract', AND(x.kind('Nft'), NOT(late)), 'nft before 1.2: ')
    cfg('nft_staking_api::msg::QueryMsg', 'NftContractConfig', 'nft_contract', AND(x.kind('Nft'), late), 'nft: ', lambda t: phi([(is_variant(t, NC, 'Cw721'), VF(t, 'Cw721', 'contract')), (is_variant(t, NC, 'Ics721'), VF(t, 'Ics721', 'class_id'))]))
    x.is_(A(eqt(a, x.dao), eqt(u, V(DUR, 'Time', _=I(0)))), x.kind('Multisig'), 'multisig: ')
    cg = F(gq, 'council_gov_config'); co = F(v, 'dao_council'); k = VF(co, 'Some')
    x.is_(none(co), none(cg), 'no council: '); x.is_(some(co), some(cg), 'council: ')
    for f in ('allowed_proposal_action_types', 'quorum', 'threshold'): x.is_(eqt(F(k, f), F(VF(cg, 'Some'), f)), some(cg), 'council %s: ' % f)
    ms = [t for t in walk_terms(F(k, 'members')) if t.op == 'query' and t.a[1].op == 'adt' and t.a[1].a[1] == 'Members']
    ms = {t for t in ms if entails(x.ok, O(eqt(t.a[0], F(gq, 'dao_council_membership_contract')), eqt(t.a[0], x.cc('council_membership_contract')))) and entails(TRUE, A(none(F(VF(t.a[1], 'Members'), 'start_after')), some(F(VF(t.a[1], 'Members'), 'limit')), NOT(lt(VF(F(VF(t.a[1], 'Members'), 'limit'), 'Some'), I(100)))))}
    if c.ob('%s: the council is that of the DAO, from the start, a full page' % n, len(ms) == 1, str(len(ms))):
        s = src(F(ms.pop(), 'members')); each(x, F(k, 'members'), s, F(elem(s), 'user'), some(cg), 'council members: ')
# ------------------------------------------------------------------ old DAOs
QV1 = V1 + '::v1_structs::QueryV1Msg'
class One(Two):
    def __init__(s, c, v):
        s.c, s.v = c, v; s.S, s.val = c.qval(V1, v); s.n = s.S.name; s.dao = M(s.S, v, 'contract'); s.ok = s.S.ok; s.DI = Q(s.dao, V(QV1, 'DaoInfo'))
@prop('C32')
def one(c):
    """old DAOs: each question is put to the DAO itself"""
    for v, p in (('MemberInfo', 'msg'), ('ListMultisigMembers', 'msg'), ('AssetWhitelist', 'params'), ('NftWhitelist', 'params'), ('MemberVote', 'params'), ('ProposalVotes', 'params'), ('StakedNfts', 'params'), ('Claims', 'params'), ('ReleasableClaims', 'params'), ('TotalStakedAmount', None)):
        x = One(c, v); x.is_(eqt(x.val, Q(x.dao, V(QV1, v, **({'_': x.m(p)} if p else {})))))
    x = One(c, 'UserStake'); x.is_(eqt(x.val, Q(x.dao, V(QV1, 'UserStake', _=St(V1 + '::v1_structs::UserStakeV1Params', user=x.m('params', 'user'))))))
    x = One(c, 'TreasuryAddress'); x.is_(eqt(F(x.val, 'treasury_address'), x.dao))
    x = One(c, 'CrossChainTreasuries'); x.is_(empty(F(x.val, 'treasuries')))
    x = One(c, 'HasIncompleteV2Migration'); x.is_(NOT(truth(F(x.val, 'has_incomplete_migration'))))
    x = One(c, 'HasUnmovedStakesOrClaims'); x.is_(NOT(truth(F(x.val, 'has_unmoved_stakes_or_claims'))))
    x = One(c, 'V2MigrationStage'); x.is_(eqt(F(x.val, 'stage'), V(API + 'V2MigrationStage', 'MigrationNotStarted')))
    x = One(c, 'ComponentContracts')
    for f in [y[0] for y in ADTS[fq(API + 'ComponentContractsResponse')]['v'][0][2]]:
        w = F(x.val, f)
        x.is_(eqt(w, x.dao if f == 'enterprise_contract' else F(x.DI, f)) if f in ('enterprise_contract', 'enterprise_factory_contract', 'funds_distributor_contract') else none(w), TRUE, f + ': ')
    x = One(c, 'DaoInfo'); g = F(x.DI, 'gov_config')
    for f in [y[0] for y in ADTS[fq(API + 'DaoInfoResponse')]['v'][0][2]]:
        if f == 'gov_config':
            for k in [y[0] for y in ADTS[fq(API + 'GovConfigFacade')]['v'][0][2]]:
                w = F(x.val, f, k)
                if k == 'veto_threshold': x.is_(eqt(w, VF(F(g, k), 'Some')), some(F(g, k)), 'own veto threshold: '); x.is_(eqt(w, F(g, 'threshold')), none(F(g, k)), 'no own veto threshold: ')
                else: x.is_(eqt(w, F(g, k)), TRUE, k + ': ')
        elif f == 'dao_version': x.is_(eqt(F(x.val, f), St('enterprise_versioning_api::api::Version', major=I(0), minor=F(x.DI, 'dao_code_version'), patch=I(0))), TRUE, f + ': ')
        else: x.is_(eqt(F(x.val, f), F(x.DI, f)), TRUE, f + ': ')
@prop('C32')
def one_proposals(c):
    """old DAOs: proposals as the DAO has them, except that the status of one in progress says what ending it now would give"""
    from rules.governance import cases
    PT = API + 'ProposalType'; PS = API + 'ProposalStatus'; OS = V1 + '::v1_structs::ProposalStatusV1'; EXP = 'cw_utils::expiration::Expiration'
    def status(x, pre, st, r, what):
        """st is what the status of the DAO's record r should be reported as"""
        o = F(r, 'proposal_status'); g = F(x.DI, 'gov_config'); e = F(r, 'proposal', 'expires'); vt = F(g, 'veto_threshold')
        for k in [y[0] for y in ADTS[OS]['v'] if y[0] != 'InProgress']:
            s = A(pre, is_variant(o, OS, k)); c.must('%s: %s%s stays' % (x.n, what, k), s, is_variant(st, PS, k)); c.reach('%s: %s%s possible' % (x.n, what, k), s)
        pre = A(pre, is_variant(o, OS, 'InProgress'), is_variant(e, EXP, 'AtTime'))
        over = NOT(lt(NOW, VF(e, 'AtTime'))); early = O(is_variant(F(r, 'proposal', 'proposal_type'), PT, 'Council'), truth(F(g, 'allow_early_proposal_execution')))
        for vn, vg, vv in (('own veto', some(vt), VF(vt, 'Some')), ('no own veto', none(vt), F(g, 'threshold'))):
            p = mk('adt', 'poll_engine_api::api::Poll', 'Poll', ('results', 'quorum', 'threshold', 'veto_threshold'), (F(r, 'results'), F(g, 'quorum'), F(g, 'threshold'), Some(vv)))
            cs = cases(p, F(r, 'total_votes_available'))
            for k, q in cs.items():
                t = A(pre, vg, q)
                c.must('%s: %s%s: decided when over: %s' % (x.n, what, vn, k), A(t, over), is_variant(st, PS, 'Passed' if k == 'Passed' else 'Rejected'))
                soon = k not in ('QuorumNotReached', 'ThresholdNotReached', 'QuorumAndThresholdNotReached')
                c.must('%s: %s%s: early end: %s' % (x.n, what, vn, k), A(t, NOT(over), early), is_variant(st, PS, 'InProgressCanExecuteEarly' if soon else 'InProgress'))
            c.reach('%s: %s%s: passes' % (x.n, what, vn), A(pre, vg, over, cs['Passed']))
        c.must('%s: %sin progress without early end' % (x.n, what), A(pre, NOT(over), NOT(early)), is_variant(st, PS, 'InProgress'))
    def record(x, pre, v, r, what):
        A1 = V1 + '::v1_structs::'; w = F(v, 'proposal'); o = F(r, 'proposal')
        for f in [y[0] for y in ADTS[fq(API + 'Proposal')]['v'][0][2]]:
            if f == 'status': continue
            if f == 'proposal_actions': continue
            c.must('%s: %s%s as recorded' % (x.n, what, f), pre, eqt(F(w, f), F(o, f)))
        s = src(F(o, 'proposal_actions')); ps = [p for p in parts_of(F(w, 'proposal_actions')) if p[1]]
        if F(w, 'proposal_actions').op in ('coll', 'iter') and c.ob('%s: %seach recorded action is reported' % (x.n, what), len(ps) == 1 and unrev(ps[0][0]) in ((s,), tuple(q for q in ps[0][0] if q is s)), str([[pp(q)[:200] for q in p[0]] for p in ps])):
            e = elem(s)
            c.must('%s: %sactions as recorded' % (x.n, what), A(pre, nonempty((s,)), ps[0][1]), old_action(ps[0][2], e)); c.must('%s: %sno action left out' % (x.n, what), A(pre, nonempty((s,))), ps[0][1])
        for f in ('results', 'total_votes_available'): c.must('%s: %s%s as recorded' % (x.n, what, f), pre, eqt(F(v, f), F(r, f)))
        status(x, pre, F(v, 'proposal_status'), r, what); c.must('%s: %sboth statuses agree' % (x.n, what), A(pre), O(*[AND(is_variant(F(v, 'proposal_status'), PS, k), is_variant(F(w, 'status'), PS, k)) for k in [y[0] for y in ADTS[PS]['v']]]))
    x = One(c, 'Proposal'); record(x, x.ok, x.val, Q(x.dao, V(QV1, 'Proposal', _=x.m('params'))), ''); c.reach('%s: answered' % x.n, x.ok)
    x = One(c, 'ProposalStatus'); r = Q(x.dao, V(QV1, 'Proposal', _=St(API + 'ProposalParams', proposal_id=x.m('params', 'proposal_id'))))
    status(x, x.ok, F(x.val, 'status'), r, ''); c.must('%s: as recorded' % x.n, x.ok, A(eqt(F(x.val, 'expires'), F(r, 'proposal', 'expires')), eqt(F(x.val, 'results'), F(r, 'results'))))
    x = One(c, 'Proposals'); s = src(F(Q(x.dao, V(QV1, 'Proposals', _=x.m('params'))), 'proposals')); ps = [p for p in parts_of(F(x.val, 'proposals')) if p[1]]
    if c.ob('%s: each listed proposal is reported once' % x.n, len(ps) == 1 and unrev(ps[0][0]) == (s,), str(len(ps))):
        pre = A(x.ok, nonempty((s,))); c.must('%s: none left out' % x.n, pre, ps[0][1]); record(x, A(pre, ps[0][1]), ps[0][2], elem(s), 'each: ')
PA = GCA + 'ProposalAction'; OA = V1 + '::v1_structs::ProposalActionV1'
def old_action(a, e):
    """the new-style action a says what the recorded old-style action e says"""
    r = FALSE; va = 'enterprise_versioning_api::api::Version'
    for k, _, fs in ADTS[OA]['v']:
        w = VF(e, k)
        if k == 'UpgradeDao':
            ver = St(va, major=I(0), minor=F(w, 'new_dao_code_id'), patch=I(0)); u = VF(a, k)
            y = A(is_variant(a, PA, k), eqt(F(u, 'new_version'), ver))
        else: y = AND(is_variant(a, PA, k), like_old(VF(a, k), w, tyof(OA, fs[0][1])))
        r = OR(r, AND(is_variant(e, OA, k), y))
    return r
def like_old(a, b, ty):
    """like, where the new form may have an additional treasury target, which is empty"""
    if a.op == 'phi': return B.any(AND(g, like_old(x, b, ty)) for g, x in a.a[0])
    if a.op == 'adt' and 'remote_treasury_target' in a.a[2]:
        i = a.a[2].index('remote_treasury_target')
        if not none(a.a[3][i]) == TRUE: return FALSE
        a = mk('adt', a.a[0], a.a[1], a.a[2][:i] + a.a[2][i + 1:], a.a[3][:i] + a.a[3][i + 1:])
    return like(a, b, ty)
# ------------------------------------------------------------------ adapted messages
def one_msg(to, payload, funds=None):
    """the adapted message sending payload (a term, or a test on the decoded payload) to a contract with these funds"""
    def f(v):
        w = VF(v, 'Execute')
        r = A(is_variant(v, fq(API + 'AdaptedMsg'), 'Execute'), eqt(F(w, 'target_contract'), to), eqt(F(w, 'funds'), funds if funds is not None else vec()))
        if r == 0: return FALSE
        p = unjson(F(w, 'msg'))
        return A(r, payload(p) if callable(payload) else eqt(p, payload))
    return f
def coins_to(to, amount, denom):
    def f(v):
        w = VF(v, 'Bank'); return A(is_variant(v, fq(API + 'AdaptedMsg'), 'Bank'), eqt(F(w, 'receiver'), to), eqt(F(w, 'funds'), vec(coinv(denom, amount))))
    return f
def adapts(x, case, what, *wants):
    """under the case, the answer is exactly the wanted messages in this order: (shape, quants, when)"""
    c = x.c; col = F(x.val, 'msgs'); n = '%s: %s' % (x.n, what)
    live = [p for p in parts_of(col) if possible(A(x.ok, case, p[1]))]
    used = []
    for i, (shape, q, when) in enumerate(wants):
        hit = [j for j, p in enumerate(live) if unrev(p[0]) == q and shape(p[2]) != 0 and sat(A(x.ok, case, p[1], shape(p[2])))]
        nb = nonempty(q) if q else TRUE
        c.must('%smessage %d is as asked' % (n, i + 1), A(x.ok, case, nb, when), O(*[AND(live[j][1], shape(live[j][2])) for j in hit]))
        c.reach('%smessage %d can be needed' % (n, i + 1), A(x.ok, case, when))
        used.append(hit)
    for j, p in enumerate(live):
        nb = nonempty(p[0]) if p[0] else TRUE
        c.must('%snothing else' % n, A(x.ok, case, nb, p[1]), O(*[AND(wants[i][2], wants[i][0](p[2])) for i in range(len(wants)) if j in used[i]]))
        for k in range(j):
            both = A(x.ok, case, p[1], live[k][1])
            a = [i for i in range(len(wants)) if j in used[i]]; b = [i for i in range(len(wants)) if k in used[i]]
            if a and b and possible(both): c.ob('%sin order' % n, max(b) < min(a), '%s %s' % (b, a))
    c.must('%sanswers when the DAO does' % n, A(qoks(x.ok), case), x.ok)
def W(shape, q=(), when=TRUE): return (shape, q, when)
def proposal_msg(m, T_=GCA + 'CreateProposalMsg'): return St(T_, title=F(m, 'title'), description=F(m, 'description'), proposal_actions=F(m, 'proposal_actions'), deposit_owner=F(m, 'deposit_owner'))
@prop('C40')
def two_adapted(c):
    """new DAOs: adapted messages"""
    ctl = lambda x: x.cc('enterprise_governance_controller_contract'); mb = lambda x: x.cc('membership_contract')
    C20 = 'cw20::msg::Cw20ExecuteMsg'; cw20 = C20 if C20 in ADTS else fq('Cw20ExecuteMsg')
    for v, k in (('CreateProposalAdapted', 'CreateProposal'), ('CreateCouncilProposalAdapted', 'CreateCouncilProposal')):
        x = Two(c, v); adapts(x, TRUE, '', W(one_msg(ctl(x), V(GCX, k, _=proposal_msg(x.m('params'))))))
    x = Two(c, 'CreateProposalWithDenomDepositAdapted'); m = x.m('params', 'create_proposal_msg')
    c.must('%s: for denom DAOs' % x.n, x.ok, x.kind('Denom'))
    adapts(x, x.kind('Denom'), '', W(one_msg(ctl(x), V(GCX, 'CreateProposal', _=proposal_msg(m)), vec(coinv(F(Q(mb(x), V('denom_staking_api::msg::QueryMsg', 'DenomConfig')), 'denom'), x.m('params', 'deposit_amount'))))))
    x = Two(c, 'CreateProposalWithTokenDepositAdapted'); m = x.m('params', 'create_proposal_msg'); tok = F(Q(mb(x), V('token_staking_api::msg::QueryMsg', 'TokenConfig')), 'token_contract')
    c.must('%s: for token DAOs' % x.n, x.ok, x.kind('Token'))
    hook = V('enterprise_governance_controller_api::msg::Cw20HookMsg', 'CreateProposal', _=proposal_msg(m))
    def sends(to, amount, hook):
        def f(p): return A(is_variant(p, cw20, 'Send'), eqt(VF(p, 'Send', 'contract'), to), eqt(VF(p, 'Send', 'amount'), amount), (hook if callable(hook) else lambda h: eqt(h, hook))(unjson(VF(p, 'Send', 'msg'))))
        return f
    adapts(x, x.kind('Token'), '', W(one_msg(tok, sends(ctl(x), x.m('params', 'deposit_amount'), hook))))
    x = Two(c, 'CreateProposalWithNftDepositAdapted'); s = src(x.m('params', 'deposit_tokens')); nft = F(Q(mb(x), V('nft_staking_api::msg::QueryMsg', 'NftConfig')), 'nft_contract')
    c.must('%s: for NFT DAOs' % x.n, x.ok, x.kind('Nft'))
    adapts(x, x.kind('Nft'), '', W(one_msg(nft, V(CW721EXEC, 'Approve', spender=ctl(x), token_id=elem(s), expires=NONE)), (s,)), W(one_msg(ctl(x), V(GCX, 'CreateProposalWithNftDeposit', _=x.m('params')))))
    for v, k in (('CastVoteAdapted', 'CastVote'), ('CastCouncilVoteAdapted', 'CastCouncilVote')):
        x = Two(c, v); adapts(x, TRUE, '', W(one_msg(ctl(x), V(GCX, k, _=St(GCA + 'CastVoteMsg', proposal_id=x.m('params', 'proposal_id'), outcome=x.m('params', 'outcome'))))))
    # executing: one uluna per action that leaves the chain is handed to the outposts first
    x = Two(c, 'ExecuteProposalAdapted'); acts = F(Q(ctl(x), V(GCQ, 'Proposal', _=St(GCA + 'ProposalParams', proposal_id=x.m('params', 'proposal_id')))), 'proposal', 'proposal_actions'); s = src(acts); e = elem(s)
    far = O(is_variant(e, PA, 'DeployCrossChainTreasury'), *[AND(is_variant(e, PA, k), some(F(VF(e, k), 'remote_treasury_target'))) for k in ('UpdateAssetWhitelist', 'UpdateNftWhitelist', 'RequestFundingFromDao', 'ExecuteTreasuryMsgs')])
    fund = [p for p in parts_of(F(x.val, 'msgs')) if possible(A(x.ok, p[1], is_variant(p[2], fq(API + 'AdaptedMsg'), 'Bank')))]
    cnts = {t for p in fund for t in walk_terms(p[2]) if t.op in ('cnt', 'sum')} | {t for p in fund for v in B.support(p[1]) for t in atomkey(v) if isinstance(t, T) and t.op in ('cnt', 'sum')}
    good = [t for t in cnts if counts(t, s, far)]
    if c.ob('%s: actions that leave the chain are counted' % x.n, len(good) >= 1, str(len(cnts))):
        n_ = good[0]; ex = one_msg(ctl(x), V(GCX, 'ExecuteProposal', _=St(GCA + 'ExecuteProposalMsg', proposal_id=x.m('params', 'proposal_id'))))
        adapts(x, TRUE, '', W(coins_to(x.cc('enterprise_outposts_contract'), n_, S('uluna')), (), NOT(eq(n_, I(0)))), W(ex))
    x = Two(c, 'StakeAdapted'); SM = API + 'StakeMsg'; p = x.m('params')
    case = lambda k: is_variant(p, SM, k)
    q = VF(p, 'Cw20'); tok = F(Q(mb(x), V('token_staking_api::msg::QueryMsg', 'TokenConfig')), 'token_contract')
    adapts(x, case('Cw20'), 'token: ', W(one_msg(tok, sends(mb(x), F(q, 'amount'), V('token_staking_api::msg::Cw20HookMsg', 'Stake', user=F(q, 'user'))))))
    q = VF(p, 'Cw721'); s = src(F(q, 'tokens')); nft = F(Q(mb(x), V('nft_staking_api::msg::QueryMsg', 'NftConfig')), 'nft_contract'); hook = V('nft_staking_api::msg::Cw721HookMsg', 'Stake', user=F(q, 'user'))
    adapts(x, case('Cw721'), 'nft: ', W(one_msg(nft, gives(mb(x), elem(s), hook)), (s,)))
    q = VF(p, 'Denom'); adapts(x, case('Denom'), 'denom: ', W(one_msg(mb(x), V('denom_staking_api::msg::ExecuteMsg', 'Stake', user=Some(F(q, 'user'))), vec(coinv(F(Q(mb(x), V('denom_staking_api::msg::QueryMsg', 'DenomConfig')), 'denom'), F(q, 'amount'))))))
    x = Two(c, 'UnstakeAdapted'); SM = API + 'UnstakeMsg'; p = x.m('params')
    for k, api, f, g in (('Cw20', 'token_staking_api', 'amount', 'amount'), ('Cw721', 'nft_staking_api', 'nft_ids', 'tokens'), ('Denom', 'denom_staking_api', 'amount', 'amount')):
        adapts(x, is_variant(p, SM, k), k + ': ', W(one_msg(mb(x), V(api + '::msg::ExecuteMsg', 'Unstake', _=St(api + '::api::UnstakeMsg', **{f: F(VF(p, k), g)})))))
    x = Two(c, 'ClaimAdapted')
    for k, api in (('Denom', 'denom_staking_api'), ('Token', 'token_staking_api'), ('Nft', 'nft_staking_api')):
        adapts(x, x.kind(k), k + ': ', W(one_msg(mb(x), V(api + '::msg::ExecuteMsg', 'Claim', _=St(api + '::api::ClaimMsg', user=NONE)))))
    c.must('%s: not for multisigs' % x.n, x.ok, NOT(x.kind('Multisig')))
def gives(to, tid, hook):
    def f(p): return A(is_variant(p, fq(CW721EXEC), 'SendNft'), eqt(VF(p, 'SendNft', 'contract'), to), eqt(VF(p, 'SendNft', 'token_id'), tid), eqt(unjson(VF(p, 'SendNft', 'msg')), hook))
    return f
def counts(t, s, far):
    """t is the number of elements of s with property far"""
    if t.op == 'cnt': return tuple(unrev(t.a[0])) == (s,) and entails(TRUE, IFF(t.a[1], far))
    return tuple(unrev(t.a[0])) == (s,) and t.a[2].op in ('i', 'phi') and entails(TRUE, IFF(far, A(t.a[1], eqt(t.a[2], I(1))))) and entails(NOT(far), O(NOT(t.a[1]), eqt(t.a[2], I(0))))
@prop('C40')
def one_adapted(c):
    """old DAOs: adapted messages"""
    A1 = V1 + '::v1_structs::'; X1 = A1 + 'ExecuteV1Msg'; cw20 = fq('Cw20ExecuteMsg')
    def old_proposal(x, m):
        s = src(F(m, 'proposal_actions')); e = elem(s)
        def f(p):
            col = F(p, 'proposal_actions'); ps = [q for q in parts_of(col) if q[1]]
            c.ob('%s: each action is passed on once' % x.n, len(ps) == 1 and unrev(ps[0][0]) == (s,))
            if len(ps) != 1: return FALSE
            for k, _, fs in ADTS[PA]['v']:
                g = A(x.ok, nonempty((s,)), is_variant(e, PA, k))
                if k in NOT_OLD: c.must('%s: %s is refused' % (x.n, k), g, FALSE); continue
                c.must('%s: %s is passed on' % (x.n, k), g, A(ps[0][1], new_action(ps[0][2], e, k, tyof(PA, fs[0][1]))))
                c.reach('%s: %s is possible' % (x.n, k), g)
                if any(y[0] == 'remote_treasury_target' for y in ADTS[tyof(PA, fs[0][1])]['v'][0][2]): c.must('%s: %s for a remote treasury is refused' % (x.n, k), g, none(F(VF(e, k), 'remote_treasury_target')))
            return A(eqt(F(p, 'title'), F(m, 'title')), eqt(F(p, 'description'), F(m, 'description')))
        return f
    def variant(aid, k, f): return lambda p: AND(is_variant(p, fq(aid), k), f(VF(p, k)))
    for v, k in (('CreateProposalAdapted', 'CreateProposal'), ('CreateCouncilProposalAdapted', 'CreateCouncilProposal')):
        x = One(c, v); old_adapts(x, TRUE, '', one_msg(x.dao, variant(X1, k, old_proposal(x, x.m('params')))))
    x = One(c, 'CreateProposalWithTokenDepositAdapted'); kind = is_variant(F(x.DI, 'dao_type'), fq(API + 'DaoType'), 'Token'); c.must('%s: for token DAOs' % x.n, x.ok, kind)
    pr = old_proposal(x, x.m('params', 'create_proposal_msg'))
    def send(p): return A(is_variant(p, cw20, 'Send'), eqt(VF(p, 'Send', 'contract'), x.dao), eqt(VF(p, 'Send', 'amount'), x.m('params', 'deposit_amount')), variant(A1 + 'Cw20HookV1Msg', 'CreateProposal', pr)(unjson(VF(p, 'Send', 'msg'))))
    old_adapts(x, kind, '', one_msg(F(x.DI, 'dao_membership_contract'), send))
    for v in ('CreateProposalWithDenomDepositAdapted', 'CreateProposalWithNftDepositAdapted'):
        x = One(c, v); c.must('%s: refused' % x.n, x.ok, FALSE)
    for v, k in (('CastVoteAdapted', 'CastVote'), ('CastCouncilVoteAdapted', 'CastCouncilVote'), ('ExecuteProposalAdapted', 'ExecuteProposal')):
        x = One(c, v); adapts(x, TRUE, '', W(one_msg(x.dao, V(X1, k, _=x.m('params')))))
    x = One(c, 'ClaimAdapted'); adapts(x, TRUE, '', W(one_msg(x.dao, V(X1, 'Claim'))))
    x = One(c, 'StakeAdapted'); p = x.m('params'); SM = API + 'StakeMsg'; tok = F(x.DI, 'dao_membership_contract')
    def send20(y): return A(is_variant(y, cw20, 'Send'), eqt(VF(y, 'Send', 'contract'), x.dao), eqt(VF(y, 'Send', 'amount'), F(VF(p, 'Cw20'), 'amount')), eqt(unjson(VF(y, 'Send', 'msg')), V(A1 + 'Cw20HookV1Msg', 'Stake')))
    adapts(x, is_variant(p, SM, 'Cw20'), 'token: ', W(one_msg(tok, send20)))
    s = src(F(VF(p, 'Cw721'), 'tokens')); adapts(x, is_variant(p, SM, 'Cw721'), 'nft: ', W(one_msg(tok, gives(x.dao, elem(s), V(A1 + 'Cw721HookV1Msg', 'Stake'))), (s,)))
    c.must('%s: no coins' % x.n, x.ok, NOT(is_variant(p, SM, 'Denom')))
    x = One(c, 'UnstakeAdapted'); p = x.m('params'); SM = API + 'UnstakeMsg'
    for k, f in (('Cw20', 'amount'), ('Cw721', 'tokens')):
        adapts(x, is_variant(p, SM, k), k + ': ', W(one_msg(x.dao, V(X1, 'Unstake', _=V(A1 + 'UnstakeV1Msg', k, _=St(A1 + 'Unstake%sV1Msg' % k, **{f: F(VF(p, k), f)}))))))
    c.must('%s: no coins' % x.n, x.ok, NOT(is_variant(p, SM, 'Denom')))
NOT_OLD = ('DeployCrossChainTreasury',)
def old_adapts(x, case, what, shape):
    """exactly one message, of this shape"""
    c = x.c; ps = [p for p in parts_of(F(x.val, 'msgs')) if p[1]]
    if not c.ob('%s: one message' % x.n, len(ps) == 1 and not ps[0][0], str(len(ps))): return
    c.must('%s: %sthe message is as asked' % (x.n, what), AND(x.ok, case), AND(ps[0][1], shape(ps[0][2])))
def new_action(a, e, k, ty):
    """the old-style action a says what the new-style action e of kind k says"""
    w = VF(e, k); va = 'enterprise_versioning_api::api::Version'; vq = 'enterprise_versioning_api::msg::QueryMsg'; vp = 'enterprise_versioning_api::api::VersionParams'
    if k == 'UpgradeDao':
        one_ = St(va, major=I(1), minor=I(0), patch=I(0)); early = lt(F(w, 'new_version'), one_); u = VF(a, k)
        q = lambda ver: F(Q(L('enterprise_versioning'), V(vq, 'Version', _=St(vp, version=ver))), 'version')
        return A(is_variant(a, OA, k), phi_g(early, eqt(F(u, 'new_dao_code_id'), F(q(F(w, 'new_version')), 'enterprise_code_id')), A(eqt(F(u, 'new_dao_code_id'), F(q(one_), 'enterprise_treasury_code_id')), eqt(unjson(F(u, 'migrate_msg')), St(V1 + '::v1_structs::TreasuryV1_0_0MigrationMsg', initial_submsgs_limit=NONE)))))
    t = 'ExecuteMsgs' if k in ('ExecuteTreasuryMsgs', 'ExecuteEnterpriseMsgs') else k
    return AND(is_variant(a, OA, t), like(VF(a, t), w, ty, drop=('remote_treasury_target',)))
def phi_g(c, a, b): return B.ite(c, a, b)
