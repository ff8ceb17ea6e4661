"""Factory: authority over its settings; how the components of a new DAO are created, linked and recorded."""
from rule import *
CR = 'enterprise_factory'; NS = 'dao_being_created'; D = L(NS); CFG = L('config')
REC = 'enterprise_factory::state::DaoBeingCreated'
def slot(f): return F(D, f)
def SV(f): return VF(F(D, f), 'Some')
MSG0 = SV('create_dao_msg'); VER = SV('version_info'); ENT = SV('enterprise_address'); CTL = SV('enterprise_governance_controller_address')
def none(o): return is_variant(o, OPTION, 'None')
def some(o): return NOT(none(o))
def opt(new, old): return phi([(none(new), old), (some(new), VF(new, 'Some'))])
def fields(): return [x[0] for x in ADTS[fq(REC)]['v'][0][2]]
def record(must=(), free=(), rest=None):
    """shape: the creation record is saved with exactly the named fields changed"""
    must = dict(must)
    def f(e):
        if e.kind != 'save' or e.ns != NS or e.quants: return FALSE
        r = TRUE
        for x in fields():
            if x in free: continue
            r = A(r, eqt(F(e.val, x), must[x] if x in must else rest if rest is not None else slot(x)))
            if r == 0: break
        return r
    f.ns = NS
    return f
def inst_of(e): return VF(VF(msg_of(e), 'Wasm'), 'Instantiate', 'msg')
def is_inst(admin, code, payload, ids=None):
    """shape: a contract is created with this admin (None, or a term), code and message, replying on success with one of ids"""
    def f(e):
        m = msg_of(e); w = VF(m, 'Wasm')
        r = A(is_variant(m, fq(COSMOS), 'Wasm'), is_variant(w, fq(WASM), 'Instantiate'))
        if r == 0: return FALSE
        g = lambda x: VF(w, 'Instantiate', x)
        r = A(r, eqt(g('code_id'), code), eqt(F(e.val, 'reply_on'), S('Success')), eqt(g('funds'), vec()))
        if r == 0: return FALSE
        r = A(r, O(*[eqt(g('admin'), a) for a in admin]))
        p = unjson(g('msg'))
        return A(r, payload(p) if callable(payload) else eqt(p, payload))
    return f
def reply_ids(c, S_, shape, case=TRUE):
    """the reply ids of the creations of this shape"""
    r = set()
    for e in S_.msgs:
        g = A(e.guard, case, shape(e))
        if g == 0 or not sat(g): continue
        for h, x in alts(F(e.val, 'id')):
            if sat(AND(g, h)): r.add(const(x))
    return r
def the_id(c, S_, what, shape, case=TRUE):
    r = reply_ids(c, S_, shape, case)
    if not c.ob('%s: %s is created and its reply is awaited' % (S_.name, what), len(r) == 1 and None not in r and 0 not in r, str(r)): return None
    return next(iter(r))
def address(c, S_):
    """the address a reply reports"""
    ts = {t for t in walk_terms(S_.ok) if t.op == 'reply'}
    if not c.ob('%s: uses the address created' % S_.name, len(ts) == 1): return None
    return F(next(iter(ts)), 'contract_address')
def kind_of(ms, v): return is_variant(ms, fq('enterprise_factory_api::api::CreateDaoMembershipMsg'), v)
KINDS = dict(NewDenom='Denom', ImportCw20='Token', NewCw20='Token', ImportCw721='Nft', NewCw721='Nft', NewIcs721='Nft', ImportCw3='Multisig', NewMultisig='Multisig')
def dao_type(ms): return phi([(kind_of(ms, k), V('enterprise_protocol::api::DaoType', t)) for k, t in KINDS.items()])
class Flow:
    """the creation, followed from step to step by its reply ids"""
    def __init__(s, c):
        s.c = c; s.ids = {}
        s.start()
    def start(s):
        c = s.c
        vs = c.variants(CR); ids = set()
        c.ob('factory messages present', {'CreateDao', 'CreateDaoWithVersion', 'FinalizeDaoCreation', 'UpdateConfig'} <= set(vs), str(vs))
        VQ = 'enterprise_versioning_api::msg::QueryMsg'
        for v in ('CreateDao', 'CreateDaoWithVersion'):
            S_ = c.ex(CR, v); n = S_.name
            cm = M(S_, v) if v == 'CreateDao' else F(M(S_, v), 'create_dao_msg')
            q = V(VQ, 'LatestVersion') if v == 'CreateDao' else V(VQ, 'Version', _=St('enterprise_versioning_api::api::VersionParams', version=F(M(S_, v), 'version')))
            ver = F(Q(F(CFG, 'enterprise_versioning'), q), 'version'); dt = dao_type(F(cm, 'dao_membership'))
            c.reach('%s: can succeed' % n, S_.ok)
            for k in KINDS: c.reach('%s: %s possible' % (n, k), AND(S_.ok, kind_of(F(cm, 'dao_membership'), k)))
            check_writes(c, S_, [Want('creation begins with nothing recorded', record(dict(create_dao_msg=lib.Some(cm), version_info=lib.Some(ver), dao_type=lib.Some(dt)), rest=NONE))])
            pay = St('enterprise_protocol::msg::InstantiateMsg', enterprise_factory_contract=SELF, enterprise_versioning_contract=F(CFG, 'enterprise_versioning'), dao_metadata=F(cm, 'dao_metadata'), dao_creation_date=NONE, dao_type=dt, dao_version=F(ver, 'version'))
            sh = is_inst([lib.Some(SELF)], F(ver, 'enterprise_code_id'), pay)
            check_msgs(c, S_, [Want('the enterprise contract is created', sh)])
            i = the_id(c, S_, 'the enterprise contract', sh)
            if i is not None: ids.add(i)
        if c.ob('both ways of creating a DAO go on alike', len(ids) == 1, str(ids)): s.ids['enterprise'] = next(iter(ids))

def comp_inst(code, pay, who=None): return is_inst([lib.Some(who or ENT)], F(VER, code + '_code_id'), pay)
def hooks(t): return lib.Some(vec(t))

EMPTY = ('dao_asset', 'dao_nft', 'initial_weights')
def state(kind=None, lists=None, filled=(), empty=EMPTY):
    """the creation record in a certain situation: kind of membership, optional lists given or not, steps done and not done"""
    cm = fq('enterprise_factory_api::api::CreateDaoMsg'); fs = [x[0] for x in ADTS[cm]['v'][0][2]]
    def mf(f):
        if f == 'dao_membership' and kind: return V('enterprise_factory_api::api::CreateDaoMembershipMsg', kind, _=VF(F(MSG0, f), kind))
        if f in ('asset_whitelist', 'nft_whitelist') and lists is not None: return lib.Some(VF(F(MSG0, f), 'Some')) if lists else NONE
        return F(MSG0, f)
    def rf(f):
        if f == 'create_dao_msg': return lib.Some(mk('adt', cm, ADTS[cm]['v'][0][0], tuple(fs), tuple(mf(x) for x in fs))) if kind or lists is not None else lib.Some(MSG0)
        if f in ('version_info', 'enterprise_address', 'dao_type') or f in filled: return lib.Some(SV(f))
        return NONE if f in empty else slot(f)
    return {f: rf(f) for f in fields()}

class Step:
    def __init__(s, c, fl, role, **k):
        s.D = state(**k); s.tag = k.get('kind') or ('' if k.get('lists') is None else 'with lists' if k['lists'] else 'without lists')
        i = fl.ids[role]; aid = fq(REPLY)
        m = mk('adt', aid, ADTS[aid]['v'][0][0], ('id', 'result'), (I(i), F(P('msg'), 'result')))
        s.S = c.entry(CR, 'reply', None, m, pre=(c.given(NS, None, St(REC, **s.D)),), tag='(%s created%s)' % (role, ', ' + s.tag if s.tag else ''))
        s.n = s.S.name; s.a = address(c, s.S)
        c.reach('%s: can succeed' % s.n, s.S.ok)
        if s.a is not None: c.must('%s: address validated' % s.n, s.S.ok, atom('valid', s.a))
        else: raise Missing('the address of the new contract in %s' % s.n)
    def record(s, must, free=()): return record({**s.D, **must}, free)

@prop('C31')
def creation(c):
    """every component: code of its kind, owned by the DAO, linked to its controller; each address recorded in its own place; then handed over"""
    fl = Flow(c)
    if 'enterprise' not in fl.ids: return
    # enterprise
    s = Step(c, fl, 'enterprise'); S_, a, n = s.S, s.a, s.n
    check_writes(c, S_, [Want('recorded as the enterprise contract', s.record(dict(enterprise_address=lib.Some(a))))])
    pay = St('enterprise_governance_controller_api::msg::InstantiateMsg', enterprise_contract=a, dao_type=SV('dao_type'), gov_config=F(MSG0, 'gov_config'), council_gov_config=F(MSG0, 'dao_council'), proposal_infos=NONE, initial_cross_chain_treasuries=F(MSG0, 'cross_chain_treasuries'))
    sh = comp_inst('enterprise_governance_controller', pay, a)
    def own(e):
        m = msg_of(e); w = VF(m, 'Wasm')
        return A(is_variant(m, fq(COSMOS), 'Wasm'), is_variant(w, fq(WASM), 'UpdateAdmin'), eqt(VF(w, 'UpdateAdmin', 'contract_addr'), a), eqt(VF(w, 'UpdateAdmin', 'admin'), a))
    check_msgs(c, S_, [Want('the DAO becomes its own admin', own), Want('the governance controller is created', sh)])
    i = the_id(c, S_, 'the governance controller', sh)
    if i is None: return
    fl.ids['controller'] = i
    # controller
    for lists in (True, False):
        s = Step(c, fl, 'controller', lists=lists); S_, a, n = s.S, s.a, s.n
        check_writes(c, S_, [Want('recorded as the governance controller', s.record(dict(enterprise_governance_controller_address=lib.Some(a))))])
        co = F(MSG0, 'dao_council'); sm = src(F(VF(co, 'Some'), 'members'))
        members = coll('vec', (((sm,), some(co), St('multisig_membership_api::api::UserWeight', user=elem(sm), weight=I(1))),))
        def lst(x, f):
            if lists: return eqt(x, lib.Some(VF(F(MSG0, f), 'Some')))
            return OR(none(x), eqt(x, lib.Some(vec())))
        GOV = comp_inst('enterprise_governance', St('enterprise_governance_api::msg::InstantiateMsg', admin=a))
        OUT = comp_inst('enterprise_outposts', St('enterprise_outposts_api::msg::InstantiateMsg', enterprise_contract=ENT))
        COU = comp_inst('multisig_membership', St('multisig_membership_api::msg::InstantiateMsg', enterprise_contract=ENT, initial_weights=lib.Some(members), weight_change_hooks=hooks(a), total_weight_by_height_checkpoints=NONE, total_weight_by_seconds_checkpoints=NONE))
        def tre(p): return A(is_type(p, 'enterprise_treasury_api::msg::InstantiateMsg'), eqt(F(p, 'admin'), a), lst(F(p, 'asset_whitelist'), 'asset_whitelist'), lst(F(p, 'nft_whitelist'), 'nft_whitelist'))
        TRE = comp_inst('enterprise_treasury', tre)
        at = F(MSG0, 'attestation_text')
        ATT = is_inst([NONE, lib.Some(ENT)], F(VER, 'attestation_code_id'), St('attestation_api::msg::InstantiateMsg', attestation_text=VF(at, 'Some')))
        FIN = is_msg(execute(SELF, V('enterprise_factory_api::msg::ExecuteMsg', 'FinalizeDaoCreation')))
        check_msgs(c, S_, [Want('governance is created', GOV), Want('council membership is created', COU), Want('outposts are created', OUT), Want('treasury is created', TRE), Want('attestation is created', ATT, when=some(at)), Want('creation is finalised', FIN)])
        fin = [k for k, e in enumerate(S_.msgs) if sat(AND(e.guard, FIN(e)))]
        c.ob('%s: finalised after everything else' % n, fin == [len(S_.msgs) - 1], str(fin))
        for role, sh, case in (('governance', GOV, TRUE), ('council', COU, TRUE), ('outposts', OUT, TRUE), ('treasury', TRE, TRUE), ('attestation', ATT, some(at))):
            i = the_id(c, S_, role, sh, case)
            if i is None: return
            if role in fl.ids: c.ob('%s: same reply' % n, fl.ids[role] == i)
            fl.ids[role] = i
    # treasury, then membership and distributor
    H = hooks(CTL); no = dict(total_weight_by_height_checkpoints=NONE, total_weight_by_seconds_checkpoints=NONE)
    T_ = 'token_staking_api::msg::InstantiateMsg'; N_ = 'nft_staking_api::msg::InstantiateMsg'; NC = 'nft_staking_api::api::NftContract'; MI = 'multisig_membership_api::msg::InstantiateMsg'
    ws = {}; dids = set()
    for k in KINDS:
        s = Step(c, fl, 'treasury', kind=k, filled=('enterprise_governance_controller_address',)); S_, a, n = s.S, s.a, s.n
        cnt_ = L('dao_id_counter'); x = lambda f: F(VF(F(MSG0, 'dao_membership'), k), f)
        must = dict(enterprise_treasury_address=lib.Some(a)); free = ['initial_weights']
        if k in ('NewCw20', 'NewCw721'): must['unlocking_period'] = lib.Some(x('unlocking_period'))
        else: free.append('unlocking_period')
        check_writes(c, S_, [Want('recorded as the treasury', s.record(must, free)), Want('DAO registered under a fresh number', is_save('dao_addresses', cnt_, a)), Want('numbers are never reused', is_save('dao_id_counter', None, add(cnt_, I(1))))])
        def pairs(l): return coll('vec', tuple((q, h, mk('tup', F(y, 'user'), F(y, 'weight'))) for q, h, y in parts_of(l)))
        def cw3(p):
            return A(is_type(p, MI), eqt(F(p, 'enterprise_contract'), ENT), some(F(p, 'initial_weights')), eqt(F(p, 'weight_change_hooks'), H), *[eqt(F(p, f), NONE) for f in no]) if is_type(p, MI) else FALSE
        def mark(v):
            tm = x('token_marketing'); t = VF(tm, 'Some'); v = VF(v, 'Some'); own = F(t, 'marketing_owner'); u = F(t, 'logo_url'); lg = F(v, 'logo')
            return OR(A(some(tm), eqt(F(v, 'project'), F(t, 'project')), eqt(F(v, 'description'), F(t, 'description')), eqt(F(v, 'marketing'), lib.Some(opt(own, ENT))), OR(AND(none(u), none(lg)), A(some(u), some(lg), O(*[AND(g, eqt(y.a[-1] if y.op == 'call' else VF(y, 'Url'), VF(u, 'Some'))) for g, y in alts(VF(lg, 'Some')) if y.op in ('call', 'adt') and 'Url' in pp(y)[:60]])))),
                      A(none(tm), none(F(v, 'project')), none(F(v, 'description')), eqt(F(v, 'marketing'), lib.Some(ENT)), none(lg)))
        def cw20(p):
            if not is_type(p, 'cw20_base::msg::InstantiateMsg'): return FALSE
            bal = x('initial_token_balances'); idb = x('initial_dao_balance'); mint = x('token_mint')
            balances = coll('vec', tuple(parts_of(bal)) + (((), some(idb), St('Cw20Coin', address=a, amount=VF(idb, 'Some'))),))
            return A(is_type(p, 'cw20_base::msg::InstantiateMsg'), eqt(F(p, 'name'), x('token_name')), eqt(F(p, 'symbol'), x('token_symbol')), eqt(F(p, 'decimals'), x('token_decimals')), mark(F(p, 'marketing')),
                     OR(eqt(F(p, 'initial_balances'), balances), OR(AND(none(idb), eqt(F(p, 'initial_balances'), bal)), AND(some(idb), eqt(F(p, 'initial_balances'), coll('vec', tuple(parts_of(bal)) + (((), TRUE, St('Cw20Coin', address=a, amount=VF(idb, 'Some'))),)))))),
                     OR(AND(some(mint), eqt(F(p, 'mint'), lib.Some(VF(mint, 'Some')))), AND(none(mint), eqt(F(p, 'mint'), lib.Some(St('MinterResponse', minter=ENT, cap=NONE))))))
        def cw721(p):
            if not is_type(p, 'cw721_base::msg::InstantiateMsg'): return FALSE
            mi = x('minter'); return A(is_type(p, 'cw721_base::msg::InstantiateMsg'), eqt(F(p, 'name'), x('nft_name')), eqt(F(p, 'symbol'), x('nft_symbol')), OR(AND(some(mi), eqt(F(p, 'minter'), VF(mi, 'Some'))), AND(none(mi), eqt(F(p, 'minter'), ENT))))
        nft = lambda nc: comp_inst('nft_staking_membership', St(N_, enterprise_contract=ENT, nft_contract=nc, unlocking_period=x('unlocking_period'), weight_change_hooks=H, **no))
        SH = (comp_inst('denom_staking_membership', St('denom_staking_api::msg::InstantiateMsg', enterprise_contract=ENT, denom=x('denom'), unlocking_period=x('unlocking_period'), weight_change_hooks=H)) if k == 'NewDenom' else
              comp_inst('token_staking_membership', St(T_, enterprise_contract=ENT, token_contract=x('cw20_contract'), unlocking_period=x('unlocking_period'), weight_change_hooks=H, **no)) if k == 'ImportCw20' else
              nft(V(NC, 'Cw721', contract=x('cw721_contract'))) if k == 'ImportCw721' else nft(V(NC, 'Ics721', contract=x('ics721_proxy'), class_id=x('class_id'))) if k == 'NewIcs721' else
              comp_inst('multisig_membership', St(MI, enterprise_contract=ENT, initial_weights=lib.Some(x('multisig_members')), weight_change_hooks=H, **no)) if k == 'NewMultisig' else
              comp_inst('multisig_membership', cw3) if k == 'ImportCw3' else
              is_inst([lib.Some(ENT)], F(CFG, 'cw20_code_id'), cw20) if k == 'NewCw20' else is_inst([lib.Some(ENT)], F(CFG, 'cw721_code_id'), cw721))
        FD = 'funds_distributor_api::msg::InstantiateMsg'
        def distp(p): return A(is_type(p, FD), eqt(F(p, 'admin'), CTL), eqt(F(p, 'enterprise_contract'), ENT), eqt(F(p, 'minimum_eligible_weight'), F(MSG0, 'minimum_weight_for_rewards'))) if is_type(p, FD) else FALSE
        DIS = comp_inst('funds_distributor', distp)
        check_msgs(c, S_, [Want('membership is created', SH), Want('reward distributor is created', DIS)])
        ws[k] = the_id(c, S_, 'membership', SH); i = the_id(c, S_, 'the reward distributor', DIS)
        if i is None or ws[k] is None: return
        dids.add(i)
        # reward weights at the start = weights of the main membership at the start
        dist = [e for e in S_.msgs if possible(AND(e.guard, DIS(e)))]; mems = [e for e in S_.msgs if possible(AND(e.guard, SH(e)))]
        if not c.ob('%s: one membership, one distributor' % n, len(dist) == len(mems) == 1): continue
        l = F(unjson(inst_of(dist[0])), 'initial_weights')
        if KINDS[k] != 'Multisig': c.must('%s: no rewards before anything is staked' % n, S_.ok, eq(TM.length(l), I(0)))
        else:
            ml = VF(F(unjson(inst_of(mems[0])), 'initial_weights'), 'Some')
            c.must('%s: reward weights are the members\' weights' % n, S_.ok, eqt(pairs(l), pairs(ml)))
            if k == 'ImportCw3':
                ps = parts_of(ml); c.ob('%s: imported members present' % n, bool(ps))
                for q, h, y in ps:
                    vs = {t for z in q + (y,) for t in walk_terms(z) if t.op == 'query'}
                    c.ob('%s: members come from the imported multisig' % n, bool(vs) and all(t.a[0] is x('cw3_contract') for t in vs), str([pp(t.a[0])[:80] for t in vs]))
    mem = {ws[k] for k in KINDS if k not in ('NewCw20', 'NewCw721')}
    if not c.ob('all kinds of membership are recorded alike', len(mem) == 1 and len(dids) == 1, str(mem)): return
    fl.ids.update(distributor=next(iter(dids)), membership=next(iter(mem)), cw20=ws['NewCw20'], cw721=ws['NewCw721'])
    # new tokens and collections
    F2 = ('enterprise_governance_controller_address', 'enterprise_treasury_address', 'unlocking_period')
    for role, sl, code, pay in (('cw20', 'dao_asset', 'token_staking_membership', lambda a: St(T_, enterprise_contract=ENT, token_contract=a, unlocking_period=SV('unlocking_period'), weight_change_hooks=H, **no)),
                                ('cw721', 'dao_nft', 'nft_staking_membership', lambda a: St(N_, enterprise_contract=ENT, nft_contract=V(NC, 'Cw721', contract=a), unlocking_period=SV('unlocking_period'), weight_change_hooks=H, **no))):
        s = Step(c, fl, role, filled=F2); S_, a, n = s.S, s.a, s.n
        check_writes(c, S_, [Want('only noted as the DAO\'s asset', s.record({}, [sl]), must=False)])
        sh = comp_inst(code, pay(a)); check_msgs(c, S_, [Want('membership is created', sh)])
        i = the_id(c, S_, 'membership', sh)
        c.ob('%s: recorded like any other membership' % n, i == fl.ids['membership'], str(i))
    # plain recordings
    for role, sl in (('governance', 'enterprise_governance_address'), ('council', 'council_membership_address'), ('outposts', 'enterprise_outposts_address'), ('attestation', 'attestation_addr'), ('distributor', 'funds_distributor_address'), ('membership', 'membership_address')):
        s = Step(c, fl, role, empty=()); S_, a, n = s.S, s.a, s.n
        check_writes(c, S_, [Want('recorded in its own place', s.record({sl: lib.Some(a)}))]); check_msgs(c, S_, [])
    c.ob('each step has a reply of its own', len(set(fl.ids.values())) == len(fl.ids) == 11, str(fl.ids))
    U = c.rep(CR, None)
    c.must('%s: unknown replies refused' % CR, U.ok, O(*[eq(F(P('msg'), 'id'), I(i)) for i in fl.ids.values()]))

def is_type(p, ty):
    r = FALSE
    for g, y in alts(p):
        if y.op == 'adt' and y.a[0] == fq(ty): r = OR(r, g)
    return r

@prop('C31')
def handing_over(c):
    """finalising: only the factory itself; every recorded address is handed to the new DAO under its own name; the record is cleared"""
    v = 'FinalizeDaoCreation'; S_ = c.ex(CR, v); n = S_.name
    c.must('%s: only the factory itself' % n, S_.ok, eq(SENDER, SELF)); c.reach('%s: can succeed' % n, S_.ok)
    check_writes(c, S_, [Want('record cleared', record({}, rest=NONE))])
    adr = dict(enterprise_treasury_contract='enterprise_treasury_address', enterprise_governance_contract='enterprise_governance_address', enterprise_governance_controller_contract='enterprise_governance_controller_address', enterprise_outposts_contract='enterprise_outposts_address', funds_distributor_contract='funds_distributor_address', membership_contract='membership_address', council_membership_contract='council_membership_address')
    pay = St('enterprise_protocol::msg::FinalizeInstantiationMsg' if fq_ok('enterprise_protocol::msg::FinalizeInstantiationMsg') else fq('FinalizeInstantiationMsg'), attestation_contract=slot('attestation_addr'), **{k: SV(x) for k, x in adr.items()})
    ct = F(MSG0, 'cross_chain_treasuries'); l = mk('len', VF(ct, 'Some')); g = AND(some(ct), NOT(eq(l, I(0))))
    def fee(e):
        m = msg_of(e); b = VF(m, 'Bank')
        r = A(is_variant(m, fq(COSMOS), 'Bank'), is_variant(b, fq(BANK), 'Send'))
        if r == 0: return FALSE
        am = parts_of(VF(b, 'Send', 'amount'))
        if len(am) != 1 or am[0][0]: return FALSE
        return A(r, am[0][1], eqt(VF(b, 'Send', 'to_address'), SV('enterprise_outposts_address')))
    check_msgs(c, S_, [Want('the DAO receives its components', is_msg(execute(ENT, V('enterprise_protocol::msg::ExecuteMsg', 'FinalizeInstantiation', _=pay)))), Want('fee for remote treasuries', fee, when=g), Want('remote treasuries are deployed', is_msg(execute(CTL, V('enterprise_governance_controller_api::msg::ExecuteMsg', 'DeployInitialCrossChainTreasuries'))), when=g)])
    FI = [k for k, e in enumerate(S_.msgs) if 'FinalizeInstantiation' in eff_name(e)]; DE = [k for k, e in enumerate(S_.msgs) if 'DeployInitial' in eff_name(e)]
    c.ob('%s: components before remote treasuries' % n, FI and DE and max(FI) < min(DE), str((FI, DE)))
    for v in c.variants(CR):
        if v in ('CreateDao', 'CreateDaoWithVersion', 'FinalizeDaoCreation'): continue
        S_ = c.ex(CR, v)
        for e in ns_writes(S_, NS, 'dao_addresses', 'dao_id_counter'): c.fail('%s: leaves DAOs alone' % S_.name, short_eff(e), loc_of(e, S_))
    S_ = c.inst(CR); check_writes(c, S_, [Want('numbers start', lambda e: A(e.kind == 'save' and e.ns == 'dao_id_counter'))], ignore=lambda e: e.ns not in (NS, 'dao_addresses', 'dao_id_counter'))
    S_ = c.mig(CR)
    for e in ns_writes(S_, NS, 'dao_addresses', 'dao_id_counter'): c.fail('%s: leaves DAOs alone' % S_.name, short_eff(e), loc_of(e, S_))
def fq_ok(x): return x in ADTS

@prop('C07', 'C42')
def factory_settings(c):
    """the factory's settings change only for its admin, field by field, with valid addresses; global lists are fixed at creation"""
    KEPT = ('config', 'global_asset_whitelist', 'global_nft_whitelist', 'enterprise_code_ids')
    for v in c.variants(CR):
        S_ = c.ex(CR, v); n = S_.name
        if v != 'UpdateConfig':
            for e in ns_writes(S_, *KEPT): c.fail('%s: leaves the settings alone' % n, short_eff(e), loc_of(e, S_))
            continue
        c.must('%s: only the admin' % n, S_.ok, AND(has('config'), eq(SENDER, F(CFG, 'admin')))); c.reach('%s: the admin can' % n, S_.ok)
        o = lambda f: M(S_, v, f)
        for f in ('new_admin', 'new_enterprise_versioning'): c.must('%s: %s validated' % (n, f), AND(S_.ok, some(o(f))), atom('valid', VF(o(f), 'Some')))
        check_writes(c, S_, [Want('exactly the named fields change', is_save('config', None, St('enterprise_factory_api::api::Config', admin=opt(o('new_admin'), F(CFG, 'admin')), enterprise_versioning=opt(o('new_enterprise_versioning'), F(CFG, 'enterprise_versioning')), cw20_code_id=opt(o('new_cw20_code_id'), F(CFG, 'cw20_code_id')), cw721_code_id=opt(o('new_cw721_code_id'), F(CFG, 'cw721_code_id')))))])
        check_msgs(c, S_, [])
    for S_ in (c.mig(CR), c.rep(CR, None)):
        for e in ns_writes(S_, *KEPT): c.fail('%s: leaves the settings alone' % S_.name, short_eff(e), loc_of(e, S_))
    S_ = c.inst(CR); check_writes(c, S_, [Want('settings as given', is_save('config', None, F(P('msg'), 'config')))], ignore=lambda e: e.ns != 'config')
    n = S_.name
    for f in ('global_asset_whitelist', 'global_nft_whitelist'):
        o = F(P('msg'), f); l = src(VF(o, 'Some')); ws = ns_writes(S_, f); cov = FALSE
        c.must('%s: %s always recorded' % (n, f), S_.ok, O(*[w.guard for w in ws]))
        for w in ws:
            for g, t in alts(w.val):
                for q, h, x in parts_of(t):
                    gg = A(S_.ok, w.guard, g, h)
                    if not possible(gg): continue
                    c.must('%s: %s: only entries given' % (n, f), AND(gg, nonempty(q) if q else TRUE), AND(some(o), eqt(x, elem(l))) if tuple(q) == (l,) else FALSE, loc_of(w, S_))
                    cov = OR(cov, A(w.guard, g, h))
        c.must('%s: %s: all entries given' % (n, f), A(S_.ok, some(o), nonempty((l,))), cov)
        c.must('%s: %s: entries checked' % (n, f), A(S_.ok, some(o), nonempty((l,))), atom('valid', elem(l)) if 'nft' in f else O(is_variant(elem(l), fq('AssetInfoBase'), 'Native'), *[A(is_variant(elem(l), fq('AssetInfoBase'), k), atom('valid', VF(elem(l), k))) for k in ('Cw20', 'Cw1155')]))
    S_, val = c.qval(CR, 'Config'); c.must('%s: as recorded' % S_.name, S_.ok, eqt(F(val, 'config'), CFG)); c.reach('%s: answers' % S_.name, S_.ok)

class Found:
    """steps of the creation, found by what they do"""
    def __init__(s, c):
        s.ids = {}
        for i in range(1, 40):
            S_ = c.rep(CR, i)
            if not possible(S_.ok): continue
            if ns_writes(S_, 'dao_addresses'): s.ids['treasury'] = i; continue
            for e in S_.msgs:
                p = unjson(inst_of(e))
                for role, ty in (('cw20', 'token_staking_api::msg::InstantiateMsg'), ('cw721', 'nft_staking_api::msg::InstantiateMsg')):
                    if is_type(p, ty): s.ids[role] = i
@prop('C39')
def viable(c):
    """creation is refused when nobody could ever act in the DAO, or when stakes could be withdrawn before a vote ends"""
    fl = Found(c)
    if not c.ob('the steps of a creation are found', {'treasury', 'cw20', 'cw721'} <= set(fl.ids), str(fl.ids)): return
    vd = F(F(MSG0, 'gov_config'), 'vote_duration'); DU = fq('cw_utils::duration::Duration') if 'cw_utils::duration::Duration' in ADTS else fq('Duration')
    def long_enough(p): return NOT(AND(is_variant(p, DU, 'Time'), lt(VF(p, 'Time'), vd)))
    def nonzero(n, s_, f, case=TRUE): c.must('%s: nobody starts with zero' % n, A(S_.ok, nonempty((s_,)), case), NOT(eq(F(elem(s_), f), I(0))))
    for k in KINDS:
        st = Step(c, fl, 'treasury', kind=k, filled=('enterprise_governance_controller_address',)); S_, n = st.S, st.n
        x = lambda f: F(VF(F(MSG0, 'dao_membership'), k), f)
        if k in ('NewDenom', 'ImportCw20', 'ImportCw721', 'NewIcs721'):
            c.must('%s: unlocking takes at least as long as a vote' % n, S_.ok, long_enough(x('unlocking_period')))
            up = x('unlocking_period')
            c.reach('%s: unlocking may take exactly as long as a vote' % n, A(S_.ok, is_variant(up, DU, 'Time'), eq(VF(up, 'Time'), vd)))
            c.reach('%s: unlocking may be measured in blocks' % n, A(S_.ok, is_variant(up, DU, 'Height')))
        if k == 'NewMultisig': c.must('%s: there are members' % n, S_.ok, NOT(eq(mk('len', x('multisig_members')), I(0))))
        if k == 'ImportCw3':
            zero = [e for e in S_.msgs if is_type(unjson(inst_of(e)), 'multisig_membership_api::msg::InstantiateMsg')]
            c.ob('%s: a membership is created' % n, len(zero) == 1)
            for e in zero:
                l = VF(F(unjson(inst_of(e)), 'initial_weights'), 'Some'); tot = I(0)
                for q, h, y in parts_of(l): tot = add(tot, mksum(q, phi([(h, F(y, 'weight')), (NOT(h), I(0))])))
                c.must('%s: the imported members have some weight' % n, S_.ok, OR(NOT(eq(tot, I(0))), any_weight(S_)))
        if k == 'ImportCw20':
            a = x('cw20_contract'); ti = Q(a, V('cw20::query::Cw20QueryMsg' if 'cw20::query::Cw20QueryMsg' in ADTS else 'Cw20QueryMsg', 'TokenInfo')); mi = Q(a, V('cw20::query::Cw20QueryMsg' if 'cw20::query::Cw20QueryMsg' in ADTS else 'Cw20QueryMsg', 'Minter'))
            c.must('%s: the token has holders or a minter' % n, S_.ok, OR(NOT(eq(F(ti, 'total_supply'), I(0))), some(mi)))
            c.must('%s: the token is a token' % n, S_.ok, A(atom('valid', a), q_ok(a, ti.a[1])))
        if k == 'ImportCw721': c.must('%s: the collection is a collection' % n, S_.ok, q_ok(x('cw721_contract'), V('cw721::msg::Cw721QueryMsg' if 'cw721::msg::Cw721QueryMsg' in ADTS else 'Cw721QueryMsg', 'NumTokens')))
        if k == 'NewCw20':
            b = x('initial_token_balances'); m = x('token_mint'); d = x('initial_dao_balance')
            c.must('%s: the token has holders or a minter' % n, S_.ok, OR(NOT(eq(mk('len', b), I(0))), some(m)))
            c.must('%s: the DAO does not start with a zero balance' % n, AND(S_.ok, some(d)), NOT(eq(VF(d, 'Some'), I(0))))
            nonzero(n, src(b), 'amount')
    for role in ('cw20', 'cw721'):
        st = Step(c, fl, role, filled=('enterprise_governance_controller_address', 'enterprise_treasury_address', 'unlocking_period'))
        c.must('%s: unlocking takes at least as long as a vote' % st.n, st.S.ok, long_enough(SV('unlocking_period')))
def any_weight(S_):
    """a running total of the weights is not zero"""
    r = FALSE
    for v in B.support(S_.ok):
        k = atomkey(v)
        if k[0] != 'eq': continue
        n, d = lin(sub(k[1], k[2]))
        if n or len(d) != 2 or len(set(d.values())) != 1: continue
        ps = [t for t in d if t.op == 'prev' and t.a[1] is I(0)]; ss = [t for t in d if t.op == 'sum' and t.a[1] == TRUE and t.a[2] is F(elem(t.a[0][0]), 'weight')]
        if len(ps) == len(ss) == 1: r = OR(r, NOT(eq(k[1], k[2])))
    return r
