"""Enterprise contract: authority, one-time wiring, upgrades, attestation."""
from rule import *
import interp
CR = 'enterprise'
COMP = L('component_contracts')
CTRL = F(COMP, 'enterprise_governance_controller_contract')
PROT = 'enterprise_protocol::api::'
COMPF = ('enterprise_governance_contract', 'enterprise_governance_controller_contract', 'enterprise_treasury_contract', 'enterprise_outposts_contract', 'funds_distributor_contract', 'membership_contract', 'council_membership_contract')
def ctype():
    return fq('enterprise::state::ComponentContracts')
def comp(**ch):
    d = {f: F(COMP, f) for f in COMPF + ('attestation_contract',)}
    d.update(ch)
    return St(ctype(), **d)
def changed(new, old):
    ch = is_variant(new, fq('common::commons::ModifyValue'), 'Change')
    return phi([(ch, VF(new, 'Change')), (NOT(ch), old)])
DATA = {'dao_metadata', 'dao_version', 'dao_type', 'dao_creation_date', 'component_contracts', 'enterprise_factory_contract', 'enterprise_versioning_contract', 'is_creation_finalized'}

@prop('C02')
def enterprise_authority(c):
    """after set-up only the DAO's governance controller can change anything in the enterprise contract"""
    for v in c.variants(CR):
        S_ = c.ex(CR, v)
        if v == 'FinalizeInstantiation': continue
        c.must('%s: only the governance controller' % S_.name, S_.ok, AND(has('component_contracts'), eq(SENDER, CTRL)))
        c.reach('%s: possible for it' % S_.name, S_.ok)
    S_ = c.ex(CR, 'ExecuteMsgs'); s = src(M(S_, 'ExecuteMsgs', 'msgs'))
    check_msgs(c, S_, [Want('each listed message is sent', lambda e: eqt(msg_of(e), mk('parsed', elem(s), COSMOS)), quants=(s,), ordered=True)])
    check_writes(c, S_, [])

@prop('C02')
def finalize_once(c):
    """the component addresses are set exactly once, by the creator of the contract, each to the given validated address"""
    S_ = c.ex(CR, 'FinalizeInstantiation'); n = S_.name
    c.must('%s: only once' % n, S_.ok, A(has('is_creation_finalized'), NOT(truth(L('is_creation_finalized')))))
    c.must('%s: only by the creator' % n, S_.ok, eq(SENDER, F(mk('query', SELF, S('contract_info')), 'creator')))
    m = mk('vf', P('msg'), 'FinalizeInstantiation', '0')
    for f in COMPF: c.must('%s: %s validated' % (n, f), S_.ok, atom('valid', F(m, f)))
    a = F(m, 'attestation_contract')
    c.must('%s: attestation validated' % n, AND(S_.ok, NOT(is_variant(a, OPTION, 'None'))), atom('valid', VF(a, 'Some')))
    new = St(ctype(), attestation_contract=a, **{f: F(m, f) for f in COMPF})
    check_writes(c, S_, [Want('addresses stored', is_save('component_contracts', None, new)), Want('set-up closed', is_save('is_creation_finalized', None, bl(TRUE)))])
    check_msgs(c, S_, [])
    S_ = c.inst(CR); m = P('msg')
    cd = F(m, 'dao_creation_date')
    check_writes(c, S_, [Want('set-up open', is_save('is_creation_finalized', None, bl(FALSE))), Want('factory', is_save('enterprise_factory_contract', None, F(m, 'enterprise_factory_contract'))),
                         Want('versioning', is_save('enterprise_versioning_contract', None, F(m, 'enterprise_versioning_contract'))), Want('metadata', is_save('dao_metadata', None, F(m, 'dao_metadata'))),
                         Want('version', is_save('dao_version', None, F(m, 'dao_version'))), Want('type', is_save('dao_type', None, F(m, 'dao_type'))),
                         Want('creation date', is_save('dao_creation_date', None, phi([(is_variant(cd, OPTION, 'None'), NOW), (NOT(is_variant(cd, OPTION, 'None')), VF(cd, 'Some'))])))], ignore=lambda e: e.ns == 'contract_info')
    for f in ('enterprise_factory_contract', 'enterprise_versioning_contract'): c.must('%s: %s validated' % (S_.name, f), S_.ok, atom('valid', F(m, f)))

@prop('C02')
def enterprise_updates(c):
    """metadata, configuration and attestation changes alter exactly what they name"""
    S_ = c.ex(CR, 'UpdateMetadata'); m = mk('vf', P('msg'), 'UpdateMetadata', '0'); old = L('dao_metadata'); so = F(old, 'socials')
    new = St(PROT + 'DaoMetadata', name=changed(F(m, 'name'), F(old, 'name')), description=changed(F(m, 'description'), F(old, 'description')), logo=changed(F(m, 'logo'), F(old, 'logo')),
             socials=St(PROT + 'DaoSocialData', **{f: changed(F(m, f), F(so, f)) for f in ('github_username', 'twitter_username', 'discord_username', 'telegram_username')}))
    check_writes(c, S_, [Want('exactly the given metadata changes', is_save('dao_metadata', None, new))])
    check_msgs(c, S_, [])
    S_ = c.ex(CR, 'UpdateConfig'); m = mk('vf', P('msg'), 'UpdateConfig', '0'); W = []
    for f, ns in (('new_factory_contract', 'enterprise_factory_contract'), ('new_versioning_contract', 'enterprise_versioning_contract')):
        ch = is_variant(F(m, f), fq('common::commons::ModifyValue'), 'Change'); v = VF(F(m, f), 'Change')
        def sh(e, ns=ns, ch=ch, v=v):
            if e.ns != ns or e.kind != 'save': return FALSE
            return OR(AND(ch, eqt(e.val, v)), AND(NOT(ch), eqt(e.val, L(ns))))
        W.append(Want('%s set when given' % ns, sh, when=ch))
        W.append(Want('%s kept' % ns, sh, when=NOT(ch), must=False))
        c.must('%s: %s validated' % (S_.name, f), AND(S_.ok, ch), atom('valid', v))
    check_writes(c, S_, W)
    check_msgs(c, S_, [])
    S_ = c.ex(CR, 'RemoveAttestation')
    check_writes(c, S_, [Want('only the attestation is removed', is_save('component_contracts', None, comp(attestation_contract=NONE)))])
    check_msgs(c, S_, [])
    S_ = c.ex(CR, 'SetAttestation')
    check_writes(c, S_, [])
    vr = Q(L('enterprise_versioning_contract'), V('enterprise_versioning_api::msg::QueryMsg', 'Version', _=St('enterprise_versioning_api::api::VersionParams', version=L('dao_version'))))
    def inst(e):
        w = msg_of(e)
        if w.op != 'adt' or w.a[1] != 'Wasm' or w.a[3][0].a[1] != 'Instantiate': return FALSE
        w = w.a[3][0]; pay = unjson(F(w, 'msg'))
        return A(eqt(F(w, 'code_id'), F(vr, 'version', 'attestation_code_id')), eqt(F(pay, 'attestation_text'), M(S_, 'SetAttestation', 'attestation_text')), eqt(F(e.val, 'id'), I(1)), eqt(F(e.val, 'reply_on'), S('Success')))
    check_msgs(c, S_, [Want('a new attestation with the given text is created', inst)])
    S_ = c.rep(CR, 1); S_.name = CR + '::reply(attestation created)'
    ws = S_.writes
    c.ob('%s: stores the new attestation' % S_.name, bool(ws) and entails(S_.ok, O(*[w.guard for w in ws])))
    for w in ws:
        c.ob('%s: only component addresses' % S_.name, w.ns == 'component_contracts' and w.kind == 'save', short_eff(w))
        if w.ns != 'component_contracts': continue
        a = F(w.val, 'attestation_contract')
        c.must('%s: other components kept' % S_.name, w.guard, eqt(w.val, comp(attestation_contract=a)))
        c.must('%s: an attestation is set' % S_.name, w.guard, is_variant(a, OPTION, 'Some'))
        c.ob('%s: the address comes from the reply' % S_.name, mentions(a, P('msg')) or any(t.op == 'reply' for t in walk_terms(a)), pp(a)[:200])
        c.must('%s: the address is validated' % S_.name, w.guard, atom('valid', VF(a, 'Some')))
    check_msgs(c, S_, [])
    U = c.rep(CR, None)
    c.must('%s::reply: unknown replies refused' % CR, U.ok, eq(F(P('msg'), 'id'), I(1)))
    # who may write what
    owner = {'UpdateMetadata': {'dao_metadata'}, 'UpgradeDao': {'dao_version'}, 'UpdateConfig': {'enterprise_factory_contract', 'enterprise_versioning_contract'}, 'SetAttestation': set(), 'RemoveAttestation': {'component_contracts'}, 'ExecuteMsgs': set(), 'FinalizeInstantiation': {'component_contracts', 'is_creation_finalized'}}
    for v in c.variants(CR):
        E = c.ex(CR, v)
        for w in E.writes: c.ob('%s: touches only what it names' % E.name, w.ns in owner.get(v, ()) , short_eff(w), loc_of(w, E))
    for w in c.mig(CR).writes: c.ob('%s: migration keeps DAO data' % CR, w.ns not in DATA, short_eff(w), loc_of(w, c.mig(CR)))

def higher(new, cur):
    r = lt(cur, new)
    f = ['major', 'minor', 'patch']; x = FALSE
    for i in range(3): x = OR(x, A(*[eq(F(cur, g), F(new, g)) for g in f[:i]], lt(F(cur, f[i]), F(new, f[i]))))
    return OR(r, x)

@prop('C30')
def upgrade_path(c):
    """a DAO moves only to a higher version, migrating itself through the code of every published version in between up to and including the target, each with the message supplied for that version"""
    S_ = c.ex(CR, 'UpgradeDao'); n = S_.name; m = mk('vf', P('msg'), 'UpgradeDao', '0'); tgt = F(m, 'new_version'); cur = L('dao_version')
    c.must('%s: only upwards' % n, S_.ok, higher(tgt, cur))
    c.must('%s: only by the governance controller' % n, S_.ok, eq(SENDER, CTRL))
    c.must('%s: one migrate message per version' % n, S_.ok, distinct(F(m, 'migrate_msgs'), lambda e: F(e, 'version'), lambda e: F(e, 'migrate_msg')))
    check_writes(c, S_, [Want('the target version is recorded', is_save('dao_version', None, tgt))])
    c.ob('%s: migrates' % n, bool(S_.msgs))
    ver = L('enterprise_versioning_contract'); incl = False; pages = {}
    for e in S_.msgs:
        w = msg_of(e); loc = loc_of(e, S_)
        if not c.ob('%s: only migrations of this contract' % n, w.op == 'adt' and w.a[1] == 'Wasm' and w.a[3][0].op == 'adt' and w.a[3][0].a[1] == 'Migrate', short_eff(e), loc): continue
        w = w.a[3][0]
        c.must('%s: migrates itself' % n, e.guard, eqt(F(w, 'contract_addr'), SELF), loc)
        code = F(w, 'new_code_id')
        if not c.ob('%s: to the enterprise code of a version' % n, code.op == 'f' and code.a[1] == 'enterprise_code_id', pp(code)[:200], loc): continue
        x = code.a[0]
        qs = [t for t in walk_terms(x) if t.op == 'query']
        c.ob('%s: of the published versions' % n, any(t.a[0] is ver and t.a[1].op == 'adt' and t.a[1].a[1] == 'Versions' for t in qs), pp(x)[:200], loc)
        for t in qs:
            if t.a[0] is ver and t.a[1].op == 'adt' and t.a[1].a[1] == 'Versions':
                sa = F(VF(t.a[1], 'Versions'), 'start_after')
                c.ob('%s: starting after the current version' % n, mentions(sa, cur), pp(sa)[:200], loc)
                page = F(t, 'versions'); pages[t] = page
                for p in [p for p in dict.fromkeys(walk_terms(sa)) if p.op == 'prev']:
                    # every further page starts after the last version of the page before
                    now = {q.a[0]: q for q in p.a[0] if q.op == 'last'}
                    p0 = subst(p, {q: k for k, q in now.items()}); pg = subst(page, {p: p0}) if p0 is not p else page
                    st = interp.STEPS.get(p0)
                    if not c.ob('%s: pages are gone through one after the other' % n, bool(st), pp(p)[:200], loc): continue
                    for v in st:
                        for g, y in alts(v): c.ob('%s: the next page starts after the last version of the page before' % n, y.op == 'f' and y.a[1] == 'version' and y.a[0].op in ('get', 'last', 'lastof') and y.a[0].a[0] in (pg, src(pg)) and (y.a[0].op != 'get' or y.a[0].a[1] is S('last')), pp(y)[:300], loc)
        for g, v in alts(F(w, 'msg')):
            okp = (v.op == 'json' and v.a[0].op == 'adt' and v.a[0].a[0].endswith('Empty')) or (v.op in ('mapget', 'get') and mentions(v, F(m, 'migrate_msgs')) and any(a is F(x, 'version') for a in v.a if isinstance(a, T)))
            c.ob('%s: migrate message is the one supplied for that version, or empty' % n, okp, pp(v)[:300], loc)
        # which versions
        for g, v, sure in picks(x, e.guard):
            vv = F(v, 'version')
            if sure: c.ob('%s: never past the target' % n, not sat(AND(g, lt(tgt, vv))), 'a version above the target is migrated to', loc)
            if sure and sat(AND(g, eq(tgt, vv))): incl = True
            if x.op == 'first': continue
            # of what is gone through, nothing on the way to the target is left out
            own = [i for i in B.support(g) if any(t is v for z in atomkey(i)[1:] if isinstance(z, T) for t in walk_terms(z))]
            c.must('%s: no version on the way is left out' % n, A(S_.ok, B.exists(g, own), lt(vv, tgt)), g, loc)
    ends = FALSE
    for t, page in pages.items():
        ends = O(ends, NOT(nonempty((src(page),))), any_((src(page),), NOT(lt(F(elem(src(page)), 'version'), tgt))))
    c.must('%s: goes on until the target is reached or no version is left' % n, S_.ok, ends)
    c.ob('%s: the target version itself is reached' % n, incl, 'no migration to the code of the target version')
def picks(x, g0):
    """(condition, generic element, whether the condition is complete) of what a picked list element can be"""
    if x.op == 'first': return [(x.a[1], elem(x.a[0]), True)]
    if x.op == 'elem' and x.a[0].op == 'earlier': return [(g, v, bool(q)) for q, g, v in x.a[0].a[1].a[1]]
    if x.op == 'elem': return [(g0, x, True)]
    return []

@prop('C09', 'C42')
def restricted_answer(c):
    """a user counts as restricted exactly when the DAO has an attestation the user has not signed"""
    S_, v = c.qval(CR, 'IsRestrictedUser'); u = M(S_, 'IsRestrictedUser', 'user'); a = F(COMP, 'attestation_contract')
    signed = truth(F(Q(VF(a, 'Some'), V('attestation_api::msg::QueryMsg', 'HasUserSigned', _=St('attestation_api::api::HasUserSignedParams', user=u))), 'has_signed'))
    none = is_variant(a, OPTION, 'None')
    c.must('%s: exactly unsigned users' % S_.name, S_.ok, IFF(truth(F(v, 'is_restricted')), AND(NOT(none), NOT(signed))))
    c.reach('%s: answers without attestation' % S_.name, AND(S_.ok, none))
    c.reach('%s: answers with attestation' % S_.name, AND(S_.ok, NOT(none)))

@prop('C02', 'C42')
def component_query(c):
    """the component addresses are reported as stored, each under its own name"""
    S_, v = c.qval(CR, 'ComponentContracts')
    want = St(PROT + 'ComponentContractsResponse', enterprise_factory_contract=L('enterprise_factory_contract'), enterprise_versioning_contract=L('enterprise_versioning_contract'), attestation_contract=F(COMP, 'attestation_contract'), **{f: F(COMP, f) for f in COMPF})
    c.must('%s: as stored' % S_.name, S_.ok, eqt(v, want))
    c.reach('%s: answers' % S_.name, S_.ok)
    S_, v = c.qval(CR, 'DaoInfo')
    c.must('%s: as stored' % S_.name, S_.ok, eqt(v, St(PROT + 'DaoInfoResponse', creation_date=L('dao_creation_date'), metadata=L('dao_metadata'), dao_type=L('dao_type'), dao_version=L('dao_version'))))

@prop('C30')
def component_migration(c):
    """when the enterprise contract is migrated, each component is migrated to the code published for that kind of component"""
    S_ = c.mig(CR); ver = L('enterprise_versioning_contract'); DT = fq('enterprise_protocol::api::DaoType')
    def to(e):
        w = msg_of(e)
        if w.op != 'adt' or w.a[1] != 'Wasm' or w.a[3][0].op != 'adt' or w.a[3][0].a[1] != 'Migrate': return None
        w = w.a[3][0]
        return F(w, 'contract_addr'), F(w, 'new_code_id'), F(w, 'msg')
    def mig(comp_, code):
        def f(e):
            t = to(e)
            if t is None: return FALSE
            a, cid, pay = t
            r = FALSE
            for g, x in alts(cid):
                if x.op == 'f' and x.a[1] == code and any(y.op == 'query' and y.a[0] is ver for y in walk_terms(x)): r = OR(r, g)
            return AND(eqt(a, F(COMP, comp_)), r)
        return f
    W = [Want('outposts', mig('enterprise_outposts_contract', 'enterprise_outposts_code_id')), Want('distributor', mig('funds_distributor_contract', 'funds_distributor_code_id')),
         Want('council', mig('council_membership_contract', 'multisig_membership_code_id'))]
    for t, f in (('Denom', 'denom_staking_membership_code_id'), ('Token', 'token_staking_membership_code_id'), ('Nft', 'nft_staking_membership_code_id'), ('Multisig', 'multisig_membership_code_id')):
        W.append(Want('%s membership' % t, mig('membership_contract', f), when=is_variant(L('dao_type'), DT, t)))
    check_msgs(c, S_, W)
