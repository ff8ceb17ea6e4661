"""Version registry: authority, no overwrite, exact edits, faithful queries."""
from rule import *
CR = 'enterprise_versioning'
def vkey(v): return mk('tup', F(v, 'major'), F(v, 'minor'), F(v, 'patch'))
CODES = ['attestation', 'enterprise', 'enterprise_governance', 'enterprise_governance_controller', 'enterprise_outposts', 'enterprise_treasury', 'funds_distributor', 'token_staking_membership', 'denom_staking_membership', 'nft_staking_membership', 'multisig_membership']
ADMIN_ONLY = AND(has('admin'), eq(SENDER, L('admin')))
def opt(new, old):
    n = is_variant(new, OPTION, 'None')
    return phi([(n, old), (NOT(n), VF(new, 'Some'))])

@prop('C07')
def registry(c):
    """only the registry's admin changes it; publishing never overwrites; editing changes only the named fields of an existing version"""
    vs = c.variants(CR)
    c.ob('versioning execute messages present', set(vs) >= {'UpdateAdmin', 'AddVersion', 'EditVersion'}, str(vs))
    for v in vs:
        S_ = c.ex(CR, v)
        c.must('%s: only the admin' % S_.name, S_.ok, ADMIN_ONLY)
        c.reach('%s: the admin can' % S_.name, S_.ok)
        check_msgs(c, S_, [])
    S_ = c.ex(CR, 'UpdateAdmin'); a = M(S_, 'UpdateAdmin', 'new_admin')
    c.must('%s: new admin validated' % S_.name, S_.ok, atom('valid', a))
    check_writes(c, S_, [Want('new admin recorded', is_save('admin', None, a))])
    S_ = c.ex(CR, 'AddVersion'); v = M(S_, 'AddVersion', 'version'); k = vkey(F(v, 'version'))
    c.must('%s: a published version is never overwritten' % S_.name, S_.ok, NOT(has('versions', k)))
    check_writes(c, S_, [Want('version published as given', is_save('versions', k, v))])
    S_ = c.ex(CR, 'EditVersion'); g = lambda f: M(S_, 'EditVersion', f); k = vkey(g('version')); old = L('versions', k)
    c.must('%s: only an existing version is edited' % S_.name, S_.ok, has('versions', k))
    new = St('enterprise_versioning_api::api::VersionInfo', version=F(old, 'version'), changelog=opt(g('changelog'), F(old, 'changelog')), **{f + '_code_id': opt(g(f + '_code_id'), F(old, f + '_code_id')) for f in CODES})
    check_writes(c, S_, [Want('exactly the named fields change', is_save('versions', k, new))])
    S_ = c.inst(CR); a = F(P('msg'), 'admin')
    c.must('%s: admin validated' % S_.name, S_.ok, atom('valid', a))
    check_writes(c, S_, [Want('admin recorded', is_save('admin', None, a))], ignore=lambda e: e.ns == 'contract_info')
    for S_ in (c.mig(CR), c.rep(CR, None)):
        for w in S_.writes: c.ob('%s: leaves the registry alone' % S_.name, w.ns == 'contract_info', short_eff(w), loc_of(w, S_))

@prop('C07', 'C30', 'C42')
def registry_queries(c):
    """the registry answers with the versions as published; the latest is the highest"""
    S_, val = c.qval(CR, 'Version'); k = vkey(M(S_, 'Version', 'version'))
    c.must('%s: only published versions' % S_.name, S_.ok, has('versions', k))
    c.must('%s: the version asked for' % S_.name, S_.ok, eqt(F(val, 'version'), L('versions', k)))
    c.must('%s: found when published' % S_.name, has('versions', k), S_.ok)
    S_, val = c.qval(CR, 'LatestVersion')
    x = F(val, 'version'); n = 0
    for g, t in alts(x):
        if not possible(AND(S_.ok, g)): continue
        n += 1
        rs = {r for r in walk_terms(t) if r.op == 'range'}
        okr = len(rs) == 1
        r = list(rs)[0] if okr else None
        okr = okr and r.a[0] == 'versions' and r.a[3] is NONE and r.a[4] is NONE and r.a[2] is mk('tup') and r.a[5].op == 'adt'
        desc = okr and r.a[5].a[1] == 'Descending'
        # highest = first of a descending walk or last of an ascending one
        pick = t.op == 'get' and t.a[1] is I(0) and desc or t.op == 'first' and desc or t.op in ('last', 'lastof') and okr and not desc or t.op == 'load' and desc
        # nothing may be passed over on the way to it
        plain = not any(x.op in ('skip', 'rev', 'upto', 'call') for x in walk_terms(t)) and all(x.a[1].op == 'i' and x.a[1].a[0] > 0 and pick and t.op not in ('last', 'lastof') for x in walk_terms(t) if x.op == 'take')
        c.ob('%s: the highest published version' % S_.name, bool(okr and pick and plain), pp(t)[:300])
    c.ob('%s: answers' % S_.name, n > 0)
    S_, val = c.qval(CR, 'Admin')
    c.must('%s: the admin on record' % S_.name, S_.ok, eqt(F(val, 'admin'), L('admin')))
    S_, val = c.qval(CR, 'Versions')
    for h, y in alts(F(val, 'versions')):
        for q, g, e in parts_of(y):
            if not possible(A(S_.ok, h, g)) or len(q) != 1: continue
            r = q[0].a[0] if q[0].op == 'take' else q[0]
            c.must('%s: each version as published' % S_.name, A(S_.ok, h, g), eqt(e, L('versions', mk('rkey', r))))
