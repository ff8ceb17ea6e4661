"""Stored records: a record repeats its own key truthfully, and the secondary indices select by what they are asked for."""
from rule import *
from interp import Interp, State, short
from lib import nsof
STORES = {'enterprise_governance': ('POLLS', 'VOTES'), 'funds_distributor': ('native_distributions', 'cw20_distributions'),
          'token_staking_membership': ('token_claims',), 'denom_staking_membership': ('denom_claims',), 'nft_staking_membership': ('nft_claims', 'nft_stakes')}
def calls_of(c, crate):
    for v in c.variants(crate): yield c.ex(crate, v)
    yield c.inst(crate); yield c.mig(crate); yield c.rep(crate, None)
def keyed_records(*crates):
    def f(c):
        """every record is stored under the key it names"""
        for cr in crates:
            seen = set()
            for S_ in calls_of(c, cr):
                for w in S_.writes:
                    if w.kind != 'save' or w.ns not in STORES[cr]: continue
                    seen.add(w.ns)
                    for (ns, fld), i in TM.KEYED.items():
                        if ns != w.ns: continue
                        c.must('%s: %s.%s names its key' % (S_.name, ns, fld), w.guard, eqt(F(w.val, fld), w.key if i is None else getf(w.key, str(i))), loc_of(w, S_))
            c.ob('%s: stores written' % cr, seen == set(STORES[cr]), str(seen))
    f.__name__ = 'keyed_records'
    return f
PSF = 'poll_engine_api::api::PollStatusFilter'
def indices(want, pkg):
    def f(c):
        """the secondary indices select by what they are asked for, and are kept up to date"""
        for crate, q, ns, ix, fld in want:
            c.qry(crate, q)
            t = TM.IDX.get((ns, ix))
            if not c.ob('%s: index present' % ix, t is not None): continue
            if fld != 'status': c.ob('%s: selects by %s' % (ix, fld), t is F(TM.REC, fld), pp(t)[:200]); continue
            st = F(TM.REC, 'status'); ok = t.op == 'f' and t.a[0].op == 'json'
            if not c.ob('%s: selects by the status' % ix, ok, pp(t)[:200]): continue
            for v in ('InProgress', 'Passed', 'Rejected'):
                c.must('%s: %s polls are listed as such' % (ix, v), is_variant(st, fq('poll_engine_api::api::PollStatus'), v), is_variant(t.a[0].a[0], fq(PSF), v))
        n = 0
        for b in sorted(c.prog.fn):
            if not b.endswith('::get_indexes') or b.split('::')[0] != pkg: continue
            n += 1
            ty = c.prog.fn[b].locals[1][0].lstrip('&').split('<')[0]
            aid = next((a for a in ADTS if a == b.split('::')[0] + '::' + ty), None)
            if not c.ob('%s: index list known' % b, aid is not None, ty): continue
            xs = parts_of(c.fn(b, [P('self')], result=False).val)
            for fd in ADTS[aid]['v'][0][2]:
                c.ob('%s: index %s is kept up to date' % (ty, fd[0]), any(not qq and g == TRUE and x is F(P('self'), fd[0]) for qq, g, x in xs), ty)
        c.ob('%s: index lists found' % pkg, n > 0)
    f.__name__ = 'indices'
    return f
GV, FD = 'enterprise_governance', 'funds_distributor'
prop('C18', 'C19', 'C20')(keyed_records(GV))
prop('C18', 'C35')(indices([(GV, 'PollVoters', 'VOTES', 'VOTES__POLL', 'poll_id'), (GV, 'Polls', 'POLLS', 'POLLS__POLL_STATUS', 'status')], 'poll_engine'))
prop('C26', 'C27')(keyed_records(FD))
prop('C26', 'C27')(indices([], FD))
for k in ('token', 'denom', 'nft'):
    cr = k + '_staking_membership'; ps = ('C24', 'C37') if k == 'nft' else ('C24',)
    prop(*ps)(keyed_records(cr))
    prop(*ps)(indices([(cr, 'Claims', k + '_claims', k + '_claims__user', 'user')] + ([(cr, 'UserStake', 'nft_stakes', 'nft_stakes__staker', 'staker')] if k == 'nft' else []), k + '_staking_impl'))

# ------------------------------------------------------------------ where things lie in storage
def declared(c):
    """every declared store: (where, term)"""
    I_ = Interp(c.prog)
    def ctors(b):
        for bb in b.blocks:
            t = bb and bb['t']
            if t and t[0] == 'call' and t[1][0] == 'k' and 'fn' in t[1][1]: yield short(t[1][1]['fn']['n'])
    for i, b in sorted(list(c.prog.const.items()) + list(c.prog.fn.items())):
        if b.argc or not set(ctors(b)) & {'Item::new', 'Map::new', 'IndexedMap::new', 'SnapshotItem::new', 'SnapshotMap::new'}: continue
        s = State(); s.pc = TRUE; s.frames = {}; s.owned = set(); s.log = (); s.quants = ()
        yield i, I_.full(s, I_.call_body(s, b, [])[1])
def layout(*crates):
    """sub-stores (indices, histories) share no name with one another or with a store, indices point back at their own map, and histories keep every block"""
    def f(c):
        n = 0
        for cr in crates:
            names = {}
            def own(ns, i): c.ob('%s: the name of %s is its own' % (cr, i), names.setdefault(ns, i) == i, '%s is also used by %s' % (ns, names[ns]))
            mine = [(i, t) for i, t in declared(c) if i.split('::')[0] in LINKED[cr]]
            subs = []
            for i, t in mine:
                if t.op == 'item' and len(t.a) > 1:
                    n += 1; subs += [(nsof(t.a[1]), i + ' (checkpoints)'), (nsof(t.a[2]), i + ' (history)')]
                    c.ob('%s: %s keeps its history block by block' % (cr, i), t.a[3].op == 'adt' and t.a[3].a[1] == 'EveryBlock', pp(t.a[3]))
                if t.op == 'adt' and t.a[1] == 'IndexedMap':
                    n += 1
                    for m in (x for x in walk_terms(t.a[3][1]) if x.op == 'mindex'):
                        subs.append((m.a[1], i + ' (index %s)' % m.a[1]))
                        c.ob('%s: index %s belongs to its map' % (i, m.a[1]), m.a[0] == nsof(t.a[3][0]), m.a[0])
            for i, t in mine:
                ns = lib.cns(t) if t.op != 'adt' else nsof(t.a[3][0])
                names.setdefault(ns, i)
            for ns, i in subs: own(ns, i)
        c.ob('indexed or historical stores found', n > 0)
    f.__name__ = 'layout'
    f.__doc__ = layout.__doc__
    return f
MC = 'membership_common'
LINKED = {'enterprise_governance': ('enterprise_governance', 'poll_engine'), 'funds_distributor': ('funds_distributor',), 'enterprise_treasury': ('enterprise_treasury',), 'multisig_membership': (MC, 'multisig_membership_impl', 'multisig_membership')}
for k in ('token', 'denom', 'nft'): LINKED[k + '_staking_membership'] = (MC, k + '_staking_impl', k + '_staking_membership')
prop('C18', 'C35')(layout(GV))
prop('C26', 'C27')(layout(FD))
prop('C22', 'C42')(layout('multisig_membership', 'token_staking_membership', 'denom_staking_membership', 'nft_staking_membership'))
prop('C24')(layout('token_staking_membership', 'denom_staking_membership', 'nft_staking_membership'))
prop('C37')(layout('nft_staking_membership'))
