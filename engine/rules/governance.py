"""Poll engine behind enterprise-governance: authority, voting window, tally, outcome."""
from rule import *
CR = 'enterprise_governance'
ADM = AND(has('admin'), eq(SENDER, L('admin')))
OUT = ('Yes', 'No', 'Abstain', 'Veto')
PST = 'poll_engine_api::api::PollStatus'
REJ = 'poll_engine_api::api::PollRejectionReason'
VO = 'poll_engine_api::api::VoteOutcome'

def disc(v):
    for n, d, fs in ADTS[fq(VO)]['v']:
        if n == v: return I(int(d))
    raise Missing('vote outcome ' + v)
def val0(m, k):
    h = lib.map_has(m, k)
    return phi([(h, lib.map_get_val(m, k)), (NOT(h), ZERO)])
def total(p):
    s = src(F(p, 'results'))
    return mk('sum', (s,), TRUE, F(elem(s), '1'))
def ratio0(a, b):
    """a/b, 0 when b is 0"""
    z = eq(b, ZERO)
    return phi([(z, ZERO), (NOT(z), lift2(a, b, lib.ratio))])
def reached(p, o):
    vt = F(p, 'veto_threshold'); none = is_variant(vt, OPTION, 'None')
    thr = F(p, 'threshold') if o != 'Veto' else phi([(none, F(p, 'threshold')), (NOT(none), VF(vt, 'Some'))])
    r = ratio0(val0(F(p, 'results'), disc(o)), sub(total(p), val0(F(p, 'results'), disc('Abstain'))))
    return NOT(lt(r, thr))
def quorum(p, mx): return NOT(lt(ratio0(total(p), mx), F(p, 'quorum')))
def cases(p, mx):
    """outcome of ending a poll: name -> condition"""
    q = quorum(p, mx); v, y, n = [reached(p, o) for o in ('Veto', 'Yes', 'No')]
    vy, vn = [val0(F(p, 'results'), disc(o)) for o in ('Yes', 'No')]
    r = {}
    r['QuorumNotReached'] = NOT(q)
    r['IsVetoOutcome'] = AND(q, v)
    b = AND(q, NOT(v))
    r['ThresholdNotReached'] = A(b, NOT(y), NOT(n))
    r['Passed'] = A(b, y, OR(NOT(n), lt(vn, vy)))
    r['OutcomeDraw'] = A(b, y, n, eq(vy, vn))
    r['IsRejectingOutcome'] = A(b, n, OR(NOT(y), lt(vy, vn)))
    return r

@prop('C03')
def governance_admin(c):
    """every poll operation succeeds only for the recorded admin (the governance controller); nothing but instantiation and migration sets that record"""
    vs = c.variants(CR)
    c.ob('governance execute messages present', set(vs) >= {'CreatePoll', 'CastVote', 'UpdateVotes', 'EndPoll'})
    for v in vs:
        S_ = c.ex(CR, v)
        c.must('%s: only the admin succeeds' % S_.name, S_.ok, ADM, S_.name)
        c.reach('%s: the admin can succeed' % S_.name, AND(S_.ok, ADM))
        c.ob('%s: keeps the admin' % S_.name, not ns_writes(S_, 'admin'))
        c.ob('%s: moves nothing' % S_.name, not S_.msgs)
    S_ = c.inst(CR); a = F(P('msg'), 'admin')
    c.must('%s: admin validated' % S_.name, S_.ok, atom('valid', a))
    check_writes(c, S_, [Want('admin recorded', is_save('admin', None, a)), Want('poll counter starts at 0', is_save('gov_state', None, St('poll_engine::state::GovState', poll_count=ZERO)))], ignore=lambda e: e.ns == 'contract_info')
    S_ = c.mig(CR); a = F(P('msg'), 'new_admin')
    c.must('%s: admin validated' % S_.name, S_.ok, atom('valid', a))
    check_writes(c, S_, [Want('admin recorded', is_save('admin', None, a))], ignore=lambda e: e.ns in ('contract_info', 'enterprise_contract'))
    S_ = c.rep(CR, None)
    check_writes(c, S_, []); check_msgs(c, S_, [])

@prop('C19')
def create_poll(c):
    """a new poll gets the next id, starts now, ends strictly later, starts in progress with an empty tally and exactly the given parameters"""
    S_ = c.ex(CR, 'CreatePoll'); m = lambda f: M(S_, 'CreatePoll', f)
    c.must('%s: ends in the future' % S_.name, S_.ok, lt(NOW, m('ends_at')))
    c.must('%s: threshold at most 1' % S_.name, S_.ok, NOT(lt(mk('dec', lib.Fraction(1)), m('threshold'))))
    c.reach('%s: a threshold of exactly 1 is accepted' % S_.name, AND(S_.ok, eq(m('threshold'), mk('dec', lib.Fraction(1)))))
    for o in ('Some', 'None'): c.reach('%s: possible with%s a veto threshold' % (S_.name, '' if o == 'Some' else 'out'), AND(S_.ok, is_variant(m('veto_threshold'), OPTION, o)))
    c.must('%s: proposer validated' % S_.name, S_.ok, atom('valid', m('proposer')))
    n = add(F(L('gov_state'), 'poll_count'), ONE)
    p = St('poll_engine_api::api::Poll', id=n, proposer=m('proposer'), deposit_amount=m('deposit_amount'), label=m('label'), description=m('description'), scheme=m('scheme'),
           status=V(PST, 'InProgress', ends_at=m('ends_at')), started_at=NOW, ends_at=m('ends_at'), quorum=m('quorum'), threshold=m('threshold'), veto_threshold=m('veto_threshold'), results=coll('map', ()))
    check_writes(c, S_, [Want('counter advances', lambda e: AND(TRUE if e.ns == 'gov_state' and e.kind == 'save' else FALSE, eqt(F(e.val, 'poll_count'), n) if e.ns == 'gov_state' else FALSE)),
                         Want('poll stored as described', is_save('POLLS', n, p))])

@prop('C17', 'C41')
def poll_announced(c):
    """the answer to a poll's creation names the poll created, in the form the governance controller reads it"""
    S_ = c.ex(CR, 'CreatePoll'); n = add(F(L('gov_state'), 'poll_count'), ONE)
    put = lambda k: [(g, v) for g, a, v in S_.attrs if a is S(k)]
    c.must('%s: announced as a creation' % S_.name, S_.ok, O(*[AND(g, eqt(v, S('create_poll'))) for g, v in put('action')]))
    c.must('%s: announces the number' % S_.name, S_.ok, O(*[g for g, v in put('poll_id')]))
    for g, v in put('poll_id'): c.must('%s: the number announced is that of the poll' % S_.name, AND(S_.ok, g), eqt(v, n))
    for v in c.variants(CR):
        if v == 'CreatePoll': continue
        X = c.ex(CR, v)
        for g, k, a in X.attrs: c.must('%s: not announced as a creation' % X.name, A(X.ok, g, eqt(k, S('action'))), NOT(eqt(a, S('create_poll'))))

def cast(c, o):
    S0 = c.ex(CR, 'CastVote')
    par = mk('vf', P('msg'), 'CastVote', '0')
    p = St('poll_engine_api::api::CastVoteParams', poll_id=F(par, 'poll_id'), voter=F(par, 'voter'), amount=F(par, 'amount'), outcome=V(VO, o))
    S_ = c.entry(CR, 'execute', None, V(S0.msgadt, 'CastVote', _=p))
    S_.name = '%s::execute(CastVote %s)' % (CR, o)
    return S_, F(par, 'poll_id'), F(par, 'voter'), F(par, 'amount')

@prop('C19')
def vote_window(c):
    """a vote counts only on an existing poll that has not been ended, from its start until strictly before its end; ending happens after the end or, when allowed early, only with quorum and a threshold reached"""
    S_ = c.ex(CR, 'CastVote'); pid = M(S_, 'CastVote', 'poll_id'); p = L('POLLS', pid)
    c.must('%s: poll exists' % S_.name, S_.ok, has('POLLS', pid))
    c.must('%s: poll not ended' % S_.name, S_.ok, is_variant(F(p, 'status'), fq(PST), 'InProgress'))
    c.must('%s: not before the start' % S_.name, S_.ok, NOT(lt(NOW, F(p, 'started_at'))))
    c.must('%s: strictly before the end' % S_.name, S_.ok, lt(NOW, F(p, 'ends_at')))
    c.must('%s: voter validated' % S_.name, S_.ok, atom('valid', M(S_, 'CastVote', 'voter')))
    c.reach('%s: first instant of the period is usable' % S_.name, AND(S_.ok, eq(NOW, F(p, 'started_at'))))
    S_ = c.ex(CR, 'EndPoll'); pid = M(S_, 'EndPoll', 'poll_id'); p = L('POLLS', pid); mx = M(S_, 'EndPoll', 'maximum_available_votes')
    early = truth(M(S_, 'EndPoll', 'allow_early_ending'))
    over = NOT(lt(NOW, F(p, 'ends_at')))
    some = O(*[reached(p, o) for o in ('Yes', 'No', 'Veto')])
    c.must('%s: poll exists' % S_.name, S_.ok, has('POLLS', pid))
    c.must('%s: only after the end, or early with quorum and a threshold reached' % S_.name, S_.ok, OR(over, A(early, quorum(p, mx), some)))
    c.must('%s: an ended poll is refused when asked to' % S_.name, AND(S_.ok, truth(M(S_, 'EndPoll', 'error_if_already_ended'))), is_variant(F(p, 'status'), fq(PST), 'InProgress'))
    c.must('%s: a decided poll can be ended early where allowed' % S_.name, A(ADM, has('POLLS', pid), early, NOT(over), quorum(p, mx), some, is_variant(F(p, 'status'), fq(PST), 'InProgress'), no_underflow(p)), S_.ok)
    c.reach('%s: early ending possible' % S_.name, A(S_.ok, early, NOT(over)))
    fin = AND(over, is_variant(F(p, 'status'), fq(PST), 'InProgress'))
    c.must('%s: a finished poll can always be ended' % S_.name, A(ADM, has('POLLS', pid), fin, no_underflow(p)), S_.ok)

def no_underflow(p):
    """counted votes of a stored poll never exceed their total"""
    return NOT(lt(total(p), val0(F(p, 'results'), disc('Abstain'))))

@prop('C18')
def tally(c):
    """casting a vote replaces the voter's previous vote: each outcome's count changes by exactly (new weight if chosen) - (old weight if previously chosen), nothing else about the poll changes, and the recorded vote is the new one"""
    for o in OUT:
        S_, pid, voter, amt = cast(c, o)
        key = mk('tup', voter, pid); old = L('VOTES', key); p = L('POLLS', pid)
        vote = St('poll_engine_api::api::Vote', poll_id=pid, voter=voter, outcome=disc(o), amount=amt)
        def poll_ok(e):
            if e.ns != 'POLLS' or e.kind != 'save': return FALSE
            r = eqt(e.key, pid)
            for f in ('id', 'proposer', 'deposit_amount', 'label', 'description', 'scheme', 'status', 'started_at', 'ends_at', 'quorum', 'threshold', 'veto_threshold'):
                r = AND(r, eqt(F(e.val, f), F(p, f)))
            return AND(r, results_ok(F(e.val, 'results'), F(p, 'results'), has('VOTES', key), old, o, amt))
        check_writes(c, S_, [Want('vote recorded for this voter and poll', is_save('VOTES', key, vote)), Want('tally replaces the old vote', poll_ok)])

def results_ok(new, base, hasold, old, o, amt):
    r = TRUE
    for k in OUT:
        kk = disc(k)
        minus = A(hasold, eq(F(old, 'outcome'), kk), lib.map_has(base, kk))
        want = add(sub(val0(base, kk), phi([(minus, F(old, 'amount')), (NOT(minus), ZERO)])), amt if k == o else ZERO)
        r = AND(r, eqt(val0(new, kk), want))
    return r

@prop('C18')
def update_votes(c):
    """a weight change re-casts every vote of that voter on polls still open, with the same choice and the new weight, and leaves all other votes alone"""
    S_ = c.ex(CR, 'UpdateVotes'); voter = M(S_, 'UpdateVotes', 'voter'); amt = M(S_, 'UpdateVotes', 'new_amount')
    rs = sorted({q for e in S_.writes for q in e.quants}, key=lambda t: t.id)
    c.ob('%s: walks over all votes of the voter, unbounded' % S_.name, len(rs) == 1 and rs[0].op == 'range' and rs[0].a[0] == 'VOTES' and rs[0].a[2] is voter and rs[0].a[3] is NONE and rs[0].a[4] is NONE, str([pp(r) for r in rs])[:300])
    if len(rs) != 1: return
    R = rs[0]; v0 = L('VOTES', mk('tup', voter, mk('rkey', R)))
    pid = F(v0, 'poll_id'); key = mk('tup', voter, pid)
    p = mk('load', 'POLLS', pid, ('in', (R,)))
    old = mk('load', 'VOTES', key, ('in', (R,)))
    open_ = AND(is_variant(F(p, 'status'), fq(PST), 'InProgress'), lt(NOW, F(p, 'ends_at')))
    # an in-progress status carries the poll's own end (set at creation, never changed: C19, C20)
    sync = lt(NOW, VF(F(p, 'status'), 'InProgress', 'ends_at'))
    c.reach('%s: possible' % S_.name, A(S_.ok, nonempty((R,)), open_, sync))
    c.reach('%s: possible with a vote on a poll whose period is just over' % S_.name, A(S_.ok, nonempty((R,)), is_variant(F(p, 'status'), fq(PST), 'InProgress'), eq(NOW, F(p, 'ends_at')), eq(NOW, VF(F(p, 'status'), 'InProgress', 'ends_at'))))
    vw = [w for w in S_.writes if w.ns == 'VOTES']; pw = [w for w in S_.writes if w.ns == 'POLLS']
    c.ob('%s: only votes and polls change' % S_.name, len(vw) + len(pw) == len(S_.writes))
    for ws, nm in ((vw, 'vote'), (pw, 'poll')):
        c.must('%s: every open %s of the voter is updated' % (S_.name, nm), A(S_.ok, nonempty((R,)), open_, sync), O(*[w.guard for w in ws]))
        for w in ws: c.must('%s: only open polls: %s' % (S_.name, nm), w.guard, open_, loc_of(w, S_))
    for w in vw:
        c.must('%s: same poll and voter' % S_.name, w.guard, A(eqt(w.key, key), eqt(F(w.val, 'poll_id'), pid), eqt(F(w.val, 'voter'), voter)))
        c.must('%s: new weight' % S_.name, w.guard, eqt(F(w.val, 'amount'), amt))
        c.must('%s: same choice' % S_.name, w.guard, O(*[AND(eq(F(v0, 'outcome'), disc(o)), eqt(F(w.val, 'outcome'), disc(o))) for o in OUT]))
    for w in pw:
        c.must('%s: the poll voted on' % S_.name, w.guard, eqt(w.key, pid))
        for f in ('id', 'proposer', 'deposit_amount', 'label', 'description', 'scheme', 'status', 'started_at', 'ends_at', 'quorum', 'threshold', 'veto_threshold'):
            c.must('%s: poll %s unchanged' % (S_.name, f), w.guard, eqt(F(w.val, f), F(p, f)))
        for o in OUT:
            g = AND(w.guard, eq(F(v0, 'outcome'), disc(o)))
            c.must('%s: tally of a %s vote replaced' % (S_.name, o), g, results_ok(F(w.val, 'results'), F(p, 'results'), *old_of(w, key, R), o, amt))

def old_of(w, key, R):
    return atom('has', 'VOTES', key, ('in', (R,))), mk('load', 'VOTES', key, ('in', (R,)))

@prop('C20')
def outcome(c):
    """ending a poll (and its simulation) decides by quorum first, then veto, then threshold counted without abstentions; ties and missing thresholds reject; nothing but the status changes"""
    S_ = c.ex(CR, 'EndPoll'); pid = M(S_, 'EndPoll', 'poll_id'); p = L('POLLS', pid); mx = M(S_, 'EndPoll', 'maximum_available_votes')
    cs = cases(p, mx)
    def status_ok(st):
        r = FALSE
        for k, g in cs.items():
            if k == 'Passed': x = AND(is_variant(st, fq(PST), 'Passed'), AND(eqt(VF(st, 'Passed', 'outcome'), disc('Yes')), eqt(VF(st, 'Passed', 'count'), val0(F(p, 'results'), disc('Yes')))))
            else: x = AND(is_variant(st, fq(PST), 'Rejected'), is_variant(VF(st, 'Rejected', 'reason'), fq(REJ), k))
            r = OR(r, AND(g, x))
        return r
    ws = [w for w in S_.writes]
    c.ob('%s: writes the poll' % S_.name, len(ws) >= 1 and all(w.ns == 'POLLS' and w.kind == 'save' for w in ws))
    for w in ws:
        c.must('%s: the poll asked for' % S_.name, w.guard, eqt(w.key, pid))
        for f in ('id', 'proposer', 'deposit_amount', 'label', 'description', 'scheme', 'started_at', 'ends_at', 'quorum', 'threshold', 'veto_threshold', 'results'):
            c.must('%s: poll %s unchanged' % (S_.name, f), w.guard, eqt(F(w.val, f), F(p, f)))
        c.must('%s: status follows quorum, veto, threshold' % S_.name, w.guard, status_ok(F(w.val, 'status')))
    c.must('%s: status always stored' % S_.name, S_.ok, O(*[w.guard for w in ws]))
    for k in cs: c.reach('%s: %s possible' % (S_.name, k), AND(S_.ok, cs[k]))
    S2, v = c.qval(CR, 'SimulateEndPollStatus')
    pid = M(S2, 'SimulateEndPollStatus', 'poll_id'); p = L('POLLS', pid); cs = cases(p, M(S2, 'SimulateEndPollStatus', 'maximum_available_votes'))
    c.must('%s: simulated status follows the same rule' % S2.name, S2.ok, status_ok(F(v, 'status')))
    c.must('%s: reports the poll' % S2.name, S2.ok, A(has('POLLS', pid), eqt(F(v, 'ends_at'), F(p, 'ends_at')), eqt(F(v, 'results'), F(p, 'results'))))
    check_writes(c, S2, [])
    S3, v = c.qval(CR, 'PollStatus'); pid = M(S3, 'PollStatus', 'poll_id'); p = L('POLLS', pid)
    c.must('%s: reports the stored status' % S3.name, S3.ok, A(has('POLLS', pid), eqt(F(v, 'status'), F(p, 'status')), eqt(F(v, 'ends_at'), F(p, 'ends_at')), eqt(F(v, 'results'), F(p, 'results'))))
