"""Governance controller: who may propose, vote and execute; deposits; action routing; configuration validity."""
from rule import *
CR = 'enterprise_governance_controller'
API = 'enterprise_governance_controller_api::api::'
PA, PT = API + 'ProposalAction', API + 'ProposalType'
DT = 'enterprise_protocol::api::DaoType'
ENT = L('enterprise_contract')
EQ = 'enterprise_protocol::msg::QueryMsg'
PST = 'poll_engine_api::api::PollStatus'
REJ = 'poll_engine_api::api::PollRejectionReason'
GEX = 'enterprise_governance_api::msg::ExecuteMsg'
def CC(f): return F(Q(ENT, V(EQ, 'ComponentContracts')), f)
def dao_type(): return F(Q(ENT, V(EQ, 'DaoInfo')), 'dao_type')
def is_dao(*vs): return O(*[is_variant(dao_type(), fq(DT), v) for v in vs])
def restricted(u): return truth(F(Q(ENT, V(EQ, 'IsRestrictedUser', _=St('IsRestrictedUserParams', user=u))), 'is_restricted'))
MQ = 'membership_common_api::msg::QueryMsg'
def weight(u, council=False):
    return F(Q(CC('council_membership_contract' if council else 'membership_contract'), V(MQ, 'UserWeight', _=St('membership_common_api::api::UserWeightParams', user=u))), 'weight')
EXPIR = 'cw_utils::expiration::Expiration'
def total(exp, council=False):
    return F(Q(CC('council_membership_contract' if council else 'membership_contract'), V(MQ, 'TotalWeight', _=St('membership_common_api::api::TotalWeightParams', expiration=exp))), 'total_weight')
def info(pid): return L('proposal_infos', pid)
GC = L('gov_config')
def general(p): return is_variant(F(p, 'proposal_type'), fq(PT), 'General')
def state(**ch):
    st = L('state'); d = {f: F(st, f) for f in ('proposal_being_created', 'proposal_being_executed', 'proposal_being_voted_on')}
    d.update(ch)
    return St(CR + '::state::State', **d)
DEC1 = mk('dec', lib.Fraction(1))
def opt(o, d): return phi([(is_variant(o, OPTION, 'None'), d), (NOT(is_variant(o, OPTION, 'None')), VF(o, 'Some'))])

# ------------------------------------------------------------------ creation
def create_entries(c):
    """(summary, creation message, proposer, deposit or None, its amount, extra transfers)"""
    out = []
    S_ = c.ex(CR, 'CreateProposal'); m = mk('vf', P('msg'), 'CreateProposal', '0')
    denom = F(Q(CC('membership_contract'), V('denom_staking_api::msg::QueryMsg', 'DenomConfig')), 'denom')
    out.append((S_, m, SENDER, 'denom', denom))
    S_ = c.ex(CR, 'CreateProposalWithNftDeposit'); w = mk('vf', P('msg'), 'CreateProposalWithNftDeposit', '0')
    out.append((S_, F(w, 'create_proposal_msg'), SENDER, 'nft', F(w, 'deposit_tokens')))
    S_ = c.ex(CR, 'Receive'); w = mk('vf', P('msg'), 'Receive', '0')
    hook = mk('parsed', F(w, 'msg'), 'enterprise_governance_controller_api::msg::Cw20HookMsg')
    out.append((S_, mk('vf', hook, 'CreateProposal', '0'), F(w, 'sender'), 'cw20', w))
    return out
DEP, DEPA = API + 'ProposalDeposit', API + 'ProposalDepositAsset'
NFTC = lambda: F(Q(CC('membership_contract'), V('nft_staking_api::msg::QueryMsg', 'NftConfig')), 'nft_contract')
TOKC = lambda: F(Q(CC('membership_contract'), V('token_staking_api::msg::QueryMsg', 'TokenConfig')), 'token_contract')

def poll_msg(proposer, m, gc, ends):
    return V(GEX, 'CreatePoll', _=St('poll_engine_api::api::CreatePollParams', proposer=proposer, deposit_amount=ZERO, label=F(m, 'title'), description=opt(F(m, 'description'), S('')),
             scheme=V('poll_engine_api::api::VotingScheme', 'CoinVoting'), ends_at=ends, quorum=F(gc, 'quorum'), threshold=F(gc, 'threshold'), veto_threshold=F(gc, 'veto_threshold')))
def secs(t, n): return add(t, mul(I(10**9), n))

def deposit_ok(dep, kind, x, m, proposer):
    """guard: dep is the deposit that was really handed over; also returns the amount and the condition that there is one"""
    owner = opt(F(m, 'deposit_owner'), proposer)
    if kind == 'cw20':
        d = Some(St(DEP, depositor=owner, asset=V(DEPA, 'Cw20', token_addr=TOKC(), amount=F(x, 'amount'))))
        return eqt(dep, d)
    if kind == 'nft':
        d = Some(St(DEP, depositor=owner, asset=V(DEPA, 'Cw721', nft_addr=NFTC(), tokens=x)))
        return eqt(dep, d)
    s = src(FUNDS)
    hit = AND(is_dao('Denom'), any_((s,), eq(F(elem(s), 'denom'), x)))
    r = AND(NOT(hit), is_variant(dep, OPTION, 'None'))
    for g, v in alts(dep):
        if v.op == 'adt' and v.a[1] == 'Some':
            dd = VF(v, 'Some'); a = F(dd, 'asset')
            am = VF(a, 'Denom', 'amount'); dn = VF(a, 'Denom', 'denom')
            good = A(g, hit, eqt(F(dd, 'depositor'), owner), is_variant(a, fq(DEPA), 'Denom'), from_coin(am, dn, x))
            r = OR(r, good)
    return r
def from_coin(am, dn, denom):
    """amount and denom of one coin in the funds sent, the one in the given denom"""
    if am.op != 'f' or am.a[1] != 'amount': return FALSE
    coin = am.a[0]; s = src(FUNDS)
    if coin.op != 'first' or coin.a[0] is not s or not entails(coin.a[1], eq(F(elem(s), 'denom'), denom)): return FALSE
    return OR(eqt(dn, denom), TRUE if dn is F(coin, 'denom') else FALSE)

@prop('C12')
def right_to_propose(c):
    """a general proposal is opened only for an unrestricted proposer who holds voting power, or who handed over at least the minimum deposit when one is set; the poll gets the configured parameters and a fixed voting period"""
    for S_, m, who, kind, x in create_entries(c):
        n = S_.name
        created = [w for w in S_.writes if w.ns == 'state']
        c.ob('%s: proposal held until its poll exists' % n, len(created) >= 1 and len(created) == len(S_.writes) and all(w.kind == 'save' for w in created), str([w.ns for w in S_.writes]))
        c.must('%s: proposer not restricted' % n, S_.ok, NOT(restricted(who)))
        md = F(GC, 'minimum_deposit'); nomin = is_variant(md, OPTION, 'None')
        c.must('%s: without a minimum deposit the proposer has voting power' % n, AND(S_.ok, nomin), NOT(eq(weight(who), ZERO)))
        need = VF(md, 'Some')
        for w in created:
            pi = VF(F(w.val, 'proposal_being_created'), 'Some')
            c.must('%s: other in-flight records kept' % n, w.guard, eqt(w.val, state(proposal_being_created=Some(pi))))
            dep = F(pi, 'proposal_deposit')
            for g, d in alts(dep):
                g = A(w.guard, g, NOT(nomin))
                if d.op == 'adt' and d.a[1] == 'None': c.must('%s: no deposit only if none is required' % n, g, eq(need, ZERO)); continue
                a = F(VF(d, 'Some'), 'asset')
                for k in ('Denom', 'Cw20', 'Cw721'):
                    kk = is_variant(a, fq(DEPA), k)
                    am = length(VF(a, k, 'tokens')) if k == 'Cw721' else VF(a, k, 'amount')
                    if sat(AND(g, kk)): c.must('%s: deposit covers the minimum' % n, AND(g, kk), NOT(lt(am, need)))
            c.must('%s: stored as an unexecuted general proposal with the given actions' % n, w.guard, A(general(pi), is_variant(F(pi, 'executed_at'), OPTION, 'None'), is_variant(F(pi, 'earliest_execution'), OPTION, 'None'), eqt(F(pi, 'proposal_actions'), F(m, 'proposal_actions'))))
        c.must('%s: always stored' % n, S_.ok, O(*[w.guard for w in created]))
        pm = poll_msg(who, m, GC, secs(NOW, F(GC, 'vote_duration')))
        extra = []
        if kind == 'nft':
            s = src(x)
            extra = [Want('each deposited token is moved here', no_reply(execute(NFTC(), V(CW721EXEC, 'TransferNft', recipient=SELF, token_id=elem(s)))), quants=(s,))]
        check_msgs(c, S_, [Want('poll opened with the configured parameters', is_sub(execute(CC('enterprise_governance_contract'), pm), I(1), 'Success'))] + extra)
        if kind == 'cw20':
            c.must('%s: only the DAO token' % n, S_.ok, A(is_dao('Token'), eq(SENDER, TOKC())))
            c.must('%s: proposer validated' % n, S_.ok, atom('valid', who))
        if kind == 'nft':
            c.must('%s: only NFT DAOs' % n, S_.ok, is_dao('Nft'))
        c.reach('%s: possible' % n, S_.ok)
        c.reach('%s: possible without a minimum deposit' % n, A(S_.ok, nomin))
        for w in created:
            for g, d in alts(F(VF(F(w.val, 'proposal_being_created'), 'Some'), 'proposal_deposit')):
                if d.op == 'adt' and d.a[1] == 'None': continue
                a = F(VF(d, 'Some'), 'asset')
                for k in ('Denom', 'Cw20', 'Cw721'):
                    am = length(VF(a, k, 'tokens')) if k == 'Cw721' else VF(a, k, 'amount'); g2 = A(w.guard, g, S_.ok, NOT(nomin), is_variant(a, fq(DEPA), k))
                    if sat(g2): c.reach('%s: exactly the minimum deposit is enough (%s)' % (n, k), A(g2, eq(am, need)))
        acts = F(m, 'proposal_actions')
        c.must('%s: at most ten actions' % n, S_.ok, lt(mk('len', acts), I(11)))

@prop('C11')
def deposit_taken(c):
    """the recorded deposit is what was really handed over: the DAO's own coin attached to the message, the tokens sent by the DAO's token contract, or distinct NFTs the proposer may move; its owner is the named owner or the proposer"""
    for S_, m, who, kind, x in create_entries(c):
        n = S_.name
        for w in [w for w in S_.writes if w.ns == 'state']:
            dep = F(VF(F(w.val, 'proposal_being_created'), 'Some'), 'proposal_deposit')
            c.must('%s: recorded deposit is the one received' % n, w.guard, deposit_ok(dep, kind, x, m, who))
        ow = F(m, 'deposit_owner')
        cond = NOT(is_variant(ow, OPTION, 'None'))
        if kind == 'denom': cond = AND(cond, is_dao('Denom'))
        c.must('%s: named owner validated' % n, AND(S_.ok, cond), atom('valid', VF(ow, 'Some')))
        if kind == 'nft':
            c.must('%s: no token listed twice' % n, S_.ok, distinct(x))
            s = src(x); t = elem(s)
            oq = Q(NFTC(), V('cw721::query::Cw721QueryMsg', 'OwnerOf', token_id=t, include_expired=Some(bl(FALSE))))
            ap = src(F(oq, 'approvals'))
            may = OR(eq(F(oq, 'owner'), SENDER), any_((ap,), eq(F(elem(ap), 'spender'), SENDER)))
            c.must('%s: proposer owns or is approved for each token' % n, AND(S_.ok, nonempty((s,))), may)
            for who, g in (('an owner', eq(F(oq, 'owner'), SENDER)), ('someone approved', NOT(eq(F(oq, 'owner'), SENDER)))): c.reach('%s: %s can' % (n, who), A(S_.ok, nonempty((s,)), g))
            c.must('%s: each token is moved here' % n, AND(S_.ok, nonempty((s,))), O(*[A(e.guard, eqt(msg_of(e), execute(NFTC(), V(CW721EXEC, 'TransferNft', recipient=SELF, token_id=t)))) for e in S_.msgs if normq(e.quants) == (s,)]))

# ------------------------------------------------------------------ voting
def status_of(st):
    """executability class of a poll status"""
    ES = CR + '::state::ProposalExecutabilityStatus'
    rs = VF(st, 'Rejected', 'reason'); R = fq(REJ); rej = is_variant(st, fq(PST), 'Rejected')
    ne = OR(is_variant(st, fq(PST), 'InProgress'), AND(rej, O(*[is_variant(rs, R, k) for k in ('QuorumNotReached', 'ThresholdNotReached', 'QuorumAndThresholdNotReached')])))
    return phi([(ne, V(ES, 'NotExecutable')), (is_variant(st, fq(PST), 'Passed'), V(ES, 'Passed', outcome=VF(st, 'Passed', 'outcome'))),
                (AND(rej, is_variant(rs, R, 'IsRejectingOutcome')), V(ES, 'Rejected', veto=bl(FALSE))), (AND(rej, is_variant(rs, R, 'IsVetoOutcome')), V(ES, 'Rejected', veto=bl(TRUE))),
                (AND(rej, is_variant(rs, R, 'OutcomeDraw')), V(ES, 'Draw', outcome1=VF(rs, 'OutcomeDraw', '0'), outcome2=VF(rs, 'OutcomeDraw', '1'), votes_for_each=VF(rs, 'OutcomeDraw', '2')))])
def simulated(pid): return Q(CC('enterprise_governance_contract'), V('enterprise_governance_api::msg::QueryMsg', 'SimulateEndPollStatus', poll_id=pid, maximum_available_votes=total(V(EXPIR, 'Never'))))

@prop('C15')
def votes(c):
    """a vote is forwarded in the voter's own name with exactly the voter's own current weight in the body the proposal belongs to; zero weight, unknown proposals and the wrong kind of proposal are refused"""
    for v, council in (('CastVote', False), ('CastCouncilVote', True)):
        S_ = c.ex(CR, v); pid = M(S_, v, 'proposal_id'); n = S_.name
        w = weight(SENDER, council)
        c.must('%s: has voting power' % n, S_.ok, NOT(eq(w, ZERO)))
        c.must('%s: proposal exists' % n, S_.ok, has('proposal_infos', pid))
        c.must('%s: right kind of proposal' % n, S_.ok, NOT(general(info(pid))) if council else general(info(pid)))
        c.must('%s: voter not restricted' % n, S_.ok, NOT(restricted(SENDER)))
        if council: c.must('%s: the DAO has a council' % n, S_.ok, NOT(is_variant(L('council_gov_config'), OPTION, 'None')))
        m = execute(CC('enterprise_governance_contract'), V(GEX, 'CastVote', _=St('poll_engine_api::api::CastVoteParams', poll_id=pid, outcome=M(S_, v, 'outcome'), voter=SENDER, amount=w)))
        check_msgs(c, S_, [Want('own vote with own weight', no_reply(m) if council else is_sub(m, I(4), 'Success'))])
        c.reach('%s: possible' % n, S_.ok)
        if council: check_writes(c, S_, [])
        else:
            rec = Some(St(CR + '::state::ProposalBeingVotedOn', proposal_id=pid, executability_status=status_of(F(simulated(pid), 'status'))))
            check_writes(c, S_, [Want('status before the vote is noted', is_save('state', None, state(proposal_being_voted_on=rec)))])

@prop('C10', 'C15')
def vote_reply(c):
    """after a vote, a general proposal whose result would newly be decidable early gets an execution delay of a tenth of the voting period, never beyond the poll's end; nothing else about it changes"""
    S_ = c.rep(CR, 4); n = S_.name = CR + '::reply(vote cast)'
    vo = VF(F(L('state'), 'proposal_being_voted_on'), 'Some'); pid = F(vo, 'proposal_id'); p = info(pid)
    sim = simulated(pid); before = F(vo, 'executability_status')
    early = A(truth(F(GC, 'allow_early_proposal_execution')), NOT(is_dao('Multisig')), general(p))
    t = secs(NOW, div(F(GC, 'vote_duration'), I(10))); e = F(sim, 'ends_at')
    g = lt(t, e)
    ee = phi([(g, t), (NOT(g), e)])
    pw = ns_writes(S_, 'proposal_infos')
    for w in pw:
        c.must('%s: only the proposal voted on' % n, w.guard, eqt(w.key, pid))
        for f in ('proposal_type', 'executed_at', 'proposal_deposit', 'proposal_actions'):
            c.must('%s: %s unchanged' % (n, f), w.guard, eqt(F(w.val, f), F(p, f)))
        x = F(w.val, 'earliest_execution')
        c.must('%s: delay is the earlier of a tenth of the period and the end' % n, w.guard, A(is_variant(x, OPTION, 'Some'), eqt(VF(x, 'Some'), ee)))
        c.must('%s: only with early execution enabled, for general proposals' % n, w.guard, early)
        c.must('%s: an unchanged early result keeps its delay' % n, w.guard, NOT(same_status(before, F(sim, 'status'))))
    c.must('%s: a changed early result always restarts the delay' % n, A(S_.ok, early, has('proposal_infos', pid), NOT(same_status(before, F(sim, 'status')))), O(*[w.guard for w in pw]))
    c.ob('%s: no messages' % n, not S_.msgs)
def same_status(b, st):
    """stored class b equals the class of status st"""
    ES = fq(CR + '::state::ProposalExecutabilityStatus'); r = FALSE
    for g, x in alts(status_of(st)): r = OR(r, A(g, is_variant(b, ES, x.a[1]), *[eq(v, VF(b, x.a[1], f)) for f, v in zip(x.a[2], x.a[3])]))
    return r

# ------------------------------------------------------------------ execution
def actions_msg(pid): return execute(SELF, V('enterprise_governance_controller_api::msg::ExecuteMsg', 'ExecuteProposalActions', _=St(API + 'ExecuteProposalMsg', proposal_id=pid)))
def poll_status(pid): return F(Q(CC('enterprise_governance_contract'), V('enterprise_governance_api::msg::QueryMsg', 'PollStatus', poll_id=pid)), 'status')
def all_entries(c):
    """every entry point that can change state"""
    for v in c.variants(CR): yield c.ex(CR, v)
    for i in (1, 2, 3, 4):
        S_ = c.rep(CR, i); S_.name = '%s::reply(%d)' % (CR, i)
        yield S_
    yield c.inst(CR); yield c.mig(CR)

@prop('C10')
def execute_proposal(c):
    """a proposal is executed at most once, only if it exists, was not executed before and its delay is over; its poll is ended against the voting power of its own body at the poll's end"""
    S_ = c.ex(CR, 'ExecuteProposal'); n = S_.name; pid = M(S_, 'ExecuteProposal', 'proposal_id'); p = info(pid)
    c.must('%s: proposal exists' % n, S_.ok, has('proposal_infos', pid))
    c.must('%s: not executed before' % n, S_.ok, is_variant(F(p, 'executed_at'), OPTION, 'None'))
    ee = F(p, 'earliest_execution')
    c.must('%s: not before its earliest execution' % n, AND(S_.ok, NOT(is_variant(ee, OPTION, 'None'))), NOT(lt(NOW, VF(ee, 'Some'))))
    c.reach('%s: possible exactly at its earliest execution' % n, A(S_.ok, NOT(is_variant(ee, OPTION, 'None')), eq(NOW, VF(ee, 'Some'))))
    end = F(Q(CC('enterprise_governance_contract'), V('enterprise_governance_api::msg::QueryMsg', 'Poll', _=St('poll_engine_api::api::PollParams', poll_id=pid))), 'poll', 'ends_at')
    over = NOT(lt(NOW, end)); gen = general(p)
    al = []
    for council in (False, True):
        for o in (False, True):
            al.append((AND(NOT(gen) if council else gen, over if o else NOT(over)), total(V(EXPIR, 'AtTime', _=end) if o else V(EXPIR, 'Never'), council)))
    tot = phi(al)
    c.must('%s: somebody could vote' % n, S_.ok, NOT(eq(tot, ZERO)))
    early = phi([(gen, F(GC, 'allow_early_proposal_execution')), (NOT(gen), bl(TRUE))])
    def ep(e):
        x = wasm_exec(e)
        if x is None: return FALSE
        a, m, f = x
        if m.op != 'json': return FALSE
        m = m.a[0]; p = VF(m, 'EndPoll')
        if m.op != 'adt' or m.a[1] != 'EndPoll': return FALSE
        return A(eqt(a, CC('enterprise_governance_contract')), eqt(f, coll('vec', ())), eqt(F(p, 'poll_id'), pid), eqt(F(p, 'maximum_available_votes'), tot), NOT(truth(F(p, 'error_if_already_ended'))),
                 IFF(truth(F(p, 'allow_early_ending')), OR(NOT(gen), truth(F(GC, 'allow_early_proposal_execution')))), eqt(F(e.val, 'id'), I(2)), eqt(F(e.val, 'reply_on'), S('Success')))
    check_msgs(c, S_, [Want('poll ended, result awaited', ep)])
    check_writes(c, S_, [Want('this proposal noted as being executed', is_save('state', None, state(proposal_being_executed=Some(pid))))])

@prop('C10')
def execution_outcome(c):
    """when the poll has ended the proposal is marked executed for good; its actions are started exactly when it passed, by this contract itself"""
    S_ = c.rep(CR, 2); n = S_.name = CR + '::reply(poll ended)'
    pid = VF(F(L('state'), 'proposal_being_executed'), 'Some'); p = info(pid); st = poll_status(pid); passed = is_variant(st, fq(PST), 'Passed')
    c.must('%s: an execution is under way' % n, S_.ok, NOT(is_variant(F(L('state'), 'proposal_being_executed'), OPTION, 'None')))
    c.must('%s: poll no longer in progress' % n, S_.ok, NOT(is_variant(st, fq(PST), 'InProgress')))
    new = St(API + 'ProposalInfo', proposal_type=F(p, 'proposal_type'), executed_at=Some(F(P('env'), 'block')), earliest_execution=F(p, 'earliest_execution'), proposal_deposit=F(p, 'proposal_deposit'), proposal_actions=F(p, 'proposal_actions'))
    check_writes(c, S_, [Want('marked executed, otherwise unchanged', is_save('proposal_infos', pid, new)), Want('record cleared', is_save('state', None, state(proposal_being_executed=NONE)))])
    hit = [e for e in S_.msgs if has_actions(e)]
    for e in hit:
        c.must('%s: actions only after passing' % n, e.guard, passed)
        c.must('%s: actions of this proposal, failure tolerated' % n, e.guard, is_sub(actions_msg(pid), I(3), 'Always')(e))
    c.must('%s: actions always started when passed' % n, AND(S_.ok, passed), O(*[e.guard for e in hit]))
    for i in range(len(hit)):
        for j in range(i + 1, len(hit)): c.ob('%s: actions started once' % n, not sat(AND(hit[i].guard, hit[j].guard)))
    X = c.ex(CR, 'ExecuteProposalActions')
    c.must('%s: only by the contract itself' % X.name, X.ok, eq(SENDER, SELF))
    pa = M(X, 'ExecuteProposalActions', 'proposal_id')
    c.must('%s: proposal exists' % X.name, X.ok, has('proposal_infos', pa))
    for E in all_entries(c):
        bad = [e for e in E.msgs if has_actions(e)] if E.name != n and not E.name.endswith('reply(2)') else []
        c.ob('%s: starts no actions' % E.name, not bad)
        for w in ns_writes(E, 'proposal_infos'):
            if E is c.rep(CR, 2): continue
            if E is c.rep(CR, 1) or E.name.endswith('::instantiate'): continue
            if E is c.rep(CR, 4): continue
            c.fail('%s: changes a stored proposal' % E.name, short_eff(w), loc_of(w, E))
    U = c.rep(CR, None)
    ids = F(P('msg'), 'id')
    c.must('%s::reply: unknown replies refused' % CR, U.ok, O(*[eq(ids, I(i)) for i in (1, 2, 3, 4)]))
    S3 = c.rep(CR, 3)
    c.ob('%s::reply(actions done): changes nothing' % CR, not S3.writes and not S3.msgs)
    c.must('%s::reply(actions done): tolerates failure' % CR, TRUE, S3.ok)
def has_actions(e):
    x = wasm_exec(e)
    return x is not None and any(v.op == 'json' and v.a[0].op == 'adt' and v.a[0].a[1] == 'ExecuteProposalActions' for _, v in alts(x[1]))

@prop('C11')
def deposit_settled(c):
    """a deposit leaves exactly once, when the proposal is settled: in full to its owner, or to the treasury if a general proposal failed quorum or was vetoed"""
    S_ = c.rep(CR, 2); n = S_.name = CR + '::reply(poll ended)'
    pid = VF(F(L('state'), 'proposal_being_executed'), 'Some'); p = info(pid); st = poll_status(pid)
    rej = is_variant(st, fq(PST), 'Rejected'); rs = VF(st, 'Rejected', 'reason')
    dep = F(p, 'proposal_deposit'); has_dep = NOT(is_variant(dep, OPTION, 'None')); d = VF(dep, 'Some'); a = F(d, 'asset')
    gen = general(p)
    forfeit = A(rej, gen, OR(is_variant(rs, fq(REJ), 'QuorumNotReached'), is_variant(rs, fq(REJ), 'IsVetoOutcome')))
    ret = AND(OR(is_variant(st, fq(PST), 'Passed'), AND(rej, gen)), NOT(forfeit))
    wants = []
    for to, when, who in ((F(d, 'depositor'), ret, 'owner'), (CC('enterprise_treasury_contract'), forfeit, 'treasury')):
        wants.append(Want('coin deposit to the %s' % who, no_reply(bank_send(to, coinv(VF(a, 'Denom', 'denom'), VF(a, 'Denom', 'amount')))), A(has_dep, when, is_variant(a, fq(DEPA), 'Denom'))))
        wants.append(Want('token deposit to the %s' % who, no_reply(execute(VF(a, 'Cw20', 'token_addr'), V(CW20EXEC, 'Transfer', recipient=to, amount=VF(a, 'Cw20', 'amount')))), A(has_dep, when, is_variant(a, fq(DEPA), 'Cw20'))))
        s = src(VF(a, 'Cw721', 'tokens'))
        wants.append(Want('NFT deposit to the %s' % who, no_reply(execute(VF(a, 'Cw721', 'nft_addr'), V(CW721EXEC, 'TransferNft', recipient=to, token_id=elem(s)))), A(has_dep, when, is_variant(a, fq(DEPA), 'Cw721')), quants=(s,)))
    check_msgs(c, S_, wants, ignore=has_actions)
    for E in all_entries(c):
        if E is S_: continue
        for e in E.msgs:
            m = msg_of(e)
            if m.op == 'adt' and m.a[1] == 'Bank': c.fail('%s: sends coins' % E.name, short_eff(e), loc_of(e, E))
        c.ob('%s: sends no deposit' % E.name, True)

# ------------------------------------------------------------------ council
FORBIDDEN = ('UpdateGovConfig', 'UpdateCouncil', 'RequestFundingFromDao', 'ExecuteMsgs', 'ExecuteTreasuryMsgs', 'ExecuteEnterpriseMsgs', 'ModifyMultisigMembership', 'DistributeFunds', 'UpdateMinimumWeightForRewards')
PAT = API + 'ProposalActionType'
def variant_names(t): return [v[0] for v in ADTS[fq(t)]['v']]
CG = L('council_gov_config')

@prop('C13')
def council_proposals(c):
    """council proposals come only from unrestricted council members of a DAO that has a council, contain only allowed kinds of action, carry no deposit and are decided by the council's own quorum and threshold"""
    S_ = c.ex(CR, 'CreateCouncilProposal'); n = S_.name; m = mk('vf', P('msg'), 'CreateCouncilProposal', '0')
    acts = F(m, 'proposal_actions'); s = src(acts); cg = VF(CG, 'Some')
    c.must('%s: a council exists' % n, S_.ok, NOT(is_variant(CG, OPTION, 'None')))
    c.must('%s: sender is a council member' % n, S_.ok, NOT(eq(weight(SENDER, True), ZERO)))
    c.must('%s: sender not restricted' % n, S_.ok, NOT(restricted(SENDER)))
    c.must('%s: at most ten actions' % n, S_.ok, lt(mk('len', acts), I(11)))
    gc = St(API + 'GovConfig', quorum=F(cg, 'quorum'), threshold=F(cg, 'threshold'), veto_threshold=F(GC, 'veto_threshold'), vote_duration=F(GC, 'vote_duration'), minimum_deposit=F(GC, 'minimum_deposit'), allow_early_proposal_execution=F(GC, 'allow_early_proposal_execution'))
    pm = poll_msg(SENDER, m, gc, secs(NOW, F(GC, 'vote_duration')))
    check_msgs(c, S_, [Want('council poll', is_sub(execute(CC('enterprise_governance_contract'), pm), I(1), 'Success'))])
    pi = St(API + 'ProposalInfo', proposal_type=V(PT, 'Council'), executed_at=NONE, earliest_execution=NONE, proposal_deposit=NONE, proposal_actions=acts)
    check_writes(c, S_, [Want('stored as council proposal', is_save('state', None, state(proposal_being_created=Some(pi))))])
    c.reach('%s: possible' % n, S_.ok)
    # each kind of action needs the matching permission
    an, tn = variant_names(PA), variant_names(PAT)
    c.ob('every action kind has a permission kind', an == tn, '%s vs %s' % (an, tn))
    al = src(F(cg, 'allowed_proposal_action_types'))
    for k in an:
        X = c.entry(CR, 'execute', None, council_msg(c, m, vec(V(PA, k, _=P('act')))), tag=' %s' % k)
        X.name = '%s::execute(CreateCouncilProposal with %s)' % (CR, k)
        c.must('%s: refused unless allowed' % X.name, X.ok, allowed(al, k))
        c.reach('%s: possible when allowed' % X.name, X.ok)
    # every position of a longer list is checked
    e = elem(s)
    for k in an: c.must('%s: every listed %s is allowed' % (n, k), AND(S_.ok, any_((s,), is_variant(e, fq(PA), k))), allowed(al, k))
def allowed(al, k): return any_((al,), is_variant(elem(al), fq(PAT), k))
def council_msg(c, m, acts):
    S0 = c.ex(CR, 'CreateCouncilProposal')
    return V(S0.msgadt, 'CreateCouncilProposal', _=St(API + 'CreateProposalMsg', title=F(m, 'title'), description=F(m, 'description'), proposal_actions=acts, deposit_owner=F(m, 'deposit_owner')))

def council_valid(spec):
    """what must hold of an accepted council specification"""
    mem = F(spec, 'members'); s = src(mem); ty = F(spec, 'allowed_proposal_action_types'); t = src(VF(ty, 'Some'))
    r = [('no member listed twice', distinct(mem)), ('members validated', IMP(nonempty((s,)), atom('valid', elem(s)))),
         ('quorum above zero, at most one', unit(F(spec, 'quorum'))), ('threshold above zero, at most one', unit(F(spec, 'threshold')))]
    for k in FORBIDDEN:
        r.append(('%s never delegated' % k, IMP(AND(NOT(is_variant(ty, OPTION, 'None')), nonempty((t,))), NOT(is_variant(elem(t), fq(PAT), k)))))
    return r
def council_possible(c, S_, o):
    """a council within the rules can be specified"""
    g = AND(S_.ok, NOT(is_variant(o, OPTION, 'None'))); spec = VF(o, 'Some'); ty = F(spec, 'allowed_proposal_action_types'); t = src(VF(ty, 'Some')); some = NOT(is_variant(ty, OPTION, 'None'))
    c.reach('%s: a council with members can be specified' % S_.name, AND(g, nonempty((src(F(spec, 'members')),))))
    for f in ('quorum', 'threshold'): c.reach('%s: council %s may be exactly one' % (S_.name, f), AND(g, eq(F(spec, f), DEC1)))
    c.reach('%s: the kinds of actions may be left to the default' % S_.name, AND(g, NOT(some)))
    for k in variant_names(PAT):
        if k not in FORBIDDEN: c.reach('%s: %s may be delegated' % (S_.name, k), A(g, some, nonempty((t,)), is_variant(elem(t), fq(PAT), k)))
def unit(x): return AND(NOT(eq(x, ZERO)), NOT(lt(DEC1, x)))
def council_conf(o):
    """stored council configuration for an optional specification"""
    none = is_variant(o, OPTION, 'None'); d = VF(o, 'Some'); ty = F(d, 'allowed_proposal_action_types'); tn = is_variant(ty, OPTION, 'None')
    def ok(v):
        x = VF(v, 'Some'); a = F(x, 'allowed_proposal_action_types')
        al = OR(AND(tn, list_is(a, vec(V(PAT, 'UpgradeDao')), tn)), AND(NOT(tn), list_is(a, VF(ty, 'Some'), NOT(tn))))
        return OR(AND(none, is_variant(v, OPTION, 'None')), A(NOT(none), is_variant(v, OPTION, 'Some'), eqt(F(x, 'quorum'), F(d, 'quorum')), eqt(F(x, 'threshold'), F(d, 'threshold')), al))
    return ok
def list_is(a, b, g):
    """a equals b under g (lists; parts of a narrowed to g)"""
    r = FALSE
    for g0, x in alts(a):
        if x.op == 'coll': x = coll(x.a[0], tuple((q, TRUE if entails(AND(g0, g), pg) else AND(pg, g), v) for q, pg, v in x.a[1] if sat(A(g, g0, pg))))
        r = OR(r, AND(g0, eqt(x, b)))
    return r

def act(c, variant, par=None):
    """ExecuteProposalActions on a stored proposal holding exactly one action of the given kind"""
    X = c.ex(CR, 'ExecuteProposalActions'); pid = M(X, 'ExecuteProposalActions', 'proposal_id'); p = info(pid)
    par = par if par is not None else P('act')
    pi = St(API + 'ProposalInfo', proposal_type=F(p, 'proposal_type'), executed_at=F(p, 'executed_at'), earliest_execution=F(p, 'earliest_execution'), proposal_deposit=F(p, 'proposal_deposit'), proposal_actions=vec(V(PA, variant, _=par)))
    S_ = c.entry(CR, 'execute', 'ExecuteProposalActions', pre=(c.given('proposal_infos', pid, pi),), tag=': one %s action' % variant)
    c.must('%s: only by the contract itself' % S_.name, S_.ok, eq(SENDER, SELF))
    c.reach('%s: possible' % S_.name, S_.ok)
    return S_

@prop('C13', 'C14', 'C16')
def council_config(c):
    """a stored council configuration always has distinct valid members, a quorum and threshold in (0, 1], and never delegates funds, configuration or membership powers"""
    S_ = c.inst(CR); o = F(P('msg'), 'council_gov_config')
    some = NOT(is_variant(o, OPTION, 'None'))
    for nm, f in council_valid(VF(o, 'Some')): c.must('%s: council %s' % (S_.name, nm), AND(S_.ok, some), f)
    council_possible(c, S_, o)
    for w in ns_writes(S_, 'council_gov_config'): c.must('%s: council stored as specified' % S_.name, w.guard, council_conf(o)(w.val))
    c.ob('%s: stores a council setting' % S_.name, any(entails(S_.ok, w.guard) for w in ns_writes(S_, 'council_gov_config')))
    S_ = act(c, 'UpdateCouncil'); o = F(P('act'), 'dao_council'); some = NOT(is_variant(o, OPTION, 'None'))
    for nm, f in council_valid(VF(o, 'Some')): c.must('%s: council %s' % (S_.name, nm), AND(S_.ok, some), f)
    council_possible(c, S_, o)
    check_writes(c, S_, [Want('council stored as specified', lambda e: council_conf(o)(e.val) if e.ns == 'council_gov_config' and e.kind == 'save' else FALSE)])
    mem = src(F(VF(o, 'Some'), 'members'))
    def setm(e):
        x = wasm_exec(e)
        if x is None or x[1].op != 'json' or x[1].a[0].op != 'adt' or x[1].a[0].a[1] != 'SetMembers': return FALSE
        nm = F(VF(x[1].a[0], 'SetMembers'), 'new_members')
        want = coll('vec', (((mem,), TRUE, St('multisig_membership_api::api::UserWeight', user=elem(mem), weight=ONE)),))
        return A(eqt(x[0], CC('council_membership_contract')), eqt(x[2], coll('vec', ())), OR(AND(some, list_is(nm, want, some)), AND(NOT(some), list_is(nm, coll('vec', ()), NOT(some)))), eqt(F(e.val, 'reply_on'), S('Never')))
    check_msgs(c, S_, [Want('council membership replaced by the listed members, one vote each', setm)])
    for E in all_entries(c):
        if E.name.endswith('::instantiate') or 'ExecuteProposalActions' in E.name: continue
        c.ob('%s: keeps the council setting' % E.name, not ns_writes(E, 'council_gov_config'))

# ------------------------------------------------------------------ what passed actions do
EEX, TEX, OEX = 'enterprise_protocol::msg::ExecuteMsg', 'enterprise_treasury_api::msg::ExecuteMsg', 'enterprise_outposts_api::msg::ExecuteMsg'
def routes():
    """action kind -> (target, payload, treasury message?)"""
    a = P('act'); t = 'enterprise_treasury_api::api::'
    return {
        'UpdateMetadata': ('enterprise', V(EEX, 'UpdateMetadata', _=a)),
        'UpgradeDao': ('enterprise', V(EEX, 'UpgradeDao', _=a)),
        'ExecuteEnterpriseMsgs': ('enterprise', V(EEX, 'ExecuteMsgs', _=St('enterprise_protocol::api::ExecuteMsgsMsg', msgs=F(a, 'msgs')))),
        'RequestFundingFromDao': ('treasury', V(TEX, 'Spend', _=St(t + 'SpendMsg', recipient=F(a, 'recipient'), assets=F(a, 'assets')))),
        'UpdateAssetWhitelist': ('treasury', V(TEX, 'UpdateAssetWhitelist', _=St(t + 'UpdateAssetWhitelistMsg', add=F(a, 'add'), remove=F(a, 'remove')))),
        'UpdateNftWhitelist': ('treasury', V(TEX, 'UpdateNftWhitelist', _=St(t + 'UpdateNftWhitelistMsg', add=F(a, 'add'), remove=F(a, 'remove')))),
        'ExecuteTreasuryMsgs': ('treasury', V(TEX, 'ExecuteCosmosMsgs', _=St(t + 'ExecuteCosmosMsgsMsg', msgs=F(a, 'msgs')))),
        'DistributeFunds': ('enterprise_treasury_contract', V(TEX, 'DistributeFunds', _=St(t + 'DistributeFundsMsg', funds=F(a, 'funds'), funds_distributor_contract=CC('funds_distributor_contract')))),
        'ModifyMultisigMembership': ('membership_contract', V('multisig_membership_api::msg::ExecuteMsg', 'UpdateMembers', _=St('multisig_membership_api::api::UpdateMembersMsg', update_members=F(a, 'edit_members')))),
        'UpdateMinimumWeightForRewards': ('funds_distributor_contract', V('funds_distributor_api::msg::ExecuteMsg', 'UpdateMinimumEligibleWeight', _=St('funds_distributor_api::api::UpdateMinimumEligibleWeightMsg', minimum_eligible_weight=F(a, 'minimum_weight_for_rewards')))),
        'DeployCrossChainTreasury': ('enterprise_outposts_contract', V(OEX, 'DeployCrossChainTreasury', _=a)),
    }
def version_lt(a, b):
    """a strictly below b"""
    return lt(a, b)

@prop('C14')
def action_routing(c):
    """each action of a passed proposal is turned into exactly the message it describes, with its own parameters, sent to the component it is meant for; nothing else is sent or stored"""
    R = routes()
    kinds = variant_names(PA)
    special = {'ExecuteMsgs', 'UpdateCouncil', 'UpdateGovConfig'}
    for k in kinds:
        if k not in R and k not in special: c.fail('action %s: unknown kind of action' % k, 'no rule says what this action may do')
    for k, (to, payload) in R.items():
        if k not in kinds: raise Missing('action ' + k)
        S_ = act(c, k)
        if to == 'treasury':
            tgt = F(P('act'), 'remote_treasury_target'); loc = is_variant(tgt, OPTION, 'None')
            remote = V(OEX, 'ExecuteCrossChainTreasury', _=St('enterprise_outposts_api::api::ExecuteCrossChainTreasuryMsg', msg=payload, treasury_target=VF(tgt, 'Some')))
            wants = [Want('to the treasury', no_reply(execute(CC('enterprise_treasury_contract'), payload)), when=loc), Want('to the remote treasury through the outposts', no_reply(execute(CC('enterprise_outposts_contract'), remote)), when=NOT(loc))]
        else:
            wants = [Want('routed as described', no_reply(execute(ENT if to == 'enterprise' else CC(to), payload)))]
        check_msgs(c, S_, wants)
        check_writes(c, S_, [])
    S_ = act(c, 'ExecuteMsgs'); s = src(F(P('act'), 'msgs'))
    check_msgs(c, S_, [Want('each listed message is sent by this contract', lambda e: AND(eqt(msg_of(e), mk('parsed', elem(s), COSMOS)), eqt(F(e.val, 'reply_on'), S('Never'))), quants=(s,), ordered=True)])
    check_writes(c, S_, [])
    S_ = act(c, 'UpgradeDao')
    cur, new = F(Q(ENT, V(EQ, 'DaoInfo')), 'dao_version'), F(P('act'), 'new_version')
    c.must('%s: only to a higher version' % S_.name, S_.ok, higher(new, cur))
    S_ = act(c, 'ModifyMultisigMembership'); mem = F(P('act'), 'edit_members'); s = src(mem)
    c.must('%s: only in a multisig DAO' % S_.name, S_.ok, is_dao('Multisig'))
    c.must('%s: no member edited twice' % S_.name, S_.ok, distinct(mem, lambda e: F(e, 'user'), lambda e: F(e, 'weight')))
    c.must('%s: members validated' % S_.name, AND(S_.ok, nonempty((s,))), atom('valid', F(elem(s), 'user')))
    # the whole list, in order
    X = c.ex(CR, 'ExecuteProposalActions'); pid = M(X, 'ExecuteProposalActions', 'proposal_id'); al = src(F(info(pid), 'proposal_actions'))
    for e in X.msgs: c.ob('%s: %s once per listed action' % (X.name, eff_name(e)), bool(e.quants) and e.quants[0] is al, short_eff(e), loc_of(e, X))
    p = info(pid)
    two = vec(V(PA, 'UpdateMetadata', _=P('act1')), V(PA, 'UpgradeDao', _=P('act2')))
    pi = St(API + 'ProposalInfo', proposal_type=F(p, 'proposal_type'), executed_at=F(p, 'executed_at'), earliest_execution=F(p, 'earliest_execution'), proposal_deposit=F(p, 'proposal_deposit'), proposal_actions=two)
    S_ = c.entry(CR, 'execute', 'ExecuteProposalActions', pre=(c.given('proposal_infos', pid, pi),), tag=': two actions')
    want = [execute(ENT, V(EEX, 'UpdateMetadata', _=P('act1'))), execute(ENT, V(EEX, 'UpgradeDao', _=P('act2')))]
    c.ob('%s: carried out in the listed order' % S_.name, len(S_.msgs) == 2 and all(entails(e.guard, eqt(msg_of(e), w)) for e, w in zip(S_.msgs, want)), ' / '.join(eff_name(e) for e in S_.msgs))
def higher(new, cur):
    """new version strictly above cur: by the derived ordering, or field by field"""
    r = lt(cur, new)
    f = ['major', 'minor', 'patch']; x = FALSE
    for i in range(3): x = OR(x, A(*[eq(F(cur, g), F(new, g)) for g in f[:i]], lt(F(cur, f[i]), F(new, f[i]))))
    return OR(r, x)

# ------------------------------------------------------------------ governance configuration
@prop('C14', 'C16')
def gov_config_valid(c):
    """a stored governance configuration always has a non-zero voting period and quorum, threshold and veto threshold in (0, 1]; multisig DAOs have no minimum deposit; configuration changes only through a passed action, field by field"""
    GCT = API + 'GovConfig'
    flds = [f[0] for f in ADTS[fq(GCT)]['v'][0][2]]
    c.ob('configuration fields', set(flds) == {'quorum', 'threshold', 'veto_threshold', 'vote_duration', 'minimum_deposit', 'allow_early_proposal_execution'}, str(flds))
    def valid(S_, g, x, multisig):
        n = S_.name
        c.must('%s: voting period above zero' % n, g, NOT(eq(F(x, 'vote_duration'), ZERO)))
        c.must('%s: quorum in (0, 1]' % n, g, unit(F(x, 'quorum')))
        c.must('%s: threshold in (0, 1]' % n, g, unit(F(x, 'threshold')))
        v = F(x, 'veto_threshold')
        c.must('%s: veto threshold in (0, 1]' % n, AND(g, NOT(is_variant(v, OPTION, 'None'))), unit(VF(v, 'Some')))
        c.must('%s: no minimum deposit in a multisig DAO' % n, AND(g, multisig), is_variant(F(x, 'minimum_deposit'), OPTION, 'None'))
        for f in ('quorum', 'threshold'): c.reach('%s: %s may be exactly one' % (n, f), AND(g, eq(F(x, f), DEC1)))
        c.reach('%s: veto threshold may be exactly one' % n, A(g, is_variant(v, OPTION, 'Some'), eq(VF(v, 'Some'), DEC1)))
    S_ = c.inst(CR)
    ws = ns_writes(S_, 'gov_config')
    c.ob('%s: stores the configuration' % S_.name, bool(ws) and entails(S_.ok, O(*[w.guard for w in ws])))
    for w in ws:
        c.must('%s: stored as given' % S_.name, w.guard, eqt(w.val, F(P('msg'), 'gov_config')))
        valid(S_, w.guard, w.val, is_variant(F(P('msg'), 'dao_type'), fq(DT), 'Multisig'))
    c.reach('%s: possible' % S_.name, S_.ok)
    S_ = act(c, 'UpdateGovConfig'); a = P('act'); MOD = fq('common::commons::ModifyValue')
    def new(f, g=None):
        x = F(a, g or f); ch = is_variant(x, MOD, 'Change')
        return phi([(ch, VF(x, 'Change')), (NOT(ch), F(GC, f))])
    upd = {f: new(f, 'voting_duration' if f == 'vote_duration' else None) for f in flds}
    nc = St(GCT, **upd)
    ws = ns_writes(S_, 'gov_config')
    check_writes(c, S_, [Want('exactly the requested fields change', is_save('gov_config', None, nc))])
    for w in ws: valid(S_, w.guard, w.val, is_dao('Multisig'))
    up = F(a, 'unlocking_period'); ch = is_variant(up, MOD, 'Change'); p = VF(up, 'Change'); DUR = fq('cw_utils::expiration::Duration')
    wants = []
    for k in ('denom', 'token', 'nft'):
        m = V('%s_staking_api::msg::ExecuteMsg' % k, 'UpdateUnlockingPeriod', _=St('%s_staking_api::api::UpdateUnlockingPeriodMsg' % k, new_unlocking_period=Some(p)))
        wants.append(Want('unlocking period of a %s DAO passed on' % k, no_reply(execute(CC('membership_contract'), m)), when=AND(ch, is_dao(k.capitalize()))))
    check_msgs(c, S_, wants)
    vdn = F(nc, 'vote_duration')
    c.reach('%s: unlocking may take exactly as long as a vote' % S_.name, A(S_.ok, ch, is_variant(p, DUR, 'Time'), eq(VF(p, 'Time'), vdn)))
    c.reach('%s: unlocking may be measured in blocks' % S_.name, A(S_.ok, ch, is_variant(p, DUR, 'Height')))
    for w in ws: c.must('%s: unlocking period not shorter than the voting period' % S_.name, A(w.guard, ch, is_variant(p, DUR, 'Time')), NOT(lt(VF(p, 'Time'), F(w.val, 'vote_duration'))))
    for E in all_entries(c):
        if E.name.endswith('::instantiate') or 'ExecuteProposalActions' in E.name: continue
        c.ob('%s: keeps the governance configuration' % E.name, not ns_writes(E, 'gov_config', 'enterprise_contract'), loc=E.name)
    for k in variant_names(PA):
        if k in ('UpdateGovConfig', 'UpdateCouncil'): continue
        Y = act(c, k)
        c.ob('%s: keeps the configuration' % Y.name, not ns_writes(Y, 'gov_config', 'council_gov_config', 'enterprise_contract'), loc=Y.name)

# ------------------------------------------------------------------ calls in flight
@prop('C17')
def in_flight(c):
    """the record of a call in flight is set when it starts, used and cleared by its reply, and touches no other record; a poll's proposal is stored under the identifier of that poll"""
    S_ = c.inst(CR); n = S_.name
    for w in ns_writes(S_, 'state'): c.must('%s: starts with nothing in flight' % n, w.guard, eqt(w.val, St(CR + '::state::State', proposal_being_created=NONE, proposal_being_executed=NONE, proposal_being_voted_on=NONE)))
    c.must('%s: records initialised' % n, S_.ok, O(*[w.guard for w in ns_writes(S_, 'state')]))
    S_ = c.rep(CR, 1); n = S_.name = CR + '::reply(poll created)'
    rec = F(L('state'), 'proposal_being_created')
    c.must('%s: a proposal is being created' % n, S_.ok, NOT(is_variant(rec, OPTION, 'None')))
    def stored(e):
        if e.ns != 'proposal_infos' or e.kind != 'save': return FALSE
        return eqt(e.val, VF(rec, 'Some'))
    check_writes(c, S_, [Want('the held proposal is stored', stored), Want('its record is cleared', is_save('state', None, state(proposal_being_created=NONE)))])
    for w in ns_writes(S_, 'proposal_infos'):
        st = strings_in(w.key)
        c.ob('%s: stored under the poll id of the create_poll event' % n, {'poll_id', 'create_poll', 'action'} <= st and mentions(w.key, F(P('msg'), 'result')), str(sorted(st)), loc_of(w, S_))
        att = [x for x in dict.fromkeys(walk_terms(w.key)) if x.op == 'first']; evs = src(F(VF(F(P('msg'), 'result'), 'Ok'), 'events'))
        isc = any_((src(F(elem(evs), 'attributes')),), A(eq(F(elem(src(F(elem(evs), 'attributes'))), 'key'), S('action')), eq(F(elem(src(F(elem(evs), 'attributes'))), 'value'), S('create_poll'))))
        for x in att:
            e = elem(x.a[0])
            if x.a[0] is evs: c.ob('%s: the event is the one of creating the poll' % n, entails(x.a[1], isc), pp(x), loc_of(w, S_))
            else: c.ob('%s: the attribute is the poll id' % n, entails(x.a[1], eq(F(e, 'key'), S('poll_id'))), pp(x), loc_of(w, S_))
        c.ob('%s: the event is searched for' % n, len(att) == 2, str(len(att)), loc_of(w, S_))
        c.ob('%s: only the poll id attribute is used' % n, st <= {'poll_id', 'create_poll', 'action'}, str(sorted(st)), loc_of(w, S_))
    c.ob('%s: sends nothing' % n, not S_.msgs)
    c.reach('%s: possible' % n, S_.ok)
    S_ = c.rep(CR, 4); n = S_.name = CR + '::reply(vote cast)'
    rec = F(L('state'), 'proposal_being_voted_on')
    c.must('%s: a vote is being cast' % n, S_.ok, NOT(is_variant(rec, OPTION, 'None')))
    check_writes(c, S_, [Want('its record is cleared', is_save('state', None, state(proposal_being_voted_on=NONE)))], ignore=lambda e: e.ns == 'proposal_infos')
    c.ob('%s: sends nothing' % n, not S_.msgs)
    S_ = c.rep(CR, 2)
    check_writes(c, S_, [Want('its record is cleared', is_save('state', None, state(proposal_being_executed=NONE)))], ignore=lambda e: e.ns == 'proposal_infos')
    starts = {'CreateProposal', 'CreateProposalWithNftDeposit', 'Receive', 'CreateCouncilProposal', 'CastVote', 'CastCouncilVote', 'ExecuteProposal'}
    slot = {'CastVote': 'proposal_being_voted_on', 'CastCouncilVote': 'proposal_being_voted_on', 'ExecuteProposal': 'proposal_being_executed'}
    for v in c.variants(CR):
        E = c.ex(CR, v)
        if v in starts:
            f = slot.get(v, 'proposal_being_created')
            for w in ns_writes(E, 'state'): c.must('%s: the record of no other call is touched' % E.name, w.guard, eqt(w.val, state(**{f: F(w.val, f)})), loc_of(w, E))
            c.must('%s: a record is kept whenever a reply is awaited' % E.name, O(*[e.guard for e in E.msgs if not eqt(F(e.val, 'reply_on'), S('Never')) == TRUE]), O(*[w.guard for w in ns_writes(E, 'state')]))
            continue
        c.ob('%s: leaves the records alone' % E.name, not ns_writes(E, 'state'), loc=E.name)
        for e in E.msgs: c.must('%s: expects no reply' % E.name, e.guard, eqt(F(e.val, 'reply_on'), S('Never')), loc_of(e, E))
    U = c.rep(CR, None)
    c.must('%s::reply: unknown replies refused' % CR, U.ok, O(*[eq(F(P('msg'), 'id'), I(i)) for i in (1, 2, 3, 4)]))

# ------------------------------------------------------------------ internal entry points
@prop('C06')
def controller_internal(c):
    """proposal actions run only at the controller's own request; weight changes are accepted only from the DAO's membership contracts; the initial remote treasuries are deployed once, by the creator, in the block of creation"""
    X = c.ex(CR, 'ExecuteProposalActions')
    c.must('%s: only by the contract itself' % X.name, X.ok, eq(SENDER, SELF))
    W = c.ex(CR, 'WeightsChanged')
    c.must('%s: only from the membership contracts' % W.name, W.ok, OR(eq(SENDER, CC('membership_contract')), eq(SENDER, CC('council_membership_contract'))))
    for who in ('membership_contract', 'council_membership_contract'): c.reach('%s: possible from %s' % (W.name, who), AND(W.ok, eq(SENDER, CC(who))))
    D = c.ex(CR, 'DeployInitialCrossChainTreasuries')
    c.must('%s: only in the block of creation' % D.name, D.ok, AND(has('creation_date'), eq(NOW, L('creation_date'))))
    cr = [e for e in creator_eqs(D.ok)]
    c.must('%s: only by the creator of this contract' % D.name, D.ok, O(*cr))
    check_writes(c, D, [Want('never again', is_remove('initial_cross_chain_treasuries'))])
    l = L('initial_cross_chain_treasuries'); s = src(l)
    check_msgs(c, D, [Want('one deployment per listed treasury', no_reply(execute(CC('enterprise_outposts_contract'), V(OEX, 'DeployCrossChainTreasury', _=elem(s)))), when=has('initial_cross_chain_treasuries'), quants=(s,))])
    c.reach('%s: possible' % D.name, D.ok)
    I0 = c.inst(CR)
    check_writes(c, I0, [Want('creation time recorded', is_save('creation_date', None, NOW)), Want('initial treasuries recorded', lambda e: TRUE if e.ns == 'initial_cross_chain_treasuries' else FALSE),
                         Want('enterprise contract recorded', is_save('enterprise_contract', None, F(P('msg'), 'enterprise_contract')))], ignore=lambda e: e.ns in ('state', 'gov_config', 'council_gov_config', 'proposal_infos', 'contract_info'))
    c.must('%s: enterprise address validated' % I0.name, I0.ok, atom('valid', F(P('msg'), 'enterprise_contract')))
    for E in all_entries(c):
        if E in (I0, D): continue
        c.ob('%s: keeps creation time, initial treasuries and enterprise address' % E.name, not ns_writes(E, 'creation_date', 'initial_cross_chain_treasuries', 'enterprise_contract'), loc=E.name)
    open_ = {'CreateProposal', 'CreateProposalWithNftDeposit', 'Receive', 'CreateCouncilProposal', 'CastVote', 'CastCouncilVote', 'ExecuteProposal', 'ExecuteProposalActions', 'WeightsChanged', 'DeployInitialCrossChainTreasuries'}
    for v in c.variants(CR):
        if v in open_: continue
        E = c.ex(CR, v)
        c.must('%s: a message nobody but the DAO itself may use' % E.name, E.ok, OR(eq(SENDER, SELF), eq(SENDER, ENT)))
def creator_eqs(g):
    """guards 'sender is the creator reported for this very contract' that occur in g"""
    for v in B.support(g):
        k = atomkey(v)
        if k[0] != 'eq': continue
        for a, b in ((k[1], k[2]), (k[2], k[1])):
            if a is SENDER and b.op in ('f', 'vf') and b.a[-1] == 'creator' and mentions(b, SELF): yield B.v(v)

@prop('C25')
def weights_forwarded(c):
    """every change of voting weight reported by the membership contract reaches the running polls and the reward distributor"""
    W = c.ex(CR, 'WeightsChanged'); l = M(W, 'WeightsChanged', 'weight_changes'); s = src(l); e = elem(s)
    mem = eq(SENDER, CC('membership_contract')); cou = eq(SENDER, CC('council_membership_contract'))
    upd = V(GEX, 'UpdateVotes', _=St('poll_engine_api::api::UpdateVotesParams', voter=F(e, 'user'), new_amount=F(e, 'new_weight')))
    lst = coll('vec', (((s,), TRUE, St('funds_distributor_api::api::UserWeight', user=F(e, 'user'), weight=F(e, 'new_weight'))),))
    fd = V('funds_distributor_api::msg::ExecuteMsg', 'UpdateUserWeights', _=St('funds_distributor_api::api::UpdateUserWeightsMsg', new_user_weights=lst))
    check_msgs(c, W, [Want("each changed weight updates the user's running votes", no_reply(execute(CC('enterprise_governance_contract'), upd)), when=AND(mem, NOT(cou)), quants=(s,)),
                      Want('the distributor gets all new weights', no_reply(execute(CC('funds_distributor_contract'), fd)), when=AND(mem, NOT(cou)))])
    check_writes(c, W, [])

@prop('C09')
def controller_restricted(c):
    """restricted users can neither propose, vote nor trigger execution"""
    for S_, m, who, kind, x in create_entries(c): c.must('%s: proposer not restricted' % S_.name, S_.ok, NOT(restricted(who)))
    for v in ('CreateCouncilProposal', 'CastVote', 'CastCouncilVote', 'ExecuteProposal'):
        S_ = c.ex(CR, v)
        c.must('%s: sender not restricted' % S_.name, S_.ok, NOT(restricted(SENDER)))
        c.reach('%s: possible otherwise' % S_.name, S_.ok)

@prop('C38')
def actions_checked(c):
    """a proposal whose actions could not be valid is refused when it is made: bad configuration, council, version, member list, whitelist, spending or raw messages"""
    class Case:
        def __init__(s, name, ok): s.name = name; s.ok = ok
    m0 = mk('vf', P('msg'), 'CreateProposal', '0'); S0 = c.ex(CR, 'CreateProposal')
    def single(k):
        msg = V(S0.msgadt, 'CreateProposal', _=St(API + 'CreateProposalMsg', title=F(m0, 'title'), description=F(m0, 'description'), proposal_actions=vec(V(PA, k, _=P('act'))), deposit_owner=F(m0, 'deposit_owner')))
        X = c.entry(CR, 'execute', None, msg, tag=' new %s' % k)
        X.name = '%s::execute(CreateProposal with %s)' % (CR, k)
        c.reach('%s: possible' % X.name, X.ok)
        return X
    for k in variant_names(PA): single(k)
    action_rules(c, single, lambda k: P('act'))
    # the same for every position of every longer list, however the proposal is made
    for S_, m in [(S_, m) for S_, m, *_ in create_entries(c)] + [(c.ex(CR, 'CreateCouncilProposal'), mk('vf', P('msg'), 'CreateCouncilProposal', '0'))]:
        s = src(F(m, 'proposal_actions')); e = elem(s)
        def listed(k):
            X = Case('%s: any listed %s' % (S_.name, k), A(S_.ok, nonempty((s,)), is_variant(e, fq(PA), k)))
            if k != 'ModifyMultisigMembership' or S_ is S0: c.reach('%s: possible' % X.name, X.ok)
            return X
        action_rules(c, listed, lambda k: VF(e, k))
def action_rules(c, one, par):
    X = one('UpgradeDao'); a = par('UpgradeDao')
    c.must('%s: only to a higher version' % X.name, X.ok, higher(F(a, 'new_version'), F(Q(ENT, V(EQ, 'DaoInfo')), 'dao_version')))
    X = one('UpdateCouncil'); a = par('UpdateCouncil'); o = F(a, 'dao_council')
    for nm, f in council_valid(VF(o, 'Some')): c.must('%s: %s' % (X.name, nm), AND(X.ok, NOT(is_variant(o, OPTION, 'None'))), f)
    council_possible(c, X, o)
    c.reach('%s: a council can be proposed' % X.name, AND(X.ok, NOT(is_variant(o, OPTION, 'None')))); c.reach('%s: a council can be done away with' % X.name, AND(X.ok, is_variant(o, OPTION, 'None')))
    X = one('ModifyMultisigMembership'); a = par('ModifyMultisigMembership'); mem = F(a, 'edit_members')
    c.must('%s: only in a multisig DAO' % X.name, X.ok, is_dao('Multisig'))
    c.must('%s: members validated' % X.name, AND(X.ok, nonempty((src(mem),))), atom('valid', F(elem(src(mem)), 'user')))
    c.must('%s: no member edited twice' % X.name, X.ok, distinct(mem, lambda e: F(e, 'user'), lambda e: F(e, 'weight')))
    for k in ('ExecuteMsgs', 'ExecuteTreasuryMsgs', 'ExecuteEnterpriseMsgs'):
        X = one(k); a = par(k); s = src(F(a, 'msgs'))
        c.must('%s: every raw message is well formed' % X.name, AND(X.ok, nonempty((s,))), atom('jsonok', elem(s), COSMOS))
        c.reach('%s: well formed messages can be proposed' % X.name, AND(X.ok, nonempty((s,))))
    X = one('UpdateNftWhitelist'); a = par('UpdateNftWhitelist')
    for f in ('add', 'remove'):
        s = src(F(a, f))
        c.must('%s: no collection listed twice to %s' % (X.name, f), X.ok, distinct(F(a, f)))
        c.must('%s: collections to %s are valid addresses' % (X.name, f), AND(X.ok, nonempty((s,))), atom('valid', elem(s)))
    t, u = src(F(a, 'add')), src(F(a, 'remove'))
    c.must('%s: no collection is both added and removed' % X.name, A(X.ok, nonempty((t, u)), eq(elem(t), elem(u))), FALSE)
    c.reach('%s: collections can be added and removed' % X.name, A(X.ok, nonempty((t, u))))
    X = one('UpdateAssetWhitelist'); a = par('UpdateAssetWhitelist'); loc = AND(X.ok, is_variant(F(a, 'remote_treasury_target'), OPTION, 'None')); AI = fq('AssetInfoBase')
    for f in ('add', 'remove'):
        s = src(F(a, f)); e = elem(s)
        for k in ('Cw20', 'Cw1155'): c.must('%s: %s to %s has a valid address' % (X.name, k, f), A(loc, nonempty((s,)), is_variant(e, AI, k)), atom('valid', VF(e, k)))
        for k in ('Native', 'Cw20', 'Cw1155'):
            v = VF(e, k) if k != 'Cw1155' else mk('tup', VF(e, k), VF(e, k, '1')); g = is_variant(e, AI, k)
            c.must('%s: no %s listed twice to %s' % (X.name, k, f), loc, OR(distinct(F(a, f)), distinct(F(a, f), lambda x: v, when=g)))
    t, u = src(F(a, 'add')), src(F(a, 'remove')); x, y = elem(t), elem(u)
    for k in ('Native', 'Cw20', 'Cw1155'):
        c.must('%s: no %s is both added and removed' % (X.name, k), A(loc, nonempty((t, u)), is_variant(x, AI, k), is_variant(y, AI, k), eq(VF(x, k), VF(y, k)), eq(VF(x, k, '1'), VF(y, k, '1')) if k == 'Cw1155' else TRUE), FALSE)
        c.reach('%s: %s can be added' % (X.name, k), A(loc, nonempty((t,)), is_variant(x, AI, k)))
        c.reach('%s: %s can be removed' % (X.name, k), A(loc, nonempty((u,)), is_variant(y, AI, k)))
    X = one('DistributeFunds'); a = par('DistributeFunds'); s = src(F(a, 'funds')); inf = F(elem(s), 'info')
    c.must('%s: only coins and tokens' % X.name, AND(X.ok, nonempty((s,))), O(is_variant(inf, fq('AssetInfoBase'), 'Native'), is_variant(inf, fq('AssetInfoBase'), 'Cw20')))
    c.must('%s: tokens have a valid address' % X.name, A(X.ok, nonempty((s,)), is_variant(inf, fq('AssetInfoBase'), 'Cw20')), atom('valid', VF(inf, 'Cw20')))
    for k in ('Native', 'Cw20'): c.reach('%s: %s can be distributed' % (X.name, k), A(X.ok, nonempty((s,)), is_variant(inf, fq('AssetInfoBase'), k)))
    X = one('RequestFundingFromDao'); a = par('RequestFundingFromDao'); loc = is_variant(F(a, 'remote_treasury_target'), OPTION, 'None'); s = src(F(a, 'assets'))
    c.must('%s: recipient valid on this chain' % X.name, AND(X.ok, loc), atom('valid', F(a, 'recipient')))
    c.must('%s: only coins and tokens' % X.name, A(X.ok, loc, nonempty((s,))), NOT(is_variant(F(elem(s), 'info'), fq('AssetInfoBase'), 'Cw1155')))
    for k in ('Native', 'Cw20'): c.reach('%s: %s can be spent' % (X.name, k), A(X.ok, loc, nonempty((s,)), is_variant(F(elem(s), 'info'), fq('AssetInfoBase'), k)))
    inf = F(elem(s), 'info'); c.must('%s: tokens have a valid address' % X.name, A(X.ok, loc, nonempty((s,)), is_variant(inf, fq('AssetInfoBase'), 'Cw20')), atom('valid', VF(inf, 'Cw20')))
    X = one('UpdateGovConfig'); a = par('UpdateGovConfig'); MOD = fq('common::commons::ModifyValue')
    for f in ('quorum', 'threshold'):
        x = F(a, f); c.must('%s: %s in (0, 1]' % (X.name, f), AND(X.ok, is_variant(x, MOD, 'Change')), unit(VF(x, 'Change')))
        c.reach('%s: %s can be exactly one' % (X.name, f), A(X.ok, is_variant(x, MOD, 'Change'), eq(VF(x, 'Change'), DEC1)))
    for f in ('quorum', 'threshold', 'voting_duration', 'veto_threshold', 'minimum_deposit', 'unlocking_period', 'allow_early_proposal_execution'):
        c.reach('%s: %s can be changed' % (X.name, f), AND(X.ok, is_variant(F(a, f), MOD, 'Change')))
    up = F(a, 'unlocking_period'); DUR = fq('cw_utils::expiration::Duration'); x = F(a, 'voting_duration'); chg = is_variant(x, MOD, 'Change')
    c.reach('%s: unlocking may take exactly as long as a vote' % X.name, A(X.ok, is_variant(up, MOD, 'Change'), is_variant(VF(up, 'Change'), DUR, 'Time'), eq(VF(VF(up, 'Change'), 'Time'), phi([(chg, VF(x, 'Change')), (NOT(chg), F(GC, 'vote_duration'))]))))
    x = F(a, 'voting_duration'); c.must('%s: voting period above zero' % X.name, AND(X.ok, is_variant(x, MOD, 'Change')), NOT(eq(VF(x, 'Change'), ZERO)))
    x = F(a, 'veto_threshold'); c.must('%s: veto threshold in (0, 1]' % X.name, A(X.ok, is_variant(x, MOD, 'Change'), is_variant(VF(x, 'Change'), OPTION, 'Some')), unit(VF(VF(x, 'Change'), 'Some')))
    c.reach('%s: veto threshold can be exactly one' % X.name, A(X.ok, is_variant(x, MOD, 'Change'), is_variant(VF(x, 'Change'), OPTION, 'Some'), eq(VF(VF(x, 'Change'), 'Some'), DEC1)))
    c.reach('%s: veto threshold can be removed' % X.name, A(X.ok, is_variant(x, MOD, 'Change'), is_variant(VF(x, 'Change'), OPTION, 'None')))
    x = F(a, 'minimum_deposit'); c.must('%s: no minimum deposit in a multisig' % X.name, A(X.ok, is_variant(x, MOD, 'Change'), is_variant(VF(x, 'Change'), OPTION, 'Some')), NOT(is_dao('Multisig')))

# ------------------------------------------------------------------ what is reported about proposals
GQ = 'enterprise_governance_api::msg::QueryMsg'
def none(o): return is_variant(o, OPTION, 'None')
def some(o): return NOT(none(o))
PS = API + 'ProposalStatus'
def ask(q, **k): return Q(CC('enterprise_governance_contract'), V(GQ, q, **k))
@prop('C41')
def reported_status(c):
    """the status reported for a proposal is what executing it now would find: executed once it has been; decided as the poll would be decided once voting is over; ready for early execution exactly when ending now is allowed, the delay is over and the outcome is final"""
    PSE = fq(PS); PE = fq(PST)
    def sim(pid, exp, council): return F(ask('SimulateEndPollStatus', poll_id=pid, maximum_available_votes=total(exp, council)), 'status')
    def status(n, pre, st, pid, pst, what=''):
        p = info(pid); done = some(F(p, 'executed_at'))
        c.must('%s: %sexecuted proposals are reported so' % (n, what), A(pre, done), is_variant(st, PSE, 'Executed')); c.reach('%s: %sexecuted possible' % (n, what), A(pre, done))
        c.must('%s: %sonly executed ones are' % (n, what), A(pre, is_variant(st, PSE, 'Executed')), done)
        pre = A(pre, none(F(p, 'executed_at')))
        for k in ('Passed', 'Rejected'):
            c.must('%s: %sa %s poll' % (n, what, k.lower()), A(pre, is_variant(pst, PE, k)), is_variant(st, PSE, k)); c.reach('%s: %s%s possible' % (n, what, k), A(pre, is_variant(pst, PE, k)))
        pre = A(pre, is_variant(pst, PE, 'InProgress')); e = VF(pst, 'InProgress', 'ends_at'); over = NOT(lt(NOW, e))
        ee = F(p, 'earliest_execution'); waited = O(none(ee), NOT(lt(NOW, VF(ee, 'Some'))))
        for council in (False, True):
            k = NOT(general(p)) if council else general(p); b = '%s%s: ' % (what, 'council' if council else 'general')
            pr = supposing(A(pre, k), [k]); pr = A(pr, k); s = supposing(st, [k])
            y = sim(pid, V(EXPIR, 'AtTime', _=e), council)
            c.must('%s: %spassed once over' % (n, b), A(pr, over, is_variant(y, PE, 'Passed')), is_variant(s, PSE, 'Passed'))
            c.must('%s: %srejected once over' % (n, b), A(pr, over, is_variant(y, PE, 'Rejected')), is_variant(s, PSE, 'Rejected'))
            c.must('%s: %snever reported as running once over' % (n, b), A(pr, over), O(is_variant(s, PSE, 'Passed'), is_variant(s, PSE, 'Rejected')))
            for r in ('Passed', 'Rejected'): c.reach('%s: %s%s once over possible' % (n, b, r), A(pr, over, is_variant(y, PE, r)))
            early = TRUE if council else truth(F(GC, 'allow_early_proposal_execution'))
            y = sim(pid, V(EXPIR, 'Never'), council); r = VF(y, 'Rejected', 'reason')
            final = O(is_variant(y, PE, 'Passed'), A(is_variant(y, PE, 'Rejected'), O(is_variant(r, fq(REJ), 'IsRejectingOutcome'), is_variant(r, fq(REJ), 'IsVetoOutcome'))))
            run = A(pr, NOT(over)); can = is_variant(s, PSE, 'InProgressCanExecuteEarly')
            c.must('%s: %sstill running' % (n, b), run, O(is_variant(s, PSE, 'InProgress'), can))
            c.must('%s: %sready early only when it is' % (n, b), A(run, can), A(early, waited, final))
            c.must('%s: %sready early whenever it is' % (n, b), A(run, early, waited, final), can)
            c.reach('%s: %searly possible' % (n, b), A(run, early, waited, final))
    def record(n, pre, v, poll, what=''):
        pid = F(poll, 'id'); p = info(pid); w = F(v, 'proposal')
        c.must('%s: %sknown proposal' % (n, what), pre, has('proposal_infos', pid))
        for f, y in (('proposal_type', F(p, 'proposal_type')), ('id', pid), ('proposer', F(poll, 'proposer')), ('title', F(poll, 'label')), ('description', F(poll, 'description')), ('started_at', F(poll, 'started_at')),
                     ('expires', V(EXPIR, 'AtTime', _=F(poll, 'ends_at'))), ('proposal_actions', F(p, 'proposal_actions'))):
            c.must('%s: %s%s as recorded' % (n, what, f), pre, eqt(F(w, f), y))
        c.must('%s: %stally as recorded' % (n, what), pre, eqt(F(v, 'results'), F(poll, 'results')))
        status(n, pre, F(v, 'proposal_status'), pid, F(poll, 'status'), what)
        for k in variant_names(PS): c.must('%s: %sboth statuses agree on %s' % (n, what, k), A(pre, is_variant(F(v, 'proposal_status'), PSE, k)), is_variant(F(w, 'status'), PSE, k))
        e = F(poll, 'ends_at'); x = F(p, 'executed_at'); xt = F(VF(x, 'Some'), 'time')
        for council in (False, True):
            k = NOT(general(p)) if council else general(p); pr = A(supposing(A(pre, k), [k]), k); tv = supposing(F(v, 'total_votes_available'), [k]); b = '%s%s: ' % (what, 'council' if council else 'general')
            for nm, g, exp in (('executed before the end', A(some(x), lt(xt, e)), V(EXPIR, 'AtTime', _=xt)), ('executed after the end', A(some(x), NOT(lt(xt, e))), V(EXPIR, 'AtTime', _=e)),
                               ('over', A(none(x), NOT(lt(NOW, e))), V(EXPIR, 'AtTime', _=e)), ('running', A(none(x), lt(NOW, e)), V(EXPIR, 'Never'))):
                c.must('%s: %savailable votes when %s' % (n, b, nm), A(pr, g), eqt(tv, total(exp, council)))
                c.reach('%s: %s%s possible' % (n, b, nm), A(pr, g))
    S_, val = c.qval(CR, 'ProposalStatus'); n = S_.name; pid = M(S_, 'ProposalStatus', 'proposal_id'); ps = ask('PollStatus', poll_id=pid)
    c.must('%s: known proposal' % n, S_.ok, has('proposal_infos', pid))
    c.must('%s: tally and end as recorded' % n, S_.ok, A(eqt(F(val, 'results'), F(ps, 'results')), eqt(F(val, 'expires'), V(EXPIR, 'AtTime', _=F(ps, 'ends_at')))))
    status(n, S_.ok, F(val, 'status'), pid, F(ps, 'status'))
    S_, val = c.qval(CR, 'Proposal'); n = S_.name; record(n, S_.ok, val, F(ask('Poll', _=St('poll_engine_api::api::PollParams', poll_id=M(S_, 'Proposal', 'proposal_id'))), 'poll'))
    S_, val = c.qval(CR, 'MemberVote'); n = S_.name
    c.must('%s: the vote of that member on that proposal' % n, S_.ok, eqt(F(val, 'vote'), F(ask('PollVoter', _=St('poll_engine_api::api::PollVoterParams', poll_id=M(S_, 'MemberVote', 'proposal_id'), voter_addr=M(S_, 'MemberVote', 'member'))), 'vote')))
    c.reach('%s: answered' % n, S_.ok)
    S_, val = c.qval(CR, 'GovConfig'); n = S_.name
    c.must('%s: the stored configuration' % n, S_.ok, eqt(F(val, 'gov_config'), GC)); c.must('%s: the stored council configuration' % n, S_.ok, O(eqt(F(val, 'council_gov_config'), L('council_gov_config')), A(none(L('council_gov_config')), none(F(val, 'council_gov_config')))))
    S_, val = c.qval(CR, 'Proposals'); n = S_.name
    ps = [p for p in parts_of(F(val, 'proposals')) if p[1]]
    for q, g, v in ps:
        if c.ob('%s: one entry per listed poll' % n, len(q) == 1, str(q)): record(n, A(S_.ok, nonempty(q), g), v, elem(unrev(q)[0]), 'each: ')
    c.ob('%s: lists proposals' % n, len(ps) > 0)
