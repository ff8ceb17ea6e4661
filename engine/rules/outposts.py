"""Outposts: remote treasuries obey only the DAO; callbacks are authenticated and one-shot."""
from rule import *
CR = 'enterprise_outposts'
ENT = L('enterprise_contract')
def comps(): return Q(ENT, V('enterprise_protocol::msg::QueryMsg', 'ComponentContracts'))
def ctrl_only(): return A(has('enterprise_contract'), eq(SENDER, F(comps(), 'enterprise_governance_controller_contract')))
DATA = {'enterprise_contract', 'cross_chain_proxies', 'cross_chain_treasuries', 'ics_proxy_callbacks', 'ics_proxy_callback_last_id'}
H = 'enterprise_outposts::ibc_hooks::'
def nextid():
    n = has('ics_proxy_callback_last_id')
    return phi([(n, add(L('ics_proxy_callback_last_id'), I(1))), (NOT(n), I(1))])
def transfer(e):
    """the bridge transfer in a message, and the messages it makes the remote proxy run"""
    m = msg_of(e)
    if m.op != 'adt' or m.a[1] != 'Stargate': return None
    if m.a[3][0] is not S('/ibc.applications.transfer.v1.MsgTransfer'): return None
    v = m.a[3][1]
    if v.op != 'call' or v.a[0] != 'encode_to_vec' or v.a[1].op != 'adt': return None
    t = v.a[1]; memo = unjson(F(t, 'memo'))
    if memo.op != 'adt': return None
    return t, F(memo, 'wasm', 'contract'), F(VF(F(memo, 'wasm', 'msg'), 'ExecuteMsgs'), 'msgs')
def remote(proxy, spec, inner, cb):
    """shape: one bridge transfer through the given channel to the given proxy, which runs exactly `inner`; answered with callback id cb (None: not answered)"""
    def f(e):
        r = transfer(e)
        if r is None: return FALSE
        t, to, ms = r
        ps = parts_of(ms)
        if len(ps) != 1 or ps[0][0]: return FALSE
        x = ps[0][2]; rc = F(x, 'reply_callback')
        tn = F(spec, 'timeout_nanos'); no = is_variant(tn, OPTION, 'None')
        g = A(ps[0][1], eqt(to, proxy), eqt(F(t, 'receiver'), proxy), eqt(F(t, 'sender'), SELF), eqt(F(t, 'source_port'), F(spec, 'src_ibc_port')), eqt(F(t, 'source_channel'), F(spec, 'src_ibc_channel')),
              eqt(F(VF(F(t, 'token'), 'Some'), 'denom'), S('uluna')), eqt(F(VF(F(t, 'token'), 'Some'), 'amount'), S('1')),
              IMP(NOT(no), eqt(F(t, 'timeout_timestamp'), add(NOW, VF(tn, 'Some')))), inner(F(x, 'msg')))
        if cb is None: g = AND(g, is_variant(rc, OPTION, 'None'))
        else:
            y = VF(rc, 'Some')
            g = A(g, is_variant(rc, OPTION, 'Some'), eqt(F(y, 'callback_id'), cb), eqt(F(y, 'ibc_port'), F(spec, 'dest_ibc_port')), eqt(F(y, 'ibc_channel'), F(spec, 'dest_ibc_channel')), eqt(F(y, 'denom'), F(spec, 'uluna_denom')), eqt(F(y, 'receiver'), V(OPTION, 'Some', _=SELF)))
        return g
    return f
def wasm_inst(m):
    if m.op != 'adt' or m.a[1] != 'Wasm' or m.a[3][0].op != 'adt' or m.a[3][0].a[1] != 'Instantiate': return None
    return m.a[3][0]
def treasury_inst(code, proxy, aw, nw):
    def f(m):
        w = wasm_inst(m)
        if w is None: return FALSE
        p_ = unjson(F(w, 'msg')); no = eqt(F(w, 'funds'), vec())
        return A(no, eqt(F(w, 'code_id'), code), eqt(F(w, 'admin'), V(OPTION, 'Some', _=proxy)), eqt(F(p_, 'admin'), proxy), eqt(F(p_, 'asset_whitelist'), aw), eqt(F(p_, 'nft_whitelist'), nw))
    return f
def derived(t):
    """(prefix, rest) of a bridge-derived account term"""
    if t.op == 'call' and t.a[0] == 'encode': return t.a[1], t
    return None

@prop('C08')
def outposts_authority(c):
    """deploying and commanding remote treasuries is reserved for the governance controller and addresses what is recorded for the chain"""
    vs = c.variants(CR)
    c.ob('outposts messages present', set(vs) >= {'DeployCrossChainTreasury', 'ExecuteCrossChainTreasury', 'ExecuteMsgReplyCallback'}, str(vs))
    for v in vs:
        if v == 'ExecuteMsgReplyCallback': continue
        S_ = c.ex(CR, v)
        c.must('%s: only the governance controller' % S_.name, S_.ok, ctrl_only()); c.reach('%s: it can' % S_.name, S_.ok)
    S_ = c.ex(CR, 'ExecuteCrossChainTreasury'); g = lambda f: M(S_, 'ExecuteCrossChainTreasury', f)
    spec = F(g('treasury_target'), 'cross_chain_msg_spec'); ch = F(spec, 'chain_id')
    c.must('%s: only a recorded treasury' % S_.name, S_.ok, AND(has('cross_chain_proxies', ch), has('cross_chain_treasuries', ch)))
    check_msgs(c, S_, [Want('the recorded treasury of the chain is commanded, through its recorded proxy, with the given message', remote(L('cross_chain_proxies', ch), spec, lambda m: eqt(m, execute(L('cross_chain_treasuries', ch), g('msg'))), None))])
    check_writes(c, S_, [])

def derived_owner(e):
    """account given as owner of a remote proxy"""
    r = transfer(e)
    if r is None: return None
    for q, g, x in parts_of(r[2]):
        w = wasm_inst(F(x, 'msg'))
        if w is not None: return VF(F(unjson(F(w, 'msg')), 'owner'), 'Some')

@prop('C08')
def outposts_deploy(c):
    """deployment is refused when a treasury exists; otherwise exactly one request is sent and remembered under a fresh callback id"""
    S_ = c.ex(CR, 'DeployCrossChainTreasury'); n = S_.name; m = mk('vf', P('msg'), 'DeployCrossChainTreasury', '0'); spec = F(m, 'cross_chain_msg_spec'); ch = F(spec, 'chain_id')
    c.must('%s: refused when the chain has a treasury' % n, S_.ok, NOT(has('cross_chain_treasuries', ch)))
    hp = has('cross_chain_proxies', ch); cid = nextid(); CT = fq(H + 'IcsProxyCallbackType')
    cb = lambda ct: St(fq(H + 'IcsProxyCallback'), cross_chain_msg_spec=spec, proxy_addr=F(m, 'chain_global_proxy'), callback_type=ct)
    check_writes(c, S_, [Want('fresh callback id', is_save('ics_proxy_callback_last_id', None, cid)),
                         Want('treasury request remembered', is_save('ics_proxy_callbacks', cid, cb(V(CT, 'InstantiateTreasury', cross_chain_msg_spec=spec))), when=hp),
                         Want('proxy request remembered', is_save('ics_proxy_callbacks', cid, cb(V(CT, 'InstantiateProxy', deploy_treasury_msg=m))), when=NOT(hp))])
    def proxy_inst(x):
        w = wasm_inst(x)
        if w is None: return FALSE
        p_ = unjson(F(w, 'msg'))
        return A(eqt(F(w, 'code_id'), F(m, 'ics_proxy_code_id')), eqt(F(w, 'funds'), vec()), is_variant(F(w, 'admin'), OPTION, 'None'), is_variant(F(p_, 'owner'), OPTION, 'Some'), is_variant(F(p_, 'whitelist'), OPTION, 'None'), is_variant(F(p_, 'msgs'), OPTION, 'None'))
    check_msgs(c, S_, [Want('treasury requested from the recorded proxy of the DAO', remote(F(m, 'chain_global_proxy'), spec, treasury_inst(F(m, 'enterprise_treasury_code_id'), L('cross_chain_proxies', ch), F(m, 'asset_whitelist'), F(m, 'nft_whitelist')), cid), when=hp),
                       Want('proxy requested', remote(F(m, 'chain_global_proxy'), spec, proxy_inst, cid), when=NOT(hp))])
    own = [derived_owner(e) for e in S_.msgs if entails(e.guard, NOT(hp))]
    own = [t for t in own if t is not None]
    c.ob('%s: the remote proxy has an owner' % n, bool(own))
    for t in own:
        d = derived(t)
        if c.ob('%s: the remote proxy is owned by a bridge-derived account' % n, d is not None, pp(t)[:200]):
            c.must('%s: with the prefix of the remote chain' % n, S_.ok, eqt(d[0], F(spec, 'chain_bech32_prefix')))
            c.ob('%s: standing for this contract over the remote end of the channel' % n, mentions(t, SELF) and mentions(t, F(spec, 'dest_ibc_channel')), pp(t)[-300:])

@prop('C08')
def outposts_callback(c):
    """a callback is accepted only while outstanding, only from the derived account of the proxy it was sent to, is forgotten, and only fills an empty record"""
    S_ = c.ex(CR, 'ExecuteMsgReplyCallback'); n = S_.name; i = M(S_, 'ExecuteMsgReplyCallback', 'callback_id')
    cb = L('ics_proxy_callbacks', i); spec = F(cb, 'cross_chain_msg_spec'); ch = F(spec, 'chain_id'); CT = fq(H + 'IcsProxyCallbackType')
    px = is_variant(F(cb, 'callback_type'), CT, 'InstantiateProxy')
    c.must('%s: only for an outstanding request' % n, S_.ok, has('ics_proxy_callbacks', i))
    ds = {t for t in walk_terms(S_.ok) if derived(t) and mentions(t, F(cb, 'proxy_addr'))}
    f = FALSE
    for t in ds:
        if derived(t)[0] is S('terra') and mentions(t, F(spec, 'src_ibc_channel')): f = OR(f, eq(SENDER, t))
    c.must('%s: only from the account that stands for the proxy on its channel' % n, S_.ok, f)
    # both derivations are the same function of channel, account and prefix
    D = c.ex(CR, 'DeployCrossChainTreasury'); dsp = M(D, 'DeployCrossChainTreasury', 'cross_chain_msg_spec')
    own = [derived_owner(e) for e in D.msgs]; own = [t for t in own if t is not None and derived(t)]
    same = [t for o in own for t in ds if TM.subst(o, {F(dsp, 'dest_ibc_channel'): F(spec, 'src_ibc_channel'), SELF: F(cb, 'proxy_addr'), F(dsp, 'chain_bech32_prefix'): S('terra')}) is t]
    c.ob('%s: accounts are derived alike in both directions' % n, bool(same), '%s\n%s' % (pp(own[0])[:400] if own else '-', [pp(t)[:400] for t in ds]))
    rp = [t for w in S_.writes if w.ns in ('cross_chain_treasuries', 'cross_chain_proxies') for t in [w.val]]
    m = mk('vf', P('msg'), 'ExecuteMsgReplyCallback', '0')
    for t in rp: c.ob('%s: the address is the one reported in the callback' % n, any(x.op == 'reply' for x in walk_terms(t)) and t.op == 'f' and t.a[1] == 'contract_address' and mentions(t, F(m, 'data')) or t.op == 'f' and t.a[1] == 'contract_address' and mentions(t, m), pp(t)[:300])
    addr = rp[0] if rp else NONE
    cid = nextid(); dm = VF(F(cb, 'callback_type'), 'InstantiateProxy', 'deploy_treasury_msg'); dspec = F(dm, 'cross_chain_msg_spec')
    c.must('%s: a recorded proxy is never replaced' % n, AND(S_.ok, px), NOT(has('cross_chain_proxies', ch)))
    c.must('%s: a recorded treasury is never replaced' % n, AND(S_.ok, NOT(px)), NOT(has('cross_chain_treasuries', ch)))
    ncb = St(fq(H + 'IcsProxyCallback'), cross_chain_msg_spec=dspec, proxy_addr=F(cb, 'proxy_addr'), callback_type=V(CT, 'InstantiateTreasury', cross_chain_msg_spec=dspec))
    check_writes(c, S_, [Want('the request is forgotten', is_remove('ics_proxy_callbacks', i)), Want('proxy recorded for its chain', is_save('cross_chain_proxies', ch, addr), when=px), Want('treasury recorded for its chain', is_save('cross_chain_treasuries', ch, addr), when=NOT(px)),
                         Want('fresh callback id', is_save('ics_proxy_callback_last_id', None, cid), when=px), Want('treasury request remembered', is_save('ics_proxy_callbacks', cid, ncb), when=px)])
    check_msgs(c, S_, [Want('treasury requested as ordered', remote(F(cb, 'proxy_addr'), dspec, treasury_inst(F(dm, 'enterprise_treasury_code_id'), addr, F(dm, 'asset_whitelist'), F(dm, 'nft_whitelist')), cid), when=px)])
    S_ = c.inst(CR); a = F(P('msg'), 'enterprise_contract')
    c.must('%s: the DAO is validated' % S_.name, S_.ok, atom('valid', a))
    check_writes(c, S_, [Want('the DAO on record', is_save('enterprise_contract', None, a))], ignore=lambda e: e.ns == 'contract_info')
    check_msgs(c, S_, [])
    for S_ in (c.mig(CR), c.rep(CR, None)):
        for w in S_.writes: c.ob('%s: leaves deployments alone' % S_.name, w.ns not in DATA, short_eff(w), loc_of(w, S_))
        c.ob('%s: sends nothing' % S_.name, not S_.msgs)
    S_, val = c.qval(CR, 'CrossChainDeployments'); k = M(S_, 'CrossChainDeployments', 'chain_id')
    for f_, ns in (('proxy_addr', 'cross_chain_proxies'), ('treasury_addr', 'cross_chain_treasuries')):
        c.must('%s: %s as recorded' % (S_.name, f_), S_.ok, eqt(F(val, f_), phi([(has(ns, k), V(OPTION, 'Some', _=L(ns, k))), (NOT(has(ns, k)), NONE)])))
