"""developer view: compact summary.  sh.py MIR crate entry [Variant|id|-] [width]"""
import sys, re
sys.path.insert(0, '/verif/engine')
from rule import *
prog = Program(sys.argv[1])
crate, ent = sys.argv[2], sys.argv[3]
var = sys.argv[4] if len(sys.argv) > 4 else '-'
W = int(sys.argv[5]) if len(sys.argv) > 5 else 500
c = Ctx(prog, 'X')
def comp(s, v):
    s = s.replace('msg.%s.' % v, 'm.').replace('msg.%s' % v, 'm')
    s = re.sub(r'elem\(src\(((?:[^()]|\([^()]*\))*)\), 0\)', r'e<\1>', s)
    s = re.sub(r'elem\(src\(((?:[^()]|\([^()]*\))*)\), 0\)', r'e<\1>', s)
    s = s.replace('CosmosMsg::Wasm(WasmMsg::Execute{contract_addr: ', 'EXEC{').replace("SubMsg{msg: ", '').replace(", id: 0, reply_on: 'Never'}", '').replace('env.contract.address', 'SELF').replace('info.sender', 'SENDER').replace('env.block.time', 'NOW').replace(', None)', ')')
    return s[:W]
if ent == 'execute' or ent == 'query':
    vs = c.variants(crate, ent)
elif ent == 'reply': vs = [var]
else: vs = [None]
for v in vs:
    if var != '-' and v != var and ent in ('execute', 'query'): continue
    if ent == 'reply': S_ = c.rep(crate, None if var == '-' else int(var))
    else: S_ = c.entry(crate, ent, v)
    print('=====', v, 'unk', S_.unknown)
    print('OK:', comp(gp(S_.ok), v))
    if ent == 'query': print('  =', comp(pp(S_.payload), v))
    for e in S_.writes + S_.msgs:
        print('  %s %s%s%s := %s\n      IF %s' % (e.kind, e.ns or '', '' if e.key is None else '[%s]' % comp(pp(e.key), v), ' ∀' + comp(','.join(map(pp, e.quants)), v) if e.quants else '', comp(pp(e.val), v) if e.val is not None else '', comp(gp(B.restrict(e.guard, S_.ok)), v)))
