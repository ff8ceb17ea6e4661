"""developer view: terms in summaries that stand for something the analysis gave up on"""
import sys, collections
sys.path.insert(0, '/verif/engine')
from rule import *
prog = Program(sys.argv[1]); c = Ctx(prog, 'X')
BAD = {'undef', 'mut', 'rec', 'uninit', 'k', 'zst', 'bin', 'prev', 'prevsrc', 'while', 'lastof', 'ptr', 'entry', 'clo', 'fnp'}
def scan(x, seen, out):
    if isinstance(x, T):
        if x in seen: return
        seen.add(x)
        if x.op in BAD: out[x.op + ':' + pp(x)[:90]] += 1
        for y in x.a: scan(y, seen, out)
    elif isinstance(x, tuple):
        for y in x: scan(y, seen, out)
for bid in sorted(prog.fn):
    p = bid.split('::')
    if len(p) != 3 or p[1] != 'contract' or p[2] not in ('instantiate', 'execute', 'query', 'migrate', 'reply'): continue
    vs = [None]
    if p[2] in ('execute', 'query'):
        try: vs = c.variants(p[0], p[2])
        except Missing: vs = [None]
    for v in vs:
        S_ = c.entry(p[0], p[2], v) if p[2] != 'reply' else c.rep(p[0], None)
        out = collections.Counter(); seen = set()
        for e in S_.writes + S_.msgs:
            scan(e.val if e.val is not None else (), seen, out); scan(e.key if e.key is not None else (), seen, out); scan(e.quants, seen, out)
            for i in B.support(e.guard): scan(atomkey(i), seen, out)
        for i in B.support(S_.ok): scan(atomkey(i), seen, out)
        if S_.payload is not None: scan(S_.payload, seen, out)
        if out: print(S_.name, dict(out.most_common(6)))
