#!/usr/bin/env python3
"""check.py <property> <quick|thorough> : decide one property on /repo's current tree."""
import sys, os, subprocess, hashlib, json, time, shutil, fcntl, traceback, importlib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

def src_hash():
    h = hashlib.sha256()
    fs = []
    for top in ('contracts', 'packages'):
        for d, dn, fn in os.walk(os.path.join(REPO, top)):
            dn[:] = sorted(x for x in dn if x not in ('target', '.git', 'node_modules'))
            for f in fn:
                if f.endswith(('.rs', '.toml')): fs.append(os.path.join(d, f))
    for d in os.listdir(REPO):
        p = os.path.join(REPO, d)
        if os.path.isfile(p) and d.endswith(('.toml', '.lock', '.rs')): fs.append(p)
    for f in sorted(fs) + sorted(glob.glob(os.path.join(VERIF, 'driver/src/*.rs'))):
        h.update(f.encode() + b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest(), len(fs)

def sh(cmd, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def dump():
    """MIR of every workspace crate of the current tree -> directory"""
    os.makedirs(BUILD, exist_ok=True)
    lk = open(os.path.join(BUILD, 'lock'), 'w'); fcntl.flock(lk, fcntl.LOCK_EX)
    hs, nf = src_hash()
    out = os.path.join(BUILD, 'mir'); stamp = os.path.join(BUILD, 'stamp'); tgt = os.path.join(BUILD, 'target')
    if os.path.exists(stamp) and open(stamp).read() == hs: return out, nf
    if os.path.exists(stamp): os.remove(stamp)
    drv = os.path.join(VERIF, 'driver')
    rc, o = sh(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=drv, env={'CARGO_TARGET_DIR': os.path.join(BUILD, 'driver')})
    if rc: raise RuntimeError('driver build failed:\n' + o[-3000:])
    rc, root = sh(['rustc', '+nightly', '--print', 'sysroot'])
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    rc, md = sh(['cargo', 'metadata', '--offline', '--no-deps', '--format-version', '1'], cwd=REPO)
    names = []; libs = 0
    try:
        pk = json.JSONDecoder().raw_decode(md[md.index('{"packages"'):])[0]['packages']
        names = [p['name'] for p in pk]
        libs = sum(1 for p in pk if any(set(t['kind']) & {'lib', 'cdylib', 'rlib'} for t in p['targets']))
    except Exception: shutil.rmtree(tgt, ignore_errors=True)
    for n in names:
        for f in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', n + '-*')) + glob.glob(os.path.join(tgt, 'debug', 'build', n)) + glob.glob(os.path.join(tgt, 'debug', 'build', n + '-*')):
            shutil.rmtree(f, ignore_errors=True)
    env = {'MIRDUMP_OUT': out, 'LD_LIBRARY_PATH': root.strip().split('\n')[-1] + '/lib', 'RUSTC_WRAPPER': os.path.join(BUILD, 'driver/release/mirdump'),
           'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0', 'RUSTFLAGS': '-Awarnings'}
    rc, o = sh(['cargo', '+nightly', 'check', '--offline', '--workspace'], cwd=REPO, env=env)
    if rc: raise RuntimeError('the workspace does not compile:\n' + o[-3000:])
    nd = len(glob.glob(out + '/*.jsonl'))
    if nd < max(libs, 40): raise RuntimeError('only %d of %d crates dumped' % (nd, libs))
    open(stamp, 'w').write(hs)
    return out, nf

def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    kn = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> key=<exact key> :: text
                r = l[len('finding: '):]
                pid = r.split()[0].split('=')[1]
                key, _, text = r.split('key=', 1)[1].partition(' :: ')
                kn.append((pid, key, text))
    return kn

def decide(prog, pid):
    import rule
    for m in sorted(glob.glob(os.path.join(HERE, 'rules', '*.py'))):
        importlib.import_module('rules.' + os.path.basename(m)[:-3])
    c = rule.Ctx(prog, pid)
    for f in rule.PROPS.get(pid, []):
        c.where = f.__name__
        c.rules.append('%s: %s' % (f.__name__, ' '.join((f.__doc__ or '').split())))
        try:
            f(c)
        except rule.Missing as e:
            c.fail('%s: anchor missing: %s' % (f.__name__, e), 'the rule can not find what it is about')
        except Exception as e:
            c.fail('%s: analysis failed: %s' % (f.__name__, type(e).__name__), ''.join(traceback.format_exc(limit=-6)))
    return c

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    t0 = time.time()
    ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, pid + '.violations.txt')
    viol = []
    c = None; nfiles = 0
    try:
        mir, nfiles = dump()
        from interp import Program
        prog = Program(mir)
        c = decide(prog, pid)
        viol = c.viol
        if not c.obl: viol = viol + [{'key': 'no obligation was examined', 'detail': '', 'loc': ''}]
    except Exception as e:
        viol = [{'key': 'the tree could not be analysed', 'detail': traceback.format_exc(limit=-4), 'loc': ''}]
    known = [(k, t) for p, k, t in load_known() if p == pid]
    new = []
    for v in viol:
        hit = [t for k, t in known if k == v['key']]
        if hit: print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]))
        else: new.append(v)
    cov = {
        'explanation': 'Gated value-flow (dataflow) analysis of the compiler MIR of every workspace crate: each listed entry point is summarised into its guarded storage writes, sent messages and success condition; each obligation is a guard entailment, provenance or exhaustiveness fact about those summaries, for all inputs and all stored states.',
        'rules': c.rules if c else [], 'entry_points': len(c.entries) if c else 0, 'entries': sorted(c.entries) if c else [],
        'functions_analysed': len(c.visited) if c else 0, 'call_sites': c.callsites if c else 0, 'effects': c.effects if c else 0,
        'obligations': c.obl if c else 0, 'discharged': c.ok if c else 0, 'samples': c.samples if c else [],
        'source_files_hashed': nfiles, 'unmodelled_library_calls': c.unknown if c else {},
        'checker_cmd': 'python3 /verif/engine/check.py %s %s' % (pid, tier),
        'trusted_base': ['rustc nightly MIR construction', 'driver/src/main.rs', 'engine/*.py (interpreter, library summaries in lib.py, rules)'],
    }
    json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
               'assumptions': ['library functions (std, cosmwasm-std, cw-storage-plus, cw-asset, ...) behave as summarised in engine/lib.py', 'a failed contract call is rolled back by the chain'],
               'violations': [{'key': v['key'], 'where': str(v['loc']), 'detail': v['detail']} for v in new], 'wall_s': round(time.time() - t0, 2)},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    if new:
        with open(rp, 'w') as f:
            for v in new: f.write('%s\n  at %s\n  %s\n\n' % (v['key'], v['loc'], v['detail']))
        for v in new[:12]: print('  ', v['key'], '@', v['loc'], '--', v['detail'][:int(os.environ.get('VW', '400'))])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if os.path.exists(rp): os.remove(rp)
    print('OK property=%s obligations=%d entries=%d functions=%d (%.1fs)' % (pid, c.obl, len(c.entries), len(c.visited), time.time() - t0))
    sys.exit(0)
if __name__ == '__main__': main()
