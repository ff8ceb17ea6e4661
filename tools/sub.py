#!/usr/bin/env python3
"""sub.py <seed id> <file> <<< 'old\n=====\nnew' : make patch.diff of seeded/<id> from an edit of a pristine scratch copy (several edits accumulate with --more)"""
import sys, subprocess, os
sid, f = sys.argv[1], sys.argv[2]
W = '/tmp/seedrepo'
if not os.path.isdir(W): subprocess.check_call(['cp', '-a', '/repo', W])
if '--more' not in sys.argv: subprocess.check_call(['git', '-C', W, 'checkout', '-q', '--', '.'])
old, new = sys.stdin.read().split('\n=====\n'); new = new.rstrip('\n') if not new.endswith('\n\n') else new
s = open(W + '/' + f).read()
assert s.count(old) == 1, 'matches: %d' % s.count(old)
open(W + '/' + f, 'w').write(s.replace(old, new))
os.makedirs('/verif/seeded/' + sid, exist_ok=True)
open('/verif/seeded/%s/patch.diff' % sid, 'w').write(subprocess.check_output(['git', '-C', W, 'diff'], text=True))
