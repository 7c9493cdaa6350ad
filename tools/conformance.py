#!/usr/bin/env python3-vt
"""Checks the C and C++ library model against the real library: every entry of conformance.cpp is executed by the
engine over the model (all assertions must hold) and natively against gcc's libstdc++ and glibc.
Usage: python3-vt tools/conformance.py [entry...]      (not part of any registered check)"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V)
import check
src = open(HERE + '/conformance.cpp').read().split('\n')
pre = [l for l in src if not l.startswith('HARNESS(')]
entries = [(re.match(r'HARNESS\((\w+)\)', l).group(1), l) for l in src if l.startswith('HARNESS(')]
if sys.argv[1:]: entries = [e for e in entries if e[0] in sys.argv[1:]]
check.build_engine()
tmp = tempfile.mkdtemp(prefix='sxconf')
def one(e):
    n, body = e; b = tmp + '/' + n
    open(b + '.cpp', 'w').write('\n'.join(pre) + '\n' + body + '\n')
    r = subprocess.run(check.ir_cmd() + ['-c', b + '.cpp', '-o', b + '.bc'], capture_output=True, text=True)
    if r.returncode: return n, 'does not compile over the model: ' + ' / '.join([l for l in r.stderr.split('\n') if 'error' in l][:3])
    subprocess.run(['llvm-link-18', '-o', b + '.l.bc', b + '.bc', tmp + '/rt.bc'], check=True)
    subprocess.run(['opt-18', '-passes=internalize,globaldce', '-internalize-public-api-list=%s,sx_exc_vtable' % n, '-o', b + '.o.bc', b + '.l.bc'], check=True)
    p = subprocess.run([V + '/build/sx', '--ir', b + '.o.bc', '--entry', n, '--out', b + '.json', '--time', '60'], capture_output=True, text=True)
    if not os.path.exists(b + '.json'): return n, 'no result ' + p.stderr[-300:]
    r = json.load(open(b + '.json'))
    return n, 'ok' if r['complete'] and not r['violations'] else 'DIFFERS %s %s' % (r.get('why', ''), [v.get('label') or v.get('kind') for v in r['violations']])
try:
    subprocess.run(check.ir_cmd() + ['-fno-builtin', '-c', V + '/model/runtime.cpp', '-o', tmp + '/rt.bc'], check=True)
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        for n, x in ex.map(one, entries): print(n, x)
finally: shutil.rmtree(tmp)
