#!/usr/bin/env python3
"""Planted-bug helper.  new ID PROP FILE <<(old ==> new)  creates the patch from a replacement; confirm ID...
builds it in a scratch copy, runs the stable tests and the demonstration, and runs the property's check against it."""
import json, os, re, shutil, subprocess, sys
S = '/tmp/sw'
SD = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if os.path.isdir(S): shutil.rmtree(S)
    shutil.copytree('/repo', S, symlinks=True)
    if os.path.isdir(S + '/_build'): shutil.rmtree(S + '/_build')
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('/repo/', S + '/').replace('/repo ', S + ' ').replace('bash /opt/vp/build.sh', 'bash %s.build.sh' % S)
        t = t.replace('/opt/vp/support', S + '.support')
        open('%s.%s' % (S, f), 'w').write(t)
    if os.path.isdir(S + '.support'): shutil.rmtree(S + '.support')
    shutil.copytree('/opt/vp/support', S + '.support')
    for f in os.listdir(S + '.support'):
        p = S + '.support/' + f
        if f.endswith('.py'):
            t = open(p).read().replace('/repo/', S + '/').replace('/repo ', S + ' ').replace('/opt/vp/support', S + '.support'); open(p, 'w').write(t)
def new(i, prop, edits, demo, needs, breaks, flags=''):
    d = '%s/%s' % (SD, i); os.makedirs(d, exist_ok=True)
    w = '/tmp/seed.new'
    sh('rm -rf ' + w); sh('git clone -q /repo ' + w)
    try:
        for f, a, b in edits:
            p = w + '/' + f; t = open(p).read()
            assert t.count(a) == 1, (f, a, t.count(a))
            open(p, 'w').write(t.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % w).stdout)
    finally:
        sh('rm -rf ' + w)
    open(d + '/demo.cpp', 'w').write(demo)
    flags = flags or ('-DUSE_LIBFFTW -lfftw3 -lfftw3f' if 'fftw' in demo or 'spectral' in demo or 'feature' in demo else '')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds on this input, nonzero otherwise\nset -e\nd=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d)\ntrap \'rm -rf "$w"\' EXIT\ng++ -std=c++17 -O1 -w -include cstdint -I"$PWD/include" -I"$PWD" -I"$PWD/bindings/c/include" -o "$w/demo" "$d/demo.cpp" %s\n"$w/demo"\n' % flags)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
def confirm(ids):
    scratch()
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = sh('cd %s && bash %s.build.sh' % (S, S))
    for i in ids:
        d = '%s/%s' % (SD, i); m = json.load(open(d + '/meta.json'))
        ok0 = sh('bash %s/demo.sh' % d, cwd=S, timeout=300).returncode
        a = sh('git -C %s apply %s/patch.diff' % (S, d))
        try:
            t = sh('bash %s.test.sh /tmp/sw.o.json' % S)
            res = json.load(open('/tmp/sw.o.json'))
            npass = len(res['passed']); lost = len(base - set(res['passed'])) if base else -1
            r1 = sh('bash %s/demo.sh' % d, cwd=S, timeout=300)
            os.makedirs('/tmp/sw.evid', exist_ok=True)
            c = sh('VF_REPO=%s VF_EVID=/tmp/sw.evid python3-vt /verif/check.py %s' % (S, m['property']), cwd='/verif', timeout=900)
        finally:
            sh('git -C %s checkout -- .' % S)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        print('%-28s apply=%d demo0=%d passed=%d lost=%d demo1=%d check=%d %s' % (i, a.returncode, ok0, npass, lost, r1.returncode, c.returncode, (v or ['-'])[0][:110]), flush=True)
    shutil.rmtree(S)
if __name__ == '__main__':
    if sys.argv[1] == 'confirm': confirm(sys.argv[2:])
    else:
        ns = {'new': new}; exec(open(sys.argv[2]).read(), ns)
