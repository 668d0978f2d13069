#!/usr/bin/env python3
"""Self-test of the reference evaluator (run by hand; no check uses it).

Extracts the CalcHEP data sets for the spin-summed square from the process sources by following the
assignments in the test functions, and hands them to ref_selftest.cpp, which does not link the library.
"""
import glob, math, os, re, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); repo = os.environ.get('VERIF_REPO', '/repo')
strs = lambda s: re.findall(r'"([^"]*)"', s)
procs = {}
for f in glob.glob(here + '/../harness/procs/procs_*.cpp'):
    for m in re.finditer(r'Def\{"(\w+)",\{\{([^}]*)\}\},(true|false),(?:true|false),\{([^}]*)\},\{([^}]*)\}', open(f).read()):
        procs[m[1]] = (strs(m[2]), m[3] == 'true', strs(m[4]), strs(m[5]))
out = ['proc %s %d %s' % (n, q, ' '.join(p)) for n, (p, q, _, _) in sorted(procs.items()) if n != 'eeAZ']
used = polarised = 0; why = []
for f in sorted(glob.glob(repo + '/SM/*.cpp')):
    src = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(f, encoding='latin1').read(), flags=re.S)
    k = re.search(r'int test_\w+\(\)', src)
    if not k or 'eeAZ' in f: continue
    base = os.path.basename(f); env, arr, obj, pend = {}, {}, {}, None
    def ev(e): return float(eval(e.strip().replace('std::', ''), {'sqrt': math.sqrt}, env))
    for st in src[k.end():].split(';'):          # the lambda holds a ';', so a comparison call spans two pieces
        st = st.strip()
        m = re.search(r'(\w+)\s*\[20\]\s*=\s*\{([^}]*)\}', st, re.S)
        if m: arr[m[1]] = [x.strip() for x in m[2].split(',')]; continue
        m = re.search(r'(\w+)\.test_2to2_amp2\(.*return\s+\w+\.(\w+)\(\)$', st, re.S)
        if m: pend = (m[1], m[2]); continue
        m = re.match(r'\}\s*,(.*)\)$', st, re.S)
        if m and pend:
            (o, meth), pend = pend, None
            if meth != 'amp2': polarised += 1; continue
            try:
                a = [x.strip() for x in m[1].split(',')]; vals = [repr(ev(x)) for x in a[:5]]; data = arr[a[5]]; assert len(data) == 20
                out.append('case %s %s | %s %s' % (obj[o][0], ' '.join('%s %r' % kv for kv in obj[o][1].items()), ' '.join(vals), ' '.join(data))); used += 1
            except Exception as e: why.append((base, repr(e)))
            continue
        if m: continue
        m = re.search(r'\b(\w+)\s+(\w+)\s*(?:=\s*\w+\s*)?\((.*)\)$', st, re.S)
        if m and m[1] in procs:
            try: obj[m[2]] = (m[1], dict(zip(procs[m[1]][2], [ev(x) for x in m[3].split(',')])))
            except Exception as e: why.append((base, 'constructor ' + repr(e)))
            continue
        m = re.search(r'(\w+)\.set_masses\((.*)\)$', st, re.S)
        if m and m[1] in obj:
            try: obj[m[1]][1].update(zip(procs[obj[m[1]][0]][3], [ev(x) for x in m[2].split(',')]))
            except Exception as e: why.append((base, 'set_masses ' + repr(e)))
            continue
        for n, v in re.findall(r'\b([A-Za-z]\w*)\s*=\s*([^,=]+)(?=,|$)', st):
            try: env[n] = ev(v)
            except Exception: pass
print('extracted %d data sets; %d for polarised or other squares left out; not understood: %d %s' % (used, polarised, len(why), why[:8]))
with tempfile.TemporaryDirectory() as d:
    with open(d + '/cases', 'w') as o: o.write('\n'.join(out) + '\n')
    subprocess.check_call(['g++', '-std=c++17', '-O2', here + '/ref_selftest.cpp', '-o', d + '/t'])
    sys.exit(subprocess.call([d + '/t', d + '/cases']))
