#!/usr/bin/env python3
"""Developer tool: mutation campaign against the checks.
usage: mutate.py FILE COUNT SEED CHECK[,CHECK..]   e.g. mutate.py xmlpathselect.hpp 40 1 C19
Every mutant is one small edit of FILE (in scratch copies under /tmp/mut).  Stage 1: the native oracles of the checks; stage 2: the existing
tests; stage 3: the complete checks.  Printed: the mutants which pass the tests and all of the checks (equivalent, or a hole)."""
import os, random, re, shutil, subprocess, sys, json, time
sys.path.insert(0, '/verif/engine')
import registry
F, N, SEED, CHECKS = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(',')
LO, HI = (int(x) for x in (sys.argv[5].split('-') if len(sys.argv) > 5 else (0, 10**6)))
W = '/tmp/mut/%s_%d' % (F.replace('.', '_'), SEED)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
sh("cp -a /repo %s/repo; cp -a /opt/vp %s/vp; cd %s/vp && sed -i 's#/opt/vp#%s/vp#g; s#/repo#%s/repo#g' *.sh *.py *.mk" % (W, W, W, W, W))
P = W + '/repo/include/textwolf/' + F
orig = open(P).read(); lines = orig.split('\n')
def code(i):
    l = lines[i]; s = l.strip()
    return s and not s.startswith(('//', '*', '/*', '#', 'template', 'class', 'struct', 'enum', 'namespace', 'public', 'private', 'typedef', '\\'))
def body(l): return re.sub(r'//.*$', '', l)
muts = []
def add(i, a, b, new): muts.append((i, lines[i][:a] + new + lines[i][b:]))
REL = {'<': ['<='], '<=': ['<', '=='], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '++': ['--'], '+': ['-'], '-': ['+'], '|': ['&'], '&': ['|'], '<<': ['>>'], '>>': ['<<'], '|=': ['='], '-=': ['+='], '+=': ['=', '-=']}
for i in range(len(lines)):
    if not code(i) or not (LO <= i+1 <= HI): continue
    l = body(lines[i])
    strip = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' * len(m.group(0)), l)
    strip = re.sub(r"'(\\.|[^'\\])+'", lambda m: "'" * len(m.group(0)), strip)
    for m in re.finditer(r'(?<=[\w\s\)\]\'])(<=|>=|==|!=|&&|\|\||\|=|\+=|-=|\+\+|<<|>>|<|>|\+|-|\||&)(?=[\s\w\(\-\'!*;\)])', strip):
        op = m.group(1)
        if op in ('<', '>') and not re.match(r'.*\s$', strip[:m.start()]) and not re.match(r'\d|-', strip[m.end():].strip() or 'x'): 
            if re.search(r'[A-Z]\w*$|const$', strip[:m.start()]): continue
        if op == '&' and not re.search(r'[\w\)\]]\s?$', strip[:m.start()]): continue
        for n in REL[op]: add(i, m.start(), m.end(), n)
    for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9A-Fa-f]+)(?![\w.])', strip):
        v = int(m.group(1), 0)
        add(i, m.start(), m.end(), str(v + 1) if not m.group(1).startswith('0x') else hex(v + 1))
        if v > 0: add(i, m.start(), m.end(), str(v - 1) if not m.group(1).startswith('0x') else hex(v - 1))
    for m in re.finditer(r'\b(true|false)\b', strip): add(i, m.start(), m.end(), 'false' if m.group(1) == 'true' else 'true')
    for m in re.finditer(r"'(\\?.)'", l):
        c = m.group(1)
        for alt in {'"': ["'\\''"], "\\'": ["'\"'"]}.get(c, ["'%s'" % chr(ord(c) + 1)] if len(c) == 1 and c.isalnum() else []): add(i, m.start(), m.end(), alt)
    s = l.strip()
    if s.endswith(';') and not re.match(r'(return|break|continue|case|default|using|static|const|unsigned|int|char|bool|std::|UChar|for|while|if|else|do\b|goto|virtual|friend|[A-Z]\w+ \w+;)', s) and s.count('(') == s.count(')'):
        muts.append((i, re.match(r'\s*', lines[i]).group(0) + ';'))
    m = re.match(r'(\s*(?:else )?if \()(.*)(\)\s*(return .*;|continue;|break;|\w.*;)?)$', l)
    if m and m.group(2).count('(') == m.group(2).count(')'): muts.append((i, m.group(1) + '!(' + m.group(2) + ')' + m.group(3)))
    m = re.match(r'(\s*)(break|continue);$', l)
random.Random(SEED).shuffle(muts)
seen = set(); pick = []
for m in muts:
    if m in seen: continue
    seen.add(m); pick.append(m)
pick = pick[:N]
print('%s: %d candidates, %d picked' % (F, len(seen), len(pick)), flush=True)
I = ['-I', W + '/repo/include', '-I/verif/harness', '-I/verif/native']
orc = {}
for c in CHECKS: orc.setdefault((registry.CHECKS[c]['oracle'][0], tuple(registry.CHECKS[c].get('oracle_flags', ()))), []).append(c)
stat = dict(nocompile=0, oracle=0, tests=0, check=0, survived=0)
for k, (i, new) in enumerate(pick):
    L = list(lines); L[i] = new; open(P, 'w').write('\n'.join(L))
    what = '%s:%d  %s  =>  %s' % (F, i + 1, lines[i].strip(), new.strip())
    killed = None
    for (src, fl), cs in orc.items():
        r = sh('nice -n 19 g++ -std=gnu++98 -O1 -w %s /verif/native/%s -o %s/o %s' % (' '.join(I), src, W, ' '.join(fl)), timeout=300)
        if r.returncode: killed = 'nocompile'; break
        for c in cs:
            ps = [subprocess.Popen(['nice', '-n', '19', W + '/o'] + registry.CHECKS[c]['oracle'][1:] + ['part=%d' % q, 'parts=8'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                 env=dict(os.environ, VERIF_SEED=str(1000 + q), ORACLE_SECONDS=str(registry.CHECKS[c].get('sample_s', 8)), ASAN_OPTIONS='detect_leaks=0:exitcode=66:hard_rss_limit_mb=3000', UBSAN_OPTIONS='halt_on_error=1:exitcode=66'), cwd=W) for q in range(8)]
            for p in ps:
                try: p.communicate(timeout=100)
                except subprocess.TimeoutExpired: p.kill(); killed = 'oracle'
                if p.returncode != 0: killed = 'oracle'
            if killed: break
        if killed: break
    if not killed:
        try:
            sh('nice -n 19 bash %s/vp/test.sh %s/o.json' % (W, W), timeout=200)
            if len(json.load(open(W + '/o.json'))['passed']) != 12: killed = 'tests'
        except Exception: killed = 'tests'
        if os.path.exists(W + '/o.json'): os.remove(W + '/o.json')
    if not killed:
        msgs = []
        for c in CHECKS:
            try:
                r = subprocess.run(['nice', '-n', '18', 'python3', '/verif/check.py', c], capture_output=True, text=True, timeout=1000, env=dict(os.environ, VERIF_REPO=W + '/repo', VERIF_EVIDENCE=W + '/ev', VERIF_SEED='1', VERIF_TIER='quick'))
                if r.returncode == 1: killed = 'check'; print('  proof only:', what, c, [x for x in r.stdout.splitlines() if 'failed obl' in x][:1], 'no-failing-input' in r.stdout, flush=True); break
                msgs.append('%s rc=%s und=%d' % (c, r.returncode, r.stdout.count('note: unit')))
            except subprocess.TimeoutExpired: msgs.append(c + ' TIMEOUT')
        if not killed: killed = 'survived'; print('SURVIVED', what, msgs, flush=True)
    stat[killed] += 1
    open(P, 'w').write(orig)
print(F, stat, flush=True)
shutil.rmtree(W, ignore_errors=True)
