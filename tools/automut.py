#!/usr/bin/env python3
"""Systematic mutants of the repository's source, to see which the checks miss.

usage: automut.py OUT FILE...        (FILE relative to /repo; J=workers, N=limit per file, SEED=sample)
Every mutant is one small edit of one line. Mutants that do not compile or fail the existing tests are skipped.
Not a check: nothing registered in MANIFEST.json uses it.
"""
import os, random, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ALL = ['C%02d' % i for i in range(1, 25)]


def order(f):
    if f.startswith('packet/code'):
        p = ['C07', 'C08', 'C05', 'C01', 'C10', 'C11', 'C09', 'C23']
    elif f.startswith('packet') or f.startswith('version'):
        p = ['C05', 'C06', 'C01', 'C03', 'C02', 'C04', 'C17', 'C22', 'C23']
    elif f == 'config.go':
        p = ['C10', 'C11', 'C09', 'C12', 'C22', 'C23']
    elif f == 'options.go':
        p = ['C24']
    elif f == 'node.go':
        p = ['C20', 'C21', 'C22', 'C24', 'C09', 'C19', 'C23']
    else:
        p = ['C14', 'C15', 'C13', 'C18', 'C17', 'C16', 'C23', 'C19', 'C24']
    return p


SUBS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<-])<(?![<=-])', '<='), (r'(?<!>)>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='),
        (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'<<', '>>'), (r'>>', '<<'),
        (r'(?<!\|)\|(?!\|)', '&'), (r'(?<![&(,=\[{ ])\s?&(?!&)', ' |'), (r'(?<=\w) \+ (?=\w)', ' - '), (r'(?<=\w) - (?=\w)', ' + '),
        (r'return err\b', 'return nil'), (r'\bcontinue\b', 'break'), (r'if !', 'if '), (r'\+\+', '--')]


def mutants(f):
    src = open(os.path.join(REPO, f)).read().split('\n')
    out = []
    infn = False
    for i, l in enumerate(src):
        s = l.strip()
        if l.startswith('func '):
            infn = True
        if l.startswith('}'):
            infn = False
        if not s or s.startswith('//') or not infn or '.log.' in l or l.startswith('func '):
            continue
        # no edits inside strings
        code = re.sub(r'"[^"]*"', lambda m: '"' + '\0' * (len(m.group(0)) - 2) + '"', l)
        code = code.split('//')[0]
        for rx, new in SUBS:
            for m in re.finditer(rx, code):
                out.append((i, l[:m.start()] + new + l[m.end():]))
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', code):
            v = int(m.group(1), 0)
            for w in (v + 1, v - 1):
                if w >= 0:
                    t = hex(w) if m.group(1).startswith('0x') else str(w)
                    out.append((i, l[:m.start()] + t + l[m.end():]))
        if re.match(r'(\w[\w.\[\]]*(, \w[\w.\[\]]*)* (=|\+=|-=|\|=|&=|&\^=) |delete\(|copy\(|close\(|defer |go |[\w.\[\]]+\.(Lock|Unlock|Stop|finish|swap\w*|Close)\(\)|\w[\w.\[\]]*(\+\+|--)$|\w+ <- )', s):
            out.append((i, re.match(r'\s*', l).group(0) + '_ = 0'))
        if re.match(r'return$|continue$|break$', s):
            out.append((i, re.match(r'\s*', l).group(0) + '_ = 0'))
    res, seen = [], set()
    for i, n in out:
        if (i, n) not in seen and n != src[i]:
            seen.add((i, n))
            res.append((f, i, src[i], n))
    return res


def run(m):
    f, i, old, new = m
    w = tempfile.mkdtemp(prefix='am_')
    r = w + '/repo'
    try:
        subprocess.run(['git', 'clone', '-q', REPO, r], check=True)
        p = os.path.join(r, f)
        t = open(p).read().split('\n')
        t[i] = new
        open(p, 'w').write('\n'.join(t))
        if subprocess.run(['go', 'build', './...'], cwd=r, capture_output=True).returncode:
            return 'nobuild', m, ''
        if subprocess.run(['go', 'test', './packet/...', './version/...'], cwd=r, capture_output=True).returncode:
            return 'tests', m, ''
        env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=w + '/ev')
        bad = ''
        for p in order(f):
            c = subprocess.run([SNAP + '/bin/check', p], env=env, capture_output=True, text=True)
            if c.returncode == 1:
                return 'caught', m, p + (' noinput' if 'no-failing-input' in c.stdout else '')
            if c.returncode:
                bad += ' %s:%d' % (p, c.returncode)
        return 'MISSED', m, bad
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    SNAP = tempfile.mkdtemp(prefix='amsnap_')
    subprocess.run(f'cp -a {V}/bin {V}/contracts {V}/gover {V}/replay {V}/known-findings.txt {V}/properties.jsonl {SNAP}/; mkdir {SNAP}/replays {SNAP}/evidence; {SNAP}/bin/build', shell=True, check=True)
    try:
        random.seed(int(os.environ.get('SEED', '1')))
        ms = []
        for f in sys.argv[2:]:
            x = mutants(f)
            n = int(os.environ.get('N', '10000'))
            if len(x) > n:
                x = random.sample(x, n)
            ms += x
        print(len(ms), 'mutants')
        out = open(sys.argv[1], 'w')
        count = {}
        with cf.ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
            for k, (f, i, old, new), note in ex.map(run, ms):
                count[k] = count.get(k, 0) + 1
                if k in ('MISSED',) or 'noinput' in note:
                    out.write(f'{k} {f}:{i + 1} {note}\n   - {old.strip()}\n   + {new.strip()}\n')
                    out.flush()
        out.write(str(count) + '\n')
        print(count)
    finally:
        shutil.rmtree(SNAP)
