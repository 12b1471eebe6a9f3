#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes to one header, each run against
the checks responsible for it until one reports a violation.
  mutate.py HEADER CHECK,CHECK,... [--every K] [--offset J] [--jobs N] [--out FILE]
Works on scratch copies under /tmp only."""
import concurrent.futures as cf, os, re, shutil, subprocess, sys, json, threading

OPS = [
    (r'(?<![=!<>+\-*/&|])==(?!=)', '!='), (r'!=', '=='), (r'(?<![<\-])<=', '<'), (r'>=', '>'),
    (r'(?<= )<(?= )', '<='), (r'(?<= )>(?= )', '>='), (r'&&', '||'), (r'\|\|', '&&'),
    (r'\+\+', '--'), (r'--(?!-)', '++'), (r'(?<=[\w\) ])\+ 1\b', '+ 2'), (r'(?<=[\w\) ])- 1\b', ''), (r'(?<=[\w\) ])\+ 1\b', ''),
    (r'\+=', '-='), (r'-=', '+='), (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r'(?<= )\*(?= )', '+'), (r'(?<= )/(?= )', '*'),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bnullptr\b(?! [!=])', None), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'),
    (r'!(?=[\w(])', ''), (r'\.next\b|->next\b', None), (r'(?<=->)l\b', 'r'), (r'(?<=->)r\b', 'l'), (r'std::move\(', '('),
    (r'std::forward<[^>]*>\(', '('), (r'\bBLACK\b', 'RED'), (r'\bRED\b', 'BLACK'),
    (r'\bend\(\)', 'begin()'), (r'\bm_size\b', 'm_capacity'), (r'\bif \(', 'if (!!0 && '), (r'\bif \(', 'if (true || '),
]


def mutants(text):
    out = []
    off = 0
    incomment = False
    for ln, line in enumerate(text.split('\n')):
        code = line.split('//')[0]
        st = code.strip()
        if st and not st.startswith(('#', 'using', 'namespace', 'template', '*', '/*')):
            for pat, rep in OPS:
                if rep is None:
                    continue
                for m in re.finditer(pat, code):
                    new = code[:m.start()] + rep + code[m.end():]
                    if new != code:
                        out.append((ln, line, new))
            if st.endswith(';') and not st.startswith(('return', 'using', 'typedef', 'friend', 'constexpr', 'static', '}')) and '=' not in st.split('(')[0][:0]:
                out.append((ln, line, re.match(r'\s*', code).group(0) + ';'))
    seen, res = set(), []
    for m in out:
        k = (m[0], m[2])
        if k not in seen:
            seen.add(k)
            res.append(m)
    return res


def main():
    a = sys.argv[1:]
    opt = {'--every': 1, '--offset': 0, '--jobs': 2, '--out': '/tmp/mutants.txt'}
    for k in list(opt):
        if k in a:
            i = a.index(k)
            opt[k] = a[i + 1]
            del a[i:i + 2]
    header, checks = a[0], a[1].split(',')
    src = os.environ.get('BASE', '/repo') + '/include/cest/' + header
    text = open(src).read()
    ms = mutants(text)[int(opt['--offset'])::int(opt['--every'])]
    lock = threading.Lock()
    base = '/tmp/mutcamp-' + header.replace('/', '_')
    free = []
    for j in range(int(opt['--jobs'])):
        d = base + str(j)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(os.environ.get('BASE', '/repo') + '/include', d + '/repo/include')
        os.makedirs(d + '/verif')
        for x in ('lib', 'spec', 'harness', 'check.py', 'known_findings.txt'):
            s = os.environ.get('VBASE', '/verif') + '/' + x
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, d + '/verif/' + x)
        free.append(d)
    log = open(opt['--out'], 'a')

    def one(m):
        ln, old, new = m
        with lock:
            d = free.pop()
        try:
            lines = text.split('\n')
            lines[ln] = new
            open(d + '/repo/include/cest/' + header, 'w').write('\n'.join(lines))
            p = subprocess.run(['clang++-18', '-std=c++2a', '-DCONSTEXPR_CEST=1', '-fsyntax-only', '-w', '-I' + d + '/repo/include', '-x', 'c++', '-'],
                               input='#include <cmath>\n#include <cstdio>\n#include <sstream>\n#include <cest/sstream.hpp>\n#include <cest/%s>\n' % header, capture_output=True, text=True)
            if p.returncode:
                return
            res = []
            for c in checks:
                try:
                    p = subprocess.run(['python3-vt', 'check.py', c], cwd=d + '/verif', capture_output=True, text=True, env=dict(os.environ, CEST_REPO=d + '/repo'), timeout=600)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    rc = 'T'
                res.append('%s=%s' % (c, rc))
                if rc == 1:
                    break
                if rc == 2 and 'does not compile' in p.stdout:
                    break
            tag = 'KILLED' if res[-1].endswith('=1') else 'NOCOMP' if res[-1].endswith('=2') and len(res) == 1 else 'SURVIVED'
            with lock:
                log.write('%s %s:%d [%s]\n   - %s\n   + %s\n' % (tag, header, ln + 1, ' '.join(res), old.strip(), new.strip()))
                log.flush()
        finally:
            with lock:
                free.append(d)
    with cf.ThreadPoolExecutor(int(opt['--jobs'])) as ex:
        list(ex.map(one, ms))
    for j in range(int(opt['--jobs'])):
        shutil.rmtree(base + str(j), ignore_errors=True)
    log.write('END %s %d\n' % (header, len(ms)))


main()
