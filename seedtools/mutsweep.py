#!/usr/bin/env python3
"""Operator-mutation sweep (development aid, not a check): which small changes of the code do the checks miss?

usage: mutsweep.py OUTDIR COUNT SEED FILE...      files are relative to /repo
Each mutant is one operator/constant/statement change on one line; the mutated file alone is recompiled and linked with the
rest, and the harnesses run one after another until the first reports a violation."""
import sys, os, re, random, subprocess, signal, time, json, glob

REPO = '/repo'
FLAGS = f'-std=c++14 -O2 -w -DECL_STANDALONE -I/verif/shim -I/verif/src -I{REPO} -I{REPO}/EKF'.split()
STAGES = [('ekf_core', ''), ('ekf_env', 'ALL'), ('ekf_gps', 'E08'), ('ekf_gps', 'E13')]
EXTRA = {'EKFGSF_yaw.cpp': [('yaw', '')], 'sensor_range_finder.cpp': [('rangefinder', '')], 'imu_down_sampler.cpp': [('downsampler', '')], 'utils.cpp': [('utils', '')]}


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, **k).returncode


def mutations(line):
    """all single mutations of a line of code"""
    code = line.split('//')[0]
    out = []
    def sub(m, new, what):
        out.append((code[:m.start()] + new + code[m.end():] + '\n', what))
    if not code.strip() or code.strip().startswith(('#', '*', '/*', 'ECL_', 'const char')):
        return out
    for a, b in [(' < ', ' > '), (' > ', ' < '), (' <= ', ' > '), (' >= ', ' < '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '),
                 (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' += ', ' -= '), (' -= ', ' += '), ('= true', '= false'), ('= false', '= true'),
                 ('fmaxf(', 'fminf('), ('fminf(', 'fmaxf('), ('math::max(', 'math::min('), ('math::min(', 'math::max('), ('cosf(', 'sinf('), ('sinf(', 'cosf('),
                 ('(0)', '(1)'), ('(1)', '(2)'), ('(2)', '(1)'), ('[0]', '[1]'), ('[1]', '[0]')]:
        for m in re.finditer(re.escape(a), code):
            sub(m, b, f'{a.strip()} -> {b.strip()}')
    for m in re.finditer(r'(?<![&|])!(?=[_a-z(])', code):
        sub(m, '', 'drop !')
    for m in re.finditer(r'(?<![\w.])(\d+\.\d*f?|[1-9]\d*e\d+)(?![\w.])', code):
        t = m.group(1)
        f = 'f' if t.endswith('f') else ''
        v = float(t.rstrip('f'))
        if 'e' in t:
            sub(m, f'{t[0]}5e{t.split("e")[1]}' if False else '5' + t[1:] if t[0] != '5' else '1' + t[1:], f'{t} changed')
        else:
            sub(m, f'{v * 1.5 + (0.5 if v == 0 else 0)}{f}', f'{t} x1.5')
    s = code.strip()
    if s.endswith(';') and not s.startswith(('return', 'const', 'float', 'bool', 'uint', 'int', 'break', 'Vector', 'Quat', 'auto', 'Dcm', 'static', 'switch', 'case', '}', 'double', 'Matrix', 'Euler', 'SquareMatrix')) and s.count('(') == s.count(')') and re.match(r'^[\w:.\[\]()>_, ]+\s*(\(|=|\+=|-=|\+\+|--)', s) and not s.startswith(('else', 'if', 'for', 'while')):
        out.append(('\n', 'statement removed'))
    for m in re.finditer(r'\bif \(', code):
        if code.count('(') == code.count(')') and code.rstrip().endswith('{'):
            out.append((code[:m.start()] + 'if (false && (' + code[m.end():code.rstrip().rfind(')')] + ')) {\n', 'if never'))
            out.append((code[:m.start()] + 'if (true || (' + code[m.end():code.rstrip().rfind(')')] + ')) {\n', 'if always'))
            break
    return out


def run_stage(exe, arg, out, timeout):
    first = f'{out}/first'
    if os.path.exists(first):
        os.remove(first)
    env = dict(os.environ, MC_RESULT=f'{out}/res.json', MC_FIRST=first, VERIF_TIER='quick', VERIF_SEED='1')
    env.pop('MC_ARGS', None)
    if arg:
        env['MC_ARGS'] = arg
    p = subprocess.Popen([exe], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    t0 = time.time()
    res = ''
    while True:
        done = p.poll() is not None
        if os.path.exists(first):
            hits = [l for l in open(first, errors='replace') if not l.startswith('stale vision height')]
            if hits:
                res = hits[0].strip()
                break
        if done:
            if p.returncode not in (0, 1):
                res = f'exit {p.returncode}'
            break
        if time.time() - t0 > timeout:
            res = 'TIMEOUT'
            break
        time.sleep(0.05)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    return res, time.time() - t0


def main():
    out, count, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    os.makedirs(out, exist_ok=True)
    objs = {}
    jobs = []
    for f in glob.glob(f'{REPO}/EKF/*.cpp') + glob.glob(f'{REPO}/geo/*.cpp') + glob.glob(f'{REPO}/geo_lookup/*.cpp') + glob.glob('/verif/src/*.cpp'):
        o = f'{out}/{os.path.basename(f)}.{"h" if "verif" in f else "r"}.o'
        objs[f] = o
        jobs.append(subprocess.Popen(['g++', *FLAGS, '-c', f, '-o', o], stderr=subprocess.DEVNULL))
        if len(jobs) >= 8:
            jobs.pop(0).wait()
    for j in jobs:
        j.wait()
    rng = random.Random(seed)
    pool = []
    for f in files:
        depth_cmt = False
        for n, line in enumerate(open(f'{REPO}/{f}')):
            if '/*' in line:
                depth_cmt = '*/' not in line
                continue
            if depth_cmt:
                depth_cmt = '*/' not in line
                continue
            for new, what in mutations(line):
                pool.append((f, n, new, what))
    rng.shuffle(pool)
    log = open(f'{out}/log.txt', 'a')
    tot = {}
    for f, n, new, what in pool[:count]:
        lines = open(f'{REPO}/{f}').readlines()
        old = lines[n]
        lines[n] = new
        base = os.path.basename(f)
        src = f'{out}/m_{base}'
        open(src, 'w').writelines(lines)
        if sh('g++', *FLAGS, f'-I{REPO}/{os.path.dirname(f)}', '-c', src, '-o', f'{out}/m.o'):
            continue
        if open(f'{out}/m.o', 'rb').read() == open(objs[f'{REPO}/{f}'], 'rb').read():
            continue
        verdict, where = 'MISSED', ''
        t0 = time.time()
        for h, arg in EXTRA.get(base, []) + STAGES:
            rest = [o for k, o in objs.items() if '/verif/' not in k and k != f'{REPO}/{f}']
            if sh('g++', objs[f'/verif/src/{h}.cpp'], f'{out}/m.o', *rest, '-o', f'{out}/exe_{h}'):
                verdict = 'nolink'
                break
            res, dt = run_stage(f'{out}/exe_{h}', arg, out, 400)
            if res:
                verdict, where = 'caught', f'{h} {arg} {res[:160]}'
                break
        tot[verdict] = tot.get(verdict, 0) + 1
        log.write(f'{verdict} {f}:{n + 1} [{what}] {old.strip()[:120]} => {new.strip()[:120]} | {where} ({time.time() - t0:.0f}s)\n')
        log.flush()
    log.write(f'total {tot}\n')


main()
