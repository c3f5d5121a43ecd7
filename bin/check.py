#!/usr/bin/env python3
"""check.py PROP [quick|thorough] | check.py --replay PROP FILE
Builds what the property needs from /repo's working tree plus the harness, runs the explorer, writes
evidence/<PROP>.json, prints VIOLATION / KNOWN-FINDING lines."""
import sys, os, json, subprocess, hashlib, time, glob, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from groups import GROUPS, PROP_GROUP  # noqa

BASE = ['-std=c++20', '-DNDEBUG', '-fPIC', '-mavx2', '-w', '-I' + REPO + '/parser', '-I' + REPO + '/parser/fanuc',
        '-I' + REPO + '/nclangsrv', '-I' + VERIF + '/src']
KEEP_O0 = {'AttributesPathCalculator.cpp', 'FileSplitter.cpp'}  # extern constexpr functions: inlining drops them


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def repo_sources(parts):
    out = []
    if 'parser' in parts:
        out += [f for f in glob.glob(REPO + '/parser/*.cpp') if os.path.basename(f) not in ('dllmain.cpp', 'stdafx.cpp')]
        out += glob.glob(REPO + '/parser/fanuc/**/*.cpp', recursive=True)
        for d in glob.glob(REPO + '/parser/*/'):
            if os.path.basename(d.rstrip('/')) not in ('fanuc', 'heidenhain'):
                out += glob.glob(d + '**/*.cpp', recursive=True)
    if 'heidenhain' in parts:
        out += glob.glob(REPO + '/parser/heidenhain/**/*.cpp', recursive=True)
    if 'server' in parts:
        out += [f for f in glob.glob(REPO + '/nclangsrv/**/*.cpp', recursive=True) if os.path.basename(f) != 'stdafx.cpp']
    return sorted(set(out))


def tree_hash(dirs):
    hsh = hashlib.sha256()
    for d in dirs:
        for f in sorted(glob.glob(d + '/**/*', recursive=True)):
            if f.endswith(('.h', '.hpp', '.cpp', '.inc', '.ipp')) and os.path.isfile(f):
                hsh.update(f.encode()); hsh.update(open(f, 'rb').read())
    return hsh.hexdigest()


SLOW = ['AllAttributesParserGrammar', 'AllAttributesParser.cpp', 'ValueCalculator', 'OrderAttribute']


def build(group):
    g = GROUPS[group]
    if 'script' in g:  # transpiles the extension itself
        return os.path.join(VERIF, 'src', g['script'])
    opt = g.get('opt', '-O1')
    flags = BASE + g.get('flags', [])
    # objects are cached by the contents of all headers + the file itself (development only; a fresh copy builds all)
    hdr = hashlib.sha256()
    for d in (REPO + '/parser', REPO + '/nclangsrv', VERIF + '/src'):
        for f in sorted(glob.glob(d + '/**/*', recursive=True)):
            if f.endswith(('.h', '.hpp')) and os.path.isfile(f):
                if f.startswith(VERIF) : continue
                hdr.update(f.encode()); hdr.update(open(f, 'rb').read())
    hh = hdr.hexdigest()
    vh = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + '/src/*.hpp')):
        vh.update(open(f, 'rb').read())
    bdir = os.path.join(VERIF, 'build', 'obj')
    os.makedirs(bdir, exist_ok=True)
    skip = set(g.get('skip', []))
    allsrc = repo_sources(g['parts'])
    srcs = [f for f in allsrc if os.path.basename(f) not in skip]
    rest = [f for f in allsrc if os.path.basename(f) in skip]
    harn = [os.path.join(VERIF, 'src', x) for x in g['src']]

    def obj(f, o=opt):
        base = os.path.basename(f)
        fl = list(flags)
        if f.startswith(REPO + '/parser/heidenhain'):
            fl = ['-I' + REPO + '/parser/heidenhain' if x == '-I' + REPO + '/parser/fanuc' else x for x in fl]
        if base in KEEP_O0:
            o = '-O0'
        if base == 'nclangsrv.cpp' and f.startswith(REPO):
            fl = fl + g.get('mainflags', [])
        if f.startswith(VERIF):
            fl = fl + g.get('hflags', [])
        key = hashlib.sha256((hh + (vh.hexdigest() if f.startswith(VERIF) else '') + f + o + ' '.join(fl)).encode() + open(f, 'rb').read()).hexdigest()[:24]
        out = os.path.join(bdir, base + '.' + key + '.o')
        if not os.path.exists(out):
            r = sh(['g++'] + fl + [o, '-c', f, '-o', out + '.tmp%d' % os.getpid()])
            if r.returncode:
                return None, f + '\n' + r.stdout[-3000:]
            os.rename(out + '.tmp%d' % os.getpid(), out)
        return out, None

    order = sorted(harn + srcs, key=lambda f: (not any(s in f for s in SLOW), not f.startswith(VERIF)))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(obj, order))
    errs = [e for _, e in res if e]
    if errs:
        print('BUILD FAILED\n' + '\n'.join(errs)); sys.exit(2)
    objs = [o for o, _ in res]
    libs = g.get('libs', [])
    key = hashlib.sha256(' '.join(sorted(objs)).encode()).hexdigest()[:20]
    exe = os.path.join(VERIF, 'build', group + '.' + key)
    if os.path.exists(exe):
        return exe
    tmp = exe + '.%d' % os.getpid()

    def link(objs):
        return sh(['g++'] + [f for f in g.get('flags', []) if f.startswith('-fsan')] + objs + ['-o', tmp] + libs)
    r = link(objs)
    if r.returncode and rest:
        with ThreadPoolExecutor(8) as ex:
            more = list(ex.map(obj, rest))
        if not any(e for _, e in more):
            objs += [o for o, _ in more]
            r = link(objs)
    if r.returncode:
        # last resort: without optimisation every function is emitted
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda f: obj(f, '-O0'), harn + allsrc))
        errs = [e for _, e in res if e]
        if errs:
            print('BUILD FAILED\n' + '\n'.join(errs)); sys.exit(2)
        r = link([o for o, _ in res])
    if r.returncode:
        print('LINK FAILED\n' + r.stdout[-4000:]); sys.exit(2)
    os.rename(tmp, exe)
    return exe


def known(prop):
    kn = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'KNOWN property=(\S+) case=(".*?(?<!\\)(?:\\\\)*") (.*)', line.strip())
            if m and m.group(1) == prop:
                kn.append((json.loads(m.group(2)), m.group(3)))
    return kn


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        prop, f = a[1], a[2]
        exe = build(PROP_GROUP[prop])
        os.environ['VERIF_REPO'] = REPO
        sys.exit(subprocess.call([exe, 'replay', prop, f]))
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    group = PROP_GROUP[prop]
    exe = build(group)
    tb = time.time() - t0
    out = os.path.join(VERIF, 'build', 'run', prop + '.%d' % os.getpid())
    os.makedirs(out)
    env = dict(os.environ)
    env['VERIF_REPO'] = REPO
    env['VERIF_DIR'] = VERIF
    env['TMPDIR'] = os.path.join(out, 'tmp')
    os.makedirs(env['TMPDIR'])
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:handle_abort=1:allocator_may_return_null=1'
    env['UBSAN_OPTIONS'] = 'halt_on_error=1:abort_on_error=1:print_stacktrace=0'
    with open(os.path.join(out, 'log'), 'w') as lf:
        rc = subprocess.call([exe, 'explore', prop, '1' if tier == 'thorough' else '0', out, '8'], env=env, stdout=lf, stderr=lf, cwd=out)
    if rc or not os.path.exists(out + '/result.json'):
        print('explorer failed rc=%d\n' % rc + open(out + '/log', errors='replace').read()[-2000:]); sys.exit(2)
    r = json.load(open(out + '/result.json'))
    kn = known(prop)
    kcases = {c: w for c, w in kn}
    rdir = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + '_*')):
        os.unlink(f)
    nv = 0
    for v in r['violations']:
        if v['case'] in kcases:
            continue
        nv += 1
        if nv <= 10:
            rp = os.path.join(rdir, '%s_%02d.txt' % (prop, nv))
            open(rp, 'wb').write(v['case'].encode('latin-1'))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            print('  case: ' + json.dumps(v['case'])[:1500])
            print('  what: ' + v['what'].strip()[:1500])
    for c, w in kn:
        # a listed finding is re-demonstrated on every run
        tf = os.path.join(out, 'known'); open(tf, 'wb').write(c.encode('latin-1'))
        rc = subprocess.call([exe, 'replay', prop, tf], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=out)
        if rc:
            print('KNOWN-FINDING: property=%s %s' % (prop, w))
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': {'states': r['states'], 'transitions': r['transitions'], 'traces_validated_against_impl': r['cases'],
                       'samples': r['samples'] or ['(none)'], 'exhaustive': nv == 0, 'bound': r['bound'],
                       'observed_outcomes': r['outcomes'], 'alarms_not_reproduced': r['unconfirmed'], 'worker_restarts': r['worker_restarts']},
          'wall_s': round(time.time() - t0, 2), 'build_s': round(tb, 2), 'violations': nv,
          'assumptions': ['values outside the enumerated alphabet are not covered', 'g++ -O0/-O1 build of the working tree; the reference model is trusted' if 'script' not in GROUPS[group] else 'the editor, its language client, processes and files are a model; the source of the extension itself runs, transpiled']}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    shutil.rmtree(out)
    print('%s %s: %d executions, %d transitions, %d states, %d outcome classes, build %.1fs, total %.1fs, %d violations' % (
        prop, tier, r['cases'], r['transitions'], r['states'], len(r['outcomes']), tb, time.time() - t0, nv))
    if r['cases'] == 0 and not nv:
        print('nothing explored'); sys.exit(2)
    sys.exit(1 if nv else 0)


main()
