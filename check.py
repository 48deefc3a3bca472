#!/usr/bin/env python3
"""Builds one property's checks from /repo's working tree and runs them.

    check.py ID [--tier quick|thorough] [--seed N] [--prop NAME] [--scale X] [--replay FILE]
    check.py --build-all
    check.py --fuzz ID PROP SECONDS        (coverage-guided campaign over one sub-property)

Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: the check itself failed.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BH_REPO', '/repo')
BUILD = os.environ.get('BH_BUILD', os.path.join(VERIF, 'build'))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.environ.get('BH_EVIDENCE', os.path.join(VERIF, 'evidence'))

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

CLEAN_ENV = {
    'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
    'LC_ALL': 'C.UTF-8',
    'HOME': '/tmp',
    'TZ': 'EST5EDT,M3.2.0,M11.1.0',
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:handle_abort=0:allocator_may_return_null=1',
    'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=1:exitcode=78',
    'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:suppressions=' + os.path.join(VERIF, 'harness', 'tsan.supp'),
}

COMMON = ('-std=c++14 -include cstdint -pthread -fno-omit-frame-pointer -DBOOST_ALLOW_DEPRECATED_HEADERS '
          '-w -I{t}/include -I{t} -I{h}')
FLAVORS = {
    'asan': ('g++', '-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,alignment -fno-sanitize-recover=undefined'),
    'tsan': ('g++', '-O1 -g1 -fsanitize=thread'),
    'plain': ('g++', '-O1 -g1'),
    'fuzz': ('clang++', '-O1 -gline-tables-only -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize=vptr,alignment,function -fno-sanitize-recover=undefined -DPBT_FUZZ'),
}
LIBS = '-lboost_thread -lboost_system -lpthread -ldl'


def sync(source, target, patterns):
    """Mirrors files into target, touching only what differs in content, so that the build depends on
    content and never on the time stamps of a restored or copied tree."""
    want = {}
    for pattern in patterns:
        for path in glob.glob(os.path.join(source, pattern), recursive=True):
            if os.path.isfile(path):
                want[os.path.relpath(path, source)] = path
    for base, _, names in os.walk(target):
        for name in names:
            path = os.path.join(base, name)
            if os.path.relpath(path, target) not in want:
                os.unlink(path)
    for rel, path in want.items():
        dest = os.path.join(target, rel)
        with open(path, 'rb') as f:
            data = f.read()
        if os.path.exists(dest):
            with open(dest, 'rb') as f:
                if f.read() == data:
                    continue
        os.makedirs(os.path.dirname(dest), exist_ok=True)
        with open(dest, 'wb') as f:
            f.write(data)
    return sorted(want)


def build(binaries):
    """binaries: list of (flavor, name, [harness sources])."""
    binaries = list({(f, n): (f, n, s) for f, n, s in binaries}.values())
    os.makedirs(BUILD, exist_ok=True)
    tree = os.path.join(BUILD, 'tree')
    files = sync(REPO, tree, ['include/**/*', 'src/**/*'])
    harness = os.path.join(BUILD, 'harness')
    sync(os.path.join(VERIF, 'harness'), harness, ['**/*'])
    sources = [f for f in files if f.startswith('src/') and f.endswith(('.cpp', '.cc', '.cxx'))]
    out = []
    out.append('builddir = %s' % BUILD)
    flavors = sorted({f for f, _, _ in binaries})
    for flavor in flavors:
        cxx, flags = FLAVORS[flavor]
        flags = flags + ' ' + COMMON.format(t=tree, h=harness)
        out.append('rule cxx_%s' % flavor)
        out.append('  command = %s %s $extra -MMD -MF $out.d -c $in -o $out' % (cxx, flags))
        out.append('  depfile = $out.d')
        out.append('  deps = gcc')
        out.append('rule link_%s' % flavor)
        link = flags.replace('fuzzer-no-link', 'fuzzer')
        out.append('  command = rm -f $out && %s %s $in -o $out %s' % (cxx, link, LIBS))
        out.append('rule ar_%s' % flavor)
        out.append('  command = rm -f $out && ar crs $out $in')
        objs = []
        # The slowest file first.
        for s in sorted(sources, key=lambda s: ('grammar' not in s, 'json' not in s and 'socket' not in s, s)):
            o = '%s/%s/%s.o' % (BUILD, flavor, s)
            out.append('build %s: cxx_%s %s/%s' % (o, flavor, tree, s))
            objs.append(o)
        lib = '%s/%s/libbh.a' % (BUILD, flavor)
        out.append('build %s: ar_%s %s' % (lib, flavor, ' '.join(objs)))
        engine = '%s/%s/pbt.o' % (BUILD, flavor)
        out.append('build %s: cxx_%s %s/pbt.cpp' % (engine, flavor, harness))
        seen = set()
        for f, name, srcs in binaries:
            if f != flavor:
                continue
            hobjs = []
            for s in srcs:
                o = '%s/%s/h/%s.o' % (BUILD, flavor, s)
                if o not in seen:
                    out.append('build %s: cxx_%s %s/%s' % (o, flavor, harness, s))
                    seen.add(o)
                hobjs.append(o)
            out.append('build %s/%s/%s: link_%s %s %s %s' % (BUILD, flavor, name, flavor, ' '.join(hobjs), engine, lib))
    path = os.path.join(BUILD, 'build-%s.ninja' % hashlib.sha1('\n'.join(out).encode()).hexdigest()[:12])
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')
    env = dict(CLEAN_ENV)
    rc = subprocess.run(['ninja', '-f', path, '-j8', '-k', '0'] + ['%s/%s/%s' % (BUILD, f, n) for f, n, _ in binaries],
                        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if rc.returncode != 0:
        text = rc.stdout.decode('utf-8', 'replace')
        lines = [l for l in text.splitlines() if 'error' in l or 'FAILED' in l or 'undefined reference' in l]
        print('\n'.join(l[:400] for l in lines[:40]))
        print('check error: the build failed')
        sys.exit(2)


def known(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['sub_property']: e for e in data.get('findings', []) if e['property'] == pid}


def main(argv):
    if argv and argv[0] == '--build-all':
        build([(f, n, s) for c in CHECKS.values() for f, n, s in c['binaries']])
        return 0
    if argv and argv[0] == '--fuzz':
        return fuzz(argv[1], argv[2], int(argv[3]))
    pid = argv[0]
    opts = dict(zip(argv[1::2], argv[2::2]))
    tier = opts.get('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opts.get('--seed', os.environ.get('VERIF_SEED', '1')) or 1)
    check = CHECKS[pid]
    started = time.time()
    build(check['binaries'])
    built = time.time()
    print('built in %.1f s' % (built - started), flush=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    replays = os.path.join(REPLAYS, pid)
    os.makedirs(replays, exist_ok=True)
    findings = known(pid)

    props = []
    violations = []
    error = None
    for flavor, name, _ in check['binaries']:
        scratch = tempfile.mkdtemp(prefix='bh-%s-' % pid)
        os.chmod(scratch, 0o755)
        try:
            report = os.path.join(scratch, 'report.json')
            cmd = ['%s/%s/%s' % (BUILD, flavor, name), '--scratch', scratch, '--out', report, '--replays', replays,
                   '--seed', str(seed), '--tier', tier]
            for key in ('--prop', '--scale', '--replay'):
                if key in opts:
                    cmd += [key, opts[key]]
            if '--prop' not in opts:
                for prop in check.get('props', []):
                    cmd += ['--prop', prop]
            rc = subprocess.run(cmd, env=CLEAN_ENV, cwd=scratch, stdout=subprocess.PIPE)
            text = rc.stdout.decode('utf-8', 'replace')
            sys.stdout.write(text)
            if '--replay' in opts:
                if rc.returncode == 1:
                    print('VIOLATION property=%s replay=%s' % (pid, opts['--replay']))
                if rc.returncode != 2:
                    return rc.returncode
                continue
            if rc.returncode not in (0, 1):
                error = '%s ended with %d' % (name, rc.returncode)
                continue
            with open(report) as f:
                for p in json.load(f)['props']:
                    p['binary'] = flavor
                    props.append(p)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    if '--replay' in opts:
        print('check error: nothing replayed')
        return 2

    for p in props:
        if p['verdict'] != 'violated':
            continue
        if p['name'] in findings:
            print('KNOWN-FINDING: property=%s %s' % (pid, findings[p['name']]['what']))
            p['verdict'] = 'known-finding'
        else:
            violations.append(p)

    coverage = {
        'evaluations': sum(p['evaluations'] for p in props),
        'distinct_nontrivial': sum(p['distinct_nontrivial'] for p in props),
        'rule': ' || '.join('%s: %s' % (p['name'], p['rule']) for p in props),
        'samples': [s for p in props for s in p['samples'][:2]],
        'discarded': sum(p['discarded'] for p in props),
        'sub_properties': [{k: p[k] for k in ('name', 'binary', 'verdict', 'what', 'evaluations', 'discarded', 'nontrivial',
                                              'distinct_nontrivial', 'labels', 'wall_s')} for p in props],
        'build_s': round(built - started, 1),
    }
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
        'assumptions': check.get('assumptions', []), 'wall_s': round(time.time() - started, 1), 'violations': len(violations),
    }
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for p in violations:
        print('VIOLATION property=%s replay=%s' % (pid, p['replay']))
        print('  sub-property %s: %s' % (p['name'], p['what'][:1500]))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (
        pid, tier, seed, coverage['evaluations'], coverage['distinct_nontrivial'], len(violations), evidence['wall_s']))
    if violations:
        return 1
    if error:
        print('check error: ' + error)
        return 2
    return 0


def fuzz(pid, prop, seconds):
    binaries = [('fuzz', n, s) for _, n, s in CHECKS[pid]['binaries']]
    build(binaries[:1])
    name = binaries[0][1]
    work = tempfile.mkdtemp(prefix='bh-fuzz-')
    replays = os.path.join(REPLAYS, pid)
    os.makedirs(replays, exist_ok=True)
    replay = os.path.join(replays, 'fuzz-%s.txt' % prop)
    if os.path.exists(replay):
        os.unlink(replay)
    try:
        corpus = os.path.join(work, 'corpus')
        os.makedirs(corpus)
        env = dict(CLEAN_ENV, PBT_FUZZ_PROP=prop, PBT_REPLAY=replay, PBT_SCRATCH=work)
        rc = subprocess.run(['%s/fuzz/%s' % (BUILD, name), corpus, '-seed=%s' % os.environ.get('VERIF_SEED', '1'),
                             '-max_total_time=%d' % seconds, '-max_len=1500', '-print_final_stats=1', '-rss_limit_mb=4096',
                             '-artifact_prefix=%s/' % work, '-verbosity=1', '-timeout=60'],
                            env=env, cwd=work, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        text = rc.stderr.decode('utf-8', 'replace')
        print('\n'.join(text.splitlines()[-25:]))
        return 0 if rc.returncode == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
