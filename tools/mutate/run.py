#!/usr/bin/env python3
"""Mutation measurement of the checks (not a check). run.py tests MUTS OUT | run.py checks SURVIVORS OUT
tests: which mutants compile and survive the repository's tests; checks: which of those the quick checks report."""
import json, os, subprocess, sys, threading, queue, shutil, signal

FILES = {
 'not.go': 'C10 C08 C11 C23 C15', 'merge.go': 'C08 C09 C11 C10 C12 C23', 'object.go': 'C04 C13 C14 C23 C16 C22', 'array.go': 'C05 C14 C13 C23 C16 C22',
 'number.go': 'C01 C23 C16 C22', 'string.go': 'C02 C03 C22 C23 C16', 'if.go': 'C11 C14 C23 C16', 'combination.go': 'C09 C14 C23 C16 C13 C17', 'constraint.go': 'C10 C14 C16 C03 C23',
 'parse.go': 'C07 C22 C13 C15 C12 C21 C16 C08', 'reference.go': 'C13 C22 C12', 'reference_hander.go': 'C12 C13 C21 C17 C18', 'reference_path.go': 'C12 C15 C21',
 'document.go': 'C21 C19 C20 C12 C15', 'fetchers.go': 'C19 C20 C21', 'json.go': 'C15 C06 C12 C08', 'enum.go': 'C06 C23 C08', 'const.go': 'C06 C08', 'multiple_type.go': 'C07 C23 C08',
 'all_of.go': 'C08 C12', 'assert.go': 'C15 C08', 'boolean.go': 'C07', 'null.go': 'C07', 'generator.go': 'C22 C13 C14 C16 C17', 'root.go': 'C17 C16 C13', 'schema.go': 'C15 C11 C10', 'walk.go': 'C12 C21',
 'regex.go': 'C02 C22', 'error.go': 'C15', 'util.go': 'C01 C22 C08 C06 C05 C10', 'formats.go': 'C25 C10', 'char_class.go': 'C02', 'internal_generator.go': 'C02 C22', 'regen.go': 'C02 C22', 'rng.go': 'C02 C18', 'main.go': 'C24', 'cli.go': 'C24', 'random.go': 'C17 C22',
}
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOWORK='off', PATH='/opt/veriftools/go1.25.14/bin:' + os.environ['PATH'])

def sh(cmd, cwd, env=ENV, timeout=900):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
    finally:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass

def apply(repo, m):
    path = os.path.join(repo, m['file'])
    src = open(path, 'rb').read()
    open(path, 'wb').write(src[:m['off']] + m['new'].encode() + src[m['end']:])
    return path, src

def tests(w, repo, m):
    path, src = apply(repo, m)
    try:
        rc, _ = sh('go build ./...', repo, timeout=120)
        if rc: return dict(m, r='nobuild')
        rc, _ = sh("go test -vet=off -failfast -count=1 -timeout 60s -skip '^(TestComplex|TestReferenceSelfReferencing)$' ./...", repo, timeout=150)
        return dict(m, r='killed' if rc else 'survived')
    finally:
        open(path, 'wb').write(src)

def checks(w, repo, m):
    path, src = apply(repo, m)
    V = os.path.dirname(repo) + '/verif'
    env = dict(ENV, VERIF_REPO=repo, VERIF_DIR=V, VERIF_FAILFAST='1', VERIF_PROCS=PROCS, VERIF_BUDGET_S='400')
    try:
        rc, out = sh('bash tools/build.sh .build/h', V, env)
        if rc: return dict(m, r='nobuild', out=out[-300:])
        for c in (m.get('checks') or FILES.get(os.path.basename(m['file']), 'C15 C16')).split()[:int(os.environ.get('DEPTH', '9'))]:
            rc, out = sh('.build/h check %s quick' % c, V, env)
            if rc == 1 and 'VIOLATION' in out:
                return dict(m, r='caught', by=c)
            if rc not in (0, 1):
                return dict(m, r='odd', by=c, out=out[-300:])
        return dict(m, r='missed')
    finally:
        open(path, 'wb').write(src)

def main():
    global PROCS
    mode, inp, outp = sys.argv[1:4]
    n = int(sys.argv[4]) if len(sys.argv) > 4 else 8
    PROCS = os.environ.get('PROCS', '3')
    done = set()
    key = lambda m: (m['file'], m['off'], m['end'], m['new'])
    if os.path.exists(outp):
        done = {key(json.loads(l)) for l in open(outp)}
    q = queue.Queue()
    for l in open(inp):
        m = json.loads(l)
        if m['op'] and key(m) not in done and (mode == 'tests' or m['r'] == 'survived'):
            q.put(m)
    print(q.qsize(), 'to do', flush=True)
    lock = threading.Lock()
    out = open(outp, 'a')
    def work(w):
        d = '/tmp/mut/%s%s%d' % (os.path.basename(outp)[0], mode[0], w)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run('git -C /repo archive HEAD --prefix=repo/ | tar x -C %s' % d, shell=True, check=True)
        if mode == 'checks':
            subprocess.run('cp -a /verif %s/verif && rm -rf %s/verif/.git %s/verif/seeded %s/verif/replays' % (d, d, d, d), shell=True, check=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            try: r = (tests if mode == 'tests' else checks)(w, d + '/repo', m)
            except Exception as e: r = dict(m, r='error', out=str(e))
            with lock:
                out.write(json.dumps(r) + '\n'); out.flush()
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
