"""Runs the checks of one property: python3-vt check.py ID [--tier quick|thorough] [--only ENTRY] [--shard N] [-v]"""
import argparse
import fcntl
import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import signal
import os
import re
import subprocess
import sys
import time
import traceback
ENG = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(ENG)
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, ENG)
import props as registry

def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

class BuildError(Exception): pass
def build_ir(feat):
    """IR of harness and code under test -> path of a private copy"""
    l = lock('ir.lock')
    try:
        env = dict(os.environ)
        tgt = os.path.join(BUILD, 't' + ('_' + feat if feat else ''))
        env['VF_TARGET'] = tgt
        env['VF_FEATURES'] = '--features ' + feat if feat else ''
        ll = os.path.join(tgt, 'release', 'deps', 'h.ll')
        if os.path.exists(ll): os.unlink(ll)
        # cargo only looks at time stamps: make sure the harness is recompiled when the IR is gone
        p = subprocess.run([os.path.join(ENG, 'irbuild.sh')], env=env, capture_output=True, text=True)
        if not os.path.exists(ll):
            os.utime(os.path.join(VERIF, 'ws', 'h', 'src', 'lib.rs'))
            p = subprocess.run([os.path.join(ENG, 'irbuild.sh')], env=env, capture_output=True, text=True)
        if not os.path.exists(ll): raise BuildError(p.stdout[-3000:] + p.stderr[-3000:])
        out = os.path.join(BUILD, 'h_%d%s.ll' % (os.getpid(), feat))
        os.replace(ll, out)
        return out
    finally: l.close()

def native(feat):
    """the replay program, built from the same sources"""
    l = lock('native.lock')
    try:
        stamp = os.path.join(BUILD, 'native_%d%s' % (os.getppid() if mp.current_process().name != 'MainProcess' else os.getpid(), feat))
        tgt = os.path.join(BUILD, 'n' + ('_' + feat if feat else ''))
        exe = os.path.join(tgt, 'native', 'replay')
        if not os.path.exists(stamp):
            env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=tgt)
            p = subprocess.run(['cargo', 'build', '-p', 'replay', '--profile', 'native', '--offline'] + (['--features', feat] if feat else []), cwd=os.path.join(VERIF, 'ws'), env=env, capture_output=True, text=True)
            if p.returncode: raise BuildError(p.stderr[-3000:])
            open(stamp, 'w').close()
        return exe
    finally: l.close()

def replay(feat, entry, shard, script, threaded):
    exe = native(feat)
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    h = hashlib.sha1(('%s %s %s' % (entry, shard, script)).encode()).hexdigest()[:12]
    f = os.path.join(BUILD, 'replay', '%s-%s.txt' % (entry, h))
    open(f, 'w').write(script)
    msg = ''
    for extra in ([[], ['400']] if threaded else [[]]):
        try: p = subprocess.run([exe, entry, str(shard), f] + extra, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired: return True, f
        msg = p.stdout[-300:] + p.stderr[-300:]
        if os.environ.get('VF_V'): print('REPLAY', entry, shard, p.returncode, msg[:400], script.replace('\n', ' ; ')[:400], file=sys.stderr)
        if p.returncode in (10, 101, 134, -6, -11): return True, f
    os.unlink(f)
    return False, msg

MOD = {}
def init_worker(paths):
    import llir
    for k, p in paths.items():
        if k not in MOD: MOD[k] = llir.Module(p)
def work(task):
    import symex
    feat, entry, shard, opts, hard = task
    t = time.time()
    try:
        opts = dict(opts)
        opts['replay'] = lambda e, s, sc, th: replay(feat, e, s, sc, th)
        e = symex.Executor(MOD[feat], opts)
        complete = e.run(entry, shard)
        return dict(feat=feat, entry=entry, shard=shard, complete=complete, stats=vars(e.st), checked=e.checked, reached=e.reached, violations=e.violations,
                    unknowns=[[str(x) for x in u] for u in e.unknowns], errors=e.errors, executed=sorted(e.executed), wall=time.time() - t)
    except Exception as ex:
        return dict(feat=feat, entry=entry, shard=shard, complete=False, stats={}, checked={}, reached={}, violations=[], unknowns=[],
                    errors=['engine: ' + repr(ex) + traceback.format_exc()[-1500:]], executed=[], wall=time.time() - t)

def child(task, conn):
    os.setpgid(0, 0)
    conn.send(work(task)); conn.close()
    os._exit(0)
def run_all(tasks, j, deadline):
    """results of the tasks as they come, at most j processes at a time; everything is ended when the caller stops, or at the deadline"""
    todo = list(tasks); live = {}
    def end(c):
        p = live.pop(c)[0]
        for k in (lambda: os.killpg(p.pid, signal.SIGKILL), p.kill):
            try: k()
            except (ProcessLookupError, PermissionError): pass
        p.join(5); c.close()
    def lost(t, why): return dict(feat=t[0], entry=t[1], shard=t[2], complete=False, stats={}, checked={}, reached={}, violations=[], unknowns=[], errors=[why] if why else [], executed=[], wall=0.)
    try:
        while todo or live:
            while todo and len(live) < j:
                t = todo.pop(0)
                rx, tx = mp.Pipe(False)
                p = mp.Process(target=child, args=(t, tx)); p.start(); tx.close()
                live[rx] = (p, t)
            ready = mp.connection.wait(list(live), timeout=max(0.1, deadline - time.time()))
            for c in ready:
                t = live[c][1]
                try: r = c.recv()
                except (EOFError, OSError): r = lost(t, 'engine: the process of this shard ended early')
                end(c); yield r
            if not ready and time.time() >= deadline:
                left = [x[1] for x in live.values()] + todo
                for t in left: yield lost(t, '')
                return
    finally:
        for c in list(live): end(c)
def show(r):
    s = r['stats']
    print('%-28s %-6s %6.1fs paths %s checks %s trivial %s unsat %s queries %s qtime %.1f max %.1f abs %s trunc %s viol %d unk %d err %d %s' % (r['entry'], r['shard'], r['wall'], s.get('paths'), s.get('checks'), s.get('trivial'), s.get('unsat'), s.get('queries'), s.get('time', 0), s.get('maxq', 0), s.get('abstracted'), s.get('trunc'), len(r['violations']), len(r['unknowns']), len(r['errors']), '' if r['complete'] else 'INCOMPLETE'))
    for u in r['unknowns'][:4]: print('   unknown', [x[:300] for x in u])
    for u in r['errors'][:3]: print('   error', u)
    for u in r['violations'][:3]: print('   violation', u['what'], u['script'].replace('\n', ';')[:300], u['msg'])
    sys.stdout.flush()

def demangle(names):
    """short readable names of the executed functions of the crate under test"""
    out = set()
    for n in names:
        if 'solstrale' not in n: continue
        parts = re.findall(r'(\d+)', n)
        ids = []
        i = n.find('9solstrale')
        s = n[i:]
        while True:
            m = re.match(r'(?:s[0-9a-zA-Z]*_)?(\d+)_?', s)
            if not m: break
            k = int(m.group(1)); ident = s[m.end():m.end() + k]
            ids.append(ident); s = s[m.end() + k:]
        # the last identifier of the whole symbol is usually the function
        m = re.findall(r'(\d+)([a-z_][a-z0-9_]*)', n)
        last = [x[1][:int(x[0])] for x in m if len(x[1]) >= int(x[0])]
        nm = '::'.join(ids)
        if last and (not ids or last[-1] != ids[-1]): nm += ' .. ' + last[-1]
        out.add(nm)
    return sorted(out)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--shard', type=int); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    P = registry.PROPS[a.prop]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    tasks = []
    for T in P['tasks']:
        if tier == 'quick' and T.get('tier') == 'thorough': continue
        if tier == 'thorough' and T.get('tier') == 'quickonly': continue
        if a.only and T['entry'] != a.only: continue
        o = dict(T.get('opts', {}))
        if tier == 'thorough': o.update(T.get('deep', {}))
        for s in (T['deep_shards'] if tier == 'thorough' and 'deep_shards' in T else T.get('shards', [0])):
            if a.shard is not None and s != a.shard: continue
            tasks.append((T.get('feat', ''), T['entry'], s, o, T.get('hard', 0)))
    tasks.sort(key=lambda t: -t[4])
    feats = sorted({t[0] for t in tasks})
    try:
        paths = {f: build_ir(f) for f in feats}
    except BuildError as e:
        print('BUILD FAILED\n' + str(e)); sys.exit(2)
    tb = time.time() - t0
    results = []
    try:
        init_worker(paths)
        for p in paths.values(): os.unlink(p)
        for r in run_all(tasks, a.j, t0 + (800 if tier == 'quick' else 36000)):
            results.append(r)
            if a.v: show(r)
            if r['violations'] and not known_only(a.prop, r['violations']): break
        # shards with undecided obligations are run once more, two at a time and with more time for the solvers
        again = [r for r in results if (r['unknowns'] or not (r['complete'] or r['errors'])) and not r['violations']]
        if again and time.time() - t0 < 420 and not any(r['violations'] and not known_only(a.prop, r['violations']) for r in results):
            byk = {(t[0], t[1], t[2]): t for t in tasks}
            redo = []
            for r in again:
                t = byk[(r['feat'], r['entry'], r['shard'])]
                o = dict(t[3]); o.update(check_ms=12000, portfolio_s=120, time_limit=300)
                redo.append((t[0], t[1], t[2], o, 0))
            for r in run_all(redo, min(2, a.j), t0 + 780):
                old = [x for x in results if (x['feat'], x['entry'], x['shard']) == (r['feat'], r['entry'], r['shard'])][0]
                if r['violations'] or (not r['errors'] and len(r['unknowns']) <= len(old['unknowns']) and r['complete'] >= old['complete']):
                    results[results.index(old)] = r
                if a.v: print('again', r['entry'], r['shard'], 'unknown', len(r['unknowns']), 'viol', len(r['violations']), '%.1fs' % r['wall'])
    finally:
        for f in feats:
            p = os.path.join(BUILD, 'native_%d%s' % (os.getpid(), f))
            if os.path.exists(p): os.unlink(p)
    sys.exit(finish(a, P, tier, tasks, results, t0, tb))

def known():
    f = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m: out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out
def vkey(v): return '%s/%s/%s' % (v['entry'], v['shard'], v['id'])
def known_only(prop, vs):
    ks = {k for p, k, _ in known() if p == prop}
    return all(vkey(v) in ks for v in vs)

def finish(a, P, tier, tasks, results, t0, tb):
    ks = {k: d for p, k, d in known() if p == a.prop}
    viol = [v for r in results for v in r['violations']]
    new = [v for v in viol if vkey(v) not in ks]
    hit = sorted({vkey(v) for v in viol if vkey(v) in ks})
    problems, open_, unfinished = [], [], []
    for r in results:
        who = '%s[%s]' % (r['entry'], r['shard'])
        for e in r['errors'][:3]: problems.append('%s: %s' % (who, e))
        for u in r['unknowns'][:3]: open_.append('%s: undecided %s' % (who, ' '.join(x[:200] for x in u[:2])))
        if not r['complete'] and not r['violations'] and not r['errors']: unfinished.append('%s: exploration not completed within its limits' % who)
    # the same holds for the explorations of a few shards that did not end
    if len(unfinished) * 8 > len(results): problems += unfinished
    else: open_ += unfinished
    # every assertion must be reached by a feasible path
    want = {}
    for T in P['tasks']:
        if (tier == 'quick' and T.get('tier') == 'thorough') or (a.only and T['entry'] != a.only): continue
        want.setdefault(T['entry'], set()).update(T.get('ids', ()))
    if a.shard is None and not new:
        for en, ids in want.items():
            got = {int(i) for r in results if r['entry'] == en for i, c in r['checked'].items() if c[1]}
            miss = ids - got
            if miss: problems.append('%s: assertions %s not reached' % (en, sorted(miss)))
    st = {}
    for r in results:
        for k, v in r['stats'].items(): st[k] = max(st.get(k, 0), v) if k == 'maxq' else st.get(k, 0) + v
    # "held on everything explored": a few obligations no solver decided are reported and left out of the claim; many are no answer
    nunk = sum(len(r['unknowns']) for r in results)
    if nunk > 0.03 * st.get('checks', 0): problems += open_[:3]
    fns = sorted(demangle({f for r in results for f in r['executed']}))
    wall = time.time() - t0
    ev = dict(property=a.prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other', wall_s=round(wall, 2),
              coverage=dict(explanation=P['explain'],
                            technique='symbolic execution of LLVM IR compiled from /repo on this run; obligations decided by exact rational-function normal forms and SMT (z3; z3-new, cvc5 on hard queries)',
                            functions_encoded=fns, harnesses=sorted({'%s[%s]' % (t[1], t[2]) for t in tasks}),
                            bounds=P['bounds'], outside_bounds=P.get('outside', ''),
                            paths=st.get('paths', 0), infeasible_paths=st.get('infeasible', 0), paths_cut_at_random_draw_bound=st.get('trunc', 0),
                            obligations=st.get('checks', 0), discharged_by_normal_form=st.get('trivial', 0), discharged_by_solver=st.get('unsat', 0),
                            undecided=nunk, undecided_obligations=open_[:20], solver_queries=st.get('queries', 0), feasibility_queries=st.get('feas', 0),
                            generalised_queries=st.get('abstracted', 0), portfolio_queries=st.get('portfolio', 0), solver_time_s=round(st.get('time', 0), 2), longest_query_s=round(st.get('maxq', 0), 2),
                            ir_instructions_executed=st.get('steps', 0), build_s=round(tb, 2)),
              assumptions=registry.ASSUME + P.get('assume', []), violations=[])
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    for v in new:
        ev['violations'].append(dict(description='%s in %s[%s]' % (v['what'], v['entry'], v['shard']), replay=v['msg']))
    for k in hit: print('KNOWN-FINDING: property=%s %s (%s)' % (a.prop, ks[k], k))
    for v in new: print('%s fails in harness %s shard %s with inputs: %s' % (v['what'], v['entry'], v['shard'], v['script'].replace('\n', '; ')[:600]))
    for p in problems[:20] + open_[:20]: print('UNDECIDED ' + p)
    rc = 0
    if new:
        for v in new[:3]: print('VIOLATION property=%s replay=%s' % (a.prop, v['msg']))
        rc = 1
    elif problems: rc = 2
    json.dump(ev, open(os.path.join(d, a.prop + '.json'), 'w'), indent=1)
    print('%s %s: %d paths, %d obligations (%d normal form, %d solver), %d queries %.1fs solver, %.1fs wall, exit %d' % (a.prop, tier, st.get('paths', 0), st.get('checks', 0), st.get('trivial', 0), st.get('unsat', 0), st.get('queries', 0), st.get('time', 0), wall, rc))
    return rc
if __name__ == '__main__': main()
