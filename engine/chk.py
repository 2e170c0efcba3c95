"""Parts of a check: obligations, counterexamples, replay, budgets, evidence."""
import os
import sys
import time
import json
import fcntl
import signal
import traceback
import multiprocessing
import terms as tm
from terms import T, not_
import interp as I
import smt as SMT
import inv
import build
import drv
import stream as S

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import replay as RP


class Timeout(Exception):
    pass


class Stop(Exception):
    """a violation was confirmed: nothing more to do"""


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- counterexample scripts

def conc(x, env, names):
    """evaluate a description under a model"""
    if type(x) is T:
        return env.val(x)
    if type(x) is I.Ptr:
        return {'at': names[x.obj], 'off': conc(x.off, env, names)}
    if type(x) is dict:
        return {k: conc(v, env, names) for k, v in x.items()}
    if type(x) in (list, tuple):
        return [conc(v, env, names) for v in x]
    if type(x) is bool:
        return 1 if x else 0
    return x


class Trace(object):
    """concrete calls to make, with symbolic arguments"""

    def __init__(self, sc, steps=(), expect=(), lens=None):
        self.sc = sc
        self.steps = list(steps)
        self.expect = list(expect)
        self.lens = dict(lens or {})
        self.extra = {}

    def copy(self):
        t = Trace(self.sc, self.steps, self.expect, self.lens)
        t.extra = dict(self.extra)
        return t

    def call(self, fn, *args):
        self.steps.append((fn, args))
        return len(self.steps) - 1

    def want(self, **kw):
        self.expect.append(kw)
        return self

    def script(self, env, fixed, prop, what, std=True):
        sc = self.sc
        names = {oid: d['name'] for oid, d in sc.objs.items()}
        arrays = {}
        objs = {}
        for oid, d in sc.objs.items():
            if 'arr' in d:
                n = self.lens.get(d['arr'], sc.arrays[d['arr']])
                if d['name'] in arrays and d['arr'] not in self.lens:
                    continue
                a = dict(len=conc(n, env, names), align=env.vars.get('addr:' + d['arr'], 0), bytes={})
                arrays[d['name']] = a
                if fixed:
                    for (arr, i), v in env.sels.items():
                        if arr == d['arr'] and i < a['len']:
                            a['bytes'][str(i)] = v
            else:
                o = dict(size=d['size'], align=d['align'])
                if 'values' in d:
                    o['words'] = conc(d['values'], env, names)
                    o['w'] = d['w']
                objs[d['name']] = o
        steps = []
        for fn, args in self.steps:
            if fn[0] == '!':
                steps.append(dict(fn=fn, **conc(args, env, names)))
                continue
            f = sc.prog.find('@' + fn)
            rt = f.ret
            st = dict(fn=fn, args=[conc(a, env, names) for a in args])
            if rt and rt[0] == 'i':
                st['w'] = rt[1]
            steps.append(st)
        cpu = {k[4:]: v for k, v in env.vars.items() if k.startswith('cpu:') and '@h_feat_' + k[4:].replace('.', '_') in sc.prog_names()}
        # what a weaker CPU lacks, the stronger features lack too
        for f in list(cpu):
            if not cpu[f]:
                for g, fs in I.IMPLIED_BY.items():
                    if g == f:
                        for x in fs:
                            if '@h_feat_' + x.replace('.', '_') in sc.prog_names():
                                cpu[x] = 0
        return dict(property=prop, what=what, std=std, arrays=arrays, objs=objs, steps=steps, expect=conc(self.expect, env, names), cpu=cpu, **self.extra)


def msgbytes(arr, off, n):
    return [[arr, off, n]]


# ---------------------------------------------------------------- parts

class Part(object):
    """one independent piece of a check, run in a process of its own"""

    def __init__(self, prop, name, prog, shared, seed=1, tier='quick'):
        self.prop = prop
        self.name = name
        self.prog = prog
        self.shared = shared
        self.tier = tier
        self.seed = seed
        self.obl = []          # (name, seconds)
        self.und = []          # (name, why)
        self.bounds = []
        self.notes = []
        self.vio = []
        self.tried = []        # counterexamples that did not reproduce
        self.scs = []
        self.samples = []
        self.traces = 0
        self.t0 = time.time()
        self.ncex = 0
        self.nproved = 0
        self.only = None       # 'panics' or 'features': what digests, counts and texts are is not judged; 'configs': only differences between configurations count
        self.seenf = set()

    def log(self, s):
        if os.environ.get('B2_LOG'):
            print('   [%s %.1f] %s' % (self.name, time.time() - self.t0, s), flush=True)

    def scenario(self, name='', **kw):
        if self.only == 'features':
            kw['checks'] = True
        sc = drv.Scenario(self.prog, name or self.name, log=(lambda s: self.log(s)) if os.environ.get('B2_LOG') == '2' else None, **kw)
        self.scs.append(sc)
        return sc

    def ok(self, name):
        self.obl.append((name, round(time.time() - self.t0, 2)))
        self.log('ok ' + name)

    def undecided(self, name, why):
        self.und.append((name, str(why)[:300]))
        self.log('undecided %s: %s' % (name, why))

    # ------------------------------------------------------------ counterexamples
    def confirm(self, what, scripts):
        """replay candidate scripts; a confirmed one ends the part"""
        for sc in scripts:
            self.ncex += 1
            if self.ncex > 40:
                return False
            path = os.path.join(self.shared, '%s-%s-%d.json' % (self.prop, ''.join(c if c.isalnum() else '_' for c in self.name), self.ncex))
            sc['property'] = self.prop
            sc['what'] = what
            with open(path, 'w') as f:
                json.dump(sc, f, indent=1)
            t = time.time()
            with build_lock(self.shared):
                get_libs(self.shared, sc.get('std', True))
                if sc.get('compare'):
                    get_libs(self.shared, not sc.get('std', True))
            try:
                if sc.get('tool') == 'trace':
                    import ctrace
                    r = ctrace.replay(sc)
                else:
                    r = RP.replay(path)
            except Exception as x:
                self.log('replay error ' + repr(x)[:400])
                self.tried.append((what, 'replay error: ' + repr(x)[:200]))
                continue
            self.log('replayed %s in %.1fs: %s' % (what, time.time() - t, r))
            if r:
                self.vio.append((what, r, path))
                raise Stop()
        self.tried.append((what, 'did not reproduce'))
        return False

    def agrees(self, sc):
        """does this script run as expected?"""
        path = os.path.join(self.shared, '%s-%s-agrees.json' % (self.prop, ''.join(c if c.isalnum() else '_' for c in self.name)))
        with open(path, 'w') as f:
            json.dump(sc, f)
        with build_lock(self.shared):
            get_libs(self.shared, sc.get('std', True))
        return RP.replay(path) is None

    def cex(self, what, traces, sc, st, conds, std=None):
        """find small models of conds in state st and replay the traces under them"""
        if std is None:
            std = getattr(self, 'std', True)
        if self.only:
            traces = [t.copy() for t in traces]
            for t in traces:
                if self.only == 'configs':
                    t.extra = dict(compare=1)
                    t.expect = [dict(kind='show', hash=x['hash']) for x in t.expect if x['kind'] == 'digest']
                else:
                    t.expect = [x for x in t.expect if x['kind'] == 'panic']
        if self.only == 'features' and not any(t.extra.get('trap') for t in traces):
            return False
        envs = []
        pc = list(st.pc) + [c for c in conds]
        for m in (sc.min, ()):
            r, env = sc.e.smt.check(pc, True, minimize=m)
            if r == 'sat':
                envs.append(env)
                break
        scripts = []
        for env in envs:
            for tr in traces:
                for fixed in (False, True):
                    scripts.append(tr.script(env, fixed, self.prop, what, std))
        self.log('counterexample %s: %d scripts %s' % (what, len(scripts), envs and {k: v for k, v in envs[0].vars.items()}))
        if not scripts:
            return False
        return self.confirm(what, scripts)

    def hints(self):
        """the part is not settled: replay inputs on which inductions failed to close"""
        for sc in self.scs:
            traces = getattr(sc, 'hint_traces', None)
            if not traces:
                continue
            hs = sc.e.hints
            order = {}
            for what, pc in reversed(hs):
                order.setdefault(what, []).append(pc)
            sc.e.hints = []
            n = 0
            for what in ('absorb', 'final', 'weak', 'location', 'condition'):
                for pc in order.get(what, [])[:2]:
                    n += 1
                    st = I.State()
                    st.pc = tuple(pc)
                    self.cex('induction: ' + what, traces, sc, st, [])
                    if n >= 5:
                        break

    def panics(self, sc, what, trace, ignore=None):
        """panics and memory faults met so far: confirm them, else leave undecided"""
        if self.only == 'features':
            del sc.e.panics[:]
            return self.features(sc, what, trace)
        ps = sc.e.panics[:]
        del sc.e.panics[:]
        okay = True
        for kind, why, pc, model, stack in ps:
            if ignore and ignore(kind, why, pc):
                continue
            okay = False
            st = I.State()
            st.pc = pc
            self.log('panic %s %s %s' % (kind, why, stack[-3:]))
            self.cex('%s: %s (%s)' % (what, kind, why), trace if type(trace) is list else [trace], sc, st, [])
            self.undecided(what, 'possible %s: %s' % (kind, why))
        return okay

    def features(self, sc, what, trace):
        """functions entered without the features they need: seen again natively, or left undecided"""
        es = sc.e.p15[:]
        del sc.e.p15[:]
        okay = True
        for fn, f, pc, model, stack in es:
            k = (fn, f, what)
            if k in self.seenf:
                okay = False
                continue
            self.seenf.add(k)
            okay = False
            st = I.State()
            st.pc = pc
            ts = [t.copy() for t in (trace if type(trace) is list else [trace])]
            for t in ts:
                t.extra = dict(trap=[fn.lstrip('@').strip('"')])
            conds = [tm.eq(tm.var('cpu:' + g, 1), 0, 1) for g in (f,) + tuple(I.IMPLIED_BY.get(f, ()))]
            self.log('%s entered without %s: %s' % (fn, f, stack[-4:]))
            self.cex('%s: code compiled for %s runs without it' % (what, f), ts, sc, st, conds if self.std else [])
            self.undecided(what, 'code compiled for %s may run without it' % f)
        return okay

    def prove(self, name, sc, st, cond, traces=None, extra=()):
        """prove cond in state st"""
        ok, m = sc.e.prove(st, cond)
        if ok:
            self.ok(name)
            return True
        if ok is None:
            self.undecided(name, 'solver undecided')
            return False
        if traces:
            self.cex(name, traces, sc, st, [not_(sc.e.norm(st, cond))])
        self.undecided(name, 'counterexample did not reproduce')
        return False

    def prove_quiet(self, name, sc, st, cond, traces=None):
        """prove cond or give up the part (after trying to confirm the counterexample)"""
        if self.only in ('panics', 'features'):
            return
        ok, m = sc.e.prove(st, cond)
        if ok:
            self.nproved += 1
            return
        if ok is None:
            raise Undecided('%s: solver undecided' % name)
        if traces:
            self.cex(name, traces, sc, st, [not_(sc.e.norm(st, cond))])
        raise Undecided('%s: counterexample did not reproduce' % name)

    # ------------------------------------------------------------ summary
    def result(self):
        q = dict(queries=0, unsat=0, sat=0, unknown=0, linear=0, cached=0, time=0.0, slowest=0.0, models=0)
        funcs = {}
        inducted = {}
        bounded = {}
        ins = states = 0
        abst = {}
        for sc in self.scs:
            e = sc.e
            s = e.smt
            q['queries'] += s.queries
            q['unsat'] += s.unsat
            q['sat'] += s.sat
            q['unknown'] += s.unknown
            q['linear'] += s.lin
            q['cached'] += s.cachehits
            q['time'] += s.time
            q['slowest'] = max(q['slowest'], s.maxq)
            for k, v in e.funcs_run.items():
                funcs[k] = funcs.get(k, 0) + v
            for k, v in e.inducted.items():
                inducted[k] = inducted.get(k, 0) + v
            for k, v in e.bounded.items():
                bounded[k] = max(bounded.get(k, 0), v if type(v) is int else 1)
            ins += e.instrs
            states += e.blocks
            for k, v in sc.layer.stats.items():
                abst[k] = abst.get(k, 0) + v
        return dict(name=self.name, obl=self.obl, und=self.und, bounds=self.bounds, notes=self.notes, vio=self.vio, tried=self.tried, q=q, funcs=funcs, inducted=inducted, bounded=bounded, ins=ins, states=states, abst=abst, samples=self.samples, traces=self.traces, wall=round(time.time() - self.t0, 2))


class build_lock(object):
    def __init__(self, d):
        self.p = os.path.join(d, 'lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def get_libs(shared, std):
    if std in RP._libs:
        return
    mf = os.path.join(shared, 'libs-%d.json' % std)
    if not os.path.exists(mf):
        out = []
        for rel in (False, True):
            d = os.path.join(shared, 'nat-%d' % std)
            build.cargo(d, release=rel, std=std, ir=False)
            p = os.path.join(d, 'release' if rel else 'debug', 'libharness.so')
            f = p + '.sym.json'
            json.dump(RP.symbols(p), open(f, 'w'))
            out.append((rel, p, f))
        json.dump(out, open(mf, 'w'))
    RP._libs[std] = [tuple(x) for x in json.load(open(mf))]


def child(conn, mk, alts, limit):
    """run the alternatives of a part until one settles it"""
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    sys.setrecursionlimit(20000)
    part = mk()

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    end = time.time() + limit
    for k, f in enumerate(alts):
        part.und = []
        left = end - time.time()
        if left < 3:
            part.undecided(f.__name__, 'no time left')
            break
        n = len(alts) - k
        signal.setitimer(signal.ITIMER_REAL, left if n == 1 else left * 0.6)
        done = False
        t1 = time.time()
        try:
            f(part)
            signal.setitimer(signal.ITIMER_REAL, 0)
            done = not part.und
        except Stop:
            done = True
        except Timeout:
            part.undecided(f.__name__, 'time limit')
        except (I.Incomplete, I.Unsupported, Undecided) as x:
            part.undecided(f.__name__, '%s: %s' % (type(x).__name__, x))
            if os.environ.get('B2_LOG'):
                traceback.print_exc()
        except Exception as x:
            part.undecided(f.__name__, 'engine error %s: %s' % (type(x).__name__, x))
            if os.environ.get('B2_LOG'):
                traceback.print_exc()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if not done:
            try:
                signal.setitimer(signal.ITIMER_REAL, max(5, min(120, end - time.time())))
                part.hints()
            except Stop:
                break
            except Timeout:
                pass
            except Exception as x:
                part.log('hints: %r' % x)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        if done:
            break
        if n > 1:
            part.notes.append('%s did not settle the part (%s)' % (f.__name__, '; '.join('%s: %s' % u for u in part.und)[:600]))
    conn.send(part.result())
    conn.close()


def run_parts(prop, parts, prog, shared, seed, tier, limit, workers=8):
    """parts: [(name, [alternatives], weight, std)] -> results"""
    ctx = multiprocessing.get_context('fork')
    todo = sorted(parts, key=lambda p: -p[2])
    running = []
    results = []
    stop = False
    t0 = time.time()
    while todo or running:
        while todo and len(running) < workers and not stop:
            p = todo.pop(0)
            a, b = ctx.Pipe(False)
            pr = prog(p[3] if len(p) > 3 else 'std')

            def mk(p=p, pr=pr):
                x = Part(prop, p[0], pr, shared, seed, tier)
                x.std = (p[3] if len(p) > 3 else 'std') != 'nostd'
                return x
            lim = max(5, min(limit, limit - (time.time() - t0)))
            c = ctx.Process(target=child, args=(b, mk, p[1], lim))
            c.start()
            b.close()
            running.append((c, a, p, time.time() + lim + 20))
        if not running:
            break
        multiprocessing.connection.wait([r[1] for r in running], timeout=1)
        for r in running[:]:
            c, a, p, dead = r
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = None
                c.join()
                running.remove(r)
                if res is None:
                    res = lost(p, 'process ended')
                results.append(res)
                if res['vio']:
                    stop = True
            elif not c.is_alive() or time.time() > dead:
                c.kill()
                c.join()
                running.remove(r)
                results.append(lost(p, 'time or memory limit'))
        if stop:
            for c, a, p, _ in running:
                try:
                    os.killpg(c.pid, signal.SIGKILL)
                except OSError:
                    c.kill()
                c.join()
            break
    return results


def lost(p, why):
    return dict(name=p[0], obl=[], und=[(p[0], why)], bounds=[], notes=[], vio=[], tried=[], q=dict(queries=0, unsat=0, sat=0, unknown=0, linear=0, cached=0, time=0.0, slowest=0.0, models=0), funcs={}, inducted={}, bounded={}, ins=0, states=0, abst={}, samples=[], traces=0, wall=0)
