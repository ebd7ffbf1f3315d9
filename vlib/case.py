"""Cases: one symbolic execution of a harness entry point plus the obligations on it; and the
scheduler, counterexample replay and evidence around them."""
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
from . import build, prog, polymac, field
from . import terms as T
from .engine import Unsupported, MemError, PathDead
from .equiv import Prover, Stats, Online

VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')


class Undecided(Exception):
    pass


class Violation(Exception):
    def __init__(self, rec):
        self.rec = rec


class Runner:
    """handed to a case function"""
    safety = False

    def __init__(self, name):
        self.name = name
        self.rnd = random.Random('%s/%d' % (name, SEED))
        self.stats = Stats()
        self.funcs = {}
        self.ic = 0
        self.forks = 0
        self.blocks = 0
        self.validated = 0
        self.obligations = 0
        self.notes = []
        self.samples = []
        self.nat = None
        self.timeout = 60.0
        self.extra = {}                 # counters of the field abstraction
        self.effects = {}               # function -> recorded effects

    # ------------------------------------------------------------ tools
    def sym(self, name, n):
        return prog.sym_bytes(name, n)

    def native(self):
        if self.nat is None:
            self.nat = prog.Native('debug')
        return self.nat

    def engine(self, kind='chk'):
        return prog.new_engine(kind)

    def prover(self, assumptions=(), sampler=None, nsim=12, timeout=None):
        p = Prover(assumptions, seed=self.rnd.randrange(1 << 30), sampler=sampler, nsim=nsim, timeout=timeout or self.timeout)
        p.st = self.stats
        p.plugins['POLY1305'] = polymac.PolyMac(p)
        p.plugins['FPOLY'] = field.PolyEq(p)
        p.plugins['SPOLY'] = field.PolyEq(p, field.SC)
        return p

    def absorb(self, E):
        for f, n in E.funcs.items():
            self.funcs[f] = self.funcs.get(f, 0) + n
        self.ic += E.ic
        self.forks += E.nforks
        self.stats.queries += E.solver_checks
        self.stats.solver_s += E.solver_time

    def vars_of(self, *lists):
        rs = [x for l in lists for x in l if type(x) is T.T]
        return [t for t in T.topo(rs) if t.op == 'var']

    def conc(self, bs, env):
        V = T.evaluate([b for b in bs if type(b) is T.T], env, prog.stub_uf)
        return bytes(T.val(b, V) for b in bs)

    # ------------------------------------------------------------ the standard obligation
    def check(self, op, ins, out, exp_ret, exp_out, assumptions=(), what='', sampler=None, concrete_spec=None,
              E=None, nsim=12, panic=False, timeout=None, online=True, lens=None, outlen=None, field=False, tries=None, stub=None, post=None, more=()):
        """_check; when it comes to no verdict, inputs suggested by the failed proof, by the case and at random are run
        against the real code, so that a wrong result is reported even where the proof got stuck."""
        if self.safety:
            # only that the call returns: no panic, overflow or access out of bounds
            if panic:
                return None
            if field:
                more = list(more) + [x for x in list(exp_out or []) + [exp_ret] if type(x) is T.T]
            exp_ret = exp_out = None
            concrete_spec = lambda cin, cout: (None, None)
            if post is not None:
                post = lambda o: ()
            online = online and field
        try:
            return self._check(op, ins, out, exp_ret, exp_out, assumptions, what, sampler, concrete_spec, E, nsim, panic,
                               timeout, online, lens, outlen, field, stub, post, more)
        except Violation:
            raise
        except Exception as e:
            if not panic and (exp_ret is not None or exp_out is not None or concrete_spec is not None):
                try:
                    self.hunt(op, ins, out, exp_ret, exp_out, assumptions, what, sampler, lens, outlen, tries, concrete_spec)
                except Violation:
                    raise
                except Exception:
                    self.notes.append(traceback.format_exc()[-600:])
            raise

    def hunt(self, op, ins, out, exp_ret, exp_out, assumptions, what, sampler, lens, outlen, tries, concrete_spec, n=32):
        P = self.prover(assumptions, sampler)
        allin = [x for b in ins for x in b] + list(out) + list((lens or {}).values()) + [outlen]
        vs = self.vars_of(allin, assumptions)
        exp = [x for x in list(exp_out or []) + [exp_ret] if type(x) is T.T]
        order = T.topo(exp)
        t0 = time.time()

        def envs():
            if tries is not None:
                for d in tries(self.rnd):
                    env = P.sample(vs)
                    for b, data in d:
                        for x, y in zip(b, data):
                            if type(x) is T.T:
                                env[x] = y
                    yield env
            for _ in range(n):
                yield P.sample(vs)
        for env in envs():
            if time.time() - t0 > 60:
                break
            if not P.holds(P.assumptions, env):
                continue
            V = T.evaluate(None, env, prog.stub_uf, order)
            er = None if exp_ret is None else T.val(exp_ret, V)
            eo = None if exp_out is None else [None if x is None else T.val(x, V) for x in exp_out]
            sized = lambda b, k: b if k is None else self.resize(b, k, env)
            cin = [sized(self.conc(b, env), (lens or {}).get(i)) for i, b in enumerate(ins)]
            cout = sized(self.conc(out, env), outlen)
            if concrete_spec is not None:
                er, eo = concrete_spec(cin, cout)
            if misbehaves(self.native().run(op, cin, cout), er, eo, cout):
                self.replay(op, cin, cout, er, eo, (what or op) + ': result differs')

    def _check(self, op, ins, out, exp_ret, exp_out, assumptions, what, sampler, concrete_spec,
               E, nsim, panic, timeout, online, lens, outlen, isfield, stub=None, post=None, more=()):
        """Executes op symbolically on ins with initial output `out` and decides: it does not panic
        (or, with panic=True, always panics), returns exp_ret (None: not compared) and leaves
        exp_out (None entries: not compared)."""
        E = E or self.engine()
        P = self.prover(assumptions, sampler, nsim, timeout)
        E.extra = list(P.assumptions)
        allin = [x for b in ins for x in b] + list(out) + list((lens or {}).values()) + [outlen]
        vs = self.vars_of(allin)
        sized = lambda b, n, env: b if n is None else self.resize(b, n, env)

        def cinputs(env):
            return ([sized(self.conc(b, env), (lens or {}).get(i), env) for i, b in enumerate(ins)], sized(self.conc(out, env), outlen, env))

        def fail(env, why):
            cin, cout = cinputs(env)
            if concrete_spec is not None:
                er, eo = concrete_spec(cin, cout)
            elif panic:
                er, eo = 'PANIC', None
            else:
                V = T.evaluate([x for x in list(exp_out or []) + [exp_ret] if type(x) is T.T], env, prog.stub_uf)
                er = None if exp_ret is None else T.val(exp_ret, V)
                eo = [None if x is None else T.val(x, V) for x in (exp_out or [])]
            self.replay(op, cin, cout, er, eo, what or why)

        hook = None
        if isfield:
            hook = field.FieldHook(E, P)
        roots = [x for x in list(exp_out or []) + [exp_ret] if type(x) is T.T]
        roots += [x for x in list(allin) + list(more) if type(x) is T.T and x.op != 'var']
        if stub is not None:
            # a function replaced by an arbitrary result, its arguments checked
            hook.stubs = {stub.name: stub}
            roots += [x for x in stub.roots() if type(x) is T.T]
            vs = sorted(set(vs) | set(self.vars_of(stub.roots())), key=lambda t: t.id)
        if roots and online:
            on = Online(P, roots, vs)
            if isfield:
                # arithmetic modulo the group order is recognised as a whole
                on.skip = field.hasmul
            with on:
                o = prog.run_op(E, op, ins, out, lens, outlen)
        else:
            E.watch_out = panic
            o = prog.run_op(E, op, ins, out, lens, outlen)
        self.absorb(E)
        if hook is not None:
            self.fieldstats(hook)
        if panic:
            for conds in E.dirty:
                self.obligations += 1
                st, env = P.prove_unsat(conds)
                if st == 'cex':
                    for v in vs:
                        env.setdefault(v, 0)
                    fail(env, 'output written before the panic')
                elif st != 'proved':
                    raise Undecided(what + ': output before the panic undecided')
            # must panic on every input satisfying the assumptions
            if o.panic is not None:
                self.obligations += 1
                # the path to the panic may itself be conditional: fork sides that do not panic are kept
                # alive by the engine, so an unconditional PathDead means all sides panic
                env = self.validate_env(P, vs)
                r = self.native().run(op, *cinputs(env))
                if r[0] == 'PANIC':
                    self.validated += 1
                else:
                    raise Undecided('%s: engine panics (%s) but the native run gives %r' % (what, o.panic, r))
                # panics discovered as obligations are allowed here
                return o
            # some input does not panic: is the surviving path feasible?
            if E.pc:
                st, env = P.prove_unsat(list(E.pc))
                if st == 'proved':
                    return o
                if st != 'cex':
                    raise Undecided(what + ': panic condition undecided')
                for v in vs:
                    env.setdefault(v, 0)
            else:
                env = self.validate_env(P, vs)
            fail(env, 'no panic where one is documented')
            return o
        if o.panic is not None:
            env = self.validate_env(P, vs)
            fail(env, 'panics: ' + o.panic)
            return o
        self.obligate(E, P, vs, fail)
        pairs = []
        if exp_ret is not None:
            pairs.append((o.ret, exp_ret, 32))
        if exp_out is not None:
            if len(exp_out) != len(o.out):
                raise Undecided('output sizes %d %d' % (len(o.out), len(exp_out)))
            pairs += [(a, b, 8) for a, b in zip(o.out, exp_out) if b is not None]
        if post is not None:
            pairs += [(c, 1, 1) for c in post(o)]
        if stub is not None:
            if not stub.pairs:
                raise Undecided('%s: %s is not reached' % (what or op, stub.name))
            if not self.safety:
                pairs += stub.pairs
        # cross-check of the encoding against the real binary
        if stub is None or stub.faithful:
            self.crosscheck(op, cinputs, o, P, vs)
        st, r = P.prove_eq(pairs)
        self.obligations += len(pairs)
        if st == 'cex':
            fail(r, 'result differs')
        elif st != 'proved':
            # solver counterexamples to parts of the argument, turned into concrete inputs
            for env in P.suspects(vs):
                if self.differs(op, cinputs(env), env, exp_ret, exp_out, concrete_spec):
                    fail(env, 'result differs')
            raise Undecided('%s: %d result bytes undecided' % (what or op, len(r)))
        return o

    def fieldstats(self, H):
        for k, v in H.stats.items():
            self.extra[k] = self.extra.get(k, 0) + v
        for f, l in H.memo.items():
            self.effects[f] = max(self.effects.get(f, 0), len(l))
        for x in H.fails[:5]:
            self.notes.append('not abstracted: %s at %s' % x)

    def differs(self, op, cin, env, exp_ret, exp_out, concrete_spec=None):
        V = T.evaluate([x for x in list(exp_out or []) + [exp_ret] if type(x) is T.T], env, prog.stub_uf)
        er = None if exp_ret is None else T.val(exp_ret, V)
        eo = None if exp_out is None else [None if x is None else T.val(x, V) for x in exp_out]
        if concrete_spec is not None:
            er, eo = concrete_spec(*cin)
        return misbehaves(self.native().run(op, *cin), er, eo, cin[1])

    def validate_env(self, P, vs):
        for _ in range(200):
            env = P.sample(vs)
            if P.holds(P.assumptions, env):
                return env
        st, env = P.full(P.assumptions, P.timeout)
        if st != 'sat':
            raise Undecided('assumptions have no model: vacuous case')
        for v in vs:
            env.setdefault(v, 0)
        return env

    def obligate(self, E, P, vs, fail):
        for pc, cond, info, where in E.obligations:
            self.obligations += 1
            st, env = P.prove_unsat(pc + [cond])
            if st == 'cex':
                for v in vs:
                    env.setdefault(v, 0)
                fail(env, info)
            elif st != 'proved':
                raise Undecided('obligation "%s" at %s' % (info, where))

    def resize(self, b, n, env):
        V = T.evaluate([n], env, prog.stub_uf)
        n = T.val(n, V)
        if n > 1 << 24:
            return prog.Huge(n)
        return (b + bytes(max(0, n - len(b))))[:n]

    def crosscheck(self, op, cinputs, o, P, vs, n=2):
        for _ in range(n):
            env = self.validate_env(P, vs)
            cin, cout = cinputs(env)
            r = self.native().run(op, cin, cout)
            V = T.evaluate([x for x in o.out + [o.ret] if type(x) is T.T], env, prog.stub_uf)
            mine = ('R', T.val(o.ret, V), bytes(T.val(x, V) for x in o.out))
            if r[0] != 'R' or r[1] != mine[1] or r[2] != mine[2]:
                raise Undecided('encoding disagrees with the native run of %s: %r %r' % (op, r, mine))
            self.validated += 1
            if len(self.samples) < 2:
                self.samples.append({'op': op, 'in': [c.hex()[:160] for c in cin], 'ret': r[1], 'out': r[2].hex()[:160]})

    def replay(self, op, cin, cout, er, eo, why):
        """run the real code on a concrete input; raise Violation if it misbehaves"""
        for prof in ('debug', 'release'):
            if prof == 'release':
                if not os.path.exists(os.path.join(build.BUILD, 'native', 'release', 'vreplay')):
                    build.build_native('release')
            n = prog.Native(prof)
            r = n.run(op, cin, cout)
            n.close()
            if misbehaves(r, er, eo, cout):
                raise Violation({'op': op, 'in': [c.hex() for c in cin], 'out_initial': cout.hex(), 'profile': prof,
                                 'expected_return': er, 'expected_out': None if eo is None else [x for x in eo],
                                 'observed': [r[0], r[1], r[2].hex()], 'why': why, 'case': self.name})
        raise Undecided('counterexample of %s (%s) does not reproduce natively: %s' % (op, why, [c.hex()[:64] for c in cin]))


def misbehaves(r, er, eo, cout):
    if er == 'PANIC':
        return r[0] != 'PANIC' or (r[2] != cout and not isinstance(cout, prog.Huge))
    if r[0] != 'R':
        return True
    if er is not None and r[1] != er:
        return True
    if eo is not None:
        if len(eo) != len(r[2]):
            return True
        return any(a is not None and a != b for a, b in zip(eo, r[2]))
    return False


# ---------------------------------------------------------------- scheduler
def _child(fn, name, args, conn, seed):
    t0 = time.time()
    R = Runner(name)
    res = {'name': name, 'status': 'proved'}
    try:
        fn(R, *args)
    except Violation as v:
        res['status'] = 'violation'
        res['record'] = v.rec
    except Undecided as e:
        res['status'] = 'undecided'
        res['why'] = str(e)[:2000]
    except (Unsupported, MemError, PathDead) as e:
        res['status'] = 'undecided'
        res['why'] = '%s: %s' % (type(e).__name__, str(e)[:1500])
    except Exception:
        res['status'] = 'undecided'
        res['why'] = traceback.format_exc()[-3000:]
    if R.nat is not None:
        try:
            R.nat.p.kill()
        except Exception:
            pass
    res.update(stats=dict(R.stats.__dict__), funcs=R.funcs, ic=R.ic, forks=R.forks, validated=R.validated,
               obligations=R.obligations, notes=R.notes, extra=R.extra, effects=R.effects, samples=R.samples, wall=time.time() - t0,
               terms=T.nterms(), rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024)
    conn.send(res)
    conn.close()
    os._exit(0)


def run_jobs(jobs, budget, workers=8, stop_on_violation=True, verbose=True):
    """jobs: list of (name, fn, args) or (name, fn, args, limit_s)"""
    t0 = time.time()
    ctx = mp.get_context('fork')
    todo = list(jobs)
    run = []
    out = []
    stop = False
    while todo or run:
        while todo and len(run) < workers and not stop:
            j = todo.pop(0)
            name, fn, args = j[:3]
            lim = j[3] if len(j) > 3 else budget
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, name, args, b, SEED))
            p.start()
            b.close()
            run.append((p, a, name, time.time(), lim))
        if stop and not run:
            break
        mp.connection.wait([r[1] for r in run], timeout=1.0)
        nrun = []
        for p, a, name, ts, lim in run:
            done = False
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = {'name': name, 'status': 'undecided', 'why': 'worker died'}
                p.join()
                done = True
            elif not p.is_alive():
                res = {'name': name, 'status': 'undecided', 'why': 'worker died (exit %s)' % p.exitcode}
                done = True
            elif time.time() - ts > lim or time.time() - t0 > budget or (stop and time.time() - t0 > 5):
                p.kill()
                p.join()
                res = {'name': name, 'status': 'undecided', 'why': 'time limit', 'wall': time.time() - ts}
                done = True
            if done:
                a.close()
                out.append(res)
                if verbose:
                    print('  [%6.1fs] %-46s %-10s %.1fs rss=%sM q=%s %s' % (time.time() - t0, res['name'], res['status'], res.get('wall', 0), res.get('rss'), res.get('stats', {}).get('queries'), res.get('why', '')[:300]), flush=True)
                if res['status'] == 'violation' and stop_on_violation:
                    stop = True
            else:
                nrun.append((p, a, name, ts, lim))
        run = nrun
        if time.time() - t0 > budget:
            for j in todo:
                out.append({'name': j[0], 'status': 'undecided', 'why': 'not started: time budget'})
            todo = []
        if stop:
            todo = []
    return out


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                res.append(l)
    return res


def finish(pid, results, meta, t0):
    """print the verdict, write evidence, return the exit status"""
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    viol = [r for r in results if r['status'] == 'violation']
    und = [r for r in results if r['status'] == 'undecided']
    st = Stats()
    funcs = {}
    tot = {'ic': 0, 'forks': 0, 'validated': 0, 'obligations': 0}
    samples = []
    extra, effects, notes = {}, {}, []
    for r in results:
        if 'stats' in r:
            st.add(r['stats'])
            for f, n in r['funcs'].items():
                funcs[f] = funcs.get(f, 0) + n
            for k in tot:
                tot[k] += r[k]
            samples += r['samples'][:1]
            for k, v in r['extra'].items():
                extra[k] = extra.get(k, 0) + v
            for k, v in r['effects'].items():
                effects[k] = max(effects.get(k, 0), v)
            notes += ['%s: %s' % (r['name'], x) for x in r['notes'][:3]]
    mod = prog.module(meta.get('ir', 'chk'))
    dem = sorted(set(mod.dem.get(f, f) for f in funcs))
    known = known_findings(pid)
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
          'coverage': {'states': sum(funcs.values()) + tot['forks'], 'transitions': tot['ic'],
                       'traces_validated_against_impl': tot['validated'],
                       'samples': samples[:4] or [{'note': 'none'}],
                       'states_meaning': 'symbolic states kept: calls executed symbolically plus path forks; transitions: IR instructions executed symbolically',
                       'functions_encoded': [f for f in dem if not f.startswith('vh_') and 'vharness' not in f],
                       'cases': len(results), 'cases_proved': len([r for r in results if r['status'] == 'proved']),
                       'undecided': [{'case': r['name'], 'why': r.get('why', '')[:300]} for r in und][:40],
                       'obligations_decided': tot['obligations'],
                       'bounds': meta.get('bounds', ''), 'outside_bounds': meta.get('outside', ''),
                       'queries_discharged': st.queries, 'query_results': {'unsat': st.unsat, 'sat_on_cuts_or_models': st.sat, 'unknown': st.unknown},
                       'queries_reused_up_to_renaming': st.cached, 'internal_equivalences_proved': st.merged, 'sides_with_one_normal_form': st.normal,
                       'solver': 'z3 ' + __import__('z3').get_version_string(), 'solver_time_s': round(st.solver_s, 2),
                       'per_case': [{'case': r['name'], 'status': r['status'], 'wall_s': round(r.get('wall', 0), 2)} for r in results][:400],
                       'encoding': "LLVM IR of rustc (opt-level 0, overflow checks %s) regenerated from /repo's working tree in this run" % ('on' if meta.get('ir', 'chk') == 'chk' else 'off')},
          'wall_s': round(time.time() - t0, 2)}
    if extra:
        ev['coverage']['field_abstraction'] = dict(extra, functions={mod.dem.get(f, f): n for f, n in sorted(effects.items())})
    if notes:
        ev['coverage']['notes'] = notes[:40]
    ev['coverage'].update(meta.get('extra', {}))
    for k in known:
        print('KNOWN-FINDING: ' + k[len('known: '):])
    rc = 0
    if viol:
        r = viol[0]['record']
        path = os.path.join(EVID, 'replay', '%s.json' % pid)
        r['property'] = pid
        json.dump(r, open(path, 'w'), indent=1)
        ev['violation'] = r
        print('case %s: %s' % (viol[0]['name'], r['why']))
        print('  op=%s in=%s' % (r.get('op'), [x[:128] for x in r.get('in', [])]))
        print('  observed=%s' % (str(r.get('observed'))[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    if not viol:
        for r in und:
            print('UNDECIDED (nothing claimed for it): %s: %s' % (r['name'], r.get('why', '').strip()[-400:]))
        print('%s: %d/%d cases decided, %d obligations, %d queries (%.1f s solver), %.1f s' % (
            pid, len(results) - len(und), len(results), tot['obligations'], st.queries, st.solver_s, time.time() - t0))
    return rc
