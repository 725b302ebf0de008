#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property. Exit 0 held, 1 violated (VIOLATION line), 2 error."""
import json, os, sys, time, shutil, tempfile, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import *
import models


def known(prop):
    out = []
    f = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l and not l.startswith('fixed:'):
                k = json.loads(l)
                if k['property'] == prop:
                    out.append(k)
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        os.makedirs(WORK, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=prop + '-', dir=WORK)
        self.stats, self.samples, self.violations, self.known_hits = [], [], [], []
        self.replayed = 0
        self.nontrivial = 0
        self.extra = {}
        self.assumptions = []
        self.binary = None
        self.kf = known(prop)

    def thorough(self):
        return self.tier == 'thorough'

    def tlc(self, module, consts=None, **kw):
        recs, st = run_tlc(module, consts, scratch=self.scratch, seed=self.seed, **kw)
        self.stats.append(st)
        log(f'[{self.prop}] TLC {module} {consts or ""}: {st["states"]} states, {len(recs)} behaviours, {st["wall"]}s')
        return recs

    def tlcs(self, jobs, parallel=8, invs={}, **kw):
        """Several independent model checking runs, one worker each (TLC's string table has a global lock)."""
        from concurrent.futures import ThreadPoolExecutor
        out = []
        with ThreadPoolExecutor(parallel) as ex:
            futs = [ex.submit(run_tlc, m, c, scratch=self.scratch, seed=self.seed, workers=1, heap='3g', invariants=invs.get(m, ('Emit',)), **kw) for m, c in jobs]
            for (m, c), f in zip(jobs, futs):
                recs, st = f.result()
                self.stats.append(st)
                log(f'[{self.prop}] TLC {m} {str(c)[:100]}: {st["states"]} states, {len(recs)} behaviours, {st["wall"]}s')
                out += recs
        return out

    def harness(self, cases, hang=30):
        return run_harness(self.binary, cases, self.scratch, hang=hang)

    def violation(self, what, case):
        key = case.get('s')
        for k in self.kf:
            if k.get('source') == key and k.get('opts', '') == case.get('o', ''):
                self.known_hits.append(k)
                return
        self.violations.append((what, case))

    def replay(self, recs, min_cases=1, keys=None, default_opts=''):
        """Replays specification behaviours into the real parser and compares every observation the
        specification fixes."""
        seen = {}
        for r in recs:
            if keys:
                r = {k: v for k, v in r.items() if k in keys or k in ('s', 'o')}
            k = (r.get('o', ''), r['s'])
            seen[k] = r
        cases = [seen[k] for k in sorted(seen)]
        if len(cases) < min_cases:
            raise ToolError(f'only {len(cases)} behaviours were generated (expected at least {min_cases}): vacuous')
        ins = []
        for c in cases:
            o = 'v=' + views_for(c)
            if c.get('o'):
                o += ',' + c['o']
            if default_opts:
                o += ',' + default_opts
            ins.append((o, tobytes(c['s'])))
        t0 = time.time()
        obs = self.harness(ins)
        for c, o in zip(cases, obs):
            bad = compare(c, o)
            if bad:
                self.violation(f'{bad[0]}: specification says {str(bad[1])[:400]}; the parser gave {str(bad[2])[:400]}',
                               dict(c, key=bad[0], expected=bad[1], actual=bad[2]))
        self.replayed += len(cases)
        log(f'[{self.prop}] replayed {len(cases)} behaviours in {time.time()-t0:.1f}s')
        if cases and len(self.samples) < 6:
            import random
            rnd = random.Random(self.seed)
            for c in rnd.sample(cases, min(3, len(cases))):
                self.samples.append({k: (v if len(str(v)) < 400 else str(v)[:400]) for k, v in c.items()})
        return cases, obs

    def trace_checks(self, module, records, min_records=1, chunks=8):
        """Validates traces recorded from the real code against a trace specification: for every record TLC
        emits {"acc": i} when it is a behaviour and {"bad": i, why} when it is not."""
        from concurrent.futures import ThreadPoolExecutor
        if len(records) < min_records:
            raise ToolError(f'only {len(records)} recorded traces: vacuous')

        def one(n):
            part = records[n::chunks]
            path = os.path.join(self.scratch, f'{module}{n}.ndjson')
            with open(path, 'w', encoding='utf-8') as f:
                for r in part:
                    f.write(json.dumps(r, ensure_ascii=False) + '\n')
            return part, run_tlc(module, None, scratch=self.scratch, seed=self.seed, workers=1, heap='3g', env={'TRACE': path})

        total = 0
        with ThreadPoolExecutor(chunks) as ex:
            for part, (recs, st) in ex.map(one, range(chunks)):
                self.stats.append(st)
                acc = {r['acc'] for r in recs if 'acc' in r}
                for r in recs:
                    if 'bad' in r:
                        t = part[r['bad'] - 1]
                        self.violation(f'{r["why"]} at token {r["tok"]}: {str(t["t"][max(0, r["tok"] - 3):r["tok"] + 1])[:300]}', dict(t, key='t', expected=r['why'], actual=''))
                        acc.add(r['bad'])
                if len(acc) != len(part):
                    raise ToolError(f'{module}: {len(part) - len(acc)} traces without a verdict')
                total += len(part)
        self.replayed += total
        log(f'[{self.prop}] {total} recorded traces validated against {module}')
        import random
        for t in random.Random(self.seed).sample(records, min(3, len(records))):
            self.samples.append({k: (v if len(str(v)) < 400 else str(v)[:400]) for k, v in t.items()})


def finish(ctx, level, t0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(states=sum(s['states'] for s in ctx.stats), transitions=sum(s['transitions'] for s in ctx.stats),
               traces_validated_against_impl=ctx.replayed, samples=ctx.samples[:6],
               models=[dict(s) for s in ctx.stats])
    cov.update(ctx.extra)
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(ctx.violations), assumptions=ctx.assumptions)
    with open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in {json.dumps(k, sort_keys=True) for k in ctx.known_hits}:
        k = json.loads(k)
        print(f'KNOWN-FINDING: property={ctx.prop} {k["what"]}')
    if ctx.violations:
        rd = os.path.join(WORK, 'replay')
        os.makedirs(rd, exist_ok=True)
        ctx.violations.sort(key=lambda v: (len(v[1].get('s', '')), v[1].get('s', '')))
        for what, case in ctx.violations[:3]:
            h = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(rd, f'{ctx.prop}-{h}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=ctx.prop, what=what, case=case), f, indent=1, default=str)
            print(f'  source: {case.get("s")!r}\n  {what}')
            print(f'VIOLATION property={ctx.prop} replay={path}')
        if os.environ.get('VERIF_DUMP'):
            with open(os.environ['VERIF_DUMP'], 'w') as f:
                for what, case in ctx.violations:
                    if case.get('key') in ('L', 'Lm'):
                        e, a = set(case['expected']), set(case['actual'])
                        what = f'L: spec-only {sorted(e - a)} parser-only {sorted(a - e)} (multiset diff {len(case["expected"])}/{len(case["actual"])})'
                    f.write(f'{case.get("s")!r}  {case.get("o", "")}  {what}\n')
        print(f'{len(ctx.violations)} violating behaviours in total')
        return 1
    print(f'OK property={ctx.prop} tier={ctx.tier}: {cov["states"]} specification states, {ctx.replayed} behaviours replayed, {time.time()-t0:.1f}s')
    return 0


def main():
    if sys.argv[1:] == ['setup']:
        print('built', build())
        return 0
    if len(sys.argv) < 2 or sys.argv[1] not in models.CHECKS:
        print('usage: check.py <property> [quick|thorough]; properties:', ' '.join(sorted(models.CHECKS)))
        return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    try:
        ctx.binary = build()
        log(f'[{prop}] built in {time.time()-t0:.1f}s')
        models.CHECKS[prop](ctx)
        return finish(ctx, 'model_checking', t0)
    except ToolError as e:
        print(f'ERROR property={prop}: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={prop}: internal error')
        return 2
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


sys.exit(main())
